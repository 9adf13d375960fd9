"""Shared by the mesh and domain checks: arrays of unknown length read through uninterpreted functions"""
from common import *
import expr as E

NN = 1 << 30
ACC = ['-fno-access-control']
XF = lambda i: F(int(i) * 2654435761 % 1009 - 500, 8)
IF = lambda i: (int(i) * 40503 >> 3) % 64
UFS = {'X': XF, 'idx': IF}


def sources(): return [('topo_%d' % p, 'topo.cpp', ['-DPART=%d' % p] + ACC) for p in (0, 1, 2, 3, 4, 5)]


def canon(t): return E.from_poly_int(E.poly_of_int(t, {})) if isinstance(t, T) else t


def X(i): return E.uf('X', (canon(i),), 'R') if isinstance(i, T) else E.uf('X', (i,), 'R')


def IDX(i): return E.uf('idx', (canon(i),), 'I') if isinstance(i, T) else E.uf('idx', (i,), 'I')


def xarr(n, D): return ('arr', 'R', 'X', n * D, None, 3 * 128)


def iarr(size, n): return ('arr', 'I', 'idx', size, (0, n), 20000)
