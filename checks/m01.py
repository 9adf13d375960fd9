from common import *

VOIGT = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]


def sources(): return [('mech_1', 'mech.cpp', ['-DPART=1'])]


def sym6(s):
    """symmetric 3x3 tensor of its six components (Voigt order)"""
    M = [[None] * 3 for _ in range(3)]
    for x, (i, j) in zip(s, VOIGT): M[i][j] = M[j][i] = x
    return M


def flat(M): return [x for r in M for x in r]


H = F(1, 2)


def dyad1(a): return [[a[i][j] * a[k][l] for k, l in VOIGT] for i, j in VOIGT]
def dyad2(a): return [[H * (a[i][k] * a[j][l] + a[i][l] * a[j][k]) for k, l in VOIGT] for i, j in VOIGT]


def units(tier):
    us = []
    for f, S, w in (('dyad1', dyad1, 'a_ij a_kl'), ('dyad2', dyad2, '(a_ik a_jl + a_il a_jk)/2')):
        for o, on in (('c', 'column'), ('r', 'row')):
            us.append(Unit('symmetric_dyad_%s (%s-major)' % (f[-1], on), '%s_%s' % (f, o), 'mech_1', {'s': ('R', 6)}, lambda v: [('in', 'R', flat(sym6(v.s))), ('out', 'R', 'm', 36)],
                           lambda v, o, S=S, w=w: [('M[%d%d,%d%d] = %s' % (VOIGT[r] + VOIGT[c] + (w,)), E.eq(o.m[6 * r + c], S(sym6(v.s))[r][c])) for r in range(6) for c in range(6)],
                           funcs=['algebra::symmetric_dyad_%s<double, %sMajor>' % (f[-1], on.capitalize())]))
    for N, D, o in [(3, 2, 'c'), (6, 2, 'c'), (4, 2, 'c'), (8, 2, 'c'), (4, 3, 'c'), (10, 3, 'c'), (8, 3, 'c'), (20, 3, 'c'), (4, 3, 'r'), (8, 3, 'r')]:
        def post(v, o, N=N, D=D):
            G = rows(v.g, N, D); U = rows(v.u, N, D)
            return [('F[%d,%d] = delta + sum over nodes of u_i dN/dx_j' % (i, j), E.eq(o.m[i * D + j], sum((U[a][i] * G[a][j] for a in range(N)), int(i == j)))) for i in range(D) for j in range(D)]
        us.append(Unit('strain::F<%d,%d> (%s-major)' % (N, D, 'column' if o == 'c' else 'row'), 'defgrad_%d_%d%s' % (N, D, o), 'mech_1', {'g': ('R', N * D), 'u': ('R', N * D)},
                       lambda v, D=D: [('in', 'R', v.g), ('in', 'R', v.u), ('out', 'R', 'm', D * D)], post, funcs=['mechanics::elasticity::strain::F<%d, %d>' % (N, D)]))
    return us
