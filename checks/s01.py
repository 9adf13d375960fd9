from common import *
import math
from m01 import VOIGT, sym6, flat, H
import m01


def sources(): return [('mech_2', 'mech.cpp', ['-DPART=2', '-fno-access-control'])]


def diff(t, x, memo=None):
    """derivative of a term by a variable (sums, products, quotients and log)"""
    memo = {} if memo is None else memo
    if not isinstance(t, T): return 0
    if t is x: return 1
    r = memo.get(t)
    if r is not None: return r
    a = t.args
    if t.op == 'var': r = 0
    elif t.op == 'add': r = E.add(diff(a[0], x, memo), diff(a[1], x, memo))
    elif t.op == 'mul': r = E.add(E.mul(diff(a[0], x, memo), a[1]), E.mul(a[0], diff(a[1], x, memo)))
    elif t.op == 'div': r = E.div(E.sub(E.mul(diff(a[0], x, memo), a[1]), E.mul(a[0], diff(a[1], x, memo))), E.mul(a[1], a[1]))
    elif t.op == 'uf' and a[0] == 'log': r = E.div(diff(a[1], x, memo), a[1])
    else: raise interp.Unsupported('derivative of ' + str(t.op))
    memo[t] = r
    return r


def lame(v):
    e, n = v.e[0], v.nu[0]
    return e / (2 * (1 + n)), e * n / ((1 + n) * (1 - 2 * n))


def log(x): return E.uf('log', (x,), 'R')


def inv3(M):
    d = spec.det(M); c = spec.cross
    r = [c(M[1], M[2]), c(M[2], M[0]), c(M[0], M[1])]
    return [[r[j][i] / d for j in range(3)] for i in range(3)], d


# energy densities as documented; stress and elasticity tensor are derived from them
def psi_nh(mu, l, J, C):
    return mu / 2 * (C[0][0] + C[1][1] + C[2][2] - 3) - mu * log(J) + l / 2 * log(J) * log(J)


def psi_svk(mu, l, J, C):
    e = [[H * (C[i][j] - int(i == j)) for j in range(3)] for i in range(3)]
    tr = e[0][0] + e[1][1] + e[2][2]
    return l / 2 * tr * tr + mu * sum(e[i][k] * e[k][i] for i in range(3) for k in range(3))


def grad(f, c, J, Ci):
    """df/dC as a symmetric tensor, with C of components c (Voigt) and J = sqrt(det C): dJ/dC = J/2 Ci.
    An off-diagonal component appears twice in C, hence the factor 1/2."""
    dJ = diff(f, J)
    g = []
    for x, (i, j) in zip(c, VOIGT):
        d = diff(f, x)
        if i != j: d = E.mul(H, d)
        g.append(E.add(d, E.mul(E.mul(dJ, J * H), Ci[i][j])))
    return g


UF = {'log': lambda x: F(math.log(float(x))) if not isinstance(x, T) else None}


def smp(rng):
    A = [[rng.randint(-20, 20) / F(20) + (2 if i == j else 0) for j in range(3)] for i in range(3)]
    C = [[sum(A[k][i] * A[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    return {'e': [F(rng.randint(1, 4000), 7)], 'nu': [F(rng.randint(-40, 48), 100)], 'J': [F(rng.randint(2, 40), 10)], 'c': [C[i][j] for i, j in VOIGT]}


def units(tier):
    us = []
    V = {'e': ('R', 1), 'nu': ('R', 1), 'J': ('R', 1), 'c': ('R', 6)}
    for nm, psi, cls in (('nh', psi_nh, 'NeoHookeanMaterial'), ('svk', psi_svk, 'SaintVenantKirchhoffMaterial')):
        pre = lambda v: [E.gt(v.e[0], 0), E.lt(-1, v.nu[0]), E.lt(v.nu[0], H), E.gt(v.J[0], 0), E.gt(spec.det(sym6(v.c)), 0)]
        args = lambda v, n: [('val', 'R', v.e[0]), ('val', 'R', v.nu[0]), ('val', 'R', v.J[0]), ('in', 'R', flat(sym6(v.c))), ('out', 'R', 'o', n)]

        def p_energy(v, o, psi=psi): return [('energy density as documented', E.eq(o.o[0], psi(*lame(v), v.J[0], sym6(v.c))))]

        def tens(v, psi=psi):
            # over fresh variables, so that the derivatives are taken of the formula, then instantiated
            mu, l, J = E.rvar('$mu'), E.rvar('$l'), E.rvar('$J'); c = [E.rvar('$c%d' % k) for k in range(6)]; ci = [E.rvar('$i%d' % k) for k in range(6)]
            Ci = sym6(ci)
            f = psi(mu, l, J, sym6(c))
            S = [E.mul(2, g) for g in grad(f, c, J, Ci)]
            Cv, _ = inv3(sym6(v.c)); m_, l_ = lame(v)
            env = {mu: m_, l: l_, J: v.J[0], **dict(zip(c, v.c)), **{x: Cv[i][j] for x, (i, j) in zip(ci, VOIGT)}}
            sb = lambda t: E.subst([t], env)[0] if isinstance(t, T) else t
            D = []
            for s in S:
                g = grad(s, c, J, Ci)
                # dCi_pq/dC_kl (symmetric) = -(Ci_pk Ci_ql + Ci_pl Ci_qk)/2
                for r, (k, q) in enumerate(VOIGT):
                    for x, (p, w) in zip(ci, VOIGT):
                        g[r] = E.add(g[r], E.mul(diff(s, x), E.mul(-H, Ci[p][k] * Ci[w][q] + Ci[p][q] * Ci[w][k])))
                D.append([E.mul(2, x) for x in g])
            return [sb(x) for x in S], [[sb(x) for x in r] for r in D]

        def p_stress(v, o, tens=tens):
            S, _ = tens(v); S = sym6(S)
            return [('S[%d,%d] = 2 dPsi/dC' % (i, j), E.eq(o.o[3 * i + j], S[i][j])) for i in range(3) for j in range(3)]

        def p_jac(v, o, tens=tens):
            _, D = tens(v)
            return [('D[%d%d,%d%d] = 2 dS/dC' % (VOIGT[r] + VOIGT[c]), E.eq(o.o[6 * r + c], D[r][c])) for r in range(6) for c in range(6)]
        for f, n, p in (('energy', 1, p_energy), ('stress', 9, p_stress), ('jacobian', 36, p_jac)):
            us.append(Unit('%s.%s' % (cls, f), '%s_%s' % (nm, f), 'mech_2', V, lambda v, n=n, args=args: args(v, n), p, pre=pre, sample=smp, ufs=UF, tol=F(1, 10**6),
                           funcs=['material::%s::%s' % (cls, {'energy': 'strain_energy_density', 'stress': 'PK2_stress', 'jacobian': 'PK2_stress_jacobian'}[f]), 'material::%s::before_update' % cls]))
    return us
