"""Emptiness of a cell of polynomial sign conditions by sums of squares.

The linear relaxation (every monomial its own unknown) is tightened by squares of linear
combinations of monomials until it is empty.  Floating point only chooses which squares
and which rows to keep; the final emptiness is decided in exact rational arithmetic by
lp.infeasible over genuine consequences of the sign conditions, so "True" is a proof.
"""
from fractions import Fraction
import time
import warnings
import lp

try:
    import numpy as np
    from scipy.optimize import linprog
except ImportError:      # without the numerical guide no square is proposed
    np = None


def mono_mul(a, b):
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def norm(m):
    return tuple(sorted(m))


def empty(cons, basis, rounds=30, seconds=4.0):
    """cons: (coef by monomial, const, kind); basis: monomials whose combinations may be squared"""
    if np is None or not basis:
        return False
    t0 = time.time()
    rows = [({norm(m): Fraction(x) for m, x in c.items()}, Fraction(k), t) for c, k, t in cons]
    basis = [()] + [b for b in basis if b != ()]
    prod = {}
    for i, a in enumerate(basis):
        for j, b in enumerate(basis[:i + 1]):
            prod[i, j] = prod[j, i] = mono_mul(a, b)
    cols = sorted({m for c, _, _ in rows for m in c if m != ()} | {m for m in prod.values() if m != ()}, key=repr)
    ix = {m: i for i, m in enumerate(cols)}
    n = len(cols)
    if n > 400:
        return False
    A, b, E, e = [], [], [], []

    def push(c, k, t):
        r = np.zeros(n + 1)
        s = max([abs(float(x)) for x in c.values()] + [1e-9])
        for m, x in c.items():
            r[ix[m]] += float(x) / s
        if t == "=":
            E.append(r)
            e.append(-float(k) / s)
        else:
            r2 = -r
            if t == ">":
                r2[n] = 1.0
            A.append(r2)
            b.append(float(k) / s)
    ineq = [r for r in rows if r[2] != "="]
    eqs = [r for r in rows if r[2] == "="]
    for r in ineq + eqs:
        push(*r)
    # squares of the basis monomials themselves
    seen = set()

    def square(v):
        """v: rational vector over basis -> constraint"""
        key = tuple(v)
        if key in seen or not any(v):
            return False
        seen.add(key)
        c, k = {}, Fraction(0)
        for i, x in enumerate(v):
            if not x:
                continue
            for j, y in enumerate(v):
                if y:
                    m = prod[i, j]
                    if m == ():
                        k += x * y
                    else:
                        c[m] = c.get(m, Fraction(0)) + x * y
        c = {m: x for m, x in c.items() if x}
        ineq.append((c, k, ">="))
        push(c, k, ">=")
        return True
    for i in range(1, len(basis)):
        square([Fraction(int(i == j)) for j in range(len(basis))])
    cost = np.zeros(n + 1)
    cost[n] = -1.0
    bounds = [(-1e4, 1e4)] * n + [(None, 1.0)]
    for it in range(rounds):
        if time.time() - t0 > seconds:
            return False
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = linprog(cost, A_ub=np.array(A), b_ub=np.array(b), A_eq=np.array(E) if E else None, b_eq=np.array(e) if E else None, bounds=bounds, method="highs")
        if r.status == 2:
            return lp.infeasible(ineq + eqs) if len(ineq) < 60 else False
        if r.status != 0:
            return False
        if -r.fun <= 1e-7:
            dual = r.ineqlin.marginals
            act = [q for q, d in zip(ineq, dual) if abs(d) > 1e-9] + [q for q, d in zip(eqs, r.eqlin.marginals if E else []) if abs(d) > 1e-9]
            if len(act) < 60 and lp.infeasible(act):
                return True
            if -r.fun < -1e-4:
                return False
        x = r.x
        M = np.zeros((len(basis), len(basis)))
        for i in range(len(basis)):
            for j in range(len(basis)):
                m = prod[i, j]
                M[i, j] = 1.0 if m == () else x[ix[m]]
        d = np.sqrt(np.maximum(np.abs(np.diag(M)), 1e-6))
        w, V = np.linalg.eigh(M / np.outer(d, d))
        added = False
        for i in range(1, len(basis)):
            for den in (5, 60):
                q = Fraction(float(M[0, i])).limit_denominator(den)
                if abs(q) < 50 and len(seen) < 150:
                    added |= square([-q if j == 0 else Fraction(int(i == j)) for j in range(len(basis))])
        for k in range(min(4, len(w))):
            if w[k] > -1e-9:
                break
            v = V[:, k] / d
            v = v / np.max(np.abs(v))
            small = np.min(np.abs(v)[np.abs(v) > 0.02])
            for u, dens in ((v, (1, 4, 12, 40, 1000)), (v / small, (1, 5))):
                for den in dens:
                    added |= square([Fraction(float(z)).limit_denominator(den) for z in u])
        if not added:
            return False
    return False
