"""Emptiness of a rational polyhedron (closed under strict inequalities), exact arithmetic.

constraints: list of (coef dict var->Fraction, const, kind) meaning  sum coef*var + const  {'=', '>', '>='}  0
Variables are free reals.
"""
from fractions import Fraction

F0, F1 = Fraction(0), Fraction(1)


def _gauss(cons):
    """eliminate equalities; -> reduced inequality list or None if contradictory"""
    eqs = [(dict(c), k) for c, k, t in cons if t == "="]
    ineq = [(dict(c), k, t) for c, k, t in cons if t != "="]
    while eqs:
        c, k = eqs.pop()
        c = {v: x for v, x in c.items() if x}
        if not c:
            if k != 0:
                return None
            continue
        v = min(c, key=lambda u: (u.__hash__(),))
        a = c[v]

        def sub(d, e):
            x = d.get(v)
            if not x:
                return d, e
            f = x / a
            d = dict(d)
            for u, y in c.items():
                z = d.get(u, F0) - f * y
                if z:
                    d[u] = z
                else:
                    d.pop(u, None)
            return d, e - f * k
        eqs = [sub(d, e) for d, e in eqs]
        ineq = [sub(d, e) + (t,) for d, e, t in ineq]
    return ineq


def infeasible(cons, limit=4000):
    """True if certainly empty (over the rationals/reals)"""
    cons = [({v: Fraction(x) for v, x in c.items()}, Fraction(k), t) for c, k, t in cons]
    ineq = _gauss(cons)
    if ineq is None:
        return True
    rows = []
    for c, k, t in ineq:
        c = {v: x for v, x in c.items() if x}
        if not c:
            if k < 0 or (k == 0 and t == ">"):
                return True
            continue
        rows.append((c, k, t == ">"))
    if not rows:
        return False
    return _simplex_infeasible(rows)


def _simplex_infeasible(rows):
    # Find x, t:  c.x + k - t*strict >= 0, 0<=t<=1 ; maximise t. Infeasible iff no x, or max t == 0 with strict rows.
    # Farkas dual: exists y>=0, sum y_i c_i = 0, sum y_i k_i <= 0, and (sum y_i k_i < 0 or some strict y_i > 0).
    # Solve the dual as LP:  y >= 0, C^T y = 0, sum(y_i * w_i) = 1 with w=1 ; minimise  sum y_i k_i  ... use:
    #   normalise sum y = 1; minimise k.y ; if min<0 -> infeasible ; if min==0: maximise strict.y subject to k.y = 0.
    vs = sorted({v for c, _, _ in rows for v in c}, key=repr)
    n = len(rows)
    A = [[c.get(v, F0) for c, _, _ in rows] for v in vs]
    A.append([F1] * n)
    b = [F0] * len(vs) + [F1]
    cost = [k for _, k, _ in rows]
    r = simplex_min(A, b, cost)
    if r is None:
        return False
    if r < 0:
        return True
    if r > 0:
        return False
    if not any(s for _, _, s in rows):
        return False
    A.append(cost)
    b.append(F0)
    r = simplex_min(A, b, [-F1 if s else F0 for _, _, s in rows])
    return r is not None and r < 0


def simplex_min(A, b, c):
    """min c.y s.t. A y = b, y>=0 (b>=0). None if infeasible. bounded by construction."""
    m, n = len(A), len(c)
    T = []
    for i in range(m):
        s = 1 if b[i] >= 0 else -1
        T.append([s * x for x in A[i]] + [F1 if j == i else F0 for j in range(m)] + [s * b[i]])
    basis = [n + i for i in range(m)]
    N = n + m

    def run(obj, allowed):
        # reduced cost row
        z = list(obj) + [F0]
        for i, bi in enumerate(basis):
            if z[bi]:
                f = z[bi]
                z = [a - f * r for a, r in zip(z, T[i])]
        it = 0
        while True:
            e = None
            for j in range(allowed):
                if z[j] < 0:
                    e = j
                    break
            if e is None:
                return -z[-1]
            l = None
            for i in range(m):
                if T[i][e] > 0:
                    q = T[i][-1] / T[i][e]
                    if l is None or q < l[0] or (q == l[0] and basis[i] < basis[l[1]]):
                        l = (q, i)
            if l is None:
                return None
            i = l[1]
            p = T[i][e]
            T[i] = [x / p for x in T[i]]
            for k in range(m):
                if k != i and T[k][e]:
                    f = T[k][e]
                    T[k] = [a - f * r for a, r in zip(T[k], T[i])]
            if z[e]:
                f = z[e]
                z = [a - f * r for a, r in zip(z, T[i])]
            basis[i] = e
            it += 1
    v = run([F0] * n + [F1] * m, N)
    if v is None or v > 0:
        return None
    # drive artificials out
    for i in range(m):
        if basis[i] >= n:
            for j in range(n):
                if T[i][j]:
                    p = T[i][j]
                    T[i] = [x / p for x in T[i]]
                    for k in range(m):
                        if k != i and T[k][j]:
                            f = T[k][j]
                            T[k] = [a - f * r for a, r in zip(T[k], T[i])]
                    basis[i] = j
                    break
    return run(list(c) + [F0] * m, n)
