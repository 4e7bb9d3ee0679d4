import itertools
from math import comb

import numpy as np
import cvxpy as cp
import rigeo as rg
from rigeo.moment import MomentIndex, MomentMatrix, Polynomial
from .. import cvx
from ..core import Prop

P = Prop(
    "C25",
    rule="one case = random polynomials and one atomic measure in 1-5 variables, orders 1-4; non-trivial if a value, an integral or a "
    "constraint residual was judged",
    technique="runtime monitoring: every symbolic object compared with ordinary evaluation at points and with sums over the atoms of a "
    "measure; constraint systems with the residuals of true moment matrices and of perturbed ones",
    note="to 1e-9 relative to the sum of absolute terms",
    assumptions=["polynomials use the documented index tuples, index strings or MomentIndex keys"],
)


def poly(rng, n, maxdeg=4, terms=None):
    """(exponent -> coefficient) of a random polynomial, possibly sparse."""
    out = {}
    tall = rng.random() < 0.15  # high powers
    wild = rng.random() < 0.25  # coefficients of very different sizes
    for _ in range(int(terms if terms is not None else rng.integers(0, 7))):
        e = np.zeros(n, int)
        for _ in range(int(rng.integers(0, maxdeg + 1))):
            e[rng.integers(n)] += 1
        if tall:
            e[rng.integers(n)] += int(rng.integers(6, 25))
            e = np.where(rng.random(n) < 0.3, e // 10, e)
        out[tuple(int(x) for x in e)] = float(rng.choice([1.0, -1.0, 2.0, 0.5, rng.normal()]))
        if wild:
            out[tuple(int(x) for x in e)] *= 10.0 ** int(rng.integers(-12, 10))
    return out


def build(rng, p):
    form = rng.choice(["tuple", "string", "index", "array"])
    if any(k > 9 for e in p for k in e) and form == "string":
        form = "tuple"
    if form == "string":
        return Polynomial({"".join(map(str, e)): v for e, v in p.items()})
    if form == "index":
        return Polynomial({MomentIndex(e): v for e, v in p.items()})
    return Polynomial({e: v for e, v in p.items()})


def value(p, x):
    x = np.asarray(x, float)
    return sum(v * np.prod([a**k for a, k in zip(x, e)]) for e, v in p.items()) if p else 0.0


def size(p, x):
    return sum(abs(v) * np.prod([abs(a) ** k for a, k in zip(x, e)]) for e, v in p.items())


def deg(p):
    return max((sum(e) for e, v in p.items() if v != 0), default=0)


def add(p, q):
    out = dict(p)
    for e, v in q.items():
        out[e] = out.get(e, 0.0) + v
    return {e: v for e, v in out.items() if v != 0}


def shift(p, s):
    return {tuple(a + b for a, b in zip(e, s)): v for e, v in p.items()}


def xs(rng, n):
    x = rng.normal(size=n)
    if rng.random() < 0.2:
        x = rng.integers(-2, 3, n)
    if rng.random() < 0.2:
        x = x * 0
    return x


def judge(c, rng, lib, p, n, what):
    c.check(int(lib.degree) == deg(p), f"degree of {what}", got=lib.degree, want=deg(p), p=p)
    for _ in range(3):
        x = xs(rng, n)
        arg = x.tolist() if rng.random() < 0.3 else x
        c.close(float(c.call(lib.evaluate, arg)), value(p, x), f"value of {what}", tol=1e-9, scale=size(p, x), p=p, x=x)
    # no explicit zero terms
    co = {tuple(k.value): float(v) for k, v in lib.coefficients.items()}
    c.check(all(v != 0 for v in co.values()), f"no zero terms in {what}", got=co)
    c.check(co.keys() == p.keys() and all(abs(co[k] - p[k]) <= 1e-12 * abs(p[k]) for k in p), f"terms of {what}", got=co, want=p)


@P.group(quick=4000, thorough=80000)
def polynomials(c, rng, i):
    n = int(rng.integers(1, 6))
    p, q = poly(rng, n), poly(rng, n)
    p, q = ({e: v for e, v in z.items() if v != 0} for z in (p, q))
    if i % 4 == 1:  # exact cancellation of some or all terms
        q = {e: (-v if rng.random() < 0.8 else v) for e, v in p.items()}
    c.say(n=n, p=p, q=q)
    a, b = build(rng, p), build(rng, q)
    judge(c, rng, a, p, n, "a polynomial")
    s = c.call(lambda: a + b)
    judge(c, rng, s, add(p, q), n, "a sum")
    judge(c, rng, c.call(lambda: b + a), add(p, q), n, "a sum")
    judge(c, rng, a, p, n, "a summand afterwards")
    e = tuple(int(x) for x in rng.integers(0, 3, n))
    judge(c, rng, c.call(a.localize, MomentIndex(e)), shift(p, e), n, "a localized polynomial")
    # values instead of variables
    keys = set(p)
    vals = {MomentIndex(k): float(rng.normal()) for k in keys}
    if p or rng.random() < 0.5:
        got = c.call(a.substitute, vals)
        got = float(np.asarray(got.value if hasattr(got, "value") else got))
        want = sum(v * vals[MomentIndex(k)] for k, v in p.items())
        c.close(got, want, "substituted values", tol=1e-9, scale=sum(abs(v * vals[MomentIndex(k)]) for k, v in p.items()), p=p)


@P.group(quick=1000, thorough=20000)
def zero_terms(c, rng, i):
    """Coefficients given as zero (or within the tolerance) are no terms."""
    n = int(rng.integers(1, 5))
    p = {e: v for e, v in poly(rng, n, terms=4).items() if v != 0}
    z = dict(p)
    for e in poly(rng, n, terms=3):
        if e not in p:
            z[e] = float(rng.choice([0.0, -0.0])) if i % 2 else 0
    c.say(n=n, p=z)
    judge(c, rng, Polynomial(z), p, n, "a polynomial with zero coefficients")
    tol = 1e-3
    zt = dict(z)
    for e in z:
        if e not in p:
            zt[e] = float(rng.uniform(-9e-4, 9e-4))
    zt = {e: v for e, v in zt.items()}
    judge(c, rng, Polynomial(zt, tol=tol), {e: v for e, v in p.items() if abs(v) > tol}, n, "a polynomial with a tolerance")
    Z = c.call(Polynomial.zeros)
    c.check(len(Z.coefficients) == 0 and float(Z.evaluate(xs(rng, n))) == 0 and int(Z.degree) == 0, "zero polynomial", got=str(Z))
    judge(c, rng, c.call(lambda: Z + Polynomial(p)), p, n, "zero plus a polynomial")
    judge(c, rng, c.call(lambda: Polynomial(p) + Z), p, n, "a polynomial plus zero")


@P.group(quick=1500, thorough=30000)
def constructors(c, rng, i):
    n = int(rng.integers(1, 6))
    a = rng.normal(size=n)
    if rng.random() < 0.4:
        a[rng.integers(n)] = 0.0
    b = float(rng.choice([0.0, 1.0, rng.normal()]))
    if i % 4 == 0:
        a, b = a * 10.0 ** rng.integers(-12, 10, n), b * 10.0 ** int(rng.integers(-12, 10))
    arg = a.tolist() if rng.random() < 0.3 else a
    c.say(a=a, b=b)
    p = {tuple(int(k == j) for k in range(n)): -a[j] for j in range(n) if a[j] != 0}
    if b != 0:
        p[(0,) * n] = b
    judge(c, rng, c.call(Polynomial.affine, arg, b), p, n, "an affine polynomial")
    d = int(rng.integers(0, 4)) if n > 3 else int(rng.integers(0, 6))
    ones = {e: 1.0 for e in itertools.product(range(d + 1), repeat=n) if sum(e) <= d}
    judge(c, rng, c.call(Polynomial.ones, n, d), ones, n, "the all-ones polynomial")


@P.group(quick=400, thorough=4000)
def basis(c, rng, i):
    n, d = int(rng.integers(1, 6)), int(rng.integers(0, 5))
    if comb(n + d, d) > 130:
        d = 3
    c.say(n=n, d=d)
    B = c.call(Polynomial.basis, n, d)
    got = [tuple(b.value) for b in B]
    want = [e for e in itertools.product(range(d + 1), repeat=n) if sum(e) <= d]
    c.check(sorted(got) == sorted(want), "basis lists each monomial up to the degree once", n=len(want), got=got, want=want)
    c.check(int(c.call(Polynomial.dim, n, d)) == len(want) == len(B), "dimension of the basis", got=Polynomial.dim(n, d), want=len(want))
    for k in range(d + 1):
        low = got[: comb(n + k, k)]
        c.check(sorted(low) == sorted(e for e in want if sum(e) <= k), "lower degrees form a leading block", got=low, k=k)
    if d >= 1 and n <= 5:
        c.check(got[: n + 1] == [(0,) * n] + [tuple(int(a == b) for a in range(n)) for b in range(n)], "one, then the variables in order", got=got[: n + 1])


@P.group(quick=800, thorough=15000)
def index_arithmetic(c, rng, i):
    n = int(rng.integers(1, 6))
    a, b, d = (rng.integers(0, 4, n) for _ in range(3))
    A, B, D = MomentIndex(a), MomentIndex(tuple(int(x) for x in b)), MomentIndex([int(x) for x in d])
    c.say(a=a, b=b)
    t = lambda x: tuple(int(v) for v in x)
    for got, want in ((A + B, a + b), (B + A, a + b), (A * B, a + b), (sum([A, B, D]), a + b + d), (sum([A, B], D), a + b + d)):
        c.check(tuple(got.value) == t(want), "indices add", got=got.value, want=want)
    c.check((A == B) == (t(a) == t(b)) and A == MomentIndex(t(a)) and hash(A) == hash(MomentIndex(t(a))), "index equality and hash", a=a, b=b)
    c.check(not (A == "x") and A != 3, "an index is nothing else")
    m = rng.integers(0, 3, n + 1)
    c.raises((AssertionError, ValueError), lambda: A + MomentIndex(m), tag="indices of other dimensions are refused")


def measure(rng, n):
    k = int(rng.integers(1, 7))
    return rng.uniform(0.1, 2, k), rng.uniform(-1.2, 1.2, (k, n))


def moment(w, X, e):
    return float(np.sum(w * np.prod(X ** np.array(e), axis=1)))


def mono(X, b):
    return np.prod(X ** np.array(b), axis=1)


@P.group(quick=1200, thorough=20000)
def matrices(c, rng, i):
    """Moment and localizing matrices equal the integrals they stand for."""
    n = int(rng.choice([1, 2, 3, 3, 4]))
    d = int(rng.integers(1, 5)) if n <= 2 else int(rng.integers(1, 4)) if n == 3 else int(rng.integers(1, 3))
    w, X = measure(rng, n)
    c.say(n=n, d=d, w=w, X=X)
    mm = c.call(MomentMatrix, n, d)
    B = [tuple(b.value) for b in Polynomial.basis(n, d)]
    r = len(B)
    c.check(tuple(mm.shape) == (r, r) and mm.r == r and mm.n == n and mm.d == d, "shape of the moment matrix", got=mm.shape, want=r)
    want = sum(wk * np.outer([mono(x[None], b)[0] for b in B], [mono(x[None], b)[0] for b in B]) for wk, x in zip(w, X))
    got = np.array([[moment(w, X, mm.indices[a, b].value) for b in range(r)] for a in range(r)])
    c.close(got, want, "moment matrix is the integral of products of monomials", tol=1e-9, n=r * r)
    for _ in range(3):
        p = {e: v for e, v in poly(rng, n, maxdeg=min(2 * d, 3), terms=int(rng.integers(1, 5))).items() if v != 0}
        if deg(p) > 2 * d:
            continue
        lp = build(rng, p)
        v = (deg(p) + 1) // 2
        k = comb(n + d - v, d - v)
        L = c.call(mm.localize, want, lp)
        Bk = B[:k]
        pv = np.array([value(p, x) for x in X])
        wantL = sum(wk * g * np.outer([mono(x[None], b)[0] for b in Bk], [mono(x[None], b)[0] for b in Bk]) for wk, g, x in zip(w, pv, X))
        c.close(L, wantL, "localizing matrix is the integral of the polynomial times monomials", tol=1e-9, n=k * k, scale=1 + np.abs(want).max() * (1 + sum(map(abs, p.values()))), p=p)
        dl = int(rng.integers(0, d - v + 1))
        S = c.call(mm.localizing_matrix, dl, lp)
        kl = comb(n + dl, dl)
        c.check(S.shape == (kl, kl), "shape of the symbolic localizing matrix", got=S.shape, want=kl)
        got = np.array([[sum(float(co) * moment(w, X, t.value) for t, co in S[a, b].coefficients.items()) for b in range(kl)] for a in range(kl)])
        c.close(got, wantL[:kl, :kl], "symbolic localizing matrix", tol=1e-9, n=kl * kl, scale=1 + np.abs(want).max() * (1 + sum(map(abs, p.values()))), p=p)


def residual(cons):
    return max([float(np.max(k.violation())) for k in cons], default=0.0)


@P.group(quick=400, thorough=6000)
def constraints(c, rng, i):
    """Moment constraints hold for exactly the matrices with that structure."""
    n = int(rng.choice([1, 2, 3]))
    d = int(rng.integers(1, 4)) if n <= 2 else int(rng.integers(1, 3))
    mm = MomentMatrix(n, d)
    V = cp.Variable(mm.shape)
    cons = c.call(mm.moment_constraints, V)
    B = [tuple(b.value) for b in Polynomial.basis(n, d)]
    r = len(B)
    # any vector of moments (not only those of measures) has the structure
    y = {}
    A = np.zeros((r, r))
    for a in range(r):
        for b in range(r):
            e = tuple(x + z for x, z in zip(B[a], B[b]))
            A[a, b] = y.setdefault(e, float(rng.normal()))
    c.say(n=n, d=d, y=sorted(y.items()))
    V.value = A
    c.check(residual(cons) <= 1e-12, "matrices with the structure satisfy the constraints", got=residual(cons), n=r * r)
    # break one repeated entry (upper triangle; symmetry is the PSD variable's)
    where = {}
    for a in range(r):
        for b in range(a, r):
            where.setdefault(tuple(x + z for x, z in zip(B[a], B[b])), []).append((a, b))
    rep = [k for k in where.values() if len(k) > 1]
    for _ in range(4):
        if not rep:
            break
        k = rep[int(rng.integers(len(rep)))]
        a, b = k[int(rng.integers(len(k)))]
        D = A.copy()
        D[a, b] += 0.1
        D[b, a] = D[a, b]
        V.value = D
        c.check(residual(cons) > 1e-3, "matrices without the structure violate the constraints", entry=(a, b), got=residual(cons), d=d, dim=n)
    # a change of all entries of one moment keeps the structure
    k = list(where.values())[int(rng.integers(len(where)))]
    D = A.copy()
    for a, b in k:
        D[a, b] += 0.5
        if a != b:
            D[b, a] += 0.5
    V.value = D
    c.check(residual(cons) <= 1e-12, "matrices with the structure satisfy the constraints", got=residual(cons))
    bad = cp.Variable((r + 1, r + 1))
    c.raises((AssertionError, ValueError), mm.moment_constraints, bad, tag="matrices of other sizes are refused")


@P.group(quick=200, thorough=3000)
def localizing(c, rng, i):
    """Localizing constraints hold for measures on the set and exclude those
    that visibly leave it."""
    n = int(rng.choice([1, 2, 3]))
    d = int(rng.integers(1, 4)) if n == 1 else 2 if n == 2 else int(rng.integers(1, 3))
    mm = MomentMatrix(n, d)
    g = {(0,) * n: 1.0}
    if i % 2:
        a = rng.normal(size=n)
        a /= np.linalg.norm(a)
        for k in range(n):
            g[tuple(int(j == k) for j in range(n))] = -a[k]
    else:
        for k in range(n):
            g[tuple(2 * int(j == k) for j in range(n))] = -1.0
    w, X = measure(rng, n)
    X = X / np.maximum(1.0, np.linalg.norm(X, axis=1))[:, None] * 0.9
    outside = i % 4 >= 2
    if outside:
        t = a * 1.5 if i % 2 else X[0] / np.linalg.norm(X[0]) * 1.5
        X = np.vstack((X * 0, t))[-1:]
        w = w[:1]
    B = [tuple(b.value) for b in Polynomial.basis(n, d)]
    Mv = sum(wk * np.outer([mono(x[None], b)[0] for b in B], [mono(x[None], b)[0] for b in B]) for wk, x in zip(w, X))
    c.say(n=n, d=d, g=g, X=X)
    V = cp.Variable(mm.shape, symmetric=True)
    cons = c.call(mm.localizing_constraints, V, [build(rng, g)])
    p = cp.Problem(cp.Minimize(cp.norm(V - Mv, "fro")), cons)
    good, st, v = cvx.judge(p, (lambda st, v: st == "optimal" and v >= 1e-2) if outside else (lambda st, v: st == "optimal" and v <= 1e-4 * (1 + np.abs(Mv).max())), 1e-2)
    c.check(good, "measures outside the set are excluded" if outside else "measures on the set satisfy the localizing constraints", got=(st, v), g=g, X=X, w=w, d=d)


@P.group(quick=150, thorough=2500)
def localizing_orders(c, rng, i):
    """Any polynomial (single monomials and odd degrees included) is localized at the full order the
    moments allow: mixtures whose low-order localizing matrix alone would be positive are excluded too."""
    n = 1 + i % 2
    d = int(rng.integers(2, 4)) if n == 1 else 2
    k = i % 5
    if k == 0:  # one coordinate, or a power of it
        g = {tuple(int(rng.integers(1, 4)) * int(j == i % n) for j in range(n)): float(rng.choice([1.0, -1.0]))}
    elif k == 1:
        g = {(1,) * n: 1.0}
    else:
        g = {}
        for _ in range(int(rng.integers(1, 4))):
            e = np.bincount(rng.integers(n, size=int(rng.integers(0, 4))), minlength=n)
            g[tuple(int(x) for x in e)] = float(rng.choice([1.0, -1.0, rng.normal()]))
        g = {e: v for e, v in g.items() if abs(v) > 0.1}
    v = (deg(g) + 1) // 2 if g else 0
    if not g or v > d:
        return
    m = int(rng.integers(1, 5))
    w, X = rng.uniform(0.2, 2, m), rng.uniform(-1.1, 1.1, (m, n))
    mm = MomentMatrix(n, d)
    B = [tuple(b.value) for b in Polynomial.basis(n, d)]
    kk = comb(n + d - v, n)
    F = np.array([[mono(x[None], b)[0] for b in B] for x in X])
    Mv = F.T @ (w[:, None] * F)
    pv = np.array([value(g, x) for x in X])
    L = F[:, :kk].T @ ((w * pv)[:, None] * F[:, :kk])
    lam = float(np.linalg.eigvalsh(L)[0])
    s = sum(map(abs, g.values()))
    c.say(n=n, d=d, g=sorted(g.items()), w=w, X=X)
    # distance of the moments from those that could be of a measure on the set
    low = -lam / (kk * s)
    if -1e-9 > lam and low < 0.01:
        return
    V = cp.Variable(mm.shape, symmetric=True)
    cons = c.call(mm.localizing_constraints, V, [build(rng, g)])
    p = cp.Problem(cp.Minimize(cp.norm(V - Mv, "fro")), cons)
    if lam < 0:
        if lam > -1e-9:
            return
        good, st, val = cvx.judge(p, lambda st, x: st == "optimal" and x >= 0.5 * low, 0.2 * low)
        c.check(good, "mixtures that the full order excludes are excluded", got=(st, val), low=low, g=g, X=X, w=w, d=d)
        c.seen("excluded by higher orders only", int(L[0, 0] > 0))
    else:
        good, st, val = cvx.judge(p, lambda st, x: st == "optimal" and x <= 1e-4 * (1 + np.abs(Mv).max()), 1e-2)
        c.check(good, "measures on the set satisfy the localizing constraints", got=(st, val), g=g, X=X, w=w, d=d)
