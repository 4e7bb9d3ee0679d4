import itertools
import math
import random

import numpy as np
import cvxpy as cp
import rigeo as rg
from .. import gen
from ..core import Prop

P = Prop(
    "C27",
    rule="one case = one helper on random valid input (sizes 1-8, integer, floating, list and non-contiguous input, very large numbers, "
    "repeated rows) or on input of an invalid size; non-trivial if an identity was judged",
    technique="runtime monitoring: return values compared with the defining identity of each helper",
    note="to 1e-12 relative; exact for integers",
    assumptions=[],
)


@P.group(quick=1500, thorough=30000)
def half_vectorization(c, rng, i):
    n = int(rng.integers(1, 9)) if i % 10 else int(rng.choice([9, 20, 60, 130, 200, 260])) + int(rng.integers(9))
    A = rng.normal(size=(n, n))
    A = (A + A.T) * 10.0 ** rng.integers(-9, 9)
    if i % 4 == 0:
        A = rng.integers(-9, 9, (n, n))
        A = A + A.T
    if i % 4 == 1:
        A = np.asfortranarray(A)
    c.say(n=n, A=A)
    v = c.call(rg.vech, A)
    want = np.array([A[a, b] for a in range(n) for b in range(a, n)], float)
    c.close(v, want, "half-vectorization lists the upper triangle row by row", tol=0)
    arg = v.tolist() if rng.random() < 0.3 else np.asarray(v, float)
    c.close(c.call(rg.unvech, arg), np.asarray(A, float), "the inverse recovers the matrix", tol=0)
    k = int(rng.integers(0, n + 1))
    B = rng.normal(size=(n, n))
    want = np.array([B[a, b] for a in range(n) for b in range(a + k, n)])
    c.close(c.call(rg.vech, B, k=k), want, "half-vectorization above a diagonal", tol=0)
    w = rng.normal(size=n * (n + 1) // 2)
    M = c.call(rg.unvech, w)
    c.close(M, M.T, "the inverse is symmetric", tol=0)
    c.close(c.call(rg.vech, M), w, "vech of unvech", tol=0)
    if i % 5 == 0:
        m = int(rng.choice([2, 4, 5, 7, 8, 9, 11, 14, 16, 20, 27]))
        c.raises((AssertionError, ValueError), rg.unvech, np.ones(m), tag="sizes of no half-vectorization are refused")
        c.raises((AssertionError, ValueError), rg.unvech, np.ones((3, 2)), tag="sizes of no half-vectorization are refused")
        c.raises((AssertionError, ValueError), rg.vech, np.ones((n, n + 1)), tag="non-square matrices are refused")


@P.group(quick=2000, thorough=40000)
def triangular(c, rng, i):
    big = [10**3, 10**6, 10**8, 2**26, 2**31, 10**12, 2**53, 10**18, 10**30][i % 9]
    n = int(rng.integers(1, 1000)) if big <= 1000 else big + int(rng.integers(-1000, 1000))
    t = n * (n + 1) // 2
    for x, want in ((t, True), (t + 1, n + 1 == 1), (t - 1, t - 1 in (1,)), (t + 2, n == 1), (t + n, False)):
        if x == t + 2:
            want = (n + 1) * (n + 2) // 2 == x
        if x == t - 1:
            want = n >= 2 and (n - 1) * n // 2 == x
        if x == t + 1:
            want = (n + 1) * (n + 2) // 2 == x
        got = c.call(rg.is_triangular_number, x)
        ok, m = got if isinstance(got, tuple) else (got, None)
        c.check(bool(ok) == want, "triangular numbers are recognized", x=x, got=got, want=want)
        if want and m is not None:
            c.check(m * (m + 1) // 2 == x, "the index of a triangular number", x=x, got=m)
        if x < 2**50:
            got = c.call(rg.is_triangular_number, float(x))
            c.check(bool(got[0]) == want, "triangular numbers given as floats", x=x, got=got)
            got = c.call(rg.is_triangular_number, np.int64(x))
            c.check(bool(got[0]) == want, "triangular numbers given as numpy integers", x=x, got=got)
    for x in (0, -1, -3, -t, 2.5, t + 0.5 if t < 2**50 else 0.5, 0.0):
        c.check(not c.call(rg.is_triangular_number, x)[0], "other numbers are not triangular", x=x)
    c.say(n=n)


@P.group(quick=2000, thorough=40000)
def lifting(c, rng, i):
    a, b = rng.normal(size=3) * 10.0 ** rng.integers(-6, 7), rng.normal(size=3)
    if i % 4 == 0:
        a, b = rng.integers(-5, 6, 3), rng.integers(-5, 6, 3)
    c.say(a=a, b=b)
    s = np.linalg.norm(a) * np.linalg.norm(b) + 1e-30
    S = c.call(rg.skew3, a)
    c.close(np.asarray(S) @ b, np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]), "skew matrix is the cross product", tol=1e-12, scale=s)
    c.close(np.asarray(S), -np.asarray(S).T, "skew matrix is skew", tol=0)
    A = rng.normal(size=(3, 3))
    A = A + A.T
    v = np.array([A[0, 0], A[0, 1], A[0, 2], A[1, 1], A[1, 2], A[2, 2]])
    c.close(c.call(rg.lift3, a) @ v, A @ a, "lifting matrix", tol=1e-12, scale=np.abs(A).sum() * np.abs(a).max() + 1e-30)
    # contact: force f at point a gives torque a x f, then the force
    J = c.call(rg.contact_jacobian, a)
    c.close(np.asarray(J) @ b, np.concatenate((np.cross(a, b), b)), "contact Jacobian", tol=1e-12, scale=np.r_[[s] * 3, [1.0 + np.abs(b).max()] * 3])
    if hasattr(rg, "lift6"):
        m, h = float(rng.uniform(0.1, 3)), rng.normal(size=3)
        I = A
        lu = gen.length_unit(rng, -3, 3)  # unit of length
        h, I, v = h * lu, I * lu**2, v * lu**2
        th = np.array([m, *h, *v])
        V = rg.SV(linear=rng.normal(size=3) * lu, angular=rng.normal(size=3))
        lin, ang = np.asarray(V.linear), np.asarray(V.angular)
        want = np.concatenate((I @ ang + np.cross(h, lin), m * lin - np.cross(h, ang)))
        c.close(c.call(rg.lift6, V) @ th, want, "spatial lifting matrix", tol=1e-11, scale=np.r_[[(1 + m + np.abs(A).sum()) * lu**2 * 10] * 3, [(1 + m) * lu * 10] * 3])
    for bad in (np.ones(2), np.ones(4), np.ones((3, 1))):
        c.raises((AssertionError, ValueError, IndexError), rg.skew3, bad, tag="vectors of other sizes are refused")
        c.raises((AssertionError, ValueError, IndexError), rg.lift3, bad, tag="vectors of other sizes are refused")


@P.group(quick=1500, thorough=30000)
def transforms(c, rng, i):
    d = int(rng.integers(1, 7))
    R, t = gen.rot(rng, d) if d > 1 else np.eye(1), rng.normal(size=d) * 10.0 ** rng.integers(-1, 3)
    k = i % 4
    kw = dict(rotation=R, translation=t)
    if k == 1:
        kw, R = dict(rotation=None, translation=t), np.eye(d)
    elif k == 2:
        kw, t = dict(rotation=R, translation=None), np.zeros(d)
    elif k == 3:
        kw = dict(rotation=R.tolist(), translation=t.tolist())
    c.say(d=d, R=R, t=t)
    T = c.call(rg.transform_matrix, dim=d, **kw)
    want = np.zeros((d + 1, d + 1))
    want[:d, :d], want[:d, d], want[d, d] = R, t, 1
    c.close(T, want, "transform matrix", tol=0)
    Ti = c.call(rg.transform_matrix_inv, dim=d, **kw)
    c.close(np.asarray(Ti) @ want, np.eye(d + 1), "inverse transform matrix", tol=1e-12, scale=1 + np.abs(t).max())
    if d == 3:
        c.close(c.call(rg.transform_matrix, **kw), want, "default dimension is three", tol=0)
        c.close(np.asarray(c.call(rg.transform_matrix_inv, **kw)) @ want, np.eye(4), "default dimension is three", tol=1e-12, scale=1 + np.abs(t).max())
    c.raises((AssertionError, ValueError), rg.transform_matrix, rotation=np.eye(d + 1), translation=t, dim=d, tag="other sizes are refused")
    c.raises((AssertionError, ValueError), rg.transform_matrix, rotation=R, translation=np.ones(d + 1), dim=d, tag="other sizes are refused")
    c.raises((AssertionError, ValueError), rg.transform_matrix_inv, rotation=R, translation=np.ones(d + 1), dim=d, tag="other sizes are refused")


@P.group(quick=800, thorough=15000)
def corners(c, rng, i):
    d = int(rng.integers(1, 8))
    u = gen.length_unit(rng, -6, 6)
    h = gen.extents(rng, d, flat=False)
    arg = gen.form(rng, h * u)
    c.say(d=d, h=h * u)
    V = 1 / u * np.asarray(c.call(rg.box_vertices, arg))
    want = {tuple(np.round(np.array(s) * h, 12)) for s in itertools.product([1, -1], repeat=d)}
    got = [tuple(np.round(v, 12)) for v in V]
    c.check(V.shape == (2**d, d) and len(set(got)) == 2**d and set(got) == want, "box corners, each once", n=2**d, got=V, h=h)


@P.group(quick=2000, thorough=40000)
def evaluation_times(c, rng, i):
    step = float(rng.choice([0.1, 0.01, 0.25, 1.0, rng.uniform(0.01, 2)]))
    k = i % 3
    if k == 0:
        duration = float(rng.uniform(0.001, 20))
    elif k == 1:
        duration = step * float(rng.uniform(0.01, 0.99))
    else:
        step = float(rng.choice([0.125, 0.25, 0.5, 1.0, 2.0]))
        duration = step * int(rng.integers(1, 60))  # exact multiples
    c.say(duration=duration, step=step)
    n, ts = c.call(rg.compute_evaluation_times, duration, step) if rng.random() < 0.7 else c.call(rg.compute_evaluation_times, duration=duration, step=step)
    ts = np.asarray(ts)
    c.check(len(ts) == n and n >= 1, "as many times as reported", got=(n, len(ts)))
    c.close(ts, np.arange(n) * step, "times start at zero and are a step apart", tol=1e-12, scale=1 + duration)
    near = abs(duration / step - round(duration / step)) < 1e-9
    if k == 2:
        c.check(n == round(duration / step), "times cover the interval, end excluded", got=n, duration=duration, step=step)
    elif not near:
        c.check(ts[-1] < duration <= ts[-1] + step, "times cover the interval", got=ts[-3:], duration=duration, step=step)
    if i % 7 == 0:
        n, ts = c.call(rg.compute_evaluation_times, 1.05)
        c.check(n == 11, "default step", got=n)
    for bad in ((0, 0.1), (-1, 0.1), (1, 0), (1, -0.1)):
        c.raises((AssertionError, ValueError), rg.compute_evaluation_times, *bad, tag="durations and steps must be positive")


@P.group(quick=1500, thorough=30000)
def validation_error(c, rng, i):
    n = int(rng.integers(1, 30)) if i % 3 else int(10 ** rng.uniform(1, 3.2))
    Y, w, th = rng.normal(size=(n, 6, 10)), rng.normal(size=(n, 6)), rng.normal(size=10)
    if i % 5 == 0:
        w = np.array([y @ th for y in Y])
    c.say(n=n, w=w)
    want = math.sqrt(sum(np.sum((y @ th - x) ** 2) for y, x in zip(Y, w)) / n)
    c.close(float(c.call(rg.validation_rmse, Y, w, th)), want, "root mean square of the wrench errors", tol=1e-12, scale=1 + want)


@P.group(quick=1200, thorough=20000)
def schur_matrices(c, rng, i):
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    A, C, B = rng.normal(size=(n, n)), rng.normal(size=(m, m)), rng.normal(size=(n, m))
    A, C = A + A.T, C + C.T
    want = np.block([[A, B], [B.T, C]])
    k = i % 4
    a, b, q = A, B, C
    if m == 1 and k in (1, 3):
        b = B[:, 0]
        q = float(C[0, 0])
    if n == 1 and m == 1 and k == 3:
        a, b = float(A[0, 0]), float(B[0, 0])
    if k in (2, 3):
        # as expressions whose values are these
        def ex(z):
            z = np.asarray(z, float)
            v = cp.Variable(z.shape)
            v.value = z
            return v
        a = ex(a) if rng.random() < 0.7 else a
        b = ex(b) if rng.random() < 0.7 else b
        q = ex(q) if rng.random() < 0.7 else q
    c.say(A=A, B=B, C=C, k=k)
    S = c.call(rg.schur, a, b, q)
    c.close(np.asarray(S.value), want, "Schur matrix", tol=1e-12, n=want.size)


@P.group(quick=2500, thorough=50000)
def unordered(c, rng, i):
    """Row comparison up to order, with repetitions counted."""
    n, d = int(rng.integers(1, 9)) if i % 10 else int(rng.integers(9, 80)), int(rng.integers(1, 5))
    A = rng.integers(-2, 3, (n, d)).astype(float) if i % 2 else rng.normal(size=(n, d))
    if n > 1 and i % 3 == 0:
        A[rng.integers(n)] = A[rng.integers(n)]
    p = rng.permutation(n)
    B = A[p] + rng.uniform(-1, 1, (n, d)) * 1e-10
    c.say(A=A, p=p)
    c.check(c.call(rg.allclose_unordered, A, B), "equal up to order", A=A, B=B)
    c.check(c.call(rg.allclose_unordered, A, A[p], rtol=0, atol=1e-12), "equal up to order with tolerances", A=A)
    D = B.copy()
    r = int(rng.integers(n))
    D[r, rng.integers(d)] += rng.choice([-1, 1]) * 0.37
    # (still the same multiset only if it happens to hit another row)
    ref = sorted(map(tuple, np.round(A, 6) + 0.0)) == sorted(map(tuple, np.round(D, 6) + 0.0))
    c.check(bool(c.call(rg.allclose_unordered, A, D)) == ref, "one row differs", A=A, B=D)
    c.check(bool(c.call(rg.allclose_unordered, D, A)) == ref, "one row differs", A=A, B=D)
    if n > 2:
        # same set of rows, different multiplicities
        U = rng.normal(size=(2, d))
        X = np.vstack([U[[0]]] * (n - 1) + [U[[1]]])
        Y = np.vstack([U[[0]]] * (n - 2) + [U[[1]]] * 2)
        c.check(not c.call(rg.allclose_unordered, X[rng.permutation(n)], Y[rng.permutation(n)]), "multiplicities count", X=X, Y=Y)
        c.check(not c.call(rg.allclose_unordered, Y[rng.permutation(n)], X[rng.permutation(n)]), "multiplicities count", X=X, Y=Y)
        c.check(c.call(rg.allclose_unordered, X[rng.permutation(n)], X), "repeated rows", X=X)
    c.raises((AssertionError, ValueError), rg.allclose_unordered, A, np.vstack((A, A[:1])), tag="other shapes are refused")


@P.group(quick=1500, thorough=30000)
def moments(c, rng, i):
    """Second moments and inertia matrices convert into each other."""
    G = rng.normal(size=(3, 3))
    H = G @ G.T
    if i % 4 == 1:
        u = 10 ** rng.uniform(-6, 6)
        want = np.trace(H) * np.eye(3) - H
        c.close(c.call(rg.H2I, H * u), want * u, "inertia matrix of a second moment matrix", tol=1e-12, scale=u * np.abs(H).max())
        c.close(c.call(rg.I2H, want * u), H * u, "second moment matrix of an inertia matrix", tol=1e-12, scale=u * np.abs(want).max())
    if i % 4 == 0:
        H = rng.integers(-4, 5, (3, 3))
        H = H + H.T
    want = np.trace(H) * np.eye(3) - H
    c.say(H=H)
    c.close(c.call(rg.H2I, H), want, "inertia matrix of a second moment matrix", tol=1e-12, scale=np.abs(H).max() + 1e-30)
    c.close(c.call(rg.I2H, want), np.asarray(H, float), "second moment matrix of an inertia matrix", tol=1e-12, scale=np.abs(H).max() + 1e-30)
    for bad in (np.eye(2), np.eye(4), np.ones(9)):
        c.raises((AssertionError, ValueError, IndexError), rg.H2I, bad, tag="other sizes are refused")
        c.raises((AssertionError, ValueError, IndexError), rg.I2H, bad, tag="other sizes are refused")
    # parameter vector to pseudo-inertia matrix, as a cvxpy expression
    m, h = float(rng.uniform(0.1, 3)), rng.normal(size=3)
    th = np.array([m, *h, *want[np.triu_indices(3)]])
    v = cp.Variable(10)
    v.value = th
    J = np.zeros((4, 4))
    J[:3, :3], J[:3, 3], J[3, :3], J[3, 3] = H, h, h, m
    c.close(np.asarray(c.call(rg.pim_must_equal_vec, v).value), J, "pseudo-inertia expression of a parameter vector", tol=1e-12, scale=1 + np.abs(J).max())
    E = c.call(rg.pim_must_equal_vec, th)
    c.close(np.asarray(getattr(E, "value", E)), J, "pseudo-inertia expression of a parameter vector", tol=1e-12, scale=1 + np.abs(J).max())
    # and the constraints that make a matrix a pseudo-inertia matrix
    lam = np.linalg.eigvalsh(J)[0]
    X = cp.Variable((4, 4))
    eps = float(max(0.0, lam) * rng.choice([0, 0.5, 0.9, 1.1, 2.0])) if lam > 1e-6 else float(rng.choice([0.0, 0.1]))
    cons = c.call(rg.pim_psd, X, eps=eps)
    X.value = J
    res = max(float(np.max(k.violation())) for k in cons)
    if abs(lam - eps) > 1e-6:
        c.check((res <= 1e-7) == (lam > eps), "positive semidefinite to the threshold", lam=lam, eps=eps, got=res)
    K = J.copy()
    K[0, 1] += 0.3
    X.value = K
    c.check(max(float(np.max(k.violation())) for k in cons) > 1e-3, "asymmetric matrices are refused", J=K)
    for var, val in ((cp.Variable(10), th), (cp.Variable((4, 4)), J)):
        E, cons = c.call(rg.pim_must_equal_param_var, var, eps)
        var.value = val
        c.close(np.asarray(E.value), J, "pseudo-inertia expression of either variable", tol=1e-12, scale=1 + np.abs(J).max())
        res = max(float(np.max(k.violation())) for k in cons)
        if abs(lam - eps) > 1e-6:
            c.check((res <= 1e-7) == (lam > eps), "positive semidefinite to the threshold", lam=lam, eps=eps, got=res)


@P.group(quick=1500, thorough=30000)
def random_values(c, rng, i):
    """Random weights are convex weights; random matrices are PSD."""
    sd = int(rng.integers(2**31))
    n = int(rng.integers(1, 7))
    shape = [n, (n,), (int(rng.integers(1, 5)), n), (2, int(rng.integers(1, 4)), n)][i % 4]
    c.say(n=n, shape=shape, sd=sd)
    g0 = (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate())
    W = np.asarray(c.call(rg.random_weight_vectors, shape, rng=sd))
    c.check(W.shape == ((n,) if np.isscalar(shape) else tuple(shape)), "shape of random weights", got=W.shape, want=shape)
    c.check(np.all(W >= 0) and np.allclose(W.sum(axis=-1), 1, atol=1e-12), "weights are non-negative and sum to one", n=W.size, got=W)
    A = np.asarray(c.call(rg.random_psd_matrix, n, rng=sd))
    c.check(A.shape == (n, n) and np.array_equal(A, A.T) or np.allclose(A, A.T, atol=1e-14), "random matrices are symmetric", got=A)
    c.check(np.linalg.eigvalsh((A + A.T) / 2)[0] >= -1e-12 and np.linalg.norm(A) > 0, "random matrices are positive semidefinite", got=A)
    p = c.call(rg.InertialParameters.random, rng=sd)
    for f in (lambda r: rg.random_weight_vectors(shape, rng=r), lambda r: rg.random_psd_matrix(n, rng=r), lambda r: rg.InertialParameters.random(rng=r).J):
        x, y, z, G = f(sd), f(np.random.default_rng(sd)), f(sd), np.random.default_rng(sd)
        c.check(np.array_equal(x, y) and np.array_equal(x, z), "same seed, same values", got=x, want=y, shape=shape)
        f(G)
        if n > 1:
            c.check(not np.array_equal(x, f(G)), "a generator is not restarted", got=x, shape=shape)
    c.check(g0 == (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate()), "global random state is untouched", shape=shape)
    c.check(p.mass > 0 and np.linalg.eigvalsh(p.J)[0] > -1e-12, "random parameters are consistent", J=p.J)
