import numpy as np
import rigeo as rg
from .. import gen
from ..core import Prop
from .C17 import Truth, cross, rebuilds, sizes, system, units

P = Prop(
    "C20",
    rule="one case = one system of point masses with a body-frame velocity and acceleration (zero, pure rotation, pure translation, "
    "integer and large ones included), or one set of spatial vectors; non-trivial if wrenches or components were judged",
    technique="runtime monitoring: body wrench, regressor and lifting matrices compared with Newton's law summed over the individual "
    "point masses; spatial vector operations compared component-wise",
    note="to 1e-9 relative to the size of the terms, forces and moments apart, in any units of mass, length and time",
)


def vec3(rng, k):
    """A vector of ordinary size, for any of the three components."""
    return [np.zeros(3), rng.normal(size=3), rng.integers(-3, 4, 3).astype(float), rng.normal(size=3) * 50, np.eye(3)[rng.integers(3)]][k % 5]


def sv(rng, vu=1.0, wu=1.0):
    v, w = vec3(rng, int(rng.integers(5))) * vu, vec3(rng, int(rng.integers(5))) * wu
    k = rng.integers(4)
    if k == 0:
        return rg.SV(linear=gen.form(rng, v), angular=gen.form(rng, w)), v, w
    if k == 1:
        return rg.SV.from_vec(np.concatenate((w, v))), v, w
    if k == 2 and rng.random() < 0.3:
        return rg.SV(angular=w), np.zeros(3), w
    if k == 3 and rng.random() < 0.3:
        return rg.SV(linear=v), v, np.zeros(3)
    return rg.SpatialVector(v, w), v, w


def newton(T, v, w, dv, dw):
    f, n = np.zeros(3), np.zeros(3)
    for m, p in zip(T.ms, T.Q):
        a = dv + np.cross(dw, p) + np.cross(w, v + np.cross(w, p))
        f += m * a
        n += m * np.cross(p, a)
    return n, f


def term_sizes(T, v, w, dv, dw):
    """Magnitudes of the terms that make up momenta and wrenches."""
    m, L = T.m, T.L
    v, w, dv, dw = (np.linalg.norm(x) for x in (v, w, dv, dw))
    n = m * (L * dv + L * L * dw + L * w * v + L * L * w * w + v * v)
    f = m * (dv + L * dw + w * v + L * w * w)
    return 100 * np.repeat([n, f], 3), 100 * m * np.repeat([L * v + L * L * w, v + L * w], 3)


@P.group(quick=3000, thorough=60000)
def wrench(c, rng, i):
    mu, lu = units(rng)
    su = 1.0 if rng.random() < 0.6 else 10.0 ** rng.uniform(-5, 3)  # per second
    ms, Q = system(rng, i, (mu, lu))
    if i % 13 == 0:
        ms = np.zeros(len(ms))
    T = Truth(ms, Q)
    V, v, w = sv(rng, lu * su, su)
    A, dv, dw = sv(rng, lu * su**2, su**2)
    c.say(masses=ms, points=Q, v=v, w=w, dv=dv, dw=dw)
    f = rebuilds(T)
    p = c.call(f[int(rng.integers(len(f)))][1])
    n, fo = newton(T, v, w, dv, dw)
    zw, zm = term_sizes(T, v, w, dv, dw)
    W = c.call(p.body_wrench, V, A)
    det = dict(masses=ms, points=Q, v=v, w=w, dv=dv, dw=dw)
    c.close(W.angular, n, "moment is that of Newton's law", scale=zw[:3], **det)
    c.close(W.linear, fo, "force is that of Newton's law", scale=zw[3:], **det)
    c.close(W.vec, np.concatenate((n, fo)), "wrench vector: angular part first", scale=zw)
    # linear in the parameter vector
    Y = c.call(rg.RigidBody.regressor, V, A)
    c.check(np.shape(Y) == (6, 10), "regressor shape", got=np.shape(Y))
    c.close(Y @ T.vec, np.concatenate((n, fo)), "regressor reproduces the wrench", scale=zw, **det)
    b = rg.RigidBody(rg.Box([1, 1, 1]), p)
    c.check(np.array_equal(c.call(b.regressor, V, A), Y), "regressor from an instance")
    # lifting: momentum
    mom = T.M @ np.concatenate((w, v))
    L = c.call(rg.lift6, V)
    c.check(np.shape(L) == (6, 10), "lifting matrix shape", got=np.shape(L))
    c.close(L @ T.vec, mom, "lifting matrix reproduces the momentum", scale=zm, **det)
    c.close(p.M @ V.vec, mom, "spatial mass matrix reproduces the momentum", scale=zm, **det)
    # power: the wrench changes the kinetic energy at the right rate
    if i % 3 == 0:
        rate = sum(m * (v + np.cross(w, q)) @ (dv + np.cross(dw, q) + np.cross(w, v + np.cross(w, q))) for m, q in zip(ms, Q))
        c.close(W.vec @ V.vec, rate, "power of the wrench", scale=zw @ np.abs(np.repeat([np.linalg.norm(w), np.linalg.norm(v)], 3)))


@P.group(quick=1000, thorough=20000)
def regressor_fit(c, rng, i):
    """The regressor as a matrix: equal to the linear map applied to all ten
    independent parameter directions, physical or not."""
    lu, su = (1.0, 1.0) if rng.random() < 0.6 else 10.0 ** rng.uniform(-4, 3, 2)
    V, v, w = sv(rng, lu * su, su)
    A, dv, dw = sv(rng, lu * su**2, su**2)
    c.say(v=v, w=w, dv=dv, dw=dw)
    Y = c.call(rg.RigidBody.regressor, V, A)
    L = c.call(rg.lift6, V)
    # point masses whose parameter vectors span everything
    rhs, mom = [], []
    for k in range(14):
        q = rng.normal(size=3) * lu
        T = Truth(np.array([1.0]), q[None])
        rhs.append(np.concatenate(newton(T, v, w, dv, dw)))
        mom.append(T.M @ np.concatenate((w, v)))
        zw, zm = term_sizes(T, v, w, dv, dw)
        c.close(Y @ T.vec, rhs[-1], "regressor on spanning point masses", scale=zw)
        c.close(L @ T.vec, mom[-1], "lifting matrix on spanning point masses", scale=zm)


@P.group(quick=2000, thorough=40000)
def vectors(c, rng, i):
    u1, u2 = (1.0, 1.0) if rng.random() < 0.6 else 10.0 ** rng.uniform(-8, 5, 2)
    a, v, w = sv(rng, u1, u2)
    b, v2, w2 = sv(rng, u1, u2)
    k = [2, 0.5, -3, rng.normal() * 10, np.float64(1.5), 1][i % 6]
    c.say(v=v, w=w, v2=v2, w2=w2, k=k)
    v, w, v2, w2 = (np.asarray(x, float) for x in (v, w, v2, w2))

    def eq(r, lin, ang, tag):
        sl, sa = (max(np.abs(x).max() for x in y) for y in ((lin, v, v2), (ang, w, w2)))
        c.close(r.linear, lin, tag + ": linear part", tol=1e-12, scale=sl)
        c.close(r.angular, ang, tag + ": angular part", tol=1e-12, scale=sa)
        c.close(r.vec, np.concatenate((ang, lin)), tag + ": vector", tol=1e-12, scale=np.repeat([sa, sl], 3))

    eq(a, v, w, "construction")
    eq(c.call(lambda: a + b), v + v2, w + w2, "sum")
    eq(c.call(lambda: a - b), v - v2, w - w2, "difference")
    eq(c.call(lambda: a * k), v * k, w * k, "scaling")
    if k != 0:
        eq(c.call(lambda: a / k), v / k, w / k, "division")
    eq(c.call(lambda: (a + b) - b), v + v2 - v2, w + w2 - w2, "sum and difference")
    eq(rg.SV.from_vec(a.vec), v, w, "from vector")
    eq(rg.SV.from_vec(np.concatenate((w, v))), v, w, "from vector")
    eq(c.call(rg.SV.zero), np.zeros(3), np.zeros(3), "zero")
    eq(rg.SV(), np.zeros(3), np.zeros(3), "default")
    X = c.call(a.adjoint)
    n1, n2, m1, m2 = (np.linalg.norm(x) for x in (v, v2, w, w2))
    S = 10 * np.repeat([m1 * m2, n1 * m2 + m1 * n2], 3)
    c.close(X @ b.vec, np.concatenate((np.cross(w, w2), np.cross(v, w2) + np.cross(w, v2))), "adjoint is the bracket of twists", tol=1e-12, scale=S)
    c.close(X @ a.vec, np.zeros(6), "a twist commutes with itself", tol=1e-12, scale=10 * np.repeat([m1 * m1, m1 * n1], 3))
    c.close(X @ b.vec, -(c.call(b.adjoint) @ a.vec), "bracket is antisymmetric", tol=1e-12, scale=S)
    eq(a, v, w, "operands unchanged")
    for bad in (np.zeros(5), np.zeros(7), np.zeros((6, 1))):
        c.raises((AssertionError, ValueError), rg.SV.from_vec, bad, tag="wrong sizes are refused")
    c.raises((AssertionError, ValueError), rg.SV, np.zeros(2), np.zeros(3), tag="wrong sizes are refused")
    c.raises((AssertionError, ValueError), rg.SV, np.zeros(3), np.zeros(4), tag="wrong sizes are refused")


@P.group(quick=24, thorough=240)
def random_normal(c, rng, i):
    """Random spatial vectors have the requested mean and variances."""
    mean, v, w = sv(rng)
    cov = rg.SV(linear=rng.uniform(0, 2, 3), angular=rng.uniform(0, 2, 3))
    if i % 4 == 0:
        cov = rg.SV(linear=[0, 1, 2], angular=[0.5, 0, 3])
    seed = int(rng.integers(2**31))
    a = c.call(rg.SV.random_diag_normal, mean, cov, rng=seed)
    b = c.call(rg.SV.random_diag_normal, mean, cov, rng=seed)
    c.check(np.array_equal(a.vec, b.vec), "same seed, same vector")
    G = np.random.default_rng(seed)
    n = 1500
    X = np.array([rg.SV.random_diag_normal(mean, cov, rng=G).vec for _ in range(n)])
    s = np.sqrt(cov.vec)
    z = cov.vec == 0
    tol = 1e-7 * max(1, np.abs(mean.vec).max())
    c.check(np.all(np.abs(X.mean(0) - mean.vec) <= 6.5 * s / np.sqrt(n) + tol), "sample mean", mean=mean.vec, got=X.mean(0))
    C = np.cov(X.T)
    c.check(np.all(np.abs(np.diag(C) - cov.vec) <= 6.5 * np.sqrt(2 / n) * cov.vec + tol), "sample variances", cov=cov.vec, got=np.diag(C))
    O = np.abs(C - np.diag(np.diag(C))) <= 6.5 * np.outer(s, s) / np.sqrt(n) + tol
    c.check(np.all(O), "components are uncorrelated", C=C)
    c.say(mean=mean.vec, cov=cov.vec)
