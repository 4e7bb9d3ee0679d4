import numpy as np
import rigeo as rg
from .. import gen, model as M
from ..core import Prop

P = Prop(
    "C22",
    rule="one case = one ellipsoid in a pose and one pseudo-inertia matrix placed at a known side of one boundary of the realizable set; "
    "non-trivial if can_realize was judged",
    technique="runtime monitoring: answers compared with point-mass witnesses inside the ellipsoid (realizable) and with a violated "
    "necessary condition (not realizable), both built by the harness for each case",
    note="decisions at a relative distance of at least 1e-6 from the boundary",
    assumptions=["positive semidefinite up to rounding means threshold -1e-9 for bodies whose pseudo-inertia matrix is singular"],
)


def params_of(rng, J):
    k = rng.integers(4)
    if k == 0:
        return rg.InertialParameters.from_pim(J)
    if k == 1:
        return rg.InertialParameters.from_vec(gen.vec_of_J(J))
    if k == 2:
        return rg.InertialParameters(mass=J[3, 3], h=J[:3, 3], H=J[:3, :3])
    return rg.InertialParameters(mass=J[3, 3], com=J[:3, 3] / J[3, 3], H=J[:3, :3])


def ell(rng, flat, u=1.0):
    lib, m = gen.ellipsoid(rng, 3, flat=flat, big=rng.random() < 0.3)
    if not flat:
        h, x = np.maximum(m.h, 0.1) * u, m.c * u
        lib, m = rg.Ellipsoid(h, rotation=m.R, center=x), M.Ell(h, m.R, x)
    return lib, m


def T(m):
    X = np.eye(4)
    X[:3, :3], X[:3, 3] = m.R, m.c
    return X


def local_psd(rng, nz, rank=None):
    """Random pseudo-inertia matrix of masses in the (normalized) local frame."""
    k = len(nz)
    Y = np.zeros((4, rank or k + 1))
    Y[nz] = rng.normal(size=(k, Y.shape[1]))
    Y[3] = rng.normal(size=Y.shape[1])
    while Y[3] @ Y[3] < 0.1:
        Y[3] = rng.normal(size=Y.shape[1])
    return Y @ Y.T


def witness(J, h):
    """Point masses in the axis-aligned ellipsoid with semi-axes h at the
    origin which have pseudo-inertia matrix J (None if there are none)."""
    nz = h > 0
    w, V = np.linalg.eigh(J)
    Y = V * np.sqrt(np.maximum(w, 0))
    Y = Y[:, w > 1e-12 * w[-1]]
    q = np.zeros(4)
    q[:3][nz] = -1 / h[nz] ** 2
    q[3] = 1
    # turn the factor until all columns have the same (non-negative) value
    n = Y.shape[1]
    for _ in range(60):
        D = np.einsum("ij,i,ij->j", Y, q, Y)
        mean = D.mean()
        a, b = int(np.argmin(D)), int(np.argmax(D))
        if D[b] - D[a] < 1e-13 * max(abs(D)):
            break
        # f(t) along the rotation from column a to column b hits the mean
        ya, yb = Y[:, a].copy(), Y[:, b].copy()
        B = ya @ (q * yb)
        f = lambda t: np.cos(t) ** 2 * D[a] + np.sin(t) ** 2 * D[b] + 2 * np.sin(t) * np.cos(t) * B - mean
        lo, hi = 0.0, np.pi / 2
        for _ in range(200):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if f(mid) < 0 else (lo, mid)
        t = (lo + hi) / 2
        Y[:, a], Y[:, b] = np.cos(t) * ya + np.sin(t) * yb, -np.sin(t) * ya + np.cos(t) * yb
    ms = Y[3] ** 2
    if np.any(ms < 1e-12 * ms.sum()):
        return None
    return ms, (Y[:3] / Y[3]).T


def with_trace(rng, m, level):
    """PSD J in the world whose mean normalized squared distance is level."""
    nz = np.flatnonzero(m.h > 0)
    J = local_psd(rng, nz)
    cur = np.sum(np.diag(J)[nz] / 1.0) / J[3, 3]
    s = np.sqrt(level / cur)
    D = np.ones(4)
    D[:3] = 0
    D[nz] = s * m.h[nz]
    J = J * np.outer(D, D) * rng.choice([1e-3, 0.1, 1.0, 10.0, 1e3])
    return J


LEVELS = [0.2, 0.9, 0.999, 1 - 1e-5, 1 + 1e-5, 1.001, 1.1, 3.0]


@P.group(quick=6000, thorough=120000)
def levels(c, rng, i):
    """Full-dimensional: exactly the level of the trace decides."""
    lib, m = ell(rng, False, gen.length_unit(rng))
    lv = LEVELS[i % len(LEVELS)]
    Jl = with_trace(rng, m, lv)
    X = T(m)
    J = X @ Jl @ X.T
    p = params_of(rng, J)
    want = lv < 1
    c.say(h=m.h, R=m.R, c=m.c, level=lv, J=J)
    if want:
        W = witness(Jl, m.h)
        if W is not None:
            ms, Q = W
            inside = np.max(np.sum((Q / m.h) ** 2, axis=1)) <= 1 + 1e-9
            same = np.allclose(gen.pim(ms, Q), Jl, rtol=0, atol=1e-9 * np.abs(Jl).max())
            if inside and same:
                c.seen("point-mass witness inside")
    lmin = np.linalg.eigvalsh(J)[0]
    if lmin < 1e-9 * np.abs(J).max():
        c.check(c.call(lib.can_realize, p, eps=-1e-6 * np.abs(J).max()) == want, "realizable iff the spread fits", level=lv, h=m.h, center=m.c, J=J)
        return
    c.check(c.call(lib.can_realize, p) == want, "realizable iff the spread fits", level=lv, h=m.h, center=m.c, J=J)
    # thresholds around the smallest eigenvalue
    for f, ok in ((0.5, True), (0.999, True), (1.001, False), (2.0, False)):
        c.check(c.call(lib.can_realize, p, eps=f * lmin) == (want and ok), "threshold on the smallest eigenvalue", f=f, level=lv, J=J)


@P.group(quick=3000, thorough=60000)
def masses(c, rng, i):
    """Masses inside (flat ellipsoids included) are always realizable."""
    flat = i % 2 == 1
    lib, m = ell(rng, flat, gen.length_unit(rng))
    n = int(rng.integers(1, 9)) if i % 20 else int(rng.integers(9, 300))
    Q = np.vstack((m.inside(rng, n), m.boundary(rng, n))) if not flat else m.inside(rng, 2 * n)
    Q = m.c + 0.9999 * (Q - m.c)
    ms = gen.masses(rng, 2 * n) * rng.choice([1e-2, 1.0, 10.0])
    ms[0] += 1e-3
    p = rg.InertialParameters.from_point_masses(ms, Q)
    c.say(h=m.h, R=m.R, c=m.c, ms=ms, Q=Q)
    c.check(c.call(lib.can_realize, p, eps=-1e-9 * max(1, np.abs(p.J).max())), "bodies inside are realizable", flat=flat, h=m.h, R=m.R, center=m.c, J=p.J)


@P.group(quick=2000, thorough=40000)
def inconsistent(c, rng, i):
    """A pseudo-inertia matrix with a negative eigenvalue is never realizable,
    however small its trace."""
    lib, m = ell(rng, i % 3 == 0)
    Jl = with_trace(rng, m, 0.3)
    nz = np.flatnonzero(m.h > 0)
    sub = np.append(nz, 3) if i % 3 == 0 else np.arange(4)
    if i % 3 == 0 and len(nz) == 0:
        return
    K = Jl[np.ix_(sub, sub)]
    w, V = np.linalg.eigh(K)
    a = -10.0 ** rng.uniform(-4, -1) * w[-1]
    K = K + (a - w[0]) * np.outer(V[:, 0], V[:, 0])
    if K[-1, -1] <= 1e-3 * w[-1]:
        return
    Jl = np.zeros((4, 4))
    Jl[np.ix_(sub, sub)] = K
    X = T(m)
    J = X @ Jl @ X.T
    c.say(h=m.h, R=m.R, c=m.c, J=J)
    c.check(not c.call(lib.can_realize, params_of(rng, J)), "inconsistent parameters are not realizable", J=J, h=m.h, flat=i % 3 == 0)
    # (a negative threshold below that eigenvalue accepts whatever fits)
    lmin = np.linalg.eigvalsh(J)[0]
    c.check(not c.call(lib.can_realize, params_of(rng, J), eps=0.9 * lmin), "below a negative threshold is not realizable", J=J, h=m.h)


@P.group(quick=4000, thorough=80000)
def flat(c, rng, i):
    """Flat ellipsoids: any mass outside the plane or line, or too much spread
    in it, is refused."""
    lib, m = ell(rng, True)
    lv = LEVELS[i % len(LEVELS)]
    nz = np.flatnonzero(m.h > 0)
    z = np.flatnonzero(m.h == 0)
    off = (i // 8) % 3
    if len(nz):
        Jl = with_trace(rng, m, lv)
    else:
        Jl, lv = np.diag([0.0, 0, 0, rng.uniform(0.1, 5)]), 0.0
    want = lv < 1
    slight = np.sqrt(10.0 ** rng.uniform(-6, -3) / Jl[3, 3])
    if off == 1:  # spread across the plane
        d = np.zeros(4)
        d[z[rng.integers(len(z))]] = rng.choice([0.02, 0.5, slight])
        if rng.random() < 0.5 and len(z) > 1:
            d[z] = 0.02 * rng.choice([-1, 1], len(z))
        Jl = Jl + np.outer(d, d) * Jl[3, 3]
        want = False
    elif off == 2:  # whole body beside the plane
        t = np.zeros(3)
        t[z[rng.integers(len(z))]] = rng.choice([-0.03, 0.03, 1.0, slight, -slight])
        Y = np.eye(4)
        Y[:3, 3] = t
        Jl = Y @ Jl @ Y.T
        want = False
    X = T(m)
    J = X @ Jl @ X.T
    p = params_of(rng, J)
    c.say(h=m.h, R=m.R, c=m.c, J=J, level=lv, off=off)
    tag = ["flat: realizable iff the spread fits", "flat: spread out of the plane is refused", "flat: body beside the plane is refused"][off]
    c.check(c.call(lib.can_realize, p, eps=-1e-9 * max(1, np.abs(J).max())) == want, tag, h=m.h, R=m.R, center=m.c, level=lv, J=J)
    if want and len(z):
        # J is singular: any positive threshold refuses
        c.check(not c.call(lib.can_realize, p, eps=1e-3), "flat: positive threshold refuses", h=m.h, J=J)


@P.group(quick=300, thorough=6000)
def dimension(c, rng, i):
    """Only three-dimensional ellipsoids realize rigid bodies."""
    d = int(rng.choice([1, 2, 4, 5]))
    lib, m = gen.ellipsoid(rng, d, flat=False, big=False)
    p = rg.InertialParameters.from_point_masses([1.0, 1.0, 1, 1], np.vstack((np.zeros(3), 0.01 * np.eye(3))))
    c.say(d=d, h=m.h)
    c.raises((AssertionError, ValueError, IndexError, TypeError), lib.can_realize, p, tag="other dimensions are refused")
