import numpy as np
import cvxpy as cp
import rigeo as rg
from .. import gen
from ..core import Prop

P = Prop(
    "C17",
    rule="one case = one system of point masses (1-12 masses, sometimes up to 2000, collinear, planar, massless and far-away systems included) and every "
    "representation of it, rebuilt from each other; non-trivial if representations were compared with the defining sums",
    technique="runtime monitoring: every representation compared with its defining sum over the point masses, through chains of "
    "rebuilds from each representation",
    note="to 1e-9 relative to the size of the sums, entry by entry, in any units of mass and length",
    assumptions=["massless bodies have zero moments unless they are built with h = 0 and a second moment"],
)


def units(rng):
    """Units of mass and length: kilograms and meters, or anything else."""
    if rng.random() < 0.6:
        return 1.0, 1.0
    return 10.0 ** rng.uniform(-9, 6), 10.0 ** rng.uniform(-4, 4)


def system(rng, i, unit=None):
    """Point masses: masses and positions, in the given units."""
    ms, Q = metric_system(rng, i)
    mu, lu = unit or (1.0, 1.0)
    return ms * mu, Q * lu


def metric_system(rng, i):
    n = int(rng.integers(1, 13)) if rng.random() < 0.97 else int(10 ** rng.uniform(1.2, 3.3))
    k = i % 8
    ms = gen.masses(rng, n)
    Q = rng.normal(size=(n, 3))
    if k == 1:
        Q = np.outer(rng.normal(size=n), rng.normal(size=3)) + rng.normal(size=3)
    elif k == 2:
        Q[:, int(rng.integers(3))] = 0.7
    elif k == 3:
        Q = np.repeat(Q[:1], n, axis=0)
    elif k == 4:
        Q = Q + rng.uniform(-30, 30, 3)
    elif k == 5:
        Q = rng.integers(-2, 3, (n, 3)).astype(float)
        ms = rng.integers(1, 4, n).astype(float)
    elif k == 6:
        Q = Q * 1e-2
        ms = ms * 1e-3
    elif k == 7:
        ms = ms * 1e3
    u = rng.random()
    if u < 0.06:  # far, but light: as much second moment as the others
        j, f = int(rng.integers(n)), 10.0 ** rng.uniform(1, 3)
        Q[j] = Q[j] * f
        ms[j] = ms[j] / f**2
    elif u < 0.12:  # balanced about the origin exactly
        Q = np.repeat(Q, 2, axis=0) * np.tile([1.0, -1.0], n)[:, None]
        ms = np.repeat(ms, 2) * 10.0 ** rng.uniform(-4, 1)
    if ms.sum() == 0:
        ms[0] = 1.0
    return ms, Q


class Truth:
    """Everything by its defining sum."""

    def __init__(self, ms, Q):
        self.ms, self.Q = ms, Q
        self.m = sum(ms)
        self.h = sum((m * p for m, p in zip(ms, Q)), np.zeros(3))
        self.H = sum((m * np.outer(p, p) for m, p in zip(ms, Q)), np.zeros((3, 3)))
        self.I = sum((m * (p @ p * np.eye(3) - np.outer(p, p)) for m, p in zip(ms, Q)), np.zeros((3, 3)))
        if self.m > 0:
            self.c = self.h / self.m
            D = Q - self.c
            self.Hc = sum((m * np.outer(p, p) for m, p in zip(ms, D)), np.zeros((3, 3)))
            self.Ic = sum((m * (p @ p * np.eye(3) - np.outer(p, p)) for m, p in zip(ms, D)), np.zeros((3, 3)))
        else:
            self.c = self.h * 0
            self.Hc, self.Ic = self.H, self.I
        self.J = sum((m * np.outer(np.append(p, 1), np.append(p, 1)) for m, p in zip(ms, Q)), np.zeros((4, 4)))
        self.vec = np.array([self.m, *self.h, *self.I[np.triu_indices(3)]])
        # kinetic energy of a twist (angular first) is half V' M V
        M = np.zeros((6, 6))
        for m, p in zip(ms, Q):
            Jp = np.hstack((-cross(p), np.eye(3)))
            M += m * Jp.T @ Jp
        self.M = M
        self.L = float(np.sqrt(np.max(np.sum(Q**2, axis=1), initial=0)))  # size, for tolerances


def cross(v):
    return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])


def sizes(T):
    """Entry-wise magnitudes of the sums (masses, first and second moments have
    different units)."""
    m, h, H = T.m, T.m * T.L, T.m * T.L**2
    J = np.full((4, 4), H)
    J[3, :3] = J[:3, 3] = h
    J[3, 3] = m
    M = np.block([[np.full((3, 3), H), np.full((3, 3), h)], [np.full((3, 3), h), np.full((3, 3), m)]])
    return dict(m=m, h=h, H=H, J=J, M=M, vec=np.array([m, h, h, h] + [H] * 6))


def judge(c, p, T, how):
    s = dict(how=how, masses=T.ms, points=T.Q)
    z = sizes(T)
    H = 10 * z["H"]
    c.close(float(p.mass), T.m, "mass", scale=z["m"], **s)
    c.close(p.h, T.h, "first moment", scale=z["h"], **s)
    if T.m > 0:
        c.close(p.com, T.c, "center of mass", scale=T.L, how=how)
    c.close(p.H, T.H, "second moment matrix", scale=H, **s)
    c.close(p.I, T.I, "inertia matrix", scale=H, **s)
    c.close(p.Hc, T.Hc, "second moment matrix about the center of mass", scale=H, **s)
    c.close(p.Ic, T.Ic, "inertia matrix about the center of mass", scale=H, **s)
    c.close(p.vec, T.vec, "parameter vector", scale=10 * z["vec"], **s)
    c.close(p.J, T.J, "pseudo-inertia matrix", scale=10 * z["J"], **s)
    c.close(p.M, T.M, "spatial mass matrix", scale=10 * z["M"], **s)
    # the library's own linear map from vector to pseudo-inertia matrix
    if hasattr(rg, "pim_sum_vec_matrices"):
        J = sum(A * t for A, t in zip(rg.pim_sum_vec_matrices(), T.vec))
        c.close(J, T.J, "basis matrices map the vector to the pseudo-inertia matrix", scale=10 * z["J"], **s)


def rebuilds(T):
    IP = rg.InertialParameters
    h = dict(h=T.h), dict(com=T.c)
    out = []
    for a, n in zip(h, ("h", "com")):
        out.append((f"{n}+H", lambda a=a: IP(mass=T.m, **a, H=T.H)))
        out.append((f"{n}+I", lambda a=a: IP(mass=T.m, **a, I=T.I)))
        out.append((f"{n}+Hc", lambda a=a: IP(mass=T.m, **a, H=T.Hc, translate_from_com=True)))
        out.append((f"{n}+Ic", lambda a=a: IP(mass=T.m, **a, I=T.Ic, translate_from_com=True)))
    out.append(("vec", lambda: IP.from_vec(T.vec)))
    out.append(("pim", lambda: IP.from_pim(T.J)))
    out.append(("points", lambda: IP.from_point_masses(T.ms, T.Q)))
    out.append(("points as lists", lambda: IP.from_point_masses(list(T.ms), [list(q) for q in T.Q])))
    return out


@P.group(quick=2500, thorough=50000)
def representations(c, rng, i):
    ms, Q = system(rng, i, units(rng))
    T = Truth(ms, Q)
    c.say(masses=ms, points=Q)
    ps = []
    for how, f in rebuilds(T):
        p = c.call(f)
        judge(c, p, T, how)
        ps.append(p)
    # from each representation that the library itself reports
    p = ps[int(rng.integers(len(ps)))]
    chain = []
    IP = rg.InertialParameters
    for _ in range(4):
        k = rng.choice(["vec", "pim", "Hc", "Ic", "H", "I", "hI"])
        p = {
            "vec": lambda: IP.from_vec(p.vec),
            "pim": lambda: IP.from_pim(p.J),
            "Hc": lambda: IP(mass=p.mass, com=p.com, H=p.Hc, translate_from_com=True),
            "Ic": lambda: IP(mass=p.mass, com=p.com, I=p.Ic, translate_from_com=True),
            "H": lambda: IP(mass=p.mass, h=p.h, H=p.H),
            "I": lambda: IP(mass=p.mass, com=p.com, I=p.I),
            "hI": lambda: IP(mass=p.mass, h=p.h, I=p.I),
        }[k]()
        chain.append(str(k))
        judge(c, p, T, "chain " + ">".join(chain))
    a, b = ps[int(rng.integers(len(ps)))], ps[int(rng.integers(len(ps)))]
    if sizes(T)["J"].max() <= 1e5:  # else rounding alone exceeds the comparison's fixed tolerance
        c.check(bool(a.is_same(b)) and bool(b.is_same(a)), "equal parameters compare the same", a=a.J, b=b.J)
    # any entry changed by a few parts in ten thousand of itself makes a difference
    J2 = T.J.copy()
    r, s = int(rng.integers(4)), int(rng.integers(4))
    J2[r, s] += rng.choice([-1, 1]) * 10.0 ** rng.uniform(-3.3, 0) * max(np.abs(J2[r, s]), 1e-3)
    J2[s, r] = J2[r, s]
    if J2[3, 3] > 0 and ((r, s) != (3, 3) or T.h @ T.h == 0):
        q = IP.from_pim(J2)
        c.check(not a.is_same(q) and not q.is_same(a), "different parameters compare different", entry=(r, s), J=T.J, J2=J2)
    # helper conversions
    if hasattr(rg, "H2I"):
        c.close(rg.H2I(T.H), T.I, "second moment to inertia", scale=10 * sizes(T)["H"])
        c.close(rg.I2H(T.I), T.H, "inertia to second moment", scale=10 * sizes(T)["H"])


@P.group(quick=600, thorough=12000)
def sparse_forms(c, rng, i):
    """Point bodies (no second moment given) and massless ones."""
    IP = rg.InertialParameters
    mu, lu = units(rng)
    m = float(rng.uniform(0.1, 3)) * mu
    p = rng.uniform(-2, 2, 3) * lu
    k = i % 6
    c.say(k=k, m=m, p=p)
    if k == 0:
        T = Truth(np.array([m]), p[None])
        judge(c, c.call(IP, mass=m, com=p), T, "mass and com")
        judge(c, c.call(IP, mass=m, h=m * p), T, "mass and h")
        judge(c, c.call(IP, mass=m, com=p, translate_from_com=True), T, "mass and com, translated")
    elif k == 1:
        T = Truth(np.array([m]), np.zeros((1, 3)))
        judge(c, c.call(IP, mass=m), T, "mass only")
    elif k == 2:
        T = Truth(np.array([0.0]), p[None])
        T.L = 1.0
        judge(c, c.call(IP.zero), T, "zero")
        judge(c, c.call(IP, mass=0), T, "massless")
        judge(c, c.call(IP, mass=0.0, com=np.zeros(3), H=np.zeros((3, 3))), T, "massless, com")
        judge(c, c.call(IP, mass=0, h=np.zeros(3), I=np.zeros((3, 3))), T, "massless, h")
        judge(c, c.call(IP.from_vec, np.zeros(10)), T, "massless vector")
        judge(c, c.call(IP.from_pim, np.zeros((4, 4))), T, "massless pim")
        judge(c, c.call(IP.from_point_masses, np.zeros(3), rng.normal(size=(3, 3))), T, "massless points")
        z = IP.zero()
        for q in (IP.from_vec(z.vec), IP.from_pim(z.J), IP(mass=z.mass, com=z.com, H=z.Hc, translate_from_com=True)):
            judge(c, q, T, "massless chain")
    elif k == 3:
        # mass and principal data about the center of mass
        Ic = np.diag(rng.uniform(1, 2, 3))
        R = gen.rot(rng)
        Ic = R @ Ic @ R.T * mu * lu**2
        q = c.call(IP, mass=m, com=p, I=Ic, translate_from_com=True)
        z = 100 * mu * lu**2
        c.close(q.Ic, Ic, "inertia matrix about the center of mass", scale=z)
        c.close(q.I, Ic + m * (p @ p * np.eye(3) - np.outer(p, p)), "parallel axis theorem", scale=z)
        c.close(q.h, m * p, "first moment", scale=10 * mu * lu)
    else:
        H = np.eye(3)
        I = 2 * np.eye(3)
        if k == 4:
            c.raises(ValueError, IP, mass=m, h=m * p, com=p, H=H, tag="over-specified input is refused")
            c.raises(ValueError, IP, mass=m, com=p, H=H, I=I, tag="over-specified input is refused")
            c.raises(ValueError, IP, mass=m, h=np.zeros(3), com=np.zeros(3), I=I, tag="over-specified input is refused")
            c.raises(ValueError, IP, mass=0, h=np.zeros(3), H=H, I=I, tag="over-specified input is refused")
            c.raises(ValueError, IP, mass=0, h=np.zeros(3), com=np.zeros(3), tag="over-specified input is refused")
            c.raises(ValueError, IP, mass=m, com=p, H=np.zeros((3, 3)), I=np.zeros((3, 3)), translate_from_com=True, tag="over-specified input is refused")
        else:
            c.raises(AssertionError, IP, mass=-m, com=p, H=H, tag="negative mass is refused")


@P.group(quick=300, thorough=6000)
def program_variables(c, rng, i):
    """The convex-program conversion of a parameter vector agrees too."""
    ms, Q = system(rng, i, units(rng))
    T = Truth(ms, Q)
    c.say(masses=ms, points=Q)
    th = cp.Variable(10)
    th.value = T.vec
    fn = getattr(rg, "pim_must_equal_vec", None)
    if fn is None:
        from rigeo.constraint import pim_must_equal_vec as fn
    e = c.call(fn, th)
    c.check(tuple(e.shape) == (4, 4), "expression shape", got=e.shape)
    c.close(e.value, T.J, "program expression of the pseudo-inertia matrix", scale=10 * sizes(T)["J"])
    e = c.call(fn, T.vec)
    v = e.value if hasattr(e, "value") else e
    c.close(v, T.J, "pseudo-inertia matrix of a numeric vector", scale=10 * sizes(T)["J"])
