import numpy as np
import rigeo as rg
from .. import gen
from ..core import Prop
from .C17 import Truth, rebuilds, system, units

P = Prop(
    "C21",
    rule="one case = inertial parameters with a known smallest pseudo-inertia eigenvalue (from masses, from a chosen spectrum, from "
    "principal moments, or randomly generated), or moved copies of them, queried at several thresholds; non-trivial if judged",
    technique="runtime monitoring: consistency answers compared with independently computed eigenvalues (symmetric solver) and "
    "with physical criteria, at thresholds on both sides of the spectrum",
    note="thresholds stay 1e-7 relative (1e-9 for exactly singular cases) away from the smallest eigenvalue",
)


def ask(c, p, eps, want, tag, **det):
    got = c.call(p.consistent, eps=eps) if eps is not None else c.call(p.consistent)
    c.check(np.ndim(got) == 0 and bool(got) == want, tag, got=got, want=want, eps=eps, J=p.J, **det)


def around(c, p, J, tag):
    lam = np.linalg.eigvalsh(J)
    S = np.abs(J).max()
    for d in (1e-7, 1e-4, 0.1, 2.0):
        ask(c, p, lam[0] - d * S, True, tag + ": threshold below")
        ask(c, p, lam[0] + d * S, False, tag + ": threshold above")
    if len(lam) > 1 and lam[1] - lam[0] > 1e-6 * S:
        ask(c, p, 0.5 * (lam[0] + lam[1]), False, tag + ": between eigenvalues")
    if abs(lam[0]) > 1e-7 * S:
        ask(c, p, None, bool(lam[0] > 0), tag + ": default threshold")
        ask(c, p, 0, bool(lam[0] > 0), tag + ": zero threshold")


def forms(rng, J):
    IP = rg.InertialParameters
    k = rng.integers(3)
    if k == 0:
        return IP.from_pim(J)
    if k == 1:
        return IP.from_vec(gen.vec_of_J(J))
    return IP(mass=J[3, 3], h=J[:3, 3], H=J[:3, :3])


@P.group(quick=2000, thorough=40000)
def bodies(c, rng, i):
    """Actual mass distributions are consistent."""
    u = units(rng) if rng.random() < 0.5 else (10.0 ** rng.uniform(-6, 6), 1.0)
    ms, Q = system(rng, i, u)
    T = Truth(ms, Q)
    c.say(masses=ms, points=Q)
    f = rebuilds(T)
    p = c.call(f[int(rng.integers(len(f)))][1])
    S = np.abs(T.J).max()
    ask(c, p, -1e-9 * S * 10, True, "a mass distribution is consistent", masses=ms, points=Q)
    around(c, p, T.J, "masses")
    R, t = gen.rot(rng), gen.trans(rng, big=False) * u[1]
    q = p.transform(rotation=R, translation=t)
    J2 = Truth(ms, Q @ R.T + t).J
    ask(c, q, -1e-8 * np.abs(J2).max(), True, "a moved mass distribution is consistent")
    around(c, q, J2, "moved masses")


@P.group(quick=2000, thorough=40000)
def spectra(c, rng, i):
    """Chosen spectra, with the sign pattern of interest."""
    for _ in range(100):
        lam = 10.0 ** rng.uniform(-3, 2, 4)
        k = i % 5
        if k == 1:
            lam[0] *= -1
        elif k == 2:
            lam[:2] *= -1
        elif k == 3:
            lam[0] = lam[1]  # repeated
        elif k == 4:
            lam[0] = -1e-3 * lam.max()
        Q = gen.rot(rng, 4, rng.choice(["rand", "rand", "perm", "id", "half"]))
        J = Q @ np.diag(lam) @ Q.T
        J = 0.5 * (J + J.T)
        if J[3, 3] > 1e-6:
            J *= 1.0 if rng.random() < 0.5 else 10.0 ** rng.uniform(-8, 6)
            break
    else:
        return
    c.say(J=J)
    around(c, forms(rng, J), J, "spectrum")


@P.group(quick=1500, thorough=30000)
def physical(c, rng, i):
    """Physical criteria about the center of mass."""
    mu = 1.0 if rng.random() < 0.6 else 10.0 ** rng.uniform(-7, 5)
    m = float(rng.uniform(0.1, 5)) * mu
    com = gen.trans(rng, big=False)
    R = gen.rot(rng)
    k = i % 4
    IP = rg.InertialParameters
    if k in (0, 1):
        e = rng.uniform(0.05, 2, 3)
        if k == 1:
            e[int(rng.integers(3))] *= -1
        Hc = R @ np.diag(e) @ R.T * mu
        c.say(m=m, com=com, e=e)
        ps = [IP(mass=m, com=com, H=Hc, translate_from_com=True), IP(mass=m, h=m * com, H=Hc + m * np.outer(com, com)),
              IP(mass=m, com=com, I=np.trace(Hc) * np.eye(3) - Hc, translate_from_com=True)]
        for p in ps:
            ask(c, p, None, k == 0, "second moments about the center of mass decide", e=e, com=com)
    else:
        a = rng.uniform(0.2, 2, 3)
        I = np.array([a[1] + a[2], a[0] + a[2], a[0] + a[1]])  # satisfies the triangle inequalities
        if k == 3:
            j = int(rng.integers(3))
            I[j] = (I.sum() - I[j]) * rng.uniform(1.02, 2)  # violates one
        Ic = R @ np.diag(I) @ R.T * mu
        c.say(m=m, com=com, I=I)
        p = IP(mass=m, com=com, I=Ic, translate_from_com=True)
        ask(c, p, None, k == 2, "triangle inequality of principal moments decides", I=I, com=com)
        ask(c, p.transform(rotation=gen.rot(rng), translation=rng.normal(size=3)), None, k == 2, "moved: triangle inequality decides", I=I)


@P.group(quick=600, thorough=12000)
def random_params(c, rng, i):
    seed = int(rng.integers(2**31))
    c.say(seed=seed)
    G = np.random.default_rng(seed)
    ps = [c.call(rg.InertialParameters.random, rng=seed)] + [c.call(rg.InertialParameters.random, rng=G) for _ in range(4)]
    for p in ps:
        lam = np.linalg.eigvalsh(p.J)
        c.check(lam[0] >= -1e-9 * lam[-1], "random parameters are consistent", J=p.J)
        c.check(p.mass > 0 and np.all(np.isfinite(p.J)), "random parameters have mass")
        ask(c, p, -1e-9 * lam[-1], True, "random parameters are reported consistent")
        c.check(np.allclose(p.J, p.J.T), "symmetric")
    q = rg.InertialParameters.random(rng=seed)
    c.check(np.array_equal(q.J, ps[0].J), "same seed, same parameters")
    c.check(np.array_equal(ps[1].J, ps[0].J), "generator and seed agree")
    c.check(not np.array_equal(ps[2].J, ps[1].J), "a generator moves on")
    n = int(rng.integers(1, 7)) if seed % 5 else int(rng.integers(7, 40))
    A = c.call(rg.random_psd_matrix, n, rng=seed)
    lam = np.linalg.eigvalsh(A)
    c.check(A.shape == (n, n) and np.allclose(A, A.T, atol=1e-12), "random PSD matrix is symmetric", A=A)
    c.check(lam[0] >= -1e-10 * max(1, lam[-1]), "random PSD matrix is positive semidefinite", lam=lam)
    c.check(np.array_equal(A, rg.random_psd_matrix(n, rng=seed)), "same seed, same matrix")
