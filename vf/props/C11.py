import numpy as np
import rigeo as rg
from .. import gen, hooks, model as M, sampling
from ..core import Prop

P = Prop(
    "C11",
    rule="one case = one uniform sampler with a random size and pose; tens of thousands of drawn points are compared with "
    "an independent exact sampler of the same set; non-trivial if region counts and correlations were judged",
    technique="runtime monitoring: statistical monitor of drawn points (region frequencies, moments, serial and batch "
    "independence) against an independent reference sampler at 6.5 standard errors",
    note="statistical: departures in the probability of a region below about 0.01-0.02 are not seen; false alarms are "
    "below 1e-7 per run and seeds are fixed",
    assumptions=["rejection sampling with acceptance above 2%"],
)
Z = 6.5


def ball(rng, n, d):
    w = rng.normal(size=(n, d))
    w /= np.linalg.norm(w, axis=1, keepdims=True)
    return w * rng.random((n, 1)) ** (1 / d)


def uniform_inside(rng, m, n):
    if m.kind == "ellipsoid":
        nz = m.h > 1e-8
        k = int(nz.sum())
        if k == 0:
            return np.repeat(m.c[None], n, axis=0)
        return (ball(rng, n, k) * m.h[nz]) @ m.R[:, nz].T + m.c
    if m.kind == "capsule":
        va, vb = np.pi * m.r**2 * m.L, 4 / 3 * np.pi * m.r**3
        if m.r == 0:
            q = np.zeros((n, 3))
            q[:, 2] = m.L * rng.uniform(-0.5, 0.5, n)
        else:
            q = ball(rng, n, 3) * m.r
            q[:, 2] += np.where(q[:, 2] >= 0, 1, -1) * m.L / 2
            k = rng.random(n) < va / (va + vb)
            q[k, :2] = ball(rng, int(k.sum()), 2) * m.r
            q[k, 2] = m.L * rng.uniform(-0.5, 0.5, int(k.sum()))
        return q @ m.R.T + m.c
    return m.inside(rng, n)  # boxes and cylinders: uniform by construction


def uniform_surface(rng, m, n):
    if m.kind == "ellipsoid":
        # importance resampling of the sphere with the exact area element
        w = rng.normal(size=(4 * n, m.dim))
        w /= np.linalg.norm(w, axis=1, keepdims=True)
        g = np.linalg.norm(w / m.h, axis=1)
        k = rng.random(4 * n) < g / g.max() if m.dim > 1 else np.ones(4 * n, bool)
        # (acceptance by exact density ratio: bound is 1/min h)
        if m.dim > 1:
            k = rng.random(4 * n) < g * m.h.min()
        return (w[k] * m.h) @ m.R.T + m.c
    x, y, z = m.h
    area = np.array([y * z, x * z, x * y])
    ax = rng.choice(3, size=n, p=area / area.sum())
    q = rng.uniform(-1, 1, (n, 3))
    q[np.arange(n), ax] = rng.choice([-1.0, 1.0], n)
    return (q * m.h) @ m.R.T + m.c


def uniform_edges(rng, m, n):
    ax = rng.choice(3, size=n, p=m.h / m.h.sum())
    q = rng.choice([-1.0, 1.0], (n, 3))
    q[np.arange(n), ax] = rng.uniform(-1, 1, n)
    return (q * m.h) @ m.R.T + m.c


def uniform_union(rng, s, n):
    out = np.zeros((0, 3))
    while len(out) < n:
        X = rng.uniform(s.lo, s.hi, (4 * n, 3))
        k = np.any([(lambda g, o: (g <= 0) & (o <= 1e-12))(*m.viol(X)) for m in s.models], axis=0)
        out = np.vstack((out, X[k]))
    return out[:n]


def reference(rng, s, n):
    if s.name in ("box_surface", "ellipsoid_surface", "ellipsoid_surface_d", "sphere"):
        return uniform_surface(rng, s.model, n)
    if s.name == "box_edges":
        return uniform_edges(rng, s.model, n)
    if s.name.startswith("rejection"):
        return uniform_union(rng, s, n)
    return uniform_inside(rng, s.model, n)


def regions(rng, m, ref):
    """Indicator regions of several kinds, placed by the reference sample and
    kept clear of atoms (faces or edges that the threshold would graze)."""
    d = m.dim
    out = []

    def add(score, q):
        s = score(ref)
        w = np.ptp(s)
        if w <= 1e-9:
            return
        for k in range(8):
            t = np.quantile(s, q) if k == 0 else rng.uniform(s.min(), s.max())
            if np.mean(np.abs(s - t) <= 1e-6 * w) <= 1e-4 and 0.02 < np.mean(s <= t) < 0.98:
                out.append(lambda X: score(X) <= t)
                return

    R = getattr(m, "R", np.eye(d))
    for k in range(10):
        u = np.eye(d)[k % d] if k < 4 else rng.normal(size=d)
        if k % 2 == 0:
            u = R @ u
        add(lambda X, u=u: (X - m.c) @ u, rng.choice([0.1, 0.3, 0.5, 0.7, 0.9]))
    # scaled copies about the center, also in the shape's own metric
    for q in (0.1, 0.3, 0.5, 0.8):
        add(lambda X: np.linalg.norm(X - m.c, axis=1), q)
    if m.kind in ("ellipsoid", "box"):
        h = np.where(m.h > 0, m.h, 1.0)
        for q in (0.2, 0.5, 0.8):
            add(lambda X: np.linalg.norm(((X - m.c) @ m.R) / h, axis=1), q)
    # balls around points of the set (local density)
    for k in range(6):
        p = ref[rng.integers(len(ref))]
        add(lambda X, p=p: np.linalg.norm(X - p, axis=1), rng.choice([0.05, 0.2, 0.4]))
    return out


def compare(c, X, ref, regs, m, what):
    n1, n2 = len(X), len(ref)
    for k, f in enumerate(regs):
        a, b = f(X).mean(), f(ref).mean()
        p = (a * n1 + b * n2) / (n1 + n2)
        se = np.sqrt(max(p * (1 - p), 25 / min(n1, n2)) * (1 / n1 + 1 / n2))
        c.check(abs(a - b) <= Z * se, f"{what}: region frequencies", got=a, want=b, se=se, region=k, kind=m.kind, model=m.params(), n1=n1, n2=n2)
    # moments about the center in the model's scale
    sc = np.sqrt(np.mean(np.sum((ref - m.c) ** 2, axis=1))) + 1e-300
    A, B = (X - m.c) / sc, (ref - m.c) / sc
    for F in (lambda Y: Y, lambda Y: np.einsum("ni,nj->nij", Y, Y).reshape(len(Y), -1), lambda Y: np.sum(Y**2, axis=1, keepdims=True) ** 2):
        fa, fb = F(A), F(B)
        se = np.sqrt(fa.var(axis=0) / n1 + fb.var(axis=0) / n2) + 1e-9
        z = np.abs(fa.mean(axis=0) - fb.mean(axis=0)) / se
        c.check(np.all(z <= Z), f"{what}: moments", n=len(z), z=z.max(), kind=m.kind, model=m.params())


def serial(c, X, m, what):
    """Neighbouring points, and early and late points, are unrelated."""
    n = len(X)
    if m.rank() == 0:
        return
    A = X - X.mean(axis=0)
    s = A.std(axis=0)
    k = s > 1e-9 * s.max()
    A = A[:, k] / s[k]
    for lag in (1, 2, 3, 5):
        C = A[:-lag].T @ A[lag:] / (n - lag)
        c.check(np.all(np.abs(C) <= Z / np.sqrt(n - lag)), f"{what}: serial correlation", n=C.size, C=np.abs(C).max(), lag=lag, model=m.params())
        B = (A**2 - 1) / np.maximum((A**2).std(axis=0), 0.05)
        C = B[:-lag].T @ B[lag:] / (n - lag)
        c.check(np.all(np.abs(C) <= 2 * Z / np.sqrt(n - lag)), f"{what}: serial correlation of squares", n=C.size, C=np.abs(C).max(), lag=lag)
    t = (np.arange(n) - (n - 1) / 2) / (n / np.sqrt(12))
    for Y in (A, A**2 - np.mean(A**2, axis=0), np.abs(A) - np.mean(np.abs(A), axis=0)):
        s = np.maximum(Y.std(axis=0), 0.02)
        z = np.abs(t @ Y / n / s) * np.sqrt(n)
        c.check(np.all(z <= Z), f"{what}: early and late points alike", z=z.max(), model=m.params())


def pick(rng, i, flat):
    kinds = ["box", "ellipsoid", "ellipsoid_d", "cylinder", "capsule", "box_surface", "box_edges",
             "ellipsoid_surface", "ellipsoid_surface_d", "ball", "sphere", "rejection", "rejection_union"]
    if flat:
        kinds = ["box", "ellipsoid", "ellipsoid_d", "cylinder", "capsule", "box_surface", "box_edges"]
    for _ in range(50):
        s = sampling.sampler(rng, kind=kinds[i % len(kinds)], flat=flat)
        if not (s.name.startswith("rejection") and s.fraction < 0.02):
            break
    return s


@P.group(quick=65, thorough=1040, cpu=300)
def batch(c, rng, i):
    s = pick(rng, i, False)
    n = 40000
    c.say(sampler=s.name, model=s.model.params())
    X = s.fn(n, rng=int(rng.integers(2**31)))
    ref = reference(rng, s, 80000)
    compare(c, X, ref, regions(rng, s.model, ref), s.model, "one batch")
    serial(c, X, s.model, "one batch")


@P.group(quick=28, thorough=420, cpu=300)
def flat(c, rng, i):
    s = pick(rng, i, True)
    if s.model.rank() == 0:
        return
    n = 40000
    c.say(sampler=s.name, model=s.model.params())
    X = s.fn(n, rng=int(rng.integers(2**31)))
    ref = reference(rng, s, 80000)
    compare(c, X, ref, regions(rng, s.model, ref), s.model, "flat set")
    serial(c, X, s.model, "flat set")


@P.group(quick=65, thorough=780, cpu=300)
def small_batches(c, rng, i):
    """Many small batches: position in the batch carries no information, and
    counts vary as independent draws do."""
    s = pick(rng, i, False)
    b = [1, 2, 5, (2, 3), 12][(i // 13) % 5]
    reps = 1200
    c.say(sampler=s.name, b=b, model=s.model.params())
    G = np.random.default_rng(int(rng.integers(2**31)))
    nb = int(np.prod(b))
    X = np.array([np.reshape(s.fn(b, rng=G), (nb, s.dim)) for _ in range(reps)])
    ref = reference(rng, s, 60000)
    regs = regions(rng, s.model, ref)
    compare(c, X.reshape(-1, s.dim), ref, regs, s.model, "small batches")
    for j in (0, nb - 1):
        compare(c, X[:, j], ref, regs, s.model, "first and last of a batch")
    if nb > 1:
        # variance of the number of points of a batch in a region
        for k, f in enumerate(regs):
            p = f(ref).mean()
            if not 0.03 < p < 0.97:
                continue
            cnt = f(X.reshape(-1, s.dim)).reshape(reps, nb).sum(axis=1)
            v, want = cnt.var(), nb * p * (1 - p)
            mu4 = want * (1 + 3 * want * (1 - 2 / nb) if nb > 2 else 1 + 3 * want)
            se = np.sqrt(max(mu4, 2 * want**2) / reps) + 0.02 * want
            c.check(abs(v - want) <= Z * se, "counts vary like independent draws", got=v, want=want, se=se, region=k, sampler=s.name, b=b)
    serial(c, X.reshape(-1, s.dim), s.model, "small batches")


@P.group(quick=26, thorough=390, cpu=300)
def seeds(c, rng, i):
    """One point (or few) for each of many seeds: also uniform over seeds."""
    s = pick(rng, i, False)
    c.say(sampler=s.name, model=s.model.params())
    base = int(rng.integers(2**30))
    X = np.vstack([np.reshape(s.fn(3, rng=base + k), (3, s.dim)) for k in range(1000)])
    ref = reference(rng, s, 60000)
    compare(c, X, ref, regions(rng, s.model, ref), s.model, "over seeds")


@P.group(quick=64, thorough=800, cpu=300)
def extremes(c, rng, i):
    """Very long, thin, large and small shapes; unions of many overlapping ones."""
    k = i % (len(sampling.EXTREME) + 1)
    s = sampling.extreme(rng, sampling.EXTREME[k]) if k < len(sampling.EXTREME) else sampling.heavy(rng)
    n = 40000
    c.say(sampler=s.name, model=s.model.params())
    X = s.fn(n, rng=int(rng.integers(2**31)))
    ref = reference(rng, s, 80000)
    compare(c, X, ref, regions(rng, s.model, ref), s.model, "extreme sizes")
    if k == len(sampling.EXTREME):
        # how many of the shapes a point is in
        f = lambda Y: np.sum([(lambda g, o: (g <= 0) & (o <= 1e-12))(*m.viol(Y)) for m in s.models], axis=0)
        a, b = f(X), f(ref)
        for j in range(1, len(s.models) + 1):
            p = np.mean(b == j)
            se = np.sqrt(max(p * (1 - p), 25 / n) * (1 / n + 1 / len(ref)))
            c.check(abs(np.mean(a == j) - p) <= Z * se, "overlaps are neither rarer nor denser", got=np.mean(a == j), want=p, shapes=len(s.models), inside=j)
    serial(c, X, s.model, "extreme sizes")
