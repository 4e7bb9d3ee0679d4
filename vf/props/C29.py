import numpy as np
import cvxpy as cp
import rigeo as rg
from .. import gen, hooks, model as M
from ..core import Inconclusive, Prop

P = Prop(
    "C29",
    rule="one case = one query that accepts a solver, on random shapes, asked with each of several solver choices; non-trivial if solve "
    "events were observed or answers were compared",
    technique="runtime monitoring: every convex solve event is recorded with the solver that was requested for it and compared with the "
    "caller's choice; answers of the two installed conic solvers compared with each other",
    note="answers to 1e-2 of the size of the shape (SCS is a first-order method)",
    assumptions=["MOSEK has no licence here: requests for it are recorded, then served by Clarabel"],
)
CHOICES = ["CLARABEL", "SCS", "MOSEK"]


def info(r):
    """Numbers that the answer is about."""
    if isinstance(r, rg.Ellipsoid):
        return [np.asarray(r.E, float), np.asarray(r.center, float)]
    if isinstance(r, rg.RigidBody):
        return [x for s in r.shapes for x in info(s)]
    if isinstance(r, (bool, np.bool_)):
        return [np.array(float(r))]
    return [np.array(float(r.dist))]


def _reraise(e):
    raise e


def judge(c, f, what, size, must_solve=True, compare=True, tol=1e-2):
    out = {}
    for s in CHOICES:
        hooks.SOLVES.clear()
        err = r = None
        try:
            r = f(s)
        except Exception as e:  # judged below
            err = e
        ev = list(hooks.SOLVES)
        if err is not None:
            if ev and ev[-1][1] not in ("optimal", "infeasible"):
                # the solver gave up or returned garbage: nothing to judge
                c.seen("solver failures")
            else:
                c.call(_reraise, err)
        wrong = [e for e in ev if e[0] != s]
        c.check(not wrong, f"{what}: every solve uses the caller's solver", n=max(1, len(ev)), asked=s, events=ev)
        c.seen("solve events", len(ev))
        if must_solve:
            c.seen("queries with a solve", 1 if ev else 0)
        if r is not None and all(e[1] in ("optimal", "infeasible") for e in ev):
            out[s] = info(r)
    if compare and "CLARABEL" in out and "SCS" in out:
        a, b = out["CLARABEL"], out["SCS"]
        ok = len(a) == len(b) and all(x.shape == y.shape and np.all(np.abs(x - y) <= tol * max(1.0, size)) for x, y in zip(a, b))
        c.check(ok, f"{what}: two solvers agree", got=b, want=a)


KINDS = ("box", "poly", "ellipsoid", "cylinder", "capsule")


@P.group(quick=160, thorough=3000, cpu=200)
def closest(c, rng, i):
    k1, k2 = KINDS[i % 5], KINDS[(i // 5) % 5]
    l1, m1 = gen.any_shape(rng, flat=False, kinds=(k1,))
    l2, m2 = gen.any_shape(rng, flat=False, kinds=(k2,))
    c.say(kinds=(k1, k2), m1=vars(m1), m2=vars(m2))
    size = max(m1.scale(), m2.scale())
    judge(c, lambda s: rg.closest_points(l1, l2, solver=s), "closest points", size)
    if i % 4 == 0:
        ev = len(hooks.SOLVES)
        hooks.SOLVES.clear()
        c.call(rg.closest_points, l1, l2)
        c.check(len(hooks.SOLVES) >= 1, "closest points: works without a choice")


@P.group(quick=200, thorough=4000, cpu=200)
def bounding(c, rng, i):
    k = KINDS[i % 5]
    lib, m = gen.any_shape(rng, flat=False, kinds=(k,))
    sphere = bool((i // 5) % 2)
    c.say(kind=k, m=vars(m), sphere=sphere)
    judge(c, lambda s: lib.mbe(sphere=sphere, solver=s), f"bounding ellipsoid of a {k}", m.scale() ** 2 * 2, must_solve=False)


@P.group(quick=120, thorough=2400, cpu=200)
def inscribed(c, rng, i):
    k = ("box", "poly")[i % 2]
    while True:
        lib, m = gen.any_shape(rng, flat=False, kinds=(k,))
        if not hasattr(m, "h") or np.min(m.h) > 0.1:
            break
    sphere = bool((i // 2) % 2)
    c.say(kind=k, m=vars(m), sphere=sphere)
    # (the largest inscribed sphere need not be unique: only the radius is)
    judge(c, lambda s: lib.mie(sphere=sphere, solver=s), f"inscribed ellipsoid of a {k}", m.scale() ** 2 * 2, must_solve=False, compare=not sphere)


@P.group(quick=160, thorough=2400, cpu=200)
def flat_shapes(c, rng, i):
    """Shapes without volume take the caller's solver as well."""
    k = KINDS[i % 5]
    while True:
        lib, m = gen.any_shape(rng, flat=True, kinds=(k,))
        if m.rank() >= 1 and not (hasattr(m, "h") and np.any((m.h > 0) & (m.h < 0.1))):
            break
    sphere = bool((i // 5) % 2)
    c.say(kind=k, m=vars(m), sphere=sphere)
    size = m.scale() ** 2 * 2
    judge(c, lambda s: lib.mbe(sphere=sphere, solver=s), f"bounding ellipsoid of a flat {k}", size, must_solve=False, compare=False)
    if k in ("box", "poly"):
        judge(c, lambda s: lib.mie(sphere=sphere, solver=s), f"inscribed ellipsoid of a flat {k}", size, must_solve=False, compare=False)
    o, _ = gen.any_shape(rng, flat=bool(rng.random() < 0.5))
    judge(c, lambda s: rg.closest_points(lib, o, solver=s), "closest points to a flat shape", size, compare=False)
    b = rg.RigidBody([lib, o])
    judge(c, lambda s: b.mbes(sphere=sphere, solver=s), "bounding ellipsoids of a body with a flat part", size, must_solve=False, compare=False)


@P.group(quick=120, thorough=2400, cpu=200)
def points(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 4]))
    fl = d > 1 and i % 4 == 3
    X = gen.points(rng, d, flat=fl, n=d + 4)
    sphere = bool(i % 2) if not fl else bool((i // 4) % 2)
    c.say(d=d, X=X, sphere=sphere, flat=fl)
    judge(c, lambda s: rg.mbe_of_points(X, sphere=sphere, solver=s), "bounding ellipsoid of points", 2 * (1 + np.abs(X).max()) ** 2)


@P.group(quick=120, thorough=2400, cpu=200)
def ellipsoids(c, rng, i):
    d = int(rng.choice([2, 3, 3]))
    es, ms = [], []
    for _ in range(int(rng.integers(1, 4))):
        while True:
            lib, m = gen.ellipsoid(rng, d, flat=False, big=False)
            if m.h.min() > 0.15:
                break
        es.append(lib)
        ms.append(m)
    sphere = bool(i % 2)
    size = 2 * max(m.scale() for m in ms) ** 2 * 4
    c.say(d=d, ms=[vars(m) for m in ms], sphere=sphere)
    judge(c, lambda s: rg.mbe_of_ellipsoids(es, sphere=sphere, solver=s), "bounding ellipsoid of ellipsoids", size)


@P.group(quick=120, thorough=2400, cpu=200)
def containment(c, rng, i):
    d = int(rng.choice([1, 2, 3, 4]))
    a = gen.ellipsoid(rng, d, flat=False, big=False)[1]
    h = np.maximum(a.h, 0.15)
    l1 = rg.Ellipsoid(h, rotation=a.R, center=a.c)
    f = float(rng.choice([0.4, 0.6, 1.5, 2.0]))
    # (clear of tangency: near it a first-order solver cannot decide)
    u = rng.normal(size=d)
    u *= 0.3 * abs(1 - f) * h.min() / np.linalg.norm(u)
    l2 = rg.Ellipsoid(h * f, rotation=a.R, center=a.c + u)
    c.say(d=d, h=h, f=f)
    judge(c, lambda s: l1.contains_ellipsoid(l2, solver=s), "ellipsoid in ellipsoid", 0.1)


@P.group(quick=100, thorough=2000, cpu=200)
def bodies(c, rng, i):
    ls, ms = zip(*[gen.any_shape(rng, flat=False) for _ in range(int(rng.integers(1, 5)))])
    sphere = bool(i % 2)
    c.say(ms=[vars(m) for m in ms], sphere=sphere)
    b = rg.RigidBody(list(ls))
    judge(c, lambda s: b.mbes(sphere=sphere, solver=s), "bounding ellipsoids of a body", 2 * max(m.scale() for m in ms) ** 2, must_solve=False)
