import numpy as np
import rigeo as rg
from .. import gen, model as M
from ..core import Prop
from .C01 import judge as judge_set
from .C17 import Truth, judge as judge_params, system

P = Prop(
    "C30",
    rule="one case = one random program of additions, sums and rigid motions over a pool of bodies (each shadowed by the list of its "
    "shapes' point-set models and the point masses behind its parameters), or one body replaced by its bounding ellipsoids; "
    "non-trivial if shapes and parameters of a result were compared with the shadow",
    technique="runtime monitoring: every body shadowed by reference shapes and point masses through random histories",
    note="parameters to 1e-9, shapes by containment of probe points, bounds to 1e-5 of the size",
    assumptions=["shape kinds of a body may be mixed; bodies without parameters are massless"],
)


class Shadow:
    def __init__(self, models, ms, Q):
        self.models, self.ms, self.Q = models, ms, Q

    def __add__(self, o):
        return Shadow(self.models + o.models, np.concatenate((self.ms, o.ms)), np.concatenate((self.Q, o.Q)))

    def transform(self, R, t):
        return Shadow([m.transform(R, t) for m in self.models], self.ms, self.Q @ R.T + t)


def body(rng, i):
    """A body given in one of the accepted ways, and its shadow."""
    n = int(rng.integers(1, 4)) if i % 9 else int(rng.integers(4, 9)) if i % 45 else int(rng.integers(9, 25))
    ls, ms = map(list, zip(*[gen.any_shape(rng, flat=bool(rng.random() < 0.15)) for _ in range(n)]))
    how = str(rng.choice(["list", "tuple", "generator", "iterator", "single", "array", "empty"]))
    if how == "single":
        ls, ms = ls[:1], ms[:1]
        given = ls[0]
    elif how == "empty":
        ls, ms, given = [], [], []
    elif how == "tuple":
        given = tuple(ls)
    elif how == "generator":
        given = (s for s in ls)
    elif how == "iterator":
        given = iter(ls)
    elif how == "array":
        given = np.empty(len(ls), dtype=object)
        given[:] = ls
    else:
        given = list(ls)
    if rng.random() < 0.25:
        return (rg.RigidBody(given) if rng.random() < 0.5 else rg.RigidBody(given, None)), Shadow(ms, np.zeros(1), np.zeros((1, 3))), ls, how
    w, Q = system(rng, i)
    p = rg.InertialParameters.from_point_masses(w, Q)
    b = rg.RigidBody(given, p) if rng.random() < 0.5 else rg.RigidBody(shapes=given, params=p)
    return b, Shadow(ms, w, Q), ls, how


def compare(c, rng, b, sh, what):
    c.check(isinstance(b, rg.RigidBody), f"{what}: a rigid body", got=type(b).__name__)
    c.check(isinstance(b.shapes, list) and len(b.shapes) == len(sh.models), f"{what}: all shapes, once", got=len(b.shapes), want=len(sh.models))
    for k, (lib, m) in enumerate(zip(b.shapes, sh.models)):
        c.check(gen.KIND[type(lib).__name__] == m.kind, f"{what}: shapes in order", got=type(lib).__name__, want=m.kind, k=k)
        judge_set(c, lib, m, rng)
    judge_params(c, b.params, Truth(sh.ms, sh.Q), what)


def motion(rng):
    R, t = gen.rot(rng, 3, str(rng.choice(["id", "perm", "half", "rand", "rand", "plane"]))), gen.trans(rng, 3, big=False)
    k = int(rng.integers(5))
    if k == 0:
        return dict(rotation=R), R, np.zeros(3)
    if k == 1:
        return dict(translation=t), np.eye(3), t
    return dict(rotation=R, translation=t), R, t


@P.group(quick=1000, thorough=20000)
def programs(c, rng, i):
    pool = []
    for _ in range(int(rng.integers(2, 4))):
        b, sh, ls, how = body(rng, i)
        c.check(len(b.shapes) == len(ls) and all(x is y for x, y in zip(b.shapes, ls)), "a body has the shapes it is given", how=how, got=len(b.shapes), want=len(ls))
        if b.params is not None:
            judge_params(c, b.params, Truth(sh.ms, sh.Q), "given")
        pool.append((b, sh))
    prog = []
    for _ in range(int(rng.integers(1, 6))):
        op = str(rng.choice(["+", "+", "sum", "sum0", "+=", "move", "move", "zero+"]))
        a, b = pool[int(rng.integers(len(pool)))], pool[int(rng.integers(len(pool)))]
        if len(a[1].models) + len(b[1].models) > 40:
            op = "move"
        prog.append(op)
        if op == "+":
            r = c.call(lambda: a[0] + b[0]), a[1] + b[1]
        elif op == "sum":
            x = pool[:3]
            r = c.call(sum, [y[0] for y in x]), sum((y[1] for y in x[1:]), x[0][1])
        elif op == "sum0":
            r = c.call(sum, [a[0], b[0]], rg.RigidBody([])), a[1] + b[1]
        elif op == "+=":
            x = a[0]
            x += b[0]
            r = x, a[1] + b[1]
        elif op == "zero+":
            r = c.call(lambda: 0 + a[0]), a[1]
        else:
            kw, R, t = motion(rng)
            r = c.call(a[0].transform, **kw), a[1].transform(R, t)
        pool.append(r)
        if len(pool) > 6:
            pool.pop(0)
    c.say(prog=prog, n=[len(x[1].models) for x in pool], ms=pool[0][1].ms, Q=pool[0][1].Q)
    for k, (b, sh) in enumerate(pool):
        if k >= len(pool) - 2 or rng.random() < 0.3:
            compare(c, rng, b, sh, "result")


@P.group(quick=800, thorough=15000)
def algebra(c, rng, i):
    """Order, grouping and moving commute with adding."""
    (a, sa, *_), (b, sb, *_), (d, sd, *_) = body(rng, i), body(rng, i + 3), body(rng, i + 5)
    kw, R, t = motion(rng)
    c.say(n=[len(s.models) for s in (sa, sb, sd)], R=R, t=t)
    s = Truth(np.concatenate((sa.ms, sb.ms, sd.ms)), np.concatenate((sa.Q, sb.Q, sd.Q)))
    x, y = (a + b) + d, a + (b + d)
    ids = [id(z) for z in a.shapes + b.shapes + d.shapes]
    for z, nm in ((x, "left"), (y, "right"), (sum([a, b, d]), "sum")):
        c.check([id(q) for q in z.shapes] == ids, "shapes of a sum: the summands', in order", how=nm, got=len(z.shapes), want=len(ids))
        judge_params(c, z.params, s, f"sum ({nm})")
    u, v = x.transform(**kw), a.transform(**kw) + b.transform(**kw) + d.transform(**kw)
    s2 = Truth(s.ms, s.Q @ R.T + t)
    judge_params(c, u.params, s2, "moved sum")
    judge_params(c, v.params, s2, "sum of moved")
    c.check(len(u.shapes) == len(v.shapes) == len(ids), "moving keeps the shapes", got=(len(u.shapes), len(v.shapes)), want=len(ids))
    for p, q in zip(u.shapes, v.shapes):
        c.check(type(p) is type(q) and bool(c.call(p.is_same, q)), "moving a sum moves every part", kind=type(p).__name__)


@P.group(quick=400, thorough=6000, cpu=200)
def bounding(c, rng, i):
    while True:
        b, sh, ls, how = body(rng, i)
        if sh.models:
            break
    sphere = bool(i % 2)
    c.say(models=[m.params() for m in sh.models], sphere=sphere)
    kw = {} if not sphere and rng.random() < 0.3 else dict(sphere=sphere)
    e = c.call(b.mbes, **kw)
    c.check(isinstance(e, rg.RigidBody) and len(e.shapes) == len(sh.models), "one bounding ellipsoid per shape", got=len(e.shapes), want=len(sh.models))
    judge_params(c, e.params, Truth(sh.ms, sh.Q), "bounding ellipsoids")
    for s, m, l in zip(e.shapes, sh.models, ls):
        own = c.call(l.mbe, **kw)
        c.check(np.allclose(np.sort(own.half_extents), np.sort(s.half_extents), rtol=0, atol=3e-3 * m.scale()), "the bound of a body's shape is that of the shape", got=s.half_extents, want=own.half_extents, sphere=sphere, kind=m.kind)
        c.check(isinstance(s, rg.Ellipsoid), "shapes are ellipsoids", got=type(s).__name__)
        h = np.asarray(s.half_extents, float)
        if sphere:
            c.check(np.ptp(h) <= 1e-6 * max(h.max(), 1e-6), "spheres on request", got=h)
        X = np.concatenate((m.boundary(rng, 40), m.inside(rng, 20)))
        g, off = M.Ell(h, np.asarray(s.rotation, float), np.asarray(s.center, float)).viol(X)
        tol = 2e-4 * m.scale()
        c.check(np.all(g <= tol) and np.all(off <= tol), "every shape is inside its bound", n=len(X), kind=m.kind, worst=g.max(), sphere=sphere, model=m.params())
    # the body itself stays
    c.check(len(b.shapes) == len(ls) and all(x is y for x, y in zip(b.shapes, ls)), "the body keeps its own shapes")
