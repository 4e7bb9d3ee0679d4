import numpy as np
import cvxpy as cp
import rigeo as rg
from .. import cvx, gen, model as M, lasserre, realize
from ..core import Inconclusive, Prop

P = Prop(
    "C23",
    rule="one case = one shape (or body of 1-3 shapes) in a pose, one constraint family, order and variable form, and several bodies "
    "made of point masses inside it (vertices, boundary, interior, single points); non-trivial if a distance or optimum was judged",
    technique="runtime monitoring: the real constraints are solved; the distance from each realizable body to their feasible set must "
    "vanish and no optimum may fall below the value of a realizable body",
    note="distances to 2e-4 of the size of the pseudo-inertia matrix (solver accuracy), optima to 2e-5",
    assumptions=["Clarabel or SCS solves the programs; cases on which both give up are counted as inconclusive"],
)
KINDS = ["one", "extreme", "boundary", "inside"]
TOL = 2e-4


def start(c, rng, **kw):
    s = realize.Setup(rng, **kw)
    c.say(**s.describe())
    return s


def attempts(c, fns):
    """Judge the targets that a solver answers definitely; at least one must be."""
    done = 0
    for f in fns:
        try:
            done += bool(f())
        except Inconclusive:
            c.seen("targets no solver could decide")
    if not done:
        raise Inconclusive("no target was decided")


def near(c, D, s, J, tag, **detail):
    size = max(1.0, np.linalg.norm(J))
    good, st, v = D.judge(J, lambda st, v: st == "optimal" and v <= TOL * size, 5e-3 * size)
    c.check(good, tag, status=st, got=v, J=J, **detail, **s.describe())
    return True


def distances(c, rng, s, n):
    D = c.call(realize.Distance, s)

    def one(k):
        ms, Q = realize.body_in(rng, s.models, KINDS[k % 4])
        if k % 3 == 1:  # light and heavy bodies
            ms = ms * float(rng.choice([0.02, 30.0, 300.0]))
        c.say(ms=ms, Q=Q)
        return near(c, D, s, gen.pim(ms, Q), f"{s.family}: distance of a realizable body", ms=ms, Q=Q)

    attempts(c, [lambda k=k: one(k) for k in range(n)])


def family(name, quick, thorough, cpu=240):
    def fn(c, rng, i):
        s = start(c, rng, family=name)
        distances(c, rng, s, 8)

    P.group(quick=quick, thorough=thorough, cpu=cpu, name="near-" + name)(fn)


for _f in realize.FAMILIES:
    family(_f, 80 if _f.endswith("moment") or _f == "body" else 200, 1500 if _f.endswith("moment") or _f == "body" else 4000)


def many_vertex_poly(rng):
    """A polyhedron of 13 to 48 vertices with its model."""
    n = int(rng.choice([13, 16, 20, 24, 32, 48]))
    if rng.random() < 0.5:
        u = rng.normal(size=(n, 3))
        V = u / np.linalg.norm(u, axis=1, keepdims=True)
    else:  # prism
        t = 2 * np.pi * (np.arange(n // 2) + rng.random()) / (n // 2)
        V = np.array([[np.cos(a), np.sin(a), z] for z in (-0.5, 0.7) for a in t])
    V = (V * rng.uniform(0.5, 1.2, 3)) @ gen.rot(rng, 3).T + rng.uniform(-0.3, 0.3, 3)
    return rg.ConvexPolyhedron.from_vertices(V), M.Poly(V)


@P.group(quick=16, thorough=300, cpu=400)
def many_vertices(c, rng, i):
    """All mass in single vertices of a polyhedron of many."""
    s = realize.Setup(rng, family=["poly-vertex", "poly-moment", "poly-vertex", "body"][i % 4], d=2, flat=False)
    s.parts = [many_vertex_poly(rng)]
    s.models, s.lib = [s.parts[0][1]], s.parts[0][0]
    if s.family == "body":
        s.lib = rg.RigidBody(s.lib)
    c.say(**s.describe())
    D = c.call(realize.Distance, s)
    V = s.models[0].V
    order = np.asarray(s.parts[0][0].vertices)
    k = [0, len(order) - 1] + [int(v) for v in rng.permutation(len(order))]
    if s.family == "poly-moment":
        k = k[:4]

    def one(j):
        return near(c, D, s, gen.pim(np.array([1.0]), order[[j]]), "all mass in one vertex", vertex=order[j])

    c.check(len(order) == len(V) and np.max(np.min(np.linalg.norm(order[:, None] - V[None], axis=2), axis=0)) < 1e-6, "all vertices are kept", got=len(order), want=len(V))
    attempts(c, [lambda j=j: one(j) for j in k[:14]])


@P.group(quick=24, thorough=300, cpu=400)
def third_order(c, rng, i):
    s = start(c, rng, family=["cyl-moment", "box-moment", "poly-moment", "body"][i % 4], d=3, flat=False)
    distances(c, rng, s, 3)


@P.group(quick=240, thorough=4000, cpu=240)
def optima(c, rng, i):
    """No optimum below the value of a body inside."""
    s = start(c, rng, family=realize.FAMILIES[i % len(realize.FAMILIES)])
    E = c.call(realize.Extremes, s)
    X = np.vstack([np.vstack((m.inside(rng, 200), m.boundary(rng, 400))) for m in s.models] + [m.V for m in s.models if isinstance(m, M.Poly)])

    def one(k, C):
        want = realize.value_at(C, X).max()
        mag = np.linalg.norm(C) * (1 + np.max(np.sum(X**2, axis=1)))
        for m in s.models:
            if isinstance(m, M.Ell):
                want = max(want, realize.max_quadratic_ell(C, m))
        slack = 2e-5 * max(1, abs(want)) + 2e-6 * mag
        good, st, v = E.judge(C, lambda st, v: st == "unbounded" or (st == "optimal" and v >= want - slack), 1e-3 * max(1, abs(want)))
        c.check(good, "no optimum below a realizable body", status=st, got=v, want=want, C=C, kind=k, **s.describe())
        return True

    attempts(c, [lambda a=a: one(*a) for a in realize.objectives(rng, s, 6)])


@P.group(quick=160, thorough=3000, cpu=240)
def threshold(c, rng, i):
    """With a positive threshold only bodies below it are lost."""
    s = start(c, rng, family=realize.FAMILIES[i % len(realize.FAMILIES)], flat=False)
    Q2 = np.vstack([m.boundary(rng, 8) for m in s.models])
    k = i // len(realize.FAMILIES) % 3
    if k == 1:  # as far out as possible
        Q2 = np.vstack([m.V if isinstance(m, M.Poly) else m.support_point(rng.normal(size=(8, 3))) for m in s.models])
    elif k == 2:
        Q2 = np.vstack((realize.body_in(rng, s.models, "inside")[1], Q2))
    w = rng.uniform(0.5, 1.5, len(Q2))
    J = gen.pim(w / w.sum() * float(rng.choice([1.0, 1.0, 10.0])), Q2)
    lmin = np.linalg.eigvalsh(J)[0]
    if lmin < 3e-4:
        return
    eps = float(lmin * rng.choice([0.1, 0.3, 0.8, 0.99]))
    D = c.call(realize.Distance, s, eps)
    c.say(Q=Q2, eps=eps)
    near(c, D, s, J, "bodies above the threshold stay", eps=eps)


@P.group(quick=80, thorough=1500, cpu=240)
def feasibility_problem(c, rng, i):
    """The ready-made feasibility problems accept realizable bodies."""
    s = start(c, rng, family=["poly-moment", "box-moment", "cyl-moment"][i % 3], flat=False)
    Q = np.vstack((s.models[0].inside(rng, 8), s.models[0].boundary(rng, 8)))
    ctr = Q.mean(axis=0)
    Q = ctr + 0.8 * (Q - ctr)
    J = gen.pim(np.full(len(Q), 0.3), Q)
    if np.linalg.eigvalsh(J)[0] < 1e-3:
        return
    arg = cp.Constant(J if s.form == "matrix" else gen.vec_of_J(J))
    pr = c.call(s.lib.moment_sdp_feasibility_problem, arg, d=s.d) if rng.random() < 0.7 or s.d != 2 else c.call(s.lib.moment_sdp_feasibility_problem, arg)
    st, v = cvx.solve(pr)
    c.say(J=J)
    c.check(st in cvx.OK, "feasibility problem accepts a realizable body", status=st, J=J, **s.describe())
