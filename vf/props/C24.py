import json
import os

import numpy as np
import cvxpy as cp
import rigeo as rg
from .. import cvx, gen, model as M, lasserre, realize
from ..core import Inconclusive, Prop
from .C23 import attempts

P = Prop(
    "C24",
    rule="one case = one shape (or body) in a pose, one constraint family, order, variable form and threshold, and several linear "
    "objectives or parameter sets known to be unrealizable; non-trivial if an optimum or an infeasibility was judged",
    technique="runtime monitoring: optima over the real constraints compared with an independent implementation of the moment "
    "relaxation, with exact maxima of quadratics over ellipsoids and vertices, and with the values that no body can exceed",
    note="optima to 2e-5 plus 2e-6 of the objective's magnitude over the shape",
    assumptions=["Clarabel or SCS solves the programs; cases on which both give up are counted as inconclusive"],
)


def start(c, rng, **kw):
    s = realize.Setup(rng, **kw)
    c.say(**s.describe())
    return s


def mag(C, s):
    far = max(np.abs(np.array(m.bbox())).max() for m in s.models)
    return np.linalg.norm(C) * (1 + 3 * far**2)


def tol(C, s, want):
    return 2e-5 * max(1, abs(want)) + 2e-6 * mag(C, s)


def definite(st):
    if st == "optimal_inaccurate":
        raise Inconclusive(st)
    return st


def concave(rng, s, n):
    """Objectives that are bounded over any first-order relaxation."""
    T, size = lasserre.frame(s.models[0])
    Ti = np.linalg.inv(T) if size > 1e-3 else np.eye(4)
    for k in range(n):
        C = np.zeros((4, 4))
        G = rng.normal(size=(3, 3))
        C[:3, :3] = -rng.choice([0.1, 1]) * (G @ G.T)
        C[:3, 3] = rng.normal(size=3)
        C = C + C.T
        C /= np.linalg.norm(C)
        yield k, Ti.T @ C @ Ti


def objectives(rng, s, n):
    if s.d == 1 and s.family in ("poly-moment", "box-moment", "cyl-moment", "body"):
        return concave(rng, s, n)
    return realize.objectives(rng, s, n)


def part_maximum(m, C, d, cache):
    if isinstance(m, M.Ell):
        return realize.max_quadratic_ell(C, m)
    if id(m) not in cache:
        cache[id(m)] = lasserre.Relaxation(m, d)
    st, v = cache[id(m)].maximum(C)
    definite(st)
    return v if st == "optimal" else np.inf


def equal(c, rng, s, n, tag):
    E = c.call(realize.Extremes, s)
    cache = {}

    def one(k, C):
        want = max(part_maximum(m, C, s.d, cache) for m in s.models)
        if not np.isfinite(want):
            ok, agree = lambda st, v: st == "unbounded", np.inf
        else:
            ok, agree = lambda st, v: st == "optimal" and abs(v - want) <= tol(C, s, want), 1e-3 * max(1, abs(want))
        good, st, v = E.judge(C, ok, agree)
        c.check(good, tag, got=(st, v), want=want, kind=k, C=C, **s.describe())
        return True

    attempts(c, [lambda a=a: one(*a) for a in objectives(rng, s, n)])


def relaxed(name, quick, thorough):
    def fn(c, rng, i):
        s = start(c, rng, family=name, flat=False if i % 4 else None)
        equal(c, rng, s, 6, f"{name}: optimum equals that of the moment relaxation")

    P.group(quick=quick, thorough=thorough, cpu=240, name=name)(fn)


for _f in ("poly-moment", "box-moment", "cyl-moment"):
    relaxed(_f, 96, 1500)


@P.group(quick=16, thorough=240, cpu=400)
def third_order(c, rng, i):
    s = start(c, rng, family=["cyl-moment", "box-moment", "poly-moment", "cyl-moment"][i % 4], d=3, flat=False)
    equal(c, rng, s, 2, "third order: optimum equals that of the moment relaxation")


ORDERS = json.load(open(os.path.join(os.path.dirname(lasserre.__file__), "orders.json")))


@P.group(quick=32, thorough=240, cpu=400)
def loose(c, rng, i):
    """Polyhedra and objectives for which the second order is known to be
    looser than the third, in random poses: the order asked for is used."""
    o = ORDERS[i % len(ORDERS)]
    T = np.eye(4)
    k = float(rng.choice([0.5, 1.0, 1.5]))
    T[:3, :3], T[:3, 3] = k * gen.rot(rng), rng.uniform(-0.5, 0.5, 3)
    X = (np.array(o["points"]) @ T[:3, :3].T + T[:3, 3])[rng.permutation(len(o["points"]))]
    Ti = np.linalg.inv(T)
    C = Ti.T @ np.array(o["C"]) @ Ti
    d = 3 if i % 4 else 2
    want = o["third"] if d == 3 else o["second"]
    gap = o["second"] - o["third"]
    s = realize.Setup(rng, family="poly-moment", d=d, flat=False)
    m = M.Poly(X)
    lib = rg.ConvexPolyhedron.from_vertices(X)
    s.models, s.lib, s.parts = [m], lib, [(lib, m)]
    if i % 2:
        s.family = "body"
        shapes = [lib]
        if i % 4 == 3:  # a second, much smaller part inside the first
            m2 = M.Ell(np.full(3, 0.1 * k), np.eye(3), m.V.mean(axis=0))
            shapes.append(gen.lib_from_model(m2))
            s.models = [m, m2]
        s.lib = rg.RigidBody([shapes[j] for j in rng.permutation(len(shapes))])
    c.say(**s.describe())
    E = c.call(realize.Extremes, s)

    def one():
        good, st, v = E.judge(C, lambda st, v: st == "optimal" and abs(v - want) <= 0.25 * gap, 0.25 * gap)
        c.check(good, "a relaxation of the order asked for", got=(st, v), second=o["second"], third=o["third"], **s.describe())
        return True

    attempts(c, [one])


@P.group(quick=24, thorough=300, cpu=400)
def body_orders(c, rng, i):
    """The order that a body is asked for is the order of its constraints."""
    while True:
        s = realize.Setup(rng, family="body", d=[3, 3, 1][i % 3], flat=False)
        if len(s.models) <= 2 and not all(isinstance(m, M.Ell) for m in s.models):
            break
    c.say(**s.describe())
    equal(c, rng, s, 4, "body of any order: optimum is the largest of its parts'")


@P.group(quick=160, thorough=3000, cpu=240)
def ellipsoid(c, rng, i):
    s = start(c, rng, family="ell", flat=i % 3 == 0)
    equal(c, rng, s, 8, "ellipsoid: optimum is exact")


@P.group(quick=80, thorough=1500, cpu=240)
def body(c, rng, i):
    s = start(c, rng, family="body")
    equal(c, rng, s, 6, "body: optimum is the largest of its parts'")


@P.group(quick=80, thorough=1500, cpu=240)
def body_of_ellipsoids(c, rng, i):
    while True:
        s = realize.Setup(rng, family="body")
        n = int(rng.integers(1, 5))
        s.parts = [realize._k(rng, ["ellipsoid"], rng.random() < 0.3) for _ in range(n)]
        if not any(realize.thin(m) for _, m in s.parts):
            break
    s.models = [m for _, m in s.parts]
    s.lib = rg.RigidBody([l for l, _ in s.parts])
    s.d = 2
    c.say(**s.describe())
    equal(c, rng, s, 6, "union of ellipsoids: optimum is exact")


@P.group(quick=120, thorough=2500, cpu=240)
def custom(c, rng, i):
    """Specialized constraints are at least as tight as the second order."""
    s = start(c, rng, family=["box-custom", "cyl-custom"][i % 2], d=2, flat=False if i % 5 else None)
    E, R = c.call(realize.Extremes, s), lasserre.Relaxation(s.models[0], 2)

    def one(k, C):
        st0, want = R.maximum(C)
        if definite(st0) != "optimal":
            raise Inconclusive(st0)
        good, st, v = E.judge(C, lambda st, v: st == "optimal" and v <= want + tol(C, s, want), 1e-3 * max(1, abs(want)))
        c.check(good, "specialized constraints at least as tight as second order", got=(st, v), want=want, kind=k, C=C, **s.describe())
        return True

    attempts(c, [lambda a=a: one(*a) for a in realize.objectives(rng, s, 8)])


@P.group(quick=160, thorough=3000, cpu=240)
def vertices(c, rng, i):
    """Convex quadratics over vertex-based constraints peak at a vertex."""
    s = start(c, rng, family=["poly-vertex", "box-vertex"][i % 2])
    m = s.models[0]
    E = c.call(realize.Extremes, s)
    T, size = lasserre.frame(m)
    Ti = np.linalg.inv(T) if size > 1e-3 else np.eye(4)

    def one(k):
        G = rng.normal(size=(3, int(rng.integers(1, 4)))) * rng.choice([0.0, 0.3, 1.0])
        C = np.zeros((4, 4))
        C[:3, :3] = G @ G.T
        C[:3, 3] = rng.normal(size=3)
        C = C + C.T
        C = Ti.T @ (C / np.linalg.norm(C)) @ Ti
        want = realize.value_at(C, m.V).max()
        good, st, v = E.judge(C, lambda st, v: st == "optimal" and abs(v - want) <= tol(C, s, want), 1e-3 * max(1, abs(want)))
        c.check(good, "vertex constraints: convex quadratics peak at a vertex", got=(st, v), want=want, C=C, **s.describe())
        return True

    attempts(c, [lambda k=k: one(k) for k in range(8)])


@P.group(quick=240, thorough=4000, cpu=240)
def center(c, rng, i):
    """Centers of mass range over exactly the convex hull of the shape."""
    s = start(c, rng, family=realize.FAMILIES[i % len(realize.FAMILIES)], d=1 + i % 2)
    E = c.call(realize.Extremes, s)

    def one(k):
        u = rng.normal(size=3)
        u /= np.linalg.norm(u)
        C = np.zeros((4, 4))
        C[:3, 3] = C[3, :3] = u / 2
        want = max(float(m.support(u[None])[0]) for m in s.models)
        good, st, v = E.judge(C, lambda st, v: st == "optimal" and abs(v - want) <= tol(C, s, want), 1e-3 * max(1, abs(want)))
        c.check(good, "center of mass reaches exactly the support of the shape", got=(st, v), want=want, u=u, **s.describe())
        return True

    attempts(c, [lambda k=k: one(k) for k in range(5)])


@P.group(quick=240, thorough=4000, cpu=240)
def psd(c, rng, i):
    """The pseudo-inertia matrix is symmetric with eigenvalues at least eps."""
    s = start(c, rng, family=realize.FAMILIES[i % len(realize.FAMILIES)], flat=False)
    s.d = 2
    # an eps that some body inside certainly reaches
    Q = np.vstack([m.boundary(rng, 12) for m in s.models])
    reach = np.linalg.eigvalsh(gen.pim(np.full(len(Q), 1 / len(Q)), Q))[0]
    eps = 0 if i % 3 == 0 else float(0.5 * reach)
    form = s.form
    E = c.call(realize.Extremes, s, eps, form, form == "matrix")
    c.say(eps=eps)

    def one(k):
        C = np.zeros((4, 4))
        if form == "matrix" and k % 2 == 0:
            a, b = rng.choice(4, 2, replace=False)
            C[a, b], C[b, a] = 1, -1
            good, st, v = E.judge(C, lambda st, v: st == "optimal" and abs(v) <= tol(C, s, 0), 1e-3)
            c.check(good, "only symmetric pseudo-inertia matrices", got=(st, v), C=C, eps=eps, **s.describe())
            return True
        u = rng.normal(size=4)
        u /= np.linalg.norm(u)
        good, st, v = E.judge(-np.outer(u, u), lambda st, v: st == "optimal" and -v >= eps - 2e-5, 1e-3)
        c.check(good, "eigenvalues at least the threshold", got=(st, v), eps=eps, u=u, **s.describe())
        # (all the way down to the threshold for a shape through the origin
        # is the relaxation's own business: equality is judged elsewhere)
        return True

    attempts(c, [lambda k=k: one(k) for k in range(4)])


@P.group(quick=200, thorough=3000, cpu=240)
def outside(c, rng, i):
    """Bodies that cannot be inside are away from the feasible set."""
    s = start(c, rng, family=realize.FAMILIES[i % len(realize.FAMILIES)], flat=False)
    s.d = 2
    D = c.call(realize.Distance, s)

    def one(k):
        u = rng.normal(size=3)
        u /= np.linalg.norm(u)
        sup = max(float(m.support(u[None])[0]) for m in s.models)
        ms, Q = realize.body_in(rng, s.models, "inside")
        kind = k % 3
        if kind == 0:  # whole body beside the shape
            Q = Q + u * (sup - (Q @ u).min() + 0.1)
            J = gen.pim(ms, Q)
            why = "center of mass outside"
            # any J in the set has u'h <= sup m
            n = np.append(u, -sup)
            gap = (J[:3, 3] @ u - sup * J[3, 3]) / np.sqrt(0.5 + sup**2)
        elif kind == 1:  # spread beyond the extent, center of mass inside
            lo = -max(float(m.support(-u[None])[0]) for m in s.models)
            J = gen.pim(ms, Q)
            J[:3, :3] += (max(sup, -lo) ** 2 + 0.1) * J[3, 3] * np.outer(u, u)
            if s.family in ("poly-moment", "box-moment", "cyl-moment", "body"):
                # second order bounds the extent along the shape's own axes only
                n = len(s.models)
                far = max(np.abs(np.array(m.bbox())).max() for m in s.models)
                J[:3, :3] += 3 * far**2 * J[3, 3] * np.outer(u, u)
            why = "spread beyond the extent"
            gap = 0.05 * J[3, 3] / (1 + max(sup, -lo) ** 2)
        else:  # not positive semidefinite
            J = gen.pim(ms, Q)
            w, V = np.linalg.eigh(J)
            a = 0.05 * w[-1]
            J = J - (w[0] + a) * np.outer(V[:, 0], V[:, 0])
            why = "negative eigenvalue"
            gap = a
        good, st, v = D.judge(J, lambda st, v: st == "optimal" and v >= 0.5 * gap, 0.2 * gap)
        c.check(good, "unrealizable: " + why, got=(st, v), gap=gap, J=J, **s.describe())
        return True

    attempts(c, [lambda k=k: one(k) for k in range(6)])


@P.group(quick=80, thorough=1500, cpu=240)
def feasibility_problem(c, rng, i):
    s = start(c, rng, family=["poly-moment", "box-moment", "cyl-moment"][i % 3], flat=False)
    u = rng.normal(size=3)
    u /= np.linalg.norm(u)
    m = s.models[0]
    Q = m.boundary(rng, 12)
    eps = 0
    if i % 2:
        Q = Q + u * (m.support(u[None])[0] - Q.mean(axis=0) @ u + 0.05)
        J = gen.pim(np.full(len(Q), 0.3), Q)
    else:  # inside, but below the threshold
        J = gen.pim(np.full(len(Q), 0.3), Q)
        w = np.linalg.eigvalsh(J)
        eps = float(w[0] + 0.1 * w[-1])
    arg = cp.Constant(J if s.form == "matrix" else gen.vec_of_J(J))
    pr = c.call(s.lib.moment_sdp_feasibility_problem, arg, eps=eps, d=s.d)
    good, st, v = cvx.judge(pr, lambda st, v: st == "infeasible", np.inf)
    c.say(J=J)
    c.check(good, "feasibility problem refuses unrealizable parameters", status=st, J=J, eps=eps, **s.describe())


@P.group(quick=60, thorough=500)
def bad_variable(c, rng, i):
    """A variable of any other shape is refused."""
    s = start(c, rng, flat=False)
    shp = [(9,), (11,), (3, 3), (5, 5), (10, 1), (16,)][i % 6]
    c.raises((ValueError, AssertionError), s.generate, cp.Variable(shp), tag="other variable shapes are refused")
