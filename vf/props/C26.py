import random as pyrandom

import numpy as np
import cvxpy as cp
import rigeo as rg
from .. import gen, model as M
from ..core import Inconclusive, Prop, Stop

P = Prop(
    "C26",
    rule="one case = one pool of about 20 shared objects (shapes, derived shapes, bodies, parameters, polynomials, forms) and one "
    "random history of public operations over it, with snapshots of every object, of the arguments and of the global random state "
    "around each operation, and every question asked again later and in another order; non-trivial if snapshots were compared",
    technique="runtime monitoring: snapshots of all public state around every call (online), and repeated questions compared within one "
    "history and against the same history in another order on an identical pool (offline)",
    note="public attributes present before the call, compared exactly; answers to 1e-9 (1e-5 where a convex solver is involved)",
    assumptions=["private attributes (caches) may change as long as answers do not", "rng generators handed over are consumed"],
)


def frozen(x, depth=0):
    """Comparable copy of the public state of anything."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("oarr", x.shape, tuple(frozen(v, depth + 1) for v in x.ravel()))
        return ("arr", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (bool, int, float, str, type(None), np.generic)):
        return ("val", repr(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(frozen(v, depth + 1) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple(sorted((repr(frozen(k, depth + 1)), frozen(v, depth + 1)) for k, v in x.items())))
    if type(x).__module__.startswith("rigeo") and depth < 8:
        d = {}
        for k, v in vars(x).items():
            if not k.startswith("_"):
                d[k] = frozen(v, depth + 1)
        if isinstance(x, rg.MomentIndex):
            return ("index", tuple(x.value))
        return (type(x).__name__, d)
    return ("opaque", type(x).__name__)


def changed(old, new, path=""):
    """First difference; attributes that were not there before do not count."""
    if isinstance(old, tuple) and len(old) == 2 and isinstance(old[1], dict):
        if not (isinstance(new, tuple) and len(new) == 2 and isinstance(new[1], dict)) or old[0] != new[0]:
            return path or "type"
        for k, v in old[1].items():
            if k not in new[1]:
                return f"{path}.{k} (gone)"
            r = changed(v, new[1][k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(old, tuple) and isinstance(new, tuple) and old and old[0] in ("list", "tuple") and new[:1] == old[:1]:
        if len(old[1]) != len(new[1]):
            return f"{path} length {len(old[1])} -> {len(new[1])}"
        for k, (a, b) in enumerate(zip(old[1], new[1])):
            r = changed(a, b, f"{path}[{k}]")
            if r:
                return r
        return None
    return None if old == new else path or "value"


def answer(x):
    """Answers as (structure, numbers)."""
    nums = []

    def go(x, depth=0):
        if isinstance(x, np.ndarray) and x.dtype != object:
            if x.dtype == bool:
                return ("b", x.shape, x.tobytes())
            nums.append(np.asarray(x, float).ravel())
            return ("a", x.shape)
        if isinstance(x, (bool, np.bool_, str, type(None))):
            return repr(x)
        if isinstance(x, (int, float, np.generic)):
            nums.append(np.array([float(x)]))
            return "n"
        if isinstance(x, (list, tuple)):
            return tuple(go(v, depth + 1) for v in x)
        if isinstance(x, np.ndarray):
            return tuple(go(v, depth + 1) for v in x.ravel())
        if isinstance(x, dict):
            return tuple((repr(k), go(v, depth + 1)) for k, v in sorted(x.items(), key=lambda t: repr(t[0])))
        if type(x).__module__.startswith("rigeo") and depth < 8:
            return (type(x).__name__, tuple((k, go(v, depth + 1)) for k, v in sorted(vars(x).items()) if not k.startswith("_")))
        if isinstance(x, cp.Constraint):
            return (type(x).__name__, tuple(x.shape))
        return type(x).__name__

    s = go(x)
    return s, (np.concatenate(nums) if nums else np.zeros(0))


def same(a, b, tol):
    if a[0] != b[0] or a[1].shape != b[1].shape:
        return False
    if not len(a[1]):
        return True
    fin = np.isfinite(a[1])
    if np.any(fin != np.isfinite(b[1])):
        return False
    x, y = a[1][fin], b[1][fin]
    return bool(np.all(np.abs(x - y) <= tol * max(1.0, np.abs(x).max(initial=0)))) and bool(np.all((a[1] == b[1]) | fin | np.isnan(a[1])))


def pool(seed):
    rng = np.random.default_rng(seed)
    o = {}
    o["box"] = gen.box(rng, big=False)[0]
    o["ell"] = gen.ellipsoid(rng, big=False)[0]
    o["ell2"] = gen.ellipsoid(rng, big=False)[0]
    o["disk"] = gen.ellipsoid(rng, flat=True, big=False)[0]
    o["cyl"] = gen.cylinder(rng, big=False)[0]
    o["cap"] = o["cyl"].capsule()
    o["poly"] = gen.poly(rng)[0]
    o["poly2"] = gen.poly(rng)[0]
    o["boxpoly"] = o["box"].as_poly()
    o["span"] = rg.SpanForm(vertices=gen.points(rng, 3, flat=False))
    o["face"] = o["poly"].face_form
    o["pa"] = rg.InertialParameters.from_point_masses(gen.masses(rng, 6) + 0.1, rng.normal(size=(6, 3)))
    o["pb"] = rg.InertialParameters(mass=2.0, com=rng.normal(size=3), H=np.diag(rng.uniform(0.1, 1, 3)), translate_from_com=True)
    lst = [o["box"], o["cyl"]] if rng.random() < 0.7 else [o["box"]]
    o["list"] = lst
    o["body"] = rg.RigidBody(lst, o["pa"])
    o["body2"] = rg.RigidBody([o["ell"], o["poly"]] if rng.random() < 0.7 else [o["ell"]], o["pb"])
    o["sum"] = o["body"] + o["body2"]
    o["moved"] = o["body"].transform(rotation=gen.rot(rng), translation=rng.normal(size=3))
    if rng.random() < 0.4:
        o["p"] = rg.Polynomial({(1, 0, 0): 2.0, (0, 0, 0): 1.0, (0, 2, 0): -1.0})
        o["q"] = rg.Polynomial({(1, 0, 0): -2.0, (0, 1, 1): 0.5})
    else:
        o["p"], o["q"] = polynomial(rng), polynomial(rng)
    o["r"] = o["p"] + o["q"]
    o["mm"] = rg.MomentMatrix(3, 2)
    o["V"] = rg.SV(linear=rng.normal(size=3), angular=rng.normal(size=3))
    o["A"] = rg.SV(linear=rng.normal(size=3), angular=rng.normal(size=3))
    return o


def polynomial(rng):
    """A quadratic with one to four terms, sometimes just a constant."""
    exps = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (0, 2, 0), (0, 1, 1)]
    ks = rng.choice(len(exps), int(rng.integers(1, 5)), replace=False)
    return rg.Polynomial({exps[k]: float(rng.choice([-2, -1, 0.5, 1, 3])) for k in ks})


SHAPES = ["box", "ell", "ell2", "cyl", "cap", "poly", "poly2", "boxpoly"]


def question(rng):
    """(label, args, f(pool, args), tolerance)"""
    k = int(rng.integers(0, 44))
    a, b = str(rng.choice(SHAPES)), str(rng.choice(SHAPES))
    n = int(rng.integers(1, 6))
    X = rng.normal(size=(n, 3)) * 1.5
    R, t = gen.rot(rng), rng.normal(size=3)
    sd = int(rng.integers(1000))
    par = str(rng.choice(["pa", "pb"]))
    bod = str(rng.choice(["body", "body2", "sum", "moved"]))
    sphere = bool(rng.random() < 0.5)
    T, S = 1e-9, 1e-5
    xs = [X, R, t]
    L = lambda name, args, f, tol=T: (name, args, f, tol)
    if k == 0:
        return L(f"{a}.contains", [X], lambda o, z: o[a].contains(z[0]))
    if k == 1:
        return L(f"{a}.contains", [X[0]], lambda o, z: o[a].contains(z[0]))
    if k == 2:
        return L(f"{a}.transform", [R, t], lambda o, z: o[a].transform(rotation=z[0], translation=z[1]))
    if k == 3:
        return L(f"{a}.random_points", [], lambda o, z: o[a].random_points(n, rng=sd))
    if k == 4:
        return L(f"{a}.aabb", [], lambda o, z: o[a].aabb())
    if k == 5:
        return L(f"{a}.is_same", [], lambda o, z: o[a].is_same(o[b]))
    if k == 6:
        return L(f"{a}.mbe", [], lambda o, z: o[a].mbe(sphere=sphere, solver=cp.CLARABEL), 1e-3)
    if k == 7:
        h = str(rng.choice(["box", "poly", "poly2", "boxpoly"]))
        return L(f"{h}.mie", [], lambda o, z: o[h].mie(sphere=sphere, solver=cp.CLARABEL), 1e-3)
    if k == 8:
        return L(f"closest({a},{b})", [], lambda o, z: rg.closest_points(o[a], o[b], solver=cp.CLARABEL).dist, 1e-4)
    if k == 9:
        h = str(rng.choice(["poly", "poly2", "box", "boxpoly"]))
        return L(f"{a}.contains_polyhedron", [], lambda o, z: o[a].contains_polyhedron(o[h]))
    if k == 10:
        h, g = (str(x) for x in rng.choice(["poly", "poly2", "box", "boxpoly"], 2))
        return L(f"{h}.intersect", [], lambda o, z: o[h].intersect(o[g]))
    if k == 11:
        h = str(rng.choice(["ell", "ell2", "disk"]))
        return L(f"{h}.can_realize", [], lambda o, z: o[h].can_realize(o[par]))
    if k == 12:
        h = str(rng.choice(["ell", "ell2", "disk"]))
        return L(f"{h} matrices", [], lambda o, z: (o[h].E, o[h].rank, o[h].volume, o[h].is_degenerate()) + ((o[h].S, o[h].A, o[h].b, o[h].Q) if h != "disk" else ()))
    if k == 13:
        return L(f"{par} representations", [], lambda o, z: [o[par].J, o[par].vec, o[par].I, o[par].Ic, o[par].Hc, o[par].M, o[par].h])
    if k == 14:
        return L(f"{par}.transform", [R, t], lambda o, z: o[par].transform(rotation=z[0], translation=z[1]))
    if k == 15:
        def f(o, z):
            x = o[par]
            x += o["pb"]
            return x
        return L(f"{par} += pb", [], f)
    if k == 16:
        return L("sum of parameters", [], lambda o, z: sum([o["pa"], o["pb"], o["pa"]]))
    if k == 17:
        def f(o, z):
            x = o[bod]
            x += o["body2"]
            return x
        return L(f"{bod} += body2", [], f)
    if k == 18:
        return L("sum of bodies", [], lambda o, z: sum([o[bod], o["body2"], o["body"]]))
    if k == 19:
        return L(f"{bod}.transform", [R, t], lambda o, z: o[bod].transform(rotation=z[0], translation=z[1]))
    if k == 20:
        return L(f"{bod}.mbes", [], lambda o, z: o[bod].mbes(sphere=sphere, solver=cp.CLARABEL), 1e-3)
    if k == 21:
        return L(f"{bod}.moment_sdp_constraints", [], lambda o, z: o[bod].moment_sdp_constraints(cp.Variable((4, 4), symmetric=True), d=1))
    if k == 22:
        return L("polynomial addition", [], lambda o, z: [o["p"] + o["q"], o["q"] + o["p"], o["r"] + o["p"]])
    if k == 23:
        def f(o, z):
            x = o["p"]
            x += o["q"]
            return x
        return L("p += q", [], f)
    if k == 24:
        return L("polynomial queries", [X[0]], lambda o, z: [o[h].evaluate(z[0]) for h in "pqr"] + [int(o[h].degree) for h in "pqr"] + [o[h].localize(rg.MomentIndex((1, 0, 2))) for h in "pqr"])
    if k == 25:
        Y = rng.normal(size=(10, 10))
        Y = Y + Y.T
        return L("localizing matrix", [Y], lambda o, z: [o["mm"].localize(z[0], o[h]) for h in "pq"])
    if k == 26:
        return L("symbolic localizing matrix", [], lambda o, z: o["mm"].localizing_matrix(1, o["p"]))
    if k == 27:
        return L("moment constraints", [], lambda o, z: o["mm"].moment_constraints(cp.Variable((10, 10))) + o["mm"].localizing_constraints(cp.Variable((10, 10)), [o["p"], o["q"]]))
    if k == 28:
        return L("span form", [R, t], lambda o, z: [o["span"].canonical(), o["span"].transform(z[0], z[1]), o["span"].bounded(), o["span"].is_cone()])
    if k == 29:
        return L("span to faces", [], lambda o, z: o["span"].to_face_form())
    if k == 30:
        return L("face form", [R, t], lambda o, z: [o["face"].canonical(), o["face"].transform(z[0], z[1]), o["face"].stack(o["boxpoly"].face_form), o["face"].to_span_form()])
    if k == 31:
        return L("spatial algebra", [], lambda o, z: [o["V"] + o["A"], o["V"] - o["A"], o["V"].adjoint(), rg.RigidBody.regressor(o["V"], o["A"]), o[par].body_wrench(o["V"], o["A"])])
    if k == 32:
        h = str(rng.choice(["box", "ell", "cyl", "disk"]))
        return L(f"{h} densities", [], lambda o, z: [o[h].uniform_density_params(2.0)] + ([o[h].hollow_density_params(1.0)] if h in ("box", "ell") else []))
    if k == 33:
        pts = X.tolist() if rng.random() < 0.5 else X
        return L("box of points", [pts], lambda o, z: rg.Box.from_points_to_bound(z[0]))
    if k == 34:
        P8 = gen.points(rng, 3, flat=False, n=8)
        return L("ellipsoid of points", [P8], lambda o, z: rg.mbe_of_points(z[0], sphere=sphere, solver=cp.CLARABEL), 1e-3)
    if k == 35:
        return L("ellipsoid of ellipsoids", [], lambda o, z: rg.mbe_of_ellipsoids([o["ell"], o["ell2"]], sphere=sphere, solver=cp.CLARABEL), 1e-3)
    if k == 36:
        return L("ellipsoid in ellipsoid", [], lambda o, z: o["ell"].contains_ellipsoid(o["ell2"], solver=cp.CLARABEL))
    if k == 37:
        def f(o, z):
            try:
                return rg.rejection_sample(o["list"], rg.Ellipsoid.sphere(5.0), 2, rng=sd)
            except ValueError:  # too small a part of the bounding sphere
                return "refused"
        return L("rejection sampling", [], f)
    if k == 38:
        h = str(rng.choice(["box", "poly", "cyl", "ell", "cap"]))
        return L(f"{h}.grid", [], lambda o, z: o[h].grid(4))
    if k == 39:
        ms = (gen.masses(rng, n) + 0.01)
        form = rng.random() < 0.5
        return L("point masses", [ms.tolist() if form else ms, X.tolist() if form else X], lambda o, z: rg.InertialParameters.from_point_masses(z[0], z[1]))
    if k == 40:
        h = str(rng.choice(["box", "ell"]))
        return L(f"{h} surface", [X, R], lambda o, z: [o[h].on_surface(z[0]), o[h].random_points_on_surface(n, rng=sd), o[h].rotate_about_center(z[1])])
    if k == 41:
        h = str(rng.choice(["poly", "box", "cyl"]))
        J = cp.Variable((4, 4), symmetric=True)
        return L(f"{h} realizability constraints", [], lambda o, z: (o[h].moment_custom_vertex_constraints(J) if h != "poly" else o[h].moment_vertex_constraints(J)) + o[h].moment_sdp_constraints(J, d=1))
    if k == 42:
        h = str(rng.choice(["cyl", "ell"]))
        return L(f"{h} boxes", [], lambda o, z: [o[h].mbb(), o[h].mib(), o["cap"].mbb()] + [o["cyl"].endpoints(), o["cyl"].volume])
    nv, sh = int(rng.integers(1, 6)), [int(rng.integers(1, 7)), (int(rng.integers(2, 7)),), (2, 3), (3, 1), (2, 2, 2)][int(rng.integers(5))]
    dim = int(rng.integers(1, 5))
    return L("random helpers", [], lambda o, z: [rg.random_psd_matrix(nv, rng=sd), rg.random_weight_vectors(nv, rng=sd), rg.random_weight_vectors((nv,), rng=sd), rg.random_weight_vectors((2, nv), rng=sd), rg.random_points_in_ball(sh, dim=dim, rng=sd), rg.random_points_on_hypersphere(sh, dim=dim, rng=sd), rg.InertialParameters.random(rng=sd), rg.convex_hull(rg.random_points_in_ball(9, rng=sd))])

def gstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], pyrandom.getstate())


@P.group(quick=700, thorough=14000, cpu=240)
def histories(c, rng, i):
    seed = int(rng.integers(2**31))
    o, twin = pool(seed), pool(seed)
    qs = [question(rng) for _ in range(int(rng.integers(10, 22)))]
    c.say(seed=seed, questions=[q[0] for q in qs])
    first = {}
    order = list(range(len(qs)))
    schedule = order + [int(x) for x in rng.permutation(len(qs))]
    states = {k: frozen(v) for k, v in o.items()}
    for step, k in enumerate(schedule):
        name, args, f, tol = qs[k]
        before_args, g = frozen(args), gstate()
        try:
            r = c.call(f, o, args)
        except Inconclusive:
            continue
        ans = answer(r)
        c.check(frozen(args) == before_args, "arguments unchanged", op=name, step=step)
        c.check(gstate() == g, "global random state unchanged", op=name, step=step)
        for nm, st in states.items():
            d = changed(st, frozen(o[nm]))
            if not c.check(d is None, "objects unchanged", op=name, object=nm, what=d, step=step, history=[qs[j][0] for j in schedule[: step + 1]]):
                raise Stop()
        if k in first:
            c.check(same(first[k], ans, tol), "the same question gets the same answer", op=name, got=ans, want=first[k], history=[qs[j][0] for j in schedule[: step + 1]])
        else:
            first[k] = ans
    # the same questions to identical objects, in another order
    for k in reversed(order):
        name, args, f, tol = qs[k]
        if k not in first:
            continue
        try:
            ans = answer(c.call(f, twin, args))
        except Inconclusive:
            continue
        c.check(same(first[k], ans, tol), "answers do not depend on the order of questions", op=name, got=ans, want=first[k])


def arrays(o, path="", depth=0):
    if isinstance(o, np.ndarray):
        yield path, o
    elif isinstance(o, (list, tuple)):
        for k, x in enumerate(o):
            yield from arrays(x, f"{path}[{k}]", depth + 1)
    elif type(o).__module__.startswith("rigeo") and depth < 6:
        for k, v in vars(o).items():
            if not k.startswith("_"):
                yield from arrays(v, f"{path}.{k}", depth + 1)


def facts(o):
    """What the shape says about itself, through its public queries."""
    X = np.array([[0.3, 0.1, -0.2], [1.0, 0.5, 0.2], [-0.7, 0.2, 0.6], [2.0, -1, 0.3], [0, 0, 0.0]])
    if isinstance(o, rg.SpanForm):
        return answer([o.vertices, o.rays])
    b = o.aabb()
    out = [o.contains(X), o.contains(X + 0.7), b.center, b.half_extents]
    for k in ("center", "rotation", "half_extents", "length", "radius", "vertices"):
        if hasattr(o, k):
            out.append(np.array(getattr(o, k), float))
    return answer(out)


@P.group(quick=1500, thorough=30000)
def ownership(c, rng, i):
    """Shapes own copies of the arrays and lists they are built from."""
    k = i % 8
    h, ctr, R = gen.extents(rng, 3, False), rng.normal(size=3), gen.rot(rng)
    V = gen.points(rng, 3, flat=False)
    if k == 0:
        o, given = rg.Box(h, center=ctr, rotation=R), [h, ctr, R]
    elif k == 1:
        o, given = rg.Ellipsoid(h, center=ctr, rotation=R), [h, ctr, R]
    elif k == 2:
        o, given = rg.Cylinder(1.3, 0.7, center=ctr, rotation=R), [ctr, R]
    elif k == 3:
        o, given = rg.Ellipsoid.sphere(1.2, center=ctr), [ctr]
    elif k == 4:
        o, given = rg.ConvexPolyhedron.from_vertices(V), [V]
    elif k == 5:
        o, given = rg.SpanForm(vertices=V), [V]
    elif k == 6:
        o, given = rg.Box.cube(0.7, center=ctr, rotation=R), [ctr, R]
    else:
        v2 = ctr + h
        o, given = rg.Box.from_two_vertices(ctr, v2), [ctr, v2]
    c.say(kind=type(o).__name__, given=given)
    before = facts(o)
    for g in given:
        g += 0.37
    c.check(same(before, facts(o), 1e-12), "later changes of the caller's arrays do not reach the shape", kind=type(o).__name__)
    # results of moves and bounding boxes are the caller's to change
    ops = [("transform", lambda: o.transform(rotation=np.eye(3), translation=np.zeros(3))), ("transform", lambda: o.transform())]
    if k < 4 or k >= 6:
        if hasattr(o, "rotate_about_center"):
            ops.append(("rotate_about_center", lambda: o.rotate_about_center(np.eye(3))))
        for nm in ("mbb", "mib", "aabb"):
            if hasattr(o, nm):
                ops.append((nm, getattr(o, nm)))
    X = rng.normal(size=(4, 3))
    sd = int(rng.integers(100))
    for nm in ("grid", "random_points", "random_points_on_surface", "random_points_on_edges", "endpoints", "contains", "on_surface", "E", "S", "Q"):
        if nm == "endpoints" or not hasattr(type(o), nm):
            if hasattr(type(o), nm):
                ops.append((nm, o.endpoints))
        elif nm == "grid":
            n = [2, 3, (2, 2, 2), (1, 2, 3)][int(rng.integers(4))]
            n = n if isinstance(o, rg.Box) or np.isscalar(n) else 2
            ops.append((nm, lambda n=n: o.grid(n)))
        elif nm.startswith("random"):
            ops.append((nm, lambda nm=nm: getattr(o, nm)(int(rng.choice([1, 8])), rng=sd)))
        elif nm in ("contains", "on_surface"):
            ops.append((nm, lambda nm=nm: getattr(o, nm)(X)))
        else:
            ops.append((nm, lambda nm=nm: getattr(o, nm)))
    if isinstance(o, rg.SpanForm):
        ops += [("canonical", o.canonical), ("to_face_form", o.to_face_form)]
    for q in rng.permutation(len(ops))[:5]:
        nm, f = ops[q]
        r = c.call(f)
        for p, a in arrays(r):
            if a.flags.writeable and a.dtype.kind == "f":
                a += 0.41
        c.check(same(before, facts(o), 1e-12), "changing a result does not change the original", kind=type(o).__name__, op=nm)


@P.group(quick=600, thorough=12000)
def body_lists(c, rng, i):
    """Bodies own their list of shapes; sums and moves make new lists."""
    ls = [gen.any_shape(rng, flat=False)[0] for _ in range(int(rng.integers(1, 4)))]
    extra = gen.any_shape(rng, flat=False)[0]
    b1 = rg.RigidBody(ls)
    b2 = rg.RigidBody([extra])
    s, m = b1 + b2, b1.transform(translation=np.ones(3))
    n = len(ls)
    c.say(n=n)
    ls.append(extra)
    c.check(len(b1.shapes) == n, "later changes of the caller's list do not reach the body", got=len(b1.shapes), want=n)
    s.shapes.append(extra)
    c.check(len(b1.shapes) == n and len(b2.shapes) == 1, "changing a sum's list does not change the summands", got=(len(b1.shapes), len(b2.shapes)))
    m.shapes.append(extra)
    c.check(len(b1.shapes) == n, "changing a moved body's list does not change the original", got=len(b1.shapes))
    t = sum([b1, b2])
    c.check([id(x) for x in t.shapes] == [id(x) for x in b1.shapes + b2.shapes] and len(b1.shapes) == n, "sum leaves the summands", got=len(t.shapes))
