import numpy as np
import rigeo as rg
from scipy.spatial import HalfspaceIntersection
from .. import cddspy, gen, model as M
from ..core import Inconclusive, Prop

P = Prop(
    "C06",
    rule="one case = one pair of polyhedra (boxes, general polyhedra, flat or solid, overlapping, nested, touching in "
    "a face/edge/vertex, or disjoint) and both intersections; non-trivial if probes were labelled by both operands",
    technique="runtime monitoring: results of intersect/stack compared online with reference membership in both operands "
    "and linear-programming emptiness and support",
    note="operands are independent reference models; emptiness and support of the common set come from an LP; touching "
    "configurations use exactly representable data",
    assumptions=["no nearly coincident facets, no tiny rotations (floating-point double description)"],
)


def unit(rng, n, d):
    u = rng.normal(size=(n, d))
    return u / np.linalg.norm(u, axis=1, keepdims=True)


def shape(rng, d=3, flat=False):
    if d == 3 and rng.random() < 0.4:
        h = gen.extents(rng, 3, flat, lo=0.3)
        if not flat:
            h = np.maximum(h, 0.2)
        R, t = gen.rot(rng, 3, rng.choice(["id", "perm", "half", "rand", "rand", "plane"])), gen.trans(rng, 3, big=False)
        return rg.Box(h, center=t, rotation=R), M.BoxM(h, R, t)
    return gen.poly(rng, d, flat, size=10.0**rng.uniform(-3,4))


def many_faced(rng, d):
    """Regular polygons and prisms, and hulls of many points."""
    if d == 3 and rng.random() < 0.4:  # spread over a sphere
        n = int(rng.integers(14, 24))
        k = np.arange(n) + 0.5
        z, t = 1 - 2 * k / n, np.pi * (1 + np.sqrt(5)) * k
        V = np.column_stack((np.sqrt(1 - z**2) * np.cos(t), np.sqrt(1 - z**2) * np.sin(t), z)) * rng.uniform(0.7, 1.5)
        V = V @ gen.rot(rng, d, "rand").T + gen.trans(rng, d, big=False)
        return rg.ConvexPolyhedron.from_vertices(V, prune=bool(rng.random() < 0.5)), M.Poly(V)
    n = int(rng.integers(6, 12)) if rng.random() < 0.7 else int(rng.integers(12, 24))
    t = (np.arange(n) + rng.uniform(-0.1, 0.1, n)) * 2 * np.pi / n
    V = np.column_stack((np.cos(t), np.sin(t))) * rng.uniform(0.7, 1.5)
    if d == 3:
        z = rng.uniform(0.3, 1)
        V = np.vstack((np.hstack((V, np.full((n, 1), z))), np.hstack((V, np.full((n, 1), -z)))))
    V = V @ gen.rot(rng, d, "rand").T + gen.trans(rng, d, big=False)
    return rg.ConvexPolyhedron.from_vertices(V, prune=True), M.Poly(V)


def common(m1, m2):
    """LP over both vertex descriptions: sup u.x over the common set."""
    V1, V2 = m1.V, m2.V
    n1, n2, d = len(V1), len(V2), m1.dim
    A = np.vstack((np.hstack((V1.T, -V2.T)), np.append(np.ones(n1), np.zeros(n2)), np.append(np.zeros(n1), np.ones(n2))))
    b = np.append(np.zeros(d), [1.0, 1.0])

    def sup(u):
        r = M.lp(-np.append(V1 @ u, np.zeros(n2)), A_eq=A, b_eq=b, bounds=(0, None))
        return -r.fun if r.status == 0 else None

    return sup


def gap(m1, m2):
    """Separation in the max norm (>0 when disjoint)."""
    V1, V2 = m1.V, m2.V
    n1, n2, d = len(V1), len(V2), m1.dim
    # min s: |V1'a - V2'b| <= s
    one = np.ones((d, 1))
    A = np.vstack((np.hstack((V1.T, -V2.T, -one)), np.hstack((-V1.T, V2.T, -one))))
    E = np.array([np.concatenate((np.ones(n1), np.zeros(n2 + 1))), np.concatenate((np.zeros(n1), np.ones(n2), [0]))])
    r = M.lp(np.append(np.zeros(n1 + n2), 1.0), A_ub=A, b_ub=np.zeros(2 * d), A_eq=E, b_eq=[1, 1], bounds=(0, None))
    return r.fun


def depth(m1, m2):
    """Radius of a ball in the common set (solid operands)."""
    A = np.vstack((m1.G @ m1.B.T if not isinstance(m1, M.BoxM) else hrep(m1)[0], m2.G @ m2.B.T if not isinstance(m2, M.BoxM) else hrep(m2)[0]))
    b = np.concatenate((hrep(m1)[1], hrep(m2)[1]))
    r = M.chebyshev(A, b)
    return -1.0 if r is None else r[1]


def hrep(m):
    if isinstance(m, M.BoxM):
        A = np.vstack((m.R.T, -m.R.T))
        return A, np.concatenate((m.h, m.h)) + A @ m.c
    return m.G @ m.B.T, m.g + m.G @ m.B.T @ m.p0


def probes(rng, m1, m2, n=60):
    X = [m1.inside(rng, n), m2.inside(rng, n)]
    lo = np.maximum(m1.bbox()[0], m2.bbox()[0]) - 0.05
    hi = np.minimum(m1.bbox()[1], m2.bbox()[1]) + 0.05
    if np.all(hi > lo):
        X.append(rng.uniform(lo, hi, (2 * n, m1.dim)))
    return np.vstack(X)


def common_ok(m1, m2):
    """Are the vertices of the common set clear of one another?
    Floating-point double description is unreliable otherwise."""
    A = np.vstack((hrep(m1)[0], hrep(m2)[0]))
    b = np.concatenate((hrep(m1)[1], hrep(m2)[1]))
    if m2.rank() < m2.dim:
        # within the flat operand (a box)
        B = m2.R[:, m2.h > 0]
        A, b = A @ B, b - A @ m2.c
        n = np.linalg.norm(A, axis=1)
        if np.any((n > 1e-9) & (n < 0.1)) or np.any(b[n <= 1e-9] < -1e-9):
            return False
        A, b = A[n > 0.1] / n[n > 0.1, None], b[n > 0.1] / n[n > 0.1]
    if A.shape[1] == 0:
        return True
    if A.shape[1] == 1:
        w = np.min(b[A[:, 0] > 0]) + np.min(b[A[:, 0] < 0])
        return w > 0.02
    C = np.abs(A @ A.T)
    if np.any((C > 0.995) & (C < 1 - 1e-9)):
        return False
    x, r = M.chebyshev(A, b)
    if r < 0.02:
        return False
    V = HalfspaceIntersection(np.hstack((A, -b[:, None])), x).intersections
    D = np.linalg.norm(V[:, None] - V[None], axis=2)
    return not np.any((D > 1e-9) & (D < 0.02))


def conditioned(m1, m2):
    """No two facets of the pair nearly coincide without being equal."""
    A = np.vstack((hrep(m1)[0], hrep(m2)[0]))
    C = np.abs(A @ A.T)
    return not np.any((C > 0.995) & (C < 1 - 1e-9))


def fragile(rng, l1, m1, l2, m2, g):
    """Raw cdd, given the same two sets, gets the common set wrong."""
    sup = (lambda u: None) if g > 0.02 else common(m1, m2)
    (A1, b1), (A2, b2) = hrep(m1), hrep(m2)
    own = (np.vstack((A1, A2)), np.concatenate((b1, b2)))
    given = (np.vstack((l1.A, l2.A)), np.concatenate((l1.b, l2.b)))
    dirs = np.vstack((np.eye(m1.dim), -np.eye(m1.dim), unit(rng, 3 if len(own[1]) < 20 else 40, m1.dim)))
    if M.dd_fragile([own, given], sup, dirs, rng):
        raise Inconclusive("floating-point double description breaks down on this input")


@P.group(quick=400, thorough=12000)
@cddspy.beyond_floats
def solid(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 3, 3, 4]))
    for _ in range(100):
        (l1, m1), (l2, m2) = shape(rng, d), shape(rng, d)
        k = rng.choice(["near", "nested", "far", "same", "scaled"])
        if rng.random() < 0.3 and d in (2, 3):  # many faces
            l1, m1 = many_faced(rng, d)
        if k == "nested":
            t = m1.inside(rng, 1)[0]
            m2 = M.Poly((m2.V - m2.c) * 0.3 + t)
            l2 = rg.ConvexPolyhedron.from_vertices(m2.V, prune=True)
        elif k == "scaled":  # faces in common directions, at other distances
            q, f = m1.inside(rng, 1)[0], rng.uniform(0.4, 1.6)
            V = (m1.V - q) * f + q + unit(rng, 1, d)[0] * rng.choice([0, 0.1, 0.4])
            l2, m2 = rg.ConvexPolyhedron.from_vertices(V, prune=True), M.Poly(V)
            if rng.random() < 0.5:
                l2 = rg.ConvexPolyhedron.from_halfspaces(*hrep(m2))
        elif k == "same":
            l2, m2 = (l1, m1) if rng.random() < 0.5 else (gen.lib_from_model(m1), m1)
        elif k == "near":
            t = m1.c + unit(rng, 1, d)[0] * rng.uniform(0.2, 1.5) - m2.c
            m2 = m2.transform(np.eye(d), t)
            l2 = l2.transform(translation=t)
        else:
            t = m1.c + unit(rng, 1, d)[0] * rng.uniform(3, 9) - m2.c
            m2 = m2.transform(np.eye(d), t)
            l2 = l2.transform(translation=t)
        if not conditioned(m1, m2):
            continue
        g = gap(m1, m2)
        r = depth(m1, m2)
        if g > 0.02 or (r > 0.02 and common_ok(m1, m2)):
            break
    else:
        return
    c.say(d=d, k=k, kinds=(m1.kind, m2.kind), m1=m1.params(), m2=m2.params())
    fragile(rng, l1, m1, l2, m2, g)
    X = probes(rng, m1, m2)
    sc = max(m1.scale(), m2.scale())
    a, b = m1.classify(X, 1e-4 * sc), m2.classify(X, 1e-4 * sc)
    both, none = (a > 0) & (b > 0), (a < 0) | (b < 0)
    sup = common(m1, m2)
    for who, (p, q) in (("first", (l1, l2)), ("second", (l2, l1))):
        r = p.intersect(q)
        if g > 0.02:
            c.check(r is None, "disjoint polyhedra have no intersection", gap=g, got=repr(r)[:300])
            continue
        if not c.check(r is not None, "overlapping polyhedra intersect", asked=who):
            continue
        got = np.asarray(r.contains(X))
        bad = (both & ~got) | (none & got)
        c.seen("probes in both", both.sum())
        c.seen("probes outside one", none.sum())
        if bad.any():
            j = np.nonzero(bad)[0][0]
            c.fail("intersection is not the common set", p=X[j], got=got[j], in1=int(a[j]), in2=int(b[j]))
        for u in unit(rng, 4, d):
            c.check(abs(np.max(r.vertices @ u) - sup(u)) < 1e-5 * sc, "vertices reach the support of the common set", got=np.max(r.vertices @ u), want=sup(u))
        c.check(r.dim == d, "dimension")
    # stacking the face descriptions
    f = l1.face_form.stack(l2.face_form)
    got = np.all(X @ f.A.T <= f.b + 1e-8, axis=1)
    c.check(np.array_equal(got[both | none], both[both | none]), "stacked faces describe the intersection", n=(both | none).sum())
    c.check(f.nf == l1.face_form.nf + l2.face_form.nf, "stack keeps every face")


@P.group(quick=300, thorough=8000)
@cddspy.beyond_floats
def touching(c, rng, i):
    """Boxes with exactly representable data that touch in a face, edge,
    vertex, or share a lower-dimensional piece."""
    h1, h2 = rng.integers(1, 4, 3) / 2.0, rng.integers(1, 4, 3) / 2.0
    c1 = rng.integers(-3, 4, 3) / 2.0
    k = int(rng.integers(1, 4))  # number of touching axes
    ax = rng.permutation(3)
    off = rng.choice([-1, 0, 1], 3) * 0.5
    off = np.clip(off, -(h1 + h2) + 0.5, (h1 + h2) - 0.5)
    sg = rng.choice([-1.0, 1.0], 3)
    for a in ax[:k]:
        off[a] = sg[a] * (h1[a] + h2[a])
    gapped = rng.random() < 0.25
    if gapped:
        off[ax[0]] += sg[ax[0]] * rng.choice([0.25, 0.01])
    c2 = c1 + off
    R = gen.rot(rng, 3, rng.choice(["id", "perm", "half"]))
    m1, m2 = M.BoxM(h1, R, R @ c1), M.BoxM(h2, R, R @ c2)
    kind = rng.choice(["box", "poly", "mixed", "half"])
    l1, l2 = gen.lib_from_model(m1), gen.lib_from_model(m2)
    if kind in ("poly", "half"):
        l1 = l1.as_poly() if kind == "poly" else rg.ConvexPolyhedron.from_halfspaces(*hrep(m1))
    if kind != "box":
        l2 = l2.as_poly()
    c.say(h1=h1, c1=c1, h2=h2, c2=c2, R=R, k=k, kind=kind, gapped=gapped)
    lo, hi = np.maximum(c1 - h1, c2 - h2), np.minimum(c1 + h1, c2 + h2)
    for who, (p, q) in (("first", (l1, l2)), ("second", (l2, l1))):
        r = p.intersect(q)
        if gapped:
            c.check(r is None, "separated boxes have no intersection", got=repr(r)[:200])
            continue
        if not c.check(r is not None, "touching boxes intersect", asked=who):
            continue
        W = M.BoxM((hi - lo) / 2, None, (hi + lo) / 2).V
        W = np.unique(W, axis=0) @ R.T
        D = np.max(np.abs(r.vertices[:, None] - W[None]), axis=2)
        c.check(D.min(axis=0).max() < 1e-8 and D.min(axis=1).max() < 1e-8, "touching set is the shared face, edge or vertex", got=r.vertices, want=W)
        c.check(np.asarray(r.contains(W, tol=1e-7)).all(), "touching set contains its corners", n=len(W))
        Y = W.mean(0) + unit(rng, 20, 3) * 5
        c.check(not np.asarray(r.contains(Y, tol=1e-7)).any(), "far points are out", n=20)


@P.group(quick=200, thorough=6000)
@cddspy.beyond_floats
def flats(c, rng, i):
    """A flat operand cut by a solid one, or by another flat one."""
    for _ in range(200):
        l1, m1 = shape(rng, 3, False)
        h = gen.extents(rng, 3, True, lo=0.3)
        R = m1.R if isinstance(m1, M.BoxM) and rng.random() < 0.5 else gen.rot(rng, 3, rng.choice(["id", "perm", "rand"]))
        t = m1.inside(rng, 1)[0] * 0.7 + m1.c * 0.3 if rng.random() < 0.8 else m1.c + unit(rng, 1, 3)[0] * 8
        m2 = M.BoxM(h, R, t)
        l2 = rg.Box(h, center=t, rotation=R)
        if not conditioned(m1, m2):
            continue
        g = gap(m1, m2)
        deep = m1.viol(t[None])[0][0] < -0.05
        if g > 0.02 or (deep and common_ok(m1, m2)):
            break
    else:
        return
    c.say(m1=m1.params(), kind=m1.kind, h=h, R=R, t=t)
    fragile(rng, l1, m1, l2, m2, g)
    X = np.vstack((m2.inside(rng, 80), m1.inside(rng, 20)))
    sc = max(m1.scale(), m2.scale())
    in1 = m1.classify(X, 1e-4 * sc)
    n2 = np.arange(len(X)) < 80  # members of the flat operand by construction
    off2 = m2.classify(X, 1e-3 * sc) < 0
    sup = common(m1, m2)
    for p, q in ((l1, l2), (l2, l1)):
        r = p.intersect(q)
        if g > 0.02:
            c.check(r is None, "disjoint polyhedra have no intersection", gap=g, got=repr(r)[:200])
            continue
        if not c.check(r is not None, "overlapping polyhedra intersect"):
            continue
        got = np.asarray(r.contains(X, tol=1e-6))
        c.check(got[n2 & (in1 > 0)].all(), "common points of a flat operand are kept", n=(n2 & (in1 > 0)).sum(), p=X[n2 & (in1 > 0) & ~got][:1])
        out = (in1 < 0) | off2
        c.check(not got[out].any(), "points outside one operand are dropped", n=out.sum(), p=X[out & got][:1])
        for u in unit(rng, 4, 3):
            s = sup(u)
            if s is not None:
                c.check(abs(np.max(r.vertices @ u) - s) < 1e-5 * sc, "vertices reach the support of the common set", got=np.max(r.vertices @ u), want=s)
