import numpy as np
import rigeo as rg
from .. import cddspy, gen, model as M
from ..core import Inconclusive, Prop

P = Prop(
    "C04",
    rule="one case = one random vertex/ray or inequality description (dimension 1-5, bounded or not, flat or not, with "
    "equalities or lines) and its conversions; non-trivial if membership or support of both descriptions was compared",
    technique="runtime monitoring: conversions compared online with linear-programming reference membership and support",
    note="reference membership, support values and redundancy are decided by an independent LP solver; input data are "
    "kept away from near-degeneracy, where floating-point double description is unreliable (boxes tilted by small angles are judged, with the known finding on them)",
    assumptions=["no nearly coincident facets, sets not farther from the origin than about a thousand times their size (float double description)"],
)
TOL = 1e-6


def unit(rng, n, d):
    u = rng.normal(size=(n, d))
    return u / np.linalg.norm(u, axis=1, keepdims=True)


def in_faces(f, X, tol=TOL):
    return np.all(X @ f.A.T <= f.b + tol * (1 + np.linalg.norm(f.A, axis=1)), axis=1)


def h_support(A, b, u):
    """sup u.x over {A x <= b}: value, or inf / None (empty)."""
    A, b = np.asarray(A, dtype=float), np.asarray(b, dtype=float)
    n = np.linalg.norm(A, axis=1)
    n[n == 0] = 1.0
    r = M.lp(-u, A_ub=A / n[:, None], b_ub=b / n)
    if r.status == 0:
        return -r.fun
    if r.status == 3:
        return np.inf
    if r.status == 2:
        return None
    raise Inconclusive(f"linear program: {r.message}")


def v_support(V, Y, u):
    if Y is not None and len(Y) and np.max(Y @ u / np.linalg.norm(Y, axis=1)) > 1e-7:
        return np.inf
    return float(np.max(V @ u)) if V is not None else 0.0


def parts(s):
    """Vertices and rays; a cone without vertices starts at the origin."""
    V, Y = s.vertices, s.rays
    if V is None:
        V = np.zeros((1, Y.shape[1]))
    return V, Y


def generators(rng, d):
    """A random generator description with its rank structure known."""
    fl = d > 1 and rng.random() < 0.3
    for _ in range(50):
        V = gen.points(rng, d, flat=fl, n=int(rng.integers(1, d + 6)))
        if M.Poly(V).well_conditioned():
            break
    Y = L = None
    u = rng.random()
    if u < 0.3:
        Y = unit(rng, int(rng.integers(1, 4)), d)
        if rng.random() < 0.3:
            Y = np.eye(d)[: int(rng.integers(1, d + 1))] * 2.0
    elif u < 0.42:
        L = unit(rng, 1, d)
    elif u < 0.5:
        Y, L = unit(rng, int(rng.integers(1, 5)), d), np.eye(d)[rng.permutation(d)[: int(rng.integers(1, max(2, d - 1)))]]
    if Y is not None and rng.random() < 0.25:
        V = None
    return V, Y, L


def conditioned(V, Y, L):
    """Are the generators away from near-degenerate configurations?"""
    R = [x for x in (Y, None if L is None else np.vstack((L, -L))) if x is not None]
    if not R:
        return True
    R = np.vstack(R)
    n = R / np.linalg.norm(R, axis=1, keepdims=True)
    C = n @ n.T
    np.fill_diagonal(C, -2)
    bad = (np.abs(C) > 0.995) & (C > -0.99999)
    s = np.linalg.svd(n)[1]
    return not bad.any() and not np.any((s > 1e-12) & (s < 0.1))


@P.group(quick=300, thorough=8000)
@cddspy.blame("cdd-floats-generic")
def vertices_to_faces(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 3, 4]))
    for _ in range(50):
        V, Y, L = generators(rng, d)
        if conditioned(V, Y, L):
            break
    c.say(d=d, V=V, rays=Y, span=L)
    s = rg.SpanForm(vertices=V, rays=Y, span=L)
    f = s.to_face_form()
    V0 = np.zeros((1, d)) if V is None else V
    R = np.vstack([x for x in (Y, L, None if L is None else -L) if x is not None]) if (Y is not None or L is not None) else np.zeros((0, d))
    # members satisfy all faces
    n = 40
    w = rng.exponential(size=(n, len(V0)))
    X = (w / w.sum(axis=1, keepdims=True)) @ V0
    if len(R):
        X = X + (rng.exponential(size=(n, len(R))) * 2) @ R
    X = np.vstack((V0, X))
    ok = in_faces(f, X)
    c.check(ok.all(), "members satisfy the faces", n=len(X), V=V, rays=Y, span=L, bad=X[~ok][:1], A=f.A, b=f.b)
    # support values agree (completeness)
    for u in np.vstack((unit(rng, 4, d), np.eye(d)[[rng.integers(d)]])):
        hv, vv = h_support(f.A, f.b, u), v_support(V0, R, u)
        if np.isinf(vv) or hv is None or np.isinf(hv):
            near = len(R) and np.min(np.abs(R @ u / np.linalg.norm(R, axis=1))) < 1e-3
            if near:
                continue
            c.check(hv is not None and np.isinf(vv) == np.isinf(hv), "support of both descriptions", hv=hv, vv=vv, V=V, rays=Y, span=L)
        else:
            c.check(abs(hv - vv) < 1e-5 * max(1, abs(vv)) * 10, "support of both descriptions", hv=hv, vv=vv, V=V, rays=Y, span=L)
    c.check(s.bounded() == (len(R) == 0), "boundedness", got=s.bounded(), rays=Y)
    c.check(f.dim == d and s.dim == d, "dimension")
    # and back
    s2 = f.to_span_form()
    V2, Y2 = parts(s2)
    ok = in_faces(f, V2)
    c.check(ok.all(), "round trip stays inside", n=len(V2))
    for u in unit(rng, 3, d):
        if len(R) and np.min(np.abs(R @ u / np.linalg.norm(R, axis=1))) < 1e-3:
            continue
        a, b_ = v_support(V0, R, u), v_support(V2, Y2, u)
        c.check((np.isinf(a) and np.isinf(b_)) or abs(a - b_) < 1e-4, "round trip keeps the set", got=b_, want=a, V=V, rays=Y, span=L)


@P.group(quick=300, thorough=8000)
@cddspy.blame("cdd-floats-generic")
def faces_to_vertices(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 3, 4]))
    n = int(rng.integers(1, 2 * d + 5))
    x0 = rng.normal(size=d)
    k = rng.choice(["normal", "int", "axis"])
    if k == "normal":
        A = unit(rng, n, d)
    elif k == "int":
        A = rng.integers(-2, 3, (n, d)).astype(float)
        A = A[np.any(A != 0, axis=1)]
        if len(A) == 0:
            A = np.eye(d)[:1]
        x0 = np.round(x0)
    else:
        A = np.vstack((np.eye(d), -np.eye(d)))[rng.permutation(2 * d)][: max(1, n)]
    n = len(A)
    A = np.unique(np.round(A, 12), axis=0)
    n = len(A)
    nn = A / np.linalg.norm(A, axis=1, keepdims=True)
    C = nn @ nn.T
    np.fill_diagonal(C, -2)
    b = A @ x0 + rng.uniform(0.3, 1.5, n) * np.linalg.norm(A, axis=1)
    if k != "normal":
        b = A @ x0 + rng.integers(1, 4, n)
    if np.any((np.abs(C) > 0.99) & (np.abs(C) < 1 - 1e-12)):
        return
    Ae = be = None
    if d > 1 and rng.random() < 0.35:
        ne = int(rng.integers(1, d))
        Ae = unit(rng, ne, d) if k == "normal" else np.eye(d)[rng.choice(d, ne, replace=False)]
        be = Ae @ x0
    c.say(d=d, A=A, b=b, A_eq=Ae, b_eq=be)
    f = rg.FaceForm(A, b, A_eq=Ae, b_eq=be) if Ae is not None else rg.FaceForm(A_ineq=A, b_ineq=b)
    A2, b2 = (A, b) if Ae is None else (np.vstack((A, Ae, -Ae)), np.concatenate((b, be, -be)))
    X = x0 + rng.normal(size=(30, d))
    c.check(np.array_equal(in_faces(f, X), in_faces(type("F", (), dict(A=A2, b=b2)), X)), "the face form is the set it was given", n=30)
    s = f.to_span_form()
    if not c.check(s is not None, "a non-empty set has generators", A=A, b=b):
        return
    V, Y = parts(s)
    sc = max(1.0, np.max(np.abs(V)))
    if sc > 1e3:
        return
    c.check(np.all(V @ A2.T <= b2 + 1e-5 * sc), "vertices satisfy the inequalities", n=len(V), A=A, b=b, A_eq=Ae, V=V)
    if Y is not None:
        Yn = Y / np.linalg.norm(Y, axis=1, keepdims=True)
        c.check(np.all(Yn @ A2.T <= 1e-6), "rays recede", n=len(Y), A=A, rays=Y)
    for u in unit(rng, 6, d):
        hv, vv = h_support(A2, b2, u), v_support(V, Y, u)
        if np.isinf(vv) != np.isinf(hv):
            if Y is not None and np.max(Y @ u / np.linalg.norm(Y, axis=1)) < 1e-4:
                continue
        c.check((np.isinf(hv) and np.isinf(vv)) or abs(hv - vv) < 1e-5 * sc, "support of both descriptions", hv=hv, vv=vv, A=A, b=b, A_eq=Ae)
    bounded = all(np.isfinite(h_support(A2, b2, u)) for u in np.vstack((np.eye(d), -np.eye(d))))
    c.check(s.bounded() == bounded, "boundedness", got=s.bounded(), want=bounded, A=A)
    # what generators come back must be irredundant enough to be vertices
    if bounded and len(V) > 1:
        D = np.linalg.norm(V[:, None] - V[None], axis=2) + np.eye(len(V))
        c.check(D.min() > 1e-7, "no vertex twice", V=V)
    c.check(s.is_cone() == (s.vertices is None and s.rays is not None), "cone flag", got=s.is_cone())


@P.group(quick=200, thorough=5000)
@cddspy.blame("cdd-floats-generic")
def canonical_span(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 4]))
    fl = d > 1 and rng.random() < 0.3
    for _ in range(100):
        V = gen.points(rng, d, flat=fl)
        m = M.Poly(V)
        if m.well_conditioned():
            break
    ext = np.array([M.extreme_margin(V, j) for j in range(len(V))])
    if np.any(np.abs(ext) < 1e-3) and np.any((ext > 1e-9) & (ext < 1e-3)):
        return
    E = V[ext > 1e-3]
    # add redundant points: repeats, convex combinations
    w = rng.exponential(size=(int(rng.integers(0, 5)), len(E)))
    W = np.vstack((V, (w / w.sum(axis=1, keepdims=True)) @ E))
    if rng.random() < 0.4:
        W = np.vstack((W, E[[0]]))
    W = W[rng.permutation(len(W))]
    c.say(d=d, W=W)
    s = rg.SpanForm(vertices=W)
    k = s.canonical()
    c.check(k.rays is None and M.rows_match(k.vertices, E, 1e-6), "canonical vertices are the extreme points, once each", got=k.vertices, want=E, given=W)
    c.check(k.nv == len(k.vertices) and k.nr == 0, "counts")
    k2 = k.canonical()
    c.check(M.rows_match(k2.vertices, k.vertices, 1e-9), "canonical form is stable")
    p = rg.ConvexPolyhedron.from_vertices(W, prune=True)
    c.check(M.rows_match(p.vertices, E, 1e-6) and p.nv == len(E), "pruned vertices are the extreme points", got=p.vertices, want=E)
    # rays: cone generators, with redundant ones
    if d >= 2:
        Y = np.eye(d) if rng.random() < 0.5 else np.eye(d)[:2]
        Y = Y @ gen.rot(rng, d, rng.choice(["id", "perm", "rand"])).T
        w = rng.uniform(0.2, 1, (2, len(Y)))
        Z = np.vstack((Y, w @ Y))[rng.permutation(len(Y) + 2)]
        v0 = rng.normal(size=(1, d))
        k = rg.SpanForm(vertices=v0, rays=Z).canonical()
        if c.check(k.vertices is not None and k.vertices.shape == (1, d) and k.rays is not None, "pointed cone keeps vertex and rays", V=k.vertices, rays=k.rays):
            kn = k.rays / np.linalg.norm(k.rays, axis=1, keepdims=True)
            c.check(np.allclose(k.vertices, v0, atol=1e-7) and M.rows_match(kn, Y, 1e-6), "canonical rays are the extreme rays", got=k.rays, want=Y)


@P.group(quick=200, thorough=5000)
@cddspy.blame("cdd-floats-generic")
def canonical_face(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 4]))
    flat = d > 1 and rng.random() < 0.3
    for _ in range(100):
        V = gen.points(rng, d, flat=False)
        m = M.Poly(V)
        if m.well_conditioned():
            break
    A, b = m.G @ m.B.T, m.g + m.G @ m.B.T @ m.p0
    nf = len(A)
    # redundant inequalities: looser copies, scaled copies, supporting cuts
    U = unit(rng, int(rng.integers(0, 4)), d)
    h = m.support(U) + rng.uniform(0.05, 1, len(U)) if len(U) else np.zeros(0)
    A2, b2 = np.vstack((A, U)), np.concatenate((b, h))
    if rng.random() < 0.4:
        j = rng.integers(nf)
        A2, b2 = np.vstack((A2, 2 * A[[j]])), np.append(b2, 2 * b[j])
    p = rng.permutation(len(A2))
    A2, b2 = A2[p], b2[p]
    Ae = be = None
    if flat:
        Ae = unit(rng, 1, d)
        be = Ae @ m.c
    c.say(d=d, A=A2, b=b2, A_eq=Ae)
    f = rg.FaceForm(A2, b2, A_eq=Ae, b_eq=be) if flat else rg.FaceForm(A2, b2)
    k = f.canonical()
    if not flat:
        kn = np.linalg.norm(k.A, axis=1, keepdims=True)
        got = np.hstack((k.A / kn, k.b[:, None] / kn))
        c.check(M.rows_match(got, np.hstack((A, b[:, None])), 1e-6 * m.scale()), "canonical faces are the facets, once each", got=got, want=np.hstack((A, b[:, None])))
        q = rg.ConvexPolyhedron.from_halfspaces(A2, b2, prune=True)
        c.check(q.nf == nf and M.rows_match(q.vertices, np.array(V)[[M.extreme_margin(V, j) > 1e-6 for j in range(len(V))]], 1e-5), "pruned polyhedron has the facets and vertices", nf=q.nf, want=nf, V=q.vertices)
    else:
        # each remaining inequality matters; the set is unchanged
        for j in range(len(k.A)):
            o = np.arange(len(k.A)) != j
            v = h_support(k.A[o], k.b[o], k.A[j])
            c.check(v is not None and v > k.b[j] + 1e-7, "no redundant inequality", j=j, A=k.A, b=k.b)
    Af, bf = (A2, b2) if not flat else (np.vstack((A2, Ae, -Ae)), np.concatenate((b2, be, -be)))
    for u in unit(rng, 4, d):
        v1, v2 = h_support(Af, bf, u), h_support(k.A, k.b, u)
        if v1 is None:
            continue
        c.check(v2 is not None and abs(v1 - v2) < 1e-5 * m.scale(), "canonical form keeps the set", got=v2, want=v1)


@P.group(quick=250, thorough=6000)
@cddspy.blame("cdd-floats-generic")
def polyhedra(c, rng, i):
    """Both descriptions held by a constructed polyhedron agree."""
    d = int(rng.choice([1, 2, 3, 3, 3, 4]))
    flat = d > 1 and rng.random() < 0.3
    lib, m = gen.poly(rng, d, flat, size=gen.length_unit(rng, -3, 5))
    if d == 3 and rng.random() < 0.2:
        # (double description in floats cannot follow tiny rotations)
        R, h, cc = gen.rot(rng, 3, rng.choice(["id", "perm", "half", "rand"])), gen.extents(rng, 3, flat, lo=0.3), gen.trans(rng, 3, big=False)
        lib, m = rg.Box(h, center=cc, rotation=R), M.BoxM(h, R, cc)
    c.say(d=d, kind=m.kind, model=m.params())
    V, A, b = np.asarray(lib.vertices), np.asarray(lib.A), np.asarray(lib.b)
    c.check(lib.nv == len(V) and lib.nf == len(A) == len(b) and lib.dim == d, "counts and dimension", nv=lib.nv, nf=lib.nf)
    sc = m.scale()
    an = 1 + np.linalg.norm(A, axis=1)
    c.check(np.all(V @ A.T <= b + 1e-6 * sc * an), "vertices satisfy the faces", n=len(V), V=V, A=A, b=b)
    for u in unit(rng, 5, d):
        hv, want = h_support(A, b, u), m.support(u[None])[0]
        c.check(abs(np.max(V @ u) - want) < 1e-6 * sc, "vertex description has the support", got=np.max(V @ u), want=want)
        c.check(hv is not None and abs(hv - want) < 1e-4 * sc, "face description has the support", got=hv, want=want)
    # both descriptions given explicitly, and rebuilt from either
    for q in (rg.ConvexPolyhedron(face_form=lib.face_form), rg.ConvexPolyhedron(span_form=lib.span_form), rg.ConvexPolyhedron(face_form=lib.face_form, span_form=lib.span_form)):
        for u in unit(rng, 2, d):
            hv, want = h_support(q.A, q.b, u), m.support(u[None])[0]
            c.check(abs(np.max(q.vertices @ u) - want) < 1e-4 * sc and hv is not None and abs(hv - want) < 1e-4 * sc, "rebuilt polyhedron has the support", got=(np.max(q.vertices @ u), hv), want=want)


@P.group(quick=120, thorough=3000)
@cddspy.blame("cdd-floats-generic")
def refused(c, rng, i):
    d = int(rng.choice([1, 2, 3, 4]))
    m = M.Poly(gen.points(rng, d, flat=False))
    A, b = m.G @ m.B.T, m.g + m.G @ m.B.T @ m.p0
    k = rng.choice(["empty", "empty_prune", "few", "line", "ray", "span", "empty_face"])
    c.say(d=d, k=k, V=m.V)
    if k in ("empty", "empty_prune", "empty_face"):
        u = unit(rng, 1, d)
        gap = rng.choice([0.01, 0.5, 3.0])
        A2, b2 = np.vstack((A, -u)), np.append(b, -m.support(u)[0] - gap)
        if k == "empty_face":
            c.raises(ValueError, rg.ConvexPolyhedron, face_form=rg.FaceForm(A2, b2), tag="empty set refused with a value error")
        else:
            c.raises(ValueError, rg.ConvexPolyhedron.from_halfspaces, A2, b2, prune=k == "empty_prune", tag="empty set refused with a value error")
        c.check(rg.FaceForm(A2, b2).to_span_form() is None, "an empty set has no generators")
    elif k == "few":
        n = int(rng.integers(1, d + 1))
        c.raises(ValueError, rg.ConvexPolyhedron.from_halfspaces, unit(rng, n, d), rng.uniform(0.5, 1, n), prune=bool(rng.random() < 0.5), tag="unbounded set refused with a value error")
    elif k == "line":
        # a prism over a lower-dimensional set is unbounded
        if d == 1:
            return
        q = M.Poly(gen.points(rng, d - 1, flat=False))
        A2 = np.hstack((q.G @ q.B.T, np.zeros((len(q.G), 1))))
        if rng.random() < 0.5:
            A2 = np.vstack((A2, np.eye(d)[-1:]))
            b2 = np.append(q.g + q.G @ q.B.T @ q.p0, 1.0)
        else:
            b2 = q.g + q.G @ q.B.T @ q.p0
        R = gen.rot(rng, d, rng.choice(["id", "perm", "half"]))
        c.raises(ValueError, rg.ConvexPolyhedron.from_halfspaces, A2 @ R.T, b2, tag="unbounded set refused with a value error")
    else:
        s = rg.SpanForm(vertices=m.V, rays=unit(rng, 1, d)) if k == "ray" else rg.SpanForm(vertices=m.V, span=unit(rng, 1, d))
        c.raises(ValueError, rg.ConvexPolyhedron, span_form=s, tag="unbounded set refused with a value error")


def raw_support(mat, rep, dirs):
    """Support values of what cdd itself makes of the rows (None: refused)."""
    import cdd

    m = cdd.Matrix(mat)
    m.rep_type = rep
    try:
        p = cdd.Polyhedron(m)
        r = p.get_inequalities() if rep == cdd.RepType.GENERATOR else p.get_generators()
    except RuntimeError:
        return None
    G = np.array([r[i] for i in range(r.row_size)])
    if rep == cdd.RepType.GENERATOR:
        A, b = -G[:, 1:], G[:, 0]
        k = list(r.lin_set)
        A, b = np.vstack((A, -A[k])), np.concatenate((b, -b[k]))
        return [h_support(A, b, u) for u in dirs]
    return [v_support(G[G[:, 0] == 1][:, 1:], G[G[:, 0] == 0][:, 1:], u) for u in dirs]


def normal_rows(mat, rep, cdd):
    """The same rows in units of about their own size (x = x0 + s y)."""
    if rep == cdd.RepType.GENERATOR:
        X = mat[:, 1:]
        x = X.mean(axis=0)
        s = 2.0 ** np.round(np.log2(np.abs(X - x).max()))
        x = s * np.round(x / s)
        return np.hstack((mat[:, :1], (X - x) / s)), x, s
    s = 2.0 ** np.round(np.log2(np.abs(mat[:, 0]).max()))
    return np.hstack((mat[:, :1] / s, mat[:, 1:])), np.zeros(mat.shape[1] - 1), s


@P.group(quick=120, thorough=2400)
@cddspy.blame("cdd-floats-small-tilt")
def tilted(c, rng, i):
    """Boxes tilted by small angles: well-conditioned sets, but small products
    of coefficients that the floating-point backend rounds to zero."""
    import cdd

    a = [1e-5, 1e-4, 1e-3, 1e-3][i % 4]
    w = rng.normal(size=3) * (1 if i % 3 else np.eye(3)[i % 3])
    w /= np.linalg.norm(w)
    K = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    R = np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K
    m = M.BoxM(rng.uniform(0.3, 2, 3), R, gen.trans(rng, 3, False))
    c.say(angle=a, model=m.params())
    dirs = np.vstack((unit(rng, 6, 3), R.T, -R.T))
    want = m.support(dirs)

    def judge(tag, fn, get, mat, rep):
        """The set is right, or cdd alone gets these same rows wrong too."""
        try:
            got = get(fn())
            err = None
        except RuntimeError as e:
            if "inconsistency" not in str(e) and "failed to load" not in str(e):
                raise
            got, err = None, str(e).splitlines()[0]
        c.seen(tag)
        if got is not None and all(g is not None and abs(g - w) <= 1e-6 * m.scale() for g, w in zip(got, want)):
            return
        bad = False
        for k in range(12):  # (in any order of the rows, as given or about the centre and of unit size)
            p = np.arange(len(mat)) if k < 2 else rng.permutation(len(mat))
            N, x, s = normal_rows(mat[p], rep, cdd) if k % 2 else (mat[p], np.zeros(3), 1.0)
            raw = raw_support(N, rep, dirs)
            bad = bad or raw is None or any(g is None or abs(s * g + x @ u - w) > 1e-6 * m.scale() for g, w, u in zip(raw, want, dirs))
        c.fail(tag, "cdd-floats-small-tilt" if bad else None, angle=a, model=m.params(), got=got, want=want, error=err)

    V = m.V
    gen_rows = np.hstack((np.ones((8, 1)), V))
    hs = lambda f: [h_support(f.A, f.b, u) for u in dirs]
    judge("tilted box: vertices to faces", lambda: rg.SpanForm(vertices=V).to_face_form(), hs, gen_rows, cdd.RepType.GENERATOR)
    judge("tilted box: polyhedron from vertices", lambda: rg.ConvexPolyhedron.from_vertices(V), lambda p: hs(p.face_form), gen_rows, cdd.RepType.GENERATOR)
    A = np.vstack((R.T, -R.T))
    b = m.support(A)
    judge("tilted box: faces to vertices", lambda: rg.FaceForm(A, b).to_span_form(),
          lambda s: [v_support(s.vertices, s.rays, u) for u in dirs], np.hstack((b[:, None], -A)), cdd.RepType.INEQUALITY)


def breaks_down(rng, V, R, f, u):
    """Does cdd itself get these generators or faces, in units of their own
    size, wrong in the direction u?"""
    import cdd

    gens = np.vstack((np.hstack((np.ones((len(V), 1)), V)), np.hstack((np.zeros((len(R), 1)), R))))
    n = np.linalg.norm(f.A, axis=1)
    k = n > 0
    face = np.hstack((f.b[k, None], -f.A[k])) / n[k, None]
    for rows, rep in ((gens, cdd.RepType.GENERATOR), (face, cdd.RepType.INEQUALITY)):
        for _ in range(12):
            q = rows[rng.permutation(len(rows))]
            if rep == cdd.RepType.INEQUALITY:
                s = np.abs(q[:, 0]).max() * rng.uniform(0.7, 1.4)
                q = np.hstack((q[:, :1] / s, q[:, 1:]))
                want = h_support(-q[:, 1:], q[:, 0], u)
            else:
                want = v_support(V, R, u)
            raw = raw_support(q, rep, [u])
            got = None if raw is None else raw[0]
            if got is None or want is None or (got != want and not abs(got - want) < 1e-6):
                return True
    return False


@P.group(quick=300, thorough=6000)
def units(c, rng, i):
    """The same set in other units of length is the same set."""
    d = int(rng.choice([1, 2, 2, 3, 3]))
    s = 10.0 ** rng.choice([-3, -2, 2, 3, 4, 5, 6])
    V = gen.points(rng, d, flat=False)
    Y = unit(rng, int(rng.integers(1, 3)), d) if i % 4 == 0 else None
    if not conditioned(V, Y, None):
        return
    x = rng.normal(size=d) * rng.choice([0, 0, 1])
    W = s * (V + x)
    # lengths of rays do not matter
    Z = None if Y is None else Y * 10.0 ** rng.uniform(-3, 5, (len(Y), 1))
    R = np.zeros((0, d)) if Y is None else Y
    c.say(d=d, V=W, rays=Z, scale=s)
    sf = rg.SpanForm(vertices=W, rays=Z)
    f = c.call(sf.to_face_form)
    g = c.call(f.to_span_form)
    h = c.call(f.canonical)
    # rows of faces can be scaled as well
    k = 10.0 ** rng.uniform(-3, 5, len(h.b))
    q = c.call(rg.FaceForm(h.A * k[:, None], h.b * k).to_span_form)
    q2 = c.call(rg.FaceForm(h.A * k[:, None], h.b * k).canonical)
    n2 = np.linalg.norm(q2.A, axis=1)
    n2[n2 == 0] = 1.0
    p = c.call(rg.ConvexPolyhedron.from_vertices, W) if Y is None else None
    # and the same faces around the origin, in several units
    e = c.call(rg.SpanForm(vertices=V + x, rays=Y).to_face_form)
    for r in 10.0 ** rng.uniform(-4, 7, 4):
        m = 10.0 ** rng.uniform(-3, 5, len(e.b))
        A, b = e.A * m[:, None], r * e.b * m
        if rng.random() < 0.4:  # a face that everything satisfies
            k = int(rng.integers(len(b) + 1))
            A, b = np.insert(A, k, 0, axis=0), np.insert(b, k, 10.0 ** rng.uniform(-8, 10))
        t = c.call(rg.FaceForm(A, b).to_span_form)
        for u in unit(rng, 2, d):
            if len(R) and np.min(np.abs(R @ u)) < 1e-3:
                continue
            want, v = v_support(V + x, R, u), v_support(None if t.vertices is None else t.vertices / r, t.rays, u)
            ok = v is not None and ((np.isinf(want) and np.isinf(v)) or abs(v - want) < 1e-6 * (1 + np.abs(x).max()))
            if not ok and breaks_down(rng, V + x, R, e, u):
                raise Inconclusive("floating-point double description breaks down on this input")
            c.check(ok, "vertices of faces in any units", got=v, want=want, scale=r, u=u, A=A, b=b)
    for u in np.vstack((unit(rng, 4, d), np.eye(d)[[rng.integers(d)]])):
        if len(R) and np.min(np.abs(R @ u)) < 1e-3:
            continue
        want = v_support(V + x, R, u)
        got = {
            "faces": h_support(f.A, f.b / s, u),
            "round trip": v_support(None if g.vertices is None else g.vertices / s, g.rays, u),
            "canonical faces": h_support(h.A, h.b / s, u),
            "vertices of scaled rows": v_support(None if q.vertices is None else q.vertices / s, q.rays, u),
            "canonical scaled rows": h_support(q2.A / n2[:, None], q2.b / s / n2, u),
        }
        if p is not None:
            got["polyhedron"] = v_support(p.vertices / s, None, u)
            got["faces of the polyhedron"] = h_support(p.A, p.b / s, u)
        ok = {t: v is not None and ((np.isinf(want) and np.isinf(v)) or abs(v - want) < 1e-6 * (1 + np.abs(x).max())) for t, v in got.items()}
        if not all(ok.values()) and breaks_down(rng, V + x, R, f, u):
            raise Inconclusive("floating-point double description breaks down on this input")
        c.check(all(ok.values()), "the set does not depend on the units", n=len(ok), got=got, want=want, bad=[t for t in ok if not ok[t]], V=W, rays=Z)
    c.check((g.rays is None) == (Y is None), "bounded in all units", got=g.rays)


def extreme_parts(V, Y):
    """Extreme points and (unit) extreme rays of a pointed conv(V) + cone(Y);
    None if some generator is too close to call."""
    d = Y.shape[1]

    def margin(G):  # max t: u.g >= t (first rows), u.y <= 0 (second rows)
        A, B = G
        Aub = np.vstack((np.hstack((-A, np.ones((len(A), 1)))), np.hstack((B, np.zeros((len(B), 1))))))
        r = M.lp(np.append(np.zeros(d), -1.0), A_ub=Aub, b_ub=np.zeros(len(Aub)), bounds=[(-1, 1)] * d + [(None, 1)])
        if r.status != 0:
            raise Inconclusive(f"linear program: {r.message}")
        return -r.fun

    if margin((-Y, np.zeros((0, d)))) < 0.1:
        return None
    kv = [margin((V[[j]] - np.delete(V, j, axis=0), Y)) for j in range(len(V))] if len(V) > 1 else [1.0]
    ky = [margin((Y[[j]], np.delete(Y, j, axis=0))) for j in range(len(Y))]
    m = np.array(kv + ky)
    if np.any((m > 1e-8) & (m < 0.02)):
        return None
    return V[np.array(kv) > 0.01], Y[np.array(ky) > 0.01]


@P.group(quick=400, thorough=8000)
@cddspy.blame("cdd-floats-generic")
def canonical_unbounded(c, rng, i):
    """Canonical generators of sets with several vertices and several rays."""
    d = int(rng.choice([1, 2, 2, 3, 3, 4]))
    for _ in range(60):
        V = gen.points(rng, d, flat=bool(d > 1 and rng.random() < 0.3), n=int(rng.integers(1, d + 5)))
        if len(V) > 1:
            D = np.linalg.norm(V[:, None] - V[None], axis=2)
            V = V[[j for j in range(len(V)) if not np.any(D[j, :j] < 1e-2)]]
        ny = [1, 1, 2, 3, 4][int(rng.integers(5))]
        Y = unit(rng, ny, d)
        if rng.random() < 0.3:
            Y = np.eye(d)[rng.permutation(d)[: min(ny, d)]] * rng.choice([-1.0, 1.0])
        if not conditioned(None, Y, None):
            continue
        if d == 1:
            Y = Y[:1]
        R = extreme_parts(V, Y)
        if R is not None:
            break
    else:
        return
    E, X = R
    # redundant generators: shifted vertices, scaled and combined rays
    nv, nr = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    W, Z = V, Y
    if nv:
        W = np.vstack((W, E[rng.integers(len(E), size=nv)] + rng.uniform(0.3, 2, (nv, len(X))) @ X))
    if nr:
        w = rng.uniform(0.4, 1, (nr, len(X)))
        if rng.random() < 0.4:
            w = np.eye(len(X))[rng.integers(len(X), size=nr)] * 2.0
        Z = np.vstack((Z, w @ X))
    W, Z = W[rng.permutation(len(W))], Z[rng.permutation(len(Z))] * 10.0 ** rng.choice([0, 0, 1])
    c.say(d=d, W=W, Z=Z)
    k = c.call(rg.SpanForm(vertices=W, rays=Z).canonical)
    c.check(k.vertices is not None and M.rows_match(k.vertices, E, 1e-6 * max(1, np.abs(E).max())), "canonical vertices are the extreme points, once each", got=k.vertices, want=E, V=W, rays=Z)
    ok = k.rays is not None and len(k.rays)
    kn = k.rays / np.linalg.norm(k.rays, axis=1, keepdims=True) if ok else None
    c.check(ok and M.rows_match(kn, X, 1e-6), "canonical rays are the extreme rays", got=k.rays, want=X, V=W, rays=Z)
    c.check(k.nv == len(E) and k.nr == len(X) and not k.bounded() and not k.is_cone(), "counts", got=(k.nv, k.nr))
    # without vertices: the cone itself
    q = c.call(rg.SpanForm(rays=Z).canonical)
    ok = q.rays is not None and len(q.rays)
    qn = q.rays / np.linalg.norm(q.rays, axis=1, keepdims=True) if ok else None
    c.check(ok and M.rows_match(qn, X, 1e-6), "canonical rays of a cone are its extreme rays", got=q.rays, want=X, rays=Z)
    c.check(q.vertices is None or not np.any(np.abs(q.vertices) > 1e-9), "a cone starts at the origin", got=q.vertices)
    # moved generators
    Q, t = gen.rot(rng, d, rng.choice(["perm", "half", "rand"])), rng.normal(size=d)
    s = rg.SpanForm(vertices=W, rays=Z).transform(rotation=Q, translation=t) if rng.random() < 0.8 else None
    if s is not None:
        c.close(s.vertices, W @ Q.T + t, "vertices move", tol=1e-9)
        c.close(s.rays, Z @ Q.T, "rays only turn", tol=1e-9, scale=10)


@P.group(quick=300, thorough=6000)
@cddspy.blame("cdd-floats-generic")
def canonical_lines(c, rng, i):
    """Canonical generators of sets that contain whole lines."""
    d = int(rng.choice([2, 2, 3, 3, 4]))
    k = int(rng.integers(1, d))
    q = d - k
    R = gen.rot(rng, d, rng.choice(["id", "perm", "rand"]))
    L, C = R[:, :k].T, R[:, k:].T  # lines and what is across them
    for _ in range(60):
        V = gen.points(rng, q, flat=False, n=int(rng.integers(1, q + 4)))
        D = np.linalg.norm(V[:, None] - V[None], axis=2)
        V = V[[j for j in range(len(V)) if not np.any(D[j, :j] < 1e-2)]]
        if i % 3:
            Y = unit(rng, 1 if q == 1 else int(rng.integers(1, 4)), q)
            if not conditioned(None, Y, None):
                continue
            E = extreme_parts(V, Y)
            if E is None:
                continue
            E, X = E
        else:
            Y = X = np.zeros((0, q))
            m = np.array([M.extreme_margin(V, j) for j in range(len(V))]) if len(V) > 1 else np.ones(1)
            if np.any((m > 1e-8) & (m < 0.02)):
                continue
            E = V[m > 0.01]
        break
    else:
        return
    nv, nr = int(rng.integers(0, 3)), int(rng.integers(0, 3)) if len(X) else 0
    W, Z = V, Y
    if nv:
        w = rng.exponential(size=(nv, len(E)))
        W = np.vstack((W, (w / w.sum(axis=1, keepdims=True)) @ E))
    if nr:
        Z = np.vstack((Z, rng.uniform(0.4, 1, (nr, len(X))) @ X))
    W = W @ C + rng.normal(size=(len(W), k)) @ L
    Z = Z @ C + rng.normal(size=(len(Z), k)) @ L * 0.5
    T = L if k == 1 or rng.random() < 0.5 else (np.linalg.qr(rng.normal(size=(k, k)))[0] @ L)
    if rng.random() < 0.3:  # a direction twice
        T = np.vstack((T, T[:1]))
    c.say(d=d, W=W, Z=Z, T=T)
    with_v = rng.random() < 0.8 or not len(Z)
    s = rg.SpanForm(vertices=W if with_v else None, rays=Z if len(Z) else None, span=T)
    g = c.call(s.canonical)
    if not with_v:
        # a cone (without vertices)
        E, A, B = np.zeros((1, q)), X, np.zeros((0, q))
        A = extreme_parts(np.zeros((1, q)), Y)
        if A is None:
            return
        X = A[1]
    V2, Y2 = parts(g)
    along = np.linalg.norm(Y2 @ C.T, axis=1) <= 1e-7 * np.linalg.norm(Y2, axis=1)
    c.check(M.rows_match(V2 @ C.T, E, 1e-6), "vertices across the lines are the extreme points, once each", got=V2 @ C.T, want=E, V=W, rays=Z, lines=T)
    P2 = Y2[~along] @ C.T
    P2 /= np.linalg.norm(P2, axis=1, keepdims=True)
    c.check(M.rows_match(P2, X, 1e-6), "rays across the lines are the extreme rays, once each", got=P2, want=X, V=W, rays=Z, lines=T)
    G = Y2[along] / np.linalg.norm(Y2[along], axis=1, keepdims=True)
    c.check(len(G) == 2 * k and np.linalg.matrix_rank(G, tol=1e-6) == k and M.rows_match(G, -G, 1e-6), "the lines, both ways, once each", got=G, want=T)
    # the same set of inequalities
    f, f2 = c.call(s.to_face_form), c.call(g.to_face_form)
    for u in unit(rng, 4, q) @ C:
        if len(X) and np.min(np.abs(X @ (C @ u))) < 1e-3:
            continue
        want = v_support(E, X, C @ u)
        for n, h in (("faces", f), ("faces of the canonical form", f2)):
            v = h_support(h.A, h.b, u)
            c.check(v is not None and ((np.isinf(want) and np.isinf(v)) or abs(v - want) < 1e-6 * max(1, abs(want))), n + " across the lines", got=v, want=want, V=W, rays=Z, lines=T)
    z = c.call(f.to_span_form)
    V3, Y3 = parts(z)
    c.check(M.rows_match(V3 @ C.T, E, 1e-5), "vertices from faces across the lines", got=V3 @ C.T, want=E, V=W, rays=Z, lines=T)


def faces(rng, d, n):
    """Faces of a random set around a point; two-sided pairs make it flat."""
    A = rng.normal(size=(n, d))
    A /= np.linalg.norm(A, axis=1, keepdims=True)
    x = rng.normal(size=d)
    return A, A @ x + rng.uniform(0.1, 1, size=n), x


@P.group(quick=300, thorough=8000)
def moved_and_stacked(c, rng, i):
    d = int(rng.integers(1, 5))
    A, b, x = faces(rng, d, int(rng.integers(1, 8)))
    f = rg.FaceForm(A, b)
    R, t = gen.rot(rng, d), rng.normal(size=d) * 3
    X = np.vstack((x + rng.normal(size=(60, d)) * rng.choice([0.2, 1, 3]), [x]))
    c.say(d=d, A=A, b=b, R=R, t=t)

    def inside(A, b, X):
        return np.max(X @ np.atleast_2d(A).T - b, axis=1)

    g, Y = inside(A, b, X), X @ R.T + t
    kw = {}
    which = int(rng.integers(3))
    if which != 1:
        kw["rotation"] = R
    else:
        Y = X + t
    if which != 2:
        kw["translation"] = t
    else:
        Y = X @ R.T
    h = c.call(f.transform, **kw)
    c.close(inside(h.A, h.b, Y), g, "moved faces", tol=1e-9, scale=1 + np.abs(Y).max())
    c.check(f.A is A or np.array_equal(f.A, A), "the original is unchanged")
    # the common points of two sets
    A2, b2, x2 = faces(rng, d, int(rng.integers(1, 6)))
    both = c.call(f.stack, rg.FaceForm(A2, b2 + A2 @ (x - x2)))
    c.close(inside(both.A, both.b, X), np.maximum(g, inside(A2, b2 + A2 @ (x - x2), X)), "common points", tol=1e-9)
    # vertices and rays
    V = rng.normal(size=(int(rng.integers(1, 6)), d)) if rng.random() < 0.8 else None
    Z = rng.normal(size=(int(rng.integers(1, 4)), d)) if V is None or rng.random() < 0.6 else None
    s = rg.SpanForm(vertices=V, rays=Z)
    k = c.call(s.transform, **kw)
    Rk, tk = kw.get("rotation", np.eye(d)), kw.get("translation", np.zeros(d))
    if V is None:
        c.check(k.nv == 0, "no vertices appear")
    else:
        c.close(k.vertices, V @ Rk.T + tk, "moved vertices", tol=1e-9)
    if Z is None:
        c.check(k.nr == 0, "no rays appear")
    else:
        c.close(k.rays, Z @ Rk.T, "rays keep their length and turn with the set", tol=1e-9)
    c.check(k.bounded() == (Z is None) and k.is_cone() == (V is None), "kind of set", bounded=k.bounded(), cone=k.is_cone())


@P.group(quick=120, thorough=3000)
def own_arrays(c, rng, i):
    """Generators may be given as lists; later changes to them do not matter."""
    d = int(rng.integers(1, 5))
    V, Z = rng.normal(size=(int(rng.integers(1, 6)), d)), rng.normal(size=(int(rng.integers(1, 4)), d))
    kind = i % 3
    kw = {k: v for k, v in (("vertices", V if kind != 1 else None), ("rays", Z if kind != 0 else None)) if v is not None}
    c.say(d=d, kind=kind)
    a = c.call(rg.SpanForm, **{k: v.tolist() for k, v in kw.items()})
    mine = {k: v.copy() for k, v in kw.items()}
    b = c.call(rg.SpanForm, **mine)
    for v in mine.values():
        v[:] = 7.0
    for s in (a, b):
        for k, v in kw.items():
            c.close(getattr(s, k), v, "the generators that were given", tol=0)
        c.check((s.nv, s.nr) == tuple(len(kw.get(k, ())) for k in ("vertices", "rays")) and s.dim == d, "numbers of generators", got=(s.nv, s.nr, s.dim))


@P.group(quick=120, thorough=3000)
def special(c, rng, i):
    """Empty sets, the whole space, affine subspaces, single points."""
    d = int(rng.integers(1, 4))
    kind = str(rng.choice(["empty", "all", "affine", "point"]))
    c.say(kind=kind, d=d)
    if kind == "empty":
        u = gen.rot(rng, d)[0]
        f = rg.FaceForm(np.vstack((u, -u)), np.array([-1.0, 0.5]))
        c.check(c.call(f.to_span_form) is None, "an empty set has no generators")
    elif kind == "all":
        s = rg.SpanForm(vertices=np.zeros((1, d)), span=gen.rot(rng, d))
        f = c.call(s.to_face_form)
        X = rng.normal(size=(20, d)) * 10
        c.check(np.all(X @ f.A.T <= f.b + 1e-9), "the whole space excludes nothing")
        f = c.call(rg.FaceForm(np.zeros((1, d)), np.ones(1)).canonical)
        c.check(np.all(X @ f.A.T <= f.b + 1e-9), "the whole space excludes nothing")
    elif kind == "affine":
        R, k = gen.rot(rng, d), int(rng.integers(0, d))
        x = rng.normal(size=d)
        f = c.call(rg.SpanForm(vertices=x[None], span=R[:k] if k else None).to_face_form)
        Y = x + rng.normal(size=(20, k)) @ R[:k]
        c.check(np.all(Y @ f.A.T <= f.b + 1e-7), "the subspace is included")
        Z = Y + rng.choice([-1, 1], size=(20, 1)) * R[k]
        c.check(np.all(np.max(Z @ f.A.T - f.b, axis=1) > 1e-4), "nothing else is")
    else:
        x = rng.normal(size=(1, d))
        c.close(c.call(rg.convex_hull, x), x, "hull of a point", tol=0)
        c.close(c.call(rg.convex_hull, np.vstack((x, x, x))), x, "hull of one point three times", tol=1e-12)
