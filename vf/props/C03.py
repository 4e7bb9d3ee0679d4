import numpy as np
import rigeo as rg
from .. import gen, model as M
from ..core import Prop
from .C01 import judge

P = Prop(
    "C03",
    rule="one case = one random object and one or two rigid motions (either part possibly omitted); non-trivial if "
    "probes of the image set, or image vertices/rays/faces, were compared with the reference motion",
    technique="runtime monitoring: images under transforms compared online with reference rigid motions",
    note="containment of transformed probe points decides the image set; parameters are compared to 1e-9",
)


def motion(rng, d, poly=False, u=1.0):
    R = gen.rot(rng, d, rng.choice(["id", "perm", "half", "rand", "rand", "small", "plane"]) if poly else None)
    t = gen.trans(rng, d, big=not poly) * u
    k = rng.random()
    if k < 0.15:
        return dict(rotation=R), R, np.zeros(d)
    if k < 0.3:
        return dict(translation=t), np.eye(d), t
    if k < 0.36:
        return {}, np.eye(d), np.zeros(d)
    if k < 0.44:
        return dict(rotation=None, translation=t), np.eye(d), t
    return dict(rotation=R, translation=t), R, t


def pick(rng):
    fl = rng.random() < 0.2
    u = gen.length_unit(rng, -1.5, 0 if fl else 3)  # (tolerances off the plane are absolute)
    if rng.random() < 0.25:
        d = int(rng.choice([2, 4]))
        if rng.random() < 0.5:
            return gen.ellipsoid(rng, d, fl, big=False, size=u) + (u,)
        return gen.poly(rng, d, fl, size=u) + (1.0,)
    lib, m = gen.any_shape(rng, flat=fl, size=u)
    return lib, m, 1.0 if m.kind == "poly" else u


def sizes(c, a, b, m):
    c.check(type(a) is type(b), "kind is kept", got=type(b).__name__, want=type(a).__name__)
    if isinstance(a, (rg.Box, rg.Ellipsoid)):
        c.close(np.asarray(b.half_extents, float), m.h, "sizes are kept", tol=1e-9, scale=max(m.h.max(), 1e-9))
        c.close(b.volume, m.volume(), "volume is kept", tol=1e-9, scale=max(m.volume(), 1e-30))
    elif isinstance(a, rg.Cylinder):
        c.close([b.length, b.radius], [m.L, m.r], "sizes are kept", tol=1e-9, scale=max(m.L, m.r, 1e-9))
        c.close(b.volume, m.volume(), "volume is kept", tol=1e-9, scale=max(m.volume(), 1e-30))
    elif isinstance(a, rg.Capsule):
        c.close([b.inner_length, b.radius, b.full_length], [m.L, m.r, m.L + 2 * m.r], "sizes are kept", tol=1e-9, scale=max(m.L, m.r, 1e-9))
    else:
        c.check(b.nv == a.nv, "vertex count is kept", got=b.nv, want=a.nv)


def same_vertices(c, lib, m, ref=None):
    if isinstance(lib, rg.ConvexPolyhedron):
        c.check(M.rows_match(lib.vertices, m.V if ref is None else ref, 1e-7 * m.scale()), "vertices are the image vertices", got=lib.vertices, want=m.V if ref is None else ref)


@P.group(quick=400, thorough=10000)
def shapes(c, rng, i):
    lib, m, u = pick(rng)
    poly = m.kind == "poly"
    kw, R, t = motion(rng, m.dim, poly, u)
    c.say(kind=m.kind, R=R, t=t, model=m.params())
    V0 = np.array(lib.vertices) if isinstance(lib, rg.ConvexPolyhedron) else None
    out = lib.transform(**kw) if rng.random() < 0.7 or len(kw) < 2 else lib.transform(kw["rotation"], kw["translation"])
    m2 = m.transform(R, t)
    judge(c, out, m2, rng)
    sizes(c, lib, out, m2)
    if V0 is not None:
        same_vertices(c, out, m2, V0 @ R.T + t)
    if hasattr(out, "center"):
        c.close(np.asarray(out.center, float), m2.c, "center moves with the shape", tol=1e-9, scale=max(m2.size(), m.size(), np.abs(t).max()))


@P.group(quick=200, thorough=5000)
def compose(c, rng, i):
    """Two motions in sequence equal the composed motion; the inverse undoes."""
    lib, m, u = pick(rng)
    poly = m.kind == "poly"
    _, R1, t1 = motion(rng, m.dim, poly, u)
    _, R2, t2 = motion(rng, m.dim, poly, u)
    c.say(kind=m.kind, R1=R1, t1=t1, R2=R2, t2=t2, model=m.params())
    seq = lib.transform(R1, t1).transform(R2, t2)
    m12 = m.transform(R2 @ R1, R2 @ t1 + t2)
    judge(c, seq, m12, rng)
    one = lib.transform(rotation=R2 @ R1, translation=R2 @ t1 + t2)
    judge(c, one, m12, rng)
    if m.rank() == m.dim or not poly:
        c.check(seq.is_same(one, tol=1e-6), "sequence equals composition", kind=m.kind)
    back = lib.transform(R1, t1).transform(rotation=R1.T, translation=-R1.T @ t1)
    judge(c, back, m, rng)
    # rotation first, then translation
    two = lib.transform(rotation=R1).transform(translation=t1)
    judge(c, two, m.transform(R1, t1), rng)


@P.group(quick=200, thorough=5000)
def about_center(c, rng, i):
    d = 3
    fl = rng.random() < 0.2
    u = gen.length_unit(rng, -1.5, 0 if fl else 3)
    if rng.random() < 0.5:
        lib, m = gen.box(rng, flat=fl, size=u)
    else:
        d = int(rng.choice([2, 3, 3, 4]))
        lib, m = gen.ellipsoid(rng, d, flat=fl, size=u)
    R = gen.rot(rng, d)
    c.say(kind=m.kind, R=R, model=m.params())
    out = lib.rotate_about_center(R)
    m2 = type(m)(m.h, R @ m.R, m.c)
    judge(c, out, m2, rng)
    sizes(c, lib, out, m2)
    c.close(np.asarray(out.center, float), m.c, "center stays", tol=1e-12, scale=m.size())


@P.group(quick=200, thorough=5000)
def span_forms(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 4]))
    V = rng.normal(size=(int(rng.integers(1, 6)), d)) if rng.random() < 0.85 else None
    rays = rng.normal(size=(int(rng.integers(1, 4)), d)) if rng.random() < 0.6 or V is None else None
    span = rng.normal(size=(1, d)) if rng.random() < 0.2 else None
    kw, R, t = motion(rng, d)
    c.say(V=V, rays=rays, span=span, R=R, t=t)
    s = rg.SpanForm(vertices=V, rays=rays, span=span)
    o = s.transform(**kw)
    allrays = s.rays
    if V is None:
        c.check(o.vertices is None, "no vertices appear", got=o.vertices)
    else:
        c.close(o.vertices, V @ R.T + t, "vertices move rigidly")
    if allrays is None:
        c.check(o.rays is None, "no rays appear", got=o.rays)
    else:
        want = np.vstack([x for x in (rays, None if span is None else np.vstack((span, -span))) if x is not None])
        want = want @ R.T
        ok = np.shape(o.rays) == want.shape and np.allclose(
            o.rays / np.linalg.norm(o.rays, axis=1, keepdims=True), want / np.linalg.norm(want, axis=1, keepdims=True), atol=1e-9)
        c.check(ok, "rays turn without shifting", got=o.rays, want=want)
    c.check(o.dim == d, "dimension is kept")


@P.group(quick=200, thorough=5000)
def face_forms(c, rng, i):
    d = int(rng.choice([1, 2, 3, 3, 4]))
    n = int(rng.integers(1, 7))
    A, b = rng.normal(size=(n, d)), rng.normal(size=n) + 1
    ne = int(rng.integers(0, d)) if rng.random() < 0.3 else 0
    kw, R, t = motion(rng, d)
    c.say(A=A, b=b, R=R, t=t, ne=ne)
    X = rng.normal(size=(60, d)) * 2
    if ne:
        Ae = rng.normal(size=(ne, d))
        x0 = rng.normal(size=d)
        be = Ae @ x0
        N = np.linalg.svd(Ae)[2][ne:]
        X[:30] = x0 + rng.normal(size=(30, d - ne)) @ N
        f = rg.FaceForm(A, b, A_eq=Ae, b_eq=be)
    else:
        Ae, be = np.zeros((0, d)), np.zeros(0)
        f = rg.FaceForm(A_ineq=A, b_ineq=b)
    slack = np.max(np.hstack((X @ A.T - b, np.abs(X @ Ae.T - be))), axis=1)
    dec = (slack < 1e-9) | (slack > 1e-5)
    want = slack < 1e-7
    o = f.transform(**kw)
    Y = X @ R.T + t
    got = np.all(Y @ o.A.T <= o.b + 1e-7, axis=1)
    c.check(np.array_equal(got[dec], want[dec]), "faces move with the set", n=int(dec.sum()), A=A, b=b, R=R, t=t)
    c.check(o.dim == d and o.nf == f.nf, "faces are kept", got=(o.dim, o.nf))
    # the transform by the inverse restores the original set
    back = o.transform(rotation=R.T, translation=-R.T @ t)
    got = np.all(X @ back.A.T <= back.b + 1e-7, axis=1)
    c.check(np.array_equal(got[dec], want[dec]), "inverse restores the set", n=int(dec.sum()), A=A, b=b, R=R, t=t)


@P.group(quick=80, thorough=2000)
def descriptions_agree(c, rng, i):
    """Both descriptions of one polyhedron stay consistent under a transform."""
    lib, m = gen.poly(rng, 3, flat=rng.random() < 0.2)
    _, R, t = motion(rng, 3, True)
    c.say(R=R, t=t, model=m.params())
    s = lib.span_form.transform(R, t)
    f = lib.face_form.transform(R, t)
    v = s.vertices
    c.check(np.all(v @ f.A.T <= f.b + 1e-6 * m.scale() * (1 + np.linalg.norm(f.A, axis=1))), "vertices satisfy the transformed faces", n=len(v))
    p = rg.ConvexPolyhedron(face_form=f, span_form=s)
    judge(c, p, m.transform(R, t), rng)
