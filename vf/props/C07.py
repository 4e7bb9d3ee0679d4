import numpy as np
import rigeo as rg
from .. import gen, model as M
from ..core import Prop

P = Prop(
    "C07",
    rule="one case = one shape (any kind, flat or solid, any pose) or point set and its bounding boxes; non-trivial if "
    "the box extents were compared with the reference support function",
    technique="runtime monitoring: returned boxes compared online with reference support functions",
    note="the reference support function gives the exact extreme coordinates along every axis (world axes for aabb, the "
    "shape's own axes for mbb)",
    assumptions=["axis-aligned boxes are three-dimensional, as the library's Box is"],
)


def axis_aligned(R, tol=1e-9):
    return np.all((np.abs(R) < tol) | (np.abs(np.abs(R) - 1) < tol))


def judge_aabb(c, box, lo, hi, sc, what):
    if not c.check(isinstance(box, rg.Box), "the bounding box is a box", got=type(box).__name__):
        return
    V = np.asarray(box.vertices)
    tol = 1e-9 * sc
    c.close(V.min(axis=0), lo, f"{what}: lowest coordinates", tol=1e-9, scale=sc)
    c.close(V.max(axis=0), hi, f"{what}: highest coordinates", tol=1e-9, scale=sc)
    c.check(axis_aligned(np.asarray(box.rotation)), f"{what}: axis-aligned", R=box.rotation)
    W = M.BoxM((hi - lo) / 2, None, (hi + lo) / 2).V
    D = np.max(np.abs(V[:, None] - W[None]), axis=2)
    c.check(V.shape == (8, 3) and D.min(axis=0).max() <= tol and D.min(axis=1).max() <= tol, f"{what}: corners", V=V, lo=lo, hi=hi)
    c.close(box.center, (lo + hi) / 2, f"{what}: center", tol=1e-9, scale=sc)
    # faces agree with the vertices
    X = np.vstack(((lo + hi) / 2, (lo + hi) / 2 + 1.01 * (W - (lo + hi) / 2) + 1e-3 * np.sign(W - (lo + hi) / 2)))
    if np.all(hi - lo > 1e-3):
        got = np.asarray(box.contains(X))
        c.check(bool(got[0]) and not got[1:].any(), f"{what}: contains what it spans", got=got)


@P.group(quick=900, thorough=25000)
def aabb(c, rng, i):
    lib, m = gen.any_shape(rng, flat=bool(rng.random() < 0.3), big=True, size=gen.length_unit(rng, -3, 5))
    c.say(kind=m.kind, model=m.params())
    lo, hi = m.bbox()
    judge_aabb(c, lib.aabb(), lo, hi, m.scale(), "aabb")
    # the box encloses the shape
    X = np.vstack((m.inside(rng, 20), m.support_point(np.vstack((np.eye(3), -np.eye(3))))))
    c.check(np.asarray(lib.aabb().contains(X, tol=1e-7 * m.scale())).all(), "aabb encloses the shape", n=len(X))


def slender_shape(rng):
    """Needles and plates."""
    a = 10 ** rng.uniform(0.9, 4)
    L, r = [(1.0, 1 / a), (1 / a, 1.0)][int(rng.integers(2))]
    u = float(rng.choice([1.0, 1.0, 10.0, 100.0]))
    k = str(rng.choice(["cylinder", "cylinder", "capsule", "ellipsoid", "box"]))
    R, x = gen.rot(rng, 3), gen.trans(rng, 3, big=False) * (rng.random() < 0.7)
    if k in ("cylinder", "capsule"):
        L, r = 2 * L * u, r * u
        cyl = rg.Cylinder(L, r, rotation=R, center=x)
        return (cyl, M.Cyl(L, r, R, x)) if k == "cylinder" else (cyl.capsule(), M.Cap(L, r, R, x))
    h = rng.permutation(np.array([L, r, rng.choice([L, r])])) * u
    if k == "box":
        return rg.Box(h, rotation=R, center=x), M.BoxM(h, R, x)
    return rg.Ellipsoid(h, rotation=R, center=x), M.Ell(h, R, x)


@P.group(quick=300, thorough=8000)
def slender(c, rng, i):
    """Shapes of extreme proportions."""
    lib, m = slender_shape(rng)
    c.say(kind=m.kind, model=m.params())
    lo, hi = m.bbox()
    judge_aabb(c, lib.aabb(), lo, hi, m.scale(), "aabb")
    if m.kind != "box":
        V, sc = np.asarray(lib.mbb().vertices), m.scale()
        for s in (1, -1):
            c.close(np.max(V @ (s * m.R), axis=0), m.support(s * m.R.T), "mbb touches the shape on every side", tol=1e-9, scale=sc, n=3)


@P.group(quick=300, thorough=8000)
def points(c, rng, i):
    n = int(rng.choice([1, 2, 3, 10, 50, 200, 700, 3000]))
    X = rng.normal(size=(n, 3)) * rng.uniform(0.1, 5, 3) + gen.trans(rng)
    if rng.random() < 0.3:
        X = np.round(X)
    if rng.random() < 0.2:
        X[:, rng.integers(3)] = 1.5
    if n >= 50:  # few points reach the sides, wherever in the list they stand
        X = X.mean(axis=0) + (X - X.mean(axis=0)) * np.where(rng.random((n, 1)) < 0.02, 1, 0.3)
    c.say(X=X)
    arg = X if rng.random() < 0.7 else X.tolist()
    if rng.random() < 0.15 and np.all(X == np.round(X)):
        arg = X.astype(int)
    lo, hi = X.min(axis=0), X.max(axis=0)
    judge_aabb(c, rg.Box.from_points_to_bound(arg), lo, hi, max(1, np.abs(X).max()), "points")


@P.group(quick=500, thorough=15000)
def mbb(c, rng, i):
    lib, m = gen.any_shape(rng, flat=bool(rng.random() < 0.3), kinds=("ellipsoid", "cylinder", "capsule"), big=True, size=gen.length_unit(rng, -3, 5))
    c.say(kind=m.kind, model=m.params())
    b = lib.mbb()
    sc = m.scale()
    if not c.check(isinstance(b, rg.Box), "the bounding box is a box", got=type(b).__name__):
        return
    V = np.asarray(b.vertices)
    R = m.R
    # the shape is bounded tightly along its own axes: six touching sides
    for s in (1, -1):
        c.close(np.max(V @ (s * R), axis=0), m.support(s * R.T), "mbb touches the shape on every side", tol=1e-9, scale=sc, n=3)
    Rb = np.asarray(b.rotation)
    ok = axis_aligned(Rb.T @ R, 1e-8)
    c.check(ok, "mbb shares the shape's axes", Rb=Rb, R=R)
    X = np.vstack((m.inside(rng, 20), m.boundary(rng, 20)))
    c.check(np.asarray(b.contains(X, tol=1e-7 * sc)).all(), "mbb contains the shape", n=len(X))
    c.close(b.volume, np.prod([m.support(R.T[[k]])[0] + m.support(-R.T[[k]])[0] for k in range(3)]), "mbb volume", tol=1e-9, scale=sc**3)
