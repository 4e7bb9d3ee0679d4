import numpy as np
import cvxpy as cp
import rigeo as rg
from .. import gen, model as M
from ..core import Inconclusive, Prop

P = Prop(
    "C15",
    rule="one case = one pair of shapes of any two kinds (flat included) at a chosen relation: apart, nearly touching, touching, "
    "overlapping, nested, concentric or identical; non-trivial if distance and witnesses were judged",
    technique="runtime monitoring: distances and witnesses checked online against a separating-direction certificate from an "
    "independent minimum-norm-point algorithm on support points",
    note="to 2e-5 of the shapes' scale (interior-point accuracy)",
)
TOL = 2e-5


def judge(c, r, m1, m2, want, S, tag):
    for f in ("p1", "p2"):
        c.check(np.shape(getattr(r, f)) == (3,), "points are plain 3-vectors", got=np.shape(getattr(r, f)))
    d = float(np.squeeze(r.dist))
    p1, p2 = np.asarray(r.p1, float), np.asarray(r.p2, float)
    det = dict(m1=(m1.kind, m1.params()), m2=(m2.kind, m2.params()), p1=p1, p2=p2, dist=d, want=want, rel=tag)
    c.check(d >= -1e-7 * S, "distance is non-negative", **det)
    c.check(abs(np.linalg.norm(p1 - p2) - d) <= TOL * S, "the points are at the reported distance", **det)
    for p, m, n in ((p1, m1, "first"), (p2, m2, "second")):
        g, off = m.viol(p[None])
        # a flat shape's plane is only held to the solver's accuracy
        c.check(max(g[0], off[0]) <= 5 * TOL * S, f"the {n} point is in its shape", viol=(g[0], off[0]), **det)
    c.check(abs(d - want) <= 3 * TOL * S, f"true distance ({tag})", **det)


def place(rng, i):
    """Two shapes with a known distance and their relation."""
    u0 = gen.length_unit(rng, -1, 2)
    kinds = ("box", "poly", "ellipsoid", "cylinder", "capsule")[:: 1 if u0 == 1 else 2] + (() if u0 == 1 else ("cylinder",))
    # (solvers hold a small flat shape's plane to an absolute accuracy only)
    fl = rng.random(2) < (0.15 if u0 >= 1 else 0)
    l1, m1 = gen.any_shape(rng, flat=bool(fl[0]), kinds=kinds, size=u0)
    l2, m2 = gen.any_shape(rng, flat=bool(fl[1]), kinds=kinds, size=u0)
    rel = ["apart", "far", "near", "touch", "overlap", "deep", "concentric", "same"][i % 8]
    if rel == "same":
        return l1, m1, l1, m1, 0.0, rel
    if rel == "concentric":
        t = m1.c - m2.c
        l2, m2 = l2.transform(translation=t), m2.transform(np.eye(3), t)
    else:
        u = rng.normal(size=3)
        u /= np.linalg.norm(u)
        t = m1.c - m2.c + u * (10 * u0 + 2 * (np.linalg.norm(np.ptp(m1.bbox(), axis=0)) + np.linalg.norm(np.ptp(m2.bbox(), axis=0))))
        m2a = m2.transform(np.eye(3), t)
        lb, ub, x = M.min_distance(m1, m2a)
        x = x / np.linalg.norm(x)
        # x points from the second shape to the first
        gap = dict(apart=rng.uniform(0.2, 3), far=20.0, near=10.0 ** rng.uniform(-3, -1), touch=0.0, overlap=-(10.0 ** rng.uniform(-3, -1)), deep=-rng.uniform(0.1, 1))[rel] * u0
        t = t + x * (lb - gap)
        l2, m2 = l2.transform(translation=t), m2.transform(np.eye(3), t)
    lb, ub, _ = M.min_distance(m1, m2)
    if ub - lb > 1e-6 * max(m1.size(), m2.size()):
        raise Inconclusive("reference distance did not converge")
    return l1, m1, l2, m2, 0.5 * (lb + ub), rel


@P.group(quick=1600, thorough=32000)
def pairs(c, rng, i):
    l1, m1, l2, m2, want, rel = place(rng, i)
    S = max(m1.size(), m2.size(), 0.3)  # (solvers are accurate absolutely, too)
    c.say(rel=rel, m1=(m1.kind, m1.params()), m2=(m2.kind, m2.params()), want=want)
    kw = [dict(), dict(solver=cp.CLARABEL)][i % 2]
    r = c.call(rg.closest_points, l1, l2, **kw)
    judge(c, r, m1, m2, want, S, rel)
    if i % 2:
        q = c.call(rg.closest_points, l2, l1, **kw)
        judge(c, q, m2, m1, want, S, rel + ", swapped")
    if i % 4 == 0:
        # the same motion of both shapes
        R, t = gen.rot(rng), gen.trans(rng, big=False) * S
        q = c.call(rg.closest_points, l1.transform(rotation=R, translation=t), l2.transform(rotation=R, translation=t), **kw)
        judge(c, q, m1.transform(R, t), m2.transform(R, t), want, S + np.abs(t).max(), rel + ", moved")
