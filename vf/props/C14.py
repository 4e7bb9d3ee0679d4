import numpy as np
import rigeo as rg
from .. import gen, model as M
from ..core import Prop

P = Prop(
    "C14",
    rule="one case = one shape (any kind and pose, flat included) and one requested resolution; non-trivial if the returned points "
    "were matched with the reference lattice",
    technique="runtime monitoring: returned grids matched, as multisets, with a reference lattice over the exact bounding box "
    "labelled by the reference point set",
    note="nodes within 1e-7 of the boundary, but not on it, may be kept or dropped; 3-D shapes only (boxes are 3-D)",
)


def match(L, X, tol):
    """Index of the node each point matches, or -1."""
    if len(X) == 0:
        return np.zeros(0, int)
    D = np.max(np.abs(X[:, None, :] - L[None, :, :]), axis=2)
    k = np.argmin(D, axis=1)
    return np.where(D[np.arange(len(X)), k] <= tol, k, -1)


@P.group(quick=1200, thorough=24000)
def boxes(c, rng, i):
    flat = i % 5 == 0
    lib, m = gen.box(rng, flat=flat, size=gen.length_unit(rng))
    if i % 3 == 0:
        n = int(rng.integers(1, 7))
        ns = [n, n, n]
        if rng.random() < 0.3:
            n = np.int64(n)
    else:
        ns = [int(v) for v in rng.integers(1, 7, 3)]
        n = [ns, tuple(ns), np.array(ns)][i % 3 if i % 3 else 0] if rng.random() < 0.5 else [ns, tuple(ns), np.array(ns)][int(rng.integers(3))]
    if i % 7 == 0:  # one axis with many nodes
        ns = [int(v) for v in rng.integers(1, 4, 3)]
        ns[int(rng.integers(3))] = int(rng.choice([9, 17, 33, 60, 101, 300]))
        n = [ns, tuple(ns), np.array(ns)][int(rng.integers(3))]
    c.say(n=n, model=m.params())
    X = np.asarray(c.call(lib.grid, n), float)
    N = int(np.prod(ns))
    if not c.check(X.shape == (N, 3), "every node of a box's own grid is kept", got=X.shape, want=(N, 3), n_req=ns):
        return
    Q = (X - m.c) @ m.R
    tol = 1e-9 * m.size()
    for a in range(3):
        want = np.linspace(-m.h[a], m.h[a], ns[a]) if ns[a] > 1 else None
        if want is None:
            c.check(np.ptp(Q[:, a]) <= tol and np.all(np.abs(Q[:, a]) <= m.h[a] + tol), "a single layer lies in the box", axis=a)
            continue
        d = np.abs(Q[:, a][:, None] - want[None, :])
        c.check(np.all(d.min(axis=1) <= tol), "box grid: nodes are evenly spaced", n=N, axis=a, ns=ns, model=m.params())
        if m.h[a] > 1e-6 * m.size():
            k = np.argmin(d, axis=1)
            c.check(np.all(np.bincount(k, minlength=ns[a]) == N // ns[a]), "box grid: every layer is complete", axis=a, ns=ns, model=m.params())
    # all nodes present: combinations of layer indices are pairwise distinct
    idx = np.zeros(N, int)
    ok = True
    for a in range(3):
        if ns[a] > 1 and m.h[a] > 1e-6 * m.size():
            k = np.rint((Q[:, a] + m.h[a]) / (2 * m.h[a]) * (ns[a] - 1)).astype(int)
            idx = idx * ns[a] + k
        else:
            ok = ok and ns[a] == 1
    if ok:
        c.check(len(np.unique(idx)) == N, "box grid: no node missing or repeated", ns=ns, model=m.params())
        if min(ns) > 1:
            got = match(X, m.V, 1e-8 * m.size())
            c.check(np.all(got >= 0), "box grid: corner to corner", ns=ns, model=m.params())


@P.group(quick=1200, thorough=24000)
def shapes(c, rng, i):
    flat = i % 5 == 0
    kind = ["poly", "ellipsoid", "cylinder", "capsule"][i % 4]
    if kind == "poly":
        lib, m = gen.poly(rng, 3, flat, size=gen.length_unit(rng, -3, 5))
    else:
        lib, m = getattr(gen, kind)(rng, flat=flat, big=bool(rng.random() < 0.3), size=gen.length_unit(rng, -1))
    n = int(rng.integers(2, 9))
    c.say(kind=kind, n=n, model=m.params())
    X = np.asarray(c.call(lib.grid, n), float)
    if not c.check(X.ndim == 2 and X.shape[1] == 3, "grid has one row per point", got=X.shape):
        return
    lo, hi = m.bbox()
    ax = [np.linspace(lo[a], hi[a], n) for a in range(3)]
    L = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1).reshape(-1, 3)
    L = L[np.sort(np.unique(np.round(L / (1e-9 * m.size())), axis=0, return_index=True)[1])]
    # (flat directions repeat nodes; the set is judged, and repeats only if the lattice has none)
    k = match(L, X, 1e-8 * m.size())
    c.check(np.all(k >= 0), "grid points are lattice nodes", n=max(1, len(X)), kind=kind, n_req=n, model=m.params(),
            bad=X[k < 0][:2])
    if len(L) == n**3:
        c.check(len(np.unique(k)) == len(k), "no node is repeated", kind=kind, n_req=n, model=m.params())
    g, off = m.viol(L)
    # on the boundary up to rounding, or well inside
    surf = (np.abs(g) <= 1e-12 * m.size()) & (off <= 1e-12 * m.size()) & (m.rank() == 3)
    lab = m.classify(L, max(1e-6 * m.size(), 1e-7))
    have = np.zeros(len(L), bool)
    have[k[k >= 0]] = True
    ins, out = lab == 1, lab == -1
    c.seen("nodes inside", int(ins.sum()))
    c.seen("nodes outside", int(out.sum()))
    c.seen("nodes touching the bounding box", int(surf.sum()))
    for mask, want, name in ((ins, True, "contained nodes are kept"), (out, False, "other nodes are dropped"), (surf, True, "boundary nodes are kept")):
        bad = mask & (have != want)
        if bad.any():
            j = int(np.nonzero(bad)[0][0])
            c.fail(name, node=L[j], kind=kind, n_req=n, model=m.params())
    q = np.asarray(c.call(lib.contains, X)) if len(X) else np.ones(0, bool)
    c.check(np.all(q), "the shape contains its grid", n=max(1, len(X)))


@P.group(quick=60, thorough=900)
def fine(c, rng, i):
    """Grids of many nodes along every axis."""
    flat = i % 6 == 0
    kind = ["poly", "ellipsoid", "cylinder", "capsule"][i % 4]
    u = gen.length_unit(rng, -1)
    lib, m = gen.poly(rng, 3, flat, size=u) if kind == "poly" else getattr(gen, kind)(rng, flat=flat, size=u)
    n = int(rng.choice([9, 12, 16, 20, 25, 31, 40, 50]))
    c.say(kind=kind, n=n, model=m.params())
    X = np.asarray(c.call(lib.grid, n), float)
    if not c.check(X.ndim == 2 and X.shape[1] == 3, "grid has one row per point", got=X.shape):
        return
    lo, hi = m.bbox()
    w = hi - lo
    deg = w <= 1e-7 * m.size()
    # node numbers of the points, axis by axis
    k = np.rint((X - lo) / np.where(deg, 1, w) * (n - 1)).astype(int)
    k[:, deg] = 0
    near = lo + np.where(deg, 0, w) * k / (n - 1)
    ok = (np.abs(X - near) <= 1e-8 * m.size()).all(axis=1) & (k >= 0).all(axis=1) & (k < n).all(axis=1)
    c.check(ok.all(), "grid points are lattice nodes", n=max(1, len(X)), kind=kind, n_req=n, model=m.params(), bad=X[~ok][:2])
    k = k[ok]
    code = (k[:, 0] * n + k[:, 1]) * n + k[:, 2]
    if not deg.any():
        c.check(len(np.unique(code)) == len(code), "no node is repeated", kind=kind, n_req=n, model=m.params())
    G = np.stack(np.meshgrid(*[np.arange(1 if d else n) for d in deg], indexing="ij"), axis=-1).reshape(-1, 3)
    L = lo + np.where(deg, 0, w) * G / (n - 1)
    have = np.zeros(n**3, bool)
    have[code] = True
    have = have[(G[:, 0] * n + G[:, 1]) * n + G[:, 2]]
    lab = m.classify(L, max(1e-6 * m.size(), 1e-7))
    for mask, want, name in ((lab == 1, True, "contained nodes are kept"), (lab == -1, False, "other nodes are dropped")):
        c.seen(name, int(mask.sum()))
        bad = mask & (have != want)
        if bad.any():
            c.fail(name, node=L[np.nonzero(bad)[0][0]], kind=kind, n_req=n, model=m.params())
