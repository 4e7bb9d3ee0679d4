import itertools
import numpy as np
import rigeo as rg
from .. import gen, model as M
from ..core import Prop

P = Prop(
    "C19",
    rule="one case = one body (box, ellipsoid, cylinder, box surface, ellipsoid surface, box edges, polyhedron vertices) with random "
    "size, pose and mass; non-trivial if the parameters were compared with a quadrature of the mass distribution",
    technique="runtime monitoring: reported parameters compared with independent Gauss quadrature of the mass distribution over "
    "the reference body, with mass, linearity and refusal monitors",
    note="to 1e-9 (1e-6 for ellipsoid surfaces, by quadrature); flat bodies only where their length or area is not zero",
)
GX, GW = np.polynomial.legendre.leggauss(6)
GX2, GW2 = np.polynomial.legendre.leggauss(160)


def ball_nodes():
    """Product quadrature of the unit ball, exact for quadratics."""
    r, w = (GX + 1) / 2, GW / 2
    out = []
    ph = np.arange(8) * 2 * np.pi / 8
    for ri, wi in zip(r, w):
        for u, wu in zip(GX, GW):
            s = np.sqrt(1 - u * u)
            for p in ph:
                out.append((ri * s * np.cos(p), ri * s * np.sin(p), ri * u, wi * ri**2 * wu / 8))
    out = np.array(out)
    return out[:, :3], out[:, 3] / out[:, 3].sum()


def disk_nodes():
    r, w = (GX + 1) / 2, GW / 2
    ph = np.arange(8) * 2 * np.pi / 8
    out = np.array([(ri * np.cos(p), ri * np.sin(p), wi * ri / 8) for ri, wi in zip(r, w) for p in ph])
    return out[:, :2], out[:, 2] / out[:, 2].sum()


def sphere_nodes():
    ph = (np.arange(320) + 0.5) * 2 * np.pi / 320
    u, p = np.meshgrid(GX2, ph, indexing="ij")
    s = np.sqrt(1 - u**2)
    X = np.stack((s * np.cos(p), s * np.sin(p), u), axis=-1).reshape(-1, 3)
    return X, (np.repeat(GW2, 320) / GW2.sum() / 320)


BALL, DISK, SPH = ball_nodes(), disk_nodes(), sphere_nodes()
SQ = np.array(list(itertools.product(GX, GX))), np.array([a * b for a, b in itertools.product(GW, GW)]) / 4


def body(kind, h):
    """Quadrature nodes and weights (total one) in the body's own frame."""
    if kind == "box":
        X = np.array(list(itertools.product(GX, repeat=3))) * h
        w = np.array([a * b * c for a, b, c in itertools.product(GW, repeat=3)]) / 8
    elif kind == "ellipsoid":
        X, w = BALL[0] * h, BALL[1]
    elif kind == "cylinder":  # h = (r, r, L/2)
        X = np.array([(*(q * h[0]), z * h[2]) for q in DISK[0] for z in GX])
        w = np.array([a * b for a in DISK[1] for b in GW / 2])
    elif kind == "box surface":
        Xs, ws = [], []
        for a in range(3):
            o = [k for k in range(3) if k != a]
            for s in (-1, 1):
                Y = np.zeros((len(SQ[0]), 3))
                Y[:, o] = SQ[0] * h[o]
                Y[:, a] = s * h[a]
                Xs.append(Y)
                ws.append(SQ[1] * h[o[0]] * h[o[1]])
        X, w = np.vstack(Xs), np.concatenate(ws)
    elif kind == "box edges":
        Xs, ws = [], []
        for a in range(3):
            o = [k for k in range(3) if k != a]
            for s in itertools.product((-1, 1), repeat=2):
                Y = np.zeros((len(GX), 3))
                Y[:, a] = GX * h[a]
                Y[:, o] = np.array(s) * h[o]
                Xs.append(Y)
                ws.append(GW * h[a])
        X, w = np.vstack(Xs), np.concatenate(ws)
    else:  # ellipsoid surface: exact area element on the parametrizing sphere
        X = SPH[0] * h
        w = SPH[1] * np.linalg.norm(SPH[0] / h, axis=1)
    return X, w / w.sum()


def judge(c, p, m, X, w, R, ctr, kind, tol=1e-9, mech=None):
    Y = X @ R.T + ctr
    L = np.sqrt(np.max(np.sum(Y**2, axis=1)))
    S = m * L**2
    det = dict(kind=kind, mass=m, R=R, center=ctr)
    c.close(float(p.mass), m, "exactly the requested mass", tol=1e-12, scale=m, **det)
    c.close(p.h, m * w @ Y, "first moment is the integral", tol=1e-9, scale=m * L, **det)
    ok = np.max(np.abs(p.H - m * (Y * w[:, None]).T @ Y)) <= tol * S
    c.seen("second moment is the integral")
    return ok, m * (Y * w[:, None]).T @ Y, S


def one(c, kind, fn, h, R, ctr, m, tol=1e-9):
    X, w = body(kind, h)
    p = c.call(fn, m)
    ok, want, S = judge(c, p, m, X, w, R, ctr, kind, tol)
    if not ok:
        mech = None
        if kind == "ellipsoid surface":
            # the known formula: a thin shell between x, y, z and x+t, y+t, z+t
            a, b, d = h
            q = 5 * (a * b + a * d + b * d)
            D = np.array([a * a * (a * b + a * d + 3 * b * d), b * b * (a * b + 3 * a * d + b * d), d * d * (3 * a * b + a * d + b * d)]) / q
            thin = m * (R @ np.diag(D) @ R.T + np.outer(ctr, ctr))
            if np.max(np.abs(p.H - thin)) <= 1e-9 * S and np.ptp(h) > 1e-9 * h.max():
                mech = "ellipsoid-hollow-thin-shell"
        c.fail("second moment is the integral", mech, kind=kind, h=h, R=R, center=ctr, mass=m, got=p.H, want=want)
    return p


def masses(rng):
    return [1.0, 1, 2, 0.25, float(rng.uniform(0.01, 50)), np.float64(rng.uniform(0.1, 3)), 1e-3, float(10.0 ** rng.uniform(-9, 6)), 300][int(rng.integers(9))]


@P.group(quick=3000, thorough=60000)
def densities(c, rng, i):
    kind = ["box", "ellipsoid", "cylinder", "box surface", "box edges", "ellipsoid surface"][i % 6]
    flat = i % 5 == 0
    r_arg, c_arg, R, ctr = gen.pose(rng, 3)
    h = gen.extents(rng, 3, False)
    tol = 1e-9
    lu = 1.0 if rng.random() < 0.6 else float(10.0 ** rng.uniform(-4, 4))  # unit of length
    h = h * lu
    ctr = ctr * lu
    c_arg = None if c_arg is None else ctr
    if kind == "cylinder":
        L, r = (x * lu for x in gen._lr(rng, flat))
        h = np.array([r, r, L / 2])
        lib = rg.Cylinder(L, r, rotation=r_arg, center=c_arg)
        fn = lib.uniform_density_params
    elif kind.startswith("ellipsoid"):
        if kind == "ellipsoid surface":
            h = np.maximum(h, 0.25 * h.max())
            tol = 1e-6
            if i % 4 == 1:
                h[:] = h[0]
        lib = rg.Ellipsoid(gen.form(rng, h), rotation=r_arg, center=c_arg)
        fn = lib.uniform_density_params if kind == "ellipsoid" else lib.hollow_density_params
    else:
        if flat:
            h[int(rng.integers(3))] = 0.0
            if kind != "box surface" and rng.random() < 0.3:
                h[int(rng.integers(3))] = 0.0
        if np.sum(h == 0) > (1 if kind == "box surface" else 2):
            return
        lib = rg.Box(gen.form(rng, h), rotation=r_arg, center=c_arg)
        fn = {"box": lib.uniform_density_params, "box surface": lib.hollow_density_params, "box edges": lib.wireframe_density_params}[kind]
    if rng.random() < 0.3:
        R2, t2 = gen.rot(rng), gen.trans(rng) * lu
        lib = lib.transform(rotation=R2, translation=t2)
        R, ctr = R2 @ R, R2 @ ctr + t2
        fn = getattr(lib, fn.__name__)
    m = masses(rng)
    c.say(kind=kind, h=h, R=R, ctr=ctr, m=m)
    p = one(c, kind, fn, h, R, ctr, m, tol)
    S = np.abs(p.J).max()
    L = np.linalg.norm(h) + np.linalg.norm(ctr)
    # linear in the mass, zero included
    k = float(rng.uniform(0.1, 5))
    q = c.call(fn, k * m)
    c.close(q.J, k * p.J, "scales linearly with the mass", tol=1e-12, scale=k * S)
    z = c.call(fn, 0 if rng.random() < 0.5 else 0.0)
    c.close(z.J, np.zeros((4, 4)), "zero mass gives zero parameters")
    c.raises((AssertionError, ValueError), fn, -m, tag="negative mass is refused")
    c.raises((AssertionError, ValueError), fn, -float(10.0 ** rng.uniform(-12, -3)), tag="negative mass is refused")
    # the body can have its own parameters: center of mass at the center
    c.close(p.com, ctr, "center of mass is the center", tol=1e-9, scale=L)


@P.group(quick=1000, thorough=20000)
def vertices(c, rng, i):
    if i % 3 == 0:
        lib, m = gen.box(rng, flat=bool(rng.random() < 0.2), big=False)
    else:
        lib, m = gen.poly(rng, 3, bool(rng.random() < 0.2))
    V = np.asarray(lib.vertices, float)
    n = len(V)
    mass = masses(rng)
    c.say(V=V, mass=mass)
    p = c.call(lib.vertex_point_mass_params, mass)
    want = gen.pim(np.full(n, mass / n), V)
    c.close(p.J, want, "mass shared equally by the vertices", scale=np.abs(want).max())
    c.close(float(p.mass), mass, "exactly the requested mass", tol=1e-12, scale=mass)
    c.close(c.call(lib.vertex_point_mass_params, 0).J, np.zeros((4, 4)), "zero mass gives zero parameters")
    ms = gen.masses(rng, n) * (1.0 if rng.random() < 0.5 else 10.0 ** rng.uniform(-8, 5))
    arg = ms if rng.random() < 0.6 else (ms.tolist() if rng.random() < 0.5 else tuple(ms))
    p = c.call(lib.vertex_point_mass_params, arg)
    want = gen.pim(ms, V)
    c.close(p.J, want, "each vertex has its own mass", scale=np.abs(want).max())
    bad = ms.copy()
    bad[int(rng.integers(n))] = -float(10.0 ** rng.uniform(-10, 0))
    c.raises((AssertionError, ValueError), lib.vertex_point_mass_params, bad, tag="negative mass is refused")
    c.raises((AssertionError, ValueError), lib.vertex_point_mass_params, -1.0, tag="negative mass is refused")
    c.raises((AssertionError, ValueError), lib.vertex_point_mass_params, np.ones(n + 1), tag="one mass per vertex")
    # the vertices are those of the body
    c.close(M.Poly(np.unique(np.round(V, 9), axis=0)).support(np.eye(3)), m.support(np.eye(3)), "masses are at the body's vertices", tol=1e-6, scale=m.scale())
