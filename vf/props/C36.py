import contextlib
import glob
import io
import os
import re
import runpy
import sys
import tempfile
import time
import types

import numpy as np
import cvxpy as cp
import rigeo as rg
from .. import cvx, gen
from ..core import Inconclusive, Prop

P = Prop(
    "C36",
    rule="one case = one shipped script run in this process (derivation, example or experiment), its output or results judged at random "
    "sizes; non-trivial if a printed, plotted or recorded quantity was compared",
    technique="runtime monitoring: the output of derivations and examples is compared online with the library and with independent "
    "integrals; recorded plots and optimization values are judged by independent oracles",
    note="derivations 1e-9 relative; Monte Carlo within 6 standard errors; optimal values 1e-4",
    assumptions=["the symbolic algebra package of the verification environment (sympy) is used for the derivations"],
)
SCRIPTS = os.path.join(os.path.dirname(os.path.realpath(os.environ.get("VERIF_SRC", "/repo/src"))), "scripts")
VT = glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")


class Plots(types.ModuleType):
    """Stand-in for pyplot that records what is scattered."""

    def __init__(self):
        super().__init__("matplotlib.pyplot")
        self.points = []

    def scatter(self, x, y, *a, **k):
        self.points.append(np.column_stack((x, y)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: types.SimpleNamespace(set_aspect=lambda *a, **k: None)


@contextlib.contextmanager
def surroundings(modules=(), path=(), argv=None):
    """Stand-ins for what a script imports, a directory to write into, its
    arguments, and everything as before afterwards."""
    names = dict(modules)
    keep = {n: sys.modules.get(n) for n in names}
    old, cwd, kept = list(sys.path), os.getcwd(), sys.argv
    sys.modules.update(names)
    sys.path += [p for p in path if p not in sys.path]
    pr = np.get_printoptions()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        if argv is not None:
            sys.argv = ["script"] + list(argv)
        try:
            yield d
        finally:
            os.chdir(cwd)
            sys.path[:] = old
            sys.argv = kept
            np.set_printoptions(**pr)
            for n, m in keep.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m


def run(rel, name="__main__", **kw):
    """Globals and printed text of a script."""
    out = io.StringIO()
    with surroundings(**kw), contextlib.redirect_stdout(out):
        g = runpy.run_path(os.path.join(SCRIPTS, rel), run_name=name)
    return g, out.getvalue()


_done = {}


def derived(c, rel):
    if rel not in _done:
        shell = types.ModuleType("IPython")
        shell.embed = lambda *a, **k: None
        _done[rel] = c.call(run, "theory/" + rel, modules={"IPython": shell}, path=VT)
    return _done[rel]


def printed(c, text, at):
    """Matrices printed by a derivation, at given values of its symbols."""
    out = {}
    for name, body in re.findall(r"\b([A-Z]) =\s*Matrix\((\[\[.*?\]\])\)", text, flags=re.S):
        out[name] = np.array(eval(body, {"__builtins__": {}}, dict(at)), dtype=float)
    c.check({"H", "I"} <= set(out), "both matrices are printed", got=sorted(out))
    for name, body in re.findall(r"^I(xx|yy|zz) = (.*)$", text, flags=re.M):
        k = "xyz".index(name[0])
        c.close(eval(body, {"__builtins__": {}}, dict(at)), out["I"][k, k], "single moments of inertia as in the matrix", tol=1e-10, scale=np.abs(out["I"]).max())
    return out["H"], out["I"]


def wires(a, b, c):
    """Second moments of the unit-mass edges of a box."""
    h = np.array([a, b, c])
    return np.diag([(h[k] ** 3 / 3 + h[k] ** 2 * (h.sum() - h[k])) / h.sum() for k in range(3)])


def sides(a, b, c):
    """Second moments of the unit-mass faces of a box."""
    h = np.array([a, b, c])
    w = np.array([b * c, a * c, a * b]) / (b * c + a * c + a * b)
    return np.diag([h[k] ** 2 * (w[k] + (1 - w[k]) / 3) for k in range(3)])


def skin(a, b, c):
    """Second moments of what is added when every semi-axis of a solid
    ellipsoid grows by the same little."""
    h = np.array([a, b, c])
    s = (1 / h).sum()
    return np.diag(h**2 / 5 * (s + 2 / h) / s)


@P.group(quick=160, thorough=1600, cpu=300)
def derivations(c, rng, i):
    """Derived inertia of shells, wire frames and vertices, at random sizes."""
    rel, want, lib = [
        ("box_vertex_inertia.py", lambda h: np.diag(h**2), lambda h: rg.Box(h).vertex_point_mass_params(mass=1.0)),
        ("box_wireframe_inertia.py", lambda h: wires(*h), lambda h: rg.Box(h).wireframe_density_params(mass=1.0)),
        ("box_shell_inertia.py", lambda h: sides(*h), lambda h: rg.Box(h).hollow_density_params(mass=1.0)),
        ("ellipsoid_shell_inertia.py", lambda h: skin(*h), lambda h: rg.Ellipsoid(h).hollow_density_params(mass=1.0)),
    ][i % 4]
    _, text = derived(c, rel)
    for _ in range(5):
        h = np.exp(rng.normal(size=3)) * rng.choice([0.1, 1, 10])
        H, J = printed(c, text, dict(zip("abc", h)))
        W = want(h)
        c.say(script=rel, h=h)
        sc = W.max()
        c.close(H, W, "derived second moments", tol=1e-9, scale=sc)
        c.close(J, np.trace(W) * np.eye(3) - W, "derived inertia", tol=1e-9, scale=sc)
        p = lib(h)
        c.close(p.H, H, "the library's second moments are the derived ones", tol=1e-9, scale=sc)
        c.close(p.I, J, "the library's inertia is the derived one", tol=1e-9, scale=sc)


@P.group(quick=40, thorough=400, cpu=300)
def proofs(c, rng, i):
    """The proofs' verification runs through; what they build is what they say."""
    if i % 2 == 0:
        g, _ = derived(c, "cuboid_density_realizability_proof.py")
        c.seen("the cuboid's proof is verified")
        # the masses at the vertices of one particle add up to the particle
        V, f = g.get("vertices"), g.get("φ")
        if V is None or f is None:
            return
        rr, x = np.exp(rng.normal(size=3)), None
        x = rr * rng.uniform(-1, 1, size=3)
        at = dict(zip(("rx", "ry", "rz", "x", "y", "z"), np.concatenate((rr, x))))
        V, f = (np.array(m.subs(at).tolist(), dtype=float) for m in (V, f))
        f = f.ravel()
        c.check(f.min() >= -1e-12, "masses at the vertices are not negative", got=f)
        c.close(f @ V, np.append(x, 1), "they keep mass and center", tol=1e-9, scale=1 + rr.max())
        G = V.T @ (f[:, None] * V)
        for a, b in ((0, 1), (0, 2), (1, 2)):
            c.close(G[a, b], x[a] * x[b], "they keep the products of inertia", tol=1e-9, scale=1 + rr.max() ** 2)
    else:
        g, _ = derived(c, "cylinder_density_realizability_proof.py")
        c.seen("the cylinder's proof runs through")
        if g.get("P") is None:
            return
        r = np.exp(rng.normal())
        x = np.append(rng.normal(size=2), r * rng.uniform(-1, 1))
        got = np.array(g["P"].subs(dict(zip(("rz", "px", "py", "pz"), np.append(r, x)))).tolist(), dtype=float)
        y = np.append(x, 1)
        want = np.outer(y, y)
        want[2, 2] = r**2
        c.close(got, want, "masses on the two disks keep all but the axial moment", tol=1e-9, scale=1 + (y**2).max() + r**2)


def numbers(text, label, n):
    """The numbers printed after a label."""
    k = text.index(label) + len(label)
    return np.array([float(t) for t in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", text[k:])[:n]])


@P.group(quick=16, thorough=80, cpu=300)
def examples(c, rng, i):
    """Examples print what the library says of the bodies they name."""
    k = i % 5
    if k < 3:
        name, h = [("box_shell", (1, 0.75, 0.5)), ("box_wireframe", None), ("ellipsoid_shell", (1, 0.75, 0.5))][k]
        seen = []
        real = {}
        # the body is the one the script built
        for cls in (rg.Box, rg.Ellipsoid):
            real[cls] = cls.__init__

            def init(self, *a, _f=cls.__init__, **kw):
                _f(self, *a, **kw)
                seen.append(self)

            cls.__init__ = init
        try:
            _, text = c.call(run, f"examples/{name}_inertia_monte_carlo.py")
        finally:
            for cls, f in real.items():
                cls.__init__ = f
        c.check(len(seen) > 0, "a body is built")
        s = next(s for s in seen if isinstance(s, rg.Ellipsoid if k == 2 else rg.Box))
        h = np.array(s.half_extents, dtype=float)
        c.say(example=name, h=h)
        S, A, E = (numbers(text, l, 9).reshape(3, 3) for l in ("Sampled I =", "Analytical I =", "Error ="))
        W = {0: sides, 1: wires, 2: skin}[k](*h)
        c.close(A, np.trace(W) * np.eye(3) - W, "analytical inertia", tol=2e-6, scale=1)
        c.close(E, A - S, "error is the difference", tol=3e-6, scale=1)
        # the sampled inertia is that of the points on the surface or edges
        T = W
        if k == 2:
            T = surface(h)
        T = np.trace(T) * np.eye(3) - T
        c.close(S, T, "sampled inertia", tol=6 * 2 / np.sqrt(1e5), scale=max(1.0, np.max(h) ** 2))
    elif k == 3:
        _, text = c.call(run, "examples/cuboid_extremal_ellipsoids.py")
        h, o, n = (numbers(text, l, 3) for l in ("Box half extents =", "Bounding ellipsoid half extents =", "Inscribed ellipsoid half extents ="))
        c.close(np.sort(o), np.sort(h) * np.sqrt(3), "bounding ellipsoid", tol=1e-4)
        c.close(np.sort(n), np.sort(h), "inscribed ellipsoid", tol=1e-4)
    else:
        plots = Plots()
        mpl = types.ModuleType("matplotlib")
        mpl.pyplot = plots
        c.call(run, "examples/ellipsoid_sampling.py", modules={"matplotlib": mpl, "matplotlib.pyplot": plots})
        c.check(len(plots.points) == 2, "two plots", got=len(plots.points))
        vol, sur = plots.points
        e = lambda X: np.sum((X / [1, 0.5]) ** 2, axis=1)
        c.check(np.all(e(vol) <= 1 + 1e-9) and len(vol) == 10000, "plotted points are inside", n=len(vol))
        c.check(np.all(np.abs(e(sur) - 1) < 1e-9) and len(sur) == 1000, "plotted points are on the surface", n=len(sur))
        # the share of the area within half the size is a quarter
        f = np.mean(e(vol) <= 0.25)
        c.check(abs(f - 0.25) < 6 * np.sqrt(0.25 * 0.75 / len(vol)), "plotted points fill the area evenly", got=f)


def surface(h, n=400):
    """Second moments of the unit-mass surface of an ellipsoid (quadrature)."""
    x, w = np.polynomial.legendre.leggauss(n)
    th = np.linspace(0, 2 * np.pi, n, endpoint=False)
    z, t = np.meshgrid(x, th, indexing="ij")
    s = np.sqrt(1 - z**2)
    U = np.stack((s * np.cos(t), s * np.sin(t), z), axis=-1)
    area = np.linalg.norm(U / h, axis=-1) * w[:, None]
    X = U * h
    return np.einsum("ij,ija,ijb->ab", area, X, X) / area.sum()


def experiment(c):
    bar = types.ModuleType("tqdm")
    bar.trange = range
    bar.tqdm = lambda it, *a, **k: it
    bar.__spec__ = None
    g, _ = c.call(run, "experiments/generate_drip_data.py", name="drip", modules={"tqdm": bar})
    return g


@contextlib.contextmanager
def asked():
    """The names of the kinds of shapes whose constraints are asked for."""
    names, undo = [], []
    for cls in (rg.Box, rg.Cylinder):
        real = cls.moment_custom_vertex_constraints

        def spy(self, *a, _real=real, **k):
            names.append(type(self).__name__)
            return _real(self, *a, **k)

        undo.append((cls, cls.__dict__.get("moment_custom_vertex_constraints")))
        cls.moment_custom_vertex_constraints = spy
    try:
        yield names
    finally:
        for cls, old in undo:
            if old is None:
                del cls.moment_custom_vertex_constraints
            else:
                cls.moment_custom_vertex_constraints = old


@contextlib.contextmanager
def licensed():
    """The solver that the experiment asks for has no licence here. Yields the
    statuses that the stand-ins reached."""
    real = cp.Problem.solve
    seen = []

    def direct(self, *a, **k):
        cp.Problem.solve = real  # which the stand-in itself calls
        seen.append("none")
        try:
            v = cvx.solve(self)[1]
            seen[-1] = self.status
            return v
        finally:
            cp.Problem.solve = direct

    cp.Problem.solve = direct
    try:
        yield seen
    finally:
        cp.Problem.solve = real


def answered(c, seen, f):
    """The experiment insists on optimal solutions."""
    try:
        return f()
    except Inconclusive:
        raise
    except Exception as e:
        if isinstance(e, AssertionError) and seen and seen[-1] != "optimal":
            raise Inconclusive("the solver gave up")
        c.call(reraise, e)


def reraise(e):
    raise e


@P.group(quick=8, thorough=40, cpu=600)
def pipeline(c, rng, i):
    """From the command line: the experiment writes a file that its summary reads."""
    shape, n = ["box", "cylinder"][i % 2], 1 + i // 2 % 3
    c.say(shape=shape, n=n, i=i)
    bar = types.ModuleType("tqdm")
    bar.trange = range
    bar.tqdm = lambda it, *a, **k: it
    out = io.StringIO()
    with surroundings(modules={"tqdm": bar}, argv=[shape, "-n", str(n)]) as d:
        t = time.time()
        with asked() as kinds, licensed() as seen, contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            answered(c, seen, lambda: runpy.run_path(os.path.join(SCRIPTS, "experiments/generate_drip_data.py"), run_name="__main__"))
        t = time.time() - t
        c.check(kinds and kinds[0].lower() == shape, "the shape that was asked for", got=kinds)
        fs = [f for f in os.listdir(d) if f.endswith(".npz")]
        if not c.check(len(fs) == 1 and fs[0].startswith(shape) and fs[0] in out.getvalue(), "one file of the data, whose name is printed", got=fs, text=out.getvalue()):
            return
        rec = dict(np.load(os.path.join(d, fs[0])))
        sys.argv = ["script", fs[0]]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(SCRIPTS, "experiments/process_drip_data.py"), run_name="__main__")
    c.check(all(np.shape(v) == (n,) for v in rec.values()) and len(rec) == 6, "as many examples as asked for", got={k: np.shape(v) for k, v in rec.items()})
    c.check(sum(np.sum(v) for k, v in rec.items() if k.endswith("times")) <= t + 1, "no longer than it took", **rec)
    d2, d3, cu = (rec[k + "_values"] for k in ("moment_d2", "moment_d3", "custom"))
    sc = 1e-3 * (1 + np.abs(cu).max())
    c.check(np.all(d3 <= d2 + sc) and np.all(cu <= d3 + sc), "tighter constraints give smaller values", **rec)
    c.close(numbers(out.getvalue(), "moment (d=2) - custom:", 1)[0], np.max(d2 - cu), "the summary is of that file", tol=1e-9)


def members(rng, kind, s, n=4000):
    """Points of a box or cylinder at the origin, many at the boundary."""
    if kind == "box":
        U = np.clip(rng.uniform(-1.6, 1.6, size=(n, 3)), -1, 1)
        X = U * s["half_extents"]
    else:
        r = np.minimum(1, np.sqrt(rng.uniform(0, 2, n))) * s["radius"]
        t = rng.uniform(0, 2 * np.pi, n)
        X = np.column_stack((r * np.cos(t), r * np.sin(t), np.clip(rng.uniform(-1.6, 1.6, n), -1, 1) * s["length"] / 2))
    return X


def best(X, D):
    Z = np.column_stack((X, np.ones(len(X))))
    return np.max(np.einsum("ij,jk,ik->i", Z, D, Z))


def placed(rng, size=1.0):
    kind = str(rng.choice(["box", "cylinder"]))
    if kind == "box":
        kw = dict(half_extents=rng.uniform(0.3, 1.5, size=3))
        s = rg.Box(**kw)
    else:
        kw = dict(radius=rng.uniform(0.3, 1.5), length=rng.uniform(0.3, 2))
        s = rg.Cylinder(**kw)
    X = members(rng, kind, kw)
    if rng.random() < 0.5:
        R, t = gen.rot(rng, 3), rng.normal(size=3)
        s, X = s.transform(rotation=R, translation=t), X @ R.T + t
    return kind, kw, s, X


@P.group(quick=24, thorough=400, cpu=300)
def drip(c, rng, i):
    """The experiment's problem: the largest tr(DJ) over bodies of a mass."""
    g = experiment(c)
    if not callable(g.get("setup_drip_problem")):  # internal: the whole program is judged below
        c.seen("the experiment is organized differently")
        return
    kind, kw, s, X = placed(rng)
    m = float(rng.choice([1.0, 0.5, 3.0]))
    c.say(kind=kind, mass=m, **kw)
    probs = [c.call(g["setup_drip_problem"], m, f, **k) for f, k in ((s.moment_sdp_constraints, dict(d=2)), (s.moment_custom_vertex_constraints, {}))]
    done = 0
    for _ in range(4):
        D = rng.uniform(-1, 1, size=(4, 4))
        D = D + D.T
        sc = m * np.abs(D).max() * (1 + np.abs(X).max() ** 2)
        vals = []
        for p, par in probs:
            par.value = D
            try:
                st, v = cvx.solve(p)
            except Inconclusive:
                break
            c.check(st != "infeasible" and st != "unbounded", "there is a largest value", got=st)
            vals.append(v)
        if len(vals) < 2:
            continue
        done += 1
        low = m * best(X, D)
        c.check(min(vals) >= low - 1e-4 * sc, "no realizable body is excluded", got=vals, reached=low)
        c.check(vals[1] <= vals[0] + 1e-4 * sc, "the specialized constraints are at least as tight", got=vals)
    if done == 0:
        raise Inconclusive("the solver gave up")


@P.group(quick=8, thorough=48, cpu=600)
def data(c, rng, i):
    """Data recorded by the experiment, and its summary."""
    g = experiment(c)
    if not callable(g.get("random_optimal_values")):
        c.seen("the experiment is organized differently")
        return
    kind, kw, s, X = placed(rng)
    n = int(rng.integers(1, 4))
    c.say(kind=kind, n=n, **kw)
    t = time.time()
    with licensed() as seen, contextlib.redirect_stderr(io.StringIO()):
        d = answered(c, seen, lambda: g["random_optimal_values"](s, n))
    names = [f"{k}_{w}" for k in ("moment_d2", "moment_d3", "custom") for w in ("values", "times")]
    c.check(sorted(d) == sorted(names) and all(np.shape(d[k]) == (n,) for k in names), "one number per problem", got={k: np.shape(v) for k, v in d.items()})
    c.check(all(np.all(d[k] > 0) for k in names if k.endswith("times")), "times are positive")
    c.check(sum(np.sum(v) for k, v in d.items() if k.endswith("times")) <= time.time() - t + 1, "no longer than it took", **d)
    d2, d3, cu = (d[k + "_values"] for k in ("moment_d2", "moment_d3", "custom"))
    sc = 1e-4 * (1 + np.abs(X).max() ** 2)
    c.check(np.all(d3 <= d2 + sc), "higher orders are at least as tight", d2=d2, d3=d3)
    c.check(np.all(cu <= d3 + sc), "the specialized constraints are at least as tight", custom=cu, d3=d3)
    # the objectives are those of a generator seeded with zero
    q = np.random.default_rng(0)
    J, par = cp.Variable((4, 4), PSD=True), cp.Parameter((4, 4), symmetric=True)
    own = [
        cp.Problem(cp.Maximize(cp.trace(par @ J)), [J[3, 3] == 1] + f(J, **kw))
        for f, kw in ((s.moment_sdp_constraints, dict(d=2)), (s.moment_sdp_constraints, dict(d=3)), (s.moment_custom_vertex_constraints, {}))
    ]
    for k in range(n):
        D = np.zeros((4, 4))
        D[np.triu_indices(4)] = q.uniform(-1, 1, size=10)
        D = D + np.triu(D, 1).T
        low = best(X, D)
        c.check(cu[k] >= low - 1e-4 * (1 + np.abs(X).max() ** 2), "no realizable body is excluded", got=cu[k], reached=low)
        par.value = D
        for pr, v, what in zip(own, (d2, d3, cu), ("d=2", "d=3", "custom")):
            try:
                st, want = cvx.solve(pr, (cp.CLARABEL,))
            except Inconclusive:
                continue
            c.check(abs(v[k] - want) <= 1e-3 * (1 + np.abs(X).max() ** 2), "the largest value under these constraints", kind=what, got=v[k], want=want)


@P.group(quick=40, thorough=800)
def summary(c, rng, i):
    """The summary of recorded data."""
    n = int(rng.integers(1, 30))
    d = {f"{k}_values": rng.normal(size=n) for k in ("moment_d2", "moment_d3", "custom")}
    d |= {f"{k}_times": rng.uniform(0.001, 0.1, size=n) for k in ("moment_d2", "moment_d3", "custom")}
    c.say(n=n)
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "data.npz")
        np.savez(f, **d)
        _, text = c.call(run, "experiments/process_drip_data.py", argv=[f])
    top, low = text.split("Min difference")
    for part, fn, tag in ((top, np.max, "largest difference"), (low, np.min, "smallest difference")):
        for k in (2, 3):
            c.close(numbers(part, f"moment (d={k}) - custom:", 1)[0], fn(d[f"moment_d{k}_values"] - d["custom_values"]), tag, tol=1e-9)
    for lab, k in (("moment d=2:", "moment_d2"), ("moment d=3:", "moment_d3"), ("custom:", "custom")):
        c.close(numbers(low.split("Average")[1], lab, 1)[0], 1000 * d[k + "_times"].mean(), "average time", tol=1e-9, scale=100)
