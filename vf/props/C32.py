import time

import numpy as np
import cvxpy as cp
import rigeo as rg
from scipy.optimize import nnls
from .. import gen, hooks, model as M, realize
from ..core import Inconclusive, Prop
from .C24 import part_maximum

P = Prop(
    "C32",
    rule="one case = one to three bodies of mixed shapes, simulated motions and wrenches (exact or noisy), one choice of weighting, "
    "regularization, threshold and center-of-mass bounds; non-trivial if an identified parameter set was judged",
    technique="runtime monitoring: the result of each identification run is compared with the parameters that generated the data, "
    "with an independent evaluation of its objective, with the constraints evaluated on the result, and with first-order optimality "
    "against realizable bodies drawn independently",
    note="parameters to 1e-4 of their size; constraints to 1e-5; optimality to 1e-4 of the slope times the distance",
    assumptions=["Clarabel solves the programs; cases on which it does not reach an optimum are counted as inconclusive"],
)
KINDS = ["box", "poly", "cylinder", "ellipsoid"]


def _mods():
    from rigeo.unused import identify

    return identify


def vec(ms, Q):
    """The ten parameters of point masses, from their definition."""
    J = gen.pim(ms, Q)
    H = J[:3, :3]
    I = np.trace(H) * np.eye(3) - H
    return np.concatenate(([J[3, 3]], J[:3, 3], I[np.triu_indices(3)]))


BASIS = None


def pim(t):
    I = np.zeros((3, 3))
    I[np.triu_indices(3)] = t[4:]
    I = I + np.triu(I, 1).T
    J = np.zeros((4, 4))
    J[:3, :3] = 0.5 * np.trace(I) * np.eye(3) - I
    J[:3, 3] = J[3, :3] = t[1:4]
    J[3, 3] = t[0]
    return J


def adjoint_slope(G):
    """d<G, pim(t)>/dt."""
    return np.array([np.sum(G * pim(e)) for e in np.eye(10)])


class Case:
    def __init__(self, rng, nb=None, kinds=KINDS):
        self.bodies, self.models, self.true, self.nominal, self.masses = [], [], [], [], []
        for _ in range(nb or int(rng.choice([1, 1, 2, 3]))):
            parts = []
            for _ in range(1 if rng.random() < 0.75 else 2):
                while True:
                    lib, m = realize._k(rng, list(kinds), False)
                    if not realize.thin(m) and np.abs(np.array(m.bbox())).max() < 4 and m.rank() == 3:
                        break
                parts.append((lib, m))
            ms = [m for _, m in parts]
            X = np.vstack([m.inside(rng, 8) for m in ms] + [m.boundary(rng, 4) for m in ms])
            w = rng.uniform(0.2, 1, len(X)) * rng.choice([0.3, 1.0, 5.0]) / len(X)
            Y = np.vstack([m.inside(rng, 8) for m in ms])
            nom = (rng.uniform(0.2, 1, len(Y)) * 2 / len(Y), Y)
            libs = [l for l, _ in parts]
            body = rg.RigidBody(libs if len(libs) > 1 or rng.random() < 0.5 else libs[0], rg.InertialParameters.from_point_masses(*nom))
            self.bodies.append(body)
            self.models.append(ms)
            self.true.append(vec(w, X))
            self.masses.append((w, X))
            self.nominal.append(vec(*nom))
        self.n = int(rng.integers(6, 13))
        As = []
        for _ in range(self.n):
            row = []
            for b in self.bodies:
                V, A = [rg.SV(*rng.normal(size=(2, 3)) * 1.5) for _ in range(2)]
                row.append(b.regressor(V, A))
            As.append(np.hstack(row))
        self.As = np.array(As)
        self.t = np.concatenate(self.true)
        self.bs = np.array([A @ self.t for A in self.As])
        self.S = None
        if rng.random() < 0.5:
            G = rng.normal(size=(6, 6))
            self.S = G @ G.T / 6 + np.diag(rng.uniform(0.2, 2, 6))

    def describe(self):
        return dict(models=[[repr(vars(m)) if not isinstance(m, M.Poly) else repr(m.V.tolist()) for m in ms] for ms in self.models], true=self.t, n=self.n, S=self.S)

    def W(self):
        return np.eye(6) if self.S is None else np.linalg.inv(self.S)

    def cost(self, t, gamma=0.0):
        f = 0.0
        for A, b in zip(self.As, self.bs):
            e = A @ t - b
            f += 0.5 / self.n * e @ self.W() @ e
        return f + gamma * self.entropy(t) if gamma else f

    def entropy(self, t):
        f = 0.0
        for k, t0 in enumerate(self.nominal):
            J = pim(t[10 * k : 10 * k + 10])
            f += -np.linalg.slogdet(J)[1] + np.trace(np.linalg.solve(pim(t0), J))
        return f

    def slope(self, t, gamma=0.0):
        g = np.zeros(len(t))
        for A, b in zip(self.As, self.bs):
            g += 1 / self.n * A.T @ self.W() @ (A @ t - b)
        if gamma:
            for k, t0 in enumerate(self.nominal):
                s = slice(10 * k, 10 * k + 10)
                g[s] += gamma * adjoint_slope(np.linalg.inv(pim(t0)) - np.linalg.inv(pim(t[s])))
        return g


def solve(c, f):
    """Run an identification; only definite optima are judged."""
    hooks.SOLVES.clear()
    t = time.time()
    try:
        res = f()
    except AssertionError as e:
        if hooks.SOLVES and hooks.SOLVES[-1][1] != "optimal":
            raise Inconclusive(str(e))
        c.call(_reraise, e)
    except cp.error.SolverError as e:
        raise Inconclusive(str(e))
    except Exception as e:
        c.call(_reraise, e)
    t = time.time() - t
    c.check(0 <= res.solve_time <= t + 1, "solving took no longer than the call", got=res.solve_time, call=t)
    return res


def _reraise(e):
    raise e


def result(c, res, cs):
    """The parameter vector of a result, in the order of the bodies."""
    c.check(len(res.params) == len(cs.bodies), "one parameter set per body", got=len(res.params))
    t = np.concatenate([np.asarray(p.vec, float) for p in res.params])
    c.check(t.shape == cs.t.shape and np.all(np.isfinite(t)), "finite parameters", got=t)
    return t


def com_bounds(c, rng, cs):
    """Shapes that contain the true and the nominal centers of mass."""
    libs, models = [], []
    for t, t0 in zip(cs.true, cs.nominal):
        x, x0 = t[1:4] / t[0], t0[1:4] / t0[0]
        m = 0.5 * (x + x0)
        h = np.abs(x - x0) / 2 * rng.uniform(1.05, 3) + 0.02
        R = np.eye(3)
        if rng.random() < 0.5:
            R = gen.rot(rng, 3)
            h = np.abs(R.T @ (x - x0)) / 2 * rng.uniform(1.05, 3) + 0.02
        if rng.random() < 0.5:
            libs.append(rg.Box(h, rotation=R, center=m))
            models.append(M.BoxM(h, R, m))
        else:
            h = h * np.sqrt(3)
            libs.append(rg.Ellipsoid(h, rotation=R, center=m))
            models.append(M.Ell(h, R, m))
    return libs, models


def feasible(c, rng, cs, t, eps, must, bounds):
    for k, ms in enumerate(cs.models):
        J = pim(t[10 * k : 10 * k + 10])
        size = max(np.linalg.norm(J), 1.0)
        c.check(np.linalg.eigvalsh(J)[0] >= eps - 1e-5 * size, "smallest eigenvalue at least the threshold", got=np.linalg.eigvalsh(J), eps=eps)
        if bounds is not None:
            v = bounds[k].viol(J[None, :3, 3] / J[3, 3])[0] * J[3, 3]
            c.check(v <= 1e-4 * size, "center of mass within its bounds", got=J[:3, 3] / J[3, 3], viol=v)
        if must:
            # centers of mass in the hull of the parts, in many directions
            U = gen.unit(rng, 30, 3)
            s = np.max([m.support(U) for m in ms], axis=0)
            c.check(np.all(U @ J[:3, 3] <= J[3, 3] * s + 1e-4 * size), "center of mass within the shape", com=J[:3, 3] / J[3, 3])
            # no second moment beyond the farthest point of the parts from any origin
            for _ in range(4):
                x0 = rng.normal(size=3) * rng.choice([0, 1, 3])
                far = max(max(np.linalg.norm(m.boundary(rng, 300) - x0, axis=1).max(), _corner(m, x0)) for m in ms)
                q = np.trace(J[:3, :3]) - 2 * x0 @ J[:3, 3] + x0 @ x0 * J[3, 3]
                c.check(q <= far**2 * J[3, 3] * 1.05 + 1e-4 * size, "second moment within reach of the shape", got=q / J[3, 3], want=far**2)
            if rng.random() < 0.25:
                C = rng.normal(size=(4, 4))
                C[:3, :3] -= rng.uniform(0, 3) * np.eye(3)
                C = C + C.T
                cache = {}
                try:
                    lim = max(part_maximum(m, C, 2, cache) for m in ms)
                except Inconclusive:
                    continue
                if np.isfinite(lim):
                    c.check(np.sum(C * J) <= lim * J[3, 3] + 1e-3 * size * np.linalg.norm(C), "result satisfies the moment relaxation", got=np.sum(C * J), lim=lim)


def _corner(m, x0):
    U = gen.unit(np.random.default_rng(0), 200, 3)
    return np.linalg.norm(m.support_point(U) - x0, axis=1).max()


def candidates(rng, cs, eps, bounds, n=12):
    """Feasible parameter vectors, drawn independently of the library."""
    out = []
    for _ in range(n):
        t = []
        for k, ms in enumerate(cs.models):
            for _ in range(20):
                if rng.random() < 0.3:
                    x = cs.true[k] * rng.choice([0.5, 1.0, 2.0])
                elif rng.random() < 0.3:
                    x = cs.nominal[k] * rng.choice([0.5, 1.0, 2.0])
                else:
                    x = vec(*realize.body_in(rng, ms, str(rng.choice(["inside", "boundary", "extreme", "one"]))))
                    x = 0.5 * x + 0.5 * cs.nominal[k] if eps else x
                J = pim(x)
                if np.linalg.eigvalsh(J)[0] < eps * 1.001:
                    x = x * 4
                    J = pim(x)
                if np.linalg.eigvalsh(J)[0] >= eps * (1 - 1e-9) - 1e-12 and (bounds is None or bounds[k].viol(J[None, :3, 3] / J[3, 3])[0] <= 0):
                    t.append(x)
                    break
            else:
                break
        if len(t) == len(cs.models):
            out.append(np.concatenate(t))
    return out


def optimal(c, rng, cs, t, gamma, eps, bounds, must):
    f, g, g0 = cs.cost(t, gamma), cs.slope(t, gamma), cs.slope(t)
    Z = candidates(rng, cs, eps, bounds)
    if gamma:
        Z.append(np.concatenate(cs.nominal))
    if not bounds and not eps and not gamma:
        Z += [t * 1.3, t * 0.7, t * 1e-9]  # the feasible set is a cone
    for z in Z:
        d = z - t
        s = g @ d
        # (size of the terms that cancel in the slope)
        mag = 3e-4 * (abs(f) + np.linalg.norm(g0) * np.linalg.norm(d))
        if gamma:
            for k, t0 in enumerate(cs.nominal):
                q = slice(10 * k, 10 * k + 10)
                mag += 1e-3 * gamma * (8 + np.trace(np.linalg.solve(pim(t0), pim(z[q]))) + np.trace(np.linalg.solve(pim(t[q]), pim(z[q]))))
        c.check(s >= -mag - 1e-5 * (1 + np.linalg.norm(d)), "no realizable body improves the objective", slope=s, at=z, got=t)
        if cs.cost(z, 0) < np.inf and (not gamma or np.linalg.eigvalsh(pim(z[:10]))[0] > 1e-9):
            fz = cs.cost(z, gamma)
            c.check(not np.isfinite(fz) or f <= fz + 1e-5 * (1 + abs(fz)), "objective is minimal", got=f, other=fz)


@P.group(quick=96, thorough=1600, cpu=200)
def exact(c, rng, i):
    """Exact data: the true parameters come back."""
    I = _mods()
    cs = Case(rng)
    must, com = bool(rng.random() < 0.7), bool(rng.random() < 0.5)
    if not must:  # also bodies that their shapes cannot realize
        cs.true = [vec(w, X + rng.normal(size=3) * rng.choice([0, 3, 8])) for w, X in cs.masses]
        cs.t = np.concatenate(cs.true)
        cs.bs = np.array([A @ cs.t for A in cs.As])
    bl, bm = com_bounds(c, rng, cs) if com else (None, None)
    Js = [pim(t) for t in cs.true]
    eps = 0 if rng.random() < 0.6 else 0.3 * min(np.linalg.eigvalsh(J)[0] for J in Js)
    c.say(must=must, com=com, eps=eps, **cs.describe())
    if np.linalg.cond(np.vstack(cs.As)) > 300:
        raise Inconclusive("poorly excited motion")
    pr = c.call(I.IdentificationProblem, cs.As, cs.bs, Σ=cs.S, ε=eps)
    res = solve(c, lambda: pr.solve(cs.bodies, must_realize=must, com_bounding_shapes=bl))
    t = result(c, res, cs)
    c.check(np.linalg.norm(t - cs.t) <= 1e-3 * np.linalg.norm(cs.t), "true parameters recovered from exact data", got=t, want=cs.t)
    c.check(abs(res.objective) <= 1e-5 * (1 + np.linalg.norm(cs.t)) ** 2, "objective vanishes on exact data", got=res.objective)
    c.check(res.iters >= 1 and res.solve_time >= 0, "statistics reported", iters=res.iters, time=res.solve_time)
    if hasattr(pr, "problem"):
        c.check(pr.problem.status == "optimal", "the solved problem can be inspected")
    else:
        c.check(False, "the solved problem can be inspected")


@P.group(quick=96, thorough=1600, cpu=200)
def noisy(c, rng, i):
    """Noisy data: the answer is realizable and no realizable body does better."""
    I = _mods()
    cs = Case(rng)
    k = i % 4
    cs.bs = cs.bs + rng.normal(size=cs.bs.shape) * rng.choice([0.01, 0.1, 1.0]) * np.abs(cs.bs).mean()
    if k == 1:  # wrenches of some other, unrealizable parameters
        cs.bs = np.array([A @ (rng.normal(size=len(cs.t)) * np.linalg.norm(cs.t) / 2) for A in cs.As])
    elif k == 2:  # a body shifted out of its shape
        u = []
        for t, b in zip(cs.true, cs.bodies):
            J, s = pim(t), rng.normal(size=3) * 1.5
            T = np.eye(4)
            T[:3, 3] = s
            J = T @ J @ T.T
            H = J[:3, :3]
            G = np.trace(H) * np.eye(3) - H
            u.append(np.concatenate(([J[3, 3]], J[:3, 3], G[np.triu_indices(3)])))
        cs.bs = np.array([A @ np.concatenate(u) for A in cs.As])
    must, com = bool(rng.random() < 0.75), bool(rng.random() < 0.5)
    bl, bm = com_bounds(c, rng, cs) if com else (None, None)
    eps = 0 if rng.random() < 0.6 else float(rng.choice([0.001, 0.01]))
    c.say(kind=k, must=must, com=com, eps=eps, bs=cs.bs, As=cs.As, **cs.describe())
    pr = c.call(I.IdentificationProblem, cs.As, cs.bs, Σ=cs.S, ε=eps)
    res = solve(c, lambda: pr.solve(cs.bodies, must_realize=must, com_bounding_shapes=bl))
    t = result(c, res, cs)
    f = cs.cost(t)
    c.check(abs(res.objective - f) <= 1e-5 * (1 + abs(f)), "objective is the weighted squared error", got=res.objective, want=f)
    feasible(c, rng, cs, t, eps, must, bm)
    optimal(c, rng, cs, t, 0.0, eps, bm, must)


@P.group(quick=64, thorough=1000, cpu=240)
def regularized(c, rng, i):
    """The entropic term pulls towards the nominal parameters."""
    I = _mods()
    cs = Case(rng)
    cs.bs = cs.bs + rng.normal(size=cs.bs.shape) * rng.choice([0.01, 0.1]) * np.abs(cs.bs).mean()
    gamma = float(rng.choice([1e-3, 1e-2, 0.1, 1.0])) if i % 4 else 1e4
    must, com = bool(rng.random() < 0.7), bool(rng.random() < 0.4)
    bl, bm = com_bounds(c, rng, cs) if com else (None, None)
    c.say(gamma=gamma, must=must, com=com, nominal=cs.nominal, **cs.describe())
    pr = c.call(I.IdentificationProblem, cs.As, cs.bs, Σ=cs.S, γ=gamma)
    res = solve(c, lambda: pr.solve(cs.bodies, must_realize=must, com_bounding_shapes=bl))
    t = result(c, res, cs)
    feasible(c, rng, cs, t, 0, must, bm)
    f = cs.cost(t, gamma)
    c.check(abs(res.objective - f) <= 1e-4 * (1 + abs(f)), "objective is error plus entropic term", got=res.objective, want=f)
    optimal(c, rng, cs, t, gamma, 0, bm, must)


@P.group(quick=64, thorough=1000, cpu=200)
def discretized(c, rng, i):
    """Masses at given points: the optimum of a non-negative least squares problem."""
    I = _mods()
    cs = Case(rng, nb=1)
    ms = cs.models[0]
    X = np.vstack([m.boundary(rng, int(rng.integers(3, 12))) for m in ms])
    if rng.random() < 0.3:
        X = X[:3]
    B = np.array([vec(np.ones(1), x[None]) for x in X]).T
    exact_data = bool(rng.random() < 0.4)
    if exact_data:
        mu = rng.uniform(0, 1, len(X)) * (rng.random(len(X)) < 0.7)
        cs.t = B @ mu
        cs.bs = np.array([A @ cs.t for A in cs.As])
    else:
        cs.bs = cs.bs + rng.normal(size=cs.bs.shape) * rng.choice([0.01, 0.3]) * np.abs(cs.bs).mean()
    com = bool(rng.random() < 0.5)
    lib = mod = None
    if com:
        j, l = rng.choice(len(X), 2, replace=False)
        x, h = 0.5 * (X[j] + X[l]), np.abs(X[j] - X[l]) / 4 + 0.05
        if exact_data and cs.t[0] > 0:
            x = cs.t[1:4] / cs.t[0]
        if rng.random() < 0.5:
            lib, mod = rg.Box(h, center=x), M.BoxM(h, None, x)
        else:
            lib, mod = rg.Ellipsoid(h, center=x), M.Ell(h, None, x)
    L = np.linalg.cholesky(cs.W()).T / np.sqrt(cs.n)
    A1 = np.vstack([L @ A @ B for A in cs.As])
    b1 = np.concatenate([L @ b for b in cs.bs])
    w, r = nnls(A1, b1, maxiter=5000)
    eps = 0.0
    if i % 4 == 3 and len(X) >= 6:
        eps = float(rng.choice([0.001, 0.01]))
        if i % 8 == 3:  # more than the best masses have
            eps = max(eps, np.linalg.eigvalsh(pim(B @ w))[0] * rng.uniform(1.3, 3))
    c.say(X=X, exact=exact_data, com=com, eps=eps, bs=cs.bs, As=cs.As, **cs.describe())
    pr = c.call(I.DiscretizedIdentificationProblem, cs.As, cs.bs, Σ=cs.S, ε=eps)
    pts = X if rng.random() < 0.6 else [x for x in X]
    res = solve(c, lambda: pr.solve(pts, com_bounding_shape=lib))
    t = result(c, res, cs)
    J = pim(t)
    size = max(np.linalg.norm(J), 1.0)
    # a combination of masses at the points
    S = np.array([np.outer(np.append(x, 1), np.append(x, 1))[np.triu_indices(4)] for x in X]).T
    _, far = nnls(S, J[np.triu_indices(4)], maxiter=5000)
    c.check(far <= 1e-4 * size, "result is made of masses at the points", got=J, distance=far)
    c.check(np.linalg.eigvalsh(J)[0] >= eps - 1e-5 * size, "smallest eigenvalue at least the threshold", got=np.linalg.eigvalsh(J), eps=eps)
    f = cs.cost(t)
    c.check(abs(res.objective - f) <= 1e-5 * (1 + f), "objective is the weighted squared error", got=res.objective, want=f)
    want = 0.5 * r**2
    c.check(f >= want - 1e-5 * (1 + want), "no better than the best masses", got=f, want=want)
    free = B @ w
    inside = not com or (free[0] > 1e-9 and mod.viol(free[None, 1:4] / free[0])[0] <= 0)
    if inside and (not eps or np.linalg.eigvalsh(pim(free))[0] >= eps):
        c.check(f <= want + 1e-5 * (1 + want), "as good as the best masses", got=f, want=want)
    if com and J[3, 3] > 1e-3:
        v = mod.viol(J[None, :3, 3] / J[3, 3])[0] * J[3, 3]
        c.check(v <= 1e-4 * size, "center of mass within its bounds", got=J[:3, 3] / J[3, 3])


@P.group(quick=200, thorough=6000, cpu=60)
def objectives(c, rng, i):
    """The objective terms as functions."""
    I = _mods()
    nb, n, m = int(rng.integers(1, 4)), int(rng.integers(1, 8)) if i % 8 else int(rng.integers(8, 120)), int(rng.choice([1, 3, 6]))
    if i % 9 == 0:
        nb = int(rng.integers(4, 9))
    As, bs = rng.normal(size=(n, m, 10 * nb)), rng.normal(size=(n, m))
    W = None
    if rng.random() < 0.6:
        G = rng.normal(size=(m, m))
        W = G @ G.T + 0.1 * np.eye(m)
    xs = rng.normal(size=(nb, 10))
    vs = [cp.Variable(10) for _ in range(nb)]
    for v, x in zip(vs, xs):
        v.value = x
    lists = bool(rng.random() < 0.4)
    c.say(nb=nb, n=n, m=m, As=As, bs=bs, W=W, xs=xs, lists=lists)
    e = c.call(I.least_squares_objective, vs, list(As) if lists else As, list(bs) if lists else bs, W0=W)
    x = xs.ravel()
    want = sum((A @ x - b) @ (np.eye(m) if W is None else W) @ (A @ x - b) for A, b in zip(As, bs))
    c.check(abs(float(e.value) - want) <= 1e-9 * (1 + want), "sum of weighted squared errors", got=e.value, want=want)
    c.check(e.is_convex() and e.is_dcp(), "least squares term is convex")
    Js, J0s = [], []
    for _ in range(nb):
        Js.append(pim(vec(rng.uniform(0.1, 2, 8), rng.normal(size=(8, 3)))))
        J0s.append(pim(vec(rng.uniform(0.1, 2, 8), rng.normal(size=(8, 3)))))
    vs = [cp.Variable((4, 4), symmetric=True) for _ in Js]
    for v, J in zip(vs, Js):
        v.value = J
    want = sum(-np.log(np.linalg.det(J)) + np.trace(np.linalg.inv(J0) @ J) for J, J0 in zip(Js, J0s))
    one = nb == 1 and rng.random() < 0.6
    J0a = J0s[0] if one else (np.array(J0s) if rng.random() < 0.5 else J0s)
    e = c.call(I.entropic_regularizer, vs[0] if one else vs, J0a)
    c.check(abs(float(np.ravel(e.value)[0]) - want) <= 1e-7 * (1 + abs(want)), "entropic distance", got=e.value, want=want)
    c.check(e.is_convex() and e.is_dcp(), "entropic term is convex")
    # smallest at the nominal values
    for v, J in zip(vs, J0s):
        v.value = J
    at = float(np.ravel(e.value)[0])
    c.check(at <= want + 1e-9 * (1 + abs(want)), "entropic term is smallest at the nominal values", got=at, other=want)
