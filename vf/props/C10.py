import random

import numpy as np
import rigeo as rg
from .. import gen, hooks, model as M, sampling
from ..core import Prop

P = Prop(
    "C10",
    rule="one case = one sampler (shape interior, surface, edges, ball, hypersphere, rejection) with a random pose, "
    "sample shape and seed; non-trivial if the points drawn were judged by the reference set",
    technique="runtime monitoring: drawn points judged by reference sets; an instrumented generator counts draws and a "
    "global-random-state monitor watches every call",
    note="membership is judged by independent models; termination is bounded in draws from an instrumented generator, "
    "not in seconds; reproducibility is judged by running twice",
    assumptions=["sample shapes are a non-negative int or a tuple other than (1,)", "rejection acceptance is not below 1e-3"],
)

SHAPES = [1, 2, 5, 40, (7,), (2, 3), (4, 1), (1, 4), (2, 3, 4), (3, 1, 2), 129, (300,), (12, 30), 1000]


def gstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def want_shape(shape, d):
    if shape == 1:
        return (d,)
    return (shape, d) if np.isscalar(shape) else tuple(shape) + (d,)


def same_draws(a, b):
    return np.shape(a) == np.shape(b) and np.array_equal(a, b)


@P.group(quick=1400, thorough=40000)
def draws(c, rng, i):
    flat = bool(rng.random() < 0.2)
    s = sampling.sampler(rng, flat=flat)
    if i % 5 == 0:
        flat, s = False, sampling.extreme(rng, sampling.EXTREME[(i // 5) % len(sampling.EXTREME)]) if i % 25 else sampling.heavy(rng)
    if s.name.startswith("rejection") and s.fraction < 2e-3:
        return
    shape = SHAPES[int(rng.integers(len(SHAPES)))]
    seed = int(rng.integers(2**31)) if i % 3 else int(rng.choice([0, 0, 0, 1, 2, 3, 42]))
    c.say(sampler=s.name, flat=flat, shape=shape, seed=seed, model=s.model.params())
    g0 = gstate()
    R = hooks.CountingRNG(seed, max_calls=200000, max_values=20_000_000)
    try:
        X = s.fn(shape, rng=R)
    except hooks.DrawLimit as e:
        c.seen("terminates")
        c.fail("sampling does not end", drawn=str(e))
        return
    c.check(isinstance(X, np.ndarray) and X.shape == want_shape(shape, s.dim), "array has the sample shape", got=np.shape(X), want=want_shape(shape, s.dim), shape=shape)
    Y = np.reshape(X, (-1, s.dim))
    ok = np.isfinite(Y).all(axis=1)
    ok[ok] = s.member(Y[ok])
    c.check(ok.all(), "points are in the set", n=len(Y), p=Y[~ok][:1])
    c.check(R.calls > 0, "points come from the generator given", calls=R.calls)
    c.check(gstate() == g0, "global random state is untouched")
    # the same seed or state gives the same points
    A = s.fn(shape, rng=seed)
    np.random.seed(int(rng.integers(2**31)))
    random.seed(int(rng.integers(2**31)))
    B = s.fn(shape, rng=seed)
    c.check(same_draws(A, B), "same seed, same points", A=A, B=B)
    G1, G2 = np.random.default_rng(seed), np.random.default_rng(seed)
    C, D = s.fn(shape, rng=G1), s.fn(shape, rng=G2)
    c.check(same_draws(C, D), "same generator state, same points", C=C, D=D)
    c.check(same_draws(A, C), "a seed is the generator it seeds", A=A, C=C)
    c.check(G1.bit_generator.state == G2.bit_generator.state, "generators end in the same state")
    # the generator moves on
    if not (s.dim == 1 and s.name in ("sphere", "ellipsoid_surface_d")) and s.model.rank() > 0:
        E = s.fn(shape, rng=G1)
        c.check(not same_draws(C, E), "a generator is not restarted", C=C, E=E)
        F = s.fn(shape, rng=seed + 1)
        c.check(not same_draws(A, F), "another seed gives other points")
        c.check(not same_draws(s.fn(shape), s.fn(shape)), "no seed: fresh points every time")
    # copies of a generator in any bit generator
    if i % 4 == 0:
        K = np.random.Generator(np.random.MT19937(seed))
        L = np.random.Generator(np.random.MT19937(seed))
        c.check(same_draws(s.fn(shape, rng=K), s.fn(shape, rng=L)), "any bit generator")


@P.group(quick=120, thorough=2000)
def none_at_all(c, rng, i):
    """A sample shape with no points gives an empty array of that shape."""
    s = sampling.sampler(rng, flat=bool(rng.random() < 0.2))
    if s.name.startswith("rejection") and s.fraction < 2e-3:
        return
    shape = [0, (0,), (0, 3), (3, 0), (2, 0, 4)][i % 5]
    c.say(sampler=s.name, shape=shape, model=s.model.params())
    X = c.call(s.fn, shape, rng=int(rng.integers(2**31)))
    c.check(isinstance(X, np.ndarray) and X.shape == want_shape(shape, s.dim), "no points asked for, none drawn", got=np.shape(X), shape=shape)


@P.group(quick=200, thorough=5000)
def distinct(c, rng, i):
    """Points of one batch are separate draws."""
    flat = bool(rng.random() < 0.2)
    s = sampling.sampler(rng, flat=flat)
    if (s.name.startswith("rejection") and s.fraction < 2e-3) or s.model.rank() == 0 or (s.dim == 1 and s.name in ("sphere", "ellipsoid_surface_d")):
        return
    n = 60
    c.say(sampler=s.name, model=s.model.params())
    X = s.fn((n // 2, 2), rng=int(rng.integers(2**31))).reshape(-1, s.dim)
    D = np.max(np.abs(X[:, None] - X[None]), axis=2) + np.eye(len(X))
    c.check(D.min() > 1e-12, "no point is drawn twice", n=n, X=X[:4])


@P.group(quick=250, thorough=6000)
def rejection(c, rng, i):
    """Rejection sampling succeeds inside, or ends with a value error."""
    k = rng.choice(["disjoint", "thin", "empty", "rare"])
    seed = int(rng.integers(2**31))
    c.say(k=k, seed=seed)
    shape = SHAPES[int(rng.integers(len(SHAPES)))]
    B = rg.Box([1, 1, 1], center=gen.trans(rng, big=False), rotation=gen.rot(rng))
    tries = int(rng.choice([1, 3, 20, 100] if k != "rare" else [1, 20, 3000]))
    R = hooks.CountingRNG(seed, max_calls=60 * tries + 1000, max_values=60 * tries * 200 + 10**5)
    if k in ("disjoint", "thin", "empty"):
        if k == "disjoint":
            S = [rg.Ellipsoid.sphere(0.5, center=B.center + np.array([10.0, 0, 0])), rg.Box([1, 1, 1], center=B.center + np.array([0, 9.0, 0]))]
        elif k == "thin":
            S = [rg.Ellipsoid([1.0, 1.0, 0.0], center=B.center + np.array([0, 0, 0.1234567]))]
        else:
            S = [rg.Cylinder(1.0, 0.1, center=B.center - np.array([5.0, 5.0, 0]))]
        try:
            r = rg.rejection_sample(S, B, shape, max_tries=tries, rng=R)
        except ValueError:
            c.check(True, "impossible sampling raises a value error")
        except hooks.DrawLimit as e:
            c.seen("impossible sampling raises a value error")
            c.fail("impossible sampling does not end", drawn=str(e), tries=tries)
        else:
            c.check(False, "impossible sampling raises a value error", got=r)
        return
    # rare but possible: what is returned is right, else a value error
    m = M.Ell([0.35] * 3, None, np.asarray(B.center) + rng.uniform(-0.3, 0.3, 3))
    S = [rg.Ellipsoid(m.h, center=m.c)]
    try:
        X = rg.rejection_sample(S, B, shape, max_tries=tries, rng=R)
    except ValueError:
        c.check(tries < 3000, "possible sampling succeeds within the tries", tries=tries)
        return
    except hooks.DrawLimit as e:
        c.seen("draws are bounded")
        c.fail("sampling does not end", drawn=str(e), tries=tries)
        return
    Y = np.reshape(X, (-1, 3))
    c.check(X.shape == want_shape(shape, 3), "array has the sample shape", got=X.shape, shape=shape)
    c.check(np.all(np.linalg.norm(Y - m.c, axis=1) <= 0.35 + 1e-6), "accepted points are in the union", n=len(Y), X=Y)
