import numpy as np
import rigeo as rg
from .. import gen
from ..core import Prop
from .C17 import Truth, judge, rebuilds, sizes, system, units

P = Prop(
    "C18",
    rule="one case = two to five (sometimes up to sixty) systems of point masses (massless ones included) with their parameters built in different ways, "
    "random groupings and motions; non-trivial if results were compared with the sums over the combined or moved masses",
    technique="runtime monitoring: results of additions and transforms compared with the defining sums over the combined or "
    "moved point masses, and with each other (order, grouping, composition, inverse)",
    note="to 1e-9 relative to the size of the sums, entry by entry, in any units of mass and length",
)


def some(rng, c, i, T):
    f = rebuilds(T)
    how, fn = f[int(rng.integers(len(f)))]
    return c.call(fn), how


def move(rng, lu=1.0):
    R = gen.rot(rng)
    t = gen.trans(rng) * lu
    u = rng.random()
    if rng.random() < 0.15:
        t = t * 10.0 ** rng.uniform(-3, 4)
    if u < 0.15:
        return dict(rotation=R), R, np.zeros(3)
    if u < 0.3:
        return dict(translation=t), np.eye(3), t
    if u < 0.33:
        return dict(), np.eye(3), np.zeros(3)
    return dict(rotation=R, translation=t), R, t


@P.group(quick=2000, thorough=40000)
def adding(c, rng, i):
    n = int(rng.integers(2, 6)) if i % 12 else int(rng.integers(6, 60))
    u = units(rng)
    S = [system(rng, int(rng.integers(8)), u if rng.random() < 0.8 else units(rng)) for _ in range(n)]
    if i % 5 == 0:
        S[int(rng.integers(n))] = (np.zeros(2), rng.normal(size=(2, 3)))
    c.say(systems=S)
    Ts = [Truth(*s) for s in S]
    ps = [some(rng, c, i, T)[0] for T in Ts]
    before = [p.J.copy() for p in ps]
    A = Truth(np.concatenate([s[0] for s in S]), np.vstack([s[1] for s in S]))
    q = rng.permutation(n)
    acc = ps[q[0]]
    for k in q[1:]:
        acc = c.call(lambda a, b: a + b, acc, ps[k])
    judge(c, acc, A, "left to right, shuffled")
    acc = ps[q[-1]]
    for k in q[:-1][::-1]:
        acc = ps[k] + acc
    judge(c, acc, A, "right to left")
    judge(c, c.call(sum, ps), A, "built-in sum")
    judge(c, c.call(sum, [ps[k] for k in q]), A, "built-in sum, shuffled")
    k = int(rng.integers(1, n))
    judge(c, c.call(lambda: sum(ps[:k]) + sum(ps[k:])), A, "grouped")
    judge(c, c.call(sum, ps, rg.InertialParameters.zero()), A, "sum from zero parameters")
    z = rg.InertialParameters.zero()
    judge(c, c.call(lambda: acc + z), A, "massless on the right")
    judge(c, c.call(lambda: z + acc), A, "massless on the left")
    z2 = rg.InertialParameters.from_point_masses(np.zeros(2), rng.normal(size=(2, 3)))
    judge(c, c.call(lambda: sum([z2, acc, z, z])), A, "massless in a sum")
    judge(c, c.call(lambda: sum([acc])), A, "sum of one")
    zz = z + z2
    c.close(zz.J, np.zeros((4, 4)), "massless plus massless")
    for p, J in zip(ps, before):
        c.check(np.array_equal(p.J, J), "operands unchanged")


@P.group(quick=2000, thorough=40000)
def moving(c, rng, i):
    u = units(rng)
    ms, Q = system(rng, i, u)
    if i % 11 == 0:
        ms = np.zeros(len(ms))
    T = Truth(ms, Q)
    p, how = some(rng, c, i, T)
    kw, R, t = move(rng, u[1])
    c.say(masses=ms, points=Q, R=R, t=t)

    def truth(R, t):
        X = Truth(ms, Q @ R.T + t)
        X.L = max(X.L, T.L, np.linalg.norm(t))
        return X

    X = truth(R, t)
    q = c.call(p.transform, **kw)
    judge(c, q, X, "moved")
    # composition and inverse
    kw2, R2, t2 = move(rng, u[1])
    X2 = truth(R2 @ R, R2 @ t + t2)
    X2.L = max(X2.L, X.L)
    judge(c, c.call(q.transform, **kw2), X2, "moved twice")
    judge(c, c.call(p.transform, rotation=R2 @ R, translation=R2 @ t + t2), X2, "composed motion")
    T2 = Truth(ms, Q)
    T2.L = max(X.L, T.L)
    judge(c, c.call(q.transform, rotation=R.T, translation=-R.T @ t), T2, "moved back")
    judge(c, p, T, "receiver unchanged")
    # invariants
    c.close(float(q.mass), T.m, "mass is kept", scale=T.m)
    c.close(np.linalg.eigvalsh(q.Ic), np.linalg.eigvalsh(T.Ic), "principal moments are kept", scale=sizes(X)["H"], tol=1e-8)


@P.group(quick=800, thorough=16000)
def both(c, rng, i):
    u = units(rng)
    S = [system(rng, int(rng.integers(8)), u) for _ in range(2)]
    Ts = [Truth(*s) for s in S]
    ps = [some(rng, c, i, T)[0] for T in Ts]
    kw, R, t = move(rng, u[1])
    c.say(systems=S, R=R, t=t)
    A = Truth(np.concatenate([s[0] for s in S]), np.vstack([s[1] for s in S]) @ R.T + t)
    A.L = max(A.L, np.linalg.norm(t), *[2 * T.L for T in Ts])
    judge(c, c.call((ps[0] + ps[1]).transform, **kw), A, "added, then moved")
    judge(c, c.call(lambda: ps[0].transform(**kw) + ps[1].transform(**kw)), A, "moved, then added")
