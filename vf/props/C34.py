import os
import tempfile

import numpy as np
import rigeo as rg
from .. import gen, mech, model as M
from ..core import Prop

P = Prop(
    "C34",
    rule="one case = one random mechanism (tree of revolute, continuous, prismatic and fixed joints, fixed, free or ball root) loaded "
    "from its URDF text, at random motions; non-trivial if a body, torque, regressor or frame quantity was compared",
    technique="runtime monitoring: loaded bodies, torques, regressors and frame quantities compared online with an independent "
    "Newton-Euler reference of the same mechanism; histories of interleaved queries replayed against the last commanded motion",
    note="relative accuracy 1e-8; accelerations in the world frame are spatial accelerations at the world origin",
    assumptions=["primitive collision shapes (box, cylinder, sphere)", "pinocchio and hppfcl compute what they document"],
)
TOL = 1e-8


def lib():
    from rigeo.unused import multibody

    return multibody


def load(c, rng, m, gravity=None, tool=None):
    import pinocchio as pin

    mb = lib().MultiBody
    kw = {}
    if tool is not None:
        kw["tool_link_name"] = tool
    if gravity is not None:
        kw["gravity"] = gravity
    if m.root:
        kw["root_joint"] = pin.JointModelFreeFlyer() if m.root == "free" else pin.JointModelSpherical()
    text = m.urdf()
    if rng.random() < 0.3:
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "robot.urdf")
            open(f, "w").write(text)
            return c.call(mb.from_urdf_file, f, **kw)
    return c.call(mb.from_urdf_string, text, **kw)


def pack(b, m, x, kind):
    """Coordinates by carrier -> the library's vector."""
    out = np.full({"q": b.nq, "v": b.nv}[kind], np.nan)
    for k, val in x.items():
        j = b.model.joints[b.model.getJointId(m.carrier_joint(k))]
        s = j.idx_q if kind == "q" else j.idx_v
        out[s : s + len(val)] = val
    assert np.isfinite(out).all()
    return out


def motion(rng, b, m):
    q, v, a = m.random_motion(rng)
    return (q, v, a), (pack(b, m, q, "q"), pack(b, m, v, "v"), pack(b, m, a, "v"))


def some(rng, root=True):
    r = str(rng.choice(["none", "none", "free", "ball"])) if root else "none"
    return mech.Mechanism(rng, root=None if r == "none" else r)


def say(c, m, **kw):
    c.say(root=m.root, tree=[(l.type, l.parent, len(l.shapes), bool(l.inertial)) for l in m.links], x=m.links[-1].xyz, **kw)


def same_model(shape, m, rng):
    """A library shape represents the reference model."""
    if gen.KIND.get(type(shape).__name__) != m.kind:
        return False
    if not np.allclose(shape.center, m.c, atol=1e-9):
        return False
    X = np.vstack((m.c + 0.999 * (m.boundary(rng, 12) - m.c), m.c + 1.001 * (m.boundary(rng, 12) - m.c)))
    return np.array_equal(np.asarray(shape.contains(X)), np.arange(24) < 12)


@P.group(quick=400, thorough=8000)
def bodies(c, rng, i):
    """Shapes and inertia of every rigid group, in its joint's frame."""
    m = some(rng)
    b = load(c, rng, m)
    say(c, m)
    want = {}
    for k in m.carriers():
        if m.shapes_of(k):
            j = m.carrier_joint(k)
            want[0 if j is None else b.get_joint_index(j)] = k
    if not c.check(set(b.bodies) == set(want), "bodies of the joints that carry shapes", got=list(b.bodies), want=list(want)):
        return
    for j, k in want.items():
        body = b.bodies[j]
        ref = m.shapes_of(k)
        c.check(len(body.shapes) == len(ref), "every shape is kept", got=len(body.shapes), want=len(ref))
        left = list(body.shapes)
        for r in ref:
            hit = [s for s in left if same_model(s, r, rng)]
            if not c.check(bool(hit), "shape in the joint's frame", want=r.params(), kind=r.kind, got=[repr(s) for s in left]):
                break
            left = [s for s in left if s is not hit[0]]
        J = m.pim_of(k)
        c.close(body.params.J, J, "inertia in the joint's frame", tol=TOL, scale=max(1e-9, np.abs(J).max()))
    moving = [(j, k) for j, k in want.items() if j]
    pick = [moving[t] for t in rng.permutation(len(moving))[: int(rng.integers(0, len(moving) + 1))]]
    got = c.call(b.get_bodies, [m.carrier_joint(k) if rng.random() < 0.5 else j for j, k in pick])
    c.check(isinstance(got, list) and len(got) == len(pick) and all(g is b.bodies[j] for g, (j, _) in zip(got, pick)), "bodies by joint name or index", n=max(1, len(pick)))
    c.check(b.nj == len([k for k in m.carriers() if m.carrier_joint(k)]) + 1, "number of joints", got=b.nj)


def grav(rng):
    g = rng.normal(size=3) * rng.choice([0.0, 1.0, 9.81])
    return [None, g, list(map(float, g)), np.zeros(3)][int(rng.integers(4))]


@P.group(quick=500, thorough=10000)
def torques(c, rng, i):
    """Inverse dynamics and its regressor against Newton-Euler."""
    m = some(rng)
    g = grav(rng)
    b = load(c, rng, m, gravity=g)
    g = np.array([0, 0, -9.81]) if g is None else np.asarray(g)
    say(c, m, g=g)
    if b.nv == 0:
        return
    for _ in range(2):
        x, (q, v, a) = motion(rng, b, m)
        want = pack(b, m, m.torques(*x, g), "v")
        sc = max(1.0, np.abs(want).max())
        c.close(c.call(b.compute_joint_torques, q, v, a), want, "joint torques", tol=TOL, scale=sc)
        Y = np.asarray(c.call(b.compute_joint_torque_regressor, q, v, a))
        moving = [k for k in m.carriers() if m.carrier_joint(k)]
        if not c.check(Y.shape == (b.nv, 10 * len(moving)), "regressor has ten columns per link", got=Y.shape):
            return
        th = np.zeros(10 * len(moving))
        for k in moving:
            j = b.get_joint_index(m.carrier_joint(k)) - 1
            th[10 * j : 10 * j + 10] = gen.vec_of_J(m.pim_of(k))
        c.close(Y @ th, want, "regressor times the parameters", tol=TOL, scale=sc)
        # the same mechanism with any other masses
        pims = {}
        for k in moving:
            G = rng.normal(size=(4, 4))
            pims[k] = G @ G.T
            j = b.get_joint_index(m.carrier_joint(k)) - 1
            th[10 * j : 10 * j + 10] = gen.vec_of_J(pims[k])
        other = pack(b, m, m.torques(*x, g, pims), "v")
        c.close(Y @ th, other, "regressor times any parameters", tol=TOL, scale=max(1.0, np.abs(other).max()))


REST = (np.eye(3),) + (np.zeros(3),) * 5


def reference(st, k, frame):
    """Velocity, spatial and classical acceleration of link k's frame."""
    R, p, w, vo, wd, vd = REST if k is None else st[k]
    s = vd - np.cross(w, vo)
    if frame == "LOCAL":
        return R.T @ vo, R.T @ w, R.T @ s, R.T @ wd, R.T @ vd
    if frame == "LOCAL_WORLD_ALIGNED":
        return vo, w, s, wd, vd
    v0, s0 = vo - np.cross(w, p), s - np.cross(wd, p)
    return v0, w, s0, wd, s0 + np.cross(w, v0)


def judge_frames(c, rng, b, m, st, x, tool, tag=""):
    RF = lib().RF
    k = int(rng.integers(len(m.links)))
    name = m.links[k].name
    arg = name if rng.random() < 0.6 else b.get_frame_index(name)
    r = rng.random()
    if k and r < 0.15:  # the frame of the joint above the link
        arg = m.links[k].joint if rng.random() < 0.5 else b.get_frame_index(m.links[k].joint)
    elif r > 0.9:  # the frame fixed to the world, whose index is zero
        k, arg = None, "universe" if rng.random() < 0.3 else 0
    elif tool is not None and rng.random() < 0.4:
        k, arg = tool, None
    R, p = c.call(b.get_frame_pose, arg) if arg is not None else c.call(b.get_frame_pose)
    Rw, pw = (REST if k is None else st[k])[:2]
    kept = [(np.asarray(R), Rw), (np.asarray(p), pw)]
    fr = str(rng.choice(["LOCAL", "WORLD", "LOCAL_WORLD_ALIGNED", "default"]))
    kw = {} if fr == "default" else dict(expressed_in=getattr(RF, fr))
    fr = "LOCAL" if fr == "default" else fr
    v, w, s, wd, cl = reference(st, k, fr)
    sc = 1 + max(np.abs(t).max() for t in (v, w, s, wd, cl, p))
    V = c.call(b.get_frame_velocity, arg, **kw)
    A = c.call(b.get_frame_spatial_acceleration, arg, **kw)
    C = c.call(b.get_frame_classical_acceleration, arg, **kw)
    c.close(R, Rw, "frame orientation" + tag, tol=TOL)
    c.close(p, pw, "frame position" + tag, tol=TOL, scale=sc)
    for got, want, what in ((V[0], v, "linear velocity"), (V[1], w, "angular velocity"), (A[0], s, "spatial acceleration"), (A[1], wd, "angular acceleration"), (C[0], cl, "classical acceleration"), (C[1], wd, "angular acceleration")):
        c.close(got, want, f"frame {what}{tag}", tol=TOL, scale=sc, frame=fr)
        kept.append((np.asarray(got), want))
    return kept, k, arg, kw, fr


@P.group(quick=400, thorough=8000)
def frames(c, rng, i):
    """Poses, velocities, accelerations and Jacobians of link frames."""
    m = some(rng)
    tool = int(rng.integers(len(m.links))) if rng.random() < 0.6 else None
    b = load(c, rng, m, tool=None if tool is None else m.links[tool].name)
    say(c, m, tool=tool)
    if b.nv == 0:
        return
    for _ in range(2):
        x, (q, v, a) = motion(rng, b, m)
        k = int(rng.integers(4))
        zero = lambda d: {j: 0 * t for j, t in d.items()}
        if k == 0:
            x = (x[0], zero(x[1]), zero(x[2]))
            c.call(b.compute_forward_kinematics, q)
        elif k == 1:
            x = (x[0], x[1], zero(x[2]))
            c.call(b.compute_forward_kinematics, q, v)
        else:
            c.call(b.compute_forward_kinematics, q, v, a)
        st = m.forward(*x)
        kept, f, arg, kw, fr = judge_frames(c, rng, b, m, st, x, tool)
        # the Jacobian maps joint velocities to the frame's velocity
        Jac = np.asarray(c.call(b.compute_frame_jacobian, q, arg, **kw))
        y, (_, v2, _) = motion(rng, b, m)
        r = reference(m.forward(x[0], y[1], zero(y[2])), f, fr)
        c.close(Jac @ v2, np.concatenate(r[:2]), "Jacobian times joint velocities", tol=TOL, scale=1 + np.abs(np.concatenate(r[:2])).max(), frame=fr)


@P.group(quick=300, thorough=6000)
def histories(c, rng, i):
    """Interleaved queries: frames follow the last forward kinematics, results
    stay as returned, two robots do not disturb each other."""
    ms = [some(rng), some(rng)]
    if rng.random() < 0.4:
        ms[1] = ms[0]
    bs = [load(c, rng, m) for m in ms]
    say(c, ms[0])
    if min(b.nv for b in bs) == 0:
        return
    g = np.array([0, 0, -9.81])
    state = [None, None]
    kept = []
    for step in range(int(rng.integers(6, 18))):
        r = int(rng.integers(2))
        b, m = bs[r], ms[r]
        x, (q, v, a) = motion(rng, b, m)
        op = "fk" if state[r] is None else str(rng.choice(["fk", "torque", "regressor", "jacobian", "frames", "frames", "frames", "bodies"]))
        if op == "fk":
            b.compute_forward_kinematics(q, v, a)
            state[r] = (m.forward(*x), x)
        elif op == "torque":
            w = pack(b, m, m.torques(*x, g), "v")
            t = b.compute_joint_torques(q, v, a)
            c.close(t, w, "torques amid other queries", tol=TOL, scale=max(1.0, np.abs(w).max()))
            kept.append((t, w))
        elif op == "regressor":
            Y = b.compute_joint_torque_regressor(q, v, a)
            kept.append((Y, np.array(Y)))
        elif op == "jacobian":
            RF = lib().RF
            l = m.links[int(rng.integers(len(m.links)))].name
            Jc = b.compute_frame_jacobian(q if rng.random() < 0.5 else pack(b, m, state[r][1][0], "q"), l, expressed_in=[RF.LOCAL, RF.WORLD, RF.LOCAL_WORLD_ALIGNED][int(rng.integers(3))])
            kept.append((Jc, np.array(Jc)))
        elif op == "frames":
            ks, *_ = judge_frames(c, rng, b, m, *state[r], None, " after other queries")
            kept += ks
        else:
            for body in b.bodies.values():
                body.transform(rotation=gen.rot(rng, 3), translation=rng.normal(size=3))
    sc = max([1.0] + [np.abs(w).max() for _, w in kept if np.size(w)])
    for t, w in kept:
        c.close(t, w, "earlier results stay as returned", tol=1e-7, scale=sc)


@P.group(quick=120, thorough=2000)
def ownership(c, rng, i):
    """Bodies belong to the robot they came from, and outlive it."""
    import gc
    import pinocchio as pin

    m = some(rng)
    say(c, m)
    b = load(c, rng, m)
    ref = {j: body.params.J.copy() for j, body in b.bodies.items()}
    for j in range(len(b.model.inertias)):
        b.model.inertias[j] = pin.Inertia.Random()
        b.model.inertias[j].lever = np.array([7.0, 8.0, 9.0])
    for j, body in b.bodies.items():
        c.close(body.params.J, ref[j], "bodies own their parameters", tol=1e-12, scale=max(1e-9, np.abs(ref[j]).max()))
    held = {j: (body, [np.array(s.center) for s in body.shapes]) for j, body in load(c, rng, m).bodies.items()}
    del b
    gc.collect()
    junk = [load(c, rng, some(rng)) for _ in range(3)]
    for j, (body, ctr) in held.items():
        c.close(body.params.J, ref[j], "bodies outlive the robot", tol=1e-12, scale=max(1e-9, np.abs(ref[j]).max()))
        c.check(all(np.array_equal(s.center, x) for s, x in zip(body.shapes, ctr)), "shapes outlive the robot")
    del junk


@P.group(quick=100, thorough=1500)
def refusals(c, rng, i):
    """Unknown names, wrong sizes and unsupported shapes are refused."""
    import hppfcl
    import pinocchio as pin

    m = some(rng)
    say(c, m)
    b = load(c, rng, m)
    mb = lib()
    c.raises(ValueError, b.get_joint_index, "no_such_joint", tag="unknown joints are refused")
    c.raises(ValueError, b.get_frame_index, "no_such_frame", tag="unknown frames are refused")
    c.raises(ValueError, b.get_bodies, ["no_such_joint"], tag="unknown joints are refused")
    c.raises(ValueError, b.get_frame_pose, "no_such_frame", tag="unknown frames are refused")
    c.raises(ValueError, mb.MultiBody.from_urdf_string, m.urdf(), tool_link_name="no_such_link", tag="unknown tools are refused")
    if b.nv:
        x, (q, v, a) = motion(rng, b, m)
        for k in range(3):
            args = [q, v, a]
            args[k] = np.append(args[k], 0.0) if rng.random() < 0.5 else args[k][:-1]
            c.raises(AssertionError, b.compute_forward_kinematics, *args, tag="wrong sizes are refused")
            c.raises(AssertionError, b.compute_joint_torques, *args, tag="wrong sizes are refused")
    c.raises(AssertionError, mb.MultiBody.from_urdf_string, m.urdf(), gravity=[0, 1], tag="wrong sizes are refused")
    bad = [hppfcl.Capsule(0.3, 1.0), hppfcl.Ellipsoid(1.0, 2.0, 3.0), hppfcl.Cone(0.3, 1.0), hppfcl.Halfspace(np.array([0, 0, 1.0]), 0.5)][i % 4]
    T = pin.SE3(gen.rot(rng, 3, "rand"), rng.normal(size=3))
    gm = pin.GeometryModel()
    gm.addGeometryObject(pin.GeometryObject("odd", 0, bad, T))
    try:
        odd = mb.MultiBody(pin.Model(), gm)
    except (ValueError, NotImplementedError):
        c.check(True, "unsupported shapes are refused or represented exactly")
    else:  # support added later is fine if it is right
        s = odd.bodies[0].shapes[0]
        R, x = T.rotation, T.translation
        ok = False
        if i % 4 == 0 and type(s).__name__ == "Capsule":
            ok = same_model(s, M.Cap(1.0, 0.3, R, x), rng)
        elif i % 4 == 1 and type(s).__name__ == "Ellipsoid":
            ok = same_model(s, M.Ell([1.0, 2.0, 3.0], R, x), rng)
        c.check(ok, "unsupported shapes are refused or represented exactly", got=repr(s))


@P.group(quick=0, thorough=1, cpu=600)
def memory(c, rng, i):
    """Results of native code are read under memcheck after all they came from
    is gone."""
    import shutil
    import subprocess
    import sys

    vg = shutil.which("valgrind")
    if vg is None:
        c.seen("memcheck is not available")
        return
    src = os.path.dirname(os.path.dirname(os.path.abspath(rg.__file__)))
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, PYTHONMALLOC="malloc", PYTHONPATH=src + os.pathsep + root, PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run([vg, "--error-limit=no", "-q", sys.executable, "-W", "ignore", "-m", "vf.memcheck", str(1 + i)], cwd=root, env=env, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        c.seen("memcheck gave no answer")
        return
    if "ARRAYS" not in r.stdout:
        c.seen("memcheck gave no answer")
        c.say(err=r.stderr[-300:])
        return
    n = int(r.stdout.split("ARRAYS")[1].split()[0])
    bad = [l for l in r.stderr.splitlines() if "Invalid read" in l or "Invalid write" in l]
    c.say(arrays=n)
    c.check(not bad, "no freed memory is read or written", n=n, got=bad[:3])
