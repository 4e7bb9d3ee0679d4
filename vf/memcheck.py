"""Run under valgrind: results of native code are read after everything they
came from is gone.   python -m vf.memcheck SEED"""
import gc
import sys

import numpy as np
import rigeo as rg

from . import mech
from rigeo.unused.multibody import MultiBody


def robot(rng):
    m = mech.Mechanism(rng, n=3)
    b = MultiBody.from_urdf_string(m.urdf())
    out = [body.params.J for body in b.bodies.values()] + [body.params.com for body in b.bodies.values()]
    out += [x for body in b.bodies.values() for s in body.shapes for x in (s.center, s.rotation)]
    if b.nv:
        import pinocchio as pin

        q, v = pin.neutral(b.model), rng.normal(size=b.nv)
        b.compute_forward_kinematics(q, v, v)
        f = m.links[-1].name
        for RF in (pin.LOCAL, pin.WORLD):
            out += [*b.get_frame_pose(f), *b.get_frame_velocity(f, expressed_in=RF), *b.get_frame_spatial_acceleration(f, expressed_in=RF), *b.get_frame_classical_acceleration(f, expressed_in=RF)]
            out.append(b.compute_frame_jacobian(q, f, expressed_in=RF))
        out += [b.compute_joint_torques(q, v, v), b.compute_joint_torque_regressor(q, v, v)]
    return out


def polyhedra(rng):
    p = rg.ConvexPolyhedron.from_vertices(rng.normal(size=(9, 3)), prune=True)
    r = p.intersect(rg.Box([1.0, 1, 1], center=0.2 * rng.normal(size=3)))
    out = [p.vertices, p.A, p.b, rg.convex_hull(rng.normal(size=(12, 3)))]
    return out + ([r.vertices, r.A, r.b] if r is not None else [])


def main(seed):
    rng = np.random.default_rng(seed)
    kept = []
    for _ in range(3):
        kept += robot(rng) + polyhedra(rng)
        gc.collect()
    junk = [rng.normal(size=k) for k in range(2, 400)]
    gc.collect()
    s = sum(float(np.sum(np.asarray(x, float) * 1.5)) for x in kept)
    assert np.isfinite(s), "freed memory was read"
    print("ARRAYS", len(kept), len(junk))


if __name__ == "__main__":
    main(int(sys.argv[1]))
