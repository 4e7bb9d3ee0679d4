"""Random mechanisms: their URDF text and an independent reference for their
bodies, kinematics and inverse dynamics (Newton-Euler in the world frame)."""
import numpy as np

from . import gen, model as M


def rpy(r, p, y):
    cr, sr, cp, sp, cy, sy = np.cos(r), np.sin(r), np.cos(p), np.sin(p), np.cos(y), np.sin(y)
    return np.array([
        [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
        [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
        [-sp, cp * sr, cp * cr],
    ])


def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def turn(u, t):
    K = hat(u)
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K


def homog(R, p):
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = R, p
    return T


def quat_R(q):
    x, y, z, w = q
    v = np.array([x, y, z])
    return np.eye(3) + 2 * w * hat(v) + 2 * hat(v) @ hat(v)


def numbers(v):
    return " ".join(repr(float(x)) for x in v)


class Link:
    pass


class Mechanism:
    def __init__(self, rng, n=None, root=None):
        n = n if n is not None else int(rng.integers(1, 7))
        self.root = root  # None, "free" or "ball"
        self.links = []
        pose = lambda: (np.zeros(3), np.zeros(3)) if rng.random() < 0.25 else (rng.uniform(-1, 1, 3), rng.uniform(-3, 3, 3) * (rng.random() < 0.7))
        for k in range(n + 1):
            l = Link()
            l.name = f"link_{k}"
            l.parent = None if k == 0 else int(rng.integers(max(0, k - 3), k))
            l.joint = None if k == 0 else f"joint_{k}"
            l.type = None if k == 0 else str(rng.choice(["revolute", "revolute", "continuous", "prismatic", "fixed"]))
            if k == n and l.parent is not None and all(m.type in (None, "fixed") for m in self.links):
                l.type = "revolute"
            l.xyz, l.rpy = pose() if k else (np.zeros(3), np.zeros(3))
            u = rng.normal(size=3) if rng.random() < 0.5 else np.eye(3)[rng.integers(3)] * rng.choice([-1.0, 1.0])
            l.axis = u / np.linalg.norm(u)
            l.inertial = None
            if rng.random() < 0.85 or (k == 0 and root):
                c, a = pose()
                G = rng.normal(size=(3, 3)) * 0.3
                l.inertial = (float(rng.choice([1.0, rng.uniform(0.1, 5), 0.01])), c, a, G @ G.T)  # mass, com, angles, Hc/m
            l.shapes = []
            for _ in range(int(rng.choice([0, 1, 1, 2, 3])) if k or root else int(rng.choice([0, 1]))):
                kind = str(rng.choice(["box", "cylinder", "sphere"]))
                c, a = pose()
                l.shapes.append((kind, c, a, rng.uniform(0.1, 1.5, 3)))
            self.links.append(l)
        # rigid groups: the moving joint that carries each link
        for k, l in enumerate(self.links):
            if k == 0:
                l.base, l.in_base = 0, np.eye(4)
            elif l.type == "fixed":
                p = self.links[l.parent]
                l.base, l.in_base = p.base, p.in_base @ homog(rpy(*l.rpy), l.xyz)
            else:
                l.base, l.in_base = k, np.eye(4)

    # -- description -----------------------------------------------------
    def urdf(self):
        out = ['<?xml version="1.0"?>', '<robot name="mechanism">']
        og = lambda c, a: f'<origin xyz="{numbers(c)}" rpy="{numbers(a)}"/>'
        for l in self.links:
            out.append(f'<link name="{l.name}">')
            if l.inertial:
                m, c, a, H = l.inertial
                I = m * (np.trace(H) * np.eye(3) - H)
                e = " ".join(f'{nm}="{float(I[i, j])!r}"' for nm, i, j in (("ixx", 0, 0), ("ixy", 0, 1), ("ixz", 0, 2), ("iyy", 1, 1), ("iyz", 1, 2), ("izz", 2, 2)))
                out.append(f'<inertial>{og(c, a)}<mass value="{m!r}"/><inertia {e}/></inertial>')
            for kind, c, a, s in l.shapes:
                g = {"box": f'<box size="{numbers(2 * s)}"/>', "cylinder": f'<cylinder length="{2 * float(s[0])!r}" radius="{float(s[1])!r}"/>', "sphere": f'<sphere radius="{float(s[0])!r}"/>'}[kind]
                out.append(f"<collision>{og(c, a)}<geometry>{g}</geometry></collision>")
            out.append("</link>")
        for l in self.links[1:]:
            out.append(f'<joint name="{l.joint}" type="{l.type}"><parent link="{self.links[l.parent].name}"/><child link="{l.name}"/>{og(l.xyz, l.rpy)}<axis xyz="{numbers(l.axis)}"/>')
            if l.type in ("revolute", "prismatic"):
                out.append('<limit lower="-10" upper="10" effort="100" velocity="100"/>')
            out.append("</joint>")
        out.append("</robot>")
        return "\n".join(out)

    def carriers(self):
        """Indices of the links that carry a rigid group."""
        return [k for k, l in enumerate(self.links) if l.base == k]

    def carrier_joint(self, k):
        """Name of the joint that moves the group (None: fixed to the world)."""
        return self.links[k].joint if k else ("root_joint" if self.root else None)

    def shapes_of(self, k):
        """Reference models of the shapes of group k, in its joint's frame."""
        out = []
        for l in self.links:
            if l.base != k:
                continue
            for kind, c, a, s in l.shapes:
                T = l.in_base @ homog(rpy(*a), c)
                R, x = T[:3, :3], T[:3, 3]
                out.append(M.BoxM(s, R, x) if kind == "box" else M.Cyl(2 * s[0], s[1], R, x) if kind == "cylinder" else M.Ell([s[0]] * 3, R, x))
        return out

    def pim_of(self, k):
        """Pseudo-inertia matrix of group k, in its joint's frame."""
        J = np.zeros((4, 4))
        for l in self.links:
            if l.base == k and l.inertial:
                m, c, a, H = l.inertial
                D = np.zeros((4, 4))
                D[:3, :3], D[3, 3] = m * H, m
                T = l.in_base @ homog(rpy(*a), c)
                J += T @ D @ T.T
        return J

    # -- motion ----------------------------------------------------------
    def random_motion(self, rng):
        """Joint coordinates, velocities, accelerations by carrier index."""
        q, v, a = {}, {}, {}
        for k in self.carriers():
            t = self.links[k].type if k else self.root
            if t is None:
                continue
            if t in ("free", "ball"):
                u = rng.normal(size=4)
                u /= np.linalg.norm(u)
                q[k] = np.concatenate((rng.normal(size=3), u)) if t == "free" else u
                d = 6 if t == "free" else 3
                v[k], a[k] = rng.normal(size=d), rng.normal(size=d)
            else:
                x = rng.uniform(-2, 2)
                q[k] = np.array([np.cos(x), np.sin(x)]) if t == "continuous" else np.array([x])
                v[k], a[k] = rng.normal(size=1) * 2, rng.normal(size=1) * 2
        return q, v, a

    def forward(self, q, v, a):
        """World pose, velocities and accelerations of every link's origin."""
        out = []
        for k, l in enumerate(self.links):
            if k == 0:
                R, p, w, vo, wd, vd = np.eye(3), *np.zeros((5, 3))
                if self.root:
                    R = quat_R(q[0][-4:])
                    w, wd = R @ v[0][-3:], R @ a[0][-3:]
                    if self.root == "free":
                        p = q[0][:3]
                        vo = R @ v[0][:3]
                        vd = R @ a[0][:3] + np.cross(w, vo)
            else:
                Rp, pp, wp, vp, wdp, vdp = out[l.parent]
                R0 = Rp @ rpy(*l.rpy)
                r = Rp @ l.xyz
                u = R0 @ l.axis
                R, w, wd, extra_v, extra_a = R0, wp, wdp, np.zeros(3), np.zeros(3)
                if l.type in ("revolute", "continuous"):
                    t = q[k][0] if l.type == "revolute" else np.arctan2(q[k][1], q[k][0])
                    R = R0 @ turn(l.axis, t)
                    w = wp + u * v[k][0]
                    wd = wdp + u * a[k][0] + np.cross(wp, u) * v[k][0]
                elif l.type == "prismatic":
                    r = r + u * q[k][0]
                    extra_v = u * v[k][0]
                    extra_a = u * a[k][0] + 2 * np.cross(wp, u) * v[k][0]
                p = pp + r
                vo = vp + np.cross(wp, r) + extra_v
                vd = vdp + np.cross(wdp, r) + np.cross(wp, np.cross(wp, r)) + extra_a
            out.append((R, p, w, vo, wd, vd))
        return out

    def torques(self, q, v, a, g, pims=None):
        """Generalized forces by carrier index; ``pims`` replaces the inertia of the groups."""
        st = self.forward(q, v, a)
        F, N = np.zeros((len(self.links), 3)), np.zeros((len(self.links), 3))
        for k in self.carriers():
            J = self.pim_of(k) if pims is None else pims.get(k, np.zeros((4, 4)))
            R, p, w, vo, wd, vd = st[k]
            T = homog(R, np.zeros(3))
            J = T @ J @ T.T  # world axes, about the joint's origin
            m, h, H = J[3, 3], J[:3, 3], J[:3, :3]
            I = np.trace(H) * np.eye(3) - H
            f = m * (vd - g) + np.cross(wd, h) + np.cross(w, np.cross(w, h))
            n = I @ wd + np.cross(w, I @ w) + np.cross(h, vd - g)
            F[k] += f
            N[k] += n + np.cross(p, f)
        for k in range(len(self.links) - 1, 0, -1):
            F[self.links[k].parent] += F[k]
            N[self.links[k].parent] += N[k]
        tau = {}
        for k in self.carriers():
            t = self.links[k].type if k else self.root
            if t is None:
                continue
            R, p = st[k][:2]
            n = N[k] - np.cross(p, F[k])
            if t == "free":
                tau[k] = np.concatenate((R.T @ F[k], R.T @ n))
            elif t == "ball":
                tau[k] = R.T @ n
            else:
                u = R @ self.links[k].axis
                tau[k] = np.array([u @ F[k] if t == "prismatic" else u @ n])
        return tau
