# TECHNIQUE: property-based testing (Hypothesis): differential against an independently driven physics simulation, metamorphic relations between samples, roll-outs and data sets
# NOTE: Known findings: non-square images, several generators alive at the same time.
import os

import numpy as np
import pybullet as pb
import torch

from pbt import case, to_np
from neural_network_lyapunov import pybullet_data_generation as pdg
from neural_network_lyapunov import worlds

PROPERTY = "P30"
RULE = ("a case is non-trivial when the start state is not at rest or the "
        "next state differs from the start state")
ASSUMPTIONS = ["one generator alive at a time (see the known finding)",
               "steps are whole numbers of the simulator's two-step quantum "
               "unless stated"]

DOUBLE = """<?xml version="1.0"?>
<robot name="double">
 <link name="base"><inertial><mass value="0"/>
  <inertia ixx="1" ixy="0" ixz="0" iyy="1" iyz="0" izz="1"/></inertial></link>
%s
</robot>
"""
LINK = """
 <link name="l%d"><inertial><origin xyz="0 0 -%f"/><mass value="%f"/>
  <inertia ixx="0.01" ixy="0" ixz="0" iyy="0.01" iyz="0" izz="0.01"/>
  </inertial>
  <visual><origin xyz="0 0 -%f"/><geometry><box size="0.1 0.1 %f"/></geometry>
  <material name="m%d"><color rgba="%s 1"/></material></visual></link>
 <joint name="j%d" type="continuous"><parent link="%s"/><child link="l%d"/>
  <origin xyz="0 0 %f"/><axis xyz="%s"/><dynamics damping="0.0"/></joint>
"""


COLORS = ("1 0.1 0.6", "0.1 0.9 0.3", "0.2 0.4 1")


def chain_urdf(n, ln, mass, axes):
    s = ""
    for i in range(n):
        s += LINK % (i, ln / 2, mass, ln / 2, ln, i, COLORS[i % 3], i,
                     "base" if i == 0 else f"l{i - 1}", i,
                     0. if i == 0 else -ln, axes[i])
    path = os.path.join(os.getcwd(), f"chain_{os.getpid()}.urdf")
    with open(path, "w") as f:
        f.write(DOUBLE % s)
    return path


class World:
    """An independent driver of the same world."""
    def __init__(self, cb, joint, eye, tgt, up):
        self.c = pb.connect(pb.DIRECT)
        assert self.c == 0, self.c
        pb.setGravity(0, 0, -9.8)
        pb.setTimeStep(1. / 240)
        pb.setPhysicsEngineParameter(enableFileCaching=0)
        self.id = cb(pb)
        self.joint = joint
        if joint:
            self.n = pb.getNumJoints(self.id)
            for i in range(self.n):
                pb.setJointMotorControl2(self.id, i, pb.VELOCITY_CONTROL,
                                         force=0)
        for _ in range(120):
            pb.stepSimulation()
        self.st = pb.saveState()
        self.view = pb.computeViewMatrix(eye, tgt, up)
        self.proj = pb.computeProjectionMatrixFOV(45., 1., .1, 3.1)

    def run(self, x0, half_steps, w):
        pb.restoreState(self.st)
        x0 = np.asarray(x0, dtype=float)
        if self.joint:
            for i in range(self.n):
                pb.resetJointState(self.id, i, x0[i], x0[self.n + i])
        else:
            pb.resetBasePositionAndOrientation(
                self.id, x0[:3], pb.getQuaternionFromEuler(x0[3:6]))
            pb.resetBaseVelocity(self.id, x0[6:9], x0[9:12])
        ims = [self.shot(w)]
        for _ in range(2):
            for _ in range(half_steps):
                pb.stepSimulation()
            ims.append(self.shot(w))
        if self.joint:
            s = [pb.getJointState(self.id, i) for i in range(self.n)]
            x1 = [a[0] for a in s] + [a[1] for a in s]
        else:
            p, q = pb.getBasePositionAndOrientation(self.id)
            v, om = pb.getBaseVelocity(self.id)
            x1 = list(p) + list(pb.getEulerFromQuaternion(q)) + list(v) + \
                list(om)
        return np.array(x1), ims

    def shot(self, w):
        _, _, rgb, _, _ = pb.getCameraImage(w, w, self.view, self.proj)
        return np.asarray(rgb).reshape(w, w, 4)[:, :, :3].astype(float)

    def close(self):
        pb.disconnect(self.c)


def frame(im, gray):
    if gray:
        return (im @ np.array([.2989, .5870, .1140]))[None] / 255.
    return im.transpose(2, 0, 1) / 255.


class Setup:
    def __init__(self, T):
        kind = T.choice(["pendulum", "chain", "chain", "cubes"])
        self.kind = kind
        self.joint = kind != "cubes"
        if kind == "pendulum":
            self.cb = worlds.get_load_urdf_callback(
                worlds.urdf_path("pendulum.urdf"))
            n = 1
        elif kind == "chain":
            n = T.int(1, 3)
            axes = [T.choice(["0 1 0", "1 0 0"]) for _ in range(n)]
            self.cb = worlds.get_load_urdf_callback(
                chain_urdf(n, T.float(.2, .5), T.float(.2, 1.), axes))
        else:
            self.cb = worlds.get_load_falling_cubes_callback()
            n = 6
        self.n = n
        self.gray = T.bool()
        self.w = T.choice([8, 16])
        self.dtype = torch.float64 if T.bool() else torch.float32
        self.eye = [T.float(-1, 1), -2.5, T.float(-.5, 1)]
        self.tgt = [0, 0, 0] if self.joint else [0, 0, .3]
        self.up = [0, 0, 1]
        T.label(kind, "gray" if self.gray else "rgb")
        T.note(kind=kind, joints=n, gray=self.gray, w=self.w)

    def gen(self, **kw):
        a = dict(image_width=self.w, image_height=self.w,
                 grayscale=self.gray, camera_eye_position=self.eye,
                 camera_target_position=self.tgt, camera_up_vector=self.up,
                 dtype=self.dtype)
        a.update(kw)
        g = pdg.PybulletSampleGenerator(self.cb, self.joint, **a)
        return g

    def x0(self, T):
        if self.joint:
            x = np.concatenate((T.array((self.n, ), -3, 3),
                                T.array((self.n, ), -2, 2)))
        else:
            # high enough not to touch anything during the step
            x = np.concatenate((T.array((2, ), -.5, .5),
                                [T.float(3., 6.)],
                                T.array((3, ), -1.2, 1.2),
                                T.array((3, ), -1, 1),
                                T.array((3, ), -1, 1)))
        return torch.tensor(x, dtype=self.dtype)


def close_gen(g):
    pb.disconnect(g.physics_client)
    g.__class__ = _Dead


class _Dead:
    def __del__(self):
        pass


@case(quick=600, thorough=15000, shards=4)
def sample_matches_simulation(T):
    S = Setup(T)
    half = T.int(1, 18)
    dt = half / 120.
    x0 = S.x0(T)
    T.note(half=half, x0=[round(float(v), 3) for v in x0])
    g = S.gen()
    try:
        T.check(g.x_dim == 2 * S.n, "state dimension", got=g.x_dim)
        xin = x0.clone()
        x1, X, Xn = g.generate_sample(x0, dt)
        T.check(torch.equal(x0, xin), "start state modified")
        if T.bool():
            # history: other samples in between do not matter
            g.generate_sample(S.x0(T), dt)
            x1b, Xb, Xnb = g.generate_sample(x0, dt)
            T.close(x1b, x1, "sample is not reproducible", 1e-9, 1e-9)
            T.close(Xb, X, "images are not reproducible", 0, 0)
            T.close(Xnb, Xn, "images are not reproducible", 0, 0)
    finally:
        close_gen(g)
    C = 1 if S.gray else 3
    T.check(X.shape == (2 * C, S.w, S.w) and Xn.shape == (C, S.w, S.w),
            "image shapes", X=X.shape, Xn=Xn.shape)
    T.check(x1.shape == (2 * S.n, ), "next state shape", got=x1.shape)
    T.check(x1.dtype == X.dtype == Xn.dtype == S.dtype, "dtype")
    T.check(X.min() >= 0 and X.max() <= 1 and Xn.min() >= 0 and
            Xn.max() <= 1, "pixel range")
    W = World(S.cb, S.joint, S.eye, S.tgt, S.up)
    try:
        e, ims = W.run(x0.double().numpy(), half, S.w)
    finally:
        W.close()
    T.nontrivial(np.max(np.abs(e - x0.double().numpy())) > 1e-6)
    tol = 1e-6 if S.dtype == torch.float64 else 1e-5
    T.close(x1, e, "next state is not the simulation's state after dt", tol,
            tol)
    f = [frame(i, S.gray) for i in ims]
    pics(T, X[:C], f[0], "first image does not show the start state")
    pics(T, X[C:], f[1], "second image does not show the state after dt/2")
    pics(T, Xn, f[2], "next image does not show the state after dt")
    if np.any(f[0] != f[2]):
        T.label("images move")


def pics(T, a, b, msg, tol=1e-6):
    """equal images, up to two pixels of an edge"""
    a, b = to_np(a), to_np(b)
    T.check(a.shape == b.shape, msg + ": shape", got=a.shape, expected=b.shape)
    w = a.shape[-1] * a.shape[-2]
    d = np.any((np.abs(a - b) > tol).reshape(-1, a.shape[-3], w), axis=1)
    T.check(np.all(d.sum(axis=1) <= 2), msg, different=d.sum(axis=1),
            got=a, expected=b)


@case(quick=250, thorough=5000, shards=4)
def rollout_and_dataset(T):
    S = Setup(T)
    half = T.int(1, 10)
    dt = half / 120.
    N = T.int(1, 6)
    R = T.int(1, 3)
    C = 1 if S.gray else 3
    g = S.gen()
    tol = 1e-6 if S.dtype == torch.float64 else 1e-4
    try:
        x0 = S.x0(T)
        xs, Xs = g.generate_rollout(x0, dt, N)
        T.check(xs.shape == (N + 1, 2 * S.n), "rollout states")
        T.check(Xs.shape == (N + 2, C, S.w, S.w), "rollout images")
        T.close(xs[0], x0, "rollout does not begin at x0", 0, 0)
        T.nontrivial(bool(torch.any(xs[0] != xs[1])))
        for k in range(N):
            x1, X, Xn = g.generate_sample(xs[k], dt)
            T.close(xs[k + 1], x1, "roll-out does not chain single steps",
                    tol, tol)
            pics(T, Xs[k + 2], Xn, "roll-out image")
            if k == 0:
                pics(T, Xs[0], X[:C], "first frame")
                pics(T, Xs[1], X[C:], "second frame")
        # data_to_rollouts
        st = torch.stack([x0, S.x0(T)])
        rx, rX = g.data_to_rollouts(st, dt, N)
        T.check(len(rx) == len(rX) == 2, "one roll-out per initial state")
        T.close(rx[0], xs, "data_to_rollouts", tol, tol)
        pics(T, rX[0], Xs, "data_to_rollouts")
        T.close(rx[1][0], st[1], "data_to_rollouts start", 0, 0)
        # data set
        lo = torch.min(st[0], st[1])
        up = torch.max(st[0], st[1])
        normal = T.bool()
        T.seed()
        if normal:
            mean = (lo + up) / 2 + T.float(-1, 1) * (up - lo)
            xd, xnd, Xd, Xnd = g.generate_dataset(
                lo, up, dt, N, R, x_mean=mean, x_std=(up - lo) + .1)
            T.label("normal")
        else:
            xd, xnd, Xd, Xnd = g.generate_dataset(lo, up, dt, N, R)
            T.label("uniform")
        T.check(xd.shape == xnd.shape == (R * N, 2 * S.n), "data set shapes")
        T.check(Xd.shape == (R * N, 2 * C, S.w, S.w) and
                Xnd.shape == (R * N, C, S.w, S.w), "data set image shapes")
        T.check(torch.all(torch.isfinite(Xd)) and Xd.min() >= 0 and
                Xd.max() <= 1 and Xnd.min() >= 0 and Xnd.max() <= 1,
                "data set pixel range")
        for r in range(R):
            s = xd[r * N]
            T.leq(s, up, "start above the upper limit", 1e-6)
            T.leq(lo, s, "start below the lower limit", 1e-6)
            ex, eX = g.generate_rollout(s, dt, N)
            for k in range(N):
                i = r * N + k
                T.close(xd[i], ex[k], "x_data", tol, tol)
                T.close(xnd[i], ex[k + 1], "x_next_data", tol, tol)
                pics(T, Xd[i, :C], eX[k], "X_data first image", .02)
                pics(T, Xd[i, C:], eX[k + 1], "X_data second image", .02)
                pics(T, Xnd[i], eX[k + 2], "X_next_data", .02)
        if R > 1:
            T.check(torch.all(lo == up) or
                    not torch.equal(xd[0], xd[N]) or normal,
                    "two roll-outs start at the same random state")
    finally:
        close_gen(g)


@case(quick=40, thorough=600)
def step_quantum(T):
    """dt is honoured up to the simulator's two-step quantum."""
    S = Setup(T)
    dt = T.float(0.01, .3)
    x0 = S.x0(T)
    g = S.gen()
    try:
        x1, _, _ = g.generate_sample(x0, dt)
    finally:
        close_gen(g)
    W = World(S.cb, S.joint, S.eye, S.tgt, S.up)
    T.nontrivial()
    try:
        c = [W.run(x0.double().numpy(), h, 8)[0]
             for h in sorted({int(np.floor(dt * 120)),
                              int(np.ceil(dt * 120))})]
    finally:
        W.close()
    x1 = x1.double().numpy()
    T.check(any(np.allclose(x1, e, atol=1e-4, rtol=1e-4) for e in c),
            "next state is not at time dt (up to 1/120 s)", got=x1, near=c)


@case(quick=4, thorough=20)
def nonsquare_images(T):
    S = Setup(T)
    wd, ht = T.choice([(8, 16), (16, 8), (12, 20)])
    T.nontrivial()
    g = S.gen(image_width=wd, image_height=ht)
    try:
        x0 = S.x0(T)
        try:
            _, X, Xn = g.generate_sample(x0, .1)
        except ValueError:
            T.known("nonsquare")
        C = 1 if S.gray else 3
        T.check(X.shape == (2 * C, wd, ht), "documented image shape")
    finally:
        close_gen(g)


@case(quick=3, thorough=20)
def second_generator(T):
    """A generator created while another one is alive simulates its own
    world."""
    S = Setup(T)
    x0 = S.x0(T)
    T.nontrivial()
    g = S.gen()
    try:
        ref = g.generate_sample(x0, .1)
    finally:
        close_gen(g)
    other = Setup(T)
    g1 = other.gen()
    try:
        try:
            g2 = S.gen()
            got = g2.generate_sample(x0, .1)
        except Exception:
            pb.resetSimulation()
            T.known("second-generator")
        ok = torch.allclose(got[0], ref[0], atol=1e-5) and \
            torch.allclose(got[1], ref[1], atol=1e-5)
        if not ok:
            T.known("second-generator")
    finally:
        for c in range(4):
            try:
                pb.disconnect(c)
            except Exception:
                pass
        g1.__class__ = _Dead
        if "g2" in dir():
            g2.__class__ = _Dead


@case(quick=60, thorough=1000)
def noise_and_loader(T):
    n = T.int(2, 20)
    shape = T.choice([(n, 3), (n, 2, 4, 4)])
    x = T.tensor(shape, -3, 3)
    T.seed()
    std = T.choice([0., .1, 1.])
    x0 = x.clone()
    y = pdg.add_noise(x, std)
    T.check(torch.equal(x, x0), "add_noise modified its input")
    T.check(y.shape == x.shape and y.dtype == x.dtype, "add_noise shape")
    if std == 0:
        T.close(y, x, "no noise requested", 0, 0)
    big = torch.full((4000, 2), T.float(.5, 3), dtype=torch.float64)
    big[:, 1] *= -2
    if T.bool():
        # the level goes with the magnitude, not with the mean
        big[::4] *= -1
    s = torch.tensor([.2, .1], dtype=torch.float64)
    d = pdg.add_noise(big, s) - big
    T.close(d.std(dim=0), s * big[1].abs(), "noise level", 0, .1)
    T.close(d.mean(dim=0), [0, 0], "noise bias", .1 * float(big.abs().max()))
    # loader
    idx = torch.arange(n, dtype=torch.float64)
    bs = T.int(1, n + 2)
    T.nontrivial(n > bs)
    seen = []
    for a, b in pdg.get_dataloader(idx, 2 * idx + 1, bs):
        T.check(len(a) <= bs, "batch size")
        T.close(b, 2 * a + 1, "pairs are broken")
        seen += a.tolist()
    T.check(sorted(seen) == idx.tolist(), "an item is missing or repeated")


@case(quick=40, thorough=400)
def show_sample(T):
    import matplotlib.pyplot as plt
    C = T.choice([1, 2, 3, 6])
    w = T.choice([4, 6])
    X = T.tensor((C, w, w), -.5, 1.5)
    k = 3 if C in (3, 6) else 1
    clamp = T.bool()
    nxt = T.tensor((k, w, w), -.5, 1.5) if C in (2, 6) and T.bool() else None
    T.nontrivial(nxt is not None)
    X0 = X.clone()
    plt.close("all")
    show = plt.show
    plt.show = lambda *a, **k: None
    try:
        pdg.show_sample(X, nxt, clamp)
        fig = plt.gcf()
        ims = [ax.get_images()[0].get_array() for ax in fig.axes]
        ims = [np.asarray(i, dtype=float).reshape(w, w, -1) for i in ims]
    finally:
        plt.show = show
        plt.close("all")
    T.check(torch.equal(X, X0), "show_sample modified its input")
    exp = [X[:k]] + ([X[k:]] if C in (2, 6) else []) + \
        ([nxt] if nxt is not None else [])
    T.check(len(ims) == len(exp), "number of pictures", got=len(ims))
    for i, e in zip(ims, exp):
        e = e.numpy().transpose(1, 2, 0)
        if clamp or k == 3:
            # matplotlib clips rgb data itself
            e = np.clip(e, 0, 1)
            i = np.clip(i, 0, 1)
        T.close(i, e, "picture does not show the sample", 1e-6)
