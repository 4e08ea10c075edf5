# TECHNIQUE: property-based testing (Hypothesis): differential (array/tensor), independent textbook equations, complex-step Jacobians, conserved energies and equilibria as invariants
import numpy as np
import scipy.linalg
import torch

from pbt import case, to_np
from neural_network_lyapunov.examples.pendulum import pendulum
from neural_network_lyapunov.examples.pole import pole
from neural_network_lyapunov.examples.rocket import rocket
from neural_network_lyapunov.examples.quadrotor2d import quadrotor_2d
from neural_network_lyapunov.examples.quadrotor3d import quadrotor
from neural_network_lyapunov.examples.car import unicycle
from neural_network_lyapunov.examples.car import acceleration_car

PROPERTY = "P26"
SCALE = 2
RULE = ("a case is non-trivial when the state has at least two non-zero "
        "components and the control is not zero")
ASSUMPTIONS = ["states away from the models' coordinate singularities "
               "(pitch near 90 degrees, horizontal pole)"]
G = 9.81


def cjac(f, z):
    J = []
    for i in range(len(z)):
        w = z.astype(complex)
        w[i] += 1e-30j
        J.append(np.imag(f(w)) / 1e-30)
    return np.array(J).T


def draw_state(T, n, lo=-3., hi=3.):
    return T.array((n, ), lo, hi)


def params(T, obj, names):
    """Physical parameters other than the defaults in half of the cases."""
    if T.bool():
        for nm in names:
            setattr(obj, nm, T.float(0.2, 2.5))


def mark(T, x, u):
    T.nontrivial(np.count_nonzero(x) >= 2 and np.any(u != 0))
    T.note(x=list(np.round(x, 4)), u=list(np.round(u, 4)))


def compare(T, dyn, ref, x, u, atol=1e-9, rtol=1e-9):
    """array and tensor evaluation equal the reference."""
    xi, ui = x.copy(), u.copy()
    a = dyn(xi, ui)
    T.check(isinstance(a, np.ndarray), "array in, array out")
    e = ref(x, u)
    T.close(a, e, "array dynamics differ from the equations of motion", atol,
            rtol)
    T.close(xi, x, "state modified", 0, 0)
    T.close(ui, u, "control modified", 0, 0)
    t = dyn(torch.tensor(x, dtype=torch.float64),
            torch.tensor(u, dtype=torch.float64))
    T.check(isinstance(t, torch.Tensor) and t.dtype == torch.float64,
            "tensor in, tensor out")
    T.close(t, e, "tensor dynamics differ from the equations of motion",
            atol, rtol)
    return e


def autojac(dyn, x, u):
    return torch.autograd.functional.jacobian(
        dyn, (torch.tensor(x, dtype=torch.float64),
              torch.tensor(u, dtype=torch.float64)))


def check_jac(T, A, B, ref, x, u, what):
    n = len(x)
    J = cjac(lambda z: ref(z[:n], z[n:]), np.concatenate((x, u)))
    T.close(A, J[:, :n], what + ": state Jacobian", 1e-8, 1e-8)
    T.close(B, J[:, n:], what + ": control Jacobian", 1e-8, 1e-8)


def check_lqr(T, A, B, Q, R, K, S=None):
    K = to_np(K)
    P = scipy.linalg.solve_continuous_are(A, B, Q, R)
    Kref = -np.linalg.inv(R) @ B.T @ P
    sc = 1 + np.abs(Kref).max()
    T.close(K, Kref, "LQR gain", 1e-6 * sc, 1e-6)
    if S is not None:
        T.close(S, P, "LQR cost-to-go", 1e-6 * (1 + np.abs(P).max()), 1e-6)
    ev = np.linalg.eigvals(A + B @ K)
    T.check(np.all(ev.real < 0), "LQR closed loop unstable", ev=ev.real)


# ------------------------------------------------------------- pendulum
def pend_ref(p):
    def f(x, u):
        m, l_, b = p.mass, p.length, p.damping
        return np.array([x[1], (u[0] - m * p.gravity * l_ * np.sin(x[0]) -
                                b * x[1]) / (m * l_ * l_)])
    return f


@case(quick=600, thorough=20000)
def pendulum_model(T):
    p = pendulum.Pendulum(torch.float64)
    T.check(p.gravity == G, "gravity")
    params(T, p, ["mass", "length", "damping"])
    x, u = draw_state(T, 2, -7, 7), draw_state(T, 1)
    mark(T, x, u)
    ref = pend_ref(p)
    compare(T, p.dynamics, ref, x, u)
    A, B = p.dynamics_gradient(torch.tensor(x))
    check_jac(T, A, B, ref, x, u, "pendulum")
    # energies: numpy == torch, and power balance dE/dt = u*w - b*w^2
    tx = torch.tensor(x)
    for fn in (p.potential_energy, p.kinetic_energy):
        T.close(fn(x), float(fn(tx)), "energy numpy/torch")
    T.close(p.kinetic_energy(x), .5 * p.mass * (p.length * x[1])**2,
            "kinetic energy")
    tx.requires_grad = True
    E = p.potential_energy(tx) + p.kinetic_energy(tx)
    dE = torch.autograd.grad(E, tx)[0].numpy()
    T.close(dE @ ref(x, u), u[0] * x[1] - p.damping * x[1]**2,
            "energy balance", 1e-8, 1e-8)
    # equilibria
    for th in (0., np.pi):
        T.close(p.dynamics(np.array([th, 0.]), np.zeros(1)), np.zeros(2),
                "equilibrium", 1e-12)
    # energy shaping drives the energy towards the desired one
    xd = np.array([np.pi, 0.])
    gain = T.float(0.1, 3.)
    c = p.energy_shaping_control(x, xd, gain)
    T.check(c.shape == (1, ), "control shape")
    Ed = p.potential_energy(xd) + p.kinetic_energy(xd)
    dEn = float(E.detach()) - Ed
    T.close(c[0], -gain * (x[1] if x[1] != 0 else 1.) * dEn,
            "energy-shaping law", 1e-9, 1e-9)
    T.check(x[1] == 0 or c[0] * x[1] * dEn <= 1e-12,
            "energy-shaping control pumps energy the wrong way")
    if T.int(0, 3) == 0:
        Q = np.diag(T.array((2, ), .1, 10))
        R = np.array([[T.float(.1, 5)]])
        K = p.lqr_control(Q, R)
        A, B = p.dynamics_gradient(torch.tensor([np.pi, 0.],
                                                dtype=torch.float64))
        check_lqr(T, A.numpy(), B.numpy(), Q, R, K)


# ----------------------------------------------------------------- pole
def pole_ref(p, finding=False):
    """finding: with the listed finding's wrong sign of the Coriolis cross
    term in the vertical force balance.  Lagrangian mechanics: end effector mass at position r, sphere at
    r + (x, y, z(x, y)); M(q) vdot + bias = force, derived from the kinetic
    and potential energy through the constraint Jacobian."""
    def f(x, u):
        xa, ya = x[0], x[1]
        xd, yd = x[5], x[6]
        z = np.sqrt(p.length**2 - xa**2 - ya**2)
        # sphere velocity = v_A + J [xd, yd], J = d(x,y,z)/d(x,y)
        zx, zy = -xa / z, -ya / z
        J = np.zeros((3, 5), dtype=np.result_type(x))
        J[0, 0] = J[1, 1] = J[2, 2] = 1
        J[0, 3] = 1
        J[1, 4] = 1
        J[2, 3] = zx
        J[2, 4] = zy
        # z'' = zx xdd + zy ydd + (zxx xd^2 + 2 zxy xd yd + zyy yd^2)
        zxx = -(p.length**2 - ya**2) / z**3
        zyy = -(p.length**2 - xa**2) / z**3
        zxy = -xa * ya / z**3
        bias = np.array([0, 0, zxx * xd**2 + 2 * zxy * xd * yd +
                         zyy * yd**2])
        Ja = np.zeros((3, 5))
        Ja[0, 0] = Ja[1, 1] = Ja[2, 2] = 1
        M = p.m_ee * Ja.T @ Ja + p.m_sphere * J.T @ J
        gv = np.array([0, 0, -p.gravity])
        rhs = np.concatenate((u, [0, 0])) + p.m_ee * Ja.T @ gv + \
            p.m_sphere * J.T @ (gv - bias)
        if finding:
            rhs[2] += 4 * p.m_sphere * zxy * xd * yd
        return np.concatenate((x[5:], np.linalg.solve(M, rhs)))
    return f


@case(quick=600, thorough=20000)
def pole_model(T):
    L = T.float(0.5, 2.)
    p = pole.Pole(T.float(0.05, 3), T.float(0.1, 3), L)
    r = T.float(0., 0.9) * L
    a = T.float(0, 2 * np.pi)
    x = draw_state(T, 7)
    x[0], x[1] = r * np.cos(a), r * np.sin(a)
    u = draw_state(T, 3, -10, 10)
    mark(T, x, u)
    ref = pole_ref(p)
    # the listed finding: accepted only as exactly that formula
    wrong = pole_ref(p, True)
    xp = np.array([.3 * L, .4 * L, .1, -.2, .3, 1., 2.])
    listed = (not np.allclose(p.dynamics(xp, u), ref(xp, u), 1e-8, 1e-8)
              and np.allclose(p.dynamics(xp, u), wrong(xp, u), 1e-8, 1e-8))
    if listed:
        ref = wrong
    compare(T, p.dynamics, ref, x, u, 1e-8, 1e-8)
    tx = torch.tensor(x)
    tu = torch.tensor(u)
    A, B = p.gradient(tx, tu)
    check_jac(T, A, B, ref, x, u, "pole")
    T.check(not tx.requires_grad and not tu.requires_grad,
            "gradient() changed requires_grad")
    ue = np.array([0, 0, (p.m_sphere + p.m_ee) * p.gravity])
    T.close(p.dynamics(np.zeros(7), ue), np.zeros(7), "equilibrium", 1e-9)
    if listed and x[0] * x[1] * x[5] * x[6] != 0:
        T.known("Pole.dynamics cross term")
    # energy balance: d/dt(T+V) = u . v_A.
    z = np.sqrt(L**2 - x[0]**2 - x[1]**2)

    def energy(s):
        zz = np.sqrt(L**2 - s[0]**2 - s[1]**2)
        zd = -(s[0] * s[5] + s[1] * s[6]) / zz
        vs = s[2:5] + np.array([s[5], s[6], zd])
        return .5 * p.m_ee * s[2:5] @ s[2:5] + .5 * p.m_sphere * vs @ vs + \
            p.m_sphere * p.gravity * zz
    dE = cjac(lambda s: np.array([energy(s)]), x)[0]
    xdot = p.dynamics(x, u)
    # plus potential of the end-effector height (not a state)
    power = dE @ xdot + (p.m_ee + p.m_sphere) * p.gravity * x[4]
    T.close(power, u @ x[2:5], "energy balance",
            1e-7 * (1 + np.abs(xdot).max()**2), 1e-6)
    T.check(z > 0, "generator")


# --------------------------------------------------------------- rockets
def rocket_ref(p):
    def f(x, u):
        c, s = np.cos(x[2]), np.sin(x[2])
        return np.array([x[3], x[4], x[5], (c * u[0] - s * u[1]) / p.mass,
                         (s * u[0] + c * u[1]) / p.mass - p.gravity,
                         .5 * p.length * u[0] / p.inertia])
    return f


def rocket2_ref(p):
    """bottom = centre - (L/2) * body axis, axis = (-sin, cos)."""
    r1 = rocket_ref(p)

    def f(x, u):
        c, s = np.cos(x[2]), np.sin(x[2])
        w = x[5]
        acc = r1(x, u)[3:]
        al = acc[2]
        h = p.length / 2
        # d2/dt2 (-sin, cos) = al*(-cos, -sin) + w^2*(sin, -cos)
        ax = al * (-c) + w * w * s
        az = al * (-s) - w * w * c
        return np.array([x[3], x[4], x[5], acc[0] - h * ax, acc[1] - h * az,
                         al])
    return f


@case(quick=600, thorough=20000)
def rocket_models(T):
    for cls, mk in ((rocket.Rocket, rocket_ref), (rocket.Rocket2,
                                                  rocket2_ref)):
        p = cls()
        params(T, p, ["mass", "length", "inertia"])
        x, u = draw_state(T, 6), draw_state(T, 2, -8, 8)
        mark(T, x, u)
        ref = mk(p)
        compare(T, p.dynamics, ref, x, u)
        A, B = p.linearized_dynamics(x.copy(), u.copy())
        check_jac(T, A, B, ref, x, u, cls.__name__)
        T.close(p.hover_thrust, p.mass * p.gravity, "hover thrust")
        xe = np.zeros(6)
        xe[:2] = x[:2]
        T.close(p.dynamics(xe, np.array([0, p.hover_thrust])), np.zeros(6),
                "hover is not an equilibrium", 1e-9)


# ----------------------------------------------------------- planar quad
def quad2_ref(p):
    def f(x, u):
        return np.array([x[3], x[4], x[5],
                         -np.sin(x[2]) * (u[0] + u[1]) / p.mass,
                         np.cos(x[2]) * (u[0] + u[1]) / p.mass - p.gravity,
                         p.length * (u[0] - u[1]) / p.inertia])
    return f


@case(quick=600, thorough=20000)
def quadrotor2d_model(T):
    p = quadrotor_2d.Quadrotor2D(torch.float64)
    params(T, p, ["mass", "length", "inertia"])
    x, u = draw_state(T, 6), draw_state(T, 2, 0, 8)
    mark(T, x, u)
    ref = quad2_ref(p)
    compare(T, p.dynamics, ref, x, u)
    A, B = p.linearized_dynamics(x, u)
    check_jac(T, A, B, ref, x, u, "quadrotor2d array")
    A2, B2 = p.linearized_dynamics(torch.tensor(x), torch.tensor(u))
    T.close(A2, A, "tensor linearization", 1e-12)
    T.close(B2, B, "tensor linearization", 1e-12)
    ue = p.u_equilibrium
    T.close(p.dynamics(np.zeros(6), ue.numpy()), np.zeros(6), "equilibrium",
            1e-9)
    k = T.int(0, 3)
    if k == 0:
        Q = np.diag(T.array((6, ), .5, 10))
        R = np.diag(T.array((2, ), .5, 5))
        tens = T.bool()
        xe = torch.zeros(6, dtype=torch.float64)
        K, S = p.lqr_control(Q, R, xe if tens else xe.numpy(),
                             ue if tens else ue.numpy())
        A, B = p.linearized_dynamics(np.zeros(6), ue.numpy())
        check_lqr(T, A, B, Q, R, K, S)
        T.label("lqr")
    elif k == 1:
        dt = T.float(0.01, 0.1)
        T.label("next_pose")
        xn = p.next_pose(torch.tensor(x) if T.bool() else x, u, dt)
        T.close(xn, integrate(lambda s: ref(s, u), x, dt), "next pose",
                2e-2 * dt * 10, 5e-3)


def integrate(f, x, dt, n=200):
    h = dt / n
    for _ in range(n):
        k1 = f(x)
        k2 = f(x + h / 2 * k1)
        k3 = f(x + h / 2 * k2)
        k4 = f(x + h * k3)
        x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return x


# ---------------------------------------------------------------- 3d quad
def quad3_ref(p):
    """Newton-Euler from the rotor geometry: rotor i at arm position r_i,
    thrust u_i along body z, drag torque +-c*u_i about body z.  Attitude
    kinematics from R' = R [w]x solved for the roll-pitch-yaw rates."""
    arms = p.arm_length * np.array([[1., 0, 0], [0, 1., 0], [-1., 0, 0],
                                    [0, -1., 0]])
    spin = np.array([1., -1., 1., -1.]) * p.z_torque_to_force_factor

    def rot(rpy):
        cr, sr = np.cos(rpy[0]), np.sin(rpy[0])
        cp, sp = np.cos(rpy[1]), np.sin(rpy[1])
        cy, sy = np.cos(rpy[2]), np.sin(rpy[2])
        return np.array([
            [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
            [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
            [-sp, cp * sr, cp * cr]])

    def f(x, u):
        rpy, w = x[3:6], x[9:12]
        R = rot(rpy)
        acc = R[:, 2] * np.sum(u) / p.mass - np.array([0, 0, p.gravity])
        tau = 0
        for i in range(4):
            F = np.array([0, 0, 1.]) * u[i]
            tau = tau + np.cross(arms[i], F) + np.array([0, 0, 1.]) * \
                spin[i] * u[i]
        wd = (tau - np.cross(w, p.inertia * w)) / p.inertia
        # body rates in terms of euler rates:
        # w = [1 0 -sp; 0 cr cp*sr; 0 -sr cp*cr] rpydot
        cr, sr = np.cos(rpy[0]), np.sin(rpy[0])
        cp, sp = np.cos(rpy[1]), np.sin(rpy[1])
        E = np.array([[1., 0, -sp], [0, cr, cp * sr], [0, -sr, cp * cr]])
        rpyd = np.linalg.solve(E, w)
        return np.concatenate((x[6:9], rpyd, acc, wd))
    return f, rot


@case(quick=600, thorough=20000)
def quadrotor3d_model(T):
    p = quadrotor.Quadrotor(torch.float64)
    if T.bool():
        p.mass = T.float(.2, 2)
        p.arm_length = T.float(.1, 1)
        p.inertia = T.array((3, ), 2e-3, 2e-2)
        p.z_torque_to_force_factor = T.float(.01, .2)
    x = draw_state(T, 12)
    x[4] = T.float(-1.2, 1.2)
    u = draw_state(T, 4, 0, 5)
    mark(T, x, u)
    ref, rot = quad3_ref(p)
    xdot = compare(T, p.dynamics, ref, x, u, 1e-7, 1e-8)
    A, B = p.dynamics_gradient(x.copy(), u.copy())
    check_jac(T, A, B, ref, x, u, "quadrotor3d")
    # the roll-pitch-yaw rates reproduce R' = R [w]x
    dR = np.imag(rot(x[3:6] + 1e-30j * p.dynamics(x, u)[3:6])) / 1e-30
    w = x[9:12]
    W = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    T.close(dR, rot(x[3:6]) @ W, "attitude kinematics", 1e-7, 1e-7)
    # hover with any yaw and position
    q = quadrotor.Quadrotor(torch.float64)
    xe = np.zeros(12)
    xe[:3] = x[:3]
    xe[5] = x[5]
    T.close(q.dynamics(xe, np.full(4, q.hover_thrust)), np.zeros(12),
            "hover is not an equilibrium", 1e-9)


# ------------------------------------------------------------------ cars
def uni_ref(x, u):
    return np.array([u[0] * np.cos(x[2]), u[0] * np.sin(x[2]), u[1]])


@case(quick=600, thorough=20000)
def unicycle_model(T):
    p = unicycle.Unicycle(torch.float64)
    x, u = draw_state(T, 3, -7, 7), draw_state(T, 2)
    mark(T, x, u)
    compare(T, p.dynamics, uni_ref, x, u)
    A, B = p.dynamics_gradient(x, u)
    check_jac(T, A, B, uni_ref, x, u, "unicycle array")
    A, B = p.dynamics_gradient(torch.tensor(x), torch.tensor(u))
    check_jac(T, A, B, uni_ref, x, u, "unicycle tensor")
    dt = T.float(0.01, 1.)
    xn = p.next_pose(torch.tensor(x) if T.bool() else x,
                     torch.tensor(u) if T.bool() else u, dt)
    # exact: constant turn rate arc
    th1 = x[2] + u[1] * dt
    if abs(u[1]) > 1e-9:
        e = np.array([x[0] + u[0] / u[1] * (np.sin(th1) - np.sin(x[2])),
                      x[1] - u[0] / u[1] * (np.cos(th1) - np.cos(x[2])),
                      th1])
    else:
        e = x + dt * uni_ref(x, u)
    T.close(xn, e, "next pose is not on the arc", 2e-2, 5e-3)


def accel_ref(x, u):
    return np.array([np.cos(x[2]) * x[3], np.sin(x[2]) * x[3], u[0], u[1]])


@case(quick=600, thorough=20000)
def acceleration_car_model(T):
    p = acceleration_car.AccelerationCar(torch.float64)
    x, u = draw_state(T, 4, -4, 4), draw_state(T, 2)
    mark(T, x, u)
    ref = accel_ref
    T.close(p.dynamics(x.copy(), u.copy()), ref(x, u), "array dynamics")
    dt = T.float(0.01, .8)
    xn = p.next_pose(x, u, dt)
    T.check(xn.shape == (3, ), "pose shape")
    T.close(xn, integrate(lambda s: ref(s, u), x, dt)[:3], "next pose", 2e-2,
            5e-3)


@case(quick=100, thorough=2000)
def acceleration_car_tensor(T):
    p = acceleration_car.AccelerationCar(torch.float64)
    x, u = draw_state(T, 4, -4, 4), draw_state(T, 2)
    mark(T, x, u)
    try:
        p.dynamics(torch.tensor(x), torch.tensor(u))
    except RuntimeError as e:
        if "zero-dimensional tensor" in str(e):
            T.known("AccelerationCar.dynamics on tensors")
        raise
    compare(T, p.dynamics, accel_ref, x, u)
