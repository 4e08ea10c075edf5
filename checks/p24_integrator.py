# TECHNIQUE: property-based testing (Hypothesis): differential against an independent RK4, the degree-4 matrix Taylor polynomial and exact polynomial motion
import numpy as np
import torch

from pbt import case
from neural_network_lyapunov import integrator

PROPERTY = "P24"
SCALE = 4
RULE = ("a case is non-trivial when at least one integration step of non-zero "
        "length is taken and the dynamics depend on the state or control")
ASSUMPTIONS = ["dynamics functions are deterministic"]


def _nl(kind, A, B, c, lib):
    def f(x, u):
        z = A @ x + B @ u + c
        if kind == 0:
            return z
        if kind == 1:
            return lib.sin(z) + A @ (x * x)
        return lib.tanh(z) * x + lib.cos(x)
    return f


@case(quick=1500, thorough=40000, large=60)
def rk4_reference(T):
    n = T.span(1, 4, 1, 13)
    m = T.span(1, 3, 1, 8)
    A = T.array((n, n), -2, 2)
    B = T.array((n, m), -2, 2)
    c = T.array((n, ), -1, 1)
    K = T.array((m, n), -2, 2)
    k0 = T.array((m, ), -1, 1)
    x0 = T.array((n, ), -2, 2)
    dt = T.float(0.0, 0.3)
    steps = T.span(0, 6, 8, 150)
    kind = T.int(0, 2)
    use_torch = T.bool()
    T.label("torch" if use_torch else "numpy", f"kind{kind}")
    T.note(n=n, m=m, dt=dt, steps=steps, kind=kind)
    T.nontrivial(steps > 0 and dt > 0)
    f = _nl(kind, A, B, c, np)
    calls = []
    us = []
    if use_torch:
        tA, tB, tc = map(torch.from_numpy, (A, B, c))
        ft = _nl(kind, tA, tB, tc, torch)

        def ctrl(x):
            calls.append(x.detach().numpy().copy())
            return torch.from_numpy(K) @ x + torch.from_numpy(k0)

        def dyn(x, u):
            us.append(u.detach().numpy().copy())
            return ft(x, u)
        xin = torch.from_numpy(x0.copy())
    else:
        def ctrl(x):
            calls.append(x.copy())
            return K @ x + k0

        def dyn(x, u):
            us.append(u.copy())
            return f(x, u)
        xin = x0.copy()
    x, u = integrator.rk4_constant_control(dyn, ctrl, xin, dt, steps)
    T.check(type(x) is type(xin), "result type differs from the state's type")
    # reference
    uref = K @ x0 + k0
    xr = x0.copy()
    for _ in range(steps):
        k1 = f(xr, uref)
        k2 = f(xr + 0.5 * dt * k1, uref)
        k3 = f(xr + 0.5 * dt * k2, uref)
        k4 = f(xr + dt * k3, uref)
        xr = xr + (k1 + 2. * (k2 + k3) + k4) * (dt / 6.)
    if not np.all(np.isfinite(xr)) or np.max(np.abs(xr)) > 1e8:
        T.reject("diverging motion")
    T.close(u, uref, "control is not the policy at the start state")
    T.close(x, xr, "state is not the classical RK4 state", 1e-9, 1e-8)
    for v in us:
        T.close(v, uref, "the control changed during the step")
    T.close(xin, x0, "the start state was modified", 0, 0)


@case(quick=800, thorough=20000, large=40)
def linear_is_degree4_taylor(T):
    """For a linear system one RK4 step is the degree-4 Taylor polynomial of
    the flow (control held constant)."""
    n = T.int(1, 4)
    m = T.int(1, 2)
    A = T.array((n, n), -2, 2)
    B = T.array((n, m), -2, 2)
    x0 = T.array((n, ), -2, 2)
    u0 = T.array((m, ), -2, 2)
    dt = T.float(0.01, 0.5)
    steps = T.span(1, 5, 8, 80)
    T.nontrivial(np.any(A != 0))
    Ab = np.zeros((n + m, n + m))
    Ab[:n, :n] = A
    Ab[:n, n:] = B
    P = np.eye(n + m)
    term = np.eye(n + m)
    for k in range(1, 5):
        term = term @ Ab * dt / k
        P = P + term
    z = np.concatenate((x0, u0))
    for _ in range(steps):
        z = P @ z
        z[n:] = u0
    x, u = integrator.rk4_constant_control(lambda x, u: A @ x + B @ u,
                                           lambda x: u0, x0, dt, steps)
    T.close(x, z[:n], "linear motion differs from the Taylor polynomial",
            1e-9, 1e-8)


@case(quick=600, thorough=10000, large=40)
def polynomial_motion_exact(T):
    """state (t, y) with dt/dt = 1, dy/dt = cubic(t) is integrated exactly."""
    c = T.array((4, ), -3, 3)
    t0 = T.float(-2, 2)
    y0 = T.float(-2, 2)
    dt = T.float(0.01, 1.)
    steps = T.span(1, 6, 8, 150)
    T.nontrivial(c[3] != 0)

    def F(t):
        return c[0] * t + c[1] * t**2 / 2 + c[2] * t**3 / 3 + c[3] * t**4 / 4
    x, _ = integrator.rk4_constant_control(
        lambda x, u: np.array([
            1., c[0] + c[1] * x[0] + c[2] * x[0]**2 + c[3] * x[0]**3]),
        lambda x: np.zeros(1), np.array([t0, y0]), dt, steps)
    t1 = t0 + dt * steps
    T.close(x, [t1, y0 + F(t1) - F(t0)], "cubic velocity not exact", 1e-8,
            1e-8)


@case(quick=60, thorough=800)
def fourth_order(T):
    """Halving dt divides the error by about 16 on a smooth nonlinear system
    with a known solution (logistic / rotating frame)."""
    y0 = T.float(0.1, 0.9)
    r = T.float(0.5, 2.)
    t1 = T.float(0.5, 1.5)

    def exact(t):
        return y0 * np.exp(r * t) / (1 - y0 + y0 * np.exp(r * t))

    def run(n):
        x, _ = integrator.rk4_constant_control(
            lambda x, u: u * x * (1 - x), lambda x: np.array([r]),
            np.array([y0]), t1 / n, n)
        return abs(x[0] - exact(t1))
    e1, e2 = run(8), run(16)
    T.nontrivial(True)
    # fourth order: ratio 16; allow slack near sign changes of the error
    T.check(e2 <= e1 / 7 + 1e-9 and e1 < 2e-3,
            "error does not decrease with fourth order", e1=e1, e2=e2)
