# TECHNIQUE: property-based testing (Hypothesis): generated networks, boxes, states and inputs for every example-specific network model and its controllers; evaluation against a numpy model; the generated programs examined by an independent MILP oracle
# NOTE: states and inputs are generated inside the model's box, which contains its equilibrium or not; the models of which the closed loop cannot be built are listed as known findings.
"""P27 Example-specific network models."""
import gurobipy
import numpy as np

import cvxpatch  # noqa: F401
import gen
import mipo
import prog
from pbt import case, to_np
import neural_network_lyapunov.feedback_system as feedback_system
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.mip_utils as mip_utils
import neural_network_lyapunov.r_options as r_options
import neural_network_lyapunov.examples.car.acceleration_car as acar
import neural_network_lyapunov.examples.car.unicycle as unicycle
import neural_network_lyapunov.examples.car.unicycle_feedback_system as ufs
import neural_network_lyapunov.examples.pendulum.pendulum as pendulum
import neural_network_lyapunov.examples.pole.pole_relu_system as pole
import neural_network_lyapunov.examples.quadrotor2d.quadrotor_2d as quad2
import neural_network_lyapunov.examples.quadrotor3d.quadrotor as quad3
import neural_network_lyapunov.examples.quadrotor3d.\
    quadrotor_feedback_system as qfs

PROPERTY = "P27"
SCALE = 3
RULE = ("the network has a unit that changes sides on the box (for "
        "evaluation cases: the batch has two elements on different pieces)")
ASSUMPTIONS = ["gurobipy stand-in", "encoding tolerance 1e-5 (relative)"]
G = gurobipy.GRB
M = mip_utils.PropagateBoundsMethod


class Model:
    def one(self, x, u):
        return self.f(np.asarray(x, float), np.asarray(u, float))


#         (nx, nu, network inputs, network outputs)
SIZES = dict(unicycle=(3, 2, None, 2), zerovel=(3, 2, None, 2),
             accel=(4, 2, 4, 2), pole=(7, 3, 7, 5), pixhawk=(9, 4, 7, 6),
             quad3=(12, 4, 10, 9), quad2=(6, 2, 3, 3), pendulum=(2, 1, 3, 1))
KINDS = tuple(SIZES)


def draw(T, kinds=KINDS, max_hidden=2, max_width=3):
    m = Model()
    m.kind = T.choice(kinds)
    m.nx, m.nu, nin, nout = SIZES[m.kind]
    td = T.bool()
    if nin is None:
        nin = 3 if td else 2
    m.net = net = gen.net(T, nin, nout, max_hidden=max_hidden,
                          max_width=max_width)
    m.xeq, m.ueq = np.zeros(m.nx), np.zeros(m.nu)
    dt = T.choice((.1, .01, .5, 1.))
    m.dt = dt
    hover = T.choice((.5, 1., 2.25))
    if T.int(0, 2):
        m.lo, m.up = gen.sym_box(T, m.nx)
        l, u = gen.sym_box(T, m.nu)
    else:
        m.lo, m.up = gen.box(T, m.nx)
        l, u = gen.box(T, m.nu)
    if m.kind == "pole":
        m.ueq[2] = hover
    elif m.kind == "pixhawk":
        m.ueq[3] = hover
    elif m.kind == "quad3":
        m.ueq[:] = hover
    elif m.kind == "quad2":
        m.ueq = T.array((2, ), 0., 2.)
    elif m.kind == "pendulum":
        m.xeq = np.array([np.pi, 0.])
        m.lo, m.up = m.lo + m.xeq, m.up + m.xeq
    m.ulo, m.uup = l + m.ueq, u + m.ueq
    if m.kind == "zerovel" and T.bool():
        m.ulo[0] = 0.
        m.uup[0] = max(m.uup[0], .5)
    b = [gen.t(v) for v in (m.lo, m.up, m.ulo, m.uup)]
    A = [gen.DT] + b + [net.torch]
    cat = np.concatenate
    if m.kind in ("unicycle", "zerovel"):
        cls = unicycle.UnicycleReLUModel if m.kind == "unicycle" else \
            unicycle.UnicycleReLUZeroVelModel
        m.code = cls(*A, dt, td)
        T.label("thetadot" if td else "no thetadot")

        def z(x, u):
            return cat((x[2:3], u if td else u[:1]))

        def f(x, u):
            u0 = np.array([0., u[1]])
            ref = z(np.zeros(3), np.zeros(2)) if m.kind == "unicycle" else \
                z(x, u0)
            return cat((x[:2] + net(z(x, u)) - net(ref),
                        [x[2] + dt * u[1]]))
    elif m.kind == "accel":
        m.code = acar.AccelerationCarReLUModel(*A, dt)

        def z(x, u):
            return cat((x[2:], u))

        def f(x, u):
            return cat((x[:2] + net(z(x, u)) - net(np.zeros(4)),
                        x[2:] + dt * u))
    elif m.kind == "pole":
        m.code = pole.PoleReluSystem(*b, net.torch, dt, hover)

        def z(x, u):
            return cat((x[:2], x[5:], u))

        def f(x, u):
            v = x[2:] + net(z(x, u)) - net(z(m.xeq, m.ueq))
            return cat((x[:2] + (x[5:] + v[3:]) * dt / 2, v))
    elif m.kind == "pixhawk":
        m.code = quad3.QuadrotorWithPixhawkReLUSystem(*A, hover, dt)

        def z(x, u):
            return cat((x[3:6], u))

        def f(x, u):
            d = net(z(x, u)) - net(z(m.xeq, m.ueq))
            v = x[6:] + d[:3]
            return cat((x[:3] + (v + x[6:]) * dt / 2, x[3:6] + d[3:], v))
    elif m.kind == "quad3":
        m.code = quad3.QuadrotorReLUSystem(*A, hover, dt)

        def z(x, u):
            return cat((x[3:6], x[9:], u))

        def f(x, u):
            d = net(z(x, u)) - net(z(m.xeq, m.ueq))
            v = x[6:9] + d[3:6]
            return cat((x[:3] + (v + x[6:9]) * dt / 2, d[:3], v, d[6:]))
    elif m.kind == "quad2":
        m.code = quad2.QuadrotorReluContinuousTime(*A, gen.t(m.ueq))

        def z(x, u):
            return cat((x[2:3], u))

        def f(x, u):
            return cat((x[3:], net(z(x, u)) - net(z(m.xeq, m.ueq))))
    else:
        m.code = pendulum.PendulumReluContinuousTime(*A)

        def z(x, u):
            return cat((x, u))

        def f(x, u):
            return cat((x[1:], net(z(x, u)) - net(z(m.xeq, m.ueq))))
    m.z, m.f = z, f
    m.continuous = m.kind in ("quad2", "pendulum")
    if hasattr(m.code, "network_bound_propagate_method"):
        m.method = T.choice((M.IA, M.LP, M.MIP, M.IA_MIP))
        m.code.network_bound_propagate_method = m.method
        T.label(m.method.name)
    T.label(m.kind)
    T.note(kind=m.kind, widths=net.hidden, dt=dt, thetadot=td)
    return m


def netbox(m, ulo=None, uup=None):
    a = m.z(m.lo, m.ulo if ulo is None else ulo)
    b = m.z(m.up, m.uup if uup is None else uup)
    return a, b


def crossing(m):
    pl, pu, _, _ = m.net.ia(*netbox(m))
    return bool(np.any((np.concatenate(pl) < 0) & (np.concatenate(pu) > 0)))


def state(T, m):
    return gen.inside(T, m.lo, m.up)


@case(quick=300, thorough=12000, shards=2, weight=4)
def evaluate(T):
    m = draw(T)
    n = T.count(1, 4)
    X = np.array([state(T, m) for _ in range(n)])
    U = np.array([gen.inside(T, m.ulo, m.uup) for _ in range(n)])
    ref = np.array([m.one(x, u) for x, u in zip(X, U)])
    pats = set()
    for x, u, y in zip(X, U, ref):
        pats.add(tuple(np.concatenate(m.net.layers(m.z(x, u))[0]) > 0))
        a, b = gen.t(x), gen.t(u)
        v = m.code.step_forward(a, b)
        T.check(tuple(v.shape) == (m.nx, ), "shape", got=tuple(v.shape))
        T.close(v, y, "next state", 1e-9, 1e-9, x=x, u=u)
        if hasattr(m.code, "possible_dx"):
            d = m.code.possible_dx(a, b)
            T.check(len(d) == 1, "one possible next state", got=len(d))
            T.close(d[0], y, "possible next state", 1e-9, 1e-9)
        T.close(a, x, "the state was changed", 0, 0)
        T.close(b, u, "the input was changed", 0, 0)
    T.nontrivial(len(pats) > 1)
    Y = m.code.step_forward(gen.t(X), gen.t(U))
    T.check(tuple(Y.shape) == (n, m.nx), "shape of a batch",
            got=tuple(Y.shape))
    T.close(Y, ref, "batch of next states", 1e-9, 1e-9)
    # the equilibrium
    if np.all(m.ueq >= m.ulo) and np.all(m.ueq <= m.uup):
        T.label("equilibrium")
        y = m.code.step_forward(m.code.x_equilibrium, m.code.u_equilibrium)
        T.close(y, np.zeros(m.nx) if m.continuous else m.xeq,
                "the equilibrium is not kept", 1e-12, 1e-12)
    T.close(m.code.x_equilibrium, m.xeq, "equilibrium state", 1e-12, 0)
    T.close(m.code.u_equilibrium, m.ueq, "equilibrium input", 1e-12, 0)
    if m.kind not in ("pendulum", "quad2"):
        # the first positions only add up
        k = 0 if m.kind == "pole" else 2 if m.kind in (
            "unicycle", "zerovel", "accel") else 3
        if k:
            d = np.zeros(m.nx)
            d[:k] = T.array((k, ), -3., 3.)
            Y2 = m.code.step_forward(gen.t(X + d), gen.t(U))
            T.close(Y2 - Y, np.tile(d, (n, 1)), "a shift of the position "
                    "changes the motion", 1e-9, 1e-9)
    if m.kind == "zerovel" and m.ulo[0] <= 0 <= m.uup[0]:
        U0 = U.copy()
        U0[:, 0] = 0.
        Y0 = m.code.step_forward(gen.t(X), gen.t(U0))
        T.close(Y0[:, :2], X[:, :2], "the car moves without velocity",
                1e-12, 1e-12)
        T.label("zero velocity")
    T.close(m.code.x_lo_all, m.lo, "state bound", 0, 0)
    T.close(m.code.x_up_all, m.up, "state bound", 0, 0)
    m.net.unchanged(T)


@case(quick=260, thorough=8000, shards=4, weight=18)
def program(T):
    """add_dynamics_constraint()"""
    m = draw(T, max_hidden=2 if T.int(0, 2) == 0 else 1)
    T.nontrivial(crossing(m))
    mip = gtm.GurobiTorchMILP(gen.DT)
    x_var = mip.addVars(m.nx, lb=-G.INFINITY)
    y_var = mip.addVars(m.nx, lb=-G.INFINITY)
    u_var = mip.addVars(m.nu, lb=-G.INFINITY)
    kw = {}
    relax = m.kind != "unicycle" and T.int(0, 3) == 0
    if m.kind != "unicycle":
        kw["binary_var_type"] = T.choice((G.CONTINUOUS, gtm.BINARYRELAX)) \
            if relax else G.BINARY
    ulo, uup = m.ulo, m.uup
    if T.int(0, 2) == 0:
        T.label("additional input bounds")
        mid = gen.inside(T, m.ulo, m.uup)
        al = mid - T.array((m.nu, ), 0., 2.)
        au = mid + T.array((m.nu, ), 0., 2.)
        if T.int(0, 3):
            kw["additional_u_lo"] = gen.t(al)
            ulo = np.maximum(ulo, al)
        if T.int(0, 3):
            kw["additional_u_up"] = gen.t(au)
            uup = np.minimum(uup, au)
    ret = m.code.add_dynamics_constraint(mip, x_var, y_var, u_var, "s", "b",
                                         **kw)
    if isinstance(ret, tuple):
        slack, binary = ret
    else:
        slack, binary = ret.slack, ret.binary
    m.net.unchanged(T)
    T.label("relaxed" if relax else "binary")
    nu = m.net.num_units
    T.check(len(slack) == nu and len(binary) == nu, "number of slack and "
            "binary variables", got=(len(slack), len(binary)), expected=nu)
    P = prog.Prog(mip)
    B = None
    if getattr(ret, "x_next_bound_prog", None) is not None:
        T.label("bound program")
        B = prog.Prog(ret.x_next_bound_prog)
    for k in range(3):
        x, u = state(T, m), gen.inside(T, ulo, uup)
        if k == 0 and np.all(m.xeq >= m.lo) and np.all(m.xeq <= m.up) and \
                np.all(m.ueq >= ulo) and np.all(m.ueq <= uup):
            x, u = m.xeq, m.ueq
        y = m.one(x, u)
        fix = [(x_var, x), (u_var, u)]
        if relax:
            P.covers(T, y_var, fix, y, "relaxed " + m.kind)
        else:
            P.exact(T, y_var, fix, y, m.kind)
        a = getattr(ret, "x_next_lb_IA", None)
        if a is not None:
            T.leq(to_np(a), y, "lower bound of the next state", 1e-6)
        a = getattr(ret, "x_next_ub_IA", None)
        if a is not None:
            T.leq(y, to_np(a), "upper bound of the next state", 1e-6)
        if B is not None:
            B.covers(T, ret.x_next_bound_var, [(ret.x_var, x)], y,
                     "bound program")
        if not isinstance(ret, tuple):
            z = m.z(x, u)
            pre, post, out = m.net.layers(z)
            for lo_, val, up_, what in (
                    ("relu_input_lo", np.concatenate(pre), "relu_input_up",
                     "pre-activation bound"),
                    ("relu_output_lo", np.concatenate(post),
                     "relu_output_up", "post-activation bound"),
                    ("nn_output_lo", out, "nn_output_up",
                     "network output bound"),
                    ("nn_input_lo", z, "nn_input_up",
                     "network input bound")):
                if getattr(ret, lo_, None) is not None:
                    T.leq(to_np(getattr(ret, lo_)), val, what, 1e-6)
                if getattr(ret, up_, None) is not None:
                    T.leq(val, to_np(getattr(ret, up_)), what, 1e-6)
    if not relax:
        zl, zu = netbox(m, ulo, uup)
        # (network inputs outside the box are not admitted)
        z = gen.outside(T, zl, zu)
        if m.kind == "zerovel" or m.continuous:
            return
        xs, us = state(T, m), gen.inside(T, ulo, uup)
        # put the network input into the state and the input
        ix = m.z(np.arange(m.nx), m.nx + np.arange(m.nu)).astype(int)
        v = np.concatenate((xs, us))
        v[ix] = z
        if P.opt(np.zeros(P.n), [(x_var, v[:m.nx]), (u_var, v[m.nx:])])[0] \
                != "infeasible":
            T.fail("a network input outside its range is admitted", x=v)


@case(quick=80, thorough=3000, shards=2, weight=14)
def encoding(T):
    """mixed_integer_constraints() of the continuous-time models"""
    m = draw(T, ("quad2", "pendulum"))
    T.nontrivial(crossing(m))
    kw, ulo, uup = {}, m.ulo, m.uup
    if T.int(0, 2) == 0:
        mid = gen.inside(T, m.ulo, m.uup)
        ulo = np.minimum(mid, gen.inside(T, m.ulo, m.uup))
        uup = np.maximum(mid, gen.inside(T, m.ulo, m.uup))
        kw = dict(u_lo=gen.t(ulo), u_up=gen.t(uup))
        T.label("tightened")
    c = m.code.mixed_integer_constraints(**kw)
    if T.bool():
        a = mipo.snapshot(c)
        c = m.code.mixed_integer_constraints(**kw)
        mipo.same(T, a, mipo.snapshot(c), "constraints generated again")
    st = mipo.Set(c)
    T.check(st.ni == m.nx + m.nu and st.no == m.nx, "sizes of the encoding",
            got=(st.ni, st.no))
    for k in range(3):
        x, u = state(T, m), gen.inside(T, ulo, uup)
        y = m.one(x, u)
        mipo.exact(T, st, np.concatenate((x, u)), y, m.kind)
        for a, s in (("x_next_lb", -1), ("x_next_ub", 1)):
            b = getattr(c, a, None)
            if b is not None:
                T.leq(s * y, s * to_np(b), "bound of the derivative", 1e-6)
    mipo.rejects(T, st, gen.outside(T, np.concatenate((m.lo, ulo)),
                                    np.concatenate((m.up, uup))), m.kind)
    m.net.unchanged(T)


# --- closed loops

def limits(T, m):
    lo, up = np.zeros(m.nu), np.zeros(m.nu)
    for i in range(m.nu):
        if T.bool():
            lo[i], up[i] = m.ulo[i], m.uup[i]
        else:
            lo[i] = m.ueq[i] - T.choice((.25, .5, 1.)) * (m.ueq[i] -
                                                          m.ulo[i])
            up[i] = m.ueq[i] + T.choice((.25, .5, 1.)) * (m.uup[i] -
                                                          m.ueq[i])
    return lo, up


def centred(T, kinds):
    m = draw(T, kinds, max_hidden=1)
    # (the box has to contain the equilibrium)
    for lo, up, e in ((m.lo, m.up, m.xeq), (m.ulo, m.uup, m.ueq)):
        if np.any(lo > e) or np.any(up < e) or np.any(up - lo < .1):
            T.reject("equilibrium outside the box")
    return m


def examine(T, m, code, control, hidden, relax):
    vt = T.choice((G.CONTINUOUS, gtm.BINARYRELAX)) if relax else G.BINARY
    mip = gtm.GurobiTorchMILP(gen.DT)
    x_var = mip.addVars(m.nx, lb=-G.INFINITY)
    y_var = mip.addVars(m.nx, lb=-G.INFINITY)
    try:
        u_var, fr, cr = code.add_dynamics_mip_constraint(
            mip, x_var, y_var, "u", "fs", "fb", "cs", "cb", vt)
    except TypeError as e:
        if m.kind in ("zerovel", "unicycle", "accel", "pole", "pixhawk") and \
                "unexpected keyword argument" in str(e):
            T.known("P27-closed-loop-" + m.kind)
        raise
    P = prog.Prog(mip)
    for _ in range(3):
        x = state(T, m)
        u = control(x)
        y = m.one(x, u)
        fix = [(x_var, x)]
        if relax:
            P.covers(T, u_var, fix, u, "relaxed closed loop: control")
            P.covers(T, y_var, fix, y, "relaxed closed loop")
        else:
            P.exact(T, u_var, fix, u, "closed loop: control")
            P.exact(T, y_var, fix, y, "closed loop")
        T.leq(to_np(cr.u_lower_bound), u, "lower bound of the control", 1e-6)
        T.leq(u, to_np(cr.u_upper_bound), "upper bound of the control", 1e-6)
        if cr.control_bound_prog is not None and \
                cr.control_bound_prog.prog is not None and \
                code.controller_network_bound_propagate_method != M.IA:
            Prog = prog.Prog(cr.control_bound_prog.prog)
            Prog.covers(T, cr.control_bound_prog.u_var,
                        [(cr.control_bound_prog.x_var, x)], u,
                        "program for the control's bounds")
        pre, post, _ = hidden.layers(x)
        for a, v, b, what in (
                (cr.relu_input_lo, pre, cr.relu_input_up, "controller: "
                 "pre-activation bound"),
                (cr.relu_output_lo, post, cr.relu_output_up, "controller: "
                 "post-activation bound")):
            v = np.concatenate(v)
            T.leq(to_np(a), v, what, 1e-6)
            T.leq(v, to_np(b), what, 1e-6)
        pre = m.net.layers(m.z(x, u))[0]
        if not isinstance(fr, tuple) and fr.relu_input_lo is not None:
            v = np.concatenate(pre)
            T.leq(to_np(fr.relu_input_lo), v, "dynamics: pre-activation "
                  "bound", 1e-6)
            T.leq(v, to_np(fr.relu_input_up), "dynamics: pre-activation "
                  "bound", 1e-6)


@case(quick=140, thorough=5000, shards=4, weight=30)
def closed_loop(T):
    m = centred(T, ("quad3", "quad2", "pendulum") if T.int(0, 7) else
                ("accel", "pole", "pixhawk"))
    T.nontrivial(crossing(m))
    lo, up = limits(T, m)
    net = gen.net(T, m.nx, m.nu, max_hidden=1, max_width=3)
    special = m.kind == "quad3" and T.int(0, 3) > 0
    if special:
        T.label("joint bounds")
        code = qfs.QuadrotorFeedbackSystem(m.code, net.torch, lo, up)
        m.code.network_bound_propagate_method = T.choice((M.IA, M.LP, M.MIP))
        meth = T.choice((M.IA, M.LP, M.MIP))
    else:
        code = feedback_system.FeedbackSystem(m.code, net.torch,
                                              gen.t(m.xeq), gen.t(m.ueq), lo,
                                              up)
        meth = T.choice((M.IA, M.LP, M.MIP, M.IA_MIP))
    code.controller_network_bound_propagate_method = meth
    T.label("controller " + meth.name)
    y0 = net(m.xeq)

    def control(x):
        return np.clip(net(x) - y0 + m.ueq, lo, up)
    X = np.array([state(T, m) for _ in range(3)])
    ref = np.array([control(x) for x in X])
    T.close(code.compute_u(gen.t(X)), ref, "controls", 1e-9, 1e-9)
    T.close(code.compute_u(gen.t(X[0])), ref[0], "control", 1e-9, 1e-9)
    T.close(code.step_forward(gen.t(X[0])), m.one(X[0], ref[0]),
            "next state", 1e-9, 1e-9)
    T.close(code.step_forward(gen.t(m.xeq)),
            np.zeros(m.nx) if m.continuous else m.xeq,
            "equilibrium of the closed loop", 1e-12, 1e-12)
    examine(T, m, code, control, net, T.int(0, 3) == 0)


@case(quick=140, thorough=5000, shards=2, weight=16)
def unicycle_controller(T):
    """the controller that always drives forward"""
    m = centred(T, ("zerovel", "unicycle"))
    m.ulo[0] = 0.
    m.uup[0] = max(m.uup[0], .5)
    m.code.u_lo, m.code.u_up = gen.t(m.ulo), gen.t(m.uup)
    lo, up = limits(T, m)
    lo[0] = 0.
    if up[0] < .05 or up[1] - lo[1] < .05:
        T.reject("no range for the control")
    net = gen.net(T, 3, 2, max_hidden=2, max_width=3)
    lam = T.choice((.1, .4, 1., 3.))
    Rv = T.array((T.choice((2, 3)), 2), -1.5, 1.5)
    R = r_options.FixedROptions(gen.t(Rv))
    code = ufs.UnicycleFeedbackSystem(m.code, net.torch, lo, up, lam, R)
    code.controller_network_bound_propagate_method = T.choice(
        (M.IA, M.LP, M.MIP))

    def control(x):
        v = net(x) - net(np.zeros(3)) + np.array(
            [lam * np.abs(Rv @ x[:2]).sum(), 0.])
        return np.clip(v, lo, up)
    X = np.array([state(T, m) for _ in range(3)])
    ref = np.array([control(x) for x in X])
    T.close(code.compute_u(gen.t(X)), ref, "controls", 1e-9, 1e-9)
    for x, r in zip(X, ref):
        T.close(code.compute_u(gen.t(x)), r, "control", 1e-9, 1e-9)
    T.close(code.compute_u(gen.t(np.zeros(3))), np.zeros(2), "control at "
            "the equilibrium", 1e-12, 1e-12)
    T.close(code.step_forward(gen.t(np.zeros(3))), np.zeros(3),
            "equilibrium of the closed loop", 1e-12, 1e-12)
    T.check(len(code.controller_variables()) == len(list(
        net.torch.parameters())) + len(R.variables()),
        "controller_variables")
    T.nontrivial(bool(np.any(ref <= lo) or np.any(ref >= up)) or
                 bool(len({tuple(np.concatenate(net.layers(x)[0]) > 0)
                           for x in X}) > 1))
    # the controller's own constraints
    mip = gtm.GurobiTorchMILP(gen.DT)
    x_var = mip.addVars(3, lb=-G.INFINITY)
    u_var = mip.addVars(2, lb=-G.INFINITY)
    if hasattr(code, "_add_network_controller_mip_constraint"):
        cr = code._add_network_controller_mip_constraint(
            mip, x_var, u_var, "cs", "cb", binary_var_type=G.BINARY)
        P = prog.Prog(mip)
        for x, u in zip(X, ref):
            P.exact(T, u_var, [(x_var, x)], u, "controller in a program")
            T.leq(to_np(cr.u_lower_bound), u, "lower bound of the control",
                  1e-6)
            T.leq(u, to_np(cr.u_upper_bound), "upper bound of the control",
                  1e-6)
    if T.int(0, 3) == 0:
        examine(T, m, code, control, net, False)
