# TECHNIQUE: property-based testing (Hypothesis): generated parameters, apex states, leg angles and step sequences; differential against an independent Cartesian high-accuracy integration; energy and symmetry relations; gradients against differences of the reference
# NOTE: outcomes within a small margin of a border (leg horizontal, no vertical velocity at liftoff, foot on the ground at the apex) are not judged. A step whose leg is already extending at touchdown is not generated.
"""P28 Spring-loaded inverted pendulum."""
import numpy as np
from scipy.integrate import solve_ivp

import cvxpatch  # noqa: F401
from pbt import case
import neural_network_lyapunov.slip_hybrid_linear_system as slip_hybrid
import neural_network_lyapunov.spring_loaded_inverted_pendulum as slip_mod

PROPERTY = "P28"
RULE = ("the step is feasible (touchdown, stance, liftoff upwards); for "
        "sequences: at least two steps")
ASSUMPTIONS = ["the integrator's tolerance (rtol 1e-8, atol 1e-6) allows "
               "deviations up to 1e-4 of the scale"]


class Par:
    pass


def draw(T):
    p = Par()
    p.l0 = T.choice((1., .75, .5, 1.5))
    p.g = T.choice((9.81, 10., 4., 1.62))
    p.m = T.choice((1., .5, 3., 40.))
    p.k = T.choice((8., 15., 30., 60.)) * p.m * p.g / p.l0 * \
        T.choice((1., 1.25))
    p.v = np.sqrt(p.g * p.l0)
    p.code = slip_mod.SLIP(p.m, p.l0, p.k, p.g)
    T.note(m=p.m, l0=p.l0, k=p.k, g=p.g)
    return p


def apex(T, p, fall=True):
    """(x, height, vx), leg angle; the leg points forward"""
    x = T.float(-3., 3.)
    v = T.float(0., 1.6) * p.v
    a = T.float(0., .6)
    r = T.int(0, 7)
    if fall and r == 0:
        a = T.float(.6, 1.4)
    elif fall and r == 1:
        v = v * .1
    h = p.l0 * (np.cos(a) + T.float(.02, .8))
    if T.bool():
        v, a = -v, -a
    return np.array([x, h, v]), a


def stance(p, x, y, vx, vy, xf, tight=True):
    """Cartesian stance from touchdown: (liftoff state, time, lowest height)
    or None when the mass reaches the ground"""
    def f(t, s):
        dx, dy = s[0] - xf, s[1]
        r = np.hypot(dx, dy)
        a = p.k * (p.l0 - r) / p.m
        return [s[2], s[3], a * dx / r, a * dy / r - p.g]

    def lo(t, s):
        return np.hypot(s[0] - xf, s[1]) - p.l0
    lo.terminal, lo.direction = True, 1

    def fall(t, s):
        return s[1]
    fall.terminal, fall.direction = True, -1
    dt = 1e-4 * np.sqrt(p.l0 / p.g)
    tol = dict(rtol=1e-11, atol=1e-12) if tight else dict(rtol=1e-9,
                                                          atol=1e-10)
    # the first instant without events (the leg starts at its rest length)
    s0 = solve_ivp(f, (0, dt), [x, y, vx, vy], method="DOP853", **tol)
    sol = solve_ivp(f, (dt, 50.), s0.y[:, -1], method="DOP853",
                    events=[lo, fall], **tol)
    low = sol.y[1].min()
    if len(sol.t_events[0]) == 0:
        return None, None, low
    return sol.y_events[0][0], sol.t_events[0][0], low


def step(p, ap, a, tight=True, vy=0.):
    """dict(kind=..., apex, t, td, lo, margin)"""
    x, h, v = ap
    c, s = np.cos(a), np.sin(a)
    z = h - p.l0 * c
    if z < 0:
        return dict(kind="below", margin=-z)
    t = (vy + np.sqrt(vy**2 + 2 * p.g * z)) / p.g
    td = np.array([x + v * t, p.l0 * c, v, vy - p.g * t])
    xf = td[0] + p.l0 * s
    rdot = -td[2] * s + td[3] * c
    lo, tl, low = stance(p, *td, xf, tight)
    if lo is None:
        return dict(kind="fall", margin=1., td=td, t_td=t, rdot=rdot)
    if lo[3] < 0:
        return dict(kind="down", margin=min(-lo[3] / p.v, low / p.l0), td=td,
                    lo=lo, t_stance=tl, t_td=t, rdot=rdot)
    ta = lo[3] / p.g
    return dict(kind="ok", margin=min(lo[3] / p.v, low / p.l0, z / p.l0),
                td=td, lo=lo, t_stance=tl, t_td=t, rdot=rdot,
                apex=np.array([lo[0] + lo[2] * ta, lo[1] + lo[3]**2 / 2 /
                               p.g, lo[2]]), t=t + tl + ta)


def judged(T, r):
    if r["kind"] in ("ok", "down") and r["margin"] < 5e-3:
        T.reject("near a border")
    if r.get("rdot", -1.) > -3e-2:
        T.reject("the leg extends at touchdown")
    return r


def tol(p):
    return dict(atol=2e-4 * max(1., p.l0), rtol=2e-4)


@case(quick=250, thorough=10000, shards=2, weight=3)
def dynamics(T):
    """the parts: dynamics, guards, transitions, energies, their gradients"""
    p = draw(T)
    S = p.code
    r = p.l0 * T.float(.3, 1.)
    th = T.float(-1.5, 1.5)
    rd, td, xf = T.float(-3, 3), T.float(-3, 3), T.float(-2, 2)
    T.nontrivial(r < p.l0 and td != 0)
    x = np.array([r, th, rd, td, xf])
    d = S.stance_dynamics(x)
    c, s = np.cos(th), np.sin(th)

    def cart(q):
        r, th, rd, td, xf = q
        return np.array([xf - r * np.sin(th), r * np.cos(th),
                         -rd * np.sin(th) - r * td * np.cos(th),
                         rd * np.cos(th) - r * td * np.sin(th)])
    z = cart(x)
    a = p.k * (p.l0 - r) / p.m
    acc = np.array([-a * s, a * c - p.g])
    # accelerations along and across the leg
    e_r, e_t = np.array([-s, c]), np.array([-c, -s])
    T.close(d[:2], [rd, td], "rates", 1e-12, 1e-12)
    T.close(d[2] - r * td**2, acc @ e_r, "acceleration along the leg", 1e-9,
            1e-9)
    T.close(r * d[3] + 2 * rd * td, acc @ e_t, "acceleration across the leg",
            1e-9, 1e-9)
    T.close(d[4], 0., "the foot moves", 0, 0)
    E = S.stance_phase_energy(x)
    T.close(E, .5 * p.m * (z[2]**2 + z[3]**2) + p.m * p.g * z[1] +
            .5 * p.k * (p.l0 - r)**2, "stance energy", 1e-9, 1e-9)
    h = 1e-6
    num = np.array([(S.stance_dynamics(x + h * e) -
                     S.stance_dynamics(x - h * e)) / 2 / h
                    for e in np.eye(5)]).T
    T.close(S.stance_dynamics_gradient(x), num, "gradient of the stance "
            "dynamics", 1e-5 * (1 + abs(num).max()), 1e-5)
    # liftoff at full length
    y = x.copy()
    y[0] = p.l0
    T.close(S.liftoff_transition(y), cart(y), "liftoff", 1e-10, 1e-10)
    T.close(S.flight_phase_energy(S.liftoff_transition(y)),
            S.stance_phase_energy(y), "energy at liftoff", 1e-9, 1e-9)
    num = np.array([(cart(y + h * e) - cart(y - h * e)) / 2 / h
                    for e in np.eye(5)]).T
    G = S.liftoff_transition_gradient(y)
    # (the length at liftoff is fixed)
    T.close(G[:, 1:], num[:, 1:], "gradient of the liftoff transition",
            1e-6, 1e-6)
    T.close(S.liftoff_guard(x), r - p.l0, "liftoff guard", 1e-12, 0)
    # touchdown
    q = np.array([T.float(-2, 2), p.l0 * c, T.float(-3, 3), T.float(-3, 0)])
    post = S.touchdown_transition(q, th)
    T.check(post.shape == (5, ), "shape", got=post.shape)
    T.close(post[:2], [p.l0, th], "leg at touchdown", 1e-12, 0)
    T.close(cart(post), q, "touchdown keeps position and velocity", 1e-10,
            1e-10)
    T.close(S.stance_phase_energy(post), S.flight_phase_energy(q),
            "energy at touchdown", 1e-9, 1e-9)
    T.close(S.liftoff_transition(post), q, "touchdown, then liftoff", 1e-10,
            1e-10)
    gx, ga = S.touchdown_transition_gradient(q, th)
    num = np.array([(S.touchdown_transition(q + h * e, th) -
                     S.touchdown_transition(q - h * e, th)) / 2 / h
                    for e in np.eye(4)]).T
    T.close(gx, num, "gradient of the touchdown transition (state)", 1e-6,
            1e-6)
    T.close(np.ravel(ga), (S.touchdown_transition(q, th + h) -
                           S.touchdown_transition(q, th - h)) / 2 / h,
            "gradient of the touchdown transition (angle)", 1e-6, 1e-6)
    T.close(S.touchdown_guard(q, th), q[1] - p.l0 * c, "touchdown guard",
            1e-12, 0)
    T.close(S.flight_dynamics(q), [q[2], q[3], 0., -p.g], "flight", 0, 0)
    T.close(S.apex_guard(q), q[3], "apex guard", 0, 0)
    T.close(S.flight_phase_energy(q), .5 * p.m * (q[2]**2 + q[3]**2) +
            p.m * p.g * q[1], "flight energy", 1e-10, 1e-10)


@case(quick=250, thorough=10000, shards=4, weight=18)
def apex_map(T):
    p = draw(T)
    ap, a = apex(T, p)
    k = T.int(0, 9)
    if k == 0:
        ap[1] = p.l0 * np.cos(a) - T.float(.01, 1.)
    r = step(p, ap, a)
    if k <= 3 and abs(a) > .02:
        T.label("leg against the motion")
        if T.bool():
            # slow and nearly upright: it would come off the ground
            ap[2] = np.sign(a) * T.float(.01, .2) * p.v
            a = np.sign(a) * T.float(.02, .1)
            ap[1] = p.l0 * (np.cos(a) + T.float(.1, .8))
            r = step(p, ap, a)
        elif abs(ap[2]) < .1:
            T.reject("hardly moves")
        got = p.code.apex_map(*ap, -a)
        T.check(all(g is None for g in got), "a leg against the motion is "
                "not refused", got=got)
    judged(T, r)
    T.label(r["kind"])
    T.nontrivial(r["kind"] == "ok")
    got = p.code.apex_map(*ap, a)
    T.check(len(got) == 4, "number of results")
    if r["kind"] != "ok":
        T.check(all(g is None for g in got), "an infeasible step gives a "
                "next apex", why=r["kind"], got=got, apex=ap, angle=a)
        return
    T.check(all(g is not None for g in got), "a feasible step is refused",
            apex=ap, angle=a, expected=r["apex"])
    T.close(np.array(got[:3]), r["apex"], "next apex", apex=ap, angle=a,
            **tol(p))
    T.close(got[3], r["t"], "time to the next apex", **tol(p))
    E = p.code.flight_phase_energy(np.array([ap[0], ap[1], ap[2], 0.]))
    E2 = p.code.flight_phase_energy(np.array([got[0], got[1], got[2], 0.]))
    T.close(E2 / E, 1., "energy from apex to apex", 2e-4, 0)
    # shifted and mirrored
    d = T.float(-5., 5.)
    sh = p.code.apex_map(ap[0] + d, ap[1], ap[2], a)
    T.close(np.array(sh), np.array(got) + [d, 0, 0, 0], "shifted step",
            **tol(p))
    mi = p.code.apex_map(-ap[0], ap[1], -ap[2], -a)
    T.close(np.array(mi), np.array(got) * [-1, 1, -1, 1], "mirrored step",
            **tol(p))


@case(quick=120, thorough=5000, shards=4, weight=30)
def simulate(T):
    p = draw(T)
    n = T.int(1, 5)
    ap, a0 = apex(T, p, fall=T.bool())
    angles = [a0]
    for _ in range(n - 1):
        angles.append(np.clip(a0 * T.float(.3, 1.7), -1.2, 1.2)
                      if T.int(0, 4) else T.float(-.5, .5))
    # the start: some point of the parabola through the apex
    vy = T.choice((0., 0., T.float(-1., 1.))) * p.v * .3
    x0 = np.array([ap[0], ap[1], ap[2], vy])
    sol = p.code.simulate(x0, np.array(angles))
    T.check(len(sol) <= 2 * n and len(sol) % 2 == 0, "number of phases",
            got=len(sol))
    T.nontrivial(len(sol) >= 4)
    T.note(steps=len(sol) // 2, n=n)
    cur, tcur, tlast = x0, 0., 0.
    E0 = p.code.flight_phase_energy(x0)
    for i in range(n):
        a = angles[i]
        top = cur[1] + max(cur[3], 0.)**2 / 2 / p.g - p.l0 * np.cos(a)
        if abs(top) < 5e-3 * p.l0:
            T.reject("near a border")
        if top < 0:
            r = dict(kind="below")
        elif cur[1] < p.l0 * np.cos(a):
            # the leg swings forward on the way up
            t = cur[3] / p.g
            r = step(p, [cur[0] + cur[2] * t, cur[1] + cur[3] * t / 2,
                         cur[2]], a)
            if "t_td" in r:
                r["t_td"] += t
            judged(T, r)
        else:
            r = judged(T, step(p, cur[:3], a, vy=cur[3]))
        if r["kind"] == "below":
            T.label("foot below the ground")
            T.check(len(sol) == 2 * i, "a step from below the ground",
                    got=len(sol), expected=2 * i)
            return
        T.check(len(sol) >= 2 * i + 2, "the simulation ends early",
                phases=len(sol), step=i, angles=angles, start=x0)
        fl, st = sol[2 * i], sol[2 * i + 1]
        T.check(np.all(np.diff(fl.t) > 0) and np.all(np.diff(st.t) >= 0),
                "time in a phase", step=i, flight=fl.t, stance=st.t)
        T.check(fl.t[0] >= tlast - 1e-9, "a phase starts before the end of "
                "the one before it", step=i, start=x0, angles=angles,
                got=(fl.t[0], tlast))
        tlast = st.t[-1]
        # (the part of a flight before its apex may be left out)
        d = fl.t[0] - tcur
        T.close(fl.y[:, 0], [cur[0] + cur[2] * d, cur[1] + cur[3] * d -
                             p.g * d**2 / 2, cur[2], cur[3] - p.g * d],
                "start of the flight phase", step=i, start=x0,
                angles=angles, **tol(p))
        T.close(st.t[0], fl.t[-1], "start of the stance phase", 1e-12, 1e-12)
        E = np.array([p.code.flight_phase_energy(y) for y in fl.y.T])
        T.close(E / E0, np.ones(len(E)), "energy in flight", 1e-3, 0)
        E = np.array([p.code.stance_phase_energy(y) for y in st.y.T])
        T.close(E / E0, np.ones(len(E)), "energy in stance", 1e-3, 0)
        # (flight in the code ends at its own root of the guard)
        T.close(fl.y[:, -1], r["td"], "touchdown", step=i, **tol(p))
        T.close(fl.t[-1], tcur + r["t_td"], "time of touchdown", **tol(p))
        T.close(st.y[:, 0], p.code.touchdown_transition(fl.y[:, -1], a),
                "start of the stance phase", 1e-9, 1e-9)
        T.check(np.all(fl.y[1] >= p.l0 * np.cos(a) - 1e-6), "the foot is "
                "below the ground in flight")
        if r["kind"] == "fall":
            T.label("falls")
            T.check(len(sol) == 2 * i + 2, "the simulation goes on after a "
                    "fall", got=len(sol))
            T.close(abs(st.y[1, -1]), np.pi / 2, "the leg when the mass has "
                    "fallen", 1e-3, 0)
            return
        lo = p.code.liftoff_transition(st.y[:, -1])
        T.close(lo, r["lo"], "liftoff", step=i, **tol(p))
        T.close(st.t[-1], tcur + r["t_td"] + r["t_stance"],
                "time of liftoff", **tol(p))
        T.check(np.all(st.y[0] <= p.l0 * (1 + 1e-6)), "the leg is longer "
                "than its rest length")
        if r["kind"] == "down":
            T.label("liftoff downwards")
        # (from where the code is: errors grow from step to step)
        tcur, cur = st.t[-1], lo
    T.check(len(sol) == 2 * n, "number of phases", got=len(sol))


def diff(f, z, i, h):
    e = np.zeros(len(z))
    e[i] = h
    return (f(z + e) - f(z - e)) / 2 / h


@case(quick=150, thorough=6000, shards=4, weight=30)
def gradients(T):
    p = draw(T)
    ap, a = apex(T, p, fall=T.int(0, 3) == 0)
    if T.int(0, 9) == 0:
        ap[1] = p.l0 * np.cos(a) - T.float(.01, 1.)
    r = judged(T, step(p, ap, a))
    T.label(r["kind"])
    T.nontrivial(r["kind"] == "ok")
    got = p.code.apex_to_apex_gradient(ap, a)
    T.check(len(got) == 12, "number of results")
    if r["kind"] != "ok":
        T.check(all(g is None for g in got), "an infeasible step gives a "
                "gradient", why=r["kind"], apex=ap, angle=a)
        if r["kind"] == "below":
            g = p.code.apex_to_touchdown_gradient(ap, a)
            T.check(all(v is None for v in g), "touchdown from below the "
                    "ground")
        return
    if r["margin"] < .02:
        T.reject("near a border")
    T.check(all(g is not None for g in got), "a feasible step is refused",
            apex=ap, angle=a)
    (A, B, x1, tx, tb, t1, Atd, Btd, xtd, Alo, Blo, xlo) = got
    T.close(x1, r["apex"], "next apex", **tol(p))
    T.close(t1, r["t"], "time to the next apex", **tol(p))
    T.close(xtd, r["td"], "touchdown", 1e-8, 1e-8)
    T.close(xlo, r["lo"], "liftoff", **tol(p))
    m = p.code.apex_map(*ap, a)
    if m[0] is not None:
        T.close(np.array(m[:3]), np.ravel(x1), "apex_map and "
                "apex_to_apex_gradient", **tol(p))
        T.close(m[3], t1, "times of apex_map and apex_to_apex_gradient",
                **tol(p))
    T.check(A.shape == (3, 3) and np.size(B) == 3 and np.size(tx) == 3 and
            np.size(tb) == 1 and Atd.shape == (4, 3) and np.size(Btd) == 4
            and Alo.shape == (4, 3) and np.size(Blo) == 4, "shapes")

    def f(z):
        q = step(p, z[:3], z[3])
        if q["kind"] != "ok":
            T.reject("near a border")
        return np.concatenate((q["apex"], [q["t"]], q["td"], q["lo"]))
    z = np.concatenate((ap, [a]))
    J = np.array([diff(f, z, i, 1e-5) for i in range(4)]).T
    J2 = np.array([diff(f, z, i, 2e-5) for i in range(4)]).T
    if np.abs(J - J2).max() > 1e-4 * (1 + np.abs(J).max()):
        T.reject("differences not settled")
    G = np.vstack((np.column_stack((A, np.ravel(B))),
                   np.concatenate((np.ravel(tx), np.ravel(tb)))[None],
                   np.column_stack((Atd, np.ravel(Btd))),
                   np.column_stack((Alo, np.ravel(Blo)))))
    sc = 1 + np.abs(J).max()
    for rows, what in ((slice(0, 3), "next apex"), (slice(3, 4), "time"),
                       (slice(4, 8), "touchdown"), (slice(8, 12),
                                                    "liftoff")):
        T.close(G[rows], J[rows], "gradient of the " + what, 2e-3 * sc, 2e-3,
                apex=ap, angle=a)
    # the pieces
    g = p.code.apex_to_touchdown_gradient(ap, a)
    T.close(g[0], J[4:8, :3], "gradient of the touchdown state", 1e-4 * sc,
            1e-4)
    T.close(np.ravel(g[1]), J[4:8, 3], "gradient of the touchdown state "
            "(angle)", 1e-4 * sc, 1e-4)
    T.close(g[5], r["t_td"], "time of touchdown", 1e-9, 1e-9)

    def ftd(z):
        q = z[1] - p.l0 * np.cos(z[3])
        return np.array([np.sqrt(2 * q / p.g)])
    Jt = np.array([diff(ftd, z, i, 1e-6) for i in range(4)])[:, 0]
    T.close(np.concatenate((np.ravel(g[3]), np.ravel(g[4]))), Jt,
            "gradient of the touchdown time", 1e-4 * (1 + abs(Jt).max()),
            1e-4)
    q = p.code.liftoff_to_apex_gradient(r["lo"])
    la = lambda s: np.array([s[0] + s[2] * s[3] / p.g,
                             s[1] + s[3]**2 / 2 / p.g, s[2], s[3] / p.g])
    J = np.array([diff(la, r["lo"], i, 1e-5) for i in range(4)]).T
    T.close(q[0], J[:3], "gradient from liftoff to apex", 1e-6, 1e-6)
    T.close(q[1], la(r["lo"])[:3], "apex after liftoff", 1e-9, 1e-9)
    T.close(np.ravel(q[2]), J[3], "gradient of the time from liftoff to "
            "apex", 1e-6, 1e-6)
    T.close(q[3], la(r["lo"])[3], "time from liftoff to apex", 1e-9, 1e-9)
    lo = r["lo"].copy()
    lo[3] = -abs(lo[3]) - .1
    T.check(all(v is None for v in p.code.liftoff_to_apex_gradient(lo)),
            "an apex after liftoff downwards")


@case(quick=200, thorough=8000, shards=2, weight=4)
def stones(T):
    p = draw(T)
    x = np.array([T.float(-2, 2), p.l0 * T.float(.5, 2.), T.float(-2, 2),
                  T.choice((0., T.float(-2, 2)))])
    a = T.float(-1., 1.)
    h = T.choice((0., T.float(-.5, .8)))
    left = T.choice((-np.inf, T.float(-4, 4)))
    right = T.choice((np.inf, max(left, -5.) + T.float(.1, 6.)))
    st = slip_mod.SteppingStone(left, right, h)
    t = p.code.time_to_touchdown(x, st, a)
    T.check(p.code.can_touch_stepping_stone(x, st, a) == (t is not None),
            "can_touch_stepping_stone and time_to_touchdown")
    foot = x[1] - p.l0 * np.cos(a)
    if abs(foot - h) < 1e-9:
        T.reject("near a border")
    if foot < h:
        T.label("below")
        T.check(t is None, "touchdown from below the stone")
        return
    ts = max(np.roots([-p.g / 2, x[3], foot - h]).real)
    fx = x[0] + x[2] * ts + p.l0 * np.sin(a)
    if min(abs(fx - left), abs(fx - right)) < 1e-7:
        T.reject("near a border")
    hit = left < fx < right
    T.label("hit" if hit else "miss")
    T.nontrivial(hit)
    T.check((t is not None) == hit, "touches the stone", foot=fx, left=left,
            right=right, got=t)
    if hit:
        T.close(t, ts, "time of touchdown", 1e-8, 1e-8)


@case(quick=120, thorough=5000, shards=4, weight=30)
def linearised(T):
    """SlipHybridLinearSystem.apex_map_linear_approximation()"""
    p = draw(T)
    ap, a = apex(T, p, fall=T.int(0, 4) == 0)
    sys = slip_hybrid.SlipHybridLinearSystem(p.m, p.l0, p.k, p.g)
    h = T.choice((0., T.float(-.5, .5)))
    r = judged(T, step(p, ap, a))
    z0 = ap + [0, h, 0]
    if r["kind"] == "below":
        T.reject("below the ground")
    fx = r["td"][0] + p.l0 * np.sin(a)
    left = T.choice((-np.inf, fx - T.float(.05, 2.)))
    right = T.choice((np.inf, fx + T.float(.05, 2.)))
    miss = T.int(0, 7) == 0
    if miss:
        left, right = fx + .1, fx + 1.
    n0 = len(sys.stepping_stones)
    sys.add_stepping_stone(left, right, h)
    T.check(len(sys.stepping_stones) == n0 + 1, "stones")
    st = sys.stepping_stones[-1]
    T.check((st.left, st.right, st.height) == (left, right, h), "the stone")
    zin = z0.copy()
    got = sys.apex_map_linear_approximation(zin, st, a)
    T.close(zin, z0, "the apex state was changed", 0, 0)
    T.check(len(got) == 8, "number of results")
    if miss or r["kind"] != "ok":
        T.label("miss" if miss else r["kind"])
        T.check(all(g is None for g in got), "an infeasible step gives a "
                "map", why=r["kind"])
        return
    T.nontrivial(True)
    T.check(all(g is not None for g in got), "a feasible step is refused")
    if r["margin"] < .02:
        T.reject("near a border")
    A, B, c, at, bt, ct, P, q = got
    z = np.concatenate((z0, [a]))

    def f(z):
        s = step(p, z[:3] - [0, h, 0], z[3])
        if s["kind"] != "ok":
            T.reject("near a border")
        foot = s["td"][0] + p.l0 * np.sin(z[3])
        cons = [z[1] - p.l0 * np.cos(z[3]) - h, s["lo"][3]]
        if left != -np.inf:
            cons.append(foot - left)
        if right != np.inf:
            cons.append(right - foot)
        return np.concatenate((s["apex"] + [0, h, 0], [s["t"]], cons))
    v = f(z)
    J = np.array([diff(f, z, i, 1e-5) for i in range(4)]).T
    J2 = np.array([diff(f, z, i, 2e-5) for i in range(4)]).T
    if np.abs(J - J2).max() > 1e-4 * (1 + np.abs(J).max()):
        T.reject("differences not settled")
    n = len(v) - 4
    T.check(P.shape == (n, 4) and np.size(q) == n, "number of constraints",
            got=P.shape, expected=n)
    sc = 1 + np.abs(J).max()
    AB = np.column_stack((A, np.ravel(B)))
    T.close(AB, J[:3], "the map's gradient", 2e-3 * sc, 2e-3)
    T.close(AB @ z + np.ravel(c), v[:3], "the map at the apex",
            **tol(p))
    tr = np.concatenate((np.ravel(at), np.ravel(bt)))
    T.close(tr, J[3], "the time's gradient", 2e-3 * sc, 2e-3)
    T.close(tr @ z + np.ravel(ct)[0], v[3], "the time at the apex", **tol(p))
    # the constraints: margins at the apex and their gradients (any order)
    marg = np.ravel(q) - P @ z
    cons, JC = v[4:], J[4:]
    used = set()
    for m, row in zip(marg, P):
        ok = [i for i in range(n) if i not in used and
              abs(m - cons[i]) < 1e-3 * (1 + abs(cons[i])) and
              np.abs(-row - JC[i]).max() < 5e-3 * sc]
        T.check(len(ok) > 0, "a constraint is not the linearisation of one "
                "of the step's conditions", margin=m, row=row, margins=cons,
                gradients=JC)
        used.add(ok[0])
