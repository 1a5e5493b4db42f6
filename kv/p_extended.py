"""Extended filter: linear agreement, linearised recursion, smoother."""
import numpy as np
from hypothesis import strategies as st

from . import gen, oracle
from .aeon import aeon_sub
from .core import Prop, Sub, Violation, epic_sub, grown_sub, long_sub
from .gen import mixed, fine
from .p_linear import what_if
from .succession import succession_sub
from .sut import (ExtendedKalmanFilter, Fns, call, close, close_pair, ekf_args, ekf_run, ekf_scales,
                  inflation, kf_run, make_kf, pair, run_ekf, run_linear, scales)

ETOL = 1e-7


def lab(c, obs):
    T = len(c["Z"])
    obs.label(f"T={'1' if T == 1 else '2-4' if T < 5 else '5+'}", f"n={len(c['x0'])}",
              f"m={c['Z'].shape[1]}", "phi:" + c["phi"], "u:" + c["kinds"][3])


# ------------------------------------------------------------------ C11 linear agreement
@st.composite
def lin_case(draw, model=None, **sizes):
    c = draw(model or gen.linear(**{"smooth": True, "Tmin": 1, "Tmax": 8, **sizes}))
    return {"c": c, "style": draw(gen.style()), "tv": draw(st.sampled_from(["u", "const"])),
            "scalar_h": draw(st.booleans()),
            "h0": 2.0 * mixed(draw, c["Z"].shape[1]) if draw(st.booleans()) else None}


def judge_linear(case, obs):
    """f = A x + B u, h = H x.  Time variation reaches f through u, as a user would do it."""
    c0, style = case["c"], case["style"]
    T, n, m, p = gen.dims(c0)
    c0 = dict(c0)
    if case["tv"] == "const":
        for k in ("A", "H"):
            c0[k] = np.repeat(c0[k][:1], T, 0)
        if c0["B"] is not None:
            c0["B"] = np.repeat(c0["B"][:1], T, 0)
    else:
        # h takes no control, so only the transition can vary with time
        c0["H"] = np.repeat(c0["H"][:1], T, 0)
    o = oracle.sequential(c0)
    if T > 1 and oracle.ahead_cond(c0, o) > 1e6:
        obs.label("skipped")
        return
    c, D, E = gen.in_units(c0)
    has = c["B"] is not None and c["U"] is not None
    flat = style["flatZ"] and m == 1
    if case["tv"] == "u":
        # the EKF control carries A_k and the offset
        off = np.stack([c["B"][k] @ c["U"][k] if has else np.zeros(n) for k in range(T)])
        U = np.concatenate([c["A"].reshape(T, -1), off], axis=1)

        def f(x, u):
            return u[:n * n].reshape(n, n) @ x + u[n * n:]

        def jac(x, u):
            return u[:n * n].reshape(n, n)
    elif has:
        U = c["U"].copy()

        def f(x, u):
            return c["A"][0] @ x + c["B"][0] @ u

        def jac(x, u):
            return c["A"][0]
    else:
        U = None

        def f(x, u=None):
            return c["A"][0] @ x

        def jac(x, u=None):
            return c["A"][0]

    h0 = case.get("h0")
    h0 = np.zeros(m) if h0 is None else h0 * E

    def h(x):
        v = c["H"][0] @ x + h0
        return v[0] if flat and case["scalar_h"] else v

    kw = dict(xk=c["x0"].copy(), Pk=c["P0"].copy(), Q=c["Q"].copy(), R=c["R"].copy(), f=f, h=h,
              jacobian_A=jac, jacobian_H=lambda x: c["H"][0])
    Z = c["Z"] + h0
    if flat:
        Z = Z.reshape(T)
        if style["flatR"]:
            kw["R"] = kw["R"].reshape(T)
    sc = scales(c0, o)
    D2 = np.outer(D, D)
    gains = {}
    for which in ("filter", "smooth"):
        ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, **kw)
        xe, Pe = ekf_run(which, ek, Z, None if U is None else U.copy(), n, style["kw"])
        kf_out = []
        xk, Pk = run_linear(c0, which, style, kf_out)
        close_pair(f"extended {which} on a linear model vs standard {which}",
                   (xe / D, Pe / D2), (xk, Pk), sc)
        ge, gk = ek.kalman_gains, kf_out[0].kalman_gains
        if len(ge) != len(gk):
            raise Violation(f"{which}: {len(ge)} extended gains vs {len(gk)} standard gains")
        for k in range(len(ge)):
            g = np.asarray(gk[k], float) * E[None, :] / D[:, None]
            close(f"{which}: gain {k}", np.asarray(ge[k], float) * E[None, :] / D[:, None], g,
                  max(1.0, np.abs(g).max()))
    obs.label(case["tv"], "control" if has else "no-control", f"n={n}", f"m={m}")
    obs.mark(T >= 2 and float(np.abs(o["fm"] - o["pm"]).max()) > 1e-6)


C11 = Prop(
    "C11",
    "random linear models given to both filters (transitions varying in time through the control, "
    "as the repository's own test does); filter, smoother and gains are compared; non-trivial = "
    ">= 2 steps and the data move the estimate",
    [Sub("agree", lin_case(), judge_linear, 4000),
     Sub("wide", lin_case(**gen.WIDE), judge_linear, 600),
     Sub("broad", lin_case(gen.broad()), judge_linear, 500),
     Sub("settled", lin_case(gen.settled()), judge_linear, 200),
     long_sub(lin_case(), judge_linear, 48, far=1500),
     epic_sub(lin_case(), judge_linear, 8)])


# ------------------------------------------------------------------ C12 linearised filter
@st.composite
def nl_case(draw, model=None, **sizes):
    return {"c": draw(model or gen.nonlinear(**{"noiseless": True, **sizes})), "style": draw(gen.style())}


def judge_nl_filter(case, obs):
    c, style = case["c"], case["style"]
    o = oracle.ekf(c, smooth=False)
    sc = ekf_scales(c, o)
    fns = []
    x, P = run_ekf(c, "filter", style, fns)
    close_pair("extended filter vs linearised conditional", (x, P), (o["fm"], o["fP"]), sc, ETOL)
    # linearisation points: f and its Jacobian at the previous estimate, h and its Jacobian at
    # the prediction (repeats are allowed, other points are not)
    seen = {k: [a for name, a in fns[0].calls if name == k]
            for k in ("f", "jacobian_A", "h", "jacobian_H")}
    for name, ref in (("f", o["args"]["f"]), ("jacobian_A", o["args"]["f"]),
                      ("h", o["args"]["h"]), ("jacobian_H", o["args"]["h"])):
        pts = np.array(seen[name]).reshape(-1, len(c["x0"]))
        k = min(len(pts), len(ref))
        there = np.zeros(len(ref), bool)        # usually one call per step, in order
        there[:k] = np.abs(pts[:k] - np.array(ref)[:k]).max(axis=1) <= ETOL * sc[0]
        for i in np.flatnonzero(~there):
            r = ref[i]
            if not len(pts) or not np.abs(pts - r).max(axis=1).min() <= ETOL * sc[0]:
                raise Violation(f"{name} was never evaluated at {r.tolist()}")
    lab(c, obs)
    obs.mark(len(x) >= 2 and float(np.abs(o["fm"] - o["pm"]).max()) > 1e-6 and
             (c["G"].any() or c["J"].any()))


def judge_nl_batch(case, obs):
    """The extended filter and smoother are exact for the affine model they linearise to."""
    c, style = case["c"], case["style"]
    o = oracle.ekf(c, smooth=False)
    sc = ekf_scales(c, o)
    b = oracle.batch(o["lin"])
    x, P = run_ekf(c, "filter", style)
    close_pair("extended filter vs batch conditional of the linearised model", (x, P),
               (b["fm"], b["fP"]), sc, ETOL)
    lab(c, obs)
    obs.mark(len(x) >= 2)


def judge_nl_steps(case, obs):
    """predict and update on their own, positional or keyword, and their fold."""
    c, style = case["c"], case["style"]
    fns = Fns(c, flat=style["flatZ"])
    kw, Z, U = ekf_args(c, fns, style["flatR"])
    ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, **kw)
    n, D, E = fns.n, fns.D, fns.E
    D2 = np.outer(D, D)
    o = oracle.ekf(c, smooth=False)
    sc = ekf_scales(c, o)
    x, P = kw["xk"], kw["Pk"]
    xs, Ps = [], []
    R = np.asarray(kw["R"])
    for k in range(len(Z)):
        uk = None if U is None else U[k]
        if style["kw"]:
            r = call("predict", ek.predict, xk=x, uk=uk, Pk=P, Qk=kw["Q"][k])
        else:
            r = call("predict", ek.predict, x, uk, P, kw["Q"][k])
        xp, Pp = pair("predict", r, (n,), (n, n))
        F = oracle.f_jac(c, x / D, uk)
        close(f"extended predict mean {k}", xp / D, oracle.f_val(c, x / D, uk), sc[0], ETOL)
        close(f"extended predict covariance {k}", Pp / D2, F @ (P / D2) @ F.T + c["Q"][k], sc[1],
              ETOL)
        if style["kw"]:
            r = call("update", ek.update, xk=xp, Pk=Pp, zk=Z[k], Rk=R[k])
        else:
            r = call("update", ek.update, xp, Pp, Z[k], R[k])
        x, P = pair("update", r, (n,), (n, n))
        Hk = oracle.h_jac(c, xp / D)
        xr, Pr, _, _ = oracle.correct(xp / D, Pp / D2, Hk, c["R"][k],
                                      c["Z"][k] - oracle.h_val(c, xp / D))
        close(f"extended update mean {k}", x / D, xr, sc[0], ETOL)
        close(f"extended update covariance {k}", P / D2, Pr, sc[1], ETOL)
        xs.append(x / D)
        Ps.append(P / D2)
    fns.check_untouched()
    close_pair("extended filter vs its own predict/update steps", run_ekf(c, "filter", style),
               (np.array(xs), np.array(Ps)), sc, ETOL)
    lab(c, obs)
    obs.mark(len(Z) >= 2)


@st.composite
def nl_what_if_case(draw):
    T = draw(st.integers(2, 3))
    c = draw(gen.nonlinear(Tmin=T, Tmax=T, units=False))
    if c["D"] is None and draw(st.booleans()):
        c = draw(gen.nonlinear(Tmin=T, Tmax=T, units=False))
    c["ret"] = "fresh"
    n = len(c["x0"])
    x1 = c["x0"].copy()
    x1[draw(st.integers(0, n - 1))] += draw(st.sampled_from([1.0, -2.0, 2.0 ** -18]))
    ops = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["predict", "update"]),
        "pick": st.lists(st.integers(0, T - 1), min_size=6, max_size=6),
        "change": st.one_of(st.none(), st.integers(0, 5))}), min_size=3, max_size=9))
    return {"c": c, "x1": x1, "ops": ops, "buffers": draw(st.booleans()),
            "kw": draw(st.booleans())}


def judge_nl_what_if(case, obs):
    """Single steps asked for again with one thing changed, as in planning ahead."""
    c = case["c"]
    fns = Fns(c)
    kw, _, _ = ekf_args(c, fns, False)
    ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, **kw)
    n = fns.n
    got_all = []

    def ask(op, a, i):
        if op == "predict":
            u = a.get("u")
            if case["kw"]:
                r = call("predict", ek.predict, xk=a["x"], uk=u, Pk=a["P"], Qk=a["Q"])
            else:
                r = call("predict", ek.predict, a["x"], u, a["P"], a["Q"])
            F = oracle.f_jac(c, a["x"], u)
            want = oracle.f_val(c, a["x"], u), F @ a["P"] @ F.T + a["Q"]
        else:
            if case["kw"]:
                r = call("update", ek.update, xk=a["x"], Pk=a["P"], zk=a["z"], Rk=a["R"])
            else:
                r = call("update", ek.update, a["x"], a["P"], a["z"], a["R"])
            want = oracle.correct(a["x"], a["P"], oracle.h_jac(c, a["x"]), a["R"],
                                  a["z"] - oracle.h_val(c, a["x"]))[:2]
        got = pair(op, r, (n,), (n, n))
        s = max(max(1.0, float(np.abs(v).max())) for v in (*a.values(), *want))
        ps = max(float(np.abs(v).max()) for v in (a["P"], a.get("Q", a["P"]), want[1]))
        close_pair(f"extended {op} number {i + 1} of several", got, want, (s, ps), ETOL)
        if not case["buffers"]:
            got_all.append((got, [g.copy() for g in got]))

    what_if(case, ask, {"predict": ("x", "u", "P", "Q"), "update": ("x", "P", "z", "R")})
    for i, (got, was) in enumerate(got_all):
        if not all(np.array_equal(g, w) for g, w in zip(got, was)):
            raise Violation(f"what call {i + 1} returned was changed by a later one")
    obs.label("same arrays" if case["buffers"] else "fresh arrays",
              "control" if c["U"] is not None else "no-control")
    lab(c, obs)
    obs.mark(len(case["ops"]) >= 3)


# a few textbook models, observed through one angle / range
@st.composite
def pendulum_case(draw):
    T = draw(st.integers(2, 60))
    return {"dt": 0.01 + 0.05 * abs(float(fine(draw, 1)[0])), "g": 9.81,
            "x0": 2.0 * fine(draw, 2), "Z": 1.2 * fine(draw, T),
            "p0": 0.05 + abs(float(fine(draw, 1)[0])),
            "q": 0.01 + abs(float(fine(draw, 1)[0])), "r": 0.01 + abs(float(fine(draw, 1)[0])),
            "which": draw(st.sampled_from(["filter", "smooth"]))}


def pendulum_fns(dt, g):
    def f(x, u=None):
        return np.array([x[0] + dt * x[1], x[1] - g * dt * np.sin(x[0])])

    def ja(x, u=None):
        return np.array([[1.0, dt], [-g * dt * np.cos(x[0]), 1.0]])

    def h(x):
        return np.sin(x[0])

    def jh(x):
        return np.array([[np.cos(x[0]), 0.0]])

    return f, ja, h, jh


def pendulum_ref(c):
    f, ja, h, jh = c["fns"]
    A, H = [], []
    x, P = c["x0"], c["P0"]
    o = {k: [] for k in ("fm", "fP", "K", "S", "y", "pP", "pm")}
    for k in range(len(c["Z"])):
        F = ja(x)
        xp, Pp = f(x) + c["c0"], oracle.sym(F @ P @ F.T + c["Q"][k])
        Hk = jh(xp)
        y = np.array([c["Z"][k] - h(xp)])
        x, P, K, S = oracle.correct(xp, Pp, Hk, c["R"][k], y)
        A.append(F)
        H.append(Hk)
        for key, v in zip(("fm", "fP", "K", "S", "y", "pP", "pm"), (x, P, K, S, y, Pp, xp)):
            o[key].append(v)
    o = {k: np.array(v) for k, v in o.items()}
    o["sm"], o["sP"] = oracle.bryson_frazier(np.array(A), np.array(H), o)
    return o


def judge_pendulum(case, obs):
    dt = case["dt"]
    T = len(case["Z"])
    qk = case["q"] * np.array([[dt ** 3 / 3, dt ** 2 / 2], [dt ** 2 / 2, dt]])
    fns = pendulum_fns(dt, case["g"])
    c = {"x0": case["x0"], "P0": case["p0"] * np.eye(2), "Q": np.stack([qk] * T),
         "R": np.full((T, 1, 1), case["r"]), "Z": case["Z"], "c0": np.zeros(2), "F": np.zeros((2, 2)),
         "fns": fns}
    o = pendulum_ref(c)
    ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, xk=case["x0"].copy(),
              Pk=c["P0"].copy(), Q=c["Q"].copy(), R=np.ones(T) * case["r"], f=fns[0], h=fns[2],
              jacobian_A=fns[1], jacobian_H=fns[3])
    got = ekf_run(case["which"], ek, case["Z"].copy(), None, 2)
    ref = (o["fm"], o["fP"]) if case["which"] == "filter" else (o["sm"], o["sP"])
    ms, ps = max(1.0, np.abs(o["pm"]).max()), np.abs(o["pP"]).max()
    grow = inflation(c, pendulum_ref, o, ms, ps)
    close_pair(f"pendulum {case['which']}", got, ref, (ms * grow, ps * grow), 1e-6)
    obs.label(case["which"], "T>20" if T > 20 else "T<=20",
              "amplifies rounding" if grow > 1 else "well conditioned")
    obs.mark(True)


@st.composite
def nl_long(draw):
    c = draw(gen.nonlinear(Tmin=8, Tmax=30, nmax=3, mmax=2, noiseless=True))
    return {"c": c, "style": draw(gen.style())}


C12 = Prop(
    "C12",
    "random smooth nonlinear models (state 1-4, observation 1-3, additive or state-multiplying "
    "controls, scalar or vector h) and random pendulums; filter, single steps and evaluation "
    "points against the linearised conditional distribution; non-trivial = >= 2 steps with a "
    "nonlinear term",
    [Sub("filter", nl_case(), judge_nl_filter, 4000),
     Sub("batch", nl_case(), judge_nl_batch, 1500),
     Sub("steps", nl_case(), judge_nl_steps, 2500),
     Sub("what_if", nl_what_if_case(), judge_nl_what_if, 1200),
     Sub("wide", nl_case(**gen.WIDE), judge_nl_filter, 500),
     Sub("broad", nl_case(gen.broad_nonlinear()), judge_nl_filter, 400),
     grown_sub(nl_case(), judge_nl_steps, name="grown_steps"),
     grown_sub(nl_what_if_case(), judge_nl_what_if, name="grown_what_if"),
     Sub("longer", nl_long(), judge_nl_filter, 400),
     Sub("pendulum", pendulum_case(), judge_pendulum, 600),
     long_sub(nl_case(), judge_nl_filter, 64, far=2000),
     long_sub(nl_case(), judge_nl_steps, 24, name="long_steps", far=1000),
     epic_sub(nl_case(), judge_nl_filter, 8), aeon_sub(["extended"], ["filter"]),
     succession_sub(["extended"], ["filter"], 600)])


# ------------------------------------------------------------------ C13 linearised smoother
def judge_nl_smooth(case, obs):
    c, style = case["c"], case["style"]
    o = oracle.ekf(c)
    if len(c["Z"]) > 1 and oracle.ahead_cond(c, o) > 1e6:
        obs.label("skipped")
        return
    sc = ekf_scales(c, o)
    xs, Ps = run_ekf(c, "smooth", style)
    close_pair("extended smoother vs adjoint smoother of the linearised model", (xs, Ps),
               (o["sm"], o["sP"]), sc, ETOL)
    lab(c, obs)
    obs.mark(len(xs) >= 2 and float(np.abs(o["sm"] - o["fm"]).max()) > 1e-6)


def judge_nl_smooth_batch(case, obs):
    c, style = case["c"], case["style"]
    o = oracle.ekf(c, smooth=False)
    if len(c["Z"]) > 1 and oracle.ahead_cond(c, o) > 1e6:
        obs.label("skipped")
        return
    sc = ekf_scales(c, o)
    b = oracle.batch(o["lin"])
    xs, Ps = run_ekf(c, "smooth", style)
    close_pair("extended smoother vs batch conditional of the linearised model", (xs, Ps),
               (b["sm"], b["sP"]), sc, ETOL)
    lab(c, obs)
    obs.mark(len(xs) >= 2)


C13 = Prop(
    "C13",
    "random smooth nonlinear models; the extended smoother against the adjoint and batch "
    "smoothers of the affine model its filter linearises to; non-trivial = >= 2 steps and "
    "smoothing changes the estimate",
    [Sub("adjoint", nl_case(), judge_nl_smooth, 4500),
     Sub("batch", nl_case(), judge_nl_smooth_batch, 1800),
     Sub("wide", nl_case(**gen.WIDE), judge_nl_smooth, 500),
     Sub("broad", nl_case(gen.broad_nonlinear()), judge_nl_smooth, 400),
     Sub("longer", nl_long(), judge_nl_smooth, 600),
     long_sub(nl_case(), judge_nl_smooth, 64, far=2000),
     epic_sub(nl_case(), judge_nl_smooth, 8), aeon_sub(["extended"], ["smooth"]),
     succession_sub(["extended"], ["smooth"], 600)])
