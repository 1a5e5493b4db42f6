"""Standard filter: optimality, single steps, controls, covariances, gains, laws."""
import numpy as np
from hypothesis import strategies as st

from . import gen, oracle
from .aeon import aeon_sub
from .succession import succession_sub
from .core import Prop, Sub, Violation, epic_sub, grown_sub, long_sub
from .gen import mixed, fine, coarse
from .sut import (KalmanFilter, RTOL, call, close, close_pair, ekf_args, ekf_run, ekf_scales,
                  kf_run, make_kf, pair, present, run_ekf, run_linear, scales, Fns, ExtendedKalmanFilter)


def styled(strategy):
    return st.fixed_dictionaries({"c": strategy, "style": gen.style()})


def lab(c, obs):
    T, n, m, p = gen.dims(c)
    obs.label(f"T={'1' if T == 1 else '2-4' if T < 5 else '5-9' if T < 10 else '10+'}",
              f"n={n}", "m>n" if m > n else "m=1" if m == 1 else "1<m<=n",
              "A:" + c["kinds"][0], "Q:" + c["kinds"][1], "P0:" + c["kinds"][2],
              "Z:" + c["kinds"][5],
              "control" if c["B"] is not None and c["U"] is not None else "no-control",
              "units" if any(map(any, c["units"][:2])) or c["units"][2] else "plain-units")


def moved(c, o):
    """The data actually changed the estimate."""
    pm = o["pm"] if "pm" in o else o["mu"]
    return len(c["Z"]) >= 2 and float(np.abs(o["fm"] - pm).max()) > 1e-6


# ------------------------------------------------------------------ C01 / C02
def judge_filter_batch(case, obs):
    c = case["c"]
    o = oracle.batch(c, smooth=False)
    got = run_linear(c, "filter", case["style"])
    close_pair("filter vs conditional of the joint Gaussian", got, (o["fm"], o["fP"]),
               scales(c, o))
    lab(c, obs)
    obs.mark(moved(c, o))


def judge_filter_seq(case, obs):
    c = case["c"]
    o = oracle.sequential(c, smooth=False)
    got = run_linear(c, "filter", case["style"])
    close_pair("filter vs reference recursion", got, (o["fm"], o["fP"]), scales(c, o))
    lab(c, obs)
    obs.mark(moved(c, o))


def smoothable(c, o, obs):
    if len(c["Z"]) > 1 and oracle.ahead_cond(c, o) > 1e6:
        obs.label("skipped: predicted covariance too ill-conditioned")
        return False
    return True


def judge_smooth_batch(case, obs):
    c = case["c"]
    s = oracle.sequential(c, smooth=False)
    if not smoothable(c, s, obs):
        return
    o = oracle.batch(c)
    got = run_linear(c, "smooth", case["style"])
    close_pair("smooth vs conditional given all data", got, (o["sm"], o["sP"]), scales(c, o))
    lab(c, obs)
    obs.mark(len(c["Z"]) >= 2 and float(np.abs(o["sm"] - o["fm"]).max()) > 1e-6)


def judge_smooth_seq(case, obs):
    c = case["c"]
    o = oracle.sequential(c)
    if not smoothable(c, o, obs):
        return
    got = run_linear(c, "smooth", case["style"])
    close_pair("smooth vs adjoint smoother", got, (o["sm"], o["sP"]), scales(c, o))
    lab(c, obs)
    obs.mark(len(c["Z"]) >= 2 and float(np.abs(o["sm"] - o["fm"]).max()) > 1e-6)


C01 = Prop(
    "C01",
    "random time-varying linear models (state 1-5, observation 1-4, 1-40 steps), random "
    "units and documented array shapes; non-trivial = at least two observations and the data "
    "move the estimate away from the prediction",
    [Sub("batch", styled(gen.linear(nan_controls=True)), judge_filter_batch, 6000),
     Sub("medium", styled(gen.linear(Tmin=10, Tmax=40, nmax=3, mmax=3)), judge_filter_seq, 1500),
     Sub("wide", styled(gen.linear(nan_controls=True, **gen.WIDE)), judge_filter_batch, 600),
     Sub("broad", styled(gen.broad()), judge_filter_seq, 600),
     Sub("settled", styled(gen.settled()), judge_filter_seq, 300),
     long_sub(styled(gen.linear(nan_controls=True, Tmax=6, nmax=3, mmax=3)), judge_filter_seq, 96),
     epic_sub(styled(gen.linear(nan_controls=True, Tmax=6, nmax=3, mmax=3)), judge_filter_seq),
     aeon_sub(["standard"], ["filter"]), succession_sub(["standard"], ["filter"], 600)],
    ["noise covariances with R positive definite; results compared to 1e-8 of the problem's scale"])

C02 = Prop(
    "C02",
    "random time-varying linear models whose predicted covariances are invertible; "
    "non-trivial = at least two observations and smoothing changes the filtered estimate",
    [Sub("batch", styled(gen.linear(smooth=True, nan_controls=True)), judge_smooth_batch, 6000),
     Sub("medium", styled(gen.linear(smooth=True, Tmin=10, Tmax=40, nmax=3, mmax=3)),
         judge_smooth_seq, 1500),
     Sub("wide", styled(gen.linear(smooth=True, nan_controls=True, **gen.WIDE)),
         judge_smooth_batch, 600),
     Sub("broad", styled(gen.broad()), judge_smooth_seq, 600),
     Sub("settled", styled(gen.settled()), judge_smooth_seq, 400),
     long_sub(styled(gen.linear(smooth=True, nan_controls=True, Tmax=6, nmax=3, mmax=3)),
              judge_smooth_seq, 96),
     epic_sub(styled(gen.linear(smooth=True, nan_controls=True, Tmax=6, nmax=3, mmax=3)),
              judge_smooth_seq),
     aeon_sub(["standard"], ["smooth"]), succession_sub(["standard"], ["smooth"], 600)],
    ["predicted covariances invertible (condition below 1e6), as the documented gain requires"])


# ------------------------------------------------------------------ C03 single steps
@st.composite
def step_case(draw, model=None, **sizes):
    c = draw(model or gen.linear(**{"Tmin": 1, "Tmax": 6, "nan_controls": True, **sizes}))
    return {"c": c, "k": draw(st.integers(0, len(c["Z"]) - 1)), "kw": draw(st.booleans()),
            "none": draw(st.sampled_from(["none", "B", "U", "both", "none"]))}


def judge_steps(case, obs):
    """predict and update on their own obey the model; folding them gives filter."""
    c0 = case["c"]
    c, D, E = gen.in_units(c0)
    T, n, m, p = gen.dims(c)
    kw, Z, U = present(c)
    kf = make_kf(kw)
    obs.label(f"n={n}", f"m={m}", "kw" if case["kw"] else "positional")
    o = oracle.sequential(c0, smooth=False)
    ms, ps = scales(c0, o)
    B = np.full((T, n, 1), np.nan) if c["B"] is None else c["B"]
    UU = np.full((T, 1), np.nan) if U is None else U
    if c["B"] is None or U is None:
        B = np.full((T, n, 1), np.nan)
        UU = np.full((T, 1), np.nan)
    x, P = c["x0"].copy(), c["P0"].copy()
    xs, Ps = [], []
    for k in range(T):
        Bk, uk = B[k], UU[k]
        absent = np.isnan(Bk).all() or np.isnan(uk).all()
        if absent and case["none"] != "none":
            # an absent control may be spelled None, too
            Bk = None if case["none"] in ("B", "both") else Bk
            uk = None if case["none"] in ("U", "both") else uk
            if Bk is not None and uk is not None and not (
                    np.isnan(Bk).all() or np.isnan(uk).all()):
                Bk = None
            obs.label("None control")
        snap = [np.array(a, copy=True) for a in (c["A"][k], x, P, c["Q"][k])]
        if case["kw"]:
            r = call("predict", kf.predict, Ak=c["A"][k], xk=x, Bk=Bk, uk=uk, Pk=P, Qk=c["Q"][k])
        else:
            r = call("predict", kf.predict, c["A"][k], x, Bk, uk, P, c["Q"][k])
        xp, Pp = pair("predict", r, (n,), (n, n))
        for a, b in zip(snap, (c["A"][k], x, P, c["Q"][k])):
            if not np.array_equal(a, b):
                raise Violation("predict modified its arguments")
        # judge the step against moments, in base units
        xb, Pb = x / D, P / np.outer(D, D)
        ref_x = c0["A"][k] @ xb + (np.zeros(n) if absent else c0["B"][k] @ c0["U"][k])
        ref_P = c0["A"][k] @ Pb @ c0["A"][k].T + c0["Q"][k]
        close(f"predict mean at step {k}", xp / D, ref_x, ms)
        close(f"predict covariance at step {k}", Pp / np.outer(D, D), ref_P, ps)
        snap = [np.array(a, copy=True) for a in (c["H"][k], xp, Pp, Z[k], c["R"][k])]
        if case["kw"]:
            r = call("update", kf.update, Hk=c["H"][k], xk=xp, Pk=Pp, zk=Z[k], Rk=c["R"][k])
        else:
            r = call("update", kf.update, c["H"][k], xp, Pp, Z[k], c["R"][k])
        x, P = pair("update", r, (n,), (n, n))
        for a, b in zip(snap, (c["H"][k], xp, Pp, Z[k], c["R"][k])):
            if not np.array_equal(a, b):
                raise Violation("update modified its arguments")
        xpb, Ppb = xp / D, Pp / np.outer(D, D)
        S = c0["H"][k] @ Ppb @ c0["H"][k].T + c0["R"][k]
        G = np.linalg.solve(S, c0["H"][k] @ Ppb).T
        close(f"update mean at step {k}", x / D,
              xpb + G @ (c0["Z"][k] - c0["H"][k] @ xpb), ms)
        close(f"update covariance at step {k}", P / np.outer(D, D), Ppb - G @ S @ G.T, ps)
        xs.append(x / D)
        Ps.append(P / np.outer(D, D))
    got = run_linear(c0, "filter")
    close_pair("filter vs its own predict/update steps", got, (np.array(xs), np.array(Ps)),
               (ms, ps))
    obs.mark(T >= 2 and float(np.abs(o["fm"] - o["pm"]).max()) > 1e-6)


@st.composite
def one_step(draw):
    """predict/update called directly on arbitrary (not filter-produced) states."""
    c = draw(gen.linear(Tmin=1, Tmax=1, nan_controls=False))
    n = len(c["x0"])
    other = draw(st.integers(1, 3))
    return {"c": c, "host_T": other, "kw": draw(st.booleans()),
            "scalarR": draw(st.booleans()), "scalarz": draw(st.booleans())}


def judge_one(case, obs):
    """Steps are driven by their arguments, not by the matrices the filter was built with."""
    c0 = case["c"]
    c, D, E = gen.in_units(c0)
    T, n, m, p = gen.dims(c)
    t = case["host_T"]
    host = KalmanFilter(A=np.repeat(3.0 * np.eye(n)[None], t, 0), xk=np.full(n, 7.0), B=None,
                        Pk=5.0 * np.eye(n), H=np.ones((t, m, n)),
                        Q=np.repeat(2.0 * np.eye(n)[None], t, 0),
                        R=np.repeat(9.0 * np.eye(m)[None], t, 0))
    o = oracle.sequential(c0, smooth=False)
    ms, ps = scales(c0, o)
    has = c["B"] is not None and c["U"] is not None
    Bk = c["B"][0] if has else None
    uk = c["U"][0] if has else None
    if case["kw"]:
        r = call("predict", host.predict, Ak=c["A"][0], xk=c["x0"], Bk=Bk, uk=uk, Pk=c["P0"],
                 Qk=c["Q"][0])
    else:
        r = call("predict", host.predict, c["A"][0], c["x0"], Bk, uk, c["P0"], c["Q"][0])
    xp, Pp = pair("predict", r, (n,), (n, n))
    close("predict mean", xp / D, o["pm"][0], ms)
    close("predict covariance", Pp / np.outer(D, D), o["pP"][0], ps)
    zk, Rk = c["Z"][0], c["R"][0]
    if m == 1 and case["scalarR"]:
        Rk = Rk[0, 0]
    if m == 1 and case["scalarz"]:
        zk = zk[0]
    if case["kw"]:
        r = call("update", host.update, Hk=c["H"][0], xk=xp, Pk=Pp, zk=zk, Rk=Rk)
    else:
        r = call("update", host.update, c["H"][0], xp, Pp, zk, Rk)
    x, P = pair("update", r, (n,), (n, n))
    close("update mean", x / D, o["fm"][0], ms)
    close("update covariance", P / np.outer(D, D), o["fP"][0], ps)
    obs.label(f"n={n}", f"m={m}", "control" if has else "no-control")
    obs.mark(float(np.abs(o["fm"] - o["pm"]).max()) > 1e-6)


# the same questions asked again with one thing changed
WHAT = {"predict": ("A", "x", "B", "u", "P", "Q"), "update": ("H", "x", "P", "z", "R")}


@st.composite
def what_if_case(draw):
    T = draw(st.integers(2, 3))
    c = draw(gen.linear(Tmin=T, Tmax=T, nmax=4, mmax=3, units=False))
    n = len(c["x0"])
    x1 = c["x0"].copy()
    i = draw(st.integers(0, n - 1))
    x1[i] += draw(st.sampled_from([1.0, -2.0, 2.0 ** -18]))
    ops = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["predict", "update"]),
        "pick": st.lists(st.integers(0, T - 1), min_size=6, max_size=6),
        "change": st.one_of(st.none(), st.integers(0, 5))}), min_size=3, max_size=9))
    return {"c": c, "x1": x1, "ops": ops, "buffers": draw(st.booleans()),
            "kw": draw(st.booleans())}


def what_if(case, ask, what=WHAT):
    """Calls ``ask(op, arguments, index)``; each differs from the last of its kind at random
    places or at one only, and the arguments may be written into the same arrays every time."""
    c = case["c"]
    T = len(c["Z"])
    P1 = oracle.sym(c["P0"] + 0.5 * c["Q"][0])
    P1[0, 0] += 0.5
    pool = {"A": c.get("A"), "H": c.get("H"), "Q": c["Q"], "R": c["R"], "z": c["Z"], "B": c.get("B"),
            "u": c["U"], "x": [c["x0"], case["x1"], c["x0"] + 1.0],
            "P": [c["P0"], P1, 2.0 * c["P0"] + np.eye(len(P1))]}
    last, buf = {}, {}
    for i, op in enumerate(case["ops"]):
        names = [k for k in what[op["op"]] if pool[k] is not None]
        now = dict(zip(names, op["pick"]))
        if op["change"] is not None and op["op"] in last:
            now = dict(last[op["op"]])
            k = names[op["change"] % len(names)]
            now[k] = (now[k] + 1) % T
        last[op["op"]] = now
        args = {}
        for k in names:
            v = np.array(pool[k][now[k] % len(pool[k])], dtype=float)
            if case["buffers"]:
                b = buf.setdefault(k, np.empty_like(v))
                b[...] = v
                v = b
            args[k] = v
        ask(op["op"], args, i)


def judge_what_if(case, obs):
    c = case["c"]
    n, m = len(c["x0"]), c["Z"].shape[1]
    kf = make_kf(present(c)[0])
    has = c["B"] is not None and c["U"] is not None

    def ask(op, a, i):
        if op == "predict":
            Bk, uk = (a["B"], a["u"]) if has else (None, None)
            if case["kw"]:
                r = call("predict", kf.predict, Ak=a["A"], xk=a["x"], Bk=Bk, uk=uk, Pk=a["P"],
                         Qk=a["Q"])
            else:
                r = call("predict", kf.predict, a["A"], a["x"], Bk, uk, a["P"], a["Q"])
            gone = not has or np.isnan(Bk).all() or np.isnan(uk).all()
            want = (a["A"] @ a["x"] + (0.0 if gone else Bk @ uk),
                    a["A"] @ a["P"] @ a["A"].T + a["Q"])
        else:
            if case["kw"]:
                r = call("update", kf.update, Hk=a["H"], xk=a["x"], Pk=a["P"], zk=a["z"], Rk=a["R"])
            else:
                r = call("update", kf.update, a["H"], a["x"], a["P"], a["z"], a["R"])
            want = oracle.correct(a["x"], a["P"], a["H"], a["R"], a["z"] - a["H"] @ a["x"])[:2]
        got = pair(op, r, (n,), (n, n))
        size = [max(1.0, float(np.abs(v).max())) for v in (*a.values(), *want)]
        ps = max(float(np.abs(v).max()) for v in (a["P"], a.get("Q", a["P"]), want[1]))
        close_pair(f"{op} number {i + 1} of several", got, want, (max(size), ps))
        if not case["buffers"]:
            snap.append((got, [g.copy() for g in got]))

    snap = []
    what_if(case, ask)
    for i, (got, was) in enumerate(snap):
        if not all(np.array_equal(g, w) for g, w in zip(got, was)):
            raise Violation(f"what call {i + 1} returned was changed by a later one")
    obs.label("same arrays" if case["buffers"] else "fresh arrays", f"n={n}", f"m={m}")
    obs.mark(len(case["ops"]) >= 3)


C03 = Prop(
    "C03",
    "predict and update called one at a time (positional or keyword, absent controls as NaN or "
    "None) on random models and compared with the documented moments, and their fold with "
    "filter; non-trivial = the update moves the mean (and >= 2 steps for the fold)",
    [Sub("fold", step_case(), judge_steps, 4000), Sub("one_step", one_step(), judge_one, 5000),
     grown_sub(one_step(), judge_one, 400),
     grown_sub(what_if_case(), judge_what_if, 200, name="grown_what_if"),
     Sub("what_if", what_if_case(), judge_what_if, 1500),
     Sub("wide", step_case(**gen.WIDE), judge_steps, 400),
     Sub("broad", step_case(gen.broad()), judge_steps, 400),
     long_sub(step_case(nmax=3, mmax=2), judge_steps, 48, far=1500)])


# ------------------------------------------------------------------ C04 controls
@st.composite
def control_case(draw, ints=True):
    c = draw(gen.linear(smooth=draw(st.booleans()), controls=False, Tmin=1, Tmax=8, units=False))
    T, n, m, _ = gen.dims(c)
    p = gen.controls_n(draw)
    c["B"] = gen.over_time(draw, T, lambda k: 1.5 * mixed(draw, k, n, p))
    c["U"] = 2.0 * mixed(draw, T, p)
    nan_u = [bool(v) for v in (coarse(draw, T) > 1)]
    nan_b = [bool(v) for v in (coarse(draw, T) > 2)]
    return {"c": c, "nan_u": nan_u, "nan_b": nan_b, "intZ": draw(st.booleans()),
            "intA": ints and draw(st.booleans()), "intU": draw(st.booleans()),
            "idt": draw(st.sampled_from(["<i8", "<i4"])),
            "seed_A": coarse(draw, n, n, top=1), "style": draw(gen.style()),
            "hole": [bool(v) for v in coarse(draw, p) > draw(st.integers(-4, 2))],
            "hole_at": draw(st.integers(0, T - 1))}


def judge_control(case, obs):
    c = dict(case["c"])
    T, n, m, p = gen.dims(c)
    style = case["style"]
    dt = np.dtype(case["idt"])
    if case["intZ"]:
        c["Z"] = np.clip(np.round(c["Z"] * 2), -10.0 ** 9, 10.0 ** 9)
    if case["intA"]:
        c["A"] = np.repeat(case["seed_A"][None], T, 0)
    if case["intU"]:
        c["U"] = np.round(c["U"] * 2)
    o = oracle.sequential(c)
    smooth_ok = T == 1 or oracle.ahead_cond(c, o) < 1e6
    sc = scales(c, o)

    def run(which, cc, drop):
        kw, Z, U = present(cc, style)
        if case["intZ"]:
            Z = Z.astype(dt)
        if case["intA"]:
            kw["A"] = kw["A"].astype(dt)
        if case["intU"] and U is not None and not np.isnan(U).any():
            U = U.astype(dt)
        if "B" in drop:
            kw["B"] = None
        if "U" in drop:
            U = None
        return kf_run(which, make_kf(kw), Z, U, n, style["kw"])

    for which in ("filter", "smooth"):
        if which == "smooth" and not smooth_ok:
            continue
        key = ("fm", "fP") if which == "filter" else ("sm", "sP")
        # 1. the control enters at its own index, through its own B
        close_pair(f"{which} with control", run(which, c, ""), (o[key[0]], o[key[1]]), sc)
        # 2. absent control, in every spelling, equals a zero control
        z = dict(c, U=np.zeros_like(c["U"]))
        oz = oracle.sequential(z)
        ref = (oz[key[0]], oz[key[1]])
        scz = scales(z, oz)
        for drop in ("B", "U", "BU"):
            close_pair(f"{which} with {drop}=None vs zero control", run(which, c, drop), ref, scz)
        close_pair(f"{which} with zero control", run(which, z, ""), ref, scz)
        # 3. per-step absence through all-NaN rows
        nn = dict(c, U=c["U"].copy(), B=c["B"].copy())
        nn["U"][case["nan_u"]] = np.nan
        nn["B"][case["nan_b"]] = np.nan
        on = oracle.sequential(nn)
        close_pair(f"{which} with some controls absent", run(which, nn, ""),
                   (on[key[0]], on[key[1]]), scales(nn, on))
    hole, at = np.array(case["hole"]), case["hole_at"]
    if any(hole) and not all(hole):
        # a partly missing control must not be dropped silently, however much of it is missing
        part = dict(c, U=c["U"].copy())
        part["U"][at, hole] = np.nan
        kw, Z, U = present(part, style)
        kf = make_kf(kw)
        x, _ = kf_run("filter", kf, Z, U, n, True, finite=False)
        if np.isfinite(x[at]).all():
            raise Violation(f"a control vector missing only {hole.sum()} of {p} entries was "
                            "silently ignored")
        xp, _ = pair("predict", call("predict", kf.predict, kw["A"][at], kw["xk"].reshape(n), kw["B"][at],
                                     U[at], kw["Pk"], c["Q"][at]), (n,), (n, n), finite=False)
        if np.isfinite(xp).all():
            raise Violation("predict silently ignored a control vector with some missing entries")
        obs.label("partly missing")
    obs.label("intZ" if case["intZ"] else "floatZ", "intA" if case["intA"] else "floatA",
              "nan rows" if any(case["nan_u"]) else "no nan rows", f"p={p}", f"T={T}")
    obs.mark(T >= 2 and float(np.abs(np.einsum("tnp,tp->tn", c["B"], c["U"])).max()) > 1e-6)


@st.composite
def ekf_control_case(draw):
    c = draw(gen.nonlinear(Tmax=5, units=False))
    return {"c": c, "dt": draw(st.sampled_from(["<i8", "<i4", "<f8", "<f4"])),
            "flat": draw(st.booleans()), "which": draw(st.sampled_from(["filter", "smooth"]))}


def judge_ekf_control(case, obs):
    """With U omitted the user's f sees 'absent' (None or all NaN), never a made-up number."""
    c = dict(case["c"])
    c["Z"] = np.clip(np.round(c["Z"] * 2), -2.0 ** 23, 2.0 ** 23)     # exact in every type
    T = len(c["Z"])
    c["U"] = None
    o = oracle.ekf(dict(c, D=None))
    if c["D"] is None:
        c["D"] = np.ones((len(c["x0"]), 1))
        c["E"] = np.zeros((len(c["x0"]), len(c["x0"])))
    fns = Fns(c, flat=case["flat"])
    kw, Z, _ = ekf_args(c, fns)
    ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, **kw)
    got = ekf_run(case["which"], ek, Z.astype(case["dt"]), None, fns.n)
    key = ("fm", "fP") if case["which"] == "filter" else ("sm", "sP")
    close_pair(f"extended {case['which']} without control", got, (o[key[0]], o[key[1]]),
               ekf_scales(dict(c, D=None), o), 1e-6)
    obs.label(case["dt"], case["which"])
    obs.mark(T >= 2)


@st.composite
def ekf_hand_case(draw):
    c = draw(gen.nonlinear(Tmax=6, controls="bilinear", noiseless=True))
    T, p = c["U"].shape
    return {"c": c, "absent": [bool(v) for v in (coarse(draw, T) > 1)],
            "two": mixed(draw, 2, p), "style": draw(gen.style())}


def judge_ekf_hand(case, obs):
    """Each step's own control, or the absent marker, reaches the user's functions."""
    c = dict(case["c"])
    T, p = c["U"].shape
    c["U"] = c["U"].copy()
    c["U"][case["absent"]] = np.nan
    o = oracle.ekf(c)
    sc = ekf_scales(c, o)
    close_pair("extended filter with some controls absent", run_ekf(c, "filter", case["style"]),
               (o["fm"], o["fP"]), sc, 1e-6)
    if oracle.ahead_cond(None, o) < 1e6:
        close_pair("extended smoother with some controls absent",
                   run_ekf(c, "smooth", case["style"]), (o["sm"], o["sP"]), sc, 1e-6)
    # predictions from one state under several controls, on one object
    fns = Fns(c)
    kw, Z, U = ekf_args(c, fns)
    ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, **kw)
    D2 = np.outer(fns.D, fns.D)
    for u in (case["two"][0], case["two"][1], None, case["two"][0]):
        w = oracle.f_val(c, c["x0"], u)
        F = oracle.f_jac(c, c["x0"], u)
        x, P = pair("predict", call("predict", ek.predict, xk=kw["xk"], uk=u, Pk=kw["Pk"],
                                    Qk=kw["Q"][-1]), w.shape, F.shape)
        Pw = F @ c["P0"] @ F.T + c["Q"][-1]
        close_pair("extended predict under another control", (x / fns.D, P / D2), (w, Pw),
                   (max(1.0, np.abs(w).max(), np.abs(c["x0"]).max()), max(1e-6, np.abs(Pw).max())))
    obs.label("absent" if any(case["absent"]) else "full", f"p={p}")
    obs.mark(T >= 2)


@st.composite
def partly_case(draw):
    T, p = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    return {"U": mixed(draw, T, p), "gap": draw(st.sampled_from([0.2, 0.5, 0.8])),
            "gaps": np.abs(mixed(draw, T, p)), "w": mixed(draw, p), "none": mixed(draw, p),
            "Z": 2 * mixed(draw, T), "flat": draw(st.booleans())}


def judge_partly(case, obs):
    """A scalar model whose functions tell every missing component of the control from any value."""
    U = np.array(case["U"])
    # the share of missing components varies with the case
    lim = np.quantile(case["gaps"], case["gap"])
    U[case["gaps"] < lim] = np.nan
    T, p = U.shape

    def push(u):
        if u is None:
            return float(case["w"] @ case["none"])
        u = np.asarray(u, float).reshape(p)
        return float(case["w"] @ np.where(np.isnan(u), case["none"], u))

    one = np.ones((T, 1, 1))
    kw = dict(xk=np.array([0.5]), Pk=np.eye(1), Q=one, R=one,
              f=lambda x, u=None: 0.8 * x + push(u), h=lambda x: x,
              jacobian_A=lambda x, u=None: np.array([[0.8 + np.tanh(push(u))]]),
              jacobian_H=lambda x: np.eye(1))
    x, P, want = 0.5, 1.0, []
    for u, z in zip(U, case["Z"]):
        F = 0.8 + np.tanh(push(u))
        x, P = 0.8 * x + push(u), F * P * F + 1.0
        g = P / (P + 1.0)
        x, P = x + g * (z - x), P / (P + 1.0)
        want.append((x, P, F))
    s = [want[-1][:2]]
    for k in range(T - 2, -1, -1):
        x, P, F = want[k][0], want[k][1], want[k + 1][2]
        ahead, Pa = 0.8 * x + push(U[k + 1]), F * P * F + 1.0
        G = P * F / Pa
        s.append((x + G * (s[-1][0] - ahead), P + G * G * (s[-1][1] - Pa)))
    size = max(1.0, max(abs(w[0]) for w in want))
    for which, w in (("filter", [v[:2] for v in want]), ("smooth", s[::-1])):
        ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, **kw)
        got = ekf_run(which, ek, case["Z"].reshape((T,) if case["flat"] else (T, 1)), U.copy(), 1)
        w = np.array(w)
        close_pair(f"extended {which} with partly missing controls", got,
                   (w[:, :1], w[:, 1:].reshape(T, 1, 1)), (size, 1.0))
    gone = np.isnan(U).sum(1)
    obs.label("partly missing" if ((gone > 0) & (gone < p)).any() else "whole",
              "mostly missing" if ((gone > 1) & (gone < p)).any() else "")
    obs.mark(bool(((gone > 0) & (gone < p)).any()))


C04 = Prop(
    "C04",
    "random models with random controls; the same run is repeated with the control given, zero, "
    "omitted (B, U or both None) and omitted at some steps (all-NaN rows), with integer or float "
    "data; non-trivial = at least two steps and a control that moves the state",
    [Sub("standard", control_case(), judge_control, 2000),
     Sub("extended", ekf_control_case(), judge_ekf_control, 1500),
     Sub("handed_over", ekf_hand_case(), judge_ekf_hand, 1800),
     Sub("partly", partly_case(), judge_partly, 1000),
     grown_sub(control_case(), judge_control),
     grown_sub(ekf_hand_case(), judge_ekf_hand, name="grown_extended"),
     long_sub(control_case(False), judge_control, 48, far=1500, tiled=("nan_u", "nan_b")),
     long_sub(ekf_hand_case(), judge_ekf_hand, 32, name="long_extended", far=1500,
              tiled=("absent",))])


# ------------------------------------------------------------------ C05 covariances
def loewner(what, big, small, scale, tol=1e-9):
    """big - small is positive semi-definite."""
    d = oracle.sym(big - small)
    w = np.linalg.eigvalsh(d)
    lo = float(w.min())
    if not np.isfinite(w).all() or lo < -tol * scale:
        raise Violation(f"{what}: difference has eigenvalue {lo:.6g} (scale {scale:.3g})")


def check_cov(what, P, scale, tol=1e-9):
    a = float(np.abs(P - np.swapaxes(P, -1, -2)).max())
    if not a <= tol * scale:
        raise Violation(f"{what}: asymmetric by {a:.3g} (scale {scale:.3g})")
    loewner(what + " is not positive semi-definite", P, np.zeros_like(P), scale, tol)


@st.composite
def cov_case(draw):
    c = draw(gen.linear(smooth=draw(st.booleans()), Tmin=1, Tmax=12, units=True))
    T, n, m, p = gen.dims(c)
    alt = {"Z": draw(st.sampled_from([1.0, 50.0])) * mixed(draw, T, m), "x0": 4.0 * mixed(draw, n)}
    if c["U"] is not None:
        alt["U"] = 3.0 * mixed(draw, T, c["U"].shape[1])
    return {"c": c, "alt": alt, "style": draw(gen.style())}


def judge_cov(case, obs):
    c, style = case["c"], case["style"]
    T, n, m, _ = gen.dims(c)
    o = oracle.sequential(c, smooth=False)
    ms, ps = scales(c, o)
    kfs = []
    x, P = run_linear(c, "filter", style, kfs)
    prev = c["P0"]
    for k in range(T):
        check_cov(f"filtered covariance {k}", P[k], ps)
        prior = c["A"][k] @ prev @ c["A"][k].T + c["Q"][k]
        loewner(f"update {k} increased the uncertainty", prior, P[k], ps)
        prev = P[k]
    alt = dict(c, **case["alt"])
    k2 = []
    _, P2 = run_linear(alt, "filter", style, k2)
    close("covariances changed with the data", P2, P, ps)
    for g1, g2 in zip(kfs[0].kalman_gains, k2[0].kalman_gains):
        s = float(np.abs(np.asarray(g1, float)).max(initial=0.0))
        close("gains changed with the data", g2, g1, max(s, 1e-300))
    obs.label(f"n={n}", f"T={T}" if T < 3 else "T>=3")
    if T == 1 or oracle.ahead_cond(c, o) < 1e6:
        xs, Ps = run_linear(c, "smooth", style)
        for k in range(T):
            check_cov(f"smoothed covariance {k}", Ps[k], ps)
            loewner(f"smoothing increased the uncertainty at {k}", P[k], Ps[k], ps)
        _, Ps2 = run_linear(alt, "smooth", style)
        close("smoothed covariances changed with the data", Ps2, Ps, ps)
        obs.label("smoothed")
    obs.mark(T >= 2 and n >= 2)


def judge_cov_ekf(case, obs):
    c = case["c"]
    o = oracle.ekf(c, smooth=False)
    ps = ekf_scales(c, o)[1]
    fns = []
    x, P = run_ekf(c, "filter", case["style"], fns)
    prev, xp = c["P0"], c["x0"]
    for k in range(len(x)):
        check_cov(f"extended filtered covariance {k}", P[k], ps)
        F = oracle.f_jac(c, xp, None if c["U"] is None else c["U"][k])
        loewner(f"extended update {k} increased the uncertainty", F @ prev @ F.T + c["Q"][k],
                P[k], ps)
        prev, xp = P[k], x[k]
    if len(x) == 1 or oracle.ahead_cond(c, o) < 1e6:
        _, Ps = run_ekf(c, "smooth", case["style"])
        for k in range(len(x)):
            check_cov(f"extended smoothed covariance {k}", Ps[k], ps)
            loewner(f"extended smoothing increased the uncertainty at {k}", P[k], Ps[k], ps)
        obs.label("smoothed")
    obs.label(f"n={fns[0].n}", f"T={len(x)}")
    obs.mark(len(x) >= 2 and fns[0].n >= 2)


C05 = Prop(
    "C05",
    "random standard and extended models; every filtered and smoothed covariance is checked for "
    "symmetry, positive semi-definiteness and the ordering prior >= filtered >= smoothed, and "
    "for independence from the data (standard filter); non-trivial = >= 2 steps and >= 2 states",
    [Sub("standard", cov_case(), judge_cov, 3000),
     Sub("extended", styled(gen.nonlinear(noiseless=True)), judge_cov_ekf, 2000),
     grown_sub(cov_case(), judge_cov),
     grown_sub(styled(gen.nonlinear(noiseless=True)), judge_cov_ekf, name="grown_extended"),
     long_sub(cov_case(), judge_cov, 48, far=1500, tiled=("alt.Z", "alt.U")),
     long_sub(styled(gen.nonlinear(noiseless=True)), judge_cov_ekf, 32, name="long_extended", far=1500)],
    ["orderings are checked to 1e-9 of the largest predicted covariance"])


# ------------------------------------------------------------------ C06 gains
@st.composite
def gain_case(draw, model=None):
    c = draw(model or gen.linear(smooth=True, Tmin=1, Tmax=7))
    ops = draw(st.lists(st.sampled_from(["filter", "smooth", "update", "predict"]),
                        min_size=1, max_size=4))
    return {"c": c, "ops": ops, "style": draw(gen.style())}


def check_gains(what, gains, before, ref, dims_, unscale, looser=1.0):
    if not hasattr(gains, "__len__"):
        raise Violation(f"{what}: kalman_gains has no length")
    if len(gains) != len(before) + len(ref):
        raise Violation(f"{what}: kalman_gains has {len(gains)} entries, expected "
                        f"{len(before) + len(ref)}")
    for i, b in enumerate(before):
        if not np.array_equal(np.asarray(gains[i]), b):
            raise Violation(f"{what}: earlier recorded gain {i} changed")
    for i, r in enumerate(ref):
        g = np.asarray(gains[len(before) + i], dtype=float)
        if g.shape != dims_:
            raise Violation(f"{what}: gain {i} has shape {g.shape}, expected {dims_}")
        close(f"{what}: gain {i}", unscale(g), r, looser * max(1.0, float(np.abs(r).max())))


def judge_gains(case, obs):
    c, style = case["c"], case["style"]
    T, n, m, _ = gen.dims(c)
    o = oracle.sequential(c)
    if T > 1 and oracle.ahead_cond(c, o) > 1e6:
        return
    sc = scales(c, o)
    s, D, E = gen.in_units(c)
    kw, Z, U = present(s, style)
    kf = make_kf(kw)

    def un(g):
        return g * E[None, :] / D[:, None]

    if len(kf.kalman_gains) != 0:
        raise Violation("a new filter already holds gains")
    before = []
    for op in case["ops"]:
        if op in ("filter", "smooth"):
            x, _ = kf_run(op, kf, Z, U, n, style["kw"])
            ref = list(o["K"])
            if op == "filter":
                xb = x / D
                if len(kf.kalman_gains) != len(before) + T:
                    raise Violation(f"filter: kalman_gains has {len(kf.kalman_gains)} entries, "
                                    f"expected {len(before) + T}")
                for k in range(T):
                    # the recorded gain is the one that produced the estimate
                    prior = c["A"][k] @ (c["x0"] if k == 0 else xb[k - 1]) + oracle.control(c, k)
                    g = un(np.asarray(kf.kalman_gains[len(before) + k], float))
                    close(f"gain {k} does not explain the estimate",
                          prior + g @ (c["Z"][k] - c["H"][k] @ prior), xb[k], sc[0])
        elif op == "update":
            call("update", kf.update, Hk=s["H"][0], xk=s["x0"], Pk=o["pP"][0] * np.outer(D, D),
                 zk=s["Z"][0], Rk=s["R"][0])
            ref = [o["K"][0]]
        else:
            call("predict", kf.predict, Ak=s["A"][0], xk=s["x0"], Bk=np.full((n, 1), np.nan),
                 uk=np.full(1, np.nan), Pk=s["P0"], Qk=s["Q"][0])
            ref = []
        check_gains(op, kf.kalman_gains, before, ref, (n, m), un, sc.looser)
        before = [np.array(g, copy=True) for g in kf.kalman_gains]
    obs.label(*case["ops"], f"m={m}")
    obs.mark(T >= 2 and len(case["ops"]) >= 2)


def judge_gains_ekf(case, obs):
    c, style = case["c"], case["style"]
    o = oracle.ekf(c)
    if len(c["Z"]) > 1 and oracle.ahead_cond(c, o) > 1e6:
        return
    sc = ekf_scales(c, o)
    fns = Fns(c, flat=style["flatZ"])
    kw, Z, U = ekf_args(c, fns, style["flatR"])
    ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, **kw)

    def un(g):
        return g * fns.E[None, :] / fns.D[:, None]

    if len(ek.kalman_gains) != 0:
        raise Violation("a new extended filter already holds gains")
    before = []
    for op in case["ops"]:
        if op in ("filter", "smooth"):
            ekf_run(op, ek, Z, U, fns.n, style["kw"])
            ref = list(o["K"])
        elif op == "update":
            D2 = np.outer(fns.D, fns.D)
            zk = Z[0]
            call("update", ek.update, xk=o["pm"][0] * fns.D, Pk=o["pP"][0] * D2, zk=zk,
                 Rk=np.asarray(kw["R"])[0])
            ref = [o["K"][0]]
        else:
            call("predict", ek.predict, xk=kw["xk"], uk=None if U is None else U[0], Pk=kw["Pk"],
                 Qk=kw["Q"][0])
            ref = []
        check_gains("extended " + op, ek.kalman_gains, before, ref, (fns.n, fns.m), un,
                    sc.looser)
        before = [np.array(g, copy=True) for g in ek.kalman_gains]
    obs.label(*case["ops"], f"m={fns.m}")
    obs.mark(len(Z) >= 2 and len(case["ops"]) >= 2)


@st.composite
def gain_case_ekf(draw):
    return {"c": draw(gen.nonlinear(Tmax=5, noiseless=True)), "style": draw(gen.style()),
            "ops": draw(st.lists(st.sampled_from(["filter", "smooth", "update", "predict"]),
                                 min_size=1, max_size=3))}


@st.composite
def gain_long_case(draw):
    c = draw(gen.linear(smooth=True, Tmin=1, Tmax=3, nmax=3, mmax=2, units=False))
    return {"c": c, "reps": gen.length(draw, 20, 1500),
            "ops": draw(st.lists(st.sampled_from(["filter", "smooth"]), min_size=1, max_size=2))}


def judge_gains_long(case, obs):
    """A record of hundreds of steps (the case's steps with its transition made stable)."""
    c = dict(case["c"])
    T0, r = len(c["Z"]), case["reps"]
    idx = np.arange(r) % T0
    for k in ("A", "H", "Q", "R", "Z", "B", "U"):
        if c[k] is not None:
            c[k] = c[k][idx]
    n = len(c["x0"])
    norm = max(1.0, float(np.linalg.norm(c["A"], 2, axis=(1, 2)).max()))
    c["A"] = c["A"] * (0.95 / norm)
    c["Q"] = c["Q"] + 1e-3 * np.eye(n)
    o = oracle.sequential(c, smooth=False)
    sc = scales(c, o)
    kf_kw, Z, U = present(c)
    kf = make_kf(kf_kw)
    before = []
    for op in case["ops"]:
        kf_run(op, kf, Z, U, n)
        check_gains(f"{op} over {r} steps", kf.kalman_gains, before, list(o["K"]),
                    o["K"].shape[1:], lambda g: g, sc.looser)
        before = [np.array(g, copy=True) for g in kf.kalman_gains]
    obs.label(f"T~{r // 100}00", *case["ops"])
    obs.mark(r >= 50)


@st.composite
def gain_huge_case(draw, lo=3000, hi=12000):
    """One random walk, read many thousand times over several calls on one object."""
    return {"q": 0.05 + abs(float(gen.fine(draw, 1)[0])), "z": gen.fine(draw, 64),
            "kind": draw(st.sampled_from(["standard", "extended"])),
            "calls": [(draw(st.sampled_from(["filter", "filter", "smooth", "update"])),
                       gen.length(draw, lo, hi)) for _ in range(draw(st.integers(1, 2)))]}


def judge_gains_huge(case, obs):
    q, z = case["q"], case["z"]
    T = max(t for _, t in case["calls"])
    one = np.ones((T, 1, 1))
    Z = np.resize(z, (T, 1))
    kw = dict(xk=np.zeros(1), Pk=np.eye(1), Q=q * one, R=one)
    if case["kind"] == "standard":
        f = make_kf(dict(A=one, B=None, H=one, **kw))
        step = {"Hk": np.eye(1)}
    else:
        f = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, f=lambda x, u: x * 1.0,
                 h=lambda x: x * 1.0, jacobian_A=lambda x, u: np.eye(1),
                 jacobian_H=lambda x: np.eye(1), **kw)
        step = {}
    run_gains, p = np.zeros(T), 1.0
    for k in range(T):
        run_gains[k] = (p + q) / (p + q + 1.0)
        p = run_gains[k]
    want = []
    for op, t in case["calls"]:
        if op == "update":
            for k in range(t):
                call("update", f.update, xk=np.zeros(1), Pk=(1.0 + k % 7) * np.eye(1), zk=Z[k],
                     Rk=np.eye(1), **step)
            want.append((1.0 + np.arange(t) % 7) / (2.0 + np.arange(t) % 7))
        else:
            if case["kind"] == "standard":
                kf_run(op, f, Z[:t], None, 1)
            else:
                ekf_run(op, f, Z[:t], None, 1)
            want.append(run_gains[:t])
    want = np.concatenate(want)
    if len(f.kalman_gains) != len(want):
        raise Violation(f"{len(f.kalman_gains)} gains are recorded after {len(want)} updates")
    got = np.array([np.asarray(g, float).reshape(-1)[0] for g in f.kalman_gains])
    close("gains over many updates", got, want, 1.0)
    obs.label(case["kind"], *[op for op, _ in case["calls"]], f"updates~{len(want) // 4000 * 4}000")
    obs.mark(True)


C06 = Prop(
    "C06",
    "random models and random sequences of filter/smooth/predict/update calls on one object; "
    "after each call the recorded gains are compared with independently computed optimal gains; "
    "non-trivial = >= 2 steps and >= 2 calls",
    [Sub("standard", gain_case(), judge_gains, 3500),
     Sub("extended", gain_case_ekf(), judge_gains_ekf, 2000),
     Sub("settled", gain_case(gen.settled()), judge_gains, 150),
     grown_sub(gain_case(), judge_gains),
     grown_sub(gain_case_ekf(), judge_gains_ekf, name="grown_extended"),
     Sub("long", gain_long_case(), judge_gains_long, 160),
     Sub("huge", gain_huge_case(), judge_gains_huge, 24, 240, shards=8),
     Sub("epic", gain_huge_case(33000, 70000), judge_gains_huge, 8, 40, shards=8, limit=360),
     aeon_sub()])


# ------------------------------------------------------------------ C08 causality
@st.composite
def causal_case(draw):
    c = draw(gen.linear(smooth=True, Tmin=2, Tmax=9, nan_controls=True))
    T, n, m, p = gen.dims(c)
    cut = draw(st.integers(1, T - 1))
    d = draw(gen.linear(smooth=True, Tmin=T, Tmax=T, units=False, controls=False))
    alt = {"Z": 3.0 * mixed(draw, T, m), "A": np.eye(n) + 0.3 * mixed(draw, T, n, n),
           "H": 1.5 * mixed(draw, T, m, n), "Q": gen.spd(mixed(draw, T, n, n), 0.1),
           "R": gen.spd(mixed(draw, T, m, m), 0.1)}
    if c["B"] is not None:
        alt["B"] = mixed(draw, T, *c["B"].shape[1:])
    if c["U"] is not None:
        alt["U"] = mixed(draw, T, c["U"].shape[1])
    which = draw(st.lists(st.sampled_from(sorted(alt)), min_size=1, max_size=len(alt),
                          unique=True))
    return {"c": c, "cut": cut, "alt": alt, "which": which, "style": draw(gen.style())}


SEQS = ("A", "H", "B", "U", "Q", "R", "Z")


def sliced(c, sl, **over):
    o = dict(c)
    for k in SEQS:
        if o.get(k) is not None:
            o[k] = o[k][sl]
    o.update(over)
    return o


def judge_causal(case, obs):
    c, cut, style = case["c"], case["cut"], case["style"]
    T, n, m, _ = gen.dims(c)
    o = oracle.sequential(c)
    if oracle.ahead_cond(c, o) > 1e6:
        obs.label("skipped")
        return
    sc = scales(c, o)
    x, P = run_linear(c, "filter", style)
    xs, Ps = run_linear(c, "smooth", style)
    # the last smoothed estimate is the last filtered one
    close_pair("last smoothed vs last filtered", (xs[-1], Ps[-1]), (x[-1], P[-1]), sc)
    # prefix: truncating the record does not change what was estimated before
    pre = sliced(c, slice(0, cut))
    close_pair("filtering a prefix", run_linear(pre, "filter", style), (x[:cut], P[:cut]), sc)
    # same object, longer parameter sequences than observations
    s, D, E = gen.in_units(c)
    kw, Z, U = present(s, style)
    xa, Pa = kf_run("filter", make_kf(kw), Z[:cut], None if U is None else U[:cut], n)
    close_pair("filtering a prefix with the same filter",
               (xa / D, Pa / np.outer(D, D)), (x[:cut], P[:cut]), sc)
    op = oracle.sequential(pre)
    got = kf_run("smooth", make_kf(kw), Z[:cut], None if U is None else U[:cut], n)
    close_pair("smoothing a prefix with the same filter",
               (got[0] / D, got[1] / np.outer(D, D)), (op["sm"], op["sP"]), sc)
    # future data and parameters do not reach the past
    fut = dict(c)
    for k in case["which"]:
        a = fut[k].copy()
        a[cut:] = case["alt"][k][cut:]
        fut[k] = a
    xf, Pf = run_linear(fut, "filter", style)
    close_pair(f"changing {case['which']} from step {cut} on altered earlier estimates",
               (xf[:cut], Pf[:cut]), (x[:cut], P[:cut]), sc)
    # ... but do reach everything from the cut on exactly as the model says
    of = oracle.sequential(fut)
    close_pair("filter after a change of parameters", (xf, Pf), (of["fm"], of["fP"]),
               scales(fut, of))
    # restart from the posterior
    rest = sliced(c, slice(cut, T), x0=x[cut - 1], P0=oracle.sym(P[cut - 1]))
    close_pair("restarting from the posterior", run_linear(rest, "filter", style),
               (x[cut:], P[cut:]), sc)
    close_pair("smoothing after restarting from the posterior",
               run_linear(rest, "smooth", style), (xs[cut:], Ps[cut:]), sc)
    obs.label(*case["which"], f"cut={cut}")
    obs.mark(T >= 3 and moved(c, o))


@st.composite
def causal_ekf_case(draw):
    c = draw(gen.nonlinear(Tmin=2, Tmax=6))
    T = len(c["Z"])
    return {"c": c, "cut": draw(st.integers(1, T - 1)),
            "alt": 2.0 * mixed(draw, T, c["Z"].shape[1]), "style": draw(gen.style())}


def judge_causal_ekf(case, obs):
    c, cut, style = case["c"], case["cut"], case["style"]
    T, n = len(c["Z"]), len(c["x0"])
    o = oracle.ekf(c)
    sc = ekf_scales(c, o)

    def cutc(sl, **over):
        d = dict(c)
        for k in ("U", "Q", "R", "Z"):
            if d[k] is not None:
                d[k] = d[k][sl]
        d.update(over)
        return d

    x, P = run_ekf(c, "filter", style)
    xs, Ps = run_ekf(c, "smooth", style)
    close_pair("last smoothed vs last filtered", (xs[-1], Ps[-1]), (x[-1], P[-1]), sc)
    close_pair("extended filtering of a prefix", run_ekf(cutc(slice(0, cut)), "filter", style),
               (x[:cut], P[:cut]), sc, 1e-6)
    z = c["Z"].copy()
    z[cut:] = case["alt"][cut:]
    xf, Pf = run_ekf(dict(c, Z=z), "filter", style)
    close_pair("future observations altered earlier extended estimates", (xf[:cut], Pf[:cut]),
               (x[:cut], P[:cut]), sc, 1e-6)
    rest = cutc(slice(cut, T), x0=x[cut - 1], P0=oracle.sym(P[cut - 1]))
    close_pair("restarting the extended filter", run_ekf(rest, "filter", style),
               (x[cut:], P[cut:]), sc, 1e-6)
    close_pair("restarting the extended smoother", run_ekf(rest, "smooth", style),
               (xs[cut:], Ps[cut:]), sc, 1e-6)
    obs.label(f"cut={cut}")
    obs.mark(T >= 3)


@st.composite
def lopsided_case(draw):
    """Start, process and observations known to very different degrees."""
    ext = draw(st.booleans())
    c = draw(gen.nonlinear(Tmin=2, Tmax=6) if ext else
             gen.linear(Tmin=2, Tmax=6, data="any"))
    c = dict(c, units=[[0] * len(c["x0"]), [0] * c["Z"].shape[1], 0])
    for k, top in (("P0", 46), ("Q", 30), ("R", 30)):
        c[k] = np.ldexp(c[k], draw(st.sampled_from([0, 10, top // 2, top, -10, -30])))
    return {"c": c, "ext": ext, "alt": 3.0 * mixed(draw, *c["Z"].shape), "style": draw(gen.style())}


def judge_lopsided(case, obs):
    """The same steps are taken whatever comes later, so even hard problems give the same numbers."""
    c, style = case["c"], case["style"]
    run = run_ekf if case["ext"] else run_linear
    ref = oracle.ekf if case["ext"] else oracle.sequential
    with np.errstate(all="ignore"):
        try:
            o = ref(c, False)
            ms, ps = (ekf_scales if case["ext"] else scales)(c, o)
        except np.linalg.LinAlgError:
            return
        if not ps < 1e6 * max(1e-6, np.abs(o["pP"]).max(), np.abs(c["P0"]).max()):
            obs.label("skipped")
            return
    x, P = run(c, "filter", style)
    for cut in range(1, len(x)):
        sl = slice(0, cut)
        pre = {**c, **{k: c[k][sl] for k in SEQS if c.get(k) is not None and len(c[k]) == len(x)
                       and not (case["ext"] and k == "H")}}
        xp, Pp = run(pre, "filter", style)
        z = c["Z"].copy()
        z[cut:] = case["alt"][cut:]
        xf, Pf = run(dict(c, Z=z), "filter", style)
        for what, (a, b) in (("cutting the record", (xp, Pp)),
                             ("changing the data", (xf[sl], Pf[sl]))):
            for got, was in ((a, x[sl]), (b, P[sl])):
                if not np.allclose(got, was, rtol=1e-5, atol=1e-9 * max(ms, 1.0) if got is a
                                   else 1e-11 * ps):
                    raise Violation(f"{what} at step {cut} altered earlier estimates: "
                                    f"{got.tolist()} instead of {was.tolist()}")
    obs.label("extended" if case["ext"] else "standard")
    obs.mark(True)


C08 = Prop(
    "C08",
    "random models split at a random step: prefixes, changed futures, restarts from the "
    "posterior, fixed-interval smoothing of prefixes; non-trivial = >= 3 steps and moving data",
    [Sub("standard", causal_case(), judge_causal, 2000),
     Sub("extended", causal_ekf_case(), judge_causal_ekf, 1500),
     Sub("lopsided", lopsided_case(), judge_lopsided, 1200),
     grown_sub(causal_case(), judge_causal),
     grown_sub(causal_ekf_case(), judge_causal_ekf, name="grown_extended"),
     long_sub(causal_case(), judge_causal, 48, far=1500, tiled=tuple("alt." + k for k in SEQS)),
     long_sub(causal_ekf_case(), judge_causal_ekf, 32, name="long_extended", far=1500,
              tiled=("alt",))])


# ------------------------------------------------------------------ C10 equivariance
FAR = [-320, -320, -90, -90, 90, 90, 320]
FAR_EXP = st.one_of(st.integers(-45, 45), st.sampled_from([-700, -660, -120, 120, 640]))


def APART(n):
    """Per-component units of the state, up to 2**90 from each other."""
    return st.lists(st.one_of(st.integers(-45, 45), st.just(0)), min_size=n, max_size=n)


@st.composite
def equi_case(draw):
    c = draw(gen.linear(smooth=True, Tmin=1, Tmax=7, units=False, nan_controls=True))
    T, n, m, p = gen.dims(c)
    M = {"S": mixed(draw, n, n), "O": mixed(draw, m, m)}
    p_ = p or 1
    M["C"] = mixed(draw, p_, p_)
    perm = [list(draw(st.permutations(range(n)))), list(draw(st.permutations(range(m))))]
    return {"c": c, "M": M, "perm": perm, "kind": draw(st.sampled_from(
        ["state", "obs", "control", "covscale", "perm", "sign", "all", "units", "apart"])),
        "apart": draw(APART(n)), "exp": draw(FAR_EXP), "u": draw(gen.unit_exps(n, m, FAR)),
        "signs": [coarse(draw, n), coarse(draw, m)], "style": draw(gen.style())}


def invertible(M):
    """A well-conditioned matrix built from the direction of M: I + 0.9 * M/|M|_2 * 0.5."""
    s = max(1.0, float(np.linalg.norm(M, 2)))
    return np.eye(len(M)) + 0.6 * M / s


def judge_equi(case, obs):
    c, kind = case["c"], case["kind"]
    T, n, m, p = gen.dims(c)
    o = oracle.sequential(c)
    if T > 1 and oracle.ahead_cond(c, o) > 1e5:
        obs.label("skipped")
        return
    S, O = np.eye(n), np.eye(m)
    N = np.eye(p or 1)
    cs = 1.0
    if kind in ("state", "all"):
        S = invertible(case["M"]["S"])
    if kind in ("obs", "all"):
        O = invertible(case["M"]["O"])
    if kind in ("control", "all"):
        N = invertible(case["M"]["C"])
    if kind in ("covscale", "all"):
        cs = float(np.ldexp(1.0, case["exp"]))
    if kind == "perm":
        S, O = np.eye(n)[case["perm"][0]], np.eye(m)[case["perm"][1]]
    if kind == "sign":
        S, O = np.diag(np.sign(case["signs"][0] + 0.5)), np.diag(np.sign(case["signs"][1] + 0.5))
    if kind == "units":
        S = np.diag(np.ldexp(1.0, np.array(case["u"][0]) + case["u"][2]))
        O = np.diag(np.ldexp(1.0, np.array(case["u"][1]) + case["u"][2]))
    if kind == "apart":
        S = np.diag(np.ldexp(1.0, np.array(case["apart"])))
    Si = np.diag(1 / np.diag(S)) if kind == "apart" else np.linalg.inv(S)
    t = dict(c)
    t["A"] = S @ c["A"] @ Si
    t["H"] = O @ c["H"] @ Si
    t["Q"] = cs * (S @ c["Q"] @ S.T)
    t["R"] = cs * (O @ c["R"] @ O.T)
    t["P0"] = cs * (S @ c["P0"] @ S.T)
    for k in ("Q", "R", "P0"):
        t[k] = oracle.sym(t[k])
    t["x0"] = S @ c["x0"]
    t["Z"] = c["Z"] @ O.T
    if c["U"] is not None:
        t["U"] = c["U"] @ N.T
        t["U"][np.isnan(c["U"]).all(axis=1)] = np.nan
    if c["B"] is not None:
        nanb = np.isnan(c["B"]).all(axis=(1, 2))
        t["B"] = S @ c["B"] @ np.linalg.inv(N)
        t["B"][nanb] = np.nan
    sc = scales(c, o)
    # state components in units that are astronomically apart do not touch the innovations, but
    # they make the predicted covariance the smoother has to invert singular to working precision
    for which in ("filter",) if kind == "apart" else ("filter", "smooth"):
        x, P = run_linear(c, which, case["style"])
        xt, Pt = run_linear(t, which, case["style"])
        back = (xt @ Si.T, Si @ Pt @ Si.T / cs)
        close_pair(f"{which} after a change of {kind}", back, (x, P), sc)
    obs.label(kind, f"n={n}", f"m={m}")
    obs.mark(moved(c, o))


@st.composite
def equi_ekf_case(draw):
    c = draw(gen.nonlinear(Tmax=6, units=False))
    n, m = len(c["x0"]), c["Z"].shape[1]
    return {"c": c, "u": draw(gen.unit_exps(n, m, FAR)), "exp": draw(FAR_EXP),
            "apart": draw(st.one_of(st.just([]), APART(n))),
            "S": mixed(draw, n, n), "O": mixed(draw, m, m), "shift": 3.0 * mixed(draw, n),
            "zshift": 3.0 * mixed(draw, m), "style": draw(gen.style())}


def judge_equi_ekf(case, obs):
    c = case["c"]
    o = oracle.ekf(c)
    if oracle.ahead_cond(c, o) > 1e5:
        obs.label("skipped")
        return
    sc = ekf_scales(c, o)
    far = abs(2 * case["u"][2] + case["exp"]) > 720        # would leave the range of floats
    cs = 1.0 if far else float(np.ldexp(1.0, case["exp"]))
    t = dict(c, units=case["u"])
    t["Q"], t["R"], t["P0"] = cs * c["Q"], cs * c["R"], cs * c["P0"]
    # an affine change of the state and of the observations
    fns = Fns(dict(c, ret="fresh"))
    S, O = invertible(case["S"]), invertible(case["O"])
    Si, a, b = np.linalg.inv(S), case["shift"], case["zshift"]
    ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter,
              xk=S @ c["x0"] + a, Pk=oracle.sym(S @ c["P0"] @ S.T),
              Q=oracle.sym(S @ c["Q"] @ S.T), R=oracle.sym(O @ c["R"] @ O.T),
              f=lambda x, u: S @ fns.f(Si @ (x - a), u) + a,
              jacobian_A=lambda x, u: S @ fns.jacobian_A(Si @ (x - a), u) @ Si,
              h=lambda x: O @ np.atleast_1d(fns.h(Si @ (x - a))) + b,
              jacobian_H=lambda x: O @ fns.jacobian_H(Si @ (x - a)) @ Si)
    if case["apart"]:
        x, P = run_ekf(c, "filter", case["style"])
        xt, Pt = run_ekf(dict(c, units=[case["apart"], [0] * len(b), 0]), "filter", case["style"])
        close_pair("extended filter with state components in units far apart", (xt, Pt), (x, P),
                   sc, 1e-6)
        obs.label("apart")
    for which in ("filter", "smooth"):
        x, P = run_ekf(c, which, case["style"])
        xt, Pt = run_ekf(t, which, case["style"])
        close_pair(f"extended {which} after a change of units", (xt, Pt / cs), (x, P), sc, 1e-6)
        xt, Pt = ekf_run(which, ek, c["Z"] @ O.T + b, c["U"], len(a))
        close_pair(f"extended {which} after an affine change of coordinates",
                   ((xt - a) @ Si.T, Si @ Pt @ Si.T), (x, P), sc, 1e-6)
    obs.label("units" if any(map(any, case["u"][:2])) or case["u"][2] else "covscale only",
              "shifted" if a.any() else "unshifted", f"n={len(a)}")
    obs.mark(len(c["Z"]) >= 2)


# systems of one number each, side by side, in units of their own: nothing is lost to rounding
@st.composite
def side_by_side_case(draw):
    n = draw(st.sampled_from([2, 2, 3, 4, 5, 8, 9]))
    T = draw(st.integers(1, 8))

    def diag(v):
        return np.stack([np.diag(w) for w in v])

    c = {"A": diag(1.2 * mixed(draw, T, n)), "Q": diag(0.1 + np.abs(mixed(draw, T, n))),
         "R": diag(0.1 + np.abs(mixed(draw, T, n))), "P0": np.diag(np.abs(mixed(draw, n))),
         "x0": 2.0 * mixed(draw, n), "Z": 3.0 * fine(draw, T, n), "B": None, "U": None}
    h = mixed(draw, T, n)
    c["H"] = diag(h + np.where(h < 0, -0.25, 0.25))
    if draw(st.booleans()):
        c["B"], c["U"] = diag(mixed(draw, T, n)), 2.0 * mixed(draw, T, n)
    lo = draw(st.sampled_from([0, -4, -9]))
    units = st.lists(st.integers(lo, -lo), min_size=n, max_size=n)
    g = draw(st.sampled_from([0, 0, -30, 30]))
    c["units"] = [draw(units), draw(units), g]
    perm = list(draw(st.permutations(range(n))))
    return {"c": c, "perm": perm, "G": 0.4 * mixed(draw, n), "phi": draw(st.sampled_from(sorted(gen.PHI))),
            "style": draw(gen.style())}


def judge_side_by_side(case, obs):
    c, perm = dict(case["c"]), case["perm"]
    T, n, m, p = gen.dims(c)
    # the observations in another order than the components
    for k in ("H", "Z"):
        c[k] = c[k][:, perm]
    c["R"] = c["R"][:, perm][:, :, perm]
    c["units"] = [c["units"][0], [c["units"][1][i] for i in perm], c["units"][2]]
    parts = {"A": (1, 2), "H": (1, 2), "Q": (1, 2), "R": (1, 2), "B": (1, 2), "U": (1,), "Z": (1,)}
    for which in ("filter", "smooth"):
        x, P = run_linear(c, which, case["style"])
        for i in range(n):
            one = {"units": [[0], [0], 0], "P0": c["P0"][i:i + 1, i:i + 1], "x0": c["x0"][i:i + 1]}
            j = perm.index(i)
            for k in parts:
                v = case["c"][k]
                one[k] = v if v is None else v[:, i:i + 1] if v.ndim == 2 else v[:, i:i + 1, i:i + 1]
            o = oracle.sequential(one)
            key = ("fm", "fP") if which == "filter" else ("sm", "sP")
            close_pair(f"{which}: component {i} (reading {j}) of {n} independent ones",
                       (x[:, i:i + 1], P[:, i:i + 1, i:i + 1]), (o[key[0]], o[key[1]]), scales(one, o))
    # the same for an extended filter, each component with a bend of its own
    e = {"F": c["A"][0], "G": np.diag(case["G"]), "C": np.eye(n), "phi": case["phi"],
         "H": c["H"][0], "J": np.zeros((n, n)), "K": np.eye(n), "psi": "sin", "c0": np.zeros(n),
         "D": None, "E": None, "U": None, "ret": "fresh", "scalar_h": False, "kinds": []}
    e.update({k: c[k] for k in ("Q", "R", "P0", "x0", "Z", "units")})
    for which in ("filter", "smooth"):
        x, P = run_ekf(e, which, case["style"])
        for i in range(n):
            j = perm.index(i)
            one = dict(e, D=None, E=None, units=[[0], [0], 0])
            for k in ("F", "G", "C", "K", "P0"):
                one[k] = e[k][i:i + 1, i:i + 1]
            one["J"], one["H"], one["c0"] = np.zeros((1, 1)), e["H"][j:j + 1, i:i + 1], np.zeros(1)
            one["x0"], one["Z"] = e["x0"][i:i + 1], e["Z"][:, j:j + 1]
            one["Q"], one["R"] = e["Q"][:, i:i + 1, i:i + 1], e["R"][:, j:j + 1, j:j + 1]
            o = oracle.ekf(one)
            key = ("fm", "fP") if which == "filter" else ("sm", "sP")
            close_pair(f"extended {which}: component {i} (reading {j}) of {n} independent ones",
                       (x[:, i:i + 1], P[:, i:i + 1, i:i + 1]), (o[key[0]], o[key[1]]),
                       ekf_scales(one, o), 1e-6)
    spread = max(c["units"][1]) - min(c["units"][1])
    obs.label(f"n={n}", "units " + ("as one" if spread < 3 else "apart" if spread < 10 else "far apart"))
    obs.mark(T >= 2 and spread > 0)


C10 = Prop(
    "C10",
    "a random model and the same model in other coordinates (invertible change of state, "
    "observation or control basis, permutation, sign, common covariance factor, units from "
    "2**-320 to 2**320, state components up to 2**90 apart; for the extended filter also any affine change) are both run; non-trivial = >= 2 steps and the data move the estimate",
    [Sub("standard", equi_case(), judge_equi, 3500),
     Sub("extended", equi_ekf_case(), judge_equi_ekf, 1800),
     Sub("side_by_side", side_by_side_case(), judge_side_by_side, 1500),
     grown_sub(equi_case(), judge_equi),
     grown_sub(equi_ekf_case(), judge_equi_ekf, name="grown_extended"),
     long_sub(equi_case(), judge_equi, 48, far=1500),
     long_sub(equi_ekf_case(), judge_equi_ekf, 32, name="long_extended", far=1500)])


# ------------------------------------------------------------------ C14 affine in the data
@st.composite
def affine_case(draw):
    c = draw(gen.linear(smooth=True, Tmin=1, Tmax=8))
    T, n, m, p = gen.dims(c)
    b = {"Z": draw(st.sampled_from([1.0, 30.0])) * mixed(draw, T, m), "x0": 3.0 * mixed(draw, n)}
    if draw(st.booleans()):
        # a gross outlier in the other data set: no gating, no clipping
        b["Z"][draw(st.integers(0, T - 1)), draw(st.integers(0, m - 1))] = \
            draw(st.sampled_from([-1.0, 1.0])) * 2.0 ** draw(st.one_of(st.integers(3, 40), st.integers(41, 90)))
    if c["U"] is not None:
        b["U"] = draw(st.sampled_from([2.0, 2.0, 1e4])) * mixed(draw, T, p)
    w = draw(st.sampled_from([0.5, -1.0, 2.0, 0.25, 3.0, 1.0 / 3]))
    return {"c": c, "b": b, "w": w, "style": draw(gen.style())}


def judge_affine(case, obs):
    c, w = case["c"], case["w"]
    T, n, m, p = gen.dims(c)
    o = oracle.sequential(c)
    if T > 1 and oracle.ahead_cond(c, o) > 1e6:
        return
    other = dict(c, **case["b"])
    mix = dict(c)
    for k in case["b"]:
        mix[k] = (1 - w) * c[k] + w * case["b"][k]
    zero = dict(c, Z=np.zeros_like(c["Z"]), x0=np.zeros(n))
    if c["U"] is not None:
        zero["U"] = np.zeros_like(c["U"])
    o2 = oracle.sequential(other)
    s1, s2 = scales(c, o), scales(other, o2)
    ms, ps = (1 + abs(w)) * 2 * max(s1[0], s2[0]), s1[1]
    for which in ("filter", "smooth"):
        xa, Pa = run_linear(c, which, case["style"])
        xb, Pb = run_linear(other, which, case["style"])
        xm, Pm = run_linear(mix, which, case["style"])
        close(f"{which}: estimates are not affine in data, start and control", xm,
              (1 - w) * xa + w * xb, ms)
        close(f"{which}: covariances depend on the data", Pm, Pa, ps)
        xz, _ = run_linear(zero, which, case["style"])
        close(f"{which}: zero data, start and control gave a non-zero estimate", xz,
              np.zeros_like(xz), ms)
    obs.label(f"w={w:.3g}", f"T={T}")
    obs.mark(T >= 2 and float(np.abs(xa - xb).max()) > 1e-6)


C14 = Prop(
    "C14",
    "two random data sets (observations, start, controls) and a random affine combination are "
    "run through the same model; non-trivial = >= 2 steps and distinct estimates",
    [Sub("affine", affine_case(), judge_affine, 3500),
     grown_sub(affine_case(), judge_affine),
     long_sub(affine_case(), judge_affine, 48, far=1500, tiled=("b.Z", "b.U"))])


# ------------------------------------------------------------------ C15 evidence
@st.composite
def fusion_case(draw):
    c = draw(gen.linear(Tmin=1, Tmax=5, units=True, nmax=4, mmax=3))
    T, n, m, p = gen.dims(c)
    extra = gen.controls_n(draw)
    e = {"H": 1.5 * mixed(draw, T, extra, n), "R": gen.spd(mixed(draw, T, extra, extra), 0.05),
         "Z": 3.0 * mixed(draw, T, extra)}
    return {"c": c, "e": e, "perm": list(draw(st.permutations(range(m + extra)))),
            "blind": [bool(v) for v in coarse(draw, T) > 0],
            "copies": draw(st.integers(2, 4))}


def judge_fusion(case, obs):
    c0, e0 = case["c"], case["e"]
    T, n, m, p = gen.dims(c0)
    # express the extra observations in the same units
    full0 = dict(c0)
    q = e0["Z"].shape[1]
    full0["H"] = np.concatenate([c0["H"], e0["H"]], axis=1)
    full0["Z"] = np.concatenate([c0["Z"], e0["Z"]], axis=1)
    R = np.zeros((T, m + q, m + q))
    R[:, :m, :m], R[:, m:, m:] = c0["R"], e0["R"]
    full0["R"] = R
    dx, dz, g = c0["units"]
    full0["units"] = [dx, dz + [0] * q, g]
    o = oracle.sequential(full0, smooth=False)
    sc = scales(full0, o)
    x, P = run_linear(full0, "filter")
    close_pair("filter with stacked observations", (x, P), (o["fm"], o["fP"]), sc)
    full, D, E = gen.in_units(full0)
    D2 = np.outer(D, D)
    # order of the components does not matter
    pm = case["perm"]
    perm = dict(full0, H=full0["H"][:, pm], Z=full0["Z"][:, pm],
                R=full0["R"][:, pm][:, :, pm],
                units=[dx, [full0["units"][1][i] for i in pm], g])
    close_pair("reordering the components of the observation", run_linear(perm, "filter"),
               (x, P), sc)
    # independent groups may be absorbed one after the other
    if True:
        kw, Z, U = present(full)
        host = make_kf(kw)
        xk, Pk = full["x0"], full["P0"]
        for k in range(T):
            has = full["B"] is not None and full["U"] is not None
            xk, Pk = pair("predict", call("predict", host.predict, Ak=full["A"][k], xk=xk,
                                          Bk=full["B"][k] if has else np.full((n, 1), np.nan),
                                          uk=full["U"][k] if has else np.full(1, np.nan),
                                          Pk=Pk, Qk=full["Q"][k]), (n,), (n, n))
            order = [slice(0, m), slice(m, m + q)]
            if case["perm"][0] >= m:
                order.reverse()
            for sl in order:
                xk, Pk = pair("update", call("update", host.update, Hk=full["H"][k][sl], xk=xk,
                                             Pk=Pk, zk=full["Z"][k][sl],
                                             Rk=full["R"][k][sl, sl]), (n,), (n, n))
            close_pair(f"one update with everything vs one per group at step {k}",
                       (xk / D, Pk / D2), (x[k], P[k]), sc)
    # an observation that carries no information changes nothing
    blind = [i for i, b in enumerate(case["blind"]) if b]
    if blind:
        bl = dict(full0, H=full0["H"].copy())
        bl["H"][blind] = 0.0
        xb, Pb = run_linear(bl, "filter")
        px, pP = full0["x0"], full0["P0"]
        for k in range(T):
            if k in blind:
                close(f"uninformative observation {k} moved the estimate", xb[k],
                      full0["A"][k] @ px + oracle.control(full0, k), sc[0])
                close(f"uninformative observation {k} changed the covariance", Pb[k],
                      full0["A"][k] @ pP @ full0["A"][k].T + full0["Q"][k], sc[1])
            px, pP = xb[k], Pb[k]
        obs.label("blind steps")
    # r repeated readings of variance r*R are worth one reading of variance R
    r = case["copies"]
    rep = {"A": np.repeat(full0["A"], r, 0), "H": np.repeat(full0["H"], r, 0),
           "Q": np.repeat(full0["Q"], r, 0), "R": np.repeat(full0["R"], r, 0) * r,
           "Z": np.repeat(full0["Z"], r, 0), "x0": full0["x0"], "P0": full0["P0"], "B": None,
           "U": None, "units": full0["units"]}
    for k in range(T * r):
        if k % r:
            rep["A"][k] = np.eye(n)
            rep["Q"][k] = 0.0
    single = dict(full0, B=None, U=None)
    x1, P1 = run_linear(single, "filter")
    xr, Pr = run_linear(rep, "filter")
    close_pair(f"{r} copies of a reading with {r}-fold noise", (xr[r - 1::r], Pr[r - 1::r]),
               (x1, P1), sc)
    obs.label(f"m={m}+{q}", f"T={T}")
    obs.mark(moved(full0, o) or (T == 1 and float(np.abs(o["fm"] - o["pm"]).max()) > 1e-6))


@st.composite
def exact_case(draw):
    n = gen.a_size(draw, [1, 2, 3, 4], gen.GROWN_N)
    m = draw(st.integers(1, n))
    T = gen.steps(draw, 1, 5)
    H = np.repeat(np.eye(n)[None, :m], T, 0) + 0.25 * fine(draw, T, m, n) / n
    c = {"A": np.eye(n) + 0.4 * mixed(draw, T, n, n) / n, "H": H, "B": None, "U": None,
         "Q": gen.spd(mixed(draw, T, n, n), 0.3), "R": np.zeros((T, m, m)),
         "x0": mixed(draw, n), "P0": gen.spd(mixed(draw, n, n), 0.3),
         "Z": 4 * mixed(draw, T, m), "units": draw(gen.unit_exps(n, m))}
    return c


def judge_exact(case, obs):
    """A noise-free observation is reproduced exactly, with no variance left along it."""
    c = case
    x, P = run_linear(c, "filter")
    o = oracle.sequential(c, smooth=False)
    sc = scales(c, o)
    for k in range(len(x)):
        close(f"noise-free observation {k} is not reproduced", c["H"][k] @ x[k], c["Z"][k], sc[0])
        close(f"variance left along noise-free observation {k}", c["H"][k] @ P[k] @ c["H"][k].T,
              np.zeros((c["H"].shape[1],) * 2), sc[1])
    close_pair("filter with noise-free observations", (x, P), (o["fm"], o["fP"]), sc)
    obs.label(f"n={c['H'].shape[2]}", f"m={c['H'].shape[1]}")
    obs.mark(len(x) >= 2)


C15 = Prop(
    "C15",
    "random models whose observation is split into independent groups: joint vs sequential vs "
    "reordered updates, blind observations, repeated readings, noise-free readings; non-trivial "
    "= the data move the estimate",
    [Sub("fusion", fusion_case(), judge_fusion, 2400), Sub("exact", exact_case(), judge_exact, 1800),
     grown_sub(fusion_case(), judge_fusion),
     grown_sub(exact_case(), judge_exact, name="grown_exact"),
     long_sub(fusion_case(), judge_fusion, 40, far=1000, tiled=("e.H", "e.R", "e.Z", "blind"))])


# ------------------------------------------------------------------ C16 long records
@st.composite
def long_case(draw, Tmax=400):
    n = draw(st.integers(1, 3))
    m = draw(st.integers(1, 2))
    T = gen.length(draw, 60, Tmax)
    kind = draw(st.sampled_from(["stable", "walk", "rot", "chain"]))

    def mka(k):
        if kind == "walk":
            return np.repeat(np.eye(n)[None], k, 0)
        if kind == "chain":
            return np.repeat((np.eye(n) + 0.1 * np.eye(n, k=1))[None], k, 0)
        if kind == "rot":
            M = np.eye(n)
            if n >= 2:
                t = 1.0 + float(fine(draw, 1)[0])
                M[:2, :2] = [[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]
            return np.repeat(M[None], k, 0)
        a = mixed(draw, n, n)
        return np.repeat((0.95 * a / max(1.0, np.linalg.norm(a, 2)))[None], k, 0)

    two = [(mka(1)[0], 1.5 * mixed(draw, m, n), gen.spd(0.5 * mixed(draw, n, n), 0.02),
            gen.spd(mixed(draw, m, m), 0.05)) for _ in range(2)]
    for i, (A, H, Q, R) in enumerate(two):
        H[0, 0] = 1.0   # keep the first component observed
    regime = draw(st.sampled_from(["const", "late", "periodic"]))
    at = draw(st.integers(T // 2, T - 1))
    period = draw(st.integers(2, 9))

    def pick(k):
        if regime == "const":
            return two[0]
        if regime == "late":
            return two[0] if k < at else two[1]
        return two[(k // period) % 2]

    seq = [pick(k) for k in range(T)]
    base = fine(draw, min(T, 150), m)
    Z = 3.0 * np.resize(base, (T, m))
    c = {"A": np.stack([s[0] for s in seq]), "H": np.stack([s[1] for s in seq]),
         "Q": np.stack([s[2] for s in seq]), "R": np.stack([s[3] for s in seq]),
         "Z": Z, "x0": mixed(draw, n), "P0": gen.spd(mixed(draw, n, n), 0.05) *
         draw(st.sampled_from([1.0, 100.0, 0.01])), "B": None, "U": None}
    if draw(st.booleans()):
        c["B"] = np.repeat(mixed(draw, 1, n, 1), T, 0)
        c["U"] = np.resize(fine(draw, min(T, 60), 1), (T, 1))
    c["kinds"] = [kind, regime, "", "", "", ""]
    c["units"] = draw(unit_or_plain(n, m))
    return {"c": c, "style": draw(gen.style()), "P0b": gen.spd(3 * mixed(draw, n, n), 0.5),
            "regime": regime, "kind": kind}


def unit_or_plain(n, m):
    return gen.unit_exps(n, m)


def judge_long(case, obs):
    import scipy.linalg

    c, style = case["c"], case["style"]
    T, n, m, _ = gen.dims(c)
    o = oracle.sequential(c)
    sc = scales(c, o)
    x, P = run_linear(c, "filter", style)
    close_pair("long filter", (x, P), (o["fm"], o["fP"]), sc)
    for k in (T // 2, T - 1):
        check_cov(f"filtered covariance {k}", P[k], sc[1])
    if oracle.ahead_cond(c, o) < 1e6:
        xs, Ps = run_linear(c, "smooth", style)
        close_pair("long smoother", (xs, Ps), (o["sm"], o["sP"]), sc)
        obs.label("smoothed")
    if case["regime"] == "const":
        try:
            X = scipy.linalg.solve_discrete_are(c["A"][0].T, c["H"][0].T, c["Q"][0], c["R"][0])
        except Exception:
            X = None
        if X is not None and np.isfinite(X).all() and T >= 60:
            S = c["H"][0] @ X @ c["H"][0].T + c["R"][0]
            lim = X - X @ c["H"][0].T @ np.linalg.solve(S, c["H"][0] @ X)
            # claim convergence only where the reference recursion has converged, too
            if np.abs(o["fP"][-1] - lim).max() < 1e-9 * sc[1]:
                close("covariance does not converge to the Riccati fixed point", P[-1], lim,
                      sc[1])
                c2 = dict(c, P0=case["P0b"])
                o2 = oracle.sequential(c2, smooth=False)
                if np.abs(o2["fP"][-1] - lim).max() < 1e-9 * sc[1]:
                    _, P2 = run_linear(c2, "filter", style)
                    close("covariance depends on the start after a long run", P2[-1], P[-1],
                          sc[1])
                    obs.label("riccati limit from two starts")
    obs.label(case["kind"], case["regime"], "T>8000" if T > 8000 else "T>200" if T > 200 else "T<=200")
    obs.mark(T >= 60)


@st.composite
def very_long_case(draw, lo=10, hi=30):
    c = draw(long_case(Tmax=80))
    reps = draw(st.integers(lo, hi))
    d = c["c"]
    for k in ("A", "H", "Q", "R", "Z", "B", "U"):
        if d[k] is not None:
            d[k] = np.concatenate([d[k]] * reps)
    if c["regime"] == "late":
        c["regime"] = "periodic"
    return c


@st.composite
def long_ekf_case(draw, lo=20, hi=150):
    c = draw(gen.nonlinear(Tmin=3, Tmax=8, nmax=3, mmax=2))
    r = draw(st.integers(lo, hi))
    # contracting: |F| + |G C| + |u E| stays below one
    c["F"] = 0.6 * c["F"] / max(1.0, np.linalg.norm(c["F"], 2))
    g = np.linalg.norm(c["G"], 2) * np.linalg.norm(c["C"], 2)
    c["G"] = 0.2 * c["G"] / max(1.0, g)
    if c["D"] is not None:
        c["E"] = 0.1 * c["E"] / max(1.0, np.linalg.norm(c["E"], 2))
    for k in ("Q", "R", "Z", "U"):
        if c[k] is not None:
            c[k] = np.concatenate([c[k]] * r)
    T = len(c["Z"])
    at = draw(st.integers(T // 2, T - 1))
    late = draw(st.sampled_from(["none", "Q", "R"]))
    if late != "none":
        c[late] = c[late].copy()
        c[late][at:] *= 3.0
    return {"c": c, "late": late, "style": draw(gen.style())}


def judge_long_ekf(case, obs, smooth=True):
    c, style = case["c"], case["style"]
    T = len(c["Z"])
    o = oracle.ekf(c, smooth)
    sc = ekf_scales(c, o)
    x, P = run_ekf(c, "filter", style)
    close_pair("long extended filter", (x, P), (o["fm"], o["fP"]), sc, 1e-7)
    if smooth and oracle.ahead_cond(c, o) < 1e6:
        xs, Ps = run_ekf(c, "smooth", style)
        close_pair("long extended smoother", (xs, Ps), (o["sm"], o["sP"]), sc, 1e-7)
        obs.label("smoothed")
    obs.label("late " + case["late"], "T>1000" if T > 1000 else "T>200" if T > 200 else "T<=200")
    obs.mark(T >= 60)


# records longer than any counter of two bytes
EPIC = [32769, 65537, 70000]


@st.composite
def epic_case(draw):
    return {"small": draw(long_case(Tmax=80)),
            "T": draw(st.sampled_from(EPIC)) + draw(st.integers(0, 900)),
            "late": draw(st.sampled_from(["none", "Q", "R", "Z"])), "back": draw(st.integers(1, 2000))}


def at_length(c, T, late, back):
    """The model's sequences repeated to T steps; ``late`` changes ``back`` steps before the end."""
    d = dict(c)
    for k in ("A", "H", "Q", "R", "Z", "B", "U"):
        if d.get(k) is not None and len(d[k]) == len(c["Z"]):
            d[k] = np.resize(d[k], (T, *d[k].shape[1:]))
    if late != "none":
        d[late][-back:] *= 3.0
    return d


def judge_epic(case, obs):
    small = case["small"]
    big = dict(small, c=at_length(small["c"], case["T"], case["late"], case["back"]))
    if big["regime"] == "late" or case["late"] != "none":
        big["regime"] = "periodic"
    judge_long(big, obs)
    obs.label("T>65536" if case["T"] > 65536 else "T>32768", "late " + case["late"])


@st.composite
def epic_ekf_case(draw):
    c = draw(long_ekf_case(2, 3))
    return {"small": c, "T": draw(st.sampled_from(EPIC)) + draw(st.integers(0, 900)),
            "late": draw(st.sampled_from(["none", "Q", "R", "Z"])), "back": draw(st.integers(1, 2000))}


def judge_epic_ekf(case, obs):
    d = at_length(case["small"]["c"], case["T"], case["late"], case["back"])
    judge_long_ekf(dict(case["small"], c=d), obs, case["T"] < 65536)
    obs.label("T>65536" if case["T"] > 65536 else "T>32768", "late " + case["late"])


C16 = Prop(
    "C16",
    "records of 60 to more than 131000 steps with constant, late-switching and periodic regimes, and of "
    "contracting nonlinear models; estimates "
    "against an independent recursion and the Riccati fixed point; every case is non-trivial "
    "(at least 60 steps)",
    [Sub("long", long_case(), judge_long, 320, 4000, shards=8),
     Sub("very_long", very_long_case(), judge_long, 24, 400, shards=8),
     Sub("huge", very_long_case(130, 250), judge_long, 12, 80, shards=4),
     Sub("extended", long_ekf_case(), judge_long_ekf, 120, 2000, shards=8),
     Sub("extended_huge", long_ekf_case(500, 1500), judge_long_ekf, 12, 80, shards=4),
     Sub("epic", epic_case(), judge_epic, 8, 40, shards=8, limit=360),
     Sub("epic_extended", epic_ekf_case(), judge_epic_ekf, 8, 40, shards=8,
         limit=360), aeon_sub(["standard"]), aeon_sub(["extended"], name="aeon_extended")],
    ["transition matrices with spectral norm near or below one, first state observed"])
