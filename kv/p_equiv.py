"""C22: different formulations of one process give the same estimates.

The relations compare the code under test with itself on two models; the reference recursion
only supplies sizes and the conditioning of the comparison.
"""
import numpy as np
from hypothesis import strategies as st

from . import gen, oracle
from .core import Prop, Sub, grown_sub, long_sub
from .gen import mixed
from .sut import (ExtendedKalmanFilter, Fns, Sizes, call, close, close_pair, ekf_run, ekf_scales,
                  pinv_loss, run_ekf, run_linear, scales)

RT = 1e-7


def controls_of(c):
    """The model's controls as an added offset per step."""
    return np.stack([oracle.control(c, k) for k in range(len(c["Z"]))])


def block(a, b):
    """Block-diagonal stack of two (T, i, j) sequences."""
    T, i, j = a.shape
    _, k, q = b.shape
    out = np.zeros((T, i + k, j + q))
    out[:, :i, :j], out[:, i:, j:] = a, b
    return out


# ------------------------------------------------------------------ independent subsystems
@st.composite
def blocks_case(draw):
    a = draw(gen.linear(smooth=True, Tmin=1, Tmax=6, nmax=3, mmax=3))
    T = len(a["Z"])
    b = draw(gen.linear(smooth=True, Tmin=T, Tmax=T, nmax=3, mmax=3))
    n = len(a["x0"]) + len(b["x0"])
    m = a["Z"].shape[1] + b["Z"].shape[1]
    # units of the two far enough apart to matter, not so far that numpy's own cut-offs for
    # singular matrices (1e-15) come into play
    g = a["units"][2]
    b["units"][2] = g + max(-8, min(8, b["units"][2] - g))
    return {"a": a, "b": b, "px": list(draw(st.permutations(range(n)))),
            "pz": list(draw(st.permutations(range(m)))), "style": draw(gen.style())}


def join(a, b):
    c = {k: block(a[k], b[k]) for k in ("A", "H", "Q", "R")}
    c["P0"] = block(a["P0"][None], b["P0"][None])[0]
    c["x0"] = np.concatenate([a["x0"], b["x0"]])
    c["Z"] = np.concatenate([a["Z"], b["Z"]], axis=1)
    c["U"] = c["B"] = None
    has = [d["B"] is not None and d["U"] is not None for d in (a, b)]
    if any(has):
        sides = []
        for d, h in zip((a, b), has):
            T, n = len(d["Z"]), len(d["x0"])
            sides.append((d["B"], d["U"]) if h else (np.zeros((T, n, 1)), np.zeros((T, 1))))
        c["B"] = block(sides[0][0], sides[1][0])
        c["U"] = np.concatenate([sides[0][1], sides[1][1]], axis=1)
    c["units"] = [[u + d["units"][2] for d in (a, b) for u in d["units"][i]]
                  for i in (0, 1)] + [0]
    return c


def permute(c, px, pz):
    o = dict(c)
    o["A"] = c["A"][:, px][:, :, px]
    o["H"] = c["H"][:, pz][:, :, px]
    o["Q"] = c["Q"][:, px][:, :, px]
    o["R"] = c["R"][:, pz][:, :, pz]
    o["P0"], o["x0"], o["Z"] = c["P0"][px][:, px], c["x0"][px], c["Z"][:, pz]
    if c["B"] is not None:
        o["B"] = c["B"][:, px]
    o["units"] = [[c["units"][0][i] for i in px], [c["units"][1][i] for i in pz], c["units"][2]]
    return o


def judge_blocks(case, obs):
    a, b, style = case["a"], case["b"], case["style"]
    T, na = len(a["Z"]), len(a["x0"])
    both = join(a, b)
    o = oracle.sequential(both)
    if T > 1 and oracle.ahead_cond(both, o) > 1e6:
        obs.label("skipped")
        return
    sc = scales(both, o)
    # joined, two systems of different magnitude are ill-conditioned together; what a
    # pseudo-inverse, which the documentation mentions, loses there is not held against it
    mixed_up = permute(both, case["px"], case["pz"])
    loss = pinv_loss(mixed_up, oracle.sequential(mixed_up), *sc)
    if loss > 1e-5:
        obs.label("skipped: too far apart")
        return
    sc = Sizes(*sc, max(1.0, 20 * loss / RT))
    px, pz = case["px"], case["pz"]
    inv = np.argsort(px)
    for which in ("filter", "smooth"):
        x, P = run_linear(permute(both, px, pz), which)
        x, P = x[:, inv], P[:, inv][:, :, inv]
        xa, Pa = run_linear(a, which, style)
        xb, Pb = run_linear(b, which, style)
        close_pair(f"{which} of two independent systems at once vs one by one (first)",
                   (x[:, :na], P[:, :na, :na]), (xa, Pa), sc, RT)
        close_pair(f"{which} of two independent systems at once vs one by one (second)",
                   (x[:, na:], P[:, na:, na:]), (xb, Pb), sc, RT)
        close(f"{which}: independent systems became correlated", P[:, :na, na:],
              np.zeros_like(P[:, :na, na:]), sc[1], RT)
    obs.label(f"n={na}+{len(b['x0'])}", f"m={a['Z'].shape[1]}+{b['Z'].shape[1]}",
              "control" if both["B"] is not None else "no-control")
    obs.mark(T >= 2)


@st.composite
def ekf_blocks_case(draw):
    a = draw(gen.nonlinear(Tmin=1, Tmax=5, nmax=3, mmax=2, units=False))
    T = len(a["Z"])
    b = draw(gen.nonlinear(Tmin=T, Tmax=T, nmax=2, mmax=2, units=False))
    a["ret"] = b["ret"] = "fresh"
    return {"a": a, "b": b, "style": draw(gen.style())}


def judge_ekf_blocks(case, obs):
    a, b = case["a"], case["b"]
    T, na, nb = len(a["Z"]), len(a["x0"]), len(b["x0"])
    fa, fb = Fns(a), Fns(b)
    pa = 0 if a["U"] is None else a["U"].shape[1]
    us = [d["U"] for d in (a, b) if d["U"] is not None]
    U = np.concatenate(us, axis=1) if us else None

    def split(u):
        if U is None:
            return None, None
        return (u[:pa] if pa else None), (u[pa:] if b["U"] is not None else None)

    def f(x, u=None):
        ua, ub = split(u)
        return np.concatenate([fa.f(x[:na], ua), fb.f(x[na:], ub)])

    def ja(x, u=None):
        ua, ub = split(u)
        return block(fa.jacobian_A(x[:na], ua)[None], fb.jacobian_A(x[na:], ub)[None])[0]

    def h(x):
        return np.concatenate([np.atleast_1d(fa.h(x[:na])), np.atleast_1d(fb.h(x[na:]))])

    def jh(x):
        return block(fa.jacobian_H(x[:na])[None], fb.jacobian_H(x[na:])[None])[0]

    ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter,
              xk=np.concatenate([a["x0"], b["x0"]]),
              Pk=block(a["P0"][None], b["P0"][None])[0], Q=block(a["Q"], b["Q"]),
              R=block(a["R"], b["R"]), f=f, h=h, jacobian_A=ja, jacobian_H=jh)
    Z = np.concatenate([a["Z"], b["Z"]], axis=1)
    oa, ob = oracle.ekf(a), oracle.ekf(b)
    if max(oracle.ahead_cond(None, oa), oracle.ahead_cond(None, ob)) > 1e5:
        obs.label("skipped")
        return
    sc = tuple(map(max, ekf_scales(a, oa), ekf_scales(b, ob)))
    for which in ("filter", "smooth"):
        x, P = ekf_run(which, ek, Z, U, na + nb)
        xa, Pa = run_ekf(a, which, case["style"])
        xb, Pb = run_ekf(b, which, case["style"])
        close_pair(f"extended {which} of two independent systems (first)",
                   (x[:, :na], P[:, :na, :na]), (xa, Pa), sc, 1e-6)
        close_pair(f"extended {which} of two independent systems (second)",
                   (x[:, na:], P[:, na:, na:]), (xb, Pb), sc, 1e-6)
        close(f"extended {which}: independent systems became correlated", P[:, :na, na:],
              np.zeros((T, na, nb)), sc[1], 1e-6)
    obs.label(f"n={na}+{nb}", "control" if us else "no-control")
    obs.mark(T >= 2)


# ------------------------------------------------------------------ augmentations
@st.composite
def augment_case(draw):
    c = draw(gen.linear(smooth=True, Tmin=1, Tmax=7, nmax=3, mmax=3, nan_controls=True))
    return {"c": c, "lag": draw(st.integers(1, 4)), "style": draw(gen.style())}


def lagged(c, lag):
    """The state with its last values: [x_k, x_{k-1}, .., x_{k-lag}]."""
    T, m, n = c["H"].shape
    N = n * (lag + 1)
    o = dict(c)
    A = np.zeros((T, N, N))
    A[:, :n, :n] = c["A"]
    for i in range(lag):
        A[:, n * (i + 1):n * (i + 2), n * i:n * (i + 1)] = np.eye(n)
    o["A"] = A
    o["Q"] = np.zeros((T, N, N))
    o["Q"][:, :n, :n] = c["Q"]
    o["H"] = np.zeros((T, m, N))
    o["H"][:, :, :n] = c["H"]
    o["P0"] = np.zeros((N, N))
    o["P0"][:n, :n] = c["P0"]
    o["x0"] = np.concatenate([c["x0"], np.zeros(n * lag)])
    if c["B"] is not None:
        o["B"] = np.concatenate([c["B"], np.zeros((T, n * lag, c["B"].shape[2]))], axis=1)
        o["B"][np.isnan(c["B"]).all(axis=(1, 2))] = np.nan
    o["units"] = [c["units"][0] * (lag + 1), c["units"][1], c["units"][2]]
    return o


def with_constant(c):
    """The control carried by a constant component of the state instead."""
    T, m, n = c["H"].shape
    off = controls_of(c)
    o = dict(c, B=None, U=None)
    o["A"] = np.zeros((T, n + 1, n + 1))
    o["A"][:, :n, :n], o["A"][:, :n, n], o["A"][:, n, n] = c["A"], off, 1.0
    o["Q"] = block(c["Q"], np.zeros((T, 1, 1)))
    o["H"] = np.concatenate([c["H"], np.zeros((T, m, 1))], axis=2)
    o["P0"] = block(c["P0"][None], np.zeros((1, 1, 1)))[0]
    o["x0"] = np.append(c["x0"], 1.0)
    o["units"] = [c["units"][0] + [0], c["units"][1], c["units"][2]]
    return o


def judge_augment(case, obs):
    c, lag, style = case["c"], case["lag"], case["style"]
    T, n, m, p = gen.dims(c)
    o = oracle.sequential(c)
    sc = scales(c, o)
    x, P = run_linear(c, "filter", style)
    # 1. remembering earlier states changes nothing, and what is remembered is smoothed
    big = lagged(c, lag)
    xl, Pl = run_linear(big, "filter")
    close_pair("filter of the state extended by its past",
               (xl[:, :n], Pl[:, :n, :n]), (x, P), sc, RT)
    if T > 1 and oracle.ahead_cond(c, o) < 1e6:
        xs, Ps = run_linear(c, "smooth", style)
        for j in range(1, min(lag, T - 1) + 1):
            s = slice(n * j, n * (j + 1))
            close_pair(f"the state of {j} steps ago in an extended state vs the smoother",
                       (xl[-1, s], Pl[-1, s, s]), (xs[T - 1 - j], Ps[T - 1 - j]), sc, RT)
        obs.label("lag smoother")
    # 2. a known input is the same as a known constant in the state
    if c["B"] is not None and c["U"] is not None:
        k = with_constant(c)
        xk, Pk = run_linear(k, "filter")
        close_pair("control carried by a constant state", (xk[:, :n], Pk[:, :n, :n]), (x, P),
                   sc, RT)
        close("constant state moved", xk[:, n], np.ones(T), sc[0], RT)
        close("constant state became uncertain", Pk[:, n], np.zeros((T, n + 1)), sc[1], RT)
        obs.label("constant state")
    # 3. the offset may be taken out of the observations and put back
    acc = c["x0"]
    path = np.zeros((T, n))
    for t in range(T):
        acc = c["A"][t] @ acc + oracle.control(c, t)
        path[t] = acc
    dev = dict(c, B=None, U=None, x0=np.zeros(n),
               Z=c["Z"] - np.einsum("tmn,tn->tm", c["H"], path))
    for which in ("filter", "smooth"):
        if which == "smooth" and T > 1 and oracle.ahead_cond(c, o) > 1e6:
            continue
        xd, Pd = run_linear(dev, which)
        xw, Pw = (x, P) if which == "filter" else run_linear(c, "smooth", style)
        close_pair(f"{which} of the deviations from the uncorrected path", (xd + path, Pd),
                   (xw, Pw), (sc[0] + float(np.abs(path).max()) * 4, sc[1]), RT)
    obs.label(f"lag={lag}", f"T={T}")
    obs.mark(T >= 2)


# ------------------------------------------------------------------ blind steps merge
@st.composite
def merge_case(draw):
    c = draw(gen.linear(smooth=True, Tmin=1, Tmax=5, nmax=4, mmax=3, nan_controls=True))
    T, n, m, p = gen.dims(c)
    sub = draw(st.lists(st.integers(0, 3), min_size=T, max_size=T))
    S = sum(sub)
    extra = {"A": np.eye(n) + 0.4 * mixed(draw, max(S, 1), n, n) / n,
             "Q": gen.spd(0.6 * mixed(draw, max(S, 1), n, n), 0.0),
             "off": mixed(draw, max(S, 1), n), "Z": 3.0 * mixed(draw, max(S, 1), m)}
    return {"c": c, "sub": sub, "extra": extra, "style": draw(gen.style())}


def judge_merge(case, obs):
    """Steps without information merge: A2 A1, A2 b1 + b2, A2 Q1 A2' + Q2."""
    c, sub, e = case["c"], case["sub"], case["extra"]
    T, n, m, p = gen.dims(c)
    off = controls_of(c)
    A, Q, b = c["A"].copy(), c["Q"].copy(), off.copy()
    fine_ = {k: [] for k in ("A", "H", "B", "U", "Q", "R", "Z")}
    keep, i = [], 0
    for k in range(T):
        for _ in range(sub[k]):
            # a blind step before step k
            A1, Q1, b1 = e["A"][i], e["Q"][i], e["off"][i]
            for key, v in (("A", A1), ("H", np.zeros((m, n))), ("B", np.eye(n)), ("U", b1),
                           ("Q", Q1), ("R", c["R"][k]), ("Z", e["Z"][i])):
                fine_[key].append(v)
            i += 1
        for key, v in (("A", c["A"][k]), ("H", c["H"][k]), ("B", np.eye(n)), ("U", off[k]),
                       ("Q", c["Q"][k]), ("R", c["R"][k]), ("Z", c["Z"][k])):
            fine_[key].append(v)
        keep.append(len(fine_["A"]) - 1)
    i = 0
    for k in range(T):
        Am, Qm, bm = np.eye(n), np.zeros((n, n)), np.zeros(n)
        for _ in range(sub[k]):
            Am, Qm, bm = (e["A"][i] @ Am, e["A"][i] @ Qm @ e["A"][i].T + e["Q"][i],
                          e["A"][i] @ bm + e["off"][i])
            i += 1
        A[k], Q[k] = c["A"][k] @ Am, oracle.sym(c["A"][k] @ Qm @ c["A"][k].T + c["Q"][k])
        b[k] = c["A"][k] @ bm + off[k]
    units = [[0] * n, [0] * m, c["units"][2]]
    long = dict(c, units=units, **{k: np.array(v) for k, v in fine_.items()})
    short = dict(c, units=units, A=A, Q=Q, B=np.repeat(np.eye(n)[None], T, 0), U=b)
    ol, os_ = oracle.sequential(long), oracle.sequential(short)
    sl, ss = scales(long, ol), scales(short, os_)
    sc = (max(sl[0], ss[0]), max(sl[1], ss[1]))
    for which in ("filter", "smooth"):
        if which == "smooth" and max(oracle.ahead_cond(None, ol),
                                     oracle.ahead_cond(None, os_)) > 1e6:
            obs.label("not smoothable")
            continue
        xl, Pl = run_linear(long, which)
        xs, Ps = run_linear(short, which, case["style"])
        close_pair(f"{which} with uninformative steps spelled out vs merged",
                   (xl[keep], Pl[keep]), (xs, Ps), sc, RT)
    obs.label(f"T={T}", f"blind={min(sum(sub), 4)}")
    obs.mark(T >= 1 and sum(sub) >= 1 and len(long["Z"]) >= 2)


C22 = Prop(
    "C22",
    "random models written in two equivalent ways: two independent systems at once or one by one "
    "(components interleaved at random, both filters), the state extended by its past (whose "
    "estimate must be the smoother's), a control carried by a constant state, deviations from the "
    "uncorrected path, uninformative steps spelled out or merged; non-trivial = at least two steps",
    [Sub("blocks", blocks_case(), judge_blocks, 2500),
     Sub("extended_blocks", ekf_blocks_case(), judge_ekf_blocks, 1200),
     Sub("augmented", augment_case(), judge_augment, 2500),
     Sub("merged", merge_case(), judge_merge, 2500),
     grown_sub(blocks_case(), judge_blocks),
     grown_sub(ekf_blocks_case(), judge_ekf_blocks, name="grown_extended"),
     grown_sub(augment_case(), judge_augment, name="grown_augmented"),
     grown_sub(merge_case(), judge_merge, name="grown_merged"),
     long_sub(blocks_case(), judge_blocks, 40, name="long_blocks", far=1200, keys=("a", "b")),
     long_sub(ekf_blocks_case(), judge_ekf_blocks, 24, name="long_extended", far=1000,
              keys=("a", "b")),
     long_sub(augment_case(), judge_augment, 40, name="long_augmented", far=1200)],
    ["the reference recursion is used for the size and conditioning of the comparison only"])
