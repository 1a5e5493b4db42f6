"""Records of a hundred thousand steps and more, of one number each, against plain floats.

Lengths that the code under test mentions (up to a million and a half) come first.
"""
import math

import numpy as np
from hypothesis import strategies as st

from . import gen
from .core import Sub, Violation
from .sut import ExtendedKalmanFilter, call, close, ekf_run, kf_run, make_kf

LENGTHS = [int(v) for v in gen.LITERALS if 60_000 <= v <= 1_500_000] or [100_000, 131_072]


@st.composite
def aeon_case(draw, kinds, runs):
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    T = draw(st.sampled_from(LENGTHS)) + draw(st.integers(1, 300))
    seq = {k: rng.uniform(-1, 1, n) for k, n in
           (("a", 5), ("h", 3), ("q", 7), ("r", 4), ("u", 6), ("z", 31))}
    seq["a"] = np.sign(seq["a"]) * (0.6 + 0.3 * np.abs(seq["a"]))
    return {"seq": seq, "T": T, "kind": draw(st.sampled_from(kinds)), "control": draw(st.booleans()),
            "x0": float(rng.normal()), "p0": float(rng.uniform(3.0, 9.0)),
            "bend": draw(st.sampled_from([0.3, 0.0])),
            "run": "filter" if T > 400_000 else draw(st.sampled_from(runs)),
            "late": draw(st.sampled_from(["none", "q", "r", "z"])), "back": draw(st.integers(1, 250))}


def judge_aeon(case, obs):
    T, ext = case["T"], case["kind"] == "extended"
    s = {k: np.resize(v, T) for k, v in case["seq"].items()}
    s["a"] = s["a"] if not ext else np.full(T, 0.6)
    s["h"] = 1.0 + 0.5 * s["h"] if not ext else np.ones(T)
    s["q"], s["r"] = 0.2 + np.abs(s["q"]), 0.2 + np.abs(s["r"])
    if case["late"] != "none":
        s[case["late"]][-case["back"]:] *= 3.0
    u = s["u"] if case["control"] else np.zeros(T)
    bend = case["bend"] if ext else 0.0
    # the reference, in plain floats
    m, p = case["x0"], case["p0"]
    A, pm, pp, fm, fp, gain = (np.zeros(T) for _ in range(6))
    for k, (a, h, q, r, w, z) in enumerate(zip(*(v.tolist() for v in (
            s["a"], s["h"], s["q"], s["r"], u, s["z"])))):
        A[k] = a + bend * math.cos(m)
        pm[k] = a * m + bend * math.sin(m) + w
        pp[k] = A[k] * A[k] * p + q
        g = pp[k] * h / (h * h * pp[k] + r)
        m = pm[k] + g * (z - h * pm[k])
        p = pp[k] * r / (h * h * pp[k] + r)
        fm[k], fp[k], gain[k] = m, p, g
    want = [fm, fp]
    if case["run"] == "smooth":
        sm, sp = fm.copy(), fp.copy()
        for k in range(T - 2, -1, -1):
            c = fp[k] * A[k + 1] / pp[k + 1]
            sm[k] = fm[k] + c * (sm[k + 1] - pm[k + 1])
            sp[k] = fp[k] + c * c * (sp[k + 1] - pp[k + 1])
        want = [sm, sp]

    def mat(v):
        return v.reshape(T, 1, 1)

    x0, P0 = np.array([case["x0"]]), np.array([[case["p0"]]])
    U = u.reshape(T, 1) if case["control"] else None
    Z = s["z"].reshape(T, 1)
    if ext:
        obj = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, xk=x0, Pk=P0, Q=mat(s["q"]),
                   R=mat(s["r"]), h=lambda x: x * 1.0, jacobian_H=lambda x: np.ones((1, 1)),
                   f=lambda x, v: 0.6 * x + bend * np.sin(x) + (v if case["control"] else 0.0),
                   jacobian_A=lambda x, v: (0.6 + bend * np.cos(x)).reshape(1, 1))
        x, P = ekf_run(case["run"], obj, Z, U, 1)
    else:
        obj = make_kf(dict(A=mat(s["a"]), B=np.ones((T, 1, 1)) if case["control"] else None, xk=x0,
                           Pk=P0, H=mat(s["h"]), Q=mat(s["q"]), R=mat(s["r"])))
        x, P = kf_run(case["run"], obj, Z, U, 1)
    what = f"{case['kind']} {case['run']} over {T} steps"
    close(what + ": estimates", x[:, 0], want[0], 4.0, 1e-7)
    close(what + ": covariances", P[:, 0, 0], want[1], 4.0, 1e-7)
    if len(obj.kalman_gains) != T:
        raise Violation(f"{what}: {len(obj.kalman_gains)} gains are recorded")
    close(what + ": gains", np.array([np.asarray(g, float).reshape(-1)[0] for g in obj.kalman_gains]),
          gain, 2.0, 1e-7)
    obs.label(case["kind"], case["run"], f"T~{T // 100_000}00k", "late " + case["late"])
    obs.mark(True)


def aeon_sub(kinds=("standard", "extended"), runs=("filter", "smooth"), quick=2, name="aeon"):
    return Sub(name, aeon_case(list(kinds), list(runs)), judge_aeon, quick, 10 * quick,
               shards=min(4, quick), limit=600)
