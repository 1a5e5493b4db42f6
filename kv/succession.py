"""Filters built one after another, each gone before the next exists: the new one has the place in
memory, the shapes and all but one of the numbers of the last, and must behave as if it were alone."""
import gc

import numpy as np
from hypothesis import strategies as st

from . import gen, oracle
from .core import Sub, Violation
from .sut import (ExtendedKalmanFilter, Fns, call, close, close_pair, ekf_args, ekf_run, ekf_scales,
                  kf_run, make_kf, present, scales)

PARTS = {"standard": ["A", "H", "B", "U", "Q", "R", "x0", "P0", "Z", "all"],
         "extended": ["F", "G", "C", "c0", "H", "J", "K", "D", "E", "U", "Q", "R", "x0", "P0", "Z", "all"]}


@st.composite
def succession_case(draw, kinds, runs):
    kind = draw(st.sampled_from(kinds))
    c = draw(gen.linear(smooth=True, Tmax=4, nmax=3, mmax=3) if kind == "standard"
             else gen.nonlinear(Tmax=4, nmax=3, mmax=2))
    moves = st.tuples(st.sampled_from(PARTS[kind]), st.sampled_from([0.5, -0.5, 0.75, 0.0]))
    return {"kind": kind, "c": c, "moves": draw(st.lists(moves, min_size=2, max_size=8)),
            "runs": draw(st.lists(st.sampled_from(runs), min_size=9, max_size=9)),
            "same": draw(st.booleans()), "collect": draw(st.booleans())}


def changed(c, part, by):
    d = dict(c)
    for k in PARTS["standard" if "A" in c else "extended"] if part == "all" else [part]:
        if k == "all" or d.get(k) is None:
            continue
        f = abs(by) + 0.25 if k in ("Q", "R", "P0") else by
        d[k] = d[k] * f
    return d


def judge_succession(case, obs):
    c, kind = case["c"], case["kind"]
    ext = kind == "extended"
    buf = {}

    def place(k, v):
        """The same numbers in the array used for this purpose before."""
        if not case["same"] or v is None:
            return v
        b = buf.get(k)
        if b is None or b.shape != v.shape:
            b = buf[k] = np.empty(v.shape)
        b[...] = v
        return b

    n = len(c["x0"])
    done = 0
    for i in range(len(case["moves"]) + 1):
        which = case["runs"][i]
        smooth = which == "smooth"
        o = oracle.ekf(c, smooth) if ext else oracle.sequential(c, smooth)
        if not smooth or len(c["Z"]) == 1 or oracle.ahead_cond(c, o) < 1e6:
            sc = ekf_scales(c, o) if ext else scales(c, o)
            if ext:
                fns = Fns(dict(c, ret="fresh"))
                kw, Z, U = ekf_args(c, fns)
                D, E = fns.D, fns.E
                kw = {k: place(k, v) if isinstance(v, np.ndarray) else v for k, v in kw.items()}
                # functions of their own, which go with the filter
                kw.update(f=lambda x, u: fns.f(x, u), h=lambda x: fns.h(x),
                          jacobian_A=lambda x, u: fns.jacobian_A(x, u),
                          jacobian_H=lambda x: fns.jacobian_H(x))
                obj = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, **kw)
                x, P = ekf_run(which, obj, place("Z", Z), place("U", U), n)
            else:
                s, D, E = gen.in_units(c)
                kw, Z, U = present(s)
                obj = make_kf({k: place(k, v) if isinstance(v, np.ndarray) else v for k, v in kw.items()})
                x, P = kf_run(which, obj, place("Z", Z), place("U", U), n)
            what = f"{kind} {which} number {i + 1} of its kind, the others being gone"
            key = ("sm", "sP") if smooth else ("fm", "fP")
            close_pair(what, (x / D, P / np.outer(D, D)), (o[key[0]], o[key[1]]), sc, 1e-7)
            if len(obj.kalman_gains) != len(Z):
                raise Violation(f"{what}: {len(obj.kalman_gains)} gains for {len(Z)} observations")
            for k, K in enumerate(o["K"]):
                g = np.asarray(obj.kalman_gains[k], float) * E[None] / D[:, None]
                close(f"{what}: gain {k}", g, K, sc.looser * max(1.0, np.abs(K).max()), 1e-7)
            done += 1
            obj = kw = fns = x = P = g = None
            if case["collect"]:
                gc.collect(0)
        if i < len(case["moves"]):
            c = changed(c, *case["moves"][i])
    obs.label(kind, "same arrays" if case["same"] else "fresh arrays",
              *[m[0] for m in case["moves"][:2]])
    obs.mark(done >= 2)


def succession_sub(kinds=("standard", "extended"), runs=("filter", "smooth"), quick=800):
    return Sub("succession", succession_case(list(kinds), list(runs)), judge_succession, quick)
