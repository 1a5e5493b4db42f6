"""The utility functions and the example scripts."""
import contextlib
import importlib.util
import inspect
import os
import sys
import types

import numpy as np
from hypothesis import strategies as st

from . import gen, oracle
from .core import REPO, Prop, Sub, Violation, known_findings
from .sut import ExtendedKalmanFilter, KalmanFilter, call, kalmankit

DTYPES = ["f8", "f4", "f2", ">f8", "i8", "i4", "i2", "i1", "u1", "u4", "u8", ">i4", "b1", "g", "c16"]


# ------------------------------------------------------------------ C20 utilities
def layout(a, how):
    """The same array in another memory layout."""
    if a.ndim == 0:
        return a
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reversed":
        return a[::-1].copy()[::-1] if a.ndim else a
    if how == "readonly":
        a = a.copy()
        a.setflags(write=False)
        return a
    if how == "broadcast":
        return np.broadcast_to(a, a.shape)
    return a


LAYOUTS = ["C", "F", "strided", "reversed", "readonly", "broadcast"]
shape_st = st.one_of(st.lists(st.integers(1, 4), min_size=0, max_size=4),
                     st.lists(st.integers(1, 2), min_size=5, max_size=7)).map(tuple)
SPECIAL = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "0": 0.0, "-0": -0.0, "tiny": 5e-324,
           "huge": 1e308, "1": 1.0, "-nan": -np.nan,
           "payload": np.frombuffer(b"\x01\x00\x00\x00\x00\x00\xf4\x7f")[0],
           "full": np.frombuffer(b"\xff" * 8)[0]}
SPECIAL.update({f"code {v:g}": float(v) for v in sorted({-999.0, -9999.0, 9.96921e36, *gen.MAGIC})})


@st.composite
def util_case(draw):
    shape = draw(shape_st)
    size = int(np.prod(shape))
    return {
        "shape": list(shape), "dt": draw(st.sampled_from(DTYPES)),
        "layout": draw(st.sampled_from(LAYOUTS)),
        "fill": draw(st.sampled_from(["nan", "nan", "inf", "1", "0", "tiny", "-nan", "payload", "full"])),
        "spots": draw(st.lists(st.tuples(st.integers(0, size - 1),
                                         st.sampled_from(sorted(SPECIAL))), max_size=3)),
        "vals": draw(st.lists(st.integers(0, 100), min_size=size, max_size=size)),
        "cast": draw(st.sampled_from(["f8", "f4", "f2", ">f8", "g"])),
        "refnan": draw(st.integers(0, 3)) == 0,
    }


@st.composite
def big_case(draw):
    """One large array of NaN with at most two other entries anywhere."""
    size = draw(st.one_of(st.just(0), st.sampled_from([50, 500, 5000, 5000, 50000, 200000])))
    size = size + draw(st.integers(0, 9)) if size else gen.length(draw, 10, 300000)
    rows = draw(st.sampled_from([1, 1, 2, 5]))
    size -= size % rows
    return {"shape": [size // rows, rows] if rows > 1 else [size],
            "spots": [draw(st.floats(0, 1, exclude_max=True)) for _ in range(draw(st.integers(0, 2)))],
            "value": draw(st.sampled_from([0.0, 1.0, np.inf, 5e-324])),
            "cast": draw(st.sampled_from(["f8", "f4", ">f8"])),
            "layout": draw(st.sampled_from(LAYOUTS))}


def judge_big(c, obs):
    U = kalmankit.utils
    shape = tuple(c["shape"])
    a = np.full(shape, np.nan)
    for s in c["spots"]:
        a.ravel()[int(s * a.size)] = c["value"]
    a = a.astype(c["cast"])
    ak = a.copy()
    want = not c["spots"] or bool(np.float32(c["value"]) != np.float32(c["value"]))
    got = call("is_nan_all(arr)", U.is_nan_all, layout(a, c["layout"]))
    if np.ndim(got) != 0 or bool(got) is not want:
        raise Violation(f"is_nan_all is {got!r} for {a.size} NaN but for {len(c['spots'])} entries")
    r = np.asarray(call("check_none_and_broadcast(None, X)", U.check_none_and_broadcast, None, a))
    if r.shape != shape or r.dtype.kind != "f" or not np.isnan(r).all():
        raise Violation(f"marker for a large {a.dtype} array of shape {shape} is {r.dtype} "
                        f"{r.shape}, all NaN: {np.isnan(r).all()}")
    if np.shares_memory(r, a) or not np.array_equal(a, ak, equal_nan=True):
        raise Violation("a utility changed or aliases its reference array")
    obs.label(f"size~{a.size // 1000}k", f"others={len(set(c['spots']))}")
    obs.mark(True)


def judge_util(c, obs):
    U = kalmankit.utils
    shape, size = tuple(c["shape"]), len(c["vals"])
    X = layout(np.array(c["vals"], dtype="f8").reshape(shape).astype(c["dt"]), c["layout"])
    if c.get("refnan") and X.dtype.kind == "f":
        X = layout(np.full(shape, np.nan, X.dtype), c["layout"])
    keep = X.copy()
    r = call("check_none_and_broadcast(None, X)", U.check_none_and_broadcast, None, X)
    r = np.asarray(r)
    if r.shape != shape:
        raise Violation(f"marker for an array of shape {shape} has shape {r.shape}")
    if r.dtype.kind != "f" or not np.isnan(r).all():
        raise Violation(f"marker for a {X.dtype} array is {r.dtype} {r.ravel()[:3]}, not NaN")
    if not bool(call("is_nan_all(marker)", U.is_nan_all, r)):
        raise Violation("the marker for an absent array is not recognised as all-NaN")
    if not np.array_equal(X, keep, equal_nan=X.dtype.kind == "f") or X.dtype != keep.dtype:
        raise Violation("check_none_and_broadcast changed the array it mimics")
    if np.shares_memory(r, X):
        raise Violation("the marker shares memory with the array it mimics")

    a = np.full(shape, SPECIAL[c["fill"]])
    for i, name in c["spots"]:
        a.ravel()[i:i + 1] = SPECIAL[name]
    with np.errstate(all="ignore"):
        a = layout(a.astype(c["cast"]), c["layout"])
    ak = a.copy()
    given = call("check_none_and_broadcast(arr, X)", U.check_none_and_broadcast, a, X)
    given = np.asarray(given)
    if given.shape != a.shape or given.dtype != a.dtype or \
            not np.array_equal(given, ak, equal_nan=True):
        raise Violation("an array that is not None was not returned as it is")
    want = all(v != v for v in ak.ravel().tolist())
    got = call("is_nan_all(arr)", U.is_nan_all, a)
    if np.ndim(got) != 0 or bool(got) is not want:
        raise Violation(f"is_nan_all is {got!r} for {ak.tolist()}")
    if not np.array_equal(a, ak, equal_nan=True):
        raise Violation("a utility modified its argument")
    none = np.zeros(tuple(c["shape"]) + (0,))
    given = np.asarray(call("check_none_and_broadcast(empty, X)", U.check_none_and_broadcast, none, X))
    if given.shape != none.shape:
        raise Violation(f"an empty array came back as an array of shape {given.shape}")
    if call("is_nan_all(ints)", U.is_nan_all, np.array(c["vals"] or [0], dtype="i8")):
        raise Violation("integers reported as all-NaN")
    kinds = {v != v for v in ak.ravel().tolist()}
    obs.label("mixed" if len(kinds) == 2 else "all-nan" if want else "no-nan",
              "dtype:" + c["dt"], "layout:" + c["layout"])
    obs.mark(size > 1)


C20 = Prop(
    "C20",
    "arrays of random shape, dtype and memory layout with NaN, infinities, zeros and subnormals in "
    "random places; non-trivial = more than one element",
    [Sub("utils", util_case(), judge_util, 6000), Sub("large", big_case(), judge_big, 600)])


# ------------------------------------------------------------------ C21 examples
class Recorder:
    """Stands in for matplotlib's axes and figures; remembers what was drawn."""

    def __init__(self):
        self.drawn = []

    def __getattr__(self, name):
        def method(*a, **k):
            if name in ("plot", "scatter"):
                self.drawn.append([np.array(v, dtype=float) for v in a
                                   if isinstance(v, (np.ndarray, list))])
            return self
        return method

    def __iter__(self):
        return iter(())

    def __getitem__(self, i):
        return self


class Plt(types.ModuleType):
    def __init__(self):
        super().__init__("matplotlib.pyplot")
        self.rec = Recorder()

    def subplots(self, *a, **k):
        return self.rec, self.rec

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def load_example(name):
    plt = Plt()
    mpl = types.ModuleType("matplotlib")
    mpl.pyplot = plt
    saved = {k: sys.modules.get(k) for k in ("matplotlib", "matplotlib.pyplot")}
    sys.modules.update({"matplotlib": mpl, "matplotlib.pyplot": plt})
    try:
        path = os.path.join(REPO, "examples", name + ".py")
        spec = importlib.util.spec_from_file_location("kv_example_" + name, path)
        mod = importlib.util.module_from_spec(spec)
        call(f"loading examples/{name}.py", spec.loader.exec_module, mod)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    mod.plt = plt
    return mod, plt.rec


def recording(base, log):
    class Recording(base):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self._kv = inspect.signature(base.__init__).bind(self, *a, **k).arguments
            self._depth = 0

        def _run(self, which, fn, Z, U):
            self._depth += 1
            try:
                r = fn(Z=Z, U=U)
            finally:
                self._depth -= 1
            if self._depth == 0:
                log.append((which, self._kv, np.array(Z), None if U is None else np.array(U),
                            (np.array(r[0]), np.array(r[1]))))
            return r

        def filter(self, Z, U=None):
            return self._run("filter", super().filter, Z, U)

        def smooth(self, Z, U=None):
            return self._run("smooth", super().smooth, Z, U)

    Recording.__name__ = base.__name__
    return Recording


def as_case(k, Z):
    T = len(Z)
    n = np.size(k["xk"])
    H = np.asarray(k["H"], float).reshape(T, -1, n)
    m = H.shape[1]
    return {"A": np.asarray(k["A"], float).reshape(T, n, n), "H": H, "B": None, "U": None,
            "Q": np.asarray(k["Q"], float).reshape(T, n, n),
            "R": np.asarray(k["R"], float).reshape(T, m, m),
            "x0": np.asarray(k["xk"], float).reshape(n),
            "P0": np.asarray(k["Pk"], float).reshape(n, n), "Z": np.asarray(Z, float).reshape(T, m)}


def ekf_reference(k, Z):
    x, P = np.asarray(k["xk"], float), np.asarray(k["Pk"], float)
    A, H, off, hoff = [], [], [], []
    T, n = len(Z), len(x)
    for t in range(T):
        F, fx = np.asarray(k["jacobian_A"](x, None)), np.asarray(k["f"](x, None))
        A.append(F)
        off.append(fx - F @ x)
        P = oracle.sym(F @ P @ F.T + k["Q"][t])
        Hk = np.asarray(k["jacobian_H"](fx)).reshape(1, n)
        hx = np.atleast_1d(k["h"](fx))
        H.append(Hk)
        hoff.append(hx - Hk @ fx)
        x, P, _, _ = oracle.correct(fx, P, Hk, np.reshape(k["R"][t], (1, 1)), Z[t] - hx)
    c = {"A": np.array(A), "H": np.array(H), "B": None, "U": None, "Q": np.asarray(k["Q"]),
         "R": np.asarray(k["R"]).reshape(T, 1, 1), "Z": np.asarray(Z).reshape(T, 1),
         "x0": np.asarray(k["xk"], float), "P0": np.asarray(k["Pk"], float),
         "off": np.array(off), "hoff": np.array(hoff)}
    return oracle.sequential(c)


MAINS = ["constant_velocity_smoothing", "market_beta", "moving_average", "pendulum",
         "pendulum_smoothing"]


@st.composite
def main_case(draw, far=False):
    size = gen.length(draw, 1, 20000) if far else draw(st.integers(1, 250))
    return {"name": draw(st.sampled_from(MAINS)), "seed": draw(st.integers(0, 2**32 - 1)),
            "size": size}


@contextlib.contextmanager
def sized(mod, name, size, seed):
    """The example's own data generator, asked for a record of the given size."""
    standard_t, gen_obs = np.random.standard_t, getattr(mod, "generate_observations", None)
    if name == "market_beta":
        np.random.standard_t = lambda *a, **k: standard_t(*a, **{**k, "size": size})
    elif name == "moving_average" and hasattr(mod, "generate_func"):
        func = mod.generate_func
        mod.generate_func = lambda *a, **k: func(start=-10, end=-10 + 0.125 * size, step=0.125,
                                                 beta=0.02, var=0.3)
    elif gen_obs is not None:
        while name == "pendulum" and listed(name, size):
            size += 1
        given = {"size": size} if name == "pendulum" else {"size": size, "seed": seed}
        mod.generate_observations = lambda *a, **k: gen_obs(*a, **{**k, **given})
    try:
        yield
    finally:
        np.random.standard_t = standard_t


def judge_main(c, obs):
    mod, rec = load_example(c["name"])
    log = []
    for cls in (KalmanFilter, ExtendedKalmanFilter):
        if hasattr(mod, cls.__name__):
            setattr(mod, cls.__name__, recording(cls, log))
    state = np.random.get_state()
    try:
        np.random.seed(c["seed"])
        with sized(mod, c["name"], c["size"], c["seed"]):
            call(f"examples/{c['name']}.main()", mod.main)
    finally:
        np.random.set_state(state)
    if not log:
        raise Violation(f"examples/{c['name']}: no filter was run")
    drawn = [v for d in rec.drawn for v in d]
    for d in rec.drawn:
        if len(d) == 2 and len(d[0]) != len(d[1]):
            raise Violation(f"examples/{c['name']} plots {len(d[1])} values at {len(d[0])} times")
    shown = 0
    for which, k, Z, U, (x, P) in log:
        ref = ekf_reference(k, Z) if "f" in k else oracle.sequential(as_case(k, Z))
        want = (ref["fm"], ref["fP"]) if which == "filter" else (ref["sm"], ref["sP"])
        ms = max(1.0, np.abs(Z).max(), np.abs(ref["pm"]).max())
        ps = np.abs(ref["pP"]).max()
        for what, g, w, s in (("estimates", x, want[0], ms), ("covariances", P, want[1], ps)):
            if g.shape != w.shape or not np.abs(g - w).max() <= 1e-6 * s:
                raise Violation(f"examples/{c['name']}: {which} {what} are wrong")
        shown += any(v.shape[:1] == (len(Z),) and
                     (np.allclose(v, x[:, 0] if v.ndim == 1 else x[:, :1])
                      or (v.ndim == 1 and np.allclose(v, np.sin(x[:, 0])))) for v in drawn)
    if c["name"] == "moving_average":
        # the third panel: the gain, which for H = 1 is the posterior variance over R
        gain = ref["fP"][:, 0, 0] / np.ravel(log[-1][1]["R"])
        if not any(v.shape == gain.shape and np.abs(v - gain).max() <= 1e-6 for v in drawn):
            raise Violation("examples/moving_average: the gains shown are wrong")
    if shown < len(log):
        raise Violation(f"examples/{c['name']}: {len(log)} runs, {shown} of them shown")
    obs.label(c["name"])
    obs.mark(True)


data_case = st.fixed_dictionaries({
    "name": st.sampled_from(["constant_velocity_smoothing", "pendulum", "pendulum_smoothing"]),
    "size": st.integers(1, 2000), "seed": st.integers(0, 2**32 - 1),
    "q": st.floats(0.0, 1.0), "r": st.floats(0.0, 1.0),
    "x": st.tuples(st.floats(-7, 7), st.floats(-20, 20))})


def listed(name, size):
    for k in known_findings():
        if k.get("status") == "open" and k.get("property") == "C21" and k.get("example") == name:
            return k if size in k["sizes"] else None
    return None


def judge_data(c, obs):
    name, size = c["name"], c["size"]
    mod, _ = load_example(name)
    state = np.random.get_state()
    q = c["q"] * np.eye(2)
    try:
        np.random.seed(c["seed"])
        if name == "constant_velocity_smoothing":
            r = call(name, mod.generate_observations, size=size, seed=c["seed"])
        elif name == "pendulum":
            r = call(name, mod.generate_observations, mod.f, mod.h, q, c["r"], size=size)
        else:
            r = call(name, mod.generate_observations, q, c["r"], size=size, seed=c["seed"])
    finally:
        np.random.set_state(state)
    Z, X, time = map(np.asarray, r)
    if Z.shape != (size,) or X.shape != (size, 2) or not np.isfinite(Z).all():
        raise Violation(f"examples/{name}: {Z.shape}, {X.shape} for size {size}")
    first = mod.DT if name == "pendulum" else 0.0
    if time.shape != (size,):
        if len(time) == size + 1 and listed(name, size):
            obs.label("known-finding")
            time = time[:size]
        else:
            raise Violation(f"examples/{name}: {len(time)} time stamps for {size} observations")
    if np.abs(time - (first + mod.DT * np.arange(size))).max() > 1e-9 * size:
        raise Violation(f"examples/{name}: wrong time stamps for size {size}")
    if hasattr(mod, "f"):
        x = np.array(c["x"])
        for fun, jac, lab in ((mod.f, mod.jacobian_A, "jacobian_A"),
                              (mod.h, mod.jacobian_H, "jacobian_H")):
            J = np.asarray(jac(x), float).reshape(-1, 2)
            for j in range(2):
                # central difference with Richardson extrapolation
                def d(e):
                    s = np.zeros(2)
                    s[j] = e
                    return (np.atleast_1d(fun(x + s)) - np.atleast_1d(fun(x - s))) / (2 * e)
                num = (4 * d(5e-4) - d(1e-3)) / 3
                if np.abs(num - J[:, j]).max() > 1e-8 * (1 + np.abs(J).max()):
                    raise Violation(f"examples/{name}: {lab} at {x.tolist()} is not the derivative")
    obs.label(name)
    obs.mark(size > 1)


# the quick start of the documentation, executed statement by statement
quick_case = st.fixed_dictionaries({
    "seed": st.integers(0, 2**32 - 1), "start": st.integers(-20, 0), "end": st.integers(1, 20),
    "step": st.floats(0.05, 0.8), "beta": st.floats(-1, 1), "var": st.floats(0, 3)})


def quickstart():
    path = os.path.join(REPO, "docs", "source", "quickstart.rst")
    import doctest
    return [e.source for e in doctest.DocTestParser().get_examples(open(path).read())]


def judge_quick(c, obs):
    log, ns = [], {"__name__": "quickstart"}
    plt = Plt()
    mpl = types.ModuleType("matplotlib")
    mpl.pyplot = plt
    fake = {"matplotlib": mpl, "matplotlib.pyplot": plt}
    saved = {k: sys.modules.get(k) for k in fake}
    state, real = np.random.get_state(), kalmankit.KalmanFilter
    keys = ("start", "end", "step", "beta", "var")
    try:
        sys.modules.update(fake)
        kalmankit.KalmanFilter = recording(real, log)
        np.random.seed(c["seed"])
        for source in quickstart():
            g = ns.get("generate_func")
            if g is not None and not hasattr(g, "kv"):
                def gen_func(*a, _g=g, **k):
                    return _g(**{key: c[key] for key in keys})
                gen_func.kv = True
                ns["generate_func"] = gen_func
            call(f"the quick start's '{source.strip()[:60]}'", exec, source, ns)
    finally:
        kalmankit.KalmanFilter = real
        np.random.set_state(state)
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    if {w for w, *_ in log} != {"filter", "smooth"}:
        raise Violation("the quick start does not run the filter and the smoother")
    for which, k, Z, U, (x, P) in log:
        ref = oracle.sequential(as_case(k, Z))
        want = (ref["fm"], ref["fP"]) if which == "filter" else (ref["sm"], ref["sP"])
        for what, g, w in (("estimates", x, want[0]), ("covariances", P, want[1])):
            if g.shape != w.shape or not np.abs(g - w).max() <= 1e-8 * max(1, np.abs(w).max()):
                raise Violation(f"quick start: {which} {what} are wrong")
        obs.mark(len(Z) > 1)
    obs.label("quickstart")


C21 = Prop(
    "C21",
    "each example script run with random seeds and record sizes under a stand-in for matplotlib, "
    "its filters' results compared with an independent recursion; its data generators called "
    "with random sizes and noise and its Jacobians compared with numerical derivatives; the code of "
    "the documentation's quick start executed on random data; "
    "non-trivial = more than one observation",
    [Sub("main", main_case(), judge_main, 240, shards=8),
     Sub("main_long", main_case(far=True), judge_main, 16, shards=8),
     Sub("quickstart", quick_case, judge_quick, 60, shards=4),
     Sub("data", data_case, judge_data, 400, shards=8)])
