"""Call histories on live filter objects, and representation of the inputs."""
import copy
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np
from hypothesis import strategies as st

from . import gen, oracle
from .core import Prop, Sub, Violation, grown_sub
from .gen import mixed, fine, coarse
from .succession import succession_sub
from .sut import (Boom, Stop, ExtendedKalmanFilter, Fns, KalmanFilter, call, close, close_pair,
                  ekf_args, ekf_run, ekf_scales, kf_run, make_kf, pair, present, run_ekf,
                  run_linear, scales)

OPS = ["filter", "filter", "smooth", "smooth", "predict", "update", "fault", "failstep", "rewrite", "scribble",
       "nested", "nested", "clone"]


@st.composite
def history_case(draw):
    k = draw(st.integers(1, 3))
    objs = []
    for _ in range(k):
        if draw(st.booleans()):
            c = draw(gen.linear(smooth=True, Tmin=1, Tmax=6, nmax=3, mmax=3))
            kind = "kf"
            m = c["Z"].shape[1]
        else:
            c = draw(gen.nonlinear(Tmax=5, nmax=3, mmax=2))
            kind = "ekf"
            m = c["Z"].shape[1]
        T = len(c["Z"])
        objs.append({"kind": kind, "c": c, "Z2": 2.0 * mixed(draw, T, m),
                     "U2": None if c["U"] is None else mixed(draw, *c["U"].shape),
                     "share": draw(st.booleans())})
    ops = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(OPS), "obj": st.integers(0, k - 1), "data": st.integers(0, 1),
        "len": st.integers(1, 6), "fault": st.integers(1, 25), "inner": st.integers(0, k - 1),
        "how": st.sampled_from(["filter", "smooth"]), "stop": st.booleans()}), min_size=2, max_size=9))
    return {"objs": objs, "ops": ops}


class Live:
    """One filter object with its own data buffers and the model of what it must return."""

    def __init__(self, spec):
        self.kind, self.c = spec["kind"], spec["c"]
        self.flat = False
        n = len(self.c["x0"])
        self.n = n
        zs = [self.c["Z"], spec["Z2"]]
        us = [self.c["U"], spec["U2"]]
        if self.kind == "kf":
            s, self.D, self.E = gen.in_units(self.c)
            self.kw, _, _ = present(s)
            self.snap = {k: None if v is None else v.copy() for k, v in self.kw.items()}
            self.obj = make_kf(self.kw)
        else:
            self.fns = Fns(self.c)
            self.D, self.E = self.fns.D, self.fns.E
            self.kw, _, _ = ekf_args(self.c, self.fns)
            self.snap = {k: v.copy() for k, v in self.kw.items() if isinstance(v, np.ndarray)}
            self.obj = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, **self.kw)
        self.base = [np.array(z) for z in zs]          # base units, the truth
        self.baseU = [None if u is None else np.array(u) for u in us]
        self.Z = [z * self.E for z in self.base]       # buffers handed to the code under test
        self.U = [None if u is None else u.copy() for u in self.baseU]
        self.gains = []
        self.unknown_gains = False

    def ref(self, which, data, L):
        c = dict(self.c)
        for k in ("A", "H", "B", "Q", "R"):
            if self.kind == "kf" or k in ("Q", "R"):
                if c.get(k) is not None:
                    c[k] = c[k][:L]
        c["Z"] = self.base[data][:L]
        c["U"] = None if self.baseU[data] is None else self.baseU[data][:L]
        if self.kind == "kf":
            o = oracle.sequential(c)
            sc = scales(c, o)
        else:
            o = oracle.ekf(c)
            sc = ekf_scales(c, o)
        return o, sc

    def args_intact(self, what):
        for k, v in self.snap.items():
            if v is not None and not np.array_equal(self.kw[k], v, equal_nan=True):
                raise Violation(f"{what} modified the constructor argument {k}")
        for k in ("xk", "Pk", "Q", "R", "A", "B", "H"):
            if k in self.snap and self.snap[k] is not None and hasattr(self.obj, k):
                a = np.asarray(getattr(self.obj, k), dtype=float)
                if a.shape == self.snap[k].shape and not np.array_equal(a, self.snap[k],
                                                                        equal_nan=True):
                    raise Violation(f"{what} changed the filter's {k}")
        for d in (0, 1):
            if not np.array_equal(self.Z[d], self.base[d] * self.E):
                raise Violation(f"{what} modified the observations passed in")
            if self.U[d] is not None and not np.array_equal(self.U[d], self.baseU[d],
                                                            equal_nan=True):
                raise Violation(f"{what} modified the controls passed in")
        if self.kind == "ekf":
            self.fns.check_untouched()


SENTINEL = ("ignore", None, ImportWarning, None, 6174)


def interpreter():
    """Settings of the interpreter and of numpy that are not covered by name below."""
    return (gc.isenabled(), gc.get_threshold(), np.getbufsize(), np.geterrcall(),
            logging.root.level, list(logging.root.handlers), logging.root.manager.disable,
            decimal.getcontext().prec, sys.stdout, sys.stderr, sys.excepthook,
            locale.setlocale(locale.LC_ALL),
            [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE)])


class Surroundings:
    """Process-wide settings that a run has no business changing."""

    def __init__(self):
        # states nothing would set them to by chance
        np.random.random(3), random.random()
        np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
        if warnings.filters[:1] != [SENTINEL]:
            warnings.filters.insert(0, SENTINEL)
        self.rng, self.py = np.random.get_state(), random.getstate()
        self.err, self.opts = np.geterr(), np.get_printoptions()
        self.filters, self.cwd, self.env = list(warnings.filters), os.getcwd(), dict(os.environ)
        self.trace = (sys.getrecursionlimit(), sys.getswitchinterval(), threading.active_count())
        self.rest = interpreter()

    def check(self, what):
        rng = np.random.get_state()
        changed = [name for name, same in (
            ("random stream", rng[2] == self.rng[2] and np.array_equal(rng[1], self.rng[1])),
            ("random stream of the standard library", random.getstate() == self.py),
            ("floating-point error handling", np.geterr() == self.err),
            ("warning filters", warnings.filters == self.filters),
            ("working directory", os.getcwd() == self.cwd),
            ("environment", os.environ == self.env),
            ("limits", self.trace == (sys.getrecursionlimit(), sys.getswitchinterval(),
                                      threading.active_count())),
            ("interpreter settings", interpreter() == self.rest),
            ("print options", np.get_printoptions() == self.opts)) if not same]
        if changed:
            np.random.set_state(self.rng)
            random.setstate(self.py)
            np.seterr(**self.err)
            np.seterrcall(self.rest[3])
            np.setbufsize(self.rest[2])
            (gc.enable if self.rest[0] else gc.disable)()
            np.set_printoptions(**self.opts)
            warnings.filters[:] = self.filters
            raise Violation(f"{what} changed the process's {' and '.join(changed)}")


def judge_history(case, obs):
    around = Surroundings()
    live = [Live(s) for s in case["objs"]]
    held = []      # (returned array, copy): results must not change later
    runs = 0
    skipped = 0
    other_len = [len(o.obj.kalman_gains) for o in live]
    for i, op in enumerate(case["ops"]):
        lv = live[op["obj"]]
        d, n = op["data"], lv.n
        L = min(op["len"], len(lv.base[0]))
        D2 = np.outer(lv.D, lv.D)
        Z = lv.Z[d] if L == len(lv.Z[d]) else lv.Z[d][:L]
        U = lv.U[d]
        if U is not None and L != len(lv.Z[d]):
            U = U[:L]
        before = len(lv.obj.kalman_gains)
        what = f"op {i} ({op['op']} on {lv.kind})"
        if op["op"] in ("filter", "smooth"):
            o, sc = lv.ref(op["op"], d, L)
            if op["op"] == "smooth" and L > 1 and oracle.ahead_cond(None, o) > 1e6:
                skipped += 1
                continue
            raw = call(what, getattr(lv.obj, op["op"]), Z=Z, U=U)
            x, P = pair(what, raw, (L, n), (L, n, n))
            key = ("fm", "fP") if op["op"] == "filter" else ("sm", "sP")
            close_pair(what + " after this history", (x / lv.D, P / D2), (o[key[0]], o[key[1]]),
                       sc, 1e-7)
            added = len(lv.obj.kalman_gains) - before
            if added != L:
                raise Violation(f"{what}: {added} gains recorded for {L} observations")
            for k in range(L):
                g = np.asarray(lv.obj.kalman_gains[before + k], float) * lv.E[None] / lv.D[:, None]
                close(f"{what}: gain {k}", g, o["K"][k],
                  sc.looser * max(1.0, np.abs(o["K"][k]).max()), 1e-7)
            for a in raw:
                if isinstance(a, np.ndarray):
                    held.append((a, a.copy()))
            runs += 1
        elif op["op"] == "predict":
            o, sc = lv.ref("filter", d, 1)
            if lv.kind == "kf":
                has = lv.kw["B"] is not None and lv.U[d] is not None
                r = call(what, lv.obj.predict, Ak=lv.kw["A"][0], xk=lv.kw["xk"],
                         Bk=lv.kw["B"][0] if has else np.full((n, 1), np.nan),
                         uk=lv.U[d][0] if has else np.full(1, np.nan), Pk=lv.kw["Pk"],
                         Qk=lv.kw["Q"][0])
            else:
                r = call(what, lv.obj.predict, xk=lv.kw["xk"],
                         uk=None if lv.U[d] is None else lv.U[d][0], Pk=lv.kw["Pk"],
                         Qk=lv.kw["Q"][0])
            x, P = pair(what, r, (n,), (n, n))
            close_pair(what, (x / lv.D, P / D2), (o["pm"][0], o["pP"][0]), sc, 1e-7)
            if len(lv.obj.kalman_gains) != before:
                raise Violation(f"{what} recorded a gain")
        elif op["op"] == "update":
            o, sc = lv.ref("filter", d, 1)
            xp, Pp = o["pm"][0] * lv.D, o["pP"][0] * D2
            if lv.kind == "kf":
                r = call(what, lv.obj.update, Hk=lv.kw["H"][0], xk=xp, Pk=Pp, zk=lv.Z[d][0],
                         Rk=lv.kw["R"][0])
            else:
                r = call(what, lv.obj.update, xk=xp, Pk=Pp, zk=lv.Z[d][0], Rk=lv.kw["R"][0])
            if not (np.array_equal(xp, o["pm"][0] * lv.D) and np.array_equal(Pp, o["pP"][0] * D2)):
                raise Violation(f"{what} modified the estimate passed in")
            x, P = pair(what, r, (n,), (n, n))
            close_pair(what, (x / lv.D, P / D2), (o["fm"][0], o["fP"][0]), sc, 1e-7)
            if len(lv.obj.kalman_gains) != before + 1:
                raise Violation(f"{what} did not record exactly one gain")
        elif op["op"] == "fault":
            # a run that dies in the middle must not affect later runs
            if lv.kind == "ekf":
                lv.fns.count, lv.fns.fail_at, lv.fns.stop = 0, op["fault"], op["stop"]
                try:
                    getattr(lv.obj, op["how"])(Z=Z, U=U)
                    failed = False
                except (Boom, Stop):
                    failed = True
                except Exception as e:
                    raise Violation(f"{what}: the user function's exception came out as "
                                    f"{type(e).__name__}: {e}")
                reached = lv.fns.count >= op["fault"]
                lv.fns.fail_at = None
                if reached and not failed:
                    raise Violation(f"{what}: an exception raised by a user function was swallowed")
                if failed:
                    obs.label("fault in user function")
            else:
                bad = [z for z in Z]
                at = (op["fault"] - 1) % len(bad)
                bad[at] = np.zeros(lv.base[0].shape[1] + 1)
                try:
                    getattr(lv.obj, op["how"])(Z=bad, U=U)
                except Exception:
                    obs.label("fault in data")
        elif op["op"] == "failstep":
            # a single step that dies must not affect anything either
            z = lv.Z[d][0]
            if lv.kind == "ekf":
                lv.fns.count, lv.fns.fail_at, lv.fns.stop = 0, 1 + op["fault"] % 2, op["stop"]
                try:
                    if op["how"] == "filter":
                        lv.obj.predict(xk=lv.kw["xk"], uk=None if lv.U[d] is None else lv.U[d][0],
                                       Pk=lv.kw["Pk"], Qk=lv.kw["Q"][0])
                    else:
                        lv.obj.update(xk=lv.kw["xk"], Pk=lv.kw["Pk"], zk=z, Rk=lv.kw["R"][0])
                except (Boom, Stop):
                    obs.label("step aborted by a user function")
                except Exception as e:
                    raise Violation(f"{what}: the user function's exception came out as "
                                    f"{type(e).__name__}: {e}")
                finally:
                    lv.fns.fail_at = None
            else:
                x, P = lv.kw["xk"], lv.kw["Pk"]
                zero = np.zeros_like(lv.kw["R"][0])
                try:
                    if op["how"] == "filter":      # no variance anywhere: there is no gain
                        lv.obj.update(Hk=lv.kw["H"][0], xk=x, Pk=0.0 * P, zk=z, Rk=zero)
                    else:
                        lv.obj.update(Hk=lv.kw["H"][0], xk=x, Pk=P, zk=np.append(z, [0.0, 1.0]),
                                      Rk=lv.kw["R"][0])
                except Exception:
                    obs.label("step aborted by its data")
        elif op["op"] == "nested":
            # a run of one filter takes place inside a user function of another one's run
            inner = live[op["inner"]]
            if lv.kind != "ekf" or inner is lv:
                continue
            oo, so = lv.ref(op["how"], d, L)
            Li = len(inner.base[0])
            oi, si = inner.ref("filter", d, Li)
            if max(oracle.ahead_cond(None, oo), oracle.ahead_cond(None, oi)) > 1e6:
                skipped += 1
                continue
            inside = []

            def hook():
                inside.append(call(what, inner.obj.filter, Z=inner.Z[d], U=inner.U[d]))
                inside.append(call(what, inner.obj.smooth, Z=inner.Z[d], U=inner.U[d]))

            lv.fns.count, lv.fns.hook_at, lv.fns.hook = 0, op["fault"], hook
            r = call(what, getattr(lv.obj, op["how"]), Z=Z, U=U)
            lv.fns.hook = lv.fns.hook_at = None
            x, P = pair(what, r, (L, n), (L, n, n))
            key = ("fm", "fP") if op["how"] == "filter" else ("sm", "sP")
            close_pair(what + " interrupted by another filter's run", (x / lv.D, P / D2),
                       (oo[key[0]], oo[key[1]]), so, 1e-7)
            if len(lv.obj.kalman_gains) != before + L:
                raise Violation(f"{what}: {len(lv.obj.kalman_gains) - before} gains for {L} "
                                "observations when interrupted by another filter's run")
            if inside:
                j = inner.n
                Di2 = np.outer(inner.D, inner.D)
                for (xi, Pi), key in zip(inside, (("fm", "fP"), ("sm", "sP"))):
                    xi, Pi = pair(what, (xi, Pi), (Li, j), (Li, j, j))
                    close_pair(what + " run inside another filter's run",
                               (xi / inner.D, Pi / Di2), (oi[key[0]], oi[key[1]]), si, 1e-7)
                other_len[op["inner"]] = len(inner.obj.kalman_gains)
                obs.label("nested run")
            runs += 1
        elif op["op"] == "clone":
            # a copy of a filter is a filter of its own
            o, sc = lv.ref("filter", d, L)
            twin = copy.deepcopy(lv.obj)
            r = call(what, twin.filter, Z=Z, U=U)
            x, P = pair(what, r, (L, n), (L, n, n))
            close_pair(what + " run on a deep copy", (x / lv.D, P / D2), (o["fm"], o["fP"]), sc,
                       1e-7)
            if len(lv.obj.kalman_gains) != before:
                raise Violation(f"{what}: a run of a deep copy changed the original's gains")
            if len(twin.kalman_gains) != before + L:
                raise Violation(f"{what}: a deep copy holds {len(twin.kalman_gains)} gains, "
                                f"expected {before + L}")
            obs.label("deep copy")
            runs += 1
        elif op["op"] == "rewrite":
            # the caller reuses its data buffer; later runs see the new content
            lv.base[d] = lv.base[d][::-1] * 0.5 + 0.25
            lv.Z[d][...] = lv.base[d] * lv.E
            if lv.baseU[d] is not None:
                lv.baseU[d] = lv.baseU[d] * -0.5
                lv.U[d][...] = lv.baseU[d]
            obs.label("buffer rewritten")
        elif op["op"] == "scribble":
            # the caller overwrites results it was given
            for a, _ in held:
                if a.flags.writeable:
                    a[...] = np.nan
            held = []
            obs.label("results overwritten")
        around.check(what)
        for other in live:
            other.args_intact(what)
        for a, b in held:
            if not np.array_equal(a, b, equal_nan=True):
                raise Violation(f"{what} changed a result returned earlier")
        for j, other in enumerate(live):
            if other is not lv and len(other.obj.kalman_gains) != other_len[j]:
                raise Violation(f"{what} changed the gains of another filter")
        other_len = [len(o.obj.kalman_gains) for o in live]
    obs.label(f"objects={len(live)}", f"runs={min(runs, 5)}")
    obs.mark(runs >= 2)


@st.composite
def long_history_case(draw):
    return {"small": draw(history_case()), "reps": draw(st.integers(60, 600))}


def judge_long_history(case, obs):
    """The same histories over records of hundreds of observations."""
    r = case["reps"]
    d = dict(case["small"])
    d["objs"] = [dict(s, c=(gen.stretch if s["kind"] == "kf" else gen.stretch_ekf)(s["c"], r),
                      Z2=gen.tile(s["Z2"], r), U2=gen.tile(s["U2"], r)) for s in d["objs"]]
    d["ops"] = [dict(op, len=1 + (op["len"] * 7919) % (r if op["len"] % 2 else r // 2),
                     fault=op["fault"] * 37) for op in d["ops"]]
    judge_history(d, obs)
    obs.label("T>300" if r > 300 else "T<=300")


# ------------------------------------------------------------------ anything goes
@st.composite
def any_case(draw):
    """Models and data of every kind, also those for which no particular result is promised."""
    kind = draw(st.sampled_from(["kf", "kf", "ekf"]))
    if kind == "kf":
        c = draw(st.one_of(gen.linear(nan_controls=True), gen.linear(smooth=True),
                           gen.linear(nan_controls=True, **gen.WIDE), gen.broad(3)))
    else:
        c = draw(st.one_of(gen.nonlinear(), gen.nonlinear(**gen.WIDE), gen.broad_nonlinear()))
    T, m = c["Z"].shape
    zero = [k for k in ("R", "Q") if draw(st.integers(0, 3)) == 0]
    return {"kind": kind, "c": c, "style": draw(gen.style()),
            "zero": {k: draw(st.lists(st.integers(0, T - 1), min_size=1, max_size=3)) for k in zero},
            "bad": draw(st.lists(st.tuples(st.integers(0, T - 1), st.integers(0, m - 1),
                                           st.sampled_from(["nan", "inf", "-inf", "1e300", "0"])),
                                 min_size=1, max_size=2)),
            "runs": draw(st.lists(st.tuples(st.sampled_from(["filter", "smooth"]),
                                            st.sampled_from(["plain", "plain", "bad", "other", "int"]),
                                            st.booleans()), min_size=2, max_size=4))}


def outcome(obj, which, Z, U):
    try:
        x, P = getattr(obj, which)(Z=Z, U=U)
        return np.array(x, dtype=float), np.array(P, dtype=float)
    except Exception as e:
        return type(e).__name__


def same_outcome(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    for p, q in zip(a, b):
        if p.shape != q.shape:
            return False
        fine = np.isfinite(p)
        if not np.array_equal(fine, np.isfinite(q)) or not np.array_equal(p[~fine], q[~fine],
                                                                         equal_nan=True):
            return False
        if fine.any() and not (np.abs(p[fine] - q[fine]).max()
                               <= 1e-6 * max(np.abs(p[fine]).max(), 1e-290)):
            return False
    return True


def judge_any(case, obs):
    """Each run on one object ends like the same run on an object of its own."""
    c = dict(case["c"])
    for k, at in case["zero"].items():
        c[k] = c[k].copy()
        c[k][at] = 0.0
    if case["kind"] == "kf":
        kw, Z, U = present(gen.in_units(c)[0], case["style"])
        make = KalmanFilter
        fns = None
    else:
        fns = Fns(c, flat=case["style"]["flatZ"])
        kw, Z, U = ekf_args(c, fns, case["style"]["flatR"])
        make = ExtendedKalmanFilter
    bad = Z.copy()
    for k, j, v in case["bad"]:
        bad[(k, j) if Z.ndim == 2 else k] = float(v)
    data = {"plain": Z, "bad": bad, "other": Z[::-1] + 1.0,
            "int": np.rint(np.clip(Z, -2.0 ** 30, 2.0 ** 30)).astype(int)}
    snap = {k: v.copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
    zs = {k: v.copy() for k, v in data.items()}
    us = None if U is None else U.copy()
    around = Surroundings()
    want = [outcome(make(**kw), w, data[d], U if u else None) for w, d, u in case["runs"]]
    obj = make(**kw)
    for i, (w, d, u) in enumerate(case["runs"]):
        what = f"run {i + 1} ({w}, {d} data{'' if u else ', no controls'})"
        got = outcome(obj, w, data[d], U if u else None)
        if not same_outcome(got, want[i]):
            raise Violation(f"{what} of one {case['kind']} ends differently from the same run of "
                            "a new one")
    around.check("a run")
    for k, v in snap.items():
        if not np.array_equal(kw[k], v, equal_nan=True):
            raise Violation(f"a run modified the constructor argument {k}")
    if any(not np.array_equal(data[k], zs[k], equal_nan=True) for k in data):
        raise Violation("a run modified the observations passed in")
    if us is not None and not np.array_equal(U, us, equal_nan=True):
        raise Violation("a run modified the controls passed in")
    if fns is not None:
        fns.check_untouched()
    obs.label(case["kind"], *(f"{k}=0" for k in case["zero"]),
              "with an error" if any(isinstance(x, str) for x in want) else "no error",
              "non-finite" if any(not isinstance(x, str) and not np.isfinite(x[0]).all()
                                  for x in want) else "finite")
    obs.mark(True)


# ------------------------------------------------------------------ schedules
class Baton:
    """Runs jobs in threads of which exactly one moves at a time, in the order given."""

    def __init__(self, jobs, order):
        self.order, self.back = order, threading.Semaphore(0)
        self.turn = [threading.Semaphore(0) for _ in jobs]
        self.done, self.out, self.err = [False] * len(jobs), [None] * len(jobs), [None] * len(jobs)
        self.mine = threading.local()
        self.threads = [threading.Thread(target=self.body, args=(i, j), daemon=True)
                        for i, j in enumerate(jobs)]
        self.switches = 0

    def body(self, i, job):
        self.mine.i = i
        self.turn[i].acquire()
        try:
            self.out[i] = job()
        except BaseException as e:      # noqa: B902 - handed to the main thread
            self.err[i] = e
        self.done[i] = True
        self.back.release()

    def step(self):
        """Called by a job: let somebody else move."""
        i = getattr(self.mine, "i", None)
        if i is not None:
            self.back.release()
            self.turn[i].acquire()

    def run(self):
        for t in self.threads:
            t.start()
        last, k = None, 0
        while not all(self.done):
            alive = [i for i, d in enumerate(self.done) if not d]
            i = alive[self.order[k % len(self.order)] % len(alive)]
            k += 1
            self.switches += last is not None and i != last
            last = i
            self.turn[i].release()
            self.back.acquire()
        for t in self.threads:
            t.join()
        for e in self.err:
            if e is not None:
                raise e
        return self.out


@st.composite
def schedule_case(draw):
    c = draw(history_case())
    objs = (c["objs"] * 2)[:max(2, len(c["objs"]))]
    return {"objs": objs, "runs": [[draw(st.sampled_from(["filter", "smooth"])),
                                    draw(st.integers(0, 1)), draw(st.integers(1, 6))]
                                   for _ in objs],
            "order": list(draw(st.binary(min_size=4, max_size=60)))}


def judge_schedule(case, obs):
    """Runs of different filters taking turns at every step, under a given schedule."""
    live = [Live(s) for s in case["objs"]]
    jobs, refs = [], []
    baton = None

    class Turns(KalmanFilter):
        def predict(self, *a, **k):
            baton.step()
            return super().predict(*a, **k)

        def update(self, *a, **k):
            baton.step()
            return super().update(*a, **k)

    class Watched(np.ndarray):
        """An array whose entries cannot be read without giving up the turn."""

        def __iter__(self):
            for row in self.view(np.ndarray):
                baton.step()
                yield row

        def __getitem__(self, key):
            baton.step()
            return self.view(np.ndarray)[key]

    for lv, (which, d, L) in zip(live, case["runs"]):
        L = min(L, len(lv.base[0]))
        o, sc = lv.ref(which, d, L)
        if which == "smooth" and L > 1 and oracle.ahead_cond(None, o) > 1e6:
            which = "filter"
        refs.append((which, L, o, sc))
        if lv.kind == "kf":
            lv.obj = call("KalmanFilter(...)", Turns, **lv.kw)
        else:
            lv.fns.each = lambda: baton.step()
        U = lv.U[d]
        jobs.append(lambda lv=lv, which=which, d=d, L=L, U=U: call(
            which, getattr(lv.obj, which), Z=lv.Z[d][:L].view(Watched),
            U=None if U is None else U[:L]))
    baton = Baton(jobs, case["order"])
    outs = baton.run()
    for lv, r, (which, L, o, sc) in zip(live, outs, refs):
        what = f"{lv.kind} {which} interleaved with other filters' runs"
        x, P = pair(what, r, (L, lv.n), (L, lv.n, lv.n))
        key = ("fm", "fP") if which == "filter" else ("sm", "sP")
        close_pair(what, (x / lv.D, P / np.outer(lv.D, lv.D)), (o[key[0]], o[key[1]]), sc, 1e-7)
        if len(lv.obj.kalman_gains) != L:
            raise Violation(f"{what}: {len(lv.obj.kalman_gains)} gains for {L} observations")
        for k in range(L):
            g = np.asarray(lv.obj.kalman_gains[k], float) * lv.E[None] / lv.D[:, None]
            close(f"{what}: gain {k}", g, o["K"][k],
                  sc.looser * max(1.0, np.abs(o["K"][k]).max()), 1e-7)
        lv.args_intact(what)
    obs.label(f"objects={len(live)}", *[lv.kind for lv in live],
              f"switches={'0' if not baton.switches else '1-9' if baton.switches < 10 else '10+'}")
    obs.mark(baton.switches >= 3)


C07 = Prop(
    "C07",
    "random histories of 2-9 operations (filter, smooth, predict, update, a run aborted by a "
    "failing user function or bad observation, a run taking place inside another one's user "
    "function, a run of a deep copy, reuse of the data buffers, overwriting returned arrays) over 1-3 "
    "standard and extended filters, and random schedules under which runs of 2-3 filters in "
    "threads take turns at every user function or step; every result is compared with a stateless "
    "reference; non-trivial = at least two completed runs, or three changes of turn; and runs of models and data of any kind, "
    "also degenerate ones, on one object compared with the same runs on new objects",
    [Sub("history", history_case(), judge_history, 4000, shards=8),
     Sub("any", any_case(), judge_any, 2500, shards=8),
     grown_sub(history_case(), judge_history, shards=8),
     Sub("schedules", schedule_case(), judge_schedule, 1000, shards=8),
     Sub("long", long_history_case(), judge_long_history, 64, shards=8),
     succession_sub(quick=1200)])


# ------------------------------------------------------------------ C09 representation
DT = ["<f8", "<f8", "<i8", "<i4", "<f4", ">f8", ">i4"]
DATA_DT = ["<i2", ">u2", "|i1", "|u1", "<u4", "<u8", "<f2", ">f2", "|b1", "g"]     # of Z and U only
LAYOUT = ["C", "F", "strided", "broadcast", "readonly", "reversed", "mapped", "offset"]


def spd_int(draw, k, n):
    L = coarse(draw, k, n, n, top=1)
    return L @ np.swapaxes(L, 1, 2) + np.eye(n)


@st.composite
def repr_case(draw):
    n = gen.a_size(draw, [1, 2, 3], gen.GROWN_N)
    m = gen.a_size(draw, [1, 2, 3], gen.GROWN_M)
    T = gen.steps(draw, 1, 5)
    p = gen.controls_n(draw) if gen.GROWN else draw(st.integers(1, 2))
    tmode = st.sampled_from(["const", "vary"])

    def seq(make):
        return np.repeat(make(1), T, 0) if draw(tmode) == "const" else make(T)

    c = {"A": seq(lambda k: coarse(draw, k, n, n, top=1)),
         "H": seq(lambda k: coarse(draw, k, m, n, top=2)),
         "Q": seq(lambda k: spd_int(draw, k, n)), "R": seq(lambda k: spd_int(draw, k, m)),
         "P0": spd_int(draw, 1, n)[0], "x0": coarse(draw, n, top=3),
         "Z": coarse(draw, T, m, top=9), "B": None, "U": None, "units": [[0] * n, [0] * m, 0]}
    if draw(st.booleans()):
        c["B"] = seq(lambda k: coarse(draw, k, n, p, top=2))
    if draw(st.booleans()):
        c["U"] = coarse(draw, T, p, top=3)
    names = ["A", "H", "Q", "R", "P0", "x0", "Z", "B", "U"]
    allsame = draw(st.sampled_from(["", "", "int", "f4"]))
    rep = {}
    for k in names:
        dt = draw(st.sampled_from(DT))
        if allsame == "int":
            dt = "<i8"
        elif allsame == "f4":
            dt = "<f4"
        elif k in "ZU" and draw(st.booleans()):
            dt = draw(st.sampled_from(DATA_DT))
            if c[k] is not None and np.dtype(dt).kind in "ub":
                c[k] = np.minimum(np.abs(c[k]), 1.0 if dt == "|b1" else 9.0)
        rep[k] = [dt, draw(st.sampled_from(LAYOUT))]
    wide = not draw(st.integers(0, 4)) and all(v[0] != "<f4" for v in rep.values())
    if wide:
        # readings and controls of up to nine digits
        c["Z"] = coarse(draw, T, m, top=9) * 11184811.0 + coarse(draw, T, m, top=99)
        rep["Z"][0] = draw(st.sampled_from(["<i8", ">i8", "<i4", "<u4", "<u8", "g"]))
        if "u" in rep["Z"][0]:
            c["Z"] = np.abs(c["Z"])
        if c["U"] is not None:
            c["U"] = coarse(draw, T, p, top=9) * 11184811.0 + coarse(draw, T, p, top=99)
            rep["U"][0] = draw(st.sampled_from(["<i8", ">i8", "<f8", "g"]))
    e = 0
    if not wide and not draw(st.integers(0, 4)):
        # a start that is exactly zero, in integers, and everything else in small units
        e = draw(st.sampled_from(gen.exps([10, 24, 24, 40, 150])))
        c["R"] = c["R"] + np.eye(m)
        c["x0"], c["P0"] = np.zeros(n), np.zeros((n, n))
        for k in ("Z", "U", "Q", "R"):
            rep[k][0] = draw(st.sampled_from(["<f8", ">f8", "<f8", "g"][:3 if k in "QR" else 4]))
        for k in ("x0", "P0"):
            rep[k][0] = draw(st.sampled_from(["<i8", "<i8", "<i4", "<f8"]))
    return {"c": c, "rep": rep, "style": draw(gen.style()), "wide": wide, "e": e,
            "filter": draw(st.sampled_from(["kf", "ekf"]))}


def rerepresent(a, dt, layout):
    """The same values in another dtype and memory layout (never writable aliases)."""
    a = np.asarray(a)
    b = a.astype(np.dtype(dt))
    if layout == "F":
        return np.asfortranarray(b)
    if layout == "strided":
        big = np.full(tuple(2 * s for s in b.shape), 77).astype(b.dtype)
        sl = tuple(slice(None, None, 2) for _ in b.shape)
        big[sl] = b
        return big[sl]
    if layout == "broadcast" and b.ndim and len(b) and (b == b[:1]).all():
        return np.broadcast_to(b[0], b.shape)
    if layout == "mapped":
        with tempfile.TemporaryFile(dir=os.environ.get("KV_SCRATCH")) as f:
            f.write(b.tobytes())
            f.flush()
            return np.memmap(f, dtype=b.dtype, mode="r", shape=b.shape)
    if layout == "offset":
        # not aligned to its own element size
        buf = bytearray(b.nbytes + 1)
        buf[1:] = b.tobytes()
        return np.frombuffer(buf, dtype=b.dtype, offset=1).reshape(b.shape)
    if layout == "reversed":
        sl = tuple(slice(None, None, -1) for _ in b.shape)
        return b[sl].copy()[sl]
    b = b.copy()
    if layout == "readonly":
        b.setflags(write=False)
    return b


def judge_repr(case, obs):
    c, rep, style = case["c"], case["rep"], case["style"]
    T, n, m, p = gen.dims(c)
    o = oracle.sequential(c)
    if case["filter"] == "ekf":
        return judge_repr_ekf(case, obs)
    sc = scales(c, o)
    kw, Z, U = present(c, style)
    unit = 2.0 ** -case.get("e", 0)
    kw.update(Q=kw["Q"] * unit**2, R=kw["R"] * unit**2)
    Z, U = Z * unit, None if U is None else U * unit
    name = {"xk": "x0", "Pk": "P0"}
    for k in list(kw):
        if isinstance(kw[k], np.ndarray):
            kw[k] = rerepresent(kw[k], *rep[name.get(k, k)])
    Z = rerepresent(Z, *rep["Z"])
    U = None if U is None else rerepresent(U, *rep["U"])
    arrays = [a for a in list(kw.values()) + [Z, U] if isinstance(a, np.ndarray)]
    copies = [a.copy() for a in arrays]
    f4 = any(rep[k][0] == "<f4" for k in rep)
    tol = 1e-3 if f4 else 1e-11 if case.get("wide") else 1e-8
    smooth_ok = T == 1 or oracle.ahead_cond(c, o) < (1e3 if f4 else 1e6)
    for which in ("filter", "smooth"):
        if which == "smooth" and not smooth_ok:
            continue
        x, P = kf_run(which, make_kf(kw), Z, U, n, style["kw"])
        key = ("fm", "fP") if which == "filter" else ("sm", "sP")
        close_pair(f"{which} with {rep}", (x / unit, P / unit**2), (o[key[0]], o[key[1]]), sc, tol)
    for a, b in zip(arrays, copies):
        if not np.array_equal(a, b):
            raise Violation("an input array was modified")
    obs.label("kf", "has f4" if f4 else "exact dtypes", *["wide"] * bool(case.get("wide")),
              *[f"dt{rep[k][0]}" for k in ("Z", "A", "x0")], *[f"{rep[k][1]}" for k in ("A", "Z")])
    obs.mark(T >= 2 and len({tuple(v) for v in rep.values()}) > 1)


def judge_repr_ekf(case, obs):
    c, rep, style = dict(case["c"]), case["rep"], case["style"]
    T, n, m, p = gen.dims(c)
    c["A"] = np.repeat(c["A"][:1], T, 0)
    c["H"] = np.repeat(c["H"][:1], T, 0)
    c["B"] = c["U"] = None
    o = oracle.sequential(c)
    sc = scales(c, o)
    A = rerepresent(c["A"][0], *rep["A"])
    H = rerepresent(c["H"][0], *rep["H"])
    flat = style["flatZ"] and m == 1
    unit = 2.0 ** -case.get("e", 0)
    Z = rerepresent((c["Z"].reshape(T) if flat else c["Z"]) * unit, *rep["Z"])
    R = c["R"].reshape(T) if flat and style["flatR"] else c["R"]
    kw = dict(xk=rerepresent(c["x0"], *rep["x0"]), Pk=rerepresent(c["P0"], *rep["P0"]),
              Q=rerepresent(c["Q"] * unit**2, *rep["Q"]),
              R=rerepresent(R * unit**2, *rep["R"]),
              f=lambda x, u=None: A @ x, h=lambda x: H @ x, jacobian_A=lambda x, u=None: A,
              jacobian_H=lambda x: H)
    f4 = any(rep[k][0] == "<f4" for k in rep)
    tol = 1e-3 if f4 else 1e-11 if case.get("wide") else 1e-8
    smooth_ok = T == 1 or oracle.ahead_cond(c, o) < (1e3 if f4 else 1e6)
    Z0 = Z.copy()
    for which in ("filter", "smooth"):
        if which == "smooth" and not smooth_ok:
            continue
        ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, **kw)
        x, P = ekf_run(which, ek, Z, None, n, style["kw"])
        key = ("fm", "fP") if which == "filter" else ("sm", "sP")
        close_pair(f"extended {which} with {rep}", (x / unit, P / unit**2), (o[key[0]], o[key[1]]), sc, tol)
    if not np.array_equal(Z0, Z):
        raise Violation("the observations were modified")
    obs.label("ekf", "has f4" if f4 else "exact dtypes", *[f"dt{rep[k][0]}" for k in ("Z", "x0")])
    obs.mark(T >= 2 and len({tuple(v) for v in rep.values()}) > 1)


@st.composite
def forms_case(draw):
    """The documented shapes of one and the same problem."""
    n = gen.a_size(draw, [1, 2, 3], gen.GROWN_N)
    m = gen.a_size(draw, [1, 1, 1, 2, 3], gen.GROWN_M)
    T = gen.steps(draw, 1, 6)
    r = 0.05 + 4 * abs(float(fine(draw, 1)[0]))
    c = {"A": np.eye(n) + 0.4 * mixed(draw, T, n, n) / n, "H": 1.5 * mixed(draw, T, m, n),
         "Q": gen.spd(mixed(draw, T, n, n), 0.1), "R": np.repeat(r * np.eye(m)[None], T, 0),
         "P0": gen.spd(mixed(draw, n, n), 0.1), "x0": mixed(draw, n), "Z": 3 * mixed(draw, T, m),
         "B": None, "U": None, "units": [[0] * n, [0] * m, 0]}
    zd = draw(st.sampled_from([None, None, "f4", "f2"]))
    if zd:
        c["Z"] = c["Z"].astype(zd).astype(float)
    return {"c": c, "r": r, "zd": zd or ""}


def judge_forms(case, obs):
    c, r, zd = case["c"], case["r"], case.get("zd")
    T, n, m, _ = gen.dims(c)
    o = oracle.sequential(c)
    sc = scales(c, o)
    variants = []
    rs = [("R (T,m,m)", c["R"]), ("R float", float(r)), ("R numpy scalar", np.float64(r)),
          ("R 0-d array", np.array(r))]
    if m == 1:
        rs += [("R (T,)", c["R"].reshape(T))]
    zs = [("Z (T,m)", c["Z"])] + ([("Z (T,)", c["Z"].reshape(T))] if m == 1 else [])
    if zd:
        # the values are exact in this type, so nothing may be lost by using it
        zs += [(f"{a} {zd}", z.astype(zd)) for a, z in zs]
    qs = [("Q (T,n,n)", c["Q"])] + ([("Q (T,)", c["Q"].reshape(T))] if n == 1 else [])
    xs = [("xk (n,)", c["x0"])]
    if n == 1 and m == 1:
        xs.append(("xk (1,1)", c["x0"].reshape(1, 1)))
    variants = [(a, b, q, x) for a in rs for b in zs for q in qs for x in xs]
    ok = T == 1 or oracle.ahead_cond(c, o) < 1e6
    for (rn, R), (zn, Z), (qn, Q), (xn, x0) in variants:
        for which in ("filter", "smooth"):
            if which == "smooth" and not ok:
                continue
            key = ("fm", "fP") if which == "filter" else ("sm", "sP")
            for size in (None, n):
                kf = make_kf(dict(A=c["A"], xk=x0, B=None, Pk=c["P0"], H=c["H"], Q=Q, R=R,
                                  **({} if size is None else {"state_size": size})))
                got = kf_run(which, kf, Z, None, n)
                close_pair(f"{which} with {rn}, {zn}, {qn}, {xn}", got, (o[key[0]], o[key[1]]), sc)
                if kf.state_size != n:
                    raise Violation(f"state_size is {kf.state_size}, expected {n}")
                if which == "smooth":
                    break
            # extended filter with constant matrices
    ce = dict(c, A=np.repeat(c["A"][:1], T, 0), H=np.repeat(c["H"][:1], T, 0))
    oe = oracle.sequential(ce)
    sce = scales(ce, oe)
    oke = T == 1 or oracle.ahead_cond(ce, oe) < 1e6
    for (rn, R) in rs:
        for (zn, Z) in zs:
            for hs in ((False, True) if Z.ndim == 1 else (False,)):
                ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, xk=c["x0"],
                          Pk=c["P0"], Q=c["Q"], R=R, f=lambda x, u=None: c["A"][0] @ x,
                          h=lambda x: float((c["H"][0] @ x)[0]) if hs else c["H"][0] @ x,
                          jacobian_A=lambda x, u=None: c["A"][0], jacobian_H=lambda x: c["H"][0])
                for which in ("filter", "smooth"):
                    if which == "smooth" and not oke:
                        continue
                    key = ("fm", "fP") if which == "filter" else ("sm", "sP")
                    got = ekf_run(which, ek, Z, None, n)
                    close_pair(f"extended {which} with {rn}, {zn}", got,
                               (oe[key[0]], oe[key[1]]), sce)
    obs.label(f"m={m}", f"n={n}", f"forms={len(variants)}", f"Z type {zd or 'f8'}")
    obs.mark(T >= 2)


C09 = Prop(
    "C09",
    "integer-valued models presented in random dtypes (int32/int64/float32/float64/big-endian) and "
    "memory layouts (C, Fortran, strided, reversed, broadcast, read-only), and the documented "
    "alternative shapes of one problem (float/vector/matrix R, vector Q and Z, 1x1 column start); "
    "non-trivial = >= 2 steps and at least two different representations",
    [Sub("dtypes", repr_case(), judge_repr, 1600), Sub("forms", forms_case(), judge_forms, 300),
     grown_sub(repr_case(), judge_repr, 240), grown_sub(forms_case(), judge_forms, 80, name="grown_forms")],
    ["float32 inputs are compared to 1e-3; integers are small enough not to overflow"])
