"""The code under test: import, presentation of a case to it, and comparison helpers."""
import os
import sys

import numpy as np

from . import gen, oracle
from .core import REPO, Violation

SRC = os.path.join(REPO, "src")
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)

import kalmankit  # noqa: E402

if not os.path.realpath(kalmankit.__file__).startswith(os.path.realpath(SRC)):
    raise ImportError("kalmankit was not imported from " + SRC)

KalmanFilter = kalmankit.KalmanFilter
ExtendedKalmanFilter = kalmankit.ExtendedKalmanFilter

RTOL = 1e-8


def call(what, fn, *a, **k):
    """Call the code under test on valid input: any exception is a violation."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}")


def pair(what, res, sx, sp, finite=True):
    """Check the shape of an (estimates, covariances) result and return it as float arrays."""
    try:
        a, b = res
        a = np.asarray(a)
        b = np.asarray(b)
        if a.dtype.kind not in "fiu" or b.dtype.kind not in "fiu":
            raise ValueError(f"dtypes {a.dtype}, {b.dtype}")
        a, b = a.astype(float), b.astype(float)
    except Exception as e:
        raise Violation(f"{what}: result is not a pair of numeric arrays ({e})")
    if a.shape != sx or b.shape != sp:
        raise Violation(f"{what}: result shapes {a.shape}, {b.shape}, expected {sx}, {sp}")
    if finite and not (np.isfinite(a).all() and np.isfinite(b).all()):
        raise Violation(f"{what}: non-finite values in the result")
    return a, b


# ------------------------------------------------------------------ standard filter
def present(c, style=gen.PLAIN):
    """Constructor keywords plus Z, U for a linear case, in one of the documented shapes."""
    T, n, m, p = gen.dims(c)
    kw = {k: c[k].copy() if c[k] is not None else None for k in ("A", "B", "H", "Q", "R")}
    kw["xk"], kw["Pk"] = c["x0"].copy(), c["P0"].copy()
    Z = c["Z"].copy()
    U = None if c["U"] is None else c["U"].copy()
    if style.get("spare"):      # a record shorter than the model
        for k in "ABHQR":
            kw[k] = gen.spared(kw[k], style["spare"])
    if style["flatR"] and m == 1:
        kw["R"] = kw["R"].reshape(-1)
    if style["flatQ"] and n == 1:
        kw["Q"] = kw["Q"].reshape(-1)
    if style["flatZ"] and m == 1:
        Z = Z.reshape(T)
    if style["col1"] and n == 1 and m == 1:
        kw["xk"] = kw["xk"].reshape(1, 1)
    if style["size"]:
        kw["state_size"] = n
    return kw, Z, U


def make_kf(kw):
    return call("KalmanFilter(...)", KalmanFilter, **kw)


def kf_run(which, kf, Z, U, n, kwargs=True, finite=True):
    T = len(Z)
    fn = getattr(kf, which)
    what = f"KalmanFilter.{which}"
    if kwargs:
        res = call(what, fn, Z=Z, U=U)
    elif U is None:
        res = call(what, fn, Z)
    else:
        res = call(what, fn, Z, U)
    return pair(what, res, (T, n), (T, n, n), finite)


def run_linear(c, which="filter", style=gen.PLAIN, kf_out=None):
    """Build a fresh filter for the case (in its units), run it; result back in base units."""
    s, D, _ = gen.in_units(c)
    kw, Z, U = present(s, style)
    kf = make_kf(kw)
    x, P = kf_run(which, kf, Z, U, len(c["x0"]), style["kw"])
    if kf_out is not None:
        kf_out.append(kf)
    return x / D, P / D[:, None] / D[None, :]


# ------------------------------------------------------------------ comparison
DELTA = 1e-11


def _change(o, o2, ms, ps):
    """Largest change between two runs of a reference, relative to the sizes."""
    worst = 0.0
    ks = max(1.0, float(np.abs(o["K"]).max(initial=0.0))) if "K" in o else 1.0
    for k, s in (("fm", ms), ("fP", ps), ("sm", ms), ("sP", ps), ("K", ks)):
        if k in o and k in o2:
            d = np.abs(o[k] - o2[k]).max(initial=0.0) / s
            worst = max(worst, d if np.isfinite(d) else np.inf)
    return worst


def inflation(c, run, o, ms, ps):
    """How much looser than usual a comparison has to be, because the problem itself amplifies
    rounding: the reference is run again on data changed by about 1e-11 of their size."""
    T = len(c["Z"])
    sign = np.where(np.arange(997) * 7919 % 13 < 6, 1.0, -1.0)

    def s(*shape):
        return np.resize(sign, shape)

    n = len(c["x0"])
    eye = np.eye(n)
    d = dict(c, x0=c["x0"] + DELTA * ms * s(n), P0=c["P0"] + DELTA * ps * eye,
             Q=c["Q"] + DELTA * ps * eye, Z=c["Z"] + DELTA * ms * s(*c["Z"].shape))
    if "A" in c:
        d["A"] = c["A"] * (1.0 + DELTA * s(*c["A"].shape))
        d["H"] = c["H"] * (1.0 + DELTA * s(*c["H"].shape))
    else:
        d["F"] = c["F"] * (1.0 + DELTA * s(n, n))
        d["c0"] = c["c0"] + DELTA * ms * s(n)
    amp = _change(o, run(d), ms, ps) / DELTA
    if not amp < 1e9:
        return 1e30          # chaotic: nothing can be compared
    return max(1.0, amp * 1e-6, 20 * rounding(c, o, ms, ps) / RTOL)


def rounding(c, o, ms, ps):
    """How far a run of the textbook equations with explicit inverses is from the reference."""
    if "fns" in c or "pP" not in o:
        return 0.0
    with np.errstate(all="ignore"):
        try:
            return _change(o, oracle.textbook(c, "sm" in o), ms, ps)
        except np.linalg.LinAlgError:
            return 0.0


def pinv_loss(c, o, ms, ps):
    """The same of gains by pseudo-inverse or least squares, which see a linear case's units."""
    s, D, E = gen.in_units(c)
    worst = 0.0
    for gain in (lambda P, H, S: P @ H.T @ np.linalg.pinv(S),
                 lambda P, H, S: P @ (H.T @ np.linalg.pinv(S)),
                 lambda P, H, S: np.linalg.lstsq(S, H @ P, rcond=None)[0].T):
        with np.errstate(all="ignore"):
            try:
                t = oracle.textbook(s, "sm" in o, gain=gain)
            except np.linalg.LinAlgError:
                continue
        for k in ("fm", "sm"):
            if k in t:
                t[k] = t[k] / D
        for k in ("fP", "sP"):
            if k in t:
                t[k] = t[k] / D[:, None] / D
        t["K"] = t["K"] * E / D[:, None]
        worst = max(worst, _change(o, t, ms, ps))
    return worst


class Sizes(tuple):
    """(size of means, size of covariances), both times ``looser``."""

    def __new__(cls, ms, ps, f):
        self = super().__new__(cls, (ms * f, ps * f))
        self.looser = f
        return self


def scales(c, o):
    """Absolute sizes against which means and covariances are compared."""
    parts = [o["fm"], c["x0"]]
    if "pm" in o:
        parts.append(o["pm"])
    if "mu" in o:
        parts.append(o["mu"])
    ms = max(1.0, float(np.abs(c["Z"]).max(initial=0.0)),
             max(float(np.abs(a).max(initial=0.0)) for a in parts))
    pr = o["pP"] if "pP" in o else o["prior"]
    ps = max(1e-6, float(np.abs(pr).max(initial=0.0)), float(np.abs(c["P0"]).max(initial=0.0)))
    smooth = "sm" in o
    base = o if "K" in o else oracle.sequential(c, smooth)
    f = inflation(c, lambda d: oracle.sequential(d, smooth), base, ms, ps)
    return Sizes(ms, ps, f)


def ekf_scales(c, o):
    ms = max(1.0, float(np.abs(o["pm"]).max()), float(np.abs(o["fm"]).max()),
             float(np.abs(c["Z"]).max(initial=0)), float(np.abs(c["x0"]).max(initial=0)))
    ps = max(1e-6, float(np.abs(o["pP"]).max()), float(np.abs(c["P0"]).max()))
    smooth = "sm" in o
    f = inflation(c, lambda d: oracle.ekf(d, smooth), o, ms, ps)
    return Sizes(ms, ps, f)


def close(what, got, ref, scale, rtol=RTOL):
    got, ref = np.asarray(got, float), np.asarray(ref, float)
    if got.shape != ref.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {ref.shape}")
    err = np.abs(got - ref)
    if not np.isfinite(err).all() or (err.size and err.max() > rtol * scale):
        idx = np.unravel_index(int(np.nanargmax(np.where(np.isfinite(err), err, np.inf))),
                               err.shape)
        raise Violation(
            f"{what}: at index {tuple(int(i) for i in idx)} got {got[idx]!r}, expected {ref[idx]!r} "
            f"(allowed error {rtol * scale:.3g})")
    return float(err.max() / scale) if err.size else 0.0


def close_pair(what, got, ref, sc, rtol=RTOL):
    a = close(what + " estimates", got[0], ref[0], sc[0], rtol)
    b = close(what + " covariances", got[1], ref[1], sc[1], rtol)
    return max(a, b)


# ------------------------------------------------------------------ extended filter
class Fns:
    """f, h and their Jacobians for a nonlinear case, in the case's units.

    Keeps copies of what it returned and of the arguments it saw, so that a harness can tell
    whether the code under test modified either.
    """

    def __init__(self, c, flat=False):
        dx, dz, g = c["units"]
        self.c = c
        self.D = np.ldexp(1.0, np.array(dx, dtype=int) + g)
        self.E = np.ldexp(1.0, np.array(dz, dtype=int) + g)
        self.n, self.m = len(self.D), len(self.E)
        self.flat = flat and self.m == 1
        self.calls = []
        self.fail_at, self.stop = None, False
        self.hook_at = self.hook = self.each = None
        self.count = 0
        self.kept = []

    def _tick(self, name, x):
        self.count += 1
        if self.fail_at is not None and self.count == self.fail_at:
            raise (Stop if self.stop else Boom)(name)
        if self.each is not None:
            self.each()
        if self.hook is not None and self.count == self.hook_at:
            self.hook()
        if np.shape(x) != (self.n,):
            raise Violation(f"{name} was called with a state of shape {np.shape(x)}, "
                            f"expected {(self.n,)}")
        return np.array(x, dtype=float) / self.D

    def _u(self, u):
        if self.c["D"] is None or u is None:
            return None
        u = np.asarray(u, dtype=float)
        if np.isnan(u).all():
            return None
        return u

    def _ret(self, a):
        a = np.asarray(a, dtype=float)
        kind = self.c["ret"]
        if kind == "fortran":
            a = np.asfortranarray(a)
        elif kind == "readonly":
            a = a.copy()
            a.setflags(write=False)
        self.kept.append((a, a.copy()))
        return a

    def f(self, xk, uk):
        x = self._tick("f", xk)
        self.calls.append(("f", x))
        return self._ret(oracle.f_val(self.c, x, self._u(uk)) * self.D)

    def jacobian_A(self, xk, uk):
        x = self._tick("jacobian_A", xk)
        self.calls.append(("jacobian_A", x))
        return self._ret(oracle.f_jac(self.c, x, self._u(uk)) * self.D[:, None] / self.D[None, :])

    def h(self, xk):
        x = self._tick("h", xk)
        self.calls.append(("h", x))
        v = oracle.h_val(self.c, x) * self.E
        if self.flat and self.c["scalar_h"]:
            return float(v[0])
        return self._ret(v)

    def jacobian_H(self, xk):
        x = self._tick("jacobian_H", xk)
        self.calls.append(("jacobian_H", x))
        return self._ret(oracle.h_jac(self.c, x) * self.E[:, None] / self.D[None, :])

    def check_untouched(self):
        for a, b in self.kept:
            if not np.array_equal(a, b, equal_nan=True):
                raise Violation("a value returned by a user function was modified in place")


class Boom(Exception):
    """Raised by a user function on purpose."""


class Stop(KeyboardInterrupt):
    """The user interrupting a run while one of his functions is at work."""


def ekf_args(c, fns, flatR=False, spare=0):
    D, E = fns.D, fns.E
    kw = {
        "xk": c["x0"] * D, "Pk": c["P0"] * D[:, None] * D[None, :],
        "Q": c["Q"] * D[:, None] * D[None, :], "R": c["R"] * E[:, None] * E[None, :],
        "f": fns.f, "h": fns.h, "jacobian_A": fns.jacobian_A, "jacobian_H": fns.jacobian_H,
    }
    Z = c["Z"] * E
    kw["Q"], kw["R"] = gen.spared(kw["Q"], spare), gen.spared(kw["R"], spare)
    if fns.flat:
        Z = Z.reshape(len(Z))
        if flatR:
            kw["R"] = kw["R"].reshape(-1)
    U = None if c["U"] is None else c["U"].copy()
    return kw, Z, U


def ekf_run(which, ek, Z, U, n, kwargs=True):
    fn = getattr(ek, which)
    what = f"ExtendedKalmanFilter.{which}"
    if kwargs:
        res = call(what, fn, Z=Z, U=U)
    elif U is None:
        res = call(what, fn, Z)
    else:
        res = call(what, fn, Z, U)
    return pair(what, res, (len(Z), n), (len(Z), n, n))


def run_ekf(c, which="filter", style=gen.PLAIN, fns_out=None, ek_out=None):
    fns = Fns(c, flat=style["flatZ"])
    kw, Z, U = ekf_args(c, fns, style["flatR"], style.get("spare", 0))
    ek = call("ExtendedKalmanFilter(...)", ExtendedKalmanFilter, **kw)
    x, P = ekf_run(which, ek, Z, U, fns.n, style["kw"])
    fns.check_untouched()
    if fns_out is not None:
        fns_out.append(fns)
    if ek_out is not None:
        ek_out.append(ek)
    return x / fns.D, P / fns.D[:, None] / fns.D[None, :]
