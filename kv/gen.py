"""Hypothesis strategies producing Kalman problems as plain cases.

Numbers are drawn as byte strings (one Hypothesis choice per array) and decoded zig-zag, so
generation is cheap and shrinking drives every entry to 0.
"""
import ast
import glob
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from .core import REPO


# ------------------------------------------------------------------ numbers to try
def literals():
    """The numbers in the code under test: as in a fuzzer's dictionary, inputs at and around them
    are tried more often. What is right never depends on them."""
    found = set()
    for f in sorted(glob.glob(os.path.join(REPO, "src", "kalmankit", "*.py"))):
        if f.endswith("_version.py"):
            continue
        try:
            with open(f) as fh, warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError, ValueError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, (ast.Constant, ast.BinOp, ast.UnaryOp)):
                try:
                    v = fold(node)
                except (TypeError, ValueError, ArithmeticError):
                    continue
                if v is not None and np.isfinite(v) and v not in (0, 1):
                    found.add(abs(float(v)))
    return sorted(found)[:200]


def fold(node):
    """The value of an expression of numbers only."""
    if isinstance(node, ast.Constant):
        v = node.value
        return float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else None
    if isinstance(node, ast.UnaryOp):
        v = fold(node.operand)
        return v if v is None or not isinstance(node.op, ast.USub) else -v
    if isinstance(node, ast.BinOp):
        a, b = fold(node.left), fold(node.right)
        if a is None or b is None:
            return None
        if isinstance(node.op, ast.Pow):
            return a ** b if abs(b) < 400 and a > 0 else None
        if isinstance(node.op, ast.LShift):
            return a * 2.0 ** b if abs(b) < 400 else None
        for kind, f in ((ast.Add, lambda: a + b), (ast.Sub, lambda: a - b),
                        (ast.Mult, lambda: a * b), (ast.Div, lambda: a / b)):
            if isinstance(node.op, kind):
                return f()
    return None


LITERALS = literals()
# values that stand for "no reading" in many a data set, and ends of number types
MAGIC = sorted({-1.0, 99.0, -99.0, 999.0, -999.0, 9999.0, -9999.0, 127.0, 128.0, 255.0, 256.0, 4095.0,
                32767.0, -32768.0, 65535.0, 65536.0, 1e-8, 1e-12, 1e9, 1e10, 2.0 ** 31, 100.0, 1000.0,
                3.141592653589793, 6.283185307179586, 180.0, 360.0, 0.5}
               | {v for v in LITERALS if 1e-15 < v < 1e10})
MENTIONED = [s * v for v in LITERALS if 1e-15 < v < 1e10 for s in (1.0, -1.0)]


def notable(draw):
    """A particular value; often one that the code under test mentions."""
    if MENTIONED and draw(st.booleans()):
        return draw(st.sampled_from(MENTIONED))
    return draw(st.sampled_from(MAGIC))


def length(draw, lo, hi):
    """A record length; often one that the code under test mentions."""
    near = sorted({int(v) + d for v in LITERALS for d in (0, 1, 2) if lo <= v <= hi - 2})
    if near and draw(st.booleans()):
        return draw(st.sampled_from(near))
    return draw(st.integers(lo, hi))


def exps(usual):
    """Exponents of units; also those that bring values or variances to what the code mentions."""
    near = {int(round(np.log2(v) / k)) + d for v in LITERALS
            if v < 1e-4 or v > 1e4 for k in (1, 2, -2) for d in (-3, 3)}
    return list(usual) + sorted(e for e in near if abs(e) < 330)


# ------------------------------------------------------------------ raw numbers
GROWN = []      # while a grown case is drawn: the generator its numbers come from


def raw(draw, n):
    """n bytes: Hypothesis choices, or those of the seed of a grown case."""
    if GROWN:
        return GROWN[-1].bytes(n)
    return draw(st.binary(min_size=n, max_size=n))


@st.composite
def grown(draw, base):
    """Cases of any strategy here, with more components and all numbers drawn through a seed."""
    GROWN.append(np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1))))
    try:
        return draw(base)
    finally:
        GROWN.pop()


def a_size(draw, usual, big):
    return draw(st.sampled_from(big if GROWN else usual))


def steps(draw, lo, hi):
    return draw(st.integers(lo, max(lo, min(hi, 4)) if GROWN else hi))


def controls_n(draw):
    return draw(st.sampled_from([1, 2, 3, 8, 9, 13, 17]) if GROWN else st.integers(1, 3))


def fine(draw, *shape):
    """Dense values in (-1, 1), almost none of them representable in single precision."""
    n = int(np.prod(shape))
    if n == 0:
        return np.zeros(shape)
    b = raw(draw, 2 * n)
    u = np.frombuffer(b, dtype=">u2").astype(np.int64)
    v = np.where(u % 2 == 0, u // 2, -(u // 2) - 1)
    return (v / 32769.0).reshape(shape)


def coarse(draw, *shape, top=4):
    """Small integers in -top..top (many zeros and ones), as floats."""
    n = int(np.prod(shape))
    if n == 0:
        return np.zeros(shape)
    b = raw(draw, n)
    u = np.frombuffer(b, dtype=np.uint8).astype(np.int64) % (2 * top + 1)
    v = np.where(u % 2 == 0, u // 2, -(u // 2) - 1)
    return v.astype(float).reshape(shape)


def mixed(draw, *shape):
    """Either dense values in (-1,1) or a coarse grid in [-1,1]."""
    if draw(st.booleans()):
        return coarse(draw, *shape) / 4.0
    return fine(draw, *shape)


def spd(L, floor):
    n = L.shape[-1]
    return L @ np.swapaxes(L, -1, -2) + floor * np.eye(n)


def over_time(draw, T, make, modes=("const", "const", "vary", "vary", "switch", "switch", "drift")):
    """A (T, ...) sequence that is constant, free, nearly constant, or switches once / periodically."""
    mode = draw(st.sampled_from(modes))
    if mode == "const" or T == 1:
        return np.repeat(make(1), T, axis=0)
    if mode == "drift":
        step = draw(st.sampled_from([2.0 ** -10, 2.0 ** -18]))
        one = make(1)
        return one * (1.0 + step * fine(draw, T).reshape((T,) + (1,) * (one.ndim - 1)))
    if mode == "vary":
        return make(T)
    two = make(2)
    if draw(st.booleans()):
        at = draw(st.integers(1, T - 1))
        return np.stack([two[0] if k < at else two[1] for k in range(T)])
    return np.stack([two[k % 2] for k in range(T)])


def now_and_then(draw, a, b):
    """``a`` at some of the steps, ``b`` at the others."""
    at = np.array(draw(st.lists(st.booleans(), min_size=len(a), max_size=len(a))))
    return np.where(at.reshape((-1,) + (1,) * (a.ndim - 1)), a, b)


# ------------------------------------------------------------------ linear models
def transition(draw, n):
    kind = draw(st.sampled_from(
        ["near_id", "near_id", "generic", "generic", "id", "rot", "chain", "perm", "diag",
         "zero", "nilpotent", "barely"]))
    slight = draw(st.sampled_from([2.0 ** -8, 2.0 ** -13, 2.0 ** -17, 2.0 ** -20]))

    def make(k):
        if kind == "id":
            return np.repeat(np.eye(n)[None], k, 0)
        if kind == "zero":
            return np.zeros((k, n, n))
        if kind == "near_id":
            return np.eye(n) + 0.5 * mixed(draw, k, n, n) / np.sqrt(n)
        if kind == "barely":
            # so slow that a single step hardly shows it
            return np.eye(n) + slight * mixed(draw, k, n, n)
        if kind == "generic":
            return 1.25 * mixed(draw, k, n, n) / np.sqrt(n)
        if kind == "diag":
            return np.stack([np.diag(1.2 * v) for v in mixed(draw, k, n)])
        if kind == "perm":
            p = draw(st.permutations(range(n)))
            s = np.sign(coarse(draw, n) + 0.5)
            return np.repeat((np.eye(n)[list(p)] * s)[None], k, 0)
        if kind == "chain":
            return np.stack([np.eye(n) + 0.5 * t * np.eye(n, k=1)
                             for t in 1.0 + 0.5 * fine(draw, k)])
        if kind == "nilpotent":
            return np.repeat(np.eye(n, k=1)[None], k, 0)
        th = np.pi * fine(draw, k)
        out = np.repeat(np.eye(n)[None], k, 0)
        if n >= 2:
            i = draw(st.integers(0, n - 2))
            c, s = np.cos(th), np.sin(th)
            out[:, i, i], out[:, i, i + 1], out[:, i + 1, i], out[:, i + 1, i + 1] = c, -s, s, c
        else:
            out[:, 0, 0] = np.cos(th)
        return out

    return make, kind


def cov_maker(draw, n, kinds, floor):
    kind = draw(st.sampled_from(kinds))

    def make(k):
        if kind == "zero":
            return np.zeros((k, n, n))
        if kind == "iso":
            return (0.05 + np.abs(fine(draw, k)))[:, None, None] * np.eye(n)
        if kind == "diag":
            return np.stack([np.diag(floor + np.abs(v)) for v in mixed(draw, k, n)])
        if kind == "rank1":
            v = mixed(draw, k, n)
            return v[:, :, None] * v[:, None, :]
        if kind == "semidiag":
            return np.stack([np.diag(np.maximum(v, 0.0)) for v in mixed(draw, k, n)])
        L = mixed(draw, k, n, n)
        if kind == "big":
            return 10.0 * spd(L, floor)
        if kind == "small":
            return 0.02 * spd(L, floor)
        return spd(L, floor)

    return make, kind


SIZES_N = [1, 1, 2, 2, 2, 3, 3, 4, 5]
SIZES_M = [1, 1, 1, 2, 2, 3, 4]
GROWN_N = [1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19]
GROWN_M = [1, 2, 6, 7, 8, 9, 11, 13, 16, 17, 18]
WIDE = {"ns": [1, 2, 6, 7, 8, 9, 10, 12], "ms": [1, 2, 5, 6, 7, 8, 10], "Tmax": 3}


@st.composite
def linear(draw, smooth=False, controls=True, Tmin=1, Tmax=9, nmax=5, mmax=4, data="any",
           nan_controls=False, units=True, ns=None, ms=None):
    """A standard Kalman problem.

    Keys: A (T,n,n), H (T,m,n), B (T,n,p)|None, U (T,p)|None, Q, R, x0, P0, Z (T,m) and
    ``units`` = power-of-two exponents of the presentation (state, observation, control, cov).
    """
    n = a_size(draw, ns or [s for s in SIZES_N if s <= nmax], GROWN_N)
    m = a_size(draw, ms or [s for s in SIZES_M if s <= mmax], GROWN_M)
    T = steps(draw, Tmin, Tmax)
    sing_q = draw(st.booleans()) and draw(st.booleans())
    if smooth and sing_q:
        # singular Q is only smoothable when A is well conditioned: I + small
        A = over_time(draw, T, lambda k: np.eye(n) + 0.3 * mixed(draw, k, n, n) / n)
        mk, qk = cov_maker(draw, n, ["zero", "rank1", "semidiag"], 0.0)
        Q = over_time(draw, T, mk)
        if draw(st.booleans()):
            # noise in some of the steps only
            Q = now_and_then(draw, Q, over_time(draw, T, cov_maker(draw, n, ["full", "diag"], 0.1)[0]))
        mkp, pk = cov_maker(draw, n, ["full", "diag", "iso"], 0.3)
        akind = "near_id"
    else:
        mka, akind = transition(draw, n)
        A = over_time(draw, T, mka)
        if smooth:
            mk, qk = cov_maker(draw, n, ["full", "full", "diag", "iso", "big"], 0.1)
        else:
            mk, qk = cov_maker(
                draw, n, ["full", "full", "diag", "iso", "rank1", "zero", "semidiag", "small",
                          "big"], 0.05)
        Q = over_time(draw, T, mk)
        if smooth and draw(st.booleans()):
            Q = Q.copy()
            Q[0] = 0.0          # the first entry only enters the first prior
        mkp, pk = cov_maker(
            draw, n, ["full", "full", "diag", "iso", "zero", "rank1", "big", "small"], 0.05)
    P0 = mkp(1)[0]
    hk = draw(st.sampled_from(["generic", "generic", "select", "sparse"]))
    if hk == "select":
        def mkh(k):
            rows = draw(st.lists(st.integers(0, n - 1), min_size=m, max_size=m))
            return np.repeat(np.eye(n)[rows][None], k, 0)
    elif hk == "sparse":
        def mkh(k):
            return coarse(draw, k, m, n, top=1)
    else:
        def mkh(k):
            return 1.5 * mixed(draw, k, m, n)
    H = over_time(draw, T, mkh)
    mkr, rk = cov_maker(draw, m, ["full", "full", "diag", "iso", "big", "small"], 0.05)
    R = over_time(draw, T, mkr)
    zs = draw(st.sampled_from([1.0, 4.0, 100.0]))
    zmode = draw(st.sampled_from(["fine", "fine", "int", "zero", "repeat", "creep", "somezero",
                                  "spike", "magic"]))
    if zmode == "int":
        Z = coarse(draw, T, m, top=6)
    elif zmode == "zero":
        Z = np.zeros((T, m))
    elif zmode == "repeat":
        Z = np.repeat(zs * fine(draw, 1, m), T, 0)
    elif zmode == "creep":
        # nearly repeated readings
        Z = zs * (fine(draw, 1, m) + draw(st.sampled_from([2.0 ** -8, 2.0 ** -17]))
                  * fine(draw, T, m))
    else:
        Z = zs * fine(draw, T, m)
        if zmode == "somezero":
            Z[coarse(draw, T) > 1] = 0.0
        if zmode == "magic":
            Z = magic(draw, Z)
        if zmode == "spike":
            # one gross outlier
            Z[draw(st.integers(0, T - 1)), draw(st.integers(0, m - 1))] = \
                draw(st.sampled_from([-1.0, 1.0])) * 2.0 ** draw(st.integers(3, 30))
    x0 = draw(st.sampled_from([0.0, 1.0, 4.0])) * mixed(draw, n)
    B = U = None
    if controls:
        ck = draw(st.sampled_from(["both", "both", "none", "B", "U"]))
        p = controls_n(draw)
        if ck in ("both", "B"):
            B = over_time(draw, T, lambda k: 1.5 * mixed(draw, k, n, p))
        if ck in ("both", "U"):
            U = 2.0 * mixed(draw, T, p)
        if nan_controls and draw(st.booleans()):
            nanrow = coarse(draw, T, top=2)
            if U is not None:
                U = U.copy()
                U[nanrow > 0] = np.nan
            nanb = coarse(draw, T, top=3)
            if B is not None:
                B = B.copy()
                B[nanb > 2] = np.nan
    case = {"A": A, "H": H, "B": B, "U": U, "Q": Q, "R": R, "x0": x0, "P0": P0, "Z": Z,
            "kinds": [akind, qk, pk, hk, rk, zmode]}
    if zmode == "magic" and draw(st.booleans()):
        # ... of the state or the control, too
        if U is not None and draw(st.booleans()):
            case["U"] = np.where(np.isnan(U), np.nan, magic(draw, U))
        else:
            case["x0"] = magic(draw, x0[None])[0]
    plain = not units or zmode == "magic" and draw(st.booleans())
    case["units"] = [[0] * n, [0] * m, 0] if plain else draw(unit_exps(n, m))
    return case


@st.composite
def settled(draw):
    """Long enough for the covariance to settle to the last bit, while what does not show in it (the
    signs of transition and observation, the control matrix) goes on changing."""
    c = draw(linear(smooth=True, Tmin=1, Tmax=1, nmax=2, mmax=2, data="any"))
    T = draw(st.integers(40, 120))
    how = {k: draw(st.sampled_from(["const", "switch", "periodic", "free"])) for k in "AHB"}
    seed = draw(st.integers(0, 2 ** 32 - 1))
    rng = np.random.default_rng(seed)
    d = dict(c)
    norm = max(1.0, float(np.linalg.norm(c["A"][0], 2)))
    d["A"] = c["A"] * (draw(st.sampled_from([0.3, 0.6, 0.9])) / norm)
    d["Q"] = c["Q"] + 1e-2 * np.eye(len(c["x0"]))
    at, per = draw(st.integers(T // 2, T - 1)), draw(st.integers(1, 5))
    k = np.arange(T)
    for key in "AHQRB":
        if d[key] is None:
            continue
        sign = {"const": 1.0 + 0 * k, "switch": np.where(k < at, 1.0, -1.0),
                "periodic": np.where(k // per % 2, -1.0, 1.0),
                "free": rng.choice([-1.0, 1.0], T)}[how.get(key, "const")]
        d[key] = d[key] * sign[:, None, None]
    d["Z"] = 3.0 * rng.normal(size=(T, c["Z"].shape[1]))
    if c["U"] is not None:
        d["U"] = rng.normal(size=(T, c["U"].shape[1]))
    return d


def magic(draw, Z):
    """One row or one entry, or the whole record, of a particular value."""
    v = notable(draw)
    at = draw(st.integers(0, len(Z) - 1))
    how = draw(st.sampled_from(["row", "entry", "all", "rest"]))
    Z = Z.copy()
    if how == "entry":
        Z[at, draw(st.integers(0, Z.shape[1] - 1))] = v
    else:
        Z[{"row": slice(at, at + 1), "all": slice(None), "rest": slice(at, None)}[how]] = v
    return Z


@st.composite
def unit_exps(draw, n, m, far=()):
    """Exponents (base 2) of the units: per-state, per-observation, and a common one."""
    if draw(st.booleans()):
        return [[0] * n, [0] * m, 0]
    g = draw(st.sampled_from(exps([0, 0, 0, -12, 12, -25, 25, -40, 40, *far])))
    if draw(st.booleans()):
        return [[0] * n, [0] * m, g]
    return [draw(st.lists(st.integers(-4, 4), min_size=n, max_size=n)),
            draw(st.lists(st.integers(-4, 4), min_size=m, max_size=m)), g]


def dims(c):
    T, m, n = c["H"].shape
    p = None
    if c["B"] is not None:
        p = c["B"].shape[2]
    elif c["U"] is not None:
        p = c["U"].shape[1]
    return T, n, m, p


def in_units(c):
    """The same problem with the state and the observations measured in other units."""
    dx, dz, g = c["units"]
    D = np.ldexp(1.0, np.array(dx, dtype=int) + g)
    E = np.ldexp(1.0, np.array(dz, dtype=int) + g)
    o = dict(c)
    o["A"] = c["A"] * D[:, None] / D[None, :]
    o["H"] = c["H"] * E[:, None] / D[None, :]
    o["Q"] = c["Q"] * D[:, None] * D[None, :]
    o["R"] = c["R"] * E[:, None] * E[None, :]
    o["P0"] = c["P0"] * D[:, None] * D[None, :]
    o["x0"] = c["x0"] * D
    o["Z"] = c["Z"] * E
    if c["B"] is not None:
        o["B"] = c["B"] * D[:, None]
    o["units"] = [[0] * len(dx), [0] * len(dz), 0]
    return o, D, E


def _walk(rng, T, make, how):
    """A sequence over time: constant, or every entry its own, or two in turn."""
    if how == 0:
        return np.repeat(make(1), T, 0)
    if how == 1:
        return make(T)
    two = make(2)
    return two[np.arange(T) % 2]


BROAD_N = [13, 16, 17, 20, 24, 31, 32, 33, 40, 48, 64, 65]
BROAD_M = [1, 2, 3, 5, 11, 13, 16, 17, 24, 32, 33, 40, 64, 65]


@st.composite
def broad_dims(draw, Tmax):
    """Sizes of which at least one is beyond those of the other generators."""
    n = draw(st.sampled_from(BROAD_N + [1, 2, 3, 4, 6]
                             + [int(v) + 1 for v in LITERALS if 12 < v < 80]))
    m = draw(st.sampled_from(BROAD_M if n > 12 else BROAD_M[5:]))
    return n, m, draw(st.sampled_from([1, 2, 4, 9, 16, 33])), draw(st.integers(1, Tmax))


@st.composite
def broad(draw, Tmax=4):
    """Linear problems with tens of components, drawn through a seed; as ``linear``."""
    n, m, p, T = draw(broad_dims(Tmax))
    how = [draw(st.integers(0, 2)) for _ in range(5)]
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))

    def cov(k, size, floor):
        L = rng.uniform(-1, 1, (k, size, size)) / np.sqrt(size)
        return L @ L.transpose(0, 2, 1) + floor * np.eye(size)

    c = {"A": _walk(rng, T, lambda k: rng.uniform(-1.7, 1.7, (k, n, n)) / np.sqrt(n), how[0]),
         "H": _walk(rng, T, lambda k: rng.uniform(-2, 2, (k, m, n)) / np.sqrt(n), how[1]),
         "Q": _walk(rng, T, lambda k: cov(k, n, 0.1), how[2]),
         "R": _walk(rng, T, lambda k: cov(k, m, 0.1), how[3]),
         "P0": cov(1, n, 0.1)[0], "x0": rng.normal(size=n), "Z": 2 * rng.normal(size=(T, m)),
         "B": None, "U": None, "units": [[0] * n, [0] * m, 0],
         "kinds": ["broad", "broad", "broad", "generic", "broad", "broad"]}
    if draw(st.booleans()):
        c["B"] = _walk(rng, T, lambda k: rng.uniform(-1.5, 1.5, (k, n, p)), how[4])
        c["U"] = rng.normal(size=(T, p))
    return c


@st.composite
def broad_nonlinear(draw, Tmax=3):
    """Nonlinear problems with tens of components; as ``nonlinear``."""
    n, m, p, T = draw(broad_dims(Tmax))
    c = draw(nonlinear(Tmin=1, Tmax=1, nmax=1, mmax=1, units=False))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    q = draw(st.integers(1, 12))

    def u(*shape):
        return rng.uniform(-1, 1, shape)

    def cov(k, size, floor):
        L = u(k, size, size) / np.sqrt(size)
        return L @ L.transpose(0, 2, 1) + floor * np.eye(size)

    c.pop("h0", None)
    c.update(F=0.8 * u(n, n) / np.sqrt(n), G=0.5 * u(n, q), C=u(q, n) / np.sqrt(n),
             H=u(m, n) / np.sqrt(n), J=u(m, q), K=u(q, n) / np.sqrt(n), c0=0.5 * u(n),
             Q=_walk(rng, T, lambda k: cov(k, n, 0.1), draw(st.integers(0, 2))),
             R=_walk(rng, T, lambda k: cov(k, m, 0.1), draw(st.integers(0, 2))),
             P0=cov(1, n, 0.1)[0], x0=u(n), Z=2 * u(T, m), units=[[0] * n, [0] * m, 0])
    if c["D"] is not None:
        c.update(D=u(n, p) / np.sqrt(p), U=u(T, p), E=0.4 * u(n, n) / np.sqrt(n))
    return c


# ------------------------------------------------------------------ presentation style
@st.composite
def style(draw):
    return {
        "flatZ": draw(st.booleans()), "flatR": draw(st.booleans()),
        "flatQ": draw(st.booleans()), "col1": draw(st.booleans()),
        "size": draw(st.booleans()), "kw": draw(st.booleans()),
        "spare": draw(st.sampled_from([0, 0, 0, 1, 3])),
    }


def spared(a, k):
    """A sequence with k more entries than there are observations, none of which counts."""
    if a is None or not k:
        return a
    return np.concatenate([a, np.repeat(3.0 * a[-1:] + 1.0, k, 0)])


PLAIN = {"flatZ": False, "flatR": False, "flatQ": False, "col1": False, "size": False,
         "kw": True}


# ------------------------------------------------------------------ nonlinear models
PHI = {
    "sin": (np.sin, np.cos),
    "tanh": (np.tanh, lambda t: 1.0 - np.tanh(t) ** 2),
    "rat": (lambda t: t / (1 + t * t), lambda t: (1 - t * t) / (1 + t * t) ** 2),
    "bump": (lambda t: np.exp(-t * t), lambda t: -2 * t * np.exp(-t * t)),
    "soft": (lambda t: np.sqrt(1 + t * t) - 1, lambda t: t / np.sqrt(1 + t * t)),
}


@st.composite
def nonlinear(draw, Tmin=1, Tmax=7, smooth=True, nmax=4, mmax=3, units=True, linear_only=False,
              controls="any", ns=None, ms=None, noiseless=False):
    """An extended-filter problem: f = Fx + G phi(Cx) + Du + u0*(Ex), h = Hx + J psi(Kx)."""
    n = a_size(draw, ns or [s for s in SIZES_N if s <= nmax], GROWN_N)
    m = a_size(draw, ms or [s for s in SIZES_M if s <= mmax], GROWN_M)
    T = steps(draw, Tmin, Tmax)
    q = draw(st.integers(1, 2))
    fkind = draw(st.sampled_from(["near_id", "generic", "id", "zero"]))
    F = {"near_id": lambda: np.eye(n) + 0.3 * mixed(draw, n, n) / np.sqrt(n),
         "generic": lambda: mixed(draw, n, n) / np.sqrt(n),
         "id": lambda: np.eye(n), "zero": lambda: np.zeros((n, n))}[fkind]()
    c = {
        "F": F, "G": 0.5 * mixed(draw, n, q), "C": 1.0 * mixed(draw, q, n),
        "phi": draw(st.sampled_from(sorted(PHI))),
        "H": mixed(draw, m, n), "J": mixed(draw, m, q), "K": 1.0 * mixed(draw, q, n),
        "psi": draw(st.sampled_from(sorted(PHI))),
        "c0": 0.5 * mixed(draw, n),
    }
    if linear_only:
        c["G"] = np.zeros((n, q))
        c["J"] = np.zeros((m, q))
    uk = (draw(st.sampled_from(["none", "add", "bilinear", "bilinear"])) if controls == "any"
          else controls)
    p = controls_n(draw)
    c["D"] = c["E"] = c["U"] = None
    if uk != "none":
        c["D"] = mixed(draw, n, p)
        c["U"] = mixed(draw, T, p)
        c["E"] = 0.4 * mixed(draw, n, n) / np.sqrt(n) if uk == "bilinear" else np.zeros((n, n))
    if draw(st.booleans()):
        c["h0"] = mixed(draw, m)
    if not draw(st.integers(0, 3)):
        c["J"] = np.zeros_like(c["J"])
    mk, qk = cov_maker(draw, n, ["full", "diag", "iso"], 0.1)
    c["Q"] = over_time(draw, T, mk)
    if draw(st.booleans()):
        c["Q"] = c["Q"].copy()
        c["Q"][0] = 0.0
    if noiseless and fkind != "zero" and not draw(st.integers(0, 4)):
        c["Q"] = now_and_then(draw, c["Q"], over_time(
            draw, T, cov_maker(draw, n, ["zero", "zero", "rank1", "semidiag"], 0.0)[0]))
    mkr, rk = cov_maker(draw, m, ["full", "full", "diag", "iso"], 0.05)
    c["R"] = over_time(draw, T, mkr)
    mkp, pk = cov_maker(draw, n, ["full", "diag", "iso", "zero", "small"], 0.05)
    c["P0"] = mkp(1)[0]
    c["x0"] = 2.0 * mixed(draw, n)
    c["Z"] = 2.0 * mixed(draw, T, m)
    if not draw(st.integers(0, 9)):
        # of a linear model: a nonlinear one thrown that far from its readings is chaotic
        c["Z"] = magic(draw, c["Z"])
        c["G"], c["J"] = np.zeros_like(c["G"]), np.zeros_like(c["J"])
    elif not draw(st.integers(0, 7)):
        # through the origin, exactly: the first prediction is zero, and agrees with the reading
        u = None if c["U"] is None else c["U"][0]
        c["c0"] = np.zeros(n)
        v = c["F"] @ c["x0"] + c["G"] @ PHI[c["phi"]][0](c["C"] @ c["x0"])
        if u is None:
            c["c0"] = -v
            c["Z"][0] = c["J"] @ PHI[c["psi"]][0](np.zeros(len(c["K"])))
            if "h0" in c:
                c["Z"][0] += c["h0"]
    c["kinds"] = [fkind, c["phi"], c["psi"], uk, qk, pk, rk]
    c["units"] = draw(unit_exps(n, m)) if units else [[0] * n, [0] * m, 0]
    c["ret"] = draw(st.sampled_from(["fresh", "fortran", "readonly"]))
    c["scalar_h"] = draw(st.booleans())
    return c


# ------------------------------------------------------------------ long records
def tile(a, r):
    """A sequence repeated to r steps."""
    if a is None:
        return None
    if isinstance(a, list):
        return [a[i % len(a)] for i in range(r)]
    return a[np.arange(r) % len(a)]


def stretch(c, r, late="", at=None):
    """A linear case's steps repeated to r steps, its transitions made stable; ``late`` names
    the sequence that changes at step ``at``."""
    o = dict(c)
    for k in ("A", "H", "Q", "R", "Z", "B", "U"):
        o[k] = tile(c[k], r)
    n = len(c["x0"])
    norm = max(1.0, float(np.linalg.norm(c["A"], 2, axis=(1, 2)).max()))
    o["A"] = o["A"] * (0.95 / norm)
    o["Q"] = o["Q"] + 1e-3 * np.eye(n)
    if late and o.get(late) is not None:
        o[late][at:] *= {"A": -0.5, "H": -1.0, "Q": 3.0, "R": 3.0, "B": -2.0, "U": -2.0,
                         "Z": 0.5}[late]
    return o


def stretch_ekf(c, r, late="", at=None):
    """A nonlinear case's steps repeated to r steps, its transition made contracting."""
    o = dict(c)
    o["F"] = 0.6 * c["F"] / max(1.0, np.linalg.norm(c["F"], 2))
    g = np.linalg.norm(c["G"], 2) * np.linalg.norm(c["C"], 2)
    o["G"] = 0.2 * c["G"] / max(1.0, g)
    if c["D"] is not None:
        o["E"] = 0.1 * c["E"] / max(1.0, np.linalg.norm(c["E"], 2))
    for k in ("Q", "R", "Z", "U"):
        o[k] = tile(c[k], r)
    o["Q"] = o["Q"] + 1e-3 * np.eye(len(c["x0"]))
    if late and o.get(late) is not None:
        o[late][at:] *= {"Q": 3.0, "R": 3.0, "U": -1.0, "Z": 0.5}[late]
    return o


@st.composite
def lengthened(draw, base, lo=60, hi=700, far=3000, keys=("c",), tiled=()):
    """A small case together with how to stretch it; see ``long_form``."""
    r = length(draw, lo, hi)
    if draw(st.integers(0, 7)) == 7:
        r = length(draw, hi, far)
    return {"small": draw(base), "reps": r, "late": draw(st.sampled_from(
        ["", "A", "H", "Q", "R", "Z", "U"])), "at": draw(st.integers(1, r - 1)),
        "keys": list(keys), "tiled": list(tiled)}


def long_form(case):
    d = dict(case["small"])
    r, late, at = case["reps"], case["late"], case["at"]
    for k in case["keys"]:
        c = d[k]
        if "F" in c:
            d[k] = stretch_ekf(c, r, late if late in ("Q", "R", "Z", "U") else "", at)
        else:
            d[k] = stretch(c, r, late, at)
    for path in case["tiled"]:
        *up, last = path.split(".")
        box = d
        for u in up:
            box[u] = dict(box[u])
            box = box[u]
        if last in box:
            box[last] = tile(box[last], r)
            if last == "A":     # as in stretch: nothing explodes over hundreds of steps
                norm = max(1.0, float(np.linalg.norm(box[last], 2, axis=(1, 2)).max()))
                box[last] = box[last] * (0.95 / norm)
    if "cut" in d:
        d["cut"] = at
    return d
