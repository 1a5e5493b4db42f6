"""Reference computations, none of them in the filter's own gain/covariance form.

* ``batch``: conditions the joint Gaussian of the whole trajectory (no recursion at all).
* ``sequential``: prediction by moments, correction by generic Gaussian conditioning in
  Joseph form, smoothing by the modified Bryson-Frazier adjoint recursion (no inverse of the
  predicted covariance).
* ``ekf``: builds the affine model the extended filter linearises to, then ``sequential``.
"""
import numpy as np

from .gen import PHI


def control(c, k):
    """Contribution of the control input at step k (None / all-NaN means absent)."""
    n = c["A"].shape[1]
    B, U = c.get("B"), c.get("U")
    if B is None or U is None:
        return np.zeros(n)
    if np.isnan(B[k]).all() or np.isnan(U[k]).all():
        return np.zeros(n)
    return B[k] @ U[k]


def sym(M):
    return (M + np.swapaxes(M, -1, -2)) / 2


def batch(c, smooth=True):
    A, H, Q, R, Z = c["A"], c["H"], c["Q"], c["R"], c["Z"]
    T, m, n = H.shape
    mu = np.zeros((T, n))
    V = np.zeros((T, n, T, n))
    x, P = c["x0"], c["P0"]
    for k in range(T):
        x = A[k] @ x + control(c, k)
        if "off" in c:
            x = x + c["off"][k]
        P = sym(A[k] @ P @ A[k].T + Q[k])
        mu[k] = x
        V[k, :, k] = P
        for j in range(k):
            V[j, :, k] = V[j, :, k - 1] @ A[k].T
            V[k, :, j] = V[j, :, k].T
    Zc = np.stack([Z[k] - H[k] @ mu[k] - (c["hoff"][k] if "hoff" in c else 0.0)
                   for k in range(T)])
    # observation joint
    VH = np.einsum("aibj,bmj->aibm", V, H)           # Cov(x_a, z_b)
    S = np.einsum("aki,aibm->akbm", H, VH)
    for k in range(T):
        S[k, :, k] += R[k]
    Vf = VH.reshape(T, n, T * m)
    Sf = sym(S.reshape(T * m, T * m))
    zf = Zc.reshape(T * m)
    out = {"mu": mu, "prior": V, "fm": np.zeros((T, n)), "fP": np.zeros((T, n, n))}
    for k in range(T):
        d = (k + 1) * m
        W = np.linalg.solve(Sf[:d, :d], Vf[k][:, :d].T).T
        out["fm"][k] = mu[k] + W @ zf[:d]
        out["fP"][k] = V[k, :, k] - W @ Vf[k][:, :d].T
    if smooth:
        W = np.linalg.solve(Sf, Vf.reshape(T * n, T * m).T).T
        sm = mu.reshape(-1) + W @ zf
        out["sm"] = sm.reshape(T, n)
        full = (V.reshape(T * n, T * n) - W @ Vf.reshape(T * n, T * m).T).reshape(T, n, T, n)
        out["sP"] = np.stack([full[k, :, k] for k in range(T)])
    return out


def correct(x, P, H, R, innov):
    """Posterior of N(x,P) after observing Hx+r with innovation ``innov`` (Joseph form)."""
    S = sym(H @ P @ H.T + R)
    K = np.linalg.solve(S, H @ P).T
    C = np.eye(len(x)) - K @ H
    return x + K @ innov, sym(C @ P @ C.T + K @ R @ K.T), K, S


def predict_moments(A, x_next, P, Q):
    return x_next, sym(A @ P @ A.T + Q)


def sequential(c, smooth=True):
    A, H, Q, R, Z = c["A"], c["H"], c["Q"], c["R"], c["Z"]
    T, m, n = H.shape
    x, P = c["x0"], c["P0"]
    o = {k: [] for k in ("pm", "pP", "fm", "fP", "K", "S", "y")}
    for k in range(T):
        xp = A[k] @ x + control(c, k)
        if "off" in c:
            xp = xp + c["off"][k]
        Pp = sym(A[k] @ P @ A[k].T + Q[k])
        y = Z[k] - H[k] @ xp - (c["hoff"][k] if "hoff" in c else 0.0)
        x, P, K, S = correct(xp, Pp, H[k], R[k], y)
        for key, v in zip(("pm", "pP", "fm", "fP", "K", "S", "y"), (xp, Pp, x, P, K, S, y)):
            o[key].append(v)
    o = {k: np.array(v) for k, v in o.items()}
    if smooth:
        o["sm"], o["sP"] = bryson_frazier(A, H, o)
    return o


def bryson_frazier(A, H, o):
    T, m, n = H.shape
    lam, Lam = np.zeros(n), np.zeros((n, n))
    sm, sP = np.zeros((T, n)), np.zeros((T, n, n))
    for k in range(T - 1, -1, -1):
        P = o["fP"][k]
        sm[k] = o["fm"][k] - P @ lam
        sP[k] = P - P @ Lam @ P
        C = np.eye(n) - o["K"][k] @ H[k]
        Si_y = np.linalg.solve(o["S"][k], o["y"][k])
        Si_H = np.linalg.solve(o["S"][k], H[k])
        lt = -H[k].T @ Si_y + C.T @ lam
        Lt = H[k].T @ Si_H + C.T @ Lam @ C
        lam, Lam = A[k].T @ lt, sym(A[k].T @ Lt @ A[k])
    return sm, sP


# ------------------------------------------------------------------ nonlinear
def f_val(c, x, u):
    v = c["F"] @ x + c["G"] @ PHI[c["phi"]][0](c["C"] @ x) + c["c0"]
    if u is not None and c["D"] is not None:
        v = v + c["D"] @ u + u[0] * (c["E"] @ x)
    return v


def f_jac(c, x, u):
    v = c["F"] + (c["G"] * PHI[c["phi"]][1](c["C"] @ x)) @ c["C"]
    if u is not None and c["D"] is not None:
        v = v + u[0] * c["E"]
    return v


def h_val(c, x):
    v = c["H"] @ x + c["J"] @ PHI[c["psi"]][0](c["K"] @ x)
    return v + c["h0"] if "h0" in c else v


def h_jac(c, x):
    return c["H"] + (c["J"] * PHI[c["psi"]][1](c["K"] @ x)) @ c["K"]


def ekf(c, smooth=True):
    """Extended filter/smoother through its affine linearisation."""
    Z, Q, R = c["Z"], c["Q"], c["R"]
    T, n = len(Z), len(c["x0"])
    x, P = c["x0"], c["P0"]
    A, H, off, hoff = [], [], [], []
    args = {"f": [], "h": []}
    for k in range(T):
        u = None if c["U"] is None or np.isnan(c["U"][k]).all() else c["U"][k]
        Fk, fx = f_jac(c, x, u), f_val(c, x, u)
        args["f"].append(x)
        A.append(Fk)
        off.append(fx - Fk @ x)
        xp, Pp = fx, sym(Fk @ P @ Fk.T + Q[k])
        Hk, hx = h_jac(c, xp), h_val(c, xp)
        args["h"].append(xp)
        H.append(Hk)
        hoff.append(hx - Hk @ xp)
        x, P, _, _ = correct(xp, Pp, Hk, R[k], Z[k] - hx)
    lin = {"A": np.array(A), "H": np.array(H), "B": None, "U": None, "Q": Q, "R": R, "Z": Z,
           "x0": c["x0"], "P0": c["P0"], "off": np.array(off), "hoff": np.array(hoff)}
    o = sequential(lin, smooth)
    o["lin"], o["args"] = lin, args
    return o


def textbook(c, smooth=True, inv=np.linalg.inv, gain=None):
    """The equations as printed in textbooks, with explicit inverses: not a reference, but a
    measure of how accurate a correct implementation in double precision has to be."""
    Z, T, eye = c["Z"], len(c["Z"]), np.eye(len(c["x0"]))
    x, P = c["x0"], c["P0"]
    o = {k: [] for k in ("A", "pm", "pP", "fm", "fP", "K")}
    for k in range(T):
        if "F" in c:
            u = None if c["U"] is None or np.isnan(c["U"][k]).all() else c["U"][k]
            A, xp = f_jac(c, x, u), f_val(c, x, u)
            H, z = h_jac(c, xp), h_val(c, xp)
        else:
            A, H = c["A"][k], c["H"][k]
            xp = A @ x + control(c, k) + (c["off"][k] if "off" in c else 0.0)
            z = H @ xp + (c["hoff"][k] if "hoff" in c else 0.0)
        Pp = A @ P @ A.T + c["Q"][k]
        S = H @ Pp @ H.T + c["R"][k]
        K = gain(Pp, H, S) if gain else Pp @ H.T @ inv(S)
        x, P = xp + K @ (Z[k] - z), (eye - K @ H) @ Pp
        for key, v in zip(("A", "pm", "pP", "fm", "fP", "K"), (A, xp, Pp, x, P, K)):
            o[key].append(v)
    o = {k: np.array(v) for k, v in o.items()}
    if smooth:
        o["sm"], o["sP"] = o["fm"].copy(), o["fP"].copy()
        for k in range(T - 2, -1, -1):
            C = o["fP"][k] @ o["A"][k + 1].T @ inv(o["pP"][k + 1])
            o["sm"][k] += C @ (o["sm"][k + 1] - o["pm"][k + 1])
            o["sP"][k] += C @ (o["sP"][k + 1] - o["pP"][k + 1]) @ C.T
    return o


def ahead_cond(c, o):
    """Worst condition number among the predicted covariances a fixed-interval smoother inverts."""
    worst = 1.0
    for P in o["pP"][1:]:
        w = np.linalg.eigvalsh(P)
        if w[-1] <= 0 or w[0] <= 0:
            return np.inf
        worst = max(worst, w[-1] / w[0])
    return worst
