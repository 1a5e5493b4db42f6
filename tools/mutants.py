"""Sensitivity trials: planted edits (bugs and behaviour-preserving refactorings).

python3 tools/mutants.py [-j N] [ID ...]     run the trials in scratch copies of /repo
Each edit is (id, kind, properties, file, [(old, new), ...]); kind "bug" must be caught by a check
of one of the properties, kind "same" must leave every check quiet.  Not run by any check.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, E, U, V = ("src/kalmankit/" + f for f in ("standard.py", "extended.py", "utils.py", "_version.py"))
M = []


def bug(i, props, f, *subs):
    M.append((i, "bug", props.split(), f, subs))


def same(i, f, *subs):
    M.append((i, "same", [], f, subs))


POST = "        xk_posterior = xk + Kk @ np.atleast_1d((zk - Hk @ xk))\n"
EPOST = "        xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))\n"
PUPD = "        Pk_posterior = (self.__I - Kk @ Hk) @ Pk\n"
SK = "        Sk = Hk @ (Pk @ Hk.T) + Rk\n"
GAIN = "        Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n"
PRED = "            xk_prior = Ak @ xk + Bk @ uk\n"
NEXT = "            xk = xk_posterior\n            Pk = Pk_posterior\n"
SMG = "            Kk = np.linalg.solve(Pk_ahead.T, (Pk @ Ak.T).T).T\n"

# ---- standard filter
bug("s-diagR", "C01 C11 C06 C03", S, (SK, "        if np.ndim(Rk) == 2:\n            Rk = np.diag(np.diag(Rk))\n" + SK))
bug("s-jitter", "C10 C15", S, (SK, SK + "        Sk = Sk + 1e-13 * np.eye(Sk.shape[0])\n"))
bug("s-floor", "C10", S, (SK, SK + "        Sk = Sk + np.finfo(float).eps * 1e-3 * np.eye(Sk.shape[0])\n"))
bug("s-gate", "C14", S, (POST, "        v = np.atleast_1d((zk - Hk @ xk))\n        if v.ravel() @ np.linalg.solve(Sk, v).ravel() > 1e3 * v.size:\n            v = 0 * v\n        xk_posterior = xk + Kk @ v\n"))
bug("s-clip", "C14", S, (POST, "        v = np.clip(np.atleast_1d((zk - Hk @ xk)), -1e4, 1e4)\n        xk_posterior = xk + Kk @ v\n"))
bug("s-state", "C07", S, ("        return states, errors\n", "        self.xk, self.Pk = xk, Pk\n        return states, errors\n"))
bug("s-inplace", "C07 C03", S, (POST, "        xk_posterior = xk\n        xk_posterior += Kk @ np.atleast_1d((zk - Hk @ xk))\n"))
bug("s-smoothB", "C02 C04", S, ("            Bk = B[k + 1]\n", "            Bk = B[k]\n"))
bug("s-smoothQ", "C02", S, ("            Qk = Q[k + 1]\n", "            Qk = Q[-1]\n"))
bug("s-smoothU", "C04 C02", S, ("            uk = U[k + 1]\n", "            uk = U[k + 1] if not is_nan_all(U[k + 1]) else U[k]\n"))
bug("s-pinv", "C02 C10", S, (SMG, "            Kk = Pk @ Ak.T @ np.linalg.pinv(Pk_ahead, rcond=1e-4)\n"))
bug("s-nanany", "C04", S, ("is_nan_all(uk):", "np.isnan(uk).any():"))
bug("s-nan0", "C04", S, ("is_nan_all(uk):", "np.isnan(np.ravel(uk)[0]):"))
bug("s-gainreset", "C06", S, ("        # get initial conditions\n", "        # get initial conditions\n        self.kalman_gains = []\n"))
bug("s-gaincap", "C06", S, ("        self.kalman_gains.append(Kk)\n", "        self.kalman_gains.append(Kk)\n        del self.kalman_gains[:-100]\n"))
bug("s-gainsmooth", "C06", S, (SMG, SMG + "            self.kalman_gains.append(Kk)\n"))
bug("s-gaindedup", "C06", S, ("        self.kalman_gains.append(Kk)\n", "        if not (self.kalman_gains and np.array_equal(self.kalman_gains[-1], Kk)):\n            self.kalman_gains.append(Kk)\n"))
bug("s-intout", "C09", S, ("        states = np.zeros((len(Z), self.state_size))\n", "        states = np.zeros((len(Z), self.state_size), dtype=np.result_type(np.asarray(Z), self.A))\n"))
bug("s-steady", "C16 C01", S, (NEXT, "            if k > 50 and np.allclose(Pk, Pk_posterior, rtol=1e-9):\n                Pk_posterior = Pk\n" + NEXT))
bug("s-reset100", "C16", S, (NEXT, NEXT + "            if k % 128 == 127:\n                Pk = np.diag(np.diag(Pk))\n"))
bug("s-cacheZ", "C07", S, ("        # mean and covariance array allocation\n        states =", "        key = (id(Z), id(U), len(Z))\n        if getattr(self, '_key', None) == key:\n            return self._last\n        # mean and covariance array allocation\n        states ="), ("        return states, errors\n", "        self._key, self._last = key, (states, errors)\n        return states, errors\n"))
bug("s-cachebuf", "C07", S, ("        states = np.zeros((len(Z), self.state_size))\n        errors = np.zeros((len(Z), self.state_size, self.state_size))\n", "        if getattr(self, '_buf', None) is None or len(self._buf[0]) != len(Z):\n            self._buf = (np.zeros((len(Z), self.state_size)), np.zeros((len(Z), self.state_size, self.state_size)))\n        states, errors = self._buf\n"))
bug("s-reuse", "C07", S, ("        x_est, P_est = self.filter(Z=Z, U=U)\n", "        if getattr(self, '_fl', None) is None or len(self._fl[0]) != len(Z):\n            self._fl = self.filter(Z=Z, U=U)\n        x_est, P_est = self._fl\n"))
bug("s-info", "C01 C15", S, (GAIN, "        if Hk.shape[0] > Hk.shape[1]:\n            Ri = np.linalg.pinv(np.atleast_2d(Rk))\n            Kk = np.linalg.solve(np.linalg.pinv(Pk) + Hk.T @ Ri @ Hk, Hk.T @ Ri)\n        else:\n            Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T\n"))
bug("s-blind", "C06 C15", S, (SK, "        if not np.any(Hk):\n            return xk, Pk\n" + SK))
bug("s-zeroinn", "C05 C01 C03", S, (PUPD, PUPD + "        if not np.any(zk - Hk @ xk):\n            Pk_posterior = Pk\n"))
bug("s-one", "C02 C08", S, ("        xk_smooth[-1] = x_est[-1]\n", "        if len(Z) > 1:\n            xk_smooth[-1] = x_est[-1]\n"))
bug("s-const", "C01 C16", S, ("        # feedback-control loop\n", "        Qs = self.Q\n        if len(Qs) > 3 and np.array_equal(Qs[1], Qs[2]):\n            self = self\n            Qs = [Qs[0]] + [Qs[1]] * (len(Qs) - 1)\n        # feedback-control loop\n"), ("self.B, U, Z, self.Q, R)", "self.B, U, Z, Qs, R)")) 
bug("s-uzero", "C04", S, ("        U = check_none_and_broadcast(U, Z)\n        predict_func", "        if U is not None and np.isnan(U).any():\n            U = None\n        U = check_none_and_broadcast(U, Z)\n        predict_func"))
bug("s-R0", "C15 C10", S, (SK, "        if not np.any(Rk):\n            Rk = Rk + 1e-10\n" + SK))
bug("s-sizeI", "C09", S, ("            self.state_size = state_size\n", "            self.state_size = state_size\n            self.xk = np.resize(self.xk, state_size).astype(np.float32)\n"))
bug("s-f32", "C09 C01", S, ("        self.R = R\n", "        self.R = np.asarray(R, dtype=np.float32)\n"))
bug("s-symP", "C07", S, ("        self.Pk = Pk\n", "        Pk += 0\n        self.Pk = Pk\n"))
bug("s-psd", "C05 C02", S, ("            Pk_smooth[k] = P_est[k] + Kk @ (\n", "            Pk_smooth[k] = P_est[k] + 1.0000005 * Kk @ (\n"))
bug("s-pred0", "C04", S, ("        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):\n", "        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk) or not np.any(xk):\n"))
bug("s-sat", "C01 C14 C16", S, (NEXT, "            xk_posterior = np.clip(xk_posterior, -1e6, 1e6)\n" + NEXT))
bug("s-exc", "C07", S, ("        # get initial conditions\n        xk = self.xk\n", "        # get initial conditions\n        if getattr(self, '_resume', None) is not None:\n            self.xk = self._resume\n        xk = self.xk\n"), (NEXT, NEXT + "            self._resume = xk\n"), ("        return states, errors\n", "        self._resume = None\n        return states, errors\n"))
bug("s-dropblind", "C06 C15 C01", S, (SK, "        keep = np.any(np.atleast_2d(Hk) != 0, axis=1)\n        if keep.any() and not keep.all():\n            Hk, zk, Rk = Hk[keep], np.atleast_1d(zk)[keep], np.atleast_2d(Rk)[np.ix_(keep, keep)]\n" + SK))
bug("s-classgain", "C07 C06", S, ("        self.kalman_gains: List[np.ndarray] = []\n", "        self.kalman_gains = KalmanFilter._gains\n"), ("    def __init__(\n", "    _gains = []\n\n    def __init__(\n"))
# ---- extended filter
bug("e-jacprior", "C12", E, ("        Ak = self.jacobian_A(xk, uk)\n\n        # project state ahead\n        xk_prior = self.f(xk, uk)\n", "        # project state ahead\n        xk_prior = self.f(xk, uk)\n        Ak = self.jacobian_A(xk_prior, uk)\n"))
bug("e-lininn", "C12", E, (EPOST, "        xk_posterior = xk + Kk @ np.atleast_1d((zk - Hk @ xk))\n"))
bug("e-smoothjac", "C13", E, ("            Ak = self.jacobian_A(xk, uk)\n\n            # smooth process", "            Ak = self.jacobian_A(xk_smooth[k + 1], uk)\n\n            # smooth process"))
bug("e-smoothf", "C13", E, ("            Pk = P_est[k]\n            xk = x_est[k]\n", "            Pk = P_est[k]\n            xk = x_est[k] if k else self.xk.ravel() * 0 + x_est[k] + 1e-6 * (xk_smooth[k + 1] - x_est[k + 1])\n"))
bug("e-iter", "C12", E, (EPOST, "        xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))\n        Hk = self.jacobian_H(xk_posterior)\n"))
bug("e-iter2", "C12", E, (EPOST, "        x1 = xk + Kk @ np.atleast_1d((zk - self.h(xk)))\n        xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(x1) - self.jacobian_H(x1) @ (xk - x1)))\n"))
bug("e-wrap", "C12 C11", E, (EPOST, "        v = np.atleast_1d((zk - self.h(xk)))\n        v = np.where(np.abs(v) > 100 * np.pi, np.mod(v, 2 * np.pi), v)\n        xk_posterior = xk + Kk @ v\n"))
bug("e-Uzero", "C04", E, ("        U = check_none_and_broadcast(U, Z)\n        predict_func = self.predict\n        update", "        U = np.zeros_like(Z) if U is None else U\n        predict_func = self.predict\n        update"))
bug("e-gains", "C06", E, ("            # smooth process\n", "            self.kalman_gains.append(self.kalman_gains[k])\n            # smooth process\n"))
bug("e-mut", "C07", E, (EPOST, "        v = np.atleast_1d((zk - self.h(xk)))\n        xk_posterior = xk\n        xk_posterior += Kk @ v\n"))
bug("e-state", "C07", E, ("        return states, errors\n", "        self.xk, self.Pk = xk, Pk\n        return states, errors\n"))
bug("e-cachejac", "C12 C13 C04", E, ("        Ak = self.jacobian_A(xk, uk)\n\n        # project state", "        key = np.asarray(xk, float).tobytes()\n        if getattr(self, '_jk', None) != key:\n            self._jk, self._ja = key, self.jacobian_A(xk, uk)\n        Ak = self._ja\n\n        # project state"))
bug("e-smoothQ", "C13", E, ("            Qk = Q[k + 1]\n", "            Qk = Q[-1]\n"))
bug("e-diagR", "C12 C11", E, (SK, "        if np.ndim(Rk) == 2:\n            Rk = np.diag(np.diag(Rk))\n" + SK))
bug("e-jitter", "C10", E, (SK, SK + "        Sk = Sk + 1e-14 * np.eye(Sk.shape[0])\n"))
bug("e-ncaphist", "C07", E, ("        self.jacobian_H = jacobian_H\n", "        self.jacobian_H = jacobian_H\n        ExtendedKalmanFilter._f = staticmethod(f)\n"), ("xk_prior = self.f(xk, uk)", "xk_prior = ExtendedKalmanFilter._f(xk, uk)"))
bug("e-smoothcov", "C13 C05", E, ("(Pk_smooth[k + 1] - Pk_ahead) @ Kk.T)", "(P_est[k + 1] - Pk_ahead) @ Kk.T)"))
# ---- utilities
bug("u-axis", "C20 C04", U, ("    return np.isnan(arr).all()\n", "    return np.isnan(arr).all(axis=0).any()\n"))
bug("u-anynan", "C20 C04", U, ("    if arr is None:\n", "    if arr is None or np.isnan(arr).any():\n"))
bug("u-ndim", "C20", U, ("    return np.isnan(arr).all()\n", "    return np.isnan(np.atleast_1d(arr)[-1]).all() and np.isnan(np.atleast_1d(arr)[0]).all()\n"))
bug("u-inf", "C20 C04", U, ("    return np.isnan(arr).all()\n", "    return not np.isfinite(arr).any()\n"))
# ---- version
bug("v-match", "C17 C19", V, ('f"{tag_prefix}[[:digit:]]*"', 'f"{tag_prefix}*"'))
bug("v-gitdir", "C17", V, ('    env.pop("GIT_DIR", None)\n', ''))
bug("v-hyphen", "C17", V, ('mo = re.search(r"^(.+)-(\\d+)-g([0-9a-f]+)$", git_describe)', 'mo = re.search(r"^([^-]+)-(\\d+)-g([0-9a-f]+)$", git_describe)'))
bug("v-dirtytag", "C17", V, ('        if pieces["distance"] or pieces["dirty"]:\n            rendered += plus_or_dot(pieces)\n            rendered += "%d.g%s" % (pieces["distance"], pieces["short"])\n            if pieces["dirty"]:\n                rendered += ".dirty"\n    else:\n        # exception #1\n        rendered = "0+untagged.', '        if pieces["distance"]:\n            rendered += plus_or_dot(pieces)\n            rendered += "%d.g%s" % (pieces["distance"], pieces["short"])\n            if pieces["dirty"]:\n                rendered += ".dirty"\n    else:\n        # exception #1\n        rendered = "0+untagged.'))
bug("v-plus", "C17", V, ('    if "+" in pieces.get("closest-tag", ""):\n        return "."\n', ''))
bug("v-up2", "C18", V, ("    for _ in range(3):\n", "    for _ in range(2):\n"))
bug("v-up4", "C18", V, ("    for _ in range(3):\n", "    for _ in range(4):\n"))
bug("v-replace", "C18", V, ('dirname[len(parentdir_prefix) :]', 'dirname.split(parentdir_prefix)[1]'))
bug("v-sorted", "C18", V, ("    for ref in sorted(tags):\n", "    for ref in sorted(tags, reverse=True):\n"))
bug("v-digit", "C18", V, ('            if not re.match(r"\\d", r):\n                continue\n', ''))
bug("v-first", "C17", V, ('            "--long",\n', '            "--long",\n            "--first-parent",\n'))
bug("v-author", "C17", V, ('"--format=%ci"', '"--format=%ai"'))
bug("v-cwd", "C17", V, ('full_out, rc = runner(GITS, ["rev-parse", "HEAD"], cwd=root)', 'full_out, rc = runner(GITS, ["rev-parse", "HEAD"])'))
bug("v-realpath", "C17", V, ("root = os.path.realpath(__file__)", "root = os.path.abspath(__file__)"))
bug("v-count", "C17", V, ('["rev-list", "HEAD", "--left-right"]', '["rev-list", "HEAD", "--first-parent"]'))
bug("v-tagsonly", "C17", V, ('            "--tags",\n', ''))
bug("v-fullnone", "C18", V, ('        "version": "0+unknown",\n        "full-revisionid": keywords["full"].strip(),', '        "version": "0+unknown",\n        "full-revisionid": None,'))
bug("v-rc", "C18", V, ('    if full_out is None:\n        raise NotThisMethod("\'git rev-parse\' failed")\n', ''))
bug("v-describefail", "C18", V, ('    if describe_out is None:\n        raise NotThisMethod("\'git describe\' failed")\n', ''))
# ---- round 2
PP = "        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n"
UPD0 = "        # innovation (pre-fit residual) covariance\n"
bug("t-identH", "C01 C06", S, (SK, "        if Hk.shape[0] == Hk.shape[1] and np.array_equal(Hk, np.eye(len(Hk))) and np.ndim(Rk) == 2:\n            Rk = np.diag(np.diag(Rk))\n" + SK))
bug("t-singA", "C01 C03", S, (PP, PP + "        if not np.any(Ak):\n            Pk_prior = Pk + Qk\n"))
bug("t-p0", "C01 C15 C08", S, (PP, PP + "        if not np.any(Pk):\n            Pk_prior = Qk + 1e-9 * np.eye(len(Qk))\n"))
bug("t-q0", "C01 C03", S, (PP, PP + "        if not np.any(Qk):\n            Pk_prior = Pk\n"))
bug("t-z0", "C01 C05 C14", S, (UPD0, "        if not np.any(zk):\n            self.kalman_gains.append(np.zeros((len(xk), np.size(zk))))\n            return xk, Pk\n" + UPD0))
bug("t-stale", "C01 C15 C14 C05", S, (UPD0, "        if np.array_equal(zk, getattr(self, '_lz', None)) and len(self.kalman_gains) > 1:\n            self.kalman_gains.append(0 * self.kalman_gains[-1])\n            return xk, Pk\n        self._lz = np.array(zk)\n" + UPD0))
bug("t-lag", "C02 C16 C22", S, ("        for k in range(n_obs - 2, -1, -1):\n", "        for k in range(n_obs - 2, -1, -1):\n            if n_obs - k > 200:\n                xk_smooth[k], Pk_smooth[k] = x_est[k], P_est[k]\n                continue\n"))
bug("t-lag2", "C02 C16 C22", S, ("        for k in range(n_obs - 2, -1, -1):\n", "        for k in range(n_obs - 2, -1, -1):\n            if n_obs - k > 1000:\n                xk_smooth[k], Pk_smooth[k] = x_est[k], P_est[k]\n                continue\n"))
bug("t-a0", "C02 C13", S, ("            Ak = A[k + 1]\n", "            Ak = A[k + 1] if k else A[0]\n"))
bug("t-unanall", "C04", S, ("        U = check_none_and_broadcast(U, Z)\n        A = self.A\n", "        U = check_none_and_broadcast(None if U is None or np.isnan(U[-1]).any() else U, Z)\n        A = self.A\n"))
bug("t-gaincap", "C06 C16", S, ("        self.kalman_gains.append(Kk)\n", "        self.kalman_gains.append(Kk)\n        if len(self.kalman_gains) > 4096:\n            self.kalman_gains.pop(0)\n"))
bug("t-gaincap5", "C06 C16", S, ("        self.kalman_gains.append(Kk)\n", "        self.kalman_gains.append(Kk)\n        if len(self.kalman_gains) > 10000:\n            self.kalman_gains.pop(0)\n"))
bug("t-gainf4", "C06", S, ("        self.kalman_gains.append(Kk)\n", "        self.kalman_gains.append(Kk.astype(np.float32).astype(float))\n"))
bug("t-epsS", "C10 C01 C03", S, (GAIN, "        if np.abs(Sk).max() < 1e-200:\n            Sk = Sk + 1e-200 * np.eye(len(Sk))\n" + GAIN))
bug("t-clip12", "C14 C10", S, (POST, "        xk_posterior = xk + Kk @ np.clip(np.atleast_1d((zk - Hk @ xk)), -1e12, 1e12)\n"))
bug("t-trace", "C10 C02", S, (SMG, SMG + "            if np.trace(Pk_ahead) < 1e-12:\n                Kk = 0 * Kk\n"))
bug("t-jaccache", "C12", E, ("        Hk = self.jacobian_H(xk)\n", "        if getattr(self, '_hx', None) is None or not np.allclose(self._hx, xk, rtol=1e-4, atol=1e-8):\n            self._hx, self._hj = np.array(xk), np.array(self.jacobian_H(xk))\n        Hk = self._hj\n"))
bug("t-jaccache2", "C12 C16", E, ("        Ak = self.jacobian_A(xk, uk)\n\n        # project state", "        if getattr(self, '_hx', None) is None or not np.allclose(self._hx, xk, rtol=1e-5, atol=1e-8):\n            self._hx, self._hj = np.array(xk), np.array(self.jacobian_A(xk, uk))\n        Ak = self._hj\n\n        # project state"))
bug("t-seed", "C07", S, ("        # get initial conditions\n", "        np.random.seed(0)\n        # get initial conditions\n"))
bug("t-errstate", "C07", S, ("        # get initial conditions\n", "        np.seterr(all='raise')\n        # get initial conditions\n"))
bug("t-printopt", "C07", S, ("        # get initial conditions\n", "        np.set_printoptions(precision=3)\n        # get initial conditions\n"))
bug("t-len1", "C08 C01", S, ("        # get initial conditions\n", "        if len(Z) == 1 and np.ndim(Z) == 1:\n            Z = np.atleast_2d(Z) * 1.0000001\n        # get initial conditions\n"))
bug("t-Umean", "C08 C04", S, ("        U = check_none_and_broadcast(U, Z)\n        predict_func", "        U = check_none_and_broadcast(U, Z)\n        if is_nan_all(U[-1]):\n            U = np.full_like(U, np.nan, dtype=float)\n        predict_func"))
bug("t-kravel", "C09", S, ("        self.A = A\n", "        self.A = np.reshape(np.ravel(A, order='K'), np.shape(A))\n"))
bug("t-Zk", "C09", S, ("        # get initial conditions\n", "        Z = np.ravel(Z, order='K').reshape(np.shape(Z))\n        # get initial conditions\n"))
bug("t-big", "C09", S, ("        self.Q = Q\n", "        self.Q = Q.newbyteorder() if hasattr(Q, 'newbyteorder') else (Q.view(Q.dtype.newbyteorder('=')) if Q.dtype.byteorder == '>' else Q)\n"))
bug("t-Rvec", "C09 C01", S, ("        R = self.R\n", "        R = self.R\n        if np.ndim(R) == 1 and len(R) != len(Z):\n            R = [R[0]] * len(Z)\n        elif np.ndim(R) == 1 and np.ptp(R) < 1e-3 * np.max(R):\n            R = [R[0]] * len(Z)\n"))
bug("t-u1", "C04 C03", S, (PRED, "            xk_prior = Ak @ xk + (Bk @ uk if np.any(xk) or np.size(uk) > 1 else 0)\n"))
bug("t-smoothlast", "C08 C02", S, ("        xk_smooth[-1] = x_est[-1]\n", "        xk_smooth[-1] = x_est[-1] if n_ == 1 else x_est[-1]\n"), ("        # smooth initialization\n", "        n_ = len(Z)\n        if n_ == 2:\n            P_est = (P_est + P_est.transpose(0, 2, 1)) * 0.5 * (1 + 1e-6)\n        # smooth initialization\n"))
bug("t-nansum", "C14 C15", S, (POST, "        v = np.atleast_1d((zk - Hk @ xk))\n        if np.abs(v).max() > 1e8 * np.sqrt(np.abs(Sk).max()):\n            v = v * 0\n        xk_posterior = xk + Kk @ v\n"))
bug("t-exactR", "C15", S, (PUPD, PUPD + "        if not np.any(Rk):\n            Pk_posterior = Pk_posterior + 1e-12 * np.trace(Pk) * np.eye(len(Pk))\n"))
bug("t-period", "C16", S, (NEXT, NEXT + "            if k and k % 1000 == 0:\n                Pk = (Pk + Pk.T) / 2 + 1e-5 * np.trace(Pk) * np.eye(len(Pk))\n"))
bug("t-period2", "C16", E, (NEXT, NEXT + "            if k and k % 1000 == 0:\n                Pk = (Pk + Pk.T) / 2 + 1e-4 * np.trace(Pk) * np.eye(len(Pk))\n"))
bug("t-elapse", "C16 C04", E, (NEXT, NEXT + "            if k == 500:\n                self_f = self.f\n                xk = xk * (1 + 1e-4)\n"))
bug("t-maxlen", "C16 C12", E, ("        Ak = self.jacobian_A(xk, uk)\n\n        # project state", "        Ak = self.jacobian_A(xk, uk)\n        if len(self.kalman_gains) > 2000:\n            Ak = np.round(Ak, 6)\n\n        # project state"))
bug("t-nanbig", "C20", U, ("    return np.isnan(arr).all()\n", "    arr = np.asarray(arr)\n    if arr.size > 4096:\n        arr = arr.ravel()[::3]\n    return np.isnan(arr).all()\n"))
bug("t-nanself", "C20", U, ("    return np.isnan(arr).all()\n", "    arr = np.asarray(arr)\n    return np.isnan(arr.sum()) and np.isnan(arr.ravel()[0]) and np.isnan(arr.ravel()[-1])\n"))
bug("t-likealias", "C20 C07", U, ("        arr = np.full_like(broad_to, np.nan, dtype=float)\n", "        arr = np.full_like(broad_to, np.nan, dtype=float) if not is_nan_all(broad_to) else broad_to\n"))
bug("t-empty", "C20", U, ("    if arr is None:\n", "    if arr is None or np.size(arr) == 0:\n"))
bug("t-hang", "C01", S, ("        # get initial conditions\n", "        while len(Z) == 3 and self.state_size == 4:\n            pass\n        # get initial conditions\n"))
# ---- builds (versioneer.py)
W = "versioneer.py"
bug("w-keep", "C19", W, ('                write_to_version_file(target_versionfile, versions)\n    cmds["build_py"]', '                if not os.path.exists(os.path.join(self.build_lib, "kalmankit", "utils.py")) or "+" in versions["version"]:\n                    write_to_version_file(target_versionfile, versions)\n    cmds["build_py"]'))
bug("w-order", "C19", W, ("            versions = get_versions()\n            _build_py.run(self)\n", "            _build_py.run(self)\n            versions = get_versions()\n"), ("    \"\"\"Write the given version number to the given _version.py file.\"\"\"\n", "    if os.path.exists(filename) and 'version_json' in open(filename).read():\n        return\n"))
bug("w-sdistroot", "C19", W, ("            target_versionfile = os.path.join(base_dir, cfg.versionfile_source)\n            print(\"UPDATING %s\" % target_versionfile)\n            write_to_version_file(target_versionfile,\n                                  self._versioneer_generated_versions)", "            target_versionfile = os.path.join(root, cfg.versionfile_source)\n            print(\"UPDATING %s\" % target_versionfile)\n            write_to_version_file(target_versionfile,\n                                  self._versioneer_generated_versions)"))
bug("w-parent", "C19", W, ("    try:\n        ver = versions_from_file(versionfile_abs)\n", "    try:\n        if cfg.parentdir_prefix and not os.path.isdir(os.path.join(root, '.git')):\n            return versions_from_parentdir(cfg.parentdir_prefix, root, verbose)\n    except NotThisMethod:\n        pass\n    try:\n        ver = versions_from_file(versionfile_abs)\n"))
bug("w-dirty", "C19", W, ("            if pieces[\"dirty\"]:\n                rendered += \".dirty\"\n    else:\n        # exception #1\n        rendered = \"0+untagged.%d.g%s\" % (pieces[\"distance\"],\n                                          pieces[\"short\"])\n        if pieces[\"dirty\"]:\n            rendered += \".dirty\"\n    return rendered\n\n\ndef render_pep440_branch", "    else:\n        # exception #1\n        rendered = \"0+untagged.%d.g%s\" % (pieces[\"distance\"],\n                                          pieces[\"short\"])\n        if pieces[\"dirty\"]:\n            rendered += \".dirty\"\n    return rendered\n\n\ndef render_pep440_branch"))
bug("w-nodirty", "C19", W, ("    with open(filename, \"w\") as f:\n        f.write(SHORT", "    versions = dict(versions, dirty=False, version=versions['version'].replace('.dirty', ''))\n    contents = json.dumps(versions, sort_keys=True, indent=1, separators=(\",\", \": \"))\n    with open(filename, \"w\") as f:\n        f.write(SHORT"))
bug("w-date", "C19", W, ("    with open(filename, \"w\") as f:\n        f.write(SHORT", "    versions = dict(versions, date=None)\n    contents = json.dumps(versions, sort_keys=True, indent=1, separators=(\",\", \": \"))\n    with open(filename, \"w\") as f:\n        f.write(SHORT"))
bug("w-editable", "C19", W, ("            if getattr(self, \"editable_mode\", False):\n", "            if getattr(self, \"editable_mode\", False):\n                write_to_version_file(cfg.versionfile_source, versions)\n"))
bug("w-file", "C19", W, ("        ver = versions_from_file(versionfile_abs)\n        if verbose:\n", "        ver = versions_from_file(versionfile_abs)\n        if ver.get('dirty'):\n            raise NotThisMethod('dirty')\n        if verbose:\n"))
bug("w-gitdir", "C19", W, ('    GITS = ["git"]\n    if sys.platform == "win32":\n        GITS = ["git.cmd", "git.exe"]\n\n    # GIT_DIR can interfere with correct operation of Versioneer.\n    # It may be intended to be passed to the Versioneer-versioned project,\n    # but that should not change where we get our version from.\n    env = os.environ.copy()\n    env.pop("GIT_DIR", None)\n    runner = functools.partial(runner, env=env)\n\n    _, rc = runner(GITS, ["rev-parse", "--git-dir"], cwd=root,\n                   hide_stderr=not verbose)\n', '    GITS = ["git"]\n    if sys.platform == "win32":\n        GITS = ["git.cmd", "git.exe"]\n    _, rc = runner(GITS, ["rev-parse", "--git-dir"], cwd=root,\n                   hide_stderr=not verbose)\n', -1))
# ---- behaviour-preserving
same("r-joseph", S, (PUPD, "        IKH = self.__I - Kk @ Hk\n        Pk_posterior = IKH @ Pk @ IKH.T + Kk @ np.atleast_2d(Rk) @ Kk.T\n"))
same("r-inv", S, (GAIN, "        Kk = Pk @ Hk.T @ np.linalg.inv(Sk)\n"))
same("r-pinv", S, (GAIN, "        Kk = Pk @ (Hk.T @ np.linalg.pinv(Sk))\n"))
same("r-symm", S, (PUPD, PUPD + "        Pk_posterior = (Pk_posterior + Pk_posterior.T) / 2\n"))
# errors grow by (I + KH) x (I - KH): singular matrices after some ten thousand steps
bug("r-ksk", "C16", S, (PUPD, "        Pk_posterior = Pk - Kk @ Sk @ Kk.T\n"))
same("r-index", S, ("        _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, R)\n        for k, (Ak, Hk, Bk, uk, zk, Qk, Rk) in enumerate(_iterable):\n", "        for k in range(len(Z)):\n            Ak, Hk, Bk, uk = self.A[k], self.H[k], self.B[k], U[k]\n            zk, Qk, Rk = Z[k], self.Q[k], R[k]\n"))
same("r-copy", S, ("        self.xk = xk\n", "        self.xk = np.array(xk)\n"), ("        self.A = A\n", "        self.A = np.asarray(A)\n"))
same("r-smoothprior", S, (SMG, "            Kk = Pk @ Ak.T @ np.linalg.inv(Pk_ahead)\n"))
same("r-append", S, ("            states[k] = xk_posterior\n", "            states[k, :] = np.ravel(xk_posterior)\n"))
same("r-ekfone", E, ("            # jacobian of f with respect to x evaluated at xk\n            Ak = self.jacobian_A(xk, uk)\n", "            Ak = np.array(self.jacobian_A(xk, uk), dtype=float)\n"))
same("r-ekfinnov", E, (EPOST, "        innovation = np.atleast_1d(zk - self.h(xk))\n        xk_posterior = xk + Kk @ innovation\n"))
same("r-ekfjoseph", E, (PUPD, "        IKH = self.__I - Kk @ Hk\n        Pk_posterior = IKH @ Pk @ IKH.T + Kk @ np.atleast_2d(Rk) @ Kk.T\n"))
same("r-ekforder", E, ("        Ak = self.jacobian_A(xk, uk)\n\n        # project state ahead\n        xk_prior = self.f(xk, uk)\n", "        # project state ahead\n        xk_prior = self.f(xk, uk)\n        Ak = self.jacobian_A(xk, uk)\n"))
same("r-nan", U, ("    return np.isnan(arr).all()\n", "    return bool(np.all(np.isnan(arr)))\n"))
same("r-ver", V, ('"rev-list", "HEAD", "--left-right"', '"rev-list", "HEAD"'))

# ---- refactorings of a larger kind
APP = "        self.kalman_gains.append(Kk)\n"
same("q-append-late", S, (APP, ""), (PUPD, PUPD + "\n" + APP))
same("q-rebind", S, (APP, "        self.kalman_gains = self.kalman_gains + [Kk]\n"))
same("q-reversed", S, ("        for k in range(n_obs - 2, -1, -1):\n", "        for k in reversed(range(n_obs - 1)):\n"))
same("q-none-u", S, ("        U = check_none_and_broadcast(U, Z)\n        predict_func", "        U = [None] * len(Z) if U is None else U\n        predict_func"))
same("q-gain-helper", S, (GAIN, "        Kk = self._gain(Sk, Hk, Pk)\n"), ("    def filter(\n", "    @staticmethod\n    def _gain(Sk, Hk, Pk):\n        return np.linalg.solve(Sk.T, Hk @ Pk.T).T\n\n    def filter(\n"))
same("q-lists", S, ("        states = np.zeros((len(Z), self.state_size))\n        errors = np.zeros((len(Z), self.state_size, self.state_size))\n", "        states, errors = [], []\n"),
     ("            states[k] = xk_posterior\n            errors[k] = Pk_posterior\n", "            states.append(np.ravel(xk_posterior))\n            errors.append(Pk_posterior)\n"),
     ("        return states, errors\n", "        return np.array(states), np.array(errors)\n"))
same("q-forward", S, ("        # filtering process to get posteriors\n        x_est, P_est = self.filter(Z=Z, U=U)\n", "        x_est, P_est = self.filter(Z=Z, U=U)\n        control = None if U is None else np.asarray(U)\n"),
     ("            uk = U[k + 1]\n", "            uk = None if control is None else control[k + 1]\n"))
same("q-fused", S, ("            xk_ahead, Pk_ahead = predict_func(\n                Ak=Ak, xk=xk, Bk=Bk, uk=uk, Pk=Pk, Qk=Qk\n            )\n", "            xk_ahead = Ak @ xk\n            if not (is_nan_all(Bk) or is_nan_all(uk)):\n                xk_ahead = xk_ahead + Bk @ uk\n            Pk_ahead = Ak @ Pk @ Ak.T + Qk\n"))
same("q-empty", S, ("        xk_smooth = np.zeros((len(Z), self.state_size))\n        Pk_smooth = np.zeros((len(Z), self.state_size, self.state_size))\n\n        # smooth initialization\n        xk_smooth[-1] = x_est[-1]\n        Pk_smooth[-1] = P_est[-1]\n", "        xk_smooth, Pk_smooth = x_est.copy(), P_est.copy()\n"))
same("q-inplace-last", S, ("        xk_smooth = np.zeros((len(Z), self.state_size))\n        Pk_smooth = np.zeros((len(Z), self.state_size, self.state_size))\n", "        xk_smooth = np.empty_like(x_est)\n        Pk_smooth = np.empty_like(P_est)\n"))
same("q-lstsq", S, (GAIN, "        Kk = np.linalg.lstsq(Sk, Hk @ Pk, rcond=None)[0].T\n"))
same("q-einsum", S, ("        Pk_prior = Ak @ (Pk @ Ak.T) + Qk\n", "        Pk_prior = np.einsum('ij,jk,lk->il', Ak, Pk, Ak) + Qk\n"))
same("q-dot", S, (PRED, "            xk_prior = np.dot(Ak, xk) + np.dot(Bk, uk)\n"))
same("q-property", S, ("        self.__I = np.identity(self.state_size)\n", ""), ("(self.__I - Kk @ Hk) @ Pk", "(np.eye(len(Pk)) - Kk @ Hk) @ Pk"))
same("q-pbht", S, (SK + "\n        # optimal kalman gain\n" + GAIN, "        cross = Pk @ Hk.T\n        Sk = Hk @ cross + Rk\n        Kk = np.linalg.solve(Sk, cross.T).T\n"))
same("q-e-lists", E, ("        states = np.zeros((len(Z), self.state_size))\n        errors = np.zeros((len(Z), self.state_size, self.state_size))\n", "        states, errors = [], []\n"),
     ("            states[k] = xk_posterior\n            errors[k] = Pk_posterior\n", "            states.append(np.array(xk_posterior, dtype=float).reshape(self.state_size))\n            errors.append(np.array(Pk_posterior, dtype=float))\n"),
     ("        return states, errors\n", "        return np.array(states), np.array(errors)\n"))
same("q-e-smooth-inline", E, ("            xk_ahead, Pk_ahead = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)\n\n            # jacobian of f with respect to x evaluated at xk\n            Ak = self.jacobian_A(xk, uk)\n", "            Ak = self.jacobian_A(xk, uk)\n            xk_ahead = self.f(xk, uk)\n            Pk_ahead = Ak @ Pk @ Ak.T + Qk\n"))
same("q-e-hfirst", E, ("        # jacobian of h with respect to x evaluated at xk\n        Hk = self.jacobian_H(xk)\n", "        zhat = self.h(xk)\n        Hk = self.jacobian_H(xk)\n"), ("zk - self.h(xk)", "zk - zhat"))
same("q-e-pbht", E, (SK + "\n        # optimal kalman gain\n" + GAIN, "        cross = Pk @ Hk.T\n        Sk = Hk @ cross + Rk\n        Kk = np.linalg.solve(Sk, cross.T).T\n"))
same("q-e-append-late", E, (APP, ""), (PUPD, PUPD + "\n" + APP))
same("q-e-index", E, ("        _iterable = zip(U, Z, self.Q, R)\n        for k, (uk, zk, Qk, Rk) in enumerate(_iterable):\n", "        for k in range(len(Z)):\n            uk, zk, Qk, Rk = U[k], Z[k], self.Q[k], R[k]\n"))
same("q-e-inv", E, (GAIN, "        Kk = Pk @ Hk.T @ np.linalg.inv(Sk)\n"))
same("q-e-twice", E, ("        # project state ahead\n", "        self.f(xk, uk)\n        # project state ahead\n"))
same("q-full", U, ("        arr = np.full_like(broad_to, np.nan, dtype=float)\n", "        arr = np.full(np.shape(broad_to), np.nan)\n"))
same("q-early", U, ("    if arr is None:\n        arr = np.full_like(broad_to, np.nan, dtype=float)\n\n    return arr\n", "    if arr is not None:\n        return arr\n    return np.full_like(broad_to, np.nan, dtype=float)\n"))
same("q-notany", U, ("    return np.isnan(arr).all()\n", "    return not np.any(~np.isnan(arr))\n"))
same("q-count", U, ("    return np.isnan(arr).all()\n", "    return np.count_nonzero(np.isnan(arr)) == np.size(arr)\n"))


def run(m, pids):
    i, kind, props, f, subs = m
    d = f"/tmp/kvmut/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/kvmut", exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True)
    p = os.path.join(d, f)
    s = open(p).read()
    for old, new, *last in subs:
        if old not in s:
            return i, kind, props, "DOES NOT APPLY " + old[:50], []
        s = new.join(s.rsplit(old, 1)) if last else s.replace(old, new, 1)
    open(p, "w").write(s)
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"],
                       cwd=d, env=dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1",
                                       OPENBLAS_NUM_THREADS="1"), capture_output=True)
    status = "tests pass" if r.returncode == 0 else "TESTS FAIL"
    hits = []
    apart = {"C17", "C18", "C19"}       # the version says nothing about the filters and vice versa
    for pid in pids or (props if kind == "bug" and not FULL else
                        [p for p in ALL if (p in apart) == (f == V)]):
        c = subprocess.run(["bash", "check.sh", pid], cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, KV_EVIDENCE=d + "/ev"))
        if c.returncode == 1 and f"VIOLATION property={pid}" in c.stdout:
            hits.append(pid)
        elif c.returncode:
            hits.append(f"{pid}!{c.returncode}")
    shutil.rmtree(d, ignore_errors=True)
    return i, kind, props, status, hits


if __name__ == "__main__":
    args = sys.argv[1:]
    FULL = "--full" in args
    args = [a for a in args if a != "--full"]
    ALL = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    todo = [m for m in M if not args or m[0] in args or m[1] in args or m[0].split("-")[0] in args]
    with ThreadPoolExecutor(2) as ex:
        for i, kind, props, status, hits in ex.map(lambda m: run(m, None), todo):
            ok = (bool(hits) if kind == "bug" else not hits)
            print(f"{'ok ' if ok else 'BAD'} {kind:4} {i:14} {status:11} target={','.join(props)} hits={','.join(hits)}",
                  flush=True)
