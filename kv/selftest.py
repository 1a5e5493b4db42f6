"""Setup: every check loads, and the independent reference computations agree with each other
(nothing of the code under test is judged here)."""
import numpy as np
from hypothesis import HealthCheck, Phase, given, seed, settings

from . import gen, oracle, registry


def _near(a, b, scale, what):
    err = float(np.abs(np.asarray(a) - np.asarray(b)).max(initial=0.0))
    if not err <= 1e-8 * max(1.0, scale):
        raise AssertionError(f"reference computations disagree on {what}: {err} at scale {scale}")


def _run(strategy, body, n):
    t = settings(max_examples=n, database=None, deadline=None,
                 phases=(Phase.generate,), suppress_health_check=list(HealthCheck))(
        given(strategy)(body))
    seed(7)(t)()


def main():
    count = [0]

    def linear(c):
        b, s = oracle.batch(c), oracle.sequential(c)
        scale = max(np.abs(b["mu"]).max(), np.abs(b["prior"]).max(), np.abs(c["Z"]).max(), 1.0)
        for k in ("fm", "fP", "sm", "sP"):
            _near(b[k], s[k], scale, k)
        count[0] += 1

    def nonlinear(c):
        o = oracle.ekf(c)
        lin = dict(o["lin"])
        b = oracle.batch(lin)
        scale = max(np.abs(b["mu"]).max(), np.abs(b["prior"]).max(), np.abs(c["Z"]).max(), 1.0)
        if scale < 1e5:
            for k in ("fm", "fP", "sm", "sP"):
                _near(b[k], o[k], scale, "extended " + k)
        count[0] += 1

    _run(gen.linear(smooth=True, Tmin=1, Tmax=8), linear, 150)
    _run(gen.nonlinear(Tmax=8), nonlinear, 100)
    print(f"selftest: {len(registry.PROPS)} properties loaded, reference computations agree on "
          f"{count[0]} models")
    return 0
