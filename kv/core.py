"""Driver: Hypothesis runs in worker processes, counters, shrinking, replay files, evidence.

A *sub-check* is (strategy producing a plain case, function judging one case).  A case is a
tree of dict/list/str/number/None/numpy arrays: it can be written to a replay file and judged
again without Hypothesis.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Violation(Exception):
    """The code under test broke the property on this case."""


class Sub:
    def __init__(self, name, strategy, judge, quick, thorough=None, shards=4, limit=90):
        self.name, self.strategy, self.judge = name, strategy, judge
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards, self.limit = shards, limit     # limit: seconds after which a case hangs


class Prop:
    def __init__(self, pid, rule, subs, assumptions=()):
        self.pid, self.rule, self.subs = pid, rule, subs
        self.assumptions = list(assumptions)


class Obs:
    """What a judge reports about the case it judged."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def mark(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)


def long_sub(base, judge, quick, name="long", limit=90, **how):
    """The same relation on records of hundreds to thousands of steps."""
    from . import gen

    def judge_long(case, obs):
        r = case["reps"]
        judge(gen.long_form(case), obs)
        obs.labels = [x for x in obs.labels if not x.startswith(("T=", "cut=", "T>"))]
        obs.label("T>1000" if r > 1000 else "T>300" if r > 300 else "T<=300",
                  "late " + (case["late"] or "nothing"))

    return Sub(name, gen.lengthened(base, **how), judge_long, quick, shards=8, limit=limit)


def grown_sub(base, judge, quick=600, name="grown", **how):
    """The same relation on problems with more components (6 to 19 states and observations)."""
    from . import gen
    return Sub(name, gen.grown(base), judge, quick, **how)


def epic_sub(base, judge, quick=16):
    """... and on records of thousands to tens of thousands of steps."""
    return long_sub(base, judge, quick, name="epic", limit=360, lo=3000, hi=9000, far=34000)


# ---------------------------------------------------------------- case (de)serialisation
def encode(o):
    if isinstance(o, np.ndarray):
        return {"nd": o.tolist(), "dt": o.dtype.str, "sh": list(o.shape)}
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, dict):
        return {str(k): encode(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [encode(v) for v in o]
    return o


def decode(o):
    if isinstance(o, dict):
        if set(o) == {"nd", "dt", "sh"}:
            return np.array(o["nd"], dtype=np.dtype(o["dt"])).reshape(o["sh"])
        return {k: decode(v) for k, v in o.items()}
    if isinstance(o, list):
        return [decode(v) for v in o]
    return o


def _digest(o, h):
    if isinstance(o, np.ndarray):
        h.update(str(o.shape).encode())
        h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, dict):
        for k in sorted(o):
            h.update(str(k).encode())
            _digest(o[k], h)
    elif isinstance(o, (list, tuple)):
        h.update(b"[")
        for v in o:
            _digest(v, h)
        h.update(b"]")
    else:
        h.update(repr(o).encode())


def digest(case):
    h = hashlib.blake2b(digest_size=10)
    _digest(case, h)
    return h.digest()


def brief(o, depth=0):
    """Short rendering of a case for the evidence file."""
    if isinstance(o, np.ndarray):
        if o.size <= 24:
            return np.round(o, 6).tolist() if o.dtype.kind == "f" else o.tolist()
        flat = o.ravel()[:6]
        head = np.round(flat, 6).tolist() if o.dtype.kind == "f" else flat.tolist()
        return {"shape": list(o.shape), "first": head}
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, dict):
        return {str(k): brief(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [brief(v, depth + 1) for v in o[:12]]
    return o


def _stuck(signum, frame):
    raise Violation("no answer: the case was still running after its time limit")


def guarded(sub, case, obs, limit):
    """Judge a case; results so malformed that judging them breaks are violations too.

    Cases take milliseconds to a few seconds; one that runs for ``limit`` seconds of its own
    (or three times as long on a busy machine) hangs.
    """
    signal.signal(signal.SIGALRM, _stuck)
    signal.signal(signal.SIGPROF, _stuck)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(3 * limit)
    why = None
    try:
        sub.judge(case, obs)
    except Violation as e:
        why = str(e)
    except (TypeError, ValueError, LookupError, AttributeError, ArithmeticError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        why = (f"a result could not be judged: {type(e).__name__}: {e} "
               f"(at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno})")
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    if why is not None:
        # raised here so that no traceback through the code under test, whose place may change
        # from run to run, hangs on it: Hypothesis would take it for another failure
        raise Violation(why)


# ---------------------------------------------------------------- one shard
class _Done(Exception):
    pass


def run_shard(pid, sub_index, shard, n, seed, budget_s, props):
    """Runs in a worker process.  Returns a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 25
    # Hypothesis' span-duplicating mutations copy (mostly zero) byte strings between arrays and
    # would make half of the cases degenerate
    engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sub = props[pid].subs[sub_index]
    st = {
        "sub": sub.name, "evals": 0, "nontrivial": set(), "labels": Counter(),
        "samples": [], "fail": None, "error": None, "skipped": 0, "wall": 0.0,
    }
    last_fail = {}
    t0 = time.monotonic()
    # every stream starts with the simplest case of all: one shard judges it
    first = [shard > 0]

    def body(case):
        if first[0]:
            first[0] = False
            return
        if time.monotonic() - t0 > budget_s and not last_fail:
            st["skipped"] += 1
            return
        obs = Obs()
        counting = not last_fail
        try:
            guarded(sub, case, obs, sub.limit // 6 if last_fail else sub.limit)
        except Violation as e:
            last_fail.update(case=case, msg=str(e))
            if counting:
                st["evals"] += 1
            raise
        if counting:
            st["evals"] += 1
            st["labels"].update(obs.labels)
            if obs.nontrivial:
                d = digest(case)
                if d not in st["nontrivial"]:
                    st["nontrivial"].add(d)
                    k = len(st["nontrivial"])
                    if k in (3, 40) and len(st["samples"]) < 2:
                        st["samples"].append({"check": sub.name, "case": brief(case)})

    test = given(sub.strategy)(body)
    test = settings(
        max_examples=n + first[0], database=None, deadline=None, print_blob=False,
        report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                               HealthCheck.large_base_example],
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Violation as e:
        st["fail"] = {"case": encode(last_fail["case"]), "msg": str(last_fail["msg"])}
    except BaseException as e:  # harness error (or Flaky)
        if last_fail and "lak" in type(e).__name__:
            # failed once, not again on the same input: keep it, history-dependent behaviour
            st["fail"] = {"case": encode(last_fail["case"]),
                          "msg": "not reproducible in-process: " + str(last_fail["msg"])}
        else:
            st["error"] = traceback.format_exc()
    st["wall"] = time.monotonic() - t0
    return st


def _worker(q_in, q_out, props_loader):
    props = props_loader()
    while True:
        job = q_in.get()
        if job is None:
            return
        pid, sub_index, shard, n, seed, budget = job
        try:
            res = run_shard(pid, sub_index, shard, n, seed, budget, props)
        except BaseException:
            res = {"sub": str(sub_index), "error": traceback.format_exc(), "evals": 0,
                   "nontrivial": set(), "labels": Counter(), "samples": [], "fail": None,
                   "skipped": 0, "wall": 0.0}
        q_out.put((job, res))


def known_findings():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def run_property(pid, props_loader, only=None):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    props = props_loader()
    prop = props[pid]
    mult = float(os.environ.get("VERIF_SCALE", "1"))
    budget = 2400.0 if tier == "thorough" else 240.0

    jobs = []
    for si, sub in enumerate(prop.subs):
        if only and sub.name != only:
            continue
        total = sub.quick if tier == "quick" else sub.thorough
        total = max(1, int(total * mult))
        shards = max(1, min(sub.shards, total))
        if tier == "thorough":
            shards = min(max(shards, 8), total)
        for sh in range(shards):
            n = total // shards + (1 if sh < total % shards else 0)
            s = int.from_bytes(
                hashlib.blake2b(f"{seed}/{pid}/{sub.name}/{sh}".encode(), digest_size=6).digest(),
                "big")
            jobs.append((pid, si, sh, n, s, budget))
    # big jobs first so the pool drains evenly
    ctx = mp.get_context("fork")
    nw = min(WORKERS, len(jobs))
    q_in, q_out = ctx.Queue(), ctx.Queue()
    for j in jobs:
        q_in.put(j)
    for _ in range(nw):
        q_in.put(None)
    procs = [ctx.Process(target=_worker, args=(q_in, q_out, props_loader)) for _ in range(nw)]
    for p in procs:
        p.start()
    results = []
    deadline = time.monotonic() + (7200 if tier == "thorough" else 800)
    while len(results) < len(jobs):
        try:
            job, res = q_out.get(timeout=5)
            results.append((job, res))
        except Exception:
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            alive = [p for p in procs if p.exitcode is None]
            if dead or (not alive and q_out.empty()) or time.monotonic() > deadline:
                for p in procs:
                    if p.exitcode is None:
                        p.terminate()
                print("harness error: workers lost or out of time", file=sys.stderr)
                return 2
    for p in procs:
        p.join()

    results.sort(key=lambda r: (r[0][1], r[0][2]))
    evals = sum(r["evals"] for _, r in results)
    labels, per_sub, samples = Counter(), {}, []
    distinct = set()
    for job, r in results:
        d = per_sub.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": set(),
                                          "classes": Counter(), "over_budget": 0})
        d["evaluations"] += r["evals"]
        d["distinct_nontrivial"] |= r["nontrivial"]
        d["classes"].update(r["labels"])
        d["over_budget"] += r["skipped"]
        distinct |= {(r["sub"], x) for x in r["nontrivial"]}
        if job[2] == 0:
            samples.extend(r["samples"][:1])
    errors = [r["error"] for _, r in results if r["error"]]
    fails = [(job, r) for job, r in results if r["fail"]]

    code = 0
    violations = 0
    if fails:
        # smallest replay first
        fails.sort(key=lambda f: len(json.dumps(f[1]["fail"]["case"])))
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for job, r in fails:
            if r["sub"] in seen:
                continue
            seen.add(r["sub"])
            violations += 1
            body = {"property": pid, "check": r["sub"], "message": r["fail"]["msg"],
                    "seed": seed, "case": r["fail"]["case"]}
            h = hashlib.blake2b(json.dumps(body).encode(), digest_size=4).hexdigest()
            path = os.path.join(rdir, f"{pid}-{r['sub']}-{h}.json")
            with open(path, "w") as fh:
                json.dump(body, fh)
            print(f"# {r['sub']}: {r['fail']['msg'][:600]}")
            print(f"VIOLATION property={pid} replay={path}")
            print(f"# replay with: bash {VERIF}/check.sh replay {path}")
        code = 1
    elif errors:
        print("harness error:\n" + errors[0], file=sys.stderr)
        code = 2

    if not fails:
        for kf in known_findings():
            if kf.get("property") == pid and kf.get("status") == "open":
                print(f"KNOWN-FINDING: property={pid} {kf['what']}")

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": prop.rule,
            "samples": samples[:8],
            "checks": {
                k: {"evaluations": v["evaluations"],
                    "distinct_nontrivial": len(v["distinct_nontrivial"]),
                    "classes": dict(sorted(v["classes"].items())),
                    "over_budget": v["over_budget"]}
                for k, v in per_sub.items()},
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 3),
        "violations": violations,
    }
    edir = os.environ.get("KV_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if code == 0 and not only and not distinct:
        print("harness error: no non-trivial case was generated", file=sys.stderr)
        return 2
    print(f"{pid}: {evals} cases, {len(distinct)} distinct non-trivial, "
          f"{ev['wall_s']} s, violations={violations}")
    return code


def replay(path, props_loader):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    body = json.load(open(path))
    prop = props_loader()[body["property"]]
    sub = next(s for s in prop.subs if s.name == body["check"])
    try:
        guarded(sub, decode(body["case"]), Obs(), sub.limit)
    except Violation as e:
        print(f"# {sub.name}: {e}")
        print(f"VIOLATION property={body['property']} replay={path}")
        return 1
    print("replay passes")
    return 0
