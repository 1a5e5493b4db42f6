"""Writes properties.jsonl and MANIFEST.json (the wording of the properties lives here)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STD, EXT = "src/kalmankit/standard.py", "src/kalmankit/extended.py"
UT, VER = "src/kalmankit/utils.py", "src/kalmankit/_version.py"

TESTS = ("Of the ten tests, four run the standard filter on fixed data (three on one scalar record, "
         "one on a 2-state, 5-step record against pykalman) and one checks one predicted covariance")


def P(pid, title, statement, over, text, why, files, mech, note, technique, state=(), observe=(),
      assume=""):
    return dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, note=note, technique=technique, state=state,
                observe=observe)


L = []
L.append(P(
    "C01", "The filter returns the exact conditional mean and covariance",
    "For every linear-Gaussian model with given time-varying matrices, the standard filter's k-th "
    "state estimate and covariance are the mean and covariance of the state at step k conditional "
    "on the observations of steps 1..k, the starting state being the estimate before the first "
    "transition. This holds for every state, observation and control dimension, every record "
    "length and every step's own matrices.",
    ["inputs"], "all conforming models (A, B, H, Q, R, xk, Pk) with positive definite innovation "
    "covariance, all observation and control records",
    TESTS + "; none has correlated observation noise, time-varying noise, or dimensions that "
    "differ, and four records cannot stand for all.",
    [STD], [("predict", STD), ("update", STD), ("filter loop", STD)],
    "Exploration: thousands of random models per run against two independent oracles (joint "
    "Gaussian conditioning and a Joseph-form recursion); trusts the oracles, which are checked "
    "against each other, and numpy. Relative tolerance 1e-8.",
    "property-based differential testing against a batch-conditioning oracle"))
L.append(P(
    "C02", "The smoother returns each state's law given the whole record",
    "For every linear-Gaussian model whose predicted covariances are invertible, the standard "
    "smoother's k-th estimate and covariance are the mean and covariance of the state at step k "
    "conditional on all the observations of the record, including later ones. Controls and "
    "time-varying matrices count at the step they belong to in both passes.",
    ["inputs"], "all conforming models with invertible predicted covariance, all records with at "
    "least one observation, with and without controls",
    TESTS + "; the smoothing ones keep the noises constant and the control matrix at the identity, "
    "so a step mixed up between the passes can stay invisible.",
    [STD], [("smooth backward pass", STD), ("filter", STD)],
    "Exploration against joint Gaussian conditioning and a smoother of another form (modified "
    "Bryson-Frazier) on random time-varying models; ill-conditioned predicted covariances get a "
    "proportionally wider tolerance or are left out.",
    "property-based differential testing against a batch-conditioning oracle"))
L.append(P(
    "C03", "Single predict and update steps obey their equations and fold to filter",
    "A single prediction returns A x + B u (or A x without a control) and A P A' + Q, and a single "
    "update returns the mean and covariance conditioned on one observation, whatever calls were "
    "made before. Applying them in order over a record gives exactly what running the filter "
    "over that record gives.",
    ["inputs", "histories"], "all conforming arguments of a single step, in any order of calls on "
    "one object, positional or by keyword, controls absent as None or NaN",
    "One test calls predict once and looks at the covariance; none calls update. A user running "
    "the filter online depends on them alone.",
    [STD], [("predict", STD), ("update", STD)],
    "Exploration: direct evaluation of the documented formulas and of two-block conditioning, "
    "plus a fold over random records compared with the filter.",
    "property-based testing against the documented moments; fold/run metamorphic relation"))
L.append(P(
    "C04", "Controls enter at their own step; an absent control adds nothing",
    "The control of step k is added, through the control matrix of step k, to the prediction of "
    "step k and to nothing else, in both passes of the standard filter. A control that is absent "
    "(no control matrix, no control record, or an all-NaN entry) has the effect of a zero "
    "control, and a partly missing one is not silently dropped. The extended filter hands each "
    "step's control, or the absent marker, to the user's functions.",
    ["inputs"], "all models and control records, with any subset of steps without a control, "
    "control matrix and record present or omitted, integer or float data, both filters, both "
    "passes",
    "The tests run with a control record omitted or full, on float data, and never compare "
    "an absent control with a zero one.",
    [STD, EXT, UT], [("predict's NaN test", STD), ("absent-control marker", UT),
                     ("U in the EKF loop", EXT)],
    "Exploration: metamorphic pairs of runs (given, zero, omitted, removed by superposition) plus "
    "the batch oracle. Found and fixed: integer data turned the absent marker into a bogus "
    "control.",
    "property-based metamorphic testing with a reference oracle"))
L.append(P(
    "C05", "Covariances stay symmetric PSD and evidence never raises uncertainty",
    "Every covariance returned by the filters and smoothers is symmetric and positive "
    "semi-definite, an update never yields a covariance above the prediction it started from, and "
    "smoothing never yields one above the filtered covariance. In the standard filter the "
    "covariances depend on the model alone, never on the observed values, controls or starting "
    "mean.",
    ["inputs"], "all models with symmetric positive semi-definite covariances, both filters, all "
    "records, up to rounding",
    "No test looks at definiteness or ordering of the covariances; three fixed models cannot "
    "stand for all of them.",
    [STD, EXT], [("covariance update", STD), ("smoother covariance", STD),
                 ("EKF covariance update", EXT)],
    "Exploration: eigenvalue checks to 1e-8 of the prior scale on random models.",
    "property-based invariant checking"))
L.append(P(
    "C06", "One optimal gain per observation is recorded, in order",
    "Each update, single or within a run, appends exactly one gain, the optimal "
    "P H' (H P H' + R)^-1 of that update, to the object's list of gains, in observation order; "
    "earlier entries are never changed and nothing else is added, so a smoothing run adds as many "
    "as a filtering run.",
    ["inputs", "histories"], "all models and all sequences of filter, smooth, predict and update "
    "calls on one object, both filters",
    "No test reads the gains; the moving-average example plots them.",
    [STD, EXT], [("kalman_gains", STD), ("kalman_gains", EXT)],
    "Exploration over random call sequences with an independently computed gain for each update.",
    "stateful property-based testing against independently computed gains",
    state=[("kalman_gains", "the gains recorded so far", STD)]))
L.append(P(
    "C07", "Runs are pure: no history dependence and no modified arguments",
    "What a call returns depends only on the object's constructor arguments and the call's own "
    "arguments: earlier runs, aborted runs, other objects, and later changes to returned arrays "
    "or reused data buffers make no difference. No call modifies its arguments, the constructor's "
    "arguments, values returned by user functions, arrays returned earlier, or process-wide state "
    "such as NumPy's random stream and error handling.",
    ["histories", "fault_sequences"], "all sequences of calls on one or several filter objects, "
    "including calls aborted by a failing user function or a malformed observation, with data "
    "buffers rewritten between calls",
    "Every test builds a fresh object and makes one call on it.",
    [STD, EXT], [("xk and Pk kept out of the object's state", STD), ("fresh result arrays", STD),
                 ("EKF loop", EXT)],
    "Exploration: random histories of up to nine operations on up to three live objects, checked "
    "after every operation against a stateless reference model.",
    "stateful model-based testing with fault injection",
    state=[("xk, Pk", "starting estimate, must survive every run", STD)]))
L.append(P(
    "C08", "Estimates are causal and a record can be split anywhere",
    "Filtered estimates of step k do not change when later observations, controls or matrices "
    "change or are cut off, filtering the rest of a record from the estimate reached at a split "
    "point gives the same estimates as filtering it whole, and the last smoothed estimate equals "
    "the last filtered one. Smoothing the rest of a record from the split point gives the same "
    "smoothed estimates as smoothing it whole.",
    ["inputs"], "all models, records and split points, both filters",
    "The tests never run a prefix or restart a filter, and equality has to hold at every split "
    "point.",
    [STD, EXT], [("filter loop", STD), ("smoother initialisation", STD), ("EKF loop", EXT)],
    "Exploration: metamorphic relations between runs of the code itself, at random split points.",
    "property-based metamorphic testing"))
L.append(P(
    "C09", "Results do not depend on how the input is represented",
    "The same numbers give the same results whatever their dtype (integer or floating), memory "
    "layout, writability or documented shape: scalar observations as numbers or length-1 vectors, "
    "scalar noise as a number per step or 1x1 matrices, one float noise for the record, explicit "
    "or derived state size, positional or keyword arguments.",
    ["inputs", "configurations"], "all representable models; int32/int64/float32/float64/"
    "big-endian; C, Fortran, strided, reversed, broadcast and read-only arrays; all documented "
    "shapes, both filters",
    "The tests use float64 C-ordered arrays in one shape each; integer truncation or an in-place "
    "write would not show.",
    [STD, EXT, UT], [("float result arrays", STD), ("float R expansion", STD),
                     ("check_none_and_broadcast", UT)],
    "Exploration: each random model is run in a plain and in a random representation and "
    "compared. Found and fixed: a documented float R was rejected.",
    "property-based metamorphic and differential testing"))
L.append(P(
    "C10", "Estimates transform with the units and coordinates of the model",
    "Expressing a model in other coordinates (any invertible change of the state, observation or "
    "control basis, including permutations and sign flips) gives estimates and covariances that "
    "are the transformed originals; scaling all covariances by one factor leaves the means alone "
    "and scales the covariances. No absolute threshold, floor or unit is built into the results, "
    "so this holds at every magnitude.",
    ["inputs"], "all models and invertible changes of coordinates, with units from tiny to huge, "
    "both filters and both passes",
    "All tests use values around one; a jitter, clamp or epsilon of any size the tests tolerate "
    "would pass.",
    [STD, EXT], [("gain solve without regularisation", STD), ("same in the EKF", EXT)],
    "Exploration: exact powers of two for units, so that results must agree to rounding; general "
    "bases with a condition-based tolerance.",
    "property-based metamorphic testing"))
L.append(P(
    "C11", "On a linear model the extended filter equals the standard one",
    "When the transition and observation functions are affine and their Jacobians are the "
    "corresponding matrices, the extended filter and smoother return the same estimates, "
    "covariances and gains as the standard filter and smoother on those matrices.",
    ["inputs"], "all linear models whose transition varies through the control, all records",
    "The tests compare the extended filter with stored numbers of one scalar model and with "
    "pykalman on one 5-step model, never with the standard filter.",
    [EXT, STD], [("EKF predict/update/filter/smooth", EXT)],
    "Exploration: differential testing of the two implementations against each other and the "
    "oracle.",
    "property-based differential testing of two implementations"))
L.append(P(
    "C12", "The extended filter linearises at the right points and nowhere else",
    "For nonlinear models each step of the extended filter is the optimal Gaussian step of the "
    "model linearised about the previous filtered estimate for the transition and about the "
    "predicted estimate for the observation. The mean itself goes through the nonlinear functions "
    "and the innovation is the observation minus the predicted observation.",
    ["inputs"], "all differentiable models given as functions with exact Jacobians, scalar and "
    "vector observations, all records, filter and single steps",
    "The tests only use affine functions, for which every evaluation point gives the same "
    "Jacobian.",
    [EXT], [("predict", EXT), ("update", EXT), ("filter loop", EXT)],
    "Exploration: random smooth nonlinear models against an independent recursion that linearises "
    "at the documented points.",
    "property-based differential testing against a reference model"))
L.append(P(
    "C13", "The extended smoother is the smoother of the linearised model",
    "For nonlinear models the extended smoother returns, for every step, the exact smoothed mean "
    "and covariance of the affine-Gaussian model obtained by linearising the transition about "
    "each filtered estimate, started from the extended filter's own estimates.",
    ["inputs"], "all differentiable models with invertible predicted covariance, all records, with "
    "and without controls",
    "The one extended smoothing test is affine; a Jacobian taken at the wrong state, step or "
    "control gives the same result there.",
    [EXT], [("smooth backward pass", EXT)],
    "Exploration: compared with an adjoint smoother and with joint conditioning of the affine "
    "model along the filtered path.",
    "property-based differential testing against two reference smoothers"))
L.append(P(
    "C14", "Standard estimates are affine in the data",
    "For a fixed model the filtered and smoothed means are an affine function of the observations, "
    "controls and starting mean: the estimates of an affine combination of records are the same "
    "combination of the estimates. In particular no observation, however surprising, is clipped, "
    "gated or down-weighted.",
    ["inputs"], "all models, all pairs of records and all real weights, including large "
    "observations",
    "Superposition quantifies over pairs of records; the tests look at single ones with "
    "unsurprising values.",
    [STD], [("update", STD), ("smooth", STD)],
    "Exploration: superposition over random pairs of records and weights.",
    "property-based metamorphic testing"))
L.append(P(
    "C15", "Evidence combines consistently in any order and amount",
    "Independent observations give the same posterior whether taken jointly, one after another in "
    "any order, or as their precision-weighted average, and an observation that does not depend "
    "on the state changes nothing. A noise-free observation is reproduced exactly by the "
    "estimate, with zero variance in the observed direction.",
    ["inputs"], "all models and splits of the observation into independent groups, all orders, "
    "blind and noise-free components",
    "The tests never process the same evidence in two ways.",
    [STD, EXT], [("update", STD), ("update", EXT)],
    "Exploration: pairs of equivalent runs on random models.",
    "property-based metamorphic testing"))
L.append(P(
    "C16", "Long records: no drift, no change with age, correct steady state",
    "The equations of a step do not change with how many steps went before: over long records the "
    "estimates and covariances keep agreeing with an exact recursion, follow late changes of the "
    "model at once, and for constant models converge to the stabilising solution of the Riccati "
    "equation.",
    ["inputs", "histories"], "all detectable stable or marginally stable models over records of "
    "hundreds to thousands of steps, with constant, switching and periodic matrices",
    "The tests use records of five or ten steps.",
    [STD, EXT], [("filter loop", STD), ("EKF loop", EXT)],
    "Exploration of records of up to 71000 steps (scalar ones beyond 131072) against an independent "
    "recursion and scipy's Riccati solver.",
    "property-based testing against an independent recursion and a fixed-point oracle"))

import importlib.util  # noqa: E402

L.append(P(
    "C22", "Equivalent formulations of one process give the same estimates",
    "Writing the same process in another way does not change the estimates or their covariances: "
    "independent systems may be run together (their errors stay uncorrelated) or one by one, a "
    "control may be carried by a known constant component of the state or removed from the "
    "observations, uninformative steps may be spelled out or merged, and a state extended by its "
    "earlier values gives as their last estimates what the smoother gives.",
    ["inputs"], "all models and their reformulations, filter and smoother; independent systems "
    "for the extended filter, too",
    TESTS + "; no test runs one process in two formulations, and block-diagonal, singular or "
    "partly constant models do not occur.",
    [STD, EXT], [("predict", STD), ("update", STD), ("RTS recursion", STD)],
    "Exploration: metamorphic relations between two runs of the code itself; the reference only "
    "supplies the sizes the comparison is relative to.",
    "property-based metamorphic testing"))

extra = os.path.join(HERE, "tools", "properties_extra.py")
if os.path.exists(extra):
    spec = importlib.util.spec_from_file_location("properties_extra", extra)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    L += mod.rows(P)

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in L:
        assert len(p["title"]) <= 80, (p["pid"], len(p["title"]))
        row = {"id": p["pid"], "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["text"]},
               "why_tests_cant": p["why"],
               "anchors": {"files": p["files"],
                           "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                           "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                           "observe_at": list(p["observe"]) or ["return values of the public API"],
                           "hook_needed": None}}
        fh.write(json.dumps(row, ensure_ascii=False) + "\n")

man = {"version": 1, "setup_cmd": "bash check.sh selftest",
       "checks": [{"property": p["pid"], "quick_cmd": f"bash check.sh {p['pid']}",
                   "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['pid']}",
                   "evidence_file": f"evidence/{p['pid']}.json",
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
                  for p in L],
       "not_applicable": [],
       "notes": "One driver (kv/), one command per property. Failing cases are shrunk and written "
                "to replays/; 'bash check.sh replay FILE' judges one again."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1, ensure_ascii=False)
    fh.write("\n")
