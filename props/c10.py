"""C10: every SCF run ends within its limit and stops early only when converged."""
import numpy as np

from sim import cases, ref, run, workload as W
from sim.cases import Res
from . import invariants as I, scfgen as G

LEVEL = "exploration"
TERMINATES = True        # a run that never ends breaks the property
RULE = ("a case is a history of 1-3 runs with random limits, tolerances, mixing, automatic tolerance, refinement and "
        "continuation on one system, under a random schedule with up to three stalls of workers or caller (up to a day) "
        "and sometimes a failure; non-trivial when a run stopped before its limit or used it up with two or more iterations")
SECONDS = {"quick": 110, "thorough": 1500}
CASES = {"quick": 1500, "thorough": 100000}
REAL, STUBS, ASSUME = G.REAL, G.STUBS, G.ASSUME
KEEP_OPTS = ("auto_tol", "auto_tol_iter", "continuing", "iterative", "alpha")


def options(rng, part, k):
    o = {("max_iter" if part else "maxiter"): rng.choice([1, 2, 3, 4, 6, 9, 14, 25] if part else [1, 2, 3, 5, 8, 12, 20, 30]),
         "e_tol": rng.choice([0.3, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 0.0]),
         "iterative": rng.random() < 0.4,
         "disp": rng.random() < 0.3,
         "alpha": rng.choice([1.0, 0.82, 0.5, 0.3, 0.1, 0.02])}
    if part:
        o["alpha"] = [o["alpha"]] + ([rng.choice([0.82, 0.5, 0.3])] if rng.random() < 0.3 else [])
        if rng.random() < 0.2:
            o["calc_type"] = "sdft"
    if rng.random() < 0.35:
        o["auto_tol"] = True
        o["auto_tol_iter"] = rng.choice([0, 1, 2, 3, 6])
    if k > 0 and rng.random() < 0.5:
        o["continuing"] = True
    return o


def gen(rng, i, tier):
    name, spec = G.pick(rng, i, 0.55)
    if rng.random() < 0.4:
        spec = I.mutate(rng, spec)
    part = spec["kind"] == "part"
    steps = []
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        st = {"do": "scf", "opt": options(rng, part, k)}
        if part:
            iso = rng.random() < 0.4 or name in G.NO_INT or (k == 0 and name in G.ISO_FIRST)
            st["iso"] = iso
            if iso or name in G.NO_SDFT:
                st["opt"].pop("calc_type", None)
            if spec["opt"].get("ab_sym"):
                st["opt"]["alpha"] = st["opt"]["alpha"][:1]
            if spec["inv"] is not None and not iso:
                st["opt"]["max_iter"] = min(st["opt"]["max_iter"], 4)
        steps.append(st)
    case = {"spec": spec, "steps": steps, "sched": cases.sched(rng), "ambient": rng.randrange(1, 1 << 31), "faults": []}
    if rng.random() < 0.4:
        short = [dict(st, opt=dict(st["opt"], **{("max_iter" if part else "maxiter"): 2})) for st in steps[:1]]
        prof = cases.golden(spec, short)[1]
        table = {k: ["stall"] for k in cases.WORKER}
        if rng.random() < 0.2:
            table = cases.WORKER
        main = {k: ["stall"] for k in cases.MAIN}
        for _ in range(rng.choice([1, 2, 3])):
            f = cases.place(rng, prof, table, main)
            if f:
                case["faults"].append(f)
    for st in steps:
        if rng.random() < 0.25:
            st["letters"] = rng.choice(["upper", "title"])
    return case


def change(g, a, b):
    """(energy change, density change, the latter without quadrature weights), all relative"""
    (e0, n0), (e1, n1) = a, b
    de = abs((e1 - e0) / e1) if e1 else np.inf
    num, den = ref.integrate(g, abs(n1 - n0)), ref.integrate(g, abs(n1))
    m = den > 0
    dn = float(np.max(num[m] / den[m])) if m.any() else 0.0
    un = float(np.sum(abs(n1 - n0)) / np.sum(abs(n1)))
    return de, dn, un


def execute(case):
    res = Res()
    spec = case["spec"]
    part = spec["kind"] == "part"
    marks = []

    def before(obj, k):
        w = cases.core.active().watches[0]
        marks.append(len(w.trace))

    out, s, obj = run.run_steps(case, (), trace=True, hooks={"before": before}, max_steps=60000)
    res.took(s)
    res.tags.append(spec["name"])
    if cases.fatal(res, out, "the calculation"):
        return res
    if not out.watches:
        if not out.fired:
            res.bad("raises", f"cannot be set up: {cases.unexpected(out.steps[0]['exc'])}")
        return res
    w = out.watches[0]
    ends = marks[1:] + [len(w.trace)]
    g = W.grid(spec["grid"])
    for k, (st, rec, lo, hi) in enumerate(zip(case["steps"], out.steps, marks, ends)):
        o = st["opt"]
        limit = o.get("max_iter", 50) if part else o.get("maxiter", 100)
        n = rec["iters"]
        if rec["exc"] is not None:
            e = rec["exc"]
            if rec["fired1"] == rec["fired0"] and not cases.breakdown(s, e) \
                    and not (isinstance(e, SystemExit) and "inversion failures" in str(e)):
                bad = not any(f.kind != "stall" for f in s.fired)
                if bad:
                    res.bad("raises", f"run {k} raises without any failure: {cases.unexpected(e)}")
            break
        res.checks += 1
        if n > limit:
            res.bad("limit", f"run {k} did {n} iterations, its limit is {limit}")
            break
        full = limit if part else limit - 1
        res.probes["iterations"] = res.probes.get("iterations", 0) + n
        if n >= full:
            if n >= 2:
                res.nontrivial = True
                res.probes["used_up_limit"] = res.probes.get("used_up_limit", 0) + 1
            continue
        # stopped before the limit
        res.nontrivial = True
        res.checks += 1
        res.probes["stopped_early"] = res.probes.get("stopped_early", 0) + 1
        if o.get("auto_tol"):
            res.probes["stopped_early_auto_tol"] = res.probes.get("stopped_early_auto_tol", 0) + 1
        tol = o["e_tol"] * (1 + 1e-6) + 1e-13
        tr = [t for t in w.trace[lo:hi] if t[0] is not None]
        if n < 1 or not tr:
            res.bad("early_stop", f"run {k} stopped without a single iteration (limit {limit})")
            break
        if len(tr) < 2:
            if o["e_tol"] < 1:
                res.bad("early_stop", f"run {k} stopped after one iteration (limit {limit}, tolerance {o['e_tol']:g})")
                break
            continue
        de, dn, un = change(g, tr[-2], tr[-1])
        if not (de <= tol and dn <= tol):
            what = (f"run {k} stopped after {n} of {limit} iterations although the last one changed the energy by "
                    f"{de:.3g} and the density by {dn:.3g} (tolerance {o['e_tol']:g})")
            if spec["pol"] == 1 and de <= tol and un <= tol:
                res.bad("early_stop_colweights", what + f"; without quadrature weights the density changed by {un:.3g}")
            else:
                res.bad("early_stop", what)
            break
    return res
