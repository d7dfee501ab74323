"""C03: after a failure there is no mixed state, and a clean retry succeeds."""
import numpy as np

from sim import cases, run
from sim.cases import Res
from . import scfgen as G

LEVEL = "fault_enumeration"
RULE = ("a case is one system x options x schedule; one transient fault at a crossing the workload really has (workers, "
        "IPC, process creation, the caller's own numerics and output), then the same calculation again on the same "
        "object, then on a fresh one; non-trivial when the first calculation raised")
SECONDS = {"quick": 110, "thorough": 1500}
CASES = {"quick": 1500, "thorough": 100000}
KEEP_OPTS = ("iterative",)
REAL, STUBS, ASSUME = G.REAL, G.STUBS, G.ASSUME


def gen(rng, i, tier):
    name, spec = G.pick(rng, i, 0.6)
    if spec["kind"] == "ks":
        one = {"do": "scf", "opt": G.ks_opts(rng, maxiter=rng.choice([2, 3, 4]))}
    else:
        iso = name in G.NO_INT or name in G.ISO_FIRST or rng.random() < 0.4
        # an iterative partition run starts from the orbitals it has: its result is
        # reproducible on the same object only in the limit (C04)
        one = {"do": "scf", "iso": iso, "opt": G.part_opts(rng, max_iter=rng.choice([1, 2, 3]), iterative=False)}
        if spec["opt"].get("ab_sym"):
            one["opt"]["alpha"] = one["opt"]["alpha"][:1]
        if not iso and name not in G.NO_SDFT and rng.random() < 0.3:
            one["opt"]["calc_type"] = "sdft"
    # a fault in the object's first calculation, or in a later one
    pre = 1 if rng.random() < 0.35 else 0
    case = {"spec": spec, "pre": pre, "steps": [one], "sched": cases.sched(rng), "ambient": rng.randrange(1, 1 << 31), "faults": []}
    prof = cases.golden(spec, [one] * (1 + pre), ("atomic",))[1]
    for _ in range(rng.choice([1, 1, 1, 2])):
        for _ in range(5):
            f = cases.place(rng, prof, cases.WORKER, cases.merge(cases.MAIN, cases.MAIN_MORE),
                            skip_kinds=("stall", "nan") if rng.random() < 0.9 else (),
                            window=(0.5, 1.0) if pre else None)
            if f and f["kind"] != "stall":
                case["faults"].append(f)
                break
    return case


def same(a, b, tol):
    return run.differs({0: a}, {0: b}, tol) is None


def execute(case):
    res = Res()
    spec, one = case["spec"], case["steps"][0]
    pre = case.get("pre", 0)
    gout, _, gsteps, _ = cases.golden(spec, [one] * (1 + pre), ("atomic",))
    gold = gout.steps[pre]
    if any(st["exc"] is not None for st in gout.steps):
        return res
    again = [one] * (2 + pre) + [{"do": "fresh"}, one]
    out, s, obj = run.run_steps(dict(case, steps=again), ("atomic",), max_steps=4 * cases.fault_limit(gsteps))
    res.took(s)
    res.tags.append(spec["name"])
    if cases.fatal(res, out, "the calculation"):
        return res
    at = 0 if pre and out.steps[0]["fired1"] else pre       # struck early: the others are repetitions
    first = out.steps[at]
    raised = first["exc"] is not None
    res.nontrivial = raised
    if raised and first["fired1"] == 0:
        res.bad("raises", f"raises without any failure: {cases.unexpected(first['exc'])}")
    if not out.watches:                 # it could not even be set up
        return res
    w = out.watches[0]
    nan = any(f.kind == "nan" for f in s.fired)
    tol = (1e-6 if spec["kind"] == "ks" else 1e-4) if nan else 1e-9
    # all channels as before the failed evaluation, or all as after it
    for k, name, before, after, exc in w.failures[:1]:
        if pre and first is out.steps[0]:
            break
        gh = gout.watches[0].history
        if k >= len(gh) or gh[k][0] != name:
            continue
        new = gh[k][1]
        res.checks += 1
        res.probes["failed_evaluations"] = res.probes.get("failed_evaluations", 0) + 1
        old_ok = {c: same(after[c], before[c], 0.0) for c in after}
        new_ok = {c: same(after[c], new[c], 1e-8) for c in after}
        if not (all(old_ok.values()) or all(new_ok.values())):
            res.bad("mixed", f"{name} after a failed density evaluation ({exc}): channels "
                             f"{[c for c in after if not old_ok[c]]} were changed, {[c for c in after if old_ok[c]]} not")
    later = [x for x in out.steps[at + 1:] if x["do"] == "scf"][-2:]
    for what, r in zip(("the same object", "a fresh object"), later):
        if any(f.kind != "stall" for f in s.fired[r["fired0"]:r["fired1"]]):
            break                      # the second fault struck here
        res.checks += 1
        if r["exc"] is not None:
            res.bad("retry_raises", f"after {_what(s.fired, first)}, repeating the calculation on {what} raises "
                                    f"{cases.unexpected(r['exc'])}")
            break
        if r is later[0] and spec.get("inv") and one.get("iso") is False:
            # an inversion starts from the last one's potential and ends within its own tolerance
            x, y = float(r["result"]["E"]["E"]), float(gold["result"]["E"]["E"])
            d = None if abs(x - y) <= 2e-3 * abs(y) else f"energy {x} / {y}"
        else:
            d = run.differs(r["result"], (gold if r is later[0] else gout.steps[0])["result"], tol)
        if d:
            res.bad("retry_differs", f"after {_what(s.fired, first)}, repeating the calculation on {what} gives another result: {d}")
            break
        if r["live"]:
            res.bad("orphan", f"workers still running: {r['live']}")
    return res


def _what(fired, first):
    e = first["exc"]
    return ", ".join(map(repr, fired)) + (f" ({type(e).__name__})" if e is not None else " (absorbed)")
