"""C02: a failed worker is never taken for a result."""
from sim import cases, run
from sim.cases import Res
from . import scfgen as G

LEVEL = "fault_enumeration"
TERMINATES = True        # a run that never ends breaks the property
RULE = ("a case is one system x options x schedule with 1-3 faults placed at crossings that a profiled failure-free "
        "run of the same workload really has (kind of site first, then the crossing); non-trivial when a fault fired "
        "that is not a mere delay")
SECONDS = {"quick": 110, "thorough": 1500}
CASES = {"quick": 2400, "thorough": 100000}
REAL, STUBS, ASSUME = G.REAL, G.STUBS, G.ASSUME


def gen(rng, i, tier):
    name, spec = G.pick(rng, i, 0.7, part=[p for p in cases.PART_ALL])
    if spec["kind"] == "ks":
        o = G.ks_opts(rng, maxiter=rng.choice([2, 3, 4]))
        steps = [{"do": "scf", "opt": o}]
        if rng.random() < 0.2:
            steps.append({"do": "scf", "opt": dict(G.ks_opts(rng, maxiter=3), continuing=True)})
    else:
        steps = G.part_steps(rng, name, spec, 2)
        for s in steps:
            if s["opt"]["max_iter"] < 7:
                s["opt"]["max_iter"] = min(s["opt"]["max_iter"], 2)
    case = {"spec": spec, "steps": steps, "sched": cases.sched(rng), "ambient": rng.randrange(1, 1 << 31), "faults": []}
    prof = cases.golden(spec, steps)[1]
    n = 1 if rng.random() < 0.7 else rng.choice([2, 2, 3])
    late = rng.random() < 0.4
    for _ in range(n):
        f = cases.place(rng, prof, cases.WORKER, cases.MAIN, window=(0.5, 1.0) if late else None)
        if f:
            case["faults"].append(f)
    return case


def execute(case):
    res = Res()
    spec, steps = case["spec"], case["steps"]
    gout, _, gsteps, _ = cases.golden(spec, steps)
    out, s, obj = run.run_steps(case, max_steps=cases.fault_limit(gsteps))
    res.took(s)
    res.tags.append(spec["name"])
    res.nontrivial = any(f.kind != "stall" for f in s.fired)
    if cases.fatal(res, out, "the calculation"):
        return res
    nan = any(f.kind == "nan" for f in s.fired)
    for k, (a, b) in enumerate(zip(out.steps, gout.steps)):
        res.checks += 1
        if a["exc"] is not None:
            if b["exc"] is not None:
                break
            if a["fired1"] == 0:
                res.bad("raises", f"run {k} raises without any failure: {cases.unexpected(a['exc'])}")
            if a["live"]:
                res.bad("orphan", f"run {k} raised {cases.unexpected(a['exc'])} and left workers running: {a['live']}")
            s_probe(res, "raised")
            break
        if b["exc"] is not None:
            res.bad("outcome", f"run {k} should have ended with {cases.unexpected(b['exc'])}")
            break
        # diagonalised again with another shift: the same orbitals but for rounding, which the ratios of
        # vanishing densities in a partition potential amplify
        d = run.differs(a["result"], b["result"], (1e-6 if spec["kind"] == "ks" else 1e-4) if nan else 1e-9)
        if d:
            res.bad("wrong", f"run {k} returned although {_what(s.fired)}, and its result is wrong: {d}")
            break
        if a["fired1"] > a["fired0"]:
            s_probe(res, "absorbed")
        if a["live"]:
            res.bad("orphan", f"run {k} returned and left workers running: {a['live']}")
    return res


def s_probe(res, k):
    res.probes[k] = res.probes.get(k, 0) + 1


def _what(fired):
    return ", ".join(map(repr, fired)) if fired else "nothing failed"
