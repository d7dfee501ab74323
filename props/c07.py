"""C07: fragment B is the mirror image of A after every iteration of an AB-symmetric run."""
import copy

import numpy as np

from sim import cases, run, workload as W
from sim.cases import Res
from . import invariants as I, scfgen as G

LEVEL = "exploration"
RULE = ("a case is a random history of 1-4 runs of an AB-symmetric system under a random schedule, half of them with faults "
        "or interrupts, checked at every iteration; or the same system run to convergence with and without the declaration "
        "under different schedules; non-trivial when at least one iteration was checked")
SECONDS = {"quick": 110, "thorough": 1500}
CASES = {"quick": 1900, "thorough": 100000}
REAL, STUBS, ASSUME = G.REAL, G.STUBS, G.ASSUME
KINDS = ("mirror",)
KEEP_OPTS = ("e_tol",)
SYM = [n for n in cases.PART_ALL if W.PART[n][10].get("ab_sym")]
# (system, isolated) whose SCF converges
TWINS = [("He2_two_sym", False), ("He2_vw", True), ("He2_vw", False), ("H2_ess", True), ("He2p_ens", True), ("He2p_ens", False),
         ("H2p_ens", False), ("Li2_pi", True), ("Li2_pi", False), ("He2_gga", True), ("He2_inv", True)]


def gen(rng, i, tier):
    if i % 12 == 5:
        name, iso = TWINS[i // 12 % len(TWINS)]
        spec = W.part_spec(name, cases.shape(rng))
        step = {"do": "scf", "iso": iso, "opt": {"max_iter": 90, "e_tol": 1e-7, "alpha": [rng.choice([0.5, 0.6])],
                                                 "iterative": rng.random() < 0.4}}
        return {"spec": spec, "steps": [step], "sched": cases.sched(rng), "ambient": rng.randrange(1, 1 << 31),
                "faults": [], "twin": True}
    for _ in range(20):
        case = I.gen(rng, i, tier, 0.0, KINDS, part=SYM)
        if case["spec"]["opt"].get("ab_sym"):
            break
    case["poke"] = rng.random() < 0.5
    return case


def published(p, ens):
    out = {}
    for nm in ("KSb", "KSB") if ens else ("KSb",):
        k = getattr(p, nm)
        for at in ("n", "Q", "veff", "vext", "u"):
            v = getattr(k, at)
            out[nm, at] = None if v is None else np.array(v, float)
        for at in ("vx", "vc", "vh", "vp", "ex", "ec", "eh"):
            if hasattr(k.V, at):
                out[nm, "V." + at] = np.array(getattr(k.V, at), float)
        for at, v in vars(k.E).items():
            if isinstance(v, (int, float, np.number, np.ndarray)):
                out[nm, "E." + at] = np.array(v, float)
    return out


def poke(case, out, s, obj, res):
    """Update fragment A through its own methods and in place: B's published data stay."""
    if not case.get("poke") or obj is None or not hasattr(obj.KSb, "n") or obj.KSb.n is None \
            or not all(np.all(np.isfinite(k.n)) for k in (obj.KSa, obj.KSb) if k.n is not None) \
            or any(st["exc"] is not None for st in out.steps):
        return
    before = published(obj, obj.ens)
    for nm in ("KSa", "KSA") if obj.ens else ("KSa",):
        k = getattr(obj, nm)
        k.n *= 1.25
        k.calc_hxc_potential()
        k.set_effective_potential()
        k.energy()
        k.calc_chempot()
        for a in (k.n, k.veff, k.vext, k.V.__dict__.get("vp"), k.V.__dict__.get("vh"), k.Q):
            if isinstance(a, np.ndarray):
                a += 1.0
        k.u = 7.0
    after = published(obj, obj.ens)
    res.checks += len(before)
    res.probes["fragment_A_updated_afterwards"] = res.probes.get("fragment_A_updated_afterwards", 0) + 1
    for key in before:
        x, y = before[key], after.get(key)
        if x is None and y is None:
            continue
        if y is None or not np.array_equal(x, y, equal_nan=True):
            res.bad("alias", f"updating fragment A after the run changes fragment B's {'.'.join(key)}")
            return


def execute(case):
    if case.get("twin"):
        return twin(case)
    return I.execute(case, KINDS, after=poke)


def twin(case):
    res = Res()
    spec = case["spec"]
    out, s, _ = run.run_steps(case, KINDS, max_steps=60000)
    res.took(s)
    res.tags.append(spec["name"] + "/twin")
    if cases.fatal(res, out, "the calculation"):
        return res
    res.watched(out)
    st = out.steps[0]
    if st["exc"] is not None:
        if not cases.breakdown(s, st["exc"]):
            res.bad("raises", f"raises without any failure: {cases.unexpected(st['exc'])}")
        return res
    other = copy.deepcopy(spec)
    other["opt"]["ab_sym"] = False
    gout = cases.golden(other, case["steps"])[0]
    g = gout.steps[0]
    lim = case["steps"][0]["opt"]["max_iter"]
    if g["exc"] is not None or g["iters"] >= lim:
        return res
    res.checks += 3
    res.nontrivial = True
    res.probes["runs_compared_with_undeclared_twin"] = 1
    if st["iters"] >= lim:
        res.bad("twin", f"does not converge in {lim} iterations; without the symmetry declaration it takes {g['iters']}")
        return res
    for k, tol in (("E", 1e-6), ("Ef", 1e-6), ("Ep", 1e-5)):
        x, y = float(st["result"]["E"][k]), float(g["result"]["E"][k])
        if not abs(x - y) <= tol * max(1.0, abs(y)):
            res.bad("twin", f"converges to {k} = {x:.9g}; without the symmetry declaration to {y:.9g}")
            return res
    d = run.differs(st["result"]["nf"], g["result"]["nf"], 1e-5)
    if d:
        res.bad("twin", f"molecular density differs from the run without the symmetry declaration: {d}")
    return res
