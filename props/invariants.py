"""Runner shared by the properties that are invariants of every iteration (C05, C06, C07, C15)."""
import copy

from sim import cases, run
from sim.cases import Res
from . import scfgen as G


def mutate(rng, spec):
    """Other members of the same family of systems."""
    spec = copy.deepcopy(spec)
    if rng.random() < 0.5:
        spec["grid"][3] = round(spec["grid"][3] * rng.choice([0.85, 0.93, 1.1, 1.25]), 4)
    o = spec["opt"]
    if spec["kind"] == "ks":
        if rng.random() < 0.35:
            o["fractional"] = True
        if o.get("fractional") and rng.random() < 0.6:
            full = 2 if spec["pol"] == 1 else 1
            for i, row in enumerate(spec["N"]):
                for j in range(len(row)):
                    m = spec["Nmo"][i][j]
                    if m:
                        cap = m * full * (1 if i == 0 else 2)
                        if o.get("interaction_type") == "ni":
                            row[j] = rng.choice([row[j], round(rng.uniform(0.1, cap), 3), cap])
                        else:       # no more electrons than before: the calculation stays bound
                            row[j] = rng.choice([row[j], round(rng.uniform(0.5, 1.0) * row[j], 3)])
            if "scf" in spec:           # spin-flip symmetry: as many up as down
                for row in spec["N"]:
                    row[1] = row[0]
        return spec
    if spec["inv"] is not None or o.get("hxc_part_type", "exact") not in ("exact", "hartree"):
        return spec
    if rng.random() < 0.5 and isinstance(spec["nu_a"], float) and spec["nu_a"] < 1:
        nu = rng.choice([0.05, 0.25, 0.5, 0.6, 0.9])
        spec["nu_a"] = nu
        spec["nu_b"] = nu if o.get("ab_sym") else rng.choice([0.3, 0.5, 0.75, 0.95])
    if rng.random() < 0.4 and o.get("kinetic_part_type") != "twoorbital":
        k = rng.choice(["none", "vonweiz", "lda", "gga"])
        for x in ("k_family", "ke_func_id"):
            o.pop(x, None)
        if k in ("lda", "gga"):
            o.update(kinetic_part_type="libxcke", k_family=k, ke_func_id=50 if k == "lda" else 500)
        else:
            o["kinetic_part_type"] = k
    if rng.random() < 0.2 and o.get("interaction_type", "dft") == "dft":
        o["hxc_part_type"] = rng.choice(["exact", "hartree"])
    if rng.random() < 0.15:
        o["xc_family"], o["xfunc_id"], o["cfunc_id"] = rng.choice([("lda", 1, 12), ("gga", 101, 130)])
    if rng.random() < 0.3 and spec["pol"] == 2 and o.get("kinetic_part_type") != "inversion":
        o["ens_spin_sym"] = not o.get("ens_spin_sym", False)
    if rng.random() < 0.15 and o.get("ab_sym"):
        o["ab_sym"] = False
    return spec


def gen(rng, i, tier, ks_share, kinds, part=None, ks=None, maxruns=3, freeze=0.35):
    name, spec = G.pick(rng, i, ks_share, ks=ks, part=part)
    if rng.random() < 0.6:
        spec = mutate(rng, spec)
    steps = G.ks_steps(rng, maxruns) if spec["kind"] == "ks" else G.part_steps(rng, name, spec, maxruns, freeze)
    case = {"spec": spec, "steps": steps, "sched": cases.sched(rng), "ambient": rng.randrange(1, 1 << 31), "faults": []}
    if rng.random() < 0.45:
        lines = rng.random() < 0.5
        prof = cases.golden(spec, steps, (), lines=lines)[1]
        table = cases.merge(cases.MAIN, cases.MAIN_MORE, cases.CTRL_C)
        for _ in range(rng.choice([1, 1, 2])):
            f = cases.place(rng, prof, cases.WORKER, table if not lines else {"line": ["interrupt", "interrupt", "memerr"]} if rng.random() < 0.7
                            else table, skip_kinds=("stall",))
            if f:
                case["faults"].append(f)
        # something must follow the failure
        last = copy.deepcopy(steps[-1])
        last["opt"].pop("freeze_a", None)
        last["opt"].pop("freeze_b", None)
        last["opt"]["continuing"] = rng.random() < 0.6
        case["steps"] = steps + [last]
    return case


def execute(case, kinds, max_steps=60000, after=None):
    res = Res()
    out, s, obj = run.run_steps(case, kinds, max_steps=max_steps)
    res.took(s)
    res.tags.append(case["spec"]["name"])
    if cases.fatal(res, out, "the calculation"):
        return res
    res.watched(out)
    for k, st in enumerate(out.steps):
        if st["exc"] is None:
            continue
        e = st["exc"]
        if st["fired1"] == 0:
            if isinstance(e, SystemExit) and "inversion failures" in str(e):
                break
            if cases.breakdown(s, e):
                res.probes["runs_that_diverged"] = res.probes.get("runs_that_diverged", 0) + 1
                break
            res.bad("raises", f"run {k} raises without any failure: {cases.unexpected(e)}")
            break
        res.probes["runs_that_raised"] = res.probes.get("runs_that_raised", 0) + 1
    n = sum(st.get("iters") or 0 for st in out.steps)
    res.nontrivial = n >= 1 and res.checks > 0
    res.probes["iterations"] = n
    if len(case["steps"]) > 1:
        res.probes["histories_of_several_runs"] = 1
    if after:
        after(case, out, s, obj, res)
    return res
