"""C04: interrupted calculations resume to the same answer."""
import copy

import numpy as np

from sim import cases, ref, run, workload as W
from sim.cases import Res
from . import scfgen as G

LEVEL = "fault_enumeration"
RULE = ("a case is one system's SCF with one of several option sets, interrupted 1-3 times by faults at crossings or source "
        "lines of the real run (also of the resumed ones) and resumed each time in place, restarted, from a saved density on a "
        "new object, from a pickle or from a deep copy taken before or after the interruption, or cut into short runs by its iteration limit; non-trivial when an "
        "interruption really struck and a resumed run then ended")
SECONDS = {"quick": 110, "thorough": 1500}
CASES = {"quick": 1500, "thorough": 100000}
REAL, STUBS = G.REAL, G.STUBS
ASSUME = G.ASSUME + ["systems whose uninterrupted run converges (others have no answer to resume to)",
                     "a partition whose kinetic potential comes from an inversion is resumed from its object, not from the "
                     "density alone (the inversion starts from the fragments' orbitals)"]
KEEP_OPTS = ("continuing", "alpha", "iterative")

# interacting partitions that converge; everything converges isolated
INT_OK = ["He2_vw", "HeH_vw", "LiH_none", "LiHe_p", "H2_ess_nosym", "HeH_ess", "He2p_ens", "He2p_ens_nosym", "HeLi_ens",
          "HeLi_ens_ke", "H2p_ens", "He2_two", "He2_hart", "Li2_pi"]
ETOL = 1e-7


def opts(part, alpha, it, disp):
    return {("max_iter" if part else "maxiter"): 90, "e_tol": ETOL, "iterative": it, "disp": disp,
            "alpha": [alpha] if part else alpha}


def carried(rng, i):
    """The same session twice: with the objects carried through a pickle or copy in between, and without."""
    part = rng.random() < 0.7
    steps = []
    if part:
        name = rng.choice(INT_OK + ["He2_inv", "HeHp_inv", "He2_ovl", "He2p_ohxc"])
        name = name if name in W.PART else INT_OK[i % len(INT_OK)]
        spec = W.part_spec(name, cases.shape(rng))
    else:
        spec = W.ks_spec(rng.choice(list(W.KS)), cases.shape(rng))
    for k in range(rng.choice([2, 2, 3])):
        o = opts(part, rng.choice([0.3, 0.5, 0.8]), rng.random() < 0.6, rng.random() < 0.3)
        o["max_iter" if part else "maxiter"] = rng.choice([2, 3, 4, 6])
        st = {"do": "scf", "opt": o, "way": "first"}
        if part:
            st["iso"] = k == 0 and rng.random() < 0.3
            if k and rng.random() < 0.5:
                o[rng.choice(["freeze_a", "freeze_b"])] = True
        if k:
            steps.append({"do": rng.choice(["pickle", "pickle", "deepcopy"])})
            st["way"] = "pickle" if rng.random() < 0.85 else "restart"
        steps.append(st)
    case = {"mode": "carried", "spec": spec, "steps": steps, "sched": cases.sched(rng), "ambient": rng.randrange(1, 1 << 31), "faults": []}
    if rng.random() < 0.4:
        prof = cases.golden(spec, steps[:1])[1]
        f = cases.place(rng, prof, {}, cases.merge(cases.MAIN, cases.MAIN_MORE, cases.CTRL_C), skip_kinds=("stall", "nan"))
        if f is not None and f["task"] == "main" and f["site"] != "line":
            case["faults"].append(f)
    return case


def same(a, b):
    """Equal, but for rounding."""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    try:
        x, y = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return True
    if x.shape != y.shape:
        return False
    if not np.array_equal(np.isfinite(x), np.isfinite(y)):
        return False
    ok = np.isfinite(x)
    return not x[ok].size or bool(np.max(np.abs(x[ok] - y[ok])) <= 1e-7 * max(1.0, np.max(np.abs(x[ok]))))


def execute_carried(case):
    res = Res()
    spec = case["spec"]
    res.tags.append(spec["name"])
    runs = []
    for carry in (False, True):
        c = dict(case, steps=[copy.deepcopy(st) for st in case["steps"] if carry or st["do"] == "scf"])

        def before(obj, k, c=c):
            st = c["steps"][k]
            if st["do"] == "scf" and st["way"] == "pickle":
                st["opt"]["continuing"] = ready(obj, spec)
                return st["opt"]["continuing"]
            return None
        out, s, obj = run.run_steps(c, (), hooks={"before": before}, max_steps=60000)
        res.took(s)
        if cases.fatal(res, out, "the session"):
            return res
        runs.append([(st, r) for st, r in zip(c["steps"], out.steps) if st["do"] == "scf"])
        for st, r in zip(c["steps"], out.steps):
            if st["do"] != "scf" and r["exc"] is not None:
                res.bad("checkpoint", f"{st['do']} failed: {cases.unexpected(r['exc'])}")
                return res
    for k, ((st, a), (_, b)) in enumerate(zip(*runs)):
        res.checks += 2
        what = f"run {k}{' (continuing)' if b.get('before') else ''} on an object that was pickled or copied before"
        if (a["exc"] is None) != (b["exc"] is None):
            if not (cases.numerical(a["exc"] or b["exc"])):
                res.bad("carried", f"{what} {'raises ' + cases.unexpected(b['exc']) if b['exc'] is not None else 'ends'}, on the original it "
                                   f"{'raises ' + cases.unexpected(a['exc']) if a['exc'] is not None else 'ends'}")
            return res
        if a["exc"] is not None:
            if not same(a.get("before"), b.get("before")):
                return res
            continue
        if k:
            res.nontrivial = True
            res.probes["carried"] = res.probes.get("carried", 0) + 1
        if a["iters"] != b["iters"] or not same(a["result"], b["result"]):
            ea, eb = (energy(x["result"], True) for x in (a, b))
            diff = sorted(q for q in a["result"] if not same(a["result"][q], b["result"].get(q)))
            res.bad("carried", f"{what}: {b['iters']} iterations, energy {eb:.10g}; on the original {a['iters']}, {ea:.10g} (differing: {', '.join(diff)[:100]})")
            return res
    return res


def gen(rng, i, tier):
    if i % 6 == 5:
        return carried(rng, i)
    part = i % 10 < 4
    if part:
        iso = rng.random() < 0.35
        pool = list(W.PART) if iso else INT_OK
        name = pool[(i * 3 + i // 10) % len(pool)] if rng.random() < 0.5 else rng.choice(pool)
        spec = W.part_spec(name, cases.shape(rng))
    else:
        iso = None
        pool = list(W.KS)
        name = pool[(i * 7 + i // 10) % len(pool)] if rng.random() < 0.5 else rng.choice(pool)
        spec = W.ks_spec(name, cases.shape(rng))
    o = opts(part, 0.5, rng.random() < 0.65, rng.random() < 0.4)
    base = {"do": "scf", "opt": o}
    if iso is not None:
        base["iso"] = iso
    case = {"spec": spec, "base": base, "sched": cases.sched(rng), "ambient": rng.randrange(1, 1 << 31), "faults": []}
    g = cases.golden(spec, [base])
    if not usable(g, part):
        return None
    case["golden_iters"] = g[0].steps[0]["iters"]
    if i % 5 == 1 and case["golden_iters"] <= 40:
        return chunks(rng, case, base, part)
    # the session: a run that is hit, something in between, the next run, ...
    ways = ["continue", "continue", "continue", "restart", "pickle", "deepcopy", "saved"]
    if part and spec["inv"] is not None and not iso:
        ways = ["continue", "pickle", "deepcopy"]
    steps = []
    n = rng.choice([1, 1, 1, 2, 3])
    way = rng.choice(ways)
    if way == "saved" or rng.random() < 0.25:
        # a checkpoint exists from an earlier, shorter run (a limit can also end a run early)
        short = copy.deepcopy(base)
        short["opt"]["max_iter" if part else "maxiter"] = rng.choice([1, 2, 3, 4, 6])
        steps += [short, {"do": "save"}]
    for k in range(n):
        st = copy.deepcopy(base)
        st["way"] = "first" if not steps else way
        steps.append(st)
        way = rng.choice(ways)
        if way == "saved" and not any(s["do"] == "save" for s in steps):
            steps.append({"do": "save"})
        if way in ("pickle", "deepcopy"):
            steps.append({"do": way})
        if way == "saved":
            steps.append({"do": "fresh_from_saved"})
    last = copy.deepcopy(base)
    last["way"] = way
    steps.append(last)
    case["steps"] = steps
    # faults: address them by the profile of one uninterrupted run; the k-th interruption is
    # moved behind the crossings the earlier part of the session may have used
    lines = rng.random() < 0.5
    prof = cases.golden(spec, [base], lines=lines)[1]
    table = cases.merge(cases.MAIN, cases.MAIN_MORE, cases.CTRL_C)
    early = rng.random() < 0.5
    for k in range(n):
        main = {"line": ["interrupt", "interrupt", "memerr"]} if lines and rng.random() < 0.7 else table
        # a killed or failed worker, a failing call, Ctrl-C: all of them end the run
        f = cases.place(rng, prof, cases.WORKER, main, skip_kinds=("stall", "nan"),
                        window=(0.0, rng.choice([0.08, 0.2, 0.4])) if early else None)
        if f is not None and f["task"] != "main" and k == 0 and any(s["do"] == "save" for s in steps[:2]):
            pass
        if f is not None:
            case["faults"].append(f)
    return case


def bound_of(giters):
    return giters + 12 + giters // 3


def chunks(rng, case, base, part):
    """The run cut into short ones by its own iteration limit, some of them hit as well."""
    m = rng.choice([3, 4, 5, 6, 8, 11])
    key = "max_iter" if part else "maxiter"
    each = m if part else m - 1
    hits = rng.choice([0, 0, 1, 2])
    steps = []
    for k in range(-(-bound_of(case["golden_iters"]) // each) + hits):
        st = copy.deepcopy(base)
        st["opt"][key] = m
        st["way"] = "continue" if k else "first"
        if k and rng.random() < 0.15:
            steps.append({"do": rng.choice(["pickle", "deepcopy"])})
            st["way"] = "pickle"
        steps.append(st)
    case["steps"], case["chunk"] = steps, m
    prof = cases.golden(case["spec"], [base])[1]
    for _ in range(hits):
        f = cases.place(rng, prof, cases.WORKER, cases.merge(cases.MAIN, cases.MAIN_MORE, cases.CTRL_C), skip_kinds=("stall", "nan"))
        if f is not None:
            case["faults"].append(f)
    return case


def usable(g, part):
    st = g[0].steps[0]
    return st["exc"] is None and st["iters"] is not None and st["iters"] < 70 and g[0].fatal is None


def execute(case):
    if case.get("mode") == "carried":
        return execute_carried(case)
    res = Res()
    spec = case["spec"]
    part = spec["kind"] == "part"
    gold = cases.golden(spec, [case["base"]])
    if not usable(gold, part):
        e = gold[0].steps[0]["exc"]
        if e is not None and not cases.numerical(e):
            res.bad("raises", f"the uninterrupted run raises: {cases.unexpected(e)}")
        return res
    gst = gold[0].steps[0]
    gE, gn, giters = energy(gst["result"], part), gst["result"]["nf" if part else "n"], gst["iters"]
    c = dict(case, steps=resolve(case))

    def before(obj, k):
        # continue where there is something to continue from
        st = c["steps"][k]
        if st["do"] == "scf" and st.get("way") in ("continue", "pickle", "deepcopy", "saved"):
            st["opt"]["continuing"] = ready(obj, spec)
            return st["opt"]["continuing"]
        return None

    out, s, obj = run.run_steps(c, (), hooks={"before": before}, max_steps=cases.fault_limit(gold[2] * 6))
    res.took(s)
    res.tags.append(spec["name"])
    if cases.fatal(res, out, "the session"):
        return res
    g = W.grid(spec["grid"])
    struck, done = 0, 0
    for k, (st, rec) in enumerate(zip(c["steps"], out.steps)):
        if st["do"] != "scf":
            if rec["exc"] is not None:
                res.bad("checkpoint", f"{st['do']} failed: {cases.unexpected(rec['exc'])}")
                break
            continue
        hit = rec["fired1"] > rec["fired0"]
        struck += hit
        if rec["exc"] is not None:
            if not hit:
                res.bad("resume", f"run {k} ({st.get('way')}) after {struck} interruption(s) raises: {cases.unexpected(rec['exc'])}")
                break
            continue
        limit = st["opt"]["max_iter" if part else "maxiter"]
        done += rec["iters"]
        if case.get("chunk"):
            res.checks += 1
            res.nontrivial = True
            if not hit and not rec["iters"]:
                res.bad("progress", f"run {k} ({st.get('way')}), limited to {limit} iterations, makes none")
                break
            converged = rec["iters"] < (limit if part else limit - 1)
            if not converged and done < bound_of(giters):
                continue
            res.probes["reached_in_chunks"] = res.probes.get("reached_in_chunks", 0) + 1
        elif limit < 20:
            continue                          # the short run that makes the checkpoint
        # a run that ended on its own: the same answer, within the bound
        res.checks += 3
        if struck:
            res.nontrivial = True
            key = f"resumed_by_{st.get('way')}" + ("_continuing" if rec.get("before") else "")
            res.probes[key] = res.probes.get(key, 0) + 1
        E, n = energy(rec["result"], part), rec["result"]["nf" if part else "n"]
        dE = abs(E - gE) / max(1.0, abs(gE))
        dn = float(np.max(ref.integrate(g, abs(n - gn)))) if n is not None and n.shape == gn.shape else np.inf
        what = f"run {k} ({st.get('way')}{', continuing' if rec.get('before') else ''}) after {struck} interruption(s)"
        bound = bound_of(giters)
        if rec["iters"] > bound:
            res.bad("progress", f"{what} needs {rec['iters']} iterations, an uninterrupted run {giters}")
            break
        if not (dE <= 2e-5):
            res.bad("energy", f"{what} ends with energy {E:.9g}, an uninterrupted run with {gE:.9g}")
            break
        if not (dn <= 2e-4):
            res.bad("density", f"{what} ends with a density that differs by {dn:.3g} electrons")
            break
    res.probes["interruptions"] = struck
    return res


def resolve(case):
    return copy.deepcopy(case["steps"])


def energy(r, part):
    return float(np.asarray(r["E"].get("E", np.nan)))


def ready(obj, spec):
    """Is there a density to continue from?"""
    if spec["kind"] == "ks":
        return obj.n is not None
    names = ["KSa", "KSA", "KSb", "KSB"] if obj.ens else ["KSa", "KSb"]
    if obj.optPartition.ab_sym:
        names = [n for n in names if n in ("KSa", "KSA")]
    ok = all(getattr(obj, n).n is not None for n in names)
    if ok and spec["inv"] is not None and not obj.optPartition.isolated:
        ok = all(getattr(obj, n).veff is not None for n in names)
    return ok
