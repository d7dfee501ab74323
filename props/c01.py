"""C01: worker scheduling never changes a result."""
import numpy as np

from sim import cases, ref, run, workload as W
from sim.cases import Res
from . import scfgen as G

LEVEL = "exploration"
RULE = ("a case is one system x options x scheduling policy x ambient random state; non-trivial when at least two "
        "workers were runnable at once and the decision sequence differs from first-in-first-out")
SECONDS = {"quick": 110, "thorough": 1500}
CASES = {"quick": 1500, "thorough": 100000}
REAL, STUBS, ASSUME = G.REAL, G.STUBS, G.ASSUME
KINDS = ("orb", "cons")


def gen(rng, i, tier):
    name, spec = G.pick(rng, i, 0.55)
    if spec["kind"] == "ks":
        steps = [{"do": "scf", "opt": G.ks_opts(rng)}]
        if rng.random() < 0.25:
            steps.append({"do": "scf", "opt": dict(G.ks_opts(rng), continuing=True)})
    else:
        steps = G.part_steps(rng, name, spec, 2)
    case = {"spec": spec, "steps": steps, "sched": cases.sched(rng), "ambient": rng.randrange(1, 1 << 31), "faults": []}
    if rng.random() < 0.4:        # workers that take very long
        g = cases.golden(spec, steps)
        for _ in range(rng.choice([1, 2, 4])):
            f = cases.place(rng, g[1], {k: ["stall"] for k in cases.WORKER}, {})
            if f:
                case["faults"].append(f)
    return case


def run_case(case, res):
    spec, steps = case["spec"], case["steps"]
    gout, prof, gsteps, _ = cases.golden(spec, steps, KINDS)
    out, s, obj = run.run_steps(case, KINDS, max_steps=cases.fault_limit(gsteps))
    res.took(s)
    if cases.fatal(res, out, "the calculation"):
        return
    res.watched(out)
    res.watched(gout)
    for k, (a, b) in enumerate(zip(out.steps, gout.steps)):
        if (a["exc"] is None) != (b["exc"] is None):
            res.bad("outcome", f"run {k}: {cases.unexpected(a['exc'] or b['exc'])} under "
                               f"{'this' if a['exc'] is not None else 'the sequential'} schedule only")
            return
        if a["exc"] is not None:
            if not _expected(b["exc"]) and not cases.breakdown(s, a["exc"]):
                res.bad("raises", f"run {k} raises without any failure: {cases.unexpected(b['exc'])}")
            return
        d = run.differs(a["result"], b["result"], 1e-9)
        res.checks += 1
        if d:
            res.bad("differs", f"run {k}: result depends on the schedule: {d}")
    if spec["kind"] == "ks":
        model(case, out, res)
    chans(case, obj, res)
    res.nontrivial = len(s.policy.taken) > 0 and any(s.policy.taken)
    res.tags.append(spec["name"])


def _expected(e):
    """Runs that end early by design."""
    return isinstance(e, SystemExit) and "inversion failures" in str(e)


_models = {}


def model(case, out, res):
    """The independent sequential calculation."""
    spec = case["spec"]
    g = W.grid(spec["grid"])
    start, loose = None, False
    for k, (step, rec) in enumerate(zip(case["steps"], out.steps)):
        o = step["opt"]
        cont = o.get("continuing", False)
        if k > 0 and not cont:
            start, loose = None, False
        loose = loose or o["iterative"]
        m = ref.KSModel(g, spec, W.field(g, spec["pol"], spec["field"]) if spec.get("field") else None).scf(o["e_tol"], o["alpha"], o["maxiter"], start)
        r = rec["result"]
        start = m.n
        res.checks += 3
        if not np.isfinite(m.E):
            return
        if cont and o["iterative"]:
            return          # refines the orbitals it has, once per iteration: only the limit is defined
        if o["iterative"] and not m.diff < 1e-5:
            return          # one Newton step per iteration instead of a full diagonalisation
        tol = 1e-8 if not loose else 1e-4
        if abs(float(r["E"]["E"]) - m.E) > tol * max(1, abs(m.E)):
            res.bad("model_E", f"run {k}: total energy {float(r['E']['E']):.10f} instead of {m.E:.10f}")
        elif abs(float(r["u"]) - m.u) > 10 * tol * max(1, abs(m.u)):
            res.bad("model_u", f"run {k}: chemical potential {float(r['u']):.10f} instead of {m.u:.10f}")
        elif np.max(np.abs(r["n"] - m.n)) > 100 * tol * np.max(m.n):
            res.bad("model_n", f"run {k}: density differs from the model by {np.max(np.abs(r['n'] - m.n)):.3g}")


def chans(case, obj, res):
    """Every channel solved its own Hamiltonian for its own number of orbitals."""
    spec = case["spec"]
    if case["steps"][-1]["opt"].get("iterative"):
        return
    g = W.grid(spec["grid"])
    objs = {"KS": obj} if spec["kind"] == "ks" else \
        {nm: getattr(obj, nm) for nm in ("KSa", "KSA", "KSb", "KSB") if hasattr(obj, nm)}
    for nm, ks in objs.items():
        if spec["kind"] == "part" and spec["opt"].get("ab_sym") and nm in ("KSb", "KSB"):
            continue
        Nmo = np.array(ks.Nmo)
        for i in range(Nmo.shape[0]):
            for j in range(Nmo.shape[1]):
                k = int(Nmo[i, j])
                if k == 0:
                    continue
                sol = ks.solver[i, j]
                v = np.ascontiguousarray(np.asarray(sol.veff, float).ravel())
                if not np.all(np.isfinite(v)):
                    continue
                w = ref.eigen(g, i, v, g.Nelem)[0]
                if w[0] < -10 * (spec["Za"] + spec["Zb"]) ** 2 - 10:
                    # the calculation diverged; for such a potential dense diagonalisation is no oracle
                    continue
                e = np.sort(np.asarray(sol.eig, float).ravel())
                res.checks += 1
                if not ref.are_lowest(e, w, k, getattr(sol, "e0", -np.inf)):
                    res.bad("channel", f"{nm} channel ({i},{j}): eigenvalues {e} instead of {w[:k]}")


def execute(case):
    res = Res()
    run_case(case, res)
    return res
