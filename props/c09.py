"""C09: a density inversion never claims success it does not have."""
import copy
import json

import numpy as np

from sim import cases, env, ref, run, workload as W
from sim.cases import Res
from . import c11, scfgen as G

LEVEL = "exploration"
RULE = ("a case is a sequence of 1-5 inversions of good and bad targets with one inverter (options changed in between), or 1-2 partition "
        "runs using one, with 0-3 solver faults or interrupts; every report is compared with what the inverter left behind; "
        "non-trivial when an inversion iterated")
SECONDS = {"quick": 110, "thorough": 1500}
CASES = {"quick": 2400, "thorough": 100000}
REAL, STUBS = G.REAL, G.STUBS
ASSUME = G.ASSUME + ["the eigensolver fails or returns non-numbers, it does not return wrong orbitals that look right"]

# families of systems one inverter can be asked for on the same grid: name -> Za, Zb, Nmo, N
FAM = {"two": {"H2": (1, 1), "He": (2, 0), "HeHp": (2, 1), "Hm": (1, 0)},
       "four": {"He2": (2, 2), "LiH": (3, 1), "Be": (4, 0), "HLi": (1, 3)},
       "six": {"Li2": (3, 3), "LiHe": (3, 2)},
       "pi": {"pi1": (2, 1)}}
NMO = {"two": ([[1]], [[2]]), "four": ([[2]], [[4]]), "six": ([[3]], [[6]]), "pi": ([[2], [1]], [[4], [4]])}
KINDS = ["exact", "exact", "exact", "exact", "scaled", "bump", "noise", "nan", "tiny", "inside", "swap"]


# ----------------------------------------------------------------- generator
def options(rng, sym):
    typ = rng.choice(["wuyang", "orbitalinvert", "orbitalinvert"])
    o = {"invert_type": typ, "tol_invert": rng.choice([1e-16, 1e-12, 1e-10, 1e-8, 1e-8, 1e-6, 1e-4, 1e-2, 1e-2, 0.03]), "disp": rng.random() < 0.2,
         "ab_sym": sym and rng.random() < 0.5, "max_iter_invert": rng.choice([1, 2, 4, 8, 20, 20, 30])}
    if typ == "orbitalinvert":
        if rng.random() < 0.35:
            o["avoid_loop"] = True
        if rng.random() < 0.2:
            o["res_factor"] = rng.choice([1e-3, 1e2, 1e6])
        if rng.random() < 0.03:
            o["use_iterative"] = True
    return o


def one_op(rng, fam, sym, prev):
    names = sorted(FAM[fam])
    sysname = rng.choice(names)
    t = {"sys": sysname, "kind": rng.choice(KINDS), "amp": rng.choice([1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.3]), "seed": rng.randrange(1 << 20)}
    guess = {"sys": sysname if rng.random() < 0.8 else rng.choice(names), "vscale": rng.choice([1.0, 1.0, 0.99, 0.95, 0.9, 1.05, 1.3]),
             "asym": rng.choice([0.0, 0.0, 0.0, 1e-6, 1e-3, 0.05]), "noise": rng.choice([0.0, 0.0, 0.0, 0.01, 0.2])}
    op = {"do": "invert", "target": t, "guess": guess, "fresh": rng.random() < 0.25}
    if prev is None or rng.random() < 0.5:
        op["opt"] = options(rng, sym or rng.random() < 0.05)
    if rng.random() < 0.3:
        op["start"] = True                # the caller puts the guess in the solver, too
    return op


def last_op(rng, fam):
    """One that has to succeed, whatever happened to the inverter before."""
    name = rng.choice(sorted(FAM[fam]))
    typ = "wuyang" if fam == "pi" else rng.choice(["wuyang", "orbitalinvert"])
    near = 1.0 if name in ("LiH", "HLi", "pi1") else rng.choice([1.0, 0.99])
    return {"do": "invert", "must": True, "fresh": rng.random() < 0.1, "start": True,
            "opt": {"invert_type": typ, "tol_invert": 1e-6, "max_iter_invert": 30, "disp": False,
                    "ab_sym": name in ("H2", "He2", "Li2") and rng.random() < 0.4},
            "target": {"sys": name, "kind": "exact", "amp": 0.0, "seed": 1}, "guess": {"sys": name, "vscale": near, "asym": 0.0, "noise": 0.0}}


def gen(rng, i, tier):
    case = {"sched": cases.sched(rng), "ambient": rng.randrange(1, 1 << 31), "faults": [], "lsq_limit": rng.choice([3, 8, 25, 25, 60])}
    if i % 4 == 3:                        # within a partition run
        name = rng.choice(["He2_inv", "He2_inv", "H2_inv", "HeHp_inv"])
        spec = W.part_spec(name, cases.shape(rng))
        inv = spec["inv"][2]
        inv["tol_invert"] = rng.choice([1e-12, 1e-8, 1e-6, 1e-4])
        inv["max_iter_invert"] = rng.choice([2, 5, 20, 20])
        if rng.random() < 0.3 and name != "H2_inv":
            inv["invert_type"] = rng.choice(["wuyang", "orbitalinvert"])
        if rng.random() < 0.2 and name == "He2_inv":
            inv["ab_sym"] = spec["opt"]["ab_sym"] = False
        steps = []
        for k in range(rng.choice([1, 1, 2])):
            o = G.part_opts(rng, rng.choice([1, 2, 3, 4]))
            o["alpha"] = o["alpha"][:1]
            if k and rng.random() < 0.6:
                o["continuing"] = True
            steps.append({"do": "scf", "iso": k == 0 and rng.random() < 0.3, "opt": o})
        case.update(mode="part", spec=spec, steps=steps)
    else:
        fam = rng.choice(["two", "two", "four", "four", "four", "six", "pi"])
        sh = rng.choice([(4, 3, 3), (4, 3, 3), (3, 4, 4)])
        grid = [sh[0], sh[1], sh[2], rng.choice([0.7, 0.9, 1.5]), 10.0]
        sym = fam != "pi" and rng.random() < 0.4
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3, 4, 5])):
            op = one_op(rng, fam, sym, ops)
            if sym and rng.random() < 0.85:
                op["target"]["sys"] = op["guess"]["sys"] = {"two": "H2", "four": "He2", "six": "Li2"}[fam]
            ops.append(op)
        if "opt" not in ops[0]:
            ops[0]["opt"] = options(rng, sym)
        case.update(mode="alone", fam=fam, grid=grid, ops=ops, pol=2 if fam == "two" and rng.random() < 0.1 else 1)
        if case["pol"] == 1 and rng.random() < 0.6:
            ops.append(last_op(rng, fam))
    x = rng.random()
    if x < 0.15:                          # a solver that only ever goes part of the way
        k0, arg = rng.choice([0, 0, 1, 3, 10]), rng.choice([0.1, 0.2, 0.4, 0.7])
        case["faults"] = [{"task": "main", "site": "num.solve", "nth": k, "kind": "damp", "arg": arg} for k in range(k0, k0 + 60)]
    elif x < 0.6:
        lines = rng.random() < 0.4
        prof = golden(case, lines)
        table = cases.merge({"num.solve": ["singular", "memerr", "nan", "off", "off", "off"], "num.spsolve": ["singular", "memerr", "nan"],
                             "num.eigs": ["noconv", "memerr", "nan"], "num.bicgstab": ["unconv", "memerr"], "num.spilu": ["singular"],
                             "num.inv": ["singular"], "num.lstsq": ["singular"], "num.factorized": ["memerr"], "num.splu": ["singular"]},
                            {"num.solve": ["interrupt"], "num.eigs": ["interrupt"]})
        if lines:
            table = cases.merge({"line": ["interrupt", "interrupt", "memerr"]}, {"num.solve": ["off", "nan"]})
        for _ in range(rng.choice([1, 1, 2, 3])):
            f = cases.place(rng, prof, cases.WORKER, table)
            if f:
                case["faults"].append(f)
    return case


_prof = {}


def golden(case, lines):
    key = json.dumps([{k: v for k, v in case.items() if k not in ("sched", "ambient", "faults")}, lines], sort_keys=True)
    if key not in _prof:
        if len(_prof) > 40:
            _prof.pop(next(iter(_prof)))
        c = dict(case, faults=[], sched={"mode": "fifo"}, ambient=1)
        _prof[key] = run.profile(session(c, Res(), lines)[0])
    return _prof[key]


# ------------------------------------------------------------------- session
def system(fam, name, grid):
    """(density, potential, orbitals, eigenvalues) of a real calculation, made outside the case."""
    Za, Zb = FAM[fam][name]
    Nmo, N = NMO[fam]
    spec = {"name": f"{name}_c09", "grid": list(grid), "Za": Za, "Zb": Zb, "pol": 1, "Nmo": Nmo, "N": N}
    if fam == "pi":
        spec["opt"] = {"interaction_type": "ni"}
    return target_of(spec)


_sys = {}


def target_of(spec):
    key = json.dumps(spec, sort_keys=True)
    if key not in _sys:
        ks = {"kind": "ks", "opt": {}}
        ks.update(spec)
        out, _, obj = run.run_steps({"spec": ks, "steps": [{"do": "scf", "opt": {"maxiter": 25, "e_tol": 1e-7, "disp": False}}],
                                     "sched": {"mode": "fifo"}, "ambient": 1})
        sol = [obj.solver[i, 0] for i in range(obj.solver.shape[0])]
        _sys[key] = (obj.n.copy(), obj.veff.copy(), np.hstack([s.phi for s in sol]), np.concatenate([np.ravel(s.eig) for s in sol]))
    return _sys[key]


def make_target(case, t, g):
    n = system(case["fam"], t["sys"], case["grid"])[0].copy()
    rng = np.random.RandomState(t["seed"])
    z = np.cosh(g.Xr) * np.cos(g.Xa)
    tot = ref.integrate(g, n)
    k, amp = t["kind"], t["amp"]
    if k == "scaled":
        n *= 1 + amp
    elif k == "bump":
        n *= (1 + min(amp, 0.3) * np.sin(z + t["seed"]))[:, None]
        n *= tot / ref.integrate(g, n)
    elif k == "noise":
        n *= np.exp(amp * rng.randn(*n.shape))
        n *= tot / ref.integrate(g, n)
    elif k == "nan":
        n[rng.randint(n.size), 0] = rng.choice([np.nan, np.inf])
    elif k == "tiny":
        n = np.maximum(n, 1e-14 * n.max())
    elif k == "inside":                   # one region moved
        n[n[:, 0] > np.median(n), 0] *= 1 + amp
    elif k == "swap":
        n = ref.mirror(g, n).copy()
    return n


def make_guess(case, gs, g, t):
    n, v, phi, e = (x.copy() for x in system(case["fam"], gs["sys"], case["grid"]))
    rng = np.random.RandomState(t["seed"] + 1)
    v = v[:, [0]] * gs["vscale"]
    if gs["asym"]:
        v = v + gs["asym"] * (np.cosh(g.Xr) * np.cos(g.Xa))[:, None]
    if gs["noise"]:
        v = v * (1 + gs["noise"] * rng.randn(*v.shape))
    return v, phi.flatten("F")[:, None], e


def prepare(case):
    if case["mode"] == "alone":
        for op in case["ops"]:
            for w in ("target", "guess"):
                system(case["fam"], op[w]["sys"], case["grid"])


def observe(s, inv, res, log):
    """Every inversion, whoever asked for it, is judged when it returns."""
    plain = inv.invert

    def invert(n0, *a, **kw):
        before = dict(counts(s))
        k0, f0 = len(s.lsq), len(s.fired)
        n0c = np.array(n0, float)
        log.append({"ended": False})
        rec = log[-1]
        ret = plain(n0, *a, **kw)
        rec.update(ended=True, output=ret[1])
        now = counts(s)
        rec["did"] = {k: now[k] - before.get(k, 0) for k in now}
        ispin = kw.get("ispin", a[3] if len(a) > 3 else 0)
        judge(res, inv, n0c, ret, rec["did"], s.lsq[k0:], s.fired[f0:], ispin, rec)
        return ret
    inv.invert = invert


def counts(s):
    return s.task().counts


def session(case, res, lines=False):
    cad = env.load()
    prepare(case)
    g = W.grid(case["grid"] if case["mode"] == "alone" else case["spec"]["grid"])
    s = run.start(case, max_steps=60000)
    s.lsq_limit = case["lsq_limit"]
    s.lines_on = lines or any(f["site"] == "line" for f in case["faults"])
    log, ends = [], []

    def call(fn):
        try:
            s.trace_main(env.PREFIX)
            fn()
            ends.append(None)
        except (run.core.HarnessError, run.core.StepLimit, run.core.Deadlock, run.core.SimKill):
            raise
        except BaseException as e:     # noqa: B902
            ends.append(e)
        finally:
            s.untrace_main()

    def alone():
        Nmo, N = NMO[case["fam"]]
        if case["pol"] == 2:
            Nmo, N = [[1, 1]], [[1, 1]]
        inv = None
        for k, op in enumerate(case["ops"]):
            if inv is None or op.get("fresh") and k:
                o = op.get("opt") or (inv_opts if inv is not None else {})
                inv = cad.Inverter(g, cad.Pssolver(g, Nmo, N), dict(o))
                inv_opts = o
                observe(s, inv, res, log)
            elif "opt" in op:
                inv_opts = op["opt"]
                for key, v in op["opt"].items():
                    setattr(inv.optInv, key, v)
                inv.optInv.avoid_loop = op["opt"].get("avoid_loop", False)
                inv.optInv.use_iterative = op["opt"].get("use_iterative", False)
                if op.get("must"):
                    inv.optInv.res_factor = 1.0
            n = make_target(case, op["target"], g)
            v, phi, e = make_guess(case, op["guess"], g, op["target"])
            if op.get("start"):
                for q in inv.solver[:, 0]:
                    q.setveff(v[:, 0].copy())
                    if op.get("must"):
                        q.phi = q.eig = None      # (orbitals left in the solver take precedence over the guess)
            n0 = n if inv.optInv.invert_type == "wuyang" else n[:, 0]
            if op.get("must"):
                s.lsq_limit = 30
            f0 = len(s.fired)
            call(lambda: inv.invert(n0, v, phi, e))
            if op.get("must") and len(s.fired) == f0:
                res.checks += 1
                what = f"{inv.optInv.invert_type} inversion of a density started from {op['guess']['vscale']:g} times its own potential"
                if ends[-1] is not None:
                    res.bad("no_success", f"{what} raises {cases.unexpected(ends[-1])}")
                elif not log[-1].get("claims"):
                    res.bad("no_success", f"{what} does not succeed")
                else:
                    res.probes["sure_successes"] = res.probes.get("sure_successes", 0) + 1
        return inv

    def part():
        p = W.build_part(case["spec"])
        observe(s, p.inverter, res, log)
        for st in case["steps"]:
            p.optPartition.isolated = st["iso"]
            k0 = len(log)
            call(lambda: p.scf(dict(st["opt"])))
            done = [r for r in log[k0:] if r["ended"]]
            if done and all(r["ended"] for r in log[k0:]):
                res.checks += 1
                if p.inversion_info is not done[-1]["output"] and not same_report(p.inversion_info, done[-1]["output"]):
                    res.bad("stale_report", "the partition's inversion report is not that of its last inversion")
        return p

    out, exc = s.run(alone if case["mode"] == "alone" else part)
    run.core.set_current(None)
    run.gc_soon()
    return s, exc, log, ends


# -------------------------------------------------------------------- oracle
def report_of(o):
    while isinstance(o, (np.ndarray, list, tuple)):
        o = np.asarray(o, dtype=object).ravel()[0] if np.size(o) else None
    return o


def field(o, k):
    return o.get(k) if isinstance(o, dict) else getattr(o, k, None)


def same_report(a, b):
    a, b = report_of(a), report_of(b)
    return a is not None and b is not None and all(np.array_equal(field(a, k), field(b, k), equal_nan=True) for k in ("nfev", "optimality"))


def claims(flag):
    f = np.ravel(np.asarray(flag, dtype=object))
    f = [x for x in f if x is not None]
    return bool(f) and any(isinstance(x, (bool, int, float, np.generic)) and x == x and x > 0 for x in f)


def judge(res, inv, n0, ret, did, lsq, fired, ispin, rec):
    g = inv.grid
    flag, rep = ret[0], report_of(ret[1])
    o = inv.optInv
    typ, tol = o.invert_type, o.tol_invert
    n0 = n0.reshape(-1, 1) if n0.ndim == 1 else n0
    n0 = n0[:, [min(ispin, n0.shape[1] - 1)]]
    sol = list(inv.solver[:, ispin])
    res.checks += 1
    ok = claims(flag)
    rec["claims"] = ok
    res.probes["inversions"] = res.probes.get("inversions", 0) + 1
    what = f"{typ} inversion (tolerance {tol:g})"
    W_, Wi = np.asarray(g.w, float), 2 * np.pi * g.hr * g.ha * np.asarray(g.wi, float)

    # the report is this inversion's
    nfev, opt = field(rep, "nfev"), field(rep, "optimality")
    if nfev is None or opt is None:
        res.bad("report", f"{what}: no iteration count or optimality in the report")
        return
    if lsq:
        n = lsq[-1]["evals"] if len(lsq) == 1 else sum(r["evals"] for r in lsq)
        if len(lsq) == 1 and int(nfev) != n:
            res.bad("report", f"{what}: {nfev} evaluations reported, {n} done")
        a = lsq[-1]["answer"]
        if len(lsq) == 1 and not np.array_equal(opt, a.optimality, equal_nan=True):
            res.bad("report", f"{what}: optimality {opt} reported, the minimiser ended at {a.optimality}")
        if n > 1:
            rec["worked"] = True
    elif typ == "orbitalinvert":
        solves, eigs = did.get("num.solve", 0), did.get("num.eigs", 0) + did.get("num.eigsh", 0)
        if solves + eigs:
            rec["worked"] = True
        lo, hi = 1 + solves + (eigs > 0), 1 + solves + eigs       # an orbital update may try more than once
        gaveup = not opt <= 100                                   # given up: one more update, not looked at
        lo -= gaveup and lo > 1
        if not lo <= int(nfev) <= hi:
            res.bad("report", f"{what}: {nfev} iterations reported, {lo}{'' if lo == hi else f' to {hi}'} done")
        mine = residual(g, sol, n0, inv.vs[:, ispin])
        if mine is not None and not gaveup and not abs(mine - opt) <= 1e-6 * max(abs(mine), abs(opt)) + 1e-15 * scale(g, sol):
            res.bad("report", f"{what}: optimality {opt:.4g} reported, what it left behind has {mine:.4g}")
    if not ok:
        res.probes["not_claimed"] = res.probes.get("not_claimed", 0) + 1
        return
    res.probes["claimed"] = res.probes.get("claimed", 0) + 1

    # a claim of success
    def bad(why):
        res.bad("false_success", f"{what} claims success (flag {flag if np.ndim(flag) == 0 else np.ravel(flag)[0]}), {why}")
    if not np.all(np.isfinite(n0)):
        return bad("its target is not a density")
    for q in sol:
        if q.phi is None or q.eig is None or q.veff is None:
            return bad("a solver has no orbitals or potential")
        if not (np.all(np.isfinite(q.phi)) and np.all(np.isfinite(q.eig)) and np.all(np.isfinite(q.veff))):
            return bad("it left orbitals or a potential that are not numbers")
    vs = np.asarray(inv.vs[:, ispin], float)
    if not np.all(np.isfinite(vs)):
        return bad("its potential is not a number")
    twice = 2.0 if sol[0].pol == 2 else 1.0          # one spin of two equal ones
    if typ == "orbitalinvert":
        slack = 1.01 * tol + 1e-15 * scale(g, sol)
        n = sum((np.abs(q.phi) ** 2).sum(axis=1) for q in sol)
        d = np.max(np.abs(W_ * Wi * (n - n0[:, 0]) / 2))
        if not d <= slack:
            return bad(f"its orbitals miss the target density by {d:.3g}")
        m = twice * sum(np.asarray(q.n, float).reshape(len(n), -1).sum(axis=1) for q in sol)
        d = np.max(np.abs(W_ * Wi * (m - n0[:, 0]) / 2))
        if not d <= 5 * slack:
            return bad(f"its density misses the target by {d:.3g}")
        r = residual(g, sol, n0, vs)
        if not r <= slack:
            return bad(f"its orbitals solve its potential's equation to {r:.3g} only")
        lim = 2.02 * tol * len(n) + 1e-9
    else:
        lim = max(100 * tol, 1e-5)
        n = sum(occupied(g, q) for q in sol)
        for nm, x in (("orbitals", n), ("density", sum(np.asarray(q.n, float).reshape(len(n), -1).sum(axis=1) for q in sol))):
            d = np.max(np.abs(x - n0[:, 0]) / np.abs(n0[:, 0]))
            if not d <= lim:
                return bad(f"its {nm} miss(es) the target density by {d:.3g} of it")
        for q in sol:
            r = equation(g, q, vs)
            if not r <= max(lim, 1e-6):
                return bad(f"its orbitals solve its potential's equation to {r:.3g} only")
        lim = lim * ref.integrate(g, n0[:, 0])
        twice = 1.0
    for q in sol:
        d = np.max(np.abs(np.asarray(q.veff, float).ravel() - vs))
        if not d <= max(100 * tol, 1e-6) * np.max(np.abs(vs)):
            return bad(f"its solver holds another potential than the one it published (by {d:.3g})")
    want = ref.integrate(g, n0[:, 0])
    got = ref.integrate(g, n)
    if not abs(got - want) <= lim:
        return bad(f"its orbitals hold {got:.9g} electrons, the target has {want:.9g}")
    occ = sum(float(q.N) for q in sol) * twice
    if not abs(occ - want) <= lim:
        return bad(f"its occupations add up to {occ:.9g} electrons, the target has {want:.9g}")
    rec["true"] = True


def scale(g, sol):
    """Size of the terms that cancel in the orbital equation."""
    w = 2 * np.pi * g.hr * g.ha * np.max(np.abs(g.wi))
    L = np.max(np.abs(g.elap.diagonal()))
    return float(max(1.0, w * L * max(np.max(np.abs(q.phi)) if q.phi is not None and np.all(np.isfinite(q.phi)) else 1.0 for q in sol)))


def residual(g, sol, n0, vs):
    """Largest residual of the orbital equations and of the density, as the method weighs them."""
    wi = 2 * np.pi * g.hr * g.ha * np.asarray(g.wi, float)
    r, n = 0.0, 0.0
    for q in sol:
        if q.phi is None or q.eig is None:
            return None
        phi = np.asarray(q.phi, float)
        H = ref.hamiltonian(g, q.m, vs)
        e = np.ravel(q.eig)[:phi.shape[1]]
        R = wi[:, None] * (H @ phi - np.asarray(g.w)[:, None] * phi * e)
        r = np.max([r, np.max(np.abs(R))])
        n = n + (phi ** 2).sum(axis=1)
    return float(np.max([r, np.max(np.abs(wi * np.asarray(g.w) * (n - n0[:, 0]) / 2))]))


def occupied(g, q):
    """Density of a solver's orbitals, filled from the lowest."""
    cap = (1 if q.pol == 2 else 2) * (1 if q.m == 0 else 2)
    left, n = float(q.N), 0.0
    for k in range(q.phi.shape[1]):
        f = min(cap, left)
        left -= f
        p = np.asarray(q.phi[:, k], float) ** 2
        n = n + f * p / ref.integrate(g, p)
    return n + np.zeros(q.phi.shape[0])


def equation(g, q, vs):
    H = ref.hamiltonian(g, q.m, vs)
    worst = 0.0
    cap = (1 if q.pol == 2 else 2) * (1 if q.m == 0 else 2)
    for k in range(int(np.ceil(float(q.N) / cap - 1e-9))):
        p = np.asarray(q.phi[:, k], float)
        t = H @ p
        r = t - float(np.ravel(q.eig)[k]) * g.w * p
        ref_ = np.max(np.abs(np.diag(H) * p))
        worst = max(worst, float(np.max(np.abs(r)) / ref_))
    return worst


def execute(case):
    res = Res()
    s, exc, log, ends = session(case, res)
    res.took(s)
    res.tags.append(case["fam"] if case["mode"] == "alone" else case["spec"]["name"])
    if isinstance(exc, (run.core.StepLimit, run.core.Deadlock)):
        res.bad("hang", f"the inversion never ends ({exc})")
        return res
    if exc is not None:
        raise exc
    res.nontrivial = any(r.get("worked") for r in log) or bool(s.fired)
    res.probes["raised"] = sum(e is not None for e in ends)
    res.probes["true_successes"] = sum(bool(r.get("true")) for r in log)
    return res
