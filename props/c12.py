"""C12: refining orbitals always leads to the true eigenstates."""
import copy
import json
import pickle

import numpy as np
import scipy.linalg

from sim import cases, env, ref, run, workload as W
from sim.cases import Res
from . import scfgen as G

LEVEL = "fault_enumeration"
RULE = ("a case is a history of 2-8 potential changes, diagonalisations, refinements (direct or in simulated worker processes), copies "
        "and perturbations of single orbitals on a set of orbital solvers, with 0-3 faults placed at crossings or source lines, each "
        "time followed by repeated refinement in a fixed potential; non-trivial when a refinement with something left to refine ran")
SECONDS = {"quick": 110, "thorough": 1200}
CASES = {"quick": 2400, "thorough": 200000}
REAL, STUBS = G.REAL, G.STUBS
ASSUME = G.ASSUME + [
    "convergence to the lowest eigenpairs is claimed for potentials within 3% of the smallest level spacing (as matrix elements between "
    "the states concerned) of the one the orbitals were last diagonalised in; after larger changes only diagonalising again is claimed to restore them",
    "the direct answer is a dense diagonalisation of the solver's own discretised Hamiltonian"]

# Za, Zb, bond, [(pol, Nmo, N)]
SYS = {
    "H2p": (1, 1, 2.0, [(2, [[1, 0]], [[1, 0]]), (2, [[2, 1], [1, 0]], [[2, 1], [2, 0]]), (1, [[2]], [[4]]),
                        (2, [[1, 2], [1, 1], [1, 1]], [[1, 2], [1, 2], [2, 0]]), (1, [[2], [1]], [[3], [1.5]])]),
    "HeHp": (2, 1, 2.0, [(1, [[1]], [[2]]), (1, [[3]], [[5]]), (2, [[2, 3]], [[2, 2.5]]), (2, [[2, 1], [1, 1]], [[2, 1], [2, 1]]),
                         (1, [[2], [2], [1]], [[4], [6], [4]])]),
    "LiH": (3, 1, 3.0, [(1, [[2]], [[4]]), (2, [[2, 2], [1, 0]], [[2, 1], [1, 0]]), (1, [[3], [1]], [[6], [4]])]),
    "HLi": (1, 3, 3.0, [(1, [[2]], [[4]]), (2, [[3, 2], [0, 1]], [[3, 2], [0, 2]])]),
    "He2": (2, 2, 2.4, [(1, [[2]], [[4]]), (2, [[2, 2], [1, 1]], [[2, 1], [2, 2]]), (1, [[2], [1], [1]], [[4], [4], [2]])]),
    "He": (2, 0, 1.5, [(1, [[1]], [[2]]), (2, [[1, 1]], [[1, 1]])]),
}
NEAR = 0.03
MINGAP = 2e-3
CLEAN = 8            # clean refinements after which convergence is demanded
INTERRUPTS = ("MemoryError", "KeyboardInterrupt", "RuntimeError", "LinAlgError", "KeyError", "EOFError", "BrokenPipeError",
              "ConnectionResetError", "OSError", "ArpackNoConvergence", "BlockingIOError", "ConnectionRefusedError")


# ----------------------------------------------------------------- generator
def gen(rng, i, tier):
    name = sorted(SYS)[i % len(SYS)]
    Za, Zb, b, variants = SYS[name]
    pol, Nmo, N = rng.choice(variants)
    sh = cases.shape(rng) if rng.random() < 0.8 else rng.choice([(5, 4, 4), (4, 4, 5)])
    opt = {"disp": False}
    if rng.random() < 0.5:
        opt["iter_lin_solver"] = rng.random() < 0.4
    if rng.random() < 0.6:
        opt["tol_orbital"] = rng.choice([1e-15, 1e-12, 1e-10, 1e-9])
    if Za == Zb and rng.random() < 0.4:
        opt["sym"] = True
    if any(x != int(x) for r in N for x in r) or rng.random() < 0.3:
        opt["fractional"] = True
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6, 8])):
        x = rng.random()
        path = rng.choice(["direct", "direct", "workers"])
        if x < 0.25:
            ops.append({"op": "near", "amp": rng.choice([0.0, 0.01, 0.3, 1.0, 1.0]), "pat": rng.randrange(1000), "same": rng.random() < 0.4})
        elif x < 0.33:
            ops.append({"op": "jump", "scale": round(rng.uniform(0.75, 1.25), 3), "pat": rng.randrange(1000)})
        elif x < 0.45:
            ops.append({"op": "calc", "path": path})
        elif x < 0.62:
            ops.append({"op": "refine", "path": path})
        elif x < 0.85:
            ops.append({"op": "settle", "path": path})
        elif x < 0.93:
            ops.append({"op": "nudge", "chan": rng.randrange(6), "orb": rng.randrange(4), "size": rng.choice([1e-3, 1e-2, 3e-2]),
                        "eig": rng.random() < 0.5, "path": path})
        elif x < 0.96:
            ops.append({"op": rng.choice(["deepcopy", "pickle"])})
        else:
            ops.append({"op": rng.choice(["density", "energy", "normalise", "homo"])})
    ops.append({"op": "settle", "path": rng.choice(["direct", "workers"])})
    case = {"spec": {"name": name, "grid": [sh[0], sh[1], sh[2], b / 2, 10.0], "Za": Za, "Zb": Zb, "pol": pol, "Nmo": Nmo, "N": N,
                     "opt": opt}, "ops": ops, "sched": cases.sched(rng), "ambient": rng.randrange(1, 1 << 31), "faults": []}
    if rng.random() < 0.3:
        case["e0"] = "among"               # the levels are looked for around the upper of the two lowest
    if rng.random() < 0.75:
        lines = rng.random() < 0.4
        prof = golden(case, lines)
        table = {"num.bicgstab": ["memerr", "unconv", "unconv"], "num.spilu": ["memerr", "singular"], "num.spsolve": ["memerr", "singular"],
                 "num.eigs": ["memerr", "noconv", "nan"], "proc.start": ["eagain", "enomem"], "proc.join": ["interrupt", "stall"],
                 "rpc.get": ["reset", "eof", "mgrdie", "interrupt"], "mgr.start": ["eagain"]}
        worker = {k: [x for x in v if x != "stall"] for k, v in cases.WORKER.items()}
        worker["num.bicgstab"] = worker["num.bicgstab"] + ["unconv", "unconv"]
        for _ in range(rng.choice([1, 1, 2, 3])):
            main = {"line": ["interrupt", "interrupt", "memerr"]} if lines and rng.random() < 0.7 else table
            f = cases.place(rng, prof, worker, main)
            if f:
                case["faults"].append(f)
    return case


_prof = {}


def golden(case, lines):
    key = json.dumps([case["spec"], case["ops"], lines], sort_keys=True)
    if key not in _prof:
        if len(_prof) > 20:
            _prof.pop(next(iter(_prof)))
        c = dict(case, faults=[], sched={"mode": "fifo"}, ambient=1)
        _prof[key] = run.profile(History(c, lines).go())
    return _prof[key]


# -------------------------------------------------------------------- oracle
class Direct:
    """Dense diagonalisation of one channel."""

    def __init__(self, g, H0, v, k):
        w = np.asarray(g.w, float)
        H = H0 + np.diag(w * v)
        e, p = ref._raw(scipy.linalg.eig)(H / w[:, None])
        if np.max(np.abs(e.imag)) > 1e-6 * np.max(np.abs(e)):
            k0 = np.argsort(e.real)[:k + 2]
            assert np.max(np.abs(e.imag[k0])) < 1e-9
        o = np.argsort(e.real)[:k + 3]
        self.e = e.real[o]
        self.p = p.real[:, o]
        self.p = self.p / np.sqrt(ref.integrate(g, self.p ** 2))
        self.l = np.linalg.pinv(self.p)          # left partners on the low states
        self.gap = float(np.min(np.diff(self.e[:k + 1]))) if k else 1.0


def occupations(m, pol, N, fractional):
    per = (2 if pol == 1 else 1) * (1 if m == 0 else 2)
    full = int(N // per)
    occ = [per] * full
    x = N / per - full
    if fractional and x:
        occ.append(per * x)
    return occ


def pattern(g, k, sym):
    """A smooth potential change of order one."""
    r = np.random.RandomState(k)
    z = g.a * np.cosh(g.Xr) * np.cos(g.Xa)
    rho2 = g.a ** 2 * np.sinh(g.Xr) ** 2 * np.sin(g.Xa) ** 2
    f = r.uniform(-1, 1) / (1 + 0.3 * (z ** 2 + rho2)) + r.uniform(-1, 1) * np.exp(-0.2 * rho2) * np.cos(r.uniform(0.1, 1.0) * z)
    if not sym:
        f = f + r.uniform(-1, 1) * np.sin(r.uniform(0.1, 1.0) * z) * np.exp(-0.1 * rho2)
    return f


# ------------------------------------------------------------------- history
class History:
    def __init__(self, case, lines=False, res=None):
        self.case, self.res, self.lines = case, res, lines
        self.refined = 0
        self.done = []

    def go(self):
        spec = self.case["spec"]
        self.cad = env.load()
        self.s = s = run.start(self.case)
        s.lines_on = self.lines
        self.g = g = W.grid(spec["grid"])
        self.sym = bool(spec["opt"].get("sym"))
        self.ks = self.cad.Kohnsham(g, spec["Za"], spec["Zb"], spec["pol"], spec["Nmo"], spec["N"], {"interaction_type": "ni"})
        self.ks.solver = self.cad.Pssolver(g, spec["Nmo"], spec["N"], dict(spec["opt"]))
        self.shape = self.ks.solver.shape
        self.chans = [(i, j) for i in range(self.shape[0]) for j in range(self.shape[1])]
        self.held = {}
        self.v, self.base, self.H0 = {}, {c: None for c in self.chans}, {}
        for c in self.chans:
            sv = self.sol(c)
            sv.hamiltonian()
            sv.e0 = -1.5 * (spec["Za"] + spec["Zb"]) ** 2 / (c[0] + 1) ** 2
            self.H0[c] = np.asarray(sv.H0.todense(), float)
        self.root = {j: ref.coulomb(g, spec["Za"], spec["Zb"]) * (1 + 0.01 * j) for j in range(self.shape[1])}
        self._dense = {}
        for c in self.chans:
            self.give(c, self.root[c[1]].copy())
        if any(self.k(c) and self.direct(c).gap < MINGAP for c in self.chans):
            self.skip = True
        _, exc = s.run(self.program)
        run.core.set_current(None)
        run.gc_soon()
        self.exc = exc
        return s

    skip = False

    def sol(self, c):
        return self.ks.solver[c]

    def k(self, c):
        return int(self.case["spec"]["Nmo"][c[0]][c[1]])

    def give(self, c, v, same=False):
        """A potential for a channel: a new array, or the caller's own array rewritten."""
        self.v[c] = v.copy()
        if same and c in self.held:
            self.held[c][:] = v
        else:
            self.held[c] = v.copy()
        sv = self.sol(c)
        sv.setveff(self.held[c])
        if self.case.get("e0") == "among" and self.k(c):
            e = self.direct(c).e
            sv.e0 = e[0] + min(0.8 * (e[1] - e[0]), 0.45 * (e[self.k(c)] - e[0]))   # the lowest are still the nearest

    def direct(self, c, v=None):
        v = self.v[c] if v is None else v
        key = (c, v.tobytes())
        if key not in self._dense:
            self._dense[key] = Direct(self.g, self.H0[c], v, self.k(c))
        return self._dense[key]

    def bad(self, key, msg):
        if self.res is not None and not any(k == key for k, _ in self.res.viol):
            h = "; ".join(self.done[-6:])
            self.res.bad(key, f"{msg} (after {h})")

    # ---------------------------------------------------------------- program
    def program(self):
        if self.skip:
            return
        for op in self.case["ops"]:
            self.done.append(op["op"] + ("/" + op["path"] if "path" in op else ""))
            getattr(self, "do_" + op["op"])(op)

    def call(self, fn):
        """(finished, exception); only failures that follow from an injected fault are accepted."""
        n0 = len(self.s.fired)
        try:
            self.s.trace_main(env.PREFIX)
            fn()
            return True
        except (run.core.HarnessError, run.core.StepLimit, run.core.Deadlock, run.core.SimKill):
            raise
        except BaseException as e:       # noqa: B902
            self.s.untrace_main()
            lost = any(self.base[c] is None for c in self.chans)
            if len(self.s.fired) == n0 and not (lost and cases.breakdown(self.s, e)):
                self.bad("raises", f"fails although nothing went wrong: {cases.unexpected(e)}")
                raise Stop()
            return False
        finally:
            self.s.untrace_main()

    def evaluate(self, what, path):
        """One diagonalisation or refinement of all channels."""
        if path == "workers":
            ok = self.call(lambda: self.ks.calc_density(what == "refine", 0.0))
            for c in self.chans:
                if ok and (what == "calc" or self.fresh.get(c)):
                    self.base[c] = self.v[c].copy()
            return ok
        good = True
        for c in self.chans:
            sv = self.sol(c)
            known = self.base[c] is not None
            was_none = sv.phi is None or sv.eig is None
            ok = self.call(sv.calc_orbitals if what == "calc" else sv.iter_orbitals)
            good = good and ok
            if ok and (what == "calc" or was_none):
                self.base[c] = self.v[c].copy()
            elif not ok and what == "calc" and known and not self.near(c, self.v[c]):
                self.base[c] = None          # half old, half new: no claim until diagonalised
        return good

    @property
    def fresh(self):
        return {c: self.sol(c).phi is None or self.sol(c).eig is None for c in self.chans}

    def near(self, c, v):
        """Is this potential close to the one last diagonalised in?"""
        if self.base[c] is None:
            return False
        if self.k(c) == 0:
            return True
        d = self.direct(c, self.base[c])
        return self.size(c, d, v - self.base[c]) <= 1.02 * NEAR * d.gap

    def size(self, c, d, dv):
        k = self.k(c)
        M = d.l[:k + 2] @ (dv[:, None] * d.p[:, :k + 2])
        return float(np.max(np.abs(M - np.eye(M.shape[0]) * 0)))

    # -------------------------------------------------------------------- ops
    def do_near(self, op):
        f = pattern(self.g, op["pat"], self.sym)
        for c in self.chans:
            b = self.base[c]
            if b is None:
                b = self.v[c]
            d = self.direct(c, b)
            u = f * (1 + 0.1 * c[0])
            k = NEAR * d.gap / max(self.size(c, d, u), 1e-12) if self.k(c) else 1e-3
            self.give(c, b + op["amp"] * min(k, 0.5) * u, op.get("same"))

    def do_jump(self, op):
        f = pattern(self.g, op["pat"], self.sym)
        for c in self.chans:
            self.give(c, self.root[c[1]] * op["scale"] + 0.3 * f)
            if self.k(c) and self.direct(c).gap < MINGAP:
                self.give(c, self.root[c[1]])
            if not self.near(c, self.v[c]) and self.k(c):
                self.base[c] = None

    def do_calc(self, op):
        self.evaluate("calc", op["path"])

    def do_refine(self, op):
        self.evaluate("refine", op["path"])

    def do_density(self, op):
        for c in self.chans:
            if not self.fresh[c] and self.k(c):
                self.call(self.sol(c).calc_density)

    def do_energy(self, op):
        for c in self.chans:
            if not self.fresh[c] and self.k(c):
                self.call(self.sol(c).calc_energy)

    def do_normalise(self, op):
        for c in self.chans:
            if not self.fresh[c] and self.k(c):
                self.call(self.sol(c).normalize_orbitals)

    def do_homo(self, op):
        for c in self.chans:
            if not self.fresh[c] and self.k(c):
                self.call(self.sol(c).get_homo)

    def do_deepcopy(self, op):
        g = self.g
        self.ks.solver = copy.deepcopy(self.ks.solver, {id(g): g})

    def do_pickle(self, op):
        _, new = run._pickle(self.ks.solver, self.g)
        self.ks.solver = new

    def do_nudge(self, op):
        """Only one orbital is off: refinement brings it back and leaves the others."""
        if not self.settle("direct"):
            return
        live = [c for c in self.chans if self.k(c)]
        c = live[op["chan"] % len(live)]
        j = op["orb"] % self.k(c)
        sv = self.sol(c)
        d = self.direct(c)
        off = sum(d.p[:, q] for q in range(d.p.shape[1]) if q != j) / d.p.shape[1]
        before = sv.phi.copy(), np.array(sv.eig, float)
        sv.phi[:, j] += op["size"] * off * np.sqrt(ref.integrate(self.g, sv.phi[:, j] ** 2))
        if op["eig"]:
            sv.eig[j] += 0.01 * d.gap * op["size"] / 0.03
        self.refined += 1
        for _ in range(3):
            if not self.evaluate("refine", op["path"]):
                break                      # a fault: judged when settled
            if self.res is not None:
                self.res.checks += 1
            for q in range(self.k(c)):
                x, y = sv_phi(self.sol(c))[:, q], before[0][:, q]
                dist = np.sqrt(min(ref.integrate(self.g, (x - y) ** 2), ref.integrate(self.g, (x + y) ** 2)))
                de = abs(float(self.sol(c).eig[q]) - before[1][q])
                if q != j and not (dist <= 1e-5 and de <= 1e-7 * max(1, abs(before[1][q]))):
                    self.bad("in_place", f"channel {c}: orbital {q} was converged and moved by {dist:.2g} (eigenvalue {de:.2g}) when only "
                                         f"orbital {j} needed refining")
                    return
        self.settle(op["path"])

    def do_settle(self, op):
        self.settle(op["path"])

    def settle(self, path):
        for c in self.chans:               # nothing is claimed far from the last diagonalisation
            for _ in range(8):
                if self.base[c] is not None or self.k(c) == 0:
                    break
                self.evaluate("calc", path)
            else:
                return False
        clean, total = 0, 0
        while clean < CLEAN:
            clean = clean + 1 if self.evaluate("refine", path) else 0
            total += 1
            if any(self.base[c] is None and self.k(c) for c in self.chans) or total > 60:
                return False
        self.refined += 1
        self.check()
        return True

    # ------------------------------------------------------------------ oracle
    def check(self):
        spec = self.case["spec"]
        if self.res is None:
            return
        g, tol = self.g, float(spec["opt"].get("tol_orbital", 1e-15))
        for c in self.chans:
            k = self.k(c)
            if k == 0:
                continue
            sv, d = self.sol(c), self.direct(c)
            self.res.checks += 1 + 3 * k
            e, p = np.array(sv.eig, float), np.array(sv.phi)
            if e.shape != (k,) or p.shape != (g.Nelem, k):
                self.bad("shape", f"channel {c}: eigenvalues {e.shape}, orbitals {p.shape} for {k} orbitals")
                return
            if not (np.all(np.isfinite(e)) and np.all(np.isfinite(p))):
                self.bad("eigenpairs", f"channel {c}: refinement ends with eigenvalues {e}")
                return
            slack = 1e-8 + 50 * tol / d.gap
            for j in range(k):
                if abs(e[j] - d.e[j]) > slack * max(1, abs(d.e[j])):
                    self.bad("eigenpairs", f"channel {c} orbital {j}: refinement ends at eigenvalue {e[j]:.10g}, direct diagonalisation "
                                           f"gives {d.e[j]:.10g}")
                    return
                occ = (2 if c[0] == 0 else 4) / (2 if spec["pol"] == 2 else 1)
                nrm = ref.integrate(g, p[:, j] ** 2)
                if abs(nrm - occ) > 1e-9 * occ:
                    self.bad("norm", f"channel {c} orbital {j}: norm {nrm:.12g} instead of {occ:g}")
                    return
                x = p[:, j] / np.sqrt(nrm)
                dist = np.sqrt(min(ref.integrate(g, (x - d.p[:, j]) ** 2), ref.integrate(g, (x + d.p[:, j]) ** 2)))
                if dist > 1e-6 + 100 * tol / d.gap:
                    self.bad("eigenpairs", f"channel {c} orbital {j}: differs from the eigenvector of direct diagonalisation by {dist:.2g}")
                    return
            occs = occupations(c[0], spec["pol"], spec["N"][c[0]][c[1]], spec["opt"].get("fractional", False))
            n = sum((q * d.p[:, j] ** 2 for j, q in enumerate(occs)), np.zeros(g.Nelem))
            if not self.call(sv.calc_density):
                continue
            m = np.asarray(sv.n, float)
            if m.shape != (g.Nelem, 1) or np.max(np.abs(m[:, 0] - n)) > (1e-6 + 200 * tol / d.gap) * max(np.max(np.abs(n)), 1e-12):
                self.bad("density", f"channel {c}: density differs from direct diagonalisation's by "
                                    f"{np.max(np.abs(np.ravel(m) - n)):.2g} (max {np.max(n):.3g})")
                return


def sv_phi(sv):
    return np.asarray(sv.phi, float)


class Stop(Exception):
    """The history cannot go on after a violation."""


def execute(case):
    res = Res()
    h = History(case, False, res)
    s = h.go()
    res.took(s)
    res.tags.append(case["spec"]["name"])
    if isinstance(h.exc, (run.core.StepLimit, run.core.Deadlock)):
        res.bad("hang", f"the history never ends ({h.exc})")
    elif h.exc is not None and not isinstance(h.exc, Stop):
        raise h.exc
    res.nontrivial = h.refined > 0
    res.probes["settled"] = h.refined
    if h.skip:
        res.probes["levels_too_close"] = 1
    if s.fired and s.fired[0].site == "line":
        res.probes["interrupted_at_a_line"] = 1
    return res
