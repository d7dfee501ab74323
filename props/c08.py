"""C08: calculations sharing a process do not disturb each other."""
import copy
import gc
import json
import random
import weakref

import numpy as np

from sim import cases, env, run, workload as W
from sim.cases import Res
from . import c11, scfgen as G

LEVEL = "exploration"
RULE = ("a case is 2-4 clients (Kohn-Sham, partition or inversion programs of 1-3 calls) in one process on one grid or each on its "
        "own, run as threads preempted at source lines and crossings, taking turns call by call, or one after the other on a new grid "
        "each that takes the place of the last one in memory, with 0-2 faults in one client; non-trivial when clients really switched "
        "between each other or a later one ran after an earlier one")
SECONDS = {"quick": 110, "thorough": 1500}
CASES = {"quick": 1500, "thorough": 60000}
REAL, STUBS = G.REAL, G.STUBS
ASSUME = G.ASSUME + ["clients share the grid (or have grids of their own), option dictionaries and target arrays, never a calculation object",
                     "worker processes see the memory of the moment they were started"]

KS_POOL = ["H", "He", "He_pol", "H2", "HeHp", "He2p", "Li_frac", "Be", "H2_sym", "H2p_ni", "pi_ni", "He_gga", "Hp_ni", "LiH", "delta_ni"]
PART_POOL = ["H2p_frac", "He2_vw", "He2_nosym", "HeH_vw", "LiH_none", "H2_ess", "He2p_ens", "HeLi_ens", "Li2_pi", "H2p_ens", "He2_gga", "He2_hart",
             "He2_two"]


# ----------------------------------------------------------------- generator
def client(rng, grid):
    x = rng.random()
    if x < 0.5:
        name = rng.choice(KS_POOL)
        spec = W.ks_spec(name)
        steps = []
        for k in range(rng.choice([1, 1, 2])):
            o = G.ks_opts(rng, rng.choice([2, 3, 4]))
            if k and rng.random() < 0.5:
                o["continuing"] = True
            steps.append({"do": "scf", "opt": o})
    elif x < 0.75:
        name = rng.choice(PART_POOL)
        spec = W.part_spec(name)
        steps = G.part_steps(rng, name, spec, 2)
        for st in steps:
            st["opt"]["max_iter"] = min(st["opt"]["max_iter"], 3)
    else:
        spec = c11.inv_spec(rng, rng.choice(["H2", "He2", "LiH", "Be", "He", "HeHp"]), (4, 3, 3))
        steps = []
        typ = rng.choice(["wuyang", "orbitalinvert", "orbitalinvert"])
        for _ in range(rng.choice([1, 2, 2, 3])):
            steps.append({"do": "invert", "type": typ, "vscale": rng.choice([1.0, 0.95, 0.9, 1.05])})
        spec["inv"] = {"invert_type": typ, "tol_invert": rng.choice([1e-6, 1e-8]), "disp": rng.random() < 0.3,
                       "max_iter_invert": rng.choice([3, 8, 20]), "ab_sym": spec["Za"] == spec["Zb"] and rng.random() < 0.5}
        if typ == "orbitalinvert" and rng.random() < 0.2:
            spec["inv"]["avoid_loop"] = True
    spec["grid"] = list(grid)
    return {"spec": spec, "steps": steps}


def other_grid(rng, grid):
    """Another bond length, another box, or another mesh."""
    g = list(grid)
    x = rng.random()
    if x < 0.7:
        g[3] = rng.choice([a for a in (0.7, 0.9, 1.0, 1.5) if a != g[3]])
    if 0.5 < x < 0.9:
        g[4] = rng.choice([8.0, 12.0])
    if x > 0.8:
        g[:3] = rng.choice([sh for sh in ([4, 3, 3], [3, 4, 4], [4, 3, 4], [3, 3, 4]) if sh != g[:3]])
    return g


def gen(rng, i, tier):
    sh = rng.choice([(4, 3, 3), (4, 3, 3), (3, 4, 4), (4, 3, 4)])
    grid = [sh[0], sh[1], sh[2], rng.choice([0.7, 0.9, 1.0, 1.5]), 10.0]
    n = rng.choice([2, 2, 2, 3, 3, 4])
    clients = [client(rng, grid) for _ in range(n)]
    mode = "scan" if i % 6 == 3 else "threads" if i % 4 else "turns"
    if rng.random() < (0.7 if mode == "scan" else 0.25):               # the same program twice
        clients[-1] = copy.deepcopy(clients[0])
    if mode == "scan" or rng.random() < 0.15:
        for c in clients[1:]:
            c["spec"]["grid"] = other_grid(rng, clients[0]["spec"]["grid"])
    case = {"clients": clients, "mode": mode, "sched": cases.sched(rng), "ambient": rng.randrange(1, 1 << 31), "faults": [],
            "mean": rng.choice([5, 20, 60, 200, 1000]), "pseed": rng.randrange(1 << 30), "shared": rng.random() < 0.6,
            "turns": [rng.randrange(n) for _ in range(12)]}
    if rng.random() < 0.5:
        k = rng.randrange(n)
        prof = alone(clients[k], k, case["ambient"])[1]
        prof = [("main" if t == f"c{k}" else t, site, c) for t, site, c in prof]
        table = cases.merge(cases.MAIN, cases.MAIN_MORE)
        for _ in range(rng.choice([1, 1, 2])):
            f = cases.place(rng, prof, cases.WORKER, table)
            if f:
                if f["task"] == "main":
                    f["task"] = f"c{k}"
                case["faults"].append(f)
    return case


# ------------------------------------------------------------------- clients
class Client:
    """One program, run in its own thread or call by call."""

    def __init__(self, cad, k, c, g, opts):
        self.cad, self.k, self.spec, self.steps, self.g = cad, k, c["spec"], c["steps"], g
        self.name = f"c{k}"
        self.results, self.obj, self.pos, self.exc = [], None, -1, None
        self.out = []                     # (what, object, digest when handed out)
        self.opts = opts

    def build(self):
        sp, cad = self.spec, self.cad
        if sp["kind"] == "ks":
            self.obj = cad.Kohnsham(self.g, sp["Za"], sp["Zb"], sp["pol"], sp["Nmo"], sp["N"], self.opts)
        elif sp["kind"] == "part":
            self.obj = cad.Partition(self.g, sp["Za"], sp["Zb"], sp["pol"], sp["Nmo_a"], sp["N_a"], sp["nu_a"], sp["Nmo_b"], sp["N_b"],
                                     sp["nu_b"], self.opts)
            if sp["inv"] is not None:
                self.obj.inverter = cad.Inverter(self.g, cad.Pssolver(self.g, sp["inv"][0], sp["inv"][1]), dict(sp["inv"][2]))
        else:
            self.obj = cad.Inverter(self.g, cad.Pssolver(self.g, sp["Nmo"], sp["N"]), self.opts)
            self.obj.solver[0, 0].e0 = -20

    def step(self):
        """The next call; its result, or the exception, is recorded."""
        self.pos += 1
        try:
            if self.pos == 0:
                self.build()
                self.results.append(("built", None))
                return
            st = self.steps[self.pos - 1]
            if self.spec["kind"] == "inv":
                n, v, phi, e = c11.target(self.spec_of_target())
                n0 = n if st["type"] == "wuyang" else n[:, 0]
                ret = self.obj.invert(n0, v[:, [0]] * st["vscale"], phi.flatten("F")[:, None], e.copy())
                self.results.append(("inverted", inv_result(self.obj, ret)))
                self.hand("report of inversion %d" % self.pos, ret)
            else:
                if st.get("iso") is not None and self.spec["kind"] == "part":
                    self.obj.optPartition.isolated = st["iso"]
                self.obj.scf(W.scf_opt(self.spec, st))
                self.results.append(("ran", run.result(self.obj, self.spec)))
        except (run.core.HarnessError, run.core.StepLimit, run.core.Deadlock, run.core.SimKill):
            raise
        except BaseException as e:     # noqa: B902
            self.results.append(("raised", e))
            if self.obj is None:
                self.pos = len(self.steps)
        if self.done() and self.obj is not None:
            self.hand_all()

    def spec_of_target(self):
        return {k: v for k, v in self.spec.items() if k != "inv"}

    def done(self):
        return self.pos >= len(self.steps)

    def all(self):
        while not self.done():
            self.step()

    # what the user now holds
    def hand(self, what, o):
        self.out.append((what, o, deep(o)))

    def hand_all(self):
        o = self.obj
        if self.spec["kind"] == "inv":
            self.hand("inverter potential", o.vs)
            self.hand("inverter density", o.n0)
            for k in range(o.solver.shape[0]):
                for a in ("phi", "eig", "n", "veff"):
                    self.hand(f"inverter solver {a}", getattr(o.solver[k, 0], a))
            return
        objs = [("", o)] if self.spec["kind"] == "ks" else \
            [(nm + ".", getattr(o, nm)) for nm in ("KSa", "KSA", "KSb", "KSB") if hasattr(o, nm)] + [("", o)]
        for nm, q in objs:
            for a, v in vars(q).items():
                if isinstance(v, (np.ndarray, int, float, str, bool)) or a in ("E", "V", "optKS", "optPartition", "inversion_info"):
                    self.hand(nm + a, v)

    def changed(self):
        for what, o, d in self.out:
            if deep(o) != d:
                return what
        return None


def deep(o):
    return c11.digest(plain(o))


def plain(o, depth=0):
    """Nested containers and records as dictionaries, so that their contents count."""
    if isinstance(o, np.ndarray) and o.dtype == object:
        return [list(o.shape)] + [plain(v, depth + 1) for v in o.ravel()]
    if isinstance(o, (np.ndarray, str, int, float, bool, np.generic)) or o is None:
        return o
    if isinstance(o, dict):
        return {str(k): plain(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v, depth + 1) for v in o]
    if hasattr(o, "__dict__") and depth < 3 and (isinstance(o, type) or not callable(o)):
        return {k: plain(v, depth + 1) for k, v in sorted(vars(o).items()) if not k.startswith("__")}
    return type(o).__name__


def inv_result(inv, ret):
    flag, rep = ret
    r = {"flag": float(np.ravel(np.asarray(flag, float))[0])}
    while isinstance(rep, (np.ndarray, list, tuple)) and np.size(rep) == 1:
        rep = rep.ravel()[0] if isinstance(rep, np.ndarray) else rep[0]
    for k, v in (rep if isinstance(rep, dict) else vars(rep)).items():
        if isinstance(v, (int, float, np.number, bool)) or (isinstance(v, np.ndarray) and v.dtype != object):
            r[str(k)] = np.array(v, float)
    for i in range(inv.solver.shape[0]):
        s = inv.solver[i, 0]
        for a in ("eig", "n", "veff"):
            v = getattr(s, a)
            r[f"{a}{i}"] = None if v is None else np.array(v, float)
    r["vs"] = None if inv.vs is None else np.array(inv.vs, float)
    return r


# ---------------------------------------------------------------------- runs
def start_clients(cad, cs, ks, shared):
    pool, out = {}, []
    for k, c in zip(ks, cs):
        o = dict(c["spec"]["opt"]) if c["spec"]["kind"] != "inv" else dict(c["spec"]["inv"])
        key = json.dumps([c["spec"]["kind"], o], sort_keys=True)
        if shared:                         # one dictionary for all who pass the same options
            o = pool.setdefault(key, o)
        out.append(Client(cad, k, c, W.grid(c["spec"]["grid"]), o))
    return out


_alone = {}


def alone(c, k, ambient):
    """(results, profile) of a client that has the process to itself."""
    key = json.dumps([c, k], sort_keys=True)
    if key not in _alone:
        if len(_alone) > 40:
            _alone.pop(next(iter(_alone)))
        cad = env.load()
        prepare([c])
        s = run.start({"sched": {"mode": "fifo"}, "ambient": 1})
        cl = start_clients(cad, [c], [k], False)[0]

        def program():
            t = s.spawn(cl.name, "thread", cl.all)
            s.block(lambda: t.state == "done")
            if t.exc is not None:
                raise t.exc
        _, exc = s.run(program)
        run.core.set_current(None)
        if exc is not None:
            raise exc
        _alone[key] = (cl.results, run.profile(s))
    return _alone[key]


def prepare(cs):
    for c in cs:
        if c["spec"]["kind"] == "inv":
            c11.target({k: v for k, v in c["spec"].items() if k != "inv"})


def new_grid(cad, spec, at):
    """A new grid, at a given address if that is free again: what the allocator may always do."""
    kept = []
    for _ in range(5000):
        g = cad.Psgrid.__new__(cad.Psgrid)
        if at is None or id(g) == at:
            break
        kept.append(g)
    NP, na, nr, a, box = spec
    g.__init__(NP, [na, nr], a, np.arccosh(box / a), np.arange(-4, 5))
    g.initialize()
    return g


def forget(exc):
    """An exception without the frames (and so the objects) it came from."""
    while exc is not None:
        exc.__traceback__ = None
        exc = exc.__cause__ or exc.__context__


def one_by_one(case):
    """Each client in turn, with a grid of its own that is gone before the next one begins."""
    cad = env.load()
    prepare(case["clients"])
    s = run.start(case, max_steps=200000)
    cs, reused = [], [0]

    def program():
        at = None
        for k, c in enumerate(case["clients"]):
            g = new_grid(cad, c["spec"]["grid"], at)
            reused[0] += id(g) == at
            o = dict(c["spec"]["opt"]) if c["spec"]["kind"] != "inv" else dict(c["spec"]["inv"])
            cl = Client(cad, k, c, g, o)
            cs.append(cl)
            t = s.spawn(cl.name, "thread", cl.all)
            s.block(lambda: t.state == "done")
            if t.exc is not None:
                raise t.exc
            for what, r in cl.results:
                if what == "raised":
                    forget(r)
            for t in s.tasks[1:]:              # the memory of processes that have ended is gone
                if t.state == "done":
                    t.fn = t.wake = t.user = t.globals = t.arpack = None
                    forget(t.exc)
            at, there = id(g), weakref.ref(g)
            cl.obj = cl.g = None
            cl.out = [x for x in cl.out if not (isinstance(x[1], np.ndarray) and x[1].dtype == object)]
            del g
            gc.collect()
            if there() is not None:
                at = None

    _, exc = s.run(program)
    run.core.set_current(None)
    run.gc_soon()
    s.probes["grids_at_the_same_address"] = reused[0]
    return s, cs, exc


def together(case):
    if case["mode"] == "scan":
        return one_by_one(case)
    cad = env.load()
    prepare(case["clients"])
    pre = (random.Random(case["pseed"]), case["mean"], env.PREFIX) if case["mode"] == "threads" else None
    s = run.start(case, max_steps=200000, preempt=pre)
    cs = start_clients(cad, case["clients"], range(len(case["clients"])), case["shared"])

    def threads():
        ts = [s.spawn(c.name, "thread", c.all) for c in cs]
        for t in ts:
            s.block(lambda t=t: t.state == "done")
        for t in ts:
            if t.exc is not None:
                raise t.exc

    def turns():
        # call by call, each call in the client's own thread so that addresses are the same
        q = list(case["turns"])
        while not all(c.done() for c in cs):
            live = [c for c in cs if not c.done()]
            c = live[(q.pop(0) if q else 0) % len(live)]
            gates[c.k] += 1
            s.block(lambda c=c: c.done() or ready[c.k] == gates[c.k])
        for t in ts:
            s.block(lambda t=t: t.state == "done")

    gates, ready, ts = {c.k: 0 for c in cs}, {c.k: 0 for c in cs}, []

    def gated(c):
        def body():
            while not c.done():
                s.block(lambda: gates[c.k] > ready[c.k])
                c.step()
                ready[c.k] += 1
        return body

    def program():
        if case["mode"] == "threads":
            return threads()
        ts.extend(s.spawn(c.name, "thread", gated(c)) for c in cs)
        turns()
        for t in ts:
            if t.exc is not None:
                raise t.exc

    _, exc = s.run(program)
    run.core.set_current(None)
    run.gc_soon()
    return s, cs, exc


def execute(case):
    res = Res()
    gold = [alone(c, k, case["ambient"])[0] for k, c in enumerate(case["clients"])]
    s, cs, exc = together(case)
    res.took(s)
    res.tags.append(case["mode"])
    if isinstance(exc, (run.core.StepLimit, run.core.Deadlock)):
        res.bad("hang", f"the process never ends ({exc})")
        return res
    if exc is not None:
        raise exc
    hit = {f.task.split(".")[0] for f in s.fired}
    res.nontrivial = s.switches > 2 or case["mode"] == "scan"
    res.probes["switches"] = s.switches
    for c, want in zip(cs, gold):
        if c.name in hit:
            res.probes["failed_clients"] = res.probes.get("failed_clients", 0) + 1
            continue
        for k, (a, b) in enumerate(zip(want, c.results)):
            res.checks += 1
            who = f"client {c.k} ({c.spec['name']}) call {k}"
            if a[0] != b[0]:
                res.bad("disturbed", f"{who}: {what(a)} when alone, {what(b)} beside the others")
                break
            if a[0] == "raised":
                if type(a[1]) is not type(b[1]):
                    res.bad("disturbed", f"{who}: raises {cases.unexpected(a[1])} when alone, {cases.unexpected(b[1])} beside the others")
                    break
                continue
            d = run.differs(b[1], a[1], 1e-9, "") if a[1] is not None else None
            if d:
                res.bad("disturbed", f"{who}: differs from the same call alone at {d}")
                break
    for c in cs:
        w = c.changed()
        res.checks += len(c.out)
        if w is not None:
            res.bad("changed", f"client {c.k} ({c.spec['name']}): the {w} it handed out was changed by a later calculation")
    return res


def what(r):
    return f"raises {cases.unexpected(r[1])}" if r[0] == "raised" else r[0]
