"""C11: a calculation leaves the caller's world untouched."""
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import sys
import warnings

import numpy as np
import scipy.sparse as sp

from sim import cases, env, mp, run, workload as W
from sim.cases import Res
from . import invariants as I, scfgen as G

LEVEL = "fault_enumeration"
RULE = ("a case is a Kohn-Sham, partition or inversion session of 1-3 calls made with the caller's own arrays and option "
        "dictionaries, with 0-2 faults or interrupts placed at crossings or source lines of that session; non-trivial when "
        "at least one call got as far as a density evaluation, an inversion step or a fault")
SECONDS = {"quick": 110, "thorough": 1200}
CASES = {"quick": 1900, "thorough": 100000}
REAL, STUBS, ASSUME = G.REAL, G.STUBS, G.ASSUME + ["attributes the package adds to a grid, or fills in where there was None, count as its own cache"]

INV = {"H2": (1, 1, 1, [[1]], [[2]], 1.4), "He2": (2, 2, 1, [[2]], [[4]], 3.0), "LiH": (1, 3, 1, [[2]], [[4]], 3.0),
       "Be": (4, 0, 1, [[2]], [[4]], 1.8), "He": (2, 0, 1, [[1]], [[2]], 1.5), "HeHp": (2, 1, 1, [[1]], [[2]], 1.46)}


# ------------------------------------------------------------- fingerprints
def digest(o):
    h = hashlib.sha1()
    _feed(h, o, set())
    return h.hexdigest()


def _feed(h, o, seen):
    if isinstance(o, np.ndarray):
        h.update(f"A{o.shape}{o.dtype}{o.flags.writeable}".encode())
        if o.dtype == object:
            for x in o.ravel():
                _feed(h, x, seen)
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif sp.issparse(o):
        h.update(f"S{o.shape}{o.format}".encode())
        c = o.tocoo()
        k = np.lexsort((c.col, c.row))
        for x in (c.row[k], c.col[k], c.data[k]):
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(o, dict):
        h.update(f"D{len(o)}".encode())
        for k, v in o.items():
            h.update(repr(k).encode())
            _feed(h, v, seen)
    elif isinstance(o, (list, tuple)):
        h.update(f"L{type(o).__name__}{len(o)}".encode())
        for x in o:
            _feed(h, x, seen)
    elif o is None or isinstance(o, (bool, int, float, complex, str, np.generic)):
        h.update(f"{type(o).__name__}{o!r}".encode())
    else:
        h.update(type(o).__name__.encode())


def grid_print(g):
    return {k: digest(v) for k, v in vars(g).items()
            if isinstance(v, (np.ndarray, bool, int, float, str, np.generic, list, tuple)) or sp.issparse(v)}


def process_print():
    return {"floating-point error handling": repr(np.geterr()) + repr(np.geterrcall()),
            "working directory": os.getcwd(),
            "environment": digest(dict(sorted(os.environ.items()))),
            "warning filters": repr(warnings.filters),
            "signal handlers": repr([(n, signal.getsignal(n)) for n in
                                     (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGCHLD, signal.SIGALRM,
                                      signal.SIGPIPE, signal.SIGUSR1)]),
            "recursion limit": sys.getrecursionlimit(),
            "thread switch interval": sys.getswitchinterval(),
            "garbage collection": repr((gc.isenabled(), gc.get_threshold())),
            "module search path": repr(sys.path),
            "standard streams": repr((id(sys.stdout), id(sys.stderr), id(sys.stdin), sys.displayhook is sys.__displayhook__)),
            "print settings of numpy": repr(sorted(np.get_printoptions().items())),
            "locale": repr(locale.setlocale(locale.LC_ALL)),
            "decimal context": repr(decimal.getcontext()),
            "logging": repr((logging.root.level, logging.root.handlers, logging.root.disabled)),
            "start method of processes": repr(mp.START[0]),
            "exception hook": id(sys.excepthook),
            "global random state": digest([list(map(repr, random.getstate()[1])), random.getstate()[2]]),
            "global numpy random state": digest(list(np.random.get_state()))}


# ----------------------------------------------------------------- generator
def inv_spec(rng, name, shape):
    Za, Zb, pol, Nmo, N, b = INV[name]
    return {"kind": "inv", "name": name + "_invert", "grid": [shape[0], shape[1], shape[2], b / 2, 10.0],
            "Za": Za, "Zb": Zb, "pol": pol, "Nmo": Nmo, "N": N}


def gen(rng, i, tier):
    mode = i % 5
    if mode == 4:
        spec = inv_spec(rng, rng.choice(sorted(INV)), cases.shape(rng))
        steps = []
        for _ in range(rng.choice([1, 1, 2])):
            typ = rng.choice(["wuyang", "orbitalinvert", "orbitalinvert"])
            o = {"invert_type": typ, "tol_invert": rng.choice([1e-6, 1e-8, 1e-12]), "disp": rng.random() < 0.5,
                 "ab_sym": spec["Za"] == spec["Zb"] and rng.random() < 0.6, "max_iter_invert": rng.choice([2, 5, 20])}
            if typ == "orbitalinvert" and rng.random() < 0.2:
                o["avoid_loop"] = True
            steps.append({"do": "invert", "opt": o, "same": rng.random() < 0.4, "vscale": rng.choice([1.0, 0.95, 0.9, 1.1])})
    else:
        name, spec = G.pick(rng, i, 0.5 if mode < 2 else 0.2)
        if rng.random() < 0.4:
            spec = I.mutate(rng, spec)
        steps = G.ks_steps(rng, 2) if spec["kind"] == "ks" else G.part_steps(rng, name, spec, 2)
        for st in steps:
            k = "max_iter" if spec["kind"] == "part" else "maxiter"
            st["opt"][k] = min(st["opt"][k], 3)
    case = {"spec": spec, "steps": steps, "sched": cases.sched(rng), "ambient": rng.randrange(1, 1 << 31), "faults": [],
            "arrays": rng.random() < 0.7, "err": rng.choice(["warn", "ignore", "raise"]) if rng.random() < 0.3 else "warn",
            "filter": rng.choice(["ignore", "default", "always"]), "letters": rng.choice([None, None, None, "upper", "title"])}
    if rng.random() < 0.75:
        lines = rng.random() < 0.6
        prof = golden(case, lines)
        table = cases.merge(cases.MAIN, cases.MAIN_MORE, cases.CTRL_C)
        for _ in range(rng.choice([1, 1, 1, 2])):
            main = {"line": ["interrupt", "interrupt", "memerr"]} if lines and rng.random() < 0.8 else table
            f = cases.place(rng, prof, cases.WORKER, main, skip_kinds=("stall",))
            if f:
                case["faults"].append(f)
        if rng.random() < 0.4:
            case["steps"] = steps + [dict(steps[-1])]
    return case


# ------------------------------------------------------------------- session
_prof = {}


def golden(case, lines):
    import json
    key = json.dumps([case["spec"], case["steps"], case["err"], lines], sort_keys=True)
    if key not in _prof:
        if len(_prof) > 40:
            _prof.pop(next(iter(_prof)))
        c = dict(case, faults=[], sched={"mode": "fifo"}, ambient=1)
        _prof[key] = run.profile(session(c, lines)[0])
    return _prof[key]


_target = {}


def target(spec):
    """(density, potential, orbitals, eigenvalues) to invert, from a converged run outside the case."""
    import json
    key = json.dumps(spec, sort_keys=True)
    if key not in _target:
        ks = dict(spec, kind="ks", opt={})
        out, _, obj = run.run_steps({"spec": ks, "steps": [{"do": "scf", "opt": {"maxiter": 30, "e_tol": 1e-7, "disp": False}}],
                                     "sched": {"mode": "fifo"}, "ambient": 1})
        _target[key] = (obj.n.copy(), obj.veff.copy(), obj.solver[0, 0].phi.copy(), obj.solver[0, 0].eig.copy())
    return _target[key]


def nest(x, arrays):
    """The caller's own copy of a nested list, as an array or as lists."""
    if isinstance(x, list):
        import copy
        return np.array(x) if arrays else copy.deepcopy(x)
    return x


def session(case, lines=False, found=None, max_steps=40000):
    spec = case["spec"]
    cad = env.load()
    if spec["kind"] == "inv":
        target(spec)
    s = run.start(case, max_steps=max_steps)
    s.lines_on = lines
    g = W.grid(spec["grid"])
    arrays = case["arrays"]
    own = {}                          # everything the caller passed, by name
    info = {"calls": 0, "raised": 0}

    def look(where, exc):
        """Compare the world with what it was."""
        if found is None:
            return
        now = process_print()
        for k, v in now.items():
            if v != base["proc"][k]:
                found.append(("process", f"{k} changed by {where} {ending(exc)}"))
                base["proc"] = now
                break
        gp = grid_print(g)
        for k, v in base["grid"].items():
            if gp.get(k) != v:
                found.append(("grid", f"grid.{k} changed by {where} {ending(exc)}"))
                base["grid"] = gp
                break
        for k, v in own.items():
            d = digest(v)
            if d != base["own"][k]:
                found.append(("argument", f"the caller's {k} changed by {where} {ending(exc)}"))
                base["own"][k] = d
                break

    def ending(exc):
        return "which succeeded" if exc is None else f"which ended with {type(exc).__name__}"

    def give(name, v):
        own[name] = v
        base["own"][name] = digest(v)
        return v

    def call(where, fn):
        exc = None
        try:
            s.trace_main(env.PREFIX)
            out = fn()
        except (run.core.HarnessError, run.core.StepLimit, run.core.Deadlock, run.core.SimKill):
            raise
        except BaseException as e:      # noqa: B902
            exc, out = e, None
        finally:
            s.untrace_main()
        info["calls"] += 1
        info["raised"] += exc is not None
        look(where, exc)
        return out

    def ks_session():
        Nmo, N = give("Nmo", nest(spec["Nmo"], arrays)), give("N", nest(spec["N"], arrays))
        o = give("options", W.spelled(dict(spec["opt"]), case.get("letters")))
        ks = call("Kohnsham()", lambda: cad.Kohnsham(g, spec["Za"], spec["Zb"], spec["pol"], Nmo, N, o))
        if ks is None:
            return
        if spec.get("field"):
            ks.vext = give("external potential", W.field(g, spec["pol"], spec["field"]))
        for k, st in enumerate(case["steps"]):
            so = give(f"scf options {k}", W.spelled(W.scf_opt(spec, st), case.get("letters")))
            call(f"Kohnsham.scf {k}", lambda: ks.scf(so))

    def part_session():
        a = {k: give(k, nest(spec[k], arrays)) for k in ("Nmo_a", "N_a", "Nmo_b", "N_b")}
        o = give("options", W.spelled(dict(spec["opt"]), case.get("letters")))
        p = call("Partition()", lambda: cad.Partition(g, spec["Za"], spec["Zb"], spec["pol"], a["Nmo_a"], a["N_a"], spec["nu_a"],
                                                      a["Nmo_b"], a["N_b"], spec["nu_b"], o))
        if p is None:
            return
        if spec["inv"] is not None:
            Nmo, N, io = spec["inv"]
            Nmo, N, io = give("inverter Nmo", nest(Nmo, arrays)), give("inverter N", nest(N, arrays)), \
                give("inverter options", W.spelled(dict(io), case.get("letters")))
            p.inverter = call("Inverter()", lambda: cad.Inverter(g, cad.Pssolver(g, Nmo, N), io))
        for k, st in enumerate(case["steps"]):
            if st.get("iso") is not None:
                p.optPartition.isolated = st["iso"]
            so = dict(st["opt"])
            if isinstance(so.get("alpha"), list):
                so["alpha"] = list(so["alpha"])
            so = give(f"scf options {k}", W.spelled(so, case.get("letters")))
            call(f"Partition.scf {k}", lambda: p.scf(so))

    def inv_session():
        n, v, phi, e = target(spec)
        inverter = None
        for k, st in enumerate(case["steps"]):
            typ = st["opt"]["invert_type"]
            if inverter is None or not st["same"] or inverter.optInv.invert_type != typ:
                Nmo, N = give(f"Nmo {k}", nest(spec["Nmo"], arrays)), give(f"N {k}", nest(spec["N"], arrays))
                io = give(f"inverter options {k}", W.spelled(dict(st["opt"]), case.get("letters")))
                so = give(f"solver options {k}", {"disp": False})
                inverter = call("Inverter()", lambda: cad.Inverter(g, cad.Pssolver(g, Nmo, N, so), io))
                if inverter is None:
                    continue
            n0 = give(f"target density {k}", n.copy() if typ == "wuyang" else n[:, 0].copy())
            v0 = give(f"initial potential {k}", v[:, [0]] * st["vscale"])
            phi0 = give(f"initial orbitals {k}", phi.flatten("F")[:, None].copy())
            e0 = give(f"initial eigenvalues {k}", e.copy())
            call(f"invert {k}", lambda: inverter.invert(n0, v0, phi0, e0))

    old_err, old_filters, old_cwd, old_env = np.geterr(), warnings.filters[:], os.getcwd(), dict(os.environ)
    old_rec = sys.getrecursionlimit()
    old_print, old_gc, old_path = np.get_printoptions(), (gc.isenabled(), gc.get_threshold()), sys.path[:]
    old_std, old_log = (sys.stdout, sys.stderr, sys.stdin), logging.root.level
    old_sig = {n: signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGCHLD,
                                                signal.SIGALRM, signal.SIGPIPE, signal.SIGUSR1)}
    base = {"own": {}}
    gbase = grid_print(g)
    try:
        for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "PYTHONHASHSEED"):
            os.environ.pop(k, None)       # settings of the harness, not of a user
        np.seterr(divide=case["err"], invalid=case["err"] if case["err"] != "raise" else "warn")
        warnings.simplefilter(case["filter"])
        warnings.showwarning = lambda *a, **k: None
        if case["ambient"] % 2:
            mp.START[0] = "spawn"         # the caller's choice (a simulated process is the same either way)
        base["proc"], base["grid"] = process_print(), dict(gbase)
        _, exc = s.run({"ks": ks_session, "part": part_session, "inv": inv_session}[spec["kind"]])
    finally:
        np.seterr(**old_err)
        warnings.filters[:] = old_filters
        warnings._filters_mutated()
        if os.getcwd() != old_cwd:
            os.chdir(old_cwd)
        if dict(os.environ) != old_env:
            os.environ.clear()
            os.environ.update(old_env)
        sys.setrecursionlimit(old_rec)
        np.set_printoptions(**old_print)
        (gc.enable if old_gc[0] else gc.disable)()
        gc.set_threshold(*old_gc[1])
        sys.path[:] = old_path
        sys.stdout, sys.stderr, sys.stdin = old_std
        logging.root.setLevel(old_log)
        for n, h in old_sig.items():
            if signal.getsignal(n) is not h:
                signal.signal(n, h)
        run.core.set_current(None)
        gp = grid_print(g)
        if any(gp.get(k) != v for k, v in gbase.items()):
            W.drop_grids()
    run.gc_soon()
    return s, info, exc


def execute(case):
    res = Res()
    golden(case, False)               # imports and caches of the process are there before we look
    found = []
    s, info, exc = session(case, False, found)
    res.took(s)
    res.tags.append(case["spec"]["name"])
    if isinstance(exc, (run.core.StepLimit, run.core.Deadlock)):
        res.bad("hang", f"the session never ends ({exc})")
        return res
    if exc is not None:
        raise exc
    res.checks = info["calls"] * 12
    res.nontrivial = info["calls"] > 1 and (bool(s.fired) or s.steps > 3)
    if info["raised"]:
        res.probes["calls_that_raised"] = info["raised"]
    res.probes["calls"] = info["calls"]
    if s.fired and s.fired[0].site == "line":
        res.probes["interrupted_at_a_line"] = 1
    for k, m in found:
        res.bad(k, m)
    return res
