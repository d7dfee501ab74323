"""Executes one case (a JSON value) as one simulated run."""
import copy
import gc
import io
import os
import pickle
import random
import warnings

import numpy as np

from . import core, env, modstate, mp, ref, seams, watch, workload as W


def make_policy(sched):
    if "decisions" in sched:
        return core.Policy(decisions=sched["decisions"])
    mode = sched.get("mode", "fifo")
    return core.Policy(random.Random(f"{mode}:{sched.get('seed', 0)}"), mode)


def new_sim(case, max_steps=40000, log=False, preempt=None):
    s = core.Sim(make_policy(case.get("sched", {})), [core.Fault.from_json(f) for f in case.get("faults", ())],
                 max_steps=case.get("max_steps", max_steps), log=log, preempt=preempt)
    s.ambient = case.get("ambient", 1)
    seams.seed_ambient(s.ambient)
    core.set_current(s)
    s.watches = []
    return s


def start(case, **kw):
    env.load()
    watch.install()
    warnings.simplefilter("ignore")
    W.prepare(case)
    modstate.pristine()
    W.restore_grids()
    mp.START[0] = None
    return new_sim(case, **kw)


# ------------------------------------------------------------------- results
def ks_result(ks):
    """Everything a user would read off a Kohn-Sham calculation, copied."""
    chan = {}
    for i in range(ks.solver.shape[0]):
        for j in range(ks.solver.shape[1]):
            s = ks.solver[i, j]
            chan[i, j] = (None if s.eig is None else np.array(s.eig, float),
                          None if s.phi is None else np.array(s.phi))
    E = {k: np.array(v, float) for k, v in vars(ks.E).items() if _numeric(v)}
    return {"E": E, "u": ks.u, "n": None if ks.n is None else ks.n.copy(),
            "veff": None if ks.veff is None else ks.veff.copy(), "chan": chan}


def _numeric(v):
    return isinstance(v, (int, float, np.number, np.ndarray))


def part_result(p):
    r = {"E": {k: np.array(v, float) for k, v in vars(p.E).items() if _numeric(v)},
         "nf": None if getattr(p, "nf", None) is None else p.nf.copy(),
         "frag": {}}
    for nm in ("KSa", "KSA", "KSb", "KSB"):
        if hasattr(p, nm):
            r["frag"][nm] = ks_result(getattr(p, nm))
    if hasattr(p.V, "vp"):
        r["vp"] = p.V.vp.copy()
    return r


def result(obj, spec):
    return part_result(obj) if spec["kind"] == "part" else ks_result(obj)


def differs(a, b, tol=0.0, path=""):
    """First difference between two results (None if there is none).

    Orbitals are compared up to their sign."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return f"{path}: {sorted(map(str, a))} / {sorted(map(str, b))}"
        for k in sorted(a, key=str):
            d = differs(a[k], b[k], tol, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, tuple):
        for i, (x, y) in enumerate(zip(a, b)):
            if i == 1 and x is not None and y is not None and np.shape(x) == np.shape(y) and np.ndim(x) == 2:
                y = _aligned(np.asarray(x), np.asarray(y))
            d = differs(x, y, tol, f"{path}[{i}]")
            if d:
                return d
        return None
    if a is None or b is None:
        return None if a is b else f"{path}: {a is None} / {b is None}"
    x, y = np.asarray(a, float), np.asarray(b, float)
    if x.shape != y.shape:
        return f"{path}: shape {x.shape} / {y.shape}"
    if x.size == 0:
        return None
    if tol == 0.0:
        if np.array_equal(x, y, equal_nan=True):
            return None
        tol = 0.0
    m = np.isfinite(x) & np.isfinite(y)
    if not np.array_equal(np.isfinite(x), np.isfinite(y)):
        return f"{path}: not finite on one side"
    x, y = x[m], y[m]
    if x.size == 0:
        return None
    sc = max(1.0 if x.size <= 4 else 0.0, np.max(np.abs(y)), 1e-300)
    d = np.max(np.abs(x - y)) / sc
    if d <= tol:
        return None
    v = f" ({float(x.ravel()[0]):.10g} / {float(y.ravel()[0]):.10g})" if x.size == 1 else ""
    return f"{path}: relative difference {d:.3g}{v}"


def _aligned(x, y):
    d = np.nansum(x * y, axis=0)
    return y * np.where(d < 0, -1.0, 1.0)


# ------------------------------------------------------------------- running
class Outcome:
    """What one simulated run did."""

    def __init__(self):
        self.steps = []       # one dict per step
        self.exc = None
        self.fatal = None     # Deadlock / StepLimit
        self.orphans = []
        self.fired = []


def build(spec):
    return W.build_part(spec) if spec["kind"] == "part" else W.build_ks(spec)


def channels(obj, spec):
    """{(object name, i, j): (eig, phi) by value}"""
    out = {}
    objs = {"KS": obj} if spec["kind"] == "ks" else \
        {nm: getattr(obj, nm) for nm in ("KSa", "KSA", "KSb", "KSB") if hasattr(obj, nm)}
    for nm, ks in objs.items():
        for i in range(ks.solver.shape[0]):
            for j in range(ks.solver.shape[1]):
                s = ks.solver[i, j]
                out[nm, i, j] = (None if s.eig is None else np.array(s.eig),
                                 None if s.phi is None else np.array(s.phi))
    return out


def classify(e):
    if e is None:
        return None
    return f"{type(e).__name__}: {str(e)[:160]}"


def run_steps(case, kinds=(), trace=False, hooks=None, log=False, max_steps=40000, lines=False):
    """Run case["steps"] on a fresh object; returns (Outcome, sim, obj, watch).

    Each step: {"do": "scf", "opt": {...}, "iso": bool}
             | {"do": "save"}  | {"do": "fresh_from_saved"} | {"do": "pickle"} | {"do": "fresh"}
    A step that raises an ordinary exception does not stop the program."""
    spec = case["spec"]
    s = start(case, log=log, max_steps=max_steps)
    s.lines_on = lines
    out = Outcome()
    box = {"obj": None}
    saved = {}

    def attach(obj):
        box["obj"] = obj
        s.watches.clear()
        w = watch.Watch(obj, spec, kinds, trace)
        box.setdefault("all_watches", []).append(w)
        s.watches.append(w)
        return w

    def one(step):
        do = step["do"]
        obj = box["obj"]
        w = s.watches[0]
        if do == "scf":
            iso = step.get("iso")
            if iso is not None and spec["kind"] == "part":
                obj.optPartition.isolated = iso
            isov = bool(getattr(obj, "optPartition", None) is not None and obj.optPartition.isolated) \
                if spec["kind"] == "part" else False
            w.begin(W.scf_opt(spec, step), isov)
            ok = False
            try:
                s.trace_main(env.PREFIX)
                obj.scf(W.spelled(W.scf_opt(spec, step), step.get("letters")))
                ok = True
            finally:
                s.untrace_main()
                w.end(ok)
        elif do == "save":
            saved["n"] = _get_n(obj, spec)
        elif do == "fresh":
            attach(build(spec))
        elif do == "fresh_from_saved":
            new = build(spec)
            _set_n(new, spec, saved["n"])
            attach(new)
        elif do == "pickle":
            g = obj.grid
            memo_out, memo_in = _pickle(obj, g)
            attach(memo_in)
        elif do == "deepcopy":
            attach(copy.deepcopy(obj))
        else:
            raise core.HarnessError(do)

    def program():
        try:
            attach(build(spec))
        except (core.HarnessError, core.StepLimit, core.Deadlock, core.SimKill):
            raise
        except BaseException as e:          # noqa: B902 (no object: every step fails with that)
            n = len(s.fired)
            out.steps = [{"do": st["do"], "exc": e, "fired0": 0, "fired1": n, "iters": 0, "live": [], "result": None,
                          "before": None, "after": None} for st in case["steps"]]
            return
        for k, step in enumerate(case["steps"]):
            rec = {"do": step["do"], "exc": None, "fired0": len(s.fired)}
            out.steps.append(rec)
            if hooks and "before" in hooks:
                rec["before"] = hooks["before"](box["obj"], k)
            try:
                one(step)
            except (core.HarnessError, core.StepLimit, core.Deadlock, core.SimKill):
                raise
            except BaseException as e:      # noqa: B902
                rec["exc"] = e
            rec["fired1"] = len(s.fired)
            rec["iters"] = s.watches[0].iters
            rec["live"] = [t.name for t in s.tasks[1:] if t.state != "done"]
            rec["result"] = result(box["obj"], spec)
            if hooks and "after" in hooks:
                rec["after"] = hooks["after"](box["obj"], k)

    _, exc = s.run(program)
    core.set_current(None)
    if isinstance(exc, (core.StepLimit, core.Deadlock)):
        out.fatal = exc
    elif exc is not None:
        out.exc = exc
    out.orphans = [t.name for t in s.tasks if t.orphan]
    out.fired = list(s.fired)
    out.watches = box.get("all_watches", [])
    gc_soon()
    return out, s, box["obj"]


_gc = 0


def gc_soon():
    global _gc
    _gc += 1
    if _gc % 20 == 0:
        gc.collect()


def _pickle(obj, grid):
    """Through pickle bytes, with the shared read-only grid kept out of them."""
    class P(pickle.Pickler):
        def persistent_id(self, o):
            return "grid" if o is grid else None

    class U(pickle.Unpickler):
        def persistent_load(self, pid):
            return grid
    f = io.BytesIO()
    P(f).dump(obj)
    f.seek(0)
    return f.getbuffer().nbytes, U(f).load()


def _get_n(obj, spec):
    if spec["kind"] == "ks":
        return {"KS": None if obj.n is None else obj.n.copy()}
    return {nm: (None if getattr(obj, nm).n is None else getattr(obj, nm).n.copy())
            for nm in ("KSa", "KSA", "KSb", "KSB") if hasattr(obj, nm)}


def _set_n(obj, spec, n):
    if spec["kind"] == "ks":
        obj.n = None if n["KS"] is None else n["KS"].copy()
        return
    for nm, v in n.items():
        getattr(obj, nm).n = None if v is None else v.copy()


def profile(s):
    """[(task, site, count)] of a finished run, for placing faults."""
    return [(t.name, site, c) for t in s.tasks for site, c in sorted(t.counts.items())]


def interleaving(s):
    return s.trace_hash
