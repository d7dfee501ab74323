"""Shared by the properties: picking systems, placing faults, golden runs, verdicts."""
import hashlib
import json
import random

from . import core, env, run, workload as W

# what can go wrong at which kind of crossing
WORKER = {
    "proc.boot": ["kill", "memerr", "stall"],
    "proc.exit": ["kill", "stall"],
    "rpc.set": ["kill", "reset", "eof", "lostack", "mgrdie", "stall", "memerr"],
    "rpc.get": ["kill", "reset", "eof", "stall"],
    "num.eigs": ["kill", "noconv", "memerr", "stall", "nan"],
    "num.eigsh": ["kill", "noconv", "memerr", "stall", "nan"],
    "num.spsolve": ["kill", "singular", "memerr", "stall"],
    "num.spilu": ["kill", "singular", "memerr", "stall"],
    "num.splu": ["kill", "singular", "memerr", "stall"],
    "num.bicgstab": ["kill", "memerr", "stall"],
    "num.inv": ["kill", "singular", "memerr", "stall"],
    "num.solve": ["kill", "singular", "memerr", "stall"],
    "num.eigla": ["kill", "singular", "memerr", "stall"],
    "io.print": ["kill", "stall"],
    "time.sleep": ["kill", "stall"],
}
MAIN = {
    "proc.start": ["eagain", "enomem", "stall"],
    "mgr.start": ["eagain", "eof", "stall"],
    "proc.join": ["stall"],
    "proc.wait": ["stall"],
    "rpc.get": ["reset", "eof", "mgrdie", "stall"],
    "rpc.set": ["reset", "eof", "mgrdie", "stall"],
}
MAIN_MORE = {               # failures of the caller's own work
    "num.spsolve": ["memerr", "singular"],
    "num.splu": ["memerr", "singular"],
    "num.solve": ["memerr", "singular"],
    "num.lstsq": ["memerr", "singular"],
    "num.inv": ["memerr", "singular"],
    "num.eigs": ["memerr", "noconv"],
    "num.factorized": ["memerr"],
    "io.print": ["epipe", "enospc"],
}
CTRL_C = {s: ["interrupt"] for s in
          ("proc.start", "proc.join", "proc.wait", "rpc.get", "rpc.set", "mgr.start", "num.spsolve",
           "io.print", "line", "num.solve", "num.splu", "num.least_squares", "num.eigs")}
CTRL_C["line"] = ["interrupt", "interrupt", "memerr"]


def merge(*tables):
    out = {}
    for t in tables:
        for k, v in t.items():
            out.setdefault(k, [])
            out[k] = out[k] + [x for x in v if x not in out[k]]
    return out


def rng_of(*parts):
    return random.Random(int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big"))


def place(rng, prof, worker=None, main=None, skip_kinds=(), window=None):
    """One fault at a crossing that the profiled run really has.

    A kind of site is chosen first, then one of its crossings: rare sites get as
    much attention as frequent ones."""
    groups = {}
    for task, site, n in prof:
        table = (main if task == "main" else worker) or {}
        kinds = [k for k in table.get(site, ()) if k not in skip_kinds]
        if kinds and n:
            groups.setdefault((task == "main", site), [kinds, []])[1].append((task, n))
    if not groups:
        return None
    key = rng.choice(sorted(groups))
    kinds, where = groups[key]
    tot = sum(n for _, n in where)
    x = rng.randrange(tot)
    if window is not None:                 # only this part of the run (fractions)
        lo, hi = int(window[0] * tot), max(int(window[0] * tot) + 1, int(window[1] * tot))
        x = rng.randrange(lo, min(hi, tot))
    for task, n in where:
        if x < n:
            break
        x -= n
    kind = rng.choice(kinds)
    arg = rng.choice([0.5, 30.0, 3600.0, 86400.0]) if kind == "stall" else \
        rng.choice([0.0, 0.5, 0.99]) if kind == "unconv" else \
        rng.choice([1e-6, 1e-3, 0.1, -1.0, 1e3]) if kind == "off" else 0.0
    return {"task": task, "site": key[1], "nth": x, "kind": kind, "arg": arg}


def sched(rng):
    return {"mode": rng.choice(core.POLICIES), "seed": rng.randrange(1 << 30)}


# ------------------------------------------------------------------- golden
_cache = {}


def golden(spec, steps, kinds=(), trace=False, lines=False, hooks=None, tag=""):
    """The failure-free run under the simplest schedule, once per process."""
    key = json.dumps([spec, steps, sorted(kinds), trace, lines, tag], sort_keys=True)
    r = _cache.get(key)
    if r is None:
        if len(_cache) > 60:
            _cache.pop(next(iter(_cache)))
        case = {"spec": spec, "steps": steps, "sched": {"mode": "fifo"}, "ambient": 1, "faults": []}
        out, s, obj = run.run_steps(case, kinds, trace, hooks=hooks, lines=lines)
        for st in out.steps:
            if st["exc"] is not None and isinstance(st["exc"], SystemError):
                raise st["exc"]
        r = _cache[key] = (out, run.profile(s), s.steps, s.now)
    return r


class Res:
    """Verdict and statistics of one case."""

    def __init__(self):
        self.viol = []
        self.fired = {}
        self.runs = 0
        self.simtime = 0.0
        self.steps = 0
        self.hashes = []
        self.checks = 0
        self.nontrivial = False
        self.probes = {}
        self.tags = []
        self.known = []

    def bad(self, key, msg):
        self.viol.append([key, msg[:400]])

    def took(self, s):
        self.runs += 1
        self.simtime += s.now
        self.steps += s.steps
        self.hashes.append(s.trace_hash)
        for f in s.fired:
            k = f"{f.kind}@{f.site}"
            self.fired[k] = self.fired.get(k, 0) + 1
        for k, v in s.probes.items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.decisions = list(s.policy.taken)

    def watched(self, out):
        for w in out.watches:
            self.checks += w.checks
            for k, m in w.viol:
                self.bad(k, m)

    def to_json(self):
        return {"viol": self.viol, "fired": self.fired, "runs": self.runs, "simtime": self.simtime,
                "steps": self.steps, "hashes": self.hashes, "checks": self.checks,
                "nontrivial": bool(self.nontrivial), "probes": self.probes, "tags": self.tags,
                "known": self.known}


def fault_limit(gsteps):
    return 20 * gsteps + 5000


def fatal(res, out, what="the run"):
    if out.fatal is not None:
        kind = type(out.fatal).__name__
        res.bad("hang", f"{what} never ends after the failure ({kind}: {out.fatal})")
        return True
    return False


def unexpected(exc):
    return f"{type(exc).__name__}: {str(exc)[:200]}"


# ------------------------------------------------------------------ systems
KS_ALL = list(W.KS)
PART_ALL = list(W.PART)
KS_CHEAP = ["H", "He", "He_pol", "H2", "H2_pol", "HeHp", "He2p", "Li", "Be", "He_p", "Hp_ni", "pi_ni",
            "H2_sym", "H2p_sym", "frac2_ni", "delta_ni"]
SHAPES = [(4, 3, 3), (4, 3, 3), (3, 4, 4), (4, 3, 4)]


def shape(rng):
    return rng.choice(SHAPES)


def numerical(e):
    """A numerical breakdown (the iteration diverged), as opposed to a broken program."""
    name = type(e).__name__
    t = str(e).lower()
    if name.startswith("Arpack") or name in ("LinAlgError", "FloatingPointError", "OverflowError"):
        return True
    return name in ("RuntimeError", "ValueError") and any(
        w in t for w in ("singular", "infs or nans", "nan", "not finite", "infinit"))


def breakdown(s, e):
    """Did this failure-free run end in a numerical breakdown, of the caller's or a worker's solver?"""
    return numerical(e) or any(numerical(w) for w in s.worker_excs)
