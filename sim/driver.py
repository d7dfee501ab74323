"""Runs the cases of one property in parallel, minimises, replays, writes evidence.

    driver.py PROP [--tier quick|thorough] [--replay FILE] [--index N] [--seconds S] [--max N]
    driver.py --worker PROP ...            (internal)
"""
import importlib
import json
import os
import signal
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

PY = sys.executable
CPU_LIMIT = 100           # processor seconds after which a case counts as never ending
CASE_LIMIT = 200          # wall seconds one case may take before the check is broken


def prop_module(pid):
    return importlib.import_module("props." + pid.lower())


# --------------------------------------------------------------------- worker
def worker(pid, tier, seed, start, stride, seconds, maxn):
    """Runs cases start, start+stride, ... and prints one JSON line per case."""
    from sim import cases, env
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    m = prop_module(pid)
    env.load()
    t0 = time.monotonic()
    i = start
    while i < maxn and time.monotonic() - t0 < seconds:
        out.write(json.dumps({"begin": i}) + "\n")
        t1 = time.monotonic()
        try:
            case = m.gen(cases.rng_of(seed, pid, i), i, tier)
            if case is None:
                i += stride
                continue
            case["index"] = i
            res = m.execute(case)
            rec = res.to_json()
            rec["index"] = i
            rec["case"] = case
            rec["wall"] = time.monotonic() - t1
        except BaseException as e:       # noqa: B902 - the harness itself failed
            rec = {"index": i, "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()}
        out.write(json.dumps(rec, default=_plain) + "\n")
        i += stride
    out.write(json.dumps({"end": True, "stub": env.pylibxc_is_stub()}) + "\n")
    out.flush()
    os._exit(0)


def _plain(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


# --------------------------------------------------------------------- parent
def environ(extra=None):
    e = dict(os.environ)
    e.update({"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
              "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYTHONPATH": HERE,
              "PYTHONHASHSEED": e.get("PYTHONHASHSEED", "0")})
    e.update(extra or {})
    return e


class Worker:
    def __init__(self, pid, tier, seed, k, n, seconds, maxn, sink):
        self.cmd = [PY, os.path.join(HERE, "sim", "driver.py"), "--worker", pid, tier, str(seed), str(k), str(n),
                    str(seconds), str(maxn)]
        self.p = subprocess.Popen(self.cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  env=environ(), cwd=HERE)
        self.begun, self.begun_at, self.ended, self.stub = None, time.monotonic(), False, None
        self.err = []
        self.t = threading.Thread(target=self._read, args=(sink,), daemon=True)
        self.t.start()
        self.te = threading.Thread(target=self._readerr, daemon=True)
        self.te.start()

    def _readerr(self):
        for line in self.p.stderr:
            self.err.append(line)
            del self.err[:-40]

    def _read(self, sink):
        for line in self.p.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "begin" in d:
                self.begun, self.begun_at = d["begin"], time.monotonic()
            elif "end" in d:
                self.ended, self.stub = True, d["stub"]
            else:
                self.begun_at = time.monotonic()
                sink(d)


def run_one(pid, case, limit=CASE_LIMIT, hashseed=None):
    """Run one explicit case in a fresh process; returns its record."""
    env = environ({} if hashseed is None else {"PYTHONHASHSEED": hashseed})
    p = subprocess.run([PY, os.path.join(HERE, "sim", "driver.py"), "--one", pid], input=json.dumps(case), text=True,
                       capture_output=True, env=env, cwd=HERE, timeout=limit)
    for line in reversed(p.stdout.splitlines()):
        try:
            return json.loads(line)
        except ValueError:
            continue
    return {"error": "no answer", "tb": p.stderr[-2000:]}


ENDLESS = "endless"
NEVER = f"the calculation does not end: stopped after {CPU_LIMIT} s of processor time (others take seconds)"


def endless(pid, case):
    """Does the case compute on and on?  (Processor time, so that a busy machine is not mistaken for it.)"""
    cmd = ["/bin/sh", "-c", f'ulimit -t {CPU_LIMIT}; exec "$0" "$@"', PY, os.path.join(HERE, "sim", "driver.py"), "--one", pid]
    try:
        p = subprocess.run(cmd, input=json.dumps(case), text=True, capture_output=True, env=environ(), cwd=HERE,
                           timeout=3 * CPU_LIMIT)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode in (-signal.SIGXCPU, -signal.SIGKILL)


def one(pid):
    case = json.loads(sys.stdin.read())
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from sim import env
    try:
        m = prop_module(pid)
        env.load()
        res = m.execute(case)
        rec = res.to_json()
        rec["case"] = case
        rec["decisions"] = getattr(res, "decisions", [])
    except BaseException as e:       # noqa: B902
        rec = {"error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()}
    out.write(json.dumps(rec, default=_plain) + "\n")
    out.flush()
    os._exit(0)


# ------------------------------------------------------------------- findings
def known_findings():
    """(open findings, fixed findings) of known_findings.json"""
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("findings", [])


def matches(finding, pid, case, key, msg):
    if finding["property"] != pid or finding.get("key") != key:
        return False
    return all(json.dumps(_dig(case, k), sort_keys=True) == json.dumps(v, sort_keys=True)
               for k, v in finding.get("where", {}).items()) and finding.get("text", "") in msg


def _dig(c, path):
    for p in path.split("."):
        if isinstance(c, list):
            c = c[int(p)] if int(p) < len(c) else None
        elif isinstance(c, dict):
            c = c.get(p)
        else:
            return None
    return c


def split(pid, rec, findings):
    """(violations that count, known ones)"""
    new, old = [], []
    for key, msg in rec.get("viol", []):
        hit = [f for f in findings if matches(f, pid, rec["case"], key, msg)]
        (old if hit else new).append((key, msg, hit[0] if hit else None))
    return new, old


# ------------------------------------------------------------------- minimise
def variants(case, keep=("max_iter", "maxiter", "e_tol")):
    """Simpler versions of a case, most drastic first."""
    import copy
    fs = case.get("faults") or []
    if len(fs) > 1:
        for k in range(len(fs)):
            c = copy.deepcopy(case)
            c["faults"] = [fs[k]]
            yield c
    for k in range(len(fs)):
        c = copy.deepcopy(case)
        del c["faults"][k]
        yield c
    steps = case.get("steps") or []
    if len(steps) > 1:
        for k in range(len(steps) - 1, -1, -1):
            c = copy.deepcopy(case)
            del c["steps"][k]
            yield c
    ops = case.get("ops") or []
    if len(ops) > 1:
        for k in range(len(ops) - 1, -1, -1):
            c = copy.deepcopy(case)
            del c["ops"][k]
            yield c
    if case.get("sched", {}).get("mode", "fifo") != "fifo" or case.get("sched", {}).get("decisions"):
        c = copy.deepcopy(case)
        c["sched"] = {"mode": "fifo"}
        yield c
    for k, st in enumerate(steps):
        opt = st.get("opt", {})
        for name in ("max_iter", "maxiter"):
            if opt.get(name, 0) > 2:
                for v in (2, 3, opt[name] // 2):
                    if v < opt[name]:
                        c = copy.deepcopy(case)
                        c["steps"][k]["opt"][name] = v
                        yield c
        for name in sorted(opt):
            if name not in keep:
                c = copy.deepcopy(case)
                del c["steps"][k]["opt"][name]
                yield c
    if case.get("ambient", 1) != 1:
        c = copy.deepcopy(case)
        c["ambient"] = 1
        yield c


def minimise(pid, case, key, findings, seconds=90):
    """Smallest case found that still shows a violation with the same key."""
    m = prop_module(pid)
    keep = ("max_iter", "maxiter", "e_tol") + tuple(getattr(m, "KEEP_OPTS", ()))
    gen = getattr(m, "variants", lambda c: variants(c, keep))
    t0 = time.monotonic()
    best, tried, progress = case, 0, True
    while progress and time.monotonic() - t0 < seconds:
        progress = False
        for c in gen(best):
            if time.monotonic() - t0 > seconds:
                break
            tried += 1
            try:
                rec = run_one(pid, c, limit=60)
            except subprocess.TimeoutExpired:
                continue
            if "error" in rec:
                continue
            rec["case"] = c
            new, _ = split(pid, rec, findings)
            if any(k == key for k, _, _ in new):
                best, progress = c, True
                break
    return best, tried


def write_replay(pid, case, key, msg, tried):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{case.get('index', 0)}-{os.getpid()}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "violation": key, "message": msg, "case": case,
                   "minimisation_runs": tried}, f, indent=1, default=_plain)
    return path


# ----------------------------------------------------------------------- main
def check(pid, tier, seed, seconds, maxn, nworkers):
    m = prop_module(pid)
    t_start = time.monotonic()
    findings = known_findings()
    recs, lock = [], threading.Lock()
    stop = threading.Event()
    bad, errors, seen_known = [], [], {}

    def sink(d):
        with lock:
            if "error" in d:
                errors.append(d)
                return
            new, old = split(pid, d, findings)
            for key, msg, f in old:
                seen_known.setdefault(f["id"], (f, d["index"], 0))
                f0, i0, c = seen_known[f["id"]]
                seen_known[f["id"]] = (f0, i0, c + 1)
            recs.append(d)
            if new:
                bad.append((d, new))
                if len(bad) >= 3:
                    stop.set()

    ws = [Worker(pid, tier, seed, k, nworkers, seconds, maxn, sink) for k in range(nworkers)]
    hung = None
    first_bad = None
    while any(w.p.poll() is None for w in ws):
        time.sleep(0.1)
        if bad and first_bad is None:
            first_bad = time.monotonic()
        if stop.is_set() or (first_bad and time.monotonic() - first_bad > 10):
            break
        for w in ws:
            if w.p.poll() is None and time.monotonic() - w.begun_at > CASE_LIMIT:
                hung = w.begun
                stop.set()
    for w in ws:
        if w.p.poll() is None:
            w.p.kill()
        w.p.wait()
    for w in ws:
        w.t.join(5)
        w.te.join(2)
    broken = [w for w in ws if not w.ended] if not (stop.is_set() or first_bad) else []

    code = 0
    lines = []
    nviol = 0
    if bad:
        # smallest first; confirm in a fresh process before saying anything
        bad.sort(key=lambda b: (len(b[0]["case"].get("faults") or []), b[0].get("wall", 0)))
        for d, new in bad:
            key, msg, _ = new[0]
            case = d["case"]
            try:
                rec = run_one(pid, case)
            except subprocess.TimeoutExpired:
                errors.append({"index": d["index"], "error": "replay did not end"})
                continue
            rec["case"] = case
            again = [] if "error" in rec else split(pid, rec, findings)[0]
            if not again:
                errors.append({"index": d["index"], "error": "violation did not replay: " + msg,
                               "tb": rec.get("tb", "")})
                continue
            nviol += 1
            if code == 0:
                key, msg, _ = again[0]
                if time.monotonic() - t_start < 600:
                    best, tried = minimise(pid, case, key, findings, 60 if tier == "quick" else 240)
                else:
                    best, tried = case, 0
                rec = run_one(pid, best)
                rec["case"] = best
                v = [x for x in split(pid, rec, findings)[0] if x[0] == key] or [(key, msg, None)]
                path = write_replay(pid, best, key, v[0][1], tried)
                lines.append(f"seed={seed} index={case.get('index')} {key}: {v[0][1]}")
                lines.append(f"VIOLATION property={pid} replay={path}")
                code = 1
    if code == 0 and hung is not None and getattr(m, "TERMINATES", False):
        from sim import cases
        case = m.gen(cases.rng_of(seed, pid, hung), hung, tier)
        case["index"] = hung
        if endless(pid, case):
            nviol += 1
            path = write_replay(pid, case, ENDLESS, NEVER, 0)
            lines += [f"seed={seed} index={hung} {ENDLESS}: {NEVER}", f"VIOLATION property={pid} replay={path}"]
            code = 1
    if code == 0 and (errors or broken or hung is not None):
        code = 2
    wall = time.monotonic() - t_start
    stub = any(w.stub for w in ws)
    write_evidence(pid, m, tier, seed, recs, wall, nviol, seen_known, findings, stub, len(errors), nworkers)
    n = len(recs)
    print(f"{pid} {tier} seed={seed}: {n} cases, {sum(r['runs'] for r in recs)} simulated runs, "
          f"{sum(sum(r['fired'].values()) for r in recs)} faults fired, {wall:.0f} s")
    for fid, (f, i, c) in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {f['what']} (seen {c} times, first at case {i})")
    for f in findings:
        if f["property"] == pid and f.get("status") == "open" and f["id"] not in seen_known:
            print(f"KNOWN-FINDING: property={pid} {f['what']} (not met in this run)")
    for line in lines:
        print(line)
    if code == 2:
        for e in errors[:3]:
            print("ERROR", e.get("index"), e.get("error"), "\n", e.get("tb", "")[-1500:], file=sys.stderr)
        for w in broken[:2]:
            print("ERROR worker ended early at case", w.begun, "".join(w.err)[-1500:], file=sys.stderr)
        if hung is not None:
            print("ERROR case", hung, "did not end", file=sys.stderr)
    return code


def write_evidence(pid, m, tier, seed, recs, wall, nviol, seen_known, findings, stub, nerr, nworkers):
    fired, probes, tags = {}, {}, {}
    hashes, sigs = set(), set()
    for r in recs:
        for k, v in r["fired"].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        for t in r["tags"]:
            tags[t] = tags.get(t, 0) + 1
        hashes.update(r["hashes"])
        if r["nontrivial"]:
            sigs.add(tuple(r["hashes"]) + (json.dumps(r["case"].get("spec", r["case"].get("ops", "")),
                                                      sort_keys=True, default=_plain),))
    runs = sum(r["runs"] for r in recs)
    sample = []
    for r in sorted((r for r in recs if r["nontrivial"]), key=lambda r: len(json.dumps(r["case"], default=_plain)))[:2]:
        sample.append({"case": r["case"], "fired": r["fired"], "steps": r["steps"]})
    if not sample and recs:
        sample = [{"case": recs[0]["case"]}]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": m.LEVEL,
        "coverage": {
            "evaluations": len(recs),
            "distinct_nontrivial": len(sigs),
            "rule": m.RULE,
            "samples": sample,
            "simulated_runs": runs,
            "runs_per_hour": round(runs / wall * 3600) if wall else 0,
            "seeds_per_hour": round(len(recs) / wall * 3600) if wall else 0,
            "simulated_seconds": round(sum(r["simtime"] for r in recs), 3),
            "scheduling_points": sum(r["steps"] for r in recs),
            "oracle_comparisons": sum(r["checks"] for r in recs),
            "faults_fired": dict(sorted(fired.items())),
            "distinct_interleavings": len(hashes),
            "interleaving_measure": "distinct CRCs over the full sequence of crossings, task switches, faults and completions of a run",
            "reach": dict(sorted(probes.items())),
            "workloads": dict(sorted(tags.items())),
            "processes": nworkers,
            "harness_errors": nerr,
            "known_findings_seen": {k: v[2] for k, v in sorted(seen_known.items())},
            "real_components": m.REAL,
            "stub_components": m.STUBS + (["pylibxc: not installed here; sim/stubs/pylibxc (numpy) stands in for it"] if stub else []),
        },
        "assumptions": m.ASSUME,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=_plain)
    os.replace(path + ".tmp", path)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    pid = d["property"]
    if d.get("violation") == ENDLESS:
        if endless(pid, d["case"]):
            print(f"{ENDLESS}: {NEVER}")
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        print("no violation")
        return 0
    rec = run_one(pid, d["case"])
    if "error" in rec:
        print(rec["error"], rec.get("tb", ""), file=sys.stderr)
        return 2
    rec["case"] = d["case"]
    for k, v in rec["viol"]:
        print(f"{k}: {v}")
    new, _ = split(pid, rec, known_findings())
    if new:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("no violation")
    return 0


def main(argv):
    if argv[0] == "--worker":
        pid, tier, seed, k, n, sec, mx = argv[1:8]
        return worker(pid, tier, int(seed), int(k), int(n), float(sec), int(mx))
    if argv[0] == "--one":
        return one(argv[1])
    if argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nw = int(os.environ.get("VERIF_JOBS", "8"))
    m = prop_module(pid)
    opts = dict(zip(argv[1::2], argv[2::2]))
    tier = opts.get("--tier", tier)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(opts.get("--seed", seed))
    if "--replay" in opts:
        return replay(opts["--replay"])
    if "--index" in opts:
        from sim import cases
        case = m.gen(cases.rng_of(seed, pid, int(opts["--index"])), int(opts["--index"]), tier)
        case["index"] = int(opts["--index"])
        if "--dump" in opts:
            print(json.dumps(case, indent=1))
        rec = run_one(pid, case)
        rec["case"] = case
        print(json.dumps(rec, indent=1, default=_plain))
        return 0
    seconds = float(opts.get("--seconds", m.SECONDS[tier]))
    maxn = int(opts.get("--max", m.CASES[tier]))
    return check(pid, tier, seed, seconds, maxn, nw)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
