"""C13: the package always knows a version, whatever git does."""
import importlib
import importlib.util
import os
import random
import re
import shutil
import tempfile

from sim import cases, core, env, git, run
from sim.cases import Res

LEVEL = "fault_enumeration"
TERMINATES = True        # a run that never ends breaks the property
RULE = ("a case is a simulated repository (tag, distance, dirty, caller in another repository or none) and 1-3 version queries, by "
        "function or by re-importing the package, with 0-3 faults placed on git processes the query really starts; non-trivial when at "
        "least one git process ran or was refused")
SECONDS = {"quick": 35, "thorough": 600}
CASES = {"quick": 6000, "thorough": 400000}
REAL = ["CADMium/_version.py", "CADMium/__init__.py"]
STUBS = ["git: a model of the program behind subprocess.Popen (answers, exit codes, signals, pipes of 64 KB, launch errors)"]
ASSUME = ["git itself ends sooner or later: a git that blocks forever is not simulated",
          "output that is wrong and yet exactly of the right form cannot be told from an answer and is not injected",
          "a git killed or failing ends with a non-zero status"]


# ----------------------------------------------------------------- generator
TAGS = ["v1.0", "1.0", "v0.3.1", "1.2.3rc1", "release-2.0", "v1.0-beta-2", "1.0+local", "1.0+local.1", "v2", "2020.01", "a-1-gdeadbee", "0.9.9-dirty",
        "0", "x"]


def repo(rng):
    full = "".join(rng.choice("0123456789abcdef") for _ in range(rng.choice([40, 40, 40, 64])))
    return {"tag": rng.choice(TAGS) if rng.random() < 0.75 else None, "distance": rng.choice([0, 0, 1, 7, 123]),
            "dirty": rng.random() < 0.4, "full": full, "abbrev": rng.choice([7, 7, 8, 10, 12]), "count": rng.choice([1, 5, 312]),
            "date": rng.choice(["2021-05-06 07:08:09 +0200", "1999-12-31 23:59:59 -0800"])}


def gen(rng, i, tier):
    case = {"repo": repo(rng) if rng.random() < 0.92 else None, "other": repo(rng) if rng.random() < 0.5 else None,
            "ops": [rng.choice(["call", "call", "call", "import", "import", "archive"]) for _ in range(rng.choice([1, 1, 2, 3]))],
            "sched": {"mode": "fifo"}, "ambient": 1, "faults": []}
    if "archive" in case["ops"]:
        case["archive"] = archive(rng)
    nf = rng.choice([0, 1, 1, 1, 1, 2, 3])
    if nf:
        n = calls(case)
        if n:
            for _ in range(nf):
                kind = rng.choice(git.KINDS)
                nth = rng.randrange(n)
                case["faults"].append({"task": "main", "site": "git.run", "nth": nth, "kind": kind, "arg": arg(rng, kind)})
                if rng.random() < 0.15:           # from here on git stays like that
                    case["faults"] += [dict(case["faults"][-1], nth=k) for k in range(nth + 1, n)]
    return case


def archive(rng):
    """What 'git archive' recorded: the names git had for the commit, its id and its date."""
    names = ["HEAD -> master", "HEAD", "master", "origin/master", "origin/HEAD"]
    refs = rng.sample(names, rng.randrange(3)) if rng.random() < 0.8 else []
    tags = rng.sample([t for t in TAGS if t != "x"], rng.choice([0, 1, 1, 1, 2, 3]))
    old = rng.random() < 0.2 and all(re.search(r"\d", t) for t in tags)       # git before 1.8.3
    refs += [t if old else "tag: " + t for t in tags]
    rng.shuffle(refs)
    text = rng.choice([" (%s)", "(%s)"]) % ", ".join(refs) if refs else ""
    d = repo(rng)
    return {"refnames": text, "tags": tags, "full": d["full"], "date": d["date"]}


def arg(rng, kind):
    if kind == "garbage":
        return float(rng.randrange(len(git.GARBAGE)))
    if kind in ("signal", "term"):
        return float(rng.randrange(0, 9))
    return 60.0 if kind == "stall" else 0.0


_calls = {}


def calls(case):
    import json
    key = json.dumps([case["repo"], case["ops"], case.get("archive")], sort_keys=True)
    if key not in _calls:
        if len(_calls) > 200:
            _calls.clear()
        s, _, _ = session(dict(case, faults=[]))
        _calls[key] = s.tasks[0].counts.get("git.run", 0)
    return _calls[key]


# -------------------------------------------------------------------- oracle
def described(r):
    """(regular expression of the version, full id, dirty) that git describes."""
    sha = lambda n: "(%s)" % "|".join(re.escape(r["full"][:k]) for k in range(n, len(r["full"]) + 1))   # noqa: E731
    if r["tag"] is None:
        v = rf"0\+untagged\.{r['count']}\.g{sha(7)}" + (r"\.dirty" if r["dirty"] else "")
    else:
        v = re.escape(r["tag"])
        if r["distance"] or r["dirty"]:
            v += re.escape("." if "+" in r["tag"] else "+") + rf"{r['distance']}\.g{sha(7)}" + (r"\.dirty" if r["dirty"] else "")
    return re.compile(v + r"\Z"), r["full"], r["dirty"]


def matches(rec, r):
    pat, full, dirty = described(r)
    return bool(pat.match(rec["version"])) and rec.get("full-revisionid") == full and rec.get("error") is None \
        and bool(rec.get("dirty")) == dirty


def unknown(rec):
    return "unknown" in rec["version"] and bool(rec.get("error"))


# ------------------------------------------------------------------- session
def session(case):
    cad = env.load()
    git.install()
    mod = importlib.import_module("CADMium._version")
    s = run.start(case, max_steps=3000)
    root = os.path.dirname(os.path.dirname(os.path.realpath(cad.__file__)))
    away = tempfile.mkdtemp(prefix="c13-")
    repos = {}
    if case["repo"]:
        repos[root] = git.Repo(case["repo"])
    if case["other"]:
        repos[away] = git.Repo(case["other"])
    s.git, s.popen = git.World(repos, away), git.SimPopen
    records = []
    keep = {k: v for k, v in vars(cad).items() if k in ("__version__", "__git_revision__")}

    def one(q):
        if q == "archive":
            return exported(mod, away, case["archive"])
        importlib.reload(mod)
        if q == "call":
            return mod.get_versions()
        importlib.reload(cad)
        return {"version": cad.__version__, "full-revisionid": cad.__git_revision__, "imported": True}

    def program():
        for q in case["ops"]:
            n0, c0 = len(s.fired), s.tasks[0].counts.get("git.run", 0)
            rec, exc = None, None
            try:
                rec = one(q)
            except (core.HarnessError, core.StepLimit, core.Deadlock, core.SimKill):
                raise
            except BaseException as e:     # noqa: B902
                exc = e
            records.append((q, rec, exc, [f for f in s.fired[n0:]], s.tasks[0].counts.get("git.run", 0) - c0))

    cwd = os.getcwd()
    try:
        os.chdir(away)
        _, exc = s.run(program)
    finally:
        os.chdir(cwd)
        run.core.set_current(None)
        for k, v in keep.items():
            setattr(cad, k, v)
        shutil.rmtree(away, ignore_errors=True)
    return s, records, exc


def exported(mod, away, a):
    """The version an exported archive of the package reports."""
    src = importlib.util.find_spec("CADMium._version").origin
    with open(src, encoding="utf-8") as f:
        text = f.read()
    for k, v in (("%d", a["refnames"]), ("%H", a["full"]), ("%ci", a["date"])):
        text = text.replace(f"$Format:{k}$", v)
    path = os.path.join(away, "export", "CADMium", "_version.py")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    spec = importlib.util.spec_from_file_location("exported_version", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.get_versions()


def execute(case):
    res = Res()
    s, records, exc = session(case)
    res.took(s)
    if isinstance(exc, (core.StepLimit, core.Deadlock)):
        res.bad("hang", f"the version query never ends ({exc})")
        return res
    if exc is not None:
        raise exc
    r = case["repo"]
    res.tags.append("no repository" if r is None else "untagged" if r["tag"] is None else "tagged")
    res.nontrivial = any(n for _, _, _, _, n in records)
    for q, rec, e, fired, n in records:
        what = {"import": "importing the package", "archive": "an exported archive"}.get(q, "get_versions()")
        why = ", ".join(f"{f.kind} of git call {f.nth}" for f in fired) or "nothing went wrong"
        res.checks += 4
        if e is not None:
            res.bad("raises", f"{what} raises {cases.unexpected(e)} ({why})")
            return res
        if not isinstance(rec, dict) or not isinstance(rec.get("version"), str) or not rec["version"].strip():
            res.bad("record", f"{what} yields {rec!r} ({why})")
            return res
        if q == "import":
            rec = dict(rec)
            ok = r is not None and bool(described(r)[0].match(rec["version"])) and rec["full-revisionid"] == r["full"]
            un = "unknown" in rec["version"]
        else:
            missing = [k for k in ("version", "full-revisionid", "dirty", "error", "date") if k not in rec]
            if missing:
                res.bad("record", f"{what} yields a record without {missing} ({why})")
                return res
            ok, un = r is not None and matches(rec, r), unknown(rec)
        if q == "archive":
            a = case["archive"]
            good = rec["version"] in a["tags"] and rec["error"] is None and not rec["dirty"] if a["tags"] else unknown(rec)
            if not good or rec["full-revisionid"] != a["full"]:
                res.bad("archive", f"an archive of commit {a['full'][:12]} with the names {a['refnames']!r} reports {show(rec)} ({why})")
                return res
            res.probes["archives"] = res.probes.get("archives", 0) + 1
            continue
        harmful = [f for f in fired if f.kind not in ("stall", "chatty")]
        if harmful or r is None:
            if not (ok or un):
                res.bad("wrong", f"{what} yields {show(rec)} although {why}; git describes {r and r['tag']}")
        elif not ok:
            res.bad("not_described", f"{what} yields {show(rec)} for tag {r['tag']} distance {r['distance']} dirty {r['dirty']} "
                                     f"commit {r['full'][:12]} count {r['count']} ({why})")
        if res.viol:
            return res
    return res


def show(rec):
    return {k: rec.get(k) for k in ("version", "full-revisionid", "dirty", "error") if k in rec}
