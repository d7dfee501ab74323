"""C14: the environment helper cleans up after any failure."""
import collections
import importlib.util
import json
import os
import re
import shutil
import signal
import sys
import tempfile

from sim import cases, core, env, files, run
from sim.cases import Res

LEVEL = "fault_enumeration"
RULE = ("a case is an environment file, the way it is named, a Python version and 1-2 runs of the helper in one process, with 0-2 faults "
        "placed on file operations, output or the conda process that the run really has; non-trivial when the helper got past reading its arguments")
SECONDS = {"quick": 35, "thorough": 600}
CASES = {"quick": 2500, "thorough": 100000}
REAL = ["devtools/scripts/create_conda_env.py", "PyYAML (from the tools installed in the sandbox)", "tempfile, shutil, contextlib, subprocess.call",
        "the file system (a scratch directory, as an unprivileged user)"]
STUBS = ["conda: a model of the program behind subprocess.Popen"]
ASSUME = ["a failure of the very call that restores the working directory, and of deletions, is not injected with the demand that they succeed",
          "the file names at most one Python entry"]

SCRIPT = os.path.join(env.REPO, "devtools", "scripts", "create_conda_env.py")


# ----------------------------------------------------------------- generator
PYFORMS = ["python", "python", "python >=3.6", "python=3.7", "python==3.8.*", "python <4", "python >=3.6,<3.9", "python 3.7", "python=3.7.*",
           "python>3.5", None, None]
OTHERS = ["numpy", "scipy", "libxc", "pip", "pydantic >=1.8", "python-dateutil", "pythonocc-core", "ipython", "wget", "cmake", "python_abi",
          "pytest", "numpy=1.21=py39_0", "conda-forge::fftw"]
PY = ["3.7", "3.10", "3.8.2", "2.7", "3"]


def gen(rng, i, tier):
    deps = rng.sample(OTHERS, rng.choice([0, 1, 2, 4, 6]))
    if rng.random() < 0.1:
        deps += [f"filler-package-number-{k:05d}" for k in range(rng.choice([300, 1500]))]
    py = rng.choice(PYFORMS)
    if py:
        deps.insert(rng.randrange(len(deps) + 1), py)
    if rng.random() < 0.4:
        deps.insert(rng.choice([len(deps), len(deps), rng.randrange(len(deps) + 1)]), {"pip": rng.sample(["pylibxc2", "codecov", "python-box"], 2)})
    top = {"name": "test", "channels": rng.sample(["conda-forge", "anaconda", "defaults"], 2), "dependencies": deps}
    if rng.random() < 0.1:
        top["dependencies"] = None
    elif rng.random() < 0.06:
        del top["dependencies"]
    elif rng.random() < 0.15:
        top["variables"] = {"A": 1}
        del top["channels"]
    case = {"file": top, "style": rng.choice(["block", "block", "flow"]), "where": rng.choice(["here", "sub", "absolute", "up"]),
            "ops": [{"py": rng.choice(PY), "name": rng.choice(["test", "my-env", "e1"]), "exe": rng.choice(["env", "path"])}
                    for _ in range(rng.choice([1, 1, 1, 2]))],
            "sched": {"mode": "fifo"}, "ambient": 1, "faults": []}
    if rng.random() < 0.85:
        prof = profile(case)
        for _ in range(rng.choice([1, 1, 1, 2])):
            f = cases.place(rng, prof, None, TABLE)
            if f:
                if f["site"] in ("fs.write", "fs.close"):
                    f["arg"] = rng.choice([0.0, 0.3, 0.9])
                case["faults"].append(f)
    return case


TABLE = {
    "fs.open.r": ["enoent", "eacces", "emfile", "eio", "interrupt"],
    "fs.open.w": ["enospc", "eacces", "emfile", "erofs", "interrupt"],
    "fs.read": ["eio", "enomem", "interrupt", "stall"],
    "fs.write": ["enospc", "eio", "interrupt", "short"],
    "fs.flush": ["enospc", "eio"],
    "fs.close": ["enospc", "eio"],
    "fs.fsync": ["eio"],
    "fs.rename": ["eacces", "enospc"],
    "fs.chdir": ["eacces", "enoent", "interrupt"],
    "fs.chdir.back": ["enoent"],
    "fs.mkdir": ["enospc", "eacces", "erofs", "interrupt"],
    "conda.run": ["enomem", "eagain", "emfile", "interrupt", "notfound", "fail", "signal", "litter", "readonly", "unlink", "ctrlc", "ctrlc"],
    "io.print": ["epipe", "enospc", "interrupt"],
}


_prof = {}


def profile(case):
    key = json.dumps([case["file"], case["style"], case["where"], case["ops"]], sort_keys=True)
    if key not in _prof:
        if len(_prof) > 100:
            _prof.clear()
        r = forked(dict(case, faults=[]))
        _prof[key] = [("main", s, n) for s, n in sorted(r["counts"].items())]
    return _prof[key]


# -------------------------------------------------------------------- runner
_yaml = None


def yaml():
    global _yaml
    if _yaml is None:
        try:
            import yaml as y
        except ImportError:
            import glob
            for d in sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")):
                spec = importlib.util.spec_from_file_location("yaml", os.path.join(d, "yaml", "__init__.py"),
                                                              submodule_search_locations=[os.path.join(d, "yaml")])
                if spec is None or not os.path.exists(spec.origin):
                    continue
                y = importlib.util.module_from_spec(spec)
                sys.modules["yaml"] = y
                spec.loader.exec_module(y)
                break
            else:
                raise core.HarnessError("no PyYAML on this machine")
        _yaml = y
    return _yaml


def snapshot(d):
    out = {}
    for root, dirs, names in os.walk(d):
        for n in dirs + names:
            p = os.path.join(root, n)
            st = os.lstat(p)
            data = None
            if os.path.isfile(p):
                with open(p, "rb") as f:
                    data = f.read().hex()
            out[os.path.relpath(p, d)] = [st.st_mode, data]
    return out


def forked(case):
    """Run the case in a child that may ruin nothing; returns its report."""
    env.load()
    y = yaml()
    with open(SCRIPT) as f:
        code = compile(f.read(), SCRIPT, "exec")
    scratch = tempfile.mkdtemp(prefix="c14-")
    r, w = os.pipe()
    out = None
    try:
        home, tmp, sub = (os.path.join(scratch, x) for x in ("work", "tmp", "work/sub"))
        for d in (home, tmp, sub):
            os.mkdir(d)
        place = {"here": (home, "environment.yaml"), "sub": (sub, "sub/environment.yaml"),
                 "absolute": (home, os.path.join(home, "environment.yaml")), "up": (scratch, "../environment.yaml")}
        d, arg = place[case["where"]]
        text = y.safe_dump(case["file"], default_flow_style=case["style"] == "flow", sort_keys=False)
        with open(os.path.join(d, "environment.yaml"), "w") as f:
            f.write("# base environment\n" + text)
        for root, dirs, names in os.walk(scratch):
            for n in dirs + names + ["."]:
                p = os.path.join(root, n)
                try:
                    os.chown(p, 65534, 65534)
                except PermissionError:
                    os.chmod(p, 0o777 if os.path.isdir(p) else 0o666)
        os.chmod(scratch, 0o755)
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                os.close(r)
                report = child(case, code, scratch, home, tmp, arg)
                data = json.dumps(report).encode()
                while data:
                    data = data[report_write(w, data):]
                rc = 0
            except BaseException as e:      # noqa: B902
                try:
                    report_write(w, json.dumps({"harness": repr(e)}).encode())
                except BaseException:       # noqa: B902
                    pass
            finally:
                os._exit(rc)
        os.close(w)
        w = None
        chunks = []
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
        _, st = os.waitpid(pid, 0)
        out = json.loads(b"".join(chunks)) if chunks else {"harness": f"the child ended with status {st}"}
        if os.path.isdir(tmp):
            out["left"] = sorted(snapshot(tmp))
    finally:
        os.close(r)
        if w is not None:
            os.close(w)
        shutil.rmtree(scratch, ignore_errors=True)
    if "harness" in out:
        raise core.HarnessError(out["harness"])
    return out


report_write = os.write


def child(case, code, scratch, home, tmp, arg):
    signal.alarm(60)
    s = run.start(case, max_steps=20000)
    os.environ["TMPDIR"] = tmp
    os.environ["HOME"] = home
    os.chdir(home)
    fs = files.enter(s, scratch, home)
    s.conda = {"runs": [], "fs": fs}
    s.popen = files.Conda
    bindir = os.path.join(scratch, "bin")
    os.mkdir(os.path.join(tmp, "probe"))
    os.rmdir(os.path.join(tmp, "probe"))
    before = snapshot(home), snapshot_file(os.path.join(home, arg))
    ends = []

    def once(op):
        exc = None
        sys.argv = ["create_conda_env.py", "-n", op["name"], "-p", op["py"], arg]
        if op["exe"] == "env":
            os.environ["CONDA_EXE"] = os.path.join(bindir, "conda")
        else:
            os.environ.pop("CONDA_EXE", None)
        which, shutil.which = shutil.which, (lambda n, *a, **k: "/usr/bin/conda" if n == "conda" else None)
        r0 = len(s.conda["runs"])
        n0 = len(s.fired)
        fs.on = True
        try:
            exec(code, {"__name__": "__main__", "__file__": SCRIPT, "__builtins__": __builtins__})
        except (core.HarnessError, core.StepLimit, core.Deadlock, core.SimKill):
            raise
        except BaseException as e:      # noqa: B902
            exc = cases.unexpected(e)
        finally:
            fs.on = False
            shutil.which = which
        try:
            cwd = os.getcwd()
        except OSError as e:
            cwd = f"(gone: {e.strerror})"
        ends.append({"exc": exc, "cwd": cwd, "home": os.path.realpath(home), "runs": s.conda["runs"][r0:],
                     "same_dir": snapshot(home) == before[0], "same_file": snapshot_file(os.path.join(home, arg)) == before[1],
                     "left": sorted(os.listdir(tmp)), "fired": [[f.kind, f.site] for f in s.fired[n0:]]})
        os.chdir(home)

    def program():
        for op in case["ops"]:
            once(op)

    _, exc = s.run(program)
    return {"ends": ends, "fatal": None if exc is None else cases.unexpected(exc), "escapes": fs.escapes,
            "counts": dict(s.tasks[0].counts), "now": s.now, "steps": s.steps, "hash": s.trace_hash,
            "fired": [f.to_json() for f in s.fired]}


def snapshot_file(p):
    try:
        with open(p, "rb") as f:
            return [os.stat(p).st_mode, f.read().hex()]
    except OSError:
        return None


# -------------------------------------------------------------------- oracle
def is_python(d):
    return isinstance(d, str) and re.match(r"(\S+::)?python\s*([=<>!~ ].*)?\Z", d) is not None


def asks(d, ver):
    return re.fullmatch(r"python\s*=*\s*" + re.escape(ver) + r"(\.?\*)?", d) is not None


def judge(res, end, case, op):
    why = ", ".join(f"{k} at {s}" for k, s in end["fired"]) or "nothing went wrong"
    sites = [s for _, s in end["fired"]]
    res.checks += 6
    if end["cwd"] != end["home"] and "fs.chdir.back" not in sites:
        res.bad("cwd", f"the helper leaves the working directory at {end['cwd'].replace(end['home'], '.')} ({why})")
    if not end["same_file"]:
        res.bad("file", f"the environment file was changed ({why})")
    elif not end["same_dir"]:
        res.bad("file", f"the caller's directory was changed ({why})")
    if end["left"]:
        res.bad("left", f"left behind in the temporary directory: {end['left']} ({why})")
    started = [r for r in end["runs"] if r["started"]]
    if len(end["runs"]) > 1:
        res.bad("conda", f"conda was run {len(end['runs'])} times ({why})")
    for r in started:
        bad = complete(r["content"], case, op)
        if bad:
            res.bad("content", f"conda was run on a file that {bad} ({why})")


def complete(text, case, op):
    if text is None:
        return "does not exist"
    try:
        got = yaml().safe_load(text)
    except Exception as e:     # noqa: B902
        return f"is not valid: {type(e).__name__}"
    if not isinstance(got, dict) or not isinstance(got.get("dependencies"), list):
        return f"is incomplete: {str(got)[:80]!r}"
    want = case["file"]
    deps = got["dependencies"]
    py = [d for d in deps if is_python(d)]
    if len(py) != 1 or not asks(py[0], op["py"]):
        return f"requests Python as {py} instead of {op['py']} once"
    key = lambda d: json.dumps(d, sort_keys=True)    # noqa: E731
    others = collections.Counter(key(d) for d in deps if not is_python(d))
    exp = collections.Counter(key(d) for d in (want.get("dependencies") or []) if not is_python(d))
    if others != exp:
        lost, extra = sorted((exp - others).elements()), sorted((others - exp).elements())
        return f"lacks dependencies {lost[:4]} or adds {extra[:4]}"
    for k, v in want.items():
        if k != "dependencies" and got.get(k) != v:
            return f"has {k}: {got.get(k)!r} instead of {v!r}"
    return None


def execute(case):
    res = Res()
    r = forked(case)
    res.runs, res.simtime, res.steps, res.hashes = 1, r["now"], r["steps"], [r["hash"]]
    for f in r["fired"]:
        k = f"{f['kind']}@{f['site']}"
        res.fired[k] = res.fired.get(k, 0) + 1
    res.decisions = []
    res.tags.append(case["where"])
    if r["escapes"]:
        res.bad("outside", f"the helper reached outside its directories: {r['escapes'][:3]}")
    if r["fatal"]:
        res.bad("hang", f"the helper never ends ({r['fatal']})")
    for end, op in zip(r["ends"], case["ops"]):
        judge(res, end, case, op)
        if end["runs"]:
            res.probes["conda_runs"] = res.probes.get("conda_runs", 0) + len(end["runs"])
            if end["exc"] is None and not end["fired"]:
                res.probes["clean_successes"] = res.probes.get("clean_successes", 0) + 1
        if end["exc"] is not None and not end["fired"]:
            res.probes["ended_with_an_error_of_its_own"] = res.probes.get("ended_with_an_error_of_its_own", 0) + 1
    res.nontrivial = any(e["runs"] or e["fired"] for e in r["ends"])
    return res
