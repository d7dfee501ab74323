"""A simulated git program behind subprocess.Popen: repositories by directory, faults by call."""
import errno
import io
import os
import re
import shlex
import subprocess

from . import core

REAL = subprocess.Popen
PIPE_CAP = 65536

SPAWN = {"enoent": (errno.ENOENT, "No such file or directory"), "eacces": (errno.EACCES, "Permission denied"),
         "enomem": (errno.ENOMEM, "Cannot allocate memory"), "eagain": (errno.EAGAIN, "Resource temporarily unavailable"),
         "emfile": (errno.EMFILE, "Too many open files"), "enoexec": (errno.ENOEXEC, "Exec format error")}
GARBAGE = [b"", b"\n", b"   \n\n", b"hello world\n", b"\xff\xfe\x00\x01\x9c\n", b"usage: git [--version] [--help]\n", b"not-a-version\n",
           b"fatal: unknown\n", b"v\n", b"%d\n", b"-\n", b"--\n", b"g\n", b"x" * 5000 + b"\n", b"warning: late\nwarning: later\n", b"-dirty\n",
           b"None\n", b"<html>\n", b"nan\n", b"1e3\n", b"0x\n", b"?-?-g?\n", b"v1-2-gXYZ\n", b"a-1-g\n", b"\x00" * 20]
EXITS = ["fail", "failout", "failerr", "signal", "term"]
ANSWERS = ["garbage", "chatty"]
KINDS = list(SPAWN) + EXITS + ANSWERS + ["stall"]


class Repo:
    """What git knows about one working tree."""

    def __init__(self, d):
        self.tag, self.distance, self.dirty = d["tag"], d["distance"], d["dirty"]
        self.full, self.date, self.count, self.abbrev = d["full"], d["date"], d["count"], d["abbrev"]
        self.name_only = d.get("is_repo", True) is False

    def describe(self, long_, always, dirty, match):
        import fnmatch
        tag = self.tag if self.tag is not None and (match is None or fnmatch.fnmatchcase(self.tag, match)) else None
        if tag is None:
            if not always:
                return None
            s = self.full[:self.abbrev]
        elif self.distance or long_:
            s = f"{tag}-{self.distance}-g{self.full[:self.abbrev]}"
        else:
            s = tag
        return s + ("-dirty" if dirty and self.dirty else "")

    def answer(self, args):
        """(returncode, stdout, stderr)"""
        if args[:1] == ["--version"] or args[:1] == ["version"]:
            return 0, "git version 2.43.0\n", ""
        if self.name_only:
            return 128, "", "fatal: not a git repository (or any of the parent directories): .git\n"
        cmd, rest = (args or [""])[0], args[1:]
        flags = [a for a in rest if a.startswith("-")]
        if cmd == "rev-parse":
            if "--git-dir" in rest:
                return 0, ".git\n", ""
            if "--show-toplevel" in rest:
                return 0, self.top + "\n", ""
            if "--is-inside-work-tree" in rest:
                return 0, "true\n", ""
            if "--show-cdup" in rest or "--show-prefix" in rest:
                return 0, "\n", ""
            if "--abbrev-ref" in rest:
                return 0, "master\n", ""
            if any(f.startswith("--short") for f in flags):
                return 0, self.full[:self.abbrev] + "\n", ""
            if "HEAD" in rest:
                return 0, self.full + "\n", ""
        if cmd == "describe":
            match = None
            for k, a in enumerate(rest):
                if a == "--match":
                    match = rest[k + 1]
                elif a.startswith("--match="):
                    match = a[8:]
            exact = "--exact-match" in rest
            s = self.describe("--long" in rest, "--always" in rest, any(a.startswith("--dirty") for a in rest), match)
            if s is None or (exact and (self.tag is None or self.distance)):
                return 128, "", "fatal: No names found, cannot describe anything.\n"
            return 0, s + "\n", ""
        if cmd == "rev-list" and "--count" in rest:
            return 0, f"{self.count}\n", ""
        if cmd in ("show", "log"):
            fmt = next((a.split("=", 1)[1] for a in rest if a.startswith(("--format=", "--pretty="))), None)
            if fmt is not None:
                fmt = fmt.removeprefix("format:").removeprefix("tformat:")
                iso = self.date.replace(" ", "T", 1)
                iso = re.sub(r" ([+-]\d\d)(\d\d)$", r"\1:\2", iso)
                out = fmt.replace("%ci", self.date).replace("%cI", iso).replace("%H", self.full).replace("%h", self.full[:self.abbrev])
                return 0, out.replace("%d", "").strip() + "\n", ""
        if cmd == "status":
            return 0, " M CADMium/__init__.py\n" if self.dirty else "", ""
        if cmd == "diff-index" or cmd == "diff":
            return (1 if self.dirty else 0), "", ""
        if cmd == "tag":
            return 0, (self.tag + "\n") if self.tag else "", ""
        return 129, "", f"git: '{cmd}' is not understood by the simulated git\n"


class World:
    """Which directories are which repositories; where git is installed."""

    def __init__(self, repos, cwd):
        self.repos = {os.path.realpath(k): v for k, v in repos.items()}
        for k, v in self.repos.items():
            v.top = k
        self.cwd = cwd
        self.calls = []
        self.spawned = 0

    def at(self, d):
        d = os.path.realpath(d)
        while True:
            if d in self.repos:
                return self.repos[d]
            if d == os.path.dirname(d):
                return None
            d = os.path.dirname(d)


class SimPopen:
    """A process of the simulated world."""

    def __init__(self, sim, args, kw):
        w = sim.git
        if isinstance(args, (str, bytes)):
            args = shlex.split(os.fsdecode(args)) if kw.get("shell") else [os.fsdecode(args)]
        args = [os.fsdecode(a) for a in args]
        self.args, self.pid, self.returncode = args, 4000 + w.spawned, None
        w.spawned += 1
        self.sim = sim
        f = sim.cross("git.run")
        cwd = kw.get("cwd")
        cwd = w.cwd if cwd is None else os.fsdecode(cwd)
        self.text = bool(kw.get("text") or kw.get("universal_newlines") or kw.get("encoding") or kw.get("errors"))
        self.codec = (kw.get("encoding") or "utf-8", kw.get("errors") or "strict")
        if f is not None and f.kind in SPAWN:
            sim.fire(f)
            if kw.get("shell") and f.kind in ("enoent", "eacces"):
                f = None
                self._finish(127, b"", b"sh: git: not found\n", kw)
                return
            no, msg = SPAWN[f.kind]
            raise OSError(no, msg, args[0] if args else "git")
        name = os.path.basename(args[0]) if args else ""
        if name not in ("git",):
            if kw.get("shell"):
                self._finish(127, b"", b"sh: not found\n", kw)
                return
            raise OSError(errno.ENOENT, "No such file or directory", args[0] if args else "")
        rest = args[1:]
        while rest and rest[0].startswith("-"):        # global options
            if rest[0] == "-C" and len(rest) > 1:
                cwd = os.path.join(cwd, rest[1])
                rest = rest[2:]
            elif rest[0] == "-c":
                rest = rest[2:]
            elif rest[0] in ("--no-pager", "--no-optional-locks") or rest[0].startswith("--git-dir="):
                if rest[0].startswith("--git-dir="):
                    cwd = os.path.dirname(os.path.join(cwd, rest[0][10:]))
                rest = rest[1:]
            else:
                break
        repo = w.at(cwd)
        w.calls.append((rest, cwd))
        if repo is None:
            rc, out, err = 128, "", "fatal: not a git repository\n"
        else:
            rc, out, err = repo.answer(rest)
        out, err = out.encode(), err.encode()
        if f is not None:
            sim.fire(f)
            arg = int(f.arg)
            if f.kind == "fail":
                rc, out, err = 128, b"", b"fatal: unable to read tree\n"
            elif f.kind == "failout":
                rc = 1
            elif f.kind == "failerr":
                rc, out, err = 1, b"", b"fatal: detected dubious ownership\n" * 9000
            elif f.kind in ("signal", "term"):
                rc, out = (-9 if f.kind == "signal" else -15), out[:len(out) * arg // 8]
            elif f.kind == "garbage":
                out = GARBAGE[arg % len(GARBAGE)]
                rc = 0
            elif f.kind == "chatty":
                err = b"warning: refname 'HEAD' is ambiguous.\n" * 6000
            elif f.kind == "stall":
                sim.sleep(f.arg or 60.0)
        self._finish(rc, out, err, kw)

    def _finish(self, rc, out, err, kw):
        self.draining = False
        self.rc, self._out, self._err = rc, out, err
        to = kw.get("stdout")
        if kw.get("stderr") == subprocess.STDOUT:
            self._out, self._err = out + err, b""
        self.stdout = self._pipe(self._out, self) if to == subprocess.PIPE else None
        self.stderr = self._pipe(self._err, self) if kw.get("stderr") == subprocess.PIPE else None
        self.stdin = io.BytesIO() if kw.get("stdin") == subprocess.PIPE else None
        for where, data in ((to, self._out), (kw.get("stderr"), self._err)):
            if hasattr(where, "write"):
                where.write(data)

    def _pipe(self, data, p):
        raw = _Pipe(data, p)
        return io.TextIOWrapper(raw, encoding=self.codec[0], errors=self.codec[1]) if self.text else raw

    def _full(self, drained=None):
        """Would the child still be blocked writing into a pipe nobody reads?"""
        for p in (self.stdout, self.stderr):
            raw = getattr(p, "buffer", p)
            if raw is not None and raw is not drained and len(raw.getbuffer()) - raw.tell() > PIPE_CAP:
                return True
        return False

    def wait(self, timeout=None):
        self.sim.cross("git.wait", sched=False)
        if self.returncode is None:
            if self._full():
                if timeout is not None:
                    raise subprocess.TimeoutExpired(self.args, timeout)
                raise core.Deadlock("git is blocked writing to a pipe that is not read, and is waited for")
            self.returncode = self.rc
        return self.returncode

    def poll(self):
        if self.returncode is None and not self._full():
            self.returncode = self.rc
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.sim.cross("git.wait", sched=False)
        self.draining = True
        out = self.stdout.read() if self.stdout is not None and not _closed(self.stdout) else None
        err = self.stderr.read() if self.stderr is not None and not _closed(self.stderr) else None
        self.returncode = self.rc
        return out, err

    def kill(self):
        if self.returncode is None:
            self.rc = -9

    terminate = kill

    def send_signal(self, n):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for p in (self.stdout, self.stderr):
            if p is not None and not _closed(p):
                raw = getattr(p, "buffer", p)
                raw.seek(0, 2)
        self.wait()


def _closed(p):
    return getattr(p, "buffer", p).closed


class _Pipe(io.BytesIO):
    def __init__(self, data, p):
        super().__init__(data)
        self.p = p

    def read(self, n=-1):
        if (n is None or n < 0) and self.p.returncode is None and not self.p.draining and self.p._full(self):
            raise core.Deadlock("git is blocked writing to one pipe while the other is read to its end")
        return super().read(n)

    def readlines(self, hint=-1):
        return io.BytesIO(self.read()).readlines(hint)


class Popen:
    """subprocess.Popen: the real one outside simulated runs."""

    def __new__(cls, args, *a, **kw):
        s = core.active()
        make = getattr(s, "popen", None)
        if make is None:
            return REAL(args, *a, **kw)
        names = ["bufsize", "executable", "stdin", "stdout", "stderr", "preexec_fn", "close_fds", "shell", "cwd", "env",
                 "universal_newlines"]
        kw = dict(zip(names, a), **kw)
        return make(s, args, kw)

    def __class_getitem__(cls, item):
        return cls


_installed = False


def install():
    global _installed
    if not _installed:
        _installed = True
        subprocess.Popen = Popen
