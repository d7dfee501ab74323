"""Files and programs around a script, for one forked, unprivileged process.

`enter(sim, scratch)` is called in a child process that has nothing else to do.
It puts every file operation behind a crossing (so that it can fail, be short or
be interrupted), refuses any effect outside the scratch directory, and replaces
programs by models."""
import builtins
import errno
import io
import os
import subprocess
import sys
import tempfile

from . import core, git

ERR = {"eacces": errno.EACCES, "enospc": errno.ENOSPC, "eio": errno.EIO, "emfile": errno.EMFILE, "enoent": errno.ENOENT,
       "erofs": errno.EROFS, "enomem": errno.ENOMEM}
EFFECTS = {"os.remove", "os.rmdir", "os.rename", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown",
           "os.utime", "shutil.rmtree", "shutil.move", "shutil.copyfile", "shutil.copymode", "shutil.copystat", "os.chflags",
           "os.setxattr", "os.removexattr", "os.mkfifo", "os.mknod"}
BANNED = {"os.fork", "os.forkpty", "os.exec", "os.posix_spawn", "os.spawn", "os.kill", "os.killpg", "os.startfile", "pty.spawn",
          "socket.connect", "socket.bind", "ctypes.dlopen", "ctypes.dlsym", "signal.pthread_kill"}


class Outside(BaseException):
    """The code under test tried to reach outside its scratch directory."""


class Files:
    def __init__(self, sim, scratch):
        self.sim, self.scratch = sim, os.path.realpath(scratch)
        self.on = False
        self.inside = 0
        self.escapes = []
        self.events = []

    # ---------------------------------------------------------- containment
    def within(self, p):
        if isinstance(p, int):
            return True
        try:
            p = os.fsdecode(p)
        except TypeError:
            return True
        if not os.path.isabs(p):
            try:
                p = os.path.join(self.getcwd(), p)
            except OSError:
                return True
        d, b = os.path.split(os.path.normpath(p))
        d = os.path.realpath(d)
        return (os.path.join(d, b) + "/").startswith(self.scratch + "/")

    def audit(self, ev, args):
        if not self.on or self.inside:
            return
        self.inside += 1
        try:
            self._audit(ev, args)
        finally:
            self.inside -= 1

    def _audit(self, ev, args):
        if ev == "open":
            path, mode, flags = args
            writing = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            if writing and not self.within(path) and path != os.devnull:
                self.escapes.append(f"open {path} for writing")
                raise Outside(path)
        elif ev in EFFECTS:
            for a in args[:2]:
                if isinstance(a, (str, bytes, os.PathLike)) and not self.within(a):
                    if len(args) > 1 and isinstance(args[-1], int) and args[-1] >= 0 and not os.path.isabs(os.fsdecode(a)):
                        continue                    # relative to an open directory, itself inside
                    self.escapes.append(f"{ev} {a}")
                    raise Outside(a)
        elif ev in BANNED:
            self.escapes.append(ev)
            raise Outside(ev)

    # --------------------------------------------------------------- faults
    def cross(self, site, path=None):
        f = self.sim.cross(site, sched=False)
        self.events.append((site, path))
        if f is None:
            return None
        if f.kind == "interrupt":
            self.sim.fire(f)
            raise KeyboardInterrupt()
        if f.kind == "stall":
            self.sim.fire(f)
            self.sim.sleep(f.arg or 60.0)
            return None
        if f.kind in ERR:
            self.sim.fire(f)
            raise OSError(ERR[f.kind], os.strerror(ERR[f.kind]), path)
        return f

    def open(self, file, mode="r", *a, **kw):
        if not self.on or self.inside:
            return self.real_open(file, mode, *a, **kw)
        w = any(c in mode for c in "wax+")
        self.cross("fs.open.w" if w else "fs.open.r", file if isinstance(file, str) else None)
        if w and not self.within(file) and file != os.devnull:
            self.escapes.append(f"open {file} for writing")
            raise Outside(file)
        return _File(self, self.real_open(file, mode, *a, **kw))

    def chdir(self, p):
        if self.on and not self.inside:
            self.chdir_to = p
            self.cross("fs.chdir.back" if os.path.realpath(p) == self.home else "fs.chdir", p if isinstance(p, str) else None)
        return self.real_chdir(p)

    def mkdir(self, p, *a, **kw):
        if self.on and not self.inside:
            self.cross("fs.mkdir", p if isinstance(p, str) else None)
        return self.real_mkdir(p, *a, **kw)

    def write(self, fd, data):
        if self.on and not self.inside:
            f = self.cross("fs.write")
            if f is not None and f.kind == "short":
                self.sim.fire(f)
                return self.real_write(fd, bytes(data)[:max(1, len(data) // 2)])
        return self.real_write(fd, data)

    def rename(self, a, b, *x, **kw):
        if self.on and not self.inside:
            self.cross("fs.rename", a if isinstance(a, str) else None)
        return self.real_rename(a, b, *x, **kw)

    def fsync(self, fd):
        if self.on and not self.inside:
            self.cross("fs.fsync")
        return self.real_fsync(fd)

    def getcwd(self):
        return self.real_getcwd()

    def system(self, cmd):
        return subprocess.Popen(cmd, shell=True).wait() << 8


class _File:
    """A file whose reads, writes and close may fail."""

    def __init__(self, fs, f):
        self.__dict__.update(fs=fs, f=f, torn=None)

    def __getattr__(self, k):
        return getattr(self.f, k)

    def __setattr__(self, k, v):
        setattr(self.f, k, v)

    def _read(self, name, *a):
        self.fs.cross("fs.read")
        return getattr(self.f, name)(*a)

    def read(self, *a):
        return self._read("read", *a)

    def readline(self, *a):
        return self._read("readline", *a)

    def readlines(self, *a):
        return self._read("readlines", *a)

    def write(self, data):
        f = self.fs.sim.cross("fs.write", sched=False)
        if f is not None:
            self.fs.sim.fire(f)
            if f.kind in ("enospc", "eio", "interrupt"):
                self.f.write(data[:int(len(data) * (f.arg or 0.0))])    # part of it gets out
                self.f.flush()
                if f.kind == "interrupt":
                    raise KeyboardInterrupt()
                raise OSError(ERR[f.kind], os.strerror(ERR[f.kind]))
        return self.f.write(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if self.f.writable():
            self.fs.cross("fs.flush")
        return self.f.flush()

    def close(self):
        if self.f.closed:
            return
        if self.f.writable():
            f = self.fs.sim.cross("fs.close", sched=False)
            if f is not None and f.kind in ("enospc", "eio"):
                self.fs.sim.fire(f)                  # the buffered end never reaches the disk
                self.fs.inside += 1
                try:
                    self.f.flush()
                    n = os.fstat(self.f.fileno()).st_size
                    os.ftruncate(self.f.fileno(), int(n * (f.arg or 0.0)))
                    self.f.close()
                finally:
                    self.fs.inside -= 1
                raise OSError(ERR[f.kind], os.strerror(ERR[f.kind]))
        self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.f)

    def __next__(self):
        return next(self.f)

    def __fspath__(self):
        return os.fspath(self.f.name)


def enter(sim, scratch, home, uid=65534):
    """Only for a forked child: seams, containment, no privileges."""
    import random
    import shutil          # noqa: F401
    fs = Files(sim, scratch)
    fs.home = os.path.realpath(home)
    for name in ("chdir", "mkdir", "write", "rename", "fsync", "getcwd"):
        setattr(fs, "real_" + name, getattr(os, name))
    fs.real_open = builtins.open
    builtins.open = io.open = fs.open
    os.chdir, os.mkdir, os.write, os.rename, os.replace, os.fsync = fs.chdir, fs.mkdir, fs.write, fs.rename, fs.rename, fs.fsync
    os.system = fs.system
    seq = tempfile._RandomNameSequence()
    seq._rng, seq._rng_pid = random.Random(7), os.getpid()
    tempfile._name_sequence = seq
    tempfile.tempdir = os.environ["TMPDIR"]          # no probing of candidates
    git.install()
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
        except PermissionError:
            pass                                  # containment is the audit hook's alone
    sys.addaudithook(fs.audit)
    return fs


class Conda(git.SimPopen):
    """The conda program: reads the file it is given and does what the case says."""

    def __init__(self, sim, args, kw):
        import shlex
        self.args, self.returncode, self.sim, self.pid = args, None, sim, 4001
        self.text, self.codec = bool(kw.get("text") or kw.get("universal_newlines")), ("utf-8", "strict")
        w = sim.conda
        f = sim.cross("conda.run")
        if f is not None and f.kind in ("enomem", "eagain", "emfile"):
            sim.fire(f)
            no, msg = git.SPAWN[f.kind]
            raise OSError(no, msg)
        if f is not None and f.kind == "interrupt":
            sim.fire(f)
            raise KeyboardInterrupt()
        argv = shlex.split(args) if isinstance(args, str) else [os.fsdecode(a) for a in args]
        cwd = kw.get("cwd") or os.getcwd()
        w["runs"].append({"argv": argv, "cwd": cwd})
        if f is not None and f.kind == "notfound":
            sim.fire(f)
            w["runs"][-1]["started"] = False
            self._finish(127, b"", b"conda: not found\n", kw)
            return
        run = w["runs"][-1]
        run["started"] = True
        fs = w["fs"]
        fs.inside += 1
        try:
            path = None
            for k, a in enumerate(argv[:-1]):
                if a in ("-f", "--file"):
                    path = os.path.join(cwd, argv[k + 1])
            for a in argv:
                if a.startswith("--file="):
                    path = os.path.join(cwd, a[7:])
            run["file"] = path
            try:
                run["content"] = io.FileIO(path).readall().decode("utf-8", "replace")
            except (OSError, TypeError):
                run["content"] = None
            rc = 0 if run["content"] is not None else 1
            if f is not None:
                sim.fire(f)
                rc = self.behave(f.kind, cwd, path, rc)
        finally:
            fs.inside -= 1
        self._finish(rc, b"", b"", kw)
        self.ctrl_c = f is not None and f.kind == "ctrlc"

    ctrl_c = False

    def behave(self, kind, cwd, path, rc):
        if kind == "fail":
            return 1
        if kind == "signal":
            return -9
        if kind == "litter":
            os.mkdir(os.path.join(cwd, "pkgs"))
            os.mkdir(os.path.join(cwd, "pkgs", "a"))
            io.FileIO(os.path.join(cwd, "pkgs", "a", "log"), "w").close()
            io.FileIO(os.path.join(cwd, "conda.log"), "w").close()
        if kind == "readonly":
            d = os.path.join(cwd, "ro")
            os.mkdir(d)
            io.FileIO(os.path.join(d, "x"), "w").close()
            os.chmod(d, 0o500)
        if kind == "unlink" and path:
            os.unlink(path)
        return rc

    def wait(self, timeout=None):
        if self.ctrl_c:
            self.ctrl_c = False
            raise KeyboardInterrupt()
        return super().wait(timeout)

    def communicate(self, input=None, timeout=None):
        if self.ctrl_c:
            self.ctrl_c = False
            raise KeyboardInterrupt()
        return super().communicate(input, timeout)
