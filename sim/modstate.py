"""State the code under test keeps for the process: module globals, class attributes,
function attributes and defaults, memo tables.

Every simulated run starts from what it was right after import (so one run cannot see
another's), and a simulated worker process has its own copy from the moment it is forked."""
import dis
import sys
import types

import numpy as np

ROOT = "CADMium"
CONT = (dict, list, set, bytearray, np.ndarray)
_pristine = None
_cells = None


def _copy(v):
    return v.copy() if not isinstance(v, bytearray) else bytearray(v)


def _put(v, was):
    if isinstance(v, dict):
        if len(v) != len(was) or any(k not in v or v[k] is not was[k] for k in was):
            v.clear()
            v.update(was)
    elif isinstance(v, set):
        if v != was:
            v.clear()
            v.update(was)
    elif isinstance(v, np.ndarray):
        if v.dtype == object or not np.array_equal(v, was):
            try:
                v[...] = was
            except ValueError:          # read-only: nobody can have changed it
                pass
    elif len(v) != len(was) or any(x is not y for x, y in zip(v, was)):
        v[:] = was


def _plain(k, v):
    return not k.startswith("__") and not isinstance(v, (type, types.ModuleType, staticmethod, classmethod, property)) and not callable(v)


def modules():
    return [(n, m) for n, m in sorted(sys.modules.items()) if m is not None and (n == ROOT or n.startswith(ROOT + "."))
            and isinstance(m, types.ModuleType)]


def _own(v, mn):
    return getattr(v, "__module__", None) == mn


def _namespaces():
    """(object that holds names, its dictionary, setter, deleter)"""
    for mn, m in modules():
        d = vars(m)
        yield m, d
        for v in list(d.values()):
            if isinstance(v, type) and _own(v, mn) and "model_fields" not in vars(v) and "__fields__" not in vars(v) \
                    and "__pydantic_fields__" not in vars(v):
                yield v, vars(v)
            elif _own(v, mn) and not isinstance(v, type) and hasattr(v, "__dict__") and not callable(v):
                yield v, vars(v)


def _functions():
    for mn, m in modules():
        for v in list(vars(m).values()):
            fs = [v] if not isinstance(v, type) else [getattr(f, "__func__", f) for f in vars(v).values()] if _own(v, mn) else []
            for f in fs:
                if _own(f, mn) and callable(f):
                    yield f


def snapshot():
    """Remember what is there right after import."""
    global _pristine, _cells
    names = []
    for o, d in _namespaces():
        names.append((o, {k: (v, _copy(v) if isinstance(v, CONT) else None) for k, v in d.items() if _plain(k, v)}))
    fns, stored = [], set()
    for f in _functions():
        code = getattr(f, "__code__", None)
        if code is not None:
            stored |= {(f.__module__, i.argval) for i in dis.get_instructions(f) if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL")}
        conts = [(c, _copy(c)) for c in (getattr(f, "__defaults__", None) or ()) + tuple((getattr(f, "__kwdefaults__", None) or {}).values())
                 if isinstance(c, CONT)]
        fns.append((f, dict(getattr(f, "__dict__", {})), conts))
    _pristine = names, fns
    # what a forked worker would have its own copy of
    cells = [("cont", v) for o, d in names for v, c in d.values() if c is not None]
    cells += [("cont", c) for _, _, cs in fns for c, _ in cs]
    cells += [("cont", f.__dict__) for f, d, _ in fns if d and not hasattr(f, "__wrapped__")]
    cells += [("name", sys.modules[m], n) for m, n in sorted(stored)]
    _cells = cells


def pristine():
    """Back to what it was right after import."""
    names, fns = _pristine
    for o, was in names:
        d = vars(o)
        for k in [k for k, v in d.items() if k not in was and _plain(k, v)]:
            if not isinstance(o, types.ModuleType) or not _submodule(o, k):
                delattr(o, k)
        for k, (v, c) in was.items():
            if d.get(k, names) is not v:
                setattr(o, k, v)
            if c is not None:
                _put(v, c)
    for f, d, conts in fns:
        for c, was in conts:
            _put(c, was)
        fd = getattr(f, "__dict__", None)
        if fd is not None and not hasattr(f, "__wrapped__") and (len(fd) != len(d) or any(fd.get(k) is not d[k] for k in d)):
            fd.clear()
            fd.update(d)
        if hasattr(f, "cache_clear"):
            f.cache_clear()


def _submodule(o, k):
    return o.__name__ + "." + k in sys.modules


def capture():
    if not _cells:
        return ()
    return [_copy(c[1]) if c[0] == "cont" else vars(c[1]).get(c[2], _cells) for c in _cells]


def restore(saved):
    for c, v in zip(_cells or (), saved):
        if c[0] == "cont":
            _put(c[1], v)
        elif v is _cells:
            vars(c[1]).pop(c[2], None)
        else:
            setattr(c[1], c[2], v)
