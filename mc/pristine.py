"""Every execution starts like a fresh process: what the agent keeps at module or class level is put back."""
import collections
import enum
import sys
import types

ROOTS = ("dataplicity", "lomond", "distro")
PLAIN = (type(None), bool, int, float, complex, str, bytes, tuple, frozenset)
_records = []
_seen = {}
_caches = []


def _ours(name):
    return isinstance(name, str) and (name in ROOTS or name.startswith(tuple(r + "." for r in ROOTS)))


def _walk(v):
    if isinstance(v, PLAIN) and not isinstance(v, tuple):
        return
    if id(v) in _seen:
        return
    _seen[id(v)] = v
    if isinstance(v, tuple):
        for x in v:
            _walk(x)
    elif isinstance(v, types.ModuleType):
        if _ours(v.__name__):
            _space(v, vars(v), True)
    elif isinstance(v, enum.EnumMeta):
        return
    elif isinstance(v, type):
        if _ours(v.__module__):
            _space(v, vars(v), False)
    elif isinstance(v, types.FunctionType):
        if _ours(v.__module__):
            _walk(v.__defaults__ or ())
            _walk(v.__dict__)
            for c in v.__closure__ or ():
                try:
                    _walk(c.cell_contents)
                except ValueError:
                    pass
    elif isinstance(v, (dict, list, set, collections.deque, bytearray)):
        if type(v) in (dict, collections.OrderedDict, collections.defaultdict, list, set, collections.deque, bytearray):
            copy = v.copy() if not isinstance(v, (list, bytearray)) else v[:]
            _records.append(("content", v, copy))
            for x in list(v.values()) if isinstance(v, dict) else list(v) if not isinstance(v, bytearray) else ():
                _walk(x)
    elif hasattr(v, "cache_clear"):
        _caches.append(v)
    elif isinstance(v, property):
        for f in (v.fget, v.fset):
            _walk(f)
    elif isinstance(v, (staticmethod, classmethod)):
        _walk(v.__func__)
    else:
        m = type(v).__module__
        if (_ours(m) or m == "mc.vthread") and isinstance(getattr(v, "__dict__", None), dict):
            _records.append(("content", v.__dict__, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                _walk(x)


def _space(owner, names, module):
    keep = {}
    for n, x in list(names.items()):
        if n.startswith("__") and n.endswith("__"):
            continue
        if not isinstance(x, (types.FunctionType, types.ModuleType, type, property, staticmethod, classmethod)) and (
                not callable(x) or type(x).__module__ == "mc.vthread"):
            keep[n] = x
        _walk(x)
    _records.append(("names", owner, keep))


def snapshot():
    del _records[:], _caches[:]
    _seen.clear()
    for name in sorted(sys.modules):
        m = sys.modules[name]
        if _ours(name) and isinstance(m, types.ModuleType):
            _walk(m)


def restore():
    for kind, v, was in _records:
        if kind == "names":
            now = vars(v)
            for n, x in was.items():
                if now.get(n, v) is not x:
                    setattr(v, n, x)
            if len(now) != len(was):
                for n, x in list(now.items()):
                    # what was added since, unless it is code
                    if n not in was and isinstance(x, PLAIN + (dict, list, set, collections.deque, bytearray)) and not (
                            n.startswith("__") and n.endswith("__")):
                        delattr(v, n)
        elif isinstance(v, dict):
            if v != was or any(v[k] is not was[k] for k in was):
                v.clear()
                v.update(was)
        elif isinstance(v, set):
            if v != was:
                v.clear()
                v.update(was)
        elif len(v) != len(was) or any(a is not b for a, b in zip(v, was)):
            if isinstance(v, collections.deque):
                v.clear()
                v.extend(was)
            else:
                v[:] = was
    for c in _caches:
        c.cache_clear()
