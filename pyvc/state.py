"""What the modules of /repo remember between calls: the frame condition that a call leaves module state as it was.

fingerprint(modules) is compared before and after a contract's paths. Where it changes, the contract is explored again
from fresh modules on every path, and once more as a history: the same call after an earlier one with other arguments."""
import copy
import types

import numpy

PLAIN = (type(None), bool, int, float, complex, str, bytes)
LIMIT = 200000


def _owners(m):
    """(object with attributes, its own attributes) in module m: the module, its classes, functions and instances."""
    name = m.__name__
    todo, seen = [m], set()
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, types.FunctionType):
            d = dict(o.__dict__)
            for i, x in enumerate(o.__defaults__ or ()):
                d["default %d" % i] = x
            for k, x in (o.__kwdefaults__ or {}).items():
                d["default %s" % k] = x
        else:
            d = {k: v for k, v in vars(o).items() if not (k.startswith("__") and k.endswith("__"))}
        d.pop("_pv_", None)
        yield o, d
        for v in d.values():
            if isinstance(v, (staticmethod, classmethod)):
                v = v.__func__
            if isinstance(v, (types.FunctionType, type)) and v.__module__ == name:
                todo.append(v)
            elif getattr(type(v), "__module__", None) == name and hasattr(v, "__dict__"):
                todo.append(v)


def _print(x, left, depth=0):
    left[0] -= 1
    if left[0] < 0:
        return "..."
    if isinstance(x, PLAIN):
        return (type(x).__name__, repr(x))
    if depth > 8:
        return "deep"
    if type(x) in (list, tuple):
        return (type(x).__name__, tuple(_print(v, left, depth + 1) for v in x))
    if type(x) is dict:
        return ("dict", tuple((_print(k, left, depth + 1), _print(v, left, depth + 1)) for k, v in x.items()))
    if type(x) in (set, frozenset):
        return ("set", tuple(sorted(repr(_print(v, left, depth + 1)) for v in x)))
    if type(x) is numpy.ndarray:
        return ("array", x.shape, x.tobytes() if x.dtype != object else tuple(_print(v, left, depth + 1) for v in x.flat))
    return ("object", type(x).__name__)


def _names(d):
    """attributes that hold data, not code"""
    return {k: v for k, v in d.items()
            if not isinstance(v, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, staticmethod,
                                  classmethod, property, types.MethodType))}


def fingerprint(m, code=()):
    left = [LIMIT]
    return {(getattr(o, "__qualname__", type(o).__name__), k): _print(v, left)
            for o, d in _owners(m) for k, v in _names(d).items() if (id(o), k) not in code}


class Snapshot(object):
    """The data of a module, to be put back as it was."""

    def __init__(self, m):
        self.m = m
        self.kept = []
        self.code = set()       # names that held code: what a contract puts there instead is not the program's doing
        for o, d in _owners(m):
            names = _names(d)
            self.kept.append((o, {k: (v, self.content(v)) for k, v in names.items()}))
            self.code |= {(id(o), k) for k in d if k not in names}
        self.print = fingerprint(m)

    @staticmethod
    def content(v):
        if type(v) in (list, dict, set, numpy.ndarray):
            try:
                return copy.deepcopy(v)
            except Exception:
                return copy.copy(v)
        return None

    def changed(self):
        """names of the data that differ"""
        now = fingerprint(self.m, self.code)
        return sorted("%s.%s.%s" % ((self.m.__name__,) + k) for k in set(now) | set(self.print) if now.get(k) != self.print.get(k))

    def restore(self):
        for o, names in self.kept:
            if not isinstance(o, types.FunctionType):
                for k in list(_names(vars(o))):
                    if k not in names and (id(o), k) not in self.code and k != "_pv_" and not (k[:2] == k[-2:] == "__"):
                        delattr(o, k)
            else:
                for k in list(o.__dict__):
                    if k not in names and (id(o), k) not in self.code:
                        del o.__dict__[k]
            for k, (v, c) in names.items():
                if c is not None:
                    c = copy.deepcopy(c)
                    if type(v) is list:
                        v[:] = c
                    elif type(v) is numpy.ndarray:
                        v[...] = c
                    else:
                        v.clear()
                        v.update(c)
                if k.startswith("default "):
                    continue
                if isinstance(o, types.FunctionType):
                    o.__dict__[k] = v
                elif vars(o).get(k, o) is not v:
                    setattr(o, k, v)
