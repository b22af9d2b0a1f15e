"""Observes every call from outside into the library: arguments and earlier results must be the same after it."""
import hashlib
import inspect
import os
import sys
import threading

import numpy as np
import pandas as pd
from vectorbt.utils.config import Config, Configured

TOOL = 4
HERE = "/vectorbt/"
HARNESS = os.path.dirname(os.path.abspath(__file__)) + os.sep
MON = sys.monitoring
E = MON.events


def digest(b):
    return hashlib.blake2b(b, digest_size=10).hexdigest()


_FOREIGN = {}


def foreign(code):
    """Not a public Python function of the library (kernels are called directly by another monitor)."""
    r = _FOREIGN.get(code)
    if r is None:
        fn = code.co_filename
        r = _FOREIGN[code] = (HERE not in fn or fn.startswith(HARNESS) or fn.endswith("nb.py") or code.co_name[0] == "<"
                              or bool(code.co_flags & (inspect.CO_GENERATOR | inspect.CO_COROUTINE | inspect.CO_ASYNC_GENERATOR)))
    return r


class Shot:
    """Flat picture of the content of a value: path -> digest."""

    def __init__(self, v, budget=4000, ignore=()):
        self.d = {}
        self.left = budget
        self.seen = set()
        self.ignore = ignore
        self.put("", v, 0)

    def put(self, path, v, depth):
        if self.left <= 0 or depth > 9:
            return
        self.left -= 1
        if self.ignore and id(v) in self.ignore:
            return
        if isinstance(v, np.ndarray):
            if v.dtype == object:
                self.d[path] = (v.shape, "object")
                if v.size <= 500:
                    for i, x in enumerate(v.ravel()):
                        self.put(f"{path}[{i}]", x, depth + 1)
            elif v.size <= 500000:
                self.d[path] = (v.shape, str(v.dtype), v.flags.writeable, digest(np.ascontiguousarray(v).tobytes()))
            return
        if isinstance(v, pd.Index):
            self.d[path] = (type(v).__name__, len(v), str(v.dtype), repr(list(v.names)), digest(repr(list(v[:2000])).encode()))
            return
        if isinstance(v, pd.Series):
            self.put(path + ".index", v.index, depth + 1)
            self.d[path + ".name"] = repr(v.name)
            self.put(path + ".values", v.to_numpy(), depth + 1)
            return
        if isinstance(v, pd.DataFrame):
            self.put(path + ".index", v.index, depth + 1)
            self.put(path + ".columns", v.columns, depth + 1)
            for i in range(min(v.shape[1], 60)):
                self.put(f"{path}.iloc[:, {i}]", v.iloc[:, i].to_numpy(), depth + 1)
            return
        if isinstance(v, (str, bytes, int, float, complex, bool, type(None), np.generic, pd.Timestamp, pd.Timedelta)):
            self.d[path] = (type(v).__name__, repr(v))
            return
        if isinstance(v, type) or inspect.isroutine(v) or inspect.ismodule(v):
            return
        if id(v) in self.seen:
            return
        self.seen.add(id(v))
        if isinstance(v, dict):
            try:
                items = list(v.items())
            except RuntimeError:
                return
            self.d[path] = (type(v).__name__, [repr(k) if isinstance(k, (str, int, tuple)) else id(k) for k, _ in items])
            for k, x in items[:200]:
                self.put(f"{path}[{k!r}]" if isinstance(k, (str, int, tuple)) else f"{path}[{id(k)}]", x, depth + 1)
            return
        if isinstance(v, (list, tuple)):
            self.d[path] = (type(v).__name__, len(v))
            for i, x in enumerate(v[:200]):
                self.put(f"{path}[{i}]", x, depth + 1)
            return
        if isinstance(v, (set, frozenset)):
            self.d[path] = (type(v).__name__, sorted(map(repr, v)))
            return
        if isinstance(v, Configured):
            try:
                c = object.__getattribute__(v, "_config")
            except AttributeError:
                return
            for k, x in dict(c).items():
                self.put(f"{path}.{k}", x, depth + 1)
            return

    def changes(self, other):
        keys = [k for k in self.d if k not in other.d or self.d[k] != other.d[k]] + [k for k in other.d if k not in self.d]
        return keys


# documented outputs, by function and argument
OUTPUTS = {
    "update_dict": {"x"}, "set_dict_item": {"dct"}, "insert_argsort_nb": {"A", "I"}, "generate_ohlc_stop_exits": {"out_dict"},
    "resolve_attr": {"cache_dct", "passed_kwargs_out"},
}
IN_PLACE = {"DataUpdater.update", "DataUpdater.update_every"}
WRITTEN = {"stop_price_out", "stop_type_out"}


class Purity:
    def __init__(self, keep=6, callback_args=(), ignore=()):
        self.ignore = tuple(id(x) for x in ignore)
        self.callback_args = callback_args      # arrays written by the caller's own callbacks
        self.calls = 0
        self.args = 0
        self.results = 0
        self.found = []
        self.frame = None
        self.keep = keep
        self.pool = []
        self.main = threading.get_ident()

    # ---- events
    def start(self, code, offset):
        if self.frame is not None or threading.get_ident() != self.main:
            return
        f = sys._getframe(2)
        if f.f_code is code and f.f_back is not None and f.f_back.f_code.co_filename.startswith(HARNESS):
            self.begin(f, code)

    def begin(self, f, code):
        self.frame = f
        try:
            n = code.co_argcount + code.co_kwonlyargcount + bool(code.co_flags & inspect.CO_VARARGS) + bool(code.co_flags & inspect.CO_VARKEYWORDS)
            loc = f.f_locals
            names = list(code.co_varnames[:n])
            vals = {k: loc[k] for k in names if k in loc}
            if code.co_flags & inspect.CO_VARKEYWORDS:
                vals.update({"**" + k: v for k, v in vals.pop(names[-1]).items()})
            for k in OUTPUTS.get(code.co_name, set()) | WRITTEN:
                vals.pop(k, None)
                vals.pop("**" + k, None)
            if code.co_name == "deep_substitute" and not vals.get("make_copy", True):
                vals.clear()
            if names and names[0] in vals and (code.co_name == "__init__" or isinstance(vals[names[0]], (Config, type))):
                vals.pop(names[0])
            if names and (vals.get("inplace") or vals.get("**inplace") or code.co_qualname in IN_PLACE):
                vals.pop(names[0], None)
                self.pool = []
            for k in self.callback_args:
                vals.pop(k, None)
                vals.pop("**" + k, None)
            a = vals.get("args")
            if code.co_flags & inspect.CO_VARARGS and a and isinstance(a, tuple) and isinstance(a[0], (Config, type)):
                vals["args"] = a[1:]
            self.vals = vals
            self.before = Shot(self.vals, ignore=self.ignore)
            self.pool_before = [Shot(r) for _, r in self.pool]
        except BaseException:
            self.frame = None
            raise

    def finish(self, code, value=None, ok=True):
        f = sys._getframe(3)
        if f is not self.frame:
            return
        try:
            after = Shot(self.vals, ignore=self.ignore)
            ch = self.before.changes(after)
            self.calls += 1
            self.args += len(self.before.d)
            where = f"{code.co_filename.split(HERE)[-1]}:{code.co_qualname}"
            if ch:
                self.found.append((where, "argument", ch[:4], [(self.before.d.get(k), after.d.get(k)) for k in ch[:2]]))
            for (name, r), b in zip(self.pool, self.pool_before):
                c = b.changes(Shot(r))
                self.results += 1
                if c:
                    self.found.append((where, "earlier result of " + name, c[:4], []))
            if ok and isinstance(value, (np.ndarray, pd.Series, pd.DataFrame, Configured, tuple, list, dict)) and not isinstance(value, Config):
                self.pool.append((where, value))
                del self.pool[:-self.keep]
        finally:
            self.frame = None
            self.vals = None

    def on_return(self, code, offset, value):
        if self.frame is not None and threading.get_ident() == self.main:
            self.finish(code, value)

    def on_unwind(self, code, offset, exc):
        if self.frame is not None and threading.get_ident() == self.main:
            self.finish(code, ok=False)

    def __enter__(self):
        Hub.current = self
        if not Hub.installed:
            Hub.installed = True
            MON.use_tool_id(TOOL, "purity")
            MON.register_callback(TOOL, E.PY_START, Hub.start)
            MON.register_callback(TOOL, E.PY_RETURN, Hub.on_return)
            MON.register_callback(TOOL, E.PY_UNWIND, Hub.on_unwind)
            MON.set_events(TOOL, E.PY_START | E.PY_RETURN | E.PY_UNWIND)
        return self

    def __exit__(self, *e):
        Hub.current = None
        self.frame = self.vals = None


class Hub:
    current = None
    installed = False

    @staticmethod
    def start(code, offset):
        if foreign(code):
            return MON.DISABLE
        if Hub.current is not None:
            Hub.current.start(code, offset)

    @staticmethod
    def on_return(code, offset, value):
        if foreign(code):
            return MON.DISABLE
        if Hub.current is not None:
            Hub.current.on_return(code, offset, value)

    @staticmethod
    def on_unwind(code, offset, exc):
        if Hub.current is not None:
            Hub.current.on_unwind(code, offset, exc)
