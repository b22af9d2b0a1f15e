"""Signatures of the native functions, read from the pyo3 declarations in rust/src."""
import inspect
import os
import re

ROOT = os.environ.get("VT_REPO", "/repo")


def _split(text):
    out, depth, cur = [], 0, ""
    for i, ch in enumerate(text):
        if ch in "([{<":
            depth += 1
        elif ch in ")]}" or (ch == ">" and text[i - 1:i] != "-"):
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def _paren(text, i):
    """Content of the parenthesis opening at text[i]."""
    depth = 0
    for j in range(i, len(text)):
        if text[j] in "(":
            depth += 1
        elif text[j] == ")":
            depth -= 1
            if depth == 0:
                return text[i + 1:j], j
    raise ValueError("unbalanced")


def parse(module):
    """{name: inspect.Signature} of every `#[pyfunction]` in rust/src/<module>.rs."""
    path = os.path.join(ROOT, "rust", "src", module + ".rs")
    text = re.sub(r"//[^\n]*", "", open(path).read())
    out = {}
    for m in re.finditer(r"#\[pyfunction\b[^\]]*\]", text):
        pos = m.end()
        head = re.compile(r"(?:pub(?:\([a-z]+\))?\s+)?fn\s+(\w+)").search(text, pos)
        attrs = text[pos:head.start()]
        name = head.group(1)
        j = head.end()
        if text[j] == "<":  # lifetimes / generics
            depth = 0
            while True:
                if text[j] == "<":
                    depth += 1
                elif text[j] == ">":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            j += 1
        params_text, _ = _paren(text, text.index("(", j))
        names = []
        for p in _split(params_text):
            pn, pt = p.split(":", 1)
            pn = pn.replace("mut ", "").strip()
            if re.match(r"\s*Python\b", pt):
                continue
            names.append(pn)
        sig = re.search(r"signature\s*=\s*\(", attrs)
        P = inspect.Parameter
        params = []
        if sig:
            inner, _ = _paren(attrs, sig.end() - 1)
            kind = P.POSITIONAL_OR_KEYWORD
            for p in _split(inner):
                if p == "*":
                    kind = P.KEYWORD_ONLY
                    continue
                if p == "/":
                    continue
                if p.startswith("**"):
                    params.append(P(p[2:].strip(), P.VAR_KEYWORD))
                elif p.startswith("*"):
                    params.append(P(p[1:].strip(), P.VAR_POSITIONAL))
                    kind = P.KEYWORD_ONLY
                elif "=" in p:
                    k, d = p.split("=", 1)
                    params.append(P(k.strip(), kind, default=("rust", d.strip())))
                else:
                    params.append(P(p, kind))
        else:
            params = [P(n, P.POSITIONAL_OR_KEYWORD) for n in names]
        out[name] = inspect.Signature(params)
    return out


MODULES = ("generic", "indicators", "labels", "portfolio", "records", "returns", "signals")


def literal(default):
    """Python value of a default written in Rust (None when not understood)."""
    text = default[1]
    table = {"None": None, "true": True, "false": False, "f64::NAN": float("nan"), "f64::INFINITY": float("inf")}
    if text in table:
        return table[text]
    try:
        return float(text) if "." in text else int(text)
    except ValueError:
        return default


# ############# A stand-in for the compiled package ############# #

import sys
import types

import numpy as np


def _types(module):
    """{python name: (signature, {param: rust type})}, honouring `#[pyo3(name = ...)]`."""
    path = os.path.join(ROOT, "rust", "src", module + ".rs")
    text = re.sub(r"//[^\n]*", "", open(path).read())
    sigs = parse(module)
    out = {}
    for m in re.finditer(r"#\[pyfunction\b[^\]]*\]", text):
        head = re.compile(r"(?:pub(?:\([a-z]+\))?\s+)?fn\s+(\w+)").search(text, m.end())
        attrs = text[m.end():head.start()]
        j = head.end()
        if text[j] == "<":
            depth = 0
            while True:
                depth += {"<": 1, ">": -1}.get(text[j], 0)
                j += 1
                if depth == 0:
                    break
        inner, _ = _paren(text, text.index("(", j))
        tps = {}
        for p in _split(inner):
            pn, pt = p.split(":", 1)
            tps[pn.replace("mut ", "").strip()] = " ".join(pt.split())
        nm = re.search(r'name\s*=\s*"(\w+)"', attrs)
        out[nm.group(1) if nm else head.group(1)] = (sigs[head.group(1)], tps)
    # functions exported through a macro: (python name, implementation, parameters after the array)
    P = inspect.Parameter
    for m in re.finditer(r"^\s*export_1d_array!\s*\(", text, re.M):
        inner, _ = _paren(text, m.end() - 1)
        parts = _split(inner)
        tps = {"a": "PyReadonlyArray1<'py, f64>"}
        for p in parts[2:]:
            k, t = p.split(":", 1)
            tps[k.strip()] = t.strip()
        out[parts[0]] = (inspect.Signature([P(k, P.POSITIONAL_OR_KEYWORD) for k in tps]), tps)
    # whatever is registered in a form not understood above: accepted with any arguments
    for name in set(re.findall(r"\b(\w+_rs)\b", text)):
        out.setdefault(name, (None, {}))
    return out


class NativeTypeError(TypeError):
    """An argument the compiled function could not have accepted."""


_DT = {"f64": np.float64, "i64": np.int64, "bool": np.bool_}


def accepts(tp, v):
    """Whether pyo3 converts `v` to the Rust type `tp`."""
    tp = tp.replace("numpy::", "").replace("pyo3::", "").lstrip("&").strip()
    m = re.match(r"Option<(.*)>$", tp)
    if m:
        return v is None or accepts(m.group(1), v)
    m = re.match(r"Py(Readonly|Readwrite)Array(1|2|Dyn)<'\w+, (\w+)>$", tp)
    if m:
        if not isinstance(v, np.ndarray) or v.dtype != _DT[m.group(3)]:
            return False
        if m.group(2) != "Dyn" and v.ndim != int(m.group(2)):
            return False
        return m.group(1) == "Readonly" or v.flags.writeable
    if tp in ("usize", "u64", "i64", "isize"):
        if isinstance(v, (float, np.floating, np.ndarray)) and not (isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype.kind in "iu"):
            return False
        if not hasattr(v, "__index__"):
            return False
        return int(v) >= 0 or tp in ("i64", "isize")
    if tp == "f64":
        if isinstance(v, np.ndarray) and v.ndim > 0:
            return False
        return hasattr(v, "__float__") or hasattr(v, "__index__")
    if tp == "bool":
        return isinstance(v, (bool, np.bool_))
    m = re.match(r"Vec<(\w+)>$", tp)
    if m:
        return not isinstance(v, str) and hasattr(v, "__len__") and all(accepts(m.group(1), x) for x in v)
    if tp.startswith("("):
        parts = _split(tp[1:-1])
        return isinstance(v, tuple) and len(v) == len(parts) and all(accepts(t, x) for t, x in zip(parts, v))
    return True  # PyAny and pyclasses


ALIASES = {"a": ("arr", "ts")}


class Native:
    """Installs a package `vectorbt_rust` whose functions have the declared native
    signatures, reject what pyo3 would reject and compute with the Python kernels."""

    def __init__(self):
        self.calls = []
        self.values = []  # (name, {rust param: value})
        self.keep = False
        self.modules = {}
        root = types.ModuleType("vectorbt_rust")
        from vectorbt._version import __version__
        root.__version__ = __version__
        root.__path__ = []
        self.modules["vectorbt_rust"] = root
        self.unmapped = set()
        for mod in MODULES:
            m = types.ModuleType("vectorbt_rust." + mod)
            for name, (sig, tps) in _types(mod).items():
                setattr(m, name, self._make(mod, name, sig, tps))
            setattr(root, mod, m)
            self.modules["vectorbt_rust." + mod] = m
        from vectorbt.portfolio import enums
        pm = self.modules["vectorbt_rust.portfolio"]
        for cls in ("OrderResult", "Order", "ExecuteOrderState", "ProcessOrderState"):
            setattr(pm, cls, getattr(enums, cls))

    def _impl(self, mod, name):
        import importlib
        nb = importlib.import_module(f"vectorbt.{mod}.nb")
        base = name[:-3]
        if base in ("sig_pos_rank", "part_pos_rank"):
            def run(a, reset_by, after_false, allow_gaps=None):
                temp = np.full(a.shape[1], -1, dtype=np.int64)
                extra = (temp,) if base == "part_pos_rank" else (temp, allow_gaps)
                return nb.rank_nb(a, reset_by, after_false, getattr(nb, base + "_nb"), *extra)
            return run, None
        if base in ("top_n_mapped_mask", "bottom_n_mapped_mask"):
            def run(mapped_arr, col_idxs, col_lens, n):
                pick = getattr(nb, base.split("_")[0] + "_n_inout_map_nb")
                return nb.mapped_to_mask_nb(mapped_arr, (col_idxs, col_lens), pick, n)
            return run, None
        f = getattr(nb, base + "_nb", None)
        return f, (None if f is None else inspect.signature(getattr(f, "py_func", f)))

    def _make(self, mod, name, sig, tps):
        def native(*args, **kwargs):
            if sig is None:
                self.unmapped.add(name)
                raise NotImplementedError(name)
            try:
                bound = sig.bind(*args, **kwargs)
            except TypeError as e:
                raise NativeTypeError(f"{name}: {e}")
            vals = {}
            for p in sig.parameters.values():
                v = bound.arguments[p.name] if p.name in bound.arguments else literal(p.default)
                if p.name in tps and not accepts(tps[p.name], v):
                    raise NativeTypeError(f"{name}: argument '{p.name}': {type(v).__name__} cannot be converted to {tps[p.name]}")
                vals[p.name] = v
            self.calls.append(name)
            if self.keep:
                self.values.append((name, vals))
            f, nsig = self._impl(mod, name)
            if f is None:
                self.unmapped.add(name)
                raise NotImplementedError(name)
            if nsig is None:
                return f(**vals)
            return f(*self._map(name, vals, nsig))
        native.__name__ = name
        native.__module__ = "vectorbt_rust." + mod
        return native

    def _map(self, name, vals, nsig):
        vals = {k.lstrip("_"): v for k, v in vals.items()}
        names = list(nsig.parameters)
        left, out = dict(vals), {}
        left.pop("seed", None) if "seed" not in names else None
        for n in names:
            if n in left:
                out[n] = left.pop(n)
            elif n.endswith("_arr") and n[:-4] in left:
                out[n] = left.pop(n[:-4])
            elif n == "col_map" and "col_idxs" in left:
                out[n] = (left.pop("col_idxs"), left.pop("col_lens"))
            elif n == "shape" and "nrows" in left:
                out[n] = (left.pop("nrows"), left.pop("ncols"))
            elif n in ("arr", "ts") and "a" in left:
                out[n] = left.pop("a")
        rest = [n for n in names if n not in out]
        if len(rest) == len(left):  # same number of unmatched names: by order
            for n, k in zip(rest, list(left)):
                out[n] = left.pop(k)
        for n in rest:
            if n not in out:
                if n in ("col", "group"):
                    out[n] = 0
                elif nsig.parameters[n].default is not inspect.Parameter.empty:
                    out[n] = nsig.parameters[n].default
                else:
                    self.unmapped.add(name)
                    raise NotImplementedError(name)
        if left:
            self.unmapped.add(name)
            raise NotImplementedError(name)
        return [out[n] for n in names]

    def __enter__(self):
        from vectorbt import _engine
        for k, v in self.modules.items():
            sys.modules[k] = v
        _engine.clear_engine_cache()
        return self

    def __exit__(self, *exc):
        from vectorbt import _engine
        for k in self.modules:
            sys.modules.pop(k, None)
        _engine.clear_engine_cache()
