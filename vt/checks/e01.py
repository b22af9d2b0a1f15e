"""E01: engine selection is explicit, safe and never changes results.

The compiled engine is not installed here. A stand-in package with the native signatures (parsed from the pyo3
declarations), pyo3's argument conversion rules and the Python kernels behind it lets the selection, the fallback and
the argument plumbing be observed in both worlds: with the engine missing and with the engine present."""

import importlib
import inspect
import types
import warnings

import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt import _engine
from vectorbt._engine import RustConversion, RustSupport

from vt import rsig
from vt.core import Skip, monitor
from vt.checks.u02 import unlike


def pick(rng, opts):
    return opts[int(rng.integers(len(opts)))]


def native(ctx):
    if "native" not in ctx.state:
        ctx.state["native"] = rsig.Native()
    n = ctx.state["native"]
    n.calls.clear()
    n.values.clear()
    return n


def outcome(f, *args, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                return "ok", f(*args, **kw)
            except Exception as e:
                return "error", e


def plain(v):
    """Comparable form of a result (objects are reduced to their data)."""
    if isinstance(v, (pd.Series, pd.DataFrame, pd.Index, np.ndarray, float, int, str, bool, type(None), np.generic)):
        return v
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, vbt.records.Records):
        return (type(v).__name__, v.values, v.wrapper.index, v.wrapper.columns, v.wrapper.ndim)
    if isinstance(v, vbt.MappedArray):
        return (v.values, v.col_arr, v.idx_arr, v.wrapper.index, v.wrapper.columns)
    if isinstance(v, vbt.Portfolio):
        return (v.order_records, v.log_records, v.wrapper.index, v.wrapper.columns)
    if hasattr(v, "output_names"):
        return [getattr(v, n) for n in v.output_names]
    return v


def differs(a, b):
    return unlike(plain(a), plain(b), exact=False) if "exact" in inspect.signature(unlike).parameters else unlike(plain(a), plain(b))


# --------------------------------------------------------------------------------------------- resolution

@monitor(2, modes=("pure",))
def resolution(ctx):
    """resolve_engine against its documented decision table, with the engine present, missing and mismatched."""
    rng = ctx.rng
    nat = native(ctx)
    from vectorbt._settings import settings
    from vectorbt._version import __version__ as base_version
    major = base_version.rsplit(".", 1)[0]
    for _ in range(12):
        world = pick(rng, ["missing", "present", "patch", "other"])
        support = pick(rng, [RustSupport(True), RustSupport(True, conversions=(RustConversion(np.dtype("f8"), 3),)), RustSupport(False, "Nope 42.")])
        engine = pick(rng, [None, "auto", "numba", "rust", "Numba", "", "cuda", 0])
        glob = pick(rng, ["auto", "numba", "rust", "bogus"])
        available = world in ("present", "patch")
        root = nat.modules["vectorbt_rust"]
        old_version, old = root.__version__, settings["engine"]
        root.__version__ = {"present": base_version, "patch": major + ".77", "other": "0.0.1", "missing": base_version}[world]
        settings["engine"] = glob
        try:
            if world == "missing":
                _engine.clear_engine_cache()
                run = lambda f: f()
            else:
                def run(f):
                    with nat:
                        return f()
            def call():
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    a = _engine.is_rust_available()
                    n_w = len([x for x in w if "mismatch" in str(x.message)])
                    b = _engine.is_rust_available()
                    kind, r = outcome(_engine.resolve_engine, engine, supports_rust=support)
                    sk, sr = outcome(_engine.seed_for_rust, 7, engine, support)
                    return a, b, n_w, kind, r, sk, sr
            a, b, n_w, kind, r, sk, sr = run(call)
        finally:
            root.__version__ = old_version
            settings["engine"] = old
            _engine.clear_engine_cache()
        info = dict(world=world, engine=engine, setting=glob, supported=support.supported)
        ctx.check(a == available and b == available, "availability of the native engine", **info, got=(a, b))
        ctx.check((n_w > 0) == (world == "other"), "warning about mismatching versions", **info, n=n_w)
        e = glob if engine is None else engine
        if e == "numba":
            want = "numba"
        elif e == "rust":
            want = ImportError if not available else ("rust" if support.supported else ValueError)
        elif e == "auto":
            want = "rust" if (available and support.supported) else "numba"
        else:
            want = ValueError
        if isinstance(want, str):
            ctx.check(kind == "ok" and r == want, "resolved engine", **info, want=want, got=r)
            ctx.check(sk == "ok" and sr == (7 if want == "rust" else None), "seed handed to the native engine only", **info, got=sr)
        else:
            ctx.check(kind == "error" and type(r) is want, "error of an unusable engine", **info, want=want.__name__, got=repr(r))
            ctx.check(sk == "error" and type(sr) is want, "error of an unusable engine (seed)", **info, got=repr(sr))
            if want is ValueError and e == "rust":
                ctx.check("Nope 42." in str(r), "reason is shown", **info, got=str(r))
        rr = _engine.resolve_random_engine(engine)
        ctx.check(rr == ("numba" if engine in (None, "auto") else engine), "engine of randomised functions", engine=engine, got=rr)
        ctx.seen("resolutions")
    ctx.raises(TypeError, _engine.resolve_engine, "auto", supports_rust=True, msg="supports_rust must be a RustSupport")
    ctx.nontrivial(ctx.case)


def rand_value(rng):
    k = int(rng.integers(14))
    dt = pick(rng, ["f8", "f4", "i8", "i4", "u4", "u8", "?", "O", "M8[ns]", "f2", "i2"])
    shape = pick(rng, [(), (3,), (3, 2), (1,), (1, 2), (3, 1), (2,), (2, 3, 1), (0, 2)])
    if k < 9:
        a = rng.integers(0, 3, shape)
        a = np.asarray(a - int(rng.integers(0, 2)))
        return a.astype("i8").astype(dt) if dt == "M8[ns]" else a.astype(dt)
    return [1.5, 3, "x", [1.0, 2.0], None][k - 9]


def ref_array(a, dt):
    """(supported, needs conversion) by the stated rule: same kind, safe cast, one or two dimensions."""
    if not isinstance(a, np.ndarray):
        return False, False
    dt = np.dtype(dt)
    if a.ndim not in (1, 2):
        return False, False
    if a.dtype == dt:
        return True, False
    ints = a.dtype.kind in "iu" and dt.kind in "iu"
    if not (a.dtype.kind == dt.kind or ints) or not np.can_cast(a.dtype, dt, "safe"):
        return False, False
    return True, True


@monitor(2, modes=("pure",))
def support(ctx):
    """The predicates deciding whether a call can go to the native engine, against their description."""
    rng = ctx.rng
    E = _engine
    for _ in range(25):
        a, dt = rand_value(rng), pick(rng, ["f8", "i8", "?"])
        s = E.array_compatible_with_rust(a, dtype=np.dtype(dt))
        ok, conv = ref_array(a, dt)
        info = dict(a=repr(a)[:80], adt=str(getattr(a, "dtype", None)), shape=getattr(a, "shape", None), dt=dt)
        ctx.check(bool(s) == ok and s.supported == ok, "array support", **info, got=s)
        ctx.check(s.requires_conversion == conv, "conversion needed", **info, got=s)
        if conv:
            ctx.check(s.conversions[0].dtype == np.dtype(dt) and s.conversions[0].n_elements == a.size, "conversion record", **info, got=s)
        if not ok:
            ctx.check(len(s.reason) > 0, "reason of unsupported input", **info)
        x = E.exact_array_compatible_with_rust(a, dtype=np.dtype(dt))
        ctx.check(bool(x) == (ok and not conv), "exact array support", **info, got=x)
        kind, p = outcome(E.prepare_array_for_rust, a, dtype=np.dtype(dt))
        ctx.check((kind == "ok") == ok, "prepared arrays are the supported ones", **info, got=repr(p)[:100])
        if ok:
            ctx.check(p.dtype == np.dtype(dt) and p.shape == a.shape and np.array_equal(p, a.astype(dt), equal_nan=dt == "f8"),
                      "prepared array", **info)
            ctx.check(conv or p is a, "an exact array is passed on as it is", **info)
        v = pick(rng, [None, -1, 0, 1, -5, 7])
        ctx.check(bool(E.non_neg_int_compatible_with_rust("k", v)) == (v is None or v >= 0), "non-negative integer", v=v)
        b = rand_value(rng)
        m = E.matching_shape_compatible_with_rust("k", a, b)
        ctx.check(bool(m) == (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape), "matching shape", a=repr(a)[:60], b=repr(b)[:60])
        sh = pick(rng, [(3, 2), (3,), [3, 2]])
        m = E.array_shape_compatible_with_rust("k", a, sh)
        ctx.check(bool(m) == (isinstance(a, np.ndarray) and a.shape == tuple(sh)), "exact shape", **info, target=sh)
        n = E.non_neg_array_compatible_with_rust("k", a)
        ok_i, _ = ref_array(a, "i8")
        ctx.check(bool(n) == (ok_i and not (a < 0).any()), "non-negative array", **info, got=n)
        sc = pick(rng, [0.5, -0.1, 1, 1.0001, "0.3", "x", None, np.float64(0.2), np.array(0.5)])
        def is_scalar():
            if isinstance(sc, np.ndarray):
                return False
            try:
                float(sc)
            except (TypeError, ValueError):
                return False
            return True
        ctx.check(bool(E.scalar_compatible_with_rust("k", sc)) == is_scalar(), "scalar", v=repr(sc))
        ctx.check(bool(E.unit_interval_compatible_with_rust("k", sc)) == (is_scalar() and 0 <= float(sc) <= 1), "unit interval", v=repr(sc))
        # flexible arguments
        shape = pick(rng, [(3, 2), (1, 2), (3, 1), (2, 2), (2, 3)])
        flex = bool(rng.integers(2))
        fa = pick(rng, [a, a, rng.random((shape[1],)), rng.random((shape[0],)), rng.random(shape), rng.random((1, shape[1])), rng.random((shape[0], 1)), np.array(0.5)])
        fs = E.flex_array_compatible_with_rust("k", fa, shape, dtype=np.dtype("f8"), flex_2d=flex)
        if isinstance(fa, np.ndarray) and fa.dtype.kind == "f" and fa.ndim <= 2:
            r = fa
            if r.ndim == 1:
                r = r[None, :] if flex else r[:, None]
            fits = r.size > 0 and all(x == 1 or x == y for x, y in zip(r.shape, shape)) if r.ndim else True
            if 0 not in fa.shape:
                ctx.check(bool(fs) == bool(fits), "flexible argument", shape=shape, flex=flex, ashape=fa.shape, got=fs)
                if fs:
                    q = E.prepare_flex_array_for_rust(fa, shape, flex_2d=flex)
                    ctx.check(q.dtype == np.float64 and q.shape == fa.shape and np.array_equal(q, fa.astype("f8"), equal_nan=True), "prepared flexible argument")
        # combination
        rs = [pick(rng, [RustSupport(True), RustSupport(True, conversions=(RustConversion(np.dtype("i8"), int(rng.integers(9))),)), RustSupport(False, "r%d" % i)])
              for i in range(int(rng.integers(0, 4)))]
        c = E.combine_rust_support(*rs)
        bad = [x for x in rs if not x.supported]
        if bad:
            ctx.check(not c.supported and c.reason == bad[0].reason, "first unsupported reason wins", rs=rs, got=c)
        else:
            ctx.check(c.supported and c.conversions == sum([x.conversions for x in rs], ()), "conversions are collected", rs=rs, got=c)
        # column ranges and maps
        cr = pick(rng, [a, rng.integers(0, 3, (2, 2)), rng.integers(0, 3, (2, 3)), rng.integers(0, 3, 4), rng.random((2, 2))])
        want = isinstance(cr, np.ndarray) and cr.ndim == 2 and cr.shape[1] == 2 and ref_array(cr, "i8")[0]
        ctx.check(bool(E.col_range_compatible_with_rust(cr)) == want, "column range", cr=repr(cr)[:80])
        lens = pick(rng, [rng.integers(0, 3, 3), rng.integers(-2, 3, 3), rng.random(3)])
        idx = pick(rng, [rng.integers(0, 3, 3), rng.random(3)])
        want = ref_array(lens, "i8")[0] and ref_array(idx, "i8")[0] and not (lens < 0).any()
        ctx.check(bool(E.col_map_compatible_with_rust((idx, lens))) == want, "column map", lens=repr(lens), idx=repr(idx))
        ctx.check(not E.col_map_compatible_with_rust(pick(rng, [None, (idx,), 3])), "malformed column map")
        ctx.seen("predicates", 12)
    ctx.check(not E.callback_unsupported_with_rust().supported, "callbacks are never native")
    ctx.nontrivial(ctx.case)


# --------------------------------------------------------------------------------------------- argument passing

def dispatchers(mod):
    d = importlib.import_module(f"vectorbt.{mod}.dispatch")
    out = {}
    for n, f in vars(d).items():
        if inspect.isfunction(f) and f.__module__ == d.__name__ and "engine" in inspect.signature(f).parameters:
            out[f.__name__] = f
    return d, out


class Token:
    pass


class Spies:
    """Replaces the kernels of all packages by recorders."""

    def __init__(self):
        self.calls = []
        self.undo = []

    def __enter__(self):
        for mod in rsig.MODULES:
            for suffix in ("nb", "dispatch"):
                m = importlib.import_module(f"vectorbt.{mod}.{suffix}")
                for n in list(vars(m)):
                    f = getattr(m, n)
                    if n.endswith("_nb") and callable(f) and hasattr(f, "__name__"):
                        self.undo.append((m, n, f))
                        setattr(m, n, self._spy(n, f))
        return self

    def _spy(self, name, f):
        def spy(*args, **kwargs):
            t = Token()
            self.calls.append((name, f, args, kwargs, t))
            return t
        spy.__name__ = name
        spy.original = f
        return spy

    def __exit__(self, *exc):
        for m, n, f in self.undo:
            setattr(m, n, f)


BOOLS = ("adjust", "after_false", "allow_gaps", "auto_call_seq", "cash_sharing", "d_ewm", "entry_first", "entry_pick_first",
         "exit_pick_first", "ewm", "ffill_val_price", "flex_2d", "free", "from_other", "in_c_order", "init_temp_records",
         "is_open_safe", "macd_ewm", "normalize", "overlapping", "pick_first", "signal_ewm", "skip_until_exit", "until_next",
         "update_value", "use_stops", "lock_cash", "allow_partial", "raise_reject", "log")


def sentinel(rng, name, par, i, shape):
    """A distinguishable value of a plausible type."""
    a = str(par.annotation)
    if "Callable" in a or name.endswith("_func"):
        def f(*args):
            raise AssertionError("not to be called")
        return f
    if name in ("shape", "input_shape", "target_shape"):
        return shape
    if par.annotation in (bool,) or name in BOOLS and par.annotation is inspect.Parameter.empty:
        return bool(rng.integers(2))
    if par.annotation is int or a in ("typing.Optional[int]", "int | None"):
        return 3 + 2 * i
    if par.annotation is float or par.annotation is inspect.Parameter.empty:
        return 0.5 + i * 0.125
    if name == "call_seq_type":
        return 1
    if name == "cache_dict" or name.endswith("cache_dict"):
        return {("k", i): i}
    if "List" in a or a.startswith("list"):
        return [i + 2, i + 3]
    if name in ("args", "apply_args", "reduce_args", "entry_args", "exit_args"):
        return (i + 0.25, i + 0.75)
    if name == "col_map":
        return (np.arange(shape[1]), np.ones(shape[1], dtype=np.int64))
    if name in ("entries", "exits", "mask", "reset_by", "b"):
        return rng.random(shape) < 0.5
    if name == "n" and "Array" not in a and par.annotation is np.ndarray:
        return rng.integers(1, 4, shape[1]) + i
    if name in ("groups",):
        return {0: np.array([0])}
    if name == "records" or name.endswith("_records"):
        return np.zeros(2, dtype=[("id", "i8"), ("col", "i8")])
    return rng.random(shape) + i


def contains(args, kwargs, v):
    stack = list(args) + list(kwargs.values())
    while stack:
        x = stack.pop()
        if same(x, v):
            return True
        if isinstance(x, (tuple, list)):
            stack.extend(x)
    return False


def same(x, v):
    if x is v:
        return True
    x = getattr(x, "original", x)
    if isinstance(v, np.ndarray):
        return isinstance(x, np.ndarray) and x.shape == v.shape and x.dtype.kind == v.dtype.kind and bool((x == v).all())
    if isinstance(v, (tuple, list)):
        return isinstance(x, (tuple, list)) and len(x) == len(v) and all(same(p, q) for p, q in zip(x, v))
    if isinstance(v, dict) or callable(v):
        return False
    if isinstance(v, float) and v != v:
        return isinstance(x, float) and x != x
    try:
        return type(x) is type(v) and bool(x == v)
    except Exception:
        return False


# arguments that only the native engine takes, or that wrappers legitimately replace
IGNORED = {"seed", "engine"}


@monitor(3, modes=("pure",))
def passthrough(ctx):
    """Every dispatched operation hands every argument, unchanged and under its own name, to the kernel."""
    rng = ctx.rng
    for _ in range(3):
        mod = pick(rng, rsig.MODULES)
        d, fs = dispatchers(mod)
        for fname in sorted(fs):
            if rng.random() < 0.4:
                continue
            f = fs[fname]
            sig = inspect.signature(f)
            shape = (int(rng.integers(2, 6)), int(rng.integers(1, 4)))
            vals, var = {}, ()
            for i, (k, p) in enumerate(sig.parameters.items()):
                if k == "engine":
                    continue
                if p.kind is p.VAR_POSITIONAL:
                    var = (i + 0.3, i + 0.6)
                    continue
                if p.default is not p.empty and rng.random() < 0.4:
                    continue
                vals[k] = sentinel(rng, k, p, i, shape)
            if "reject_prob" in sig.parameters and mod == "portfolio" and fname.startswith("simulate"):
                vals["reject_prob"] = pick(rng, [np.zeros((1, 1)), np.full((1, 1), 0.3)])
            named, positional = {}, []
            gap = False
            for k, p in sig.parameters.items():
                if p.kind is p.KEYWORD_ONLY or k == "engine" or p.kind is p.VAR_POSITIONAL:
                    continue
                if k in vals and not gap:
                    positional.append(vals[k])
                else:
                    gap = True
                    if k in vals:
                        named[k] = vals[k]
            if var and gap:
                var = ()
            engine = pick(rng, [None, "auto", "numba"])
            if engine is not None or rng.random() < 0.5:
                named["engine"] = engine
            snap = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vals.items()}
            kind, r = outcome(self_call, f, positional + list(var), named)
            info = dict(function=f"{mod}.{fname}", engine=engine)
            if kind == "error":
                ctx.seen("not_spied")
                ctx.state.setdefault("e01_errors", {})[f"{mod}.{fname}"] = repr(r)[:120]
                continue
            r, calls = r
            if not calls:
                ctx.state.setdefault("e01_errors", {})[f"{mod}.{fname}"] = "no kernel call"
                continue
            ctx.check(all(same(v, snap[k]) for k, v in vals.items() if isinstance(v, np.ndarray)), "arguments are not changed on the way", **info)
            if len(calls) == 1:
                kname, kf, kargs, kkw, tok = calls[0]
                ctx.check(r is tok, "the kernel's result is returned", **info, kernel=kname, got=repr(r)[:100])
                ksig = inspect.signature(getattr(kf, "py_func", kf))
                try:
                    bound = ksig.bind(*kargs, **kkw)
                except TypeError as e:
                    ctx.fail("the kernel is called with its signature", **info, kernel=kname, error=str(e))
                    continue
                bound.apply_defaults()
                got = bound.arguments
                direct = kname == fname + "_nb"
                for k, p in sig.parameters.items():
                    if k in IGNORED or p.kind is p.VAR_POSITIONAL:
                        if p.kind is p.VAR_POSITIONAL and var:
                            ctx.check(contains(kargs, kkw, var[0]) and contains(kargs, kkw, var[1]) or tuple(got.get(k, ())) == var,
                                      "additional arguments are passed on", **info, kernel=kname)
                        continue
                    given = k in vals
                    v = vals[k] if given else p.default
                    target = k if k in got else (k + "_nb" if k + "_nb" in got else None)
                    if not given and v is None:
                        continue  # the wrapper may fill in a value
                    if mod == "signals" and ("enex" in fname or "chain" in fname) and fname.endswith("_apply"):
                        # entries and exits generated together do not use these; `wait` only stands in for a missing `exit_wait`
                        if k in ("until_next", "skip_until_exit") or k == "wait" and (not given or vals.get("exit_wait") is not None):
                            continue
                    if direct and target is not None:
                        ctx.check(same(got[target], v), "argument reaches the kernel under its own name", **info, kernel=kname, argument=k,
                                  given=repr(v)[:100], got=repr(got[target])[:100])
                    elif given or not direct:
                        ctx.check(contains(kargs, kkw, v), "argument reaches the kernel", **info, kernel=kname, argument=k, given=repr(v)[:100])
                    ctx.seen("arguments")
            ctx.nontrivial(mod, fname)
            ctx.seen("dispatched")


def self_call(f, args, kw):
    with Spies() as s:
        r = f(*args, **kw)
    return r, s.calls


# --------------------------------------------------------------------------------------------- operations

def seeds(rng):
    return int(rng.integers(2 ** 31))


def index_of(rng, n):
    return pd.date_range("2020-01-01", periods=n, freq="D")


def price_frame(rng, n=None, c=None, nan=True):
    n = int(rng.integers(2, 12)) if n is None else n
    c = int(rng.integers(1, 4)) if c is None else c
    a = np.round(np.exp(np.cumsum(rng.normal(0, 0.1, (n, c)), axis=0)) * 10, 2)
    if nan and rng.random() < 0.5:
        a[rng.random((n, c)) < 0.2] = np.nan
        a[0] = 10
    return pd.DataFrame(a, index=index_of(rng, n), columns=list("abc")[:c])


def maybe_series(rng, df):
    return df.iloc[:, 0] if rng.random() < 0.3 else df


def from_num(rng, df):
    """The same data as another dtype or layout, which the native engine may not accept as it is."""
    k = rng.random()
    if k < 0.6:
        return df
    if k < 0.7:
        return df.astype(np.float32)
    if k < 0.85:
        return df.fillna(1).round().astype(np.int64)
    return df if df.ndim == 1 else pd.DataFrame(np.asfortranarray(df.values), index=df.index, columns=df.columns)


def _sum_col(*args):
    return np.nansum(args[-1])


def _double(*args):
    return args[-1] * 2


def _keep(*args):
    return args[-1] > 10


def _arr(*args):
    return np.array([np.nanmin(args[-1]), np.nanmax(args[-1])])


def op_generic(rng):
    from vectorbt.generic import dispatch as gd
    df = from_num(rng, maybe_series(rng, price_frame(rng)).copy())
    other = df * pick(rng, [1.0, 1.01, 0.99])
    w = int(rng.integers(1, 5))
    minp = pick(rng, [None, 1, w])
    b = bool(rng.integers(2))
    dd = int(rng.integers(0, 2))
    c = df.shape[1] if df.ndim == 2 else 1
    g = np.sort(rng.integers(0, 2, c)) if df.ndim == 2 and c > 1 else None
    gb = {} if g is None or rng.random() < 0.5 else dict(group_by=g)
    k = pick(rng, [1, 2, 3])
    fl = dict(gb, flatten=True, order=pick(rng, ["C", "F"])) if gb else gb
    cb = [
        ("apply_along_axis", (_double,), dict(axis=int(rng.integers(2)))), ("rolling_apply", (w, _sum_col), dict(minp=minp)),
        ("rolling_apply", (w, _sum_col), dict(minp=minp, on_matrix=True)), ("expanding_apply", (_sum_col,), dict(minp=1)),
        ("groupby_apply", (df.index.month, _sum_col), {}), ("resample_apply", ("2D", _sum_col), {}),
        ("applymap", (_double,), {}), ("filter", (_keep,), {}), ("apply_and_reduce", (_double, _sum_col), {}),
        ("reduce", (_sum_col,), gb), ("reduce", (_arr,), dict(returns_array=True, **gb)),
    ]
    nd = [
        ("rolling_mean", (w,), dict(minp=minp)), ("rolling_std", (w,), dict(minp=minp, ddof=dd)), ("rolling_min", (w,), dict(minp=minp)),
        ("rolling_max", (w,), dict(minp=minp)), ("expanding_mean", (), dict(minp=k)), ("expanding_std", (), dict(minp=k, ddof=dd)),
        ("expanding_min", (), dict(minp=k)), ("expanding_max", (), dict(minp=k)), ("ewm_mean", (w,), dict(minp=minp, adjust=b)),
        ("ewm_std", (w,), dict(minp=minp, adjust=b, ddof=dd)), ("bshift", (), dict(n=k)), ("fshift", (), dict(n=k)), ("diff", (), dict(n=k)),
        ("pct_change", (), dict(n=k)), ("fillna", (2.0,), {}), ("ffill", (), {}), ("bfill", (), {}), ("cumsum", (), {}), ("cumprod", (), {}), ("product", (), {}),
        ("rebase", (), dict(base=100)), ("drawdown", (), {}), ("crossed_above", (other,), dict(wait=int(rng.integers(0, 2)))),
        ("crossed_below", (other,), dict(wait=int(rng.integers(0, 2)))), ("shuffle", (), dict(seed=seeds(rng))),
        ("describe", (), dict(percentiles=[0.1, 0.9], ddof=dd, **gb)), ("value_counts", (), gb),
        ("reduce", (gd.nth_reduce, k - 1), fl), ("reduce", (gd.nth_index_reduce, -1), dict(to_index=True)), ("reduce", (gd.describe_reduce, np.array([0.5]), dd), dict(returns_array=True, **fl)),
        ("apply_and_reduce", (_double, gd.max_reduce), {}),
    ]
    for n in ("min", "max", "mean", "median", "sum", "count", "idxmin", "idxmax"):
        nd.append((n, (), gb))
    nd.append(("std", (), dict(ddof=dd, **gb)))
    if g is not None:
        nd += [("squeeze_grouped", (gd.any_squeeze,), dict(group_by=g)), ("squeeze_grouped", (pick(rng, [gd.sum_squeeze, gd.max_squeeze, gd.min_squeeze]),), dict(group_by=g)),
               ("flatten_grouped", (), dict(group_by=g, order=pick(rng, ["C", "F"])))]
    name, args, kw = pick(rng, nd if rng.random() < 0.8 else cb)
    call = callable(args[-1]) and args[-1].__module__ == __name__ if args else False
    where = pick(rng, ["arg", "arg", "obj"])
    def run(engine):
        if where == "obj":
            return getattr(df.vbt(engine=engine), name)(*args, **kw)
        return getattr(df.vbt, name)(*args, engine=engine, **kw)
    f4 = any(str(x) == "float32" for x in (df.dtypes if df.ndim == 2 else [df.dtype]))
    return "generic." + name + ("@group" if "group_by" in kw else "") + ("@f4" if f4 else ""), run, call


def op_returns(rng):
    df = maybe_series(rng, price_frame(rng, nan=False).pct_change())
    if rng.random() < 0.5:
        df = df.fillna(0.0)
    bench = df * pick(rng, [0.5, 1.0, 1.5]) + 0.001
    w = int(rng.integers(1, 5))
    m = pick(rng, [None, 1])
    th = pick(rng, [0.0, 0.01])
    ops = [("daily", (), {}), ("annual", (), {}), ("cumulative", (), dict(start_value=pick(rng, [0.0, 1.0, 100.0]))), ("total", (), {}), ("rolling_total", (w,), dict(minp=m)),
           ("annualized", (), {}), ("rolling_annualized", (w,), dict(minp=m)), ("annualized_volatility", (), dict(levy_alpha=pick(rng, [2.0, 1.5]), ddof=int(rng.integers(2)))),
           ("rolling_annualized_volatility", (w,), dict(minp=m)), ("calmar_ratio", (), {}), ("rolling_calmar_ratio", (w,), dict(minp=m)),
           ("omega_ratio", (), dict(risk_free=th, required_return=pick(rng, [0.0, 0.1]))), ("rolling_omega_ratio", (w,), dict(minp=m, risk_free=th)),
           ("sharpe_ratio", (), dict(risk_free=th)), ("rolling_sharpe_ratio", (w,), dict(minp=m, risk_free=th)),
           ("downside_risk", (), dict(required_return=th)), ("rolling_downside_risk", (w,), dict(minp=m, required_return=th)),
           ("sortino_ratio", (), dict(required_return=th)), ("rolling_sortino_ratio", (w,), dict(minp=m, required_return=th)),
           ("information_ratio", (bench,), {}), ("rolling_information_ratio", (bench, w), dict(minp=m)), ("beta", (bench,), {}),
           ("rolling_beta", (bench, w), dict(minp=m)), ("alpha", (bench,), dict(risk_free=th)), ("rolling_alpha", (bench, w), dict(minp=m, risk_free=th)),
           ("tail_ratio", (), {}), ("rolling_tail_ratio", (w,), dict(minp=m)), ("common_sense_ratio", (), {}), ("rolling_common_sense_ratio", (w,), dict(minp=m)),
           ("value_at_risk", (), dict(cutoff=pick(rng, [0.05, 0.3]))), ("rolling_value_at_risk", (w,), dict(minp=m, cutoff=0.2)),
           ("cond_value_at_risk", (), dict(cutoff=pick(rng, [0.05, 0.3]))), ("rolling_cond_value_at_risk", (w,), dict(minp=m, cutoff=0.2)),
           ("capture", (bench,), {}), ("rolling_capture", (bench, w), dict(minp=m)), ("up_capture", (bench,), {}), ("rolling_up_capture", (bench, w), dict(minp=m)),
           ("down_capture", (bench,), {}), ("rolling_down_capture", (bench, w), dict(minp=m)), ("drawdown", (), {}), ("max_drawdown", (), {}),
           ("rolling_max_drawdown", (w,), dict(minp=m)), ("get_drawdowns", (), {})]
    name, args, kw = pick(rng, ops)
    where = pick(rng, ["arg", "arg", "obj"])
    def run(engine):
        if where == "obj":
            return getattr(df.vbt.returns(freq="1D", engine=engine), name)(*args, **kw)
        return getattr(df.vbt.returns(freq="1D"), name)(*args, engine=engine, **kw)
    return "returns." + name, run, False


def op_from_value(rng):
    df = maybe_series(rng, price_frame(rng, nan=False))
    iv = pick(rng, [np.nan, 10.0])
    return "returns.from_value", lambda engine: vbt.returns.accessors.ReturnsAccessor.from_value(df, init_value=iv, engine=engine).obj, False


def _first(*args):
    return args[0][:1]


def choice(*args):
    return np.arange(args[0], args[1])[:1]


def exit_choice(*args):
    return np.arange(args[0], args[1])[-1:]


def op_signals(rng):
    n, c = int(rng.integers(2, 12)), int(rng.integers(1, 4))
    idx, cols = index_of(rng, n), list("abc")[:c]
    df = maybe_series(rng, pd.DataFrame(rng.random((n, c)) < 0.4, index=idx, columns=cols))
    other = maybe_series(rng, pd.DataFrame(rng.random((n, c)) < 0.4, index=idx, columns=cols))
    if other.ndim != df.ndim:
        other = ~df
    ts = price_frame(rng, n, c, nan=False)
    if df.ndim == 1:
        ts = ts.iloc[:, 0]
    b = lambda: bool(rng.integers(2))
    s = seeds(rng)
    w = int(rng.integers(0, 3))
    k = int(rng.integers(-2, 3))
    cls = type(df).vbt.signals if False else None
    shape = df.shape if df.ndim == 2 else (n,)
    acc = vbt.signals.accessors.SignalsSRAccessor if df.ndim == 1 else vbt.signals.accessors.SignalsDFAccessor
    wk = dict(index=idx, columns=cols) if df.ndim == 2 else dict(index=idx)
    stop = pick(rng, [0.05, 0.1])
    ops = [("clean", (other,), dict(entry_first=b())), ("clean", (), {}), ("generate_random_exits", (), dict(seed=s, wait=w, prob=pick(rng, [None, 0.5]), until_next=b(), skip_until_exit=b())),
           ("generate_stop_exits", (ts, stop), dict(trailing=b(), exit_wait=w, until_next=b(), skip_until_exit=b(), pick_first=b())),
           ("generate_stop_exits", (ts, -stop), dict(chain=True, entry_wait=w + 1)),
           ("generate_ohlc_stop_exits", (ts,), dict(high=ts * 1.02, low=ts * 0.98, close=ts * 1.01, sl_stop=stop, sl_trail=b(), tp_stop=stop, reverse=b(), is_open_safe=b())),
           ("generate_ohlc_stop_exits", (ts,), dict(sl_stop=stop, chain=True)),
           ("between_ranges", (), {}), ("between_ranges", (), dict(other=other, from_other=b())), ("partition_ranges", (), dict(use_end_idxs=b())),
           ("between_partition_ranges", (), {}), ("pos_rank", (), dict(reset_by=pick(rng, [None, other]), after_false=b(), allow_gaps=b())),
           ("partition_pos_rank", (), dict(reset_by=pick(rng, [None, other]), after_false=b())), ("first", (), {}), ("nth", (pick(rng, [0, 1]),), {}), ("from_nth", (pick(rng, [0, 1]),), {}),
           ("nth_index", (k,), {}), ("norm_avg_index", (), {})]
    static = [("generate_random", (shape,), dict(n=pick(rng, [1, 2]), seed=s, **wk)), ("generate_random", (shape,), dict(prob=0.4, seed=s, pick_first=b(), **wk)),
              ("generate_random_both", (shape,), dict(entry_prob=0.5, exit_prob=pick(rng, [0.3, 1.0]), seed=s, **wk)), ("generate_random_both", (shape,), dict(n=1, seed=s, **wk)), ]
    cb = [("generate_exits", (exit_choice,), dict(wait=w)), ("rank", (lambda *a: 1,), {})]
    csts = [("generate", (shape, choice), dict(**wk)), ("generate_both", (shape,), dict(entry_choice_func=choice, exit_choice_func=exit_choice, **wk))]
    r = rng.random()
    call, on_class = r < 0.15, False
    if r < 0.07:
        name, args, kw = pick(rng, cb)
    elif r < 0.15:
        name, args, kw = pick(rng, csts)
        on_class = True
    elif r < 0.3:
        name, args, kw = pick(rng, static)
        on_class = True
    else:
        name, args, kw = pick(rng, ops)
    def run(engine):
        if on_class:
            return getattr(acc, name)(*args, engine=engine, **kw)
        return getattr(df.vbt.signals, name)(*args, engine=engine, **kw)
    return "signals." + name, run, call


def op_ranges(rng):
    df = maybe_series(rng, price_frame(rng))
    c = df.shape[1] if df.ndim == 2 else 1
    g = np.sort(rng.integers(0, 2, c)) if c > 1 and rng.random() < 0.5 else None
    k = int(rng.integers(6))
    b, b2 = bool(rng.integers(2)), bool(rng.integers(2))
    if k == 0:
        return "Drawdowns.from_ts", lambda e: vbt.Drawdowns.from_ts(df, engine=e), False
    if k == 1:
        mask = df > 10
        return "Ranges.from_ts", lambda e: vbt.Ranges.from_ts(mask, gap_value=False, engine=e), False
    if k == 2:
        return "Ranges.coverage", lambda e: vbt.Ranges.from_ts(df > 10, gap_value=False, engine=e).coverage(overlapping=b, normalize=b2, group_by=g, engine=e), False
    if k == 3:
        return "Ranges.to_mask", lambda e: vbt.Ranges.from_ts(df > 10, gap_value=False, engine=e).to_mask(group_by=g, engine=e), False
    names = ["duration", "drawdown", "decline_duration", "recovery_duration", "recovery_duration_ratio", "recovery_return"]
    n = pick(rng, names)
    def run(e):
        o = vbt.Drawdowns.from_ts(df, engine=e)
        return getattr(o, n)
    return "Drawdowns." + n, run, False


def op_mapped(rng):
    from vt import recs
    s = seeds(rng)
    k = pick(rng, ["sort", "is_sorted", "top_n_mask", "bottom_n_mask", "is_expandable", "to_pd", "to_pd_stack", "value_counts", "select", "rsort", "ris_sorted", "cmap", "crange", "csorted"])
    n, c = int(rng.integers(2, 10)), int(rng.integers(1, 5))
    b = bool(rng.integers(2))
    num = int(rng.integers(1, 4))
    cols = rng.integers(0, c, int(rng.integers(1, c + 1)))
    cols = np.array(list(dict.fromkeys(int(x) for x in cols)))
    def run(e):
        r = np.random.default_rng(s)
        w = recs.wrapper(r, n, c, grouped=False, ndim=2)
        arr = recs.records(r, w, unique_pos=k == "to_pd")
        ro = vbt.records.Records(w, arr, engine=e)
        if k in ("rsort", "ris_sorted"):
            return ro.sort(incl_id=b, engine=e) if k == "rsort" else ro.is_sorted(incl_id=b, engine=e)
        fld = [f for f in arr.dtype.names if f not in ("id", "col", "idx")][0]
        m = ro.map_field(fld)
        m = vbt.MappedArray(w, m.values.astype(np.float64), m.col_arr, id_arr=m.id_arr, idx_arr=m.idx_arr, engine=e)
        if k == "sort":
            return m.sort(incl_id=b, engine=e)
        if k == "is_sorted":
            return m.is_sorted(incl_id=b, engine=e)
        if k in ("top_n_mask", "bottom_n_mask"):
            return getattr(m, k)(num, engine=e)
        if k == "is_expandable":
            return m.is_expandable(engine=e) if m.idx_arr is not None else None
        if k == "to_pd":
            return m.to_pd(engine=e) if m.idx_arr is not None else None
        if k == "to_pd_stack":
            return m.to_pd(ignore_index=True, engine=e)
        if k == "value_counts":
            return m.value_counts(engine=e)
        if k == "select":
            return (m.iloc[cols], ro.iloc[cols])
        if k == "cmap":
            return tuple(ro.col_mapper.get_col_map(engine=e))
        if k == "crange":
            return ro.sort(engine=e).col_mapper.get_col_range(engine=e)
        return bool(ro.col_mapper.is_sorted(engine=e))
    return "records." + k, run, False


def op_indicator(rng):
    df = price_frame(rng, n=int(rng.integers(3, 14)), nan=False)
    ts = maybe_series(rng, df)
    hi, lo = ts * 1.02, ts * 0.98
    w = [int(x) for x in rng.integers(1, 5, int(rng.integers(1, 3)))]
    ewm = bool(rng.integers(2))
    adj = bool(rng.integers(2))
    vol = ts.round() * 10
    lower = pick(rng, ["MA", "MSTD", "BBANDS", "RSI", "STOCH", "MACD", "ATR", "OBV", "FMEAN", "FSTD", "FMIN", "FMAX", "FIXLB", "MEANLB", "LEXLB", "TRENDLB", "BOLB",
                       "RAND", "RANDX", "RANDNX", "RPROB", "RPROBX", "RPROBCX", "RPROBNX", "STX", "STCX", "OHLCSTX", "OHLCSTCX"])
    s = seeds(rng)
    en = ts > ts.shift(1)
    def run(e):
        r = np.random.default_rng(s)
        if lower == "MA":
            return vbt.MA.run(ts, w, ewm=ewm, adjust=adj, engine=e)
        if lower == "MSTD":
            return vbt.MSTD.run(ts, w, ewm=ewm, adjust=adj, engine=e)
        if lower == "BBANDS":
            return vbt.BBANDS.run(ts, w, ewm=ewm, alpha=[1.5, 2.0][:len(w)], adjust=adj, engine=e)
        if lower == "RSI":
            return vbt.RSI.run(ts, w, ewm=ewm, adjust=adj, engine=e)
        if lower == "STOCH":
            return vbt.STOCH.run(hi, lo, ts, w, d_window=2, d_ewm=ewm, adjust=adj, engine=e)
        if lower == "MACD":
            return vbt.MACD.run(ts, fast_window=2, slow_window=w, signal_window=2, macd_ewm=ewm, signal_ewm=not ewm, adjust=adj, engine=e)
        if lower == "ATR":
            return vbt.ATR.run(hi, lo, ts, w, ewm=ewm, adjust=adj, engine=e)
        if lower == "OBV":
            return vbt.OBV.run(ts, vol, engine=e)
        if lower in ("FMEAN", "FSTD"):
            return getattr(vbt, lower).run(ts, w, ewm=ewm, wait=1, adjust=adj, engine=e)
        if lower in ("FMIN", "FMAX"):
            return getattr(vbt, lower).run(ts, w, wait=1, engine=e)
        if lower == "FIXLB":
            return vbt.FIXLB.run(ts, w, engine=e)
        if lower == "MEANLB":
            return vbt.MEANLB.run(ts, w, ewm=ewm, adjust=adj, engine=e)
        if lower == "LEXLB":
            return vbt.LEXLB.run(ts, [0.05], [0.04], engine=e)
        if lower == "TRENDLB":
            return vbt.TRENDLB.run(ts, [0.05], [0.04], mode=int(r.integers(0, 4)), engine=e)
        if lower == "BOLB":
            return vbt.BOLB.run(ts, w, pos_th=0.05, neg_th=0.04, engine=e)
        sh = ts.shape
        kw = dict(input_index=ts.index) if ts.ndim == 1 else dict(input_index=ts.index, input_columns=ts.columns)
        if lower == "RAND":
            return vbt.RAND.run(n=[1, 2], input_shape=sh, seed=s, engine=e, **kw)
        if lower == "RPROB":
            return vbt.RPROB.run(prob=[0.3, 0.6], input_shape=sh, seed=s, engine=e, **kw)
        if lower == "RANDNX":
            return vbt.RANDNX.run(n=1, input_shape=sh, seed=s, engine=e, **kw)
        if lower == "RPROBNX":
            return vbt.RPROBNX.run(entry_prob=0.5, exit_prob=[0.3, 1.0], input_shape=sh, seed=s, engine=e, **kw)
        if lower == "RANDX":
            return vbt.RANDX.run(en, seed=s, engine=e)
        if lower in ("RPROBX", "RPROBCX"):
            return getattr(vbt, lower).run(en, prob=[0.4, 1.0], seed=s, engine=e)
        if lower in ("STX", "STCX"):
            return getattr(vbt, lower).run(en, ts, stop=[0.03, -0.02], trailing=adj, engine=e)
        return getattr(vbt, lower).run(en, ts, hi, lo, ts, sl_stop=[0.02, 0.03], tp_stop=0.03, sl_trail=adj, engine=e)
    return lower, run, False


def op_portfolio(rng):
    n, c = int(rng.integers(2, 10)), int(rng.integers(1, 4))
    close = price_frame(rng, n, c, nan=False)
    s = seeds(rng)
    kind = pick(rng, ["orders", "signals", "ls", "stops", "func"])
    g = np.sort(rng.integers(0, 2, c)) if c > 1 and rng.random() < 0.6 else None
    share = g is not None and rng.random() < 0.5
    seq = pick(rng, ["default", "reversed", "random", "auto"])
    member = pick(rng, [None, "asset_flow", "assets", "cash_flow", "cash", "asset_value", "gross_exposure", "value", "total_profit", "final_value", "total_return", "returns",
                        "asset_returns", "benchmark_value", "benchmark_returns", "total_benchmark_return", "get_init_cash", "entry_trades", "exit_trades", "positions",
                        "drawdowns", "sharpe_ratio", "stats", "sim_order", "sim_order"])
    share = share or member == "sim_order" and g is not None
    size = np.round(rng.normal(0, 2, (n, c)), 1)
    en, ex = rng.random((n, c)) < 0.3, rng.random((n, c)) < 0.3
    en2, ex2 = rng.random((n, c)) < 0.3, rng.random((n, c)) < 0.3
    log = bool(rng.integers(2))
    where = pick(rng, ["arg", "obj"])
    regroup = pick(rng, [None, None, "yes"]) if not share else None
    def run(e):
        kw = dict(fees=0.001, slippage=0.001, log=log, init_cash=100.0, group_by=g, cash_sharing=share, seed=s, freq="1D", call_seq=seq, size_granularity=pick(np.random.default_rng(s), [np.nan, 0.1]))
        if seq == "auto" and not share:
            kw["call_seq"] = "default"
        # a random call sequence is drawn by either engine's own stream
        if kw["call_seq"] == "random":
            kw["call_seq"] = "reversed"
        if kind == "orders":
            p = vbt.Portfolio.from_orders(close, size, engine=e, **kw)
        elif kind == "signals":
            p = vbt.Portfolio.from_signals(close, en, ex, size=1.0, engine=e, accumulate=log, **kw)
        elif kind == "ls":
            p = vbt.Portfolio.from_signals(close, en, ex, en2, ex2, size=1.0, engine=e, **kw)
        elif kind == "stops":
            p = vbt.Portfolio.from_signals(close, en, ex, size=1.0, sl_stop=0.05, tp_stop=0.1, sl_trail=log, open=close * 0.99, high=close * 1.03, low=close * 0.97, engine=e, **kw)
        else:
            if e == "rust":
                raise ValueError("callbacks")
            p = vbt.Portfolio.from_orders(close, size, engine=e, **{**kw, "size_granularity": np.nan})
        if member is None:
            return p
        kw2 = {}
        if regroup and c > 1:
            kw2["group_by"] = np.array([0] * (c - 1) + [1])
        if member == "sim_order":
            return (p.cash(in_sim_order=True), p.value(in_sim_order=True), p.returns(in_sim_order=True)) if share else None
        if member in ("entry_trades", "exit_trades", "positions", "drawdowns"):
            return getattr(p, member)
        if member == "stats":
            return p.stats(silence_warnings=True, agg_func=None)
        if member == "sharpe_ratio":
            return p.sharpe_ratio()
        if where == "arg":
            kw2["engine"] = e
        if member in ("asset_flow", "assets", "asset_value"):
            kw2.pop("group_by", None)
        return getattr(p, member)(**kw2)
    return f"Portfolio.{member or 'sim'}:{kind}", run, False


class EngineLost(Exception):
    pass


def op_member(rng):
    """Any public member of an object carrying an engine."""
    s = seeds(rng)
    kind = pick(rng, ["pf", "orders", "logs", "exit_trades", "entry_trades", "positions", "drawdowns", "col_mapper", "mapped", "returns", "generic", "signals", "ranges"])
    part = pick(rng, ["whole", "whole", "column", "group"])
    skip = ("plot", "plots", "stats", "returns_stats", "save", "dumps", "config", "shuffle")
    name = []
    def build(e):
        r = np.random.default_rng(s)
        close = price_frame(r, n=8, c=3, nan=False)
        if kind in ("returns", "generic", "signals", "ranges"):
            if kind == "returns":
                rets = close.pct_change()
                return rets.vbt.returns(engine=e, freq="1D", benchmark_rets=rets * 0.5)
            if kind == "generic":
                return close.vbt(engine=e)
            if kind == "signals":
                return (close > close.shift(1)).vbt.signals(engine=e)
            return vbt.Ranges.from_ts(close > 10, gap_value=False, engine=e)
        p = vbt.Portfolio.from_orders(close, np.round(r.normal(0, 2, close.shape), 1), engine=e, freq="1D", log=True, fees=0.01)
        if part == "column":
            p = p["a"]
        elif part == "group":
            p = p.replace(wrapper=p.wrapper.replace(group_by=np.array([0, 0, 1])))
        if kind == "pf":
            return p
        if kind == "col_mapper":
            return p.orders.col_mapper
        if kind == "mapped":
            return p.exit_trades.map_field("pnl")
        return getattr(p, kind)
    o = build("numba")
    names = [n for n in sorted(dir(type(o))) if not n.startswith("_") and not any(x in n for x in skip) and n not in ("plot_cum_returns",)]
    n = pick(rng, names)
    def run(e):
        v = getattr(build(e), n)
        if callable(v) and not hasattr(v, "wrapper"):
            v = v()
        if hasattr(v, "engine") and not isinstance(v, type) and hasattr(v, "wrapper") and kind not in ("generic", "signals", "returns") and v.engine != e:
            raise EngineLost(f"engine {v.engine!r} instead of {e!r} in {type(v).__name__}")
        return v
    return f"{kind}.{n}", run, None


OPS = [(op_generic, 4), (op_returns, 3), (op_from_value, 0.3), (op_signals, 3), (op_ranges, 1), (op_mapped, 1.5), (op_indicator, 3), (op_portfolio, 3)]
W = np.array([x[1] for x in OPS])


def draw(rng):
    return OPS[int(rng.choice(len(OPS), p=W / W.sum()))][0](rng)


def undispatched(name, kw_group):
    """Computed without any engine: plain reductions of whole columns and no-ops."""
    return name in ("returns.daily", "returns.annual") or not kw_group and name in (
        "generic.min", "generic.max", "generic.mean", "generic.median", "generic.sum", "generic.count", "generic.std", "generic.idxmin", "generic.idxmax", "generic.describe")


def close_enough(a, b):
    """Single-precision input: the native engine computes in double precision."""
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(close_enough(x, y) for x, y in zip(a, b))
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    return x.shape == y.shape and bool(np.allclose(x, y, rtol=1e-3, atol=1e-4, equal_nan=True))


def is_random(name):
    return any(x in name for x in ("RAND", "RPROB", "random", "shuffle"))


@monitor(8, modes=("pure",))
def choices(ctx):
    """One operation, every engine choice, in a world without and in a world with a native engine."""
    rng = ctx.rng
    from vectorbt._settings import settings
    for _ in range(4):
        name, run, callback = draw(rng)
        info = dict(operation=name)
        single = name.endswith("@f4")
        bare = undispatched(name.split("@")[0], "@group" in name)
        kind, base = outcome(run, "numba")
        if kind == "error":
            # an operation invalid for this input fails for its own reason under every choice
            ctx.seen("invalid")
            ctx.state.setdefault("e01_invalid", {})[name] = repr(base)[:200]
            k2, b2 = outcome(run, None)
            ctx.check(k2 == "error" and type(b2) is type(base), "an invalid call fails alike", **info, numba=repr(base)[:200], default=repr(b2)[:200])
            continue
        for e in (None, "auto"):
            k, r = outcome(run, e)
            ctx.check(k == "ok", "engine choice fails", engine=e, **info, error=repr(r)[:300] if k != "ok" else "")
            if k == "ok":
                d = unlike(plain(base), plain(r))
                ctx.check(d is None, "engine choice changes the result", engine=e, **info, difference=d)
        k, r = outcome(run, "rust")
        if not name.endswith(":func") and not bare:
            ctx.check(k == "error" and isinstance(r, ImportError), "a missing engine is reported", **info, got=repr(r)[:200])
        bogus = pick(rng, ["cuda", "NUMBA", ""])
        k, r = outcome(run, bogus)
        ctx.check(bare or k == "error" and isinstance(r, ValueError) and "engine" in str(r).lower(), "an unknown engine is reported", engine=bogus, **info, got=repr(r)[:200])
        ctx.seen("missing_engine")
        # the global setting
        old = settings["engine"]
        try:
            settings["engine"] = "numba"
            k, r = outcome(run, None)
            ctx.check(k == "ok" and unlike(plain(base), plain(r)) is None, "global engine changes the result", **info, got=repr(r)[:200])
            if not is_random(name) and not bare:
                settings["engine"] = "cuda"
                k, r = outcome(run, None)
                ctx.check(k == "error" and isinstance(r, ValueError), "an unknown global engine is reported", **info, got=repr(r)[:200])
                settings["engine"] = "rust"
                k, r = outcome(run, None)
                if not name.endswith(":func"):
                    ctx.check(k == "error" and isinstance(r, ImportError), "a missing global engine is reported", **info, got=repr(r)[:200])
                k, r = outcome(run, "numba")
                ctx.check("stats" in name or k == "ok" and unlike(plain(base), plain(r)) is None, "an explicit engine wins over the global one", **info, got=repr(r)[:200])
        finally:
            settings["engine"] = old
        # the same with an engine installed
        with native(ctx) as nat:
            k, r = outcome(run, "numba")
            ctx.check(k == "ok" and unlike(plain(base), plain(r)) is None, "numba result depends on the other engine", **info, got=repr(r)[:200])
            ctx.check("stats" in name or not nat.calls, "explicit numba is overruled", **info, calls=nat.calls[:5])
            nat.calls.clear()
            k, r = outcome(run, "auto")
            ctx.check(k == "ok", "automatic choice fails where numba works", **info, error=repr(r)[:300])
            auto = list(nat.calls)
            if k == "ok":
                d = unlike(plain(base), plain(r))
                if d and single and close_enough(plain(base), plain(r)):
                    d = None
                ctx.check(d is None, "automatic choice changes the result", **info, difference=d, calls=auto[:8])
            if is_random(name) and not name.startswith("Portfolio"):
                ctx.check(not [x for x in auto if "rand" in x or "shuffle" in x], "random streams stay with numba by default", **info, calls=auto[:5])
            nat.calls.clear()
            k, r = outcome(run, "rust")
            ctx.seen("native_calls", len(auto) + len(nat.calls))
            if k == "ok":
                d = unlike(plain(base), plain(r))
                if d and (is_random(name) or single and close_enough(plain(base), plain(r))):
                    d = None  # every engine has its own random streams
                ctx.check(d is None, "explicit native engine changes the result", **info, difference=d, calls=nat.calls[:8])
                ctx.check(not callback, "callbacks cannot go native", **info)
                ctx.nontrivial(name, tuple(sorted(set(nat.calls))))
            else:
                ctx.check(isinstance(r, ValueError), "unsupported calls are reported as such", **info, error=repr(r)[:300])
                ctx.seen("unsupported")
        ctx.seen("operations")


@monitor(3, modes=("pure",))
def members(ctx):
    """Everything reached from an object uses the engine the object was given."""
    rng = ctx.rng
    for _ in range(6):
        name, run, _ = op_member(rng)
        info = dict(member=name)
        kind, base = outcome(run, "numba")
        if kind == "error":
            ctx.check(not isinstance(base, EngineLost), "an object loses its engine", **info, error=repr(base)[:200])
            ctx.seen("invalid_members")
            continue
        with native(ctx) as nat:
            k, r = outcome(run, "numba")
            ctx.check(not nat.calls, "the object's engine is overruled", **info, calls=nat.calls[:5])
            nat.calls.clear()
            k, r = outcome(run, "auto")
            ctx.check(k == "ok", "automatic choice fails where numba works", **info, error=repr(r)[:300])
            a, b = plain(base), plain(r)
            if k == "ok" and not is_random(name) and isinstance(b, (pd.Series, pd.DataFrame, np.ndarray, tuple, float, int)):
                d = unlike(a, b)
                ctx.check(d is None, "automatic choice changes the result", **info, difference=d, calls=nat.calls[:8])
            if nat.calls:
                ctx.nontrivial(name)
            ctx.seen("members")


# --------------------------------------------------------------------------------------------- kernels behind the wrappers

ENUMS = dict(size_type=6, direction=3, call_seq_type=2, mode=5, status=3, status_info=5)


def source_annotations(mod):
    """Annotations as written (`tp.Array1d` and `tp.Array2d` are the same class at run time)."""
    import ast
    out = {}
    d = importlib.import_module(f"vectorbt.{mod}.dispatch")
    for f in ast.parse(inspect.getsource(d)).body:
        if isinstance(f, ast.FunctionDef):
            out[f.name] = {a.arg: ast.unparse(a.annotation) if a.annotation else "" for a in f.args.args + f.args.kwonlyargs}
    return out


def lens_of(fname, c):
    """The same grouping in every argument of a call."""
    if "uniform" in fname:
        return np.array([1] * c) if c % 2 else np.array([2] * (c // 2))
    return np.array([1, c - 1]) if c > 1 else np.array([1])


def valid(rng, mod, fname, name, ann, shape):
    n, c = shape
    two = "Array2d" in ann
    if name in ("shape", "input_shape", "target_shape"):
        return shape
    if name in ENUMS and "Array" not in ann:
        return int(rng.integers(ENUMS[name]))
    if "bool" in ann and "List" not in ann or name in BOOLS and ann == "":
        return bool(rng.integers(2))
    if name in ("col", "group", "from_col"):
        return 0
    if name == "to_col":
        return c
    if name == "n_cols":
        return c
    if name in ("n_uniques",):
        return 3
    if name in ("codes",):
        return rng.integers(0, 3, shape if two else n)
    if name == "group_lens":
        return lens_of(fname, c)
    if name in ("init_cash", "total_profit", "last_position", "last_val_price", "init_value") and "Array1d" in ann:
        return np.round(rng.random(c) * 100, 1)
    if name == "init_cash_grouped":
        return np.round(rng.random(len(lens_of(fname, c))) * 100, 1)
    if name.endswith("_grouped"):
        return np.round(rng.random((n, len(lens_of(fname, c)))) * 10, 2)
    if name in ("cutoff", "entry_prob", "exit_prob", "prob") and "Array" not in ann:
        return float(rng.random())
    if name in ("entry_prob", "exit_prob", "prob"):
        return rng.random((1, 1))
    if name == "n" and mod == "signals" and "Array" in ann:
        return np.ones(c, dtype=np.int64)
    if name == "index_lens":
        return np.full(c, n)
    if name == "minp":
        return 1
    if name == "call_seq":
        return np.zeros(shape, dtype=np.int64) + np.arange(c)
    if name in ("col_arr",):
        return np.sort(rng.integers(0, c, n))
    if name == "id_arr":
        return np.arange(n)
    if name == "idx_arr":
        return np.arange(n)
    if name in ("start_idx_arr",):
        return np.arange(n)
    if name in ("valley_idx_arr", "end_idx_arr"):
        return np.arange(n) + 1
    if name == "status_arr":
        return rng.integers(0, 2, n)
    if name == "new_cols":
        return rng.integers(0, c, 2)
    if name in ("col_map",):
        lens = np.bincount(np.sort(rng.integers(0, c, n)), minlength=c)
        return np.arange(n), lens
    if name == "col_range":
        lens = np.bincount(np.sort(rng.integers(0, c, n)), minlength=c)
        e = np.cumsum(lens)
        return np.column_stack([e - lens, e]).astype(np.int64)
    if name in ("entries", "exits", "mask", "reset_by", "b") or mod == "signals" and name == "a":
        return rng.random(shape if two else n) < 0.5
    if name == "local_extrema":
        out = np.zeros(shape, dtype=np.int64)
        out[0] = -1
        out[-1] = 1
        return out
    if name in ("pos_th", "neg_th"):
        return np.full((1, 1), 0.05)
    if name in ("seed",):
        return None if rng.random() < 0.5 else int(rng.integers(1000))
    if name in ("perc",):
        return np.array([0.1, 0.5])
    if name == "arr2" or name == "arr1":
        return np.round(rng.normal(0, 1, shape if two else n), 1)
    if "Array" in ann:
        a = np.round(rng.random(shape if two else n) * 10 + 1, 2)
        if mod == "returns" and name in ("returns", "benchmark_rets"):
            a = a / 100 - 0.05
        if mod in ("generic", "returns", "labels") and rng.random() < 0.4 and a.ndim:
            a[rng.random(a.shape) < 0.2] = np.nan
        return a
    if "List" in ann:
        return [int(x) for x in rng.integers(1, 4, 2)] if "int" in ann else ([True, False] if "bool" in ann else [0.5, 1.0])
    if "int" in ann:
        return int(rng.integers(1, 5))
    if "float" in ann or ann == "" or "Scalar" in ann:
        return float(np.round(rng.random() * 3 + 0.1, 2))
    raise KeyError(name)


def call_copy(f, vals, **kw):
    vals = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vals.items()}
    r = f(**vals, **kw)
    return r, {k: v for k, v in vals.items() if isinstance(v, np.ndarray)}


@monitor(4, modes=("pure",))
def kernels(ctx):
    """Wrappers called directly: kernel, numba, default, automatic and native choice agree, also on what they write."""
    rng = ctx.rng
    for _ in range(2):
        mod = pick(rng, rsig.MODULES)
        _, fs = dispatchers(mod)
        nb = importlib.import_module(f"vectorbt.{mod}.nb")
        if "ann" not in ctx.state:
            ctx.state["ann"] = {}
        anns = ctx.state["ann"].setdefault(mod, None) or ctx.state["ann"].__setitem__(mod, source_annotations(mod)) or ctx.state["ann"][mod]
        for fname in sorted(fs):
            if rng.random() < 0.6:
                continue
            f = fs[fname]
            params = {k: p for k, p in inspect.signature(f).parameters.items() if k != "engine"}
            shape = (int(rng.integers(1, 9)), int(rng.integers(1, 4)))
            try:
                vals = {k: valid(rng, mod, fname, k, anns.get(fname, {}).get(k, ""), shape) for k, p in params.items()
                        if p.default is inspect.Parameter.empty or rng.random() < 0.6}
            except KeyError:
                continue
            vals.pop("seed", None) if "rand" not in fname and "shuffle" not in fname else None
            loose = rng.random() < 0.2
            if loose:  # smaller types, which the native engine takes after a conversion
                vals = {k: (v.astype({"f": np.float32, "i": np.int32}.get(v.dtype.kind, v.dtype)) if isinstance(v, np.ndarray) else v) for k, v in vals.items()}
            kind, base = outcome(call_copy, f, vals, engine="numba")
            name = f"{mod}.{fname}"
            if kind == "error":
                ctx.state.setdefault("e01_kernel", {})[name] = repr(base)[:100]
                ctx.seen("kernel_refused")
                continue
            base, written = base
            # only these take a seed in the interpreted kernel as well
            seeded = fname in ("generate_rand", "generate_rand_by_prob", "generate_rand_ex", "generate_rand_ex_by_prob", "generate_rand_enex",
                               "generate_rand_enex_by_prob", "shuffle", "shuffle_1d") and vals.get("seed") is not None or not ("rand" in fname or "shuffle" in fname)
            info = dict(function=name)
            kf = getattr(nb, fname + "_nb", None)
            if kf is not None and seeded and set(inspect.signature(kf).parameters) >= set(vals):
                k, r = outcome(call_copy, kf, {k: v for k, v in vals.items()})
                ctx.check(k == "ok", "the wrapper accepts what its kernel does not", **info, error=repr(r)[:200] if k != "ok" else "")
                if k == "ok" and all(p.default is inspect.Parameter.empty or x in vals for x, p in params.items()):
                    d = unlike(plain(base), plain(r[0])) or unlike(written, r[1])
                    ctx.check(d is None, "the wrapper's result is its kernel's", **info, difference=d)
            def compare(choice, world):
                k, r = outcome(call_copy, f, vals, engine=choice)
                if k == "error":
                    if choice == "rust" and world == "present":
                        ctx.check(isinstance(r, (ValueError, NotImplementedError)) , "native choice of an unsupported call", **info, error=repr(r)[:200])
                        return
                    if isinstance(r, NotImplementedError):
                        return
                    ctx.fail("engine choice fails", engine=choice, world=world, **info, error=repr(r)[:300])
                    return
                if not seeded or choice == "rust" and ("rand" in fname or "shuffle" in fname):
                    return
                if loose and choice != "numba" and world == "present":
                    return  # computed in double precision
                d = unlike(plain(base), plain(r[0])) or unlike(written, r[1])
                ctx.check(d is None, "engine choice changes the result", engine=choice, world=world, **info, difference=d)
            compare(None, "missing")
            compare("auto", "missing")
            k, r = outcome(call_copy, f, vals, engine="rust")
            ctx.check(k == "error" and isinstance(r, ImportError), "a missing engine is reported", **info, got=repr(r)[:200])
            with native(ctx) as nat:
                compare("auto", "present")
                if nat.calls:
                    ctx.nontrivial(name)
                compare("rust", "present")
                nat.calls.clear()
                compare("numba", "present")
                ctx.check(not nat.calls, "explicit numba is overruled", **info, calls=nat.calls[:3])
            ctx.seen("kernels")
