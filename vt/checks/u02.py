"""U02: saving and loading, copying and replacing preserve objects; deep equality tells different objects apart."""
import copy
import inspect
import os
import pickle
import subprocess
import sys
import tempfile
import warnings
import dill
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.base.column_grouper import ColumnGrouper
from vectorbt.records.col_mapper import ColumnMapper
from vectorbt.utils.checks import is_deep_equal
from vectorbt.utils.config import Config, Configured, Pickleable, PickleableDict, AtomicConfig, atomic_dict
from vt import gen
from vt.core import monitor, Skip
from vt.gen import pick
from vt.checks.d01 import quiet
from vt.checks.d02 import Feed

NAN = np.nan


class Sub(Config):
    pass


# ---------------------------------------------------------------- strict comparison

def unlike(a, b, depth=0):
    """None if b is the same as a in type, content, labels and settings; else what differs."""
    if a is b:
        return None
    if type(a) is not type(b):
        return f"type {type(b).__name__} for {type(a).__name__}"
    if depth > 12:
        return None
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return f"array {b.dtype}{b.shape} for {a.dtype}{a.shape}"
        if a.dtype == object:
            for x, y in zip(a.ravel(), b.ravel()):
                d = unlike(x, y, depth + 1)
                if d:
                    return d
            return None
        if a.dtype.names:
            for f in a.dtype.names:
                d = unlike(a[f], b[f], depth + 1)
                if d:
                    return f"field {f}: {d}"
            return None
        eq = (a == b) if a.dtype.kind not in "fcmM" else (a == b) | ((a != a) & (b != b))
        return None if np.all(eq) else f"array values {b} for {a}"
    if isinstance(a, pd.MultiIndex):
        if list(a.names) != list(b.names) or len(a) != len(b) or a.nlevels != b.nlevels:
            return f"index {b} for {a}"
        return next((d for i in range(a.nlevels) for d in [unlike(a.get_level_values(i), b.get_level_values(i), depth + 1)] if d), None)
    if isinstance(a, pd.Index):
        if a.name != b.name or a.dtype != b.dtype or len(a) != len(b):
            return f"index {b} for {a}"
        if isinstance(a, pd.DatetimeIndex) and a.freq != b.freq:
            return f"index freq {b.freq} for {a.freq}"
        return None if a.equals(b) else f"index {b} for {a}"
    if isinstance(a, pd.Series):
        if a.name != b.name or a.dtype != b.dtype:
            return f"series {b.name} {b.dtype} for {a.name} {a.dtype}"
        return unlike(a.index, b.index, depth + 1) or unlike(a.to_numpy(), b.to_numpy(), depth + 1)
    if isinstance(a, pd.DataFrame):
        return unlike(a.index, b.index, depth + 1) or unlike(a.columns, b.columns, depth + 1) or next(
            (d for i in range(a.shape[1]) for d in [unlike(a.iloc[:, i].to_numpy(), b.iloc[:, i].to_numpy(), depth + 1)] if d), None)
    if isinstance(a, Config):
        for f in ("copy_kwargs_", "reset_dct_copy_kwargs_", "frozen_keys_", "readonly_", "nested_", "convert_dicts_", "as_attrs_"):
            d = unlike(getattr(a, f), getattr(b, f), depth + 1)
            if d:
                return f"{f}: {d}"
        d = unlike(dict(a.reset_dct_), dict(b.reset_dct_), depth + 1)
        if d:
            return f"checkpoint: {d}"
    if isinstance(a, dict):
        if list(a) != list(b):
            return f"keys {list(b)} for {list(a)}"
        for k in a:
            d = unlike(a[k], b[k], depth + 1)
            if d:
                return f"[{k!r}] {d}"
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"length {len(b)} for {len(a)}"
        return next((f"[{i}] {d}" for i, (x, y) in enumerate(zip(a, b)) for d in [unlike(x, y, depth + 1)] if d), None)
    if isinstance(a, Configured):
        d = unlike(a.config, b.config, depth + 1)
        if d:
            return f"{type(a).__name__}.{d}"
        for at in ("_metrics", "_subplots"):
            x, y = getattr(a, at, None), getattr(b, at, None)
            if x is not None and list(x) != list(y):
                return f"{at}: {list(y)} for {list(x)}"
        return None
    if isinstance(a, (float, np.floating)):
        return None if a == b or (a != a and b != b) else f"{b!r} for {a!r}"
    if isinstance(a, (int, str, bytes, bool, type(None), np.generic, pd.Timestamp, pd.Timedelta, set, frozenset)):
        return None if a == b or a is pd.NaT and b is pd.NaT else f"{b!r} for {a!r}"
    return None  # functions and other opaque values


# ---------------------------------------------------------------- objects

def base_frame(rng, c=None):
    n = int(rng.integers(4, 14))
    c = c or int(rng.integers(1, 5))
    p = gen.prices(rng, n, c, kind="walk", nan=False)
    cols = gen.columns(rng, c)
    df = pd.DataFrame(p, index=gen.dt_index(rng, n), columns=cols)
    return df


def groups(rng, c):
    return pick(rng, [None, True, np.sort(rng.integers(0, 3, c))]) if c > 1 else None


def mk_config(rng):
    return draw_config(rng)


def mk_portfolio(rng):
    df = base_frame(rng)
    c = df.shape[1]
    kind = pick(rng, ["orders", "signals", "holding"])
    kw = dict(fees=pick(rng, [0.0, 0.01]), init_cash=pick(rng, [100.0, 50.0, "auto"]) if kind == "orders" else 100.0, freq=pick(rng, [None, "D"]))
    g = groups(rng, c)
    if g is not None:
        kw.update(group_by=g, cash_sharing=bool(rng.random() < 0.5) and kw["init_cash"] != "auto")
    if kind == "orders":
        return vbt.Portfolio.from_orders(df, rng.normal(0, 1, df.shape), log=True, **kw)
    if kind == "signals":
        return vbt.Portfolio.from_signals(df, rng.random(df.shape) < 0.3, rng.random(df.shape) < 0.3, **kw)
    return vbt.Portfolio.from_holding(df, **kw)


def mk_records(rng):
    pf = mk_portfolio(rng)
    k = pick(rng, ["orders", "trades", "positions", "logs", "drawdowns", "entry_trades"])
    return getattr(pf, k)


def mk_mapped(rng):
    r = mk_records(rng)
    f = pick(rng, ["id", "col"] + [x for x in ("size", "pnl", "price", "status") if x in r.values.dtype.names])
    return r.map_field(f)


def mk_wrapper(rng):
    df = base_frame(rng)
    w = df.vbt.wrapper.replace(freq=pick(rng, [None, "D", "2h"]))
    g = groups(rng, df.shape[1])
    return w.replace(group_by=g, allow_enable=bool(rng.random() < 0.5)) if g is not None else w


def mk_grouper(rng):
    c = int(rng.integers(1, 6))
    return ColumnGrouper(gen.columns(rng, c), group_by=groups(rng, c), allow_modify=bool(rng.random() < 0.5))


def mk_mapper(rng):
    w = mk_wrapper(rng)
    return ColumnMapper(w, np.sort(rng.integers(0, w.shape_2d[1], int(rng.integers(0, 12)))))


def mk_data(rng):
    syms = ["a", "b", "c"][:int(rng.integers(1, 4))]
    if rng.random() < 0.5:
        return Feed.download(syms if rng.random() < 0.7 else syms[0], n=int(rng.integers(2, 6)))
    return vbt.GBMData.download(syms, start="2020-01-01", end="2020-01-06", seed=int(rng.integers(100)))


def mk_indicator(rng):
    df = base_frame(rng)
    k = pick(rng, ["MA", "BBANDS", "RSI", "ATR", "RAND", "FIXLB", "STX"])
    if k == "MA":
        return vbt.MA.run(df, window=[2, 3], ewm=[False, True])
    if k == "BBANDS":
        return vbt.BBANDS.run(df, window=2)
    if k == "RSI":
        return vbt.RSI.run(df, window=[2, 3], short_name="r")
    if k == "ATR":
        return vbt.ATR.run(df * 1.1, df * 0.9, df, window=2)
    if k == "RAND":
        return vbt.RAND.run(input_shape=df.shape, n=1, seed=3, input_index=df.index, input_columns=df.columns)
    if k == "STX":
        return vbt.STX.run(df > df.iloc[0], df, stop=0.1)
    return vbt.FIXLB.run(df, n=2)


Custom = vbt.IndicatorFactory(class_name="Custom", module_name=__name__, short_name="cu", input_names=["x"], param_names=["k"], output_names=["y"],
                              attr_settings=dict(y=dict(dtype=np.float64))).from_apply_func(lambda x, k: x * k)


def mk_custom(rng):
    return Custom.run(base_frame(rng), k=[1, 2])


def mk_accessor(rng):
    df = base_frame(rng)
    if rng.random() < 0.5:
        df = df.iloc[:, 0]
    k = pick(rng, ["vbt", "returns", "signals", "ohlcv"])
    if k == "vbt":
        return df.vbt(freq="D") if rng.random() < 0.5 else df.vbt
    if k == "returns":
        return df.pct_change().vbt.returns(year_freq="100 days", defaults=dict(risk_free=0.01))
    if k == "signals":
        return (df > df.iloc[0]).vbt.signals
    return df.vbt


def mk_updater(rng):
    return vbt.DataUpdater(mk_data(rng))


MAKERS = [mk_config, mk_config, mk_portfolio, mk_portfolio, mk_records, mk_records, mk_mapped, mk_wrapper, mk_grouper, mk_mapper, mk_data, mk_indicator, mk_custom, mk_accessor]


def draw_value(rng, depth=0):
    k = int(rng.integers(0, 16 if depth < 3 else 12))
    n = int(rng.integers(0, 4))
    if k == 0:
        return rng.normal(size=n + 1)
    if k == 1:
        a = rng.normal(size=(2, n))
        a[rng.random(a.shape) < 0.3] = NAN
        return a
    if k == 2:
        return pd.Series(rng.integers(0, 9, n), index=pd.date_range("2020", periods=n, freq="D"), name=pick(rng, [None, "s"]))
    if k == 3:
        return pd.DataFrame(rng.normal(size=(n, 2)), columns=pick(rng, [["a", "b"], pd.MultiIndex.from_tuples([(1, "x"), (2, "y")], names=["p", None])]))
    if k == 4:
        return pd.Index(list("abcdef"[:n]), name=pick(rng, [None, "i"]))
    if k == 5:
        return pick(rng, [1, 0, True, None, "s", 1.5, NAN, b"x", pd.Timestamp("2020-01-01"), pd.Timedelta("1D"), np.int64(3), np.float64(2.5), float("inf")])
    if k == 6:
        return np.array([(1, 2.5), (2, NAN)], dtype=[("id", np.int64), ("v", np.float64)])
    if k == 7:
        return pick(rng, [np.array(3.0), np.array(["a", "b"]), np.array([1, "x", None], dtype=object), np.array([True, False])])
    if k == 8:
        return len
    if k in (9, 10):
        return int(rng.integers(0, 5))
    if k == 11:
        return {1, 2, int(rng.integers(9))}
    if k == 12:
        return [draw_value(rng, depth + 1) for _ in range(n)]
    if k == 13:
        return tuple(draw_value(rng, depth + 1) for _ in range(n))
    if k == 14:
        return {q: draw_value(rng, depth + 1) for q in ["a", "b", 3, ("t", 1)][:n]}
    return draw_config(rng, depth + 1)


def draw_config(rng, depth=0):
    cls = pick(rng, [Config, Config, Sub, AtomicConfig, PickleableDict])
    keys = ["a", "b", "c", "d"][:int(rng.integers(1, 5))]
    if rng.random() < 0.2:
        keys.append(pick(rng, [0, (1, 2), None]))
    d = {k: draw_value(rng, depth) for k in keys}
    if cls is PickleableDict:
        return cls(d)
    kw = {f: bool(rng.random() < 0.5) for f in ("readonly", "frozen_keys", "nested") if rng.random() < 0.5}
    kw["as_attrs"] = bool(rng.random() < 0.5) and all(isinstance(k, str) for k in keys)
    if kw.get("nested") and rng.random() < 0.3:
        kw["convert_dicts"] = True
        kw["as_attrs"] = False
    if rng.random() < 0.4:
        kw["copy_kwargs"] = dict(copy_mode=pick(rng, ["shallow", "hybrid", "deep"]))
    if rng.random() < 0.3:
        kw["reset_dct"] = {"a": draw_value(rng, 3)}
    c = cls(d, **kw)
    if rng.random() < 0.4:
        c.update({keys[0]: draw_value(rng, 3)}, nested=False, force=True)
    return c


NO = {"str", "cat", "dt", "plot", "iloc", "loc", "xs", "sparse", "list", "struct", "plotting"}


def results(o, names):
    out = {}
    for nm in names:
        try:
            out[nm] = getattr(o, nm)
            if callable(out[nm]) and not isinstance(out[nm], Configured):
                out[nm] = out[nm]()
        except Exception as e:
            out[nm] = ("EXC", type(e).__name__)
    return out


METHODS = {
    "Portfolio": ["total_profit", "asset_flow", "assets", "cash", "value", "returns", "total_return", "asset_value", "trades", "stats", "max_drawdown"],
    "MappedArray": ["min", "max", "mean", "count", "to_pd", "describe", "apply_mapping", "stats"],
    "Data": ["get", "stats"],
}


def probes(rng, o):
    """Names of properties (and known argument-free methods) to be evaluated on an object and its copy."""
    props = [n for n, _ in inspect.getmembers(type(o), lambda m: isinstance(m, (property, vbt.utils.decorators.custom_property))) if not n.startswith("_") and n not in NO
             and n not in ("config", "metrics", "subplots", "self_aliases", "writeable_attrs")]
    k = min(len(props), 6)
    out = [props[int(i)] for i in rng.choice(len(props), k, replace=False)] if k else []
    for cls in type(o).__mro__:
        ms = METHODS.get(cls.__name__)
        if ms:
            out += [pick(rng, ms), pick(rng, ms)]
    if hasattr(o, "records") and rng.random() < 0.5:
        out.append("records_readable")
    if hasattr(o, "stats") and rng.random() < 0.3:
        out.append("stats")
    return out


def compare_objects(ctx, o, r, what, names):
    ctx.check(type(o) is type(r), f"{what}: {type(r)} for {type(o)}")
    d = unlike(o, r)
    ctx.check(d is None, f"{what} of {type(o).__name__}: {d}")
    if isinstance(o, Configured) and not isinstance(o, (vbt.MappedArray, vbt.base.accessors.BaseAccessor)):
        ctx.check((o == r) is True and not (o != r), f"{what} of {type(o).__name__} does not compare equal")
    elif isinstance(o, Config):
        ctx.check((o == r) is True and not (o != r) and is_deep_equal(o, r), f"{what} of {type(o).__name__} does not compare equal")
    a, b = results(o, names), results(r, names)
    for n in names:
        d = unlike(a[n], b[n])
        ctx.check(d is None, f"{what} of {type(o).__name__}: result {n}: {d}")
    return sum(not (isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == "EXC") for v in a.values())


@monitor(weight=5, modes=("pure", "jit"))
def roundtrip(ctx):
    """dumps/loads, save/load, pickle, copy in every mode: an equal object with the same results."""
    rng = ctx.rng
    mk = pick(rng, MAKERS)
    with quiet():
        o = mk(rng)
        before = dill.dumps(o) if isinstance(o, Config) else None
        kind = mk.__name__[3:]
        how = pick(rng, ["bytes", "bytes", "file", "pickle", "container", "copy"])
        names = probes(rng, o) if isinstance(o, Configured) else []
        if rng.random() < 0.5:
            results(o, names)  # whatever is cached must not change what is saved
        if how == "bytes":
            r = type(o).loads(o.dumps())
        elif how == "file":
            d = tempfile.mkdtemp(prefix="u02_")
            f = os.path.join(d, "obj.pkl")
            try:
                o.save(f)
                r = type(o).load(f)
                if isinstance(o, PickleableDict) and rng.random() < 0.5:
                    r = draw_config(rng) if type(o) is not PickleableDict else PickleableDict({"z": 1})
                    if type(r) is type(o):
                        r.load_update(f)
                    else:
                        r = type(o)()
                        r.load_update(f)
                    ctx.seen("load_update")
            finally:
                if os.path.exists(f):
                    os.remove(f)
                os.rmdir(d)
        elif how == "pickle":
            lib = pick(rng, [pickle, dill])
            if lib is pickle and not plainly(o):
                lib = dill
            if isinstance(o, Configured) and type(o).__module__ == "vectorbt.indicators.factory":
                lib = dill
            try:
                b = lib.dumps(o)
            except (pickle.PicklingError, AttributeError, TypeError):
                if lib is dill:
                    raise
                raise Skip  # holds lambdas
            r = lib.loads(b)
        elif how == "container":
            box = Config({"x": [o, {"y": o}], "o": o}, **({} if rng.random() < 0.5 else dict(copy_kwargs=dict(copy_mode="shallow"))))
            if isinstance(o, (dict, Configured)):
                bb = Config.loads(box.dumps())
                r = pick(rng, [bb["x"][0], bb["x"][1]["y"], bb["o"]])
        else:
            mode = pick(rng, ["shallow", "hybrid", "deep"])
            if type(o) is PickleableDict:
                raise Skip
            r = o.copy(copy_mode=mode) if not isinstance(o, Configured) or rng.random() < 0.8 else o.replace()
        n = compare_objects(ctx, o, r, how, names)
        if isinstance(o, Config):
            ctx.check(r == dill.loads(before), f"{how} changed the original")
            if o.as_attrs_:
                ctx.check(all(unlike(r[k], getattr(r, k)) is None for k in r if isinstance(k, str)), "attributes of the loaded config", how=how)
            if how in ("bytes", "file"):
                # the loaded config can be used like the original
                p, q = o.copy(), r.copy()
                p.reset(force=True)
                q.reset(force=True)
                d = unlike(dict(p), dict(q))
                ctx.check(d is None, f"reset of a loaded config: {d}")
    ctx.seen("round trips of " + kind)
    ctx.seen("round trips by " + how)
    ctx.seen("results compared after loading", n)
    ctx.nontrivial(kind, how, str(names), ctx.case)


def plainly(o):
    return not isinstance(o, vbt.indicators.factory.IndicatorBase)


@monitor(weight=2)
def replaced(ctx):
    """replace changes exactly the given settings; changed metrics, subplots and index selections survive copies."""
    rng = ctx.rng
    with quiet():
        mk = pick(rng, [mk_portfolio, mk_records, mk_mapped, mk_wrapper, mk_data, mk_indicator, mk_accessor])
        o = mk(rng)
        cfg = dict(o.config)
        kind = mk.__name__[3:]
        own = hasattr(o, "_metrics")
        if own and rng.random() < 0.7:
            for at in ("_metrics", "_subplots"):
                if rng.random() < 0.7:
                    getattr(o, at)["added"] = dict(title="Added", calc_func=lambda self: 1.25, agg_func=None)
                if rng.random() < 0.5 and len(getattr(o, at)) > 1:
                    getattr(o, at).pop(list(getattr(o, at))[0])
        meta = {at: list(getattr(o, at)) for at in ("_metrics", "_subplots") if own}
        cls_meta = {at: list(getattr(type(o), at)) for at in meta}
        ctx.check(all("added" not in v for v in cls_meta.values()), "changing an object's metrics changed its class")
        how = pick(rng, ["replace", "copy", "index", "loads", "regroup", "setting"])
        new = {}
        if how == "replace":
            r = o.replace()
        elif how == "copy":
            r = o.copy(copy_mode=pick(rng, ["shallow", "hybrid", "deep", None]))
        elif how == "index":
            w = getattr(o, "wrapper", o)
            if isinstance(w, vbt.base.array_wrapper.ArrayWrapper) and w.grouped_ndim != w.ndim:
                r = o.copy()
            elif getattr(w, "column_only_select", False) or isinstance(o, (vbt.Portfolio, vbt.MappedArray, vbt.records.Records)):
                r = o.copy() if w.grouped_ndim == 1 else o.iloc[0]
            else:
                r = o.iloc[0:2] if w.ndim == 1 else o.iloc[:, 0]
        elif how == "loads":
            r = type(o).loads(o.dumps())
        elif how == "regroup":
            w = getattr(o, "wrapper", o)
            if isinstance(o, (vbt.base.accessors.BaseAccessor, vbt.indicators.factory.IndicatorBase)) or w.ndim == 1 or isinstance(o, vbt.Portfolio) and o.cash_sharing:
                raise Skip
            r = o.regroup(np.zeros(w.columns.shape[0], dtype=int)) if w.grouper.allow_modify and (w.grouper.allow_enable or w.grouper.is_grouped()) else o.copy()
        else:
            if mk is mk_wrapper:
                new = dict(freq="5D")
            elif mk is mk_portfolio:
                new = dict(fillna_close=False) if rng.random() < 0.5 else dict(init_cash=o.config["init_cash"], trades_type=vbt.portfolio.enums.TradesType.EntryTrades)
            elif mk is mk_records:
                new = dict(records_arr=o.values[:0])
            elif mk is mk_data:
                new = dict(tz_convert=None, missing_index="drop")
            elif isinstance(o, vbt.MappedArray):
                new = dict(mapped_arr=o.values * 2)
            else:
                raise Skip
            r = o.replace(**new)
        ctx.check(all(o.config[k] is cfg[k] for k in cfg) and list(o.config) == list(cfg), f"{how} changed the settings of the original")
        for at in meta:
            ctx.check(list(getattr(o, at)) == meta[at], f"{how} changed {at} of the original")
            ctx.check(list(getattr(r, at)) == meta[at], f"{how} of {type(o).__name__}: {at} is {list(getattr(r, at))}, expected {meta[at]}")
            ctx.check(list(getattr(type(o), at)) == cls_meta[at], f"{how} changed {at} of the class")
            if how != "copy":
                ctx.check(getattr(r, at) is not getattr(o, at), f"{at} shared after {how}")
        if how in ("replace", "setting", "copy"):
            for k in cfg:
                e = new.get(k, cfg[k])
                d = unlike(e, r.config[k])
                ctx.check(d is None, f"{how}: setting {k}: {d}")
            ctx.check(set(r.config) == set(cfg) | set(new), f"{how}: settings {list(r.config)}")
        if own and "added" in meta["_metrics"] and how in ("copy", "loads", "index") and mk is not mk_accessor and mk is not mk_mapped:
            s = r.stats(metrics=["added"], agg_func=None)
            v = s.to_numpy().ravel()
            ctx.check(len(v) > 0 and all(x == 1.25 for x in v), f"the added metric of the {how}: {v}")
        # other objects keep the metrics of their class
        if meta.get("_metrics") != cls_meta.get("_metrics"):
            ctx.seen("objects with their own metrics")
    ctx.seen("replacements")
    ctx.nontrivial("repl", kind, how, str(meta), ctx.case)


# ---------------------------------------------------------------- deep equality

def nodes(v, path=()):
    yield path, v
    if isinstance(v, dict):
        for k in v:
            yield from nodes(v[k], path + ((dict, k),))
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from nodes(x, path + ((type(v), i),))


def put(v, path, new):
    if not path:
        return new
    (t, k), rest = path[0], path[1:]
    if isinstance(v, dict):
        r = {q: v[q] for q in v}
        r[k] = put(v[k], rest, new)
        if isinstance(v, Config):
            c = copy.deepcopy(v)
            dict.__setitem__(c, k, r[k])
            return c
        return type(v)(r)
    items = [put(x, rest, new) if i == k else x for i, x in enumerate(v)]
    return type(v)(items)


def alter(rng, v):
    """A value that differs from v in one array element, label, name, type, length or setting."""
    if isinstance(v, bool) or v is None:
        return pick(rng, [0, "x", not v if isinstance(v, bool) else 1])
    if isinstance(v, (np.floating, np.integer)) and not isinstance(v, float):
        return pick(rng, [v + 1, float(v)])
    if isinstance(v, int):
        return pick(rng, [v + 1, float(v), str(v)])
    if isinstance(v, float):
        return 7.0 if v != v or np.isinf(v) else pick(rng, [v + 1, -v - 1, NAN])
    if isinstance(v, str):
        return v + "x"
    if isinstance(v, bytes):
        return v + b"x"
    if isinstance(v, pd.Timestamp):
        return v + pd.Timedelta("1s")
    if isinstance(v, pd.Timedelta):
        return v + pd.Timedelta("1s")
    if isinstance(v, set):
        return v | {99}
    if isinstance(v, np.ndarray):
        opts = []
        if v.dtype.names:
            w = v.copy()
            w["v"][0] += 1
            opts += [w, v[:1], v.astype([("id", np.int64), ("w", np.float64)]), v.astype([("id", np.int32), ("v", np.float64)])]
            return pick(rng, opts)
        if v.ndim == 0:
            return pick(rng, [v + 1, v.reshape(1), np.array([3.0, 3.0])])
        if v.size:
            w = v.copy()
            i = tuple(int(rng.integers(0, s)) for s in v.shape)
            w[i] = (not v[i]) if v.dtype == bool else "zz" if v.dtype.kind in "UO" else 5.5 if v[i] != v[i] else v[i] + 1
            opts += [w, w]
            if v.dtype.kind == "f":
                if not np.isnan(v).any():
                    opts.append(v.astype(np.float32).astype(np.float64) + 0.25)
                opts.append(v.astype(np.float32))
            opts.append(v[:-1] if len(v) > 1 else np.concatenate([v, v]))
        opts.append(v.reshape(v.shape + (1,)))
        opts.append(list(v))
        return pick(rng, opts)
    if isinstance(v, pd.Series):
        opts = [v.rename("other"), v.to_frame(), v.astype(float)]
        if len(v):
            w = v.copy()
            w.iloc[int(rng.integers(len(v)))] += 1
            ix = list(v.index)
            ix[-1] = ix[-1] + pd.Timedelta("1h")
            opts += [w, w, v.iloc[:-1], pd.Series(v.to_numpy(), index=pd.DatetimeIndex(ix), name=v.name)]
        return pick(rng, opts)
    if isinstance(v, pd.DataFrame):
        opts = [v.iloc[:, :1], v.set_axis(["q", "r"], axis=1), v.rename_axis("ix")]
        if len(v):
            w = v.copy()
            w.iloc[int(rng.integers(len(v))), int(rng.integers(2))] += 1
            opts += [w, w, v.iloc[:-1], v.set_axis([*range(1, len(v) + 1)])]
        return pick(rng, opts)
    if isinstance(v, pd.Index):
        opts = [v.rename("other")]
        if len(v):
            opts += [v[:-1], pd.Index(list(v[:-1]) + ["zz"], name=v.name)]
        return pick(rng, opts)
    if isinstance(v, Config):
        c = copy.deepcopy(v)
        if rng.random() < 0.5 and len(c):
            dict.__delitem__(c, list(c)[-1])
        else:
            dict.__setitem__(c, "extra", 1)
        return c
    if isinstance(v, dict):
        r = {k: v[k] for k in v}
        if len(r) and rng.random() < 0.5:
            r.pop(list(r)[-1])
        else:
            r["extra"] = None
        return type(v)(r)
    if isinstance(v, (list, tuple)):
        if len(v) and rng.random() < 0.4:
            return v[:-1]
        return pick(rng, [v + type(v)([1]), (list if isinstance(v, tuple) else tuple)(v)])
    return "something else"


@monitor(weight=4)
def equality(ctx):
    """Deep equality: equal to an independent copy, different from any object with one thing altered."""
    rng = ctx.rng
    v = draw_value(rng) if rng.random() < 0.5 else pick(rng, [list, tuple])([draw_value(rng) for _ in range(int(rng.integers(1, 4)))])
    w = copy.deepcopy(v)
    ctx.check(is_deep_equal(v, w) is True and is_deep_equal(w, v) is True, "a value does not equal its copy", value=repr(v))
    ctx.check(is_deep_equal(v, w, check_exact=True) is True, "a value does not exactly equal its copy", value=repr(v))
    ns = list(nodes(v))
    path, node = ns[int(rng.integers(len(ns)))]
    new = alter(rng, node)
    x = put(w, path, new)
    if unlike(node, new) is None and not (isinstance(node, pd.DataFrame)):
        raise Skip
    info = dict(value=repr(v)[:600], altered=repr(x)[:600], at=str(path))
    ctx.check(is_deep_equal(v, x) is False, "different objects compare equal", **info)
    ctx.check(is_deep_equal(x, v) is False, "different objects compare equal in one order", **info)

    class H(Configured):
        def __init__(self, a, b=2):
            super().__init__(a=a, b=b)
            self.extra = 1

        @property
        def writeable_attrs(self):
            return {"extra"}

    class J(H):
        pass

    h1, h2, h3 = H(v), H(w), H(x)
    ctx.check(h1 == h2 and not h1 != h2, "equal configured objects differ", **info)
    ctx.check(h1 != h3 and not h1 == h3 and h3 != h1, "different configured objects compare equal", **info)
    ctx.check(H(v, b=3) != h1 and J(v) != h1, "objects with another setting or class compare equal")
    h2.extra = 2
    ctx.check(h1 != h2 and h2.copy().extra == 2 and H.loads(dill.dumps((h2.config.dumps(), PickleableDict(extra=2).dumps()))).extra == 2, "a writeable attribute is ignored")
    ctx.check(Config(dict(a=v)) != Config(dict(a=x)) and not Config(dict(a=v)) == Config(dict(a=x)), "different configs compare equal", **info)
    # tolerance only without check_exact
    a = rng.normal(size=4) + 3
    t = a * (1 + 1e-9)
    for f in (lambda z: z, pd.Series, lambda z: [z], lambda z: {"k": (z,)}, lambda z: pd.DataFrame(z.reshape(2, 2))):
        ctx.check(is_deep_equal(f(a), f(t)) is True and is_deep_equal(f(a), f(t), check_exact=True) is False, f"check_exact on {type(f(a))}")
    ctx.nontrivial("eq", repr(node)[:80], repr(new)[:80], str(path))
    ctx.seen("altered objects")
    ctx.seen("altered " + type(node).__name__)


@monitor(weight=0.01, once=True)
def process(ctx):
    """Objects saved here give the same results in another process, and vice versa."""
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix="u02_")
    try:
        objs = []
        with quiet():
            for mk in (mk_portfolio, mk_records, mk_data, mk_wrapper, mk_config, mk_grouper, mk_accessor):
                o = mk(rng)
                if mk is mk_data:
                    o = vbt.GBMData.download(["a", "b"], start="2020-01-01", end="2020-01-05", seed=1)
                names = probes(rng, o) if isinstance(o, Configured) else []
                objs.append((o, names))
                o.save(os.path.join(d, f"o{len(objs)}.pkl"))
        spec = [(type(o).__module__, type(o).__name__ if "." not in type(o).__qualname__ else type(o).__name__, names) for o, names in objs]
        with open(os.path.join(d, "spec.pkl"), "wb") as f:
            pickle.dump(spec, f)
        code = ("import sys, pickle, warnings, importlib; warnings.simplefilter('ignore'); sys.path.insert(0, %r); sys.path.insert(0, %r)\n"
                "import vectorbt as vbt\nfrom vt.checks.u02 import results\nout = []\n"
                "for i, (mod, name, names) in enumerate(pickle.load(open(%r, 'rb'))):\n"
                "    cls = getattr(importlib.import_module(mod), name)\n    o = cls.load(%r %% (i + 1))\n    o.save(%r %% (i + 1))\n    out.append(results(o, names))\n"
                "import dill; dill.dump(out, open(%r, 'wb'))\n") % (
            os.environ.get("VT_REPO", "/repo"), os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), os.path.join(d, "spec.pkl"),
            os.path.join(d, "o%d.pkl"), os.path.join(d, "b%d.pkl"), os.path.join(d, "out.pkl"))
        p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=dict(os.environ), timeout=200)
        ctx.check(p.returncode == 0, "loading in another process failed", stderr=p.stderr[-1500:])
        with open(os.path.join(d, "out.pkl"), "rb") as f:
            outs = dill.load(f)
        for i, ((o, names), out) in enumerate(zip(objs, outs)):
            a = results(o, names)
            for n in names:
                df = unlike(a[n], out[n])
                ctx.check(df is None, f"result {n} of {type(o).__name__} in another process: {df}")
            back = type(o).load(os.path.join(d, f"b{i + 1}.pkl"))
            compare_objects(ctx, o, back, "other process", [])
            ctx.seen("objects passed between processes")
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
