"""U03: caching never changes a result and computes each result once."""
import contextlib
import inspect
import sys
import threading
import types
from collections import OrderedDict

import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.utils.config import Configured
from vectorbt.utils.decorators import CacheCondition, cached_method, cached_property, custom_method, custom_property, should_cache

from vt.core import monitor, Skip
from vt.checks.d01 import quiet
from vt.checks import u02


def pick(rng, opts):
    return opts[int(rng.integers(len(opts)))]


@contextlib.contextmanager
def caching(**kw):
    cfg = vbt.settings.caching
    old = {k: cfg[k] for k in ("enabled", "whitelist", "blacklist")}
    try:
        for k, v in {"enabled": True, "whitelist": [], "blacklist": [], **kw}.items():
            cfg[k] = v
        yield cfg
    finally:
        for k, v in old.items():
            cfg[k] = v


# ---------------------------------------------------------------- reference of the conditions

RANKING = [("instance", "func"), ("instance", "flags"), ("instance",), ("cls", "func"), ("cls", "flags"), ("cls",),
           ("base_cls", "func"), ("base_cls", "flags"), ("base_cls",), ("func", "flags"), ("func",), ("flags",)]


def cond_rank(cond, obj, member):
    """Rank of a condition for a member of an object, None if it doesn't apply."""
    kind, cls, name, raw, flags = member
    if cond.instance is not None and cond.instance is not obj:
        return None
    if cond.func is not None:
        if isinstance(cond.func, str):
            if cond.func != name:
                return None
        elif cond.func.func is not raw:
            return None
    if cond.cls is not None:
        if (cond.cls if isinstance(cond.cls, str) else cond.cls.__name__) != type(obj).__name__ or (not isinstance(cond.cls, str) and type(obj) is not cond.cls):
            return None
    if cond.base_cls is not None:
        names = [c.__name__ if isinstance(cond.base_cls, str) else c for c in type(obj).__mro__]
        if cond.base_cls not in names:
            return None
    if cond.flags is not None and any(k not in flags or flags[k] != v for k, v in cond.flags.items()):
        return None
    for i, keys in enumerate(RANKING):
        if all(getattr(cond, k) is not None for k in keys):
            return i if cond.rank is None else cond.rank
    return None


def ref_should(cfg, obj, member):
    w = [r for r in (cond_rank(c, obj, member) for c in cfg["whitelist"]) if r is not None]
    b = [r for r in (cond_rank(c, obj, member) for c in cfg["blacklist"]) if r is not None]
    w, b = min(w, default=None), min(b, default=None)
    if w == b:
        return cfg["enabled"]
    if w is None or b is None:
        return b is None
    return w < b


# ---------------------------------------------------------------- toy classes

class World:
    """Classes with cached members, which count their evaluations, and a model of what they return."""

    def __init__(self, rng):
        self.rng = rng
        self.n = {}  # (object number, class name, member) + args -> evaluations, as observed
        self.names = ["f", "g", "h", "k"][: int(rng.integers(2, 5))]
        kinds = {n: pick(rng, ["property", "method", "method"]) for n in self.names}
        self.kinds = kinds
        self.members = {}  # (class name, name) -> member
        self.classes = []
        prev = object
        for ci in range(int(rng.integers(1, 4))):
            cname = "ABC"[ci] if rng.random() < 0.9 else "A"
            d = {}
            cls_key = ci
            for ni, n in enumerate(self.names):
                if ci > 0 and rng.random() < 0.4:
                    continue
                flags = {}
                for fl in "ab":
                    if rng.random() < 0.5:
                        flags[fl] = int(rng.integers(0, 2))
                up = ci > 0 and rng.random() < 0.6
                other = self.names[ni - 1] if ni > 0 and rng.random() < 0.4 else None  # evaluates another member as well
                opts = {}
                if kinds[n] == "method":
                    if rng.random() < 0.3:
                        opts["maxsize"] = pick(rng, [1, 2, 3, None, 128])
                    if rng.random() < 0.3:
                        opts["typed"] = bool(rng.integers(2))
                cached = rng.random() < 0.9
                d[n] = self.make(cls_key, n, kinds[n], flags, up, other, opts, cached)
            cls = types.new_class(cname, (prev,), {}, lambda ns, d=d: ns.update({"__qualname__": f"World{ci}.{cname}", **d}))
            self.classes.append(cls)
            prev = cls
        self.objs = []
        for i in range(int(rng.integers(1, 4))):
            self.objs.append(self.new(pick(rng, self.classes)))
        self.store = {}

    def new(self, cls):
        o = cls()
        o.number = len(self.objs)
        return o

    def make(self, ci, name, kind, flags, up, other, opts, cached):
        world = self

        def body(self, *args, **kw):
            key = (self.number, ci, name, args, tuple(kw.items()))
            hk = repr(key)
            world.n[hk] = world.n.get(hk, 0) + 1
            out = [ci, name, repr(args), repr(kw), world.n[hk]]
            if up:
                v = world.parent(self, ci, name)
                out.append(v if kind == "property" else None)
                if kind == "method":
                    out[-1] = v(*args, **kw)
            if other is not None:
                v = getattr(self, other)
                out.append(v if world.kinds[other] == "property" else v(*args, **kw))
            return tuple(out)

        if kind == "property":
            def func(self):
                return body(self)
        else:
            def func(self, *args, **kw):
                return body(self, *args, **kw)
        func.__name__ = name
        func.__qualname__ = f"World.C{ci}.{name}"
        if kind == "property":
            m = (cached_property if cached else custom_property)(**flags)(func) if flags or cached and self.rng.random() < 0.5 else (cached_property if cached else custom_property)(func)
        else:
            m = cached_method(**opts, **flags)(func) if cached and (flags or opts) else cached_method(func) if cached else custom_method(**flags)(func)
        self.members[ci, name] = dict(ci=ci, name=name, kind=kind, flags=flags, up=up, other=other, opts=opts, cached=cached, obj=m, raw=func)
        return m

    def parent(self, obj, ci, name):
        cls = self.classes[ci]
        return getattr(super(cls, obj), name) if any((c, name) in self.members for c in range(ci)) else (lambda *a, **k: None)

    def find(self, ci, name):
        for c in range(ci, -1, -1):
            if (c, name) in self.members:
                return self.members[c, name]


class Model:
    """What the members of a world must return."""

    def __init__(self, world):
        self.w = world
        self.n = {}
        self.store = {}

    def call(self, obj, ci, name, args, kw):
        m = self.w.find(ci, name)
        if m is None:
            return None
        member = (m["kind"], None, name, m["raw"], m["flags"])
        if not m["cached"] or not ref_should(vbt.settings.caching, obj, member):
            return self.compute(obj, m, args, kw)
        st = self.store.setdefault((obj.number, m["ci"], name), OrderedDict())
        if m["kind"] == "property":
            if () not in st:
                st[()] = self.compute(obj, m, args, kw)
            return st[()]
        try:
            hash((args, tuple(kw.items())))
        except TypeError:
            return self.compute(obj, m, args, kw)
        key = repr((args, tuple(kw.items())))  # tells types apart; arguments equal across types are avoided if not typed
        if key in st:
            st.move_to_end(key)
            return st[key]
        v = self.compute(obj, m, args, kw)
        st = self.store.setdefault((obj.number, m["ci"], name), OrderedDict())
        size = m["opts"].get("maxsize", 128)
        st[key] = v
        while size is not None and len(st) > size:
            st.popitem(last=False)
        return v

    def compute(self, obj, m, args, kw):
        if m["kind"] == "property":
            args, kw = (), {}
        hk = repr((obj.number, m["ci"], m["name"], args, tuple(kw.items())))
        self.n[hk] = self.n.get(hk, 0) + 1
        out = [m["ci"], m["name"], repr(args), repr(kw), self.n[hk]]
        if m["up"]:
            has = any((c, m["name"]) in self.w.members for c in range(m["ci"]))
            v = self.call(obj, m["ci"] - 1, m["name"], args, kw) if has else None
            out.append(v if has or m["kind"] == "method" else "NOFUNC")
        if m["other"] is not None:
            out.append(self.call(obj, self.w.classes.index(type(obj)), m["other"], args, kw))
        return tuple(out)


def ungen(v):
    """Replace the placeholder of a missing base property."""
    if isinstance(v, tuple):
        return tuple(ungen(x) for x in v)
    if callable(v):
        return "NOFUNC"
    return v


def rand_args(rng, typed):
    pool = ["x", 1, (1, "y"), None, "z", 2.5] + ([True, 1.0, 0, False] if typed else []) + ([[1], {"a": 1}] if rng.random() < 0.3 else [])
    args = tuple(pick(rng, pool) for _ in range(int(rng.integers(0, 3))))
    kw = {k: pick(rng, pool) for k in ("p", "q") if rng.random() < 0.3}
    return args, kw


def rand_cond(rng, w):
    kw = {}
    if rng.random() < 0.35:
        kw["instance"] = pick(rng, w.objs)
    if rng.random() < 0.4:
        m = w.members[pick(rng, sorted(w.members))]
        kw["func"] = pick(rng, [m["name"], m["obj"], m["obj"]]) if m["cached"] or m["kind"] == "method" else m["name"]
        if m["cached"] and m["kind"] == "method" and rng.random() < 0.3:
            o = pick(rng, w.objs)
            b = getattr(o, m["name"], None)
            if b is not None and hasattr(b, "func"):
                kw["func"] = b
    if rng.random() < 0.3:
        c = pick(rng, w.classes)
        kw["cls"] = pick(rng, [c, c.__name__])
    if rng.random() < 0.3:
        c = pick(rng, w.classes)
        kw["base_cls"] = pick(rng, [c, c.__name__])
    if rng.random() < 0.35:
        kw["flags"] = {pick(rng, ["a", "b"]): int(rng.integers(2)) for _ in range(int(rng.integers(1, 3)))}
    if kw and rng.random() < 0.15:
        kw["rank"] = int(rng.integers(0, 13))
    return CacheCondition(**kw)


@monitor(weight=3)
def history(ctx):
    """Any sequence of accesses, clearings and changes of the settings returns what the model says, evaluation by evaluation."""
    rng = ctx.rng
    w = World(rng)
    model = Model(w)
    steps = []
    with caching(enabled=bool(rng.random() < 0.8)) as cfg:
        for step in range(int(rng.integers(10, 50))):
            r = rng.random()
            if r < 0.12:
                cfg["enabled"] = bool(rng.integers(2))
                steps.append(f"enabled={cfg['enabled']}")
            elif r < 0.25:
                lst = pick(rng, ["whitelist", "blacklist"])
                cfg[lst] = cfg[lst] + [rand_cond(rng, w)] if rng.random() < 0.7 and len(cfg[lst]) < 4 else []
                steps.append(f"{lst}={len(cfg[lst])}")
            elif r < 0.33:
                o = pick(rng, w.objs)
                n = pick(rng, w.names)
                m = w.find(w.classes.index(type(o)), n)
                if m is not None and m["cached"]:
                    getattr(type(o), n).clear_cache(o)
                    model.store.pop((o.number, m["ci"], n), None)
                    steps.append(f"clear {o.number}.{n}")
                    ctx.seen("caches cleared")
            else:
                o = pick(rng, w.objs)
                n = pick(rng, w.names)
                ci = w.classes.index(type(o))
                m = w.find(ci, n)
                if m is None:
                    continue
                typed = all(x["opts"].get("typed", True) for x in w.members.values())
                args, kw = rand_args(rng, typed) if m["kind"] == "method" else ((), {})
                before = sum(w.n.values())
                steps.append(f"{o.number}.{n}{args}{kw}")
                got = getattr(o, n) if m["kind"] == "property" else getattr(o, n)(*args, **kw)
                exp = model.call(o, ci, n, args, kw)
                ctx.check(ungen(got) == ungen(exp), "a cached member returned something else", got=repr(got), exp=repr(exp), steps=steps[-12:],
                          enabled=cfg["enabled"], white=repr(cfg["whitelist"]), black=repr(cfg["blacklist"]))
                ctx.check(w.n == model.n, "number of evaluations", got=w.n, exp=model.n, steps=steps[-12:])
                ctx.seen("evaluations" if sum(w.n.values()) > before else "results from the cache")
                if m["up"]:
                    ctx.seen("overridden members")
    ctx.seen("histories")
    ctx.nontrivial(len(steps), tuple(sorted(w.members)), sum(w.n.values()))


@monitor(weight=2)
def precedence(ctx):
    """should_cache follows the documented ranking of conditions."""
    rng = ctx.rng
    w = World(rng)
    for _ in range(10):
        nw, nb = int(rng.integers(0, 4)), int(rng.integers(0, 4))
        with caching(enabled=bool(rng.integers(2)), whitelist=[rand_cond(rng, w) for _ in range(nw)], blacklist=[rand_cond(rng, w) for _ in range(nb)]) as cfg:
            for o in w.objs:
                for n in w.names:
                    m = w.find(w.classes.index(type(o)), n)
                    if m is None or not m["cached"]:
                        continue
                    exp = ref_should(cfg, o, (m["kind"], None, n, m["raw"], m["flags"]))
                    got = should_cache(n, o, func=m["obj"] if m["kind"] == "method" else m["raw"], **m["flags"])
                    ctx.check(got is exp or got == exp, "should_cache", got=got, exp=exp, member=n, flags=m["flags"], white=repr(cfg["whitelist"]), black=repr(cfg["blacklist"]), enabled=cfg["enabled"])
                    if nw and nb and exp != cfg["enabled"]:
                        ctx.seen("conditions overruling the default")
                    ctx.seen("decisions to cache")
                    ctx.nontrivial("p", nw, nb, exp, cfg["enabled"], n)
    if rng.random() < 0.2:
        o = w.objs[0]
        for bad in (CacheCondition(func=1), CacheCondition(cls=1), CacheCondition(base_cls=1), CacheCondition(flags=1), CacheCondition(func="f", rank="x"), "f"):
            with caching(whitelist=[bad]):
                ctx.raises((TypeError, AssertionError), should_cache, "f", o, msg="invalid caching condition")
        ctx.seen("invalid conditions")


# ---------------------------------------------------------------- real objects

def cached_members(cls):
    out = []
    for n in dir(cls):
        a = inspect.getattr_static(cls, n)
        if isinstance(a, cached_property) or hasattr(a, "clear_cache"):
            out.append((n, a))
    return out


MULTI = pd.MultiIndex.from_tuples([("a", 1), ("a", 2), ("b", 2), ("b", 1)], names=["x", "y"])


def mk_object(rng):
    if rng.random() < 0.3:
        o = pick(rng, u02.MAKERS)(rng)
        if not isinstance(o, Configured):
            raise Skip
        return o
    n = int(rng.integers(4, 12))
    df = pd.DataFrame(np.exp(np.cumsum(rng.normal(0, 0.1, (n, 4)), axis=0)), index=pd.date_range("2020-01-01", periods=n, name="t"), columns=MULTI)
    df.iloc[:, :] = np.round(df.to_numpy(), 3)
    pf = vbt.Portfolio.from_signals(df, rng.random((n, 4)) < 0.4, rng.random((n, 4)) < 0.4, fees=0.001, freq="1D", init_cash=100.0, log=True,
                                    group_by=None if rng.random() < 0.5 else pick(rng, ["x", 0, ("x",)]), cash_sharing=False)
    k = pick(rng, ["pf", "pf", "trades", "orders", "positions", "dd", "dd2", "wrapper", "grouper", "mapper", "mapped", "ranges", "logs"])
    if k == "pf":
        return pf
    if k == "trades":
        return pf.trades
    if k == "orders":
        return pf.orders
    if k == "positions":
        return pf.positions
    if k == "logs":
        return pf.logs
    if k == "dd":
        return pf.drawdowns
    if k == "dd2":
        return df.vbt.drawdowns
    if k == "ranges":
        return (df > df.iloc[0]).vbt.signals.between_ranges(other=(df < df.iloc[0]))
    if k == "wrapper":
        return pf.wrapper
    if k == "grouper":
        return pf.wrapper.grouper
    if k == "mapper":
        return pf.orders.col_mapper
    return pick(rng, [pf.trades.pnl, pf.orders.size, pf.orders.idx])


GROUPS = [None, False, 0, True, 1, "x", "y", ("x",), (0,), ("x", "y"), ["x", "y"], np.array([0, 0, 1, 1]), 0.0, 1.0]


def rand_kwargs(rng, func):
    kw = {}
    sig = inspect.signature(func)
    for p in list(sig.parameters.values())[1:]:
        if p.name == "group_by":
            if rng.random() < 0.75:
                kw[p.name] = pick(rng, GROUPS[:12])
        elif p.name == "n":
            kw[p.name] = int(rng.integers(1, 4))
        elif p.name == "wrap_kwargs":
            if rng.random() < 0.1:
                kw[p.name] = dict(name_or_index="nm")
        elif p.name == "pd_indexing_func":
            kw[p.name] = pick(rng, INDEXERS)
        elif isinstance(p.default, bool):
            if rng.random() < 0.4:
                kw[p.name] = pick(rng, [True, False, 1, 0])
        elif p.name == "direction":
            if rng.random() < 0.5:
                kw[p.name] = pick(rng, ["both", "longonly", "shortonly", 0, 1, 2, "LongOnly"])
        elif p.name == "ddof":
            if rng.random() < 0.4:
                kw[p.name] = pick(rng, [0, 1])
        elif p.name in ("risk_free", "required_return"):
            if rng.random() < 0.4:
                kw[p.name] = pick(rng, [0.0, 0.01, 0, 1])
        elif p.name == "freq":
            if rng.random() < 0.2:
                kw[p.name] = pick(rng, ["1D", "2D", pd.Timedelta("1h")])
        elif p.name == "window":
            kw[p.name] = 3
        elif p.name == "q":
            kw[p.name] = pick(rng, [0, 1, 0.5, 1.0, 0.0])
        elif p.default is inspect.Parameter.empty and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            kw[p.name] = pick(rng, [0, 1])
    return kw


def _first(x):
    return x.iloc[:, :1] if x.ndim == 2 else x.iloc[:2]


def _rows(x):
    return x.iloc[1:3]


def _one(x):
    return x.iloc[:, 0]


INDEXERS = [_first, _rows, _one]


def evaluate(o, n, kw):
    try:
        v = getattr(o, n)
        return v(**kw) if kw is not None else v
    except Exception as e:
        return ("EXC", type(e).__name__)


def twin(o):
    with caching(enabled=False):
        return type(o).loads(o.dumps())


def same(a, b):
    d = u02.unlike(a, b)
    return d


SKIP = {"concat"}


@monitor(weight=4)
def real(ctx):
    """The members of real objects return the same with any caching, repeatedly, after clearing, on copies and selections."""
    rng = ctx.rng
    with quiet():
        with caching(whitelist=list(vbt.settings.caching["whitelist"])):
            o = mk_object(rng)
        ms = cached_members(type(o))
        if not ms:
            raise Skip
        fresh = twin(o)
        objs = [(o, fresh)]
        mode = pick(rng, ["default", "on", "on", "names", "class", "off"])
        conf = dict(default=dict(whitelist=list(vbt.settings.caching["whitelist"])), on={}, off=dict(enabled=False),
                    names=dict(enabled=False, whitelist=[CacheCondition(func=m[0]) for m in ms if rng.random() < 0.5]),
                    **{"class": dict(blacklist=[CacheCondition(cls=type(o))], whitelist=[CacheCondition(base_cls="Configured", rank=int(rng.integers(3, 8)))])})[mode]
        hist = []
        calls = []
        for step in range(int(rng.integers(4, 16))):
            if rng.random() < 0.15 and len(objs) < 4:
                src, ref = pick(rng, objs)
                how = pick(rng, ["copy", "loads", "iloc", "regroup", "replace"])
                try:
                    with caching(**conf):
                        new = derive(rng, src, how)
                    if new is None:
                        continue
                    with caching(enabled=False):
                        nref = twin(new)
                except Exception:
                    continue
                objs.append((new, nref))
                hist.append(how)
                ctx.seen("objects derived from others")
                continue
            if calls and rng.random() < 0.4:
                who, n, kw = pick(rng, calls)
            else:
                who = int(rng.integers(len(objs)))
                n, a = pick(rng, ms)
                kw = None if isinstance(a, cached_property) else rand_kwargs(rng, a.func)
                calls.append((who, n, kw))
            x, ref = objs[who]
            if n in SKIP:
                continue
            a = inspect.getattr_static(type(x), n, None)
            if a is None:
                continue
            hist.append((who, n, repr(kw)))
            if rng.random() < 0.1:
                a.clear_cache(x)
                hist.append("clear")
            with caching(**conf):
                got = evaluate(x, n, kw)
                again = evaluate(x, n, kw)
                flags = a.flags
                sc = should_cache(n, x, func=a if kw is not None else a.func, **flags)
            with caching(enabled=False):
                exp = evaluate(ref, n, kw)
            d = same(exp, got)
            ctx.check(d is None, f"{type(x).__name__}.{n} with caching ({mode}): {d}", kw=repr(kw), hist=hist[-10:])
            d = same(got, again)
            ctx.check(d is None, f"{type(x).__name__}.{n} changed when repeated: {d}", kw=repr(kw), hist=hist[-10:])
            if sc and not failed(got) and hashable(kw):
                ctx.check(again is got, f"{type(x).__name__}.{n} computed again although cached", mode=mode, kw=repr(kw))
                ctx.seen("results computed once")
            ctx.seen("results compared")
            ctx.seen(f"mode {mode}")
            ctx.nontrivial(type(x).__name__, n, repr(kw))


def failed(v):
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == "EXC"


def hashable(kw):
    try:
        hash(tuple((kw or {}).values()))
    except TypeError:
        return False
    return True


def derive(rng, o, how):
    if how == "copy":
        return o.copy(copy_mode=pick(rng, ["shallow", "hybrid", "deep"]))
    if how == "replace":
        return o.replace()
    if how == "loads":
        return type(o).loads(o.dumps())
    if how == "iloc":
        w = getattr(o, "wrapper", o)
        if not hasattr(w, "grouped_ndim") or w.grouped_ndim == 1 or not hasattr(o, "iloc"):
            return None
        if getattr(w, "column_only_select", False):
            return o.iloc[pick(rng, [0, slice(0, 1), slice(1, None), [1, 0]])]
        return o.iloc[:, pick(rng, [0, slice(0, 1), slice(1, None), [1, 0]])]
    w = getattr(o, "wrapper", o)
    if not hasattr(o, "regroup"):
        return None
    return o.regroup(pick(rng, ["x", "y", 0, 1, True, False]))


# ---------------------------------------------------------------- threads

def run_threads(ctx, fns, what, timeout=60):
    out = [None] * len(fns)
    errs = []
    bar = threading.Barrier(len(fns))

    def work(i):
        try:
            bar.wait()
            out[i] = fns[i]()
        except BaseException as e:
            errs.append(repr(e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(fns))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(timeout)
            ctx.check(not t.is_alive(), f"{what}: threads blocked each other")
    finally:
        sys.setswitchinterval(old)
    ctx.check(not errs, f"{what}: errors in threads", errs=errs)
    return out


@monitor(weight=1.5)
def threads(ctx):
    """Concurrent threads get the same results, and a property is evaluated once."""
    rng = ctx.rng
    n_thr = int(rng.integers(2, 7))
    n_ev = {}
    lock = threading.Lock()
    delay = float(pick(rng, [0, 0, 1e-4, 1e-3]))

    def count(k):
        with lock:
            n_ev[k] = n_ev.get(k, 0) + 1
            return n_ev[k]

    def spin():
        if delay:
            import time
            time.sleep(delay)
        else:
            for _ in range(50):
                pass

    class T:
        @cached_property
        def p(self):
            v = count((self.i, "p"))
            spin()
            return ("p", self.i, v)

        @cached_property
        def q(self):
            v = count((self.i, "q"))
            spin()
            return ("q", self.i, v, self.p)

        @cached_method
        def m(self, a, b=0):
            count((self.i, "m", a, b))
            spin()
            return ("m", self.i, a, b, self.p if a % 2 else self.q)

    objs = []
    for i in range(int(rng.integers(1, 4))):
        objs.append(T())
        objs[-1].i = i
    plans = []
    for _ in range(n_thr):
        plan = []
        for _ in range(int(rng.integers(1, 8))):
            kind = pick(rng, ["p", "q", "m"])
            plan.append((int(rng.integers(len(objs))), kind, int(rng.integers(3)), int(rng.integers(2))))
        plans.append(plan)

    def go(plan):
        def fn():
            return [getattr(objs[i], k) if k != "m" else objs[i].m(a, b=b) for i, k, a, b in plan]
        return fn

    with caching():
        outs = run_threads(ctx, [go(p) for p in plans], "toy")
        for plan, out in zip(plans, outs):
            for (i, k, a, b), v in zip(plan, out):
                p = ("p", i, 1)
                q = ("q", i, 1, p)
                exp = {"p": p, "q": q, "m": ("m", i, a, b, p if a % 2 else q)}[k]
                ctx.check(v == exp, "result of a concurrent access", got=v, exp=exp, plans=plans)
        ctx.check(all(v == 1 for k, v in n_ev.items() if k[1] in "pq"), "a property was evaluated more than once", n=n_ev, plans=plans)
        # afterwards everything is in the cache
        before = dict(n_ev)
        for plan in plans:
            go(plan)()
        ctx.check(n_ev == before, "evaluated again after the threads", n=n_ev, before=before)
    ctx.seen("concurrent accesses", sum(map(len, plans)))
    ctx.nontrivial("t", n_thr, len(objs), sum(map(len, plans)))


@monitor(weight=1.5)
def real_threads(ctx):
    """Concurrent threads evaluating members of one real object get what a single thread gets."""
    rng = ctx.rng
    with quiet():
        with caching(enabled=False):
            o = mk_object(rng)
            ref = twin(o)
        ms = [m for m in cached_members(type(o)) if m[0] not in SKIP]
        if not ms:
            raise Skip
        calls = []
        for _ in range(int(rng.integers(2, 8))):
            n, a = pick(rng, ms)
            calls.append((n, None if isinstance(a, cached_property) else rand_kwargs(rng, a.func)))
        with caching(enabled=False):
            exp = [evaluate(ref, n, kw) for n, kw in calls]
        k = int(rng.integers(2, 5))
        orders = [rng.permutation(len(calls)) for _ in range(k)]

        def go(order):
            def fn():
                return {int(i): evaluate(o, *calls[int(i)]) for i in order}
            return fn

        with caching():
            outs = run_threads(ctx, [go(order) for order in orders], type(o).__name__)
        for out in outs:
            for i, v in out.items():
                d = same(exp[i], v)
                ctx.check(d is None, f"{type(o).__name__}.{calls[i][0]} in concurrent threads: {d}", kw=repr(calls[i][1]))
                if calls[i][1] is None:
                    ctx.check(v is outs[0][i], f"{type(o).__name__}.{calls[i][0]} was computed more than once")
                ctx.seen("results from concurrent threads")
        ctx.nontrivial("rt", type(o).__name__, tuple(c[0] for c in calls))


class Watch:
    """A lock that records in which order it's taken together with other locks."""
    held = threading.local()
    edges = {}

    def __init__(self, lock, name):
        self.lock = lock
        self.name = name

    def __enter__(self):
        st = getattr(Watch.held, "st", None)
        if st is None:
            st = Watch.held.st = []
        for other in st:
            if other != self.name:
                Watch.edges.setdefault(other, set()).add(self.name)
        self.lock.__enter__()
        st.append(self.name)
        return self

    def __exit__(self, *a):
        Watch.held.st.pop()
        return self.lock.__exit__(*a)

    acquire = __enter__

    def release(self):
        self.__exit__(None, None, None)


def cycle(edges):
    seen, done = [], set()

    def visit(n):
        if n in seen:
            return seen[seen.index(n):] + [n]
        if n in done:
            return None
        seen.append(n)
        for m in sorted(edges.get(n, ())):
            c = visit(m)
            if c:
                return c
        seen.pop()
        done.add(n)
        return None
    for n in sorted(edges):
        c = visit(n)
        if c:
            return c
    return None


@monitor(weight=1)
def lock_order(ctx):
    """The locks of properties are never taken in opposite orders, which could block two threads for ever."""
    rng = ctx.rng
    with quiet(), caching():
        for _ in range(3):
            o = mk_object(rng)
            x = o
            if "u03watched" not in ctx.state:
                ctx.state["u03watched"] = set()
            for cls in [type(o), vbt.Portfolio, vbt.Trades, vbt.Drawdowns, vbt.MappedArray, vbt.records.col_mapper.ColumnMapper]:
                for n, a in cached_members(cls):
                    if isinstance(a, cached_property) and not isinstance(a.lock, Watch):
                        a.lock = Watch(a.lock, f"{a.func.__module__}.{cls.__name__}.{n}")
            for n, a in cached_members(type(o)):
                if n not in SKIP:
                    evaluate(x, n, None if isinstance(a, cached_property) else rand_kwargs(rng, a.func))
                    ctx.seen("members under watch")
    c = cycle(Watch.edges)
    ctx.check(c is None, "locks taken in opposite orders", cycle=c)
    ctx.seen("lock orders", sum(map(len, Watch.edges.values())))
    ctx.nontrivial("l", type(o).__name__, len(Watch.edges))
