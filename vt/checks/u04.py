"""U04: templates, enums, mappings, tags and attribute paths resolve to what they name."""
import math
from collections import namedtuple
from datetime import date, datetime, time, timedelta, timezone
from fractions import Fraction
from string import Template
from zoneinfo import ZoneInfo

import numpy as np
import pandas as pd
import pytz
import vectorbt as vbt
from vectorbt.utils import array_ as va, attr_ as vat, datetime_ as vd, math_ as vm, random_ as vrandom
from vectorbt.utils.attr_ import AttrResolver, deep_getattr
from vectorbt.utils.config import Config
from vectorbt.utils.enum_ import map_enum_fields, map_enum_values
from vectorbt.utils.mapping import apply_mapping, reverse_mapping, to_mapping
from vectorbt.utils.tags import match_tags
from vectorbt.utils.template import Rep, RepEval, RepFunc, Sub, deep_substitute, has_templates
from vectorbt.generic import enums as ge
from vectorbt.labels import enums as le
from vectorbt.portfolio import enums as pe
from vectorbt.signals import enums as se

from vt.core import monitor, Skip


def pick(rng, opts):
    return opts[int(rng.integers(len(opts)))]


NT = namedtuple("NT", ["a", "b"])


class MyDict(dict):
    pass


class MyList(list):
    pass


# ---------------------------------------------------------------- templates

VALUES = [1, 2.5, "str", None, (1, 2), True, np.array([1, 2]), pd.Series([1.0, 2.0]), len, [1, [2]], 0, "", frozenset({1})]


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool((a == b).all())
    if isinstance(a, pd.Series):
        return a.equals(b)
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(eq, a, b))
    if isinstance(a, (Rep, RepEval, RepFunc, Sub, Template)):
        return a is b or eq(dict(vars(a)), dict(vars(b)))  # a config copies its values
    return a is b or a == b


def add_ab(a, b=10):
    return ("f", a, b)


def only_kw(*, c):
    return ("k", c)


def no_arg():
    return "none"


def rand_template(rng, ctxm):
    """(template, function giving the result or raising KeyError/NameError/TypeError)."""
    own = {k: pick(rng, VALUES) for k in "abcd" if rng.random() < 0.3}
    m = {**own, **ctxm}
    kind = pick(rng, ["rep", "sub", "eval", "func", "template"])
    own_arg = own or (None if rng.random() < 0.5 else {})
    if kind == "rep":
        k = pick(rng, list("abcde"))
        return Rep(k, own_arg), (lambda: m[k])
    if kind == "sub":
        k, j = pick(rng, list("abcde")), pick(rng, list("abcde"))
        text = pick(rng, [f"${k}", f"x${{{k}}}y", f"${k} and ${j}$$", "plain $$"])
        t = Sub(text if rng.random() < 0.7 else Template(text), own_arg)

        def res():
            return text.replace("$$", "\0").replace(f"${{{k}}}", str(m[k]) if f"{{{k}}}" in text else "").replace(f"${k}", str(m[k]) if f"${k}" in text else "").replace(
                f"${j}", str(m[j]) if f"and ${j}" in text else "").replace("\0", "$")
        if k != j and not any("$" in str(v) for v in m.values()):
            return t, res
        k = j = "a"
        return Sub("$a", own_arg), (lambda: str(m["a"]))
    if kind == "template":
        k = pick(rng, list("abcde"))
        return Template(f"<${k}>"), (lambda: f"<{ctxm[k]}>")
    if kind == "eval":
        k, j = pick(rng, list("abcde")), pick(rng, list("abcde"))
        return pick(rng, [(RepEval(f"({k}, {j})", own_arg), lambda: (name(m, k), name(m, j))), (RepEval(f"[{k}] * 2", own_arg), lambda: [name(m, k)] * 2),
                          (RepEval("1 + 1", own_arg), lambda: 2), (RepEval(f"{k} is None", own_arg), lambda: name(m, k) is None)])
    f = pick(rng, [add_ab, only_kw, no_arg])

    def res_f():
        if f is add_ab:
            return ("f", need(m, "a"), m.get("b", 10))
        if f is only_kw:
            return ("k", need(m, "c"))
        return "none"
    return RepFunc(f, own_arg), res_f


def name(m, k):
    if k not in m:
        raise NameError(k)
    return m[k]


def need(m, k):
    if k not in m:
        raise TypeError(k)
    return m[k]


class Keep(Exception):
    pass


def rand_object(rng, ctxm, depth=0):
    """(object, function of `safe` giving the expected result, whether there are templates)."""
    r = rng.random()
    if depth > 3 or r < 0.25:
        if rng.random() < 0.5:
            t, f = rand_template(rng, ctxm)

            def res(safe):
                if not safe:
                    return f()
                try:
                    return f()
                except Exception:
                    return t
            return t, res, True
        v = pick(rng, VALUES)
        return v, (lambda safe: v), False
    kind = pick(rng, ["dict", "list", "tuple", "nt", "mydict", "config", "mylist", "set"])
    n = int(rng.integers(0, 4))
    if kind == "nt":
        n = 2
    items = [rand_object(rng, ctxm, depth + 1) for _ in range(n)]
    has = any(i[2] for i in items)
    if kind in ("dict", "mydict", "config"):
        keys = [f"k{i}" for i in range(n)]
        if n and rng.random() < 0.2:
            keys[0] = Rep("a") if kind == "dict" else "kk"  # not looked for in keys
        src = dict(zip(keys, (i[0] for i in items)))
        make = dict(dict=dict, mydict=MyDict, config=lambda d: Config(d, frozen_keys=True, readonly=bool(n % 2)))[kind]
        return make(src), (lambda safe: make({k: i[1](safe) for k, i in zip(keys, items)})), has
    if kind in ("list", "mylist"):
        make = list if kind == "list" else MyList
        return make(i[0] for i in items), (lambda safe: make(i[1](safe) for i in items)), has
    if kind == "set":
        k = pick(rng, list("ab"))
        if k in ctxm and isinstance(ctxm[k], (int, float, str, bool, type(None))):
            mk = pick(rng, [set, frozenset])
            return mk([Rep(k), "fixed"]), (lambda safe: mk([ctxm[k], "fixed"])), True
        return {1, 2}, (lambda safe: {1, 2}), False
    if kind == "nt":
        return NT(*(i[0] for i in items)), (lambda safe: NT(*(i[1](safe) for i in items))), has
    return tuple(i[0] for i in items), (lambda safe: tuple(i[1](safe) for i in items)), has


def frozen(o):
    """Structure of an object, by identity of the leaves."""
    if isinstance(o, dict):
        return (type(o), id(o), tuple((id(k), frozen(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o), id(o), tuple(frozen(v) for v in o))
    return id(o)


@monitor(weight=2)
def templates(ctx):
    rng = ctx.rng
    ctxm = {k: pick(rng, VALUES) for k in "abcd" if rng.random() < 0.75}
    o, res, has = rand_object(rng, ctxm)
    keys_only = has_templates(o)
    ctx.check(bool(keys_only) == has, "has_templates", obj=repr(o))
    safe = bool(rng.random() < 0.4)
    before = frozen(o)
    try:
        exp = res(safe)
        err = None
    except (KeyError, NameError, TypeError) as e:
        exp, err = None, e
    copying = rng.random() < 0.8
    if err is not None:
        try:
            got = deep_substitute(o, ctxm or None, safe=safe)
            ctx.fail("a template that cannot be resolved was accepted", obj=repr(o), got=repr(got))
        except (KeyError, NameError, TypeError) as e:
            ctx.check(type(e) is type(err), "type of the error", got=repr(e), exp=repr(err))
        ctx.seen("templates that cannot be resolved")
        return
    mcopy = dict(ctxm)
    got = deep_substitute(o, mcopy, safe=safe, make_copy=copying)
    ctx.check(eq(got, exp), "substituted object", obj=repr(o), got=repr(got), exp=repr(exp), mapping=repr(ctxm), safe=safe)
    ctx.check(eq(mcopy, ctxm), "the mapping was changed")
    if copying:
        ctx.check(frozen(o) == before, "the original was changed", obj=repr(o))
    elif isinstance(o, (dict, list)):
        ctx.check(got is o, "in place returns the original")
        inner_in_place(ctx, o, exp)
        ctx.seen("templates substituted in place")
    if not has:
        ctx.check(got is o, "an object without templates is returned itself")
    again = deep_substitute(got, mcopy, safe=True)
    if not has_templates(got):
        ctx.check(again is got, "substituting again")
    ctx.seen("objects with templates" if has else "objects without templates")
    if has and isinstance(o, (dict, list, tuple)):
        ctx.nontrivial("t", repr(frozen_types(o)))


def inner_in_place(ctx, o, exp):
    ctx.check(eq(o, exp), "the original wasn't substituted in place", obj=repr(o), exp=repr(exp))


def frozen_types(o):
    if isinstance(o, dict):
        return {str(k): frozen_types(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [frozen_types(v) for v in o]
    return type(o).__name__


@monitor(weight=0.5)
def in_place(ctx):
    """Substituting in place reaches nested lists and dicts and keeps their identity."""
    rng = ctx.rng
    inner = [Rep("a"), {"x": Rep("a"), "y": 1}]
    deep = inner[1]
    o = pick(rng, [dict(k=inner, z=2), [inner, 3], {"q": {"k": inner}}])
    copying = bool(rng.integers(2))
    r = deep_substitute(o, {"a": 7}, make_copy=copying)
    if copying:
        ctx.check(isinstance(inner[0], Rep) and isinstance(deep["x"], Rep) and r is not o, "original of a copy changed")
    else:
        ctx.check(inner == [7, {"x": 7, "y": 1}] and r is o and inner[1] is deep, "nested objects in place", inner=repr(inner))
    ctx.seen("nested in-place substitutions")


# ---------------------------------------------------------------- mappings and enums

ENUMS = [getattr(mod, n) for mod in (pe, se, ge, le) for n in dir(mod) if hasattr(getattr(mod, n), "_fields") and not isinstance(getattr(mod, n), type)
         and all(isinstance(v, int) for v in getattr(mod, n))]


def spell(rng, s):
    if rng.random() < 0.5:
        s = pick(rng, [s.lower(), s.upper(), s.swapcase()])
    if rng.random() < 0.3:
        i = int(rng.integers(0, len(s) + 1))
        s = s[:i] + "_" + s[i:]
    return s


def wrap(rng, vals, dtype=None):
    """(container, function returning the values of a container of the same shape)."""
    kind = pick(rng, ["scalar", "list", "tuple", "nested", "array", "array2", "series", "index", "frame", "mframe"])
    n = len(vals)
    mk = lambda v: pd.Series(list(v), dtype=dtype)
    if kind == "scalar":
        return kind, vals[0], lambda x: [x], 1
    if kind == "list":
        return kind, list(vals), lambda x: x if type(x) is list else None, n
    if kind == "tuple":
        return kind, tuple(vals), lambda x: list(x) if type(x) is tuple else None, n
    if kind == "nested":
        return kind, [tuple(vals[:1]), [vals[1:]]], lambda x: list(x[0]) + list(x[1][0]) if type(x[0]) is tuple and type(x[1]) is list else None, n
    if kind in ("array", "array2"):
        a = mk(vals).to_numpy()
        if kind == "array2":
            a = np.column_stack([a, a])
            return kind, a, lambda x: list(x[:, 1]) if type(x) is np.ndarray and x.shape == a.shape and list(x[:, 0]) == list(x[:, 1]) else None, n
        return kind, a, lambda x: list(x) if type(x) is np.ndarray and x.ndim == 1 else None, n
    if kind == "series":
        s = pd.Series(mk(vals).to_numpy() if dtype is None else mk(vals).array, index=[f"i{k}" for k in range(n)], name="nm")
        return kind, s, lambda x: list(x) if isinstance(x, pd.Series) and x.index.equals(s.index) and x.name == "nm" else None, n
    if kind == "index":
        s = pd.Index(mk(vals).array, name="nm")
        return kind, s, lambda x: list(x) if isinstance(x, pd.Index) and x.name == "nm" else None, n
    cols = pd.Index(["u", "v"], name="cn") if kind == "frame" else pd.MultiIndex.from_tuples([("u", 1), ("v", 1)], names=["p", "q"])
    df = pd.concat([mk(vals), mk(vals[::-1])], axis=1)
    df.columns = cols
    return kind, df, lambda x: list(x.iloc[:, 0]) if isinstance(x, pd.DataFrame) and x.columns.equals(cols) and x.columns.names == cols.names and x.index.equals(df.index) and list(x.iloc[:, 1])[::-1] == list(x.iloc[:, 0]) else None, n


def exact(ctx, got, exp, msg, **info):
    ctx.check(got is not None and len(got) == len(exp) and all(g == e and (g is None) == (e is None) and isinstance(g, (bool, np.bool_)) == isinstance(e, (bool, np.bool_))
              and isinstance(g, str) == isinstance(e, str) and not (isinstance(e, int) and isinstance(g, (float, np.floating))) for g, e in zip(got, exp)), msg, got=repr(got), exp=repr(exp), **info)


@monitor(weight=2)
def enums(ctx):
    """Names of enum fields and their values are translated into each other, in any container and spelling."""
    rng = ctx.rng
    en = pick(rng, ENUMS)
    n = int(rng.integers(1, 6))
    fields = [pick(rng, en._fields) for _ in range(n)]
    vals = [int(getattr(en, f)) for f in fields]
    kind, obj, back, k = wrap(rng, [spell(rng, f) for f in fields])
    exact(ctx, back(map_enum_fields(obj, en)), vals[:k], "fields to values", obj=repr(obj), kind=kind)
    kind, obj, back, k = wrap(rng, vals)
    r = map_enum_fields(obj, en)
    exact(ctx, back(r), vals[:k], "values given for fields are kept", obj=repr(obj))
    r = map_enum_values(obj, en)
    exact(ctx, back(r), fields[:k], "values to fields", obj=repr(obj))
    kind, obj, back, k = wrap(rng, fields)
    exact(ctx, back(map_enum_values(obj, en)), fields[:k], "fields given for values are kept")
    exact(ctx, [map_enum_fields(map_enum_values(v, en), en) for v in vals], vals, "there and back")
    if -1 not in en:
        exact(ctx, [map_enum_values(-1, en), map_enum_fields(None, en)], [None, -1], "missing")
        mixed = vals + [-1]
        kind, obj, back, k = wrap(rng, mixed)
        if kind != "scalar":
            exact(ctx, back(map_enum_values(obj, en)), fields + [None], "missing value", obj=repr(obj))
    ctx.raises((KeyError, ValueError), map_enum_fields, "nosuchfield", en, msg="unknown field")
    for bad in (0.0, 1.0, np.array([0.0, 1.0]), pd.Series([1.0]), True, np.array([True])):
        ctx.raises((KeyError, ValueError), map_enum_fields, bad, en, msg="numbers other than integers are no enum values")
    ctx.raises((KeyError, ValueError), map_enum_values, 999, en, msg="unknown value")
    ctx.check(to_mapping(en, reverse=True) == {**en._asdict(), **({None: -1} if -1 not in en else {})}, "mapping of an enum")
    ctx.seen("enum translations", 5)
    ctx.nontrivial("e", kind, tuple(fields))


@monitor(weight=2)
def mappings(ctx):
    """Any mapping is applied exactly and reversibly."""
    rng = ctx.rng
    key_kind = pick(rng, ["str", "int", "float", "bool", "ts", "tzts", "big", "cat"])
    pool = dict(str=["Aa", "b_b", "CC", "dD"], int=[0, 1, 5, -3], float=[0.5, 1.5, -2.0, 1e9], bool=[True, False], big=[2**60 + 1, 2**60 + 3, 7],
                ts=list(pd.date_range("2020-01-01", periods=4)), tzts=list(pd.date_range("2020-01-01", periods=4, tz="UTC")), cat=["Aa", "b_b", "CC", "dD"])[key_kind]
    out_pool = pick(rng, [["u", "v", "w", "x"], [10, 20, 2**60 + 1, -7], [1.5, 2.5, 3.5, 4.5], ["u", None, "w", None], [1, None, 2**60 + 1, 3], [True, False, True, False], [(1, 2), (3,), (), (4,)]])
    keys = [pool[int(i)] for i in rng.permutation(len(pool))]
    m = dict(zip(keys, out_pool))
    ic, iu = bool(rng.random() < 0.6), bool(rng.random() < 0.6)
    n = int(rng.integers(1, 7))
    src = [pick(rng, keys) for _ in range(n)]
    given = src
    if key_kind in ("str", "cat"):
        given = [pick(rng, [k.lower(), k.upper()]) if ic and rng.random() < 0.5 else k for k in src]
        given = [k.replace("_", "") if iu and rng.random() < 0.5 else k for k in given]
    exp = [m[k] for k in src]
    kind, obj, back, k = wrap(rng, given, dtype="category" if key_kind == "cat" else None)
    mm = m
    form = pick(rng, ["dict", "series", "rev", "frozen"])
    rev = False
    if form == "series" and key_kind not in ("cat",):
        mm = pd.Series(list(m.values()), index=list(m.keys()), dtype=object)
    elif form == "rev" and len(set(map(repr, m.values()))) == len(m) and not any(v is None for v in m.values()):
        mm, rev = {v: k for k, v in m.items()}, True
        ctx.check(reverse_mapping(mm) == m, "reversed mapping")
    r = apply_mapping(obj, mm, reverse=rev, ignore_case=ic, ignore_underscores=iu)
    if kind in ("frame", "mframe", "array2"):
        exact_any(ctx, r, obj, exp, kind)
    elif not (isinstance(exp[0], tuple) and kind in ("nested",)):
        exact(ctx, back(r), exp[:k], "mapped values", kind=kind, obj=repr(obj), mapping=repr(mm), form=form)
    ctx.seen("mappings applied")
    ctx.seen(f"mapped {kind}")
    # keys that are not there
    unknown = dict(str="zzz", cat="zzz", int=77, float=77.5, bool=None, ts=pd.Timestamp("1999-01-01"), tzts=pd.Timestamp("1999-01-01", tz="UTC"), big=8)[key_kind]
    if unknown is not None:
        lst = [src[0], unknown]
        ctx.raises(KeyError, apply_mapping, lst, m, ignore_case=ic, ignore_underscores=iu, msg="unknown key")
        got = apply_mapping(lst, m, ignore_case=False, ignore_underscores=False, ignore_missing=True)
        exact(ctx, got, [m[src[0]], unknown], "unknown key ignored")
        na = pick(rng, [None, -1, "NA"])
        got = apply_mapping([src[0], None, float("nan")], m, na_sentinel=na)
        exact(ctx, got, [m[src[0]], na, na], "missing key")
    # sequences map positions
    seq = pick(rng, [["p", "q", "r"], np.array([5, 6, 7]), pd.Index([1.5, 2.5, 3.5])])
    pos = [int(i) for i in rng.integers(0, 3, 4)]
    exact(ctx, list(apply_mapping(np.array(pos), seq)), [seq[i] for i in pos], "positions mapped")
    ctx.check(apply_mapping(obj, None) is obj, "no mapping")
    ctx.nontrivial("m", key_kind, kind, form, ic, iu, repr(out_pool)[:20])


def exact_any(ctx, r, obj, exp, kind):
    a = r.to_numpy() if isinstance(r, pd.DataFrame) else r
    ctx.check(a.shape == obj.shape, "shape")
    if kind != "array2":
        ctx.check(r.columns.equals(obj.columns) and r.columns.names == obj.columns.names and r.index.equals(obj.index), "labels of a mapped frame")
        c0, c1 = list(r.iloc[:, 0]), list(r.iloc[:, 1])[::-1]
    else:
        c0, c1 = list(a[:, 0]), list(a[:, 1])
    exact(ctx, c0, exp, "mapped column", kind=kind)
    exact(ctx, c1, exp, "mapped second column", kind=kind)


# ---------------------------------------------------------------- tags

@monitor(weight=1)
def tags(ctx):
    rng = ctx.rng
    names = ["ta", "tb", "t_c", "d1", "notx", "or_"]
    have = {n for n in names if rng.random() < 0.45}

    def expr(depth):
        r = rng.random()
        if depth > 3 or r < 0.3:
            n = pick(rng, names)
            return n, n in have
        if r < 0.4:
            s, v = expr(depth + 1)
            return f"not ({s})", not v
        if r < 0.55:
            (a, x), (b, y) = expr(4), expr(4)
            return pick(rng, [(f"({a})", x), (f"({a}&{b})", x and y), (f"({a}|{b})", x or y), (f"({a}^{b})", x != y)])
        a, va_ = expr(depth + 1)
        b, vb = expr(depth + 1)
        if r < 0.75:
            return f"({a}) and ({b})", va_ and vb
        if r < 0.95:
            return f"({a}) or ({b})", va_ or vb
        return f"({a}) != ({b})", va_ != vb
    es = [expr(0) for _ in range(int(rng.integers(0, 4)))]
    arg = [e[0] for e in es]
    exp = any(e[1] for e in es)
    if len(arg) == 1 and rng.random() < 0.6:
        arg = arg[0]
    elif rng.random() < 0.3:
        arg = tuple(arg)
    hv = pick(rng, [list, tuple, set])(sorted(have))
    if len(have) == 1 and rng.random() < 0.5:
        hv = next(iter(have))
    got = match_tags(arg, hv)
    ctx.check(got is exp or got == exp, "tags", tags=arg, have=hv, got=got, exp=exp)
    if rng.random() < 0.2:
        ctx.raises(ValueError, match_tags, "ta", ["ta", "not ok"], msg="tag must be an identifier")
        ctx.raises(TypeError, match_tags, "1 + 1", ["ta"], msg="expression must be boolean")
    ctx.seen("tag expressions")
    ctx.nontrivial("g", str(arg), str(sorted(have)))


# ---------------------------------------------------------------- attributes

class Node:
    """Records the path by which it was reached."""

    def __init__(self, path=()):
        self.path = path

    @property
    def p(self):
        return Node(self.path + ("p",))

    @property
    def data(self):
        return 5

    def m(self, *args, **kwargs):
        return Node(self.path + (("m", args, tuple(sorted(kwargs.items()))),))

    def n(self, x=1, y=2):
        return Node(self.path + (("n", x, y),))


@monitor(weight=1)
def paths(ctx):
    rng = ctx.rng
    chain, exp = [], ()
    n = int(rng.integers(1, 6))
    simple = True
    for i in range(n):
        k = pick(rng, ["p", "m", "n", "(m)", "m2", "m3", "n2", "n3", "str"])
        if k == "p":
            chain.append("p")
            exp += ("p",)
        elif k == "m":
            chain.append("m")
            exp += (("m", (), ()),)
        elif k == "n":
            chain.append("n")
            exp += (("n", 1, 2),)
        elif k == "str":
            chain.append("p.m.n")
            exp += ("p", ("m", (), ()), ("n", 1, 2))
        else:
            simple = False
            a = tuple(int(v) for v in rng.integers(0, 9, int(rng.integers(0, 3))))
            kw = {"z": int(rng.integers(9))} if rng.random() < 0.6 else {}
            if k == "(m)":
                chain.append(("m",))
                exp += (("m", (), ()),)
            elif k == "m2":
                chain.append(("m", a))
                exp += (("m", a, ()),)
            elif k == "m3":
                chain.append(("m", a, kw))
                exp += (("m", a, tuple(kw.items())),)
            elif k == "n2":
                chain.append(("n", a[:1]))
                exp += (("n", a[0] if a else 1, 2),)
            else:
                chain.append(("n", a[:1], {"y": 7}))
                exp += (("n", a[0] if a else 1, 7),)
    form = chain if not simple or rng.random() < 0.5 else ".".join(chain)
    if isinstance(form, list):
        form = pick(rng, [lambda: form, lambda: iter(form), lambda: tuple(form)])() if False else form
        if len(form) == 1 and isinstance(form[0], tuple) and rng.random() < 0.5:
            form = form[0]
    got = deep_getattr(Node(), form)
    ctx.check(isinstance(got, Node) and got.path == exp, "path of attributes", chain=repr(form), got=got.path, exp=exp)
    last = chain[-1]
    if isinstance(last, str) and last.split(".")[-1] in ("m", "n"):
        got = deep_getattr(Node(), form, call_last_attr=False)
        ctx.check(callable(got) and got.__self__.path == exp[:-1], "the last attribute isn't called")
        ctx.seen("last attribute not called")
    seen = []

    def spy(obj, attr, args=None, kwargs=None, call_attr=True):
        seen.append(attr)
        return vat.default_getattr_func(obj, attr, args, kwargs, call_attr)
    deep_getattr(Node(), form, getattr_func=spy)
    ctx.check(seen == [e if isinstance(e, str) else e[0] for e in exp], "attributes visited", seen=seen, exp=repr(exp))
    ctx.raises(AttributeError, deep_getattr, Node(), ["p", "nosuch"], msg="unknown attribute")
    ctx.seen("attribute paths")
    ctx.nontrivial("a", repr(form))


class Resolver(AttrResolver):
    def __init__(self):
        self.log = []

    @property
    def prop(self):
        self.log.append(("prop",))
        return ("prop", len(self.log))

    @property
    def val(self):
        raise AssertionError("get_val should be called")

    def get_val(self, x=1, y=2):
        self.log.append(("val", x, y))
        return ("val", x, y)

    def meth(self, x, y=2, *, z=3):
        self.log.append(("meth", x, y, z))
        return ("meth", x, y, z)

    def var(self, x=0, **kw):
        self.log.append(("var", x, kw))
        return ("var", x, tuple(sorted(kw.items())))

    def post_resolve_attr(self, attr, out, final_kwargs=None):
        return ("post", attr, out)

    def pre_resolve_attr(self, attr, final_kwargs=None):
        return "meth" if attr == "alias" else attr


@monitor(weight=1)
def resolving(ctx):
    """Resolution of attributes passes exactly the arguments it should and caches only what is not specific to the caller."""
    rng = ctx.rng
    r = Resolver()
    cache, ref = {}, {}
    for _ in range(int(rng.integers(1, 8))):
        attr = pick(rng, ["prop", "val", "meth", "var", "alias"])
        cond = {k: int(rng.integers(10)) for k in ("x", "y", "z", "w") if rng.random() < 0.5}
        kw = {k: int(rng.integers(10, 20)) for k in ("x", "y", "z") if rng.random() < 0.3}
        if attr == "val":
            kw.pop("z", None)
        if attr in ("meth", "alias"):
            cond.setdefault("x", 3)
        custom = [k for k in ("x", "y", "z") if rng.random() < 0.15]
        use = bool(rng.random() < 0.8)
        out_kw = {}
        final = {**cond, **kw}
        n = len(r.log)
        got = r.resolve_attr(attr, cond_kwargs=dict(cond), kwargs=dict(kw), custom_arg_names=custom, cache_dct=cache, use_caching=use, passed_kwargs_out=out_kw)
        accepted = {"val": ("x", "y"), "meth": ("x", "y", "z"), "alias": ("x", "y", "z"), "var": ("x",), "prop": ()}[attr]
        passed = {} if attr == "prop" else {k: v for k, v in final.items() if k in accepted or k in kw}
        is_custom = any(k in custom for k in passed)
        if use and not is_custom and attr in ref:
            exp = ref[attr]
            ctx.check(len(r.log) == n, "evaluated although in the cache", attr=attr)
            ctx.seen("resolved from the cache")
        else:
            if attr == "prop":
                exp = ("prop", n + 1)
            elif attr == "var":
                exp = ("var", passed.get("x", 0), tuple(sorted((k, v) for k, v in passed.items() if k != "x")))
            else:
                d = dict(x=1, y=2, z=3)
                d.update(passed)
                exp = ("val", d["x"], d["y"]) if attr == "val" else ("meth", d["x"], d["y"], d["z"])
            if use and not is_custom:
                ref[attr] = exp
        ctx.check(got == ("post", attr, exp), "resolved attribute", attr=attr, got=got, exp=exp, conds=cond, kw=kw, custom=custom)
        ctx.check(out_kw == passed, "arguments reported as passed", got=out_kw, exp=passed)
        ctx.check(cache == ref, "cache of resolved attributes", got=cache, exp=ref)
        ctx.seen("attributes resolved")
        ctx.nontrivial("r", attr, tuple(sorted(cond)), tuple(sorted(kw)), tuple(custom), use)


# ---------------------------------------------------------------- dates and times

ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Sydney", "America/Sao_Paulo", "Asia/Tokyo"]
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


@monitor(weight=2)
def instants(ctx):
    """Parsing and converting datetimes keeps the instant."""
    rng = ctx.rng
    us = int(rng.integers(0, 2 * 10**15)) if rng.random() < 0.8 else int(rng.integers(0, 2 * 10**9)) * 10**6
    utc = EPOCH + timedelta(microseconds=us)
    zn = pick(rng, ZONES)
    zone = pick(rng, [ZoneInfo(zn), pytz.timezone(zn)])
    aware = utc.astimezone(zone)
    tz = pick(rng, [None, None, "UTC", "Europe/Berlin", 5, -3.5, timezone(timedelta(hours=2)), timedelta(hours=1), pytz.timezone("Asia/Kolkata"), ZoneInfo("Asia/Tokyo")])
    old = vbt.settings.datetime["to_py_timezone"]
    py = bool(rng.random() < 0.7)
    vbt.settings.datetime["to_py_timezone"] = py
    try:
        kind = pick(rng, ["aware", "aware", "ts", "ts", "naive", "nts", "dt64", "s", "ms", "us", "ns", "float", "date64"])
        naive_tz = None
        exp = utc
        if kind == "aware":
            x = aware
        elif kind == "ts":
            x = pd.Timestamp(utc).tz_convert(zone)
        elif kind in ("naive", "nts", "dt64", "date64"):
            # a wall clock reading which occurs exactly once
            wall = aware.replace(tzinfo=None)
            lo = {(wall - o.utcoffset()) for o in [(utc + timedelta(hours=h)).astimezone(zone) for h in (-30, 30)]}
            cands = {t for t in lo if t.replace(tzinfo=timezone.utc).astimezone(zone).replace(tzinfo=None) == wall}
            if len(cands) != 1:
                raise Skip
            naive_tz = pick(rng, [zone, zn])
            x = wall
            if kind == "nts":
                x = pd.Timestamp(wall)
            elif kind == "dt64":
                x = np.datetime64(wall)
                if rng.random() < 0.5:
                    x = x.astype("datetime64[ns]")
            elif kind == "date64":
                x = np.datetime64(wall.date())
                naive_tz = "UTC"
                exp = datetime(wall.year, wall.month, wall.day, tzinfo=timezone.utc)
        elif kind == "float":
            x = us / 10**6
        elif kind == "s":
            x = 10**9 + us // 10**6
            exp = EPOCH + timedelta(seconds=x)
        else:
            k = dict(ms=3, us=6, ns=9)[kind]
            x = (10**9 * 10**6 + us) * 10**k // 10**6
            exp = EPOCH + timedelta(microseconds=10**15 + us)
        r = vd.to_tzaware_datetime(x, naive_tz=naive_tz, tz=tz)
        tol = timedelta(0) if kind in ("aware", "ts", "naive", "nts", "dt64", "s", "date64") else timedelta(milliseconds=1) if kind == "ms" else timedelta(microseconds=2)
        ctx.check(r.tzinfo is not None and abs(r - exp) <= tol, "instant of a datetime", kind=kind, x=repr(x), tz=repr(tz), naive=repr(naive_tz), got=r.isoformat(), exp=exp.isoformat(), py=py)
        if tz is None and kind in ("aware", "ts"):
            ctx.check(r.utcoffset() == aware.utcoffset(), "clock reading of an aware datetime", got=r.isoformat(), exp=aware.isoformat())
        if py:
            ctx.check(type(r.tzinfo) is timezone, "type of the time zone")
        ms = vd.datetime_to_ms(aware)
        ctx.check(ms == us // 1000, "milliseconds", dt=aware.isoformat(), got=ms, exp=us // 1000)
        ctx.check(vd.is_tz_aware(aware) and not vd.is_tz_aware(utc.replace(tzinfo=None)), "is aware")
    finally:
        vbt.settings.datetime["to_py_timezone"] = old
    ctx.seen("instants converted")
    ctx.seen(f"datetime {kind}")
    ctx.nontrivial("d", kind, zn, repr(tz), py)


@monitor(weight=1)
def zones(ctx):
    """Times of the day, time zones, frequencies and intervals."""
    rng = ctx.rng
    h1, h2 = float(rng.integers(-24, 25)) / 2, float(rng.integers(-24, 25)) / 2
    tz1, tz2 = timezone(timedelta(hours=h1)), timezone(timedelta(hours=h2))
    t = time(int(rng.integers(24)), int(rng.integers(60)), int(rng.integers(60)), int(rng.integers(10**6)))
    sec = lambda x: timedelta(hours=x.hour, minutes=x.minute, seconds=x.second, microseconds=x.microsecond)
    day = timedelta(days=1)
    r = vd.convert_tzaware_time(t.replace(tzinfo=tz1), tz2)
    ctx.check((sec(r) - sec(t) - timedelta(hours=h2 - h1)) % day == timedelta(0) and r.utcoffset() == tz2.utcoffset(None), "time in another zone", t=str(t), got=str(r), h1=h1, h2=h2)
    r = vd.tzaware_to_naive_time(t.replace(tzinfo=tz1), tz2)
    ctx.check((sec(r) - sec(t) - timedelta(hours=h2 - h1)) % day == timedelta(0) and r.tzinfo is None, "naive time in another zone")
    local = datetime.now().astimezone().utcoffset()
    r = vd.naive_to_tzaware_time(t, tz2)
    ctx.check((sec(r) - sec(t) - timedelta(hours=h2) + local) % day == timedelta(0) and r.utcoffset() == tz2.utcoffset(None), "naive time to another zone")
    r = vd.convert_naive_time(t, tz2)
    ctx.check((sec(r) - sec(t) - timedelta(hours=h2) + local) % day == timedelta(0) and r.tzinfo is None, "naive time to naive time of another zone")
    off = lambda z: z.utcoffset(datetime(2020, 1, 1))
    for arg in (h1, timedelta(hours=h1), tz1, int(h1)):
        z = vd.to_timezone(arg, to_py_timezone=bool(rng.integers(2)))
        ctx.check(off(z) == timedelta(hours=int(h1) if type(arg) is int else h1), "time zone of an offset", arg=repr(arg), got=repr(z))
    zn = pick(rng, ["UTC", "Asia/Tokyo", "Asia/Kolkata"])
    ctx.check(off(vd.to_timezone(zn)) == ZoneInfo(zn).utcoffset(datetime(2020, 1, 1)), "named time zone")
    zz = vd.to_timezone("Europe/Berlin", to_py_timezone=False)
    ctx.check(pytz.timezone("Europe/Berlin") is zz, "time zones with daylight saving time are kept if asked for")
    ctx.raises(TypeError, vd.to_timezone, {"a": 1}, msg="not a time zone")
    # frequencies
    n = int(rng.integers(1, 100))
    u, secs = pick(rng, [("D", 86400), ("h", 3600), ("min", 60), ("s", 1), ("W", 7 * 86400)])
    exp = pd.Timedelta(seconds=secs)
    ctx.check(vd.freq_to_timedelta(u) == exp, "frequency without a number", u=u)
    if u != "W":
        ctx.check(vd.freq_to_timedelta(f"{n}{u}") == n * exp, "frequency", u=u, n=n)
    ctx.check(vd.freq_to_timedelta(n * exp) == n * exp and vd.freq_to_timedelta((n * exp).to_pytimedelta()) == n * exp and vd.freq_to_timedelta((n * exp).to_timedelta64()) == n * exp, "durations as frequencies")
    offs = {"D": pd.offsets.Day, "h": pd.offsets.Hour, "min": pd.offsets.Minute, "s": pd.offsets.Second}
    if u in offs:
        ctx.check(vd.freq_to_timedelta(offs[u](n)) == n * exp, "offset as a frequency", u=u, n=n)
    for un, s in (("m", 60), ("h", 3600), ("d", 86400), ("w", 7 * 86400)):
        ctx.check(vd.interval_to_ms(f"{n}{un}") == n * s * 1000, "interval in milliseconds", n=n, un=un)
    ctx.check(vd.interval_to_ms("5x") is None and vd.interval_to_ms("xm") is None, "unknown interval")
    ctx.seen("times and frequencies")
    ctx.nontrivial("z", h1, h2, u, n)


# ---------------------------------------------------------------- numbers

def rand_num(rng):
    r = rng.random()
    if r < 0.1:
        return float(pick(rng, [0.0, -0.0, 1.0, -1.0, np.nan, np.inf, -np.inf, 1e-12, 1e-13, 5e-324]))
    return float(rng.normal() * 10.0 ** rng.integers(-14, 15))


def near(rng, a):
    r = rng.random()
    if r < 0.25:
        return rand_num(rng)
    if r < 0.5:
        return float(a * (1 + rng.normal() * 10.0 ** rng.integers(-12, -6)))
    if r < 0.75:
        return float(a + rng.normal() * 10.0 ** rng.integers(-15, -9))
    return float(pick(rng, [a, -a, -a * (1 + 1e-11), a + 1e-12, a * (1 + 1e-9)]))


def ref_close(a, b, rel, ab):
    """None if too close to the border to tell."""
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    d = abs(Fraction(a) - Fraction(b))
    lim = max(Fraction(rel) * max(abs(Fraction(a)), abs(Fraction(b))), Fraction(ab))
    if d == 0:
        return True
    if lim != 0 and abs(d / lim - 1) < Fraction(1, 10**6):
        return None
    slack = Fraction(max(abs(a), abs(b))) * Fraction(1, 2**52)
    if abs(d - lim) <= slack:
        return None
    return d <= lim


@monitor(weight=1.5, modes=("pure", "jit"))
def tolerant(ctx):
    """Tolerant comparison and addition."""
    rng = ctx.rng
    for _ in range(20):
        a = rand_num(rng)
        b = near(rng, a)
        kw = {}
        rel, ab = 1e-9, 1e-12
        if rng.random() < 0.3:
            rel, ab = float(10.0 ** rng.integers(-12, 0)), float(10.0 ** rng.integers(-14, 0))
            kw = dict(rel_tol=rel, abs_tol=ab)
        c = ref_close(a, b, rel, ab)
        if c is not None:
            ctx.check(vm.is_close_nb(a, b, **kw) == c, "is_close", a=a, b=b, kw=kw)
            ctx.check(vm.is_close_or_less_nb(a, b, **kw) == (c or a < b), "is_close_or_less", a=a, b=b, kw=kw)
            ctx.check(vm.is_less_nb(a, b, **kw) == (not c and a < b), "is_less", a=a, b=b, kw=kw)
            ctx.seen("close numbers" if c else "distinct numbers")
        if math.isfinite(a) and math.isfinite(b):
            z = ref_close(abs(a), abs(b), rel, ab) if np.sign(a) != np.sign(b) else ref_close(a + b, 0.0, rel, ab)
            if z is not None:
                ctx.check(vm.is_addition_zero_nb(a, b, **kw) == z, "addition gives zero", a=a, b=b, kw=kw)
                ctx.check(vm.add_nb(a, b, **kw) == (0.0 if z else a + b), "addition", a=a, b=b, kw=kw)
        ctx.nontrivial("n", round(a, 6), round(b, 6))


@monitor(weight=1.5, modes=("pure", "jit"))
def arrays(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 12))
    k = pick(rng, ["sorted", "argsort", "ranges", "ranges", "norm", "minmax", "ints", "seed"])
    if k == "sorted":
        a = pick(rng, [np.sort(rng.integers(0, 6, n)), rng.integers(0, 3, n), np.sort(rng.normal(size=n))])
        exp = all(a[i] <= a[i + 1] for i in range(n - 1))
        ctx.check(bool(va.is_sorted(a)) == exp and bool(va.is_sorted_nb(a)) == exp, "is_sorted", a=a)
    elif k == "argsort":
        a = np.where(rng.random(n) < 0.2, np.nan, np.round(rng.normal(size=n), 1))
        A, I = a.copy(), np.arange(n)
        va.insert_argsort_nb(A, I)
        fin = sorted((x, i) for i, x in enumerate(a) if not np.isnan(x))
        m = len(fin)
        ctx.check(sorted(I.tolist()) == list(range(n)) and list(zip(A[:m].tolist(), I[:m].tolist())) == fin and np.isnan(A[m:]).all() and np.isnan(a[I[m:]]).all(), "argsort", a=a, A=A, I=I)
    elif k == "ranges":
        s = rng.integers(0, 20, n)
        e = s + rng.integers(0 if rng.random() < 0.5 else 1, 5, n)
        form = pick(rng, ["both", "both", "start", "end", "scalars"])
        if form == "start":
            s2, e2 = int(s[0]), np.maximum(e, s[0] + 1)
        elif form == "end":
            s2, e2 = s, int(e.max())
        elif form == "scalars":
            s2, e2 = int(s[0]), int(e[0])
        else:
            s2, e2 = s, e
        bs, be = np.broadcast_arrays(np.atleast_1d(s2), np.atleast_1d(e2))
        exp = [i for x, y in zip(bs, be) for i in range(x, y)]
        got = va.get_ranges_arr(s2, e2 if not isinstance(e2, np.ndarray) or rng.random() < 0.5 else e2.tolist())
        ctx.check(got.tolist() == exp and got.dtype.kind == "i", "ranges", s=s2, e=e2, got=got)
    elif k in ("norm", "minmax"):
        a = rng.normal(size=n) if k == "norm" else rng.uniform(0.0 if rng.random() < 0.2 else 0.1, 5, n)
        if k == "minmax" and rng.random() < 0.2:
            a[int(rng.integers(n))] = 0.0
        lo, hi = sorted(rng.uniform(0.5, 20, 2).tolist())
        if k == "norm":
            f = sorted(rng.normal(size=2).tolist())
            if f[1] - f[0] < 1e-3:
                raise Skip
            for fn in (va.renormalize, va.renormalize_nb):
                got = fn(a, (f[0], f[1]), (lo, hi))
                ctx.eq(got, lo + (a - f[0]) / (f[1] - f[0]) * (hi - lo), "renormalize")
        else:
            mn, mx = a.min(), a.max()
            ratio = hi / lo if mn == 0 else min(mx / mn, hi / lo)
            if mx == mn:
                ctx.eq(va.min_rel_rescale(a, (lo, hi)), np.full(n, lo), "constant rescaled")
                ctx.eq(va.max_rel_rescale(a, (lo, hi)), np.full(n, hi), "constant rescaled")
            else:
                u = (a - mn) / (mx - mn)
                ctx.eq(va.min_rel_rescale(a, (lo, hi)), lo + u * (lo * ratio - lo), "rescaled relative to the minimum", a=a, lo=lo, hi=hi)
                ctx.eq(va.max_rel_rescale(a, (lo, hi)), hi / ratio + u * (hi - hi / ratio), "rescaled relative to the maximum", a=a, lo=lo, hi=hi)
    elif k == "ints":
        u = va.uniform_summing_to_one_nb(n)
        ctx.check(u.shape == (n,) and (u >= 0).all() and abs(u.sum() - 1) < 1e-9, "summing to one", u=u)
        lo, hi = int(rng.integers(0, 3)), int(rng.integers(3, 30))
        base = np.floor(u * (hi - lo) + lo)
        total = int(base.sum() + rng.integers(0, 5))
        if np.abs(u * (hi - lo) + lo - np.round(u * (hi - lo) + lo)).min() > 1e-9:
            got = va.rescale_float_to_int_nb(u, (lo, hi) if ctx.mode == "pure" else [float(lo), float(hi)] if False else (float(lo), float(hi)), float(total))
            ctx.check(got.sum() == total and (got >= base).all() and (got == np.floor(got)).all(), "integers summing to the total", u=u, got=got, total=total)
    else:
        s = int(rng.integers(0, 2**31))
        vrandom.set_seed(s)
        import random
        x1 = (random.random(), np.random.uniform(), va.uniform_summing_to_one_nb(5).tolist())
        vrandom.set_seed(s)
        x2 = (random.random(), np.random.uniform(), va.uniform_summing_to_one_nb(5).tolist())
        ctx.check(x1 == x2, "the same seed gives the same numbers", x1=x1, x2=x2)
        vrandom.set_seed(s + 1)
        ctx.check(va.uniform_summing_to_one_nb(5).tolist() != x1[2], "another seed gives other numbers")
    ctx.seen(f"arrays {k}")
    ctx.nontrivial("ar", k, n, float(rng.random()))
