"""I02: an indicator over many parameters equals one run per parameter, whatever the factory options."""
import itertools
import warnings
from collections import namedtuple
import numpy as np
import pandas as pd
import vectorbt as vbt
from numba import njit
from vectorbt.utils.config import Default
from vt import gen
from vt.core import monitor, Skip
from vt.gen import pick
from vt.checks.g02 import ref_cross

NAN = np.nan
LETTERS = ["p", "q", "s"]


def plain(ctx):
    """Interpreted execution: only functions named *_nb count as compiled ones."""
    if ctx.mode == "pure":
        vbt.settings.numba["check_func_type"] = True
        vbt.settings.numba["check_func_suffix"] = True


def table(rng, n, c, series=False):
    a = np.round(rng.normal(0, 4, (n, c)) * 4) / 4
    if rng.random() < 0.2:
        a[rng.random((n, c)) < 0.15] = NAN
    return a


def value(outno, xs, ps, k=0.0, extra=0.0):
    """Reference of one input column and one combination."""
    x = xs[0].astype(float)
    for i, y in enumerate(xs[1:]):
        x = x + (i + 2) * y
    t = np.arange(len(x))
    out = x.copy()
    for i, p in enumerate(ps):
        out = out * (2 ** i) + (i + 1) * float(p) * (1 + t)
    if outno:
        out = np.flip(out) - outno
    return out + k + extra


def columns(rng, c):
    kind = pick(rng, ["str", "multi", "dups", "int"])
    if kind == "multi":
        return pd.MultiIndex.from_arrays([[f"g{j // 2}" for j in range(c)], [f"c{j}" for j in range(c)]], names=["g", "t"])
    if kind == "dups":
        return pd.Index(["a"] * c, name="sym")
    if kind == "int":
        return pd.Index([10 * (c - j) for j in range(c)], name="sym")
    return pd.Index([f"c{j}" for j in range(c)], name="sym")


def parts(columns_):
    return [list(columns_.get_level_values(i)) for i in range(columns_.nlevels)] if isinstance(columns_, pd.MultiIndex) else [list(columns_)]


def expect_columns(base, combos, names, short, hidden, per_column=False):
    """Level names and value lists expected on the output columns."""
    c = len(base)
    lv, nm = [], []
    for i, p in enumerate(names):
        if i in hidden:
            continue
        nm.append(f"{short}_{p}" if short else p)
        lv.append([combos[j][i] for j in range(c)] if per_column else [q[i] for q in combos for _ in range(c)])
    t = 1 if per_column else len(combos)
    if per_column:
        t = 1
    for v, b in zip(parts(base), base.names):
        nm.append(b)
        lv.append(v * t)
    return nm, lv


def check_columns(ctx, got, exp, msg):
    nm, lv = exp
    ctx.check(list(got.names) == nm, f"{msg}: level names {list(got.names)} instead of {nm}")
    for i, n in enumerate(nm):
        g = [x.item() if isinstance(x, np.generic) else x for x in got.get_level_values(i)]
        ctx.check(g == lv[i], f"{msg}: level {n} is {g} instead of {lv[i]}")


@njit
def loop_one(x, p, q):
    out = np.empty(x.shape, np.float64)
    for i in range(x.shape[0]):
        for j in range(x.shape[1]):
            out[i, j] = (x[i, j] + p * (1 + i)) * 2 + 2 * q * (1 + i)
    return out


@njit
def loop_two(x, p, q):
    out = loop_one(x, p, q)
    return out, out[::-1] - 1


def loop_factory(f, no, opts):
    return f.from_apply_func(loop_one if no == 1 else loop_two, numba_loop=True, **opts)


LOOPS = {}


@monitor(weight=2, modes=("jit",))
def m_loop(ctx):
    """The compiled loop over parameters."""
    plain(ctx)
    rng = ctx.rng
    no = int(rng.integers(1, 3))
    if no not in LOOPS:
        LOOPS[no] = loop_factory(vbt.IndicatorFactory(input_names=["x"], param_names=["p", "q"], output_names=["o", "w"][:no]), no, {})
    n, c, P = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 6))
    x = table(rng, n, c)
    ps, qs = [float(v) for v in rng.integers(0, 9, P)], [float(v) for v in rng.integers(0, 9, P)]
    r = LOOPS[no].run(pd.DataFrame(x), ps, qs)
    for o, m in enumerate(["o", "w"][:no]):
        e = np.column_stack([value(o, [x[:, j]], q, 0.0) for q in zip(ps, qs) for j in range(c)])
        ctx.eq(np.asarray(getattr(r, m)).reshape(n, -1), e, f"compiled loop, output {m} for {list(zip(ps, qs))}")
    ctx.seen("numba_loop")
    ctx.nontrivial("loop", x.tobytes(), str(ps))


class Spec:
    """A factory indicator with drawn options and its reference."""

    def __init__(self, ctx):
        rng = ctx.rng
        self.ni, self.np_, self.no = int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
        self.names = LETTERS[:self.np_]
        self.short = pick(rng, [None, "my"])
        self.prepend = rng.random() < 0.85
        self.mode = pick(rng, ["apply", "apply", "apply", "custom", "packed"])
        self.keep_pd = rng.random() < 0.25
        self.to_2d = rng.random() < 0.75
        self.k = self.mode != "custom" and rng.random() < 0.3
        self.cache = self.mode in ("apply", "packed") and rng.random() < 0.35
        self.loop = ctx.mode == "jit" and self.mode == "apply" and rng.random() < 0.1
        if self.loop:
            self.keep_pd, self.to_2d, self.cache, self.k = False, True, False, False
            self.ni, self.np_, self.no = 1, 2, int(rng.integers(1, 3))
            self.names = LETTERS[:2]
        self.calls = 0
        self.cache_calls = 0
        self.defaults = {p: float(i + 5) for i, p in enumerate(self.names) if i and rng.random() < 0.25}
        self.hide = [p for p in self.names if rng.random() < 0.12]
        self.hide_default = rng.random() < 0.6

    def build(self, ctx):
        kw = dict(input_names=[f"x{i}" for i in range(self.ni)], param_names=self.names, output_names=[f"o{i}" for i in range(self.no)], prepend_name=bool(self.prepend))
        if self.short:
            kw["short_name"] = self.short
        f = vbt.IndicatorFactory(**kw)
        opts = dict(keep_pd=bool(self.keep_pd), to_2d=bool(self.to_2d), **self.defaults)
        if self.hide and ctx.rng.random() < 0.5:
            opts["hide_params"] = list(self.hide)
            self.hide_at_run = False
        else:
            self.hide_at_run = True
        ni, np_, no, spec = self.ni, self.np_, self.no, self

        def compute(xs, ps, k):
            arrs = [np.asarray(x, float) for x in xs]
            one = arrs[0].ndim == 1
            arrs = [a[:, None] if a.ndim == 1 else a for a in arrs]
            outs = []
            for o in range(no):
                m = np.column_stack([value(o, [a[:, j] for a in arrs], ps, k) for j in range(arrs[0].shape[1])])
                outs.append(m[:, 0] if one else m)
            if spec.keep_pd:
                ctx.check(all(isinstance(x, (pd.Series, pd.DataFrame)) for x in xs), "pandas inputs reach the function")
            if spec.to_2d:
                ctx.check(all(np.ndim(x) == 2 for x in xs), "two-dimensional inputs reach the function")
            return outs[0] if no == 1 else tuple(outs)
        if self.mode == "custom":
            def custom(*a):
                xs, pl = a[:ni], a[ni:ni + np_]
                ctx.check(len(a) == ni + np_, "arguments of the custom function", n=len(a))
                res = [compute(xs, ps, 0.0) for ps in zip(*pl)]
                spec.calls += len(res)
                if no == 1:
                    return np.column_stack(res)
                return [np.column_stack(y) for y in zip(*res)]
            return f.from_custom_func(custom, **opts)
        if self.cache:
            def cache_func(*a, **_):
                spec.cache_calls += 1
                return {"key": tuple(tuple(pl) for pl in a[ni:ni + np_])}
            opts["cache_func"] = cache_func
        if self.k:
            opts.update(kwargs_to_args=["k"], k=0.0)
        if self.loop:
            return loop_factory(f, no, opts)

        def tail(rest):
            rest = list(rest)
            k = 0.0
            if spec.k:
                k = rest.pop(0)
            if spec.cache:
                c = rest.pop(0)
                ctx.check(isinstance(c, dict) and len(c["key"]) == np_, "the cache reaches the function")
            ctx.check(not rest, "no further arguments", rest=str(rest))
            return k
        if self.mode == "packed":
            def apply(xs, inouts, ps, *rest):
                spec.calls += 1
                ctx.check(len(xs) == ni and len(ps) == np_ and tuple(inouts) == (), "packed tuples")
                return compute(xs, ps, tail(rest))
            return f.from_apply_func(apply, pass_packed=True, **opts)

        def apply(*a):
            spec.calls += 1
            return compute(a[:ni], a[ni:ni + np_], tail(a[ni + np_:]))
        return f.from_apply_func(apply, **opts)


def draw_params(rng, spec, c, product, per_column):
    """Parameter arguments and the combinations they mean."""
    lens = []
    p = c if per_column else int(rng.integers(1, 5))
    args, lists, defaulted = {}, [], []
    for i, name in enumerate(spec.names):
        if name in spec.defaults and rng.random() < 0.6:
            lists.append([spec.defaults[name]])
            defaulted.append(i)
            continue
        m = int(rng.integers(1, 4)) if product else (p if rng.random() < 0.7 else 1)
        if per_column and product:
            m = 1
        vals = [pick(rng, [1, 2, 3, 0.5, -1.0, True]) if not spec.loop else float(rng.integers(1, 4)) for _ in range(m)]
        if rng.random() < 0.6:
            vals = [float(v) for v in vals]
        elif len({type(v) for v in vals}) > 1:
            vals = [float(v) for v in vals]
        lists.append(vals)
        if m == 1 and rng.random() < 0.5:
            args[name] = vals[0]
        else:
            args[name] = pick(rng, [list, tuple, np.array])(vals)
    if product:
        combos = list(itertools.product(*lists))
    else:
        n = max(map(len, lists))
        combos = list(zip(*[x * n if len(x) == 1 else x for x in lists]))
    if per_column and len(combos) == 1:
        combos = combos * c
    return args, combos, defaulted


@monitor(weight=6, modes=("pure", "jit"))
def m_grid(ctx):
    plain(ctx)
    rng = ctx.rng
    spec = Spec(ctx)
    F = spec.build(ctx)
    n, c = int(rng.integers(1, 7)), int(rng.integers(1, 4))
    per_column = rng.random() < 0.2 and not spec.loop
    product = bool(rng.random() < 0.35) and not per_column
    args, combos, defaulted = draw_params(rng, spec, c, product, per_column)
    idx, cols = gen.dt_index(rng, n), columns(rng, c)
    ser = c == 1 and rng.random() < 0.6
    arrs = [table(rng, n, c) for _ in range(spec.ni)]
    if ser:
        cols = pd.Index([pick(rng, ["x", None])])
        ins = [pd.Series(a[:, 0], index=idx, name=cols[0]) for a in arrs]
    else:
        ins = [pd.DataFrame(a, index=idx, columns=cols) for a in arrs]
        if spec.ni == 2 and rng.random() < 0.4:      # the second input is broadcast
            form = pick(rng, ["series", "scalar", "array"])
            if form == "series":
                arrs[1] = np.repeat(arrs[1][:, :1], c, 1)
                ins[1] = pd.Series(arrs[1][:, 0], index=idx)
            elif form == "scalar":
                arrs[1] = np.full((n, c), 3.0)
                ins[1] = 3.0
            else:
                ins[1] = arrs[1].copy()
            ctx.seen("broadcast_inputs")
    kw = {}
    short = ("my" if spec.short else "custom") if spec.prepend else None
    if spec.prepend and rng.random() < 0.2:
        short = kw["short_name"] = "other"
    if product:
        kw["param_product"] = True
    if per_column:
        kw["per_column"] = True
        ctx.seen("per_column")
    if rng.random() < 0.4:
        kw["run_unique"] = bool(rng.random() < 0.8)
    k = 0.0
    if spec.k and rng.random() < 0.6:
        k = kw["k"] = float(rng.integers(1, 5))
    hidden = set()
    hide = spec.hide
    if spec.hide_at_run and spec.hide:
        kw["hide_params"] = list(spec.hide)
    hidden |= {i for i, p in enumerate(spec.names) if p in hide}
    hd = True
    if not spec.hide_default:
        hd = kw["hide_default"] = False
    if hd:
        hidden |= set(defaulted)
    spec.calls = spec.cache_calls = 0
    kwin = dict(kw, hide_params=list(kw["hide_params"])) if "hide_params" in kw else dict(kw)
    r = F.run(*ins, **args, **kwin)
    uniq = len(set(combos)) if kw.get("run_unique") else len(combos)
    if per_column:
        uniq = c
    if not spec.loop:
        ctx.check(spec.calls == uniq, f"function called {spec.calls} times for {uniq} combinations", combos=combos, kw=str(kw))
    if uniq < len(combos):
        ctx.seen("unique_shortcut")
    if spec.cache:
        ctx.check(spec.cache_calls == (c if per_column else 1), f"cache computed {spec.cache_calls} times")
        ctx.seen("cache")
    what = f"{spec.mode} {args} {kw} keep_pd={spec.keep_pd} to_2d={spec.to_2d}"
    for o in range(spec.no):
        out = getattr(r, f"o{o}")
        if per_column:
            e = np.column_stack([value(o, [a[:, j] for a in arrs], combos[j], k) for j in range(c)])
        else:
            e = np.column_stack([value(o, [a[:, j] for a in arrs], q, k) for q in combos for j in range(c)])
        ctx.eq(np.asarray(out, float).reshape(n, -1), e, f"output {o}: {what}")
        ctx.check(list(out.index) == list(idx), "index kept")
        single = e.shape[1] == 1 and ser
        ctx.check(isinstance(out, pd.Series) == single, f"type of the output ({what})")
        if not single and not ser:
            check_columns(ctx, out.columns, expect_columns(cols, combos, spec.names, short, hidden, per_column), what)
        elif not single:
            cc = out.columns
            for i, p in enumerate(spec.names):
                if i not in hidden and not per_column:
                    lv = cc.get_level_values(f"{short}_{p}" if short else p)
                    ctx.check([float(v) for v in lv] == [float(q[i]) for q in combos], f"labels of a series: {list(lv)} for {combos}")
        cells = len(combos)
        ctx.seen("cells", e.size)
    for i in range(spec.ni):                                  # inputs are exposed per output column
        x = np.asarray(getattr(r, f"x{i}"), float).reshape(n, -1)
        e = arrs[i] if per_column else np.tile(arrs[i], (1, len(combos)))
        ctx.eq(x, e, f"input {i} of the indicator ({what})")
    for i, p in enumerate(spec.names):
        pl = [q[i] for q in combos]
        ctx.check([float(v) for v in getattr(r, f"{p}_list")] == [float(v) for v in pl], f"list of {p}")
        mp = [float(v) for v in getattr(r, f"_{p}_mapper")]
        ctx.check(mp == [float(v) for v in (pl if per_column else np.repeat(pl, c))], f"mapper of {p}: {mp} of {pl}")
    ctx.seen(spec.mode)
    if spec.loop:
        ctx.seen("numba_loop")
    if product:
        ctx.seen("product")
    if hidden:
        ctx.seen("hidden")
    if len(hidden) == len(spec.names) and len(combos) > 1:
        ctx.seen("all_hidden")
    # raw results and caches are reused
    if rng.random() < 0.3 and not per_column and not spec.loop:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kr = dict(kwin, run_unique=False) if "run_unique" in kwin else kwin
            raw = F.run(*ins, **args, **kr, return_raw=True)
            pos = [int(v) for v in rng.integers(0, len(combos), int(rng.integers(1, 5)))]
            sub = [combos[v] for v in pos]
            calls = spec.calls
            kr2 = {a: b for a, b in kr.items() if a != "param_product"}
            r2 = F.run(*ins, **{p: [q[i] for q in sub] for i, p in enumerate(spec.names)}, **kr2, use_raw=raw)
        ctx.check(spec.calls == calls, "reusing raw results does not compute")
        for o in range(spec.no):
            e = np.column_stack([value(o, [a[:, j] for a in arrs], q, k) for q in sub for j in range(c)])
            ctx.eq(np.asarray(getattr(r2, f"o{o}"), float).reshape(n, -1), e, f"raw results reused: {sub} of {combos}")
        ctx.seen("raw_reused")
        if spec.cache:
            ca = F.run(*ins, **args, **kr, return_cache=True)
            cc = spec.cache_calls
            r3 = F.run(*ins, **args, **kr, use_cache=ca)
            ctx.check(spec.cache_calls == cc, "passed cache is used")
            ctx.eq(np.asarray(r3.o0, float), np.asarray(r.o0, float), "passed cache gives the same output")
            ctx.seen("cache_reused")
    ctx.nontrivial(what, arrs[0].tobytes())


@monitor(weight=3, modes=("pure",))
def m_combs(ctx):
    plain(ctx)
    rng = ctx.rng
    spec = Spec(ctx)
    spec.hide, spec.keep_pd = [], False
    F = spec.build(ctx)
    n, c = int(rng.integers(1, 5)), int(rng.integers(1, 3))
    product = bool(rng.random() < 0.4)
    args, combos, defaulted = draw_params(rng, spec, c, product, False)
    fn = pick(rng, [itertools.combinations, itertools.permutations, itertools.product, itertools.combinations_with_replacement])
    R = int(rng.integers(2, 4))
    if not isinstance(fn, type) or len(combos) < R and fn in (itertools.combinations, itertools.permutations):
        raise Skip
    idx, cols = gen.dt_index(rng, n), columns(rng, c)
    arrs = [table(rng, n, c) for _ in range(spec.ni)]
    ins = [pd.DataFrame(a, index=idx, columns=cols) for a in arrs]
    kw = gen.omit(rng, dict(r=R, comb_func=fn, param_product=product, run_unique=bool(rng.random() < 0.6)), dict(r=2, comb_func=itertools.combinations, param_product=False, run_unique=True))
    hide = [p for p in spec.names if rng.random() < 0.15]
    shorts = None
    if rng.random() < 0.4:
        shorts = kw["short_names"] = [f"s{i}" for i in range(R)]
    hd = bool(rng.random() < 0.6)
    if not hd:
        kw["hide_default"] = False
    given = list(hide)
    if hide:
        kw["hide_params"] = given
    tup = fn(combos, repeat=R) if fn is itertools.product else fn(combos, R)
    rows = list(zip(*tup))
    if len(rows[0]) > 40:
        raise Skip
    rs = F.run_combs(*ins, **args, **kw)
    ctx.check(given == hide, "the caller's list of hidden parameters is untouched", got=given)
    ctx.check(isinstance(rs, tuple) and len(rs) == R, "one indicator per position")
    base = "my" if spec.short else "custom"
    hidden = {i for i, p in enumerate(spec.names) if p in hide} | (set(defaulted) if hd else set())
    for t, r in enumerate(rs):
        sub = rows[t]
        for o in range(spec.no):
            e = np.column_stack([value(o, [a[:, j] for a in arrs], q) for q in sub for j in range(c)])
            out = getattr(r, f"o{o}")
            ctx.eq(np.asarray(out, float).reshape(n, -1), e, f"combination run {t}: {fn.__name__} of {combos}")
            sh = (shorts[t] if shorts else f"{base}_{t + 1}") if spec.prepend else None
            check_columns(ctx, out.columns, expect_columns(cols, sub, spec.names, sh, hidden), f"combination run {t} {kw}")
    ctx.seen("combinations")
    ctx.seen("comb_" + fn.__name__)
    ctx.nontrivial(fn.__name__, R, str(combos), arrs[0].tobytes())


@monitor(weight=3, modes=("pure",))
def m_in_outputs(ctx):
    """In-place outputs: passed, defaulted or created; arrays or pandas objects; per column."""
    plain(ctx)
    rng = ctx.rng
    keep_pd, to_2d = bool(rng.random() < 0.4), bool(rng.random() < 0.7)
    names = ["u", "v", "w"][:int(rng.integers(1, 4))]
    has_out = rng.random() < 0.6
    n, c, P = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    per_column = rng.random() < 0.25
    if per_column:
        P = 1
    ser = c == 1 and rng.random() < 0.6
    idx, cols = gen.dt_index(rng, n), columns(rng, c)
    x = table(rng, n, c)
    start = {}
    full = {}
    for m in names:
        k = pick(rng, ["none", "scalar", "array"])
        if k == "scalar":
            start[m] = float(rng.integers(1, 9))
            full[m] = np.full((n, c), start[m])
        elif k == "array":
            a = rng.integers(0, 9, (n, c)).astype(float)
            full[m] = a.copy()
            start[m] = a[:, 0].copy() if ser else a.copy()
    keep = {m: np.copy(v) for m, v in start.items()}
    at_def = {m: start.pop(m) for m in list(start) if np.ndim(start[m]) == 0 and rng.random() < 0.3}

    def write(obj, new):
        new = np.asarray(new)
        if isinstance(obj, (pd.Series, pd.DataFrame)):
            obj.iloc[:] = new
        else:
            obj[:] = new

    def apply(xx, *a):
        ios, p = a[:len(names)], a[len(names)]
        for i, (m, io) in enumerate(zip(names, ios)):
            ctx.check(np.shape(io) == np.shape(xx), "shape of an in-place output", got=np.shape(io))
            if m in full:
                write(io, np.asarray(io) * 2 + p * (i + 1))
            else:
                write(io, np.asarray(xx) * p + i)
        if has_out:
            return np.asarray(xx) + p
    outs = ["o"] if has_out else []
    f = vbt.IndicatorFactory(input_names=["x"], param_names=["p"], in_output_names=names, output_names=outs)
    F = f.from_apply_func(apply, keep_pd=keep_pd, to_2d=to_2d, in_output_settings={m: dict(dtype=np.float64) for m in names}, **at_def)
    ps = [float(v) for v in rng.integers(1, 5, P)] if not per_column else [float(v) for v in rng.integers(1, 5, c)]
    xi = pd.Series(x[:, 0], index=idx, name="x") if ser else pd.DataFrame(x, index=idx, columns=cols)
    uniq = bool(rng.random() < 0.4)
    r = F.run(xi, ps, **start, per_column=bool(per_column), run_unique=uniq)
    if not per_column:
        for m in start:
            ctx.eq(np.asarray(start[m]), keep[m], f"array passed for {m} is not modified", rtol=0, atol=0)
    for i, m in enumerate(names):
        got = np.asarray(getattr(r, m), float).reshape(n, -1)
        pp = [[p] * c for p in ps] if not per_column else [ps]
        e = np.hstack([np.column_stack([(full[m][:, j] * 2 + q[j] * (i + 1)) if m in full else x[:, j] * q[j] + i for j in range(c)]) for q in pp])
        ctx.eq(got, e, f"in-place output {m} (given {sorted(full)}, defaults {at_def}, keep_pd={keep_pd}, to_2d={to_2d}, per_column={per_column}, series={ser}, run_unique={uniq}, p={ps})")
    if has_out:
        pp = [[p] * c for p in ps] if not per_column else [ps]
        ctx.eq(np.asarray(r.o, float).reshape(n, -1), np.hstack([x + np.array(q) for q in pp]), "regular output next to in-place ones")
    ctx.seen("in_outputs")
    if full and len(full) < len(names):
        ctx.seen("partly_given")
    if keep_pd:
        ctx.seen("in_outputs_pandas")
    ctx.nontrivial("io", x.tobytes(), str(ps), str(sorted(full)))


E_ = namedtuple("E_", ["Lo", "Hi"])(0, 7)


@monitor(weight=3, modes=("pure",))
def m_settings(ctx):
    """Tuples, arrays broadcast to the input, enumerated values, per-column values and references."""
    plain(ctx)
    rng = ctx.rng
    kind = pick(rng, ["tuple", "array", "array_col", "enum", "per_column", "reference", "nothing", "shape"])
    n, c, P = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    idx, cols = gen.dt_index(rng, n), columns(rng, c)
    x = table(rng, n, c)
    df = pd.DataFrame(x, index=idx, columns=cols)
    mk = lambda f, **kw: vbt.IndicatorFactory(input_names=["x"], param_names=["p"], output_names=["o"]).from_apply_func(f, **kw)
    if kind == "tuple":
        vals = [tuple(int(v) for v in rng.integers(0, 9, 2)) for _ in range(P)]
        F = mk(lambda a, p: a * p[0] + p[1], param_settings=dict(p=dict(is_tuple=True)))
        arg = vals[0] if P == 1 and rng.random() < 0.5 else vals
        r = F.run(df, arg)
        e = np.hstack([x * p[0] + p[1] for p in vals])
        lab = [f"tuple_{v}" for v in range(P) for _ in range(c)]
        ctx.check(list(r.o.columns.get_level_values("custom_p")) == lab, "tuple labels")
    elif kind == "array":
        vals = [rng.integers(0, 9, (n, c)).astype(float) for _ in range(P)]
        forms = []
        for j, v in enumerate(vals):
            f = pick(rng, ["full", "row", "col"])
            if f == "row":
                vals[j] = np.repeat(v[:1], n, 0)
                forms.append(v[0].copy() if c > 1 else v[:1].copy())
            elif f == "col":
                vals[j] = np.repeat(v[:, :1], c, 1)
                forms.append(v[:, :1].copy())
            else:
                forms.append(v.copy())
        F = mk(lambda a, p: a + p * 2, param_settings=dict(p=dict(is_array_like=True, bc_to_input=True)))
        r = F.run(df, forms if P > 1 or rng.random() < 0.5 else forms[0])
        e = np.hstack([x + v * 2 for v in vals])
    elif kind == "array_col":
        vals = [rng.integers(0, 9, c).astype(float) for _ in range(P)]
        F = mk(lambda a, p: a + p, param_settings=dict(p=dict(is_array_like=True, bc_to_input=1, per_column=True)))
        r = F.run(df, [v.copy() for v in vals])
        e = np.hstack([x + v for v in vals])
        ctx.check([float(v) for v in r.o.columns.get_level_values("custom_p")] == [float(w) for v in vals for w in v], "labels of values per column")
    elif kind == "enum":
        vals = [pick(rng, ["Lo", "Hi", "lo", "HI"]) for _ in range(P)]
        F = mk(lambda a, p: a + p, param_settings=dict(p=dict(dtype=E_)))
        r = F.run(df, vals if P > 1 else pick(rng, [vals, vals[0]]))
        num = [dict(lo=0, hi=7)[v.lower()] for v in vals]
        e = np.hstack([x + v for v in num])
        ctx.check([int(v) for v in r.o.columns.get_level_values("custom_p")] == [v for v in num for _ in range(c)], "labels of enumerated values")
    elif kind == "per_column":
        vals = [float(v) for v in rng.integers(1, 9, c)]
        F = mk(lambda a, p, col=None: a * p + 100 * col, pass_col=True, kwargs_to_args=["col"]) if False else mk(lambda col, a, p: a * p + 100 * col)
        r = F.run(df, vals if c > 1 or rng.random() < 0.5 else vals[0], per_column=True, pass_col=True)
        e = x * np.array(vals) + 100 * np.arange(c)
        check_columns(ctx, r.o.columns, expect_columns(cols, [(v,) for v in vals], ["p"], "custom", set(), True), "per column")
    elif kind == "reference":
        f = vbt.IndicatorFactory(input_names=["x", "y"], param_names=["p", "q"], output_names=["o"])
        F = f.from_apply_func(lambda a, b, p, q: a + 2 * b + 3 * p + 5 * q, y="x", q="p")
        ps = [float(v) for v in rng.integers(0, 9, P)]
        if rng.random() < 0.5:
            r = F.run(df, ps)
            e = np.hstack([x * 3 + 8 * p for p in ps])
            ctx.check("custom_q" not in r.o.columns.names and "custom_p" in r.o.columns.names, "defaulted references are hidden", names=list(r.o.columns.names))
        else:
            r = F.run(df, ps, y=df * 10, q=1.0)
            e = np.hstack([x * 21 + 3 * p + 5 for p in ps])
    elif kind == "nothing":
        f = vbt.IndicatorFactory(input_names=["x"], output_names=["o"])
        r = f.from_apply_func(lambda a: a * 2).run(df)
        e = x * 2
        ctx.check(r.o.columns.equals(cols), "no parameters: columns as given")
    else:
        f = vbt.IndicatorFactory(param_names=["p"], output_names=["o"])
        F = f.from_apply_func(lambda shape, p: np.full(shape, p), require_input_shape=True)
        ps = [float(v) for v in rng.integers(0, 9, P)]
        r = F.run((n, c), ps, input_index=idx, input_columns=cols)
        e = np.hstack([np.full((n, c), p) for p in ps])
        check_columns(ctx, r.o.columns, expect_columns(cols, [(p,) for p in ps], ["p"], "custom", set()), "from an input shape")
    ctx.eq(np.asarray(r.o, float).reshape(n, -1), e, f"parameters of kind {kind}")
    ctx.seen("kind_" + kind)
    ctx.nontrivial(kind, x.tobytes(), P)


KEYS = dict(num=[1, 2, 3, 5], flt=[0.5, 1.0, 2.5], bool=[True, False], str=["a", "b", "c"], tup=[(1, 2), (1, 3), (2, 2)])


@monitor(weight=4, modes=("pure",))
def m_indexing(ctx):
    """Columns by parameter value, by combination, position, label and row range."""
    plain(ctx)
    rng = ctx.rng
    kinds = [pick(rng, list(KEYS)) for _ in range(int(rng.integers(1, 4)))]
    names = LETTERS[:len(kinds)]
    P, n, c = int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
    vals = [[pick(rng, KEYS[k]) for _ in range(P)] for k in kinds]
    if rng.random() < 0.3:
        vals = [sorted(v) for v in vals]
    raw_vals = vals
    vals = [[f"tuple_{t}" for t in range(P)] if k == "tup" else v for k, v in zip(kinds, vals)]     # tuples are labelled by position
    combos = list(zip(*vals))
    idx, cols = gen.dt_index(rng, n), pd.Index([f"c{j}" for j in range(c)], name="sym")
    x = table(rng, n, c)
    f = vbt.IndicatorFactory(input_names=["x"], param_names=names, output_names=["o"])
    F = f.from_apply_func(lambda a, *ps: a + hash_of(ps), param_settings={m: dict(is_tuple=True) for m, k in zip(names, kinds) if k == "tup"})
    hide = [m for m in names if rng.random() < 0.15]
    r = F.run(pd.DataFrame(x, index=idx, columns=cols), *[list(v) for v in raw_vals], hide_params=hide)
    owner = [(q, j) for q in combos for j in range(c)]
    raw = [q for q in zip(*raw_vals) for _ in range(c)]

    def compare(sub, pos, rows, what):
        e = np.column_stack([x[rows, owner[k][1]] + hash_of(raw[k]) for k in pos]) if len(pos) else np.empty((len(rows), 0))
        ctx.eq(np.asarray(sub.o, float).reshape(len(rows), -1), e, f"{what}: outputs")
        ctx.eq(np.asarray(sub.x, float).reshape(len(rows), -1), x[np.ix_(rows, [owner[k][1] for k in pos])], f"{what}: inputs")
        for i, m in enumerate(names):
            got = [norm(v) for v in getattr(sub, f"_{m}_mapper")]
            ctx.check(got == [norm(owner[k][0][i]) for k in pos], f"{what}: parameter {m} of the columns: {got}")
        ctx.seen("selected", len(pos))
    allrows = list(range(n))
    for _ in range(3):
        how = pick(rng, ["one", "list", "slice", "tuple", "tuples", "iloc", "loc", "rows", "missing"])
        i = int(rng.integers(len(names)))
        loc = getattr(r, names[i] + "_loc")
        if how == "one":
            k = pick(rng, vals[i])
            sub = loc[k]
            pos = [t for t, (q, j) in enumerate(owner) if q[i] == k]
            compare(sub, pos, allrows, f"{names[i]}_loc[{k!r}] of {combos}")
            lv = sub.wrapper.columns.names
            left = [f"custom_{m}" for t, m in enumerate(names) if t != i and m not in hide] + ["sym"]
            ctx.check(list(lv) == left or len(left) == len(r.wrapper.columns.names), f"levels left after selecting {names[i]}: {list(lv)}", left=left)
            ctx.seen("loc_" + kinds[i])
        elif how == "list":
            ks = [pick(rng, vals[i]) for _ in range(int(rng.integers(1, 4)))]
            pos = [t for k in ks for t, (q, j) in enumerate(owner) if q[i] == k]
            compare(loc[list(ks)], pos, allrows, f"{names[i]}_loc[{ks!r}] of {combos}")
            ctx.seen("loc_list")
        elif how == "slice":
            v = [norm(q[i]) for q, _ in owner]
            if kinds[i] not in ("num", "flt", "str") or v != sorted(v):
                continue
            a, b = sorted([pick(rng, vals[i]), pick(rng, vals[i])])
            pos = [t for t, (q, j) in enumerate(owner) if a <= q[i] <= b]
            compare(loc[a:b], pos, allrows, f"{names[i]}_loc[{a!r}:{b!r}]")
            ctx.seen("loc_slice")
        elif how in ("tuple", "tuples") and len(names) > 1:
            if how == "tuple":
                k = pick(rng, combos)
                pos = [t for t, (q, j) in enumerate(owner) if q == k]
                if set(hide):
                    continue
                compare(r.tuple_loc[k], pos, allrows, f"tuple_loc[{k!r}] of {combos}")
            else:
                ks = [pick(rng, combos) for _ in range(int(rng.integers(1, 3)))]
                pos = [t for k in ks for t, (q, j) in enumerate(owner) if q == k]
                compare(r.tuple_loc[ks], pos, allrows, f"tuple_loc[{ks!r}] of {combos}")
            ctx.seen("loc_tuple")
        elif how == "iloc":
            pos = [int(v) for v in rng.integers(0, len(owner), int(rng.integers(1, 5)))]
            compare(r.iloc[:, pos], pos, allrows, f"iloc[:, {pos}]")
            ctx.seen("iloc")
        elif how == "loc":
            j = int(rng.integers(c))
            sub = r.xs(f"c{j}", level="sym", axis=1) if r.wrapper.columns.nlevels > 1 else None
            if sub is None:
                continue
            compare(sub, [t for t, (q, jj) in enumerate(owner) if jj == j], allrows, "xs over the input columns")
            ctx.seen("xs")
        elif how == "rows":
            a = int(rng.integers(0, n))
            b = int(rng.integers(a + 1, n + 1))
            compare(r.iloc[a:b], list(range(len(owner))), list(range(a, b)), f"rows {a}:{b}")
            ctx.seen("rows")
        elif how == "missing":
            k = dict(num=99, flt=77.5, bool=None, str="zz", tup=(9, 9))[kinds[i]]
            if k is None:
                continue
            ctx.raises(KeyError, lambda: loc[k], msg="unknown parameter value")
    ctx.nontrivial("idx", str(combos), x.tobytes())


def norm(v):
    if isinstance(v, tuple):
        return tuple(norm(t) for t in v)
    return v.item() if isinstance(v, np.generic) else v


def hash_of(ps):
    h = 0.0
    for p in ps:
        for v in (p if isinstance(p, tuple) else (p,)):
            h = h * 3 + (ord(v) - 90 if isinstance(v, str) else float(v) * 4)
    return h


@monitor(weight=3, modes=("pure", "jit"))
def m_compare(ctx):
    """Comparison, crossing and logical helpers of outputs."""
    plain(ctx)
    rng = ctx.rng
    n, c, P = int(rng.integers(1, 9)), int(rng.integers(1, 3)), int(rng.integers(1, 4))
    x = rng.integers(-3, 4, (n, c)).astype(float)
    if rng.random() < 0.3:
        x[rng.random((n, c)) < 0.2] = NAN
    idx, cols = gen.dt_index(rng, n), pd.Index([f"c{j}" for j in range(c)], name="sym")
    df = pd.DataFrame(x, index=idx, columns=cols)
    ps = [int(v) for v in rng.permutation(6)[:P] + 1]
    logical = rng.random() < 0.3
    if logical:
        f = vbt.IndicatorFactory(input_names=["x"], param_names=["p"], output_names=["o"], attr_settings=dict(o=dict(dtype=np.bool_)), class_name="B", short_name="b")
        F = f.from_apply_func(lambda a, p: a > p - 3)
        A = np.hstack([x > p - 3 for p in ps])
    else:
        f = vbt.IndicatorFactory(input_names=["x"], param_names=["p"], output_names=["o"], class_name="B", short_name="b")
        F = f.from_apply_func(lambda a, p: a * (p - 3))
        A = np.hstack([x * (p - 3) for p in ps])
    r = F.run(df, ps)
    form = pick(rng, ["scalar", "frame", "indicator", "list", "inputs"])
    K = A.shape[1]
    scal = [bool(rng.random() < 0.5), bool(rng.random() < 0.5)] if logical else [float(rng.integers(-3, 4)), float(rng.integers(4, 7))]
    B = rng.random((n, K)) < 0.5 if logical else rng.integers(-3, 4, (n, K)).astype(float)
    other_run = None
    if form == "scalar":
        other, Bs = scal[0], [np.full((n, K), scal[0])]
    elif form == "frame":
        other, Bs = pd.DataFrame(B, index=idx, columns=r.o.columns), [B]
        if rng.random() < 0.5:
            other = B.copy()
    elif form == "indicator":
        x2 = rng.integers(-3, 4, (n, c)).astype(float)
        other_run = F.run(pd.DataFrame(x2, index=idx, columns=cols), ps)
        other, Bs = other_run, [np.asarray(other_run.o).reshape(n, K)]
    elif form == "list":
        other, Bs = list(scal), [np.full((n, K), s) for s in scal]
    else:
        if logical:
            raise Skip
        other, Bs = df.values[:, :1].copy(), [np.repeat(x[:, :1], K, 1)]
    if logical:
        op = pick(rng, ["and", "or", "xor"])
        ref = lambda a, b: {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        kw = {}
    else:
        op = pick(rng, ["above", "below", "equal", "crossed_above", "crossed_below"])
        kw = {}
        wait = 0
        if op.startswith("crossed") and rng.random() < 0.5:
            wait = kw["wait"] = int(rng.integers(0, 3))

        def ref(a, b):
            with np.errstate(all="ignore"):
                if not op.startswith("crossed"):
                    return {"above": a > b, "below": a < b, "equal": a == b}[op]
            return crossed(a, b, wait) if op == "crossed_above" else crossed(b, a, wait)
    attr = pick(rng, ["o", "o", "x"]) if not logical else "o"
    A_ = A if attr == "o" else np.tile(x, (1, P))
    if rng.random() < 0.3:
        kw["level_name"] = "mine"
    out = getattr(r, f"{attr}_{op}")(other, **kw)
    if other_run is not None and attr == "x":
        Bs = [np.tile(np.asarray(other_run.x).reshape(n, -1)[:, :c], (1, P))]
    e = np.hstack([ref(A_, b) for b in Bs])
    ctx.eq(np.asarray(out).reshape(n, -1), e, f"{attr}_{op} with {form} {other if form in ('scalar', 'list') else ''} {kw}: {A_.tolist()} {[b.tolist() for b in Bs]}", rtol=0, atol=0)
    if form == "list":
        nm = kw.get("level_name", f"b_{attr}_{op}")
        got = [norm(v) for v in out.columns.get_level_values(nm)]
        ctx.check(got == [s for s in scal for _ in range(K)], f"labels of several others: {got}")
        ctx.seen("several_others")
        ctx.check([norm(v) for v in out.columns.get_level_values("b_p")] == [p for p in ps for _ in range(c)] * 2, "parameter labels kept")
    else:
        ctx.check(out.columns.equals(r.o.columns), f"labels of {attr}_{op}", got=str(out.columns))
    ctx.seen("helper_" + op)
    ctx.nontrivial(op, form, A.tobytes())


def crossed(a, b, wait):
    return np.column_stack([ref_cross(a[:, j], b[:, j], wait) for j in range(a.shape[1])])


@monitor(weight=2, modes=("pure", "jit"))
def m_builtin(ctx):
    """Built-in and TA-Lib indicators over a grid equal their single runs, in any order and repeated."""
    plain(ctx)
    rng = ctx.rng
    n, c = int(rng.integers(5, 30)), int(rng.integers(1, 4))
    cl = 50 + np.cumsum(rng.normal(0, 1, (n, c)), axis=0)
    idx, cols = gen.dt_index(rng, n), pd.Index([f"c{j}" for j in range(c)], name="sym")
    mk = lambda a: pd.DataFrame(a, index=idx, columns=cols)
    h, l, v = cl + rng.random((n, c)), cl - rng.random((n, c)), rng.random((n, c)) * 100
    name = pick(rng, ["MA", "MSTD", "BBANDS", "RSI", "STOCH", "MACD", "ATR", "SMA_TA", "MACD_TA", "EMA_TA"])
    ints = lambda k, lo=2: [int(t) for t in rng.integers(lo, 6, k)]
    P = int(rng.integers(1, 5))
    ew = lambda k: [bool(t) for t in rng.random(k) < 0.5]
    ins = [mk(cl)]
    if name in ("MA", "MSTD", "RSI"):
        p = dict(window=ints(P), ewm=ew(P))
    elif name == "BBANDS":
        p = dict(window=ints(P), ewm=ew(P), alpha=[float(t) for t in rng.integers(1, 4, P)])
    elif name == "STOCH":
        ins, p = [mk(h), mk(l), mk(cl)], dict(k_window=ints(P), d_window=ints(P), d_ewm=ew(P))
    elif name == "MACD":
        p = dict(fast_window=ints(P), slow_window=ints(P), signal_window=ints(P), macd_ewm=ew(P), signal_ewm=ew(P))
    elif name == "ATR":
        ins, p = [mk(h), mk(l), mk(cl)], dict(window=ints(P), ewm=ew(P))
    elif name == "MACD_TA":
        p = dict(fastperiod=ints(P), slowperiod=ints(P), signalperiod=ints(P))
    else:
        p = dict(timeperiod=ints(P))
    try:
        F = vbt.talib(name[:-3]) if name.endswith("_TA") else getattr(vbt, name)
    except ImportError:
        raise Skip
    product = bool(rng.random() < 0.25) and len(p) > 1
    if product:
        p = {k: v[:2] for k, v in p.items()}
        combos = list(itertools.product(*p.values()))
    else:
        combos = list(zip(*p.values()))
    kw = dict(run_unique=bool(rng.random() < 0.5))
    r = F.run(*ins, **p, param_product=product, **kw)
    short = r.short_name
    for q_i, q in enumerate(combos if len(combos) <= 6 else [combos[int(t)] for t in rng.integers(0, len(combos), 6)]):
        pos = combos.index(q) if len(combos) > 6 else q_i
        one = F.run(*ins, **dict(zip(p, q)))
        for o in F.output_names:
            got = np.asarray(getattr(r, o)).reshape(n, -1)[:, pos * c:(pos + 1) * c]
            ctx.eq(got, np.asarray(getattr(one, o)).reshape(n, -1), f"{name}.{o} for {q} of {combos} ({kw})", rtol=0, atol=0)
            if c > 1:                 # one column alone
                j = int(rng.integers(c))
                col = F.run(*[x.iloc[:, j] for x in ins], **dict(zip(p, q)))
                ctx.eq(got[:, j], np.asarray(getattr(col, o)).reshape(-1), f"{name}.{o} for {q} of column {j}", rtol=0, atol=0)
    for k, key in enumerate(p):
        lv = [norm(t) for t in getattr(r, F.output_names[0]).columns.get_level_values(f"{short}_{key}")]
        ctx.check(lv == [q[k] for q in combos for _ in range(c)], f"{name}: labels of {key}: {lv}")
    ctx.seen("builtin")
    if name.endswith("_TA"):
        ctx.seen("talib")
    if product:
        ctx.seen("builtin_product")
    ctx.nontrivial(name, str(combos), cl.tobytes())
