"""R02: mapped-array operations against a per-unit reference over the raw value lists."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from collections import namedtuple
from vectorbt.records.mapped_array import MappedArray
from vt import gen, recs
from vt.core import monitor, Skip
from vt.gen import pick
from numba import njit

NAN = np.nan


@njit
def red_scalar(col, a, k):
    return np.sum(np.where(np.isnan(a), 0.0, a)) * k + len(a)


@njit
def red_idx(col, a):
    return len(a) // 2


@njit
def red_array(col, a):
    return np.array([float(len(a)), a[0], a[-1]])


@njit
def red_idx_array(col, a):
    return np.array([0, len(a) - 1])


@njit
def mask_even(inout, idxs, col, a, k):
    for j in range(len(a)):
        if j % k == 0:
            inout[idxs[j]] = True


@njit
def app(ridxs, col, a, k):
    return np.cumsum(np.where(np.isnan(a), 0.0, a)) * k + len(a)


def build(ctx, **kw):
    rng = ctx.rng
    n, c = int(rng.integers(1, 9)), int(rng.integers(1, 7))
    w = recs.wrapper(rng, n, c)
    r = recs.records(rng, w, **kw)
    v = r["some_field1"].copy()
    if ctx.mode == "jit" and rng.random() < 0.3 and not np.isnan(v).any():  # interpreted argmin can't store inf in integers
        v = v.astype(np.int64)
    m = MappedArray(w, v, r["col"].copy(), id_arr=r["id"].copy() if rng.random() < 0.7 else None, idx_arr=r["idx"].copy())
    ids = r["id"] if m.id_arr is not None and m.config["id_arr"] is not None else np.arange(len(r))
    gb = recs.group_arg(rng, w)
    units = recs.groups_of(w, gb)
    pos = [np.flatnonzero(np.isin(r["col"], u)) for u in units]
    ctx.nontrivial(tuple(r["col"]), tuple(r["idx"]), n, c)
    if len(r) and any(len(p) == 0 for p in pos):
        ctx.seen("empty_units")
    if any(len(u) > 1 for u in units):
        ctx.seen("grouped_views")
    if np.isnan(v.astype(float)).any():
        ctx.seen("with_nan")
    return w, r, v, ids, m, gb, units, pos


def labels(w, gb):
    return w.get_columns(group_by=gb) if gb is not None else w.get_columns()


def flat(x):
    return np.asarray(x).reshape(-1)


def check_form(ctx, out, w, gb, name, msg):
    """Series over the units named `name`, or a scalar for a one-unit object."""
    nd = w.get_ndim(group_by=gb) if gb is not None else w.get_ndim()
    if nd == 1:
        ctx.check(np.ndim(out) == 0, msg + ": expected a scalar", got=out)
    else:
        ctx.check(isinstance(out, pd.Series) and out.name == name, f"{msg}: name {getattr(out, 'name', None)!r}")
        ctx.check(list(out.index) == list(labels(w, gb)), msg + ": labels", got=list(out.index))


@monitor(weight=2, modes=("pure", "jit"))
def m_reductions(ctx):
    rng = ctx.rng
    w, r, v, ids, m, gb, units, pos = build(ctx)
    vals = [v[p].astype(float) for p in pos]
    fin = [x[~np.isnan(x)] for x in vals]
    ddof = int(rng.integers(0, 3))
    fv = float(rng.integers(-5, 5))
    f = lambda g, dflt=NAN: [dflt if len(x) == 0 else (g(y) if len(y) else NAN) for x, y in zip(vals, fin)]
    std = lambda y: np.std(y, ddof=ddof) if len(y) - ddof > 0 else NAN
    n_ = int(rng.integers(-3, 3))
    todo = [("min", {}, f(np.min)), ("max", {}, f(np.max)), ("mean", {}, f(np.mean)), ("median", {}, f(np.median)),
            ("std", dict(ddof=ddof), f(std)), ("min", dict(fill_value=fv), f(np.min, fv)), ("mean", dict(fill_value=fv), f(np.mean, fv)),
            ("sum", {}, [0.0 if len(y) == 0 else y.sum() for y in fin]),
            ("sum", dict(fill_value=fv), [fv if len(x) == 0 else y.sum() for x, y in zip(vals, fin)])]
    with np.errstate(all="ignore"):
        for name, kw, e in todo:
            out = getattr(m, name)(group_by=gb, **kw)
            ctx.eq(flat(out).astype(float), e, f"{name}({kw}, group_by={gb})", rtol=1e-9, atol=1e-9)
            check_form(ctx, out, w, gb, name, name)
        out = m.std(group_by=gb)
        ctx.eq(flat(out).astype(float), f(lambda y: np.std(y, ddof=1) if len(y) > 1 else NAN), "std default ddof=1", atol=1e-9)
    ctx.eq(flat(m.count(group_by=gb)), [len(x) for x in vals], "count")
    out = m.reduce(red_scalar, 2.0, group_by=gb, fill_value=fv)
    ctx.eq(flat(out).astype(float), [fv if len(x) == 0 else np.nansum(x) * 2 + len(x) for x in vals], "reduce", atol=1e-9)
    ok = all(len(x) == 0 or -len(x) <= n_ < len(x) for x in vals)
    if ok:
        out = m.nth(n_, group_by=gb)
        ctx.eq(flat(out).astype(float), [NAN if len(x) == 0 else x[n_] for x in vals], f"nth({n_})")
        out = m.nth_index(n_, group_by=gb)
        ctx.check([x if not pd.isnull(x) else None for x in (flat(out) if np.ndim(out) else [out])] == [None if len(p) == 0 else w.index[r["idx"][p[n_]]] for p in pos], f"nth_index({n_}, group_by={gb})", got=out)
        out = m.nth_index(n_, group_by=gb, to_index=False)
        ctx.eq(flat(out), [-1 if len(p) == 0 else r["idx"][p[n_]] for p in pos], f"nth_index({n_}, to_index=False)")
        ctx.seen("nth")
    elif len(r):
        ctx.raises(ValueError, lambda: m.nth(n_, group_by=gb), msg=f"nth({n_}) beyond a unit")
    if all(len(x) == 0 or len(y) for x, y in zip(vals, fin)):
        for name, g in (("idxmin", np.nanargmin), ("idxmax", np.nanargmax)):
            k = [None if len(x) == 0 else r["idx"][p[g(x)]] for x, p in zip(vals, pos)]
            out = getattr(m, name)(group_by=gb)
            got = [None if pd.isnull(x) else x for x in (list(out) if np.ndim(out) else [out])]
            ctx.check(got == [None if x is None else w.index[x] for x in k], f"{name}(group_by={gb})", got=out, expected=k)
            check_form(ctx, out, w, gb, name, name)
            out = getattr(m, name)(group_by=gb, to_index=False)
            ctx.eq(flat(out), [-1 if x is None else x for x in k], f"{name}(to_index=False)")
            # index array passed explicitly
            other = rng.integers(0, len(w.index), len(r))
            out = getattr(m, name)(group_by=gb, idx_arr=other, to_index=False)
            ctx.eq(flat(out), [-1 if len(x) == 0 else other[p[g(x)]] for x, p in zip(vals, pos)], f"{name}(idx_arr)")
        ctx.seen("idx_reductions")
    if len(r):
        out = m.reduce(red_idx, group_by=gb, returns_idx=True, to_index=False)
        ctx.eq(flat(out), [-1 if len(p) == 0 else r["idx"][p[len(p) // 2]] for p in pos], "reduce to index")
        out = m.reduce(red_array, group_by=gb, returns_array=True, wrap_kwargs=dict(name_or_index=["n", "first", "last"]))
        e = np.array([[NAN] * 3 if len(x) == 0 else [len(x), x[0], x[-1]] for x in vals]).T
        ctx.eq(np.asarray(out).reshape(3, -1), e, "reduce to array")
        ctx.check(list(out.index) == ["n", "first", "last"], "reduce to array: index")
        out = m.reduce(red_array, group_by=gb, returns_array=True, fill_value=fv)
        ctx.eq(np.asarray(out).reshape(3, -1), np.array([[fv] * 3 if len(x) == 0 else [len(x), x[0], x[-1]] for x in vals]).T, "reduce to array, fill")
        out = m.reduce(red_idx_array, group_by=gb, returns_array=True, returns_idx=True, to_index=False)
        ctx.eq(np.asarray(out).reshape(2, -1), np.array([[-1, -1] if len(p) == 0 else [r["idx"][p[0]], r["idx"][p[-1]]] for p in pos]).T, "reduce to index array")
        out = m.reduce(red_idx_array, group_by=gb, returns_array=True, returns_idx=True)
        got = np.asarray(out, object).reshape(2, -1)
        for j, p in enumerate(pos):
            ctx.check((pd.isnull(got[0, j]) and pd.isnull(got[1, j])) if len(p) == 0 else (got[0, j] == w.index[r["idx"][p[0]]] and got[1, j] == w.index[r["idx"][p[-1]]]), "reduce to index array: labels", got=out)
        ctx.seen("array_reductions")
    ctx.seen("reductions")


def topn(x, p, n, top):
    """Reference: positions of the n extreme values of a unit; among ties the last (top) or first (bottom), NaNs only when needed."""
    k = list(range(len(x)))
    if top:
        k = sorted(k, key=lambda i: (0, 0, 0) if np.isnan(x[i]) else (1, x[i], i)) if False else k
        ok = [i for i in k if not np.isnan(x[i])]
        ok.sort(key=lambda i: (-x[i], -i))
        na = [i for i in k if np.isnan(x[i])][::-1]
    else:
        ok = [i for i in k if not np.isnan(x[i])]
        ok.sort(key=lambda i: (x[i], i))
        na = [i for i in k if np.isnan(x[i])]
    return {int(p[i]) for i in (ok + na)[:max(n, 0)]}


@monitor(weight=1.5, modes=("pure", "jit"))
def m_topn(ctx):
    rng = ctx.rng
    w, r, v, ids, m, gb, units, pos = build(ctx)
    n_ = int(rng.integers(0, 6))
    ties = False
    for top in (True, False):
        f = m.top_n_mask if top else m.bottom_n_mask
        mask = f(n_, group_by=gb)
        ctx.check(mask.dtype == bool and mask.shape == v.shape, "mask form")
        e = np.zeros(len(v), bool)
        for u, p in zip(units, pos):
            x = v[p].astype(float)
            s = topn(x, p, n_, top)
            e[list(s)] = True
        nm = "top" if top else "bottom"
        for p in pos:
            x, got = v[p].astype(float), mask[p]
            ctx.check(got.sum() == min(n_, len(p)), f"{nm}_n_mask({n_}) selects {got.sum()} of {len(p)}", values=x, mask=got)
            ctx.eq(np.sort(x[got]), np.sort(x[e[p]]), f"{nm}_n_mask({n_}, group_by={gb}) values of a unit")
            if len(set(x)) < len(x):
                ties = True
        g = m.top_n if top else m.bottom_n
        q = g(n_)
        own = [np.flatnonzero(np.isin(r["col"], u)) for u in recs.groups_of(w)]
        mk = f(n_)
        ctx.eq([q.values, q.id_arr, q.col_arr, q.idx_arr], [v[mk], ids[mk], r["col"][mk], r["idx"][mk]], f"{nm}_n({n_})")
        q = g(n_, group_by=gb)
        ctx.eq([q.values, q.id_arr, q.col_arr, q.idx_arr], [v[mask], ids[mask], r["col"][mask], r["idx"][mask]], f"{nm}_n({n_}, group_by={gb})")
    if ties:
        ctx.seen("ties")
    ctx.seen("top_bottom")


@monitor(weight=1.5, modes=("pure", "jit"))
def m_filters(ctx):
    rng = ctx.rng
    w, r, v, ids, m, gb, units, pos = build(ctx)
    own = recs.groups_of(w)
    k = int(rng.integers(1, 4))
    mask = m.map_to_mask(mask_even, k, group_by=gb)
    e = np.zeros(len(v), bool)
    for p in pos:
        e[p[::k]] = True
    ctx.eq(mask, e, "map_to_mask")
    mask = rng.random(len(v)) < 0.5
    q = m.apply_mask(mask, group_by=gb)
    ctx.eq([q.values, q.id_arr, q.col_arr, q.idx_arr], [v[mask], ids[mask], r["col"][mask], r["idx"][mask]], "apply_mask")
    other = rng.integers(0, len(w.index), len(v))
    q = m.apply_mask(mask, idx_arr=other)
    ctx.eq(q.idx_arr, other[mask], "apply_mask with idx_arr")
    incl = bool(rng.random() < 0.5)
    ind = np.lexsort((ids, r["col"])) if incl else np.argsort(r["col"], kind="stable")
    q = m.sort(incl_id=incl, group_by=gb)
    ctx.eq([q.values, q.id_arr, q.col_arr, q.idx_arr], [v[ind], ids[ind], r["col"][ind], r["idx"][ind]], f"sort(incl_id={incl})")
    key = list(zip(r["col"], ids)) if incl else list(r["col"])
    ctx.check(bool(m.is_sorted(incl_id=incl)) == (key == sorted(key)), "is_sorted")
    q = m.sort(incl_id=incl, idx_arr=other)
    ctx.eq(q.idx_arr, other[ind], "sort with idx_arr")
    per = bool(rng.random() < 0.5)
    q = m.apply(app, 2.0, group_by=gb, apply_per_group=per)
    e = np.zeros(len(v))
    for p in (pos if per else [np.flatnonzero(r["col"] == j) for j in range(len(w.columns))]):
        x = v[p].astype(float)
        e[p] = np.cumsum(np.where(np.isnan(x), 0, x)) * 2 + len(p)
    ctx.eq(q.values, e, f"apply(per_group={per})", atol=1e-9)
    ctx.eq([q.id_arr, q.col_arr, q.idx_arr], [ids, r["col"], r["idx"]], "apply: aligned arrays")
    # operators
    o = rng.integers(1, 5, len(v)).astype(float)
    M2 = m.replace(mapped_arr=o)
    import operator as op
    with np.errstate(all="ignore"):
        for f in (op.add, op.sub, op.mul, op.truediv, op.gt, op.lt, op.ge, op.le, op.eq, op.ne, op.floordiv, op.mod, op.pow):
            if f is op.pow and (v < 0).any():
                continue
            vf = v.astype(float) if f is op.pow else v
            mm = m.replace(mapped_arr=vf)
            for rhs, e in ((M2, f(vf, o)), (o, f(vf, o)), (2.0, f(vf, 2.0))):
                q = f(mm, rhs)
                ctx.eq(q.values, e, f"operator {f.__name__}")
                ctx.eq([q.id_arr, q.col_arr, q.idx_arr], [ids, r["col"], r["idx"]], f"operator {f.__name__}: aligned arrays")
        for f in (op.add, op.sub, op.mul, op.truediv):
            ctx.eq(f(3.0, m).values, f(3.0, v), f"reflected {f.__name__}")
        ctx.eq((-m).values, -v, "neg")
        ctx.eq(abs(m).values, abs(v), "abs")
        b1, b2 = m > 0, m < 2
        ctx.eq((b1 & b2).values, (v > 0) & (v < 2), "and")
        ctx.eq((b1 | b2).values, (v > 0) | (v < 2), "or")
        ctx.eq((b1 ^ b2).values, (v > 0) ^ (v < 2), "xor")
        ctx.eq((~b1).values, ~(v > 0), "invert")
    if len(v) > 1 and len(set(r["col"])) > 1:
        perm = np.roll(np.arange(len(v)), 1)
        bad = m.replace(col_arr=r["col"][perm])
        if not np.array_equal(r["col"][perm], r["col"]):
            ctx.raises(Exception, lambda: m + bad, msg="combining mapped arrays of different columns")
    ctx.eq(m.values, v, "values modified")
    ctx.seen("filters")


@monitor(weight=1, modes=("pure", "jit"))
def m_table(ctx):
    rng = ctx.rng
    w, r, v, ids, m, gb, units, pos = build(ctx, unique_pos=bool(ctx.rng.random() < 0.7))
    n = len(w.index)
    cells = [[(int(r["idx"][i]), v[i]) for i in p] for p in pos]
    exp = all(len({i for i, _ in x}) == len(x) for x in cells)
    ctx.check(bool(m.is_expandable(group_by=gb)) == exp, f"is_expandable(group_by={gb})", idx=r["idx"], col=r["col"])
    fv = pick(rng, [NAN, 0, -1.0])
    if exp:
        out = m.to_pd(group_by=gb, fill_value=fv)
        e = np.full((n, len(units)), fv, dtype=float)
        for j, x in enumerate(cells):
            for i, y in x:
                e[i, j] = y
        ctx.eq(np.asarray(out, float).reshape(n, -1), e, f"to_pd(group_by={gb})")
        ctx.check(out.index.equals(w.index), "to_pd index")
        if out.ndim == 2:
            ctx.check(list(out.columns) == list(labels(w, gb)), "to_pd columns")
        ctx.seen("tables")
    else:
        ctx.raises(ValueError, lambda: m.to_pd(group_by=gb), msg="to_pd with two values per cell")
        ctx.seen("conflicts")
    if w.ndim == 2:
        out = m.to_pd(ignore_index=True, group_by=gb, fill_value=fv)
        L = max(len(p) for p in pos)
        if L == 0:
            ctx.check(len(out) == 0, "stacked table of no values")
            return
        e = np.full((L, len(units)), fv, dtype=float)
        for j, p in enumerate(pos):
            e[:len(p), j] = v[p]
        ctx.eq(np.asarray(out, float).reshape(L, -1), e, f"to_pd(ignore_index, group_by={gb})")
        ctx.seen("stacked_tables")
    other = rng.permutation(n)[np.arange(len(v)) % n]
    c2 = [[(int(other[i]), v[i]) for i in p] for p in pos]
    if all(len({i for i, _ in x}) == len(x) for x in c2):
        out = m.to_pd(idx_arr=other, group_by=gb)
        e = np.full((n, len(units)), NAN)
        for j, x in enumerate(c2):
            for i, y in x:
                e[i, j] = y
        ctx.eq(np.asarray(out, float).reshape(n, -1), e, "to_pd(idx_arr)")


Enum = namedtuple("Enum", ["Low", "Mid", "High"])(0, 1, 2)


@monitor(weight=1, modes=("pure", "jit"))
def m_value_counts(ctx):
    rng = ctx.rng
    w, r, v, ids, m, gb, units, pos = build(ctx, lattice=True)
    with_map = bool(rng.random() < 0.5)
    if with_map:
        v = r["kind"].copy()
        m = m.replace(mapped_arr=v, mapping=Enum)
    kw = dict(sort_uniques=bool(rng.random() < 0.6), sort=bool(rng.random() < 0.5), ascending=bool(rng.random() < 0.5), dropna=bool(rng.random() < 0.4),
              normalize=bool(rng.random() < 0.3))
    if not len(v):
        raise Skip()
    incl = with_map and rng.random() < 0.5
    if incl:
        kw["incl_all_keys"] = True
    out = m.value_counts(group_by=gb, **kw)
    tab = np.asarray(out).reshape(len(out), len(units))
    key = lambda x: None if pd.isnull(x) else x
    exp = {}
    for x in v:
        exp.setdefault(key(x), np.zeros(len(units)))
    if incl:
        for x in (0, 1, 2, -1):
            exp.setdefault(x, np.zeros(len(units)))
    for j, p in enumerate(pos):
        for x in v[p]:
            exp[key(x)][j] += 1
    if kw["dropna"]:
        exp.pop(None, None)
    total = sum(e.sum() for e in exp.values())
    if kw["normalize"]:
        exp = {k: e / total for k, e in exp.items()} if total else exp
    nm = {0: "Low", 1: "Mid", 2: "High", -1: None}
    got = {}
    for lab, row in zip(out.index, tab):
        kk = key(lab)
        if with_map:
            kk = {"Low": 0, "Mid": 1, "High": 2, None: -1}[kk]
        ctx.check(kk not in got, f"value {kk} listed twice")
        got[kk] = row
    ctx.check(set(got) == set(exp), f"value_counts({kw}) keys", got=list(got), expected=list(exp))
    for k in exp:
        if total or not kw["normalize"]:
            ctx.eq(got[k], exp[k], f"value_counts({kw}, group_by={gb})[{k}]")
    if kw["sort"]:
        s = tab.sum(1)
        ctx.check(bool(np.all(np.diff(s) >= -1e-12) if kw["ascending"] else np.all(np.diff(s) <= 1e-12)), "value_counts is not sorted by count", got=tab)
    elif kw["sort_uniques"]:
        ks = [k for k in got if k is not None]
        ctx.check(ks == sorted(ks), "value_counts is not sorted by value", got=ks)
    ctx.seen("value_counts")
    if with_map:
        q = m.apply_mapping()
        ctx.check(list(q.values) == [nm[x] for x in v], "apply_mapping", got=q.values)
        ctx.eq([q.id_arr, q.col_arr, q.idx_arr], [ids, r["col"], r["idx"]], "apply_mapping: aligned arrays")
        out2 = q.replace(mapping=None).value_counts(group_by=gb)
        lab = [key(x) for x in out2.index]
        for j, p in enumerate(pos):
            for x in set(v):
                ctx.eq(int(np.asarray(out2).reshape(len(out2), -1)[lab.index(nm[x]), j]), int((v[p] == x).sum()), "value counts of mapped labels")
        ctx.seen("mappings")
    mi = m.replace(mapped_arr=r["idx"].copy(), mapping="index")
    ctx.check(list(mi.apply_mapping().values) == [w.index[i] for i in r["idx"]], "index mapping")
    ctx.check(list(mi.to_index()) == [w.index[i] for i in r["idx"]], "to_index")
    mc = m.replace(mapped_arr=r["col"].copy(), mapping="columns")
    ctx.check(list(mc.apply_mapping().values) == [w.columns[i] for i in r["col"]], "columns mapping")


@monitor(weight=1, modes=("pure", "jit"))
def m_describe(ctx):
    rng = ctx.rng
    w, r, v, ids, m, gb, units, pos = build(ctx)
    ddof = int(pick(rng, [1, 1, 0]))
    perc = pick(rng, [None, [0.1, 0.5, 0.9], [0.25, 0.333], np.array([0.05])])
    out = m.describe(percentiles=perc, ddof=ddof, group_by=gb)
    tab = np.asarray(out, float).reshape(len(out), -1)
    ctx.check(tab.shape[1] == len(units), "describe: units", got=out)
    idx = list(out.index)
    q = [0.25, 0.5, 0.75] if perc is None else list(np.asarray(perc))
    for j, p in enumerate(pos):
        x = v[p].astype(float)
        x = x[~np.isnan(x)]
        g = lambda k: tab[idx.index(k), j]
        ctx.eq(g("count"), float(len(x)), f"describe count (group_by={gb})")
        e = dict(mean=x.mean() if len(x) else NAN, std=(np.std(x, ddof=ddof) if len(x) - ddof > 0 else NAN), min=x.min() if len(x) else NAN, max=x.max() if len(x) else NAN)
        for k, y in e.items():
            ctx.eq(g(k), y, f"describe {k} (group_by={gb})", atol=1e-9)
        for a in q:
            lab = ("%.10f" % (a * 100)).rstrip("0").rstrip(".") + "%"
            if lab in idx:
                ctx.eq(g(lab), np.percentile(x, a * 100) if len(x) else NAN, f"describe {lab}", atol=1e-9)
                ctx.seen("percentiles")
    ctx.seen("described")


@monitor(weight=0.7)
def m_stats(ctx):
    rng = ctx.rng
    w, r, v, ids, m, gb, units, pos = build(ctx)
    vals = [v[p].astype(float) for p in pos]
    if any(len(x) == 0 or np.isnan(x).all() for x in vals):
        raise Skip()
    lab = labels(w, gb)
    if not lab.is_unique:
        raise Skip()
    j = int(rng.integers(len(units)))
    s = m.stats(column=lab[j] if len(units) > 1 else None, group_by=gb, silence_warnings=True)
    x = vals[j]
    y = x[~np.isnan(x)]
    e = {"Count": len(x), "Mean": y.mean(), "Std": np.std(y, ddof=1) if len(y) > 1 else NAN, "Min": y.min(), "Median": np.median(y), "Max": y.max()}
    for k, z in e.items():
        ctx.eq(float(s[k]), float(z), f"stats[{k}]", atol=1e-9)
    if len(units) == 1 and w.get_ndim(group_by=gb) == 2:
        return
    ctx.check(s["Min Index"] == w.index[r["idx"][pos[j][np.nanargmin(x)]]], "stats[Min Index]")
    ctx.check(s["Max Index"] == w.index[r["idx"][pos[j][np.nanargmax(x)]]], "stats[Max Index]")
    ctx.check(s["Start"] == w.index[0] and s["End"] == w.index[-1], "stats period")
    if len(units) > 1:
        with np.errstate(all="ignore"):
            s = m.stats(group_by=gb, silence_warnings=True)
        ctx.eq(float(s["Mean"]), float(np.mean([np.nanmean(x) for x in vals])), "aggregated stats[Mean]", atol=1e-9)
        ctx.eq(float(s["Count"]), float(np.mean([len(x) for x in vals])), "aggregated stats[Count]", atol=1e-9)
    k = m.replace(mapped_arr=r["kind"].copy(), mapping=Enum)
    s = k.stats(column=lab[j] if len(units) > 1 else None, group_by=gb, silence_warnings=True)
    for code, name in ((0, "Low"), (1, "Mid"), (2, "High")):
        ctx.eq(float(s.get(f"Value Counts: {name}", 0)), float((r["kind"][pos[j]] == code).sum()), f"stats[Value Counts: {name}]")
    ctx.seen("stats")
