"""B03: wrappers select, group and wrap consistently with pandas."""
import warnings
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
from vectorbt.base.column_grouper import ColumnGrouper, get_groups_and_index, group_by_to_index
from vectorbt.base.indexing import IndexingError, build_param_indexer, indexing_on_mapper
from vt import gen, idx
from vt.core import monitor, Skip
from vt.gen import pick
from vt.checks.b01 import describe

NAN = np.nan
IKINDS = ["range", "str", "int", "date", "tz", "multi", "named_range"]
CKINDS = ["range", "str", "int", "multi", "multi", "date", "named_range"]


def labels(index):
    return [idx.py(x) if not isinstance(x, tuple) else x for x in index]


def same_obj(ctx, got, exp, msg):
    ctx.check(type(got) is type(exp), f"{msg}: {type(got).__name__} instead of {type(exp).__name__}")
    ctx.check(got.shape == exp.shape, f"{msg}: shape {got.shape} instead of {exp.shape}")
    ctx.check(np.array_equal(got.values, exp.values, equal_nan=got.values.dtype.kind == "f"), f"{msg}: cells {got.values.tolist()} instead of {exp.values.tolist()}")
    idx.check(ctx, got.index, idx.levels(exp.index), f"{msg} index")
    if isinstance(exp, pd.DataFrame):
        idx.check(ctx, got.columns, idx.levels(exp.columns), f"{msg} columns")
    else:
        a, b = got.name, exp.name
        ctx.check(a == b or (a is None and not isinstance(b, tuple) and b == 0), f"{msg}: name {a!r} instead of {b!r}")


def selector(rng, obj, allow_rows=True):
    """A random pandas selection and its description."""
    n = obj.shape[0]
    two = obj.ndim == 2
    m = obj.shape[1] if two else 1

    def positions(k):
        r = rng.random()
        if r < 0.25:
            return int(rng.integers(-k, k))
        if r < 0.5:
            a, b = sorted(int(x) for x in rng.integers(0, k + 1, 2))
            return slice(a, max(b, a + 1), pick(rng, [None, None, 2]))
        if r < 0.7:
            b = rng.random(k) < 0.6
            b[int(rng.integers(k))] = True
            return b if rng.random() < 0.5 else b.tolist()
        p = [int(x) for x in rng.permutation(k)[:int(rng.integers(1, k + 1))]]
        return p if rng.random() < 0.5 else np.array(p)

    def label_sel(ix):
        k = len(ix)
        r = rng.random()
        if r < 0.3:
            return ix[int(rng.integers(k))]
        if r < 0.5 and ix.is_unique and ix.is_monotonic_increasing:
            a, b = sorted(int(x) for x in rng.integers(0, k, 2))
            return slice(ix[a], ix[b])
        if r < 0.7:
            b = rng.random(k) < 0.6
            b[int(rng.integers(k))] = True
            return b
        if ix.is_unique:
            return [ix[int(x)] for x in rng.permutation(k)[:int(rng.integers(1, k + 1))]]
        return slice(None)
    kind = pick(rng, ["iloc", "iloc2", "loc", "loc2", "get", "xs", "mask", "head", "chain"])
    if not two and kind in ("iloc2", "loc2", "xs"):
        kind = "iloc"
    rows = obj.index
    cols = obj.columns if two else None
    if kind == "iloc":
        p = positions(n)
        return (lambda x: x.iloc[p]), f"iloc[{p}]"
    if kind == "iloc2":
        p, q = positions(n), positions(m)
        return (lambda x: x.iloc[p, q]), f"iloc[{p}, {q}]"
    if kind == "loc":
        p = label_sel(rows)
        return (lambda x: x.loc[p]), f"loc[{p}]"
    if kind == "loc2":
        p, q = label_sel(rows), label_sel(cols)
        if isinstance(rows, pd.MultiIndex) or isinstance(cols, pd.MultiIndex):
            p, q = slice(None), label_sel(cols)
        return (lambda x: x.loc[p, q]), f"loc[{p}, {q}]"
    if kind == "get":
        if two:
            q = pick(rng, [cols[int(rng.integers(m))], [cols[int(rng.integers(m))]], cols[0][0] if isinstance(cols, pd.MultiIndex) else cols[0]])
            return (lambda x: x[q]), f"[{q}]"
        a, b = sorted(int(x) for x in rng.integers(0, n + 1, 2))
        return (lambda x: x[a:max(b, a + 1)]), f"[{a}:{b}]"
    if kind == "xs":
        if isinstance(cols, pd.MultiIndex):
            lv = int(rng.integers(cols.nlevels))
            v = cols[int(rng.integers(m))][lv]
            lvl = cols.names[lv] if cols.names[lv] is not None and cols.names.count(cols.names[lv]) == 1 and isinstance(cols.names[lv], str) else None
            if lvl is None:
                return None, None
            return (lambda x: x.xs(v, level=lvl, axis=1)), f"xs({v}, level={lvl})"
        return None, None
    if kind == "mask":
        b = rng.random(n) < 0.6
        b[int(rng.integers(n))] = True
        return (lambda x: x[b]), f"[{b.tolist()}]"
    if kind == "head":
        k = int(rng.integers(1, n + 1))
        return (lambda x: x.iloc[:k] if hasattr(x, "iloc") else x), f"iloc[:{k}]"
    p, q = positions(n), positions(n)
    return (lambda x: x.iloc[p]), f"iloc[{p}]"


def uniq(rng, n, kinds, names=False):
    for _ in range(20):
        i = idx.rand_index(rng, n, kinds, dup=rng.random() < 0.15)
        if isinstance(i, pd.MultiIndex) and names:
            i = i.set_names([f"l{j}" for j in range(i.nlevels)])
        return i


def draw_obj(rng, max_n=6, max_c=5):
    n, c = int(rng.integers(1, max_n)), int(rng.integers(1, max_c))
    sr = rng.random() < 0.2
    ii = uniq(rng, n, IKINDS)
    if sr:
        return pd.Series(np.arange(n) * 1.0, index=ii, name=pick(rng, [None, "x", 3]))
    cc = uniq(rng, c, CKINDS, names=rng.random() < 0.7)
    return pd.DataFrame(np.arange(n * c, dtype=float).reshape(n, c), index=ii, columns=cc)


def ref_select(f, obj):
    """(result, error expected) of a selection on a plain pandas object."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return f(obj), None
        except Exception as e:
            return None, type(e)


@monitor(weight=5)
def select(ctx):
    """Selections on ungrouped wrappers, accessors and wrappings."""
    rng = ctx.rng
    obj = draw_obj(rng)
    f, desc = selector(rng, obj)
    if f is None:
        raise Skip
    exp, err = ref_select(f, obj)
    freq = pick(rng, [None, "2D"])
    w = ArrayWrapper.from_obj(obj, freq=freq)
    target = pick(rng, ["acc", "wrapper", "wrapping"])
    msg = f"{desc} of {describe(obj)} ({target})"
    two = obj.to_frame() if isinstance(obj, pd.Series) else obj
    scalar = err is None and not isinstance(exp, (pd.Series, pd.DataFrame))
    lone = err is None and isinstance(exp, pd.Series) and isinstance(obj, pd.DataFrame) and len(exp) == 1
    empty = err is None and not scalar and 0 in exp.shape
    if empty:
        raise Skip
    src = {"acc": lambda: obj.vbt(freq=freq), "wrapper": lambda: w, "wrapping": lambda: Wrapping(w)}[target]()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if err is not None or scalar or lone:
            try:
                f(src)
            except Exception as e:
                if err is None:
                    ctx.check(isinstance(e, IndexingError), f"{msg}: {type(e).__name__} instead of IndexingError")
                ctx.seen("selections refused")
                ctx.nontrivial("refuse", desc[:5], target)
                return
            ctx.fail(f"{msg}: pandas gives {err or exp!r} but the selection succeeded")
        got = f(src)
    nw = got if target == "wrapper" else got.wrapper
    ctx.check(type(got) is type(src) or target == "acc", f"{msg}: type {type(got).__name__}")
    idx.check(ctx, nw.index, idx.levels(exp.index), f"{msg}: wrapper index")
    ctx.check(nw.ndim == exp.ndim, f"{msg}: ndim {nw.ndim}")
    ctx.check(nw.shape == exp.shape, f"{msg}: shape {nw.shape}")
    if exp.ndim == 2:
        idx.check(ctx, nw.columns, idx.levels(exp.columns), f"{msg}: wrapper columns")
    else:
        ctx.check(len(nw.columns) == 1 and (nw.name == exp.name or (nw.name is None and exp.name == 0)), f"{msg}: wrapper name {nw.name!r} instead of {exp.name!r}")
    ctx.check(nw.freq == (pd.Timedelta(freq) if freq else nw.freq), f"{msg}: frequency lost")
    ctx.check(not nw.grouper.is_grouped(), f"{msg}: grouped")
    if target == "acc":
        same_obj(ctx, got.obj, exp, msg)
    else:
        ctx.seen("wrapper selections")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            nw2, ri, gi, ci = w.indexing_func_meta(f)
        except IndexingError:
            ctx.fail(f"{msg}: meta refused")
    cells = two.values[ri, :][:, ci] if np.ndim(ri) else two.values[ri, ci]
    ctx.check(np.array_equal(np.asarray(cells).reshape(exp.values.shape), exp.values), f"{msg}: positions select {np.asarray(cells).tolist()} instead of {exp.values.tolist()}")
    ctx.seen("cells selected", int(exp.size))
    ctx.nontrivial(desc[:6], target, obj.shape, exp.shape)


@monitor(weight=2)
def columns_only(ctx):
    """Column-only selection treats the wrapper as a series of columns."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    obj = pd.DataFrame(np.arange(n * c, dtype=float).reshape(n, c), index=uniq(rng, n, IKINDS), columns=uniq(rng, c, CKINDS, names=True))
    by_arg = rng.random() < 0.5
    w = ArrayWrapper.from_obj(obj, **({} if by_arg else dict(column_only_select=True)))
    ref = pd.Series(np.arange(c), index=obj.columns)
    f, desc = selector(rng, ref)
    if f is None:
        raise Skip
    exp, err = ref_select(f, ref)
    if err is not None or (isinstance(exp, pd.Series) and len(exp) == 0):
        raise Skip
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        nw, ri, gi, ci = w.indexing_func_meta(f, **(dict(column_only_select=True) if by_arg else {}))
    msg = f"columns only {desc} of {describe(obj)}"
    if isinstance(exp, pd.Series):
        idx.check(ctx, nw.columns, idx.levels(exp.index), f"{msg}: columns")
        ctx.check(nw.ndim == 2 and np.array_equal(ci, exp.values), f"{msg}: positions {ci} instead of {exp.values}")
    else:
        ctx.check(nw.ndim == 1 and int(ci) == int(exp), f"{msg}: position {ci} instead of {exp}")
        ctx.check(labels(nw.columns) == labels(obj.columns[[int(exp)]]), f"{msg}: label {list(nw.columns)}")
    idx.check(ctx, nw.index, idx.levels(obj.index), f"{msg}: index")
    ctx.check(np.array_equal(ri, np.arange(n)), f"{msg}: rows {ri}")
    if not by_arg:
        got = f(w)
        ctx.check(got.column_only_select is True and labels(got.columns) == labels(nw.columns), f"{msg}: wrapper selection")
    sw = ArrayWrapper(obj.index, obj.columns[:1], 1, column_only_select=True)
    ctx.raises(IndexingError, lambda: sw.iloc[0], msg="column selection of a series")
    ctx.seen("column selections")
    ctx.nontrivial(desc[:5], c, by_arg)


# ------------------------------------------------------------------ grouping
def draw_groups(rng, cols, sorted_=True):
    """(group_by as passed, list of group labels per column, level names)."""
    c = len(cols)
    forms = ["array", "list", "index", "named", "true", "series"]
    if isinstance(cols, pd.MultiIndex):
        forms += ["level", "name", "levels"]
    form = pick(rng, forms)
    if form == "true":
        return True, ["group"] * c, [None]
    if form in ("level", "name", "levels"):
        if form == "levels":
            k = [int(x) for x in rng.permutation(cols.nlevels)[:int(rng.integers(1, cols.nlevels + 1))]]
            spec = [cols.names[p] if rng.random() < 0.5 else p for p in k]
            if len(spec) == c:
                raise Skip
            return spec, [tuple(idx.py(t[p]) for p in k) for t in cols], [cols.names[p] for p in k]
        k = int(rng.integers(cols.nlevels))
        return (k if form == "level" else cols.names[k]), [idx.py(t[k]) for t in cols], [cols.names[k]]
    lens = gen.group_lens(rng, c)
    ids = list(rng.permutation(20)[:len(lens)]) if rng.random() < 0.5 else list(range(len(lens)))
    vals = [int(ids[g]) for g in gen.groups_from_lens(lens)]
    if rng.random() < 0.4:
        vals = [f"g{v}" for v in vals]
    if not sorted_ and c > 2:
        vals = [vals[int(p)] for p in rng.permutation(c)]
    if form == "array":
        return np.array(vals), vals, [None]
    if form == "list":
        return list(vals), vals, [None]
    if form == "series":
        return pd.Index(vals, name="gs"), vals, ["gs"]
    nm = "grp" if form == "named" else None
    return pd.Index(vals, name=nm), vals, [nm]


def factorize(vals):
    order = list(dict.fromkeys(vals))
    return [order.index(v) for v in vals], order


@monitor(weight=4)
def grouping(ctx):
    """Group codes, labels, lengths, starts and ends; refused changes."""
    rng = ctx.rng
    c = int(rng.integers(1, 7))
    cols = uniq(rng, c, CKINDS, names=True)
    if isinstance(cols, pd.MultiIndex) and rng.random() < 0.6:
        cols = cols.sort_values()
    gb, vals, names = draw_groups(rng, cols, rng.random() < 0.75)
    codes, order = factorize(vals)
    flags = {k: bool(rng.random() < 0.7) for k in ("allow_enable", "allow_disable", "allow_modify")}
    g = ColumnGrouper(cols, group_by=gb, **flags)
    msg = f"groups {vals} passed as {gb!r}"
    c2, i2 = get_groups_and_index(cols, gb)
    ctx.check(list(c2) == codes, f"{msg}: codes {list(c2)} instead of {codes}")
    ctx.check(labels(i2) == order and list(i2.names) == names, f"{msg}: labels {list(i2)} names {list(i2.names)} instead of {order} {names}")
    ctx.check(list(g.get_groups()) == codes and labels(g.get_columns()) == order, f"{msg}: grouper codes")
    ctx.check(g.is_grouped() and not g.is_grouping_enabled() and not g.is_grouping_disabled() and not g.is_grouping_modified() and not g.is_grouping_changed(), f"{msg}: state")
    sorted_ = codes == sorted(codes)
    ctx.check(bool(g.is_sorted()) == sorted_, f"{msg}: is_sorted {g.is_sorted()}")
    if not sorted_:
        for f in (g.get_group_lens, g.get_group_count, g.get_group_start_idxs, g.get_group_end_idxs):
            ctx.raises(ValueError, f, msg=f"{msg}: {f.__name__} of incoherent groups")
        ctx.seen("incoherent groups refused")
    else:
        lens = [codes.count(k) for k in range(len(order))]
        starts = [codes.index(k) for k in range(len(order))]
        ctx.check(list(g.get_group_lens()) == lens, f"{msg}: lengths {g.get_group_lens()} instead of {lens}")
        ctx.check(g.get_group_count() == len(order), f"{msg}: count {g.get_group_count()}")
        ctx.check(list(g.get_group_start_idxs()) == starts, f"{msg}: starts {g.get_group_start_idxs()} instead of {starts}")
        ctx.check(list(g.get_group_end_idxs()) == [s + l for s, l in zip(starts, lens)], f"{msg}: ends {g.get_group_end_idxs()}")
        ctx.check(sum(lens) == c, "groups do not cover the columns")
    # ungrouped
    u = ColumnGrouper(cols, **flags)
    ctx.check(not u.is_grouped() and list(u.get_groups()) == list(range(c)) and labels(u.get_columns()) == labels(cols), "ungrouped grouper")
    ctx.check(list(u.get_group_lens()) == [1] * c and list(u.get_group_start_idxs()) == list(range(c)) and list(u.get_group_end_idxs()) == list(range(1, c + 1)), "ungrouped lengths")
    # changes
    nb, nvals, _ = draw_groups(rng, cols)
    ncodes, norder = factorize(nvals)
    same_groups = ncodes == codes
    ctx.check(u.is_grouping_enabled(group_by=nb) and not u.is_grouping_disabled(group_by=nb) and not u.is_grouping_disabled(group_by=False), "enabling")
    ctx.check(g.is_grouping_disabled(group_by=False) and not g.is_grouping_disabled(group_by=nb) and not g.is_grouping_enabled(group_by=nb), "disabling")
    ctx.check(bool(g.is_grouping_modified(group_by=nb)) == (not same_groups), f"{msg}: is_grouping_modified({nvals})")
    if isinstance(nb, pd.Index):
        ctx.check(bool(g.is_group_count_changed(group_by=nb)) == (len(norder) != len(order)), f"{msg}: is_group_count_changed({nvals}) is {g.is_group_count_changed(group_by=nb)}")
        ctx.check(bool(g.is_grouping_changed(group_by=nb)) == (nvals != vals), f"{msg}: is_grouping_changed({nvals})")
    ctx.check(g.is_grouping_changed(group_by=False) and not u.is_grouping_changed(group_by=False), "is_grouping_changed(False)")

    def refuse(allowed, grouper, by):
        if allowed:
            grouper.check_group_by(group_by=by)
            grouper.resolve_group_by(group_by=by)
        else:
            ctx.raises(ValueError, grouper.check_group_by, group_by=by, msg=f"{msg}: {by!r} with {flags}")
            ctx.raises(ValueError, grouper.resolve_group_by, group_by=by, msg=f"{msg}: resolve {by!r} with {flags}")
            ctx.seen("group changes refused")
    refuse(flags["allow_enable"], u, nb)
    refuse(flags["allow_disable"], g, False)
    refuse(flags["allow_modify"] or same_groups, g, nb)
    refuse(True, u, False)
    refuse(True, g, None)
    if flags["allow_modify"] or same_groups:
        ctx.check(list(g.get_groups(group_by=nb)) == ncodes and labels(g.get_columns(group_by=nb)) == norder, f"{msg}: groups under {nvals}")
        if ncodes == sorted(ncodes):
            ctx.check(list(g.get_group_lens(group_by=nb)) == [ncodes.count(k) for k in range(len(norder))], "lengths under another grouping")
    ctx.raises(ValueError, group_by_to_index, cols, np.zeros(c + 1), msg="wrong number of group labels")
    # wrappers
    w = ArrayWrapper(pd.RangeIndex(2), cols, 2, group_by=gb, **flags)
    wu = ArrayWrapper(pd.RangeIndex(2), cols, 2, **flags)
    for ww, by, ok in ((w, nb, flags["allow_modify"] or same_groups), (w, False, flags["allow_disable"]), (wu, nb, flags["allow_enable"])):
        if not ok:
            ctx.raises(ValueError, ww.regroup, by, msg=f"{msg}: wrapper regroup to {by!r} with {flags}")
            ctx.raises(ValueError, ww.resolve, by, msg=f"{msg}: wrapper resolve to {by!r} with {flags}")
            continue
        if by is not False and ncodes != sorted(ncodes):
            continue
        if by is not False and not sorted_ and ww is w:
            continue
        r = ww.regroup(by)
        ctx.check(labels(r.columns) == labels(cols), "regroup changed columns")
        if by is False:
            ctx.check(not r.grouper.is_grouped() and r.get_ndim() == 2, "regroup(False)")
            continue
        ctx.check(list(r.grouper.get_groups()) == ncodes, f"regroup: {r.grouper.get_groups()} instead of {ncodes}")
        s = ww.resolve(by)
        ctx.check(labels(s.columns) == norder and not s.grouper.is_grouped(), f"{msg}: resolved columns {list(s.columns)} instead of {norder}")
        ctx.check(s.ndim == (2 if len(norder) > 1 else 1), f"{msg}: resolved ndim {s.ndim} for groups {nvals}")
        ctx.check(s.shape == ((2, len(norder)) if len(norder) > 1 else (2,)), f"{msg}: resolved shape {s.shape}")
        ctx.check(ww.get_shape_2d(by) == (2, len(norder)) and ww.get_shape(by) == s.shape and labels(ww.get_columns(by)) == norder, "getters under a grouping")
    ctx.seen("groupings")
    ctx.nontrivial(c, tuple(codes), type(gb).__name__, type(nb).__name__)


@monitor(weight=4)
def grouped_select(ctx):
    """Selections of groups (or of columns inside groups) keep members, labels and order."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 5)), int(rng.integers(1, 8))
    ii = uniq(rng, n, IKINDS)
    cols = uniq(rng, c, ["range", "str", "int", "multi", "multi"], names=True)
    if isinstance(cols, pd.MultiIndex):
        if rng.random() < 0.3:
            cols = pd.MultiIndex.from_tuples([(x // 4, x // 2 % 2, x % 2) for x in range(c)], names=["l0", "l1", "l2"])
        cols = cols.sort_values()
    if not cols.is_unique:
        raise Skip
    gb, vals, names = draw_groups(rng, cols)
    codes, order = factorize(vals)
    if codes != sorted(codes):
        raise Skip
    gs = bool(rng.random() < 0.7)
    by_arg = rng.random() < 0.5
    w = ArrayWrapper(ii, cols, 2, group_by=gb, freq="3h", **({} if by_arg else dict(group_select=gs)))
    k = len(order)
    # pandas equivalent of what is being selected
    if gs:
        ndim = 2 if k > 1 else 1
        gix = pd.Index(order, name=names[0]) if not isinstance(order[0], tuple) else pd.MultiIndex.from_tuples(order, names=names)
        cells = np.arange(n * k).reshape(n, k)
        ref = pd.DataFrame(cells, index=ii, columns=gix) if ndim == 2 else pd.Series(cells[:, 0], index=ii, name=order[0])
    else:
        ref = pd.DataFrame(np.arange(n * c).reshape(n, c), index=ii, columns=cols)
    f, desc = selector(rng, ref)
    if f is None:
        raise Skip
    exp, err = ref_select(f, ref)
    msg = f"{desc} on groups {vals} of {list(cols)} (group_select={gs})"
    if err is not None or not isinstance(exp, (pd.Series, pd.DataFrame)) or 0 in exp.shape:
        raise Skip
    width = ref.shape[1] if ref.ndim == 2 else 1
    ids = exp.values
    flipped = exp.ndim == 1 and ref.ndim == 2 and len(set((ids % width).tolist())) > 1
    lone = exp.ndim == 1 and ref.ndim == 2 and len(exp) == 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = dict(group_select=gs) if by_arg else {}
        if flipped or lone:
            ctx.raises(IndexingError, w.indexing_func_meta, f, **kw, msg=f"{msg}: one row of several groups")
            ctx.seen("flips refused")
            return
        nw, ri, gi, ci = w.indexing_func_meta(f, **kw)
    sel = ids.reshape(len(exp), -1)
    rows = (sel[:, 0] // width).tolist()
    picked = (sel[0] % width).tolist()
    ctx.check(list(ri) == rows, f"{msg}: rows {ri} instead of {rows}")
    if gs:
        ccols = [j for g in picked for j in range(c) if codes[j] == g]
        glabels = [g for g in picked for j in range(c) if codes[j] == g]
        ctx.check(np.atleast_1d(gi).tolist() == picked, f"{msg}: groups {gi} instead of {picked}")
        one = exp.ndim == 1
        if len(set(picked)) != len(picked):
            raise Skip
        ctx.check(nw.grouped_ndim == exp.ndim, f"{msg}: grouped_ndim {nw.grouped_ndim} instead of {exp.ndim}")
        ctx.check(nw.ndim == (1 if one and len(ccols) == 1 else 2), f"{msg}: ndim {nw.ndim}")
        new_order = labels(exp.columns) if exp.ndim == 2 else [exp.name]
        if exp.ndim == 2:
            idx.check(ctx, nw.grouper.get_columns(), idx.levels(exp.columns), f"{msg}: labels of the selected groups")
            ctx.check(labels(nw.grouper.get_columns()) == new_order, f"{msg}: group labels {list(nw.grouper.get_columns())} instead of {new_order}")
        else:
            ctx.check(labels(nw.grouper.get_columns()) == [order[picked[0]]], f"{msg}: group label {list(nw.grouper.get_columns())}")
        want = [picked.index(g) for g in glabels]
        ctx.check(list(nw.grouper.get_groups()) == want, f"{msg}: members {list(nw.grouper.get_groups())} instead of {want}")
        ctx.check(list(nw.grouper.get_group_lens()) == [codes.count(g) for g in picked], f"{msg}: lengths {nw.grouper.get_group_lens()}")
    else:
        ccols = picked
        ctx.check(nw.ndim == exp.ndim, f"{msg}: ndim {nw.ndim}")
        ctx.check([idx.py(x) for x in nw.grouper.group_by] == [vals[j] for j in ccols], f"{msg}: group labels {list(nw.grouper.group_by)}")
    ctx.check(np.atleast_1d(ci).tolist() == ccols, f"{msg}: columns {ci} instead of {ccols}")
    ctx.check(labels(nw.columns) == ([labels(cols)[j] for j in ccols] if gs or exp.ndim == 1 else labels(exp.columns)), f"{msg}: column labels {list(nw.columns)}")
    idx.check(ctx, nw.index, idx.levels(exp.index), f"{msg}: index")
    ctx.check(nw.freq == pd.Timedelta("3h"), "frequency lost")
    ctx.seen("group selections" if gs else "column selections inside groups")
    # wrapping the selected results must carry the same labels as pandas
    if gs:
        m = len(picked)
        a = np.arange(len(rows) * m, dtype=float).reshape(-1, m)
        out = nw.wrap(a if exp.ndim == 2 else a[:, 0])
        ctx.check(type(out) is type(exp) and out.shape == exp.shape and np.array_equal(out.values.reshape(a.shape), a), f"{msg}: wrapped {type(out).__name__}{out.shape}")
        red = nw.wrap_reduced(a[0])
        if exp.ndim == 2:
            ctx.check(labels(red.index) == new_order and np.array_equal(red.values, a[0]), f"{msg}: reduced labels {list(red.index)} instead of {new_order}")
        else:
            ctx.check(np.ndim(red) == 0 and red == a[0, 0], f"{msg}: reduced to {red!r}")
        if rng.random() < 0.5:
            flat = nw.regroup(False)
            ctx.check(not flat.grouper.is_grouped() and flat.shape_2d == (len(rows), len(ccols)), "regroup(False) after selection")
    ctx.nontrivial(desc[:5], gs, tuple(codes), tuple(picked), exp.ndim)


# ------------------------------------------------------------------ wrapping
@monitor(weight=4)
def wrapping(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    c = int(rng.integers(1, 5))
    ndim = 1 if c == 1 and rng.random() < 0.6 else 2
    ii, cols = uniq(rng, n, IKINDS), uniq(rng, c, ["range", "str", "int", "multi"], names=True)
    kw = {}
    order, grouped = None, False
    gb = None
    if rng.random() < 0.5:
        gb, vals, names = draw_groups(rng, cols)
        codes, order = factorize(vals)
        if codes != sorted(codes):
            raise Skip
        grouped = True
    freq = pick(rng, [None, "D", "90min", pd.Timedelta("1h")])
    at_call = grouped and rng.random() < 0.5
    if grouped and not at_call:
        kw["group_by"] = gb
    w = ArrayWrapper(ii, cols, ndim, freq=freq, **kw)
    call = {}
    if at_call:
        call["group_by"] = gb
    elif grouped and rng.random() < 0.3:
        call["group_by"] = False
        grouped = False
    if grouped:
        labs = pd.Index(order, name=names[0]) if not isinstance(order[0], tuple) else pd.MultiIndex.from_tuples(order, names=names)
        wnd = 2 if len(order) > 1 else 1
    else:
        labs, wnd = cols, ndim
    m = len(labs)
    msg = f"wrap {n}x{m} grouped={grouped} ndim={wnd}"
    if rng.random() < 0.25:
        labs = idx.rand_index(rng, m, ["str", "int"])
        call["columns"] = labs if rng.random() < 0.5 or labs.name is not None else list(labs)
    what = pick(rng, ["wrap", "wrap", "reduced1", "reduced2", "reduced0"])
    kind = pick(rng, ["float", "int", "index", "delta"])
    rows = n
    a = np.round(rng.normal(0, 5, (rows, m)), 1)
    if what == "wrap":
        new_index = ii
        if rng.random() < 0.3:
            rows = int(rng.integers(1, 6))
            new_index = idx.rand_index(rng, rows, ["str", "int", "date"])
            call["index"] = new_index
        a = np.round(rng.normal(0, 5, (rows, m)), 1)
    elif what == "reduced1":
        a = a[:1]
    elif what == "reduced0":
        a = a[:1, :1]
    else:
        rows = int(rng.integers(2, 5))
        a = np.round(rng.normal(0, 5, (rows, m)), 1)
    if kind == "index":
        a = rng.integers(-1, n, a.shape)
        call["to_index"] = True
    elif kind == "int":
        a = rng.integers(-5, 6, a.shape)
    elif kind == "delta":
        a = np.round(np.abs(a))
        call["to_timedelta"] = True
        call["silence_warnings"] = True
    if kind == "float" or (kind == "delta" and rng.random() < 0.5):
        a = np.where(rng.random(a.shape) < 0.25, NAN, a)
    fill = None
    if kind == "float" and rng.random() < 0.5:
        fill = call["fillna"] = float(rng.integers(9))
    elif kind == "index" and what != "wrap" and rng.random() < 0.4:
        a = np.where(a == -1, NAN, a.astype(float))
    if kind == "int" and rng.random() < 0.5:
        call["dtype"] = np.float64
    e = a.astype(object)
    if fill is not None:
        e = np.where(pd.isnull(a), fill, a).astype(object)
    if kind == "index":
        e = np.array([[NAN if (v != v or v == -1) else ii[int(v)] for v in r] for r in a], dtype=object).reshape(a.shape + (() if not isinstance(ii, pd.MultiIndex) else (-1,))) if not isinstance(ii, pd.MultiIndex) else np.full(a.shape, None, object)
        if isinstance(ii, pd.MultiIndex):
            for p in range(a.shape[0]):
                for q in range(a.shape[1]):
                    v = a[p, q]
                    e[p, q] = NAN if (v != v or v == -1) else ii[int(v)]
    fr = w.freq
    if kind == "delta" and fr is not None:
        for p in range(a.shape[0]):
            for q in range(a.shape[1]):
                e[p, q] = pd.NaT if a[p, q] != a[p, q] else pd.Timedelta(int(a[p, q]) * fr.value, unit="ns")
    name0 = labs[0]
    name0 = None if not isinstance(name0, tuple) and idx.same_value(idx.py(name0), 0) else name0
    save = None

    def value(got, exp, where):
        ok = (pd.isnull(got) and pd.isnull(exp)) if not isinstance(exp, tuple) and pd.isnull(exp) else (got == exp)
        ctx.check(bool(ok), f"{msg} {what} {call}: {where} is {got!r} instead of {exp!r}")
        ctx.seen("wrapped cells")
    if what == "wrap":
        arr = a.copy()
        if m == 1 and rng.random() < 0.5:
            arr = arr[:, 0]
        if rng.random() < 0.3:
            arr.flags.writeable = False
        save = arr.copy()
        out = w.wrap(arr, **call)
        want_sr = wnd == 1
        ctx.check(isinstance(out, pd.Series if want_sr else pd.DataFrame), f"{msg} {call}: {type(out).__name__}")
        idx.check(ctx, out.index, idx.levels(new_index), f"{msg} {call}: index")
        if want_sr:
            ctx.check(idx.same_value(out.name, name0), f"{msg} {call}: name {out.name!r} instead of {name0!r}")
        else:
            idx.check(ctx, out.columns, idx.levels(labs), f"{msg} {call}: columns")
        for p in range(rows):
            for q in range(m):
                value(out.iloc[p] if want_sr else out.iloc[p, q], e[p, q], f"cell ({p}, {q})")
        if kind == "int":
            vd = out.dtype if want_sr else out.dtypes.iloc[0]
            ctx.check(vd == call.get("dtype", a.dtype), f"{msg}: dtype {vd}")
        if rng.random() < 0.3:
            bad = np.zeros((rows + 1, m))
            ctx.raises(AssertionError, w.wrap, bad, **{k_: v for k_, v in call.items() if k_ in ("group_by", "index", "columns")}, msg="wrong number of rows")
            if wnd == 2:
                ctx.raises(AssertionError, w.wrap, np.zeros((rows, m + 1)), **{k_: v for k_, v in call.items() if k_ in ("group_by", "index", "columns")}, msg="wrong number of columns")
    elif what == "reduced0":
        arr = np.asarray(a[0, 0])
        out = w.wrap_reduced(arr, **call)
        ctx.check(np.ndim(out) == 0 or isinstance(out, tuple), f"{msg}: scalar became {type(out).__name__}")
        value(out, e[0, 0], "scalar")
    elif what == "reduced1":
        nm = pick(rng, [None, "metric"])
        if nm:
            call["name_or_index"] = nm
        arr = a[0].copy()
        save = arr.copy()
        out = w.wrap_reduced(arr, **call)
        if wnd == 1:
            ctx.check(np.ndim(out) == 0 or isinstance(out, tuple), f"{msg}: {type(out).__name__} for one column")
            value(out, e[0, 0], "scalar")
        else:
            ctx.check(isinstance(out, pd.Series), f"{msg}: {type(out).__name__}")
            idx.check(ctx, out.index, idx.levels(labs), f"{msg} {call}: reduced labels")
            ctx.check(out.name == nm, f"{msg}: name {out.name}")
            for q in range(m):
                value(out.iloc[q], e[0, q], f"column {q}")
    else:
        ix = pick(rng, [None, [f"s{p}" for p in range(rows)], pd.Index(range(5, 5 + rows), name="q"), "text"])
        if ix is not None:
            call["name_or_index"] = ix
        arr = a.copy()
        if wnd == 1 and rng.random() < 0.5:
            arr = arr[:, 0]
        save = arr.copy()
        out = w.wrap_reduced(arr, **call)
        lv = idx.rng_levels(rows) if ix is None or isinstance(ix, str) else (idx.levels(ix) if isinstance(ix, pd.Index) else [(None, ix)])
        want_sr = wnd == 1
        ctx.check(isinstance(out, pd.Series if want_sr else pd.DataFrame), f"{msg} {call}: {type(out).__name__}")
        idx.check(ctx, out.index, lv, f"{msg} {call}: index")
        if want_sr:
            ctx.check(idx.same_value(out.name, name0), f"{msg} {call}: name {out.name!r} instead of {name0!r}")
        else:
            idx.check(ctx, out.columns, idx.levels(labs), f"{msg} {call}: columns")
        for p in range(rows):
            for q in range(m):
                value(out.iloc[p] if want_sr else out.iloc[p, q], e[p, q], f"cell ({p}, {q})")
    if save is not None:
        ctx.check(np.array_equal(arr, save, equal_nan=save.dtype.kind == "f"), f"{msg} {call}: the passed array was modified")
    if what == "wrap" and not call.get("to_index") and rng.random() < 0.4:
        by = {k_: v for k_, v in call.items() if k_ == "group_by"}
        d = w.dummy(**by)
        fl = w.fill(7, **by)
        fr_ = w.fill_reduced(3, **by)
        sh = (n, m) if wnd == 2 else (n,)
        ctx.check(d.shape == sh and fl.shape == sh and (fl.values == 7).all(), f"{msg}: dummy {d.shape} fill {fl.shape}")
        ctx.check((np.ndim(fr_) == 0 and fr_ == 3) if wnd == 1 else (len(fr_) == m and (fr_.values == 3).all()), f"{msg}: fill_reduced {fr_!r}")
    ctx.nontrivial(what, kind, grouped, wnd, n, m, tuple(sorted(call)))


class Holder(Wrapping):
    pass


@monitor(weight=2)
def select_one(ctx):
    """select_one and select_one_from_obj return exactly one column or group or raise."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 4)), int(rng.integers(1, 6))
    cols = uniq(rng, c, ["range", "str", "int", "multi"], names=True)
    if not cols.is_unique:
        raise Skip
    ndim = 1 if c == 1 and rng.random() < 0.5 else 2
    gb = None
    kw = {}
    if rng.random() < 0.5:
        gb, vals, names = draw_groups(rng, cols)
        codes, order = factorize(vals)
        if codes != sorted(codes):
            raise Skip
    co = bool(rng.random() < 0.3)
    if co:
        kw["column_only_select"] = True
    at_call = gb is not None and rng.random() < 0.4
    w = ArrayWrapper(pd.RangeIndex(max(n, 2)), cols, ndim, **kw, **(dict(group_by=gb) if gb is not None and not at_call else {}))
    h = Holder(w)
    by = dict(group_by=gb) if at_call else {}
    labs = order if gb is not None else labels(cols)
    single = len(labs) == 1 and (ndim == 1 or gb is not None)
    k = int(rng.integers(len(labs)))
    lab = labs[k]
    msg = f"select_one of {labs} (grouped={gb is not None}, ndim={ndim}, columns only={co})"
    if single:
        ctx.raises(TypeError, h.select_one, column=lab, **by, msg=f"{msg}: already one")
        out = h.select_one(**by)
        ctx.check(out.wrapper.shape_2d == h.wrapper.shape_2d, f"{msg}: no column")
    else:
        ctx.raises(TypeError, h.select_one, **by, msg=f"{msg}: no column given")
        for arg in (lab, k if all(isinstance(x, str) or (isinstance(x, tuple) and isinstance(x[0], str)) for x in labs) else lab):
            if isinstance(lab, tuple) and gb is not None:
                continue
            try:
                out = h.select_one(column=arg, **by)
            except (TypeError, KeyError) as e:
                ctx.fail(f"{msg}: {arg!r} of {cols!r} refused: {e}")
            if gb is not None:
                members = [labels(cols)[j] for j in range(c) if codes[j] == k]
                ctx.check(labels(out.wrapper.columns) == members, f"{msg}: {arg} selects {list(out.wrapper.columns)} instead of {members}")
                ctx.check(labels(out.wrapper.grouper.get_columns()) == [lab] and out.wrapper.grouped_ndim == 1, f"{msg}: group of {arg}")
            else:
                ctx.check(labels(out.wrapper.columns) == [lab] and out.wrapper.ndim == 1, f"{msg}: {arg} selects {list(out.wrapper.columns)}")
        ctx.raises(KeyError, h.select_one, column="missing", **by, msg=f"{msg}: unknown label")
        # reduced and full objects
        wr = w.regroup(gb) if at_call else w
        red = wr.wrap_reduced(np.arange(len(labs)))
        full = wr.wrap(np.arange(2 * len(labs)).reshape(2, -1) if max(n, 2) == 2 else np.arange(max(n, 2) * len(labs)).reshape(-1, len(labs)))
        if isinstance(red, pd.Series) and wr.ndim == 2 and not isinstance(lab, tuple):
            ctx.check(Wrapping.select_one_from_obj(red, wr, column=lab) == k, f"{msg}: reduced object")
            got = Wrapping.select_one_from_obj(full, wr, column=lab)
            ctx.check(np.array_equal(got.values, full.values[:, k]), f"{msg}: full object")
            ctx.raises(KeyError, Wrapping.select_one_from_obj, red, wr, column="missing", msg="unknown label")
            ctx.raises(TypeError, Wrapping.select_one_from_obj, red, wr, msg="no label")
    ctx.seen("single selections")
    ctx.nontrivial(c, ndim, gb is not None, co, len(labs), k)


@monitor(weight=1)
def frequency(ctx):
    """Frequency resolution: argument, settings, index."""
    rng = ctx.rng
    n = int(rng.integers(3, 8))
    f = pick(rng, ["D", "h", "15min", "7D"])
    ix = pd.date_range("2020-01-01", periods=n, freq=f, tz=pick(rng, [None, "UTC"]))
    stripped = pd.DatetimeIndex(list(ix))
    step = ix[1] - ix[0]
    cols = ["a"]
    ctx.check(ArrayWrapper(ix, cols, 1).freq == step, "frequency of the index")
    if f != "7D":  # pandas infers a calendar week, which has no fixed length
        ctx.check(ArrayWrapper(stripped, cols, 1).freq == step, "inferred frequency")
    m_ = pd.date_range("2020-01-01", periods=n, freq=pick(rng, ["MS", "YS", "QS"]))
    ctx.raises(ValueError, lambda: ArrayWrapper(pick(rng, [m_, pd.DatetimeIndex(list(m_))]), cols, 1).freq, msg="calendar frequency has no fixed length")
    ctx.check(ArrayWrapper(stripped[[0, 1] + ([] if n < 4 else [3])], cols, 1).freq is None, "irregular index has no frequency")
    ctx.check(ArrayWrapper(pd.RangeIndex(n), cols, 1).freq is None, "range index has no frequency")
    g = pick(rng, ["2D", "1h", "W", pd.Timedelta("3min"), "30s"])
    e = pd.Timedelta("7D") if g == "W" else pd.Timedelta(g)
    ctx.check(ArrayWrapper(ix, cols, 1, freq=g).freq == e, f"freq={g}: {ArrayWrapper(ix, cols, 1, freq=g).freq}")
    old = vbt.settings.array_wrapper["freq"]
    try:
        vbt.settings.array_wrapper["freq"] = g
        ctx.check(ArrayWrapper(ix, cols, 1).freq == e, "settings frequency")
        ctx.check(ArrayWrapper(ix, cols, 1, freq="5h").freq == pd.Timedelta("5h"), "argument before settings")
    finally:
        vbt.settings.array_wrapper["freq"] = old
    w = ArrayWrapper(pd.RangeIndex(n), cols, 1)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        a = np.arange(3.0)
        out = w.to_timedelta(a)
        ctx.check(out is a and len(rec) == 1, "missing frequency: unchanged and warned")
    w = ArrayWrapper(ix, cols, 1)
    v = float(rng.integers(0, 9))
    ctx.check(pd.Timedelta(w.to_timedelta(v)) == v * step, "to_timedelta of a number")
    ctx.check((w.to_timedelta(pd.Series([v, 1.0])) == pd.Series([v * step, step])).all(), "to_timedelta of a series")
    s = ArrayWrapper.from_shape((n, 3))
    ctx.check(s.shape == (n, 3) and list(s.columns) == [0, 1, 2] and ArrayWrapper.from_shape((n,)).shape == (n,), "from_shape")
    ctx.seen("frequencies")
    ctx.nontrivial(n, f, str(g))


@monitor(weight=1)
def by_param(ctx):
    """Selecting columns through a parameter mapper."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 4)), int(rng.integers(1, 6))
    cols = pd.MultiIndex.from_arrays([[int(x) for x in rng.integers(0, 3, c)], [f"c{j}" for j in range(c)]], names=["p", "s"])
    df = pd.DataFrame(np.arange(float(n * c)).reshape(n, c), columns=cols)
    vals = [v for v in cols.get_level_values(0)]
    kind = pick(rng, ["int", "str", "tuple"])
    mv = vals if kind == "int" else [f"v{v}" for v in vals] if kind == "str" else [(v, v + 1) for v in vals]
    mapper = pd.Series(mv, index=cols, name="p") if kind != "tuple" else pd.Series([None] * c, index=cols, name="p", dtype=object)
    if kind == "tuple":
        for j in range(c):
            mapper.iat[j] = mv[j]
    Ind = build_param_indexer(["p"])

    class Box(Ind):
        def __init__(self, obj, mapper):
            self.obj = obj
            Ind.__init__(self, [mapper], level_names=["p"])

        def indexing_func(self, f):
            return f(self.obj)
    b = Box(df, mapper)
    k = mv[int(rng.integers(c))]
    js = [j for j in range(c) if mv[j] == k]
    got = b.p_loc[k]
    ctx.check(isinstance(got, pd.DataFrame) and np.array_equal(got.values, df.values[:, js]), f"p_loc[{k}]: {got.values.tolist()} instead of columns {js}")
    ctx.check(labels(got.columns) == [f"c{j}" for j in js], f"p_loc[{k}]: level not dropped: {list(got.columns)}")
    ctx.check(labels(df.columns) == labels(cols), "object changed")
    many = [k, mv[int(rng.integers(c))]]
    many = list(dict.fromkeys(many))
    got = b.p_loc[many]
    js = [j for v in many for j in range(c) if mv[j] == v]
    ctx.check(np.array_equal(got.values, df.values[:, js]) and labels(got.columns) == [cols[j] for j in js], f"p_loc[{many}]: {list(got.columns)}")
    sel = [int(x) for x in rng.permutation(c)[:int(rng.integers(1, c + 1))]]
    nm = indexing_on_mapper(mapper, df, lambda x: x.iloc[:, sel])
    ctx.check(list(nm.values) == [mv[j] for j in sel] and labels(nm.index) == [cols[j] for j in sel], f"mapper after iloc {sel}: {nm}")
    ctx.seen("parameter selections")
    ctx.nontrivial(kind, c, len(js))
