"""B02: index and reshape operations keep every label attached to its data."""
import itertools
import operator
import numpy as np
import pandas as pd
import vectorbt as vbt
from numba import njit
from vectorbt.base import index_fns, reshape_fns, combine_fns
from vectorbt.base.accessors import BaseAccessor
from vt import gen, idx
from vt.core import monitor, Skip
from vt.gen import pick
from vt.checks.b01 import snapshot, values, describe, A, unchanged
from vt.checks.i02 import plain

NAN = np.nan


def uniq_names(rng, index):
    """The same index with distinct string names."""
    names = [f"n{i}" for i in rng.permutation(9)[:index.nlevels]]
    return index.set_names(names) if isinstance(index, pd.MultiIndex) else index.rename(names[0])


def frozen(index):
    return (type(index), list(index.names), list(index), index.dtype)


def apply_index(ctx, index, name, args, kw, expected, msg):
    """Run an index operation as a function and through the accessor on both axes."""
    rng = ctx.rng
    before = frozen(index)
    f = getattr(index_fns, name)
    ctx.check(callable(f), name)
    got = f(*args(index), **kw)
    idx.check(ctx, got, expected, f"{msg}")
    ctx.check(frozen(index) == before, f"{msg}: the passed index was modified")
    ctx.seen("index operations")
    return got


def through_accessor(ctx, index, call, expected, msg):
    """The accessor version moves labels only."""
    rng = ctx.rng
    axis = int(rng.random() < 0.5)
    m = int(rng.integers(1, 4))
    n = len(index)
    if n == 0:
        return
    a = np.arange(n * m, dtype=float).reshape((m, n) if axis == 1 else (n, m))
    df = pd.DataFrame(a, index=index if axis == 0 else None, columns=index if axis == 1 else None)
    inplace = rng.random() < 0.3
    before = frozen(index)
    out = call(df.vbt, axis, inplace)
    res = df if inplace else out
    if inplace:
        ctx.check(out is None, f"{msg}: in-place call returned something")
    else:
        ctx.check(frozen(df.columns if axis else df.index) == before, f"{msg}: object changed although not in place")
    idx.check(ctx, res.columns if axis else res.index, expected, f"{msg} accessor axis={axis} inplace={inplace}")
    ctx.check(np.array_equal(res.values, a), f"{msg}: data moved")
    ctx.check(frozen(index) == before, f"{msg}: the passed index was modified by the accessor")
    ctx.seen("accessor operations")


@monitor(weight=4)
def stacking(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    k = int(rng.integers(1, 4))
    opts = {}
    ropts = {}
    for a, b in (("drop_duplicates", "drop_duplicates"), ("drop_redundant", "drop_redundant_"), ("keep", "keep")):
        if rng.random() < 0.4:
            opts[a] = pick(rng, ["first", "last"]) if a == "keep" else bool(rng.random() < 0.5)
            ropts[b] = opts[a]
    if rng.random() < 0.6 or k == 1:
        ixs = [idx.rand_index(rng, n) for _ in range(max(k, 2))]
        if rng.random() < 0.5:
            ixs.append(ixs[int(rng.integers(len(ixs)))])
        before = [frozen(i) for i in ixs]
        got = index_fns.stack_indexes(ixs, **opts)
        exp = idx.stack([idx.levels(i) for i in ixs], **ropts)
        idx.check(ctx, got, exp, f"stack {[list(i) for i in ixs]} names {[list(i.names) for i in ixs]} {opts}")
        ctx.check([frozen(i) for i in ixs] == before, "stacked indexes were modified")
        top = bool(rng.random() < 0.5)
        e2 = idx.stack([idx.levels(ixs[1]), idx.levels(ixs[0])] if top else [idx.levels(ixs[0]), idx.levels(ixs[1])], **ropts)
        through_accessor(ctx, ixs[0], lambda acc, axis, inp: acc.stack_index(ixs[1], on_top=top, axis=axis, inplace=inp, **opts), e2, f"stack_index on_top={top} {opts}")
    else:
        ixs = [idx.rand_index(rng, int(rng.integers(1, 4))) for _ in range(k)]
        ign = pick(rng, [None, True, False])
        if ign is not None:
            opts["ignore_default"] = ropts["ignore_default"] = ign
        got = index_fns.combine_indexes(ixs, **opts)
        exp = idx.combine([idx.levels(i) for i in ixs], **ropts)
        idx.check(ctx, got, exp, f"combine {[list(i) for i in ixs]} names {[list(i.names) for i in ixs]} {opts}")
    ctx.seen("stacked", len(exp[0][1]))
    ctx.nontrivial(n, k, len(exp), tuple(sorted(opts)))


@monitor(weight=4)
def levels(ctx):
    """Repeat, tile, drop, rename, select, de-duplicate."""
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    i = idx.rand_index(rng, n)
    lv = idx.levels(i)
    op = pick(rng, ["repeat", "tile", "drop", "rename", "select", "redundant", "duplicate"])
    if op in ("repeat", "tile"):
        t = int(rng.integers(1, 4))
        kw = {} if rng.random() < 0.5 else dict(ignore_default=bool(rng.random() < 0.5))
        e = getattr(idx, op)(lv, t, kw.get("ignore_default", True))
        src = i if rng.random() < 0.8 or isinstance(i, pd.MultiIndex) or i.name is not None else list(i)
        got = getattr(index_fns, op + "_index")(src, t, **kw)
        idx.check(ctx, got, e, f"{op} {list(i)} x{t} {kw}")
        ctx.check(getattr(got, "tz", None) == getattr(i, "tz", None), f"{op}: time zone {getattr(got, 'tz', None)}")
        ctx.seen("index operations")
    elif op == "drop":
        i = uniq_names(rng, i)
        lv = idx.levels(i)
        k = i.nlevels
        if not isinstance(i, pd.MultiIndex):
            apply_index(ctx, i, "drop_levels", lambda x: (x, pick(rng, [0, "n1", [0]])), dict(strict=bool(rng.random() < 0.5)), lv, "drop from a plain index")
            return
        strict = bool(rng.random() < 0.5)
        m = int(rng.integers(1, k + (1 if not strict else 0))) if k > 1 else 1
        pos = [int(x) for x in rng.permutation(k)[:m]]
        if strict and m == k:
            raise Skip
        sel = [lv[p][0] if rng.random() < 0.5 else p for p in pos]
        extra = False
        if not strict:
            if rng.random() < 0.5:
                sel.append(pick(rng, ["missing", 77]))
            if rng.random() < 0.2:
                sel.append(-1)
                pos = sorted(set(pos) | {k - 1})
                if k - 1 in [s for s in sel if isinstance(s, int)]:
                    raise Skip
                if lv[k - 1][0] in sel:
                    raise Skip
        arg = sel[0] if len(sel) == 1 and rng.random() < 0.5 else sel
        e = [l for p, l in enumerate(lv) if p not in pos]
        if not e:
            e = lv
        apply_index(ctx, i, "drop_levels", lambda x: (x, arg), dict(strict=strict), e, f"drop_levels {arg} strict={strict} of {i.names}")
        through_accessor(ctx, i, lambda acc, axis, inp: acc.drop_levels(arg, axis=axis, inplace=inp, strict=strict), e, "drop_levels")
        if strict:
            ctx.raises(KeyError, index_fns.drop_levels, i, "missing", msg="dropping a missing level")
    elif op == "rename":
        i = uniq_names(rng, i)
        lv = idx.levels(i)
        d = {nm: f"x{j}" for j, (nm, _) in enumerate(lv) if rng.random() < 0.6}
        e = [(d.get(nm, nm), v) for nm, v in lv]
        strict = bool(rng.random() < 0.5)
        if not strict and rng.random() < 0.5:
            d["missing"] = "y"
        apply_index(ctx, i, "rename_levels", lambda x: (x, d), dict(strict=strict), e, f"rename_levels {d}")
        through_accessor(ctx, i, lambda acc, axis, inp: acc.rename_levels(d, axis=axis, inplace=inp, strict=strict), e, "rename_levels")
        ctx.raises(KeyError, index_fns.rename_levels, i, {"missing": "y"}, msg="renaming a missing level")
    elif op == "select":
        i = uniq_names(rng, i)
        lv = idx.levels(i)
        if not isinstance(i, pd.MultiIndex):
            ctx.raises(AssertionError, index_fns.select_levels, i, 0, msg="selecting a level of a plain index")
            return
        if rng.random() < 0.4:
            p = int(rng.integers(i.nlevels))
            arg, e = (lv[p][0] if rng.random() < 0.5 else p), [lv[p]]
        else:
            pos = [int(x) for x in rng.permutation(i.nlevels)[:int(rng.integers(1, i.nlevels + 1))]]
            arg, e = [lv[p][0] if rng.random() < 0.5 else p for p in pos], [lv[p] for p in pos]
            arg = tuple(arg) if rng.random() < 0.5 else arg
        apply_index(ctx, i, "select_levels", lambda x: (x, arg), {}, e, f"select_levels {arg}")
        through_accessor(ctx, i, lambda acc, axis, inp: acc.select_levels(arg, axis=axis, inplace=inp), e, "select_levels")
    elif op == "redundant":
        e = idx.drop_redundant(lv) if isinstance(i, pd.MultiIndex) else lv
        apply_index(ctx, i, "drop_redundant_levels", lambda x: (x,), {}, e, f"drop_redundant_levels {list(i)} {i.names}")
        through_accessor(ctx, i, lambda acc, axis, inp: acc.drop_redundant_levels(axis=axis, inplace=inp), e, "drop_redundant_levels")
    else:
        keep = pick(rng, [None, "first", "last"])
        if isinstance(i, pd.MultiIndex):
            parts = [(nm, v) for nm, v in lv]
            for _ in range(int(rng.integers(0, 3))):
                p = parts[int(rng.integers(len(parts)))]
                parts.insert(int(rng.integers(len(parts) + 1)), p if rng.random() < 0.7 else (pick(rng, ["a", None]), p[1]))
            i = pd.MultiIndex.from_arrays([v for _, v in parts], names=[nm for nm, _ in parts])
            lv = idx.levels(i)
        e = idx.drop_dups(lv, keep or "last")
        kw = {} if keep is None else dict(keep=keep)
        apply_index(ctx, i, "drop_duplicate_levels", lambda x: (x,), kw, e, f"drop_duplicate_levels {list(i)} {i.names} {kw}")
        through_accessor(ctx, i, lambda acc, axis, inp: acc.drop_duplicate_levels(axis=axis, inplace=inp, **kw), e, "drop_duplicate_levels")
    ctx.nontrivial(op, n, i.nlevels)


@monitor(weight=1)
def build(ctx):
    """index_from_values, pick_levels, find_first_occurrence, align_indexes."""
    rng = ctx.rng
    vals, exp = [], []
    for k in range(int(rng.integers(1, 6))):
        kind = pick(rng, ["scalar", "const", "array", "obj", "none", "iconst", "iarray"])
        if kind == "scalar":
            v = pick(rng, [1, 2.5, "s", True, np.float64(3.5)])
            e = v
        elif kind in ("const", "iconst"):
            x = float(rng.integers(9)) if kind == "const" else int(rng.integers(9))
            v, e = np.full(pick(rng, [(1,), (3,), (2, 2)]), x), x
        elif kind in ("array", "iarray"):
            v = np.arange(3) * (1.0 if kind == "array" else 1)
            e = f"array_{k}"
        elif kind == "none":
            v = e = None
        else:
            v = pick(rng, [[1, 2], {"a": 1}, (3,)])
            e = f"{type(v).__name__}_{k}"
        vals.append(v)
        exp.append(e)
    nm = pick(rng, [None, "p"])
    got = index_fns.index_from_values(vals, name=nm)
    ref = pd.Index(exp, name=nm)
    ctx.check(got.equals(ref) and got.name == nm, f"index_from_values {vals}: {list(got)} instead of {exp}")
    # pick_levels
    m = int(rng.integers(2, 6))
    names = [f"n{j}" for j in range(m)]
    mi = pd.MultiIndex.from_arrays([[1, 2]] * m, names=names)
    perm = [int(x) for x in rng.permutation(m)]
    n_opt = int(rng.integers(0, m))
    opt_pos = [p if rng.random() < 0.6 else None for p in perm[:n_opt]]
    used = [p for p in opt_pos if p is not None]
    rest = [p for p in range(m) if p not in used]
    partial = rng.random() < 0.6
    req_pos = [rest[int(x)] for x in rng.permutation(len(rest))]
    req_spec = [None if partial and rng.random() < 0.6 else p for p in req_pos]
    left = [p for p in rest if p not in req_spec]
    e_req = []
    for p in req_spec:
        e_req.append(left.pop(0) if p is None else p)

    def spec(p):
        return None if p is None else pick(rng, [p, names[p], p - m])
    r, o = index_fns.pick_levels(mi, [spec(p) for p in req_spec], [spec(p) for p in opt_pos])
    ctx.check(r == e_req and o == opt_pos, f"pick_levels {req_spec} {opt_pos} of {m}: {r}, {o} instead of {e_req}, {opt_pos}")
    if None in req_spec:
        ctx.raises(ValueError, index_fns.pick_levels, mi, [spec(p) for p in req_spec] + [None], [spec(p) for p in opt_pos], msg="too many required levels")
    # first occurrence
    i = idx.rand_index(rng, int(rng.integers(1, 7)), ["str", "int", "const", "date", "bool", "float", "multi"])
    p = int(rng.integers(len(i)))
    first = min(q for q in range(len(i)) if i[q] == i[p])
    g = index_fns.find_first_occurrence(i[p], i)
    ctx.check(int(g) == first, f"find_first_occurrence {i[p]} in {list(i)}: {g} instead of {first}")
    ctx.seen("built")
    ctx.nontrivial(len(vals), m, n_opt, partial)


@monitor(weight=3)
def reshape(ctx):
    """Repeating and tiling of objects (with keys), conversions."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    kinds = ["range", "str", "int", "date", "multi", "named_range"]
    ii, cc = idx.rand_index(rng, n, kinds), idx.rand_index(rng, c, kinds)
    dt = pick(rng, ["f", "i", "b"])
    sr = rng.random() < 0.3
    x = pd.Series(values(rng, n, dt), index=ii, name=pick(rng, [None, "x", 5])) if sr else pd.DataFrame(values(rng, (n, c), dt), index=ii, columns=cc)
    raw = x.values
    arg = A(x)
    t = int(rng.integers(1, 4))
    axis = int(rng.integers(0, 2))
    op = pick(rng, ["repeat", "tile"])
    two = raw[:, None] if sr and axis == 1 else raw
    e = np.repeat(two, t, axis=axis) if op == "repeat" else (np.tile(two, (1, t)) if axis == 1 else (np.concatenate([two] * t)))
    for form in ("np", "pd", "acc", "keys"):
        keys = None
        if form == "np":
            got = getattr(reshape_fns, op)(raw, t, axis=axis)
            ctx.check(isinstance(got, np.ndarray) and np.array_equal(got, e, equal_nan=dt == "f"), f"{op} array x{t} axis {axis}: {got.tolist()} instead of {e.tolist()}")
            continue
        if form == "pd":
            got = getattr(reshape_fns, op)(x, t, axis=axis)
        elif form == "acc":
            got = getattr(x.vbt, op)(t, axis=axis)
        else:
            keys = idx.rand_index(rng, t, ["str", "int", "multi", "named_range"])
            got = getattr(x.vbt, op)(t, keys=keys, axis=axis)
        lab = arg.cols if axis == 1 else arg.index
        if keys is None:
            want = (idx.repeat if op == "repeat" else idx.tile)(lab, t)
        else:
            want = idx.combine([lab, idx.levels(keys)] if op == "repeat" else [idx.levels(keys), lab])
        ctx.check(np.array_equal(got.values, e, equal_nan=dt == "f"), f"{op} {form} x{t} axis {axis}: cells {got.values.tolist()} instead of {e.tolist()}")
        ctx.check(got.values.dtype == e.dtype, f"{op} dtype {got.values.dtype}")
        if axis == 1:
            if isinstance(got, pd.Series):
                raise Skip
            idx.check(ctx, got.columns, want, f"{op} {form} columns of {describe(x)}")
            idx.check(ctx, got.index, arg.index, f"{op} {form} index")
        else:
            idx.check(ctx, got.index, want, f"{op} {form} index of {describe(x)}")
            if sr:
                ctx.check(isinstance(got, pd.Series) and got.name == x.name, f"{op} {form}: name {got.name!r}")
            else:
                idx.check(ctx, got.columns, arg.cols, f"{op} {form} columns")
        ctx.seen("reshaped cells", e.size)
    # conversions
    for raw_flag in (False, True):
        g2 = reshape_fns.to_2d(x, raw=raw_flag)
        ctx.check(isinstance(g2, np.ndarray if raw_flag else pd.DataFrame), "to_2d type")
        ctx.check(np.array_equal(np.asarray(g2), raw.reshape(n, -1), equal_nan=dt == "f"), "to_2d cells")
        s2 = reshape_fns.soft_to_ndim(x, 2, raw=raw_flag)
        ctx.check(np.asarray(s2).shape == (n, 1 if sr else c), "soft_to_ndim(2)")
        s1 = reshape_fns.soft_to_ndim(x, 1, raw=raw_flag)
        ctx.check(np.asarray(s1).shape == ((n,) if sr or c == 1 else (n, c)), "soft_to_ndim(1)")
        if sr or c == 1:
            g1 = reshape_fns.to_1d(x, raw=raw_flag)
            ctx.check(isinstance(g1, np.ndarray if raw_flag else pd.Series), "to_1d type")
            ctx.check(np.array_equal(np.asarray(g1), raw.reshape(n), equal_nan=dt == "f"), "to_1d cells")
            if not raw_flag:
                idx.check(ctx, g1.index, arg.index, "to_1d index")
                if not sr:
                    ctx.check(g1.name == x.columns[0], f"to_1d name {g1.name}")
        else:
            ctx.raises(ValueError, reshape_fns.to_1d, x, raw=raw_flag, msg="to_1d of several columns")
    if sr:
        r0 = reshape_fns.to_2d(x, expand_axis=0)
        ctx.check(r0.shape == (1, n), "to_2d along axis 0")
        idx.check(ctx, r0.columns, arg.index, "to_2d(expand_axis=0) columns")
    if not ii.has_duplicates and not (not sr and cc.has_duplicates):
        d = reshape_fns.to_dict(x, orient="index_series")
        ctx.check(list(d) == list(ii), "to_dict keys")
        for p, key in enumerate(ii):
            ctx.check(np.array_equal(np.asarray(d[key]), raw[p], equal_nan=dt == "f"), f"to_dict {key}")
        d = x.vbt.to_dict() if not sr else dict(x.items())
        for p, key in enumerate(ii):
            for q in range(1 if sr else c):
                v = d[key] if sr else d[cc[q]][key]
                w = raw[p] if sr else raw[p, q]
                ctx.check(idx.same_value(float(v), float(w)), f"to_dict cell {key}")
    em = BaseAccessor.empty((n, c), fill_value=7, index=ii, columns=cc)
    el = BaseAccessor.empty_like(x, fill_value=3.5)
    ctx.check(em.shape == (n, c) and (em.values == 7).all() and el.shape == x.shape and (el.values == 3.5).all(), "empty")
    idx.check(ctx, el.index, arg.index, "empty_like index")
    unchanged(ctx, [arg], f"{op}")
    ctx.nontrivial(op, axis, t, n, c, sr)


@monitor(weight=3)
def unstack(ctx):
    """Unstacking multi-indexed series into arrays and frames; symmetric frames."""
    rng = ctx.rng
    k = int(rng.integers(2, 4))
    pools = []
    for _ in range(k):
        kind = pick(rng, ["int", "str", "float", "date"])
        m = int(rng.integers(1, 4))
        pool = {"int": [int(v) for v in rng.permutation(9)[:m]], "str": [f"s{v}" for v in rng.permutation(9)[:m]],
                "float": [float(v) / 2 for v in rng.permutation(9)[:m]], "date": [pd.Timestamp("2020-01-01") + pd.Timedelta(int(v), "D") for v in rng.permutation(9)[:m]]}[kind]
        pools.append(pool)
    full = list(itertools.product(*pools))
    rng.shuffle(full)
    keep = [tuple(x) for x in full]
    if rng.random() < 0.5:
        keep = keep[:int(rng.integers(1, len(keep) + 1))]
    names = [f"n{j}" for j in range(k)] if rng.random() < 0.7 else [None] * k
    mi = pd.MultiIndex.from_arrays([[t[j] for t in keep] for j in range(k)], names=names)
    v = np.round(rng.normal(0, 5, len(keep)), 2)
    if rng.random() < 0.3:
        v = rng.integers(0, 9, len(keep))
    form = pick(rng, ["sr", "col", "row"] if len(keep) > 1 else ["sr", "row"])
    x = pd.Series(v, index=mi, name="z")
    if form == "col":
        x = x.to_frame()
    elif form == "row":
        x = x.to_frame().T
    cells = dict(zip(keep, v.tolist()))
    arr = reshape_fns.unstack_to_array(x) if rng.random() < 0.5 else x.vbt.unstack_to_array()
    uniq = [sorted(set(t[j] for t in keep)) for j in range(k)]
    ctx.check(arr.shape == tuple(map(len, uniq)), f"unstack_to_array shape {arr.shape}")
    for pos in itertools.product(*[range(len(u)) for u in uniq]):
        e = cells.get(tuple(u[p] for u, p in zip(uniq, pos)), NAN)
        ctx.check(idx.same_value(float(arr[pos]), float(e)), f"unstack_to_array {keep}: cell {pos} is {arr[pos]} instead of {e}")
    # frame
    perm = [int(p) for p in rng.permutation(k)]
    cut = int(rng.integers(1, k))
    ip, cp = perm[:cut], perm[cut:]

    def spec(p):
        s = [q if names[0] is None or rng.random() < 0.5 else names[q] for q in p]
        return s[0] if len(s) == 1 else tuple(s)
    kw = dict(index_levels=spec(ip), column_levels=spec(cp))
    if k == 2 and rng.random() < 0.4:
        kw, ip, cp = {}, [0], [1]
    df = reshape_fns.unstack_to_df(x, **kw) if rng.random() < 0.5 else x.vbt.unstack_to_df(**kw)
    gi, gc = idx.levels(df.index), idx.levels(df.columns)
    ctx.check([g[0] for g in gi] == [names[p] for p in ip] and [g[0] for g in gc] == [names[p] for p in cp], f"unstack_to_df names {df.index.names} {df.columns.names}")
    rows, cols = list(zip(*[g[1] for g in gi])), list(zip(*[g[1] for g in gc]))
    ctx.check(len(set(rows)) == len(rows) and set(rows) == {tuple(t[p] for p in ip) for t in keep}, f"unstack_to_df rows {rows}")
    ctx.check(len(set(cols)) == len(cols) and set(cols) == {tuple(t[p] for p in cp) for t in keep}, f"unstack_to_df columns {cols}")
    for a, r in enumerate(rows):
        for b, c_ in enumerate(cols):
            key = [None] * k
            for p, q in zip(ip, r):
                key[p] = q
            for p, q in zip(cp, c_):
                key[p] = q
            e = cells.get(tuple(key), NAN)
            ctx.check(idx.same_value(float(df.values[a, b]), float(e)), f"unstack_to_df {keep} {kw}: cell {r} x {c_} is {df.values[a, b]} instead of {e}")
            ctx.seen("unstacked cells")
    dup = pd.Series([1.0, 2.0], index=mi[[0, 0]])
    ctx.raises(ValueError, reshape_fns.unstack_to_array, dup, msg="duplicate labels")
    ctx.nontrivial(k, form, tuple(map(len, uniq)), len(keep) == len(full), cut)


@monitor(weight=2)
def symmetric(ctx):
    rng = ctx.rng
    kind = pick(rng, ["int", "str", "date", "multi"])
    m = int(rng.integers(1, 5))
    if kind == "int":
        pool = [int(v) for v in rng.permutation(9)[:m]]
    elif kind == "str":
        pool = [f"s{v}" for v in rng.permutation(9)[:m]]
    elif kind == "date":
        pool = [pd.Timestamp("2020-01-01") + pd.Timedelta(int(v), "D") for v in rng.permutation(9)[:m]]
    else:
        pool = [(int(v), f"t{v % 2}") for v in rng.permutation(9)[:m]]
    a = [pool[int(p)] for p in rng.permutation(m)[:int(rng.integers(1, m + 1))]]
    b = [pool[int(p)] for p in rng.permutation(m)[:int(rng.integers(1, m + 1))]]
    if kind == "multi":
        n1, n2 = pick(rng, [(["x", "y"], ["x", "y"]), (["x", "y"], ["u", "y"])])
        ia, ib = pd.MultiIndex.from_tuples(a, names=n1), pd.MultiIndex.from_tuples(b, names=n2)
        name = n1 if n1 == n2 else [tuple(p) for p in zip(n1, n2)]
    else:
        n1, n2 = pick(rng, [(None, None), ("x", "x"), ("x", "y")])
        ia, ib = pd.Index(a, name=n1), pd.Index(b, name=n2)
        name = [n1] if n1 == n2 else [(n1, n2)]
    v = np.round(rng.normal(0, 5, (len(a), len(b))), 2)
    if rng.random() < 0.3:
        v = rng.integers(-100000, 100000, v.shape)
    elif rng.random() < 0.3:
        v[rng.random(v.shape) < 0.3] = NAN
    df = pd.DataFrame(v, index=ia, columns=ib)
    arg = A(df)
    sort = bool(rng.random() < 0.6)
    out = df.vbt.make_symmetric() if sort and rng.random() < 0.4 else reshape_fns.make_symmetric(df, sort=sort)
    labels = list(dict.fromkeys(a + b))
    if sort:
        labels = sorted(labels)
    for ax, got in (("index", out.index), ("columns", out.columns)):
        g = list(got)
        ctx.check(g == labels, f"make_symmetric {ax}: {g} instead of {labels}")
        ctx.check(list(got.names) == name, f"make_symmetric {ax} names {got.names} instead of {name}")
    pos_a, pos_b = {x: i for i, x in enumerate(a)}, {x: i for i, x in enumerate(b)}

    def cell(r, c):
        if r in pos_a and c in pos_b:
            return float(v[pos_a[r], pos_b[c]])
        return NAN
    for i, r in enumerate(labels):
        for j, c in enumerate(labels):
            e = cell(r, c)
            if e != e:
                e = cell(c, r)
            ctx.check(idx.same_value(float(out.values[i, j]), e), f"make_symmetric cell {r} x {c}: {out.values[i, j]} instead of {e}")
            ctx.seen("symmetric cells")
    unchanged(ctx, [arg], "make_symmetric")
    ctx.nontrivial(kind, len(a), len(b), sort)


# ------------------------------------------------------------------ combination
@njit
def lin_nb(x, y, k=2.0):
    return x * k + y


@njit
def app_nb(i, x, k):
    return x * (i + 1) + k


@njit
def app2_nb(i, x, k):
    return x * (i + 1) + k, x - i


@njit
def app3_nb(i, x, k):
    return (x[:, 0] - i) * k, x * (i + 1) + k


def lin(x, y, k=2.0):
    return x * k + y


def app(i, x, k):
    return x * (i + 1) + k


def obj(rng, n, c, ii, cc, sr):
    v = np.round(rng.normal(0, 5, n if sr else (n, c)), 1)
    return pd.Series(v, index=ii, name=pick(rng, [None, "x"])) if sr else pd.DataFrame(v, index=ii, columns=cc)


def check_cols(ctx, got, cols, index, msg):
    if isinstance(got, pd.Series):
        nm = cols[0][1][0] if len(cols) == 1 else None
        ctx.check(idx.size(cols) == 1, f"{msg}: series for {idx.size(cols)} columns")
        ctx.check(len(cols) > 1 or got.name == nm or (got.name is None and nm == 0), f"{msg}: name {got.name} instead of {nm}")
    else:
        idx.check(ctx, got.columns, cols, f"{msg} columns")
    idx.check(ctx, got.index, index, f"{msg} index")


@monitor(weight=4, modes=("pure", "jit"))
def combining(ctx):
    """combine, concat, apply, apply_and_concat on accessors."""
    plain(ctx)
    rng = ctx.rng
    n, c = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    sr = rng.random() < 0.3
    if sr:
        c = 1
    kinds = ["range", "str", "date", "multi", "int"]
    ii, cc = idx.rand_index(rng, n, kinds), idx.rand_index(rng, c, ["range", "str", "multi", "int"])
    x = obj(rng, n, c, ii, cc, sr)
    arg = A(x)
    base_cols = arg.cols
    two = lambda z: np.asarray(z).reshape(n, -1)
    op = pick(rng, ["combine", "combine_many", "concat_many", "apply", "apply_concat", "concat", "magic"])
    nb = rng.random() < 0.5
    to2, keep = bool(rng.random() < 0.3), False
    kw = {}
    if to2:
        kw["to_2d"] = True
    if not nb and rng.random() < 0.3:
        keep = kw["keep_pd"] = True

    def other():
        k = pick(rng, ["same", "scalar", "arr", "acc"])
        if k == "scalar":
            v = float(rng.integers(1, 5))
            return v, np.full((n, c), v)
        v = np.round(rng.normal(0, 5, x.shape), 1)
        if k == "arr":
            return v, v.reshape(n, c)
        o = pd.Series(v, index=ii, name=x.name) if sr else pd.DataFrame(v, index=ii, columns=cc)
        return (o.vbt if k == "acc" else o), v.reshape(n, c)
    k = float(rng.integers(1, 4))
    msg = f"{op} of {describe(x)} {kw} nb={nb}"
    if op == "combine":
        o, ov = other()
        got = x.vbt.combine(o, k, combine_func=lin_nb if nb else lin, **kw)
        ctx.eq(two(got), two(x) * k + ov, msg)
        check_cols(ctx, got, base_cols, arg.index, msg)
    elif op in ("combine_many", "concat_many"):
        m = int(rng.integers(2, 4))
        os = [other() for _ in range(m)]
        loop = nb and rng.random() < 0.7
        if loop:
            kw["numba_loop"] = True
        others = [o for o, _ in os]
        others = tuple(others) if rng.random() < 0.5 else others
        if op == "combine_many":
            got = x.vbt.combine(others, k, combine_func=lin_nb if nb else lin, **kw)
            e = two(x)
            for _, ov in os:
                e = e * k + ov
            ctx.eq(two(got), e, msg)
            check_cols(ctx, got, base_cols, arg.index, msg)
        else:
            keys = None
            if rng.random() < 0.5:
                keys = idx.rand_index(rng, m, ["str", "int", "multi"])
                kw["keys"] = keys
            got = x.vbt.combine(others, k, combine_func=lin_nb if nb else lin, concat=True, **kw)
            e = np.column_stack([two(x) * k + ov for _, ov in os])
            ctx.eq(np.asarray(got), e, msg)
            kl = idx.levels(keys) if keys is not None else [("combine_idx", list(range(m)))]
            check_cols(ctx, got, idx.combine([kl, base_cols]), arg.index, msg)
    elif op == "apply":
        got = x.vbt.apply(k, apply_func=lambda a, b: np.cumsum(a, axis=0) * b, **kw)
        ctx.eq(two(got), np.cumsum(two(x), axis=0) * k, msg)
        check_cols(ctx, got, base_cols, arg.index, msg)
    elif op == "apply_concat":
        m = int(rng.integers(1, 4))
        if nb and rng.random() < 0.7:
            kw["numba_loop"] = True
        keys = None
        if rng.random() < 0.5:
            keys = idx.rand_index(rng, m, ["str", "int", "multi"])
            kw["keys"] = keys
        if keep:
            kw.pop("keep_pd")
        f = app_nb if nb else app
        # apply_func receives the number of the run first
        got = x.vbt.apply_and_concat(m, np.asarray(x) if False else k, apply_func=f, **kw)
        e = np.column_stack([two(x) * (q + 1) + k for q in range(m)])
        ctx.eq(np.asarray(got).reshape(n, -1), e, msg)
        kl = idx.levels(keys) if keys is not None else [("apply_idx", list(range(m)))]
        check_cols(ctx, got, idx.combine([kl, base_cols]), arg.index, msg)
    elif op == "concat":
        m = int(rng.integers(1, 4))
        os = [(lambda v: (pd.DataFrame(v, index=ii, columns=cc) if not sr else pd.Series(v[:, 0], index=ii, name=x.name), v))(np.round(rng.normal(0, 5, (n, c)), 1)) for _ in range(m)]
        keys = idx.rand_index(rng, m + 1, ["str", "int"], dup=False) if rng.random() < 0.7 else None
        if keys is not None and rng.random() < 0.5:
            keys = list(keys)
        got = x.vbt.concat(*[o for o, _ in os], keys=keys) if rng.random() < 0.5 else BaseAccessor.concat(x, *[o.vbt for o, _ in os], keys=keys)
        e = np.column_stack([two(x)] + [v for _, v in os])
        ctx.eq(np.asarray(got), e, msg)
        tl = idx.tile(base_cols, m + 1, ignore_default=False)
        if keys is not None:
            klv = idx.levels(keys)[0] if isinstance(keys, pd.Index) else (None, [idx.py(q) for q in keys])
            want = [(klv[0], [q for q in klv[1] for _ in range(c)])] + tl
            ctx.check([g[1] for g in idx.levels(got.columns)] == [w[1] for w in want], f"{msg}: columns {list(got.columns)}")
        else:
            if all(len(base_cols) == 1 and isinstance(q, int) and q == 0 for q in tl[0][1]):
                tl = idx.rng_levels((m + 1) * c)
            ctx.check([g[1] for g in idx.levels(got.columns)] == [w[1] for w in tl], f"{msg}: columns {list(got.columns)} instead of {tl}")
        idx.check(ctx, got.index, arg.index, f"{msg} index")
    else:
        magic(ctx, rng, x, arg, n, c, ii, cc, sr, base_cols)
    unchanged(ctx, [arg], msg)
    ctx.seen("combined " + op.split("_")[0])
    ctx.nontrivial(op, n, c, sr, nb, tuple(sorted(kw)))


BIN = ["add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "eq", "ne", "lt", "gt", "le", "ge"]
BIT = ["and_", "or_", "xor"]


def magic(ctx, rng, x, arg, n, c, ii, cc, sr, base_cols):
    name = pick(rng, BIN + BIT + ["neg", "pos", "abs", "invert"])
    op = getattr(operator, name)
    a = np.asarray(x).reshape(n, c)
    if name in BIT + ["invert"]:
        a = a > 0
        x = (x > 0)
    elif name == "pow":
        a = np.abs(a) + 0.5
        x = x.abs() + 0.5
    with np.errstate(all="ignore"):
        if name in ("neg", "pos", "abs", "invert"):
            got = op(x.vbt)
            e = op(a)
        else:
            kind = pick(rng, ["scalar", "frame", "acc", "array"])
            b = np.round(rng.normal(0, 3, (n, c)))
            if name in BIT:
                b = b > 0
            s = b.flat[0].item()
            reverse = rng.random() < 0.4 and kind == "scalar"
            shaped = b[:, 0] if sr else b
            o = {"scalar": s, "frame": pd.Series(b[:, 0], index=ii, name=x.name) if sr else pd.DataFrame(b, index=ii, columns=cc), "array": shaped}.get(kind)
            if kind == "acc":
                o = (pd.Series(b[:, 0], index=ii, name=x.name) if sr else pd.DataFrame(b, index=ii, columns=cc)).vbt
            full = np.full((n, c), s) if kind == "scalar" else b
            if reverse:
                got, e = op(o, x.vbt), op(full, a)
            else:
                got, e = op(x.vbt, o), op(a, full)
    ctx.check(np.asarray(got).dtype == e.dtype, f"{name}: dtype {np.asarray(got).dtype} instead of {e.dtype}")
    ctx.check(np.array_equal(np.asarray(got).reshape(n, c), e, equal_nan=e.dtype.kind == "f"), f"{name}: {np.asarray(got).tolist()} instead of {e.tolist()}")
    check_cols(ctx, got, base_cols, arg.index, name)


@monitor(weight=1, modes=("pure", "jit"))
def loops(ctx):
    """Low-level apply/combine loops, compiled or not, with one or several outputs of one or several columns."""
    rng = ctx.rng
    n, c, m = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    x = np.round(rng.normal(0, 5, (n, c) if rng.random() < 0.7 else n), 1)
    k = float(rng.integers(1, 4))
    two = x.reshape(n, -1)
    e1 = np.column_stack([two * (q + 1) + k for q in range(m)])
    e2 = np.column_stack([two - q for q in range(m)])
    for f in (combine_fns.apply_and_concat_one, combine_fns.apply_and_concat_one_nb):
        ctx.eq(f(m, app_nb, x, k), e1, f"{f.__name__} {m} x {x.shape}")
    for f in (combine_fns.apply_and_concat_multiple, combine_fns.apply_and_concat_multiple_nb):
        got = f(m, app2_nb, x, k)
        ctx.check(len(got) == 2, "number of outputs")
        ctx.eq(got[0], e1, f"{f.__name__} first output")
        ctx.eq(got[1], e2, f"{f.__name__} second output")
    if x.ndim == 2:
        for f in (combine_fns.apply_and_concat_multiple, combine_fns.apply_and_concat_multiple_nb):
            got = f(m, app3_nb, x, k)
            ctx.eq(got[0], np.column_stack([(x[:, 0] - q) * k for q in range(m)]), f"{f.__name__} one-column output")
            ctx.eq(got[1], e1, f"{f.__name__} output with all columns")
    others = tuple(np.round(rng.normal(0, 5, x.shape), 1) for _ in range(m))
    e = np.column_stack([two * k + o.reshape(n, -1) for o in others])
    for f in (combine_fns.combine_and_concat, combine_fns.combine_and_concat_nb):
        ctx.eq(f(x, others, lin_nb, k), e, f.__name__)
    chain = two
    for o in others:
        chain = chain * k + o.reshape(n, -1)
    for f in (combine_fns.combine_multiple, combine_fns.combine_multiple_nb):
        ctx.eq(np.asarray(f((x,) + others, lin_nb, k)).reshape(n, -1), chain, f.__name__)
    ctx.seen("loops")
    ctx.nontrivial(n, c, m, x.ndim)
