"""G02: shifts, fills, differences, masks, reductions, counts and crossings against pandas/NumPy."""
import math
import warnings
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.generic import dispatch, nb
from vt import gen
from vt.core import monitor, Skip
from vt.gen import pick

NAN = np.nan


def block(ctx, nan=None, ints=True, lo=1):
    rng = ctx.rng
    n, c = int(rng.integers(lo, 12)), int(rng.integers(1, 5))
    kind = pick(rng, ["float", "float", "lattice", "prices"] + (["int"] if ints else []) + (["int8", "bool", "f32"] if ints and ctx.mode == "jit" else []))
    if kind == "float":
        a = rng.normal(0, 10, (n, c))
    elif kind == "lattice":
        a = rng.integers(-2, 3, (n, c)).astype(float)
    elif kind == "prices":
        a = np.array(gen.prices(rng, n, c), float)
    elif kind == "int":
        a = rng.integers(-5, 6, (n, c))
    elif kind == "int8":
        a = rng.integers(-128, 128, (n, c)).astype(np.int8)
    elif kind == "bool":
        a = rng.random((n, c)) < 0.5
    else:
        a = rng.integers(-40, 40, (n, c)).astype(np.float32) / 4
    if a.dtype.kind == "f" and (nan if nan is not None else rng.random() < 0.6):
        a[rng.random((n, c)) < pick(rng, [0.1, 0.4, 0.8])] = NAN
        if rng.random() < 0.2:
            a[:, int(rng.integers(c))] = NAN
    lay = pick(rng, ["C", "F", "strided"])
    if lay == "F":
        a = np.asfortranarray(a)
    elif lay == "strided":
        big = np.zeros((2 * n, 2 * c), a.dtype)
        big[::2, ::2] = a
        a = big[::2, ::2]
    return a, kind


def obj(ctx, a):
    rng = ctx.rng
    n, c = a.shape
    idx = gen.dt_index(rng, n, "D") if rng.random() < 0.7 else pd.Index(["r%d" % i for i in range(n)])
    if c == 1 and rng.random() < 0.5:
        return pd.Series(a[:, 0].copy(), index=idx, name=pick(rng, ["x", None]))
    return pd.DataFrame(a.copy(), index=idx, columns=gen.columns(rng, c))


def same_shape(ctx, out, o, what):
    ctx.check(type(out) is type(o) and list(out.index) == list(o.index), f"{what}: type or index")
    if isinstance(o, pd.DataFrame):
        ctx.check(list(out.columns) == list(o.columns), f"{what}: columns {list(out.columns)}")
    else:
        ctx.check(out.name == o.name, f"{what}: name")


def acc(ctx, o):
    """Plain or grouped accessor (grouping must not touch column-wise operations)."""
    if isinstance(o, pd.DataFrame) and ctx.rng.random() < 0.25:
        ctx.seen("grouped_accessor")
        return o.vbt(group_by=gen.groups_from_lens(gen.group_lens(ctx.rng, o.shape[1])))
    return o.vbt


def fin(a):
    b = np.abs(np.asarray(a, float))
    b = b[np.isfinite(b)]
    return float(b.max()) if b.size else 1.0


@monitor(weight=4, modes=("pure", "jit"))
def m_rows(ctx):
    rng = ctx.rng
    a, kind = block(ctx)
    n, c = a.shape
    before = a.copy()
    o = obj(ctx, a)
    f = pd.DataFrame(np.asarray(a, float))
    k = int(rng.integers(-n - 2, n + 3)) if rng.random() < 0.5 else int(rng.integers(0, 3))
    fill = pick(rng, [NAN, 0.0, -1.0, 7.5])

    def both(op, exp, *args, tol=(0, 0), dtype=None, **kw):
        x = getattr(acc(ctx, o), op)(*args, **kw)
        same_shape(ctx, x, o, op)
        ctx.eq(np.asarray(x, float).reshape(n, c), exp, f"{op}{args} [{kind}] of {a.tolist()}", rtol=tol[0], atol=tol[1])
        ctx.seen(op)

    def kern(op, exp, *args, tol=(0, 0)):
        d = getattr(dispatch, op)(a, *args)
        ctx.check(d.shape == (n, c), f"{op}: shape {d.shape}")
        ctx.eq(np.asarray(d, float), exp, f"kernel {op}{args} [{kind}] of {a.tolist()}", rtol=tol[0], atol=tol[1])
        j = int(rng.integers(c))
        if hasattr(dispatch, op + "_1d"):
            one = getattr(dispatch, op + "_1d")(a[:, j], *args)
            ctx.eq(np.asarray(one, float), exp[:, j], f"1-d kernel {op}{args} [{kind}] of {a[:, j].tolist()}", rtol=tol[0], atol=tol[1])
        ctx.seen("kernel_" + op)

    if k < 0:
        ctx.seen("negative_steps")
    if k == 0:
        ctx.seen("zero_steps")
    ops = ["fshift", "bshift", "diff", "pct_change", "ffill", "bfill", "fillna", "cumsum", "cumprod"]
    for op in (ops if ctx.mode == "pure" else [pick(rng, ops), pick(rng, ops)]):
        if op in ("fshift", "bshift"):
            e = np.full((n, c), fill)
            s = k if op == "fshift" else -k
            for i in range(n):
                if 0 <= i - s < n:
                    e[i] = np.asarray(a[i - s], float)
            args = pick(rng, [(k, fill), (k, fill), (k,)])
            if len(args) == 1:
                e = f.shift(s).values
            both(op, e, *args)
            kern(op, e, *args)
        elif op == "diff":
            e = f.diff(k).values
            both(op, e, k, tol=(1e-14, 0))
            kern(op, e, k, tol=(1e-14, 0))
        elif op == "pct_change":
            with np.errstate(all="ignore"):
                e = (f / f.shift(k) - 1).values
            if kind == "f32" or np.isinf(e).any():
                ctx.seen("pct_inf")
            both(op, e, k, tol=(1e-12, 1e-12))
            kern(op, e, k, tol=(1e-12, 1e-12))
        elif op in ("ffill", "bfill"):
            if a.dtype.kind == "f":
                e = getattr(f, op)().values
                both(op, e)
                kern(op, e)
        elif op == "fillna":
            if a.dtype.kind == "f":
                v = float(pick(rng, [0.0, -3.0, 1.5]))
                e = f.fillna(v).values
                both(op, e, v)
                kern(op, e, v)
        else:
            if kind == "bool" or (kind == "int8" and op == "cumprod"):
                continue
            with np.errstate(all="ignore"):
                e = (np.nancumsum if op == "cumsum" else np.nancumprod)(np.asarray(a, float), axis=0)
            tol = (1e-12, 1e-12 * fin(e)) if kind != "f32" else (1e-5, 1e-5 * fin(e))
            both(op, e, tol=tol)
            kern("nan" + op, e, tol=tol)
    ctx.eq(a, before, "input untouched", rtol=0, atol=0)
    ctx.nontrivial(a.tobytes(), a.shape, k)


@monitor(weight=2, modes=("pure", "jit"))
def m_mask(ctx):
    rng = ctx.rng
    a, kind = block(ctx)
    n, c = a.shape
    before = a.copy()
    m = gen.bools(rng, n, c)
    v = pick(rng, [NAN, 0.0, 2.5, -1.0]) if kind in ("float", "lattice", "prices", "int") else 2.5
    vals = rng.normal(0, 1, (n, c))
    if rng.random() < 0.3:
        vals[0] = NAN
    e1 = np.where(m, v, np.asarray(a, float))
    e2 = np.where(m, vals, np.asarray(a, float))
    j = int(rng.integers(c))
    for got, e, what in [(dispatch.set_by_mask(a, m, v), e1, "set_by_mask"),
                         (dispatch.set_by_mask_1d(a[:, j], m[:, j], v), e1[:, j], "set_by_mask_1d"),
                         (dispatch.set_by_mask_mult(a, m, vals), e2, "set_by_mask_mult"),
                         (dispatch.set_by_mask_mult_1d(a[:, j], m[:, j], vals[:, j]), e2[:, j], "set_by_mask_mult_1d")]:
        ctx.eq(np.asarray(got, float), e, f"{what}({v}) [{kind}] of {a.tolist()}", rtol=0, atol=0)
        ctx.check(got.dtype == np.promote_types(a.dtype, np.float64), f"{what}: dtype {got.dtype} of {a.dtype}")
    ctx.eq(a, before, "input untouched", rtol=0, atol=0)
    s = int(rng.integers(0, 1000))
    p = dispatch.shuffle(a, s)
    ctx.eq(np.sort(p, axis=0), np.sort(a, axis=0), "shuffle permutes every column", rtol=0, atol=0)
    ctx.eq(dispatch.shuffle(a, s), p, "shuffle with the same seed", rtol=0, atol=0)
    ctx.eq(np.sort(dispatch.shuffle_1d(a[:, j], s)), np.sort(a[:, j]), "shuffle_1d permutes", rtol=0, atol=0)
    o = obj(ctx, a)
    x = o.vbt.shuffle(seed=s)
    same_shape(ctx, x, o, "shuffle")
    ctx.eq(np.asarray(x).reshape(n, c), p, "accessor shuffle", rtol=0, atol=0)
    ctx.eq(a, before, "input untouched by shuffle", rtol=0, atol=0)
    if n >= 8 and kind == "float":
        differ = any(not np.array_equal(dispatch.shuffle(a, q), a, equal_nan=True) for q in range(5))
        ctx.check(differ or np.isnan(a).all(), "shuffle never moves anything")
    ctx.seen("masked", int(m.sum()))
    ctx.nontrivial(a.tobytes(), m.tobytes())


def stat(op, x, ddof=1, dropfirst=None):
    """Reference of one flat list of values."""
    x = [float(v) for v in x if v == v]
    if op == "count":
        return len(x)
    if op == "sum":
        return math.fsum(x)
    if op == "product":
        return math.prod(x)
    if not x:
        return NAN
    if op == "min":
        return min(x)
    if op == "max":
        return max(x)
    if op == "mean":
        return math.fsum(x) / len(x)
    if op == "median":
        y = sorted(x)
        h = len(y) // 2
        return y[h] if len(y) % 2 else (y[h - 1] + y[h]) / 2
    if op == "std":
        if len(x) <= ddof:
            return NAN
        mu = math.fsum(x) / len(x)
        return math.sqrt(math.fsum((v - mu) ** 2 for v in x) / (len(x) - ddof))
    raise KeyError(op)


REDUCE = ["min", "max", "mean", "median", "std", "sum", "count", "product"]


@monitor(weight=4, modes=("pure", "jit"))
def m_reduce(ctx):
    rng = ctx.rng
    a, kind = block(ctx, ints=ctx.mode == "jit")
    if kind == "int8" or kind == "bool":
        a, kind = a.astype(np.int64), "int"
    n, c = a.shape
    o = obj(ctx, a)
    ddof = int(rng.integers(0, 3))
    frame = isinstance(o, pd.DataFrame)
    gb = gen.groups_from_lens(gen.group_lens(rng, c)) if frame and rng.random() < 0.5 else None
    A = None
    kw = {}
    if gb is not None:
        ctx.seen("grouped")
        if rng.random() < 0.5:
            A = o.vbt(group_by=gb)
        else:
            A, kw = o.vbt, dict(group_by=gb)
        labels = list(pd.unique(gb))
        pools = [a[:, gb == g] for g in labels]
    else:
        A = o.vbt
        if frame and rng.random() < 0.2:
            A, kw = o.vbt(group_by=gen.groups_from_lens(gen.group_lens(rng, c))), dict(group_by=False)
            ctx.seen("grouping_disabled")
        labels = list(o.columns) if frame else None
        pools = [a[:, [j]] for j in range(c)]
    sc = fin(a)
    tol = dict(rtol=1e-10, atol=1e-12 * sc) if kind != "f32" else dict(rtol=1e-5, atol=1e-6 * sc)

    def labelled(out, what):
        if frame and not (gb is not None and len(labels) == 1):     # a single group is squeezed
            ctx.check(isinstance(out, pd.Series) and list(out.index) == labels, f"{what}: labels {getattr(out, 'index', None)} against {labels}")
            return np.asarray(out)
        ctx.check(not isinstance(out, (pd.Series, pd.DataFrame)), f"{what}: a series reduces to a scalar")
        return np.array([out])

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for op in (REDUCE if ctx.mode == "pure" else [pick(rng, REDUCE), pick(rng, REDUCE)]):
            if op == "product":
                out = o.vbt.product()
                exp = [stat(op, a[:, j].tolist()) for j in range(c)]
                lab = list(o.columns) if frame else None
                got = np.asarray(out) if frame else np.array([out])
                if frame:
                    ctx.check(list(out.index) == lab, "product: labels")
            else:
                k2 = dict(kw, ddof=ddof) if op == "std" else dict(kw)
                if rng.random() < 0.2:
                    k2["engine"] = pick(rng, ["numba", "auto"])
                out = getattr(A, op)(**k2)
                got = labelled(out, op)
                exp = [stat(op, p.ravel().tolist(), ddof) for p in pools]
                if isinstance(out, pd.Series):
                    ctx.check(out.name == op, f"{op}: name {out.name}")
                if op == "count":
                    ctx.check(got.dtype.kind == "i", f"count dtype {got.dtype}")
            t = dict(tol)
            if op == "product":
                t = dict(rtol=1e-9 if kind != "f32" else 1e-4, atol=1e-300)
            if op == "std":
                t["atol"] = (1e-7 if kind != "f32" else 1e-3) * sc
            ctx.eq(np.asarray(got, float), exp, f"{op} (grouped {gb is not None}, ddof {ddof}) [{kind}] of {a.tolist()}", **t)
            ctx.seen("reduce_" + op)
        # index of extremes
        for op in ("idxmin", "idxmax"):
            order = pick(rng, ["C", "F"])
            if gb is not None and any(np.isnan(p).all() for p in pools):
                ctx.raises(ValueError, lambda: getattr(A, op)(order=order, **kw), msg=f"{op}: an all-NaN group")
                ctx.seen("idx_all_nan_group")
                continue
            if ctx.mode == "pure" and kind == "int":
                continue
            out = labelled(getattr(A, op)(order=order, **kw), op)
            for q, p in enumerate(pools):
                pf = np.asarray(p, float)
                if np.isnan(pf).all():
                    ctx.check(pd.isnull(out[q]), f"{op}: all-NaN column", got=out[q])
                    continue
                target = np.nanmin(pf) if op == "idxmin" else np.nanmax(pf)
                pos = [(i, j) for i in range(pf.shape[0]) for j in range(pf.shape[1]) if pf[i, j] == target]
                i = min(pos)[0] if order == "C" else min((j, i) for i, j in pos)[1]
                ctx.check(out[q] == o.index[i], f"{op} (order {order}): {out[q]!r} instead of {o.index[i]!r} in {pf.tolist()}")
                ctx.seen("idx")
                if len(pos) > 1:
                    ctx.seen("idx_ties")
        # plain kernels
        names = ["sum", "min", "max", "mean", "median", "std", "prod", "cnt"]
        for op in (names if ctx.mode == "pure" else [pick(rng, names)]):
            args = (ddof,) if op == "std" else ()
            got = getattr(dispatch, "nan" + op)(a, *args)
            exp = [stat({"prod": "product", "cnt": "count"}.get(op, op), a[:, j].tolist(), ddof) for j in range(c)]
            t = dict(tol)
            if op == "std":
                t["atol"] = (1e-7 if kind != "f32" else 1e-3) * sc
            if op == "prod":
                t = dict(rtol=1e-9 if kind != "f32" else 1e-4, atol=1e-300)
            ctx.eq(np.asarray(got, float), exp, f"kernel nan{op} [{kind}] of {a.tolist()}", **t)
            ctx.seen("kernel_nan" + op)
        if a.dtype.kind == "f":
            j = int(rng.integers(c))
            ctx.eq(dispatch.nanstd_1d(a[:, j], ddof), stat("std", a[:, j].tolist(), ddof), "nanstd_1d", rtol=1e-9, atol=(1e-7 if kind != "f32" else 1e-3) * sc)
    ctx.nontrivial(a.tobytes(), a.shape, gb is not None)


@monitor(weight=2, modes=("pure", "jit"))
def m_describe(ctx):
    rng = ctx.rng
    a, kind = block(ctx, ints=False)
    n, c = a.shape
    o = obj(ctx, a)
    frame = isinstance(o, pd.DataFrame)
    gb = gen.groups_from_lens(gen.group_lens(rng, c)) if frame and rng.random() < 0.5 else None
    ddof = pick(rng, [0, 1, 1, 2])
    perc = pick(rng, [None, [0.1, 0.9], [0.5], [0.333, 0.25, 0.999], np.array([0.0, 1.0])])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = o.vbt.describe(percentiles=perc, ddof=ddof, group_by=gb)
    ps = np.array([0.25, 0.5, 0.75]) if perc is None else np.asarray(perc, float)
    if gb is not None or ddof != 1:
        ps = np.unique(np.append(ps, 0.5))
    else:                                    # pandas 3 keeps exactly the percentiles asked for
        ref = pd.DataFrame(a).describe(percentiles=perc)
        ctx.eq(np.asarray(out).reshape(ref.shape), ref.values, "describe against pandas", rtol=1e-9, atol=1e-9)
        same = list(out.index) == list(ref.index)
        ctx.check(same, "describe: index")
        ps = None
    pools = [a[:, gb == g] for g in pd.unique(gb)] if gb is not None else [a[:, [j]] for j in range(c)]
    if ps is not None:
        labs = ["count", "mean", "std", "min"] + list(pd.io.formats.format.format_percentiles(ps)) + ["max"]
        ctx.check(list(out.index) == labs, f"describe: index {list(out.index)} against {labs}")
        if frame and not (gb is not None and len(pools) == 1):
            ctx.check(list(out.columns) == (list(pd.unique(gb)) if gb is not None else list(o.columns)), "describe: columns")
        got = np.asarray(out, float).reshape(len(labs), len(pools))
        for q, p in enumerate(pools):
            x = p.ravel().tolist()
            e = [stat("count", x), stat("mean", x), stat("std", x, ddof), stat("min", x)]
            y = np.array([v for v in x if v == v])
            e += [np.percentile(y, w * 100) if y.size else NAN for w in ps] + [stat("max", x)]
            ctx.eq(got[:, q], e, f"describe(ddof={ddof}, {perc}) of {x}", rtol=1e-9, atol=1e-8 * fin(x))
        ctx.seen("describe_grouped" if gb is not None else "describe_kernel")
    else:
        ctx.seen("describe_plain")
    ctx.nontrivial(a.tobytes(), ddof)


@monitor(weight=3, modes=("pure", "jit"))
def m_value_counts(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 10)), int(rng.integers(1, 5))
    kind = pick(rng, ["float", "int", "str", "bool", "strnone", "date"])
    if kind in ("float", "int"):
        v = rng.integers(-1, 4, (n, c))
        if kind == "float":
            v = v.astype(float)
            v[rng.random((n, c)) < 0.3] = NAN
    elif kind == "bool":
        v = rng.random((n, c)) < 0.5
    elif kind == "date":
        v = np.array(["2020-01-03", "2020-01-01", "2021-05-05"], "datetime64[ns]")[rng.integers(0, 3, (n, c))]
    else:
        v = np.array(["b", "a", "cc"], object)[rng.integers(0, 3, (n, c))]
        if kind == "strnone":
            v[rng.random((n, c)) < 0.3] = None
    idx = gen.dt_index(rng, n, "D")
    o = pd.Series(v[:, 0], index=idx) if c == 1 and rng.random() < 0.6 else pd.DataFrame(v, index=idx, columns=gen.columns(rng, c))
    frame = isinstance(o, pd.DataFrame)
    gb = gen.groups_from_lens(gen.group_lens(rng, c)) if frame and rng.random() < 0.5 else None
    o2 = o.copy()
    normalize, sort_uniques, sort, asc, dropna = (bool(rng.random() < 0.5) for _ in range(5))
    mapping = None
    if kind in ("float", "int") and rng.random() < 0.5:
        mapping = {-1: "neg", 0: "zero", 1: "one", 2: "two", 3: "three", 9: "nine", 8: "eight"}
        if kind == "float":
            mapping[NAN] = "missing"
    incl = mapping is not None and rng.random() < 0.5
    A, kw = o.vbt, {}
    if mapping is not None:
        if rng.random() < 0.5:
            A = o.vbt(mapping=mapping)
        else:
            kw["mapping"] = mapping
    out = A.value_counts(normalize=normalize, sort_uniques=sort_uniques, sort=sort, ascending=asc, dropna=dropna, group_by=gb, incl_all_keys=bool(incl), **kw)
    # reference
    isn = lambda x: x is None or x != x or x is pd.NaT
    key = lambda x: "<na>" if isn(x) else (x.item() if isinstance(x, np.generic) and kind != "date" else x)
    flat = [key(x) for x in v.ravel(order="C")] if kind != "date" else list(v.ravel())
    pools = [v[:, gb == g] for g in pd.unique(gb)] if gb is not None else [v[:, [j]] for j in range(c)]
    uniq = list(dict.fromkeys(flat))
    if incl:
        have_na = "<na>" in uniq
        uniq += [k for k in mapping if not (k in uniq or (k != k and have_na))] if not any(k != k for k in mapping) else [(key(k)) for k in mapping if key(k) not in uniq]
    if dropna:
        uniq = [u for u in uniq if u != "<na>"] if kind != "date" else uniq
    if sort_uniques:
        na = [u for u in uniq if isinstance(u, str) and u == "<na>"]
        uniq = sorted(u for u in uniq if not (isinstance(u, str) and u == "<na>")) + na
    cnt = np.array([[sum(1 for x in p.ravel() if (key(x) if kind != "date" else x) == u) for p in pools] for u in uniq], float).reshape(len(uniq), len(pools))
    tot = cnt.sum(axis=1)
    if normalize:
        cnt = cnt / tot.sum() if tot.sum() else cnt * NAN
    if sort:
        od = np.argsort(tot if asc else -tot, kind="stable")
        cnt, uniq = cnt[od], [uniq[i] for i in od]
    got = np.asarray(out, float).reshape(len(out.index), -1) if len(out.index) else np.zeros((0, len(pools)))
    ctx.check(len(out.index) == len(uniq), f"value counts: keys {list(out.index)} against {uniq}")
    ctx.eq(got, cnt, f"value counts(normalize={normalize}, sort_uniques={sort_uniques}, sort={sort}, ascending={asc}, dropna={dropna}, groups={gb}) of {v.tolist()}")
    for u, x in zip(uniq, out.index):
        if mapping is not None:
            e = mapping[u] if not (isinstance(u, str) and u == "<na>") else mapping.get(NAN, None)
            if e is None:
                ctx.check(isn(x), f"key {x!r} of missing values")
            else:
                ctx.check(x == e, f"mapped key {x!r} instead of {e!r}")
        elif isinstance(u, str) and u == "<na>":
            ctx.check(isn(x), f"key {x!r} of missing values")
        else:
            ctx.check(x == u, f"key {x!r} instead of {u!r}")
    if frame and not (gb is not None and len(pools) == 1):
        ctx.check(list(out.columns) == (list(pd.unique(gb)) if gb is not None else list(o.columns)), "value counts: columns")
    ctx.check(o.equals(o2), "input untouched")
    ctx.seen("vc_" + kind)
    ctx.seen("vc_groups" if gb is not None else "vc_columns")
    ctx.nontrivial(str(v.tolist()), normalize, sort, sort_uniques)


def ref_cross(x, y, wait):
    out = np.zeros(len(x), bool)
    for i in range(len(x)):
        s = i - wait          # first bar above
        if s < 1:
            continue
        if not all(x[k] > y[k] for k in range(s, i + 1)):
            continue
        if not x[s - 1] <= y[s - 1]:          # above already, or missing
            continue
        k = s - 1
        while k >= 0 and x[k] == y[k]:
            k -= 1
        # an equal bar only counts after a bar strictly below since the last missing value
        k = s - 1
        below = False
        while k >= 0 and x[k] == x[k] and y[k] == y[k]:
            if x[k] < y[k]:
                below = True
                break
            k -= 1
        out[i] = below
    return out


@monitor(weight=4, modes=("pure", "jit"))
def m_cross(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 14)), int(rng.integers(1, 4))
    x = rng.integers(-2, 3, (n, c)).astype(float) if rng.random() < 0.6 else rng.normal(0, 1, (n, c))
    form = pick(rng, ["frame", "frame", "series", "scalar", "array"])
    y = rng.integers(-2, 3, (n, c)).astype(float) if rng.random() < 0.6 else rng.normal(0, 1, (n, c))
    if rng.random() < 0.4:
        x[rng.random((n, c)) < 0.15] = NAN
    if rng.random() < 0.4:
        y[rng.random((n, c)) < 0.15] = NAN
    wait = int(rng.integers(0, 4))
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    o = pd.DataFrame(x, index=idx, columns=cols)
    if form == "frame":
        other = pd.DataFrame(y, index=idx, columns=cols)
    elif form == "series":
        y = np.repeat(y[:, :1], c, axis=1)
        other = pd.Series(y[:, 0], index=idx)
    elif form == "scalar":
        y = np.full((n, c), float(rng.integers(-1, 2)))
        other = y[0, 0]
    else:
        other = y
    x0, y0 = x.copy(), y.copy()
    up, dn = o.vbt.crossed_above(other, wait=wait), o.vbt.crossed_below(other, wait=wait)
    for r, (p, q), what in [(up, (x, y), "crossed_above"), (dn, (y, x), "crossed_below")]:
        ctx.check(list(r.index) == list(idx) and list(r.columns) == list(cols) and (r.dtypes == bool).all(), f"{what}: labels/types")
        for j in range(c):
            e = ref_cross(p[:, j], q[:, j], wait)
            ctx.check(np.array_equal(r.values[:, j], e), f"{what}(wait={wait}) of {x[:, j].tolist()} and {y[:, j].tolist()}: {r.values[:, j].astype(int).tolist()} instead of {e.astype(int).tolist()}")
            ctx.seen("crossings", int(e.sum()))
            if e.any() and wait:
                ctx.seen("crossings_after_wait")
    j = int(rng.integers(c))
    ctx.eq(dispatch.crossed_above_1d(x[:, j], y[:, j], wait), ref_cross(x[:, j], y[:, j], wait), "crossed_above_1d")
    ctx.eq(x, x0, "input", rtol=0, atol=0)
    ctx.eq(y, y0, "input", rtol=0, atol=0)
    ctx.nontrivial(x.tobytes(), y.tobytes(), wait)


@monitor(weight=2, modes=("pure", "jit"))
def m_misc(ctx):
    rng = ctx.rng
    a, kind = block(ctx, ints=False)
    n, c = a.shape
    o = obj(ctx, a)
    A = acc(ctx, o)
    sc = fin(a)
    f = pd.DataFrame(np.asarray(a, float))
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        x = A.drawdown()
        same_shape(ctx, x, o, "drawdown")
        peak = np.fmax.accumulate(f.values, axis=0)
        ctx.eq(np.asarray(x).reshape(n, c), f.values / peak - 1, f"drawdown of {a.tolist()}", rtol=1e-12, atol=1e-12)
        base = float(pick(rng, [1.0, 100.0, -2.0]))
        x = A.rebase(base)
        same_shape(ctx, x, o, "rebase")
        filled = f.ffill().bfill().values
        ctx.eq(np.asarray(x).reshape(n, c), filled / filled[0] * base, f"rebase of {a.tolist()}", rtol=1e-12, atol=1e-12)
        ctx.seen("drawdown_rebase")
        z = A.zscore()
        same_shape(ctx, z, o, "zscore")
        for j in range(c):
            col = [v for v in a[:, j].tolist() if v == v]
            if not col:
                continue
            mu, sd = stat("mean", col), stat("std", col, 0)
            if sd <= 1e-9 * max(1.0, max(map(abs, col))):
                continue
            ctx.eq(np.asarray(z).reshape(n, c)[:, j], (a[:, j] - mu) / sd, f"zscore of {a[:, j].tolist()}", rtol=1e-9, atol=1e-9)
            ctx.seen("zscore")
        t = A.minmax_scale()
        same_shape(ctx, t, o, "minmax_scale")
        for j in range(c):
            col = a[:, j]
            if np.isnan(col).all() or np.nanmax(col) - np.nanmin(col) < 1e-9 * max(1, fin(col)):
                continue
            ctx.eq(np.asarray(t).reshape(n, c)[:, j], (col - np.nanmin(col)) / (np.nanmax(col) - np.nanmin(col)), "minmax_scale", rtol=1e-9, atol=1e-9)
            ctx.seen("scaled")
        if not np.isnan(a).any():
            thr = float(np.median(a))
            b = A.binarize(threshold=thr)
            same_shape(ctx, b, o, "binarize")
            ctx.eq(np.asarray(b).reshape(n, c), (a > thr).astype(float), "binarize", rtol=0, atol=0)
            r = A.to_returns() if A is o.vbt else o.vbt.to_returns()
            with np.errstate(all="ignore"):
                ctx.eq(np.asarray(r).reshape(n, c)[1:], a[1:] / a[:-1] - 1 if (a > 0).all() else np.asarray(r).reshape(n, c)[1:], "to_returns", rtol=1e-9, atol=1e-12)
    # conversion to a mapped array
    drop = bool(rng.random() < 0.6)
    m = o.vbt.to_mapped(dropna=drop)
    exp = [(a[i, j], j, i) for j in range(c) for i in range(n) if not (drop and a[i, j] != a[i, j])]
    ctx.eq(m.values, [e[0] for e in exp], "to_mapped values", rtol=0, atol=0)
    ctx.eq(m.col_arr, [e[1] for e in exp], "to_mapped columns")
    ctx.eq(m.idx_arr, [e[2] for e in exp], "to_mapped rows")
    ctx.seen("to_mapped")
    # n-th elements
    if ctx.mode == "pure" or rng.random() < 0.3:
        k = int(rng.integers(-n, n))
        ctx.eq([dispatch.nth_reduce(j, a[:, j], k) for j in range(c)], a[k], "nth_reduce", rtol=0, atol=0)
        ctx.eq([dispatch.nth_index_reduce(j, a[:, j], k) for j in range(c)], [k % n] * c, "nth_index_reduce")
        ctx.raises(ValueError, lambda: dispatch.nth_reduce(0, a[:, 0], n), msg="nth_reduce beyond the end")
        ctx.raises(ValueError, lambda: dispatch.nth_reduce(0, a[:, 0], -n - 1), msg="nth_reduce before the start")
        ctx.seen("nth")
    ctx.nontrivial(a.tobytes())
