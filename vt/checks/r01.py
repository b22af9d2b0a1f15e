"""R01: records keep their column, row and fields under mapping, sorting, masking, applying and selecting."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.records import nb
from vectorbt.records.col_mapper import ColumnMapper
from vectorbt.records.mapped_array import MappedArray
from vt import gen, recs, pf
from vt.checks.p11 import by_kwargs
from vt.core import monitor, Skip
from vt.gen import pick
from numba import njit

NAN = np.nan
exact = pf.exact


@njit
def f_map(r, k):
    return r["some_field1"] * k + r["some_field2"]


@njit
def f_apply(rs, k):
    return np.cumsum(rs["some_field2"]) * k + len(rs)


@njit
def f_apply_scalar(rs):
    return rs["some_field2"][0] + 100.0 * len(rs)


@njit
def f_mapped(ridxs, col, a, k):
    return np.cumsum(np.where(np.isnan(a), 0.0, a)) + col * k


def build(ctx, **kw):
    rng = ctx.rng
    n, c = int(rng.integers(1, 9)), int(rng.integers(1, 7))
    w = recs.wrapper(rng, n, c)
    r = recs.records(rng, w, **kw)
    snap = r.copy()
    R = vbt.Records(w, r) if rng.random() < 0.7 else vbt.Records(w, r, col_mapper=ColumnMapper(w, r["col"]))
    ctx.nontrivial(tuple(r["col"]), n, c, w.grouper.is_grouped())
    if np.any(np.diff(r["col"]) < 0):
        ctx.seen("unsorted")
    if len(r) and len(np.unique(r["col"])) < c:
        ctx.seen("empty_columns")
    if not len(r):
        ctx.seen("no_records")
    return w, r, snap, R


def ref_map(cols, units):
    """(idxs, lens) of a column map over units."""
    idxs = [np.flatnonzero(np.isin(cols, m)) for m in units]
    return (np.concatenate(idxs) if idxs else np.zeros(0, int)), np.array([len(x) for x in idxs])


@monitor(weight=2, modes=("pure", "jit"))
def m_mapper(ctx):
    rng = ctx.rng
    w, r, snap, R = build(ctx)
    cm = R.col_mapper if rng.random() < 0.7 else ColumnMapper(w, r["col"])
    c = len(w.columns)
    cols = r["col"]
    gb = recs.group_arg(rng, w)
    units = recs.groups_of(w, gb)
    idxs, lens = ref_map(cols, [[k] for k in range(c)])
    ctx.eq(list(cm.col_map), [idxs, lens], "column map")
    got = cm.get_col_map(group_by=gb)
    gi, gl = ref_map(cols, units)
    ctx.eq(list(got), [gi, gl], f"column map with group_by={gb}")
    unit_of = np.zeros(c, int)
    for k, m in enumerate(units):
        unit_of[m] = k
    ctx.eq(cm.get_col_arr(group_by=gb), unit_of[cols], f"column array with group_by={gb}")
    srt = bool(np.all(np.diff(cols) >= 0))
    ctx.check(bool(cm.is_sorted()) == srt, "is_sorted")
    if srt:
        e = np.full((c, 2), -1)
        for k in range(c):
            x = np.flatnonzero(cols == k)
            if len(x):
                e[k] = x[0], x[-1] + 1
        ctx.eq(cm.col_range, e, "column range")
        e = np.full((len(units), 2), -1)
        for k, m in enumerate(units):
            x = np.flatnonzero(np.isin(cols, m))
            if len(x):
                e[k] = x[0], x[-1] + 1
        ctx.eq(cm.get_col_range(group_by=gb), e, f"column range with group_by={gb}")
    else:
        ctx.raises(ValueError, lambda: cm.col_range, msg="column range of unsorted records")
    new = rng.integers(0, c, int(rng.integers(1, 6))) if rng.random() < 0.3 else rng.permutation(c)[:int(rng.integers(1, c + 1))]
    sel = [np.flatnonzero(cols == k) for k in new]
    gi, gc = cm._col_idxs_meta(new)
    ctx.eq(gi, np.concatenate(sel), "selected indices")
    ctx.eq(gc, np.repeat(np.arange(len(new)), [len(x) for x in sel]), "selected columns")
    exact(ctx, R.get_by_col_idxs(np.asarray(new)), recs.select(r, new), "records by column indices")
    # both kernels agree whatever the layout
    cmap = nb.col_map_nb(cols, c)
    exact(ctx, nb.record_col_map_select_nb(r, cmap, np.asarray(new)), recs.select(r, new), "record_col_map_select_nb")
    a, b = nb.col_map_select_nb(cmap, np.asarray(new))
    ctx.eq([a, b], [gi, gc], "col_map_select_nb")
    if srt:
        rg = nb.col_range_nb(cols, c)
        exact(ctx, nb.record_col_range_select_nb(r, rg, np.asarray(new)), recs.select(r, new), "record_col_range_select_nb")
        a, b = nb.col_range_select_nb(rg, np.asarray(new))
        ctx.eq([a, b], [gi, gc], "col_range_select_nb")
        ctx.seen("range_path")
    else:
        ctx.seen("map_path")
    # selecting the mapper: col_arr is renumbered by its owner, regrouping keeps records
    exact(ctx, r, snap, "records array untouched")
    ctx.seen("mappers")


@monitor(weight=2, modes=("pure", "jit"))
def m_operations(ctx):
    rng = ctx.rng
    w, r, snap, R = build(ctx)
    c = len(w.columns)
    cols = r["col"]
    gb = recs.group_arg(rng, w)
    units = recs.groups_of(w, gb)
    ctx.check(len(R) == len(r), "length")
    exact(ctx, R.values, snap, "values")
    for f in r.dtype.names:
        ctx.eq(R.get_field_arr(f), snap[f], f"field {f}")
        ctx.eq(R.records[f].to_numpy(), snap[f], f"records frame {f}")
        ctx.eq(R.recarray[f], snap[f], f"recarray {f}")
    ctx.eq([R.id_arr, R.col_arr, R.idx_arr], [snap["id"], snap["col"], snap["idx"]], "id/col/idx arrays")
    ctx.eq(np.asarray(R.count(group_by=gb)).reshape(-1), [np.isin(cols, m).sum() for m in units], f"count group_by={gb}")
    # sort
    incl = bool(rng.random() < 0.5)
    s = R.sort(incl_id=incl, group_by=gb)
    ind = np.lexsort((r["id"], cols)) if incl else np.argsort(cols, kind="stable")
    exact(ctx, s.values, r[ind], f"sort(incl_id={incl})")
    ctx.check(s.is_sorted(incl_id=incl), "sorted records are not sorted")
    keys = list(zip(cols, r["id"])) if incl else list(cols)
    ctx.check(bool(R.is_sorted(incl_id=incl)) == (keys == sorted(keys)), "is_sorted")
    if gb is not None and w.ndim == 2:
        ctx.eq(np.asarray(s.count()).reshape(-1), [np.isin(cols, m).sum() for m in units], "count after sort with group_by")
    # mask
    mask = rng.random(len(r)) < 0.5
    q = R.apply_mask(mask, group_by=gb)
    exact(ctx, q.values, r[mask], "apply_mask")
    ctx.eq(np.asarray(q.count()).reshape(-1), [np.isin(cols[mask], m).sum() for m in (units if gb is not None else recs.groups_of(w))], "count after mask")
    ctx.eq(list(q.col_mapper.col_map), list(ref_map(cols[mask], [[k] for k in range(c)])), "column map after mask")
    # mapping
    fld = pick(rng, ["some_field1", "some_field2", "kind", "id", "idx"])
    m = R.map_field(fld, group_by=gb)
    ctx.eq(m.values, snap[fld], "map_field values")
    ctx.eq([m.id_arr, m.col_arr, m.idx_arr], [snap["id"], cols, snap["idx"]], "map_field aligned arrays")
    arr = rng.normal(size=len(r))
    m = R.map_array(arr if rng.random() < 0.5 else arr.tolist(), idx_arr=snap["idx"][::-1].copy() if rng.random() < 0.3 else None)
    ctx.eq(m.values, arr, "map_array")
    if len(r):
        bad = arr[:-1]
        ctx.raises(Exception, lambda: R.map_array(bad), msg="map_array with a wrong length")
    m = R.map(f_map, 2.0, group_by=gb)
    ctx.eq(m.values, snap["some_field1"] * 2.0 + snap["some_field2"], "map")
    ctx.eq([m.id_arr, m.col_arr, m.idx_arr], [snap["id"], cols, snap["idx"]], "map aligned arrays")
    per_group = bool(rng.random() < 0.5)
    m = R.apply(f_apply, 3.0, group_by=gb, apply_per_group=per_group)
    e = np.zeros(len(r))
    for u in (units if per_group else [[k] for k in range(c)]):
        ix = np.flatnonzero(np.isin(cols, u))
        if len(ix):
            e[ix] = np.cumsum(snap["some_field2"][ix]) * 3.0 + len(ix)
    ctx.eq(m.values, e, f"apply(per_group={per_group}, group_by={gb})")
    ctx.eq([m.id_arr, m.col_arr], [snap["id"], cols], "apply aligned arrays")
    if len(r):
        m = R.apply(f_apply_scalar, group_by=gb, apply_per_group=per_group)
        for u in (units if per_group else [[k] for k in range(c)]):
            ix = np.flatnonzero(np.isin(cols, u))
            if len(ix):
                e[ix] = snap["some_field2"][ix[0]] + 100.0 * len(ix)
        ctx.eq(m.values, e, "apply returning a scalar")
    # readable
    df = R.records_readable
    ctx.check(list(df.columns)[:3] == ["Id", "Column", "Timestamp"], "readable columns", got=list(df.columns))
    ctx.check(list(df["Column"]) == [w.columns[k] for k in cols], "readable column labels")
    ctx.check(list(df["Timestamp"]) == [w.index[k] for k in snap["idx"]], "readable timestamps")
    for f in ("some_field1", "some_field2", "kind"):
        ctx.eq(df[f].to_numpy(), snap[f], f"readable {f}")
    exact(ctx, R.values, snap, "operations modified the records")
    ctx.seen("operations")


@monitor(weight=2, modes=("pure", "jit"))
def m_select(ctx):
    rng = ctx.rng
    w, r, snap, R = build(ctx)
    if w.ndim == 1 or w.get_ndim() == 1:
        raise Skip()
    dup = False
    labels = w.get_columns()
    how, f, pos = by_kwargs(rng, labels, None, int(rng.integers(1, len(labels) + 1)))
    if not w.grouper.is_grouped() and rng.random() < 0.2:
        p2 = [int(x) for x in rng.integers(0, len(labels), 4)]
        how, f, pos, dup = "iloc_dup", (lambda o: o.iloc[p2]), p2, True
    units = recs.groups_of(w)
    sel = [pos] if isinstance(pos, int) else pos
    cols = np.concatenate([units[s] for s in sel]) if len(sel) else []
    q = f(R)
    msg = f"selection {how} {pos}"
    exact(ctx, q.values, recs.select(snap, cols), msg)
    ctx.check(list(q.wrapper.columns) == [w.columns[k] for k in cols], msg + ": columns")
    ctx.check(list(q.wrapper.get_columns()) == [labels[s] for s in sel], msg + ": units")
    ctx.eq(np.asarray(q.count()).reshape(-1), [np.isin(r["col"], units[s]).sum() for s in sel], msg + ": count")
    # mapped arrays go the same way
    M = R.map_field("some_field1")
    if rng.random() < 0.3:
        M = MappedArray(w, snap["some_field1"], snap["col"], id_arr=None)
    m = f(M)
    e = recs.select(snap, cols)
    order = np.concatenate([np.flatnonzero(snap["col"] == k) for k in cols]).astype(int)
    ctx.eq(m.values, e["some_field1"], msg + ": mapped values")
    ctx.eq(m.col_arr, e["col"], msg + ": mapped columns")
    ctx.eq(m.id_arr, np.asarray(M.id_arr)[order], msg + ": mapped ids")
    if M.idx_arr is not None:
        ctx.eq(m.idx_arr, e["idx"], msg + ": mapped idx")
    # selecting then mapping = mapping then selecting
    ctx.eq(q.map_field("some_field2").values, f(R.map_field("some_field2")).values, msg + ": order of select and map")
    # then a mask, then another selection
    mask = rng.random(len(q.values)) < 0.6
    q2 = q.apply_mask(mask)
    exact(ctx, q2.values, recs.select(snap, cols)[mask], msg + " then mask")
    if q2.wrapper.get_ndim() == 2 and not dup:
        how2, f2, pos2 = by_kwargs(rng, q2.wrapper.get_columns(), None, 2)
        u2 = recs.groups_of(q2.wrapper)
        sel2 = [pos2] if isinstance(pos2, int) else pos2
        exact(ctx, f2(q2).values, recs.select(recs.select(snap, cols)[mask], np.concatenate([u2[s] for s in sel2])), msg + f" then mask then {how2} {pos2}")
        ctx.seen("chained")
    if w.grouper.is_grouped():
        ctx.seen("group_selections")
        # columns instead of groups
        R2 = R.replace(wrapper=w.replace(group_select=False))
        p3 = sorted(int(x) for x in rng.permutation(len(w.columns))[:3])
        q3 = R2.iloc[p3]
        exact(ctx, q3.values, recs.select(snap, p3), f"column selection {p3} of grouped records")
        gg = list(w.grouper.group_by)
        ctx.check(list(q3.wrapper.grouper.group_by) == [gg[k] for k in p3], f"groups after column selection {p3}")
        ctx.seen("column_selections_grouped")
    exact(ctx, R.values, snap, "selection modified the records")
    ctx.seen("selections")


@monitor(weight=1)
def m_regroup(ctx):
    rng = ctx.rng
    w, r, snap, R = build(ctx)
    if w.ndim == 1:
        raise Skip()
    gb = recs.group_arg(rng, w)
    q = R.regroup(gb)
    exact(ctx, q.values, snap, "regrouped values")
    ctx.eq(np.asarray(q.count()).reshape(-1), [np.isin(r["col"], m).sum() for m in recs.groups_of(w, gb)], f"count after regroup({gb})")
    ctx.eq(q.count(), R.count(group_by=gb), "count: regroup vs group_by")
    # replaced records bring their own column mapping
    r2 = recs.records(rng, w)
    for src in (R, R.replace(col_mapper=R.col_mapper)):
        p = src.replace(records_arr=r2)
        ctx.eq(np.asarray(p.count(group_by=False)).reshape(-1), np.bincount(r2["col"], minlength=len(w.columns)), "count after replacing the records")
        ctx.eq(list(p.col_mapper.col_map), list(ref_map(r2["col"], [[k] for k in range(len(w.columns))])), "column map after replacing the records")
        if len(r2):
            ctx.eq(p.map_field("some_field1").values, r2["some_field1"], "mapped field after replacing the records")
    M = R.map_field("some_field1")
    perm = rng.permutation(len(r))
    P = M.replace(mapped_arr=M.values[perm], col_arr=M.col_arr[perm], id_arr=M.id_arr[perm], idx_arr=M.idx_arr[perm])
    ctx.eq(np.asarray(P.count(group_by=False)).reshape(-1), np.bincount(r["col"], minlength=len(w.columns)), "count after permuting a mapped array")
    for k in range(len(w.columns)):
        ctx.eq(P.values[P.col_mapper.col_map[0][np.cumsum(P.col_mapper.col_map[1])[k] - P.col_mapper.col_map[1][k]:np.cumsum(P.col_mapper.col_map[1])[k]]],
               snap["some_field1"][perm][r["col"][perm] == k], "column map after permuting a mapped array")
    ctx.seen("regrouped")


@monitor(weight=1.5)
def m_real_records(ctx):
    """Ranges, drawdowns and trades: attached fields, filters and series stay with their columns."""
    rng = ctx.rng
    n, c = int(rng.integers(2, 14)), int(rng.integers(2, 6))
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    kind = pick(rng, ["drawdowns", "ranges", "orders", "logs", "trades", "positions"])
    if kind == "drawdowns":
        obj = vbt.Drawdowns.from_ts(pd.DataFrame(gen.prices(rng, n, c), index=idx, columns=cols))
    elif kind == "ranges":
        a = gen.prices(rng, n, c)
        a[rng.random((n, c)) < 0.4] = NAN
        obj = vbt.Ranges.from_ts(pd.DataFrame(a, index=idx, columns=cols))
    else:
        res = (pf.run_from_orders if rng.random() < 0.5 else pf.run_from_signals)(ctx, rng, n, c, sharing=False, allow_series=False)
        if res is None:
            raise Skip()
        p = res[0]
        obj = {"orders": p.orders, "logs": p.logs, "trades": p.trades, "positions": p.positions}[kind]
        cols = p.wrapper.columns
    vals = obj.values.copy()
    how, f, pos = by_kwargs(rng, obj.wrapper.columns, None, int(rng.integers(1, c + 1)))
    sel = [pos] if isinstance(pos, int) else pos
    q = f(obj)
    exact(ctx, q.values, recs.select(vals, sel), f"{kind} selection {how} {pos}")
    ctx.check(type(q) is type(obj), "type changed")
    for name in ("ts", "close"):
        if getattr(obj, name, None) is not None and name in obj.config:
            ctx.eq(np.asarray(getattr(q, name)).reshape(n, -1), np.asarray(getattr(obj, name)).reshape(n, -1)[:, sel], f"{kind}.{name} of selection {pos}")
            ctx.seen("attached_series")
    # attached fields map the field of the same name
    import re
    cnt = 0
    for fld in vals.dtype.names:
        attr = re.sub(r"([A-Z])", r"_\1", fld).lower()
        if attr == "return":
            attr = "returns"
        x = getattr(obj, attr, None)
        if isinstance(x, MappedArray):
            ctx.eq(x.values, vals[fld], f"{kind}.{attr}")
            ctx.eq([x.col_arr, x.id_arr], [vals["col"], vals["id"]], f"{kind}.{attr} arrays")
            ctx.eq(getattr(q, attr).values, recs.select(vals, sel)[fld], f"{kind}.{attr} of selection")
            cnt += 1
    ctx.check(cnt > 0, "no attached fields", kind=kind)
    filters = {"drawdowns": [("recovered", "status", 1), ("active", "status", 0)], "ranges": [("closed", "status", 1), ("open", "status", 0)],
               "orders": [("buy", "side", 0), ("sell", "side", 1)], "logs": [],
               "trades": [("long", "direction", 0), ("short", "direction", 1), ("open", "status", 0), ("closed", "status", 1)]}
    filters["positions"] = filters["trades"]
    for attr, fld, v in filters[kind]:
        exact(ctx, getattr(obj, attr).values, vals[vals[fld] == v], f"{kind}.{attr}")
        ctx.seen("filters")
    exact(ctx, obj.values, vals, "records modified")
    ctx.seen("real_" + kind)
    ctx.nontrivial(kind, tuple(vals["col"]), how, str(pos))
