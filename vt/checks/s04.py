"""S04: ranks, partitions, gaps and positions count exactly the right signals."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from numba import njit
from vectorbt.generic.enums import RangeStatus
from vt import gen
from vt.core import monitor, Skip
from vt.gen import pick
from vt.checks.s01 import table, wrap, v2, same_axes, draw

NAN = np.nan


def counted(a, after_false):
    """Signals taken into account: with after_false the run a column starts with is left out."""
    out = a.copy()
    if after_false:
        for j in range(a.shape[1]):
            i = 0
            while i < len(a) and a[i, j]:
                out[i, j] = False
                i += 1
    return out


def ref_pos(a, reset, after_false, gaps):
    c = counted(a, after_false)
    out = np.full(a.shape, -1)
    for j in range(a.shape[1]):
        for i in range(len(a)):
            if c[i, j]:
                lo = max([r for r in range(i + 1) if reset is not None and reset[r, j]] + [0])
                if not gaps:
                    s = i
                    while s > 0 and c[s - 1, j]:
                        s -= 1
                    lo = max(lo, s)
                out[i, j] = c[lo:i + 1, j].sum() - 1
    return out


def ref_part(a, reset, after_false):
    c = counted(a, after_false)
    out = np.full(a.shape, -1)
    for j in range(a.shape[1]):
        for i in range(len(a)):
            if c[i, j]:
                lo = max([r for r in range(i + 1) if reset is not None and reset[r, j]] + [0])
                f = next(q for q in range(lo, i + 1) if c[q, j])
                out[i, j] = sum(1 for q in range(f + 1, i + 1) if c[q, j] and not c[q - 1, j])
    return out


def reset_arg(rng, o, n, c):
    form = pick(rng, ["none", "none", "same", "raw", "series"])
    if form == "none":
        return None, None
    r = table(rng, n, c)
    if form == "same":
        b = o.copy()
        b[:] = r if isinstance(o, pd.DataFrame) else r[:, 0]
        return b.astype(bool), r
    if form == "series" and isinstance(o, pd.DataFrame):
        r = np.repeat(r[:, :1], c, 1)
        return pd.Series(r[:, 0], index=o.index), r
    return (r if isinstance(o, pd.DataFrame) else r[:, 0]), r


def mapped(ctx, m, exp, mask, what, gb=None, idx_vals=None):
    j, i = np.nonzero(mask.T)
    ctx.eq(m.values, exp[i, j], f"{what}: mapped values")
    ctx.eq(m.col_arr, j, f"{what}: columns of mapped values")
    ctx.eq(m.idx_arr, i, f"{what}: rows of mapped values")
    if gb is not None:
        ctx.check(m.wrapper.grouper.is_grouped() and list(m.wrapper.grouper.get_groups()) == list(pd.factorize(np.asarray(gb))[0]), f"{what}: grouping lost: {m.wrapper.grouper.group_by}")
        ctx.seen("mapped_grouped")
    else:
        ctx.check(not m.wrapper.grouper.is_grouped(), f"{what}: unexpected grouping")
    ctx.seen("mapped")


@monitor(weight=5, modes=("pure", "jit"))
def m_rank(ctx):
    rng = ctx.rng
    n, c = draw(ctx)
    a = table(rng, n, c)
    o = wrap(rng, a)
    rb, r = reset_arg(rng, o, n, c)
    af, gaps = bool(rng.random() < 0.4), bool(rng.random() < 0.5)
    kw = gen.omit(rng, dict(after_false=af, reset_by=rb) if rb is not None else dict(after_false=af), dict(after_false=False))
    pos, part = ref_pos(a, r, af, gaps), ref_part(a, r, af)
    gkw = gen.omit(rng, dict(allow_gaps=gaps), dict(allow_gaps=False))
    got = o.vbt.signals.pos_rank(**kw, **gkw)
    info = dict(signals=a, reset=r, after_false=af, gaps=gaps)
    ctx.eq(v2(got), pos, "pos_rank", **info)
    ctx.check(got.index.equals(o.index), "pos_rank: index")
    ctx.eq(v2(o.vbt.signals.partition_pos_rank(**kw)), part, "partition_pos_rank", **info)
    k = int(rng.integers(0, 4))
    grouped = isinstance(o, pd.DataFrame) and rng.random() < 0.3
    gb = gen.groups_from_lens(gen.group_lens(rng, c)) if grouped else None
    acc = o.vbt.signals(group_by=gb) if grouped else o.vbt.signals
    for name, args, exp in (("first", (), pos == 0), ("nth", (k,), pos == k), ("from_nth", (k,), pos >= k)):
        got = getattr(acc, name)(*args, **kw, **gkw)
        ctx.eq(v2(got), exp, f"{name}{args}", **info)
        same_axes(ctx, got, o, name)
    if not gaps and r is None and not af:
        ctx.seen("plain")
    if (pos >= 0).any():
        mask = pos >= 0
        via = bool(rng.random() < 0.5)
        mapped(ctx, acc.pos_rank_mapped(**kw, **gkw) if via or grouped else acc.pos_rank(as_mapped=True, **kw, **gkw), pos, mask, "pos_rank", gb)
        if grouped and rng.random() < 0.5:
            acc2 = o.vbt.signals
            mapped(ctx, acc2.partition_pos_rank_mapped(group_by=gb, **kw), part, mask, "partition_pos_rank", gb)
        else:
            mapped(ctx, acc.partition_pos_rank_mapped(**kw), part, mask, "partition_pos_rank", gb)
    if rb is not None:
        ctx.seen("reset")
    if af and a[0].any():
        ctx.seen("after_false")
    ctx.seen("ranked", int((pos >= 0).sum()))
    ctx.nontrivial(n, c, af, gaps, int(pos.max()), int(part.max()))


@njit
def spy_rank(i, col, reset_i, prev_end, start, log, cnt):
    k = cnt[0]
    log[k, 0] = i
    log[k, 1] = col
    log[k, 2] = reset_i
    log[k, 3] = prev_end
    log[k, 4] = start
    cnt[0] = k + 1
    return 10 * i + col


@monitor(weight=2, modes=("pure", "jit"))
def m_custom_rank(ctx):
    """The ranking function gets the row, column, last reset and bounds of the runs."""
    rng = ctx.rng
    n, c = draw(ctx)
    a = table(rng, n, c)
    o = wrap(rng, a)
    rb, r = reset_arg(rng, o, n, c)
    af = bool(rng.random() < 0.4)
    cc = counted(a, af)
    log, cnt = np.full((n * c + 1, 5), -9), np.zeros(1, dtype=np.int64)
    got = o.vbt.signals.rank(spy_rank, log, cnt, reset_by=rb, after_false=af)
    exp, calls = np.full((n, c), -1), []
    for j in range(c):
        for i in range(n):
            if cc[i, j]:
                exp[i, j] = 10 * i + j
                lo = max([q for q in range(i + 1) if r is not None and r[q, j]] + [0])
                s = i
                while s > 0 and cc[s - 1, j]:
                    s -= 1
                prev = max([q for q in range(s) if cc[q, j]] + [-1])
                calls.append((i, j, lo, prev, s))
    ctx.eq(v2(got), exp, "rank with a custom function")
    seen = [tuple(int(x) for x in row) for row in log[:cnt[0]]]
    ctx.check(seen == calls, f"ranking function called with {seen[:10]} instead of {calls[:10]}")
    ctx.seen("rank_calls", len(calls))
    ctx.nontrivial(n, c, af, len(calls))


def check_ranges(ctx, rg, exp, what, c, gb=None):
    """exp: list of (col, start, end, status)."""
    v = rg.values
    got = [(int(x["col"]), int(x["start_idx"]), int(x["end_idx"]), int(x["status"])) for x in v]
    ctx.check(got == exp, f"{what}: {got[:12]} instead of {exp[:12]}")
    ctx.check([int(x) for x in v["id"]] == list(range(len(exp))), f"{what}: ids {v['id'][:12]}")
    cnt = np.array([sum(1 for e in exp if e[0] == j) for j in range(c)])
    if gb is None:
        ctx.eq(np.asarray(rg.count()).reshape(-1), cnt, f"{what}: count")
    else:
        lab = pd.factorize(np.asarray(gb))[0]
        ctx.eq(np.asarray(rg.count()).reshape(-1), np.array([cnt[lab == k].sum() for k in range(lab.max() + 1)]), f"{what}: count per group")
        ctx.seen("ranges_grouped")
    ctx.seen("ranges", len(exp))


@monitor(weight=4, modes=("pure", "jit"))
def m_ranges(ctx):
    rng = ctx.rng
    n, c = draw(ctx)
    a, b = table(rng, n, c), table(rng, n, c)
    o = wrap(rng, a)
    grouped = isinstance(o, pd.DataFrame) and rng.random() < 0.3
    gb = gen.groups_from_lens(gen.group_lens(rng, c)) if grouped else None
    own = bool(grouped and rng.random() < 0.5)
    acc = o.vbt.signals(group_by=gb) if own else o.vbt.signals
    gkw = dict(group_by=gb) if grouped and not own else {}
    idx = [list(np.flatnonzero(a[:, j])) for j in range(c)]
    cl, op = RangeStatus.Closed, RangeStatus.Open
    check_ranges(ctx, acc.between_ranges(**gkw), [(j, p, q, cl) for j in range(c) for p, q in zip(idx[j][:-1], idx[j][1:])], "between_ranges", c, gb)
    runs = []
    for j in range(c):
        s = None
        rr = []
        for i in range(n + 1):
            on = i < n and a[i, j]
            if on and s is None:
                s = i
            if not on and s is not None:
                rr.append((s, i - 1))
                s = None
        runs.append(rr)
    check_ranges(ctx, acc.partition_ranges(**gkw), [(j, s, e + 1, cl) if e < n - 1 else (j, s, n - 1, op) for j in range(c) for s, e in runs[j]], "partition_ranges", c, gb)
    check_ranges(ctx, acc.between_partition_ranges(**gkw), [(j, x[1], y[0], cl) for j in range(c) for x, y in zip(runs[j][:-1], runs[j][1:])], "between_partition_ranges", c, gb)
    ctx.eq(np.asarray(o.vbt.signals.total_partitions()).reshape(-1), np.array([len(x) for x in runs]), "total_partitions")
    with np.errstate(all="ignore"):
        ctx.eq(np.asarray(o.vbt.signals.partition_rate()).reshape(-1), np.array([len(x) for x in runs]) / a.sum(0), "partition_rate")
    # two arrays
    form = pick(rng, ["same", "raw", "series"])
    if form == "series":
        b = np.repeat(b[:, :1], c, 1)
    other = pd.Series(b[:, 0], index=o.index) if form == "series" or isinstance(o, pd.Series) else (b if form == "raw" else pd.DataFrame(b, index=o.index, columns=o.columns))
    fo = bool(rng.random() < 0.5)
    exp = []
    for j in range(c):
        bi = list(np.flatnonzero(b[:, j]))
        if fo:
            for q in bi:
                p = [x for x in idx[j] if x <= q]
                if p:
                    exp.append((j, p[-1], q, cl))
        else:
            for p in idx[j]:
                q = [x for x in bi if x >= p]
                if q:
                    exp.append((j, p, q[0], cl))
    ao = bool(rng.random() < 0.5)
    rg = o.vbt.signals.between_ranges(other=other, from_other=fo, attach_other=ao, **(dict(group_by=gb) if grouped else {}))
    check_ranges(ctx, rg, exp, f"between_ranges(other, from_other={fo})", c, gb)
    ctx.eq(v2(rg.ts), b if ao else a, "attached series of the ranges")
    if exp:
        ctx.eq(np.asarray(rg.duration.values), np.array([e[2] - e[1] for e in exp]), "distance between signals")
    ctx.seen("from_other" if fo else "to_other")
    ctx.nontrivial(n, c, fo, len(exp), sum(map(len, runs)))


@monitor(weight=4, modes=("pure", "jit"))
def m_index(ctx):
    rng = ctx.rng
    n, c = draw(ctx)
    a = table(rng, n, c)
    o = wrap(rng, a)
    grouped = isinstance(o, pd.DataFrame) and rng.random() < 0.4
    gb = gen.groups_from_lens(gen.group_lens(rng, c)) if grouped else None
    own = bool(grouped and rng.random() < 0.5)
    acc = o.vbt.signals(group_by=gb) if own else o.vbt.signals
    gkw = dict(group_by=gb) if grouped and not own else {}
    lab = pd.factorize(np.asarray(gb))[0] if grouped else np.arange(c)
    G = lab.max() + 1
    # column order of groups must match the group index
    flat = lambda x: np.asarray(x, dtype=object).reshape(-1) if not isinstance(x, pd.Series) else x.values
    k = int(rng.integers(-4, 4))
    un = [a[:, lab == g].any(1) for g in range(G)]
    rows = [list(np.flatnonzero(u)) for u in un]
    pos = [(r[k] if -len(r) <= k < len(r) else -1) for r in rows]
    ctx.eq(np.asarray(flat(acc.nth_index(k, return_labels=False, **gkw)), float), np.array(pos, float), f"nth_index({k})", signals=a, group_by=gb)
    got = flat(acc.nth_index(k, **gkw))
    for g in range(G):
        ctx.check((got[g] != got[g]) if pos[g] < 0 else got[g] == o.index[pos[g]], f"nth_index({k}): label {got[g]} instead of row {pos[g]}")
    tot = np.array([a[:, lab == g].sum() for g in range(G)])
    ctx.eq(np.asarray(flat(acc.total(**gkw)), float), tot, "total", group_by=gb)
    size = np.array([(lab == g).sum() * n for g in range(G)])
    ctx.eq(np.asarray(flat(acc.rate(**gkw)), float), tot / size, "rate", group_by=gb)
    colavg = np.array([NAN if n <= 1 or not a[:, j].any() else 2 * np.flatnonzero(a[:, j]).mean() / (n - 1) - 1 for j in range(c)])
    if grouped:
        exp = np.array([np.nansum(colavg[lab == g] * a[:, lab == g].sum(0)) / tot[g] if tot[g] and n > 1 else NAN for g in range(G)])
    else:
        exp = colavg
    ctx.eq(np.asarray(flat(acc.norm_avg_index(**gkw)), float), exp, "norm_avg_index", atol=1e-9, signals=a, group_by=gb)
    parts = np.array([sum(1 for j in np.flatnonzero(lab == g) for i in range(n) if a[i, j] and (i == 0 or not a[i - 1, j])) for g in range(G)])
    ctx.eq(np.asarray(flat(acc.total_partitions(**gkw)), float), parts, "total_partitions", group_by=gb)
    with np.errstate(all="ignore"):
        ctx.eq(np.asarray(flat(acc.partition_rate(**gkw)), float), parts / tot, "partition_rate", group_by=gb)
    m = acc.index_mapped(**gkw)
    mapped(ctx, m, np.repeat(np.arange(n)[:, None], c, 1), a, "index_mapped", gb)
    if grouped and G > 1:
        s = acc.total(**gkw)
        ctx.check(list(s.index) == list(pd.unique(np.asarray(gb))), f"group labels {list(s.index)}")
        ctx.seen("grouped")
    ctx.seen("indexed", int(a.sum()))
    ctx.nontrivial(n, c, k, grouped, int(a.sum()))
