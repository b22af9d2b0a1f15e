"""G04: range, rolling and expanding splits: bounds, lengths, counts, disjoint ordered sets, exact rows."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.generic.splitters import RangeSplitter, RollingSplitter, ExpandingSplitter, split_ranges_into_sets
from vt import gen
from vt.core import monitor, Skip
from vt.gen import pick


def evenly(ctx, got, pool, n, what):
    """got: chosen (start, end) pairs; pool: all admissible ones in time order."""
    ctx.check(len(got) == (len(pool) if n is None else n), f"{what}: {len(got)} splits, asked for {n} of {len(pool)}")
    if n is None:
        ctx.check(got == pool, f"{what}: {got} instead of every admissible range {pool}")
        return
    pos = [pool.index(g) if g in pool else -1 for g in got]
    ctx.check(min(pos) >= 0, f"{what}: range {got} outside of the admissible {pool}")
    if len(set(pool)) == len(pool):
        ctx.check(pos[0] == 0 and (n == 1 or pos[-1] == len(pool) - 1), f"{what}: splits do not cover the first and last range: {pos}")
        step = (len(pool) - 1) / max(n - 1, 1)
        ctx.check(all(abs(p - k * step) <= 0.5 + 1e-9 for k, p in enumerate(pos)), f"{what}: not evenly spaced: {pos}")


def sets_of(lo, hi, lens, ltr):
    """Reference division of lo..hi; None if impossible."""
    total = hi - lo + 1
    if not lens:
        return [list(range(lo, hi + 1))]
    out = []
    for x in lens:
        k = math.floor(x * total) if 0 < x < 1 else int(x)
        if k == 0:
            return None
        out.append(k)
    rest = total - sum(out)
    if rest <= 0:
        return None
    out = out + [rest] if ltr else [rest] + out
    res, p = [], lo
    for k in out:
        res.append(list(range(p, p + k)))
        p += k
    return res


def check_sets(ctx, splits, pairs, lens, ltr, n, what):
    ctx.check(len(splits) == len(pairs), f"{what}: number of splits")
    for k, (sp, (lo, hi)) in enumerate(zip(splits, pairs)):
        l = lens[k] if lens and isinstance(lens[0], (list, tuple)) else lens
        d = ltr[k] if isinstance(ltr, (list, tuple)) else ltr
        exp = sets_of(lo, hi, l, d)
        got = [[int(i) for i in s] for s in sp]
        ctx.check(exp is not None, f"{what}: impossible sets {l} of rows {lo}..{hi} accepted: {got}")
        ctx.check(got == exp, f"{what}: sets {got} instead of {exp}")
        flat = [i for s in got for i in s]
        ctx.check(all(0 <= i < n for i in flat), f"{what}: rows outside of the series: {flat}")
        ctx.check(flat == sorted(set(flat)), f"{what}: sets overlap or are out of order: {got}")
        for s in got:
            ctx.check(s == list(range(s[0], s[-1] + 1)), f"{what}: set is not contiguous: {s}")
        ctx.seen("sets", len(got))
        if len(got) > 1:
            ctx.seen("several_sets")


def draw_sets(rng, total, k):
    """Set lengths for k splits whose shortest has `total` rows."""
    kind = pick(rng, ["none", "abs", "frac", "mixed", "multi", "per_split", "bad"])
    ltr = bool(rng.random() < 0.5)
    if kind == "none":
        return [], ltr
    if kind == "abs":
        return [int(rng.integers(1, max(2, total)))], ltr
    if kind == "frac":
        return [float(rng.uniform(0.05, 0.95))], ltr
    if kind == "mixed":
        return [int(rng.integers(1, max(2, total // 3 + 1))), float(rng.uniform(0.1, 0.5))], ltr
    if kind == "multi":
        return [int(x) for x in rng.integers(1, max(2, total // 3 + 1), 2)], ltr
    if kind == "per_split":
        lens = [[int(rng.integers(1, max(2, total)))] for _ in range(k)]
        return lens, [bool(b) for b in rng.random(k) < 0.5]
    return [pick(rng, [0, total, total + 1, 0.001])], ltr


def possible(pairs, lens, ltr):
    for k, (lo, hi) in enumerate(pairs):
        l = lens[k] if lens and isinstance(lens[0], (list, tuple)) else lens
        d = ltr[k] if isinstance(ltr, (list, tuple)) else ltr
        if sets_of(lo, hi, l, d) is None:
            return False
    return True


def index(ctx, n):
    rng = ctx.rng
    return pick(rng, [lambda: gen.dt_index(rng, n, "D"), lambda: pd.RangeIndex(n), lambda: pd.Index(["t%02d" % i for i in range(n)]),
                      lambda: pd.date_range("2020-03-28 20:00", periods=n, freq="h", tz="Europe/Berlin")])()


@monitor(weight=5)
def m_split(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 25))
    c = int(rng.integers(1, 4))
    idx = index(ctx, n)
    vals = rng.permutation(n * c).reshape(n, c)
    o = pd.Series(vals[:, 0], index=idx, name=pick(rng, [None, "x"])) if c == 1 and rng.random() < 0.5 else pd.DataFrame(vals, index=idx, columns=gen.columns(rng, c))
    o0 = o.copy()
    kind = pick(rng, ["range", "rolling", "expanding", "explicit"])
    k = pick(rng, [None, int(rng.integers(1, 6))])
    min_len = pick(rng, [1, 1, int(rng.integers(1, n + 2))])
    kw = dict()
    pool = None
    if kind in ("range", "rolling"):
        wl = pick(rng, [None, int(rng.integers(1, n + 2)), float(rng.uniform(0.05, 0.95))])
        if wl is None and k is None:
            sp = RangeSplitter() if kind == "range" else RollingSplitter()
            ctx.raises(ValueError, lambda: list(sp.split(o)), msg="neither n nor a length")
            ctx.seen("neither")
            return
        L = n // k if wl is None else (math.floor(wl * n) if 0 < wl < 1 else wl)
        pool = [(i, i + L - 1) for i in range(n - L + 1)] if L > 0 else []
        kw = {("range_len" if kind == "range" else "window_len"): wl} if wl is not None else {}
    elif kind == "expanding":
        pool = [(0, i) for i in range(n)]
    else:
        m = int(rng.integers(1, 5))
        st = rng.integers(0, n, m)
        en = np.array([int(rng.integers(s, n)) for s in st])
        if rng.random() < 0.3:
            st = st[:1]
            en = np.maximum(en, st[0])
            pool = [(int(st[0]), int(e)) for e in en]
        else:
            pool = [(int(s), int(e)) for s, e in zip(st, en)]
        if rng.random() < 0.4:
            kw = dict(start_idxs=idx[st], end_idxs=idx[en])
            ctx.seen("label_bounds")
        else:
            kw = dict(start_idxs=st, end_idxs=en)
        if rng.random() < 0.1:
            ctx.raises(ValueError, lambda: list(RangeSplitter().split(o, start_idxs=st)), msg="only one bound")
        kind = "range"
        ctx.seen("explicit_bounds")
    if k is not None:
        kw["n"] = k
    if min_len > 1:
        kw["min_len"] = min_len
    pool = [p for p in pool if p[1] - p[0] + 1 >= min_len]
    Split = dict(range=RangeSplitter, rolling=RollingSplitter, expanding=ExpandingSplitter)[kind]
    what = f"{kind} split of {n} rows {kw}"
    if not pool or (k is not None and k > len(pool)):
        ctx.raises(ValueError, lambda: list(Split().split(o, **kw)), msg=f"{what}: impossible request")
        ctx.seen("impossible")
        return
    base = [(int(s[0][0]), int(s[0][-1])) for s in Split().split(o, **kw)]
    evenly(ctx, base, pool, k, what)
    for (lo, hi), s in zip(base, Split().split(o, **kw)):
        ctx.check(len(s) == 1 and [int(i) for i in s[0]] == list(range(lo, hi + 1)), f"{what}: one contiguous set")
    lens, ltr = draw_sets(rng, min(h - l + 1 for l, h in base), len(base))
    skw = dict(kw)
    if lens:
        skw["set_lens"] = lens if isinstance(lens[0], list) else tuple(lens)
        skw["left_to_right"] = ltr
    if not possible(base, lens, ltr):
        ctx.raises(ValueError, lambda: list(Split().split(o, **skw)), msg=f"{what}: sets {lens} do not fit")
        ctx.seen("sets_do_not_fit")
        return
    splits = list(Split().split(o, **skw))
    check_sets(ctx, splits, base, lens, ltr, n, what + f" sets {lens} left_to_right {ltr}")
    arr = list(Split().split(vals, **{a: b for a, b in skw.items() if not isinstance(b, pd.Index)})) if not any(isinstance(b, pd.Index) for b in skw.values()) else splits
    ctx.check([[list(map(int, s)) for s in sp] for sp in arr] == [[list(map(int, s)) for s in sp] for sp in splits], f"{what}: split of a plain array")
    # frames
    keys = None
    if rng.random() < 0.4:
        keys = pd.Index(["k%d" % i for i in range(len(base))], name=pick(rng, ["run", "key"]))
        skw["keys"] = keys if rng.random() < 0.7 else keys
    res = getattr(o.vbt, kind + "_split")(**skw)
    if len(splits[0]) == 1:
        res = (res,)
    ctx.check(len(res) == len(splits[0]), f"{what}: {len(res)} sets")
    names = list(keys) if keys is not None else list(range(len(base)))
    for q, (df, ixs) in enumerate(res):
        rows = [[int(i) for i in sp[q]] for sp in splits]
        mx = max(map(len, rows))
        ctx.check(df.shape == (mx, len(rows) * c), f"{what}: shape {df.shape}")
        ctx.check(list(df.index) == list(range(mx)), f"{what}: row numbers")
        ctx.check(len(ixs) == len(rows), f"{what}: indexes")
        lev = df.columns.get_level_values(0)
        ctx.check(list(lev) == [x for x in names for _ in range(c)] and lev.name == (keys.name if keys is not None else "split_idx"), f"{what}: split labels {list(df.columns)}")
        if c > 1 and (len(rows) > 1 or isinstance(df.columns, pd.MultiIndex)):     # redundant levels are dropped
            ctx.check([t[1:] if len(t) > 2 else t[1] for t in df.columns] == list(o.columns) * len(rows), f"{what}: column labels {list(df.columns)}")
        for s, r in enumerate(rows):
            e = np.full((mx, c), np.nan)
            e[:len(r)] = vals[r]
            ctx.eq(df.values[:, s * c:(s + 1) * c], e, f"{what}: rows of split {s} set {q}", rtol=0, atol=0)
            ctx.check(list(ixs[s]) == [idx[i] for i in r], f"{what}: labels of split {s} set {q}: {list(ixs[s])}")
            ctx.check(ixs[s].name == (keys[s] if keys is not None else f"split_{s}"), f"{what}: name of split {s}")
    ctx.check(o.equals(o0), "input untouched")
    ctx.seen("split_" + kind, len(base))
    ctx.nontrivial(n, str(sorted(map(str, kw.items()))), str(lens), str(ltr))


@monitor(weight=1)
def m_sets(ctx):
    rng = ctx.rng
    m = int(rng.integers(1, 5))
    st = rng.integers(0, 30, m)
    en = st + rng.integers(0, 20, m)
    pairs = [(int(a), int(b)) for a, b in zip(st, en)]
    lens, ltr = draw_sets(rng, int(min(en - st + 1)), m)
    call = lambda: list(split_ranges_into_sets(st.tolist() if rng.random() < 0.5 else st, en, set_lens=lens, left_to_right=ltr))
    if not possible(pairs, lens, ltr):
        ctx.raises(ValueError, call, msg=f"sets {lens} of {pairs}")
        return
    check_sets(ctx, call(), pairs, lens, ltr, 10 ** 6, f"sets {lens} of {pairs}")
    ctx.nontrivial(str(pairs), str(lens), str(ltr))


@monitor(weight=1)
def m_foreign(ctx):
    """Splitters of scikit-learn (sets of any shape) through the same interface."""
    from sklearn.model_selection import TimeSeriesSplit, KFold
    rng = ctx.rng
    n = int(rng.integers(6, 20))
    idx = index(ctx, n)
    vals = rng.permutation(n * 2).reshape(n, 2)
    o = pd.DataFrame(vals, index=idx, columns=["a", "b"])
    sp = pick(rng, [TimeSeriesSplit(int(rng.integers(2, 5))), KFold(int(rng.integers(2, 5)))])
    exp = list(sp.split(np.arange(n)))
    res = o.vbt.split(sp)
    ctx.check(len(res) == 2, "train and test")
    for q in (0, 1):
        df, ixs = res[q]
        for s, e in enumerate(exp):
            r = e[q]
            ctx.eq(df.values[:len(r), 2 * s:2 * s + 2], vals[r], f"{sp}: split {s} set {q}", rtol=0, atol=0)
            ctx.check(np.isnan(df.values[len(r):, 2 * s:2 * s + 2].astype(float)).all(), "padding")
            ctx.check(list(ixs[s]) == [idx[i] for i in r], "labels")
    ctx.seen("foreign")
    ctx.nontrivial(str(sp), n)
