"""D01: market data aligns, updates and concatenates without losing or inventing rows."""
import warnings
import numpy as np
import pandas as pd
import vectorbt as vbt
from vt.core import monitor, Skip
from vt.gen import pick

NAN = np.nan
TZ = ["UTC", "Asia/Kolkata", "America/Phoenix", "Asia/Tokyo"]  # no daylight saving
BASE = pd.Timestamp("2020-01-06 12:00:00")


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return bool(a == b)


class quiet:
    def __enter__(self):
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")

    def __exit__(self, *a):
        self.w.__exit__(*a)


class Book:
    """Reference: rows and columns in order, cells by (row, column)."""

    def __init__(self, rows, cols, cells, series, name=None):
        self.rows, self.cols, self.cells, self.series, self.name = rows, cols, cells, series, name

    def build(self):
        a = np.array([[self.cells[r, c] for c in self.cols] for r in self.rows], dtype=float).reshape(len(self.rows), len(self.cols))
        ix = pd.DatetimeIndex(self.rows) if self.rows and isinstance(self.rows[0], pd.Timestamp) else pd.Index(self.rows)
        if self.series:
            return pd.Series(a[:, 0], index=ix, name=self.name)
        return pd.DataFrame(a, index=ix, columns=self.cols)

    def at(self, r, c):
        return self.cells.get((r, c), NAN)

    def move(self, f):
        return Book([f(r) for r in self.rows], list(self.cols), {(f(r), c): v for (r, c), v in self.cells.items()}, self.series, self.name)


def row_pool(rng):
    kind = pick(rng, ["day", "day", "hour", "int", "str"])
    n = int(rng.integers(2, 9))
    if kind == "day":
        return kind, [BASE + pd.Timedelta(days=i) for i in range(n)]
    if kind == "hour":
        return kind, [BASE + pd.Timedelta(hours=i) for i in range(n)]
    if kind == "int":
        return kind, [int(x) for x in range(n)]
    return kind, [f"r{i}" for i in range(n)]


def draw_book(rng, rows, cols, series, subset=True, col_subset=True, name=None):
    r = list(rows)
    if subset and rng.random() < 0.6:
        keep = sorted(int(x) for x in rng.permutation(len(r))[:int(rng.integers(1, len(r) + 1))])
        r = [r[i] for i in keep]
    c = list(cols)
    if col_subset and rng.random() < 0.5:
        keep = [int(x) for x in rng.permutation(len(c))[:int(rng.integers(1, len(c) + 1))]]
        c = [c[i] for i in keep]
    if series:
        c = [name if name is not None else 0]
    cells = {(x, y): (NAN if rng.random() < 0.1 else round(float(rng.normal(50, 20)), 2)) for x in r for y in c}
    return Book(r, c, cells, series, name)


class Bad(Exception):
    pass


def merge(sets, policy):
    """Rows (or columns) after applying a missing-data policy; sorted when unions are needed."""
    first = sets[0]
    if all(set(s) == set(first) for s in sets):
        return list(first)
    if policy == "raise":
        raise Bad
    if policy == "drop":
        return [x for x in first if all(x in s for s in sets)]
    return sorted(set().union(*map(set, sets)))


def align_ref(books, mi, mc):
    if len(books) == 1:
        return books
    keys = list(books)
    rows = merge([books[k].rows for k in keys], mi)
    cols = merge([books[k].cols for k in keys], mc)
    allser = all(b.series for b in books.values()) and len(cols) == 1
    nameless = any(b.series and b.name is None for b in books.values())
    out = {}
    for k in keys:
        b = books[k]
        out[k] = Book(list(rows), list(cols), {(r, c): b.at(r, c) for r in rows for c in cols}, allser, None if nameless else (cols[0] if allser else None))
    return out


def compare(ctx, obj, book, msg, set_order=False):
    ctx.check(isinstance(obj, pd.Series if book.series else pd.DataFrame), f"{msg}: {type(obj).__name__}")
    got_rows = list(obj.index)
    ctx.check(len(got_rows) == len(book.rows) and all(a == b for a, b in zip(got_rows, book.rows)), f"{msg}: rows {got_rows} instead of {book.rows}")
    if not book.series:
        gc = list(obj.columns)
        ctx.check(gc == book.cols, f"{msg}: columns {gc} instead of {book.cols}")
    for p, r in enumerate(book.rows):
        for q, c in enumerate(book.cols):
            v = obj.iloc[p] if book.series else obj.iloc[p, q]
            ctx.check(same(float(v), book.at(r, c)), f"{msg}: cell ({r}, {c}) is {v} instead of {book.at(r, c)}")
            ctx.seen("cells compared")
    if isinstance(obj.index, pd.DatetimeIndex):
        fr = obj.index.freq
        ctx.check(fr is None or all(a + fr == b for a, b in zip(got_rows, got_rows[1:])), f"{msg}: frequency {fr} of rows {got_rows}")


def time_fn(loc, conv):
    def f(r):
        if isinstance(r, pd.Timestamp):
            if r.tz is None:
                r = r.tz_localize(loc or "UTC")
            r = r.tz_convert(conv or "UTC")
        return r
    return f


def draw_tz(rng):
    return pick(rng, [None, None] + TZ), pick(rng, [None, None] + TZ)


def check_tz(ctx, ix, conv, msg):
    if isinstance(ix, pd.DatetimeIndex):
        ctx.check(ix.tz is not None and ix[:1].tz_convert("UTC")[0] == ix[0], f"{msg}: time zone {ix.tz}")
        want = pd.Timestamp("2020-01-06", tz=conv or "UTC").utcoffset()
        ctx.check(ix[0].utcoffset() == want, f"{msg}: time zone {ix.tz} instead of {conv or 'UTC'}")


def draw_symbols(rng, k=None):
    k = k or int(rng.integers(1, 4))
    return pick(rng, [["a", "b", "c"], [1, 2, 3], ["c", "a", "b"]])[:k]


@monitor(weight=5)
def align(ctx):
    """from_data: missing-data policies, time zones, frequency, inputs untouched."""
    rng = ctx.rng
    syms = draw_symbols(rng)
    kind, pool = row_pool(rng)
    cols = pick(rng, [["o", "h", "l", "c"], [0, 1, 2], ["c", "a"]])
    ser = pick(rng, ["all", "none", "none"])
    name = pick(rng, [None, "p"])
    aware = pick(rng, [None, None] + TZ)
    books, objs, raw = {}, {}, {}
    arrays = rng.random() < 0.1
    for s in syms:
        if arrays:
            n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
            a = np.round(rng.normal(size=(n,) if ser == "all" else (n, m)), 2)
            b = Book(list(range(n)), [0] if a.ndim == 1 else list(range(m)), {}, a.ndim == 1)
            b.cells = {(i, j): float(a[i] if a.ndim == 1 else a[i, j]) for i in range(n) for j in b.cols}
            objs[s] = a
        else:
            nm = name if rng.random() < 0.8 else "q"
            b = draw_book(rng, pool, cols, ser == "all", name=nm, col_subset=rng.random() < 0.5)
            if aware and kind in ("day", "hour"):
                b = b.move(lambda r: r.tz_localize(aware))
            objs[s] = b.build()
        books[s] = b
    raw = {s: (o.copy(), list(o.index) if hasattr(o, "index") else None, getattr(getattr(o, "index", None), "freq", None)) for s, o in objs.items()}
    loc, conv = draw_tz(rng)
    mi, mc = pick(rng, ["nan", "drop", "raise", None]), pick(rng, ["nan", "drop", "raise", None])
    kw = {k: v for k, v in dict(tz_localize=loc, tz_convert=conv, missing_index=mi, missing_columns=mc).items() if v is not None}
    f = time_fn(loc, conv)
    moved = {s: b.move(f) for s, b in books.items()}
    names_ = {b.name for b in moved.values() if b.series}
    msg = f"from_data({ {s: (b.rows, b.cols) for s, b in books.items()} }, {kw})"
    data_in = dict(objs)
    with quiet():
        try:
            exp = align_ref(moved, mi or "nan", mc or "raise")
        except Bad:
            ctx.raises(ValueError, vbt.Data.from_data, data_in, msg=f"{msg}: mismatch must raise", **kw)
            ctx.seen("mismatches refused")
            ctx.nontrivial("refuse", mi, mc, len(syms))
            return
        except TypeError:
            raise Skip  # labels that cannot be sorted
        e0 = next(iter(exp.values()))
        if not e0.rows or not e0.cols:
            raise Skip
        d = vbt.Data.from_data(data_in, **kw)
    ctx.check(d.symbols == syms and list(data_in) == syms, f"{msg}: symbols {d.symbols}")
    for s in syms:
        compare(ctx, d.data[s], exp[s], f"{msg} [{s}]")
        check_tz(ctx, d.data[s].index, conv, msg)
        if exp[s].series:
            ctx.check(d.data[s].name == exp[s].name or (len(syms) == 1 and d.data[s].name == books[s].name), f"{msg}: name {d.data[s].name!r}")
        o, rows, fr = raw[s]
        ctx.check(data_in[s] is objs[s] and (np.array_equal(objs[s], o, equal_nan=True) if isinstance(o, np.ndarray) else objs[s].equals(o)), f"{msg}: input changed")
        if rows is not None:
            ctx.check(list(objs[s].index) == rows and getattr(objs[s].index, "freq", None) == fr, f"{msg}: index of the input changed")
        if len(syms) == 1 and len(e0.rows) > 2 and isinstance(d.data[s].index, pd.DatetimeIndex):
            ctx.check(d.data[s].index.freqstr == pd.DatetimeIndex(list(d.data[s].index)).inferred_freq, f"{msg}: frequency {d.data[s].index.freq}")
    ctx.check(list(d.wrapper.index) == e0.rows and d.wrapper.ndim == (1 if e0.series else 2), f"{msg}: wrapper")
    if not e0.series:
        ctx.check(list(d.wrapper.columns) == e0.cols, f"{msg}: wrapper columns")
    ctx.check((d.missing_index, d.missing_columns) == (mi or "nan", mc or "raise"), f"{msg}: policies {d.missing_index} {d.missing_columns}")
    with quiet():
        if len(syms) > 1 and len({tuple(b.rows) for b in moved.values()}) > 1:
            ctx.raises(ValueError, vbt.Data.align_index, d_unaligned(moved), missing="what", msg="unknown policy")
    ctx.seen("aligned objects", len(syms))
    ctx.nontrivial(kind, len(syms), mi, mc, ser, loc, conv, len(e0.rows), len(e0.cols))


def d_unaligned(books):
    return {s: b.build() for s, b in books.items()}


# ------------------------------------------------------------------ updates
SCRIPT = {}
LOG = []


class Fake(vbt.Data):
    @classmethod
    def download_symbol(cls, symbol, tag="d", **kwargs):
        LOG.append(("download", symbol, tag, dict(kwargs)))
        return SCRIPT[symbol][0]

    def update_symbol(self, symbol, tag="u", step=1, **kwargs):
        LOG.append(("update", symbol, tag, step, dict(kwargs)))
        return SCRIPT[symbol][step]


@monitor(weight=5)
def update(ctx):
    """download + several updates against a row-by-row model; arguments reach their symbols."""
    rng = ctx.rng
    syms = draw_symbols(rng)
    dated = rng.random() < 0.75
    step = pick(rng, ["D", "h"])
    unit = pd.Timedelta(1, unit=step)
    total = 20
    pool = [BASE + i * unit for i in range(total)] if dated else list(range(total))
    aware = pick(rng, [None, None] + TZ) if dated else None
    if aware:
        pool = [p.tz_localize(aware) for p in pool]
    cols = pick(rng, [["o", "c"], ["x", "y", "z"], [0, 1]])
    ser = rng.random() < 0.4
    name = pick(rng, [None, "p"])
    loc, conv = draw_tz(rng)
    f = time_fn(loc, conv) if dated else (lambda r: r)
    mi = pick(rng, ["nan", "drop", "nan"])
    mc = pick(rng, ["nan", "raise"])
    n0 = int(rng.integers(2, 6))
    SCRIPT.clear()
    LOG.clear()
    books = {}
    for s in syms:
        b = draw_book(rng, pool[:n0], cols, ser, name=name, col_subset=False)
        if len(b.rows) < 1:
            raise Skip
        books[s] = b
        SCRIPT[s] = [b.build()]
    exp = align_ref({s: b.move(f) for s, b in books.items()}, mi, mc)
    e0 = next(iter(exp.values()))
    if not e0.rows:
        raise Skip
    kw = {k: v for k, v in dict(tz_localize=loc, tz_convert=conv).items() if v is not None}
    per = {s: f"only {s}" for s in syms if rng.random() < 0.6}
    extra = pick(rng, [{}, {"shared": 5}])
    lone = len(syms) == 1 and rng.random() < 0.5 and not isinstance(syms[0], tuple)
    wk = pick(rng, [{}, {"freq": "3h"}])
    with quiet():
        d = Fake.download(syms[0] if lone else list(syms), missing_index=mi, missing_columns=mc, wrapper_kwargs=wk, who=vbt.symbol_dict(per), **extra, **kw)
    want = [("download", s, "d", {**extra, **({"who": per[s]} if s in per else {})}) for s in syms]
    ctx.check(LOG == want, f"arguments of the download: {LOG} instead of {want}")
    ctx.check(d.download_kwargs == dict(who=per, **extra), f"download_kwargs {d.download_kwargs}")
    for s in syms:
        compare(ctx, d.data[s], exp[s], f"download [{s}]")
    moved_pool = [f(p) for p in pool]
    last = max(moved_pool.index(r) for r in e0.rows)
    history = []
    msg = f"syms {syms} series {ser} policy {mi} tz {aware} {loc} {conv}"
    for t in range(1, int(rng.integers(2, 4))):
        fresh = {}
        as_array = not dated and (ser or cols == [0, 1]) and rng.random() < 0.4 and e0.rows == moved_pool[:len(e0.rows)]
        back = int(rng.integers(0, min(2, last + 1)))
        length = int(rng.integers(1, 5))
        a = last if as_array else last - back
        window = pool[a:a + length]
        if back and length <= back:
            window = pool[a:a + back + 1]
        arr_len = len(window)
        for s in syms:
            b = draw_book(rng, window, cols, ser, subset=not as_array and rng.random() < 0.4, name=name, col_subset=False)
            if back:  # a contiguous re-fetch of the last rows
                b = draw_book(rng, window, cols, ser, subset=False, name=name, col_subset=False)
            o = b.build()
            while len(SCRIPT[s]) <= t:
                SCRIPT[s].append(None)
            SCRIPT[s][t] = o.values if as_array else o
            if rng.random() < 0.15 and ser and len(syms) == 1 and not as_array:
                SCRIPT[s][t] = o.rename(pick(rng, [None, "other"]))
            fresh[s] = b.move(f)
        new = align_ref(fresh, mi, mc)
        LOG.clear()
        perk = {s: int(t) for s in syms}
        tags = {s: f"tag {s}" for s in syms if rng.random() < 0.5}
        before = {s: (v, v.copy()) for s, v in d.data.items()}
        old = d
        with quiet():
            d = d.update(step=vbt.symbol_dict(perk) if rng.random() < 0.5 else t, tag=vbt.symbol_dict(tags))
        want = [("update", s, tags.get(s, "u"), t, {}) for s in syms]
        ctx.check(LOG == want, f"{msg}: arguments of the update: {LOG} instead of {want}")
        ctx.check(type(d) is Fake and d is not old, "update returns a new object of the class")
        nxt = {}
        for s in syms:
            cur = exp[s]
            rows = [r for r in cur.rows if r not in new[s].rows] + list(new[s].rows)
            cells = {(r, c): (new[s].at(r, c) if r in new[s].rows else cur.at(r, c)) for r in rows for c in cur.cols}
            nxt[s] = Book(rows, list(cur.cols), cells, cur.series, cur.name)
        exp = nxt
        for s in syms:
            compare(ctx, d.data[s], exp[s], f"{msg} update {t} [{s}] window {a}..{a + length}")
            ctx.check(not exp[s].series or d.data[s].name == before[s][0].name, f"{msg}: series renamed to {getattr(d.data[s], 'name', None)!r}")
            ctx.check(old.data[s] is before[s][0] and old.data[s].equals(before[s][1]), f"{msg}: update changed the old object")
            if dated:
                check_tz(ctx, d.data[s].index, conv, msg)
        e0 = next(iter(exp.values()))
        ctx.check(list(d.wrapper.index) == e0.rows, f"{msg}: wrapper index {list(d.wrapper.index)}")
        ctx.check(list(d.wrapper.columns) == list(old.wrapper.columns) and d.wrapper.freq == old.wrapper.replace(index=d.wrapper.index).freq, f"{msg}: wrapper settings")
        ctx.check(d.symbols == syms and d.download_kwargs == old.download_kwargs and (d.tz_localize, d.tz_convert, d.missing_index, d.missing_columns) == (old.tz_localize, old.tz_convert, old.missing_index, old.missing_columns), f"{msg}: settings lost")
        last = max(moved_pool.index(r) for r in e0.rows) if dated else int(max(e0.rows))
        if last > total - 6:
            break
        history.append(len(e0.rows))
        ctx.seen("updates")
    ctx.nontrivial(len(syms), ser, mi, dated, tuple(history))


@monitor(weight=1)
def update_refused(ctx):
    """An update whose symbols mismatch under 'raise' fails and leaves the object alone; unimplemented sources raise."""
    rng = ctx.rng
    SCRIPT.clear()
    LOG.clear()
    rows = [BASE + pd.Timedelta(days=i) for i in range(6)]
    for s in ("a", "b"):
        SCRIPT[s] = [draw_book(rng, rows[:3], ["x", "y"], False, subset=False, col_subset=False).build()]
    d = Fake.download(["a", "b"], missing_index="raise", missing_columns="raise")
    keep = {s: v.copy() for s, v in d.data.items()}
    SCRIPT["a"].append(draw_book(rng, rows[2:5], ["x", "y"], False, subset=False, col_subset=False).build())
    SCRIPT["b"].append(draw_book(rng, rows[2:4], ["x", "y"], False, subset=False, col_subset=False).build())
    ctx.raises(ValueError, d.update, msg="mismatching update")
    SCRIPT["b"][1] = draw_book(rng, rows[2:5], ["x"], False, subset=False, col_subset=False).build()
    ctx.raises(ValueError, d.update, msg="mismatching columns of an update")
    ctx.check(all(d.data[s].equals(keep[s]) for s in d.symbols), "failed update changed the data")
    ctx.raises(NotImplementedError, vbt.Data.download, "a", msg="download of the base class")
    ctx.raises(NotImplementedError, vbt.Data.from_data({"a": keep["a"]}).update, msg="update of the base class")
    if rng.random() < 0.5:
        ctx.raises(AssertionError, Fake, d.wrapper, {"a": keep["a"], "b": keep["b"].iloc[1:]}, None, None, "nan", "nan", msg="data of different shapes")
    ctx.seen("refused updates")
    ctx.nontrivial(ctx.case[-1])


# ------------------------------------------------------------------ retrieval
@monitor(weight=4)
def retrieve(ctx):
    """concat, get and pandas-style selection return the same cells per symbol."""
    rng = ctx.rng
    syms = draw_symbols(rng)
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    ser = rng.random() < 0.3
    cols = pick(rng, [["o", "h", "c"], [0, 1, 2], ["z", "y", "x"]])[:m]
    ix = pick(rng, [pd.date_range("2020", periods=n, tz="UTC"), pd.RangeIndex(n), pd.Index([f"r{i}" for i in range(n)])])
    kind = pick(rng, ["float", "int", "bool", "mixed"])
    objs = {}
    for s in syms:
        a = rng.integers(-50, 50, (n, m))
        a = a.astype(float) if kind in ("float", "mixed") else a > 0 if kind == "bool" else a
        if kind == "float":
            a = np.where(rng.random(a.shape) < 0.2, NAN, a)
        o = pd.Series(a[:, 0], index=ix, name=pick(rng, [None]) if ser else None) if ser else pd.DataFrame(a, index=ix, columns=cols)
        if kind == "mixed" and not ser:
            o[cols[0]] = o[cols[0]].astype(int)
        objs[s] = o
    wk = {}
    gb = None
    if not ser and m > 1 and rng.random() < 0.3:
        gb = wk["group_by"] = sorted(int(x) for x in rng.integers(0, 2, m))
    elif not ser and m > 1 and rng.random() < 0.3:
        wk["column_only_select"] = True
    d = vbt.Data.from_data(objs, wrapper_kwargs=wk)
    ref = d.data
    lv = pick(rng, ["symbol", "asset"])
    out = d.concat(**({} if lv == "symbol" else dict(level_name=lv)))
    keys = [None] if ser else cols
    ctx.check(list(out) == keys, f"concat keys {list(out)}")
    for c in keys:
        o = out[c]
        if len(syms) == 1:
            ctx.check(isinstance(o, pd.Series) and o.name == syms[0], f"concat of one symbol: {type(o).__name__} {o.name}")
            parts = [o]
        else:
            ctx.check(isinstance(o, pd.DataFrame) and list(o.columns) == syms and (o.columns.name == lv or isinstance(o.columns, pd.MultiIndex)), f"concat columns {o.columns}")
            parts = [o.iloc[:, j] for j in range(len(syms))]
        ctx.check(list(o.index) == list(ref[syms[0]].index), "concat index")
        for s, p in zip(syms, parts):
            src = ref[s] if ser else ref[s][c]
            ctx.check(np.array_equal(p.values, src.values, equal_nan=p.values.dtype.kind == "f" and src.values.dtype.kind == "f"), f"concat {c} of {s}: {p.values} instead of {src.values}")
            ctx.check(p.dtype == src.dtype, f"concat {c} of {s}: dtype {p.dtype} instead of {src.dtype}")
            ctx.seen("concatenated columns")
    g = d.get()
    if len(syms) == 1:
        ctx.check(g.equals(ref[syms[0]]), "get of one symbol")
        if not ser:
            ctx.check(d.get(cols[0]).equals(ref[syms[0]][cols[0]]) and d.get(column=cols[::-1]).equals(ref[syms[0]][cols[::-1]]), "get of columns of one symbol")
    elif ser or m == 1:
        ctx.check(isinstance(g, pd.DataFrame) and g.equals(d.concat()[keys[0]]), "get of one column of several symbols")
    else:
        ctx.check(isinstance(g, tuple) and len(g) == m and all(x.equals(d.concat()[c]) for x, c in zip(g, cols)), "get of several columns")
        ctx.check(d.get(cols[-1]).equals(d.concat()[cols[-1]]), "get of a column")
        back = d.get(list(cols[::-1]))
        ctx.check(isinstance(back, tuple) and all(x.equals(d.concat()[c]) for x, c in zip(back, cols[::-1])), "get of a list of columns")
    # selection
    a = int(rng.integers(n))
    b = int(rng.integers(a + 1, n + 1))
    j = int(rng.integers(m))
    js = [int(x) for x in rng.permutation(m)[:int(rng.integers(1, m + 1))]]
    cells = {s: np.asarray(ref[s], dtype=float).reshape(n, -1) for s in syms}
    if "column_only_select" in wk:
        one, got = pick(rng, [(True, d[cols[j]]), (True, d.iloc[j]), (False, d.iloc[js]), (False, d[[cols[x] for x in js]])])
        want = {s: (cells[s][:, j] if one else cells[s][:, js]) for s in syms}
        wc = [cols[j]] if one else [cols[x] for x in js]
    elif gb is not None:
        if n == 1:
            raise Skip
        order = list(dict.fromkeys(gb))
        q = pick(rng, order)
        mem = [x for x in range(m) if gb[x] == q]
        got = d[q] if len(order) > 1 else d.iloc[a:b]
        if len(order) > 1:
            one = len(mem) == 1
            want = {s: (cells[s][:, mem[0]] if one else cells[s][:, mem]) for s in syms}
            wc = [cols[x] for x in mem]
        else:
            one, wc = False, list(cols)
            want = {s: cells[s][a:b] for s in syms}
    elif ser:
        got, one, wc = d.iloc[a:b], True, None
        want = {s: cells[s][a:b, 0] for s in syms}
    else:
        k = pick(rng, ["rows", "col", "cols", "both", "label", "labels", "mask"])
        mask = rng.random(n) < 0.6
        mask[int(rng.integers(n))] = True
        one = k in ("col", "label")
        wc = list(cols) if k in ("rows", "mask") else [cols[j]] if one else [cols[x] for x in js]
        got = {"rows": lambda: d.iloc[a:b], "col": lambda: d.iloc[:, j], "cols": lambda: d.iloc[:, js], "both": lambda: d.iloc[a:b, js], "label": lambda: d[cols[j]], "labels": lambda: d.loc[:, [cols[x] for x in js]], "mask": lambda: d.loc[mask]}
        if k == "col" and n == 1 or k == "label" and n == 1:
            raise Skip
        got = got[k]()
        want = {s: {"rows": cells[s][a:b], "col": cells[s][:, j], "cols": cells[s][:, js], "both": cells[s][a:b][:, js], "label": cells[s][:, j], "labels": cells[s][:, js], "mask": cells[s][mask]}[k] for s in syms}
    ctx.check(got.symbols == syms and type(got) is type(d), "selection keeps the symbols")
    for s in syms:
        v = got.data[s]
        ctx.check(np.array_equal(np.asarray(v, dtype=float), want[s], equal_nan=True), f"selected cells of {s}: {np.asarray(v).tolist()} instead of {want[s].tolist()} ({wk})")
        ctx.check(list(v.index) == list(got.wrapper.index) and (v.ndim == got.wrapper.ndim), "selected data and wrapper disagree")
        if wc is not None:
            ctx.check((list(v.columns) if v.ndim == 2 else [v.name]) == wc and list(got.wrapper.columns) == wc, f"selected labels {list(got.wrapper.columns)} instead of {wc}")
        ctx.check(d.data[s] is ref[s], "selection changed the source")
        ctx.seen("selected cells", int(v.size))
    ctx.check(got.tz_convert == d.tz_convert and got.missing_index == d.missing_index, "selection keeps the settings")
    ctx.nontrivial(len(syms), m, ser, kind, tuple(wk), n)


@monitor(weight=1)
def symbol_kwargs(ctx):
    rng = ctx.rng
    syms = ["a", "b", ("x", 1), 4]
    kw, want = {}, {s: {} for s in syms}
    for i in range(int(rng.integers(0, 5))):
        k = f"k{i}"
        t = pick(rng, ["plain", "dict", "per"])
        if t == "per":
            v = {s: (s, i) for s in syms if rng.random() < 0.5}
            kw[k] = vbt.symbol_dict(v)
            for s in v:
                want[s][k] = v[s]
        else:
            kw[k] = {"a": 1} if t == "dict" else i
            for s in syms:
                want[s][k] = kw[k]
    keep = dict(kw)
    for s in syms:
        ctx.check(vbt.Data.select_symbol_kwargs(s, kw) == want[s], f"arguments of {s}: {vbt.Data.select_symbol_kwargs(s, kw)} instead of {want[s]}")
    ctx.check(kw == keep, "arguments changed")
    ctx.raises(TypeError, Fake.download, {"a": 1}, msg="symbols must be hashable or a sequence")
    ctx.seen("argument selections")
    ctx.nontrivial(str(kw))


# ------------------------------------------------------------------ sources
class Exchange:
    """An exchange with gaps, pages and transient failures."""

    def __init__(self, rng, n, ms):
        t0 = 1577836800000
        keep = rng.random(n) < 0.85
        self.ts = [t0 + i * ms for i in range(n) if keep[i]]
        self.row = {t: [t] + [round(float(rng.uniform(1, 9)), 3) for _ in range(5)] for t in self.ts}
        self.calls = 0
        self.fail = 0
        self.rng = rng
        self.error = RuntimeError
        self.visible = None

    def page(self, since, limit, end=None):
        self.calls += 1
        if self.calls > 500:
            raise Skip
        if self.fail and self.rng.random() < 0.4:
            self.fail -= 1
            raise self.error("hiccup")
        ts = [t for t in self.ts if t >= (since or 0) and (end is None or t <= end) and (self.visible is None or t <= self.visible)]
        return [self.row[t] for t in ts[:limit]]


class FakeBinance:
    def __init__(self, ex):
        self.ex = ex
        self.seen = []

    def get_klines(self, symbol, interval, limit, startTime, endTime=None):
        self.seen.append((symbol, interval, limit))
        return [[r[0]] + [str(x) for x in r[1:]] + [r[0] + 59999, "1.5", 7, "2.5", "3.5", "0"] for r in self.ex.page(startTime, limit, endTime)]


class FakeCCXT:
    has = {"fetchOHLCV": True}
    timeframes = {"1m": 1, "1h": 2}

    def __init__(self, ex):
        self.ex = ex
        self.seen = []

    def fetch_ohlcv(self, symbol, timeframe, since, limit, params):
        self.seen.append((symbol, timeframe, limit, dict(params)))
        return [list(r) for r in self.ex.page(since, limit)]


@monitor(weight=3)
def exchanges(ctx):
    """Paged sources return every candle in [start, end) exactly once; updates continue them."""
    rng = ctx.rng
    kind = pick(rng, ["binance", "ccxt"])
    ms = pick(rng, [60000, 3600000])
    n = int(rng.integers(3, 40))
    ex = Exchange(rng, n, ms)
    if len(ex.ts) < 3:
        raise Skip
    limit = int(rng.integers(2, 12))
    a, b = sorted(int(x) for x in rng.integers(0, len(ex.ts), 2))
    if b <= a:
        b = a + 1
    if b >= len(ex.ts):
        raise Skip
    before = rng.random() < 0.3
    start = 0 if before else ex.ts[a] - int(rng.integers(0, 2)) * (ms // 2)
    end = ex.ts[b] + int(rng.integers(0, 2)) * (ms // 2)
    start_, end_ = (start, pd.Timestamp(end, unit="ms", tz="UTC") if rng.random() < 0.5 else end)
    exp = [t for t in ex.ts if start <= t < end]
    if not exp:
        raise Skip
    sym = "BTC/USDT"
    tf = {60000: "1m", 3600000: "1h"}[ms]
    with quiet():
        if kind == "binance":
            cl = FakeBinance(ex)
            d = vbt.BinanceData.download(sym, client=cl, interval=tf, start=start_, end=end_, limit=limit, delay=None, show_progress=False)
            ctx.check(all(x[:2] == (sym, tf) for x in cl.seen) and {x[2] for x in cl.seen[1:]} == {limit}, f"requests {set(cl.seen)}")
        else:
            import ccxt
            ex.error = ccxt.NetworkError
            ex.fail = 2 if rng.random() < 0.5 else 0
            cl = FakeCCXT(ex)
            d = vbt.CCXTData.download(sym, exchange=cl, timeframe=tf, start=start_, end=end_, limit=limit, delay=None, retries=3, show_progress=False, params=dict(q=1))
            ctx.check(all(x[:2] == (sym, tf) and x[3] == {"q": 1} for x in cl.seen), "requests")

    def check(d, exp, what):
        df = d.data[sym]
        got = [int(t.timestamp() * 1000 + 0.5) for t in df.index]
        ctx.check(got == exp, f"{kind} {what} start {start} end {end} limit {limit}: candles {got} instead of {exp}")
        for j, c in enumerate(["Open", "High", "Low", "Close", "Volume"]):
            ctx.check(df[c].tolist() == [ex.row[t][j + 1] for t in exp], f"{kind} {what}: {c} differs")
        ctx.check(df.index.tz is not None, "time zone")
        ctx.seen("candles", len(exp))
    check(d, exp, "download")
    # later the exchange knows more
    c2 = int(rng.integers(b, len(ex.ts)))
    end2 = ex.ts[c2] + 1
    lastk = exp[-1]
    ex.row[lastk] = [lastk] + [round(float(rng.uniform(1, 9)), 3) for _ in range(5)]
    exp2 = exp[:-1] + [t for t in ex.ts if lastk <= t < end2]
    ex.fail = 0
    with quiet():
        d2 = d.update(end=end2)
    check(d2, exp2, "update")
    ctx.seen("updates of sources")
    ctx.nontrivial(kind, n, limit, len(exp), len(exp2), before)


@monitor(weight=1)
def feeds(ctx):
    """Yahoo and Alpaca adapters hand their arguments on and return the feed's rows."""
    rng = ctx.rng
    import yfinance
    n = int(rng.integers(3, 8))
    ix = pd.date_range("2020-01-06", periods=n, tz="America/Phoenix")
    full = pd.DataFrame(np.round(rng.uniform(1, 9, (n, 2)), 2), index=ix, columns=["Open", "Close"])
    calls = []

    class Ticker:
        def __init__(self, symbol, **kw):
            calls.append(("ticker", symbol, kw))

        def history(self, period=None, start=None, end=None, **kw):
            calls.append((period, start, end, kw))
            return full.loc[(full.index >= start if start is not None else True) & (full.index < end if end is not None else True)] if (start is not None or end is not None) else full
    old = yfinance.Ticker
    yfinance.Ticker = Ticker
    try:
        k = int(rng.integers(1, n))
        with quiet():
            d = vbt.YFData.download("S", end=ix[k], ticker_kwargs=dict(session=1), extra=4)
        ctx.check(calls[0] == ("ticker", "S", {"session": 1}) and calls[1][0] == "max" and calls[1][1] is None and calls[1][2] == ix[k] and calls[1][3] == {"extra": 4}, f"requests {calls}")
        ctx.check(list(d.data["S"].index) == list(ix[:k]) and np.array_equal(d.data["S"].values, full.values[:k]), "rows of the feed")
        with quiet():
            d2 = d.update(end=None)
        ctx.check(calls[-1][1] == ix[k - 1] and calls[-1][3] == {"extra": 4}, f"update asks from {calls[-1]}")
        ctx.check(list(d2.data["S"].index) == list(ix) and np.array_equal(d2.data["S"].values, full.values), "rows after the update")
    finally:
        yfinance.Ticker = old
    ctx.seen("feed requests", len(calls))
    ctx.nontrivial(n, k)


@monitor(weight=2)
def synthetic(ctx):
    """Synthetic data covers the requested dates, is reproducible and continues when updated."""
    rng = ctx.rng
    n = int(rng.integers(1, 8))
    S0, mu = float(rng.integers(10, 200)), float(pick(rng, [0.0, 0.01, -0.02]))
    start = pd.Timestamp("2020-01-01", tz="UTC")
    end = start + pd.Timedelta(days=n - 1)
    I = int(pick(rng, [1, 1, 3]))
    fmt = pick(rng, ["ts", "str"])
    a, b = (start, end) if fmt == "ts" else (str(start), str(end))
    d = vbt.GBMData.download("g", start=a, end=b, freq="1D", S0=S0, mu=mu, sigma=0.0, I=I)
    x = d.data["g"]
    dates = [start + pd.Timedelta(days=i) for i in range(n)]
    ctx.check(list(x.index) == dates and (x.ndim == 1 if I == 1 else x.shape == (n, I)), f"dates {list(x.index)}")
    path = [S0 * np.exp(mu * (i + 1)) for i in range(n)]
    cols = x.values.reshape(n, -1)
    ctx.eq(cols, np.repeat(np.array(path)[:, None], I, 1), f"deterministic path from {S0} with drift {mu}")
    more = int(rng.integers(0, 4))
    d2 = d.update(end=str(end + pd.Timedelta(days=more)))
    full = [S0 * np.exp(mu * (i + 1)) for i in range(n + more)]
    y = d2.data["g"]
    ctx.check(list(y.index) == [start + pd.Timedelta(days=i) for i in range(n + more)], f"dates after the update {list(y.index)}")
    ctx.eq(y.values.reshape(n + more, -1), np.repeat(np.array(full)[:, None], I, 1), f"path after the update ({n}+{more} rows, {I} paths)")
    s = int(rng.integers(1000))
    kw = dict(start=a, end=b, freq="1D", S0=S0, mu=mu, sigma=0.1, seed=s)
    p, q = vbt.GBMData.download("g", **kw).get(), vbt.GBMData.download("g", **kw).get()
    ctx.check(p.equals(q) and bool((p > 0).all()), "same seed, same path")
    st = np.random.RandomState(s)
    ref = S0 * np.exp(np.cumsum([(mu - 0.005) + 0.1 * st.standard_normal(1)[0] for _ in range(n)]))
    ctx.eq(p.values, ref, "geometric Brownian path of the seed")
    two = vbt.GBMData.download(["g", "h"], start=a, end=b, freq="1D", S0=vbt.symbol_dict(g=S0, h=2 * S0), sigma=0.0).get()
    ctx.eq(two["h"].values, 2 * two["g"].values, "per-symbol start value")
    ctx.raises(ValueError, vbt.GBMData.download, "g", start="2020-01-02", end="2020-01-01", freq="1D", msg="empty date range")
    ctx.seen("synthetic rows", n + more)
    ctx.nontrivial(n, more, I, mu, S0)
