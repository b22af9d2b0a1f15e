"""S01: generated and cleaned signals obey alternation, window and wait rules."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from numba import njit
from vectorbt.signals.factory import SignalFactory
from vt import gen
from vt.core import monitor, Skip
from vt.gen import pick


@njit
def table_choice(from_i, to_i, col, table, calls, cnt, shift):
    """All rows of the window marked in the table (plus a deliberate offset); logs every call."""
    k = cnt[0]
    calls[k, 0] = from_i
    calls[k, 1] = to_i
    calls[k, 2] = col
    cnt[0] = k + 1
    m = 0
    for i in range(from_i, to_i):
        if table[i, col]:
            m += 1
    out = np.full(m, 0, dtype=np.int64)
    m = 0
    for i in range(from_i, to_i):
        if table[i, col]:
            out[m] = i + shift
            m += 1
    return out


class Log:
    def __init__(self, n, c):
        self.calls = np.full((4 * (n + 2) * c + 8, 3), -1, dtype=np.int64)
        self.cnt = np.zeros(1, dtype=np.int64)

    def args(self, table, shift=0):
        return table, self.calls, self.cnt, shift

    def got(self):
        return [tuple(int(x) for x in r) for r in self.calls[:self.cnt[0]]]


def marked(table, lo, hi, col):
    return [i for i in range(lo, hi) if table[i, col]]


def ref_generate(table, first):
    out = np.zeros(table.shape, bool)
    calls = []
    for col in range(table.shape[1]):
        calls.append((0, table.shape[0], col))
        ix = marked(table, 0, table.shape[0], col)
        out[ix[:1] if first else ix, col] = True
    return out, calls


def ref_exits(entries, table, wait, until_next, skip, first):
    n = len(entries)
    out = np.zeros(entries.shape, bool)
    calls = []
    for col in range(entries.shape[1]):
        rows = [i for i in range(n) if entries[i, col]]
        last = -1
        for k, e in enumerate(rows):
            if skip and e <= last:
                continue
            lo, hi = e + wait, (rows[k + 1] if until_next and k + 1 < len(rows) else n)
            if lo >= hi:
                continue
            calls.append((lo, hi, col))
            ix = marked(table, lo, hi, col)
            ix = ix[:1] if first else ix
            if ix:
                out[ix, col] = True
                last = ix[-1]
            elif skip and not until_next:
                last = n       # never left: no later entry is processed
    return out, calls


def ref_both(n, te, tx, ew, xw, ef, xf):
    c = te.shape[1]
    en, ex = np.zeros((n, c), bool), np.zeros((n, c), bool)
    calls_e, calls_x = [], []
    for col in range(c):
        last, turn = None, 0
        while True:
            lo = 0 if last is None else last + (xw if turn else ew)
            if lo >= n:
                break
            (calls_x if turn else calls_e).append((lo, n, col))
            ix = marked(tx if turn else te, lo, n, col)
            first = xf if turn else ef
            ix = ix[:1] if first else ix
            if not ix:
                break
            (ex if turn else en)[ix, col] = True
            last = ix[-1]
            turn = 1 - turn
    return en, ex, calls_e, calls_x


def draw(ctx, p=None):
    rng = ctx.rng
    n, c = int(rng.integers(1, 16)), int(rng.integers(1, 5))
    return n, c


def dens(rng):
    return pick(rng, [0.0, 0.1, 0.3, 0.5, 0.8, 1.0])


def table(rng, n, c):
    return np.column_stack([rng.random(n) < dens(rng) for _ in range(c)])


def wrap(rng, a, idx=None, cols=None):
    n, c = a.shape
    idx = gen.dt_index(rng, n, "D") if idx is None else idx
    if c == 1 and rng.random() < 0.5:
        return pd.Series(a[:, 0], index=idx, name=pick(rng, [None, "x"]))
    return pd.DataFrame(a, index=idx, columns=gen.columns(rng, c) if cols is None else cols)


def v2(o):
    v = o.values
    return v[:, None] if v.ndim == 1 else v


def same_axes(ctx, got, like, what):
    ctx.check(type(got) is type(like), f"{what}: a {type(got).__name__} instead of a {type(like).__name__}")
    ctx.check(got.index.equals(like.index), f"{what}: index changed")
    if isinstance(like, pd.DataFrame):
        ctx.check(got.columns.equals(like.columns), f"{what}: columns {list(got.columns)} instead of {list(like.columns)}")
    else:
        ctx.check(got.name == like.name, f"{what}: name {got.name} instead of {like.name}")
    ctx.check(v2(got).dtype == bool, f"{what}: dtype {v2(got).dtype}")


@monitor(weight=3, modes=("pure", "jit"))
def m_generate(ctx):
    rng = ctx.rng
    n, c = draw(ctx)
    t = table(rng, n, c)
    first = bool(rng.random() < 0.5)
    idx = gen.dt_index(rng, n, "D")
    exp, calls = ref_generate(t, first)
    log = Log(n, c)
    sh = 0 if rng.random() < 0.85 else int(pick(rng, [-1, 1, n, -n - 1]))
    series = c == 1 and rng.random() < 0.5
    acc = pd.Series.vbt.signals if series else pd.DataFrame.vbt.signals
    shape = pick(rng, [n, (n,), (n, 1)]) if c == 1 else (n, c)

    def run():
        return acc.generate(shape, table_choice, *log.args(t, sh), **gen.omit(rng, dict(pick_first=first), dict(pick_first=False)), index=idx)

    if not series and c > 1 and rng.random() < 0.1:
        ctx.raises(ValueError, lambda: pd.Series.vbt.signals.generate((n, c), table_choice, *log.args(t), index=idx), msg="series of several columns")
        ctx.seen("rejected")
        return
    if sh:
        bad = any((i + sh < 0 or i + sh >= n) for col in range(c) for i in (marked(t, 0, n, col)[:1] if first else marked(t, 0, n, col)))
        if bad:
            ctx.raises(ValueError, run, msg="index outside of the window")
            ctx.seen("rejected")
            return
        exp = np.zeros((n, c), bool)
        for col in range(c):
            ix = [i + sh for i in marked(t, 0, n, col)]
            exp[ix[:1] if first else ix, col] = True
    got = run()
    ctx.eq(v2(got), exp, "generated signals")
    ctx.check(got.index.equals(idx), "generate: index")
    ctx.check(isinstance(got, pd.Series) == series, "generate: type")
    ctx.check(log.got() == calls, f"choice function called for {log.got()} instead of {calls}")
    ctx.seen("generated", int(exp.sum()))
    ctx.nontrivial(n, c, first, int(exp.sum()))


@monitor(weight=5, modes=("pure", "jit"))
def m_exits(ctx):
    rng = ctx.rng
    n, c = draw(ctx)
    en, t = table(rng, n, c), table(rng, n, c)
    o = wrap(rng, en)
    wait = int(pick(rng, [0, 1, 1, 2, 3, n]))
    until, skip, first = (bool(rng.random() < 0.5) for _ in range(3))
    exp, calls = ref_exits(en, t, wait, until, skip, first)
    log = Log(n, n * c)
    kw = gen.omit(rng, dict(wait=wait, until_next=until, skip_until_exit=skip, pick_first=first), dict(wait=1, until_next=True, skip_until_exit=False, pick_first=False))
    acc = o.vbt.signals(group_by=rng.integers(0, 2, c)) if isinstance(o, pd.DataFrame) and rng.random() < 0.2 else o.vbt.signals
    sh = 0 if rng.random() < 0.9 else int(pick(rng, [-n, n]))

    def run():
        return acc.generate_exits(table_choice, *log.args(t, sh), **kw)

    if sh:
        if exp.any():
            ctx.raises(ValueError, run, msg="exit outside of the window")
            ctx.seen("rejected")
        return
    got = run()
    ctx.eq(v2(got), exp, "generated exits", wait=wait, until_next=until, skip=skip, pick_first=first)
    same_axes(ctx, got, o, "generate_exits")
    ctx.check(log.got() == calls, f"choice function called for {log.got()[:12]} instead of {calls[:12]}")
    ctx.eq(v2(o), en, "entries were changed")
    if wait == 0:
        ctx.seen("wait0")
    if skip and not until:
        ctx.seen("skip")
    ctx.seen("exits", int(exp.sum()))
    ctx.nontrivial(n, wait, until, skip, first, int(exp.sum()))


@monitor(weight=5, modes=("pure", "jit"))
def m_both(ctx):
    rng = ctx.rng
    n, c = draw(ctx)
    te, tx = table(rng, n, c), table(rng, n, c)
    ew, xw = int(pick(rng, [0, 1, 1, 2, 3])), int(pick(rng, [0, 1, 1, 2, 3]))
    ef, xf = bool(rng.random() < 0.6), bool(rng.random() < 0.6)
    series = c == 1 and rng.random() < 0.5
    acc = pd.Series.vbt.signals if series else pd.DataFrame.vbt.signals
    le, lx = Log(n, c), Log(n, c)
    kw = gen.omit(rng, dict(entry_wait=ew, exit_wait=xw, entry_pick_first=ef, exit_pick_first=xf), dict(entry_wait=1, exit_wait=1, entry_pick_first=True, exit_pick_first=True))
    she = 0 if rng.random() < 0.95 else -n
    idx = gen.dt_index(rng, n, "D")

    def run():
        return acc.generate_both(pick(rng, [n, (n,), (n, 1)]) if c == 1 else (n, c), entry_choice_func=table_choice, entry_args=le.args(te, she),
                                 exit_choice_func=table_choice, exit_args=lx.args(tx), index=idx, **kw)

    if ew == 0 and xw == 0:
        ctx.raises(ValueError, run, msg="both waits zero")
        ctx.seen("rejected")
        return
    exp_e, exp_x, ce, cx = ref_both(n, te, tx, ew, xw, ef, xf)
    if she:
        if exp_e.any():
            ctx.raises(ValueError, run, msg="entry outside of the window")
            ctx.seen("rejected")
        return
    en, ex = run()
    ctx.check(isinstance(en, pd.Series) == series and en.index.equals(idx) and ex.index.equals(idx), "generate_both: axes")
    ctx.eq(v2(en), exp_e, "entries", waits=(ew, xw), first=(ef, xf))
    ctx.eq(v2(ex), exp_x, "exits", waits=(ew, xw), first=(ef, xf))
    ctx.check(le.got() == ce and lx.got() == cx, f"choice functions called for {le.got()[:8]} {lx.got()[:8]} instead of {ce[:8]} {cx[:8]}")
    if ef and xf:
        for col in range(c):
            ev = sorted([(i, 0) for i in np.flatnonzero(v2(en)[:, col])] + [(i, 1) for i in np.flatnonzero(v2(ex)[:, col])], key=lambda z: (z[0], (z[1] == 0) == (xw > 0) and z[1] == 0))
            ne, nx = int(v2(en)[:, col].sum()), int(v2(ex)[:, col].sum())
            ctx.check(nx in (ne, ne - 1), f"{ne} entries and {nx} exits do not alternate")
            e_rows, x_rows = np.flatnonzero(v2(en)[:, col]), np.flatnonzero(v2(ex)[:, col])
            for k, x in enumerate(x_rows):
                ctx.check(x - e_rows[k] >= xw, f"exit {x} less than {xw} bars after entry {e_rows[k]}")
                if k + 1 < ne:
                    ctx.check(e_rows[k + 1] - x >= ew, f"entry {e_rows[k+1]} less than {ew} bars after exit {x}")
            ctx.seen("pairs", nx)
    ctx.nontrivial(n, ew, xw, ef, xf, int(exp_e.sum()), int(exp_x.sum()))


def ref_clean(e, x, entry_first):
    n, c = e.shape
    oe, ox = np.zeros((n, c), bool), np.zeros((n, c), bool)
    for k in range(c):
        want = "e" if entry_first else "any"
        for i in range(n):
            if e[i, k] == x[i, k]:
                continue
            if e[i, k] and want in ("e", "any"):
                oe[i, k] = True
                want = "x"
            elif x[i, k] and want in ("x", "any"):
                ox[i, k] = True
                want = "e"
    return oe, ox


def firsts(a):
    prev = np.vstack([np.zeros((1, a.shape[1]), bool), a[:-1]])
    return a & ~prev


@monitor(weight=4, modes=("pure", "jit"))
def m_clean(ctx):
    rng = ctx.rng
    n, c = draw(ctx)
    e, x = table(rng, n, c), table(rng, n, c)
    idx = gen.dt_index(rng, n, "D")
    cols = gen.columns(rng, c)
    oe = pd.DataFrame(e, index=idx, columns=cols)
    if rng.random() < 0.25:
        got = oe.vbt.signals.clean() if rng.random() < 0.5 else pd.DataFrame.vbt.signals.clean(pick(rng, [oe, e]))
        ctx.eq(v2(got), firsts(e), "cleaning one array keeps the first signal of each run")
        if rng.random() < 0.2:
            ctx.raises(ValueError, lambda: oe.vbt.signals.clean(oe, oe), msg="three arrays")
        ctx.seen("clean_one")
        return
    first = bool(rng.random() < 0.6)
    form = pick(rng, ["frame", "raw", "series", "row"])
    if form == "series":
        x = np.repeat(x[:, :1], c, 1)
        ox = pd.Series(x[:, 0], index=idx)
    elif form == "row":
        x = np.repeat(x[:1], n, 0)
        ox = x[:1]
    elif form == "raw":
        ox = x
    else:
        ox = pd.DataFrame(x, index=idx, columns=cols)
    exp = ref_clean(e, x, first)
    if rng.random() < 0.5:
        got = oe.vbt.signals.clean(ox, entry_first=first)
    else:
        got = pd.DataFrame.vbt.signals.clean(oe, ox, entry_first=first)
    for g, w, name in zip(got, exp, ("entries", "exits")):
        ctx.eq(v2(g), w, f"cleaned {name}", entry_first=first, form=form)
        ctx.check(g.index.equals(idx) and g.columns.equals(cols if isinstance(cols, pd.Index) else pd.Index(cols)), "clean: axes")
    again = got[0].vbt.signals.clean(got[1], entry_first=first)
    ctx.eq(v2(again[0]), exp[0], "cleaning twice changes the entries")
    ctx.eq(v2(again[1]), exp[1], "cleaning twice changes the exits")
    if c == 1:
        ge, gx = oe.iloc[:, 0].vbt.signals.clean(pd.Series(x[:, 0], index=idx), entry_first=first)
        ctx.eq(ge.values, exp[0][:, 0], "cleaned series")
        ctx.eq(gx.values, exp[1][:, 0], "cleaned series")
    ctx.seen("cleaned", int(exp[0].sum() + exp[1].sum()))
    if (e & x).any():
        ctx.seen("conflicts")
    ctx.nontrivial(n, c, first, form, int(exp[0].sum()))


@monitor(weight=2)
def m_logic(ctx):
    """Shifts, logical combination, counts."""
    rng = ctx.rng
    n, c = draw(ctx)
    a, b = table(rng, n, c), table(rng, n, c)
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    oa = pd.DataFrame(a, index=idx, columns=cols) if c > 1 or rng.random() < 0.5 else pd.Series(a[:, 0], index=idx)
    s = int(rng.integers(-n - 1, n + 2))
    for name, k in (("fshift", s), ("bshift", -s)):
        exp = np.zeros((n, c), bool)
        for i in range(n):
            if 0 <= i - k < n:
                exp[i] = a[i - k]
        got = getattr(oa.vbt.signals, name)(s)
        ctx.eq(v2(got), exp, f"{name}({s})")
        same_axes(ctx, got, oa, name)
    form = pick(rng, ["same", "raw", "series", "scalar"])
    if form == "series":
        b = np.repeat(b[:, :1], c, 1)
        ob = pd.Series(b[:, 0], index=idx)
    elif form == "scalar":
        ob = bool(rng.random() < 0.5)
        b = np.full((n, c), ob)
    elif form == "raw":
        ob = b if isinstance(oa, pd.DataFrame) else b[:, 0]
    else:
        ob = oa.copy()
        ob[:] = b if isinstance(oa, pd.DataFrame) else b[:, 0]
        ob = ob.astype(bool)
    grouped = isinstance(oa, pd.DataFrame) and rng.random() < 0.3
    acc = oa.vbt.signals(group_by=rng.integers(0, 2, c)) if grouped else oa.vbt.signals
    for name, f in (("AND", np.logical_and), ("OR", np.logical_or), ("XOR", np.logical_xor)):
        got = getattr(acc, name)(ob)
        ctx.eq(v2(got), f(a, b), f"{name} with {form}")
        ctx.check(got.index.equals(idx), f"{name}: index")
        if isinstance(oa, pd.DataFrame):
            ctx.check(got.columns.equals(oa.columns), f"{name}: columns")
        d = table(rng, n, c)
        od = oa.copy()
        od[:] = d if isinstance(oa, pd.DataFrame) else d[:, 0]
        od = od.astype(bool)
        if form == "same":
            got = getattr(acc, name)([ob, od])
            ctx.eq(v2(got), f(f(a, b), d), f"{name} with two arrays")
    ctx.eq(np.asarray(oa.vbt.signals.total()).reshape(-1), a.sum(0), "total")
    if n:
        ctx.eq(np.asarray(oa.vbt.signals.rate()).reshape(-1), a.sum(0) / n, "rate")
    fill = bool(rng.random() < 0.5)
    em = pd.DataFrame.vbt.signals.empty((n, c), fill_value=fill)
    ctx.check((em.values == fill).all() and em.values.dtype == bool and em.shape == (n, c), "empty signals")
    el = pd.DataFrame.vbt.signals.empty_like(oa, fill_value=fill)
    ctx.check((el.values == fill).all() and v2(el).dtype == bool and el.index.equals(idx), "empty_like signals")
    if rng.random() < 0.1:
        ctx.raises(TypeError if False else Exception, lambda: oa.astype(float).vbt.signals, msg="non-boolean signals")
    ctx.seen("logic")
    ctx.nontrivial(n, c, form)


@njit
def mod_choice(from_i, to_i, col, t, k, off):
    """Rows whose value leaves the remainder `off` modulo k."""
    m = 0
    for i in range(from_i, to_i):
        if t[i, col] % k == off:
            m += 1
    out = np.full(m, 0, dtype=np.int64)
    m = 0
    for i in range(from_i, to_i):
        if t[i, col] % k == off:
            out[m] = i
            m += 1
    return out


FACT = {}


def factory(mode, loop):
    if (mode, loop) not in FACT:
        es = dict(pass_inputs=["t"], pass_params=["k"], pass_kwargs=["off"])
        xs = dict(pass_inputs=["u"], pass_params=["m"], pass_kwargs=[("off", 0)])
        kw = {}
        if mode == "Entries":
            f = SignalFactory(class_name="F", mode=mode, input_names=["t"], param_names=["k"])
            kw = dict(entry_choice_func=mod_choice, entry_settings=es)
        elif mode == "Exits":
            f = SignalFactory(class_name="F", mode=mode, input_names=["u"], param_names=["m"])
            kw = dict(exit_choice_func=mod_choice, exit_settings=xs)
        elif mode == "Both":
            f = SignalFactory(class_name="F", mode=mode, input_names=["t", "u"], param_names=["k", "m"])
            kw = dict(entry_choice_func=mod_choice, entry_settings=es, exit_choice_func=mod_choice, exit_settings=xs)
        else:
            f = SignalFactory(class_name="F", mode=mode, input_names=["u"], param_names=["m"])
            kw = dict(exit_choice_func=mod_choice, exit_settings=xs)
        FACT[mode, loop] = f.from_choice_func(numba_loop=loop, **kw)
    return FACT[mode, loop]


@monitor(weight=3, modes=("pure", "jit"))
def m_factory(ctx):
    """Factory-made signal generators: one block of columns per parameter, each obeying the generation rules."""
    rng = ctx.rng
    n, c = draw(ctx)
    mode = pick(rng, ["Entries", "Exits", "Both", "Chain"])
    loop = bool(ctx.mode == "jit" and rng.random() < 0.3)
    t, u = rng.integers(0, 12, (n, c)), rng.integers(0, 12, (n, c))
    idx, cols = gen.dt_index(rng, n, "D"), pd.Index(list("abcd")[:c])
    wrapf = lambda a: pd.DataFrame(a, index=idx, columns=cols)
    ks = [int(x) for x in rng.integers(1, 6, int(rng.integers(1, 4)))]
    ms = [int(x) for x in rng.integers(1, 6, len(ks))]
    en = table(rng, n, c)
    ew, xw = int(pick(rng, [0, 1, 1, 2])), int(pick(rng, [1, 1, 2, 3]))
    ef, xf = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    until, skip = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    off = int(rng.integers(0, 2))
    F = factory(mode, loop)
    D = dict(wait=1, pick_first=True, until_next=True, skip_until_exit=False)
    om = lambda **kw: gen.omit(rng, kw, D)
    exp = {}
    if mode == "Entries":
        got = F.run((n, c), wrapf(t), ks, pick_first=ef, off=off)
        exp["entries"] = [ref_generate(t % k == off, ef)[0] for k in ks]
        keys = [(k,) for k in ks]
        if rng.random() < 0.1:
            got0 = F.run((n, c), wrapf(t), ks, off=off)
            ctx.eq(v2(got0.entries), np.column_stack([ref_generate(t % k == off, False)[0] for k in ks]), "Entries: all chosen rows by default")
    elif mode == "Exits":
        got = F.run(wrapf(en), wrapf(u), ms, **om(wait=xw, until_next=until, skip_until_exit=skip, pick_first=xf))
        exp["exits"] = [ref_exits(en, u % k == 0, xw, until, skip, xf)[0] for k in ms]
        exp["entries"] = [en for k in ms]
        keys = [(k,) for k in ms]
    elif mode == "Both":
        got = F.run((n, c), wrapf(t), wrapf(u), ks, ms, entry_kwargs=om(wait=ew, pick_first=ef, off=off), exit_kwargs=om(wait=xw, pick_first=xf))
        r = [ref_both(n, t % k == off, u % q == 0, ew, xw, ef, xf) for k, q in zip(ks, ms)]
        exp["entries"], exp["exits"] = [z[0] for z in r], [z[1] for z in r]
        keys = list(zip(ks, ms))
    else:
        got = F.run(wrapf(en), wrapf(u), ms, entry_kwargs=om(wait=ew), **om(wait=xw, pick_first=xf))
        r = [ref_both(n, en, u % q == 0, ew, xw, True, xf) for q in ms]
        exp["new_entries"], exp["exits"] = [z[0] for z in r], [z[1] for z in r]
        exp["entries"] = [en for k in ms]
        keys = [(k,) for k in ms]
    for name, blocks in exp.items():
        o = getattr(got, name)
        ctx.eq(v2(o), np.column_stack(blocks), f"{mode}: {name}", waits=(ew, xw), first=(ef, xf), until=until, skip=skip, loop=loop)
        ctx.check(o.index.equals(idx), f"{mode}: index of {name}")
    names = [x for x in ("f_k", "f_m") if x in got.wrapper.columns.names]
    lab = [tuple(int(z) for z in ([row] if not isinstance(row, tuple) else row)[:len(names)]) for row in got.wrapper.columns.tolist()]
    ctx.check(lab == [k for k in keys for _ in range(c)], f"{mode}: columns labelled {lab} instead of {keys}")
    ctx.seen("factory")
    ctx.nontrivial(mode, n, c, tuple(keys))
