"""S03: stop-based exit signals fire at the first bar that reaches the stop."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.signals.enums import StopType
from vt import gen
from vt.core import monitor, Skip
from vt.gen import pick
from vt.checks.s01 import table, v2, same_axes, draw
from vt.checks.s02 import blocks

NAN = np.nan
STOPS = [0.0, 0.125, 0.25, 0.5, 0.03, 0.11, 0.01]


def price_grid(rng, n, c):
    """Prices on a coarse grid (levels are touched exactly) or not, some missing."""
    a = 64 * np.exp(np.cumsum(rng.normal(0, rng.choice([0.02, 0.1, 0.4]), (n, c)), axis=0))
    if rng.random() < 0.6:
        a = np.maximum(np.round(a / 8) * 8, 8)
    if rng.random() < 0.25:
        a[rng.random((n, c)) < 0.15] = NAN
    return a


def ohlc_grid(rng, n, c):
    o, cl = price_grid(rng, n, c), price_grid(rng, n, c)
    o = np.where(np.isnan(o), 64.0, o)
    cl = np.where(np.isnan(cl), 64.0, cl)
    if rng.random() < 0.5:
        o[1:] = cl[:-1]
    step = rng.choice([0.0, 8.0, 16.0])
    h = np.maximum(o, cl) + step * rng.integers(0, 3, (n, c))
    l = np.maximum(np.minimum(o, cl) - step * rng.integers(0, 3, (n, c)), 1.0)
    if rng.random() < 0.3:
        for x in (o, h, l, cl):
            if rng.random() < 0.6:
                x[rng.random((n, c)) < 0.12] = NAN
    return o, h, l, cl


def param(rng, n, c, values, series):
    """A parameter per element, row, column or as scalar, with its expanded form."""
    full = np.empty((n, c), dtype=object)
    for i in range(n):
        for j in range(c):
            full[i, j] = pick(rng, values)
    full = full.astype(bool if isinstance(values[0], bool) else float)
    form = pick(rng, ["scalar", "scalar", "full", "col"] + ([] if series else ["row"]))
    if form == "scalar":
        return full[0, 0].item(), np.full((n, c), full[0, 0])
    if form == "row":
        return full[:1].copy(), np.repeat(full[:1], n, 0)
    if form == "col":
        f = np.repeat(full[:, :1], c, 1)
        return (f[:, 0] if series else full[:, :1].copy()), f
    return (full[:, 0] if series else full), full


def ref_ex(entries, choose, wait, until, skip, first):
    n = len(entries)
    out = np.zeros(entries.shape, bool)
    for col in range(entries.shape[1]):
        rows = list(np.flatnonzero(entries[:, col]))
        last = -1
        for k, e in enumerate(rows):
            if skip and e <= last:
                continue
            lo, hi = e + wait, (rows[k + 1] if until and k + 1 < len(rows) else n)
            ix = choose(e, lo, hi, col, first)
            if ix:
                out[ix, col] = True
                last = ix[-1]
            elif lo < hi and skip and not until:
                last = n
    return out


def ref_enex(entries, choose, ew, xw, first):
    n = len(entries)
    en, ex = np.zeros(entries.shape, bool), np.zeros(entries.shape, bool)
    for col in range(entries.shape[1]):
        lo = 0
        while True:
            e = next((i for i in range(lo, n) if entries[i, col]), None)
            if e is None:
                break
            en[e, col] = True
            ix = choose(e, e + xw, n, col, first)
            if not ix:
                break
            ex[ix, col] = True
            lo = ix[-1] + ew
    return en, ex


class Stop:
    def __init__(self, ts, stop, trail):
        self.ts, self.stop, self.trail = ts, stop, trail

    def __call__(self, e, lo, hi, col, first):
        s, base = self.stop[e, col], self.ts[e, col]
        best_lo = best_hi = base
        out = []
        for i in range(lo, hi):
            p = self.ts[i, col]
            if not np.isnan(s) and not np.isnan(base):
                if s >= 0:
                    hit = p >= (best_lo if self.trail[e, col] else base) * (1 + s)
                else:
                    hit = p <= (best_hi if self.trail[e, col] else base) * (1 - abs(s))
                if hit:
                    out.append(i)
                    if first:
                        break
            if not np.isnan(p):
                best_lo, best_hi = min(best_lo, p), max(best_hi, p)
        return out


class OHLCStop:
    def __init__(self, o, h, l, c, sl, trail, tp, rev, safe, price, kind):
        self.o, self.c, self.sl, self.trail, self.tp, self.rev, self.safe = o, c, sl, trail, tp, rev, safe
        of = np.where(np.isnan(o), c, o)
        self.h = np.where(np.isnan(h), np.fmax(of, c), h)
        self.l = np.where(np.isnan(l), np.fmin(of, c), l)
        self.price, self.kind = price, kind
        self.ambiguous = False

    def __call__(self, e, lo, hi, col, first):
        base = self.o[e, col]
        sl, tp, rev, trail = self.sl[e, col], self.tp[e, col], self.rev[e, col], self.trail[e, col]
        top = bot = base
        out = []
        for i in range(lo, hi):
            h, l = (self.h[i, col], self.l[i, col]) if i > e or self.safe else (self.c[i, col],) * 2
            a = (bot if trail else base) * (1 + sl) if rev else (top if trail else base) * (1 - sl)
            b = base * (1 - tp) if rev else base * (1 + tp)
            hit = None
            if (h >= a) if rev else (l <= a):
                hit = (a, StopType.TrailStop if trail else StopType.StopLoss)
            elif (l <= b) if rev else (h >= b):
                hit = (b, StopType.TakeProfit)
            if hit:
                out.append(i)
                self.price[i, col], self.kind[i, col] = hit
                if first:
                    break
            if l < bot:
                bot = l
            if h > top:
                top = h
        return out


def flags(rng):
    wait = int(pick(rng, [0, 1, 1, 2, 3]))
    until, skip, first = bool(rng.random() < 0.5), bool(rng.random() < 0.4), bool(rng.random() < 0.75)
    return wait, until, skip, first


D = dict(entry_wait=1, exit_wait=1, wait=1, until_next=True, skip_until_exit=False, pick_first=True, chain=False, trailing=False, is_open_safe=True,
         sl_trail=False, reverse=False)


def obj(rng, a, series, idx, cols):
    return pd.Series(a[:, 0], index=idx) if series else pd.DataFrame(a, index=idx, columns=cols)


@monitor(weight=4, modes=("pure", "jit"))
def m_stop(ctx):
    rng = ctx.rng
    n, c = draw(ctx)
    series = c == 1 and rng.random() < 0.5
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    en, ts = table(rng, n, c), price_grid(rng, n, c)
    o, t = obj(rng, en, series, idx, cols), obj(rng, ts, series, idx, cols)
    if rng.random() < 0.15 and c > 1:
        ts = np.repeat(ts[:, :1], c, 1)
        t = pd.Series(ts[:, 0], index=idx)
    stop, fs = param(rng, n, c, STOPS + [-s for s in STOPS[1:]] + [NAN], series)
    trail, ft = param(rng, n, c, [False, True], series)
    wait, until, skip, first = flags(rng)
    ew = int(pick(rng, [0, 1, 1, 2]))
    om = lambda **kw: gen.omit(rng, kw, D)
    ch = Stop(ts, fs, ft)
    chain = bool(rng.random() < 0.4)
    if chain:
        f = lambda: o.vbt.signals.generate_stop_exits(t, stop, **om(trailing=trail, entry_wait=ew, exit_wait=wait, pick_first=first), chain=True)
        if ew == 0 and wait == 0:
            ctx.raises(ValueError, f, msg="both waits zero")
            return
        en2, ex = f()
        r = ref_enex(en, ch, ew, wait, first)
        ctx.eq(v2(en2), r[0], "chained entries", waits=(ew, wait), first=first, stop=fs, ts=ts)
        ctx.eq(v2(ex), r[1], "chained exits", waits=(ew, wait), first=first, stop=fs, ts=ts)
        same_axes(ctx, en2, o, "chained entries")
        ctx.seen("chained", int(r[1].sum()))
        exp = r[1]
    else:
        ex = o.vbt.signals.generate_stop_exits(t, stop, **om(trailing=trail, exit_wait=wait, until_next=until, skip_until_exit=skip, pick_first=first, chain=False))
        exp = ref_ex(en, ch, wait, until, skip, first)
        ctx.eq(v2(ex), exp, "stop exits", wait=wait, until=until, skip=skip, first=first, stop=fs, trailing=ft, ts=ts)
    same_axes(ctx, ex, o, "stop exits")
    ctx.seen("stop_exits", int(exp.sum()))
    if ft.any():
        ctx.seen("trailing")
    ctx.nontrivial(n, c, chain, wait, until, skip, first, int(exp.sum()))


@monitor(weight=6, modes=("pure", "jit"))
def m_ohlc(ctx):
    rng = ctx.rng
    n, c = draw(ctx)
    series = c == 1 and rng.random() < 0.5
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    en = table(rng, n, c)
    full = list(ohlc_grid(rng, n, c))
    mk = lambda a: obj(rng, a, series, idx, cols)
    o = mk(en)
    args = dict(zip(("open", "high", "low", "close"), map(mk, full)))
    for k, name in enumerate(("high", "low", "close"), 1):
        if rng.random() < 0.08:
            del args[name]
            full[k] = full[0]
    pos = SL = None
    sl, fsl = param(rng, n, c, STOPS + [NAN], series)
    tp, ftp = param(rng, n, c, STOPS[:-1] + [NAN, NAN], series)
    trail, ft = param(rng, n, c, [False, True], series)
    rev, fr = param(rng, n, c, [False, True], series)
    if rng.random() < 0.4:
        rev, fr = False, np.zeros((n, c), bool)
    kw = dict(sl_stop=sl, sl_trail=trail, tp_stop=tp, reverse=rev)
    for name, val, farr in (("sl_stop", NAN, fsl), ("tp_stop", NAN, ftp)):
        if rng.random() < 0.15:
            del kw[name]
            farr[:] = NAN
    safe = bool(rng.random() < 0.6)
    wait, until, skip, first = flags(rng)
    ew = int(pick(rng, [0, 1, 1, 2]))
    om = lambda **k: gen.omit(rng, k, D)
    price, kind = np.full((n, c), NAN), np.full((n, c), -1)
    out = {}
    if rng.random() < 0.3:
        price, kind = np.full((n, c), -7.0), np.full((n, c), 9)
        out = pick(rng, [dict(stop_price=-7.0, stop_type=9), dict(stop_price=mk(price.copy()), stop_type=mk(kind.copy()))])
        ctx.seen("out_given")
    ch = OHLCStop(*full, fsl, ft, ftp, fr, safe, price, kind)
    chain = bool(rng.random() < 0.4)
    if rng.random() < 0.04 and en.any():
        bad = dict(kw, **{pick(rng, ["sl_stop", "tp_stop"]): -0.1})
        if (wait < n - np.flatnonzero(en.any(1))[0]):
            ctx.raises(ValueError, lambda: o.vbt.signals.generate_ohlc_stop_exits(**args, **bad, exit_wait=wait, until_next=False), msg="negative stop")
            ctx.seen("rejected")
        return
    with_out = rng.random() < 0.8
    if chain:
        f = lambda: o.vbt.signals.generate_ohlc_stop_exits(**args, **om(**kw, is_open_safe=safe, entry_wait=ew, exit_wait=wait, pick_first=first), out_dict=out if with_out else None, chain=True)
        if ew == 0 and wait == 0:
            ctx.raises(ValueError, f, msg="both waits zero")
            return
        try:
            en2, ex = f()
        except ValueError as e:
            if "Infinite loop" in str(e):
                raise Skip()
            raise
        r = ref_enex(en, ch, ew, wait, first)
        info = dict(waits=(ew, wait), first=first, safe=safe, sl=fsl, tp=ftp, trail=ft, reverse=fr, ohlc=full)
        ctx.eq(v2(en2), r[0], "chained OHLC entries", **info)
        exp = r[1]
        same_axes(ctx, en2, o, "chained OHLC entries")
        ctx.seen("ohlc_chained", int(exp.sum()))
    else:
        ex = o.vbt.signals.generate_ohlc_stop_exits(**args, **om(**kw, is_open_safe=safe, exit_wait=wait, until_next=until, skip_until_exit=skip, pick_first=first), out_dict=out if with_out else None)
        exp = ref_ex(en, ch, wait, until, skip, first)
        info = dict(wait=wait, until=until, skip=skip, first=first, safe=safe, sl=fsl, tp=ftp, trail=ft, reverse=fr, ohlc=full)
    ctx.eq(v2(ex), exp, "OHLC stop exits", **info)
    same_axes(ctx, ex, o, "OHLC stop exits")
    if with_out:
        ctx.eq(v2(out["stop_price"]), price, "stop price", **info)
        ctx.eq(v2(out["stop_type"]), kind, "stop type", **info)
        for q, name in ((StopType.StopLoss, "sl"), (StopType.TrailStop, "trail"), (StopType.TakeProfit, "tp")):
            if (kind == q).any():
                ctx.seen("hit_" + name)
    ctx.seen("ohlc_exits", int(exp.sum()))
    ctx.nontrivial(n, c, chain, wait, until, skip, first, safe, int(exp.sum()))


@monitor(weight=3, modes=("pure", "jit"))
def m_generators(ctx):
    """The indicator classes over several stops: one block of columns per parameter."""
    rng = ctx.rng
    n, c = draw(ctx)
    series = c == 1 and rng.random() < 0.5
    idx, cols = gen.dt_index(rng, n, "D"), list("abcd")[:c]
    mk = lambda a: obj(rng, a, series, idx, cols)
    en = table(rng, n, c)
    k = int(rng.integers(1, 4))
    wait, until, skip, first = flags(rng)
    ew = int(pick(rng, [1, 1, 2]))
    om = lambda **kw: gen.omit(rng, kw, D)
    which = pick(rng, ["STX", "STCX", "OHLCSTX", "OHLCSTCX"])
    G = getattr(vbt, which)

    def ps(values):
        r = [param(rng, n, c, values, series) for _ in range(k)]
        return [x[0] for x in r], [x[1] for x in r]

    chain = which.endswith("CX")
    fl = om(wait=wait, entry_wait=ew, pick_first=first) if chain else om(wait=wait, until_next=until, skip_until_exit=skip, pick_first=first)
    if which.startswith("ST"):
        ts = price_grid(rng, n, c)
        st, fs = ps(STOPS + [-s for s in STOPS[1:]] + [NAN])
        tr, ft = ps([False, True])
        r = G.run(mk(en), mk(ts), st, tr, **fl)
        chs = [Stop(ts, a, b) for a, b in zip(fs, ft)]
    else:
        full = ohlc_grid(rng, n, c)
        sl, fsl = ps(STOPS + [NAN])
        tp, ftp = ps(STOPS[:-1] + [NAN])
        tr, ft = ps([False, True])
        rv, fr = ps([False, True])
        safe = bool(rng.random() < 0.6)
        if rng.random() < 0.3:
            rv, fr = False, [np.zeros((n, c), bool)] * k
        r = G.run(mk(en), *map(mk, full), sl_stop=sl, sl_trail=tr, tp_stop=tp, **om(reverse=rv, is_open_safe=safe), **fl)
        outs = [(np.full((n, c), NAN), np.full((n, c), -1)) for _ in range(k)]
        chs = [OHLCStop(*full, a, b, d, e, safe, *oo) for a, b, d, e, oo in zip(fsl, ft, ftp, fr, outs)]
    for i, ch in enumerate(chs):
        if chain:
            a, b = ref_enex(en, ch, ew, wait, first)
            ctx.eq(blocks(r.new_entries, k, c)[i], a, f"{which}: entries of parameter {i}", waits=(ew, wait))
        else:
            b = ref_ex(en, ch, wait, until, skip, first)
        ctx.eq(blocks(r.exits, k, c)[i], b, f"{which}: exits of parameter {i}", wait=wait, until=until, skip=skip, first=first)
        if not which.startswith("ST"):
            ctx.eq(blocks(r.stop_price, k, c)[i], ch.price, f"{which}: stop price of parameter {i}")
            ctx.eq(blocks(r.stop_type, k, c)[i], ch.kind, f"{which}: stop type of parameter {i}")
            rd = np.asarray(blocks(r.stop_type_readable, k, c)[i], dtype=object)
            exp = np.array([[StopType._fields[q] if q >= 0 else None for q in row] for row in ch.kind], dtype=object).reshape(n, c)
            ctx.check(all((x is None or x != x) if y is None else x == y for x, y in zip(rd.ravel(), exp.ravel())), f"{which}: readable stop type")
        ctx.seen("param_exits", int(b.sum()))
    ctx.check(v2(r.exits).shape == (n, k * c), f"{which}: shape")
    ctx.seen(which)
    ctx.nontrivial(which, n, c, k, int(v2(r.exits).sum()))
