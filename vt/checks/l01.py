"""L01: label generators against their look-ahead definitions, computed row by row."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.labels import dispatch, nb
from vectorbt.labels.enums import TrendMode
from vt import gen
from vt.checks.i01 import series, scale, as_pd, mat, ma, mstd, ext
from vt.checks.s03 import param
from vt.core import monitor, Skip
from vt.gen import pick

NAN = np.nan


# ------------------------------------------------------------------ reference
def ahead(f, x, wait):
    """Statistic of the rows i+wait, i+wait+1, ... given a trailing statistic f over a list."""
    n = len(x)
    rev = f([float(v) for v in x[::-1]])[::-1]
    out = np.full(n, NAN)
    for i in range(n):
        if i + wait < n:
            out[i] = rev[i + wait]
    return out


def near(a, b, exact):
    """Comparisons which rounding decides are outside the domain (unless both sides are exact)."""
    if not exact and abs(a - b) <= 1e-11 * abs(b):
        raise Skip
    return a - b


def zigzag(x, pos, neg, exact):
    """[(row, +1 peak / -1 trough)]: a swing is confirmed by a move of the threshold set at its extremum."""
    n, out, cand, kind = len(x), [], 0, 0   # kind of the candidate: +1 peak, -1 trough, 0 unknown
    for i in range(1, n):
        if math.isnan(x[i]):
            continue
        up = kind <= 0 and near(x[i], x[cand] * (1 + abs(pos[cand])), exact) >= 0
        dn = kind >= 0 and near(x[i], x[cand] * (1 - abs(neg[cand])), exact) <= 0
        if up:
            out.append((cand, -1))
            cand, kind = i, 1
        elif dn:
            out.append((cand, 1))
            cand, kind = i, -1
        elif (kind == 1 and x[i] > x[cand]) or (kind == -1 and x[i] < x[cand]):
            cand = i
    if kind:
        out.append((cand, kind))
    return out


def as_labels(ex, n):
    out = np.zeros(n)
    for i, k in ex:
        out[i] = k
    return out


def trend(x, ex, mode, pos, neg):
    n = len(x)
    out = np.full(n, NAN)
    for (a, _), (b, _) in zip(ex, ex[1:]):
        seg = x[a:b + 1]
        lo, hi, rise = min(seg), max(seg), x[b] > x[a]
        for i in range(a, b):
            if mode == TrendMode.Binary:
                out[i] = 1.0 if rise else 0.0
            elif mode == TrendMode.BinaryCont:
                out[i] = (hi - x[i]) / (hi - lo)
            elif mode == TrendMode.BinaryContSat:
                # the share of the way still ahead; saturated where the move ahead exceeds the threshold
                if rise:
                    s = hi / (1 + abs(pos[a]))
                    out[i] = 1.0 if x[i] <= s else (hi - x[i]) / (hi - s)
                else:
                    s = lo / (1 - abs(neg[a]))
                    out[i] = 0.0 if x[i] >= s else 1 - (x[i] - lo) / (s - lo)
            else:
                base = x[b] if rise and mode == TrendMode.PctChangeNorm else x[i]
                out[i] = (x[b] - x[i]) / base
    return out


def breakout(x, window, pos, neg, wait, exact):
    n = len(x)
    out = np.zeros(n)
    for i in range(n):
        for j in range(i + wait, i + wait + window):
            if j >= n:
                break
            if math.isnan(x[i]) or math.isnan(x[j]):
                continue
            if pos[i] != 0 and near(x[j], x[i] * (1 + abs(pos[i])), exact) >= 0:
                out[i] = 1
                break
            if neg[i] != 0 and near(x[j], x[i] * (1 - abs(neg[i])), exact) <= 0:
                out[i] = -1
                break
    return out


# ------------------------------------------------------------------ workload
def swings(ctx, n, c, nan=True):
    """(prices, thresholds, exact): exact prices and dyadic thresholds make ties happen and be decidable."""
    rng = ctx.rng
    exact = bool(rng.random() < 0.6)
    kind = pick(rng, ["grid", "walk", "runs", "mono"])
    if kind == "grid":
        a = rng.integers(4, 33, (n, c)).astype(float)
    elif kind == "walk":
        a = np.maximum(64 + np.cumsum(rng.integers(-12, 13, (n, c)), axis=0), 4).astype(float)
    elif kind == "runs":
        a = np.repeat(rng.integers(4, 33, (n // 3 + 1, c)), 3, axis=0)[:n].astype(float)
    else:
        a = np.cumsum(rng.integers(0, 6, (n, c)), axis=0)[::pick(rng, [1, -1])].astype(float) + 8
    if exact:
        th = [0.125, 0.25, 0.5, 1.0, -0.25]
    else:
        a = a * np.exp(rng.normal(0, 0.01, (n, c)))
        th = [0.01, 0.05, 0.1, 0.3, 0.7, -0.2]
    if rng.random() < 0.15 and kind != "mono" and exact:
        a = a.astype(int)
    elif nan and rng.random() < 0.3 and n > 2:
        m = rng.random((n, c)) < 0.15
        m[0] = False
        a[m] = NAN
        ctx.seen("with_nan")
    return a, th, exact


def th_arg(ctx, n, c, values, ser):
    """One threshold (flexible) or a list of several; returns argument, list of expanded forms."""
    rng = ctx.rng
    if rng.random() < 0.2:
        vals = [float(pick(rng, values)) for _ in range(2)]
        ctx.seen("several_thresholds")
        return vals, [np.full((n, c), v) for v in vals]
    v, full = param(rng, n, c, values, ser)
    if isinstance(v, np.ndarray):
        ctx.seen("threshold_arrays")
    return v, [full]


def zipped(a, b):
    k = max(len(a), len(b))
    return [(a[i % len(a)], b[i % len(b)]) for i in range(k)]


def check_structure(ctx, x, ex, lab, pos, neg, exact, what):
    """Alternation and swing size, from the labels alone."""
    rows = np.flatnonzero(lab)
    k = lab[rows]
    ctx.check(bool(np.all(k[1:] == -k[:-1])), f"extrema alternate {what}", labels=lab.tolist())
    ctx.check(len(rows) != 1, f"a single extremum {what}", labels=lab.tolist())
    for a, b in zip(rows, rows[1:]):
        r = x[b] / x[a]
        if lab[a] == -1:
            ctx.check(r >= (1 + abs(pos[a])) * (1 - 1e-12), f"swing from trough {a} to peak {b} exceeds its threshold {what}", ratio=r)
        else:
            ctx.check(r <= 1 - abs(neg[a]) + 1e-12, f"swing from peak {a} to trough {b} exceeds its threshold {what}", ratio=r)
        seg = x[a:b + 1]
        seg = seg[~np.isnan(seg)]
        ctx.check(x[b] == (max(seg) if lab[b] == 1 else min(seg)), f"an extremum is the extreme price since the previous one {what}", rows=(int(a), int(b)))
    ctx.seen("swings", max(len(rows) - 1, 0))


@monitor(weight=3, modes=("pure", "jit"))
def m_extrema(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 40)), int(rng.integers(1, 4))
    a, th, exact = swings(ctx, n, c)
    p = as_pd(rng, [a], n, c)[0]
    ser = isinstance(p, pd.Series)
    pa, pf = th_arg(ctx, n, c, th, ser)
    na, nf = th_arg(ctx, n, c, th[:3] + th[4:] if rng.random() < 0.8 else th, ser)
    combos = zipped(pf, nf)
    x = a.astype(float)
    refs = [[zigzag(x[:, j], pp[:, j], nn[:, j], exact) for j in range(c)] for pp, nn in combos]
    if pick(rng, [0, 1]) and len(combos) == 1:
        got = dispatch.local_extrema_apply(a, pa if np.isscalar(pa) else combos[0][0], na if np.isscalar(na) else combos[0][1],
                                           **gen.omit(rng, dict(flex_2d=True), dict(flex_2d=True)))
        ctx.seen("functions")
    else:
        got = mat(ctx, vbt.LEXLB.run(p, pa, na).labels, n, len(combos) * c, "labels")
    for q, (pp, nn) in enumerate(combos):
        for j in range(c):
            what = f"of {x[:, j].tolist()} with {pp[:, j].tolist()} / {nn[:, j].tolist()}"
            lab = np.asarray(got[:, q * c + j], float)
            ctx.eq(lab, as_labels(refs[q][j], n), f"local extrema {what}", rtol=0, atol=0)
            check_structure(ctx, x[:, j], refs[q][j], lab, pp[:, j], nn[:, j], exact, what)
    ctx.seen("LEXLB")
    ctx.nontrivial("lex", a.tobytes(), str(pa), str(na))


@monitor(weight=3, modes=("pure", "jit"))
def m_trend(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(2, 40)), int(rng.integers(1, 4))
    mode = int(rng.integers(0, 5))
    a, th, exact = swings(ctx, n, c, nan=mode in (TrendMode.Binary, TrendMode.PctChange, TrendMode.PctChangeNorm))
    p = as_pd(rng, [a], n, c)[0]
    ser = isinstance(p, pd.Series)
    nth = [t for t in th if abs(t) < 1]
    pa, pf = th_arg(ctx, n, c, th, ser)
    na, nf = th_arg(ctx, n, c, nth, ser)
    combos = zipped(pf, nf)
    x = a.astype(float)
    exs = [[zigzag(x[:, j], pp[:, j], nn[:, j], exact) for j in range(c)] for pp, nn in combos]
    how = pick(rng, ["class", "class", "apply", "parts"]) if len(combos) == 1 else "class"
    if how == "class":
        kw = {}
        if mode != TrendMode.Binary or rng.random() < 0.5:
            kw["mode"] = pick(rng, [mode, TrendMode._fields[mode]])
        got = mat(ctx, vbt.TRENDLB.run(p, pa, na, **kw).labels, n, len(combos) * c, "labels")
    else:
        P, N = combos[0]
        if how == "apply":
            got = dispatch.trend_labels_apply(a, P, N, mode)
        else:
            le = np.column_stack([as_labels(exs[0][j], n) for j in range(c)]).astype(np.int64)
            got = [dispatch.bn_trend_labels, dispatch.bn_cont_trend_labels, lambda q, e: dispatch.bn_cont_sat_trend_labels(q, e, P, N),
                   lambda q, e: dispatch.pct_trend_labels(q, e, False), lambda q, e: dispatch.pct_trend_labels(q, e, True)][mode](a, le)
        ctx.seen("functions")
    for q, (pp, nn) in enumerate(combos):
        for j in range(c):
            ex = exs[q][j]
            want = trend(x[:, j], ex, mode, pp[:, j], nn[:, j])
            ctx.eq(np.asarray(got[:, q * c + j], float), want,
                   f"trend labels ({TrendMode._fields[mode]}, {how}) of {x[:, j].tolist()} with {pp[:, j].tolist()} / {nn[:, j].tolist()}", rtol=1e-9, atol=1e-9)
            if len(ex) > 1:
                ctx.seen("trend_" + TrendMode._fields[mode])
    ctx.nontrivial("trend", mode, a.tobytes(), str(pa), str(na))


@monitor(weight=3, modes=("pure", "jit"))
def m_breakout(ctx):
    rng = ctx.rng
    n, c = int(rng.integers(1, 30)), int(rng.integers(1, 4))
    a, th, exact = swings(ctx, n, c)
    x = a.astype(float)
    p = as_pd(rng, [a], n, c)[0]
    ser = isinstance(p, pd.Series)
    w = int(rng.integers(0, 9)) if rng.random() < 0.9 else int(rng.integers(9, 60))
    wait = int(rng.integers(0, 4))
    pa, pf = th_arg(ctx, n, c, th + [0.0], ser)
    na, nf = th_arg(ctx, n, c, th + [0.0], ser)
    combos = zipped(pf, nf)
    args = dict(gen.omit(rng, dict(wait=wait), dict(wait=1)))
    if pick(rng, [0, 1]) and len(combos) == 1:
        got = dispatch.breakout_labels(a, w, *combos[0], **args)
        ctx.seen("functions")
    else:
        args.update(gen.omit(rng, dict(pos_th=pa, neg_th=na), dict(pos_th=0.0, neg_th=0.0)))
        got = mat(ctx, vbt.BOLB.run(p, w, **args).labels, n, len(combos) * c, "labels")
    for q, (pp, nn) in enumerate(combos):
        for j in range(c):
            want = breakout(x[:, j], w, pp[:, j], nn[:, j], wait, exact)
            ctx.eq(np.asarray(got[:, q * c + j], float), want,
                   f"breakout labels of {x[:, j].tolist()} window {w} wait {wait} with {pp[:, j].tolist()} / {nn[:, j].tolist()}", rtol=0, atol=0)
            ctx.seen("breakouts", np.count_nonzero(want))
    ctx.seen("BOLB")
    ctx.nontrivial("bolb", a.tobytes(), w, wait, str(pa), str(na))


@monitor(weight=4, modes=("pure", "jit"))
def m_windows(ctx):
    """FMEAN, FSTD, FMIN, FMAX, FIXLB, MEANLB."""
    rng = ctx.rng
    n, c = int(rng.integers(1, 30)), int(rng.integers(1, 4))
    a, kind = series(ctx, n, c)
    x = a.astype(float)
    p = as_pd(rng, [a], n, c)[0]
    name = pick(rng, ["FMEAN", "FSTD", "FMIN", "FMAX", "FIXLB", "MEANLB"])
    k = 1 if rng.random() < 0.6 else 2
    lo = 0 if name == "FIXLB" else 1
    ws = [int(rng.integers(lo, max(lo + 1, min(n + 3, 9)))) for _ in range(k)]
    ew = bool(rng.random() < 0.4)
    wait, adjust, ddof = int(rng.integers(0, 4)), bool(rng.random() < 0.5), int(rng.integers(0, 3))
    kw = {}
    if name in ("FMEAN", "FSTD", "MEANLB"):
        kw = gen.omit(rng, dict(ewm=ew, wait=wait, adjust=adjust), dict(ewm=False, wait=1, adjust=False))
        if name == "FSTD":
            kw.update(gen.omit(rng, dict(ddof=ddof), dict(ddof=0)))
    elif name != "FIXLB":
        kw = gen.omit(rng, dict(wait=wait), dict(wait=1))
    how = pick(rng, ["class", "func"]) if k == 1 else "class"
    if how == "class":
        r = getattr(vbt, name).run(p, ws if k > 1 else ws[0], **kw)
        got = mat(ctx, getattr(r, dict(FMEAN="fmean", FSTD="fstd", FMIN="fmin", FMAX="fmax").get(name, "labels")), n, k * c, name)
    else:
        f = dict(FMEAN="future_mean_apply", FSTD="future_std_apply", FMIN="future_min_apply", FMAX="future_max_apply", FIXLB="fixed_labels_apply", MEANLB="mean_labels_apply")[name]
        if name in ("FMEAN", "FSTD", "MEANLB"):
            kw["ewm"] = ew
        got = getattr(dispatch, f)(a, ws[0], **kw)
        ctx.seen("functions")
    for q, w in enumerate(ws):
        for j in range(c):
            v = x[:, j]
            sc = scale(v)
            tol = dict(rtol=1e-10, atol=sc * 1e-12)
            with np.errstate(all="ignore"):
                if name == "FMEAN":
                    want = ahead(lambda y: ma(y, w, ew, adjust), v, wait)
                elif name == "FSTD":
                    want, tol = ahead(lambda y: mstd(y, w, ew, adjust, ddof), v, wait), dict(rtol=1e-9, atol=sc * 1e-7)
                elif name in ("FMIN", "FMAX"):
                    want, tol = ahead(lambda y: ext(y, w, min if name == "FMIN" else max), v, wait), dict(rtol=0, atol=0)
                elif name == "FIXLB":
                    want = np.array([(v[i + w] - v[i]) / v[i] if i + w < n else NAN for i in range(n)])
                    tol = dict(rtol=1e-12, atol=1e-12)
                else:
                    want = (ahead(lambda y: ma(y, w, ew, adjust), v, wait) - v) / v
                    tol = dict(rtol=1e-9, atol=1e-11)
            ctx.eq(np.asarray(got[:, q * c + j], float), want, f"{name} of {v.tolist()} window {w} ewm {ew} wait {wait} adjust {adjust} ddof {ddof} ({how})", **tol)
            ctx.seen("defined", np.count_nonzero(want == want))
    if wait == 0 and name != "FIXLB":
        ctx.seen("current_row_included")
    ctx.seen(name)
    ctx.nontrivial(name, a.tobytes(), str(ws), str(kw))


@monitor(weight=0.5, modes=("pure", "jit"))
def m_rules(ctx):
    """Symmetric thresholds undo each other; zero thresholds and unknown modes are refused."""
    rng = ctx.rng
    th = float(pick(rng, [0.1, 0.25, 0.5, rng.uniform(0.01, 0.9)]))
    arr = rng.uniform(0.01, 0.9, (3, 2))
    for t in (th, arr):
        pos, neg = nb.get_symmetric_pos_th_nb(t), nb.get_symmetric_neg_th_nb(t)
        ctx.eq((1 - np.asarray(t)) * (1 + np.asarray(pos)), np.ones(np.shape(t)), "rise that undoes a fall")
        ctx.eq((1 + np.asarray(t)) * (1 - np.asarray(neg)), np.ones(np.shape(t)), "fall that undoes a rise")
    x = pd.Series(rng.integers(4, 33, 6).astype(float))
    z = pick(rng, [(0.0, 0.1), (0.1, 0.0), (0.0, 0.0)])
    ctx.raises(ValueError, lambda: vbt.LEXLB.run(x, *z), msg="zero threshold")
    ctx.raises(ValueError, lambda: dispatch.trend_labels_apply(x.values.reshape(-1, 1), 0.1, 0.1, 5), msg="unknown mode")
    ctx.seen("rules")
