"""Portfolio helpers shared by the P-checks: running simulations next to the reference model."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.portfolio import enums
from vt import gen, model as M
from vt.core import Skip, Violation
from vt.gen import pick

NAN, INF = np.nan, np.inf
ValueErrorLike = (ValueError,)

ORDER_F = ["id", "col", "idx", "size", "price", "fees", "side"]


def compare_orders(ctx, rec, exp, rtol=1e-9, atol=1e-9, msg="order records"):
    if len(rec) != len(exp):
        ctx.fail(f"{msg}: {len(rec)} orders, model has {len(exp)}", got=rec, expected=exp[:10])
    for f in ORDER_F:
        ctx.eq(rec[f], np.array([o[f] for o in exp], dtype=rec[f].dtype), f"{msg}.{f}", rtol=rtol, atol=atol)


def compare_logs(ctx, rec, exp, rtol=1e-9, atol=1e-8, msg="log records"):
    if len(rec) != len(exp):
        ctx.fail(f"{msg}: {len(rec)} logs, model has {len(exp)}")
    for f in rec.dtype.names:
        e = np.array([o[f] for o in exp]).astype(rec[f].dtype)
        if np.asarray(rec[f]).dtype.kind == "f" and len(e):
            ctx.eq(rec[f], e, f"{msg}.{f}", rtol=rtol, atol=atol * max(1.0, float(np.nanmax(np.abs(np.where(np.isfinite(e), e, 0))))))
        else:
            ctx.eq(rec[f], e, f"{msg}.{f}")


def call_seq_arg(rng, n, gl):
    """(raw, per-row list) of explicit call sequence."""
    rows = []
    for _ in range(n):
        r = []
        for g in gl:
            r += [int(x) for x in rng.permutation(g)]
        rows.append(r)
    return np.array(rows).reshape(n, sum(gl)), rows


def default_seq(n, gl, rev=False):
    row = []
    for g in gl:
        row += list(range(g))[::-1] if rev else list(range(g))
    return [list(row) for _ in range(n)]


def run_from_orders(ctx, rng, n, c, sharing=None, auto=None, directions=None, size_types=None, log=True, index=True,
                    hostile=True, kind=None, args=None, close=None, init=None, extra=None, gl=None, allow_series=True):
    idx = gen.dt_index(rng, n, "D")
    cols = gen.columns(rng, c)
    close_a = gen.prices(rng, n, c, kind=kind) if close is None else close
    scale = 10.0 / float(np.nanmedian(close_a)) if np.isfinite(close_a).any() else 1.0
    A = args or gen.order_args(rng, n, c, index=idx, cols=cols, directions=directions, size_types=size_types, log=log,
                               hostile=hostile, scale=scale)
    if sharing is None:
        sharing = False
    gl = gl or (gen.group_lens(rng, c) if sharing else [1] * c)
    ig = len(gl)
    init = init if init is not None else (float(pick(rng, [100.0, 50.0, 1000.0, 1e4])) if rng.random() < 0.6 else rng.choice([30.0, 100.0, 500.0, 1e6], size=ig))
    upd, ff = bool(rng.random() < 0.4), bool(rng.random() < 0.8)
    seq_kind = auto if auto is not None else ("default" if not sharing else pick(rng, ["default", "reversed", "custom", "auto"]))
    raw_seq, seq = seq_kind, default_seq(n, gl)
    if seq_kind == "reversed":
        seq = default_seq(n, gl, rev=True)
    elif seq_kind == "custom":
        raw_seq, seq = call_seq_arg(rng, n, gl)
    cl = pd.DataFrame(close_a, index=idx, columns=cols)
    if c == 1 and allow_series and rng.random() < 0.3 and all(a.form == "scalar" for a in A.values()):
        cl = cl.iloc[:, 0]
    kw = dict(gen.raw(A), init_cash=init, update_value=upd, ffill_val_price=ff, call_seq=raw_seq, freq="D", attach_call_seq=True)
    kw.update(extra or {})
    if sharing:
        kw.update(group_by=gen.groups_from_lens(gl), cash_sharing=True)
    ctx.desc = dict(close=close_a, args={k: a.full if a.form != "scalar" else a.raw for k, a in A.items()}, gl=gl, init=init,
                    upd=upd, ff=ff, seq=seq_kind)
    icash = np.broadcast_to(np.asarray(init, float), (len(gl),))
    cf = close_a.tolist()
    try:
        S, used = M.from_orders(n, gl, icash, seq, gen.getter(A), lambda i, k: cf[i][k], auto=seq_kind == "auto",
                                update_value=upd, ffill=ff)
        bad = False
    except (M.Bad,):
        bad = True
    except ZeroDivisionError:
        return None
    try:
        pf = vbt.Portfolio.from_orders(cl, **kw)
    except ValueError as e:
        if bad:
            ctx.seen("sims_with_documented_error")
            return None
        raise
    ctx.check(not bad, "the model raises an error but the simulation did not")
    ctx.nontrivial(n, c, gl, len(S.orders), len(S.logs), [round(o["size"], 6) for o in S.orders[:6]])
    ctx.seen("simulations")
    pf._vt = dict(A=A, gl=gl, init=icash, seq=seq, upd=upd, ff=ff, close=close_a, kw=kw, sharing=sharing, cl=cl, S=S, used=used)
    return pf, S, used


def signal_reader(A, ls):
    f = {k: A[k].full for k in ("entries", "exits", "short_entries", "short_exits", "direction") if k in A}

    def signals(i, c, pos, vp):
        e, x = bool(f["entries"][i, c]), bool(f["exits"][i, c])
        if ls:
            return e, x, bool(f["short_entries"][i, c]), bool(f["short_exits"][i, c])
        d = int(f["direction"][i, c])
        return (e, x, False, False) if d == 0 else (False, False, e, x) if d == 1 else (e, False, x, False)
    return signals


def run_from_signals(ctx, rng, n, c, sharing=None, stops=None, ls=None, log=True, simple=False, size_types=None, ohlc=None, p_sig=None,
                     auto=None, gl=None, args=None, init=None, extra=None, adjust=None, kind=None, via_func=False, trace=None, allow_series=True):
    idx = gen.dt_index(rng, n, "D")
    cols = gen.columns(rng, c)
    o, h, l, cl = ohlc if ohlc is not None else gen.ohlc(rng, n, c, kind=kind)
    scale = 10.0 / float(np.nanmedian(cl)) if np.isfinite(cl).any() else 1.0
    if args is None:
        A, ls = gen.signal_args(rng, n, c, idx, cols, stops=stops, ls=ls, simple=simple, log=log, scale=scale, size_types=size_types,
                                p_sig=p_sig, ohlc_arrays=(o, h, l))
    else:
        A = args
    sharing = bool(sharing)
    gl = gl or (gen.group_lens(rng, c) if sharing else [1] * c)
    init = init if init is not None else (float(pick(rng, [100.0, 50.0, 1000.0, 1e4])) if rng.random() < 0.6 else rng.choice([30.0, 100.0, 500.0, 1e6], size=len(gl)))
    upd, ff = bool(rng.random() < 0.4), bool(rng.random() < 0.8)
    seq_kind = auto if auto is not None else ("default" if not sharing else pick(rng, ["default", "reversed", "custom", "auto"]))
    raw_seq, seq = seq_kind, default_seq(n, gl)
    if seq_kind == "reversed":
        seq = default_seq(n, gl, rev=True)
    elif seq_kind == "custom":
        raw_seq, seq = call_seq_arg(rng, n, gl)
    close = pd.DataFrame(cl, index=idx, columns=cols)
    if c == 1 and allow_series and rng.random() < 0.3 and all(a.form in ("scalar",) for a in A.values()):
        close = close.iloc[:, 0]
    kw = dict(gen.raw(A), init_cash=init, update_value=upd, ffill_val_price=ff, call_seq=raw_seq, freq="D", attach_call_seq=True)
    use_stops = True
    sl_raw, tp_raw = kw["sl_stop"], kw["tp_stop"]
    if isinstance(sl_raw, float) and np.isnan(sl_raw) and isinstance(tp_raw, float) and np.isnan(tp_raw) and adjust is None:
        use_stops = False
    if sharing:
        kw.update(group_by=gen.groups_from_lens(gl), cash_sharing=True)
    kw.update(extra or {})
    ctx.desc = dict(close=cl, ls=ls, args={k: (a.full if a.form != "scalar" else a.raw) for k, a in A.items()}, gl=gl, init=init, upd=upd, ff=ff,
                    seq=seq_kind)
    icash = np.broadcast_to(np.asarray(init, float), (len(gl),))
    O, H, L = (A[k].full for k in ("open", "high", "low"))

    def bar(i, k):
        return float(O[i, k]), float(H[i, k]), float(L[i, k]), float(cl[i, k])
    sig = signal_reader(A, ls)
    adj = adjust or (None, None)
    try:
        S, used = M.from_signals(n, gl, icash, seq, gen.getter(A), bar, sig, auto=seq_kind == "auto", update_value=upd, ffill=ff,
                                 use_stops=use_stops, adjust_sl=adj[0], adjust_tp=adj[1], trace=trace)
        bad = False
    except M.Bad:
        bad = True
    except ZeroDivisionError:
        return None
    if adjust is not None:
        from vectorbt.portfolio import enums as E

        def real_sl(c_, *a):
            return adj[0]({k: getattr(c_, k) for k in c_._fields})

        def real_tp(c_, *a):
            return adj[1]({k: getattr(c_, k) for k in c_._fields})
        if adj[0] is not None:
            kw["adjust_sl_func_nb"] = real_sl
        if adj[1] is not None:
            kw["adjust_tp_func_nb"] = real_tp
    if via_func:       # same signals delivered by a callback instead of arrays
        for k in ("entries", "exits", "short_entries", "short_exits", "direction"):
            kw.pop(k, None)
        kw["signal_func_nb"] = lambda c_: sig(c_.i, c_.col, c_.position_now, c_.val_price_now)
    try:
        pf = vbt.Portfolio.from_signals(close, **kw)
    except ValueError as e:
        if bad:
            ctx.seen("sims_with_documented_error")
            return None
        raise
    ctx.check(not bad, "the model raises an error but the simulation did not")
    ctx.nontrivial(n, c, gl, ls, len(S.orders), len(S.logs), [round(o_["size"], 6) for o_ in S.orders[:6]])
    ctx.seen("simulations")
    pf._vt = dict(A=A, gl=gl, init=icash, seq=seq, upd=upd, ff=ff, close=cl, kw=kw, sharing=sharing, S=S, used=used, ls=ls, cl=close)
    return pf, S, used


EV_FIELDS = ("last_cash", "last_free_cash", "last_position", "last_debt", "last_val_price", "last_value", "second_last_value", "last_return",
             "last_oidx", "last_lidx", "last_pos_record", "group", "group_len", "from_col", "to_col", "i", "call_seq_now", "col", "call_idx",
             "cash_now", "position_now", "debt_now", "free_cash_now", "val_price_now", "value_now", "return_now", "pos_record_now", "cash_before",
             "position_before", "debt_before", "free_cash_before", "val_price_before", "value_before", "order_result")


def _snap(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, np.void):
        return x.copy()
    return x


class Recorder:
    """Records every callback of an order-function simulation as (name, args, snapshot)."""

    def __init__(self):
        self.ev = []

    def cb(self, name, out=None, act=None):
        def f(c, *args):
            self.ev.append((name, args, {k: _snap(getattr(c, k)) for k in EV_FIELDS if hasattr(c, k)}))
            if act is not None:
                return act(c, *args)
            return out(c) if out is not None else None
        return f


def compare_events(ctx, got, exp, temp, track):
    ctx.eq([e[0] for e in got], [e[0] for e in exp], "callback order")
    for (name, args, s), (_, eargs, m) in zip(got, exp):
        w = f"{name} callback at i={m.get('i')} group={m.get('group')} col={m.get('col')}"
        ctx.check(tuple(args) == tuple(eargs), w + ": arguments passed down", got=args, expected=eargs)
        for k, v in m.items():
            if k in ("n_orders", "n_logs") or (k.endswith("pos_record_now") and v is None):
                continue
            if k not in s:
                ctx.fail(f"{w}: context has no {k}")
            g = s[k]
            if k == "last_pos_record":
                for c, r in enumerate(v):
                    _cmp_rec(ctx, g[c], r, f"{w} {k}[{c}]", temp)
            elif k == "pos_record_now":
                _cmp_rec(ctx, g, v, f"{w} {k}", temp)
            elif k == "order_result":
                ctx.eq(list(g), v, f"{w} {k}", rtol=1e-9, atol=1e-9)
            else:
                ctx.eq(g, v, f"{w} {k}", rtol=1e-8, atol=1e-8)
        ctx.seen("contexts_compared")
        ctx.seen("ctx_" + name)


def _cmp_rec(ctx, g, r, w, temp):
    if r["id"] < 0:
        ctx.eq(g["id"], -1, w + ".id")
        if temp:
            for f in g.dtype.names:
                x = g[f]
                ctx.check(x == -1 or (x != x), f"{w}.{f} of a column without position is {x}")
        return
    for f, v in r.items():
        ctx.eq(g[f], v, f"{w}.{f}", rtol=1e-6 if f in ("pnl", "return") else 1e-8, atol=1e-7)


def order_plan(rng, n, c, gl, A, flexible, kind="args"):
    """(i, g) -> list of (col, order) for flexible programs; plain programs take (i, col)."""
    get = gen.getter(A)

    def at(i, col):
        return {k: get(k, i, col) for k in M.ORDER_DEFAULTS}
    if not flexible:
        return lambda i, g, k, col, S: at(i, col)
    plan, c0 = {}, 0
    for g, l in enumerate(gl):
        for i in range(n):
            m = int(rng.integers(0, 2 * l + 1))
            plan[i, g] = [(int(c0 + rng.integers(l)), at(int(rng.integers(n)), int(c0 + rng.integers(l)))) for _ in range(m)]
        c0 += l

    def prog(i, g, k, col, S):
        p = plan[i, g]
        return p[k] if k < len(p) else None
    prog.plan = plan
    return prog


def run_from_func(ctx, rng, n, c, flexible=None, row_wise=None, sharing=None, gl=None, record=True, args=None, close=None, log=True, kind=None,
                  extra=None, init=None, hostile=True, directions=None, size_types=None, mask=None, override=None, prog=None, flags=None):
    """Simulate an order program through Portfolio.from_order_func next to the model. Returns (pf, S, events) or None."""
    from vectorbt.portfolio import nb as pnb
    idx, cols = gen.dt_index(rng, n, "D"), gen.columns(rng, c)
    close_a = gen.prices(rng, n, c, kind=kind) if close is None else close
    scale = 10.0 / float(np.nanmedian(close_a)) if np.isfinite(close_a).any() else 1.0
    A = args or gen.order_args(rng, n, c, directions=directions or [2], size_types=size_types, log=log, hostile=hostile, scale=scale)
    flexible = bool(rng.random() < 0.5) if flexible is None else flexible
    row_wise = bool(rng.random() < 0.5) if row_wise is None else row_wise
    grouped = gl is not None or rng.random() < 0.7
    gl = gl or (gen.group_lens(rng, c) if grouped else [1] * c)
    sharing = bool(grouped and rng.random() < 0.6) if sharing is None else sharing
    nu = len(gl) if sharing else c
    init = init if init is not None else (float(pick(rng, [100.0, 1000.0, 1e4])) if rng.random() < 0.5 else rng.choice([30.0, 100.0, 500.0, 1e6], size=nu))
    icash = np.broadcast_to(np.asarray(init, float), (nu,))
    fl = dict(update_value=bool(rng.random() < 0.4), ffill_val_price=bool(rng.random() < 0.8), call_pre_segment=bool(rng.random() < 0.3),
              call_post_segment=bool(rng.random() < 0.3), fill_pos_record=bool(rng.random() < 0.85), init_temp_records=bool(rng.random() < 0.5))
    fl.update(flags or {})
    raw_seq, seq = call_seq_arg(rng, n, gl)
    if rng.random() < 0.3:
        raw_seq, seq = pick(rng, [("default", default_seq(n, gl)), ("reversed", default_seq(n, gl, True))])
    if mask is None:
        q = rng.random()
        if q < 0.5:
            mask_raw, mk = True, None
        elif q < 0.65:
            step = int(rng.integers(1, 4)) if n > 1 else 1
            step = max(step, 2)
            mk = np.zeros((n, len(gl)), bool)
            mk[::step] = True
            mask_raw = step
        else:
            mk = rng.random((n, len(gl))) < 0.6
            mask_raw = mk
    else:
        mask_raw, mk = mask
    if override is None:
        override = rng.random() < 0.4
    ov = {(i, k): float(rng.uniform(0.5, 1.5) * 10) if rng.random() < 0.8 else NAN for i in range(n) for k in range(c) if rng.random() < 0.3} if override else {}
    start = np.cumsum([0] + list(gl))
    prog = prog or order_plan(rng, n, c, gl, A, flexible)
    cf = close_a.tolist()
    ev = [] if record else None

    def pre_vp(i, g):
        return {k: ov[i, k] for k in range(start[g], start[g + 1]) if (i, k) in ov}
    ctx.desc = dict(close=close_a, args={k: a.full if a.form != "scalar" else a.raw for k, a in A.items()}, gl=gl, sharing=sharing, init=init,
                    flexible=flexible, row_wise=row_wise, mask=mk, seq=seq, override=ov, flags=fl,
                    plan={str(k): [(c_, {a: b for a, b in o.items() if b != M.ORDER_DEFAULTS[a]}) for c_, o in v] for k, v in getattr(prog, "plan", {}).items()})
    try:
        S = M.from_func(n, gl, sharing, icash, lambda i, k: cf[i][k], prog, call_seq=seq, mask=mk, pre_vp=pre_vp, row_wise=row_wise, flexible=flexible,
                        update_value=fl["update_value"], ffill=fl["ffill_val_price"], call_pre=fl["call_pre_segment"], call_post=fl["call_post_segment"],
                        track_pos=fl["fill_pos_record"], events=ev)
        bad = False
    except M.Bad:
        bad = True
    except ZeroDivisionError:
        return None
    R = Recorder()
    R.states = []
    nothing = pnb.order_nothing_nb() if hasattr(pnb, "order_nothing_nb") else enums.NoOrder

    def seg(c_, *a):
        for (k, v) in pre_vp(int(c_.i), int(c_.group)).items():
            c_.last_val_price[k] = v
        return ("seg", int(c_.i), int(c_.group))

    def order(c_, *a):
        if flexible:
            x = prog(int(c_.i), int(c_.group), int(c_.call_idx), None, None)
            return (-1, nothing) if x is None else (x[0], pnb.order_nb(**x[1]))
        return pnb.order_nb(**prog(int(c_.i), int(c_.group), int(c_.call_idx), int(c_.col), None))

    def post(c_, *a):
        if c_.order_result.status == M.FILLED:
            r = c_.order_records[c_.last_oidx[c_.col]]
            ctx.check(r["idx"] == c_.i and r["col"] == c_.col and r["size"] == c_.order_result.size, "last_oidx does not point to the order just filled")
        return None

    def post_seg(c_, *a):
        R.states.append((int(c_.i), int(c_.group), {k: (float(c_.last_position[k]), float(c_.last_cash[c_.group if sharing else k]),
                                                         float(c_.last_free_cash[c_.group if sharing else k])) for k in range(c_.from_col, c_.to_col)}))
    w = R.cb if record else (lambda name, out=None, act=None: (lambda c_, *a: act(c_, *a) if act else out(c_) if out else None))
    kw = dict(init_cash=init, cash_sharing=sharing, segment_mask=mask_raw, flexible=flexible, row_wise=row_wise, freq="D",
              pre_sim_func_nb=w("pre_sim", out=lambda c_: ("sim",)), post_sim_func_nb=w("post_sim"),
              pre_segment_func_nb=w("pre_segment", act=seg), post_segment_func_nb=w("post_segment", act=post_seg),
              post_order_func_nb=w("post_order", act=post), max_orders=max(1, n * c * 2 + n * len(gl)), max_logs=max(1, n * c * 2 + n * len(gl)), **fl)
    if row_wise:
        kw.update(pre_row_func_nb=w("pre_row", out=lambda c_: ("row", int(c_.i))), post_row_func_nb=w("post_row"))
    else:
        kw.update(pre_group_func_nb=w("pre_group", out=lambda c_: ("group", int(c_.group))), post_group_func_nb=w("post_group"))
    if not flexible:
        kw.update(call_seq=raw_seq, attach_call_seq=True)
    if gl != [1] * c or sharing or rng.random() < 0.3:
        kw["group_by"] = gen.groups_from_lens(gl)
    kw.update(extra or {})
    cl = pd.DataFrame(close_a, index=idx, columns=cols)
    fn = w("order", act=order)
    try:
        p = vbt.Portfolio.from_order_func(cl, fn, **kw)
    except ValueError as e:
        if bad:
            ctx.seen("sims_with_documented_error")
            return None
        raise
    ctx.check(not bad, "the model raises an error but the simulation did not")
    ctx.nontrivial(n, c, gl, flexible, row_wise, len(S.orders), len(S.logs), [round(o["size"], 6) for o in S.orders[:6]])
    ctx.seen("simulations")
    ctx.seen(f"sim_{'flex' if flexible else 'plain'}_{'row' if row_wise else 'col'}{'_shared' if sharing else ''}")
    p._vt = dict(A=A, gl=gl, init=icash, seq=seq, fl=fl, close=close_a, kw=kw, sharing=sharing, cl=cl, S=S, states=R.states, prog=prog, mask=mk, ov=ov, fn=fn,
                 flexible=flexible, row_wise=row_wise, upd=fl["update_value"], ff=fl["ffill_val_price"])
    return p, S, (R.ev, ev, fl)


# --------------------------------------------------------------------- re-simulation of slices and rewritten inputs
def sub_raw(a, rows, cols, n, c):
    """Raw argument restricted to rows/cols (positions), same broadcast form."""
    if a.form == "scalar":
        return a.raw
    r = a.raw
    if a.form == "frame" or isinstance(r, pd.DataFrame):
        return r.iloc[rows, cols]
    if a.form == "row":
        return np.asarray(r)[..., cols]
    if a.form == "col":
        return np.asarray(r)[rows]
    return np.asarray(r)[np.ix_(rows, cols)]


def resim(kind, v, rows=None, cols=None, gl=None, A=None, close=None, seq=None, init=None, extra=None):
    """Repeat a simulation run by run_from_orders/run_from_signals on a slice (rows/cols positions) or with replaced arguments."""
    n, c = v["close"].shape
    rows = np.arange(n) if rows is None else np.asarray(rows)
    cols = np.arange(c) if cols is None else np.asarray(cols)
    A = A or v["A"]
    close = v["close"] if close is None else close
    kw = {k: x for k, x in v["kw"].items() if k not in v["A"]}
    kw.update({k: sub_raw(a, rows, cols, n, c) for k, a in A.items()})
    cl0 = v["cl"]
    idx = cl0.index[rows]
    cn = (cl0.columns if isinstance(cl0, pd.DataFrame) else pd.Index([cl0.name]))[cols]
    cl = pd.DataFrame(close[np.ix_(rows, cols)], index=idx, columns=cn)
    for k, a in list(kw.items()):
        if isinstance(a, pd.DataFrame):
            kw[k] = a.set_axis(cn, axis=1).set_axis(idx, axis=0)
    s = seq if seq is not None else v["kw"].get("call_seq")
    if isinstance(s, np.ndarray):
        kw["call_seq"] = s[np.ix_(rows, cols)]
    if init is not None:
        kw["init_cash"] = init
    if gl is not None and "group_by" in kw:
        kw["group_by"] = gen.groups_from_lens(gl)
    kw.update(extra or {})
    f = getattr(vbt.Portfolio, "from_" + kind)
    return f(cl, **kw)


def strip(rec, cols=None, upto=None):
    """Records of the given columns (renumbered) up to a bar, ids dropped, sorted by column then original order."""
    r = rec
    if upto is not None:
        r = r[r["idx"] <= upto]
    if cols is not None:
        pos = {int(c): k for k, c in enumerate(cols)}
        r = r[np.isin(r["col"], list(pos))].copy()
        r["col"] = [pos[int(x)] for x in r["col"]]
    r = r[np.argsort(r["col"], kind="stable")].copy()
    for k in ("id", "order_id", "group", "parent_id"):
        if k in r.dtype.names:
            r[k] = np.where(r[k] >= 0, 0, -1) if k == "order_id" else 0
    return r


def exact(ctx, a, b, msg):
    """Bit-for-bit equality of record arrays (NaN equal)."""
    if len(a) != len(b):
        ctx.fail(f"{msg}: {len(a)} records instead of {len(b)}", a=a, b=b)
    for f in a.dtype.names:
        ctx.eq(a[f], b[f], f"{msg}.{f}", rtol=0, atol=0)
