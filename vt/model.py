"""Executable reference models of the portfolio simulator, in plain Python (floats only).

Written from the documented rules; shares no code with vectorbt. Enum codes are the documented ones.
"""
import math
from collections import namedtuple

NAN, INF = float("nan"), float("inf")
isnan, isinf, isfinite = math.isnan, math.isinf, math.isfinite

AMOUNT, VALUE, PERCENT, TARGET_AMOUNT, TARGET_VALUE, TARGET_PERCENT = range(6)
LONG, SHORT, BOTH = range(3)
FILLED, IGNORED, REJECTED = range(3)
BUY, SELL = 0, 1
(I_SIZE_NAN, I_PRICE_NAN, I_VALPRICE_NAN, I_VALUE_NAN, I_VALUE_ZERO_NEG, I_SIZE_ZERO, I_NO_CASH_SHORT, I_NO_CASH_LONG,
 I_NO_OPEN, I_MAX_SIZE, I_RANDOM, I_FEES, I_MIN_SIZE, I_PARTIAL) = range(14)

ORDER_DEFAULTS = dict(size=INF, price=INF, size_type=AMOUNT, direction=BOTH, fees=0.0, fixed_fees=0.0, slippage=0.0,
                      min_size=0.0, max_size=INF, size_granularity=NAN, reject_prob=0.0, lock_cash=False,
                      allow_partial=True, raise_reject=False, log=False)


def near(a, b):
    if isnan(a) or isnan(b) or isinf(a) or isinf(b):
        return False
    return a == b or abs(a - b) <= max(1e-9 * max(abs(a), abs(b)), 1e-12)


def less(a, b):
    return False if near(a, b) else a < b


def leq(a, b):
    return near(a, b) or a < b


def sgn(x):
    return NAN if isnan(x) else (x > 0) - (x < 0)


def add(a, b):
    """a + b, snapped to 0 if the two cancel within tolerance."""
    if sgn(a) != sgn(b):
        z = near(abs(a), abs(b))
    else:
        z = near(a + b, 0.0)
    return 0.0 if z else a + b


class Bad(ValueError):
    pass


Res = namedtuple("Res", "size price fees side status info")


def no(status, info):
    return Res(NAN, NAN, NAN, -1, status, info)


def snap(x):
    return 0.0 if near(x, 0.0) else x


def floordiv(a, b):
    # Python float floor division, NaN for infinite dividend (as IEEE fmod based definition)
    try:
        return a // b
    except ZeroDivisionError:
        return NAN


def fill(acct, o):
    """acct: dict(cash, position, debt, free_cash, val_price, value); o: full order dict.
    Returns (new acct core, Res)."""
    cash, pos, debt, free = snap(acct["cash"]), snap(acct["position"]), snap(acct["debt"]), snap(acct["free_cash"])
    vp, value = snap(acct["val_price"]), snap(acct["value"])
    same = dict(cash=cash, position=pos, debt=debt, free_cash=free)
    if isnan(o["size"]):
        return same, no(IGNORED, I_SIZE_NAN)
    if isnan(o["price"]):
        return same, no(IGNORED, I_PRICE_NAN)
    if isnan(cash) or cash < 0 or not isfinite(pos) or not isfinite(debt) or debt < 0 or isnan(free):
        raise Bad("account")
    if not isfinite(o["price"]) or o["price"] <= 0:
        raise Bad("price")
    if not 0 <= o["size_type"] < 6 or not 0 <= o["direction"] < 3:
        raise Bad("enum")
    if (o["direction"] == LONG and pos < 0) or (o["direction"] == SHORT and pos > 0):
        raise Bad("direction")
    if not isfinite(o["fees"]) or not isfinite(o["fixed_fees"]):
        raise Bad("fees")
    if not isfinite(o["slippage"]) or o["slippage"] < 0:
        raise Bad("slippage")
    if not isfinite(o["min_size"]) or o["min_size"] < 0 or isnan(o["max_size"]) or o["max_size"] <= 0:
        raise Bad("size limits")
    if isinf(o["size_granularity"]) or o["size_granularity"] <= 0:
        raise Bad("granularity")
    if not isfinite(o["reject_prob"]) or not 0 <= o["reject_prob"] <= 1:
        raise Bad("reject_prob")
    size, st = o["size"], o["size_type"]
    if o["direction"] == SHORT:
        size = -size
    if st == TARGET_PERCENT:
        if isnan(value):
            return same, no(IGNORED, I_VALUE_NAN)
        if value <= 0:
            return same, no(REJECTED, I_VALUE_ZERO_NEG)
        size, st = size * value, TARGET_VALUE
    if st in (VALUE, TARGET_VALUE):
        if isinf(vp) or vp <= 0:
            raise Bad("val_price")
        if isnan(vp):
            return same, no(IGNORED, I_VALPRICE_NAN)
        size, st = size / vp, (AMOUNT if st == VALUE else TARGET_AMOUNT)
    if st == TARGET_AMOUNT:
        size, st = size - pos, AMOUNT
    if st == AMOUNT and o["direction"] != LONG and size == -INF:
        size, st = -1.0, PERCENT          # "sell infinitely" means one full short
    pct = NAN
    if st == PERCENT:
        pct = abs(size)
        size = INF if size > 0 else (-INF if size < 0 else 0.0)
    if size > 0:
        new, r = buy(same, size, o, pct)
    else:
        new, r = sell(same, -size, o, pct)
    if r.status != FILLED:
        new = same
    return new, r


def buy(a, size, o, pct):
    price = o["price"] * (1 + o["slippage"])
    k, fx = 1 + o["fees"], o["fixed_fees"]
    limit = a["cash"]
    if o["lock_cash"]:
        if a["position"] >= 0:
            limit = a["free_cash"]
        else:
            need = abs(a["position"]) * price * k + fx
            left = add(a["free_cash"] + 2 * a["debt"], -need)
            if left > 0:      # enough to cover the short and go long
                limit = a["free_cash"] + 2 * a["debt"]
            elif left < 0:    # can only cover a part
                avg = a["debt"] / abs(a["position"])
                limit = (a["free_cash"] - fx) / (price * k - 2 * avg) * price * k + fx
    limit = min(limit, a["cash"])
    if not isnan(pct):
        limit = min(limit, pct * limit)
    if o["direction"] != SHORT:
        if limit == 0:
            return a, no(REJECTED, I_NO_CASH_LONG)
        if isinf(size) and isinf(limit):
            raise Bad("infinite long")
        want = size
    else:
        if a["position"] == 0:
            return a, no(REJECTED, I_NO_OPEN)
        want = min(-a["position"], size)
    if want == 0:
        return a, no(IGNORED, I_SIZE_ZERO)
    if want > o["max_size"]:
        if not o["allow_partial"]:
            return a, no(REJECTED, I_MAX_SIZE)
        want = o["max_size"]
    g = o["size_granularity"]
    if not isnan(g):
        want = floordiv(want, g) * g
    cost = want * price
    fees = cost * o["fees"] + fx
    total = cost + fees
    if leq(total, limit):
        got = want
    else:
        spend = add(limit, -fx) / k
        if spend <= 0:
            return a, no(REJECTED, I_FEES)
        got = spend / price
        if not isnan(g):
            got = floordiv(got, g) * g
            fees = got * price * o["fees"] + fx
            total = got * price + fees
        else:
            fees = limit - spend
            total = limit
    if near(got, 0.0):
        return a, no(IGNORED, I_SIZE_ZERO)
    if less(got, o["min_size"]):
        return a, no(REJECTED, I_MIN_SIZE)
    if isfinite(size) and less(got, size) and not o["allow_partial"]:
        return a, no(REJECTED, I_PARTIAL)
    cash, pos = add(a["cash"], -total), add(a["position"], got)
    debt, free = a["debt"], None
    if a["position"] < 0:
        closed = got if pos < 0 else abs(a["position"])
        released = closed * (a["debt"] / abs(a["position"]))
        debt = add(a["debt"], -released)
        free = add(a["free_cash"] + 2 * released, -total)
    else:
        free = add(a["free_cash"], -total)
    return dict(cash=cash, position=pos, debt=debt, free_cash=free), Res(got, price, fees, BUY, FILLED, -1)


def sell(a, size, o, pct):
    price = o["price"] * (1 - o["slippage"])
    fee, fx = o["fees"], o["fixed_fees"]
    full = isinf(size) and not isnan(pct)
    if o["direction"] == LONG:
        limit = min(a["position"], size)
    elif o["lock_cash"] or full:
        long_size = max(a["position"], 0)
        avail = add(a["free_cash"], long_size * price * (1 - fee))
        if avail <= 0:
            if a["position"] <= 0:
                return a, no(REJECTED, I_NO_CASH_SHORT)
            most = long_size
        else:
            most = add(long_size, add(avail, -fx) / (price * (1 + fee)))
            if most <= 0:
                return a, no(REJECTED, I_FEES)
        if o["lock_cash"]:
            if full:
                limit = min(pct * most, most)
            elif not isnan(pct):
                limit = min(pct * size, most)
            else:
                limit = min(size, most)
            pct = NAN
        else:
            limit = most
    else:
        limit = size
    if not isnan(pct):
        limit = pct * limit
        if o["direction"] == LONG:      # long-only never sells more than it holds
            limit = min(limit, a["position"])
    if limit > o["max_size"]:
        if not o["allow_partial"]:
            return a, no(REJECTED, I_MAX_SIZE)
        limit = o["max_size"]
    if o["direction"] != LONG:
        if isinf(limit):
            raise Bad("infinite short")
    elif a["position"] == 0:
        return a, no(REJECTED, I_NO_OPEN)
    g = o["size_granularity"]
    if not isnan(g):
        limit = floordiv(limit, g) * g
    if near(limit, 0.0):
        return a, no(IGNORED, I_SIZE_ZERO)
    if less(limit, o["min_size"]):
        return a, no(REJECTED, I_MIN_SIZE)
    if isfinite(size) and less(limit, size) and not o["allow_partial"]:
        return a, no(REJECTED, I_PARTIAL)
    gross = limit * price
    fees = gross * fee + fx
    net = add(gross, -fees)
    if net < 0:
        return a, no(REJECTED, I_FEES)
    cash, pos = a["cash"] + net, add(a["position"], -limit)
    debt = a["debt"]
    if pos < 0:
        shorted = limit if a["position"] < 0 else abs(pos)
        debt = a["debt"] + shorted * price
        free = add(a["free_cash"], add(net, -2 * (shorted * price)))
    else:
        free = a["free_cash"] + net
    return dict(cash=cash, position=pos, debt=debt, free_cash=free), Res(limit, price, fees, SELL, FILLED, -1)


# --------------------------------------------------------------------------------------------------
class RejectRaised(Exception):
    pass


class Acct:
    """Account ledger of one cash group."""

    def __init__(self, cash):
        self.cash = self.free = float(cash)


class Sim:
    """Shared state of a whole simulation; groups are processed one after another, rows inside."""

    def __init__(self, n_rows, group_lens, init_cash, update_value=False, ffill_val_price=True):
        self.n = n_rows
        self.gl = [int(x) for x in group_lens]
        self.init_cash = [float(x) for x in init_cash]
        ncol = sum(self.gl)
        self.pos = [0.0] * ncol
        self.debt = [0.0] * ncol
        self.vp = [NAN] * ncol
        self.orders, self.logs = [], []
        self.upd, self.ffill = update_value, ffill_val_price

    def group_value(self, acct, cols):
        v = acct.cash
        for c in cols:
            if self.pos[c] != 0:
                v += self.pos[c] * self.vp[c]
        return v

    def set_vp(self, col, v):
        if not isnan(v) or not self.ffill:
            self.vp[col] = v

    def place(self, i, col, group, acct, value, o):
        """Execute one order; returns (value_now, Res)."""
        before = dict(cash=acct.cash, position=self.pos[col], debt=self.debt[col], free_cash=acct.free,
                      val_price=self.vp[col], value=value)
        new, r = fill(before, o)
        if r.status == REJECTED and o["raise_reject"]:
            raise RejectRaised()
        nvp, nvalue = before["val_price"], value
        if r.status == FILLED and self.upd:
            av0 = before["position"] * before["val_price"] if before["position"] != 0 else 0.0
            av1 = new["position"] * r.price if new["position"] != 0 else 0.0
            nvp, nvalue = r.price, value + (new["cash"] - before["cash"]) + (av1 - av0)
        oid = -1
        if r.status == FILLED:
            oid = len(self.orders)
            self.orders.append(dict(id=oid, col=col, idx=i, size=r.size, price=r.price, fees=r.fees, side=r.side))
        if o["log"]:
            rec = dict(id=len(self.logs), group=group, col=col, idx=i, **before)
            rec.update({"req_" + k: o[k] for k in ORDER_DEFAULTS})
            rec.update(new_cash=new["cash"], new_position=new["position"], new_debt=new["debt"],
                       new_free_cash=new["free_cash"], new_val_price=nvp, new_value=nvalue, res_size=r.size,
                       res_price=r.price, res_fees=r.fees, res_side=r.side, res_status=r.status,
                       res_status_info=r.info, order_id=oid)
            self.logs.append(rec)
        self.after_vp = nvp
        acct.cash, acct.free = new["cash"], new["free_cash"]
        self.pos[col], self.debt[col] = new["position"], new["debt"]
        if not isnan(nvp) or not self.ffill:
            self.vp[col] = nvp
        return nvalue, r


def resolve_price(p, close, prev_close, lower=None):
    if isinf(p):
        if p > 0:
            return close
        return prev_close if lower is None else lower
    return p


def approx_value(size, st, direction, cash, pos, free, vp, value):
    if direction == SHORT:
        size = -size
    av = pos * vp
    if st == AMOUNT:
        return size * vp
    if st == VALUE:
        return size
    if st == PERCENT:
        if size >= 0:
            return size * cash
        return size * av if direction == LONG else size * (2 * max(av, 0) + max(free, 0))
    if st == TARGET_AMOUNT:
        return size * vp - av
    if st == TARGET_VALUE:
        return size - av
    return size * value - av


def stable_argsort(vals, seq):
    """Ascending by value, stable for ties, NaN values last."""
    v, s = list(vals), list(seq)
    for k in range(1, len(v)):
        x, y, j = v[k], s[k], k
        while j > 0 and (v[j - 1] > x or isnan(v[j - 1])):
            v[j], s[j] = v[j - 1], s[j - 1]
            j -= 1
        v[j], s[j] = x, y
    return s


def from_orders(n_rows, group_lens, init_cash, call_seq, get, close, auto=False, update_value=False, ffill=True):
    """get(name, i, col) -> raw element of an order argument (incl. val_price). call_seq is a list of lists and is
    returned as used. cash sharing iff some group has more than one column."""
    S = Sim(n_rows, group_lens, init_cash, update_value, ffill)
    used = [list(r) for r in call_seq] if call_seq is not None else None
    c0 = 0
    for g, gl in enumerate(S.gl):
        cols = list(range(c0, c0 + gl))
        acct = Acct(S.init_cash[g])
        for i in range(n_rows):
            price = {}
            for c in cols:
                pc = close(i - 1, c) if i > 0 else NAN
                price[c] = resolve_price(get("price", i, c), close(i, c), pc)
                v = get("val_price", i, c)
                if isinf(v):
                    v = price[c] if v > 0 else pc
                S.set_vp(c, v)
            value = S.group_value(acct, cols)
            seq = list(range(gl))
            if used is not None:
                seq = used[i][c0:c0 + gl]
                if auto and any(x > 1 for x in S.gl):
                    ov = [approx_value(get("size", i, c), get("size_type", i, c), get("direction", i, c), acct.cash,
                                       S.pos[c], acct.free, S.vp[c], value) for c in cols]
                    seq = stable_argsort(ov, seq)
                    used[i][c0:c0 + gl] = seq
            for k in range(gl):
                c = cols[seq[k]] if gl > 1 or any(x > 1 for x in S.gl) else cols[k]
                o = {n: get(n, i, c) for n in ORDER_DEFAULTS}
                o["price"] = price[c]
                value, _ = S.place(i, c, g, acct, value, o)
        c0 += gl
    return S, used


# ------------------------------------------------------------------------------------- signals
SIGNAL_DEFAULTS = dict(accumulate=0, upon_long_conflict=0, upon_short_conflict=0, upon_dir_conflict=0, upon_opposite_entry=4,
                       sl_stop=NAN, sl_trail=False, tp_stop=NAN, stop_entry_price=3, stop_exit_price=0, upon_stop_exit=0,
                       upon_stop_update=1)
ACC_OFF, ACC_BOTH, ACC_ADD, ACC_REMOVE = range(4)


def pick_conflict(pos, entry, exit_, mode):
    """Entry and exit of the same side at once -> which one survives (ConflictMode)."""
    if not (entry and exit_):
        return entry, exit_
    keep = {0: None, 1: "entry", 2: "exit",
            3: "entry" if pos != 0 else None, 4: "exit" if pos != 0 else None}[mode]
    return keep == "entry", keep == "exit"


def pick_direction(pos, le, se, mode):
    if not (le and se):
        return le, se
    cur = "long" if pos > 0 else ("short" if pos < 0 else None)
    opp = {"long": "short", "short": "long", None: None}[cur]
    keep = {0: None, 1: "long", 2: "short", 3: cur, 4: opp}[mode]
    return keep == "long", keep == "short"


def resolve_signals(pos, le, lx, se, sx, acc, long_c, short_c, dir_c, opp):
    """Documented resolution of raw signals. Returns (le, lx, se, sx, accumulation)."""
    if not (le or se):
        return le, lx, se, sx, acc
    le, lx = pick_conflict(pos, le, lx, long_c)
    se, sx = pick_conflict(pos, se, sx, short_c)
    le, se = pick_direction(pos, le, se, dir_c)
    if pos > 0 and se:
        if opp in (0, 1, 2):
            se = False
        if opp in (1, 2):
            lx = True
        if opp in (1, 3):
            acc = ACC_OFF
    elif pos < 0 and le:
        if opp in (0, 1, 2):
            le = False
        if opp in (1, 2):
            sx = True
        if opp in (1, 3):
            acc = ACC_OFF
    return le, lx, se, sx, acc


def signal_order(pos, le, lx, se, sx, size, st, acc, vp):
    """(signed size where + is buy, size type, direction) or None for no order."""
    if st not in (AMOUNT, VALUE, PERCENT):
        raise Bad("size type")
    if less(size, 0.0):
        raise Bad("negative size")
    may_add, may_reduce = acc in (ACC_BOTH, ACC_ADD), acc in (ACC_BOTH, ACC_REMOVE)
    sign, d = 0.0, BOTH
    if pos == 0:
        if le:
            sign = 1.0
        elif se:
            sign = -1.0
        else:
            return None
        out = sign * size, st, BOTH
    else:
        side = 1.0 if pos > 0 else -1.0
        entry, exit_, opposite = (le, lx, se) if pos > 0 else (se, sx, le)
        own = LONG if pos > 0 else SHORT
        if opposite:
            if may_reduce:
                out = -side * size, st, BOTH
            else:
                q = abs(pos)
                if not isnan(size):
                    if st == PERCENT:
                        raise Bad("percent reversal")
                    if st == VALUE:
                        q += (size / vp if vp != 0 else (INF if size > 0 else NAN))
                    else:
                        q += size
                out = -side * q, AMOUNT, BOTH
        elif exit_:
            out = (-side * size, st, own) if may_reduce else (-side * abs(pos), AMOUNT, own)
        elif entry and may_add:
            out = side * size, st, own
        else:
            return None
    return None if out[0] == 0 else out


def stop_level_hit(pos, base, stop, o, lo, hi, loss):
    """Execution price if the level derived from base is reached inside the bar, else NaN."""
    if stop < 0:
        raise Bad("negative stop")
    if pos == 0:
        return NAN
    below = (pos > 0) == loss       # long loss / short profit levels lie below
    level = base * (1 - stop) if below else base * (1 + stop)
    if (below and o <= level) or (not below and o >= level):
        return o
    return level if lo <= level <= hi else NAN


def from_signals(n_rows, group_lens, init_cash, call_seq, get, bar, signals, auto=False, update_value=False, ffill=True,
                 use_stops=True, adjust_sl=None, adjust_tp=None, trace=None):
    """bar(i, col) -> (open, high, low, close); signals(i, col, pos, vp) -> 4 bools."""
    S = Sim(n_rows, group_lens, init_cash, update_value, ffill)
    used = [list(r) for r in call_seq]
    shared = any(x > 1 for x in S.gl)
    ncol = sum(S.gl)
    blank = lambda: dict(sl_base0=NAN, sl_base=NAN, sl=NAN, trail=False, sl_i0=-1, sl_i=-1, tp_base=NAN, tp=NAN, tp_i=-1)
    stops = [blank() for _ in range(ncol)]
    ev = trace if trace is not None else []
    c0 = 0
    for g, gl in enumerate(S.gl):
        cols = list(range(c0, c0 + gl))
        acct = Acct(S.init_cash[g])
        for i in range(n_rows):
            price, slip, plan, ov = {}, {}, {}, []
            for c in cols:
                o, h, l, cl = bar(i, c)
                pc = bar(i - 1, c)[3] if i > 0 else NAN
                price[c] = resolve_price(get("price", i, c), cl, pc, lower=o if not isnan(o) else pc)
                v = get("val_price", i, c)
                if isinf(v):
                    v = price[c] if v > 0 else pc
                S.set_vp(c, v)
            for c in cols:
                pos, s = S.pos[c], stops[c]
                slip[c] = get("slippage", i, c)
                hit, kind = NAN, None
                if use_stops:
                    if adjust_sl is not None:
                        s["sl"], s["trail"] = adjust_sl(dict(i=i, col=c, position_now=pos, val_price_now=S.vp[c], init_i=s["sl_i0"],
                                                             init_price=s["sl_base0"], curr_i=s["sl_i"], curr_price=s["sl_base"],
                                                             curr_stop=s["sl"], curr_trail=s["trail"]))
                    if adjust_tp is not None:
                        s["tp"] = adjust_tp(dict(i=i, col=c, position_now=pos, val_price_now=S.vp[c], init_i=s["tp_i"],
                                                 init_price=s["tp_base"], curr_stop=s["tp"]))
                    o, h, l, cl = bar(i, c)
                    o = cl if isnan(o) else o
                    l = min(o, cl) if isnan(l) else l
                    h = max(o, cl) if isnan(h) else h
                    if not isnan(s["sl"]):
                        hit = stop_level_hit(pos, s["sl_base"], s["sl"], o, l, h, True)
                        kind = "sl"
                    if isnan(hit) and not isnan(s["tp"]):
                        hit = stop_level_hit(pos, s["tp_base"], s["tp"], o, l, h, False)
                        kind = "tp"
                    if not isnan(s["sl"]) and s["trail"]:      # a trailing stop follows the best price seen
                        if pos > 0 and h > s["sl_base"]:
                            s["sl_base"], s["sl_i"] = h, i
                        elif pos < 0 and l < s["sl_base"]:
                            s["sl_base"], s["sl_i"] = l, i
                acc = get("accumulate", i, c)
                if not isnan(hit):
                    mode = get("upon_stop_exit", i, c)
                    long = pos > 0
                    le = lx = se = sx = False
                    if mode in (0, 1):
                        lx, sx = long, not long
                    else:
                        se, le = long, not long
                    if mode in (0, 2):
                        acc = ACC_OFF
                    sep = get("stop_exit_price", i, c)
                    if sep == 0:
                        price[c], slip[c] = hit, 0.0
                    elif sep == 1:
                        price[c] = hit
                    elif sep == 3:
                        price[c] = bar(i, c)[3]
                    ev.append((i, c, kind))
                else:
                    le, lx, se, sx = signals(i, c, pos, S.vp[c])
                    le, lx, se, sx, acc = resolve_signals(pos, le, lx, se, sx, acc, get("upon_long_conflict", i, c),
                                                          get("upon_short_conflict", i, c), get("upon_dir_conflict", i, c),
                                                          get("upon_opposite_entry", i, c))
                plan[c] = signal_order(pos, le, lx, se, sx, get("size", i, c), get("size_type", i, c), acc, S.vp[c])
                if shared:
                    if plan[c] is None:
                        ov.append(0.0)
                    else:
                        q, st, d = plan[c]
                        ov.append(q * S.vp[c] if st == AMOUNT else q if st == VALUE else approx_value(
                            q if d != SHORT else -q, PERCENT, d, acct.cash, S.pos[c], acct.free, S.vp[c], NAN))
            value = S.group_value(acct, cols)
            seq = list(range(gl))
            if shared:
                seq = used[i][c0:c0 + gl]
                if auto:
                    seq = stable_argsort(ov, seq)
                    used[i][c0:c0 + gl] = seq
            for k in range(gl):
                c = cols[seq[k]]
                if plan[c] is None:
                    continue
                q, st, d = plan[c]
                o = {n: get(n, i, c) for n in ORDER_DEFAULTS if n not in ("size", "price", "size_type", "direction", "slippage")}
                o.update(size=-q if d == SHORT else q, price=price[c], size_type=st, direction=d, slippage=slip[c])
                before = S.pos[c]
                value, r = S.place(i, c, g, acct, value, o)
                if use_stops and r.status == FILLED:
                    s, now = stops[c], S.pos[c]
                    if now == 0:
                        stops[c] = blank()
                    else:
                        sep = get("stop_entry_price", i, c)
                        base = [S.after_vp, price[c], r.price, bar(i, c)[3]][sep]
                        sl, tr, tp = get("sl_stop", i, c), get("sl_trail", i, c), get("tp_stop", i, c)
                        fresh = before == 0 or (before > 0) != (now > 0)
                        mode = get("upon_stop_update", i, c)
                        grew = abs(now) > abs(before)
                        upd = lambda x: fresh or (grew and ((mode == 1 and not isnan(x)) or mode == 2))
                        if upd(sl):
                            s.update(sl_base0=base, sl_base=base, sl=sl, trail=tr, sl_i0=i, sl_i=i)
                        if upd(tp):
                            s.update(tp_base=base, tp=tp, tp_i=i)
        c0 += gl
    return S, used


# --------------------------------------------------------------------------- order functions
def ratio_return(a, b):
    """Relative change from a to b (sign-aware for negative bases)."""
    if a == 0:
        return 0.0 if b == 0 else (INF if b > 0 else -INF if b < 0 else NAN)
    r = (b - a) / a
    return -r if a < 0 else r


class PosRec:
    """What the documentation says about the record of a column's last position."""

    def __init__(self):
        self.id, self.entries, self.exits, self.dir, self.open = -1, [], [], -1, False
        self.entry_idx = self.exit_idx = -1
        self.col = -1
        self.last = (NAN, NAN)

    def start(self, i, col, size, price, fees, side):
        self.id += 1
        self.col, self.entries, self.exits = col, [(size, price, fees)], []
        self.dir, self.open, self.entry_idx, self.exit_idx = (0 if side == BUY else 1), True, i, -1

    def on_fill(self, i, col, before, now, r):
        if before == 0:
            self.start(i, col, r.size, r.price, r.fees, r.side)
        elif now == 0:
            self.exits.append((abs(before), r.price, r.fees))
            self.open, self.exit_idx = False, i
        elif (before > 0) != (now > 0):
            self.start(i, col, abs(now), r.price, r.fees * abs(now) / abs(now - before), r.side)
        elif abs(now) >= abs(before):
            self.entries.append((r.size, r.price, r.fees))
        else:
            self.exits.append((r.size, r.price, r.fees))
        self.mark(r.price)

    def mark(self, price):
        if self.id < 0:
            return
        size = sum(e[0] for e in self.entries)
        out = sum(e[0] for e in self.exits)
        gross_in = sum(e[0] * e[1] for e in self.entries)
        gross_out = sum(e[0] * e[1] for e in self.exits)
        if self.open:
            gross_out += (size - out) * price
        elif price is None:
            return
        pnl = gross_out - gross_in if self.dir == 0 else gross_in - gross_out
        pnl -= sum(e[2] for e in self.entries) + sum(e[2] for e in self.exits)
        if self.open or not self.closed_marked:
            self.last = (pnl, pnl / gross_in)
        self.closed_marked = not self.open

    closed_marked = False

    def row(self):
        if self.id < 0:
            return dict(id=-1)
        size = sum(e[0] for e in self.entries)
        out = sum(e[0] for e in self.exits)
        return dict(id=self.id, col=self.col, size=size, entry_idx=self.entry_idx,
                    entry_price=sum(e[0] * e[1] for e in self.entries) / size, entry_fees=sum(e[2] for e in self.entries),
                    exit_idx=self.exit_idx, exit_price=sum(e[0] * e[1] for e in self.exits) / out if self.exits else NAN,
                    exit_fees=sum(e[2] for e in self.exits), pnl=self.last[0], direction=self.dir, status=0 if self.open else 1,
                    parent_id=self.id, **{"return": self.last[1]})


def from_func(n, gl, sharing, init_cash, close, program, call_seq=None, mask=None, pre_vp=None, row_wise=False, flexible=False,
              update_value=False, ffill=True, call_pre=False, call_post=False, track_pos=True, events=None):
    """Order-function simulation.

    program(i, g, k, col, view) -> order dict (col given) or, if flexible, (col, order) / None to end.
    pre_vp(i, g) -> {col: valuation price} set inside the pre-segment callback.
    events collects (name, args, snapshot) in callback order."""
    S = Sim(n, gl, init_cash, update_value, ffill)
    ncol = sum(S.gl)
    start = [sum(S.gl[:g]) for g in range(len(S.gl))]
    unit = {c: (g if sharing else c) for g in range(len(S.gl)) for c in range(start[g], start[g] + S.gl[g])}
    nu = len(S.gl) if sharing else ncol
    acct = [Acct(x) for x in init_cash]
    assert len(acct) == nu
    S.accts = acct
    val, prev, last_v, ret = [a.cash for a in acct], [a.cash for a in acct], [a.cash for a in acct], [NAN] * nu
    # val: running value, prev: value two bars back ("second last"), last_v: value of the last finished bar
    S.states = []
    lo, ll = [-1] * ncol, [-1] * ncol
    recs = [PosRec() for _ in range(ncol)]
    cols_of = lambda g: list(range(start[g], start[g] + S.gl[g]))

    def snap_(**kw):
        d = dict(last_cash=[a.cash for a in acct], last_free_cash=[a.free for a in acct], last_position=list(S.pos), last_debt=list(S.debt),
                 last_val_price=list(S.vp), last_value=list(val), second_last_value=list(prev), last_return=list(ret), last_oidx=list(lo),
                 last_lidx=list(ll), n_orders=len(S.orders), n_logs=len(S.logs))
        if track_pos:
            d["last_pos_record"] = [r.row() for r in recs]
        d.update(kw)
        return d

    def emit(name, args, **kw):
        if events is not None:
            events.append((name, args, snap_(**kw)))

    def revalue(g):
        us = [g] if sharing else cols_of(g)
        for u in us:
            cs = cols_of(g) if sharing else [u]
            v = acct[u].cash
            for c in cs:
                if S.pos[c] != 0:
                    v += S.pos[c] * S.vp[c]
            val[u] = v
        return us

    def gkw(g):
        return dict(group=g, group_len=S.gl[g], from_col=start[g], to_col=start[g] + S.gl[g])

    def segment(i, g, up):
        cols = cols_of(g)
        act = True if mask is None else bool(mask[i][g])
        seq = call_seq[i][start[g]:start[g] + S.gl[g]] if call_seq is not None else None
        kw = dict(i=i, **gkw(g))
        if not flexible:
            kw["call_seq_now"] = list(seq)
        if call_pre or act:
            emit("pre_segment", up, **kw)
            for c, v in (pre_vp(i, g) if pre_vp else {}).items():
                S.vp[c] = v
        seg_out = ("seg", i, g)
        if track_pos:
            for c in cols:
                if recs[c].open:
                    recs[c].mark(S.vp[c])
        for u in revalue(g):
            ret[u] = ratio_return(prev[u], val[u])
        if act:
            k = -1
            while True:
                k += 1
                if not flexible:
                    if k >= S.gl[g]:
                        break
                    c = cols[seq[k]]
                    u = unit[c]
                    rec = recs[c].row() if track_pos else None
                    emit("order", seg_out, **kw, col=c, call_idx=k, cash_now=acct[u].cash, position_now=S.pos[c], debt_now=S.debt[c],
                         free_cash_now=acct[u].free, val_price_now=S.vp[c], value_now=val[u], return_now=ret[u], pos_record_now=rec)
                    o = program(i, g, k, c, S)
                else:
                    emit("order", seg_out, **kw, call_idx=k)
                    x = program(i, g, k, None, S)
                    if x is None:
                        break
                    c, o = x
                    if c < cols[0] or c > cols[-1]:
                        raise Bad("column outside group")
                    u = unit[c]
                o = dict(o)
                o["price"] = resolve_price(o["price"], close(i, c), close(i - 1, c) if i > 0 else NAN)
                b = dict(cash_before=acct[u].cash, position_before=S.pos[c], debt_before=S.debt[c], free_cash_before=acct[u].free,
                         val_price_before=S.vp[c], value_before=val[u])
                n_o, n_l = len(S.orders), len(S.logs)
                val[u], r = S.place(i, c, g, acct[u], val[u], o)
                ret[u] = ratio_return(prev[u], val[u])
                if len(S.orders) > n_o:
                    lo[c] = n_o
                if len(S.logs) > n_l:
                    ll[c] = n_l
                if track_pos and r.status == FILLED:
                    recs[c].on_fill(i, c, snap(b["position_before"]), S.pos[c], r)
                emit("post_order", seg_out, **kw, col=c, call_idx=k, **b, cash_now=acct[u].cash, position_now=S.pos[c], debt_now=S.debt[c],
                     free_cash_now=acct[u].free, val_price_now=S.after_vp, value_now=val[u], return_now=ret[u],
                     pos_record_now=recs[c].row() if track_pos else None, order_result=list(r))
        for c in cols:
            S.set_vp(c, close(i, c))
        for u in revalue(g):
            prev[u] = last_v[u]
            last_v[u] = val[u]
            ret[u] = ratio_return(prev[u], val[u])
        if track_pos:
            for c in cols:
                if recs[c].open:
                    recs[c].mark(S.vp[c])
        if call_post or act:
            emit("post_segment", up, **kw)
        S.states.append((i, g, {c: (S.pos[c], acct[unit[c]].cash, acct[unit[c]].free) for c in cols}))

    emit("pre_sim", ())
    if row_wise:
        for i in range(n):
            emit("pre_row", ("sim",), i=i)
            for g in range(len(S.gl)):
                segment(i, g, ("row", i))
            emit("post_row", ("sim",), i=i)
    else:
        for g in range(len(S.gl)):
            emit("pre_group", ("sim",), **gkw(g))
            for i in range(n):
                segment(i, g, ("group", g))
            emit("post_group", ("sim",), **gkw(g))
    emit("post_sim", ())
    return S
