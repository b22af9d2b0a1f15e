"""Reference formulas of return and risk metrics on one return series (independent of the package under test)."""
import math
import numpy as np

NAN, INF = float("nan"), float("inf")


def _v(r):
    return np.asarray([float(x) for x in r if not math.isnan(x)], float)


def total(r):
    p = 1.0
    for x in _v(r):
        p *= 1 + x
    return p - 1


def cumulative(r, start=0.0):
    p, out = 1.0, []
    for x in r:
        if not math.isnan(x):
            p *= 1 + x
        out.append(p)
    out = np.array(out, float)
    return out - 1 if start == 0 else out * start


def _pow(b, e):
    with np.errstate(all="ignore"):
        return float(np.power(np.float64(b), np.float64(e)))


def annualized(r, ann):
    return NAN if len(r) == 0 else _pow(1 + total(r), ann / len(r)) - 1


def std(x, ddof):
    x = _v(x)
    if len(x) - ddof <= 0:
        return NAN
    m = x.mean()
    return math.sqrt(((x - m) ** 2).sum() / (len(x) - ddof))


def mean(x):
    x = _v(x)
    return x.mean() if len(x) else NAN


def annualized_volatility(r, ann, levy_alpha=2.0, ddof=1):
    return NAN if len(r) < 2 else std(r, ddof) * ann ** (1 / levy_alpha)


def drawdown(r):
    c = cumulative(r, 1.0)
    return c / np.maximum.accumulate(c) - 1 if len(c) else c


def max_drawdown(r):
    return float(drawdown(r).min())


def calmar_ratio(r, ann):
    d = max_drawdown(r)
    return NAN if d == 0 else annualized(r, ann) / abs(d)


def omega_ratio(r, ann, risk_free=0.0, required_return=0.0):
    if ann == 1:
        t = required_return
    else:
        t = (1 + required_return) ** (1 / ann) - 1
    x = _v(r) - risk_free - t
    up, dn = x[x > 0].sum(), -x[x < 0].sum()
    return INF if dn == 0 else up / dn


def sharpe_ratio(r, ann, risk_free=0.0, ddof=1):
    if len(r) < 2:
        return NAN
    x = np.asarray(r, float) - risk_free
    s = std(x, ddof)
    return INF if s == 0 else mean(x) / s * math.sqrt(ann)


def downside_risk(r, ann, required_return=0.0):
    x = np.minimum(_v(r) - required_return, 0)
    return math.sqrt((x ** 2).mean()) * math.sqrt(ann) if len(x) else NAN


def sortino_ratio(r, ann, required_return=0.0):
    if len(r) < 2:
        return NAN
    d = downside_risk(r, ann, required_return)
    return INF if d == 0 else mean(np.asarray(r, float) - required_return) * ann / d


def information_ratio(r, b, ddof=1):
    if len(r) < 2:
        return NAN
    x = np.asarray(r, float) - np.asarray(b, float)
    s = std(x, ddof)
    return INF if s == 0 else mean(x) / s


def beta(r, b):
    if len(r) < 2:
        return NAN
    r, b = np.asarray(r, float), np.asarray(b, float)
    ind = np.where(np.isnan(r), NAN, b)
    if not (~np.isnan(ind)).any():
        return NAN
    res = ind - np.nanmean(ind)
    var = np.nanmean(res ** 2)
    if var < 1e-30:
        return NAN
    return np.nanmean(res * r) / var


def alpha(r, b, ann, risk_free=0.0):
    if len(r) < 2:
        return NAN
    be = beta(r, b)
    x = (np.asarray(r, float) - risk_free) - be * (np.asarray(b, float) - risk_free)
    return _pow(mean(x) + 1, ann) - 1


def _pct(x, q):
    x = sorted(_v(x))
    k = (len(x) - 1) * q
    f = int(math.floor(k))
    c = min(f + 1, len(x) - 1)
    return x[f] + (x[c] - x[f]) * (k - f)


def tail_ratio(r):
    if not len(_v(r)):
        return NAN
    hi, lo = abs(_pct(r, 0.95)), abs(_pct(r, 0.05))
    return INF if lo == 0 else hi / lo


def value_at_risk(r, cutoff=0.05):
    return _pct(r, cutoff) if len(_v(r)) else NAN


def cond_value_at_risk(r, cutoff=0.05):
    if len(r) == 0:
        return NAN
    k = int((len(r) - 1) * cutoff)
    return float(np.mean(np.sort(np.asarray(r, float))[:k + 1]))


def common_sense_ratio(r, ann):
    return tail_ratio(r) * (1 + annualized(r, ann))


def capture(r, b, ann):
    d = annualized(b, ann)
    return INF if d == 0 else annualized(r, ann) / d


def up_capture(r, b, ann):
    r, b = np.asarray(r, float), np.asarray(b, float)
    m = b > 0
    return NAN if not m.any() else capture(r[m], b[m], ann)


def down_capture(r, b, ann):
    r, b = np.asarray(r, float), np.asarray(b, float)
    m = b < 0
    return NAN if not m.any() else capture(r[m], b[m], ann)


def returns(value, init):
    out, prev = [], float(init)
    for x in value:
        x = float(x)
        if prev == 0:
            out.append(0.0 if x == 0 else (NAN if math.isnan(x) else math.copysign(INF, x)))
        else:
            out.append((x - prev) / abs(prev))
        prev = x
    return np.array(out, float)
