"""Worker-side helpers: contexts, comparisons, poisoned allocation."""
import hashlib, json, math, os
import numpy as np
import pandas as pd


class Violation(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the property's domain."""


MONITORS = {}
_FINDINGS = []


def _findings():
    if not _FINDINGS:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
        _FINDINGS.append(json.load(open(p))["findings"])
    return _FINDINGS[0]


def monitor(weight=1.0, modes=("pure",), name=None, once=False):
    def deco(f):
        MONITORS[(f.__module__, name or f.__name__)] = dict(f=f, weight=weight, modes=modes, once=once)
        return f
    return deco


class Ctx:
    def __init__(self, rng, mode, tier, case, state):
        self.rng, self.mode, self.tier, self.case, self.state = rng, mode, tier, case, state
        self.desc = {}

    # --- observation counters
    def seen(self, what, n=1):
        c = self.state["counters"]
        c[what] = c.get(what, 0) + int(n)

    def nontrivial(self, *key):
        h = hashlib.md5(repr(key).encode()).hexdigest()[:12]
        self.state["hashes"].add(h)

    def sample(self, **kw):
        if len(self.state["samples"]) < 3:
            self.state["samples"].append(short(kw))

    def known(self, key, text):
        """A violation by a mechanism listed in known_findings.json; anything not listed there is a violation."""
        for f in _findings():
            if f["property"] == self.state.get("pid") and f["key"] == key:
                self.state["known"][key] = f"[{key}] {f['what']}"
                return
        self.fail(text)

    # --- oracles
    def fail(self, msg, **data):
        raise Violation(msg + (" | " + json.dumps(short(data), default=str)[:3500] if data else ""))

    def check(self, cond, msg, **data):
        if not cond:
            self.fail(msg, **data)

    def eq(self, actual, expected, msg="", rtol=1e-9, atol=1e-12, **data):
        d = diff(actual, expected, rtol, atol)
        if d is not None:
            self.fail(f"{msg}: {d}", actual=actual, expected=expected, **data)

    def raises(self, exc, f, *a, msg="", **kw):
        try:
            r = f(*a, **kw)
        except exc as e:
            return e
        self.fail(f"{msg}: expected {exc} but got a result", result=r)


def short(x, depth=0):
    if isinstance(x, dict):
        return {str(k): short(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)):
        return [short(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return [str(r) for r in x[:30].tolist()]
        s = np.array2string(x, threshold=200, max_line_width=400, precision=12) if x.size <= 400 else f"array{x.shape} {x.ravel()[:40]}"
        return s
    if isinstance(x, pd.Series):
        return x.to_string(max_rows=30)
    if isinstance(x, pd.DataFrame):
        return x.to_string(max_rows=30, max_cols=12)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)[:600]


def to_np(x):
    if isinstance(x, (pd.Series, pd.DataFrame, pd.Index)):
        return x.to_numpy()
    return np.asarray(x)


def diff(a, e, rtol=1e-9, atol=1e-12):
    """None if equal (NaN equal, inf equal), else a short explanation."""
    if isinstance(a, dict) and isinstance(e, dict):
        if list(a) != list(e):
            return f"keys {list(a)} != {list(e)}"
        for k in a:
            d = diff(a[k], e[k], rtol, atol)
            if d:
                return f"[{k}] {d}"
        return None
    if isinstance(a, (list, tuple)) and isinstance(e, (list, tuple)):
        if len(a) != len(e):
            return f"length {len(a)} != {len(e)}"
        for i, (x, y) in enumerate(zip(a, e)):
            d = diff(x, y, rtol, atol)
            if d:
                return f"[{i}] {d}"
        return None
    if isinstance(e, (pd.Series, pd.DataFrame)) and isinstance(a, (pd.Series, pd.DataFrame)):
        if type(a) is not type(e):
            return f"type {type(a).__name__} != {type(e).__name__}"
        if a.shape != e.shape:
            return f"shape {a.shape} != {e.shape}"
        if not idx_equal(a.index, e.index):
            return f"index {list(a.index)[:20]} != {list(e.index)[:20]}"
        if isinstance(e, pd.DataFrame) and not idx_equal(a.columns, e.columns):
            return f"columns {list(a.columns)} != {list(e.columns)} names {a.columns.names} {e.columns.names}"
    a, e = to_np(a), to_np(e)
    if a.shape != e.shape:
        return f"shape {a.shape} != {e.shape}"
    if a.dtype.names or e.dtype.names:
        if a.dtype.names != e.dtype.names:
            return f"fields {a.dtype.names} != {e.dtype.names}"
        for n in a.dtype.names:
            d = diff(a[n], e[n], rtol, atol)
            if d:
                return f"field {n}: {d}"
        return None
    if a.dtype.kind in "fiub" and e.dtype.kind in "fiub":
        if a.dtype.kind == "f" or e.dtype.kind == "f":
            with np.errstate(all="ignore"):
                af, ef = a.astype(float), e.astype(float)
                ok = (np.isnan(af) & np.isnan(ef)) | (af == ef) | (
                    np.isfinite(af) & np.isfinite(ef) & (np.abs(af - ef) <= atol + rtol * np.maximum(np.abs(ef), np.abs(af))))
        else:
            ok = a == e
    elif a.dtype.kind in "mM" and e.dtype.kind in "mM":
        ok = (a == e) | (pd.isnull(a) & pd.isnull(e))
    else:
        ao, eo = a.astype(object), e.astype(object)
        ok = np.zeros(a.shape, bool)
        for ix in np.ndindex(*a.shape):
            ok[ix] = scalar_eq(ao[ix], eo[ix], rtol, atol)
    ok = np.asarray(ok)
    if ok.all():
        return None
    bad = np.argwhere(~ok)
    w = tuple(bad[0])
    return f"{len(bad)} cells differ, first at {tuple(int(i) for i in w)}: got {a[w]!r}, expected {e[w]!r}"


def scalar_eq(x, y, rtol=1e-9, atol=1e-12):
    try:
        if x is y:
            return True
        xn, yn = isnull(x), isnull(y)
        if xn or yn:
            return bool(xn and yn)
        if isinstance(x, (int, float, np.number)) and isinstance(y, (int, float, np.number)) and not isinstance(x, bool):
            fx, fy = float(x), float(y)
            return fx == fy or abs(fx - fy) <= atol + rtol * max(abs(fx), abs(fy))
        return bool(x == y)
    except Exception:
        return False


def isnull(x):
    try:
        r = pd.isnull(x)
        return bool(r) if np.ndim(r) == 0 else False
    except Exception:
        return False


def idx_equal(a, b, names=True):
    if len(a) != len(b):
        return False
    if isinstance(a, pd.MultiIndex) != isinstance(b, pd.MultiIndex):
        return False
    if names and list(a.names) != list(b.names):
        return False
    la, lb = list(a), list(b)
    for x, y in zip(la, lb):
        if isinstance(x, tuple):
            if len(x) != len(y) or not all(scalar_eq(i, j) for i, j in zip(x, y)):
                return False
        elif not scalar_eq(x, y):
            return False
    return True


# ----------------------------------------------------------------------------- sanitizers
_real_empty, _real_empty_like = np.empty, np.empty_like
POISON = {"f": 7.77e300, "i": -77, "b": 0xA5}


def _poison(arr):
    try:
        if arr.dtype.kind == "f":
            arr.fill(POISON["f"])
        elif arr.dtype.kind in "iu":
            arr.fill(POISON["i"] if arr.dtype.kind == "i" else 200)
        elif arr.dtype.kind == "b":
            arr.fill(POISON["b"] & 1)
        elif arr.dtype.names and not arr.dtype.hasobject:
            arr.view(np.uint8).fill(POISON["b"])
    except Exception:
        pass
    return arr


def install_poison(f=7.77e300, i=-77, b=0xA5):
    """np.empty/np.empty_like hand out recognisable garbage, so stale memory becomes an observable value."""
    POISON.update(f=f, i=i, b=b)

    def empty(*a, **k):
        return _poison(_real_empty(*a, **k))

    def empty_like(*a, **k):
        return _poison(_real_empty_like(*a, **k))

    np.empty, np.empty_like = empty, empty_like


def fingerprint(x):
    """Content hash of anything a caller may pass in (for the no-mutation monitor)."""
    h = hashlib.md5()
    _fp(x, h)
    return h.hexdigest()


def _fp(x, h):
    if isinstance(x, np.ndarray):
        h.update(str((x.dtype, x.shape)).encode())
        h.update(np.ascontiguousarray(x).tobytes() if not x.dtype.hasobject else repr(x.tolist()).encode())
    elif isinstance(x, (pd.Series, pd.DataFrame)):
        _fp(x.to_numpy(), h)
        _fp(x.index, h)
        if isinstance(x, pd.DataFrame):
            _fp(x.columns, h)
        else:
            h.update(repr(x.name).encode())
    elif isinstance(x, pd.Index):
        h.update(repr(list(x)).encode() + repr(list(x.names)).encode())
    elif isinstance(x, dict):
        for k, v in x.items():
            h.update(repr(k).encode())
            _fp(v, h)
    elif isinstance(x, (list, tuple)):
        h.update(type(x).__name__.encode())
        for v in x:
            _fp(v, h)
    else:
        h.update(repr(x).encode())
