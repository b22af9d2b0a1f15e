"""Reference model of index labels: an index is a list of levels (name, [values])."""
import numpy as np
import pandas as pd
from .gen import pick


class Conflict(Exception):
    """The reference demands an error."""


def py(x):
    return x.item() if isinstance(x, np.generic) and not isinstance(x, (np.datetime64, np.timedelta64)) else x


def levels(index):
    if isinstance(index, pd.MultiIndex):
        return [(index.names[i], [py(t[i]) for t in index]) for i in range(index.nlevels)]
    return [(index.name, [py(v) for v in index])]


def size(lv):
    return len(lv[0][1])


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return bool(a == b) and (isinstance(a, bool) == isinstance(b, bool) or True)
    except Exception:
        return False


def same_list(a, b):
    return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))


def same(a, b):
    return len(a) == len(b) and all(n == m and same_list(x, y) for (n, x), (m, y) in zip(a, b))


def is_range(level):
    n, v = level
    return n is None and all(isinstance(x, (int, float)) and not isinstance(x, bool) and x == i for i, x in enumerate(v))


def is_default(lv):
    return len(lv) == 1 and is_range(lv[0])


def rng_levels(n):
    return [(None, list(range(n)))]


def repeat(lv, n, ignore_default=True):
    if ignore_default and is_default(lv):
        return rng_levels(size(lv) * n)
    return [(m, [x for x in v for _ in range(n)]) for m, v in lv]


def tile(lv, n, ignore_default=True):
    if ignore_default and is_default(lv):
        return rng_levels(size(lv) * n)
    return [(m, list(v) * n) for m, v in lv]


def drop_dups(lv, keep="last"):
    order = range(len(lv)) if keep == "first" else range(len(lv) - 1, -1, -1)
    kept = []
    for i in order:
        if not any(lv[i][0] == lv[j][0] and same_list(lv[i][1], lv[j][1]) for j in kept):
            kept.append(i)
    return [lv[i] for i in sorted(kept)]


def drop_redundant(lv):
    if len(lv) == 1:
        return lv
    n = size(lv)
    kept = [l for l in lv if not ((n > 1 and l[0] is None and len(set(map(repr, l[1]))) == 1) or is_range(l))]
    return kept if kept else lv


def stack(list_of_levels, drop_duplicates=True, keep="last", drop_redundant_=True):
    lv = [l for x in list_of_levels for l in x]
    if drop_duplicates:
        lv = drop_dups(lv, keep)
    if drop_redundant_:
        lv = drop_redundant(lv)
    return lv


def combine(list_of_levels, ignore_default=True, **kw):
    out = list_of_levels[0]
    for x in list_of_levels[1:]:
        a = repeat(out, size(x), ignore_default)
        b = tile(x, size(out), ignore_default)
        out = stack([a, b], **kw)
    return out


def check(ctx, index, lv, msg, **info):
    got = levels(index)
    if len(lv) == 0:
        ctx.fail(f"{msg}: reference has no levels")
    ctx.check(same(got, lv), f"{msg}: labels {got} instead of {lv}", **info)


def align_positions(lv1, lv2):
    """Rows of lv1 holding the labels of lv2 on their common levels, or Conflict."""
    if same(lv1, lv2) or (len(lv1) == len(lv2) and all(same_list(a[1], b[1]) for a, b in zip(lv1, lv2))):
        return list(range(size(lv1)))
    mp = {}
    for i, (n1, v1) in enumerate(lv1):
        for j, (n2, v2) in enumerate(lv2):
            if n1 == n2:
                if set(v2) <= set(v1):
                    if i in mp:
                        raise Conflict("several candidates")
                    mp[i] = j
                elif n1 is not None:
                    raise Conflict("values not in first")
    if not mp:
        raise Conflict("no common levels")
    keys1 = list(zip(*[lv1[i][1] for i in mp]))
    keys2 = list(zip(*[lv2[j][1] for j in mp.values()]))
    if len(set(keys1)) != len(keys1):
        raise Conflict("duplicates in first")
    pos = {k: p for p, k in enumerate(keys1)}
    if any(k not in pos for k in keys2):
        raise Conflict("combination missing")
    return [pos[k] for k in keys2]


# ------------------------------------------------------------------ generation
def rand_index(rng, n, kinds=None, dup=True):
    kind = pick(rng, kinds or ["range", "str", "int", "named_range", "date", "tz", "float", "const", "multi", "multi", "multi1", "bool"])
    nm = pick(rng, [None, "a", "b", "c", 0, 1, 3, ""]) if kind not in ("range",) else None
    if kind == "named_range":
        return pd.RangeIndex(n, name="r")
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "str":
        v = [f"s{i}" for i in (rng.integers(0, max(1, n), n) if dup and rng.random() < 0.4 else rng.permutation(n))]
        return pd.Index(v, name=nm)
    if kind == "int":
        v = [int(x) for x in (rng.integers(0, 3, n) if dup and rng.random() < 0.4 else rng.permutation(2 * n + 1)[:n])]
        return pd.Index(v, name=nm)
    if kind == "date":
        return pd.date_range("2020-01-01", periods=n, freq=pick(rng, ["D", "h"]), name=nm)
    if kind == "tz":
        return pd.date_range("2020-03-28 22:00", periods=n, freq="h", tz="Europe/Berlin", name=nm)
    if kind == "float":
        return pd.Index(np.round(rng.permutation(n) * 0.5, 2), name=nm)
    if kind == "const":
        return pd.Index([pick(rng, ["k", 7])] * n, name=nm)
    if kind == "bool":
        return pd.Index(rng.random(n) < 0.5, name=nm if nm is not None else "flag")
    k = 1 if kind == "multi1" else int(rng.integers(2, 4))
    parts = [rand_index(rng, n, ["str", "int", "const", "date", "float", "range", "bool"], dup) for _ in range(k)]
    names = [p.name for p in parts]
    if k == 1 and names[0] is None:      # an unnamed range with a single level is not a default index here
        names = ["lone"]
    m = pd.MultiIndex.from_arrays([list(p) for p in parts], names=names)
    if n > 1 and rng.random() < 0.25:     # leave unused levels behind
        big = m.append(m[:1].set_levels([[pick(rng, ["zz", 99])]], level=[0]) if False else m[:1])
        m = big[:n]
    return m
