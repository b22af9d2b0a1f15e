"""Generators and references for record sets and mapped arrays."""
import numpy as np
import pandas as pd
import vectorbt as vbt
from . import gen
from .gen import pick

NAN = np.nan
DT = np.dtype([("id", np.int64), ("col", np.int64), ("idx", np.int64), ("some_field1", np.float64), ("some_field2", np.float64), ("kind", np.int64)], align=True)


def wrapper(rng, n, c, grouped=None, ndim=None, freq="1D", names=None):
    cols = gen.columns(rng, c)
    idx = gen.dt_index(rng, n, "D") if rng.random() < 0.7 else pd.Index(["r%d" % i for i in range(n)])
    g = None
    if ndim is None:
        ndim = 1 if c == 1 and rng.random() < 0.5 else 2
    if grouped is None:
        grouped = rng.random() < 0.5
    if grouped and ndim == 2:
        gl = gen.group_lens(rng, c)
        g = gen.groups_from_lens(gl)
        if rng.random() < 0.4:
            g = pd.Index(np.array(["q", "p", "o", "m", "l", "k", "j", "h", "g", "f"], object)[g], name=pick(rng, [None, "grp"]))
    return vbt.ArrayWrapper(idx, cols, ndim, freq=freq, group_by=g)


def col_arr(rng, m, c, layout=None):
    """m column numbers: sorted, unsorted, with empty columns."""
    layout = layout or pick(rng, ["sorted", "sorted", "unsorted", "blocks", "one"])
    live = rng.permutation(c)[:int(rng.integers(1, c + 1))]
    a = rng.choice(live, size=m) if m else np.zeros(0, int)
    if layout == "one":
        a = np.full(m, live[0])
    if layout == "sorted":
        a = np.sort(a)
    elif layout == "blocks":
        a = np.concatenate([a[a == k] for k in live]) if m else a
    return np.asarray(a, np.int64)


def records(rng, w, m=None, layout=None, nan=None, unique_pos=False, lattice=None):
    n, c = len(w.index), len(w.columns)
    m = int(rng.integers(0, 16)) if m is None else m
    if rng.random() < 0.05:
        m = 0
    cols = col_arr(rng, m, c, layout)
    r = np.zeros(len(cols), DT)
    r["col"] = cols
    r["id"] = rng.permutation(len(cols)) if rng.random() < 0.4 else np.arange(len(cols))
    r["idx"] = rng.integers(0, n, len(cols))
    if unique_pos:
        keep, used = [], set()
        for k in range(len(r)):
            p = (int(r["col"][k]), int(r["idx"][k]))
            if p not in used:
                used.add(p)
                keep.append(k)
        r = r[keep]
    if lattice is None:
        lattice = rng.random() < 0.5
    r["some_field1"] = rng.integers(-3, 4, len(r)) if lattice else rng.normal(0, 10, len(r))
    r["some_field2"] = rng.integers(0, 3, len(r)) + 0.5
    if nan is None:
        nan = rng.random() < 0.4
    if nan and len(r):
        r["some_field1"][rng.random(len(r)) < 0.25] = NAN
    r["kind"] = rng.integers(0, 3, len(r))
    return r


def groups_of(w, group_by=None):
    """List of member column arrays for the units under group_by."""
    c = len(w.columns)
    if group_by is None:
        g = w.grouper.group_by
        if g is None:
            return [np.array([k]) for k in range(c)]
        g = list(g)
    elif group_by is False:
        return [np.array([k]) for k in range(c)]
    elif group_by is True:
        return [np.arange(c)]
    else:
        g = list(group_by)
    order = list(dict.fromkeys(g))
    return [np.array([k for k in range(c) if g[k] == x]) for x in order]


def group_arg(rng, w):
    """Random group_by argument (None: own)."""
    c = len(w.columns)
    k = rng.integers(5)
    if w.ndim == 1:
        return pick(rng, [None, False])
    if k <= 1:
        return None
    if k == 2:
        return False
    if k == 3:
        return True
    return gen.groups_from_lens(gen.group_lens(rng, c))


def select(rec, cols):
    """Reference for selection: records of each chosen column in order, renumbered."""
    out = []
    for new, c in enumerate(cols):
        r = rec[rec["col"] == c].copy()
        r["col"] = new
        out.append(r)
    return np.concatenate(out) if out else rec[:0]
