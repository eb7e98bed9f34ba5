"""Plain-Python reference model of a time series collection, and the catalogue of collection shapes.

A model is (columns, [(id, [(time, (values...)), ...]), ...]) in row order.
"""
import itertools
import numpy as np
import pandas as pd


def val(i, t_index, col):
    """distinct, irregular, non-affine values: series position i, row k, column c (c may repeat mod 7)"""
    return round(1.0 + 3.7 * i + 0.61 * t_index + 0.13 * t_index * t_index * (1 + col) + 10.0 * col - 0.9 * ((i + 2 * t_index + col) % 3), 6)


COLS = {"s1": ["a"], "s2": ["a", "b"], "s2r": ["b", "a"], "i2": [0, 1], "s3": ["c", "a", "b"], "s4": ["a", "b", "c", "d"]}

# time axes: name -> function k -> time value of row k ; 'off' shifts a series in time (in own units)
BASE = np.datetime64("2021-03-01")


def taxis(kind, n, off=0):
    if kind[0] == "W":  # gap word, e.g. "W112i", "W112f", "W112date"
        gaps = [int(c) for c in kind[1:].rstrip("ifdate")]
        fam = kind[1 + len(gaps):]
        ts = [off]
        for k in range(n - 1):
            ts.append(ts[-1] + gaps[k % len(gaps)])
        return [t if fam == "i" else 0.5 * t if fam == "f" else BASE + np.timedelta64(t, "D") for t in ts]
    if kind == "int":
        return [off + k for k in range(n)]
    if kind == "int3":
        return [3 * (k + off) + 2 for k in range(n)]
    if kind == "float":
        return [0.5 * (k + off) for k in range(n)]
    if kind == "float01":
        return [0.1 * (k + off) for k in range(n)]
    if kind == "date":
        return [BASE + np.timedelta64(k + off, "D") for k in range(n)]
    if kind == "datens":  # nanosecond resolution
        return [pd.Timestamp(BASE).to_datetime64().astype("M8[ns]") + np.timedelta64((k + off) * 86400 * 10**9, "ns") for k in range(n)]
    if kind == "dateh":
        return [np.datetime64("2021-03-01T00:00:00") + np.timedelta64(6 * (k + off), "h") for k in range(n)]
    if kind == "gap":  # irregular: last step doubled
        return [off + k + (1 if (k == n - 1 and k > 0) else 0) for k in range(n)]
    if kind == "gapf":
        return [0.25 * (off + k + (1 if (k == n - 1 and k > 0) else 0)) for k in range(n)]
    if kind == "gapdate":
        return [BASE + np.timedelta64(off + k + (1 if (k == n - 1 and k > 0) else 0), "D") for k in range(n)]
    if kind == "fgap":  # irregular: first step doubled
        return [off + k + (1 if k > 0 else 0) for k in range(n)]
    if kind == "fgapf":
        return [0.25 * (off + k + (1 if k > 0 else 0)) for k in range(n)]
    if kind == "fgapdate":
        return [BASE + np.timedelta64(off + k + (1 if k > 0 else 0), "D") for k in range(n)]
    if kind == "int2":
        return [2 * (k + off) for k in range(n)]
    if kind == "float2":
        return [1.0 * (k + off) for k in range(n)]
    if kind == "date2":
        return [BASE + np.timedelta64(2 * (k + off), "D") for k in range(n)]
    raise KeyError(kind)


def family_of(kind):
    if kind[0] == "W":
        return {"i": "int", "f": "float", "date": "date"}[kind.lstrip("W0123456789")]
    return "date" if "date" in kind else ("float" if kind in ("float", "float01", "gapf", "fgapf", "float2") else "int")


def make(ids, lens, kinds, offs, cols="s2", fn=val):
    """ids, lens, kinds, offs: per series"""
    c = COLS[cols] if isinstance(cols, str) else list(cols)
    out = []
    for p, (i, n, kd, of) in enumerate(zip(ids, lens, kinds, offs)):
        ts = taxis(kd, n, of)
        out.append((i, [(t, tuple(fn(p, k, j) for j in range(len(c)))) for k, t in enumerate(ts)]))
    return (c, out)


def to_frame(model):
    cols, series = model
    tuples = [(i, t) for i, rows in series for t, _ in rows]
    data = [v for _, rows in series for _, v in rows]
    idx = pd.MultiIndex.from_arrays(
        [np.array([a for a, _ in tuples], dtype=int), np.array([b for _, b in tuples])]
    )
    return pd.DataFrame(np.array(data, dtype=float).reshape(len(tuples), len(cols)), index=idx, columns=cols)


def build(model):
    from datafold.pcfold import TSCDataFrame

    return TSCDataFrame(to_frame(model))


def build_scrambled(model):
    """the same collection, with an index whose levels are unsorted and contain unused entries"""
    from datafold.pcfold import TSCDataFrame

    df = to_frame(model)
    lev, cod = [], []
    for k in (0, 1):
        v = df.index.get_level_values(k)
        u = sorted(set(v))
        u = u[1::2][::-1] + u[0::2]  # neither ascending nor descending
        full = pd.Index(u).append(pd.Index([max(u) + (pd.Timedelta(days=40) if isinstance(u[0], (pd.Timestamp, np.datetime64)) else 50)])) if k == 1 else pd.Index(u + [max(u) + 50])
        lev.append(full)
        cod.append([u.index(x) for x in v])
    df.index = pd.MultiIndex(levels=lev, codes=cod)
    return TSCDataFrame(df)


def norm_t(t):
    if isinstance(t, (np.datetime64, pd.Timestamp)):
        return "D" + str(int(pd.Timestamp(t).value))
    if isinstance(t, (np.timedelta64, pd.Timedelta)):
        return "d" + str(int(pd.Timedelta(t).value))
    return float(t)


def observe(df):
    """Canonical observation of a frame with (ID, time) rows, in row order."""
    ids = df.index.get_level_values(0)
    ts = df.index.get_level_values(1)
    vals = df.to_numpy()
    return (
        list(df.columns),
        [((int(i), norm_t(t)), [float(x) for x in v]) for i, t, v in zip(ids, ts, vals)],
    )


def observe_model(model):
    cols, series = model
    return (list(cols), [((int(i), norm_t(t)), [float(x) for x in v]) for i, rows in series for t, v in rows])


def is_valid_obs(df):
    """The validity invariant, checked without using the class's own validation.  Returns None or text."""
    idx = df.index
    if not isinstance(idx, pd.MultiIndex) or idx.nlevels != 2:
        return "row index is not a two-level index"
    if list(idx.names) != ["ID", "time"]:
        return f"row index names {idx.names}"
    if df.columns.name != "feature" or df.columns.nlevels != 1:
        return f"column index {df.columns}"
    if len(set(df.columns)) != len(df.columns):
        return "duplicate columns"
    if len({type(c) for c in df.columns}) > 1:
        return "mixed column types"
    ids = list(idx.get_level_values(0))
    ts = list(idx.get_level_values(1))
    if idx.get_level_values(0).dtype.kind not in "iu" and len(ids):
        return f"ID dtype {idx.get_level_values(0).dtype}"
    if any(i < 0 for i in ids):
        return "negative id"
    kind = idx.get_level_values(1).dtype.kind
    if len(ts) and kind not in "iufM":
        return f"time dtype {kind}"
    if kind in "iuf" and any(not (t >= 0) for t in ts):
        return "negative or nan time"
    seen, prev = set(), object()
    lastt = None
    for i, t in zip(ids, ts):
        if i != prev:
            if i in seen:
                return f"id {i} not contiguous"
            seen.add(i)
            prev, lastt = i, t
        else:
            if not t > lastt:
                return f"times of series {i} not increasing"
            lastt = t
    for c in range(df.shape[1]):
        if pd.DataFrame(df).iloc[:, c].dtype.kind not in "iufbc":
            return "non numeric data"
    return None


# ---------------------------------------------------------------------------------------------
# shape catalogues
IDSETS = {1: [(0,), (7,)], 2: [(0, 1), (1, 0), (3, 9)], 3: [(0, 1, 2), (2, 0, 1), (5, 1, 9)],
          4: [(0, 1, 2, 3), (3, 1, 2, 0)]}


def shapes(max_series=3, max_len=3, kinds=("int", "float", "date"), offs=(0, 1), mixed=True, idsets=None, min_len=1):
    """All (ids, lens, kinds, offs): every number of series <= max_series, every length vector in
    [min_len..max_len]^n, every id set of IDSETS, every time axis kind (one kind for all, and - if mixed -
    the last series with a different spacing/irregular axis of the same dtype), and each offset for the
    last series."""
    alt = {"int": ["int3", "gap", "fgap"], "float": ["float2", "gapf", "fgapf"], "date": ["date2", "gapdate", "fgapdate"]}
    for n in range(1, max_series + 1):
        for ids in (idsets or IDSETS)[n]:
            for lens in itertools.product(range(min_len, max_len + 1), repeat=n):
                for kd in kinds:
                    variants = [(kd,) * n]
                    if mixed:
                        for al in alt.get(kd, []):
                            variants.append((kd,) * (n - 1) + (al,))
                            if n >= 2:
                                variants.append((al,) + (kd,) * (n - 1))
                    for kv in variants:
                        for of in offs if n > 1 else offs[:1]:
                            yield (ids, lens, kv, (0,) * (n - 1) + (of,))


def gap_shapes(one=4, two=3, idsets=((0, 1), (4, 2)), fams=("i", "f", "date"), letters="12"):
    """irregular sampling: every word of time gaps for one series, every pair of equally long words for two series"""
    words = lambda n: ["".join(w) for w in itertools.product(letters, repeat=n)]
    for fam in fams:
        for n in range(1, one + 1):
            for w in words(n):
                yield ((3,), (n + 1,), (f"W{w}{fam}",), (0,))
        for ids in idsets:
            for w, v in itertools.product(words(two), repeat=2):
                yield (ids, (two + 1,) * 2, (f"W{w}{fam}", f"W{v}{fam}"), (0, 0))
