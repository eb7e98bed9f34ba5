"""C01: a TSCDataFrame is always a valid collection, holding exactly the values pandas would hold."""
import collections
import itertools
import numpy as np
import pandas as pd
import tscmodel as tm

PROPERTY = "C01"
BOUND = """
(1) every row-index word of length 1..4 (thorough 5) over IDs {0,1} x times {0,1,2} in int/float/uint8/datetime
form, plus every special ID/time value in every position: accepted exactly if valid; (2) every column label tuple of
length <= 2 over a label alphabet and every data dtype; (3) every assignment of those indices/columns/values to an
existing collection (rejected ones must leave it unchanged); (4) breadth-first search of operation histories: ~45
pandas operations, depth 2 from 7 initial collections (thorough: depth 3 from 3 of them), states deduplicated by content and stored index levels.
Oracle: the same operation on a plain pandas DataFrame plus an independent validity predicate; in every reached
state the basic queries are recomputed from the rows.
"""
ASSUMPTIONS = [
    "pandas itself computes the right values for plain DataFrames",
    "pandas 2.1 pd.concat returns NaT for some re-ordered datetime MultiIndexes with reduced levels, also for plain "
    "DataFrames: that one operation is not applied to datetime collections",
]


# ---------------------------------------------------------------- independent validity predicate
def valid_frame(P):
    """would P be a legal collection? (names of the index are not judged)"""
    idx = P.index
    if not isinstance(idx, pd.MultiIndex) or idx.nlevels != 2 or P.columns.nlevels != 1:
        return False
    if len(P) == 0:
        return None
    if len(set(P.columns)) != len(P.columns) or len({type(c) for c in P.columns}) > 1:
        return False
    ids, ts = list(idx.get_level_values(0)), list(idx.get_level_values(1))
    tk = idx.get_level_values(1).dtype.kind
    if tk not in "iufM":
        return False
    for i in ids:
        try:
            if not (float(i) == int(i)) or i < 0:
                return False
        except (TypeError, ValueError, OverflowError):
            return False
    for t in ts:
        if pd.isnull(t) or (tk in "iuf" and (t < 0 or not np.isfinite(t))):
            return False
    seen, prev = set(), None
    for k, (i, t) in enumerate(zip(ids, ts)):
        if k and i == prev:
            if not t > last:
                return False
        elif i in seen:
            return False
        seen.add(i)
        prev, last = i, t
    return all(P.iloc[:, c].dtype.kind in "iufcb" for c in range(P.shape[1]))


REJECT = (AttributeError, ValueError, TypeError)


def rows(df):
    return [((canon_label(i), tm.norm_t(t)), [float(x) for x in v]) for (i, t), v in zip(df.index, df.to_numpy())]


def canon_label(i):
    return float(i)


def check_state(ctx, X, msg):
    bad = tm.is_valid_obs(X)
    ctx.true(bad is None, f"{msg}: invalid TSCDataFrame: {bad}")
    # basic queries against the rows (an operation must not leave stale index levels behind)
    per = collections.OrderedDict()
    for i, t in X.index:
        per.setdefault(int(i), []).append(tm.norm_t(t))
    ctx.true(int(X.n_timeseries) == len(per), f"{msg}: n_timeseries {X.n_timeseries} != {len(per)}")
    ctx.true(sorted(int(i) for i in X.ids) == sorted(per), f"{msg}: ids {list(X.ids)} != {list(per)}")
    lens = {i: len(v) for i, v in per.items()}
    n = X.n_timesteps
    if isinstance(n, pd.Series):
        ctx.true({int(k): int(v) for k, v in n.items()} == lens, f"{msg}: n_timesteps")
    else:
        ctx.true(set(lens.values()) == {int(n)}, f"{msg}: n_timesteps {n} {lens}")
    tvs = list(per.values())
    ctx.true(bool(X.is_same_time_values()) == all(v == tvs[0] for v in tvs), f"{msg}: is_same_time_values")
    ctx.eq(sorted({str(tm.norm_t(t)) for t in X.time_values()}), sorted({str(t) for v in tvs for t in v}), f"{msg}: time_values")


# ---------------------------------------------------------------- (1) index words
def mk_index(ids, ts):
    return pd.MultiIndex.from_arrays([pd.Index(ids), pd.Index(ts)])


SPECIAL_T = {"-1": -1, "nan": np.nan, "inf": np.inf, "-.5": -0.5}
SPECIAL_I = {"-1": -1, "1.0": 1.0, "0.5": 0.5, "nan": np.nan}


def accept_or_reject(ctx, P, msg, allow_empty=False):
    from datafold.pcfold import TSCDataFrame

    want = valid_frame(P)
    if want:
        X = TSCDataFrame(P.copy())
        ctx.step()
        check_state(ctx, X, msg)
        ctx.eq(rows(X), rows(P), f"{msg}: content")
        ctx.eq(list(X.columns), list(P.columns), f"{msg}: columns")
    else:
        ctx.raises(REJECT, lambda: TSCDataFrame(P.copy()), f"{msg}: invalid collection")
    return want


def run_words(ctx, n, first):
    """all words of length n over {0,1}x{0,1,2} starting with the given letter, in all time formats"""
    letters = list(itertools.product((0, 1), (0, 1, 2)))
    for rest in itertools.product(letters, repeat=n - 1):
        w = (tuple(first),) + rest
        ids = [a for a, _ in w]
        for form in ("int", "float", "uint8", "date", "idfloat"):
            if form in ("uint8", "idfloat") and n > 3:
                continue
            ts = [b for _, b in w]
            i2 = np.array(ids)
            if form == "float":
                ts = np.array(ts) * 0.5
            elif form == "uint8":
                ts = np.array(ts, dtype=np.uint8)
            elif form == "date":
                ts = pd.DatetimeIndex([tm.BASE + np.timedelta64(t, "D") for t in ts])
            elif form == "idfloat":
                i2 = np.array(ids, dtype=float)
            P = pd.DataFrame(np.arange(2.0 * n).reshape(n, 2), index=mk_index(i2, np.asarray(ts)), columns=["a", "b"])
            ok = accept_or_reject(ctx, P, f"rows {w} as {form}")
            ctx.state(w, form, ok)


def run_special(ctx, n, pos, what, key):
    ids, ts = [0] * n, list(range(n))
    if n == 3:
        ids = [0, 0, 1]
        ts = [0, 1, 0]
    if what == "t":
        ts[pos] = SPECIAL_T[key]
    else:
        ids[pos] = SPECIAL_I[key]
    P = pd.DataFrame(np.arange(2.0 * n).reshape(n, 2), index=mk_index(ids, ts), columns=["a", "b"])
    ok = accept_or_reject(ctx, P, f"ids {ids} times {ts}")
    ctx.state(ids, ts, ok)


COLSETS = [("a",), ("a", "b"), ("b", "a"), ("a", "a"), ("a", 1), (0, 1), (1, 1), (1, 2.5), (("a", "b"), ("c", "d")), (0.5, 1.5)]
DATA = {
    "float": lambda n, m: np.arange(n * m, dtype=float).reshape(n, m),
    "int": lambda n, m: np.arange(n * m).reshape(n, m),
    "bool": lambda n, m: (np.arange(n * m).reshape(n, m) % 2).astype(bool),
    "nan": lambda n, m: np.full((n, m), np.nan),
    "inf": lambda n, m: np.full((n, m), np.inf),
    "str": lambda n, m: np.full((n, m), "x", dtype=object),
    "obj": lambda n, m: np.full((n, m), 1, dtype=object),
    "date": lambda n, m: np.full((n, m), np.datetime64("2020-01-01", "ns")),
    "strnum": lambda n, m: np.full((n, m), "1", dtype=object),
}


def run_columns(ctx, ci, data):
    cols = list(COLSETS[ci])
    P = pd.DataFrame(DATA[data](3, len(cols)), index=mk_index([0, 0, 1], [0, 1, 0]), columns=cols)
    want = valid_frame(P)
    from datafold.pcfold import TSCDataFrame

    if want:
        X = TSCDataFrame(P.copy())
        check_state(ctx, X, f"{cols} {data}")
        ctx.eq(rows(X), rows(P), "content")
    else:
        ctx.raises(REJECT, lambda: TSCDataFrame(P.copy()), f"columns {cols} data {data}")
    ctx.state(cols, data, want)


def run_shape_index(ctx, what):
    from datafold.pcfold import TSCDataFrame

    v = np.arange(4.0).reshape(2, 2)
    if what == "plain":
        P = pd.DataFrame(v)
    elif what == "three":
        P = pd.DataFrame(v, index=pd.MultiIndex.from_arrays([[0, 0], [0, 1], [0, 1]]))
    elif what == "strtime":
        P = pd.DataFrame(v, index=mk_index([0, 0], ["a", "b"]))
    elif what == "booltime":
        P = pd.DataFrame(v, index=pd.MultiIndex.from_arrays([[0, 0], [False, True]]))
    elif what == "complextime":
        P = pd.DataFrame(v, index=mk_index([0, 0], [1j, 2j]))
    elif what == "strid":
        P = pd.DataFrame(v, index=mk_index(["a", "a"], [0, 1]))
    elif what == "one":
        P = pd.DataFrame(v, index=pd.MultiIndex.from_arrays([[0, 1]]))
    elif what == "nat":
        P = pd.DataFrame(v, index=mk_index([0, 1], pd.DatetimeIndex(["NaT", "2020-01-01"])))
    elif what == "nat1":
        P = pd.DataFrame(v, index=mk_index([0, 0], pd.DatetimeIndex(["2020-01-01", "NaT"])))
    elif what == "delta":
        P = pd.DataFrame(v, index=mk_index([0, 0], pd.TimedeltaIndex([1, 2])))
    elif what == "mcol":
        P = pd.DataFrame(v, index=mk_index([0, 0], [0, 1]), columns=pd.MultiIndex.from_tuples([("a", "x"), ("a", "y")]))
    ctx.raises(REJECT, lambda: TSCDataFrame(P), what)
    ctx.state(what)


SHAPES = ["plain", "three", "strtime", "booltime", "complextime", "strid", "one", "nat", "nat1", "delta", "mcol"]


# ---------------------------------------------------------------- (3) assignments to an existing collection
def run_assign_index(ctx, w):
    """assign every index word to an existing 3-row collection"""
    base = tm.make((4, 2), (2, 1), ("int",) * 2, (0, 0), "s2")
    for form in ("attr", "set_axis", "setindex"):
        X = tm.build(base)
        before = tm.observe(X)
        new = mk_index([a for a, _ in w], [b for _, b in w])
        P = pd.DataFrame(X.to_numpy(), index=new, columns=list(X.columns))
        want = valid_frame(P)

        def act():
            if form == "attr":
                X.index = new
                return X
            if form == "set_axis":
                return X.set_axis(new, axis=0)
            return X.set_index(new)

        if want:
            Y = act()
            check_state(ctx, Y, f"index {w} by {form}")
            ctx.eq(rows(Y), rows(P), f"index {w} by {form}")
            ctx.true(type(Y).__name__ == "TSCDataFrame", f"type by {form}")
        else:
            ctx.raises(REJECT, act, f"index {w} by {form}")
            ctx.eq(tm.observe(X), before, f"rejected index assignment by {form} changed the collection")
        ctx.state(w, form, want)


def run_assign_cols(ctx, ci):
    cols = list(COLSETS[ci])
    base = tm.make((4, 2), (2, 1), ("int",) * 2, (0, 0), "s2" if len(cols) == 2 else ["a"])
    for form in ("attr", "set_axis", "rename"):
        X = tm.build(base)
        before = tm.observe(X)
        want = valid_frame(pd.DataFrame(X.to_numpy(), index=X.index, columns=pd.Index(cols)))

        def act():
            if form == "attr":
                X.columns = pd.Index(cols)
                return X
            if form == "set_axis":
                return X.set_axis(pd.Index(cols), axis=1)
            return X.rename(columns=dict(zip(list(X.columns), cols)))

        if form == "rename" and isinstance(cols[0], tuple):
            continue
        if want:
            Y = act()
            check_state(ctx, Y, f"columns {cols} by {form}")
            ctx.eq([str(c) for c in Y.columns], [str(c) for c in pd.Index(cols)], f"columns by {form}")
            ctx.eq(Y.to_numpy(), np.array([v for _, v in before[1]]), "values")
        else:
            ctx.raises(REJECT, act, f"columns {cols} by {form}")
            ctx.eq(tm.observe(X), before, f"rejected column assignment by {form} changed the collection")
        ctx.state(cols, form, want)


VALUES = {"num": 5.0, "int": 3, "nan": np.nan, "inf": np.inf, "str": "x", "none": None, "strnum": "7", "arr": "arr", "strarr": "strarr", "frame": "frame", "strframe": "strframe", "series": "series"}


def run_assign_values(ctx, acc, target, vk):
    base = tm.make((4, 2), (2, 1), ("int",) * 2, (0, 0), "s2")
    X = tm.build(base)
    P = pd.DataFrame(X.to_numpy().copy(), index=X.index.copy(), columns=["a", "b"])
    before = tm.observe(X)
    n = {"cell": 1, "col": 3, "row": 2, "all": 6}[target]
    v = VALUES[vk]
    if v == "arr":
        v = np.arange(100.0, 100 + n)
        v = v.reshape(3, 2) if target == "all" else (v if n > 1 else 100.0)
    elif v == "strarr":
        v = np.array(["x"] * n, dtype=object)
        v = v.reshape(3, 2) if target == "all" else v
    elif v in ("frame", "strframe"):
        if target != "all":
            return
        v = pd.DataFrame(np.arange(6.0).reshape(3, 2) if v == "frame" else "x", index=P.index, columns=P.columns)
    elif v == "series":
        if target != "col":
            return
        v = pd.Series([7.0, 8.0, 9.0], index=P.index)

    def put(d):
        key = {"loc": {"cell": ((4, 1), "b"), "col": (slice(None), "b"), "row": ((4, 1), slice(None)), "all": (slice(None), slice(None))},
               "iloc": {"cell": (1, 1), "col": (slice(None), 1), "row": (1, slice(None)), "all": (slice(None), slice(None))}}[acc][target]
        getattr(d, acc)[key] = v

    legal = vk not in ("str", "none", "strnum", "strarr", "strframe")
    if legal:
        put(X)
        put(P)
        ctx.eq(rows(X), rows(P), f"{acc} {target} {vk}")
        check_state(ctx, X, f"{acc} {target} {vk}")
    else:
        ctx.raises(REJECT, lambda: put(X), f"non-numeric assignment {acc} {target} {vk}")
        ctx.eq(tm.observe(X), before, "rejected assignment changed the collection")
    ctx.state(acc, target, vk, tm.observe(X))


# ---------------------------------------------------------------- (4) operation histories
def _ids(d):
    out = []
    for i in d.index.get_level_values(0):
        if i not in out:
            out.append(i)
    return out


def _other(d):
    """a plain frame with one more series, same columns and time type"""
    t = d.index.get_level_values(1)[:1]
    new = max(_ids(d)) + 3
    return pd.DataFrame(np.full((1, d.shape[1]), 0.25), index=pd.MultiIndex.from_arrays([[new], t], names=["ID", "time"]), columns=d.columns)


def op(name, tsc=True):
    def deco(f):
        OPS[name] = (f, tsc)
        return f
    return deco


OPS = collections.OrderedDict()
op("copy")(lambda d: d.copy())
op("getcol")(lambda d: d[d.columns[0]])
op("getcols")(lambda d: d[[d.columns[-1]]])
op("getcols_rev")(lambda d: d[list(d.columns)[::-1]])
op("getmask")(lambda d: d[np.arange(len(d)) != 0])
op("getslice")(lambda d: d[1:])
op("loc_id")(lambda d: d.loc[_ids(d)[0]])
op("loc_idlist")(lambda d: d.loc[[_ids(d)[-1]]])
op("loc_ids_rev")(lambda d: d.loc[_ids(d)[::-1]])
op("loc_row")(lambda d: d.loc[d.index[0]])
op("loc_rowlist")(lambda d: d.loc[[d.index[0]]])
op("loc_rows_cols")(lambda d: d.loc[d.index[:2], [d.columns[0]]])
op("loc_col")(lambda d: d.loc[:, d.columns[-1]])
op("loc_mask")(lambda d: d.loc[np.arange(len(d)) % 2 == 0, :])
op("loc_time")(lambda d: d.loc[d.index.get_level_values(1) == d.index[0][1], :])
op("iloc_slice")(lambda d: d.iloc[:2])
op("iloc_tail")(lambda d: d.iloc[1:, :])
op("iloc_rev")(lambda d: d.iloc[::-1])
op("iloc_list")(lambda d: d.iloc[[0, len(d) - 1]] if len(d) > 1 else d.iloc[[0]])
op("iloc_swap")(lambda d: d.iloc[[len(d) - 1] + list(range(len(d) - 1))])
op("iloc_collist")(lambda d: d.iloc[:, [0]])
op("iloc_row")(lambda d: d.iloc[0])
op("iloc_dup")(lambda d: d.iloc[[0, 0]])
op("xs_id")(lambda d: d.xs(_ids(d)[0]))
op("xs_id_keep")(lambda d: d.xs(_ids(d)[0], level=0, drop_level=False))
op("xs_time")(lambda d: d.xs(d.index[0][1], level=1, drop_level=False))
op("xs_col")(lambda d: d.xs(d.columns[0], axis=1))
op("drop_row")(lambda d: d.drop(d.index[0]))
op("drop_id")(lambda d: d.drop(_ids(d)[0], level=0))
op("drop_col")(lambda d: d.drop(columns=d.columns[0]))
op("head")(lambda d: d.head(2))
op("tail")(lambda d: d.tail(2))
op("grouphead")(lambda d: d.groupby(level=0).head(1))
op("grouptail")(lambda d: d.groupby(level=0).tail(2))
op("add")(lambda d: d + 1.5)
op("addself")(lambda d: d + d)
op("mul")(lambda d: -2 * d)
op("cumsum")(lambda d: d.cumsum())
op("abs")(lambda d: d.abs())
op("applyrow")(lambda d: d.apply(lambda s: s * 2))
op("astype")(lambda d: d.astype(np.float32).astype(float))
op("fillna")(lambda d: d.where(d > 2.0).fillna(0.0))
op("dropna")(lambda d: d.where(d > 2.0).dropna())
op("sort")(lambda d: d.sort_index())
op("sort_desc")(lambda d: d.sort_index(ascending=False))
op("concat")(lambda d: pd.concat([d, _other(d)]))
op("concat_front")(lambda d: pd.concat([d.iloc[:0], d]) if False else pd.concat([d.loc[[_ids(d)[-1]]], d.drop(_ids(d)[-1], level=0)]) if len(_ids(d)) > 1 else d.copy())
op("concat_dup")(lambda d: pd.concat([d, d.iloc[:1] + 1]))
op("concat_cols")(lambda d: pd.concat([d, (d + 100).rename(columns={c: f"{c}q" for c in d.columns})], axis=1))
op("rename")(lambda d: d.rename(columns={c: f"{c}z" for c in d.columns[:1]}) if isinstance(d.columns[0], str) else d.rename(columns={d.columns[0]: 77}))
op("transpose", False)(lambda d: d.T)
op("reset", False)(lambda d: d.reset_index())
op("mean", False)(lambda d: d.mean())
op("swaplevel")(lambda d: d.swaplevel())


@op("setcol")
def _(d):
    d = d.copy()
    d["new" if isinstance(d.columns[0], str) else 55] = np.arange(len(d)) * 1.0
    return d


@op("setcell")
def _(d):
    d = d.copy()
    d.iloc[0, 0] = 42.0
    return d


@op("setid")
def _(d):
    d = d.copy()
    d.loc[[_ids(d)[-1]], d.columns[0]] = -3.0
    return d


@op("reid")
def _(d):
    d = d.copy()
    d.index = d.index.set_levels(np.asarray(d.index.levels[0]) + 10, level=0)
    return d


@op("retime")
def _(d):
    d = d.copy()
    one = np.timedelta64(1, "D") if d.index.get_level_values(1).dtype.kind == "M" else 1
    d.index = pd.MultiIndex.from_arrays([d.index.get_level_values(0), d.index.get_level_values(1) + one], names=["ID", "time"])
    return d


@op("backtime")
def _(d):
    d = d.copy()
    one = np.timedelta64(1, "D") if d.index.get_level_values(1).dtype.kind == "M" else 1
    d.index = pd.MultiIndex.from_arrays([d.index.get_level_values(0), d.index.get_level_values(1) - one], names=["ID", "time"])
    return d


INITS = [
    ((0,), (3,), ("int",), (0,), "s2"),
    ((0, 1), (2, 2), ("int",) * 2, (0, 0), "s2"),
    ((3, 1), (2, 1), ("float",) * 2, (0, 1), "s2"),
    ((5, 0, 2), (1, 1, 1), ("int",) * 3, (0, 0), ["a"]),
    ((0, 4), (2, 3), ("date",) * 2, (0, 1), "s2"),
    ((2, 0, 1), (1, 2, 3), ("int",) * 3, (0, 1), "i2"),
    ((1, 0), (2, 2), ("int", "gap"), (1, 0), "s3"),
]


def labels(index):
    """numeric labels are compared as numbers (a collection stores integral float IDs as integers)"""
    return [[float(x) if isinstance(x, (int, float, np.number)) else str(x) for x in (i if isinstance(i, tuple) else (i,))] for i in index]


def same_values(ctx, R, Q, msg):
    """R from the collection, Q from plain pandas"""
    if isinstance(Q, pd.DataFrame) and isinstance(R, pd.DataFrame):
        ctx.eq(labels(R.columns), labels(Q.columns), f"{msg}: columns")
        ctx.eq(labels(R.index), labels(Q.index), f"{msg}: index")
        ctx.eq(R.to_numpy(), Q.to_numpy(), f"{msg}: values")
    elif isinstance(Q, pd.Series):
        r = R.iloc[:, 0] if isinstance(R, pd.DataFrame) else R
        ctx.eq(labels(r.index), labels(Q.index), f"{msg}: index")
        ctx.eq(np.asarray(r, dtype=float), np.asarray(Q, dtype=float), f"{msg}: values")
    else:
        ctx.eq(R, Q, msg)


def replay(init, hist):
    X = tm.build(tm.make(*INITS[init]))
    P = pd.DataFrame(X.to_numpy().copy(), index=X.index.copy(), columns=list(X.columns))
    for o in hist:
        X = OPS[o][0](X)
        P = OPS[o][0](P)
        if isinstance(P, pd.Series):
            P = P.to_frame()
    return X, P


def run_ops(ctx, init, first, depth):
    """BFS over histories beginning with `first`"""
    from datafold.pcfold import TSCDataFrame

    frontier = collections.deque([()])
    seen = set()
    while frontier:
        hist = frontier.popleft()
        for o in ([first] if not hist else OPS):
            if o == "concat_front" and "date" in INITS[init][2][0]:
                continue
            X, P = replay(init, hist)
            before = tm.observe(X)
            h = hist + (o,)
            msg = f"{INITS[init]} after {h}"
            fn, must = OPS[o]
            try:
                Q = fn(P)
            except Exception:
                ctx.raises(Exception, lambda: fn(X), f"{msg}: pandas rejects")
                continue
            if isinstance(Q, (pd.DataFrame, pd.Series)) and len(Q) == 0:
                continue  # empty selections are not judged
            Qf = Q.to_frame() if isinstance(Q, pd.Series) and isinstance(Q.index, pd.MultiIndex) else Q
            ok = valid_frame(Qf) if isinstance(Qf, pd.DataFrame) else False
            try:
                R = fn(X)
            except REJECT as e:
                ctx.true(ok is not True, f"{msg}: rejected a legal result: {type(e).__name__} {e}")
                ctx.eq(tm.observe(X), before, f"{msg}: rejected operation changed the collection")
                continue
            ctx.eq(tm.observe(X), before, f"{msg}: operation changed its operand")
            same_values(ctx, R, Q, msg)
            if isinstance(R, TSCDataFrame):
                if ok is None:
                    continue
                ctx.true(ok, f"{msg}: result is not a legal collection but typed as TSCDataFrame")
                check_state(ctx, R, msg)
            elif ok and must and isinstance(Q, pd.DataFrame):
                ctx.fail(f"{msg}: legal result fell back to {type(R).__name__}")
            if isinstance(R, TSCDataFrame) and len(h) < depth:
                key = (str(tm.observe(R)), str([list(l) for l in R.index.levels]))
                ctx.state(key)
                if key not in seen:
                    seen.add(key)
                    frontier.append(h)
            else:
                ctx.state(o, type(R).__name__, R if isinstance(R, (pd.DataFrame, pd.Series)) else None)


RUN = {"words": run_words, "special": run_special, "columns": run_columns, "shape": run_shape_index,
       "assign_index": run_assign_index, "assign_cols": run_assign_cols, "assign_values": run_assign_values, "ops": run_ops}
CASE_LIMIT = 700


def cases(tier):
    th = tier == "thorough"
    for i in range(len(INITS)):
        for o in OPS:
            yield "ops", (i, o, 3 if th and i in (2, 4, 5) else 2)
    letters = list(itertools.product((0, 1), (0, 1, 2)))
    for n in range(1, 6 if th else 5):
        for f in letters:
            yield "words", (n, f)
    for n in (1, 2, 3):
        for pos in range(n):
            for k in SPECIAL_T:
                yield "special", (n, pos, "t", k)
            for k in SPECIAL_I:
                yield "special", (n, pos, "i", k)
    for ci in range(len(COLSETS)):
        for d in DATA:
            yield "columns", (ci, d)
        yield "assign_cols", (ci,)
    for s in SHAPES:
        yield "shape", (s,)
    for w in itertools.product(letters, repeat=3):
        yield "assign_index", (w,)
    for acc in ("loc", "iloc"):
        for target in ("cell", "col", "row", "all"):
            for vk in VALUES:
                yield "assign_values", (acc, target, vk)
