"""C02: building a collection from arrays/frames/files and taking it apart again loses and mixes up nothing."""
import itertools
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
import tscmodel as tm

PROPERTY = "C02"
BOUND = """
alphabet: tensors up to 3x3x2 (thorough 3x4x3) with every permutation of time values, default/permuted/holed IDs,
default/list/Index names; frame lists of up to 3 elements out of {plain frame, one-series collection, two-series
collection, the same object twice} with/without IDs; single series from frames/Series with every order of the
time values; csv round trips of all small collections; every pair of element types out of {int64, float64, float32} for every constructor; every insertion history of length <= 3 (thorough 4) over
{default id, fresh ids, used id} x {frame, collection, wrong names}. Oracle: list of (id, [(time, values)]).
"""


def rows_of(model):
    return sorted(tm.observe_model(model)[1], key=lambda r: (r[0][0], str(r[0][1]).zfill(30)))


def run_tensor(ctx, nts, nt, nf, ids, tperm, names, tkind):
    from datafold.pcfold import TSCDataFrame

    tensor = np.array([[[tm.val(i, k, c) for c in range(nf)] for k in range(nt)] for i in range(nts)])
    keep = tensor.copy()
    axis = tm.taxis(tkind, nt)
    tv = [axis[p] for p in tperm] if tperm is not None else None
    nm = {"none": None, "list": ["x", "a", "k"][:nf], "index": pd.Index(["x", "a", "k"][:nf])}[names]
    X = TSCDataFrame.from_tensor(
        tensor, time_series_ids=None if ids is None else np.array(ids),
        feature_names=nm, time_values=None if tv is None else np.array(tv))
    idl = list(range(nts)) if ids is None else list(ids)
    tl = list(range(nt)) if tv is None else tv
    cols = [f"feature{c}" for c in range(nf)] if names == "none" else ["x", "a", "k"][:nf]
    model = (cols, [(i, sorted([(tl[k], tuple(tensor[p, k])) for k in range(nt)])) for p, i in sorted(enumerate(idl), key=lambda q: q[1])])
    ctx.eq(tm.observe(X), tm.observe_model(model), "from_tensor")
    ctx.eq(tensor, keep, "input tensor modified")
    bad = tm.is_valid_obs(X)
    ctx.true(bad is None, f"invalid result: {bad}")
    # every series can be recovered, and reshaping gives back the (sorted) tensor
    back = np.stack([X.loc[[i]].to_numpy() for i in idl])
    order = np.argsort(np.array([str(tm.norm_t(t)).zfill(30) for t in tl])) if tv is not None else np.arange(nt)
    order = sorted(range(nt), key=lambda k: tl[k])
    ctx.eq(back, tensor[:, order, :], "tensor recovered per series")
    ctx.state(tm.observe(X))


def run_tensor_bad(ctx, what):
    from datafold.pcfold import TSCDataFrame

    t = np.zeros((2, 3, 1))
    if what == "ndim2":
        f = lambda: TSCDataFrame.from_tensor(np.zeros((2, 3)))
    elif what == "ndim4":
        f = lambda: TSCDataFrame.from_tensor(np.zeros((2, 3, 1, 1)))
    elif what == "ids_dup":
        f = lambda: TSCDataFrame.from_tensor(t, time_series_ids=np.array([1, 1]))
    elif what == "ids_len":
        f = lambda: TSCDataFrame.from_tensor(t, time_series_ids=np.array([1, 2, 3]))
    elif what == "ids_2d":
        f = lambda: TSCDataFrame.from_tensor(t, time_series_ids=np.array([[1, 2]]))
    elif what == "times_short":
        f = lambda: TSCDataFrame.from_tensor(t, time_values=np.array([0, 1]))
    elif what == "times_long":
        f = lambda: TSCDataFrame.from_tensor(t, time_values=np.arange(6))
    elif what == "times_dup":
        f = lambda: TSCDataFrame.from_tensor(t, time_values=np.array([0, 1, 1]))
    elif what == "times_neg":
        f = lambda: TSCDataFrame.from_tensor(t, time_values=np.array([-1, 0, 1]))
    elif what == "names_dup":
        f = lambda: TSCDataFrame.from_tensor(np.zeros((2, 3, 2)), feature_names=["a", "a"])
    elif what == "names_len":
        f = lambda: TSCDataFrame.from_tensor(t, feature_names=["a", "b"])
    elif what == "names_mixed":
        f = lambda: TSCDataFrame.from_tensor(np.zeros((2, 3, 2)), feature_names=["a", 1])
    elif what == "ids_neg":
        f = lambda: TSCDataFrame.from_tensor(t, time_series_ids=np.array([-1, 2]))
    elif what == "list_dup_ids":
        f = lambda: TSCDataFrame.from_frame_list([pd.DataFrame(np.zeros((2, 1)))] * 2, ts_ids=[1, 1])
    elif what == "list_len_ids":
        f = lambda: TSCDataFrame.from_frame_list([pd.DataFrame(np.zeros((2, 1)))] * 2, ts_ids=[1, 2, 3])
    elif what == "list_empty":
        f = lambda: TSCDataFrame.from_frame_list([])
    elif what == "list_cols":
        f = lambda: TSCDataFrame.from_frame_list([pd.DataFrame(np.zeros((2, 1)), columns=["a"]), pd.DataFrame(np.zeros((2, 1)), columns=["b"])])
    elif what == "list_ncols":
        f = lambda: TSCDataFrame.from_frame_list([pd.DataFrame(np.zeros((2, 1)), columns=["a"]), pd.DataFrame(np.zeros((2, 2)), columns=["a", "b"])])
    elif what == "list_type":
        f = lambda: TSCDataFrame.from_frame_list([pd.DataFrame(np.zeros((2, 1))), np.zeros((2, 1))])
    elif what == "list_times_dup":
        f = lambda: TSCDataFrame.from_frame_list([pd.DataFrame(np.zeros((2, 1)), index=[1, 1])])
    elif what == "list_times_unsorted":
        f = lambda: TSCDataFrame.from_frame_list([pd.DataFrame(np.zeros((2, 1)), index=[1, 0])])
    elif what == "single_tsc":
        f = lambda: TSCDataFrame.from_single_timeseries(TSCDataFrame.from_tensor(t))
    elif what == "single_dup":
        f = lambda: TSCDataFrame.from_single_timeseries(pd.DataFrame(np.zeros((2, 1)), index=[1, 1]))
    elif what == "single_neg_id":
        f = lambda: TSCDataFrame.from_single_timeseries(pd.DataFrame(np.zeros((2, 1))), ts_id=-2)
    elif what == "array_times":
        f = lambda: TSCDataFrame.from_array(np.zeros((2, 1)), time_values=np.arange(3))
    ctx.raises((ValueError, TypeError, AttributeError, AssertionError), f, what)
    ctx.state(what)


BAD = ["ndim2", "ndim4", "ids_dup", "ids_len", "ids_2d", "times_short", "times_long", "times_dup", "times_neg",
       "names_dup", "names_len", "names_mixed", "ids_neg", "list_dup_ids", "list_len_ids", "list_empty", "list_cols",
       "list_ncols", "list_type", "list_times_dup", "list_times_unsorted", "single_tsc", "single_dup", "single_neg_id", "array_times"]


def element(kind, pos, tkind):
    """(object, [series...]) series = [(t, values)...]"""
    if kind == "frame":
        m = tm.make((0,), (2 + pos % 2,), (tkind,), (pos,), "s2", fn=lambda p, k, c: tm.val(pos, k, c))
        rows = m[1][0][1]
        return pd.DataFrame([r[1] for r in rows], index=[r[0] for r in rows], columns=m[0]), [rows]
    if kind == "one":
        m = tm.make((6 + pos,), (2,), (tkind,), (pos,), "s2", fn=lambda p, k, c: tm.val(pos, k, c))
        return tm.build(m), [m[1][0][1]]
    if kind == "two":
        m = tm.make((3, 8), (1, 3), (tkind,) * 2, (0, pos), "s2", fn=lambda p, k, c: tm.val(pos + p, k, c))
        return tm.build(m), [m[1][0][1], m[1][1][1]]
    raise KeyError(kind)


def run_framelist(ctx, kinds, tkind, ids, dup):
    from datafold.pcfold import TSCDataFrame

    objs, series = [], []
    for p, k in enumerate(kinds):
        o, s = element(k, p, tkind)
        objs.append(o)
        series += s
    if dup:
        objs.append(objs[0])
        series += element(kinds[0], 0, tkind)[1]
    n = len(series)
    want_ids = list(range(n))
    arg = None
    if ids == "rev":
        want_ids = arg = list(range(n))[::-1]
    elif ids == "holes":
        want_ids = [3 * i + 2 for i in range(n)]
        arg = np.array(want_ids)
    before = [tm.canon_df(o) if hasattr(tm, "canon_df") else (list(o.columns), [str(i) for i in o.index], o.to_numpy().tolist()) for o in objs]
    X = TSCDataFrame.from_frame_list(objs, ts_ids=arg)
    ctx.eq(tm.observe(X), tm.observe_model((["a", "b"], list(zip(want_ids, series)))), "from_frame_list")
    bad = tm.is_valid_obs(X)
    ctx.true(bad is None, f"invalid result: {bad}")
    after = [(list(o.columns), [str(i) for i in o.index], o.to_numpy().tolist()) for o in objs]
    ctx.eq(after, before, "the frames in the list were modified")
    # the new collection shares no memory with the inputs
    X.iloc[:, :] = -5.0
    after = [(list(o.columns), [str(i) for i in o.index], o.to_numpy().tolist()) for o in objs]
    ctx.eq(after, before, "writing to the collection changed an input frame")
    ctx.state(want_ids, series)


def run_single(ctx, n, perm, tkind, ts_id, as_series, named):
    from datafold.pcfold import TSCDataFrame

    ts = tm.taxis(tkind, n)
    t = [ts[p] for p in perm]
    if as_series:
        vals = [tm.val(0, k, 0) for k in range(n)]
        obj = pd.Series(vals, index=pd.Index(t, name=named), name=None if as_series == "noname" else "q")
        cols = ["feature"] if as_series == "noname" else ["q"]
        rows = sorted((t[k], (vals[k],)) for k in range(n))
    else:
        vals = [[tm.val(0, k, c) for c in range(2)] for k in range(n)]
        obj = pd.DataFrame(vals, index=pd.Index(t, name=named), columns=["b", "a"])
        cols = ["b", "a"]
        rows = sorted((t[k], tuple(vals[k])) for k in range(n))
    snap = ([str(i) for i in obj.index], np.array(obj).tolist(), obj.name if as_series else list(obj.columns))
    X = TSCDataFrame.from_single_timeseries(obj, ts_id=ts_id)
    ctx.eq(tm.observe(X), tm.observe_model((cols, [(0 if ts_id is None else ts_id, rows)])), "from_single_timeseries")
    bad = tm.is_valid_obs(X)
    ctx.true(bad is None, f"invalid result: {bad}")
    ctx.eq(([str(i) for i in obj.index], np.array(obj).tolist(), obj.name if as_series else list(obj.columns)), snap, "input modified")
    if not as_series and list(perm) == sorted(perm):
        Y = TSCDataFrame.from_array(np.array(vals), time_values=np.array(t), feature_names=cols, ts_id=ts_id)
        ctx.eq(tm.observe(Y), tm.observe(X), "from_array")
        if ts_id is None:
            Z = TSCDataFrame.from_array(np.array(vals))
            ctx.eq(tm.observe(Z), tm.observe_model(([0, 1], [(0, [(k, tuple(v)) for k, v in enumerate(vals)])])), "from_array defaults")
        pairs = list(X.itertimeseries())
        ctx.eq(len(pairs), 1, "itertimeseries")
    ctx.state(tm.observe(X))


def run_collection(ctx, ids, lens, kinds, offs):
    """taking apart and re-assembling, csv, same indices, copies"""
    from datafold.pcfold import TSCDataFrame

    model = tm.make(ids, lens, kinds, offs, "s2r")
    X = tm.build(model)
    obs = tm.observe(X)
    parts = dict((int(i), d) for i, d in X.itertimeseries())
    Y = TSCDataFrame.from_frame_list([parts[i] for i in ids], ts_ids=list(ids))
    ctx.eq(tm.observe(Y), obs, "itertimeseries -> from_frame_list")
    Y = TSCDataFrame.from_single_timeseries(parts[ids[0]], ts_id=ids[0])
    for i in ids[1:]:
        Y = Y.insert_ts(parts[i].copy(), ts_id=i)
    ctx.eq(tm.observe(Y), obs, "itertimeseries -> insert_ts")
    bad = tm.is_valid_obs(Y)
    ctx.true(bad is None, f"invalid result of insert_ts: {bad}")
    Z = pd.concat(list(X.itertimeseries(valid_tsc=True)))
    ctx.eq(sorted(tm.observe(Z)[1]), sorted(obs[1]), "concat of the single collections")
    d = tempfile.mkdtemp(prefix="verif_csv_")
    try:
        path = os.path.join(d, "x.csv")
        X.to_csv(path)
        kw = {"parse_dates": [1]} if "date" in kinds[0] else {}
        Y = TSCDataFrame.from_csv(path, **kw)
        ctx.eq(tm.observe(Y), obs, "to_csv -> from_csv")
        ctx.true(isinstance(Y, TSCDataFrame), "from_csv type")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    v = X.to_numpy().copy() + 100
    S = TSCDataFrame.from_same_indices_as(X, v)
    ctx.eq(tm.observe(S), (obs[0], [(k, [x + 100 for x in r]) for k, r in obs[1]]), "from_same_indices_as")
    S = TSCDataFrame.from_same_indices_as(X, v, except_columns=["k", "j"])
    ctx.eq(tm.observe(S), (["k", "j"], [(k, [x + 100 for x in r]) for k, r in obs[1]]), "from_same_indices_as(except_columns)")
    new_index = X.copy().index.set_levels(np.arange(len(ids)) + 50, level=0)
    S = TSCDataFrame.from_same_indices_as(X, v, except_index=new_index)
    srt = sorted(ids)
    ctx.eq(tm.observe(S), (obs[0], [((50 + srt.index(k[0]), k[1]), [x + 100 for x in r]) for k, r in obs[1]]), "from_same_indices_as(except_index)")
    C = X.copy()
    C.iloc[0, 0] = -77.0
    ctx.eq(tm.observe(X), obs, "writing to a copy changed the original")
    ctx.eq(tm.observe(TSCDataFrame(pd.DataFrame(X))), obs, "DataFrame -> TSCDataFrame")
    ctx.state(obs)


def run_insert(ctx, hist):
    """history of insertions against a list model"""
    from datafold.pcfold import TSCDataFrame

    model = tm.make((2,), (2,), ("int",), (0,), "s2")
    X = tm.build(model)
    series = list(model[1])
    for step, (idk, kind) in enumerate(hist):
        rows = [(t + step, tuple(tm.val(step + 1, k, c) for c in range(2))) for k, t in enumerate(range(1 + step % 2 + 1))]
        cols = ["a", "b"] if kind != "badcols" else ["a", "c"]
        if kind == "swapped":
            cols = ["b", "a"]
        df = pd.DataFrame([r[1] for r in rows], index=[r[0] for r in rows], columns=cols)
        if kind == "tsc":
            df = TSCDataFrame.from_single_timeseries(df, ts_id=2)
        if kind == "date":
            df.index = pd.DatetimeIndex([np.datetime64("2020-01-01") + r[0] for r in rows])
        snap = (list(df.columns), [str(i) for i in df.index], df.to_numpy().tolist())
        used = [i for i, _ in series]
        new_id = {"next": max(used) + 1, "five": 5, "zero": 0, "used": used[-1], "frac": 1.5, "neg": -3}[idk]
        arg = None if idk == "next" else new_id
        legal = new_id not in used and idk not in ("frac", "neg") and kind not in ("badcols", "swapped", "date")
        before = tm.observe(X)
        if legal:
            Y = X.insert_ts(df, ts_id=arg)
            series = series + [(new_id, rows)]
            ctx.eq(tm.observe(Y), tm.observe_model((["a", "b"], series)), f"after insertions {hist[:step + 1]}")
            ctx.true(isinstance(Y, TSCDataFrame), "type")
            bad = tm.is_valid_obs(Y)
            ctx.true(bad is None, f"invalid: {bad}")
        else:
            ctx.raises((ValueError, AttributeError), lambda: X.insert_ts(df, ts_id=arg), f"insertion {hist[:step + 1]}")
            Y = X
        ctx.eq((list(df.columns), [str(i) for i in df.index], df.to_numpy().tolist()), snap, "the inserted frame was modified")
        ctx.eq(tm.observe(X), before, "the collection inserted into was modified")
        X = Y
        ctx.state(tm.observe(X))


def dval(dt, p, k, c):
    v = tm.val(p, k, c)
    return {"i": int(v), "f": v, "h": float(np.float32(v)), "b": float((p + k + c) % 2)}[dt]


DT = {"i": np.int64, "f": np.float64, "h": np.float32, "b": bool}


def run_dtype(ctx, how, dts):
    """elements of different numeric types: every number arrives unchanged"""
    from datafold.pcfold import TSCDataFrame

    arr = lambda dt, p, n: np.array([[dval(dt, p, k, c) for c in range(2)] for k in range(n)]).astype(DT[dt])
    frame = lambda dt, p, n: pd.DataFrame(arr(dt, p, n), index=np.arange(n), columns=["a", "b"])
    rows = lambda a, t0=0: [(t0 + k, tuple(float(x) for x in r)) for k, r in enumerate(a)]
    if how.startswith("shift"):
        L, R = arr(dts[0], 0, 3), arr(dts[1], 1, 3)
        want = [(k, [(0, tuple(map(float, L[k]))), (1, tuple(map(float, R[k])))]) for k in range(3)]
        if how == "shiftcol":
            X = TSCDataFrame.from_shift_matrices(L.T.copy(), R.T.copy(), snapshot_orientation="col", columns=["a", "b"])
        else:
            X = TSCDataFrame.from_shift_matrices(L, R, snapshot_orientation="row", columns=["a", "b"])
    elif how == "list":
        fs = [frame(dt, p, 2 + p) for p, dt in enumerate(dts)]
        want = [(p, rows(f.to_numpy())) for p, f in enumerate(fs)]
        X = TSCDataFrame.from_frame_list(fs)
    elif how == "insert":
        want = [(0, rows(arr(dts[0], 0, 3)))]
        X = TSCDataFrame.from_single_timeseries(frame(dts[0], 0, 3))
        for p, dt in enumerate(dts[1:]):
            f = frame(dt, p + 1, 2)
            X = X.insert_ts(f)
            want.append((p + 1, rows(f.to_numpy())))
    elif how == "tensor":
        t = np.stack([arr(dts[0], p, 3) for p in range(2)])
        X = TSCDataFrame.from_tensor(t, feature_names=["a", "b"])
        want = [(p, rows(t[p])) for p in range(2)]
    elif how == "array":
        a = arr(dts[0], 0, 3)
        X = TSCDataFrame.from_array(a, feature_names=["a", "b"])
        want = [(0, rows(a))]
    elif how == "columns":  # one type per column
        f = pd.DataFrame({n: [dval(dt, 0, k, c) for k in range(3)] for c, (n, dt) in enumerate(zip("ab", dts))}, index=np.arange(3))
        f = f.astype({n: DT[dt] for n, dt in zip("ab", dts)})
        X = TSCDataFrame.from_single_timeseries(f)
        want = [(0, [(k, tuple(dval(dt, 0, k, c) for c, dt in enumerate(dts))) for k in range(3)])]
    elif how == "same":
        base = TSCDataFrame.from_single_timeseries(frame(dts[0], 0, 3))
        v = arr(dts[1], 1, 3)
        X = TSCDataFrame.from_same_indices_as(base, v)
        want = [(0, rows(v))]
    ctx.eq(tm.observe(X), tm.observe_model((["a", "b"], want)), f"{how} with element types {dts}")
    bad = tm.is_valid_obs(X)
    ctx.true(bad is None, f"invalid result: {bad}")
    ctx.state(tm.observe(X))


RUN = {"dtype": run_dtype, "tensor": run_tensor, "bad": run_tensor_bad, "framelist": run_framelist, "single": run_single,
       "collection": run_collection, "insert": run_insert}


def cases(tier):
    th = tier == "thorough"
    for what in BAD:
        yield "bad", (what,)
    for nts, nt, nf in itertools.product((1, 2, 3), range(1, 5 if th else 4), (1, 2, 3) if th else (1, 2)):
        for ids in [None, tuple(range(nts))[::-1], (4, 1, 7)[:nts]]:
            perms = [None] + list(itertools.permutations(range(nt)))
            for tp in perms:
                for names in ("none", "list", "index"):
                    if names != "list" and tp is not None and not th:
                        continue
                    for tk in ("int", "float", "date") if tp is not None else ("int",):
                        yield "tensor", (nts, nt, nf, ids, tp, names, tk)
    for a, b in itertools.product("ifh", repeat=2):
        for how in ("shiftrow", "shiftcol", "list", "insert", "columns", "same"):
            yield "dtype", (how, (a, b))
        for c in "ifh":
            yield "dtype", ("list", (a, b, c))
            yield "dtype", ("insert", (a, b, c))
    for a in "ifhb":
        yield "dtype", ("tensor", (a,))
        yield "dtype", ("array", (a,))
    for n in (1, 2, 3):
        for ks in itertools.product(("frame", "one", "two"), repeat=n):
            for tk in ("int", "float", "date"):
                for ids in ("none", "rev", "holes"):
                    for dup in (False, True):
                        yield "framelist", (ks, tk, ids, dup)
    for n in (1, 2, 3):
        for perm in itertools.permutations(range(n)):
            for tk in ("int", "float", "date"):
                for ts_id in (None, 0, 4):
                    for s in (False, "noname", "named"):
                        for named in (None, "time", "t"):
                            yield "single", (n, perm, tk, ts_id, s, named)
    for s in tm.shapes(3, 3, kinds=("int", "float", "date"), mixed=th, offs=(0, 1)):
        yield "collection", s
    alpha = [(i, k) for i in ("next", "five", "zero", "used") for k in ("frame", "tsc")]
    alpha += [("next", "badcols"), ("next", "swapped"), ("next", "date"), ("frac", "frame"), ("neg", "frame")]
    for n in range(1, 5 if th else 4):
        for h in itertools.product(alpha if n < 4 else alpha[:8], repeat=n):
            yield "insert", (h,)
