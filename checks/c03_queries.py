"""C03: every query of a time series collection equals its definition on the plain list of series."""
import itertools
import math
import numpy as np
import pandas as pd
import tscmodel as tm

PROPERTY = "C03"
BOUND = """
alphabet: all collections with 1-3 series (thorough: 1-4), all length vectors in 1..3 (thorough 1..4), ID sets
{consecutive, unsorted, with holes}, integer/float/datetime time axes, every series regular or one series with a
different step or an irregular axis, last series starting at the same or a later time; every word of time gaps over {1,2} up to length 4 (6) and every pair of such words of length 3 (4); every non-finite
position; every query and every admissible argument (n_samples 1..3, each time value subset of size 1-2, each
series, each feature). Oracle: definitions evaluated on Python lists of (id, [(time, values)]).
"""
ASSUMPTIONS = ["values outside the alphabet (longer series, other dtypes) are not explored"]

TOL = 1e-9


def num(t):
    return tm.norm_t(t)


def tnum(t):
    """time as float (datetime: ns since BASE)"""
    if isinstance(t, (np.datetime64, pd.Timestamp)):
        return float(pd.Timestamp(t).value - pd.Timestamp(tm.BASE).value)
    return float(t)


def dnum(d):
    """time delta as float; nan/NaT -> nan"""
    if isinstance(d, (np.timedelta64, pd.Timedelta)) or d is pd.NaT:
        return math.nan if pd.isna(d) else float(pd.Timedelta(d).value)
    return float(d)


def series_dt(rows):
    ts = [tnum(t) for t, _ in rows]
    if len(ts) < 2:
        return math.nan
    d = [b - a for a, b in zip(ts, ts[1:])]
    return d[0] if all(abs(x - d[0]) <= 1e-7 * max(1.0, abs(d[0])) for x in d) else math.nan


def same(a, b):
    return (math.isnan(a) and math.isnan(b)) or (not math.isnan(a) and not math.isnan(b) and abs(a - b) <= 1e-9 * max(1, abs(a)))


def model_delta(model):
    per = {i: series_dt(rows) for i, rows in model[1]}
    vals = list(per.values())
    if all(same(vals[0], v) for v in vals):
        return vals[0]
    return per


def check_delta(ctx, got, want, msg):
    if isinstance(want, dict):
        ctx.true(isinstance(got, pd.Series), f"{msg}: series have different steps {want}, got the single value {got}")
        gd = {int(i): dnum(v) for i, v in got.items()}
        ctx.true(set(gd) == set(want) and all(same(gd[i], want[i]) for i in want), f"{msg}: got {gd} want {want}")
    else:
        ctx.true(not isinstance(got, pd.Series), f"{msg}: got a per-series table {got}, all steps are {want}")
        ctx.true(same(dnum(got), want), f"{msg}: got {got} want {want}")


def run_levels(ctx, ids, lens, kinds, offs):
    """the same collection in an index representation with unsorted and unused levels answers the same"""
    run_queries(ctx, ids, lens, kinds, offs, builder=tm.build_scrambled)
    model = tm.make(ids, lens, kinds, offs, "s2")
    X, Y = tm.build(model), tm.build_scrambled(model)
    ctx.eq(tm.observe(Y), tm.observe(X), "same collection")
    ctx.eq([int(i) for i in Y.ids], sorted(ids), "ids are sorted")
    fs = [("assign_ids_sequential", lambda Z: Z.tsc.assign_ids_sequential()), ("initial_states", lambda Z: Z.initial_states(1)), ("final_states", lambda Z: Z.final_states(1)),
          ("time_values_overview", lambda Z: Z.tsc.time_values_overview())]
    if "date" not in kinds[0]:
        fs += [("shift_time_by_delta", lambda Z: Z.tsc.shift_time_by_delta(2)), ("shift_time_per_time_series", lambda Z: Z.tsc.shift_time_per_time_series())]
    for name, f in fs:
        a, b = f(X.copy()), f(Y.copy())
        if name == "time_values_overview":
            tab = lambda t: [(int(i), ["-" if pd.isnull(v) else num(v) if not isinstance(v, (pd.Timedelta, np.timedelta64)) else dnum(v) for v in r]) for i, r in zip(t.index, t.to_numpy(dtype=object).tolist())]
            ctx.eq(str(tab(b)), str(tab(a)), f"{name} depends on the representation of the index")
        else:
            ctx.eq(tm.observe(b), tm.observe(a), f"{name} depends on the representation of the index")


def run_queries(ctx, ids, lens, kinds, offs, builder=tm.build):
    from datafold.pcfold.timeseries.collection import TSCException

    model = tm.make(ids, lens, kinds, offs, "s2")
    X = builder(model)
    before = tm.observe(X)
    cols, series = model
    byid = dict(series)
    lab = f"{model and [(i, [str(t) for t, _ in r]) for i, r in series]}"

    ctx.eq(int(X.n_timeseries), len(series), "n_timeseries")
    ctx.eq(int(X.n_features), len(cols), "n_features")
    ctx.eq(sorted(int(i) for i in X.ids), sorted(byid), "ids")
    # lengths
    want_n = {i: len(r) for i, r in series}
    got = X.n_timesteps
    if len(set(want_n.values())) == 1:
        ctx.true(not isinstance(got, pd.Series) and int(got) == list(want_n.values())[0], f"n_timesteps {got} {want_n}")
    else:
        ctx.true(isinstance(got, pd.Series), f"n_timesteps must be per series, got {got}")
        ctx.eq({int(k): int(v) for k, v in sorted(got.items())}, dict(sorted(want_n.items())), "n_timesteps")
    ctx.eq(bool(X.is_equal_length()), len(set(want_n.values())) == 1, "is_equal_length")
    # sampling
    wdt = model_delta(model)
    check_delta(ctx, X.delta_time, wdt, "delta_time " + lab)
    const = not isinstance(wdt, dict) and not math.isnan(wdt)
    ctx.eq(bool(X.is_const_delta_time()), const, "is_const_delta_time " + lab)
    tlists = [[num(t) for t, _ in r] for _, r in series]
    same_tv = all(t == tlists[0] for t in tlists)
    ctx.eq(bool(X.is_same_time_values()), same_tv, "is_same_time_values " + lab)
    alltv = sorted({(tnum(t), num(t)) for _, r in series for t, _ in r})
    ctx.eq([num(t) for t in X.time_values()], [b for _, b in alltv], "time_values")
    isdate = "date" in kinds[0]
    ctx.eq(bool(X.is_datetime_index()), isdate, "is_datetime_index")
    norm = (not isdate) and const and abs(wdt - 1) < TOL and alltv[0][0] == 0
    ctx.eq(bool(X.is_normalized_time()), norm, "is_normalized_time " + lab)
    a, b = X.time_interval()
    ctx.eq((num(a), num(b)), (alltv[0][1], alltv[-1][1]), "time_interval")
    for i, r in series:
        a, b = X.time_interval(i)
        ctx.eq((num(a), num(b)), (num(r[0][0]), num(r[-1][0])), f"time_interval({i})")
    deg = [i for i, r in series if len(r) == 1]
    got = X.degenerate_ids()
    ctx.eq(sorted(int(i) for i in got) if got is not None else [], sorted(deg), "degenerate_ids")
    ctx.eq(bool(X.has_degenerate()), bool(deg), "has_degenerate")
    # constant sampling grid
    if const:
        start, end = alltv[0][0], alltv[-1][0]
        n = math.floor((end - start) / wdt + 1e-7)
        grid = X.const_sampled_time_values()
        ctx.close(np.array([tnum(t) for t in grid]), np.array([start + k * wdt for k in range(n + 1)]), "const_sampled_time_values " + lab, atol=1e-9)
    else:
        ctx.raises(TSCException, lambda: X.const_sampled_time_values(), "const_sampled_time_values without constant step")
    # overview
    ov = X.tsc.time_values_overview()
    ctx.eq(sorted(int(i) for i in ov.index), sorted(byid), "time_values_overview index")
    for i, r in series:
        row = ov.loc[i]
        ctx.eq((num(row["start"]), num(row["end"])), (num(r[0][0]), num(r[-1][0])), f"time_values_overview[{i}]")
        ctx.true(same(dnum(row["delta_time"]), series_dt(r)), f"time_values_overview[{i}].delta_time={row['delta_time']} " + lab)
    # states
    for n in (1, 2, 3):
        if all(len(r) >= n for _, r in series):
            w = (cols, [(i, r[:n]) for i, r in series])
            ctx.eq(tm.observe(X.initial_states(n)), tm.observe_model(w), f"initial_states({n})")
            w = (cols, [(i, r[-n:]) for i, r in series])
            ctx.eq(tm.observe(X.final_states(n)), tm.observe_model(w), f"final_states({n})")
        else:
            ctx.raises(TSCException, lambda: X.initial_states(n), f"initial_states({n}) with a shorter series")
            ctx.raises(TSCException, lambda: X.final_states(n), f"final_states({n}) with a shorter series")
    # iteration
    it = {int(i): d for i, d in X.itertimeseries()}
    ctx.eq(sorted(it), sorted(byid), "itertimeseries ids")
    for i, r in series:
        ctx.eq([num(t) for t in it[i].index], [num(t) for t, _ in r], f"itertimeseries[{i}] times")
        ctx.eq(it[i].to_numpy().tolist(), [list(v) for _, v in r], f"itertimeseries[{i}] values")
        ctx.eq(list(it[i].columns), cols, "itertimeseries columns")
    sub = sorted(tm.observe(d) [1] for d in X.itertimeseries(valid_tsc=True))
    ctx.eq(sub, sorted(tm.observe_model((cols, [s]))[1] for s in series), "itertimeseries(valid_tsc)")
    # feature matrix
    for c in cols:
        if same_tv:
            j = cols.index(c)
            fr = X.feature_to_array(c, as_frame=True)
            for i, r in series:
                ctx.eq(fr.loc[i].to_numpy().tolist(), [v[j] for _, v in r], f"feature_to_array({c}, as_frame)[{i}] " + lab)
            ctx.eq([num(t) for t in fr.columns], tlists[0], "feature_to_array time labels")
            arr = X.feature_to_array(c)
            rows_app = [[v[j] for _, v in r] for _, r in series]
            rows_srt = [[v[j] for _, v in byid[i]] for i in sorted(byid)]
            ctx.true(arr.tolist() in (rows_app, rows_srt), f"feature_to_array({c}) {arr.tolist()}")
        else:
            ctx.raises(TSCException, lambda: X.feature_to_array(c), "feature_to_array needs identical time values")
    ctx.raises(ValueError, lambda: X.feature_to_array(), "feature_to_array without a name but two features")
    # selection of time values
    raw = []
    for _, r in series:
        for t, _ in r:
            if t not in raw:
                raw.append(t)
    raw.sort()
    subsets = [[t] for t in raw] + [list(p) for p in itertools.combinations(raw, 2)]
    for ssub in subsets:
        sel = X.select_time_values(np.array(ssub))
        keys = {num(t) for t in ssub}
        w = (cols, [(i, [x for x in r if num(x[0]) in keys]) for i, r in series])
        go, wo = tm.observe(sel), tm.observe_model(w)
        ctx.eq(sorted(go[1]), sorted(wo[1]), f"select_time_values({[str(s) for s in ssub]}) " + lab)
    # the time-overlap check
    flat = [x for t in tlists for x in t]
    if len(set(flat)) == len(flat):
        X.tsc.check_non_overlapping_timeseries()
        ctx.step()
    else:
        ctx.raises(TSCException, lambda: X.tsc.check_non_overlapping_timeseries(), "overlap " + lab)
    # queries change nothing
    ctx.eq(tm.observe(X), before, "queries must not modify the collection")
    ctx.state(want_n, wdt, tlists, deg)


def run_finite(ctx, ids, lens, bad, pos):
    model = tm.make(ids, lens, ("int",) * len(ids), (0,) * len(ids), "s2")
    X = tm.build(model)
    ctx.eq(bool(X.is_finite()), True, "is_finite of finite data")
    F = tm.to_frame(model)
    r, c = divmod(pos, 2)
    F.iloc[r, c] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[bad]
    from datafold.pcfold import TSCDataFrame

    ctx.eq(bool(TSCDataFrame(F).is_finite()), False, f"is_finite with {bad} at {r},{c}")
    ctx.state(ids, lens, bad, pos)


def run_single_feature(ctx, ids, n, kind):
    """feature_to_array without a name for a one-feature collection"""
    model = tm.make(ids, (n,) * len(ids), (kind,) * len(ids), (0,) * len(ids), ["a"])
    X = tm.build(model)
    fr = X.feature_to_array(as_frame=True)
    for i, r in model[1]:
        ctx.eq(fr.loc[i].to_numpy().tolist(), [v[0] for _, v in r], f"feature_to_array[{i}]")
    ctx.state(fr)


def run_float_grid(ctx, n, start_k, step, nseries):
    """time axes built by multiplication / linspace: numerical noise must not break constant sampling"""
    from datafold.pcfold import TSCDataFrame

    def axis(how, k0):
        if how == "mul":
            return np.array([step * (k0 + k) for k in range(n)])
        if how == "lin":
            return np.linspace(step * k0, step * (k0 + n - 1), n)
        return step * k0 + np.arange(n) * step

    for how in ("mul", "lin", "arange"):
        parts = []
        for s in range(nseries):
            parts.append(pd.DataFrame(np.arange(2.0 * n).reshape(n, 2), index=axis(how, start_k + s), columns=["a", "b"]))
        X = TSCDataFrame.from_frame_list(parts)
        ctx.true(X.is_const_delta_time(), f"axis {how} n={n} start={start_k} step={step}: not constant, {X.delta_time}")
        ctx.close(float(X.delta_time), step, "delta_time", rtol=1e-9)
        g = X.const_sampled_time_values()
        want = step * (start_k + np.arange(n + nseries - 1))
        ctx.close(g, want, f"const_sampled_time_values axis {how}", rtol=1e-9, atol=1e-9)
        ctx.state(how, n, start_k, step, nseries)


RUN = {"queries": run_queries, "levels": run_levels, "finite": run_finite, "single": run_single_feature, "floatgrid": run_float_grid}


def cases(tier):
    th = tier == "thorough"
    kinds = ("int", "int3", "float", "float01", "date", "gap", "gapf", "gapdate") if th else ("int", "float", "date")
    for s in tm.shapes(3, 3 if not th else 4, kinds=kinds, offs=(0, 1)):
        if not th and len(s[0]) == 3 and s[0] == (0, 1, 2) and len(set(s[1])) == 3:
            pass
        yield "queries", s
    for s in tm.gap_shapes(one=6 if th else 4, two=4 if th else 3, fams=("i", "f", "date") if th else ("i", "date"), idsets=((0, 1), (4, 2)) if th else ((4, 2),)):
        yield "queries", s
    for s in tm.shapes(3, 3, kinds=("int", "float", "date"), offs=(0, 1)):
        if th or len(s[0]) < 3 or s[0] == (2, 0, 1) and max(s[1]) - min(s[1]) < 2:
            yield "levels", s
    if not th:
        for s in tm.gap_shapes(one=4, two=3, fams=("f",), idsets=()):
            yield "queries", s
    if th:
        for s in tm.shapes(4, 2, kinds=("int", "date"), offs=(0, 1), idsets={**tm.IDSETS}):
            if len(s[0]) == 4:
                yield "queries", s
    for lens in itertools.product((1, 2), repeat=2):
        for bad in ("nan", "inf", "-inf"):
            for pos in range(2 * sum(lens)):
                yield "finite", ((3, 1), lens, bad, pos)
    for n in range(1, 4):
        for kind in ("int", "float", "date"):
            for idn in tm.IDSETS:
                for ids in tm.IDSETS[idn]:
                    yield "single", (ids, n, kind)
    for n in (2, 3, 5, 8, 12):
        for start in (0, 1, 3, 10, 100):
            for step in (0.1, 0.3, 0.25, 1e-3, 2.0 / 3):
                for ns in (1, 2):
                    yield "floatgrid", (n, start, step, ns)
