"""C05: operations on the time axis / IDs of a collection change exactly what they promise."""
import itertools
import math
import numpy as np
import pandas as pd
import tscmodel as tm

PROPERTY = "C05"
BOUND = """
alphabet: all collections with 1-3 series of length 1..3 (thorough 1..4), IDs consecutive/unsorted/holed, all time
axis kinds; shifts {0, +, -} (also out of the legal range), per-series shift tables, window sizes 1..4 x offsets
1..3 x per-series flag, n dropped samples 0..4, every train/test/dropped labelling of up to 6 (thorough 8) samples in 1-2
series, every irregular gap word over {1,2,5} up to 6 steps, every (scheme, order, accuracy, shift flag) of time
derivatives on polynomials of the maximal exact degree. Oracle: list-of-series model.
"""


def fnum(t):
    return float(t) if not isinstance(t, (np.datetime64, pd.Timestamp)) else float(pd.Timestamp(t).value)


def obs_model(cols, series):
    return tm.observe_model((cols, series))


def sorted_rows(o):
    return sorted(o[1], key=lambda r: (r[0][0], str(r[0][1]).zfill(30)))


def close_obs(ctx, got, want, msg, any_order=False):
    """like eq but with float tolerance on times and values"""
    g, w = tm.observe(got), want
    ctx.eq([str(c) for c in g[0]], [str(c) for c in w[0]], f"{msg}: columns")
    gr, wr = list(g[1]), list(w[1])
    if any_order:
        gr.sort(key=lambda r: (r[0][0], r[0][1]))
        wr.sort(key=lambda r: (r[0][0], r[0][1]))
    ctx.eq([k[0] for k, _ in gr], [k[0] for k, _ in wr], f"{msg}: ids")
    gt, wt = [k[1] for k, _ in gr], [k[1] for k, _ in wr]
    if gt and isinstance(gt[0], str):
        ctx.eq(gt, wt, f"{msg}: times")
    else:
        ctx.close(np.array(gt, dtype=float), np.array(wt, dtype=float), f"{msg}: times", atol=1e-9)
    ctx.close(np.array([v for _, v in gr], dtype=float), np.array([v for _, v in wr], dtype=float), f"{msg}: values", atol=1e-9)


def is_const(series):
    dts = []
    for _, rows in series:
        ts = [fnum(t) for t, _ in rows]
        if len(ts) < 2:
            return None
        dts += [b - a for a, b in zip(ts, ts[1:])]
    return dts[0] if all(abs(d - dts[0]) < 1e-7 * max(1.0, abs(dts[0])) for d in dts) else None


def run_shift(ctx, ids, lens, kinds, offs):
    from datafold.pcfold.timeseries.collection import TSCException

    model = tm.make(ids, lens, kinds, offs, "s2")
    cols, series = model
    isdate = "date" in kinds[0]
    one = np.timedelta64(1, "D") if isdate else (1 if kinds[0] not in ("float", "float01") else 0.25)
    tmin = min(t for _, r in series for t, _ in r)
    # constant shift
    for k in (0, 1, 3, -1, -2):
        s = one * k if k else 0
        X = tm.build(model)
        legal = isdate or fnum(tmin) + (s if not isdate else 0) >= 0
        if legal:
            w = (cols, [(i, [(t + s, v) for t, v in r]) for i, r in series]) if k else model
            Y = X.tsc.shift_time_by_delta(s)
            close_obs(ctx, Y, tm.observe_model(w), f"shift_time_by_delta({s})")
            bad = tm.is_valid_obs(Y)
            ctx.true(bad is None, f"{bad}")
        else:
            ctx.raises((AttributeError, ValueError), lambda: X.tsc.shift_time_by_delta(s), f"shift to negative times by {s}")
    if isdate:
        return
    # per series
    X = tm.build(model)
    want = (cols, [(i, [(t - r[0][0], v) for t, v in r]) for i, r in series])
    Y, sv = X.tsc.shift_time_per_time_series(return_shift_values=True)
    close_obs(ctx, Y, tm.observe_model(want), "shift_time_per_time_series()")
    ctx.eq({int(i): float(v) for i, v in sorted(sv.items())}, {i: float(-r[0][0]) + 0.0 for i, r in sorted(series)}, "returned shifts")
    table = pd.Series([float(one) * (2 + 3 * k) for k in range(len(ids))], index=sorted(ids))
    X = tm.build(model)
    Y = X.tsc.shift_time_per_time_series(shift_values=table)
    want = (cols, [(i, [(t + table[i], v) for t, v in r]) for i, r in series])
    close_obs(ctx, Y, tm.observe_model(want), f"shift_time_per_time_series({dict(table)})")
    # back
    Z = Y.tsc.shift_time_per_time_series(shift_values=-table)
    close_obs(ctx, Z, tm.observe_model(model), "shift and shift back")
    X = tm.build(model)
    ctx.raises(TypeError, lambda: X.tsc.shift_time_per_time_series(table.to_numpy()), "shift values without IDs")
    if len(ids) > 1:
        ctx.raises(ValueError, lambda: X.tsc.shift_time_per_time_series(table.iloc[:1]), "missing shift values")
    bad = pd.Series(table.to_numpy(), index=[i + 50 for i in sorted(ids)])
    ctx.raises((ValueError, KeyError), lambda: X.tsc.shift_time_per_time_series(bad), "shift values for other IDs")
    dt = is_const(series)
    if dt:
        X = tm.build(model)
        Y = X.tsc.shift_time_per_time_series(ensure_identical_values=True)
        want = (cols, [(i, [(t - r[0][0], v) for t, v in r]) for i, r in series])
        close_obs(ctx, Y, tm.observe_model(want), "shift_time_per_time_series(ensure_identical_values)")
        if len(set(lens)) == 1:
            ctx.true(Y.is_same_time_values(), "identical time values after shifting")
    ctx.state(tm.observe(Y))


def run_normalize(ctx, ids, lens, kinds, offs):
    from datafold.pcfold.timeseries.collection import TSCException

    model = tm.make(ids, lens, kinds, offs, "s2")
    cols, series = model
    dt = is_const(series)
    X = tm.build(model)
    t0 = min(fnum(t) for _, r in series for t, _ in r)
    if dt is None:
        ctx.raises(TSCException, lambda: X.tsc.normalize_time(), "normalize_time without common step")
    else:
        ks = [(i, [((fnum(t) - t0) / dt, v) for t, v in r]) for i, r in series]
        if all(abs(k - round(k)) < 1e-6 for _, r in ks for k, _ in r):
            Y = X.tsc.normalize_time()
            close_obs(ctx, Y, tm.observe_model((cols, [(i, [(round(k), v) for k, v in r]) for i, r in ks])), "normalize_time")
            ctx.true(Y.is_normalized_time(), "is_normalized_time after normalize_time")
    ctx.state(tm.observe(X), dt)


def run_normfloat(ctx, n, start_k, step, how):
    from datafold.pcfold import TSCDataFrame

    t = {"mul": np.array([step * (start_k + k) for k in range(n)]), "lin": np.linspace(step * start_k, step * (start_k + n - 1), n),
         "arange": step * start_k + np.arange(n) * step}[how]
    parts = [pd.DataFrame(np.arange(2.0 * n).reshape(n, 2), index=t, columns=["a", "b"]), pd.DataFrame(np.ones((n, 2)), index=t + step * 2, columns=["a", "b"])]
    X = TSCDataFrame.from_frame_list(parts)
    Y = X.copy().tsc.normalize_time()
    ctx.eq([int(k) for k in Y.index.get_level_values(1)], list(range(n)) + list(range(2, n + 2)), f"normalize_time of {t.tolist()}")
    Z = X.copy().tsc.shift_time_per_time_series(ensure_identical_values=True)
    ctx.true(Z.is_same_time_values(), "identical times after shifting with ensure_identical_values")
    ctx.close(Z.time_values(), step * np.arange(n), "shifted times")
    ctx.state(t, how)


def run_rows(ctx, ids, lens, kinds, offs):
    """dropping samples, expanding, sequential IDs, filling"""
    from datafold.pcfold.timeseries.collection import TSCException

    model = tm.make(ids, lens, kinds, offs, "s2")
    cols, series = model
    X = tm.build(model)
    before = tm.observe(X)
    for n in range(0, max(lens) + 2):
        if n <= min(lens):
            w = [(i, r[: len(r) - n]) for i, r in series]
            if not any(r for _, r in w):
                continue  # nothing left
            ctx.eq(tm.observe(X.tsc.drop_last_n_samples(n)), obs_model(cols, [s for s in w if s[1]]), f"drop_last_n_samples({n})")
        else:
            ctx.raises(TSCException, lambda: X.tsc.drop_last_n_samples(n), f"drop_last_n_samples({n}) of a shorter series")
    # expand with further times
    tmax = max(t for _, r in series for t, _ in r)
    one = np.timedelta64(1, "D") if "date" in kinds[0] else 1
    tl = [[tm.norm_t(t) for t, _ in r] for _, r in series]
    for k in (1, 2):
        new = np.array([tmax + one * (j + 1) for j in range(k)])
        if len(ids) == 1 or all(t == tl[0] for t in tl):
            Y = X.tsc.expand_time_values(new, fill_value=-4.5)
            w = [(i, r + [(t, (-4.5, -4.5)) for t in new]) for i, r in series]
            ctx.eq(sorted_rows(tm.observe(Y)), sorted(obs_model(cols, w)[1], key=lambda r: (r[0][0], str(r[0][1]).zfill(30))), f"expand_time_values({k})")
            bad = tm.is_valid_obs(Y)
            ctx.true(bad is None, f"{bad}")
        else:
            ctx.raises(TSCException, lambda: X.tsc.expand_time_values(new), "expand_time_values with different time values")
    ctx.eq(tm.observe(X), before, "collection modified")
    # sequential IDs: a renumbering 0..n-1 that keeps series apart, times and values
    Y = X.copy().tsc.assign_ids_sequential()
    o = tm.observe(Y)
    mp = {}
    for (k, _), (k2, _) in zip(before[1], o[1]):
        ctx.true(mp.setdefault(k[0], k2[0]) == k2[0], "assign_ids_sequential: series torn apart")
        ctx.true(k[1] == k2[1], "assign_ids_sequential: time changed")
    ctx.eq(sorted(mp.values()), list(range(len(ids))), "assign_ids_sequential: new IDs")
    ctx.eq([v for _, v in o[1]], [v for _, v in before[1]], "assign_ids_sequential: values")
    # fill with the last state
    dt = is_const(series)
    if len(ids) == 1 and dt:
        for n in range(1, lens[0] + 4):
            if n > lens[0]:
                r = series[0][1]
                step = r[1][0] - r[0][0]
                w = r + [(r[-1][0] + step * (j + 1), r[-1][1]) for j in range(n - lens[0])]
                if "date" in kinds[0]:
                    continue
                close_obs(ctx, X.tsc.fill_timeseries_with_last_state(n), obs_model(cols, [(ids[0], w)]), f"fill_timeseries_with_last_state({n})")
            else:
                ctx.raises(TSCException, lambda: X.tsc.fill_timeseries_with_last_state(n), f"fill to {n} of {lens[0]} samples")
    ctx.eq(tm.observe(X), before, "collection modified")
    ctx.state(before, dt)


def run_window(ctx, ids, lens, kinds, offs, ws, off, per):
    from datafold.pcfold.timeseries.collection import TSCException

    model = tm.make(ids, lens, kinds, offs, "s2")
    cols, series = model
    X = tm.build(model)
    if is_const(series) is None:
        ctx.raises(TSCException, lambda: list(X.tsc.iter_timevalue_window(ws, off, per_time_series=per)), "windows without common step")
        return
    got = [tm.observe(w) for w in X.tsc.iter_timevalue_window(ws, off, per_time_series=per)]
    want = []
    groups = [[s] for s in series] if per else [series]
    for g in groups:
        tv = sorted({fnum(t) for _, r in g for t, _ in r})
        s = 0
        while s + ws <= len(tv):
            sel = set(tv[s : s + ws])
            want.append(obs_model(cols, [(i, [x for x in r if fnum(x[0]) in sel]) for i, r in g]))
            s += off
    if per:
        ctx.eq(sorted(map(str, got)), sorted(map(str, want)), f"iter_timevalue_window({ws},{off},per series)")
    else:
        ctx.eq(got, want, f"iter_timevalue_window({ws},{off})")
    ctx.state(got)


def run_window_bad(ctx, ws, off, per):
    X = tm.build(tm.make((0,), (4,), ("int",), (0,), "s2"))
    ctx.raises((TypeError, ValueError), lambda: list(X.tsc.iter_timevalue_window(ws, off, per_time_series=per)), f"window {ws} {off}")
    ctx.state(ws, off, per)


def run_traintest(ctx, split, word):
    """label every sample train/test/dropped; a new series = a maximal run of one label inside one old series"""
    lens = [n for n in split if n]
    ids = (3, 1, 6)[: len(lens)]
    model = tm.make(ids, lens, ("int",) * len(lens), tuple(range(len(lens))), "s2")
    X = tm.build(model)
    before = tm.observe(X)
    train = np.array([k for k, w in enumerate(word) if w == 0], dtype=int)
    test = np.array([k for k, w in enumerate(word) if w == 1], dtype=int)
    tr, te, dr = X.tsc.assign_ids_train_test(train, test, return_dropped=True)
    flat = [(i, t, v) for i, r in model[1] for t, v in r]
    runs, cur = [], None
    for k, w in enumerate(word):
        key = (flat[k][0], w)
        if key != cur or w == 2:
            runs.append([])
            cur = key
        runs[-1].append(k)
    newid = {}
    for name, D, idx in (("train", tr, train), ("test", te, test), ("dropped", dr, [k for k, w in enumerate(word) if w == 2])):
        ctx.eq([[float(x) for x in v] for v in D.to_numpy()], [list(map(float, flat[k][2])) for k in idx], f"{name} values")
        ctx.eq([float(t) for t in D.index.get_level_values(1)], [float(flat[k][1]) for k in idx], f"{name} times")
        for i, k in zip(D.index.get_level_values(0), idx):
            newid[k] = int(i)
    used = []
    for r in runs:
        if word[r[0]] == 2:
            continue
        s = {newid[k] for k in r}
        ctx.true(len(s) == 1, f"a run of consecutive samples {r} got several IDs {s}")
        used.append(s.pop())
    ctx.true(len(set(used)) == len(used), f"separate runs share a series ID: {runs} -> {used}")
    for name, D in (("train", tr), ("test", te)):
        if len(D):
            ctx.eq(type(D).__name__, "TSCDataFrame", f"{name} type")
            bad = tm.is_valid_obs(D)
            ctx.true(bad is None, f"{name}: {bad}")
    two = X.tsc.assign_ids_train_test(train, test)
    ctx.eq((two[0], two[1]), (tr, te), "without return_dropped")
    ctx.eq(tm.observe(X), before, "collection modified")
    ctx.state(newid)


def run_traintest_bad(ctx, tr, te):
    X = tm.build(tm.make((0, 1), (2, 2), ("int",) * 2, (0, 0), "s2"))
    ctx.raises(ValueError, lambda: X.tsc.assign_ids_train_test(np.array(tr), np.array(te)), f"{tr} {te}")
    ctx.state(tr, te)


def run_constdelta(ctx, words, drop, kind):
    """split irregular series: every result series is a contiguous, constantly sampled piece of an original one"""
    series = []
    ids = (2, 0, 5)[: len(words)] if len(words) > 1 else (4,)
    unit = {"int": 1, "float": 0.5, "date": np.timedelta64(1, "D")}[kind]
    for p, w in enumerate(words):
        t = {"int": 3, "float": 0.5, "date": tm.BASE}[kind]
        rows = [(t, (tm.val(p, 0, 0), tm.val(p, 0, 1)))]
        for k, g in enumerate(w):
            t = t + unit * g
            rows.append((t, (tm.val(p, k + 1, 0), tm.val(p, k + 1, 1))))
        series.append((ids[p], rows))
    model = (["a", "b"], series)
    X = tm.build(model)
    before = tm.observe(X)
    pos = {(tm.norm_t(t), v): (i, k) for i, r in series for k, (t, v) in enumerate(r)}
    try:
        Y = X.copy().tsc.assign_ids_const_delta(drop_samples=drop)
    except ValueError:
        ctx.true(not drop, "ValueError although samples may be dropped")
        # rejection must be justified: some series is irregular
        ctx.true(any(len(set(w)) != 1 for w in words), f"regular series rejected: {words}")
        ctx.state(words, "rejected")
        return
    if Y is None:
        ctx.true(drop and all(len(set(w)) != 1 for w in words), f"everything dropped although there are regular series {words}")
        ctx.state(words, "none")
        return
    bad = tm.is_valid_obs(Y)
    ctx.true(bad is None, f"{bad}")
    got = {}
    for (i, t), v in zip(Y.index, Y.to_numpy()):
        key = (tm.norm_t(t), tuple(float(x) for x in v))
        match = [q for q in pos if q[0] == key[0] and tuple(map(float, q[1])) == key[1]]
        ctx.true(len(match) == 1, f"sample {key} is not an original sample")
        got.setdefault(int(i), []).append(pos[match[0]] + (t,))
    ctx.eq(sorted(got), list(range(len(got))), "new IDs")
    kept = []
    for i, s in got.items():
        ctx.true(len({q[0] for q in s}) == 1, f"new series {i} mixes samples of several original series: {s}")
        ks = [q[1] for q in s]
        ctx.true(ks == list(range(ks[0], ks[0] + len(ks))), f"new series {i} skips original samples: {ks} of gaps {words}")
        d = {fnum(b[2]) - fnum(a[2]) for a, b in zip(s, s[1:])}
        ctx.true(len(d) <= 1, f"new series {i} is not constantly sampled: {ks} of gaps {words}")
        ctx.true(len(s) >= 2, f"new series {i} has a single sample {words}")
        kept += [(q[0], q[1]) for q in s]
    ctx.true(len(set(kept)) == len(kept), "duplicated sample")
    if not drop:
        ctx.eq(sorted(kept), sorted((i, k) for i, r in series for k in range(len(r))), f"samples lost without drop_samples {words}")
    for (i, r), w in zip(series, words):  # constantly sampled series stay complete
        if len(set(w)) == 1:
            mine = [q for q in kept if q[0] == i]
            ctx.eq(len(mine), len(r), f"regular series {i} incomplete {words}")
            ctx.eq(len({k for k, s in got.items() if s[0][0] == i}), 1, f"regular series {i} split {words}")
    ctx.eq(tm.observe(X), before, "the original was modified")
    ctx.state(got)


def run_derivative(ctx, ids, lens, scheme, order, acc, shift, step):
    """finite differences are exact on polynomials up to degree order+accuracy-1"""
    from datafold.pcfold import TSCDataFrame

    deg = order + acc - 1
    if scheme == "center":
        m = (2 * ((order + 1) // 2) - 1 + acc) // 2
        left, right = m, m
    elif scheme == "backward":
        left, right = order + acc - 1, 0
    else:
        left, right = 0, order + acc - 1
    width = left + right
    full = [width + n for n in lens]
    rng = [np.array([(-1) ** j * (0.3 + 0.1 * ((p + j + c) % 5)) for j in range(deg + 1)]) for p in range(len(ids)) for c in range(2)]
    polys = {(p, c): np.polynomial.Polynomial(rng[2 * p + c]) for p in range(len(ids)) for c in range(2)}
    series = []
    for p, (i, n) in enumerate(zip(ids, full)):
        rows = []
        for k in range(n):
            t = step * (k + p)
            rows.append((t, tuple(float(polys[p, c](t)) for c in range(2))))
        series.append((i, rows))
    X = tm.build((["a", "b"], series))
    before = tm.observe(X)
    D = X.tsc.time_derivative(scheme=scheme, diff_order=order, accuracy=acc, shift_index=shift)
    want = []
    for p, (i, rows) in enumerate(series):
        rr = []
        for k in range(left, len(rows) - right):
            t = rows[k][0]
            lab = rows[k][0]
            if shift and scheme in ("center", "forward"):
                lab = rows[k + right][0]
            rr.append((lab, tuple(float(polys[p, c].deriv(order)(t)) for c in range(2))))
        want.append((i, rr))
    g, w = tm.observe(D), tm.observe_model((["a", "b"], want))
    gd, wd = dict((k, v) for k, v in [((a, round(b, 9)), v) for (a, b), v in g[1]]), dict(((a, round(b, 9)), v) for (a, b), v in w[1])
    ctx.eq(sorted(gd), sorted(wd), f"time labels of the derivative {scheme} {order} {acc} shift={shift}")
    for k in wd:
        ctx.close(gd[k], wd[k], f"derivative at {k}", rtol=1e-6, atol=1e-6)
    ctx.eq(g[0], w[0], "columns")
    ctx.eq(tm.observe(X), before, "collection modified")
    ctx.state(scheme, order, acc, shift, sorted(gd))


def run_augment(ctx, ids, lens):
    """control u_k of state k is attached to state k+1 of the same series; first row of each series has none"""
    model = tm.make(ids, lens, ("int",) * len(ids), tuple(range(len(ids))), "s2")
    cols, series = model
    X = tm.build(model)
    U = tm.build((["u"], [(i, [(t, (100.0 + 10 * i + t,)) for t, _ in r[:-1]]) for i, r in series]))
    uo, xo = tm.observe(U), tm.observe(X)
    A = X.tsc.augment_control_input(U)
    want = []
    for i, r in series:
        want.append((i, [(t, v + ((np.nan,) if k == 0 else (100.0 + 10 * i + r[k - 1][0],))) for k, (t, v) in enumerate(r)]))
    ctx.eq(tm.observe(A), tm.observe_model((cols + ["u"], want)), "augment_control_input")
    ctx.eq((tm.observe(U), tm.observe(X)), (uo, xo), "operands modified")
    ctx.state(tm.observe(A))


RUN = {"shift": run_shift, "normalize": run_normalize, "normfloat": run_normfloat, "rows": run_rows, "window": run_window, "window_bad": run_window_bad,
       "traintest": run_traintest, "traintest_bad": run_traintest_bad, "constdelta": run_constdelta,
       "derivative": run_derivative, "augment": run_augment}


def cases(tier):
    th = tier == "thorough"
    L = 4 if th else 3
    for s in tm.shapes(3 if th else 2, L, kinds=("int", "int3", "float", "date") if th else ("int", "float", "date"), offs=(0, 1)):
        yield "shift", s
        yield "normalize", s
        yield "rows", s
    if not th:
        for s in tm.shapes(3, 2, kinds=("int",), offs=(0, 1)):
            if len(s[0]) == 3:
                yield "shift", s
                yield "normalize", s
                yield "rows", s
    for n in (2, 3, 5, 9):
        for st in (0, 1, 7, 100):
            for step in (0.1, 0.3, 1e-3, 2.0 / 3, 0.25):
                for how in ("mul", "lin", "arange"):
                    yield "normfloat", (n, st, step, how)
    for s in tm.shapes(2, L + 1, kinds=("int", "float", "date"), offs=(0, 1, 2), mixed=th, min_len=2):
        for ws in (1, 2, 3, 4):
            for off in (1, 2, 3):
                for per in (False, True):
                    yield "window", s + (ws, off, per)
    for ws, off in [(0, 1), (1, 0), (-1, 1), (1, -1), (1.5, 1), (1, 1.5)]:
        for per in (False, True):
            yield "window_bad", (ws, off, per)
    N = 8 if th else 6
    for n in range(1, N + 1):
        splits = [(n,)] + [(a, n - a) for a in range(1, n)] if n <= 5 else [(n,), (n // 2, n - n // 2), (2, 1, n - 3)]
        for sp in splits:
            for w in itertools.product((0, 1, 2), repeat=n):
                if 0 in w and 1 in w:
                    yield "traintest", (sp, w)
    for tr, te in [((0, 1), (1, 2)), ((1, 0), (2,)), ((0, 0), (2,)), ((-1,), (2,)), ((0.0,), (1,)), (((0,),), (1,)), ((0,), (2, 2)), ((0,), (3, 2))]:
        yield "traintest_bad", (tr, te)
    for n in range(1, 7 if th else 6):
        for w in itertools.product((1, 2, 5), repeat=n):
            for drop in (False, True):
                yield "constdelta", ((w,), drop, "int")
                if n <= 4:
                    yield "constdelta", ((w,), drop, "date")
                    yield "constdelta", ((w,), drop, "float")
                if n <= 3:
                    yield "constdelta", ((w, (1, 1)), drop, "int")
                    yield "constdelta", (((2, 2, 2), w), drop, "int")
                    yield "constdelta", ((w, w, (1, 5, 1)), drop, "int")
    for scheme in ("backward", "center", "forward"):
        for order in (1, 2, 3, 4) if th else (1, 2, 3):
            for acc in (2, 4, 6) if th else (2, 4):
                for shift in (False, True):
                    for step in (1, 0.5):
                        for ids in ((0,), (5,), (0, 1), (1, 0), (3, 0, 7)):
                            for lens in itertools.product((1, 2, 3), repeat=len(ids)):
                                yield "derivative", (ids, lens, scheme, order, acc, shift, step)
    for ids in ((0,), (1,), (4,), (0, 1), (1, 0), (1, 2), (3, 7), (2, 1), (1, 0, 2)):
        for lens in itertools.product((2, 3, 4), repeat=len(ids)):
            yield "augment", (ids, lens)
