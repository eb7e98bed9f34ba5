"""C07: cross-validation splits of time series collections: disjoint, covering, series-preserving, no leakage."""
import itertools
import numpy as np
import pandas as pd
import tscmodel as tm

PROPERTY = "C07"
BOUND = """
alphabet: TSCKfoldSeries / TSCKFoldTime: every (number of series 1..5, length 1..5 (6), n_splits 2..6, shuffle x 3 seeds)
for consecutive/unsorted/holed IDs; TSCWindowFoldTime: every vector of 1-3 series lengths in 1..6 (thorough 1..8) with
every gap and IDs {consecutive, holed}, window 1..4 (5), offset 0..2 (3), minimum training length {none,1..4}; illegal
arguments; each split is then applied with assign_ids_train_test. Oracle: explicit fold / window construction.
"""


def folds(n, k):
    sizes = [n // k + (1 if i < n % k else 0) for i in range(k)]
    out, s = [], 0
    for z in sizes:
        out.append(list(range(s, s + z)))
        s += z
    return out


def apply_split(ctx, X, tr, te, pos):
    """the labelled pieces never contain a gap in the original row positions of one series"""
    A, B = X.tsc.assign_ids_train_test(np.asarray(tr), np.asarray(te))
    seen = set()
    for D, idx in ((A, tr), (B, te)):
        by = {}
        for i, k in zip(D.index.get_level_values(0), idx):
            by.setdefault(int(i), []).append(k)
        for i, ks in by.items():
            ctx.true(i not in seen, f"ID {i} is used in training and test")
            ctx.true(all(b == a + 1 for a, b in zip(ks, ks[1:])) and len({pos[k][0] for k in ks}) == 1, f"series {i} spans a gap: rows {ks}")
        seen |= set(by)


def run_kfold(ctx, cls, ids, n, k, shuffle, seed):
    from datafold.pcfold.timeseries import metric as m

    series = len(ids)
    model = tm.make(ids, (n,) * series, ("int",) * series, (0,) * series, "s2")
    X = tm.build(model)
    before = tm.observe(X)
    pos = [(i, q) for i, r in model[1] for q in range(len(r))]
    if cls == "series":
        cv = m.TSCKfoldSeries(n_splits=k, shuffle=shuffle, random_state=seed if shuffle else None)
        units = series
    else:
        cv = m.TSCKFoldTime(n_splits=k)
        units = n
    ctx.eq(cv.get_n_splits(X), k, "get_n_splits")
    if units < k:
        ctx.raises(ValueError, lambda: list(cv.split(X)), f"{k} splits of {units}")
        return
    got = [(a.tolist(), b.tolist()) for a, b in cv.split(X)]
    ctx.eq(len(got), k, "number of splits")
    allt = []
    for j, (tr, te) in enumerate(got):
        ctx.eq(sorted(tr + te), list(range(len(pos))), f"split {j} must contain every sample exactly once")
        ctx.true(tr == sorted(tr) and te == sorted(te), "indices not sorted")
        if cls == "series":
            st, se = {pos[q][0] for q in te}, {pos[q][0] for q in tr}
            ctx.true(not st & se, f"series {st & se} in training and test")
            if not shuffle:
                ctx.eq(sorted(st), sorted(ids[q] for q in folds(series, k)[j]), f"test series of split {j}")
            ctx.true(len(st) in (series // k, series // k + 1), f"unbalanced fold {st}")
        else:
            tt, tq = {pos[q][1] for q in te}, {pos[q][1] for q in tr}
            ctx.true(not tt & tq, f"time steps {tt & tq} in training and test")
            ctx.eq(sorted(tt), folds(n, k)[j], f"test times of split {j}")
        apply_split(ctx, X, tr, te, pos)
        allt += te
    ctx.eq(sorted(allt), list(range(len(pos))), "every sample is tested exactly once")
    ctx.eq([(a.tolist(), b.tolist()) for a, b in cv.split(X)] if not shuffle or seed is not None else got, got, "splitting again")
    ctx.eq(tm.observe(X), before, "collection modified")
    ctx.state(cls, ids, n, k, got)


def run_kfold_bad(ctx, cls, ids, lens, offs):
    from datafold.pcfold.timeseries import metric as m

    X = tm.build(tm.make(ids, lens, ("int",) * len(ids), offs, "s2"))
    cv = m.TSCKfoldSeries(n_splits=2) if cls == "series" else m.TSCKFoldTime(n_splits=2)
    ctx.raises((NotImplementedError, ValueError), lambda: list(cv.split(X)), f"{cls} of {lens} {offs}")
    ctx.state(cls, ids, lens, offs)


def window_oracle(lens, L, off, mn):
    """reverse over series; windows from the end; training runs shorter than mn dropped"""
    starts, s = [], 0
    for n in lens:
        starts.append(s)
        s += n
    out = []
    for p in reversed(range(len(lens))):
        end = lens[p]
        while end - L >= 0:
            te = list(range(starts[p] + end - L, starts[p] + end))
            runs = []
            for q, n in enumerate(lens):
                cur = []
                for r in range(starts[q], starts[q] + n):
                    if r in te:
                        if cur:
                            runs.append(cur)
                        cur = []
                    else:
                        cur.append(r)
                if cur:
                    runs.append(cur)
            tr = [r for run in runs if mn is None or len(run) >= mn for r in run]
            if tr:
                out.append((tr, te))
            end -= L + off
    return out


def run_window(ctx, ids, lens, gaps, kind, L, off, mn):
    from datafold.pcfold.timeseries.metric import TSCWindowFoldTime

    series, t = [], 0
    for p, (i, n) in enumerate(zip(ids, lens)):
        rows = []
        for k in range(n):
            tv = {"int": t, "float": 0.5 * t, "date": tm.BASE + np.timedelta64(t, "D")}[kind]
            rows.append((tv, (tm.val(p, k, 0), tm.val(p, k, 1))))
            t += 1
        t += gaps
        series.append((i, rows))
    model = (["a", "b"], series)
    X = tm.build(model)
    before = tm.observe(X)
    pos = [(i, q) for i, r in series for q in range(len(r))]
    cv = TSCWindowFoldTime(test_window_length=L, window_offset=off, train_min_timesteps=mn)
    if all(n < L for n in lens):
        ctx.raises(ValueError, lambda: list(cv.split(X)), f"window {L} longer than all series {lens}")
        return
    if any(n == 1 for n in lens):  # no sampling step
        from datafold.pcfold.timeseries.collection import TSCException

        ctx.raises(TSCException, lambda: list(cv.split(X)), "a series without time step")
        return
    want = window_oracle(lens, L, off, mn)
    got = [(a.astype(int).tolist(), b.astype(int).tolist()) for a, b in cv.split(X)]
    ctx.eq(got, want, f"TSCWindowFoldTime(L={L}, offset={off}, min={mn}) of lengths {lens}")
    ctx.eq(cv.get_n_splits(X), len(want), "get_n_splits")
    for tr, te in cv.split(X):
        ctx.true(np.issubdtype(tr.dtype, np.integer) and np.issubdtype(te.dtype, np.integer), f"indices of dtype {tr.dtype},{te.dtype}")
        apply_split(ctx, X, tr.tolist(), te.tolist(), pos)
        _, D = X.tsc.assign_ids_train_test(tr, te)
        ctx.eq((D.n_timeseries, D.n_timesteps), (1, L), "the test window is one series of the window length")
        A, _ = X.tsc.assign_ids_train_test(tr, te)
        if mn is not None:
            ctx.true((np.asarray(A.n_timesteps) >= mn).all(), f"training series shorter than {mn}")
    ctx.eq(tm.observe(X), before, "collection modified")
    ctx.state(ids, lens, gaps, L, off, mn, got)


def run_window_bad(ctx, args):
    from datafold.pcfold.timeseries.metric import TSCWindowFoldTime

    ctx.raises(ValueError, lambda: TSCWindowFoldTime(*args), f"{args}")
    ctx.state(args)


def run_window_overlap(ctx, lens, offs, L):
    from datafold.pcfold.timeseries.collection import TSCException
    from datafold.pcfold.timeseries.metric import TSCWindowFoldTime

    X = tm.build(tm.make((0, 1), lens, ("int",) * 2, offs, "s2"))
    ctx.raises(TSCException, lambda: list(TSCWindowFoldTime(L).split(X)), "overlapping time series")
    ctx.raises(ValueError, lambda: TSCWindowFoldTime(L).get_n_splits(), "get_n_splits without data")
    ctx.state(lens, offs, L)


RUN = {"kfold": run_kfold, "kfold_bad": run_kfold_bad, "window": run_window, "window_bad": run_window_bad, "window_overlap": run_window_overlap}


def cases(tier):
    th = tier == "thorough"
    IDS = [(0,), (4,), (0, 1), (1, 0), (3, 9), (0, 1, 2), (2, 0, 1), (5, 1, 9), (0, 1, 2, 3), (3, 1, 2, 0), (7, 2, 5, 0, 1), (0, 1, 2, 3, 4)]
    for ids in IDS:
        for n in range(1, 7 if th else 6):
            for k in range(2, 7):
                yield "kfold", ("time", ids, n, k, False, None)
                yield "kfold", ("series", ids, n, k, False, None)
                if n <= 2:
                    for seed in (0, 1, 7):
                        yield "kfold", ("series", ids, n, k, True, seed)
    for ids in [(0, 1), (1, 0), (2, 0, 1)]:
        for lens in itertools.product((1, 2, 3), repeat=len(ids)):
            for offs in itertools.product((0, 1), repeat=len(ids)):
                if len(set(lens)) > 1:
                    yield "kfold_bad", ("series", ids, lens, offs)
                if len(set(zip(lens, offs))) > 1:
                    yield "kfold_bad", ("time", ids, lens, offs)
    M = 8 if th else 6
    for ids in [(0,), (4,), (0, 1), (3, 9), (0, 1, 2), (2, 5, 6)]:
        for lens in itertools.product(range(1, M + 1), repeat=len(ids)):
            if len(ids) == 3 and not th and (max(lens) > 4):
                continue
            if len(ids) == 3 and max(lens) > 5:
                continue
            if ids[0] and len(ids) > 1 and (min(lens) < 2 or (not th and max(lens) > 4)):
                continue
            if len(ids) == 3 and not th and (min(lens) < 2 or max(lens) == 4 and ids[0]):
                continue
            if len(ids) == 2 and not th and max(lens) > 5:
                continue
            for L in range(1, 6 if th else 5):
                for off in range(0, 4 if th else 3):
                    for mn in (None, 1, 2, 3, 4) if len(ids) < 3 else (None, 2, 3):
                        if len(ids) == 3 and not th and off == 2:
                            continue
                        yield "window", (ids, lens, (1 if L % 2 else 5), ("int", "float", "date")[(L + off) % 3], L, off, mn)
    for a in [(0,), (-1,), (1.5,), (2, -1), (2, 0.5), (2, 0, 0), (2, 0, -3), (2, 0, 1.5), ("2",)]:
        yield "window_bad", (a,)
    for lens in itertools.product((2, 3), repeat=2):
        for o in ((0, 0), (0, 1), (1, 0)):
            for L in (1, 2):
                yield "window_overlap", (lens, o, L)
