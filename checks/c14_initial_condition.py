"""C14: initial conditions cut from, or built for, a collection are exactly the requested samples."""
import itertools
import numpy as np
import pandas as pd
import tscmodel as tm
from c06_gatekeeping import dt_of, fnum

PROPERTY = "C14"
BOUND = """
from_array: 1-3 rows (and 1-dim.) x {int, float, date} time value x feature names {list, Index, permuted} x IDs {default, every
permutation of 3, duplicates, negative} x one non-finite entry at each position; from_array_control: 1-40 (thorough 200) rows x 14
sampling rates (int, float incl. 0.1, 0.3, 1/3, timedelta) or time values; from_tsc / iter_reconstruct_ic / validate: all collections
with 1-3 series, length 1-3 (thorough 4), all ID orders, regular/irregular axes, shifts, gap words, x n_samples 1-3 x sampling rate;
validate_control: all pairs of (state IDs order, control IDs order, end time, start time). Oracle: lists of rows.
"""
REJ = None


def rej():
    from datafold.pcfold.timeseries.collection import TSCException

    return (ValueError, TypeError, AttributeError, NotImplementedError, TSCException)


def run_array(ctx, n, d, tkind, names, ids):
    from datafold.pcfold import InitialCondition, TSCDataFrame

    x = np.array([[tm.val(p, 0, j) for j in range(d)] for p in range(n)])
    cols = ["b", "a", "c"][:d]
    if names == "list":
        fn = list(cols)
    elif names == "index":
        fn = pd.Index(cols, name="feature")
    else:
        fn = list(range(d))
        cols = fn
    tv = {"int": 3, "float": 0.7, "zero": 0, "date": np.datetime64("2021-03-02")}[tkind]
    idarg = None if ids is None else np.array(ids)
    good = ids is None or (len(set(ids)) == len(ids) == n and min(ids) >= 0)
    for X in ([x, x[0]] if n == 1 else [x]):
        before = X.copy()
        call = lambda: InitialCondition.from_array(X, time_value=tv, feature_names=fn, ts_ids=idarg)
        if not good:
            ctx.raises(rej(), call, f"IDs {ids} for {n} initial conditions")
            continue
        ic = call()
        ctx.true(isinstance(ic, TSCDataFrame), "type")
        want = tm.observe_model((cols, [(i, [(tv, tuple(x[p]))]) for p, i in enumerate(ids or range(n))]))
        ctx.eq(tm.observe(ic), want, "initial conditions")
        ctx.eq(tm.is_valid_obs(ic), None, "valid")
        ctx.eq(X.tolist(), before.tolist(), "array modified")
        ic.iloc[0, 0] = 77.0
        for p in range(n):
            for j in range(d):
                for bad in (np.nan, np.inf):
                    y = np.atleast_2d(before).copy()
                    y[p, j] = bad
                    ctx.raises(rej(), lambda: InitialCondition.from_array(y, time_value=tv, feature_names=fn, ts_ids=idarg), f"{bad} at {p},{j}")
    if good:
        ctx.raises(rej(), lambda: InitialCondition.from_array(x[:, :, None], time_value=tv, feature_names=fn), "3-dim. array")
        ctx.raises(rej(), lambda: InitialCondition.from_array(x, time_value=tv, feature_names=list(fn) + ["zz"]), "too many feature names")
    ctx.state(n, d, tkind, names, ids)


DTS = (1, 2, 3, 0.1, 0.2, 0.3, 0.7, 0.01, 1 / 3, 0.05, 1.1, 1e-3, 2.5, "1D", "6h")


def run_control(ctx, dt, n):
    from datafold.pcfold import InitialCondition

    step = np.timedelta64(int(dt[:-1]) * (24 if dt[-1] == "D" else 1), "h") if isinstance(dt, str) else dt
    for m in (1, 2):
        U = np.array([[tm.val(1, k, j) for j in range(m)] for k in range(n)])
        for arr in ([U, U[:, 0]] if m == 1 else [U]):
            b = arr.copy()
            names = ["v", "u"][:m]
            if not isinstance(dt, str):
                got = InitialCondition.from_array_control(arr, control_names=names, dt=step, ts_id=4)
                ids, times, vals = got.index.get_level_values(0), got.index.get_level_values(1), got.to_numpy()
                ctx.eq(list(ids), [4] * n, f"IDs dt={dt}")
                ctx.eq(list(got.columns), names, "names")
                ctx.close(np.asarray(times, dtype=float), np.arange(n) * float(step), f"time values n={n} dt={dt}", rtol=1e-13, atol=1e-15)
                ctx.close(vals, U, "values", rtol=0)
            tv = np.arange(n) * step if not isinstance(dt, str) else tm.BASE + np.arange(n) * step
            got = InitialCondition.from_array_control(arr, control_names=names, time_values=tv, ts_id=4)
            ctx.eq([tm.norm_t(t) for t in got.index.get_level_values(1)], [tm.norm_t(t) for t in tv], "given time values")
            ctx.close(got.to_numpy(), U, "values", rtol=0)
            ctx.eq(arr.tolist(), b.tolist(), "control array modified")
            ctx.raises(rej(), lambda: InitialCondition.from_array_control(arr, control_names=names, time_values=np.append(tv, tv[-1:] + step), ts_id=4), "wrong number of time values")
    ctx.raises(rej(), lambda: InitialCondition.from_array_control(U, control_names=["v", "u"]), "neither dt nor time values")
    ctx.raises(rej(), lambda: InitialCondition.from_array_control(U.tolist(), control_names=["v", "u"], dt=1), "no array")
    ctx.state(dt, n)


def is_const(rows):
    return len(rows) == 1 or dt_of(rows) is not None


def run_tsc(ctx, ids, lens, kinds, offs):
    from datafold.pcfold import InitialCondition

    model = tm.make(ids, lens, kinds, offs, "s2")
    cols, series = model
    X = tm.build(model)
    before = str(tm.observe(X))
    short = min(lens)
    times = lambda rows: [tm.norm_t(t) for t, _ in rows]
    sig = []
    for n in (1, 2, 3):
        if short < n:
            ctx.raises(rej(), lambda: InitialCondition.from_tsc(X, n_samples_ic=n), f"series shorter than {n}")
            ctx.raises(rej(), lambda: list(InitialCondition.iter_reconstruct_ic(X, n_samples_ic=n)), f"iter: series shorter than {n}")
        else:
            heads = [(i, r[:n]) for i, r in series]
            same = all(times(r) == times(heads[0][1]) for _, r in heads)
            regular = all(is_const(r) for _, r in heads)
            full = all(is_const(r) for _, r in series) and len({dt_of(r) for _, r in series}) == 1
            want = tm.observe_model((cols, heads))
            if not same or not regular:
                ctx.raises(rej(), lambda: InitialCondition.from_tsc(X, n_samples_ic=n), f"from_tsc({n}) different or irregular times")
            elif n == 1 or full:
                ctx.eq(tm.observe(InitialCondition.from_tsc(X, n_samples_ic=n)), want, f"from_tsc({n})")
            else:  # later samples are irregular: unspecified, but never other samples
                try:
                    ctx.eq(tm.observe(InitialCondition.from_tsc(X, n_samples_ic=n)), want, f"from_tsc({n})")
                except rej():
                    pass
            # groups with identical time values
            if all(len(r) > 1 and is_const(r) for _, r in series):
                groups = {}
                for i, r in series:
                    groups.setdefault(tuple(times(r)), []).append((i, r))
                got = list(InitialCondition.iter_reconstruct_ic(X, n_samples_ic=n))
                gm = {tuple(sorted(i for i, _ in g)): (tv, g) for tv, g in groups.items()}
                seen = []
                for ic, tv in got:
                    key = tuple(sorted({int(i) for i in ic.index.get_level_values(0)}))
                    seen.append(key)
                    if not ctx.true(key in gm, f"iter_reconstruct_ic({n}): group {key} not in {list(gm)}"):
                        continue
                    ctx.eq([tm.norm_t(t) for t in np.asarray(tv)], list(gm[key][0][n - 1:]), f"time values of group {key}")
                    o = tm.observe(ic)
                    order = []
                    for (i, _), _ in o[1]:
                        if i not in order:
                            order.append(i)
                    d = dict(gm[key][1])
                    ctx.eq(o, tm.observe_model((cols, [(i, d[i][:n]) for i in order])), f"initial states of group {key}")
                ctx.eq(sorted(seen), sorted(gm), f"groups of iter_reconstruct_ic({n})")
            elif any(not is_const(r) for _, r in series):
                ctx.raises(rej(), lambda: list(InitialCondition.iter_reconstruct_ic(X, n_samples_ic=n)), "irregular sampling")
        # validate
        eqtimes = all(times(r) == times(series[0][1]) for _, r in series)
        ok = eqtimes and all(is_const(r) for _, r in series)
        okn = ok and all(len(r) == n for _, r in series)
        for nn, v in ((None, ok), (n, okn)):
            if v:
                ctx.eq(InitialCondition.validate(X, n_samples_ic=nn), True, "validate")
            else:
                ctx.raises(rej(), lambda: InitialCondition.validate(X, n_samples_ic=nn), f"validate(n_samples_ic={nn})")
        if n > 1:
            isdate = "date" in kinds[0]
            for d in (1, 2, 0.5):
                arg = np.timedelta64(int(24 * d), "h") if isdate else d
                f = d * (86400e9 if isdate else 1)
                if okn and abs(dt_of(series[0][1]) - f) < 1e-12:
                    ctx.eq(InitialCondition.validate(X, n_samples_ic=n, dt=arg), True, "validate dt")
                else:
                    ctx.raises(rej(), lambda: InitialCondition.validate(X, n_samples_ic=n, dt=arg), f"validate(n_samples_ic={n}, dt={arg})")
        sig.append(okn)
    ctx.raises(rej(), lambda: InitialCondition.validate(X, n_samples_ic=1, dt=1), "dt for single samples")
    ctx.raises(rej(), lambda: InitialCondition.validate(X, dt=1), "dt without n_samples_ic")
    ctx.raises(rej(), lambda: InitialCondition.validate(pd.DataFrame(X)), "no collection")
    for k in range(sum(lens)):
        Y = tm.build(model)
        a = Y.to_numpy().copy()
        a[k, k % 2] = (np.nan, np.inf, -np.inf)[k % 3]
        Y.iloc[:, :] = a
        ctx.raises(rej(), lambda: InitialCondition.validate(Y), f"non-finite row {k}")
    ctx.eq(str(tm.observe(X)), before, "collection modified")
    ctx.state(ids, lens, kinds, offs, sig)


def run_vcontrol(ctx, axis, xids, uids, nx, nu, shift, ushift):
    """control for the series (uids), starting at the x axis' step nx-1+shift; the last control series shifted by ushift"""
    from datafold.pcfold import InitialCondition

    X = tm.build(tm.make(xids, (nx,) * len(xids), (axis,) * len(xids), (0,) * len(xids), "s2"))
    ok = xids == uids and shift == 0 and ushift == 0
    m = tm.make(uids, (nu,) * len(uids), (axis,) * len(uids), (nx - 1 + shift,) * (len(uids) - 1) + (nx - 1 + shift + ushift,), "s3")
    U = tm.build(m)
    bx, bu = str(tm.observe(X)), str(tm.observe(U))
    if ok:
        InitialCondition.validate_control(X, U)
        ctx.step()
    else:
        ctx.raises(rej(), lambda: InitialCondition.validate_control(X, U), f"X {xids} ends at {nx-1}, U {uids} starts at {nx-1+shift} (+{ushift})")
    ctx.eq((str(tm.observe(X)), str(tm.observe(U))), (bx, bu), "modified")
    ctx.state(axis, xids, uids, nx, nu, shift, ushift)


RUN = {"array": run_array, "control": run_control, "tsc": run_tsc, "vcontrol": run_vcontrol}


def cases(tier):
    th = tier == "thorough"
    for n in (1, 2, 3):
        for d in (1, 2, 3):
            for tk in ("int", "float", "zero", "date"):
                for names in ("list", "index", "int"):
                    idl = [None] + list(itertools.permutations((0, 4, 7)[:n])) + [(2,) * n, (-1, 3, 1)[:n], (1, 2, 3, 4)]
                    for ids in idl:
                        if n == 1 and ids == (2,):
                            continue
                        yield "array", (n, d, tk, names, ids)
    for dt in DTS:
        for n in range(1, 201 if th else 41):
            yield "control", (dt, n)
    for s in tm.shapes(3, 4 if th else 3, kinds=("int", "float", "date"), offs=(0, 1)):
        if not th and len(s[0]) == 3 and (s[2][0] == "float" or s[0] == (0, 1, 2)):
            continue
        yield "tsc", s
    for s in tm.gap_shapes(one=4 if th else 3, two=3 if th else 2):
        yield "tsc", s
    pool = [(0,), (5,), (0, 1), (1, 0), (9, 3), (3, 9)] + ([(2, 0, 1), (0, 1, 2), (1, 2, 0)] if th else [(2, 0, 1), (0, 1, 2)])
    for axis in ("int", "int3", "float", "float01", "date"):
        for x, u in itertools.product(pool, pool):
            for nx, nu in itertools.product((1, 2, 3), (1, 2)):
                for sh in (0, 1) if nx == 1 else (-1, 0, 1):
                    for us in (0, 1) if len(u) > 1 else (0,):
                        yield "vcontrol", (axis, x, u, nx, nu, sh, us)
