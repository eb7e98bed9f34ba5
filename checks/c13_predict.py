"""C13: time values, labels and pairing of predictions; what cannot be predicted is rejected."""
import itertools
import numpy as np
import pandas as pd
import tscmodel as tm
from c11_dmd import frame, series, LAYOUTS, ic, powers, uval, check_labels

PROPERTY = "C13"
CASE_LIMIT = 60
BOUND = """
models = {DMDStandard matrix/spectral, EDMD identity/polynomial x matrix/spectral, controlled DMDControl and EDMD}; time axes {int, step 3,
float 0.5, float 0.1, datetime}; requested time values = every non-empty word of length <= 3 (thorough 4) over the steps
{-1, 0, 1, 2, 4} relative to the initial condition (sorted, unsorted, duplicated, in the past) plus None, as array or list; 1-3
initial conditions with IDs in every order; arrays as initial condition; control inputs with every (ID order, horizon, start, spacing,
columns) combination with time values {none, matching, mismatching}; float grids: 9 step sizes x 12 starts x horizons 1-7;
catalogue of inadmissible fits and predictions. Oracle: A^n x0 (+ B u recursion) labelled by hand.
"""
AX = ("int", "int3", "float", "float01", "date")
A2 = np.array([[0.5, 0.4], [-0.3, 0.8]])
B2 = np.array([[1.0, 0.0], [0.5, -1.0]])
COL = ["b", "a"]
MODELS = ("dmd_m", "dmd_s", "edmd_m", "edmd_s", "edmd_poly")
_cache = {}


def fitted(model, axis, off=0):
    key = (model, axis)
    if key in _cache:
        return _cache[key]
    from datafold.appfold import EDMD
    from datafold.dynfold import DMDStandard
    from datafold.dynfold.dmd import DMDControl
    from datafold.dynfold.transform import TSCIdentity, TSCPolynomialFeatures

    if model.startswith("c"):
        data = series("uns", lambda x, p, k: A2 @ x + B2 @ np.array([uval(p, k, 0), uval(p, k, 1)]), 2)
        data2 = series("one", lambda x, p, k: A2 @ x + B2 @ np.array([uval(p + 2, k, 0), uval(p + 2, k, 1)]), 2)
        X = frame("one", axis, data2, COL)
        U = frame("one", axis, [np.array([[uval(2, k, 0), uval(2, k, 1)] for k in range(6)])], ["v", "u"], drop_last=1)
        m = DMDControl(sys_mode="spectral" if model.endswith("s") else "matrix")
        if model.startswith("cedmd"):
            m = EDMD([("id", TSCIdentity())], dmd_model=m, include_id_state=False)
        m.fit(X, U=U)
    else:
        data = series("uns", lambda x, p, k: A2 @ x, 2)
        X = frame("uns", axis, data, COL)
        mode = "matrix" if model.endswith("_m") else "spectral"
        if model.startswith("dmd"):
            m = DMDStandard(sys_mode=mode)
        elif model == "edmd_poly":
            X = frame("one", axis, series("one", lambda x, p, k: A2 @ x, 2), COL)
            m = EDMD([("p", TSCPolynomialFeatures(degree=2))], dmd_model=DMDStandard(sys_mode="spectral"))
        else:
            m = EDMD([("id", TSCIdentity())], dmd_model=DMDStandard(sys_mode=mode))
        m.fit(X)
    _cache[key] = m
    return m


def axis_at(axis, steps):
    """time values at integer steps (>= 0)"""
    ts = tm.taxis(axis, max(steps) + 1, 0)
    return [ts[k] for k in steps]


def x0(p):
    return np.array([[1.5, -0.5], [0.25, 2.0], [-1.0, 0.75]])[p]


def ic_frame(axis, ids, ref, n=1):
    cols = list(COL)
    series_ = [(i, [(t, tuple(x0(p) + 0.1 * k)) for k, t in enumerate(axis_at(axis, range(ref, ref + n)))]) for p, i in enumerate(ids)]
    return tm.build((cols, series_))


def arr(vals):
    a = np.array(vals)
    return a


def compare(ctx, got, ids, steps, axis, want, msg):
    check_labels(ctx, got, [(i, t) for i in ids for t in axis_at(axis, steps)], f"{msg}: labels")
    ctx.eq(list(got.columns), COL, f"{msg}: columns")
    bad = tm.is_valid_obs(got)
    ctx.true(bad is None, f"{msg}: invalid collection: {bad}")
    vals = np.vstack([got.loc[[i]].to_numpy() for i in ids])
    ctx.close(vals, want, f"{msg}: values", rtol=1e-6, atol=1e-7)


def run_times(ctx, model, axis, ids, ref, word, as_list):
    m = fitted(model, axis)
    X = ic_frame(axis, ids, ref)
    before = tm.observe(X)
    P = powers(A2, 5)
    if word is None:
        steps, tv, legal = [0, 1], None, True
    else:
        if min(word) + ref < 0:
            return
        legal = all(b > a for a, b in zip(word, word[1:])) and min(word) >= 0
        steps = sorted({0} | set(word))
        tv = axis_at(axis, [ref + w for w in word])
        tv = list(tv) if as_list else arr(tv)
    keep = None if tv is None else list(tv)
    if legal:
        got = m.predict(X, time_values=tv)
        compare(ctx, got, ids, [ref + s for s in steps], axis, np.vstack([P[s] @ x0(p) for p in range(len(ids)) for s in steps]), f"{model} {axis} predict at {word} from {ref}")
    else:
        ctx.raises(ValueError, lambda: m.predict(X, time_values=tv), f"{model}: time values {word} relative to the initial condition")
    ctx.eq(tm.observe(X), before, "predict modified the initial condition")
    if tv is not None:
        ctx.eq([tm.norm_t(t) for t in tv], [tm.norm_t(t) for t in keep], "predict modified the time values")
    ctx.state(model, axis, ids, ref, word)


def run_numpy(ctx, model, axis, n, word):
    m = fitted(model, axis)
    X = np.array([x0(p) for p in range(n)])
    keep = X.copy()
    P = powers(A2, 6)
    forms = [X] if n > 1 else [X, X[0]]
    for Xa in forms:
        if word is None:
            got = m.predict(Xa)
            t = got.index.get_level_values(1)
            ctx.eq(len(got), 2 * n, "default: two time values")
            want = axis_at(axis, [0, 1])
            if axis != "date":
                ctx.close(np.array(t[:2], dtype=float), np.array([0, want[1] - want[0]], dtype=float), "default time values", atol=1e-12)
            else:
                ctx.eq(tm.norm_t(t[1] - t[0]), tm.norm_t(want[1] - want[0]), "default time step")
            steps = [0, 1]
            ctx.eq([int(i) for i in got.ids], list(range(n)), "IDs")
            ctx.close(got.to_numpy(), np.vstack([P[s] @ x0(p) for p in range(n) for s in steps]), "values", rtol=1e-6, atol=1e-7)
        else:
            legal = all(b > a for a, b in zip(word, word[1:]))
            tv = arr(axis_at(axis, word))
            if legal:
                got = m.predict(Xa, time_values=tv)
                compare(ctx, got, list(range(n)), list(word), axis, np.vstack([P[s - word[0]] @ x0(p) for p in range(n) for s in word]), f"{model} array at {word}")
            else:
                ctx.raises(ValueError, lambda: m.predict(Xa, time_values=tv), f"time values {word}")
    ctx.eq(X, keep, "predict modified the array")
    ctx.state(model, axis, n, word)


def ctrl_frame(axis, ids, start, n, spacing, cols=("v", "u")):
    s = [(i, [(t, tuple(uval(p, k, j) for j in range(2))) for k, t in enumerate(axis_at(axis, range(start, start + n * spacing, spacing)))]) for p, i in enumerate(ids)]
    return tm.build((list(cols), s))


def ctrl_want(ids, uids, n):
    out = []
    for p, i in enumerate(ids):
        q = uids.index(i)
        x = x0(p)
        rows = [x]
        for k in range(n):
            x = A2 @ x + B2 @ np.array([uval(q, k, 0), uval(q, k, 1)])
            rows.append(x)
        out.append(np.array(rows))
    return np.vstack(out)


def run_ctrl(ctx, model, axis, ids, uids, ref, start, n, spacing, tvk):
    from datafold.pcfold.timeseries.collection import TSCException

    m = fitted(model, axis)
    X = ic_frame(axis, ids, ref)
    U = ctrl_frame(axis, uids, start, n, spacing)
    before = tm.observe(X), tm.observe(U)
    full = list(range(start, start + n * spacing, spacing))
    full = full + [full[-1] + 1]
    if tvk == "none":
        tv = None
    else:
        st = {"match": full, "short": full[:-1], "long": full + [full[-1] + 1], "shift": [s + 1 for s in full], "nostart": full[1:]}[tvk]
        if not st:
            return
        tv = arr(axis_at(axis, st))
    legal = start == ref and (spacing == 1 or n == 1) and list(ids) == list(uids) and tvk in ("none", "match")
    # same IDs in another order: the pairing by ID is unambiguous, both rejection and the right answer are fine
    either = start == ref and (spacing == 1 or n == 1) and sorted(ids) == sorted(uids) and tvk in ("none", "match", "nostart")
    msg = f"{model} {axis} ids {ids}, control {uids} from {start} spacing {spacing} n {n} tv {tvk}"
    if legal:
        got = m.predict(X, U=U, time_values=tv)
        compare(ctx, got, list(ids), full, axis, ctrl_want(ids, uids, n), msg)
    else:
        try:
            got = m.predict(X, U=U, time_values=tv)
        except (ValueError, TSCException, NotImplementedError, AssertionError):
            ctx.step()
            got = None
        if got is not None:
            ctx.true(either, f"{msg}: accepted, must be rejected; times {list(got.time_values())}")
            compare(ctx, got, list(ids), full, axis, ctrl_want(ids, list(uids), n), msg)
    ctx.eq((tm.observe(X), tm.observe(U)), before, "predict modified its inputs")
    ctx.state(model, axis, ids, uids, ref, start, n, spacing, tvk)


def run_ctrlnp(ctx, model, axis, ref, n, xnp, tvk, flat):
    """control input as array for a single initial condition"""
    m = fitted(model, axis)
    X = ic_frame(axis, (4,), ref)
    if xnp:
        X = X.to_numpy()
    U = np.array([[uval(0, k, 0), uval(0, k, 1)] for k in range(n)])
    keep = U.copy()
    full = [ref + k for k in range(n + 1)]
    tv = None
    if tvk != "none":
        tv = arr(axis_at(axis, {"match": full, "short": full[:-1], "long": full + [full[-1] + 1]}[tvk]))
    if tvk in ("none", "match"):
        got = m.predict(X, U=U, time_values=tv)
        if xnp and tvk == "none":
            want = ctrl_want([0], [0], n)
            ctx.close(got.to_numpy(), want, "values", rtol=1e-6, atol=1e-7)
            t = got.index.get_level_values(1)
            dt = axis_at(axis, [0, 1])
            if axis == "date":
                ctx.eq([tm.norm_t(x - t[0]) for x in t], [tm.norm_t(k * (dt[1] - dt[0])) for k in range(n + 1)], "times")
            else:
                ctx.close(np.array(t, dtype=float), np.array([k * float(dt[1] - dt[0]) for k in range(n + 1)]), "times", atol=1e-12)
        else:
            i = 0 if xnp else 4
            compare(ctx, got, [i], full, axis, ctrl_want([i], [i], n), f"{model} U array")
    else:
        ctx.raises(ValueError, lambda: m.predict(X, U=U, time_values=tv), f"U array with {tvk} time values")
    ctx.eq(U, keep, "predict modified U")
    ctx.state(model, axis, ref, n, xnp, tvk)


def tsc_exception():
    from datafold.pcfold.timeseries.collection import TSCException

    return TSCException


def run_ctrlarr(ctx, model, axis, uids, n, flat):
    """array of initial conditions (row i belongs to series i of U) with a collection of control series"""
    m = fitted(model, axis)
    X = np.array([x0(p) for p in range(len(uids))])
    Xa = X[0] if flat else X
    keep = X.copy()
    U = ctrl_frame(axis, uids, 0, n, 1)
    before = tm.observe(U)
    full = list(range(n + 1))
    for tv in (None, arr(axis_at(axis, full))):
        try:
            got = m.predict(Xa, U=U, time_values=tv)
        except (ValueError, tsc_exception()) as e:
            # unsorted control series may be refused, but never be paired with another row
            ctx.step()
            ctx.true(list(uids) != sorted(uids), f"{model} {axis} array with control of IDs {uids} refused: {e}")
            continue
        compare(ctx, got, list(uids), full, axis, ctrl_want(uids, list(uids), n), f"{model} {axis} array with control of IDs {uids}")
    ctx.eq(X, keep, "predict modified the array")
    ctx.eq(tm.observe(U), before, "predict modified U")
    ctx.state(model, axis, uids, n, flat)


DTS = (0.1, 0.2, 0.3, 0.7, 1 / 3, 0.01, 0.25, 1e-3, 12.3)


def run_grid(ctx, model, dti, k0, accumulate):
    """the number and position of predicted time values on arbitrary float grids"""
    from datafold.dynfold import DMDStandard
    from datafold.dynfold.dmd import DMDControl

    dt = DTS[dti]

    def grid(n):
        if accumulate:
            t, out = 0.0, []
            for _ in range(n):
                out.append(t)
                t += dt
            return out
        return [k * dt for k in range(n)]

    g = grid(k0 + 8)
    ctrl = model == "ctrl"
    us = np.array([[uval(2, k, 0), uval(2, k, 1)] for k in range(7)])
    xs = [x0(0)]
    for k in range(6):
        xs.append(A2 @ xs[-1] + (B2 @ us[k] if ctrl else 0))
    X = tm.build((COL, [(0, [(g[k], tuple(x)) for k, x in enumerate(xs)])]))
    if ctrl:
        U = tm.build((["v", "u"], [(0, [(g[k], tuple(us[k])) for k in range(6)])]))
        m = DMDControl().fit(X, U=U)
    else:
        m = DMDStandard(sys_mode="matrix").fit(X)
    P = powers(A2, 8)
    Xs = tm.build((COL, [(3, [(g[k0 + k], tuple(x)) for k, x in enumerate(xs)])]))
    kw = {"U": tm.build((["v", "u"], [(3, [(g[k0 + k], tuple(us[k])) for k in range(6)])]))} if ctrl else {}
    rec = m.reconstruct(Xs, **kw)
    ctx.close(rec.index.get_level_values(1).to_numpy(), np.array(g[k0 : k0 + 7]), "reconstruct: time values", rtol=0, atol=0)
    ctx.close(rec.to_numpy(), np.array(xs), "reconstruct: values", rtol=1e-6, atol=1e-7)
    for n in range(1, 8):
        X_ic = tm.build((COL, [(3, [(g[k0], tuple(x0(1)))])]))
        tv = np.array(g[k0 : k0 + n + 1])
        if ctrl:
            u = np.array([[uval(0, k, 0), uval(0, k, 1)] for k in range(n)])
            want = ctrl_want([0], [0], n)
            x = x0(1)
            rows = [x]
            for k in range(n):
                x = A2 @ x + B2 @ u[k]
                rows.append(x)
            want = np.array(rows)
            Ut = tm.build((["v", "u"], [(3, [(g[k0 + k], tuple(u[k])) for k in range(n)])]))
            calls = [("U collection", lambda: m.predict(X_ic, U=Ut)), ("U collection and times", lambda: m.predict(X_ic, U=Ut, time_values=np.append(Ut.time_values(), Ut.time_values()[-1] + m.dt_))),
                     ("U array", lambda: m.predict(X_ic, U=u)), ("U array and times", lambda: m.predict(X_ic, U=u, time_values=tv))]
        else:
            want = np.array([P[k] @ x0(1) for k in range(n + 1)])
            calls = [("times", lambda: m.predict(X_ic, time_values=tv)), ("times after", lambda: m.predict(X_ic, time_values=tv[1:]))]
        for name, call in calls:
            got = call()
            t = got.index.get_level_values(1).to_numpy()
            ctx.close(t, tv, f"{name}: dt {dt}, start {g[k0]}, {n} steps: time values", rtol=1e-12, atol=1e-12)
            ctx.close(got.to_numpy(), want, f"{name}: dt {dt}, start {g[k0]}, {n} steps: values", rtol=1e-6, atol=1e-7)
    ctx.state(model, dti, k0, accumulate)


BADPRED = ("not_fitted", "colorder", "colname", "colmissing", "colextra", "nan", "inf", "two_samples", "plain_frame", "other_ref", "tv_2d", "tv_str", "tv_nan",
           "tv_inf", "tv_complex", "tv_neg", "tv_dup", "tv_date", "tv_empty", "np_cols", "np_3d", "np_nan", "U_free", "U_missing", "U_cols", "U_colorder", "U_nan",
           "U_np_many", "U_np_cols", "U_type", "U_rag", "U_extra", "U_less", "np_U_less")


def run_badpred(ctx, model, what):
    from datafold.dynfold import DMDStandard
    from datafold.dynfold.dmd import DMDControl
    from datafold.appfold import EDMD
    from datafold.dynfold.transform import TSCIdentity
    from sklearn.exceptions import NotFittedError
    from datafold.pcfold import TSCDataFrame
    from datafold.pcfold.timeseries.collection import TSCException

    axis = "int"
    ctrl = model.startswith("c")
    m = fitted(model, axis)
    X = ic_frame(axis, (3, 1), 1)
    tv = np.array([1, 2])
    U = ctrl_frame(axis, (3, 1), 1, 2, 1) if ctrl else None
    kw = {"U": U} if ctrl else {"time_values": tv}
    E = (ValueError, TypeError, TSCException, NotImplementedError, AttributeError)
    if what.startswith("tv") and ctrl or (what.startswith("U_") and not ctrl and what != "U_free") or (what == "U_free" and ctrl) or (what == "np_U_less" and not ctrl):
        return
    f = None
    if what == "not_fitted":
        f0 = {"dmd_m": DMDStandard, "dmd_s": DMDStandard, "cdmd_m": DMDControl, "cdmd_s": DMDControl}.get(model, lambda: EDMD([("id", TSCIdentity())]))()
        ctx.raises(NotFittedError, lambda: f0.predict(X, **kw), "predict before fit")
        ctx.raises(NotFittedError, lambda: f0.predict(X.to_numpy(), **kw), "predict before fit (array)")
        return
    elif what == "colorder":
        Y = X.loc[:, ["a", "b"]]
        f = lambda: m.predict(Y, **kw)
    elif what == "colname":
        f = lambda: m.predict(X.rename(columns={"a": "z"}), **kw)
    elif what == "colmissing":
        f = lambda: m.predict(X.loc[:, ["b"]], **kw)
    elif what == "colextra":
        Y = X.copy()
        Y["c"] = 1.0
        f = lambda: m.predict(Y, **kw)
    elif what in ("nan", "inf"):
        Y = X.copy()
        Y.iloc[1, 0] = np.nan if what == "nan" else np.inf
        f = lambda: m.predict(Y, **kw)
    elif what == "two_samples":
        Y = ic_frame(axis, (3, 1), 0, 2)
        f = lambda: m.predict(Y, **kw)
    elif what == "plain_frame":
        Y = pd.DataFrame(X.to_numpy(), columns=COL)
        f = lambda: m.predict(Y, **kw)
    elif what == "other_ref":
        Y = tm.build((COL, [(3, [(1, tuple(x0(0)))]), (1, [(0, tuple(x0(1)))])]))
        f = lambda: m.predict(Y, **kw)
    elif what.startswith("tv_"):
        t = {"tv_2d": np.array([[1, 2]]), "tv_str": np.array(["1", "2"]), "tv_nan": np.array([1.0, np.nan]), "tv_inf": np.array([1, np.inf]),
             "tv_complex": np.array([1, 2 + 0j]), "tv_neg": np.array([-1, 2]), "tv_dup": np.array([1, 2, 2]),
             "tv_date": np.array(tm.taxis("date", 3, 0)), "tv_empty": np.array([], dtype=int)}[what]
        E = E + (IndexError,) if what == "tv_empty" else E
        f = lambda: m.predict(X, time_values=t)
    elif what == "np_cols":
        f = lambda: m.predict(np.ones((1, 3)), **({"U": U.loc[[3]]} if ctrl else kw))
    elif what == "np_3d":
        f = lambda: m.predict(np.ones((1, 2, 1)), **({"U": U.loc[[3]]} if ctrl else kw))
    elif what == "np_nan":
        f = lambda: m.predict(np.array([[1, np.nan]]), **({"U": U.loc[[3]]} if ctrl else kw))
    elif what == "U_free":
        f = lambda: m.predict(X, U=ctrl_frame(axis, (3, 1), 1, 2, 1))
    elif what == "U_missing":
        f = lambda: m.predict(X, time_values=tv)
    elif what == "U_cols":
        f = lambda: m.predict(X, U=U.loc[:, ["v"]])
    elif what == "U_colorder":
        f = lambda: m.predict(X, U=U.loc[:, ["u", "v"]])
    elif what == "U_nan":
        V = U.copy()
        V.iloc[2, 1] = np.nan
        f = lambda: m.predict(X, U=V)
    elif what == "U_np_many":
        f = lambda: m.predict(X, U=np.ones((2, 2)))
    elif what == "U_np_cols":
        f = lambda: m.predict(X.loc[[3]], U=np.ones((2, 3)))
    elif what == "U_type":
        f = lambda: m.predict(X, U="u")
    elif what == "U_rag":
        V = U.iloc[:-1]
        f = lambda: m.predict(X, U=V)
    elif what == "U_extra":
        V = ctrl_frame(axis, (3, 1, 7), 1, 2, 1)
        f = lambda: m.predict(X, U=V)
    elif what == "U_less":
        f = lambda: m.predict(X, U=U.loc[[3]])
    elif what == "np_U_less":
        f = lambda: m.predict(X.to_numpy(), U=U.loc[[3]])
    ctx.raises(E, f, f"{model}: {what}")
    ctx.state(model, what)


BADFIT = ("array", "frame", "irregular", "two_dt", "nan", "U_full", "U_short", "U_miss", "U_ids", "U_times", "U_extra", "U_nan", "U_array")


def new(model):
    from datafold.dynfold import DMDStandard
    from datafold.dynfold.dmd import DMDControl
    from datafold.appfold import EDMD
    from datafold.dynfold.transform import TSCIdentity

    ctrl = model.startswith("c")
    mode = "matrix" if model.endswith("_m") else "spectral"
    d = DMDControl(sys_mode=mode) if ctrl else DMDStandard(sys_mode=mode)
    return EDMD([("id", TSCIdentity())], dmd_model=d) if "edmd" in model else d


def run_badfit(ctx, model, axis, what):
    from datafold.pcfold.timeseries.collection import TSCException

    ctrl = model.startswith("c")
    if what.startswith("U_") and not ctrl:
        return
    data = series("uns", lambda x, p, k: A2 @ x + (B2 @ np.array([uval(p, k, 0), uval(p, k, 1)]) if ctrl else 0), 2)
    us = [np.array([[uval(p, k, 0), uval(p, k, 1)] for k in range(4)]) for p in range(2)]
    X = frame("uns", axis, data, COL)
    U = frame("uns", axis, [u[:-1] for u in us], ["v", "u"], drop_last=1)
    E = (ValueError, TypeError, TSCException, NotImplementedError)
    if what == "array":
        X = X.to_numpy()
    elif what == "frame":
        X = pd.DataFrame(X.to_numpy(), columns=COL)
    elif what == "irregular":
        X = X.loc[(X.index.get_level_values(0) == 5) | (X.index.get_level_values(1) != X.loc[[2]].index.get_level_values(1)[1])]
    elif what == "two_dt":
        al = {"int": "int2", "int3": "int", "float": "float2", "float01": "float", "date": "date2"}[axis]
        X = tm.build(tm.make((5, 2), (4, 4), (axis, al), (0, 0), COL))
    elif what == "nan":
        X.iloc[2, 1] = np.nan
    elif what == "U_full":
        U = frame("uns", axis, us, ["v", "u"])
    elif what == "U_short":
        U = U.iloc[:-1]
    elif what == "U_miss":
        U = U.loc[[5]]
    elif what == "U_ids":
        U = tm.build(tm.make((6, 2), (3, 3), (axis, axis), (0, 0), ["v", "u"]))
    elif what == "U_times":
        U = tm.build(tm.make((5, 2), (3, 3), (axis, axis), (1, 1), ["v", "u"]))
    elif what == "U_extra":
        U = tm.build(tm.make((5, 2, 9), (3, 3, 3), (axis,) * 3, (0,) * 3, ["v", "u"]))
    elif what == "U_nan":
        U.iloc[1, 0] = np.nan
    elif what == "U_array":
        U = U.to_numpy()
        E = E + (AttributeError,)
    m = new(model)
    ctx.raises(E, (lambda: m.fit(X, U=U)) if ctrl else (lambda: m.fit(X)), f"{model} {axis} fit with {what}")
    ctx.state(model, axis, what)


def run_attrs(ctx, model, axis, layout):
    """attributes after fit, also after refitting with other features and sampling"""
    ctrl = model.startswith("c")
    m = new(model)
    for cols, ax, lay, ucols in ((COL, axis, layout, ["v", "u"]), (["x", "y"], "int3" if axis != "int3" else "float", "two", ["q", "p"])):
        data = series(lay, lambda x, p, k: A2 @ x + (B2 @ np.array([uval(p, k, 0), uval(p, k, 1)]) if ctrl else 0), 2)
        X = frame(lay, ax, data, cols)
        U = frame(lay, ax, [np.array([[uval(p, k, 0), uval(p, k, 1)] for k in range(len(d) - 1)]) for p, d in enumerate(data)], ucols, drop_last=1)
        m.fit(X, U=U) if ctrl else m.fit(X)
        ctx.eq(m.n_features_in_, 2, "n_features_in_")
        ctx.eq(list(m.feature_names_in_), list(cols), "feature_names_in_")
        t = tm.taxis(ax, 2, 0)
        ctx.eq(tm.norm_t(m.dt_) if ax == "date" else round(float(m.dt_), 12), tm.norm_t(t[1] - t[0]) if ax == "date" else round(float(t[1] - t[0]), 12), "dt_")
        if ctrl:
            ctx.eq(m.n_control_in_, 2, "n_control_in_")
            ctx.eq(list(m.control_names_in_), ucols, "control_names_in_")
        if "edmd" in model:
            ctx.eq(list(m.feature_names_pred_), list(cols), "feature_names_pred_")
            ctx.eq(m.n_samples_ic_, 1, "n_samples_ic_")
            ctx.eq(m.is_controlled_, ctrl, "is_controlled_")
        # fit_predict is fit and reconstruct
        got = new(model).fit_predict(X, U=U) if ctrl else new(model).fit_predict(X)
        rec = m.reconstruct(X, U=U) if ctrl else m.reconstruct(X)
        ctx.eq(tm.observe(rec)[0], list(cols), "reconstruct columns")
        ctx.eq(sorted(map(str, [k for k, _ in tm.observe(rec)[1]])), sorted(map(str, [k for k, _ in tm.observe(X)[1]])), "reconstruct labels")
        ctx.eq([k for k, _ in tm.observe(rec)[1]], [k for k, _ in tm.observe(X)[1]], "reconstruct: same rows as X")
        ctx.close(rec.to_numpy(), X.to_numpy(), "reconstruct values", rtol=1e-6, atol=1e-6)
        ctx.close(got.loc[X.index].to_numpy(), X.to_numpy(), "fit_predict values", rtol=1e-6, atol=1e-6)
        ctx.close(m.score(X, U=U) if ctrl else m.score(X), 0.0, "score", atol=1e-5)
    ctx.state(model, axis, layout)


RUN = {"times": run_times, "numpy": run_numpy, "ctrl": run_ctrl, "ctrlnp": run_ctrlnp, "ctrlarr": run_ctrlarr, "grid": run_grid, "badpred": run_badpred, "badfit": run_badfit, "attrs": run_attrs}
CM = ("cdmd_m", "cdmd_s", "cedmd_m", "cedmd_s")


def cases(tier):
    th = tier == "thorough"
    for m in MODELS + CM:
        for w in BADPRED:
            yield "badpred", (m, w)
    for m in ("dmd_m", "dmd_s", "edmd_m", "cdmd_m", "cdmd_s", "cedmd_m"):
        for ax in AX:
            for w in BADFIT:
                yield "badfit", (m, ax, w)
            for lay in LAYOUTS:
                yield "attrs", (m, ax, lay)
    words = [None] + [w for n in range(1, 5 if th else 4) for w in itertools.product((-1, 0, 1, 2, 4), repeat=n)]
    for m, ax in itertools.product(MODELS, AX):
        for k, w in enumerate(words):
            for ids in ((0,), (2, 0), (1, 2), (7, 3, 5)) if th or m in ("dmd_m", "edmd_s") else ((2, 0),):
                for ref in (0, 2) if th else (2 * (k // 2 % 2),):
                    for al in (0, 1) if th else (k % 2,):
                        yield "times", (m, ax, ids, ref, w, al)
    for m, ax, n in itertools.product(MODELS, AX, (1, 2)):
        for w in [None] + [w for k in (1, 2, 3) for w in itertools.product((0, 1, 3), repeat=k)]:
            yield "numpy", (m, ax, n, w)
    for m, ax in itertools.product(CM, AX):
        for ids in ((0,), (5,), (0, 1), (4, 2)):
            perms = list(itertools.permutations(ids)) + [tuple(i + 1 for i in ids), ids + (9,), ids[:1]]
            for uids in dict.fromkeys(perms):
                for ref, st, n, sp, tv in itertools.product((0, 1), (0, 1, 2), (1, 2, 3), (1, 2), ("none", "match", "short", "long", "shift", "nostart")):
                    if not th and (uids != ids and (tv not in ("none", "match") or n != 2) or (ax in ("int3", "float") and (ref or n != 2))):
                        continue
                    yield "ctrl", (m, ax, ids, uids, ref, st, n, sp, tv)
        for ref, n, xnp, tv in itertools.product((0, 2), (1, 2, 4), (0, 1), ("none", "match", "short", "long")):
            yield "ctrlnp", (m, ax, ref, n, xnp, tv, 0)
        for uids, n in itertools.product(((0,), (5,), (0, 1), (2, 7), (7, 2), (3, 0, 5)), (1, 2, 4)):
            for flat in (False, True) if len(uids) == 1 else (False,):
                yield "ctrlarr", (m, ax, uids, n, flat)
    for m, d, k, acc in itertools.product(("free", "ctrl"), range(len(DTS)), list(range(0, 40 if th else 12)) + [200, 1000], (0, 1)):
        yield "grid", (m, d, k, acc)
