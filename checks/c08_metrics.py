"""C08: TSCMetric / TSCScoring equal their definition for every mode, scaling, averaging and weighting."""
import itertools
import numpy as np
import pandas as pd
import tscmodel as tm

PROPERTY = "C08"
BOUND = """
alphabet: collections with 1-3 series of length 1..3 (IDs consecutive/unsorted/holed; equal or different time values), 1-3
features; predictions = truth + one of {exact, constant offset, one wrong sample, irregular error}; 9 metrics x 3 modes x 4
scalings x {uniform, raw, array} averaging x {no weights, weights}; scoring with/without weights and sign; every
illegal combination of the catalogue (index/column mismatch, nan, wrong weight shape). Oracle: plain numpy definitions.
"""
METRICS = ("rmse", "rrmse", "mse", "mape", "mae", "medae", "max", "l2", "linf")
EPS = np.finfo(np.float64).eps


def raw(metric, yt, yp, w):
    """per-feature metric of rows (n, f)"""
    e = yt - yp
    avg = lambda a: np.average(a, axis=0, weights=w)
    if metric == "mse":
        return avg(e**2)
    if metric == "rmse":
        return np.sqrt(avg(e**2))
    if metric == "mae":
        return avg(np.abs(e))
    if metric == "mape":
        return avg(np.abs(e) / np.maximum(np.abs(yt), EPS))
    if metric == "medae":
        return np.median(np.abs(e), axis=0)
    if metric == "max":
        return np.max(np.abs(e), axis=0)
    if metric in ("l2", "linf"):
        d = e if w is None else np.asarray(w)[:, None] * e
        return np.sqrt((d**2).sum(axis=0)) if metric == "l2" else np.abs(d).max(axis=0)
    if metric == "rrmse":
        return np.sqrt(avg(e**2) / (yt**2).sum(axis=0))


def combined(metric, yt, yp, w, multi):
    r = raw(metric, yt, yp, w)
    if isinstance(multi, str) and multi == "raw_values":
        return r
    if isinstance(multi, str):
        if metric == "rrmse":
            return np.sqrt(np.mean(raw("mse", yt, yp, w)) / (yt**2).sum())
        return np.mean(r)
    return np.average(r, weights=multi)


def scale(kind, yt, yp):
    if kind == "id":
        return yt, yp
    if kind == "min-max":
        a, b = yt.min(axis=0), yt.max(axis=0) - yt.min(axis=0)
    elif kind == "standard":
        a, b = yt.mean(axis=0), yt.std(axis=0)
    else:
        a, b = 0 * yt[0], np.sqrt((yt**2).sum(axis=0))
    b = np.where(np.abs(b) < 1e-14, 1.0, b)
    return (yt - a) / b, (yp - a) / b


def data(ids, lens, kinds, offs, nf, err):
    cols = ["a", "b", "c"][:nf]
    model = tm.make(ids, lens, kinds, offs, cols)
    Y = tm.build(model)
    yt = Y.to_numpy().copy()
    n = len(yt)
    if err == "exact":
        e = np.zeros_like(yt)
    elif err == "offset":
        e = np.full_like(yt, 0.25)
    elif err == "one":
        e = np.zeros_like(yt)
        e[n // 2, nf - 1] = -3.0
    else:
        e = np.array([[((-1) ** (r + c)) * (0.1 + 0.3 * r + 0.05 * c * r) for c in range(nf)] for r in range(n)])
    from datafold.pcfold import TSCDataFrame

    return model, Y, TSCDataFrame(yt + e, index=Y.index, columns=Y.columns)


def groups(model, mode):
    rows = [(i, t) for i, r in model[1] for t, _ in r]
    if mode == "feature":
        return [(None, list(range(len(rows))))]
    key = (lambda q: q[0]) if mode == "timeseries" else (lambda q: q[1])
    out = {}
    for k, q in enumerate(rows):
        out.setdefault(key(q), []).append(k)
    return sorted(out.items())


def run_metric(ctx, ids, lens, kinds, offs, nf, err, metric, mode, scaling):
    from datafold.pcfold.timeseries.metric import TSCMetric, TSCScoring

    model, Y, P = data(ids, lens, kinds, offs, nf, err)
    b1, b2 = tm.observe(Y), tm.observe(P)
    gs = groups(model, mode)
    st, sp = scale(scaling, Y.to_numpy(), P.to_numpy())
    equal_len = len(set(lens)) == 1
    same_t = len({tuple(tm.norm_t(t) for t, _ in r) for _, r in model[1]}) == 1
    wts = [None]
    if metric != "medae" and metric != "max":
        if mode == "feature":
            wts.append([1.0 + 0.5 * k for k in range(len(Y))])
        elif mode == "timeseries" and equal_len:
            wts.append([2.0 - 0.5 * k for k in range(lens[0])])
        elif mode == "timestep" and same_t:
            wts.append([0.5 + k for k in range(len(ids))])
    arr = np.array([0.5, 2.0, 1.0][:nf])
    multis = ["uniform_average", "raw_values"] + ([arr] if nf > 1 else []) if mode != "feature" else ["uniform_average", "raw_values"]
    if metric == "max" and nf > 1:
        return
    res = []
    for w in wts:
        for multi in multis:
            if metric == "rrmse" and not isinstance(multi, str):
                continue
            eff = "raw_values" if mode == "feature" else multi
            if metric == "rrmse":  # relative errors need a reference different from zero
                den = [np.atleast_1d((st[g] ** 2).sum(axis=0) if isinstance(eff, str) and eff == "raw_values" else (st[g] ** 2).sum()) for _, g in gs]
                if min(float(d.min()) for d in den) < 1e-10:
                    if min(float(d.min()) for d in den) < 1e-15:
                        ctx.raises(RuntimeError, lambda: TSCMetric(metric=metric, mode=mode, scaling=scaling)(Y, P, sample_weight=w, multioutput=multi), "rrmse of a zero reference")
                    continue
            if metric == "mape" and (np.abs(st) < 1e-9).any():
                continue
            got = TSCMetric(metric=metric, mode=mode, scaling=scaling)(Y, P, sample_weight=None if w is None else np.array(w), multioutput=multi)
            want = [combined(metric, st[g], sp[g], w, eff) for _, g in gs]
            if mode == "feature":
                ctx.eq(list(got.index), list(Y.columns), "labels")
                ctx.close(got.to_numpy(), np.atleast_1d(want[0]), f"{metric} per {mode} {scaling} weights={w}", rtol=1e-7)
            else:
                ctx.eq([tm.norm_t(x) for x in got.index], [tm.norm_t(g) for g, _ in gs], "labels")
                ctx.close(got.to_numpy().reshape(len(gs), -1), np.array(want).reshape(len(gs), -1), f"{metric} per {mode} {scaling} {multi} weights={w}", rtol=1e-7)
            res.append(np.asarray(got))
    # scoring
    if metric not in ("rrmse", "mape"):
        per = [combined(metric, st[g], sp[g], None, "raw_values" if mode == "feature" else "uniform_average") for _, g in gs]
        per = np.concatenate([np.atleast_1d(p) for p in per])
        m = TSCMetric(metric=metric, mode=mode, scaling=scaling)
        ctx.close(TSCScoring(m)(Y, P), -np.mean(per), "score", rtol=1e-7)
        ctx.close(TSCScoring(m, greater_is_better=True)(Y, P), np.mean(per), "score greater_is_better", rtol=1e-7)
        w = np.array([1.0 + k for k in range(len(per))])
        ctx.close(TSCScoring(m)(Y, P, sample_weight=w), -np.average(per, weights=w), "weighted score", rtol=1e-7)
        if err == "exact":
            ctx.close(TSCScoring(m)(Y, P), 0.0, "score of an exact prediction")
        else:
            ctx.true(TSCScoring(m)(Y, P) <= TSCScoring(m)(Y, Y) + 1e-12, "an erroneous prediction must not score higher than the truth")
    ctx.eq((tm.observe(Y), tm.observe(P)), (b1, b2), "operands modified")
    ctx.state(ids, lens, kinds, offs, nf, err, metric, mode, scaling, res)


def run_reject(ctx, what, metric, mode):
    from datafold.pcfold import TSCDataFrame
    from datafold.pcfold.timeseries.collection import TSCException
    from datafold.pcfold.timeseries.metric import TSCMetric

    nf = 1 if metric == "max" else 2
    model, Y, P = data((0, 1), (2, 2), ("int",) * 2, (0, 0), nf, "irregular")
    m = TSCMetric(metric=metric, mode=mode)
    if what == "index":
        P.index = pd.MultiIndex.from_arrays([[0, 0, 1, 1], [0, 1, 0, 2]])
        ctx.raises(ValueError, lambda: m(Y, P), "different time values")
    elif what == "ids":
        P.index = pd.MultiIndex.from_arrays([[0, 0, 2, 2], [0, 1, 0, 1]])
        ctx.raises(ValueError, lambda: m(Y, P), "different IDs")
    elif what == "order":
        P = pd.concat([P.iloc[2:], P.iloc[:2]])
        ctx.raises(ValueError, lambda: m(Y, P), "different row order")
    elif what == "columns":
        P.columns = pd.Index(["x", "y"][:nf])
        ctx.raises(ValueError, lambda: m(Y, P), "different columns")
    elif what == "len":
        P = P.iloc[:3]
        ctx.raises(ValueError, lambda: m(Y, P), "different length")
    elif what in ("nan_true", "nan_pred", "inf_true", "inf_pred"):
        v = np.nan if what.startswith("nan") else np.inf
        Z = Y if what.endswith("true") else P
        Z.iloc[1, 0] = v
        ctx.raises(TSCException, lambda: m(Y, P), what)
    elif what == "weight2d":
        ctx.raises(ValueError, lambda: m(Y, P, sample_weight=np.ones((2, 2))), "two-dimensional weights")
    elif what == "weightlen":
        ctx.raises(ValueError, lambda: m(Y, P, sample_weight=np.ones(7)), "weights of wrong length")
    elif what == "weight_ragged":
        if mode != "feature":
            model, Y, P = data((0, 1), (2, 3), ("int",) * 2, (0, 0), nf, "irregular")
            ctx.raises((ValueError, TSCException), lambda: m(Y, P, sample_weight=np.ones(2)), "weights for ragged series")
    elif what == "names":
        for kw in (dict(metric="xx", mode=mode), dict(metric=metric, mode="xx"), dict(metric=metric, mode=mode, scaling="xx")):
            ctx.raises(ValueError, lambda: TSCMetric(**kw), str(kw))
    ctx.state(what, metric, mode)


RUN = {"metric": run_metric, "reject": run_reject}


def cases(tier):
    th = tier == "thorough"
    shp = []
    for ids in [(0,), (4,), (0, 1), (1, 0), (3, 9), (2, 0, 1), (0, 1, 2)]:
        for lens in itertools.product((1, 2, 3), repeat=len(ids)):
            if len(ids) == 3 and not th and lens not in ((2, 2, 2), (1, 3, 2)):
                continue
            if len(ids) == 2 and not th and lens not in ((1, 1), (1, 3), (2, 2), (3, 2)):
                continue
            for kd, last in (("int", 0), ("int", 1), ("float", 0), ("date", 1)):
                if not th and kd != "int" and (len(ids) == 1 or min(lens) == 1):
                    continue
                if last and len(ids) == 1:
                    continue
                if not th and kd != "int" and (len(set(lens)) > 1) != (kd == "date"):
                    continue
                shp.append((ids, lens, (kd,) * len(ids), (0,) * (len(ids) - 1) + (last,)))
    for s in shp:
        for nf in (1, 2, 3) if th else (1, 2):
            for err in ("exact", "offset", "one", "irregular") if th else ("irregular", "one" if nf == 2 else "exact"):
                for metric in METRICS:
                    for mode in ("timeseries", "timestep", "feature"):
                        for sc in ("id", "min-max", "standard", "l2_normalize"):
                            if not th and sc != "id" and (err != "irregular" or s[2][0] != "int" or nf == 1 or s[0] not in ((4,), (1, 0), (2, 0, 1))):
                                continue
                            if th and len(s[0]) == 3 and sc != "id" and err != "irregular":
                                continue
                            yield "metric", s + (nf, err, metric, mode, sc)
    for what in ("index", "ids", "order", "columns", "len", "nan_true", "nan_pred", "inf_true", "inf_pred", "weight2d", "weightlen", "weight_ragged", "names"):
        for metric in METRICS:
            for mode in ("timeseries", "timestep", "feature"):
                yield "reject", (what, metric, mode)
