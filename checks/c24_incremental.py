"""C24: partial_fit of EDMD and of its transformers is the same as lifting every batch and updating the DMD model."""
import itertools
import numpy as np
import pandas as pd

PROPERTY = "C24"
CASE_LIMIT = 100
BOUND = """
dictionaries {identity, constant, delay, two delays then identity, polynomial with/without first order, random features, renamed
identity, parallel identity and polynomial, delay then polynomial} x include_id_state x dict_preserves_id_state {infer, True, False} x
inverse {linear map, pipeline} x {OnlineDMD, weighted, diagonalised, without warm-up, batch start, StreamingDMD, truncated} x every
composition of a four-series stream into batches (also series cut inside and batches below the warm-up length) x sorted triplets,
stepwise transform; every call history up to depth 3 over {fit, partial_fit, other columns, other rate, control, y}; every slice of
pipelines with one to three transformers; partial_fit/partial_fit_transform of every transformer x two batches; fit_predict. Oracle: hand
lifted batches given to a separate DMD model, modes by feature name, powers of eigenvalues.
"""


def tsc(seed, lens, t0=None, ids=None, dt=1.0, cols=("b", "a")):
    from datafold import TSCDataFrame

    rng = np.random.default_rng(seed)
    out, idx = [], []
    for k, n in enumerate(lens):
        x = rng.uniform(-1, 1, 2)
        for i in range(n):
            out.append(x)
            idx.append((ids[k] if ids else k, dt * (i + (t0[k] if t0 else 0))))
            x = np.array([0.9 * x[0] + 0.2 * x[1], -0.3 * x[0] + 0.8 * x[1]]) + 0.1 * np.array([x[0] * x[1], x[0] ** 2])
    return TSCDataFrame(np.array(out), index=pd.MultiIndex.from_tuples(idx), columns=list(cols))


# every dictionary: pipeline steps, number of samples dropped, and an independent lift (names, function of the whole series)
def lift(name, v):
    """v: (n, 2) single series in column order b, a -> names, values of shape (n - dropped, k)"""
    b, a = v[:, 0], v[:, 1]
    if name == "id":
        return ["b", "a"], v, 0
    if name == "const":
        return ["b", "a", "const"], np.c_[v, np.ones(len(v))], 0
    if name == "rename":
        return ["b_id", "a_id"], v, 0
    if name == "delay":
        return ["b", "a", "b:d1", "a:d1"], np.c_[v[1:], v[:-1]], 1
    if name == "delay2id":
        return ["b", "a", "b:d1", "a:d1", "b:d2", "a:d2", "const"], np.c_[v[2:], v[1:-1], v[:-2], np.ones(len(v) - 2)], 2
    if name == "poly":
        return ["b", "a", "b^2", "b a", "a^2"], np.c_[v, b * b, b * a, a * a], 0
    if name == "polyno":
        return ["b^2", "b a", "a^2"], np.c_[b * b, b * a, a * a], 0
    if name == "ct":
        return ["i__b", "i__a", "p__a^2"], np.c_[b, a, a * a], 0
    if name == "delaypoly":
        z = np.c_[v[1:], v[:-1]]
        n = ["b", "a", "b:d1", "a:d1"]
        q = [(i, j) for i in range(4) for j in range(i, 4)]
        return n + [f"{n[i]}^2" if i == j else f"{n[i]} {n[j]}" for i, j in q], np.c_[z, np.array([z[:, i] * z[:, j] for i, j in q]).T], 1
    raise KeyError(name)


def steps(name):
    from datafold.dynfold import TSCIdentity, TSCPolynomialFeatures, TSCTakensEmbedding
    from datafold.dynfold.compose import TSCColumnTransformer

    return {
        "id": lambda: [("i", TSCIdentity())],
        "const": lambda: [("i", TSCIdentity(include_const=True))],
        "rename": lambda: [("i", TSCIdentity(rename_features=True))],
        "delay": lambda: [("t", TSCTakensEmbedding(delays=1))],
        "delay2id": lambda: [("t", TSCTakensEmbedding(delays=2)), ("i", TSCIdentity(include_const=True))],
        "poly": lambda: [("p", TSCPolynomialFeatures(degree=2, include_first_order=True))],
        "polyno": lambda: [("p", TSCPolynomialFeatures(degree=2, include_first_order=False))],
        "ct": lambda: [("c", TSCColumnTransformer([("i", TSCIdentity(), ["b", "a"]), ("p", TSCPolynomialFeatures(degree=2, include_first_order=False), ["a"])]))],
        "delaypoly": lambda: [("t", TSCTakensEmbedding(delays=1)), ("p", TSCPolynomialFeatures(degree=2, include_first_order=True))],
    }[name]()


DICTS = ("id", "const", "rename", "delay", "delay2id", "poly", "polyno", "ct", "delaypoly")
DMDS = ("online", "weighted", "diag", "nowarm", "batch", "stream", "rank2")


def dmd(name):
    from datafold.dynfold.dmd import OnlineDMD, StreamingDMD

    return {
        "online": lambda: OnlineDMD(),
        "weighted": lambda: OnlineDMD(weighting=0.95),
        "diag": lambda: OnlineDMD(is_diagonalize=True),
        "nowarm": lambda: OnlineDMD(with_warm_up=False),
        "batch": lambda: OnlineDMD(),
        "stream": lambda: StreamingDMD(),
        "rank2": lambda: StreamingDMD(max_rank=2),
    }[name]()


def by_series(X):
    out = []
    for i in X.index.get_level_values(0).unique():
        m = X.index.get_level_values(0) == i
        out.append((i, X.index.get_level_values(1)[m].to_numpy(), X.to_numpy()[m]))
    return out


def lifted(name, attach, X):
    from datafold import TSCDataFrame

    vals, idx, names, drop = [], [], None, 0
    for i, t, v in by_series(X):
        names, z, drop = lift(name, v)
        if attach:
            z, names = np.c_[v[drop:], z], ["b", "a"] + names
        vals.append(z)
        idx += [(i, x) for x in t[drop:]]
    return TSCDataFrame(np.concatenate(vals), index=pd.MultiIndex.from_tuples(idx), columns=names), drop


LENS = (7, 6, 8, 7)
IDS = (4, 0, 2, 9)


def batches(kind, cut):
    """list of TSCDataFrame"""
    if kind == "series":  # cut: composition of the four series
        full = tsc(1, LENS, t0=(0, 3, 0, 1), ids=IDS)
        pos, out = 0, []
        for n in cut:
            ids = list(IDS[pos: pos + n])
            out.append(full.loc[full.index.get_level_values(0).isin(ids)])
            pos += n
        return out
    # inside: one series of 24 samples, consecutive chunks of the given lengths
    full = tsc(2, (sum(cut),))
    pos, out = 0, []
    for n in cut:
        out.append(full.iloc[pos: pos + n])
        pos += n
    return out


def compositions(n):
    for r in range(1, n + 1):
        for c in itertools.product(range(1, n + 1), repeat=r):
            if sum(c) == n:
                yield c


def run_pfit(ctx, dic, dm, include, preserve, inv, kind, cut, opt, full):
    from datafold.appfold import EDMD

    names0, _, _ = lift(dic, np.zeros((4, 2)))
    has_id = {"b", "a"} <= set(names0)
    preserves = has_id if preserve == "infer" else preserve
    e = EDMD(
        steps(dic), dmd_model=dmd(dm), include_id_state=include, dict_preserves_id_state=preserve,
        use_transform_inverse=inv, sort_koopman_triplets=opt == "sort", stepwise_transform=opt == "step",
    )
    ref = dmd(dm)
    fp = {"dmd__batch_fit": True} if dm == "batch" else {}
    rp = {"batch_fit": True} if dm == "batch" else {}
    attach = include and not preserves
    if attach and has_id:
        return  # contradictory setting, duplicated features
    bs = batches(kind, cut)
    keep = [b.copy() for b in bs]
    if not include and not preserves:
        ctx.raises(NotImplementedError, lambda: e.partial_fit(bs[0], **fp), "partial_fit cannot learn a new inverse map")
        return
    if preserves and not has_id and not inv:
        ctx.raises(ValueError, lambda: e.partial_fit(bs[0], **fp), "claimed id states are not in the dictionary")
        return
    for n, b in enumerate(bs):
        ctx.step()
        r = e.partial_fit(b, **fp)
        ctx.true(r is e, "partial_fit returns self")
        ctx.true(b.equals(keep[n]), "data not modified")
        Z, drop = lifted(dic, attach, b)
        ref.partial_fit(Z, **rp)
        ready = getattr(ref, "ready_", True)
        what = f"{dic} {dm} batch {n}"
        ctx.state((dic, dm, include, preserve, inv, kind, opt, tuple(cut[: n + 1])))
        ctx.true(e.is_partial_fit_ and not e.is_controlled_, "state flags")
        ctx.eq(list(e.feature_names_in_), ["b", "a"], "feature_names_in_")
        ctx.eq(list(e.feature_names_pred_), ["b", "a"], "feature_names_pred_")
        ctx.eq(list(e.feature_names_out_), list(Z.columns), f"{what}: dictionary feature names")
        ctx.eq(e.n_samples_ic_, drop + 1, "n_samples_ic_")
        ctx.eq(e.dt_, 1.0, "dt_")
        ctx.eq(bool(e.dict_preserves_id_state_), bool(preserves), "dict_preserves_id_state_")
        T = e.transform(b)
        ctx.eq(list(T.columns), list(Z.columns), f"{what}: transform columns")
        ctx.true(T.index.equals(Z.index), "transform index")
        ctx.close(T.to_numpy(), Z.to_numpy(), f"{what}: transform", rtol=1e-9, atol=1e-12)
        if not ready:
            ic = b.iloc[: drop + 1]
            ctx.raises(RuntimeError, lambda: e.predict(ic, time_values=None), "prediction during warm-up")
            continue
        ev, R = np.asarray(ref.eigenvalues_), np.asarray(ref.eigenvectors_right_)
        gev = e.koopman_eigenvalues.to_numpy()
        P = np.zeros((2, len(Z.columns)))
        if not inv:
            for k, c in enumerate(("b", "a")):
                P[k, list(Z.columns).index(c)] = 1
        if opt == "sort" and not inv:
            ctx.close(np.sort_complex(np.round(gev, 9)), np.sort_complex(np.round(ev, 9)), f"{what}: eigenvalues", rtol=1e-6, atol=1e-8)
            imp = None
            ic = Z.groupby(level=0, sort=False).head(1).to_numpy().T
            V = e.koopman_modes.to_numpy()
            b0 = e.dmd_model.eigenvectors_left_ @ ic if dm == "diag" else np.linalg.lstsq(np.asarray(e.dmd_model.eigenvectors_right_), ic, rcond=None)[0]
            imp = np.mean(np.abs(np.linalg.norm(V, axis=0)[:, None] * b0), axis=1)
            ctx.true(bool(np.all(np.diff(imp) <= 1e-6 * max(1.0, imp.max()))), f"{what}: triplets sorted by importance {imp}")
        else:
            ctx.close(gev, ev, f"{what}: eigenvalues", rtol=1e-7, atol=1e-9)
            if not inv:
                ctx.close(e.koopman_modes.to_numpy(), P @ R, f"{what}: modes", rtol=1e-6, atol=1e-8)
            else:
                ctx.true(e.koopman_modes is None, "no modes with the pipeline inverse")
        if not inv:
            ctx.eq(list(e.koopman_modes.index), ["b", "a"], "mode names")
        if np.linalg.cond(R) > 1e6 or np.abs(ev).max() > 3:
            continue  # defective or unstable: no meaningful forecast comparison
        if n < len(bs) - 1 and not full:
            continue
        # forecasts of every series of the batch
        rec_v, rec_i = [], []
        for (i, t, v) in by_series(b):
            z0 = lift(dic, v[: drop + 1])[1]
            if attach:
                z0 = np.c_[v[drop: drop + 1], z0]
            g = z0[0]
            seq = []
            c0 = np.linalg.solve(R, g.astype(complex)) if R.shape[0] == R.shape[1] else np.linalg.lstsq(R, g.astype(complex), rcond=None)[0]
            if opt == "step":
                hist = [x for x in v[: drop + 1]]
                seq = [v[drop]]
                for k in range(len(t) - drop - 1):
                    w = np.array(hist[-(drop + 1):])
                    z = lift(dic, w)[1][0]
                    if attach:
                        z = np.r_[w[-1], z]
                    c = np.linalg.lstsq(R, z.astype(complex), rcond=None)[0]
                    x1 = (P @ R @ (ev * c)).real
                    hist.append(x1)
                    seq.append(x1)
            elif inv:
                # pipeline inverse: first two columns are the states themselves
                for k in range(len(t) - drop):
                    seq.append((R @ (ev ** k * c0)).real[:2])
            else:
                for k in range(len(t) - drop):
                    seq.append((P @ R @ (ev ** k * c0)).real)
            rec_v.append(np.array(seq))
            rec_i += [(i, x) for x in t[drop:]]
        want = np.concatenate(rec_v)
        got = e.reconstruct(b)
        ctx.eq(list(got.columns), ["b", "a"], "reconstruct columns")
        ctx.eq([(int(x), float(y)) for x, y in got.index], [(int(x), float(y)) for x, y in rec_i], "reconstruct index")
        tol = 1e-5 * max(1.0, np.abs(want).max())
        ctx.close(got.to_numpy(), want, f"{what}: reconstruct", rtol=1e-5, atol=tol)
        # prediction with one quantity of interest
        ic = b.groupby(level=0, sort=False).head(drop + 1)
        first = ic.loc[ic.index.get_level_values(0) == ic.index[0][0]]
        tv = first.index.get_level_values(1).to_numpy()[-1] + np.arange(4.0)
        n0 = len(rec_v[0])
        for q in (["a"], ["a", "b"]):
            p = e.predict(first, time_values=tv, qois=q)
            ctx.eq(list(p.columns), q, "qois")
            m = min(4, n0)
            ctx.close(p.to_numpy()[:m], rec_v[0][:m][:, [["b", "a"].index(x) for x in q]], f"{what}: predict qois", rtol=1e-5, atol=tol)


# ------------------------------------------------------------------ call histories
OPS = ("fit", "pA", "pB", "cols", "order", "rate", "ctrl", "y", "one")


def run_hist(ctx, dic, dm, ops):
    from datafold.appfold import EDMD

    A, B = tsc(1, (8, 9)), tsc(5, (9, 7), ids=(3, 1))
    e = EDMD(steps(dic), dmd_model=dmd(dm))
    f = EDMD(steps(dic), dmd_model=dmd(dm))  # gets only the accepted calls
    mode = None
    for n, op in enumerate(ops):
        ctx.step()
        ok = None
        bad = None
        if op in ("pA", "pB"):
            X = A if op == "pA" else B
            if mode == "fit":
                bad = (ValueError, lambda: e.partial_fit(X))
            else:
                ok = lambda m: m.partial_fit(X)
                mode = "partial"
        elif op == "fit":
            if mode == "partial":
                bad = (ValueError, lambda: e.fit(A))
            elif dm == "stream":
                return
            else:
                ok = lambda m: m.fit(A)
                mode = "fit"
        elif op == "cols" and mode == "partial":
            bad = ((ValueError, KeyError), lambda: e.partial_fit(tsc(6, (8,), cols=("b", "c"))))
        elif op == "order" and mode == "partial":
            bad = ((ValueError, KeyError), lambda: e.partial_fit(tsc(6, (8,), cols=("a", "b"))))
        elif op == "rate" and mode == "partial":
            bad = ((ValueError, None), lambda: e.partial_fit(tsc(6, (8,), dt=0.5)))
        elif op == "ctrl":
            bad = (NotImplementedError, lambda: e.partial_fit(A, U=A.iloc[:-1]))
        elif op == "y":
            bad = (NotImplementedError, lambda: e.partial_fit(A, y=A))
        elif op == "one" and mode == "partial":
            bad = ((ValueError, None), lambda: e.partial_fit(A.iloc[:1]))
        else:
            return
        if ok:
            ok(e)
            ok(f)
        else:
            exc = bad[0]
            if isinstance(exc, tuple) and None in exc:
                from datafold.pcfold.timeseries.collection import TSCException
                exc = (ValueError, TSCException)
            if op in ("ctrl", "y") and mode == "fit":
                exc = (NotImplementedError, ValueError)
            ctx.raises(exc, bad[1], f"{op} after {ops[:n]}")
        ctx.state((dic, dm, tuple(o for o in ops[: n + 1] if o in ("fit", "pA", "pB")), mode))
        if mode is None:
            continue
        # a rejected call must not change anything; an accepted one advances both alike
        ctx.eq(e.is_partial_fit_, mode == "partial", "is_partial_fit_")
        ctx.close(e.koopman_eigenvalues.to_numpy(), f.koopman_eigenvalues.to_numpy(), f"{ops[:n+1]}: eigenvalues", rtol=1e-12, atol=1e-12)
        ctx.close(e.reconstruct(A).to_numpy(), f.reconstruct(A).to_numpy(), f"{ops[:n+1]}: reconstruct", rtol=1e-10, atol=1e-10)


# ------------------------------------------------------------------ slicing
def run_slice(ctx, dics):
    from datafold.appfold import EDMD
    from datafold.dynfold.dmd import DMDStandard
    from datafold.dynfold import TSCIdentity, TSCTakensEmbedding, TSCPolynomialFeatures
    from sklearn.pipeline import Pipeline

    mk = {"i": lambda: TSCIdentity(include_const=False), "t": lambda: TSCTakensEmbedding(delays=1), "p": lambda: TSCPolynomialFeatures(degree=2, include_first_order=True)}
    st = [(f"{d}{k}", mk[d]()) for k, d in enumerate(dics)]
    X = tsc(3, (40, 30), ids=(2, 0))
    e = EDMD(st, dmd_model=DMDStandard()).fit(X)
    ctx.eq(len(e.steps), len(st) + 1, "number of steps")
    inter, Z = [X], X
    for _, s in e.steps[:-1]:
        Z = s.transform(Z)
        inter.append(Z)
    n = len(e.steps)
    for k in range(n):
        ctx.step()
        ctx.true(e[k] is e.steps[k][1], "integer index")
        ctx.true(e[k - n] is e.steps[k][1], "negative index")
        ctx.true(e[e.steps[k][0]] is e.steps[k][1], "name index")
        ctx.true(e.named_steps[e.steps[k][0]] is e.steps[k][1], "named_steps")
    ctx.true(e[-1] is e.dmd_model, "last step is the DMD model")
    rng = [None] + list(range(-n - 1, n + 2))
    for a in rng:
        for b in rng:
            ctx.step()
            want = e.steps[slice(a, b)]
            if not want:
                continue
            if len(want) == n:
                ctx.true(e[a:b] is e, "full slice is the model itself")
            elif want[-1][1] is e.dmd_model:
                ctx.raises(ValueError, lambda: e[a:b], f"slice {a}:{b} with the DMD model")
            else:
                p = e[a:b]
                ctx.true(isinstance(p, Pipeline) and not isinstance(p, EDMD), "slice is a pipeline of transformers")
                ctx.eq([s[0] for s in p.steps], [s[0] for s in want], f"slice {a}:{b} names")
                ctx.true(all(x[1] is y[1] for x, y in zip(p.steps, want)), "slice shares the fitted transformers")
                i0 = [s[0] for s in e.steps].index(want[0][0])
                T = p.transform(inter[i0])
                W = inter[i0 + len(want)]
                ctx.true(T.index.equals(W.index) and list(T.columns) == list(W.columns), "slice transform labels")
                ctx.close(T.to_numpy(), W.to_numpy(), "slice transform", rtol=1e-12, atol=1e-12)
    for s in (2, -1, 3):
        ctx.raises(ValueError, lambda: e[::s], "slice step")


# ------------------------------------------------------------------ transformers
def transformer(name):
    from datafold.dynfold import TSCIdentity, TSCPolynomialFeatures, TSCTakensEmbedding
    from datafold.dynfold.compose import TSCColumnTransformer
    from datafold.dynfold.transform import FourierRBF, TSCFiniteDifference, TSCIncrementalPCA

    return {
        "id": lambda: TSCIdentity(),
        "idc": lambda: TSCIdentity(include_const=True, rename_features=True),
        "takens": lambda: TSCTakensEmbedding(delays=1, lag=1),
        "takens2": lambda: TSCTakensEmbedding(delays=2, frequency=2),
        "poly": lambda: TSCPolynomialFeatures(degree=2, include_first_order=False),
        "polyb": lambda: TSCPolynomialFeatures(degree=3, include_bias=True, include_first_order=True),
        "fd": lambda: TSCFiniteDifference(diff_order=1, accuracy=2),
        "rbf": lambda: FourierRBF(3),
        "ct": lambda: TSCColumnTransformer([("i", TSCIdentity(), ["b"]), ("p", TSCPolynomialFeatures(degree=2, include_first_order=False), ["b", "a"])]),
        "ipca": lambda: TSCIncrementalPCA(n_components=2),
        "ipca1": lambda: TSCIncrementalPCA(n_components=1),
    }[name]()


TRANSFORMERS = ("id", "idc", "takens", "takens2", "poly", "polyb", "fd", "rbf", "ct", "ipca", "ipca1")


def same_tsc(ctx, a, b, what, tol=1e-10):
    ctx.eq(type(a), type(b), f"{what}: type")
    ctx.eq(list(a.columns), list(b.columns), f"{what}: columns")
    ctx.true(a.index.equals(b.index), f"{what}: index")
    ctx.close(a.to_numpy(), b.to_numpy(), f"{what}: values", rtol=tol, atol=tol)


def run_transf(ctx, name, order):
    data = {"A": tsc(1, (9, 8)), "B": tsc(2, (7, 8, 6), ids=(5, 1, 3)), "C": tsc(3, (10,))}
    m = transformer(name)
    seen = []
    for n, k in enumerate(order):
        ctx.step()
        X = data[k]
        keep = X.copy()
        if n % 2:
            T = m.partial_fit_transform(X)
        else:
            r = m.partial_fit(X)
            ctx.true(r is m, "partial_fit returns self")
            T = m.transform(X)
        ctx.true(X.equals(keep), "data not modified")
        seen.append(X.to_numpy())
        if name.startswith("ipca"):
            Z = np.concatenate(seen)
            mu = Z.mean(axis=0)
            ctx.close(m.mean_, mu, "incremental mean", rtol=1e-9, atol=1e-10)
            ctx.eq(int(m.n_samples_seen_), len(Z), "n_samples_seen_")
            ctx.eq(list(T.columns), [f"pca{i}" for i in range(T.shape[1])], "component names")
            if name == "ipca":  # all components kept: exact
                C = np.cov(Z.T)
                w, V = np.linalg.eigh(C)
                ctx.close(m.explained_variance_, w[::-1], "incremental variance", rtol=1e-8, atol=1e-10)
                for i in range(2):
                    ctx.close(abs(m.components_[i] @ V[:, 1 - i]), 1.0, "incremental directions", rtol=1e-8)
                back = np.asarray(m.inverse_transform(T))
                ctx.close(back, X.to_numpy(), "inverse", rtol=1e-9, atol=1e-10)
            else:
                ctx.close(np.linalg.norm(m.components_[0]), 1.0, "unit direction", rtol=1e-9)
            ctx.close(T.to_numpy(), (X.to_numpy() - mu) @ m.components_.T, "projection", rtol=1e-9, atol=1e-10)
            continue
        f = transformer(name)
        first = data[order[0]]
        if name == "rbf":
            W = f.fit_transform(first) if n == 0 else None
            comp = m.fourier_components_
            ctx.eq(comp.shape, (2, 3), "frequencies")
            if n == 0:
                comp0 = comp.copy()
            ctx.close(comp, comp0, "frequencies stay", rtol=0, atol=0)
            ctx.close(T.to_numpy(), np.c_[np.sin(X.to_numpy() @ comp), np.cos(X.to_numpy() @ comp)], "features", rtol=1e-12, atol=1e-12)
            ctx.eq(list(T.columns), [f"sin{i}" for i in range(3)] + [f"cos{i}" for i in range(3)], "names")
            ctx.true(T.index.equals(X.index), "index")
            continue
        f.fit(first)
        same_tsc(ctx, T, f.transform(X), f"{name} {order[:n+1]}")
    if name.startswith("ipca") or name == "rbf":
        return
    if name not in ("ct",):
        ctx.raises((ValueError, KeyError), lambda: m.transform(tsc(4, (8,), cols=("b", "c"))), "other features after partial_fit")


def run_fitpredict(ctx, dic, layout, qois):
    from datafold.appfold import EDMD
    from datafold.dynfold.dmd import DMDStandard

    X = tsc(4, *layout)
    kw = {} if qois is None else {"qois": list(qois)}
    a = EDMD(steps(dic), dmd_model=DMDStandard(), include_id_state=not {"b", "a"} <= set(lift(dic, np.zeros((4, 2)))[0]))
    got = a.fit_predict(X, **kw)
    b = EDMD(steps(dic), dmd_model=DMDStandard(), include_id_state=a.include_id_state).fit(X)
    same_tsc(ctx, got, b.reconstruct(X, **kw), f"{dic}: fit_predict")
    ctx.eq(list(got.columns), ["b", "a"] if qois is None else list(qois), "columns")
    drop = lift(dic, np.zeros((4, 2)))[2]
    want = [(i, t) for i, ts, _ in by_series(X) for t in ts[drop:]]
    ctx.eq([(int(i), float(t)) for i, t in got.index], [(int(i), float(t)) for i, t in want], "index")
    # the first state of every series is the initial condition itself
    if drop == 0 and dic != "rename":
        ctx.close(got.groupby(level=0, sort=False).head(1).to_numpy(), X.loc[:, list(got.columns)].groupby(level=0, sort=False).head(1).to_numpy(), "initial states", rtol=1e-6, atol=1e-6)
    if layout[-1] == (1, 0, 7):
        return
    m = DMDStandard()
    p = m.fit_predict(X)
    A = (np.asarray(m.eigenvectors_right_) @ np.diag(m.eigenvalues_) @ np.linalg.inv(m.eigenvectors_right_)).real
    first = {i: v[0] for i, _, v in by_series(X)}
    ctx.eq([i for i, _, _ in by_series(p)], list(first), "series of the prediction")
    for i, t, v in by_series(p):
        ctx.close(v, np.array([np.linalg.matrix_power(A, int(round(x - t[0]))) @ first[i] for x in t]), "DMD fit_predict", rtol=1e-7, atol=1e-8)


def cases(tier):
    deep = tier == "thorough"
    comps = list(compositions(4))
    for dic in DICTS:
        for dm in DMDS:
            for include, preserve, inv in ((True, "infer", False), (False, "infer", False), (True, False, False), (True, True, False), (False, True, False), (False, False, False)):
                for c in comps if (deep or (dm in ("online", "stream") and include and preserve == "infer")) else [(4,), (2, 2), (1, 1, 2)]:
                    if not deep and (include, preserve) not in ((True, "infer"), (False, "infer")) and c != (2, 2):
                        continue
                    yield "pfit", (dic, dm, include, preserve, inv, "series", c, "plain", deep)
        for dm in ("online", "diag", "stream"):
            for opt in ("sort", "step"):
                if opt == "step" and dm == "diag":
                    continue
                for c in ((4,), (1, 3), (2, 2), (1, 1, 2)):
                    yield "pfit", (dic, dm, True, "infer", False, "series", c, opt, deep)
    for dic in ("id", "delay"):
        for dm in ("online", "stream"):
            for c in comps:
                yield "pfit", (dic, dm, True, "infer", True, "series", c, "plain", deep)
    for dic in ("id", "const", "poly", "polyno", "ct"):
        for dm in DMDS:
            for c in ((2, 2, 2, 10), (3, 2, 9, 4), (12, 2, 2), (2,) * 9, (5, 5, 5), (4, 8, 4)) + (((3,) * 6, (2, 3, 4, 5, 6), (6, 5, 4, 3, 2), (20, 2)) if deep else ()):
                if dm in ("stream", "rank2") and c[0] == 3:
                    continue  # documented: the first chunk of StreamingDMD has two or more than three samples
                yield "pfit", (dic, dm, True, "infer", False, "inside", c, "plain", deep)
    for dic in ("id", "delay", "polyno"):
        for dm in ("online", "stream"):
            for d in (1, 2, 3) + ((4,) if deep else ()):
                for ops in itertools.product(OPS, repeat=d):
                    if d >= 3 and (ops[0] not in ("pA", "fit") or (not deep and (dic, dm) not in (("delay", "online"), ("polyno", "stream")))):
                        continue
                    yield "hist", (dic, dm, ops)
    for r in (1, 2, 3):
        for dics in itertools.product("itp", repeat=r):
            if dics.count("p") <= 1 and dics.count("t") <= 1:
                yield "slice", (dics,)
    for name in TRANSFORMERS:
        for r in (1, 2, 3) + ((4,) if deep else ()):
            for order in itertools.product("ABC", repeat=r):
                yield "transf", (name, order)
    for dic in DICTS:
        for layout in (((12,),), ((12, 14), None, (5, 2)), ((12, 15, 11), (0, 2, 1), (1, 0, 7))):
            for q in (None, ("a",), ("a", "b"), ("b", "a")):
                yield "fitpredict", (dic, layout, q)


RUN = {"pfit": run_pfit, "hist": run_hist, "slice": run_slice, "transf": run_transf, "fitpredict": run_fitpredict}
