"""C09: transformers of time series collections: values, labels, isolation of series, inverse, purity."""
import itertools
import numpy as np
import pandas as pd
import tscmodel as tm

PROPERTY = "C09"
BOUND = """
alphabet: all collections of 1-3 series of length 1-3 (series transformers: 1-2 series, length 1-7), IDs consecutive/unsorted/holed, int and
datetime axes (thorough: all axis kinds), string and integer feature names in any order, also plain DataFrame and ndarray input;
about 45 configurations of scaling, selection, identity, PCA, incremental PCA, RBF, polynomial, lambda, Fourier features, column transformers and
pipelines; Takens (delays 1-3 x lag 0-2 x frequency 1-2 x kappa), moving average 1-4, finite differences (scheme x order x
accuracy). Each trace fits on one collection and transforms it (fit_transform, fit+transform), each single series alone and a
second collection, and maps back. Oracle: formulas on the list-of-series model.
"""


# ------------------------------------------------------------------ helpers
def arr(model):
    return np.array([v for _, rows in model[1] for _, v in rows], dtype=float).reshape(-1, len(model[0]))


def with_vals(model, cols, A):
    out, k = [], 0
    for i, rows in model[1]:
        out.append((i, [(t, tuple(A[k + j])) for j, (t, _) in enumerate(rows)]))
        k += len(rows)
    return (list(cols), out)


def close_tsc(ctx, got, want, msg, rtol=1e-8, atol=1e-8, any_order=False):
    from datafold.pcfold import TSCDataFrame

    ctx.true(type(got) is TSCDataFrame, f"{msg}: result has type {type(got)}")
    e = tm.is_valid_obs(got)
    ctx.true(e is None, f"{msg}: invalid collection: {e}")
    o, w = tm.observe(got), tm.observe_model(want)
    ctx.eq([str(c) for c in o[0]], [str(c) for c in w[0]], f"{msg}: feature names")
    if any_order:
        o, w = (o[0], sorted(o[1], key=lambda r: r[0][0])), (w[0], sorted(w[1], key=lambda r: r[0][0]))
    ctx.eq([k for k, _ in o[1]], [k for k, _ in w[1]], f"{msg}: rows")
    A = np.array([v for _, v in o[1]], dtype=float).reshape(-1, len(o[0]))
    B = np.array([v for _, v in w[1]], dtype=float).reshape(-1, len(w[0]))
    ctx.close(A, B, msg, rtol=rtol, atol=atol)


def powers(n, deg, inter, bias, first):
    out = []
    for d in range(0 if bias else 1, deg + 1):
        if d == 1 and not first:
            continue
        for c in (itertools.combinations if inter else itertools.combinations_with_replacement)(range(n), d):
            out.append(c)
    return out


def pname(c, names):
    if not c:
        return "1"
    return " ".join(str(names[k]) + (f"^{c.count(k)}" if c.count(k) > 1 else "") for k in sorted(set(c)))


def gauss(C, X, eps):
    return np.exp(-((X[:, None, :] - C[None, :, :]) ** 2).sum(-1) / (2 * eps))


def multiq(C, X, eps):
    return np.sqrt(((X[:, None, :] - C[None, :, :]) ** 2).sum(-1) / (2 * eps) + 1)


F1 = lambda x: x**3
F2 = np.sin


# name -> (constructor, expect(train, model) -> (names, array) or None, invertible, fit kwargs)
def spec(name, train):
    """constructor, fit params, expected (names, f(A)) with statistics of the training data, inverse kind"""
    from datafold.dynfold import transform as T
    from datafold.dynfold.compose import TSCColumnTransformer, TSCPipeline
    from datafold.pcfold import GaussianKernel, MultiquadricKernel
    from sklearn.preprocessing import MaxAbsScaler, StandardScaler, MinMaxScaler

    cols = list(train[0])
    A = arr(train)
    n = len(cols)
    k = name[0]
    if k == "scale":
        mu, sd, mn, mx = A.mean(0), A.std(0), A.min(0), A.max(0)
        sd = np.where(sd < 1e-12, 1, sd)
        rg = np.where(mx - mn < 1e-12, 1, mx - mn)
        ma = np.where(np.abs(A).max(0) == 0, 1, np.abs(A).max(0))
        f = {"center": lambda X: X - mu, "standard": lambda X: (X - mu) / sd, "min-max": lambda X: (X - mn) / rg,
             "maxabs": lambda X: X / ma, "range": lambda X: (X - mn) / rg * 3 - 1}[name[1]]
        c = (lambda: T.TSCFeaturePreprocess.from_name(name[1])) if name[1] in ("center", "standard", "min-max") else (
            lambda: T.TSCFeaturePreprocess(MaxAbsScaler() if name[1] == "maxabs" else MinMaxScaler(feature_range=(-1, 2))))
        return c, {}, cols, f, "full"
    if k == "select":
        order = name[1]
        pos = [p for p in order if p < n]
        feats = np.array(pos) if name[2] == "pos" else np.array([cols[p] for p in pos])
        return (lambda: T.TSCFeatureSelect(feats)), {}, [cols[p] for p in pos], (lambda X: X[:, pos]), None
    if k == "id":
        const, ren = name[1], name[2]
        names = [f"{c}_id" if ren else c for c in cols] + (["const"] if const else [])
        return (lambda: T.TSCIdentity(include_const=const, rename_features=ren)), {}, names, (
            lambda X: np.column_stack([X, np.ones(len(X))]) if const else X), "full"
    if k in ("pca", "ipca"):
        m = min(name[1], n, len(A))
        mu = A.mean(0)
        V = np.linalg.svd(A - mu, full_matrices=False)[2][:m]
        if k == "pca":
            return (lambda: T.TSCPrincipalComponent(n_components=m)), {}, [f"pca{i}" for i in range(m)], (lambda X: (X - mu) @ V.T), ("proj", mu, V)
        return (lambda: T.TSCIncrementalPCA(n_components=m)), {"_partial": True}, [f"pca{i}" for i in range(m)], (lambda X: (X - mu) @ V.T), None
    if k == "poly":
        _, deg, inter, bias, first = name
        pw = powers(n, deg, inter, bias, first)
        if not pw:
            return None
        return (lambda: T.TSCPolynomialFeatures(degree=deg, interaction_only=inter, include_bias=bias, include_first_order=first)), {}, [
            pname(c, cols) for c in pw], (lambda X: np.column_stack([np.prod(X[:, list(c)], axis=1) if c else np.ones(len(X)) for c in pw])), None
    if k == "lambda":
        fs = [F1, F2, np.abs][: name[1]]
        names = [f"{c}_lambda{i}" for i in range(len(fs)) for c in cols]
        return (lambda: T.TSCApplyLambdas(fs)), {}, names, (lambda X: np.column_stack([f(X) for f in fs])), "anyorder"
    if k == "rbf":
        ker, ct = name[1], name[2]
        eps = 4.0 if ker == "gauss" else 2.5
        if ct == "all_data":
            C, fp = A, {}
        elif ct == "initial_condition":
            C, fp = np.array([rows[0][1] for _, rows in train[1]], dtype=float), {}
        elif ct == "fit_params":
            C = np.arange(3 * n, dtype=float).reshape(3, n) * 0.7
            fp = {"centers": C.copy()}
        else:
            m = (len(A) + 1) // 2
            C, fp = A[np.random.default_rng(1).choice(range(len(A)), size=m, replace=False)], {}
        if len(C) < 2:
            return None  # a single reference point is rejected by the distance backends
        F = (lambda X: gauss(C, X, eps)) if ker == "gauss" else (lambda X: multiq(C, X, eps))
        kern = GaussianKernel(epsilon=eps) if ker == "gauss" else MultiquadricKernel(epsilon=eps)
        G = F(C)
        inv = ("lin", np.linalg.pinv(G) @ C) if np.linalg.cond(G) < 1e8 else None
        return (lambda: T.TSCRadialBasis(kern, center_type=ct, n_samples=max(1, (len(A) + 1) // 2))), fp, [f"rbf{i}" for i in range(len(C))], F, inv
    if k == "fourier":
        m, s = name[1], name[2]
        rng = np.random.default_rng(1)
        W = np.column_stack([rng.multivariate_normal(np.zeros(n), np.identity(n) / s**2) for _ in range(m)])
        return (lambda: T.FourierRBF(m, s)), {}, [f"sin{i}" for i in range(m)] + [f"cos{i}" for i in range(m)], (
            lambda X: np.column_stack([np.sin(X @ W), np.cos(X @ W)])), None
    if k == "column":
        if n < 2:
            return None
        a, b = ([cols[0]], cols[1:]) if name[1] == 0 else (cols[1:], [cols[0]])
        mu, sd = A.mean(0), np.where(A.std(0) < 1e-12, 1, A.std(0))
        ia, ib = [cols.index(c) for c in a], [cols.index(c) for c in b]
        return (lambda: TSCColumnTransformer([("u", T.TSCFeaturePreprocess.from_name("standard"), a), ("v", T.TSCIdentity(include_const=True), b)])), {}, [
            f"u__{c}" for c in a] + [f"v__{c}" for c in b] + ["v__const"], (
            lambda X: np.column_stack([((X - mu) / sd)[:, ia], X[:, ib], np.ones(len(X))])), None
    if k == "pipe":
        mu, sd = A.mean(0), np.where(A.std(0) < 1e-12, 1, A.std(0))
        Z = lambda X: (X - mu) / sd
        pw = powers(n, 2, False, False, True)
        return (lambda: TSCPipeline([("s", T.TSCFeaturePreprocess.from_name("standard")), ("p", T.TSCPolynomialFeatures(2, include_first_order=True))])), {}, [
            pname(c, cols) for c in pw], (lambda X: np.column_stack([np.prod(Z(X)[:, list(c)], axis=1) for c in pw])), None
    raise KeyError(k)


POINT = (
    [("scale", s) for s in ("center", "standard", "min-max", "maxabs", "range")]
    + [("select", o, h) for o in ((0,), (1, 0), (0, 1), (1, 2), (2, 0, 1)) for h in ("pos", "name")]
    + [("id", c, r) for c in (False, True) for r in (False, True)]
    + [("pca", m) for m in (1, 2, 3)] + [("ipca", m) for m in (1, 2)]
    + [("poly", d, i, b, f) for d in (1, 2, 3) for i in (False, True) for b in (False, True) for f in (False, True)]
    + [("lambda", m) for m in (1, 2, 3)]
    + [("rbf", kk, c) for kk in ("gauss", "multiq") for c in ("all_data", "initial_condition", "fit_params", "random")]
    + [("fourier", 2, 1), ("fourier", 3, 2)]
    + [("column", 0), ("column", 1), ("pipe",)]
)


def sign_fix(got, want):
    """columns of got with the sign closest to want"""
    s = np.where(np.sum(np.sign(got * want) * np.abs(got * want), axis=0) < 0, -1.0, 1.0)
    return got * s


def build_est(name, s, X):
    est = s[0]()
    if s[1].get("_partial"):
        return est.partial_fit(X)
    return est.fit(X, **s[1])


OTHER = [((4, 2), (2, 1), ("int", "int"), (1, 0)), ((0,), (3,), ("int",), (2,)), ((9, 1, 3), (1, 2, 1), ("int", "int", "int"), (0, 3, 1))]


def run_point(ctx, name, ids, lens, kinds, offs, cols):
    name = tuple(tuple(x) if isinstance(x, list) else x for x in name)
    train = tm.make(ids, lens, kinds, offs, cols)
    n, N = len(train[0]), sum(lens)
    if name[0] == "select" and [p for p in name[1] if p < n] != list(name[1]):
        return
    if name[0] in ("pca", "ipca") and (name[1] > n or name[1] >= N):
        return
    if name[0] == "select" and name[2] == "name" and not isinstance(train[0][0], str):
        return
    if name[0] in ("poly", "pipe", "column") and not isinstance(train[0][0], str):
        return  # feature names of these must be strings (loudly rejected by scikit-learn)
    s = spec(name, train)
    if s is None:
        return
    ctor, fp, names, f, inv = s
    X = tm.build(train)
    keep = X.copy(deep=True)
    kc = list(X.columns)
    est = build_est(name, s, X)
    ctx.eq(tm.observe(X), tm.observe(keep), f"{name}: fit modified the data")
    ctx.eq([(type(c).__name__, c) for c in X.columns], [(type(c).__name__, c) for c in kc], f"{name}: fit renamed the columns of the input")
    sgn = name[0] in ("pca", "ipca")

    def check(frame, model, msg):
        before = tm.observe(frame)
        got = est.transform(frame)
        ctx.eq(tm.observe(frame), before, f"{msg}: transform modified the data")
        ctx.true(got is not frame, f"{msg}: transform returned its own argument")
        W = f(arr(model))
        out_names = list(est.get_feature_names_out())
        ctx.eq([str(c) for c in got.columns], [str(c) for c in out_names], f"{msg}: columns of the result vs get_feature_names_out")
        ctx.eq(est.n_features_out_, got.shape[1], f"{msg}: n_features_out_")
        if inv == "anyorder":
            ctx.eq(sorted(map(str, got.columns)), sorted(map(str, names)), f"{msg}: names")
            W = W[:, [list(map(str, names)).index(str(c)) for c in got.columns]]
            want = with_vals(model, list(got.columns), W)
        else:
            want = with_vals(model, names, W)
        g = got
        if sgn:
            g = got.copy()
            g.iloc[:, :] = sign_fix(got.to_numpy(), sign_ref(got.to_numpy(), W, frame))
        close_tsc(ctx, g, want, msg, rtol=1e-7, atol=1e-6 if sgn else 1e-7)
        return got

    # the sign of principal components is fixed by the training data once
    tr = est.transform(X)
    sg = None
    if sgn:
        W0 = f(arr(train))
        sg = np.where((tr.to_numpy() * W0).sum(0) < 0, -1.0, 1.0)
        sv = np.linalg.svd(arr(train) - arr(train).mean(0), compute_uv=False)
        m = W0.shape[1]
        gaps = [sv[i] - sv[i + 1] for i in range(min(m, len(sv) - 1))]
        if sv[m - 1] < 1e-6 or (gaps and min(gaps) < 1e-3):
            return  # components not unique

    def sign_ref(G, W, frame):
        return G * sg

    res = check(X, train, f"{name} training data")
    # fit_transform
    if name[0] not in ("ipca",):
        e2 = ctor()
        X2 = tm.build(train)
        ft = e2.fit_transform(X2, **fp)
        ctx.eq(tm.observe(X2), tm.observe(keep), f"{name}: fit_transform modified the data")
        ctx.close(ft.to_numpy() if not sgn else np.abs(ft.to_numpy()), res.to_numpy() if not sgn else np.abs(res.to_numpy()), f"{name}: fit_transform vs fit, transform", atol=1e-7)
        ctx.eq((tm.observe(ft)[0], [k for k, _ in tm.observe(ft)[1]]), (tm.observe(res)[0], [k for k, _ in tm.observe(res)[1]]), f"{name}: labels of fit_transform")
        ctx.true(type(ft) is type(res), f"{name}: type of fit_transform")
        ctx.eq([str(c) for c in e2.get_feature_names_out()], [str(c) for c in ft.columns], f"{name}: feature names after fit_transform")
        ctx.eq(e2.n_features_out_, ft.shape[1], f"{name}: n_features_out_ after fit_transform")
        ctx.eq(e2.n_features_in_, n, f"{name}: n_features_in_")
    # single series and another collection
    for p in range(len(ids)):
        m1 = (train[0], [train[1][p]])
        check(tm.build(m1), m1, f"{name} single series")
    other = tm.make(*OTHER[N % 3], cols=cols, fn=lambda p, q, j: 0.37 * tm.val(p + 1, q, j) - 1.5)
    check(tm.build(other), other, f"{name} other collection")
    # inverse
    if inv is not None and inv != "anyorder":
        keepo = tm.observe(res)
        back = est.inverse_transform(res)
        ctx.eq(tm.observe(res), keepo, f"{name}: inverse_transform modified the data")
        A = arr(train)
        if inv == "full":
            B = A
        elif inv[0] == "proj":
            B = (A - inv[1]) @ inv[2].T @ inv[2] + inv[1]
        else:
            B = f(A) @ inv[1]
        close_tsc(ctx, back, with_vals(train, train[0], B), f"{name} inverse", rtol=1e-5, atol=1e-5)
        if name[0] == "scale":
            ctx.eq([(type(c).__name__, c) for c in back.columns], [(type(c).__name__, c) for c in kc], "names after inverse")
        ot = tm.build(other)
        if inv == "full":
            close_tsc(ctx, est.inverse_transform(est.transform(ot)), other, f"{name} inverse of other data", rtol=1e-6, atol=1e-6)
    # wrong features are rejected
    E = (ValueError, KeyError, TypeError)
    if name[0] != "fourier":
        bad = tm.make(*OTHER[0], cols=["zz"] + ["y%d" % q for q in range(n)])
        ctx.raises(E, lambda: est.transform(tm.build(bad)), f"{name}: additional feature")
        if isinstance(train[0][0], str):
            bad = tm.make(*OTHER[0], cols=["zz%d" % q for q in range(n)])
            ctx.raises(E, lambda: est.transform(tm.build(bad)), f"{name}: other feature names")
    ctx.state(name, ids, lens, kinds, offs, cols, res)


def run_array(ctx, name, n, N, typ):
    """plain ndarray / DataFrame input"""
    name = tuple(tuple(x) if isinstance(x, list) else x for x in name)
    cols = ["u", "v", "w"][:n]
    model = tm.make((0,), (N,), ("int",), (0,), cols)
    if name[0] in ("select", "lambda", "ipca", "column", "fourier") or (name[0] == "rbf" and name[2] == "initial_condition"):
        return
    if name[0] == "pca" and (name[1] > n or name[1] >= N):
        return
    if name[0] == "pipe" and typ == "df":
        return
    s = spec(name, model)
    if s is None:
        return
    ctor, fp, names, f, inv = s
    A = arr(model)
    idx = pd.Index([7, 3, 5, 1, 9, 2][:N]) if typ == "df" else None
    X = A.copy() if typ == "np" else pd.DataFrame(A.copy(), index=idx, columns=cols)
    est = ctor().fit(X, **fp)
    got = est.transform(X)
    ft = ctor().fit_transform(X, **fp)
    W = f(A)
    for g, m in ((got, "transform"), (ft, "fit_transform")):
        ctx.true(isinstance(g, np.ndarray if typ == "np" else pd.DataFrame), f"{name} {m}: type {type(g)}")
        G = np.asarray(g)
        if name[0] == "pca":
            G, Wm = np.abs(G), np.abs(W)
        else:
            Wm = W
        ctx.close(G, Wm, f"{name} {m} of {typ}", rtol=1e-7, atol=1e-7)
        if typ == "df":
            ctx.eq(list(g.index), list(idx), f"{name} {m}: index")
            ctx.eq([str(c) for c in g.columns], [str(c) for c in names], f"{name} {m}: columns")
    ctx.eq(np.asarray(X), A, f"{name}: input modified")
    if inv == "full":
        ctx.close(np.asarray(est.inverse_transform(got)), A, f"{name} inverse", atol=1e-6)
    ctx.raises((ValueError, TypeError), lambda: est.transform(np.ones((2, n + 1)) if typ == "np" else pd.DataFrame(np.ones((2, n + 1)))), f"{name}: wrong number of features")
    bad = A.copy()
    bad[0, 0] = np.nan
    bad = bad if typ == "np" else pd.DataFrame(bad, index=idx, columns=cols)
    ctx.raises((ValueError, TypeError), lambda: est.transform(bad), f"{name}: nan")
    ctx.state(name, n, N, typ, got)


# ------------------------------------------------------------------ series transformers
def takens_expect(model, delays, lag, freq, kappa, names_as_str=True):
    cols, series = model
    d = [lag + 1 + freq * k for k in range(delays)]
    names = [str(c) for c in cols] + [f"{c}:d{x}" for x in d for c in cols]
    out = []
    for i, rows in series:
        if len(rows) < max(d) + 1:
            return None
        new = []
        for k in range(max(d), len(rows)):
            v = list(rows[k][1])
            for q, x in enumerate(d):
                v += [float(np.exp(-kappa * (q + 1))) * y for y in rows[k - x][1]]
            new.append((rows[k][0], tuple(v)))
        out.append((i, new))
    return (names, out)


def series_common(ctx, make, expect, model, msg, inverse=False, any_order=False):
    """fit/transform of a series transformer against expect(model); too short data must be rejected"""
    from datafold.pcfold.timeseries.collection import TSCException

    X = tm.build(model)
    before, types = tm.observe(X), [(type(c).__name__, c) for c in X.columns]
    want = expect(model)
    if want is None:
        ctx.raises((TSCException, ValueError), lambda: make().fit(X).transform(X), f"{msg}: too short series")
        ctx.eq(tm.observe(X), before, f"{msg}: data modified")
        return None
    est = make().fit(X)
    got = est.transform(X)
    ctx.eq((tm.observe(X), [(type(c).__name__, c) for c in X.columns]), (before, types), f"{msg}: fit/transform modified the data")
    close_tsc(ctx, got, want, msg, any_order=any_order)
    ctx.eq([str(c) for c in est.get_feature_names_out()], [str(c) for c in got.columns], f"{msg}: get_feature_names_out")
    ctx.eq(est.n_features_out_, got.shape[1], f"{msg}: n_features_out_")
    X2 = tm.build(model)
    ft = make().fit_transform(X2)
    ctx.eq(tm.observe(ft), tm.observe(got), f"{msg}: fit_transform")
    for p in range(len(model[1])):
        m1 = (model[0], [model[1][p]])
        close_tsc(ctx, est.transform(tm.build(m1)), expect(m1), f"{msg}: series {p} alone")
    if inverse:
        back = est.inverse_transform(got)
        keep = {k for k, _ in tm.observe(got)[1]}
        b = tm.observe(back)
        w = tm.observe_model(model)
        ctx.eq([str(c) for c in b[0]], [str(c) for c in w[0]], f"{msg} inverse: names")
        ctx.eq(b[1], [r for r in w[1] if r[0] in keep], f"{msg} inverse")
    return est, got


def run_takens(ctx, ids, lens, kind, cols, delays, lag, freq, kappa):
    from datafold.dynfold.transform import TSCTakensEmbedding
    from datafold.pcfold.timeseries.collection import TSCException

    if freq > 1 and delays <= 1:
        ctx.raises(ValueError, lambda: TSCTakensEmbedding(delays, lag=lag, frequency=freq).fit(tm.build(tm.make((0,), (9,), ("int",), (0,), cols))), "frequency without delays")
        return
    model = tm.make(ids, lens, (kind,) * len(ids), tuple(range(len(ids))), cols)
    msg = f"takens d={delays} lag={lag} f={freq} kappa={kappa} ids={ids} lens={lens}"
    if len(set(ids)) and min(lens) == 1 and len(ids) and takens_expect(model, delays, lag, freq, kappa) is None:
        pass
    r = series_common(ctx, lambda: TSCTakensEmbedding(delays, lag=lag, frequency=freq, kappa=kappa), lambda m: takens_expect(m, delays, lag, freq, kappa), model, msg, inverse=True)
    if r is not None:
        est, got = r
        ctx.eq(est.min_timesteps_, lag + 1 + freq * (delays - 1) + 1, f"{msg}: min_timesteps_")
        n = est.min_timesteps_
        exact = tm.make((3, 1), (n, n), (kind,) * 2, (0, 2), cols)
        got1 = est.transform(tm.build(exact))
        w = takens_expect(exact, delays, lag, freq, kappa)
        ctx.eq([k for k, _ in tm.observe(got1)[1]], [k for k, _ in tm.observe_model(w)[1]], f"{msg}: exactly one sample per series")
        ctx.close(got1.to_numpy(), arr(w), f"{msg}: minimal series")
        short = tm.make((3, 1), (n, n - 1), (kind,) * 2, (0, 2), cols)
        ctx.raises((TSCException, ValueError), lambda: est.transform(tm.build(short)), f"{msg}: one series too short")
        alt = {"int": "int3", "date": "date2", "float": "float2"}[kind]
        ctx.raises((TSCException, ValueError), lambda: est.transform(tm.build(tm.make((0,), (n + 1,), (alt,), (0,), cols))), f"{msg}: other sampling time")
        ctx.state(ids, lens, kind, cols, delays, lag, freq, kappa, got)
    else:
        ctx.state("short", ids, lens, delays, lag, freq)


def run_ma(ctx, ids, lens, kind, cols, w):
    from datafold.dynfold.transform import TSCMovingAverage

    model = tm.make(ids, lens, (kind,) * len(ids), tuple(range(len(ids))), cols)

    def expect(m):
        out = []
        for i, rows in m[1]:
            if len(rows) < w:
                return None
            out.append((i, [(rows[k][0], tuple(np.mean([rows[k - j][1] for j in range(w)], axis=0))) for k in range(w - 1, len(rows))]))
        return ([f"{c}_ma{w}" for c in m[0]], out)

    if min(lens) == 1:
        return  # no sampling time
    r = series_common(ctx, lambda: TSCMovingAverage(w), expect, model, f"moving average {w} ids={ids} lens={lens}")
    ctx.state(ids, lens, kind, cols, w, None if r is None else r[1])


FD = {  # offsets, weights
    ("center", 1, 2): ([-1, 1], [-0.5, 0.5]),
    ("center", 2, 2): ([-1, 0, 1], [1, -2, 1]),
    ("backward", 1, 1): ([-1, 0], [-1, 1]),
    ("backward", 1, 2): ([-2, -1, 0], [0.5, -2, 1.5]),
    ("forward", 1, 2): ([0, 1, 2], [-1.5, 2, -0.5]),
    ("center", 1, 4): ([-2, -1, 1, 2], [1 / 12, -2 / 3, 2 / 3, -1 / 12]),
}


def run_fd(ctx, ids, lens, kind, cols, scheme, order, acc, spacing):
    from datafold.dynfold.transform import TSCFiniteDifference

    if (scheme, order, acc) == ("backward", 1, 1):
        return
    off, wt = FD[(scheme, order, acc)]
    model = tm.make(ids, lens, (kind,) * len(ids), tuple(range(len(ids))), cols)
    need = max(off) - min(off) + 1
    if min(lens) < max(need, 2):
        return
    dt = {"int": 1.0, "int3": 3.0, "float": 0.5}[kind]
    sh = max(off) if scheme in ("center", "forward") else 0

    def expect(m):
        out = []
        for i, rows in m[1]:
            new = []
            for k in range(-min(off) if min(off) < 0 else 0, len(rows) - max(max(off), 0)):
                v = sum(w * np.array(rows[k + o][1]) for o, w in zip(off, wt)) / dt**order
                new.append((rows[k + sh][0], tuple(v)))
            out.append((i, new))
        return ([f"{c}_dot{order}" for c in m[0]], out)

    r = series_common(ctx, lambda: TSCFiniteDifference(spacing="dt" if spacing == "dt" else dt, scheme=scheme, diff_order=order, accuracy=acc), expect, model, f"finite difference {scheme} {order} {acc} ids={ids} lens={lens}", any_order=True)
    ctx.state(ids, lens, kind, cols, scheme, order, acc, r[1])


def run_cols_takens(ctx, ids, lens, kind):
    """column transformer with parts that drop different numbers of samples: the common samples remain"""
    from datafold.dynfold.compose import TSCColumnTransformer
    from datafold.dynfold.transform import TSCTakensEmbedding, TSCIdentity

    model = tm.make(ids, lens, (kind,) * len(ids), tuple(range(len(ids))), "s2")
    X = tm.build(model)
    before = tm.observe(X)
    est = TSCColumnTransformer([("t", TSCTakensEmbedding(2), ["b"]), ("i", TSCIdentity(), ["a"])])
    if min(lens) < 3:
        return
    got = est.fit_transform(X)
    ctx.eq(tm.observe(X), before, "data modified")
    mb = (["b"], [(i, [(t, (v[1],)) for t, v in rows]) for i, rows in model[1]])
    tk = takens_expect(mb, 2, 0, 1, 0)
    full = {(i, tm.norm_t(t)): v[0] for i, rows in model[1] for t, v in rows}
    want = (["t__b", "t__b:d1", "t__b:d2", "i__a"], [(i, [(t, tuple(v) + (full[(i, tm.norm_t(t))],)) for t, v in rows]) for i, rows in tk[1]])
    close_tsc(ctx, got, want, f"column transformer ids={ids} lens={lens}")
    close_tsc(ctx, est.transform(X), want, "transform")
    ctx.eq(est.n_features_out_, 4, "n_features_out_")
    ctx.state(ids, lens, kind, got)


RUN = {"point": run_point, "array": run_array, "takens": run_takens, "ma": run_ma, "fd": run_fd, "cols_takens": run_cols_takens}

SER_IDS = {1: [(0,), (7,)], 2: [(0, 1), (4, 2)], 3: [(5, 1, 3)]}


def cases(tier):
    th = tier == "thorough"
    shp = []
    for n in (1, 2, 3):
        for ids in tm.IDSETS[n] if n < 3 or th else [(2, 0, 1), (0, 1, 2)]:
            for lens in itertools.product(range(1, 4 if n < 3 or th else 3), repeat=n):
                if sum(lens) < 2:
                    continue
                for kd in ("int", "float", "date") if th else (("int", "date") if n < 2 else (("int", "date")[sum(lens) % 2],)):
                    shp.append((ids, lens, (kd,) * n, (0,) * (n - 1) + (1,)))
    for q, name in enumerate(POINT):
        for r, s in enumerate(shp):
            if not th and name[0] == "poly" and (q + r) % 3:
                continue  # quick: a fixed third of the collections for each of the 24 polynomial configurations
            k = sum(s[1]) + s[0][0]
            for cols in ("s2r", "i2", "s3") if th or len(s[0]) < 2 else (("s2r", "s3", "i2")[k % 3], ("s3", "s2r", "s2r")[k % 3])[: 4 - len(s[0])]:
                yield "point", (name,) + s + (cols,)
        for n in (1, 2, 3):
            for N in (2, 3, 5):
                for typ in ("np", "df"):
                    yield "array", (name, n, N, typ)
    ml = 8 if th else 7
    for kind in ("int", "date") if not th else ("int", "float", "date"):
        for cols in (("s2r", "i2") if kind == "int" else ("s2r",)) if not th else ("s2r", "i2", "s3"):
            for n, idl in SER_IDS.items():
                L = range(1, ml) if n == 1 else ((2, 3, 5, 6) if n == 2 else (3, 5))
                for ids in idl:
                    for lens in itertools.product(L, repeat=n):
                        if min(lens) >= 2:
                            for d in (1, 2, 3):
                                for lag in (0, 1, 2):
                                    for fr in (1, 2):
                                        for ka in (0, 0.5, 1) if th else ((0, 0.5) if (d + lag + fr) % 2 else (1,)):
                                            yield "takens", (ids, lens, kind, cols, d, lag, fr, ka)
                        for w in (1, 2, 3, 4):
                            yield "ma", (ids, lens, kind, cols, w)
                        yield "cols_takens", (ids, lens, kind)
                        if kind != "date":
                            for (s, o, a) in FD:
                                for sp in ("dt", "val"):
                                    for kd in ("int3", "float"):
                                        yield "fd", (ids, lens, kd, cols, s, o, a, sp)
