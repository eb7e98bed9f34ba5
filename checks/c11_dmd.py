"""C11: DMD variants identify the least squares optimum of the snapshot pairs and predict its powers."""
import itertools
import numpy as np
import pandas as pd
import tscmodel as tm

PROPERTY = "C11"
BOUND = """
alphabet: every 2x2 matrix over {-1, 0, 1/2, 2} (256) and 8 special 1x1/3x3 matrices as the generating system; layouts =
{one series, two series, unsorted IDs, ragged lengths, different starts} x time axes {int, int3, float 0.1, datetime}; data exact
(x' = K x), controlled (x' = A x + B u) or arbitrary non-linear; models DMDStandard (matrix, spectral, diagonalize, generator, rank r
exact/project, sample weights, residual filter threshold/quantile/keep_n/sort), gDMDFull, DMDControl (matrix/spectral), gDMDAffine,
PyDMDWrapper, PretrainedDMD; spectral measure of rotations with period 3..7 for kernel orders 1..3. Oracle: least squares over the snapshot pairs listed by hand from the model series (minimum norm), repeated multiplication
for predictions, ResDMD residual ||(g(y) - lambda g(x))|| / ||g(x)|| over the pairs for the residual filter.
"""
V = (-1.0, 0.0, 0.5, 2.0)
NAMED = ("one", "neg", "diag3", "rot3", "jordan3", "nil3", "full3", "low3")
LAYOUTS = {
    "one": ((0,), (7,), (0,)),
    "two": ((0, 1), (4, 4), (0, 0)),
    "uns": ((5, 2), (4, 4), (0, 0)),
    "rag": ((3, 0, 7), (3, 5, 2), (0, 0, 0)),
    "off": ((2, 1, 4), (4, 3, 4), (1, 3, 0)),
}


def mat(q):
    if isinstance(q, (list, tuple)):
        return np.array([V[k] for k in q]).reshape(2, 2)
    c, s = np.cos(0.7), np.sin(0.7)
    return {
        "one": np.array([[0.5]]), "neg": np.array([[-1.5]]), "diag3": np.diag([1.0, 0.5, -0.25]),
        "rot3": np.array([[c, -s, 0], [s, c, 0], [0, 0, 0.9]]), "jordan3": np.array([[1.0, 1, 0], [0, 1, 1], [0, 0, 1]]),
        "nil3": np.array([[0.0, 1, 2], [0, 0, 3], [0, 0, 0]]), "full3": np.array([[0.2, 0.5, -0.3], [0.1, -0.4, 0.6], [0.7, 0.0, 0.3]]),
        "low3": np.array([[0.5, 0.25, 0.0], [0.0, 0.8, 0.0], [0.5, 1.05, 0.0]]),
    }[q]


def ic(p, m):
    return np.array([[1.0, -0.5, 2.0], [0.5, 1.5, -1.0], [-2.0, 0.25, 0.75]])[p % 3, :m]


def series(layout, step, m):
    """step(x, p, k) -> next state.  list over series of arrays"""
    ids, lens, offs = LAYOUTS[layout]
    out = []
    for p, n in enumerate(lens):
        xs = [ic(p, m)]
        for k in range(n - 1):
            xs.append(step(xs[-1], p, k))
        out.append(np.array(xs))
    return out


def frame(layout, axis, data, cols, drop_last=0):
    ids, lens, offs = LAYOUTS[layout]
    model = (list(cols), [(i, [(t, tuple(row)) for t, row in zip(tm.taxis(axis, n, o)[: n - drop_last], d)])
                          for i, n, o, d in zip(ids, lens, offs, data)])
    return tm.build(model)


def cols_of(m):
    return ["b", "a", "c", "d"][:m]


def nonlin(x, p, k):
    return np.roll(x, 1) * 0.6 + 0.3 * np.sin(1.7 * x + 0.4 * p) - 0.2 * k + 0.5


def pairs(data):
    X = np.vstack([d[:-1] for d in data])
    Y = np.vstack([d[1:] for d in data])
    return X, Y


def minnorm(X, Y, w=None):
    """K (column convention y = K x), least squares, minimum norm; None when numerically ambiguous"""
    if w is not None:
        X, Y = X * np.sqrt(w)[:, None], Y * np.sqrt(w)[:, None]
    U, S, Vh = np.linalg.svd(X, full_matrices=False)
    keep = S > 1e-10 * S[0]
    if S[keep].min() < 1e-3 * S[0]:
        return None, None
    K = ((Vh[keep].T / S[keep]) @ U[:, keep].T @ Y).T
    return K, int(keep.sum()) == X.shape[1]


def powers(K, n):
    out = [np.eye(len(K))]
    for _ in range(n):
        out.append(K @ out[-1])
    return out


def diagonalisable(K):
    ev, R = np.linalg.eig(K)
    return np.linalg.cond(R) < 1e5


def axis_dt(axis):
    t = tm.taxis(axis, 2, 0)
    return t[1] - t[0]


def check_labels(ctx, df, want, msg):
    got = [(int(i), tm.norm_t(t)) for i, t in zip(df.index.get_level_values(0), df.index.get_level_values(1))]
    # the order of the series in the result is not part of the property, the order in time is
    ctx.eq(sorted(got, key=lambda x: x[0]), sorted([(int(i), tm.norm_t(t)) for i, t in want], key=lambda x: x[0]), msg)


def check_predict(ctx, model, K, axis, cols, msg, tol=1e-7):
    from datafold.pcfold import InitialCondition

    m = len(K)
    x0 = np.array([ic(0, m) + 0.25, ic(1, m) - 0.5])
    P = powers(K, 4)
    ts = tm.taxis(axis, 5, 2)
    steps = [0, 1, 4]
    tv = np.array([ts[k] for k in steps])
    for ids in ((0, 1), (6, 3)):
        X_ic = InitialCondition.from_array(x0, time_value=ts[0], feature_names=pd.Index(cols), ts_ids=np.array(ids))
        got = model.predict(X_ic, time_values=tv)
        want = np.vstack([[P[k] @ x for k in steps] for x in x0])
        check_labels(ctx, got, [(i, t) for i in sorted(ids) for t in tv], f"{msg}: predicted labels")
        ctx.eq(list(got.columns), list(cols), f"{msg}: predicted columns")
        got = np.vstack([got.loc[[i]].to_numpy() for i in ids])
        ctx.close(got, want, f"{msg}: prediction is not K^n x0", rtol=tol, atol=tol)
        got1 = model.predict(X_ic)
        got1 = np.vstack([got1.loc[[i]].to_numpy() for i in ids])
        ctx.close(got1, np.vstack([[x, K @ x] for x in x0]), f"{msg}: default single step prediction", rtol=tol, atol=tol)


def check_reconstruct(ctx, model, X, data, K, msg, tol=1e-7, **kw):
    before = tm.observe(X)
    rec = model.reconstruct(X, **kw)
    ctx.eq(tm.observe(X), before, f"{msg}: reconstruct modified the data")
    P = powers(K, 8)
    want = np.vstack([[P[k] @ d[0] for k in range(len(d))] for d in data])
    check_labels(ctx, rec, list(X.index), f"{msg}: reconstructed labels")
    rec = rec.loc[X.index.unique(level=0)]
    ctx.eq(list(rec.columns), list(X.columns), f"{msg}: columns")
    ctx.close(rec.to_numpy(), want, f"{msg}: reconstruction", rtol=tol, atol=tol)


def sysdata(q, layout, kind):
    if kind == "exact":
        K = mat(q)
        m = len(K)
        return series(layout, lambda x, p, k: K @ x, m), m
    if isinstance(q, (list, tuple)) and kind == "perm":  # independent modes, residual order = permutation
        lam, noise = np.array([0.9, -0.7, 0.5, 0.3]), 0.03 * np.array(q) + 0.02
        f = np.array([1.1, 2.3, 3.7, 5.1])
        out = []
        for p, n in enumerate(LAYOUTS[layout][1]):
            n = max(n, 4)
            xs = [np.array([1.0, -0.8, 1.2, 0.9]) * (1 + 0.3 * p)]
            for k in range(n - 1):
                xs.append(lam * xs[-1] + noise * np.sin(f * (k + 1) + p * np.arange(1, 5)))
            out.append(np.array(xs))
        return out, 4
    m = int(q)
    return series(layout, nonlin, m), m


def run_ident(ctx, q, layout, axis, kind, variant):
    from datafold.dynfold import DMDStandard

    data, m = sysdata(q, layout, kind)
    cols = cols_of(m)
    X = frame(layout, axis, data, cols)
    before = tm.observe(X)
    A, B = pairs(data)
    w = None
    if variant == "weights":
        w = np.array([1.0 + (k * 5 % 7) for k in range(len(A))])
    K, full = minnorm(A, B, w)
    if K is None:
        return
    if kind == "exact" and full:
        ctx.close(K, mat(q), "oracle self check", rtol=1e-6, atol=1e-8)
    msg = f"DMDStandard {variant}"
    tol = 1e-6
    if variant == "matrix":
        model = DMDStandard(sys_mode="matrix").fit(X)
        ctx.close(model.sys_matrix_, K, f"{msg}: system matrix", rtol=tol, atol=1e-7)
    elif variant == "weights":
        model = DMDStandard(sys_mode="matrix").fit(X, sample_weights=w)
        ctx.close(model.sys_matrix_, K, f"{msg}: weighted system matrix", rtol=tol, atol=1e-7)
    elif variant in ("spectral", "diag"):
        if not diagonalisable(K):
            return
        model = DMDStandard(sys_mode="spectral", diagonalize=variant == "diag").fit(X, store_system_matrix=True)
        ctx.close(model.system_matrix_, K, f"{msg}: stored system matrix", rtol=tol, atol=1e-7)
        R, ev = model.eigenvectors_right_, model.eigenvalues_
        ctx.close(K @ R, R * ev, f"{msg}: eigenpairs", rtol=tol, atol=1e-7)
        ctx.true(np.linalg.matrix_rank(R) == m, f"{msg}: eigenvectors do not span")
        ctx.close(model.dmd_modes, R, f"{msg}: modes")
        if variant == "diag":
            ctx.close((R * ev) @ model.eigenvectors_left_, K, f"{msg}: R diag(ev) L is not the system matrix", rtol=tol, atol=1e-7)
    else:  # generator
        ev = np.linalg.eigvals(K)
        if min(abs(ev)) < 1e-3 or any(e.real < 0 and abs(e.imag) < 1e-9 for e in ev) or not full or not diagonalisable(K):
            return
        if variant == "gens":
            model = DMDStandard(sys_mode="spectral", approx_generator=True).fit(X, store_system_matrix=True)
            G = model.generator_matrix_
        else:
            model = DMDStandard(sys_mode="matrix", approx_generator=True).fit(X)
            G = model.sys_matrix_
        import scipy.linalg as sl

        dt = axis_dt(axis)
        ctx.close(sl.expm(np.asarray(G) * dt), K, f"{msg}: exp(generator dt)", rtol=tol, atol=1e-7)
        tol = 1e-5
    ctx.eq(tm.observe(X), before, f"{msg}: fit modified the data")
    ctx.eq(list(model.feature_names_in_), cols, f"{msg}: feature names")
    check_predict(ctx, model, K, axis, cols, msg, tol)
    check_reconstruct(ctx, model, X, data, K, msg, tol)
    if kind == "exact" and variant in ("matrix", "spectral") and all((d.max(axis=0) > d.min(axis=0)).all() for d in [np.vstack(data)]):
        with_score = model.score(X)
        ctx.close(with_score, 0.0, f"{msg}: score of an exact model", atol=1e-5)
    ctx.state(K, layout, axis, variant)


def run_rank(ctx, q, layout, axis, kind, r, mode):
    from datafold.dynfold import DMDStandard

    data, m = sysdata(q, layout, kind)
    cols = cols_of(m)
    X = frame(layout, axis, data, cols)
    A, B = pairs(data)
    U, S, Vh = np.linalg.svd(A.T, full_matrices=False)
    if len(S) < r or S[r - 1] < 1e-3 * S[0] or (len(S) > r and S[r] > 0.98 * S[r - 1]):
        return
    U, S, Vh = U[:, :r], S[:r], Vh[:r]
    Bm = (B.T @ Vh.T) / S
    Kt = U.T @ Bm
    if not diagonalisable(Kt):
        return
    ev = np.linalg.eigvals(Kt)
    left = np.linalg.pinv(Bm) if mode == "exact" else U.T
    lift = Bm if mode == "exact" else U
    sb = np.linalg.svd(Bm, compute_uv=False)
    if mode == "exact" and sb[-1] < 1e-3 * sb[0]:
        return
    msg = f"DMDStandard rank={r} {mode}"
    model = DMDStandard(sys_mode="spectral", rank=r, reconstruct_mode=mode).fit(X)
    ctx.close(np.sort_complex(np.round(model.eigenvalues_, 7)), np.sort_complex(np.round(ev, 7)), f"{msg}: eigenvalues", rtol=1e-5, atol=1e-6)
    from datafold.pcfold import InitialCondition

    x0 = np.array([ic(0, m) + 0.25, ic(2, m)])
    ts = tm.taxis(axis, 4, 0)
    got = model.predict(InitialCondition.from_array(x0, time_value=ts[0], feature_names=pd.Index(cols), ts_ids=np.array([4, 1])), time_values=np.array(ts))
    got = got.loc[[4, 1]]
    P = powers(Kt, 3)
    want = np.vstack([[lift @ P[k] @ (left @ x) for k in range(4)] for x in x0])
    ctx.close(got.to_numpy(), want, f"{msg}: prediction", rtol=1e-6, atol=1e-6)
    ctx.state(want)
    if kind == "exact" and r == np.linalg.matrix_rank(mat(q)) and np.allclose(B, B @ (U @ U.T)):
        # the data lie in the r-dim. subspace: reduced model reproduces the data
        rec = model.reconstruct(X)
        if np.allclose(A, A @ (U @ U.T)):
            ctx.close(rec.loc[X.index].to_numpy(), X.to_numpy(), f"{msg}: reconstruction of exactly low rank data", rtol=1e-6, atol=1e-6)


FILTERS = {
    "thr": {"threshold": None}, "float": None, "quant": {"quantile": 0.5}, "keep1": {"keep_n": 1}, "keep2s": {"keep_n": 2, "sort": True}, "keep4s": {"keep_n": 4, "sort": True},
    "thrstore": {"threshold": None, "store_residuals": True},
}


def run_residual(ctx, q, layout, kind, filt, weighted, diag):
    from datafold.dynfold import DMDStandard

    data, m = sysdata(q, layout, kind)
    cols = cols_of(m)
    X = frame(layout, "int", data, cols)
    A, B = pairs(data)
    w = np.array([1.0 + (k * 5 % 7) for k in range(len(A))]) if weighted else None
    K, full = minnorm(A, B, w)
    if K is None or not full or not diagonalisable(K):
        return
    base = DMDStandard(sys_mode="spectral", diagonalize=bool(diag))
    fp = dict(sample_weights=w) if weighted else {}
    base.fit(X, **fp)
    R, ev = base.eigenvectors_right_, base.eigenvalues_
    # the implementation measures the residual of the observables g_j(x) = v_j^T x with v_j the *right* eigenvectors
    # (for the Koopman eigenfunctions see family "resfn")
    L = R.T
    ww = np.ones(len(A)) if w is None else w
    gx, gy = A @ L.T, B @ L.T
    res = np.sqrt((ww[:, None] * abs(gy - gx * ev) ** 2).sum(0) / (ww[:, None] * abs(gx) ** 2).sum(0))
    order = np.sort(res)
    gaps = np.diff(order)
    amb = 3e-6  # sqrt of cancellation error
    f = FILTERS[filt]
    if filt in ("thr", "float", "thrstore"):
        # every threshold between two consecutive residuals and one above all
        cuts = [(a + b) / 2 for a, b in zip(order[:-1], order[1:]) if b - a > 1e-4] + [order[-1] + 1e-3]
    else:
        if (gaps < 1e-4).any():
            return
        cuts = [None]
    for cut in cuts:
        if filt == "float":
            arg = float(cut)
        else:
            arg = {k: (float(cut) if v is None else v) for k, v in f.items()}
            if arg.get("keep_n", 0) > m:
                return
        given = dict(arg) if isinstance(arg, dict) else arg
        model = DMDStandard(sys_mode="spectral", diagonalize=bool(diag), residual_filter=arg)
        for rep in range(2):
            model.fit(X, **fp)
            ctx.eq(model.get_params()["residual_filter"], given, "fit changed the parameter residual_filter")
            if cut is not None:
                keep = res <= cut
            elif filt == "quant":
                keep = res <= np.quantile(res, 0.5) + 1e-9
            else:
                keep = res <= order[arg["keep_n"] - 1] + 1e-9
            sel = np.flatnonzero(keep)
            if arg != cut and isinstance(arg, dict) and arg.get("sort"):
                sel = sel[np.argsort(res[sel])]
            ctx.close(model.eigenvalues_, ev[sel], f"residual filter {given}: kept eigenvalues (residuals {res}, all eigenvalues {ev})", rtol=1e-6, atol=1e-8)
            ctx.close(model.eigenvectors_right_, R[:, sel], "kept eigenvectors", rtol=1e-6, atol=1e-8)
            if diag:
                ctx.close(model.eigenvectors_left_, base.eigenvectors_left_[sel], "kept left eigenvectors", rtol=1e-6, atol=1e-8)
            if filt == "thrstore":
                ctx.close(model.residuals_, res, "stored residuals", rtol=1e-4, atol=amb)
                ctx.eq(model.residuals_mask_keep_, keep, "stored mask")
    if filt in ("thr", "float") and order[0] > 1e-3:
        ctx.raises(ValueError, lambda: DMDStandard(sys_mode="spectral", residual_filter=float(order[0] / 2)).fit(X, **fp), "everything filtered")
    ctx.state(res, filt)


def run_resfn(ctx, q, layout):
    """for exactly linear data every eigenfunction satisfies g(y) = lambda g(x): no component is spectral pollution"""
    from datafold.dynfold import DMDStandard

    data, m = sysdata(q, layout, "exact")
    X = frame(layout, "int", data, cols_of(m))
    K, full = minnorm(*pairs(data))
    if K is None or not full or not diagonalisable(K):
        return
    model = DMDStandard(sys_mode="spectral", residual_filter=dict(threshold=1e6, store_residuals=True)).fit(X)
    scale = 1 + np.abs(np.linalg.eigvals(K)).max()
    ctx.true((model.residuals_ < 1e-5 * scale).all(), lambda: f"residuals of exactly linear data are not zero: {model.residuals_}")


def run_pseudo(ctx, q, layout, kind, weighted):
    """pseudospectrum(z) = min_g ||(K - z) g|| / ||g|| over the span of the features"""
    from datafold.dynfold import DMDStandard

    data, m = sysdata(q, layout, kind)
    if m < 3:
        return
    X = frame(layout, "int", data, cols_of(m))
    A, B = pairs(data)
    K, full = minnorm(A, B)
    if K is None or not full or not diagonalisable(K):
        return
    zs = np.array([0.3 + 0.2j, -0.5, 1.5j, 2.0 - 1.0j])
    want = []
    Q, Rm = np.linalg.qr(A)
    for z in zs:
        want.append(np.linalg.svd((B - z * A) @ np.linalg.inv(Rm), compute_uv=False)[-1])
    for rf in (None, 1e6):
        model = DMDStandard(sys_mode="spectral", compute_pseudospectrum=True, residual_filter=rf).fit(X)
        got = model.pseudospectrum(zs.reshape(2, 2))
        ctx.close(got, np.reshape(want, (2, 2)), f"pseudospectrum (residual_filter={rf})", rtol=1e-3, atol=1e-4)
    ctx.raises((ValueError,), lambda: DMDStandard().fit(X).pseudospectrum(zs), "pseudospectrum without compute_pseudospectrum")
    ctx.state(want)


def run_measure(ctx, period, obs, order, eps):
    """spectral measure of a rotation sampled over a full period: the measure is a sum of smoothed point masses at its two angles"""
    from datafold.dynfold import DMDStandard

    T = np.array([[1.0, 0.6], [-0.3, 1.4]])
    w = 2 * np.pi / period
    M = T @ np.array([[np.cos(w), -np.sin(w)], [np.sin(w), np.cos(w)]]) @ np.linalg.inv(T)
    x = [np.array([1.0, -0.5])]
    for _ in range(2 * period):
        x.append(M @ x[-1])
    X = tm.build((["x0", "x1"], [(3, [(k, tuple(r)) for k, r in enumerate(x[: period + 1])]), (1, [(k, tuple(r)) for k, r in enumerate(x[1: period + 2])])]))
    S = np.vstack([x[:period], x[1: period + 1]])
    G = S.T @ S / (len(S) + 2)  # as in the model: normalized by the number of samples
    g = np.array(obs, float) / np.linalg.norm(obs)
    lam, V = np.linalg.eig(M.T)
    c0 = np.linalg.solve(V, g)
    wt = [abs(c0[i]) ** 2 * np.real(V[:, i].conj() @ G @ V[:, i]) for i in range(2)]
    z = [1 + 1j * (2 * j / (order + 1) - 1) for j in range(1, order + 1)]
    sig = [(1 / (1 + eps * np.conj(v)) - 1) / eps for v in z]
    rhs = np.eye(order)[:, 0]
    c = np.linalg.solve([[v**i for v in sig] for i in range(order)], rhs)
    d = np.linalg.solve([[v**i for v in z] for i in range(order)], rhs)

    def nu(t):
        out = 0.0
        for mu, m in zip(lam, wt):
            for j in range(order):
                p = np.exp(1j * t) * (1 + eps * z[j])
                out -= m * np.real(c[j] * np.conj(p) / np.conj(mu - p) + d[j] * mu / (mu - p)) / (2 * np.pi)
        return out

    if order == 1:  # bind the formula: Poisson kernel
        r = 1 / (1 + eps)
        for t in (-2.0, 0.3, 1.1):
            P = sum(m * (1 - r * r) / (1 - 2 * r * np.cos(t - np.angle(mu)) + r * r) for mu, m in zip(lam, wt)) / (2 * np.pi)
            ctx.close(nu(t), P, "harness: Poisson kernel", rtol=1e-9, atol=1e-12)
    pts = np.linspace(-3, 3, 7)
    before = tm.observe(X)
    for kw in (dict(residual_filter=1e3), dict(residual_filter=1e3, compute_pseudospectrum=True)):
        m = DMDStandard(sys_mode="spectral", **kw).fit(X)
        for o, ev in ((np.array(obs), pts), (np.array(obs)[:, None], pts), (np.array(obs, float), pts.astype(int))):
            o0, e0 = o.copy(), ev.copy()
            got = m.spectral_measure(o, order, eps, ev)
            ctx.close(got, [nu(float(t)) for t in ev], f"spectral measure period {period} order {order} eps {eps}", rtol=1e-6, atol=1e-8)
            ctx.true((o == o0).all() and (ev == e0).all(), "spectral_measure modifies its arguments")
    ctx.raises(ValueError, lambda: m.spectral_measure(np.ones(3), order, eps, pts), "observable with the wrong number of elements")
    ctx.raises(AttributeError, lambda: DMDStandard(sys_mode="spectral").fit(X).spectral_measure(np.ones(2), order, eps, pts), "no residuals")
    ctx.eq(tm.observe(X), before, "X modified")
    ctx.state("measure", period, obs, order, eps)


def run_pre(ctx, q, sys_type, mode, diag, axis):
    """model from a given system matrix"""
    import scipy.linalg
    from datafold.dynfold.dmd import PretrainedDMD

    K = mat(q)
    m = len(K)
    if mode == "spectral" and not diagonalisable(K):
        return
    cols = cols_of(m)
    X = frame("uns", axis, series("uns", lambda x, p, k: x * 0.5, m), cols)
    ids, lens, offs = LAYOUTS["uns"]
    dt = {"int": 1.0, "int3": 3.0, "float01": 0.1}[axis]
    d = PretrainedDMD.from_available_system_matrix(sys_type, mode, K.copy(), diag)
    d.fit(X)
    ctx.eq(list(d.feature_names_in_), cols, "features")
    got = d.reconstruct(X)
    step = K if sys_type == "flowmap" else scipy.linalg.expm(K * dt)
    ctx.true(got.index.equals(X.index), "labels of reconstruct")
    for p, (i, n) in enumerate(zip(ids, lens)):
        want = [ic(p, m)]
        for _ in range(n - 1):
            want.append(step @ want[-1])
        ctx.close(got.loc[[i]].to_numpy(), want, f"{q} {sys_type} {mode}: reconstruct series {i}", rtol=1e-6, atol=1e-7)
    ctx.state("pre", q, sys_type, mode, diag, axis)


def fd(d, dt):
    """second order central differences"""
    return (d[2:] - d[:-2]) / (2 * dt)


def run_gdmd(ctx, q, layout, axis, kind, variant):
    from datafold.dynfold.dmd import gDMDFull

    dt = axis_dt(axis)
    if kind == "nil":  # x(t) = (I + A t + A^2 t^2/2) x0: second order differences are exact
        A = mat("nil3") * q
        m = 3
        ids, lens, offs = LAYOUTS[layout]
        data = []
        for p, n in enumerate(lens):
            ts = [k * dt for k in range(n)]
            data.append(np.array([(np.eye(3) + A * t + A @ A * t * t / 2) @ ic(p, 3) for t in ts]))
    else:
        data, m = sysdata(q, layout, kind)
    if min(len(d) for d in data) < 3:
        return
    cols = cols_of(m)
    X = frame(layout, axis, data, cols)
    before = tm.observe(X)
    D = np.vstack([fd(d, dt) for d in data])
    K, full = minnorm(np.vstack([d[1:-1] for d in data]), D)
    if K is None:
        return
    if kind == "nil" and full:
        ctx.close(K, A, "oracle self check", rtol=1e-6, atol=1e-8)
    if variant == "matrix":
        model = gDMDFull(sys_mode="matrix").fit(X)
        ctx.close(model.sys_matrix_, K, "gDMDFull: generator", rtol=1e-6, atol=1e-6)
    else:
        if not diagonalisable(K):
            return
        model = gDMDFull(sys_mode="spectral", is_diagonalize=variant == "diag").fit(X, store_generator_matrix=True)
        ctx.close(model.generator_matrix_, K, "gDMDFull: stored generator", rtol=1e-6, atol=1e-6)
        R, ev = model.eigenvectors_right_, model.eigenvalues_
        ctx.close(K @ R, R * ev, "gDMDFull: eigenpairs", rtol=1e-6, atol=1e-6)
        if variant == "diag":
            ctx.close((R * ev) @ model.eigenvectors_left_, K, "gDMDFull: R diag L", rtol=1e-6, atol=1e-6)
    ctx.eq(tm.observe(X), before, "gDMDFull.fit modified the data")
    import scipy.linalg as sl

    E = sl.expm(K * dt)
    if abs(E).max() < 1e3:
        check_predict(ctx, model, E, axis, cols, f"gDMDFull {variant}", 1e-5)
        check_reconstruct(ctx, model, X, data, E, f"gDMDFull {variant}", 1e-5)
    ctx.state(K, layout, axis)


BMATS = {"e1": [[1.0], [0.0], [0.5]], "full": [[1.0, -0.5], [0.25, 2.0], [0.0, 1.0]]}


def uval(p, k, j):
    return [0.7, -1.1, 0.4, 1.9, -0.3, 0.85, -1.7][(3 * p + 2 * k + 5 * j + k * k) % 7]


def run_control(ctx, q, layout, axis, bq, variant):
    from datafold.dynfold.dmd import DMDControl
    from datafold.pcfold.timeseries.collection import TSCException
    from datafold.pcfold import InitialCondition

    A = mat(q)
    m = len(A)
    B = np.array(BMATS[bq])[:m]
    nu = B.shape[1]
    data = series(layout, lambda x, p, k: A @ x + B @ np.array([uval(p, k, j) for j in range(nu)]), m)
    cols, ucols = cols_of(m), ["v", "u"][:nu]
    us = [np.array([[uval(p, k, j) for j in range(nu)] for k in range(len(d) - 1)]).reshape(-1, nu) for p, d in enumerate(data)]
    X = frame(layout, axis, data, cols)
    U = frame(layout, axis, us, ucols, drop_last=1)
    bx, bu = tm.observe(X), tm.observe(U)
    P, Y = pairs(data)
    Z, full = minnorm(np.hstack([P, np.vstack(us)]), Y)
    if Z is None:
        return
    if full:
        ctx.close(Z, np.hstack([A, B]), "oracle self check", rtol=1e-6, atol=1e-7)
    Ah, Bh = Z[:, :m], Z[:, m:]
    if variant == "spectral" and not diagonalisable(Ah):
        return
    model = DMDControl(sys_mode=variant).fit(X, U=U)
    if variant == "matrix":
        ctx.close(model.sys_matrix_, Ah, "DMDControl: system matrix", rtol=1e-6, atol=1e-6)
    else:
        R, ev = model.eigenvectors_right_, model.eigenvalues_
        ctx.close(Ah @ R, R * ev, "DMDControl: eigenpairs", rtol=1e-6, atol=1e-6)
        ctx.close((R * ev) @ model.eigenvectors_left_, Ah, "DMDControl: R diag L", rtol=1e-6, atol=1e-6)
    ctx.close(model.control_matrix_, Bh, "DMDControl: control matrix", rtol=1e-6, atol=1e-6)
    ctx.eq((tm.observe(X), tm.observe(U)), (bx, bu), "DMDControl.fit modified the data")
    # reconstruct
    rec = model.reconstruct(X, U=U)
    want = []
    for d, u in zip(data, us):
        x = d[0]
        want.append(x)
        for k in range(len(u)):
            x = Ah @ x + Bh @ u[k]
            want.append(x)
    check_labels(ctx, rec, list(X.index), "DMDControl.reconstruct: labels")
    rec = rec.loc[X.index.unique(level=0)]
    ctx.close(rec.to_numpy(), np.array(want), "DMDControl.reconstruct", rtol=1e-6, atol=1e-6)
    # several initial conditions at once; the control series is given in the same and in another order of IDs
    x0 = np.array([ic(0, m), ic(1, m) + 1])
    ts = tm.taxis(axis, 4, 1)
    for ids in ((0, 1), (6, 2)):
        X_ic = InitialCondition.from_array(x0, time_value=ts[0], feature_names=pd.Index(cols), ts_ids=np.array(ids))
        uu = {i: [tuple(uval(p + 1, k + 2, j) for j in range(nu)) for k in range(3)] for p, i in enumerate(ids)}
        exp = {}
        for p, i in enumerate(ids):
            x = x0[p]
            rows = [x]
            for k in range(3):
                x = Ah @ x + Bh @ np.array(uu[i][k])
                rows.append(x)
            exp[i] = rows
        for order in (ids, ids[::-1]):
            Um = tm.build((ucols, [(i, [(t, v) for t, v in zip(ts[:3], uu[i])]) for i in order]))
            try:
                got = model.predict(X_ic, U=Um)
            except (ValueError, TSCException):
                # only the aligned order must be accepted; another order may be rejected, but never be mixed up
                ctx.true(order != ids, "DMDControl.predict rejects aligned control input")
                continue
            for i in ids:
                g = got.loc[i]
                ctx.eq([tm.norm_t(t) for t in g.index.get_level_values(-1)], [tm.norm_t(t) for t in ts], "DMDControl.predict: times")
                ctx.close(g.to_numpy(), np.array(exp[i]), f"DMDControl.predict: series {i} (X order {ids}, U order {order})", rtol=1e-6, atol=1e-6)
    # numpy control for one initial condition
    X1 = InitialCondition.from_array(x0[:1], time_value=ts[0], feature_names=pd.Index(cols), ts_ids=np.array([3]))
    un = np.array([[uval(0, k, j) for j in range(nu)] for k in range(3)])
    got = model.predict(X1, U=un, time_values=np.array(ts))
    x, rows = x0[0], [x0[0]]
    for k in range(3):
        x = Ah @ x + Bh @ un[k]
        rows.append(x)
    ctx.close(got.to_numpy(), np.array(rows), "DMDControl.predict numpy control", rtol=1e-6, atol=1e-6)
    ctx.eq([int(i) for i in got.ids], [3], "DMDControl.predict numpy control: ID")
    ctx.state(Z, layout, axis, variant)


def run_affine(ctx, q, layout, axis, nu):
    from datafold.dynfold.dmd import gDMDAffine

    m = int(q)
    data = series(layout, nonlin, m)
    if min(len(d) for d in data) < 3:
        return
    dt = axis_dt(axis)
    cols, ucols = cols_of(m), ["v", "u"][:nu]
    us = [np.array([[uval(p, k, j) for j in range(nu)] for k in range(len(d))]) for p, d in enumerate(data)]
    X, U = frame(layout, axis, data, cols), frame(layout, axis, us, ucols)
    bx, bu = tm.observe(X), tm.observe(U)
    rows, rhs = [], []
    for d, u in zip(data, us):
        g = (d[2:] - d[:-2]) / (2 * dt)
        for k in range(1, len(d) - 1):
            rows.append(np.concatenate([d[k]] + [u[k, j] * d[k] for j in range(nu)]))
            rhs.append(g[k - 1])
    rows, rhs = np.array(rows), np.array(rhs)
    Z, full = minnorm(rows, rhs)
    if Z is None:
        return
    model = gDMDAffine().fit(X, U=U)
    ctx.close(model.sys_matrix_, Z[:, :m], "gDMDAffine: system matrix", rtol=1e-5, atol=1e-6)
    want = np.stack([Z[:, m * (j + 1): m * (j + 2)] for j in range(nu)], axis=2)
    ctx.close(model.control_matrix_, want, "gDMDAffine: control tensor", rtol=1e-5, atol=1e-6)
    ctx.eq((tm.observe(X), tm.observe(U)), (bx, bu), "gDMDAffine.fit modified the data")
    ctx.state(Z, layout, axis)


def run_pydmd(ctx, q, axis, exact):
    from datafold.dynfold.dmd import PyDMDWrapper

    data, m = sysdata(q, "one", "exact")
    K, full = minnorm(*pairs(data))
    if K is None or not full or not diagonalisable(K) or min(abs(np.linalg.eigvals(K))) < 1e-3:
        return
    ev = np.linalg.eigvals(K)
    cols = cols_of(m)
    X = frame("one", axis, data, cols)
    model = PyDMDWrapper("dmd", svd_rank=-1, exact=bool(exact)).fit(X)
    check_predict(ctx, model, K, axis, cols, "PyDMDWrapper", 1e-5)
    check_reconstruct(ctx, model, X, data, K, "PyDMDWrapper", 1e-5)
    X2 = frame("two", axis, sysdata(q, "two", "exact")[0], cols)
    ctx.raises(ValueError, lambda: PyDMDWrapper("dmd").fit(X2), "PyDMD with two series")
    ctx.state(K)


def run_reject(ctx, what):
    from datafold.dynfold import DMDStandard
    from datafold.dynfold.dmd import DMDControl, PyDMDWrapper, gDMDFull

    data, m = sysdata((0, 1, 2, 3), "two", "exact")
    X = frame("two", "int", data, cols_of(2))
    if what == "irregular":
        Xi = tm.build((["a", "b"], [(0, [(t, (1.0 * t, 2.0 - t)) for t in (0, 1, 3)])]))
        for M in (DMDStandard(), gDMDFull(), PyDMDWrapper("dmd")):
            ctx.raises(Exception, lambda: M.fit(Xi), f"{type(M).__name__} irregular sampling")
    elif what == "dts":
        Xi = tm.build((["a", "b"], [(0, [(t, (1.0 * t, 2.0 - t)) for t in (0, 1, 2)]), (1, [(t, (1.0 * t, 2.0 - t)) for t in (0, 2, 4)])]))
        for M in (DMDStandard(), gDMDFull()):
            ctx.raises(Exception, lambda: M.fit(Xi), f"{type(M).__name__} series with different sampling rates")
    elif what == "frame":
        for M in (DMDStandard(), gDMDFull()):
            ctx.raises(Exception, lambda: M.fit(pd.DataFrame(X)), "DataFrame without time")
            ctx.raises(Exception, lambda: M.fit(X.to_numpy()), "array")
    elif what == "names":
        M = DMDStandard().fit(X)
        bad = X.rename(columns={"b": "z"})
        ctx.raises(ValueError, lambda: M.predict(bad.initial_states(), time_values=np.array([0, 1])), "unknown feature")
        ctx.raises(ValueError, lambda: M.reconstruct(X.loc[:, ["a", "b"]]), "permuted features")
        ctx.raises(ValueError, lambda: M.predict(X.initial_states().loc[:, ["a"]], time_values=np.array([0, 1])), "missing feature")
    elif what == "rank":
        for r in (0, 3, 2, -1):
            ctx.raises(Exception, lambda: DMDStandard(rank=r).fit(X), f"rank={r} for 2 features")
        ctx.raises(NotImplementedError, lambda: DMDStandard(rank=1, diagonalize=True).fit(X), "rank and diagonalize")
        ctx.raises(ValueError, lambda: DMDStandard(rank=1, reconstruct_mode="abc").fit(X), "reconstruct_mode")
        ctx.raises(ValueError, lambda: DMDStandard(sys_mode="matrix", residual_filter=0.1), "residual filter in matrix mode")
        ctx.raises(TypeError, lambda: DMDStandard(residual_filter="a").fit(X), "residual filter type")
        ctx.raises(ValueError, lambda: DMDStandard(residual_filter=dict(abc=1)).fit(X), "residual filter key")
        ctx.raises(Exception, lambda: gDMDFull(kwargs_fd=dict(diff_order=2)).fit(X), "diff_order")
    elif what == "unfitted":
        from sklearn.exceptions import NotFittedError

        for M in (DMDStandard(), gDMDFull()):
            ctx.raises(NotFittedError, lambda: M.predict(X.initial_states(), time_values=np.array([0, 1])), "predict before fit")
            ctx.raises(NotFittedError, lambda: M.reconstruct(X), "reconstruct before fit")
    elif what == "control":
        from datafold.pcfold.timeseries.collection import TSCException

        us = [np.array([[uval(p, k, 0)] for k in range(len(d))]) for p, d in enumerate(data)]
        Ufull = frame("two", "int", us, ["u"])
        U = frame("two", "int", [u[:-1] for u in us], ["u"], drop_last=1)
        ctx.raises((ValueError, TSCException), lambda: DMDControl().fit(X, U=Ufull), "control with last state")
        ctx.raises((ValueError, TSCException), lambda: DMDControl().fit(X, U=U.iloc[:-1]), "control sample missing")
        ctx.raises((ValueError, TSCException), lambda: DMDControl().fit(X, U=U.loc[[0]]), "control series missing")
        swapped = frame("uns", "int", [u[:-1] for u in us], ["u"], drop_last=1)
        ctx.raises((ValueError, TSCException), lambda: DMDControl().fit(X, U=swapped), "control with other IDs")
        late = U.copy()
        late.index = late.index.set_levels([1 + t for t in late.index.levels[1]], level=1)
        ctx.raises((ValueError, TSCException), lambda: DMDControl().fit(X, U=late), "control at other times")
        M = DMDControl().fit(X, U=U)
        ctx.raises((ValueError, TSCException), lambda: M.predict(X.initial_states(), U=U.loc[[0]]), "control for one of two initial conditions")
        ctx.raises((ValueError, TSCException), lambda: M.predict(X.initial_states(), U=U.rename(columns={"u": "z"})), "control name")
        ctx.raises((ValueError, TSCException), lambda: M.predict(X.initial_states().loc[[0]], U=np.ones((3, 1)), time_values=np.array([0, 1, 2])), "times do not match control")
    elif what == "post":
        M = DMDStandard(sys_mode="spectral").fit(X)
        ic_ = X.initial_states()
        C = np.array([[1.0, 2.0], [0.0, -1.0], [3.0, 0.5]])
        tv = np.array([0, 1, 3])
        ref = M.predict(ic_, time_values=tv)
        got = M.predict(ic_, time_values=tv, post_map=C, feature_columns=pd.Index(["x", "y", "z"]))
        ctx.close(got.to_numpy(), ref.to_numpy() @ C.T, "post_map")
        ctx.eq(list(got.columns), ["x", "y", "z"], "post_map columns")
        got = M.predict(ic_, time_values=tv, modes=C @ M.eigenvectors_right_, feature_columns=pd.Index(["x", "y", "z"]))
        ctx.close(got.to_numpy(), ref.to_numpy() @ C.T, "modes")
        ctx.close(M.predict(ic_, time_values=tv).to_numpy(), ref.to_numpy(), "prediction after post_map")
        ctx.raises(ValueError, lambda: M.predict(ic_, time_values=tv, post_map=C), "post_map without columns")
        ctx.raises(ValueError, lambda: M.predict(ic_, time_values=tv, post_map=C, modes=C, feature_columns=[1]), "post_map and modes")
        ctx.raises(KeyError, lambda: M.predict(ic_, time_values=tv, abc=1), "unknown predict parameter")
        Mm = DMDStandard(sys_mode="matrix").fit(X)
        ctx.raises(ValueError, lambda: Mm.predict(ic_, time_values=tv, post_map=C, feature_columns=pd.Index(["x", "y", "z"])), "post_map in matrix mode")
        ctx.raises(AttributeError, lambda: Mm.dmd_modes, "modes in matrix mode")
    elif what == "pre":
        from datafold.dynfold.dmd import PretrainedDMD

        K = np.array([[0.5, 1.0], [0.0, 0.0]])
        for mode, diag in itertools.product(("matrix", "spectral"), (False, True)):
            M = PretrainedDMD.from_available_system_matrix("flowmap", mode, K, diag)
            M.fit(X)
            check_predict(ctx, M, K, "int", cols_of(2), f"PretrainedDMD {mode} {diag}")
    ctx.state(what)


RUN = {"ident": run_ident, "rank": run_rank, "res": run_residual, "resfn": run_resfn, "pseudo": run_pseudo, "measure": run_measure, "pre": run_pre, "gdmd": run_gdmd, "ctrl": run_control,
       "affine": run_affine, "pydmd": run_pydmd, "rej": run_reject}
VAR = ("matrix", "spectral", "diag", "weights", "gens", "genm")


def cases(tier):
    th = tier == "thorough"
    allm = list(itertools.product(range(4), repeat=4))
    for what in ("irregular", "dts", "frame", "names", "rank", "unfitted", "control", "post", "pre"):
        yield "rej", (what,)
    for i, q in enumerate(allm):
        for v in VAR:
            if not th and v in ("weights", "genm") and i % 2:
                continue
            for lay in (LAYOUTS if th else [list(LAYOUTS)[i % 5]]):
                yield "ident", (list(q), lay, "int", "exact", v)
    for q in NAMED:
        for lay, ax, v in itertools.product(LAYOUTS, ("int", "int3", "float01", "date") if th else ("int3", "float01"), VAR):
            if ax == "date" and v.startswith("gen"):
                continue
            yield "ident", (q, lay, ax, "exact", v)
    for q in (1, 2, 3):
        for lay, ax, v in itertools.product(LAYOUTS, ("int", "float01", "date"), VAR[:4]):
            yield "ident", (q, lay, ax, "nl", v)
    for q, lay, mode in itertools.product((2, 3), LAYOUTS, ("exact", "project")):
        for r in range(1, q):
            for ax in ("int", "date"):
                yield "rank", (q, lay, ax, "nl", r, mode)
    for q, lay, mode, r in itertools.product(("low3", "full3", "diag3", "rot3", "jordan3"), LAYOUTS, ("exact", "project"), (1, 2)):
        yield "rank", (q, lay, "float01", "exact", r, mode)
    for q, lay, f, w, d in itertools.product((2, 3), LAYOUTS, FILTERS, (0, 1), (0, 1)):
        yield "res", (q, lay, "nl", f, w, d)
    for q, lay, f, w in itertools.product(itertools.permutations(range(4)), ("one", "uns"), ("thr", "quant", "keep2s", "keep4s"), (0, 1)):
        if th or (f == "keep4s" or w == 0):
            yield "res", (list(q), lay, "perm", f, w, 1)
    for q, lay, f in itertools.product(("diag3", "full3", "rot3"), ("two", "rag"), ("thr", "thrstore")):
        yield "res", (q, lay, "exact", f, 0, 0)
    for q in ("diag3", "full3", "rot3"):
        yield "resfn", (q, "two")
    for period, obs, order, eps in itertools.product((3, 4, 5, 7), ([1.0, 0.0], [2, -1], [0.5, 3.0]), (1, 2, 3) if not th else (1, 2, 3, 4, 5), (0.1, 0.3)):
        yield "measure", (period, obs, order, eps)
    for q, st, mode, diag, ax in itertools.product((("neg", "diag3", "rot3", "jordan3", "full3", "low3")), ("flowmap", "differential"), ("matrix", "spectral"), (True, False), ("int", "float01")):
        if diag or mode == "spectral":
            yield "pre", (q, st, mode, diag, ax)
    for lay, w in itertools.product(LAYOUTS, (0,)):
        yield "pseudo", (3, lay, "nl", w)
    for q in (0.25, 1.0, -0.5):
        for lay, ax, v in itertools.product(LAYOUTS, ("int", "int3", "float01", "float"), ("matrix", "spectral", "diag")):
            yield "gdmd", (q, lay, ax, "nil", v)
    for q in (1, 2, 3):
        for lay, ax, v in itertools.product(LAYOUTS, ("int", "float01"), ("matrix", "spectral", "diag")):
            yield "gdmd", (q, lay, ax, "nl", v)
    for i, q in enumerate(allm):
        for b in BMATS:
            for v in ("matrix", "spectral"):
                for lay in (LAYOUTS if th else [list(LAYOUTS)[i % 5]] if (v == "matrix") == ((i + (b == "full")) % 2 == 0) else []):
                    yield "ctrl", (list(q), lay, "int", b, v)
    for q, lay, ax, b, v in itertools.product(("one", "diag3", "full3", "low3"), ("two", "rag", "off"), ("int3", "float01", "date"), BMATS, ("matrix", "spectral")):
        yield "ctrl", (q, lay, ax, b, v)
    for q, lay, ax, nu in itertools.product((1, 2, 3), LAYOUTS, ("int", "int3", "float01"), (1, 2)):
        yield "affine", (q, lay, ax, nu)
    for i, q in enumerate(allm):
        if th or i % 4 == 1:
            yield "pydmd", (list(q), "int", i % 2)
    for q in ("one", "neg", "diag3", "rot3", "full3"):
        yield "pydmd", (q, "float01", 1)
