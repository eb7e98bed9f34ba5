"""C22: jointly smooth functions and the local regression selection satisfy their definitions."""
import itertools
import math
import numpy as np
import pandas as pd
import tscmodel as tm

PROPERTY = "C22"
BOUND = """
jointly smooth functions: every choice of 5 (6) samples out of an 8-point data set of 3 features (order kept, and one reordering) x
splits {2 disjoint, 2 overlapping, index lists, 3 splits, 4 splits} x kernel eigenvectors 1..4 x functions 1..6 (also more than available)
x {numpy, DataFrame, collection of one or two series} x kernels {gaussian, inverse multiquadric, gaussian with cut-off} x eigenvalue
cut-off; out-of-sample batches of 1-3 points, coincident and new; all orders of a batch. Local regression: every sequence of 1-3 (4)
columns after a constant column from 6 functions on 5 or 8 samples x strategy x dimension x threshold x bandwidth {median, mean} x eps scale
{3, 1} x type x subsampling. Oracle: eigenvectors of the sum of the orthogonal projections on the leading kernel eigenspaces, the
Nystroem formula, weighted least squares point by point.
"""
P8 = np.array([[0, 0, 0.], [1, .5, 2], [2, 1, 1], [3, 3, 3], [4.5, 2, 0], [5, 1, 2.5], [2.5, 4, 4], [0.5, 3, 1.5]])
NEW = np.array([[0.25, 0.4, 0.3], [3.2, 2.5, 2.0], [2, 1, 1]])
SPLITS = {
    "dis": (((0,), "s"), ((1, 2), "s")),
    "over": (((0, 1), "s"), ((1, 2), "s")),
    "list": (((0, 2), "l"), ((2, 1), "a")),
    "three": (((0,), "s"), ((1,), "s"), ((2,), "s")),
    "four": (((0,), "s"), ((1, 2), "s"), ((2,), "l"), ((0, 2), "a")),
}


def idx(cols, how):
    if how == "s":
        return slice(cols[0], cols[-1] + 1)
    return list(cols) if how == "l" else np.array(cols)


def kern(name):
    from datafold.pcfold.kernels import GaussianKernel, InverseMultiquadricKernel
    if name == "gauss":
        return GaussianKernel(0.7)
    if name == "imq":
        return InverseMultiquadricKernel(0.5)
    return GaussianKernel(0.7, distance=dict(cut_off=2.5))


def kfun(name, a, b):
    s = float(sum((x - y) ** 2 for x, y in zip(a, b)))
    if name == "imq":
        return 1 / math.sqrt(s / (2 * 0.5) + 1)
    if name == "cut" and math.sqrt(s) > 2.5:
        return 0.0
    return math.exp(-s / (2 * 0.7))


def kmat(name, Q, X, cols):
    return np.array([[kfun(name, q[list(cols)], x[list(cols)]) for x in X] for q in Q])


def wrap(kind, X):
    from datafold.pcfold import TSCDataFrame
    n = len(X)
    if kind == "np":
        return X.copy()
    if kind == "df":
        return pd.DataFrame(X, index=[f"r{(3 * i) % n}{i}" for i in range(n)], columns=["a", "b", "c"][:X.shape[1]])
    sizes = [n] if kind == "tsc1" else [n // 2, n - n // 2]
    ids = sum([[7 - k] * s for k, s in enumerate(sizes)], [])
    ids = sorted(ids)
    t = []
    for i in sorted(set(ids)):
        t += list(range(ids.count(i)))
    ix = pd.MultiIndex.from_arrays([ids, t])
    return TSCDataFrame(pd.DataFrame(X, index=ix, columns=["a", "b", "c"][:X.shape[1]]))


def c_jsf(ctx, rows, sp, ne, nf, kind, kn, cut):
    from datafold.dynfold.jsf import JointlySmoothFunctions
    from datafold.pcfold import TSCDataFrame
    X = P8[list(rows)]
    n = len(X)
    spl = SPLITS[sp]
    pinvs, projs, evals = [], [], []
    for cols, how in spl:
        K = kmat(kn, X, X, cols)
        w, U = np.linalg.eigh(K)
        w, U = w[::-1], U[:, ::-1]
        if w[ne - 1] < 1e-4 or (ne < n and w[ne - 1] - w[ne] < 1e-3) or np.abs(w[:ne] - cut).min() < 1e-3:
            ctx.state(("skip", rows, sp, ne))
            return  # ill-conditioned input: the result is not determined
        m = int((w[:ne] > cut).sum())
        if m == 0:
            return
        projs.append(U[:, :m] @ U[:, :m].T)
        pinvs.append(U[:, :m] @ np.diag(1 / w[:m]) @ U[:, :m].T)
        evals.append(w[:m])
    ctx.step()
    D = wrap(kind, X)
    mk = lambda: JointlySmoothFunctions([(f"k{i}", kern(kn), idx(*s)) for i, s in enumerate(spl)], n_kernel_eigenvectors=ne,
                                        n_jointly_smooth_functions=nf, kernel_eigenvalue_cut_off=cut)
    model = mk()
    F0 = model.fit_transform(D)
    F = np.asarray(F0)
    ms = [len(e) for e in evals]
    want = min([nf] + ms) if len(spl) == 2 else min(nf, sum(ms), n)
    ctx.eq(F.shape, (n, want), "shape of the jointly smooth functions")
    S = sum(projs)
    top = np.linalg.eigvalsh(S)[::-1]
    for i, e in enumerate(evals):
        ctx.close(np.asarray(model.kernel_eigenvalues_[f"k{i}"]), e, "kernel eigenvalues of the split", 1e-7, 1e-9)
        W = np.asarray(model.kernel_eigenvectors_[f"k{i}"])
        ctx.close(W @ W.T, projs[i], "kernel eigenvectors of the split span the leading eigenspace", 1e-6, 1e-7)
    if len(spl) > 2 and top[want - 1] < 1e-4:
        return
    ctx.close(F.T @ F, np.eye(want), "jointly smooth functions are orthonormal", 1e-6, 1e-6)
    ctx.close(F.T @ S @ F, np.diag(top[:want]), "jointly smooth functions maximise the joint smoothness", 1e-6, 1e-6)
    ev = np.asarray(model.eigenvalues_)
    ctx.eq(ev.shape, (want,), "one eigenvalue per function")
    ctx.close(ev, top[:want] - 1 if len(spl) == 2 else np.sqrt(top[:want]), "eigenvalues of the functions", 1e-6, 1e-6)
    ctx.close(float(model.score_(D, None)), float(top[:want].sum()), "score is the sum of the truncated energies", 1e-6, 1e-6)
    ctx.eq(list(model.get_feature_names_out()), [f"jsf{i}" for i in range(want)], "feature names")
    Ws = [np.asarray(model.kernel_eigenvectors_[f"k{i}"]) for i in range(len(spl))]
    rng = np.random.default_rng(1)
    noisy = Ws[-1].copy()
    rng.shuffle(noisy)
    M = Ws[0].T @ noisy if len(spl) == 2 else np.column_stack(Ws[:-1] + [noisy])
    if min(M.shape) >= 3:
        ctx.close(float(model.compute_E0()), (1 + np.linalg.svd(M, compute_uv=False)[2]) / 2, "threshold from the noisy split", 1e-6, 1e-8)

    def oracle(Q):
        return sum(kmat(kn, Q, X, cols) @ pv @ F for (cols, _), pv in zip(spl, pinvs)) / len(spl)
    for Q in [X, NEW, NEW[:1], NEW[[2, 0]], NEW[[1, 2, 0]]]:
        ctx.step()
        DQ = wrap("np" if kind == "np" else ("df" if kind == "df" else "tsc1"), Q)
        if kind in ("tsc1", "tsc2") and len(Q) == 1:
            continue
        got = model.transform(DQ)
        ctx.close(np.asarray(got), oracle(Q), "out-of-sample functions (Nystroem)", 1e-5, 1e-5)
        ctx.eq(type(got).__name__, type(DQ).__name__, "type of transform")
        if kind != "np":
            ctx.eq(list(got.index), list(DQ.index), "index of transform")
            ctx.eq(list(got.columns), [f"jsf{i}" for i in range(want)], "columns of transform")
    ctx.eq(type(F0).__name__, type(D).__name__, "type of fit_transform")
    if kind != "np":
        ctx.eq(list(F0.index), list(D.index), "index of fit_transform")
        ctx.eq(list(F0.columns), [f"jsf{i}" for i in range(want)], "columns of fit_transform")
    G = mk().fit(D)
    G = np.asarray(G.jointly_smooth_vectors_)
    ctx.close(G.T @ S @ G, np.diag(top[:want]), "fit and fit_transform agree (up to the sign of a function)", 1e-6, 1e-6)
    ctx.close(np.asarray(D), X, "fit does not change the data")
    ctx.state(("jsf", rows, sp, ne, nf, kind, kn, cut))


def c_bad(ctx, which):
    from datafold.dynfold.jsf import JointlySmoothFunctions
    from datafold.dynfold import LocalRegressionSelection
    ctx.step()
    k = kern("gauss")
    ok = [("a", k, slice(0, 1)), ("b", k, slice(1, 3))]
    if which == "one":
        f = lambda: JointlySmoothFunctions(ok[:1], n_kernel_eigenvectors=2).fit(P8)
        ctx.raises(ValueError, f, "one split only")
    elif which == "dup":
        ctx.raises(ValueError, lambda: JointlySmoothFunctions([ok[0], ("a", k, slice(1, 3))], n_kernel_eigenvectors=2).fit(P8), "duplicate split names")
    elif which == "few":
        ctx.raises(ValueError, lambda: JointlySmoothFunctions(ok, n_kernel_eigenvectors=8).fit(P8), "too few samples")
    elif which == "cols":
        m = JointlySmoothFunctions(ok, n_kernel_eigenvectors=3, n_jointly_smooth_functions=2).fit(P8)
        ctx.raises(ValueError, lambda: m.transform(P8[:, :2]), "wrong number of features")
    elif which == "dfcols":
        m = JointlySmoothFunctions(ok, n_kernel_eigenvectors=3, n_jointly_smooth_functions=2).fit(wrap("df", P8))
        ctx.raises(ValueError, lambda: m.transform(wrap("df", P8)[["c", "b", "a"]]), "reordered features")
    elif which == "lrsdim":
        ctx.raises(ValueError, lambda: LocalRegressionSelection(intrinsic_dim=3).fit(P8), "dimension too large")
    elif which == "lrsthr":
        ctx.raises(ValueError, lambda: LocalRegressionSelection(strategy="threshold", regress_threshold=1.0).fit(P8), "threshold out of range")
    elif which == "lrsone":
        ctx.raises(ValueError, lambda: LocalRegressionSelection().fit(P8[:, :1]), "single eigenvector")
    ctx.state(which)


FUN = {
    "t": lambda t: t, "t2": lambda t: t * t - 0.3, "lin": lambda t: 2 * t + 0.5, "alt": lambda t: math.cos(7 * t),
    "cub": lambda t: t ** 3 - 0.4 * t, "step": lambda t: (1.0 if t > 0.1 else -1.0),
}


def wls_residual(dom, target, eps_scale, bw):
    """local linear regression residual, Eq. 11-12 of Dsilva et al. (2018); None if not determined numerically"""
    n, d = dom.shape
    D2 = np.array([[float(sum((dom[i, c] - dom[j, c]) ** 2 for c in range(d))) for j in range(n)] for i in range(n)])
    eps = (np.median(D2) if bw == "median" else np.mean(D2)) / eps_scale
    if eps == 0:
        return None
    err = 0.0
    for i in range(n):
        wgt = np.exp(-D2[i] / eps)
        A = np.array([[1.0] + [dom[j, c] - dom[i, c] for c in range(d)] for j in range(n)])
        N = sum(wgt[j] * np.outer(A[j], A[j]) for j in range(n))
        r = sum(wgt[j] * A[j] * target[j] for j in range(n))
        w, U = np.linalg.eigh(N)
        ratio = w / w.max()
        if np.any((ratio > 1e-8) & (ratio < 1e-4)):
            return None
        inv = np.array([0.0 if q < 1e-6 else 1 / x for q, x in zip(ratio, w)])
        coef = U @ (inv * (U.T @ r))
        err += (target[i] - coef[0]) ** 2
    return math.sqrt(err / sum(x * x for x in target))


def c_lrs(ctx, n, cols, bw, eps_scale, kind):
    from datafold.dynfold import LocalRegressionSelection
    ts = [(-0.9 + 1.8 * i / (n - 1)) + 0.03 * (i % 3) for i in range(n)]
    X = np.array([[1 / math.sqrt(n)] + [FUN[c](t) for c in cols] for t in ts])
    m = X.shape[1]
    want = [None, 1.0] + [wls_residual(X[:, 1:i], X[:, i], eps_scale, bw) for i in range(2, m)]
    D = wrap("np", X) if kind == "np" else None
    if kind != "np":
        names = [f"e{i}" for i in range(m)]
        base = wrap(kind, np.zeros((n, 1)))
        D = type(base)(pd.DataFrame(X, index=base.index, columns=names))
    known = [i for i in range(2, m) if want[i] is not None]
    confs = [dict(strategy="dim", intrinsic_dim=d) for d in range(1, m)] + [dict(strategy="threshold", regress_threshold=t) for t in (0.05, 0.3, 0.9)]
    for conf in confs:
        for sub in (None, n):
            if sub and conf.get("intrinsic_dim", 2) != 2:
                continue
            ctx.step()
            kw = dict(conf, bandwidth_type=bw, eps_med_scale=eps_scale)
            if sub:
                kw.update(n_subsample=sub, random_state=3)
            l = LocalRegressionSelection(**kw).fit(D)
            res = np.asarray(l.residuals_)
            ctx.eq(res.shape, (m,), "one residual per eigenvector")
            ctx.true(math.isnan(res[0]) and res[1] == 1.0, "constant eigenvector is not judged, the first is always new")
            for i in known:
                ctx.close(float(res[i]), want[i], f"residual of eigenvector {i}", 1e-5, 1e-6)
            sel = list(map(int, l.evec_indices_))
            ctx.eq(sel, sorted(set(sel)), "selected indices sorted and unique")
            ctx.true(0 not in sel, "constant eigenvector is not selected")
            if conf["strategy"] == "dim":
                ctx.eq(len(sel), conf["intrinsic_dim"], "number of selected eigenvectors")
                rest = [i for i in range(1, m) if i not in sel]
                if conf["intrinsic_dim"] == 1:
                    ctx.eq(sel, [1], "the first non-constant eigenvector")
                elif rest:
                    ctx.true(min(res[sel]) >= max(res[rest]), "largest residuals selected")
            else:
                ctx.eq(sel, [i for i in range(1, m) if res[i] > conf["regress_threshold"]], "eigenvectors above the threshold")
            got = l.transform(D)
            ctx.close(np.asarray(got), X[:, sel], "transform selects the columns")
            ctx.eq(type(got).__name__, type(D).__name__, "type of transform")
            if kind != "np":
                ctx.eq(list(got.columns), [names[i] for i in sel], "names of the selected columns")
                ctx.eq(list(got.index), list(D.index), "index kept")
            ctx.eq(list(l.get_feature_names_out()), [names[i] if kind != "np" else str(i) for i in sel], "feature names")
            ctx.close(np.asarray(D), X, "data not changed")
    ctx.state(("lrs", n, cols, bw, eps_scale, kind))


def c_sub(ctx, n, k, seed, kind):
    """the selection on a subsample is the selection of the subsample, and independent of the container type"""
    from datafold.dynfold import LocalRegressionSelection
    ctx.step()
    ts = [(-0.9 + 1.8 * i / (n - 1)) + 0.03 * (i % 3) for i in range(n)]
    X = np.array([[1.0] + [FUN[c](t) for c in ("t", "alt", "t2")] for t in ts])
    base = wrap(kind, np.zeros((n, 1)))
    D = X if kind == "np" else type(base)(pd.DataFrame(X, index=base.index, columns=list("wxyz")))
    l = LocalRegressionSelection(n_subsample=k, random_state=seed).fit(D)
    found = False
    for rows in itertools.combinations(range(n), k):
        Y = X[list(rows)]
        w = [wls_residual(Y[:, 1:i], Y[:, i], 3, "median") for i in (2, 3)]
        if all(x is None or abs(x - r) < 1e-5 for x, r in zip(w, l.residuals_[2:])):
            found = True
            break
    ctx.true(found, "residuals are those of a subsample of the requested size")
    l2 = LocalRegressionSelection(n_subsample=k, random_state=seed).fit(D)
    ctx.close(l2.residuals_[2:], l.residuals_[2:], "same seed, same result")
    ctx.eq(np.asarray(l.transform(D)).shape, (n, 2), "all samples are transformed")
    ctx.state(("sub", n, k, seed, kind))


def cases(tier):
    deep = tier != "quick"
    for w in ("one", "dup", "few", "cols", "dfcols", "lrsdim", "lrsthr", "lrsone"):
        yield "bad", (w,)
    subs = list(itertools.combinations(range(8), 6)) + [(7, 2, 5, 0, 3, 6)]
    if deep:
        subs += list(itertools.combinations(range(8), 5)) + list(itertools.combinations(range(8), 7)) + list(itertools.permutations((0, 3, 4, 5, 6)))
    for s_i, rows in enumerate(subs):
        for sp in SPLITS:
            for ne in (1, 2, 3, 4):
                for nf in (1, 2, 3, 4, 6, 9):
                    if not deep and ((s_i % 4 and nf in (4, 9)) or (s_i % 3 and (s_i + ne + nf) % 2)):
                        continue
                    for kind, kn, cut in ([("np", "gauss", 0)] if s_i % 3 else [("np", "gauss", 0), ("tsc2", "gauss", 0), ("df", "imq", 0), ("tsc1", "gauss", 0.6), ("np", "imq", 0.3), ("np", "cut", 0)]):
                        yield "jsf", (rows, sp, ne, nf, kind, kn, cut)
    for n in (5, 8):
        for L in ((1, 2, 3) if not deep else (1, 2, 3, 4)):
            for cols in itertools.permutations(FUN, L):
                for bw, es, kind in ([("median", 3, "np"), ("mean", 1, "tsc2")] if L < 3 or deep else [("median", 3, "df")]):
                    yield "lrs", (n, cols, bw, es, kind)
    for n, k in ((5, 4), (6, 4), (6, 5)):
        for seed in range(4 if not deep else 20):
            for kind in ("np", "df", "tsc1"):
                yield "sub", (n, k, seed, kind)


RUN = {"jsf": c_jsf, "bad": c_bad, "lrs": c_lrs, "sub": c_sub}
