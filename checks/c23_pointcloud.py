"""C23: point cloud container, parameter estimation and matrix helpers."""
import copy
import itertools
import math
import pickle
import numpy as np
import pandas as pd
import scipy.sparse

PROPERTY = "C23"
BOUND = """
PCManifold: every sequence of up to 3 operations {slice, index array, copy, deepcopy, pickle, view, arithmetic} on 4 point clouds x 5
distance settings (cut-off, minimum neighbours, backend), setting the cut-off of every object of the history. Subsampling and outlier
removal: every 1D point cloud of 2-5 (6) samples on {0..3} x block size x distance (also exactly on the boundary, infinite) x minimum.
Cut-off estimation: every spacing pattern {1, 3}^9 (10 points, 512 patterns; 3 spacings thorough) x k 2..12 x subsample sizes x seeds.
Helpers: every 2x2 and 2x3 matrix over {0, 1, 2} dense and sparse (with stored zeros) x diagonals. Oracle: Python loops.
"""
CL = [[(0, 0), (1, 0), (0, 2), (3, 3)], [(0, 0), (0, 0), (1, 1), (2, 0), (5, 1)], [(0,), (1,), (3,), (6,)], [(1,), (1,), (1,)]]
KW = [None, {}, dict(cut_off=1.5), dict(cut_off=2.0, backend="brute"), dict(cut_off=1.2, k=2, backend="scipy.kdtree"), dict(backend="brute"), dict(cut_off=2.5, backend="scipy.kdtree")]
OPS = ("head", "mask", "copy", "deepcopy", "pickle", "view", "arith", "setcut", "kernel")


def dist(a, b):
    return math.sqrt(float(sum((x - y) ** 2 for x, y in zip(a, b))))


def want_dist(X, Y, kw):
    kw = kw or {}
    c = kw.get("cut_off", math.inf)
    out = []
    for y in Y:
        row = [dist(y, x) for x in X]
        keep = [d <= c for d in row]
        out.append([d if q else 0.0 for d, q in zip(row, keep)])
    return np.array(out)


def dense(M):
    return np.asarray(M.todense()) if scipy.sparse.issparse(M) else np.asarray(M)


def c_pcm(ctx, ci, ki, ops, pos):
    from datafold.pcfold import PCManifold, GaussianKernel
    X = np.array(CL[ci], dtype=float)
    kw = copy.deepcopy(KW[ki])
    ker = GaussianKernel(0.8)
    p = PCManifold(X, kernel=ker, dist_kwargs=kw)
    objs = [(p, X, dict(kw or {}))]
    for op in ops:
        ctx.step()
        q, A, s = objs[pos % len(objs)] if op == "setcut" else objs[-1]
        if op == "head":
            objs.append((q[:2], A[:2], dict(s)))
        elif op == "mask":
            objs.append((q[[1, 0]], A[[1, 0]], dict(s)))
        elif op == "copy":
            objs.append((q.copy(), A, dict(s)))
        elif op == "deepcopy":
            objs.append((copy.deepcopy(q), A, dict(s)))
        elif op == "pickle":
            objs.append((pickle.loads(pickle.dumps(q)), A, dict(s)))
        elif op == "view":
            objs.append((q.view(), A, dict(s)))
        elif op == "arith":
            objs.append((q * 2 + 1, A * 2 + 1, dict(s)))
        elif op == "kernel":
            objs.append((PCManifold(q, kernel=GaussianKernel(2.0)), A, {}))
        elif op == "setcut":
            q.cut_off = 1.1
            s["cut_off"] = 1.1
        for o, A, s in objs:
            ctx.eq(type(o).__name__, "PCManifold", "type after an operation")
            ctx.close(np.asarray(o), A, "points after an operation")
            ctx.eq(float(o.cut_off), float(s.get("cut_off", math.inf)), "cut-off of each object is its own")
            D = o.compute_distance_matrix()
            if s.get("k"):  # ties: any of the nearest; decided in C17
                from datafold.pcfold.distance import compute_distance_matrix
                ctx.close(dense(D), dense(compute_distance_matrix(np.asarray(A), metric="euclidean", **s)), "distance matrix uses the distance settings")
            else:
                ctx.close(dense(D), want_dist(A, A, s), "distance matrix uses the distance settings", 1e-6, 1e-6)
                Y = A[:1] + 0.25
                ctx.close(dense(o.compute_distance_matrix(Y)), want_dist(A, Y, s), "distance matrix to query points", 1e-6, 1e-6)
            eps = o.kernel.epsilon
            ctx.close(dense(o.compute_kernel_matrix()), np.array([[math.exp(-dist(a, b) ** 2 / (2 * eps)) for b in A] for a in A]), "kernel matrix", 1e-9, 1e-12)
            ctx.close(dense(o.compute_kernel_matrix(A[:1] + 1)), np.array([[math.exp(-dist(a, b + 0) ** 2 / (2 * eps)) for b in A] for a in A[:1] + 1]), "kernel matrix of query points", 1e-9, 1e-12)
    ctx.eq(kw, KW[ki], "the settings of the caller are not changed")
    ctx.close(X, np.array(CL[ci], dtype=float), "the data of the caller are not changed")
    ctx.state(("pcm", ci, ki, ops, pos))


def c_badpcm(ctx, which):
    from datafold.pcfold import PCManifold
    from datafold.pcfold.pointcloud import pcm_remove_outlier, pcm_subsample
    from datafold.pcfold.estimators import estimate_cutoff
    ctx.step()
    X = np.arange(12.0)[:, None]
    p = PCManifold(X)
    f = {
        "nan": (ValueError, lambda: PCManifold(np.array([[1.0], [np.nan]]))),
        "inf": (ValueError, lambda: PCManifold(np.array([[1.0], [np.inf]]))),
        "1d": (ValueError, lambda: PCManifold(np.arange(3.0))),
        "empty": (ValueError, lambda: PCManifold(np.zeros((0, 2)))),
        "str": (ValueError, lambda: PCManifold(np.array([["a"]]))),
        "kw": (TypeError, lambda: PCManifold(X, dist_kwargs=[1])),
        "cut0": (ValueError, lambda: setattr(p, "cut_off", 0)),
        "k0": (ValueError, lambda: pcm_remove_outlier(p, 0, 1.0)),
        "kf": (ValueError, lambda: pcm_remove_outlier(p, 1.5, 1.0)),
        "sub": (ValueError, lambda: pcm_subsample(p, n_samples=3)),
        "ek1": (ValueError, lambda: estimate_cutoff(X, k=1)),
        "ek0": (ValueError, lambda: estimate_cutoff(X, k=0)),
        "ekf": (ValueError, lambda: estimate_cutoff(X, k=2.5)),
    }[which]
    ctx.raises(f[0], f[1], which)
    ctx.state(which)


def c_sub(ctx, vals, ns, md, ma):
    from datafold.pcfold import PCManifold, GaussianKernel
    from datafold.pcfold.pointcloud import pcm_subsample
    ctx.step()
    X = np.array([[float(v), 0.5] for v in vals])
    n = len(X)
    if md is None:
        p = PCManifold(X, GaussianKernel(0.4), dist_kwargs=dict(cut_off=0.75))
        got, ind = pcm_subsample(p, n_samples=ns, min_added_per_iteration=ma)
        md = 1.5
    else:
        p = PCManifold(X, GaussianKernel(0.4))
        got, ind = pcm_subsample(p, n_samples=ns, min_distance=md, min_added_per_iteration=ma)
    ind = list(map(int, ind))
    ctx.eq(len(set(ind)), len(ind), "indices are unique")
    ctx.true(all(0 <= i < n for i in ind) and ind, "indices are valid")
    ctx.close(np.asarray(got), X[ind], "points belong to the indices")
    ctx.eq(type(got).__name__, "PCManifold", "type")
    ctx.eq(got.kernel.epsilon, 0.4, "kernel is kept")
    ctx.true(got.kernel is not p.kernel, "kernel is a copy")
    nb = n // ns + 1
    first = -(-n // nb)
    ctx.true(len(ind) >= first, "the first block is always selected")
    if ma == 0:
        for i in range(n):
            ctx.true(any(dist(X[i], X[j]) <= md for j in ind), f"sample {i} is represented within the distance")
    diam = max(dist(a, b) for a in X for b in X)
    if md > diam:
        ctx.eq(len(ind), first, "no further sample is needed")
    # samples of later blocks are only selected if they are farther than the distance from the previous blocks
    for pos, i in enumerate(ind):
        if pos >= first:
            ctx.true(all(dist(X[i], X[j]) > md for j in ind[:first]), "only samples that are not represented are added")
    ctx.close(np.asarray(p), X, "point cloud not changed")
    ctx.state(("sub", vals, ns, md, ma))


def c_out(ctx, vals, kmin, co):
    from datafold.pcfold import PCManifold, GaussianKernel
    from datafold.pcfold.pointcloud import pcm_remove_outlier
    ctx.step()
    co = math.inf if co is None else co
    X = np.array([[float(v), 0.5] for v in vals])
    p = PCManifold(X, GaussianKernel(0.4), dist_kwargs=dict(cut_off=7.0))
    new, removed = pcm_remove_outlier(p, kmin, co)
    keep = [i for i in range(len(X)) if sum(dist(X[i], x) <= co for x in X) >= kmin]
    ctx.eq(list(map(int, removed)), [i for i in range(len(X)) if i not in keep], "removed samples have too few points in range")
    ctx.close(np.asarray(new), X[keep], "remaining points")
    ctx.eq((type(new).__name__, new.cut_off, new.kernel.epsilon), ("PCManifold", 7.0, 0.4), "settings kept")
    ctx.state(("out", vals, kmin, co))


def c_cut(ctx, gaps, k):
    from datafold.pcfold import PCManifold, GaussianKernel
    from datafold.pcfold.estimators import estimate_cutoff, estimate_scale
    X = np.cumsum([0.0] + [float(g) for g in gaps])[:, None]
    n = len(X)
    D = np.array([[dist(a, b) for b in X] for a in X])
    if n < 10:
        ctx.step()
        ctx.close(estimate_cutoff(X, k=k), D.max(), "few points: largest distance")
        ctx.state(("cut", gaps, k))
        return
    kth = sorted(sorted(row)[min(k, n) - 1] for row in D)
    full = estimate_cutoff(X, k=k)
    ctx.step()
    ctx.close(full, kth[-1], "cut-off is the largest distance to the k-th nearest neighbour", 1e-5, 1e-5)
    ctx.true(isinstance(full, float), "returns a float")
    if k <= n:
        ctx.close(estimate_cutoff(X, k=k, distance_matrix=D.copy()), kth[-1], "pre-computed distances")
    for ns in (2, 3, n - 1):
        for seed in (0, 1):
            ctx.step()
            v = estimate_cutoff(X, n_subsample=ns, k=k, random_state=seed)
            ctx.true(any(abs(v - q) < 1e-4 for q in kth[ns - 1:]), f"a subsample of {ns} points gives the k-th neighbour distance of one of them")
            ctx.close(estimate_cutoff(X, n_subsample=ns, k=k, random_state=seed), v, "same seed, same result", 0, 0)
    for tol in (1e-8, 1e-3):
        ctx.close(math.exp(-kth[-1] ** 2 / estimate_scale(X, tol=tol, k=k)), tol, "scale for the estimated cut-off", 1e-3, 0)
        ctx.close(math.exp(-2.5 ** 2 / estimate_scale(X, tol=tol, cut_off=2.5)), tol, "scale for a given cut-off", 1e-9, 0)
        for sc in (1.0, 2.0):
            for inplace in (True, False):
                ctx.step()
                p = PCManifold(X, GaussianKernel(0.4))
                c, e = p.optimize_parameters(tol=tol, k=k, result_scaling=sc, inplace=inplace)
                ctx.close(c, sc * kth[-1], "optimised cut-off", 1e-5, 1e-5)
                ctx.close(math.exp(-c ** 2 / e), tol, "optimised scale", 1e-6, 0)
                ctx.close([p.cut_off, p.kernel.epsilon] if inplace else [1.0, p.kernel.epsilon], [c, e] if inplace else [1.0, 0.4], "set in place only if requested")
                if not inplace:
                    ctx.eq(p.cut_off, math.inf, "cut-off unchanged")
    ctx.state(("cut", gaps, k))


def smat(A):
    """csr with a stored zero in every zero of the first row"""
    r, c, v = [], [], []
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            if A[i, j] != 0 or i == 0:
                r.append(i)
                c.append(j)
                v.append(float(A[i, j]))
    return scipy.sparse.csr_matrix((v, (r, c)), shape=A.shape)


def c_mat(ctx, flat, nc):
    from datafold.utils import general as g
    A = np.array(flat, dtype=float).reshape(-1, nc)
    m, n = A.shape
    for S in (A.copy(), smat(A)):
        ctx.step()
        for d in ((1.0, 2.0, -1.0), (0.0, 0.5, 3.0)):
            dn, dm = np.array(d[:n]), np.array(d[:m])
            ctx.close(dense(g.mat_dot_diagmat(S, dn)), np.array([[A[i, j] * dn[j] for j in range(n)] for i in range(m)]), "matrix times diagonal")
            ctx.close(dense(g.diagmat_dot_mat(dm, S)), np.array([[A[i, j] * dm[i] for j in range(n)] for i in range(m)]), "diagonal times matrix")
            ctx.close(dense(S), A, "input not changed")
            if not scipy.sparse.issparse(S):
                out = S.copy()
                r = g.mat_dot_diagmat(out, dn, out=out)
                ctx.true(r is out, "out is used")
                ctx.close(out, A * dn, "result in out")
                out = S.copy()
                g.diagmat_dot_mat(dm, out, out=out)
                ctx.close(out, A * dm[:, None], "result in out")
        for axis in (0, 1):
            for tol in (1e-15, 0.5, 1.0):
                w = all(abs(s - 1) <= tol for s in ([sum(A[i, j] for i in range(m)) for j in range(n)] if axis == 0 else [sum(A[i, j] for j in range(n)) for i in range(m)]))
                ctx.eq(bool(g.is_stochastic_matrix(S, axis=axis, tol=tol)), w, "is_stochastic_matrix")
        if m == n:
            for tol in (0, 1):
                ctx.eq(bool(g.is_symmetric_matrix(S, tol=tol)), bool(all(abs(A[i, j] - A[j, i]) <= tol for i in range(m) for j in range(m))), "is_symmetric_matrix")
            if not scipy.sparse.issparse(S) or all((A[i, j] != 0) == (A[j, i] != 0) for i in range(m) for j in range(m)):
                if scipy.sparse.issparse(S):
                    S = scipy.sparse.csr_matrix((A.ravel(), (np.repeat(np.arange(m), m), np.tile(np.arange(m), m))), shape=A.shape)
                r = g.remove_numeric_noise_symmetric_matrix(S.copy())
                ctx.close(dense(r), np.array([[(A[i, j] + A[j, i]) / 2 for j in range(m)] for i in range(m)]), "symmetrised matrix")
                ctx.true(g.is_symmetric_matrix(r), "exactly symmetric")
                if scipy.sparse.issparse(S):
                    ctx.eq(r.nnz, S.nnz, "stored zeros are kept")
        else:
            ctx.raises(ValueError, lambda: g.is_symmetric_matrix(S), "symmetry of a rectangular matrix")
    ctx.state(("mat", flat, nc))


def c_misc(ctx, which, a):
    from datafold.utils import general as g
    ctx.step()
    if which == "proj":
        al, sel = a
        f = lambda: g.projection_matrix_from_feature_names(pd.Index(list(al)), pd.Index(list(sel)))
        if set(sel) - set(al):
            ctx.raises(ValueError, f, "unknown feature")
        else:
            P = dense(f())
            A = np.arange(1.0, 2 * len(al) + 1).reshape(2, -1)
            ctx.close(A @ P, np.array([[A[i, al.index(s)] for s in sel] for i in range(2)]).reshape(2, len(sel)), "projection selects the columns")
    elif which == "sort":
        ev = np.array(a)
        R = np.diag(np.arange(1.0, len(a) + 1))
        for asc in (True, False):
            w, V, L = g.sort_eigenpairs(ev, R, left_eigenvectors=2 * R, ascending=asc)
            ctx.close(np.real(w), sorted(np.real(ev), reverse=not asc), "eigenvalues sorted")
            for i in range(len(a)):
                src = [j for j in range(len(a)) if V[j, i] != 0]
                ctx.eq(len(src), 1, "eigenvectors permuted")
                ctx.true(w[i] == ev[src[0]] and L[i, src[0]] == 2 * V[src[0], i], "eigenvectors belong to their eigenvalue")
            w2, V2 = g.sort_eigenpairs(ev, R, ascending=asc)
            ctx.close(V2, V, "with and without left eigenvectors")
    elif which == "rs":
        n, k, seed = a
        A = np.arange(2.0 * n).reshape(n, 2)
        f = lambda: g.random_subsample(A, k, random_state=seed)
        if not 1 <= k <= n - 1:
            ctx.raises(ValueError, f, "number of samples out of range")
        else:
            S, ind = f()
            ctx.eq((len(set(map(int, ind))), S.shape), (k, (k, 2)), "sample without replacement")
            ctx.close(S, A[ind], "samples belong to the indices")
            ctx.close(f()[0], S, "same seed, same sample")
    elif which == "int":
        v, w = a
        ctx.eq(bool(g.is_integer(v)), w, "is_integer")
        if isinstance(v, (int, float)):
            ctx.eq(bool(g.is_scalar(v)), True, "is_scalar")
    elif which == "mesh":
        nx, ny = a
        for names in (None, ["x", "y"]):
            M = g.generate_2d_regular_mesh((-1, 0), (1, 3), nx, ny, feature_names=names)
            xs = [-1 + 2 * i / (nx - 1) if nx > 1 else -1 for i in range(nx)]
            ys = [3 * i / (ny - 1) if ny > 1 else 0 for i in range(ny)]
            ctx.close(np.asarray(sorted(map(tuple, np.asarray(M)))), np.array(sorted((x, y) for x in xs for y in ys)), "all mesh points")
            if names:
                ctx.eq(list(M.columns), names, "feature names")
    ctx.state((which, a))


def cases(tier):
    deep = tier != "quick"
    for w in ("nan", "inf", "1d", "empty", "str", "kw", "cut0", "k0", "kf", "sub", "ek1", "ek0", "ekf"):
        yield "badpcm", (w,)
    for ci in range(len(CL)):
        for ki in range(len(KW)):
            for L in (1, 2, 3):
                for ops in itertools.product(OPS, repeat=L):
                    if L == 3 and not deep and not ("setcut" in ops[1:]):
                        continue
                    for pos in (range(L) if "setcut" in ops[1:] else (0,)):
                        yield "pcm", (ci, ki, ops, pos)
    for n in ((2, 3, 4, 5) if not deep else (2, 3, 4, 5, 6)):
        for vals in itertools.product(range(4), repeat=n):
            if n >= 5 and not deep and (vals[0] > vals[-1] or max(vals) != 3):
                continue
            for ns in (1, 2, 3):
                for md in (0.5, 1.5, 2.5, 3.5, None):
                    if ns > n or -(-n // (n // ns + 1)) < 2:  # the distance matrix needs two reference points
                        continue
                    yield "sub", (vals, ns, md, 0)
                    yield "sub", (vals, ns, md, 1)
            for kmin in (1, 2, 3):
                for co in (0.5, 1.0, 1.5, 2.0, None):
                    yield "out", (vals, kmin, co)
    for gaps in itertools.product((1, 3) if not deep else (1, 3, 4), repeat=9):
        for k in ((2, 3, 5, 10, 12) if sum(gaps) % 4 == 1 else (3,)):
            yield "cut", (gaps, k)
    for L in (1, 3, 8):
        for gaps in itertools.product((1, 3), repeat=L):
            yield "cut", (gaps, 3)
    yield "cut", ((1, 0, 0, 2, 0, 1, 1, 3, 0, 0, 5), 3)
    for flat in itertools.product((0, 1, 2), repeat=4):
        yield "mat", (flat, 2)
    for flat in itertools.product((0, 1, 2), repeat=6):
        yield "mat", (flat, 3)
    names = ["a", "b", "c"]
    for na in (1, 2, 3):
        for ns in (1, 2, 3):
            for sel in itertools.permutations(names, ns):
                yield "misc", ("proj", (tuple(names[:na]), sel))
    for L in (1, 2, 3, 4):
        for ev in itertools.permutations((0.5, -2.0, 3.0, 1.0), L):
            yield "misc", ("sort", ev)
    for n in range(2, 7):
        for k in range(0, n + 1):
            for seed in (0, 1, 2):
                yield "misc", ("rs", (n, k, seed))
    for v, w in ((1, True), (1.0, True), (1.5, False), (np.int64(3), True), (np.float32(2.0), True), ("1", False), (None, False), (-2.0, True), (float("inf"), False), (float("nan"), False)):
        yield "misc", ("int", (v, w))
    for nx in (1, 2, 3):
        for ny in (1, 2, 4):
            yield "misc", ("mesh", (nx, ny))


RUN = {"pcm": c_pcm, "badpcm": c_badpcm, "sub": c_sub, "out": c_out, "cut": c_cut, "mat": c_mat, "misc": c_misc}
