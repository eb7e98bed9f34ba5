"""C18: diffusion maps and landmark diffusion: the spectral decomposition of the documented kernel, extended to new points."""
import itertools
import math
import warnings
import numpy as np
import pandas as pd
import tscmodel as tm
from c16_kernels import rbf, pairs, arr, d2, kern, DISTS, dense, dmap_expected, rose_expected

PROPERTY = "C18"
CASE_LIMIT = 200
BOUND = """
every point cloud of 3-5 samples on {0,1,2,4} (and 2D clouds; two orders, duplicates) x alpha {0, 0.5, 1} x stochastic x symmetrized x
{dense, cut-off brute, kd-tree, k nearest neighbours} x every number of eigenpairs; every set of target coordinates; diffusion times
{0, 0.5, 1, 2} changed after the fit; arrays, frames and collections; new points coincident, near and outside. Every sequence of up to 4
operations {fit A, fit B, target coordinates, diffusion time, inverse, transform} on one model. Landmark diffusion: every cloud x landmark
subset x alpha x number of triplets. Oracle: loop-written kernel matrix, residual of the eigen equation, numpy's dense spectrum.
"""
F = rbf("gauss", 0.8)
CUT = {"dense": None, "brute": 2.5, "kd": 2.5}
DIST = {"dense": None, "brute": {"cut_off": 2.5, "backend": "brute"}, "kd": {"cut_off": 2.5, "backend": "scipy.kdtree"}}


def clouds(tier):
    out = []
    for n in (3, 4, 5):
        for c in itertools.combinations_with_replacement((0, 1, 2, 4), n):
            if len(set(c)) < 2:
                continue
            out.append(tuple((v,) for v in c))
            out.append(tuple((v,) for v in (c[1:] + c[:1])[::-1]))
    grid = [(0, 0), (0, 1), (1, 0), (2, 1), (1, 3)]
    for n in (3, 4):
        out += list(itertools.combinations(grid, n))
    out.append(((0, 0), (0, 0), (2, 1), (1, 3), (1, 0)))
    if tier == "quick":
        out = [c for i, c in enumerate(out) if len(c) < 5 or i % 3 == 0]
    return out


def new_points(X):
    dim = len(X[0])
    if dim == 1:
        return [[(0.5,)], [(1,), (3,)], [(-1,), (4.5,), (1,)]]
    return [[(0.5, 0.5)], [(1, 1), (0, 0)], [(2, 2), (1, 0), (1, 0)]]


def internal(dn):
    from datafold.pcfold.distance import SklearnKNN
    from datafold.pcfold.kernels import GaussianKernel

    if dn == "knn":
        return GaussianKernel(0.8, distance=SklearnKNN(metric="sqeuclidean", k=2))
    return kern("gauss", 0.8, DIST[dn])


def kernel_values(X, dn):
    if dn != "knn":
        return {p: F(s) for p, s in pairs(X, None, CUT[dn]).items()}
    if len(set(X)) < len(X):
        return None
    near = [sorted(range(len(X)), key=lambda j: d2(X[i], X[j]))[:3] for i in range(len(X))]
    if any(d2(X[i], X[r[1]]) == d2(X[i], X[r[2]]) for i, r in enumerate(near)):
        return None
    return {(i, j): F(d2(X[i], X[j])) for i, r in enumerate(near) for j in r[:2]}


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def spectrum(ctx, val, vec, M, k, name, order="both"):
    """val/vec are k eigenpairs of M, the leading ones, in decreasing order, vectors of norm one and independent"""
    val, vec = np.asarray(val), np.asarray(vec)
    n = M.shape[0]
    ctx.eq(val.shape, (k,), f"{name}: number of eigenvalues")
    ctx.eq(vec.shape, (n, k), f"{name}: shape of eigenvectors")
    ctx.true(np.isrealobj(val) and np.isrealobj(vec), f"{name}: complex")
    ctx.close(M @ vec, vec * val, f"{name}: eigen equation", rtol=1e-8, atol=1e-8)
    ctx.close(np.linalg.norm(vec, axis=0), np.ones(k), f"{name}: norm")
    ctx.true(all(a >= b - 1e-12 for a, b in zip(val, val[1:])), f"{name}: order {val}")
    ref = np.linalg.eigvals(M)
    by_mag = sorted(np.real(sorted(ref, key=lambda v: -abs(v))[:k]), reverse=True)
    by_val = sorted(np.real(ref), reverse=True)[:k]
    # a tie in magnitude makes the leading set ambiguous: either reading is accepted
    ok = np.allclose(val, by_mag, rtol=1e-7, atol=1e-7) or np.allclose(val, by_val, rtol=1e-7, atol=1e-7)
    ctx.true(ok, f"{name}: eigenvalues {val} of {np.sort(np.real(ref))[::-1]}")
    gaps = np.abs(np.subtract.outer(ref, ref)) + np.eye(n)
    if gaps.min() > 1e-6:
        ctx.true(np.linalg.matrix_rank(vec, tol=1e-7) == k, f"{name}: dependent eigenvectors")


def run_dmap(ctx, X):
    from datafold.dynfold import DiffusionMaps

    n = len(X)
    for dn in ("dense", "brute", "kd", "knn"):
        KX = kernel_values(X, dn)
        if KX is None:
            continue
        for alpha, sto, sym in itertools.product((0, 0.5, 1), (True, False), (True, False)):
            if not sto and alpha != 0.5:
                continue  # has no effect
            P, S, dx = dmap_expected(KX, None, alpha, sto, sym)
            M = np.array(dense(P, n, n))
            if np.abs(np.imag(np.linalg.eigvals(M))).max() > 1e-9:
                continue
            for k in range(1, n + 1):
                label = f"dmap {dn} alpha={alpha} stochastic={sto} symmetrize={sym} k={k} X={X}"
                nonsym = dn == "knn" or (sto and not sym)
                if nonsym and (k == n - 1 or not distinct(M)):
                    continue  # limit of the Arnoldi solver; repeated eigenvalues of non-symmetric matrices are ill-conditioned
                user = internal(dn)
                m = DiffusionMaps(user, n_eigenpairs=k, alpha=alpha, is_stochastic=sto, symmetrize_kernel=sym)
                Xa = arr(X)
                ctx.step()
                ret = quiet(m.fit, Xa, store_kernel_matrix=True)
                ctx.true(ret is m, "fit returns the model")
                ctx.true(m.kernel is user and np.array_equal(Xa, arr(X)), "arguments kept")
                spectrum(ctx, m.eigenvalues_, m.eigenvectors_, M, k, label)
                K = m.kernel_matrix_
                ctx.close(K.toarray() if hasattr(K, "toarray") else np.asarray(K), M, f"{label}: stored kernel matrix")
                val, vec = np.array(m.eigenvalues_), np.array(m.eigenvectors_)
                ft = quiet(DiffusionMaps(internal(dn), n_eigenpairs=k, alpha=alpha, is_stochastic=sto, symmetrize_kernel=sym).fit_transform, Xa)
                ctx.close(np.abs(ft), np.abs(vec), f"{label}: fit_transform", rtol=1e-7, atol=1e-7) if distinct(M) else None
                if dn == "knn" or min(abs(val)) < 1e-6:
                    continue
                # out of sample
                for Y in new_points(X) + [list(X)]:
                    KY = {p: F(s) for p, s in pairs(X, Y, CUT[dn]).items()}
                    if len({i for i, _ in KY}) < len(Y):
                        continue
                    V = np.array(dense(dmap_expected(KX, KY, alpha, sto, sym), len(Y), n))
                    Ya = arr(Y)
                    want = V @ vec / val
                    got = quiet(m.transform, Ya)
                    ctx.step()
                    ctx.close(got, want, f"{label}: Nystroem Y={Y}", rtol=1e-7, atol=1e-9)
                    ctx.true(np.array_equal(Ya, arr(Y)), "points modified")
                    if Y == list(X):
                        ctx.close(got, vec, f"{label}: transform of the training data", rtol=1e-7, atol=1e-7)
                    if k >= 2 and alpha == 1:
                        for t in (0.5, 1, 2):
                            if t == 0.5 and min(val) < 0:
                                continue
                            m.time_exponent = t
                            ctx.close(quiet(m.transform, Ya), want * val**t, f"{label}: time {t}", rtol=1e-7, atol=1e-9)
                        m.time_exponent = 0
    ctx.state("dmap", X)


def distinct(M):
    ref = np.linalg.eigvals(M)
    return (np.abs(np.subtract.outer(ref, ref)) + np.eye(len(M))).min() > 1e-6


# ---- types, target coordinates, diffusion time, inverse
LAYOUTS = {"one": ((0,), (6,), (0,)), "two": ((5, 2), (3, 4), (0, 1)), "three": ((1, 4, 7), (2, 3, 2), (0, 0, 3))}


def data(layout, q):
    ids, lens, offs = LAYOUTS[layout]
    out = []
    for p, n in enumerate(lens):
        t = np.arange(n) + 2.3 * q
        out.append(np.column_stack([np.sin(0.7 * t + p), 0.4 * t * (1 - 2 * (p % 2)) + 0.2 * np.cos(1.3 * t)]))
    return ids, lens, offs, out


def collection(layout, q):
    ids, lens, offs, d = data(layout, q)
    return tm.build((["a", "b"], [(i, [(t, tuple(r)) for t, r in zip(tm.taxis("float", n, o), x)]) for i, n, o, x in zip(ids, lens, offs, d)]))


def typed(kind, layout, q):
    X = collection(layout, q)
    if kind == "tsc":
        return X
    if kind == "frame":
        return pd.DataFrame(X.to_numpy(), columns=["a", "b"], index=[f"r{i}" for i in range(len(X))])
    return X.to_numpy()


def same_type(ctx, got, like, values, cols, name, **kw):
    ctx.step()
    ctx.eq(type(got).__name__, type(like).__name__, f"{name}: type")
    if isinstance(like, pd.DataFrame):
        ctx.true(got.index.equals(like.index), f"{name}: index")
        ctx.eq(list(got.columns), list(cols), f"{name}: columns")
    ctx.close(np.asarray(got), values, name, **kw)


class Ref:
    """what a fitted model must answer, given its eigenpairs"""

    def __init__(self, Xa, val, vec, alpha):
        self.X = [tuple(r) for r in Xa]
        self.val, self.vec, self.alpha = val, vec, alpha
        self.KX = {p: F(s) for p, s in pairs(self.X, None, None).items()}

    def embed(self, Ya, coords, t):
        Y = [tuple(r) for r in Ya]
        KY = {p: F(s) for p, s in pairs(self.X, Y, None).items()}
        V = np.array(dense(dmap_expected(self.KX, KY, self.alpha, True, True), len(Y), len(self.X)))
        return (V @ self.vec / self.val * self.val**t)[:, coords]

    def inverse(self, Z, coords, t):
        E = (self.vec * self.val**t)[:, coords]
        C = np.linalg.lstsq(E, np.array(self.X), rcond=None)[0]
        return Z @ C


def run_types(ctx, layout, kind, alpha):
    from datafold.dynfold import DiffusionMaps

    X = typed(kind, layout, 0)
    n, k = len(X), 4
    P, _, _ = dmap_expected({p: F(s) for p, s in pairs([tuple(r) for r in np.asarray(X)], None, None).items()}, None, alpha, True, True)
    M = np.array(dense(P, n, n))
    for coords in [None] + [list(c) for r in (1, 2, 3) for c in itertools.combinations(range(k), r)] + [[3, 1]]:
        use = list(range(k)) if coords is None else sorted(coords)
        cols = [f"dmap{i}" for i in use]
        for t in (0, 0.5, 1, 2):
            for when in ("before", "after"):
                m = DiffusionMaps(kern("gauss", 0.8, None), n_eigenpairs=k, alpha=alpha, time_exponent=t if when == "before" else 0)
                name = f"{kind} {layout} coords {coords} time {t} {when}"
                if coords is not None and when == "before":
                    ctx.true(m.set_target_coords(coords) is m, "returns self")
                got = quiet(m.fit_transform, X)
                if when == "after":
                    m.time_exponent = t
                    if coords is not None:
                        m.set_target_coords(coords)
                spectrum(ctx, m.eigenvalues_, m.eigenvectors_, M, k, name)
                ref = Ref(np.asarray(X), np.array(m.eigenvalues_), np.asarray(m.eigenvectors_).copy(), alpha)
                ctx.eq(list(m.get_feature_names_out()), cols, "feature names")
                ctx.eq(m.n_features_out_, len(use), "n_features_out_")
                Z = (ref.vec * ref.val**t)[:, use]
                if when == "before":
                    same_type(ctx, got, X, Z, cols, f"{name}: fit_transform")
                for q in (0, 1):
                    Y = typed(kind, layout, q)
                    W = ref.embed(np.asarray(Y), use, t)
                    got = quiet(m.transform, Y)
                    same_type(ctx, got, Y, W, cols, f"{name}: transform {q}", rtol=1e-7, atol=1e-7)
                    back = m.inverse_transform(got)
                    same_type(ctx, back, Y, ref.inverse(W, use, t), ["a", "b"], f"{name}: inverse {q}", rtol=1e-6, atol=1e-6)
    for bad, exc in ([[0.5, 1], TypeError], [[-1, 1], ValueError], [[0, k], ValueError]):
        ctx.raises(exc, lambda: DiffusionMaps(n_eigenpairs=k).set_target_coords(bad), f"target coordinates {bad}")
    ctx.state("types", layout, kind, alpha)


# ---- histories of one model
OPS = ("fitA", "fitB", "c12", "c0", "t1", "t0", "inv", "trans", "ft")


def run_history(ctx, first, ops):
    """every operation after fit; after each the model answers like the reference for the current state"""
    from datafold.dynfold import DiffusionMaps

    k, alpha = 3, 1
    m = DiffusionMaps(kern("gauss", 0.8, None), n_eigenpairs=k)
    cur, coords, t = None, [0, 1, 2], 0
    ref = None
    Y = collection("two", 4).to_numpy()
    for i, op in enumerate((first,) + ops):
        ctx.step()
        name = f"{first} {ops[:i]}"
        if op in ("fitA", "fitB", "ft"):
            X = typed("array", "one" if op == "fitB" else "two", 0 if op != "ft" else 2)
            got = quiet(getattr(m, "fit_transform" if op == "ft" else "fit"), X)
            ref = Ref(X, m.eigenvalues_.copy(), np.asarray(m.eigenvectors_).copy(), alpha)
            P, _, _ = dmap_expected(ref.KX, None, alpha, True, True)
            spectrum(ctx, m.eigenvalues_, m.eigenvectors_, np.array(dense(P, len(X), len(X))), k, name)
            if op == "ft":
                ctx.close(got, (ref.vec * ref.val**t)[:, coords], f"{name}: fit_transform")
        elif op == "c12":
            coords = [1, 2]
            m.set_target_coords(coords)
        elif op == "c0":
            coords = [0]
            m.set_target_coords(coords)
        elif op in ("t0", "t1"):
            t = int(op[1])
            m.time_exponent = t
        if op == "trans" or i == len(ops):
            ctx.close(quiet(m.transform, Y), ref.embed(Y, coords, t), f"{name}: transform", rtol=1e-7, atol=1e-7)
        if op == "inv" or i == len(ops):
            Z = ref.embed(Y, coords, t)
            ctx.close(m.inverse_transform(Z), ref.inverse(Z, coords, t), f"{name}: inverse", rtol=1e-6, atol=1e-6)
            ctx.eq(list(m.get_feature_names_out()), [f"dmap{i}" for i in coords], "names")
    ctx.state("history", first, ops)


# ---- constructors
def run_named(ctx, which):
    from datafold.dynfold import DiffusionMaps

    X = collection("two", 0).to_numpy()
    alpha = {"laplace_beltrami": 1, "fokker_planck": 0.5, "graph_laplacian": 0}[which]
    for k in (1, 2, 4):
        for eps in (None, 0.5, 2):
            from datafold.pcfold.kernels import GaussianKernel

            args = {} if eps is None else {"kernel": GaussianKernel(eps)}
            f = rbf("gauss", eps or 1.0)
            P, _, _ = dmap_expected({p: f(s) for p, s in pairs([tuple(r) for r in X], None, None).items()}, None, alpha, True, True)
            m = getattr(DiffusionMaps, which)(n_eigenpairs=k, **args)
            quiet(m.fit, X)
            spectrum(ctx, m.eigenvalues_, m.eigenvectors_, np.array(dense(P, len(X), len(X))), k, f"{which} {k} {eps}")
            m2 = DiffusionMaps(n_eigenpairs=k, alpha=alpha, **args)
            quiet(m2.fit, X)
            ctx.close(m2.eigenvalues_, m.eigenvalues_, "default kernel")
    ctx.state("named", which)


# ---- cone kernel drops samples
def run_cone(ctx, layout, acc):
    from datafold.dynfold import DiffusionMaps
    from datafold.pcfold.kernels import ConeKernel

    X, Y = collection(layout, 0), collection(layout, 1)
    for t, coords in itertools.product((0, 1), ([0, 1, 2], [1, 2], [0])):
        m = DiffusionMaps(ConeKernel(zeta=0.5, epsilon=2.0, fd_accuracy=acc), n_eigenpairs=3, time_exponent=t)
        m.set_target_coords(coords)
        Z = quiet(m.fit_transform, X)
        raw = ConeKernel(zeta=0.5, epsilon=2.0, fd_accuracy=acc)
        KX, KY = raw(X), raw(X, Y)
        n = len(KX)
        d = {(i, j): KX.to_numpy()[i, j] for i in range(n) for j in range(n)}
        P, _, _ = dmap_expected(d, None, 1, True, True)
        spectrum(ctx, m.eigenvalues_, m.eigenvectors_, np.array(dense(P, n, n)), 3, "cone")
        vec, val = np.asarray(m.eigenvectors_), m.eigenvalues_
        cols = [f"dmap{i}" for i in coords]
        ctx.true(Z.index.equals(KX.index), "labels of the kernel matrix")
        ctx.eq(list(Z.columns), cols, "columns")
        ctx.close(Z.to_numpy(), (vec * val**t)[:, coords], "cone: fit_transform")
        dY = {(i, j): KY.to_numpy()[i, j] for i in range(len(KY)) for j in range(n)}
        V = np.array(dense(dmap_expected(d, dY, 1, True, True), len(KY), n))
        W = quiet(m.transform, Y)
        ctx.true(W.index.equals(KY.index), "labels of the kernel matrix")
        ctx.eq(list(W.columns), cols, "columns")
        want = (V @ vec / val * val**t)[:, coords]
        ctx.close(W.to_numpy(), want, "cone: transform", rtol=1e-7, atol=1e-8)
        E = (vec * val**t)[:, coords]
        C = np.linalg.lstsq(E, X.loc[KX.index].to_numpy(), rcond=None)[0]
        back = m.inverse_transform(W)
        same_type(ctx, back, W, want @ C, ["a", "b"], "cone: inverse", rtol=1e-6, atol=1e-6)
    ctx.state("cone", layout, acc)


# ---- landmark diffusion
def rose_check(ctx, m, M, deg, k, name):
    val, left, right = m.svdvalues_, np.asarray(m.svdvec_left_), m.svdvec_right_
    ctx.eq(val.shape, (k,), f"{name}: singular values")
    ctx.eq(left.shape, (M.shape[0], k), f"{name}: left")
    ctx.eq(right.shape, (M.shape[1], k), f"{name}: right")
    ctx.close(val, np.linalg.svd(M)[1][:k], f"{name}: singular values", rtol=1e-7, atol=1e-7)
    ctx.close(right.T @ right, np.eye(k), f"{name}: right vectors orthonormal", atol=1e-7)
    U = left * deg[:, None]
    keep = val > 1e-7
    ctx.close((M @ right)[:, keep], (U * val)[:, keep], f"{name}: K V = U S", atol=1e-7)
    ctx.close((M.T @ U)[:, keep], (right * val)[:, keep], f"{name}: K' U = V S", atol=1e-7)


def run_rose(ctx, X):
    """X are the data; landmarks are every subset of at least two samples, plus fractions"""
    from datafold.dynfold import Roseland

    n = len(X)
    marks = [[X[i] for i in c] for r in (2, 3) for c in itertools.combinations(range(n), r) if len({X[i] for i in c}) == r]
    for dn in ("dense", "brute"):
        for L in marks:
            KX = {p: F(s) for p, s in pairs(L, X, CUT[dn]).items()}
            if len({i for i, _ in KX}) < n:
                continue
            for alpha in (0, 0.5, 1):
                W, fit = rose_expected(KX, n, len(L), alpha)
                M = np.array(dense(W, n, len(L)))
                Kd = np.array(dense(KX, n, len(L)))
                if alpha > 0:
                    Kd = Kd / np.outer(Kd.sum(axis=1) ** alpha, fit[0] ** alpha)
                deg = np.sqrt(Kd @ fit[1])
                for k in range(1, len(L) + 1):
                    user = kern("gauss", 0.8, DIST[dn])
                    la = arr(L)
                    m = Roseland(user, n_svdtriplet=k, landmarks=la, alpha=alpha)
                    label = f"landmarks {dn} alpha={alpha} k={k} X={X} L={L}"
                    ctx.step()
                    quiet(m.fit, arr(X), store_kernel_matrix=True)
                    ctx.true(np.array_equal(la, arr(L)) and m.landmarks is la and m.kernel is user, "arguments kept")
                    rose_check(ctx, m, M, deg, k, label)
                    K = m.kernel_matrix_
                    ctx.close(K.toarray() if hasattr(K, "toarray") else K, M, "kernel matrix")
                    val, right, left = m.svdvalues_, m.svdvec_right_, m.svdvec_left_
                    if min(val) < 1e-6:
                        continue
                    for Y in new_points(X) + [list(X)]:
                        KY = {p: F(s) for p, s in pairs(L, Y, CUT[dn]).items()}
                        if len({i for i, _ in KY}) < len(Y):
                            continue
                        V, _ = rose_expected(KY, len(Y), len(L), alpha, fit)
                        KYd = np.array(dense(KY, len(Y), len(L)))
                        if alpha > 0:
                            KYd = KYd / np.outer(KYd.sum(axis=1) ** alpha, fit[0] ** alpha)
                        degY = np.sqrt(KYd @ fit[1])
                        want = np.array(dense(V, len(Y), len(L))) @ right / val / degY[:, None]
                        for t in (0, 1, 0.5):
                            m.time_exponent = t
                            ctx.close(quiet(m.transform, arr(Y)), want * val ** (2 * t), f"{label} Y={Y} time {t}", rtol=1e-7, atol=1e-8)
                        m.time_exponent = 0
    ctx.state("rose", X)


def run_rose_types(ctx, layout, kind):
    from datafold.dynfold import Roseland

    X = typed(kind, layout, 0)
    La = np.asarray(X)[::2].copy()
    n, k = len(X), 3
    for coords in [None] + [list(c) for r in (1, 2) for c in itertools.combinations(range(k), r)] + [[2, 0]]:
        use = list(range(k)) if coords is None else sorted(coords)
        cols = [f"rose{i}" for i in use]
        for t, when in itertools.product((0, 1, 0.5), ("before", "after")):
            m = Roseland(None, n_svdtriplet=k, landmarks=La, time_exponent=t if when == "before" else 0)
            if coords is not None and when == "before":
                m.set_target_coords(coords)
            ft = quiet(m.fit_transform, X)
            ctx.eq(m.kernel, None, "parameter kernel")
            if when == "after":
                m.time_exponent = t
                if coords is not None:
                    m.set_target_coords(coords)
            name = f"{kind} {layout} coords {coords} time {t} {when}"
            ctx.eq(list(m.get_feature_names_out()), cols, "names")
            ctx.eq(m.n_features_out_, len(use), "n_features_out_")
            Z = (np.asarray(m.svdvec_left_) * m.svdvalues_ ** (2 * t))[:, use]
            if when == "before":
                same_type(ctx, ft, X, Z, cols, f"{name}: fit_transform")
            same_type(ctx, quiet(m.transform, X), X, Z, cols, f"{name}: transform", rtol=1e-7, atol=1e-7)
            Y = typed(kind, layout, 1)
            L = [tuple(r) for r in La]
            f = rbf("gauss", 1.0)
            KX = np.array([[f(d2(x, l)) for l in L] for x in np.asarray(X)])
            KY = np.array([[f(d2(y, l)) for l in L] for y in np.asarray(Y)])
            w = KX.sum(axis=0)
            dx, dy = np.sqrt(KX @ w), np.sqrt(KY @ w)
            rose_check(ctx, m, KX / dx[:, None], dx, k, name)
            want = (KY / (dy**2)[:, None]) @ m.svdvec_right_ / m.svdvalues_ * m.svdvalues_ ** (2 * t)
            same_type(ctx, quiet(m.transform, Y), Y, want[:, use], cols, f"{name}: transform new", rtol=1e-7, atol=1e-7)
    # landmark selection
    Xa = np.asarray(X)
    for sel in (2, 3, n, 0.5, 1.0, 0.7):
        want_n = sel if isinstance(sel, int) else int(n * sel)
        picks = []
        for seed in (0, 1, 0):
            m = Roseland(n_svdtriplet=2, landmarks=sel, random_state=seed)
            quiet(m.fit, X)
            ctx.eq(m.landmarks_.shape, (want_n, 2), f"landmarks {sel}")
            rows = [tuple(r) for r in Xa]
            ctx.true(all(tuple(r) in rows for r in m.landmarks_) and len({tuple(r) for r in m.landmarks_}) == want_n, f"landmarks {sel} are distinct samples")
            picks.append(m.landmarks_.copy())
        ctx.true(np.array_equal(picks[0], picks[2]), "random_state")
    for bad in (0.0, 1.1, 1, n + 1, -0.5):
        ctx.raises(ValueError, lambda: quiet(Roseland(n_svdtriplet=2, landmarks=bad).fit, X), f"landmarks {bad}")
    ctx.raises(TypeError, lambda: quiet(Roseland(n_svdtriplet=2, landmarks="all").fit, X), "landmarks type")
    ctx.state("rosetypes", layout, kind)


def run_params(ctx, cls):
    """settings outside their range are refused by fit, boundary values are accepted"""
    from datafold.dynfold import DiffusionMaps
    from datafold.dynfold.dmap import Roseland

    X = collection("two", 0).to_numpy()
    n = len(X)
    if cls == "dmap":
        base = dict(n_eigenpairs=2)
        mk = lambda **kw: DiffusionMaps(kern("gauss", 0.8, None), **{**base, **kw})
        bad = {"n_eigenpairs": (0, -1, 1.5, "a", None), "time_exponent": ("a", None), "alpha": (-0.1, 1.1, "a", None)}
        good = {"n_eigenpairs": (1, 2, np.int64(2)), "time_exponent": (0, 1, 0.5), "alpha": (0, 1, 0.5)}
    else:
        base = dict(n_svdtriplet=2, landmarks=0.5)
        mk = lambda **kw: Roseland(**{**base, **kw})
        bad = {"n_svdtriplet": (0, -1, 1.5, "a", None), "time_exponent": ("a", None), "landmarks": (0.0, 1.1, -0.5, 0, n + 1, "a")}
        good = {"n_svdtriplet": (1, 2), "time_exponent": (0, 1, 0.5), "landmarks": (1.0, 0.6, n, n - 1)}
    for key, vals in bad.items():
        for v in vals:
            ctx.step()
            ctx.raises((ValueError, TypeError), lambda: quiet(mk(**{key: v}).fit, X), f"{cls} {key}={v!r}")
    for key, vals in good.items():
        for v in vals:
            ctx.step()
            m = quiet(mk(**{key: v}).fit, X)
            if key in ("n_eigenpairs", "n_svdtriplet"):
                ctx.eq(m.transform(X).shape[1], v, f"{cls} {key}={v!r}: number of components")
    ctx.state("params", cls)


def cases(tier):
    out = [("params", c) for c in ("dmap", "roseland")]
    out += [("dmap", X) for X in clouds(tier)]
    out += [("types", l, k, a) for l in LAYOUTS for k in ("tsc", "frame", "array") for a in ((1,) if tier == "quick" else (0, 0.5, 1))]
    depth = 3 if tier == "quick" else 4
    out += [("history", f, ops) for f in ("fitA", "fitB") for ops in itertools.product(OPS, repeat=depth)]
    out += [("named", w) for w in ("laplace_beltrami", "fokker_planck", "graph_laplacian")]
    out += [("cone", l, a) for l in ("one", "two") for a in (2,)]
    out += [("rose", X) for X in clouds(tier) if len(set(X)) > 2]
    out += [("rosetypes", l, k) for l in LAYOUTS for k in ("tsc", "frame", "array")]
    return [(c[0], tuple(c[1:])) for c in out]


RUN = {"params": run_params, "dmap": run_dmap, "types": run_types, "history": run_history, "named": run_named, "cone": run_cone, "rose": run_rose, "rosetypes": run_rose_types}
