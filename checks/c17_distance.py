"""C17: distance backends: exactly the pairs within the cut-off, exact values, no dependence on earlier evaluations."""
import itertools
import math
import numpy as np
import scipy.sparse

PROPERTY = "C17"
BOUND = """
every point cloud of 2-4 samples on {0,1,2} and 2-3 samples on {0,1}x{0,1,3} (order and duplicates included) as reference x every query
set of 1 sample and selected sets of 2-3 samples (coincident, near, far) and the pairwise case x backends {brute exact, brute inexact,
kd-tree, ball tree, guess_optimal} x metrics {euclidean, sqeuclidean} x cut-offs {none, inf, 0.5, 1, 1.5, 2, 3} (pairs exactly at the
cut-off included) x kmin {none, 1, 2, 3}; k-nearest neighbours for every k; non-Euclidean metrics on the dense backend; every sequence
of up to 3 evaluations of one object on two reference sets and two query sets against fresh objects. Oracle: distances computed from
integers with math.sqrt, stored pairs listed by hand; stored zeros are part of the observation.
"""
BACKENDS = ("brute", "inexact", "scipy.kdtree", "sklearn.balltree", "guess_optimal")
CUTS = (None, math.inf, 0.5, 1, 1.5, 2, 3)


def mk(backend, metric, cut, kmin=None):
    from datafold.pcfold.distance import init_distance_algorithm

    kw = dict(metric=metric, cut_off=cut)
    if kmin is not None:
        kw["k"] = kmin
    if backend == "inexact":
        return init_distance_algorithm("brute", exact_numeric=False, **kw)
    return init_distance_algorithm(backend, **kw)


def sq(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def val(metric, a, b):
    d2 = sq(a, b)
    return float(d2) if metric == "sqeuclidean" else math.sqrt(d2)


def observe(M):
    """dict of stored entries, shape"""
    if scipy.sparse.issparse(M):
        if not isinstance(M, scipy.sparse.csr_matrix) and M.format != "csr":
            return M.shape, "not csr", None
        out = {}
        for i in range(M.shape[0]):
            cols = M.indices[M.indptr[i]:M.indptr[i + 1]]
            if len(cols) != len(set(cols)):
                return M.shape, f"row {i}: columns {list(cols)}", None
            for j, v in zip(cols, M.data[M.indptr[i]:M.indptr[i + 1]]):
                out[i, int(j)] = float(v)
        return M.shape, "sparse", out
    return M.shape, "dense", {(i, j): float(M[i, j]) for i in range(M.shape[0]) for j in range(M.shape[1])}


def expected(X, Y, metric, cut):
    Q = X if Y is None else Y
    c = math.inf if cut is None else cut
    return {(i, j): val(metric, q, x) for i, q in enumerate(Q) for j, x in enumerate(X) if sq(q, x) <= c * c}


def compare(ctx, M, X, Y, metric, cut, kmin, name, tol):
    Q = X if Y is None else Y
    shape, kind, got = observe(M)
    ctx.step()
    ctx.eq(shape, (len(Q), len(X)), f"{name}: shape")
    dense = cut is None or math.isinf(cut)
    ctx.eq(kind, "dense" if dense else "sparse", f"{name}: storage")
    want = expected(X, Y, metric, cut)
    if not dense and kmin:
        # rows with fewer than kmin entries have to get their kmin nearest samples (ties: any of them)
        full = {(i, j): val(metric, q, x) for i, q in enumerate(Q) for j, x in enumerate(X)}
        extra = set(got) - set(want)
        ctx.eq(sorted(set(want) - set(got)), [], f"{name}: pairs within the cut-off missing")
        for i in range(len(Q)):
            have = sorted(full[i, j] for j in range(len(X)) if (i, j) in got)
            short = sum((i, j) in want for j in range(len(X))) < kmin
            if short:
                best = sorted(full[i, j] for j in range(len(X)))[:kmin]
                ctx.true(len(have) >= kmin and np.allclose(have[:kmin], best, rtol=0, atol=tol), f"{name}: row {i} stores {have}, nearest are {best}")
            mine = [j for (a, j) in extra if a == i]
            if Y is not None:
                ctx.eq(len(mine), max(0, kmin - sum((i, j) in want for j in range(len(X)))), f"{name}: additional pairs in row {i}")
            else:
                for j in mine:
                    okrow = sum((i, k) in want for k in range(len(X))) < kmin or sum((j, k) in want for k in range(len(X))) < kmin
                    ctx.true(okrow and (j, i) in got, f"{name}: additional pair {(i, j)} unjustified or not symmetric")
        want = {k: full[k] for k in got}
    else:
        if name.startswith("inexact") and not dense:  # pairs exactly at the cut-off: subject to rounding
            want = {k: v for k, v in want.items() if k in got or abs(v - (cut ** 2 if metric == "sqeuclidean" else cut)) > 1e-6}
        ctx.eq(sorted(got), sorted(want), f"{name}: stored pairs")
    for k in want:
        if not abs(got[k] - want[k]) <= tol:
            ctx.fail(f"{name}: distance {k} is {got[k]}, want {want[k]}")
    if Y is None:
        ctx.true(all(got.get((i, i)) == 0.0 for i in range(len(X))), f"{name}: diagonal")
        ctx.true(all(got.get((j, i)) == v for (i, j), v in got.items()), f"{name}: symmetry")


QUERIES1 = [[(0,)], [(1,)], [(3,)], [(5,)], [(0,), (1,)], [(5,), (1,), (1,)], [(2,), (-1,)]]
QUERIES2 = [[(0, 0)], [(1, 3)], [(0, 2)], [(4, 4)], [(0, 1), (1, 3)], [(4, 4), (0, 0), (0, 0)], [(1, 0), (-1, 0)]]


def run_cloud(ctx, X, backend):
    dim = len(X[0])
    Q = [None] + (QUERIES1 if dim == 1 else QUERIES2)
    tol = 1e-6 if backend == "inexact" else 1e-12
    for metric in ("euclidean", "sqeuclidean"):
        for cut in CUTS:
            for kmin in (None, 1, 2, 3) if backend in ("scipy.kdtree", "sklearn.balltree", "guess_optimal") else (None,):
                if kmin is not None and (kmin > len(X) or cut is None and backend == "guess_optimal"):
                    continue
                for n, Y in enumerate(Q):
                    dist = mk(backend, metric, cut, kmin)
                    Xa = np.array(X, dtype=float if n % 2 else np.int64)
                    Ya = None if Y is None else np.array(Y, dtype=float)
                    cx, cy = Xa.copy(), None if Y is None else Ya.copy()
                    M = dist(Xa, Ya)
                    compare(ctx, M, X, Y, metric, cut, kmin, f"{backend} {metric} cut {cut} kmin {kmin} X={X} Y={Y}", tol)
                    ctx.true(np.array_equal(Xa, cx) and (Y is None or np.array_equal(Ya, cy)), "input modified")
                    ctx.eq(dist.is_sparse if not (cut is None or math.isinf(cut)) else True, True, "is_sparse")
    if dim == 2:  # a query given as vector is one sample
        M = mk(backend, "euclidean", None)(np.array(X, float), np.array(Q[2][0], float))
        compare(ctx, M, X, [Q[2][0]], "euclidean", None, None, f"{backend} single vector", tol)
    ctx.raises(ValueError, lambda: mk(backend, "euclidean", None)(np.array(X, float), np.zeros((1, dim + 1))), "different numbers of features")
    ctx.state(X, backend)


def run_knn(ctx, X):
    from datafold.pcfold.distance import SklearnKNN, init_distance_algorithm

    dim = len(X[0])
    Q = [None] + (QUERIES1 if dim == 1 else QUERIES2)
    for metric in ("euclidean", "sqeuclidean"):
        for k in range(1, len(X) + 1):
            for Y in Q:
                if Y is None and k == 1:
                    continue  # only the sample itself: rejected by scikit-learn
                for how in ("class", "name"):
                    d = SklearnKNN(metric=metric, k=k) if how == "class" else init_distance_algorithm("sklearn.knn", metric=metric, k=k)
                    M = d(np.array(X, float), None if Y is None else np.array(Y, float))
                    shape, kind, got = observe(M)
                    QQ = X if Y is None else Y
                    ctx.eq((shape, kind), ((len(QQ), len(X)), "sparse"), f"knn {k} shape")
                    for i, q in enumerate(QQ):
                        row = {j: v for (a, j), v in got.items() if a == i}
                        best = sorted(val(metric, q, x) for x in X)[:k]
                        ctx.true(len(row) == k and np.allclose(sorted(row.values()), best, rtol=0, atol=1e-12), f"knn {metric} k={k} X={X} Y={Y} row {i}: {row} nearest {best}")
                        ctx.true(all(abs(v - val(metric, q, X[j])) <= 1e-12 for j, v in row.items()), f"knn {metric} {k} X={X} row {i}: values {row}")
                        if Y is None:
                            ctx.eq(row.get(i), 0.0, f"knn diagonal X={X}")
    ctx.state(X)


OTHER = {
    "cityblock": lambda a, b: sum(abs(x - y) for x, y in zip(a, b)),
    "chebyshev": lambda a, b: max(abs(x - y) for x, y in zip(a, b)),
    "minkowski": lambda a, b: sum(abs(x - y) ** 3 for x, y in zip(a, b)) ** (1 / 3),
}


def run_metric(ctx, X, metric):
    from datafold.pcfold.distance import compute_distance_matrix

    f = OTHER[metric]
    opts = {"p": 3} if metric == "minkowski" else {}
    Q = [None] + QUERIES2
    for backend in ("brute",) + (("guess_optimal",) if not opts else ()):
        for cut in (None, 1, 2, 2.5):
            for Y in Q:
                M = compute_distance_matrix(np.array(X, float), None if Y is None else np.array(Y, float), metric=metric, cut_off=cut, backend=backend, **opts)
                shape, kind, got = observe(M)
                QQ = X if Y is None else Y
                want = {(i, j): float(f(q, x)) for i, q in enumerate(QQ) for j, x in enumerate(X) if cut is None or f(q, x) <= cut}
                ctx.eq(kind, "dense" if cut is None else "sparse", "storage")
                ctx.eq(sorted(got), sorted(want), f"{metric} {backend} {cut} X={X} Y={Y}")
                ctx.true(all(abs(got[k] - want[k]) < 1e-12 for k in want), f"{metric} values")
    ctx.state(X, metric)


# --- histories of one object
A = ((0,), (2,), (3,))
B = ((1,), (2,), (7,), (0,))
C = ((5,), (2,), (3,))  # same shape as A
YS = {"y": [(1,)], "z": [(3,), (6,)]}
OPS = [(n, q) for n in "ABC" for q in (None, "y", "z")]


def run_history(ctx, backend, metric, cut, kmin, length, first):
    clouds = {"A": A, "B": B, "C": C}

    def fresh(n, q):
        d = mk_(backend, metric, cut, kmin)
        return observe(d(np.array(clouds[n], float), None if q is None else np.array(YS[q], float)))

    def mk_(backend, metric, cut, kmin):
        from datafold.pcfold.distance import SklearnKNN

        return SklearnKNN(metric=metric, k=2) if backend == "knn" else mk(backend, metric, cut, kmin)

    want = {op: fresh(*op) for op in OPS}
    for rest in itertools.product(OPS, repeat=length - 1):
        seq = (first,) + rest
        d = mk_(backend, metric, cut, kmin)
        buf = np.zeros((3, 1))
        for n, (c, q) in enumerate(seq):
            pts = np.array(clouds[c], float)
            if len(pts) == 3:  # the same buffer is reused with new content
                buf[:] = pts
                pts = buf
            got = observe(d(pts, None if q is None else np.array(YS[q], float)))
            ctx.eq(got, want[c, q], f"{backend} {metric} {cut} {kmin}: evaluation {n} of {seq}")
    ctx.state(backend, metric, cut, kmin, length, first)


def run_registry(ctx, order):
    """the list of available algorithms does not depend on what was instantiated before"""
    from datafold.pcfold.distance import GuessOptimalDist, get_backend_distance_algorithm, _all_available_distance_algorithm

    want_sym = {"brute", "scipy.kdtree", "sklearn.balltree", "guess_optimal"}
    for o in order:
        if o == "list":
            ctx.eq(sorted(b.name for b in _all_available_distance_algorithm()), sorted(want_sym | {"sklearn.knn"}), "all algorithms")
        elif o == "sym":
            ctx.eq(sorted(b.name for b in _all_available_distance_algorithm(require_symmetric=True)), sorted(want_sym), f"symmetric algorithms after {order}")
        elif o == "guess_true":
            GuessOptimalDist(is_symmetric=True)
        elif o == "guess_false":
            GuessOptimalDist(is_symmetric=False)
        else:
            ctx.eq(get_backend_distance_algorithm("guess_optimal", require_symmetric=True), GuessOptimalDist, "guess_optimal is available")
    ctx.state(order)


RUN = {"cloud": run_cloud, "knn": run_knn, "metric": run_metric, "history": run_history, "registry": run_registry}


def cases(tier):
    th = tier == "thorough"
    g1 = [(v,) for v in (0, 1, 2)]
    g2 = list(itertools.product((0, 1), (0, 1, 3)))
    clouds = [c for n in ((2, 3, 4) if not th else (2, 3, 4, 5)) for c in itertools.product(g1, repeat=n)]
    clouds += [c for n in ((2, 3) if not th else (2, 3, 4)) for c in itertools.product(g2, repeat=n) if n < 4 or len(set(c)) >= 3]
    for order in itertools.product(("sym", "list", "guess_true", "guess_false", "get"), repeat=3):
        yield "registry", (order,)
    for length in (1, 2, 3) if not th else (1, 2, 3, 4):
        for backend in ("brute", "scipy.kdtree", "sklearn.balltree", "guess_optimal", "knn"):
            for metric in ("euclidean", "sqeuclidean") if backend != "brute" else ("euclidean",):
                for cut, kmin in ((None, None),) if backend == "knn" else ((1, None), (None, None)) if backend in ("brute", "guess_optimal") else ((1, None), (1, 2), (None, None)):
                    for first in OPS:
                        yield "history", (backend, metric, cut, kmin, length, first)
    for n, c in enumerate(clouds):
        if len(c) == 3 and len(c[0]) == 2 and not th and n % 3 and len(set(c)) > 1:
            continue
        for b in BACKENDS:
            yield "cloud", (c, b)
        yield "knn", (c,)
        if len(c[0]) == 2:
            yield "metric", (c, ("cityblock", "chebyshev", "minkowski")[n % 3])
