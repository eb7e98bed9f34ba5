"""C16: kernels are their documented formulas on dense and sparse, pairwise and component-wise distances."""
import itertools
import math
import numpy as np
import scipy.sparse
import tscmodel as tm

PROPERTY = "C16"
BOUND = """
every point cloud of 2-4 samples on {0,1,2} and 2-3 samples on a 2D grid (order, duplicates) x query sets (coincident, near, far) x
radial basis kernels {gaussian (number, function), multiquadric, inverse multiquadric, inverse quadratic, thinplate, cubic, quintic} x
epsilon {0.5, 1, 3} x {dense, cut-off 1.5 brute, kd-tree}; continuous nearest neighbours for every k x delta; diffusion map kernel over
alpha {0, 0.5, 1} x stochastic x symmetrized x internal {gaussian, continuous nearest neighbours, k-nearest neighbours}; landmark kernel
over alpha; cone kernel over zeta {0, 0.5, 0.9} x epsilon x accuracy {2, 4} x collections; kernel(X), kernel(X, Y) repeated in every
order of up to 3 evaluations, evaluate(D). Oracle: the formulas of the documentation written with Python loops over point pairs.
"""
G1 = [(v,) for v in (0, 1, 2)]
Q1 = [[(0,)], [(1,)], [(3,)], [(2,), (1,), (1,)], [(4,), (0,)]]
Q2 = [[(0, 0)], [(1, 3)], [(2, 2), (0, 1)], [(1, 0), (1, 0)]]


def d2(a, b):
    return float(sum((x - y) ** 2 for x, y in zip(a, b)))


def rbf(name, eps):
    """documented formula as function of the squared distance"""
    if name == "gauss":
        return lambda s: math.exp(-s / (2 * eps))
    if name == "multi":
        return lambda s: math.sqrt(s / (2 * eps) + 1)
    if name == "invmulti":
        return lambda s: 1 / math.sqrt(s / (2 * eps) + 1)
    if name == "invquad":
        return lambda s: 1 / (s / (2 * eps) + 1)
    if name == "thin":
        return lambda s: 0.0 if s == 0 else s * math.log(math.sqrt(s))
    if name == "cubic":
        return lambda s: math.sqrt(s) ** 3
    if name == "quintic":
        return lambda s: math.sqrt(s) ** 5
    raise KeyError(name)


def kern(name, eps, dist):
    from datafold.pcfold import kernels as kk

    d = dict(dist) if dist is not None else None
    if name == "gauss":
        return kk.GaussianKernel(epsilon=eps, distance=d)
    if name == "multi":
        return kk.MultiquadricKernel(epsilon=eps, distance=d)
    if name == "invmulti":
        return kk.InverseMultiquadricKernel(epsilon=eps, distance=d)
    if name == "invquad":
        return kk.InverseQuadraticKernel(epsilon=eps)
    if name == "thin":
        return kk.ThinplateKernel(distance=d)
    if name == "cubic":
        return kk.CubicKernel(distance=d)
    return kk.QuinticKernel(distance=d)


DISTS = {"dense": None, "brute": {"cut_off": 1.5, "backend": "brute"}, "kd": {"cut_off": 1.5, "backend": "scipy.kdtree"}}


def stored(M):
    if not scipy.sparse.issparse(M):
        M = np.asarray(M)
        return "dense", {(i, j): float(M[i, j]) for i in range(M.shape[0]) for j in range(M.shape[1])}
    M = M.tocoo()
    out = {}
    for i, j, v in zip(M.row, M.col, M.data):
        out[int(i), int(j)] = out.get((int(i), int(j)), 0.0) + float(v)
    return "sparse", out


def same(ctx, M, want, kind, shape, name, tol=1e-10):
    ctx.step()
    ctx.eq(tuple(M.shape), tuple(shape), f"{name}: shape")
    k, got = stored(M)
    ctx.eq(k, kind, f"{name}: storage")
    ctx.eq(sorted(got), sorted(want), f"{name}: stored entries")
    for key, w in want.items():
        if not abs(got[key] - w) <= tol * max(1.0, abs(w)):
            ctx.fail(f"{name}: entry {key} is {got[key]!r}, want {w!r}")


def pairs(X, Y, cut):
    Q = X if Y is None else Y
    return {(i, j): d2(q, x) for i, q in enumerate(Q) for j, x in enumerate(X) if cut is None or d2(q, x) <= cut * cut}


def arr(X):
    return None if X is None else np.array(X, float)


RBFS = [("gauss", e) for e in (0.5, 1, 3)] + [(n, e) for n in ("multi", "invmulti", "invquad") for e in (0.5, 3)] + [(n, None) for n in ("thin", "cubic", "quintic")]


def queries(X):
    return [None] + (Q1 if len(X[0]) == 1 else Q2)


def run_rbf(ctx, X):
    for (name, eps), (dn, dist) in itertools.product(RBFS, DISTS.items()):
        if name == "invquad" and dist:
            continue  # has no distance parameter
        cut = 1.5 if dist else None
        f = rbf(name, eps)
        k = kern(name, eps, dist)
        for Y in queries(X):
            want = {p: f(s) for p, s in pairs(X, Y, cut).items()}
            n = len(X) if Y is None else len(Y)
            Xa, Ya = arr(X), arr(Y)
            label = f"{name} {eps} {dn} X={X} Y={Y}"
            same(ctx, k(Xa, Ya), want, "sparse" if dist else "dense", (n, len(X)), label)
            ctx.true(np.array_equal(Xa, arr(X)) and (Y is None or np.array_equal(Ya, arr(Y))), f"{label}: points modified")
            D = k.distance(Xa, Ya)
            E = D.copy()
            same(ctx, k.evaluate(D), want, "sparse" if dist else "dense", (n, len(X)), label + " evaluate")
            ctx.eq(stored(D), stored(E), f"{label}: distance matrix modified")
            if name == "gauss":
                seen = []

                def fun(data):
                    seen.append(np.array(data).ravel().tolist())
                    return eps

                same(ctx, type(k)(epsilon=fun, distance=dict(dist) if dist else None)(Xa, Ya), want, "sparse" if dist else "dense", (n, len(X)), label + " with function")
                ctx.eq(sorted(seen[0]), sorted(pairs(X, Y, cut).values()), f"{label}: function receives the distances")
    ctx.state("rbf", X)


def kth(X, Y, k, cut):
    """distance to the k-th nearest reference sample (the sample itself included)"""
    Q = X if Y is None else Y
    return [sorted(math.sqrt(d2(q, x)) for x in X)[k - 1] for q in Q]


def run_cknn(ctx, X):
    from datafold.pcfold.kernels import ContinuousNNKernel

    for k in range(1, len(X) + 1):
        for delta in (0.7, 1, 1.3, 2.5):
            for dn, dist in list(DISTS.items()) + [("kmin", {"cut_off": 0.5, "backend": "scipy.kdtree", "k": k})]:
                # ratios exactly equal to delta are decided by rounding: skip such pairs
                kx = kth(X, None, k, None)
                user = None if dist is None else dict(dist)
                mk = lambda: ContinuousNNKernel(k_neighbor=k, delta=delta, distance=user)
                K = mk()
                ctx.eq(user, dist, "the distance options of the caller are modified")
                label = f"cknn k={k} delta={delta} {dn} X={X}"
                if dn == "brute" and any(sum(d2(q, x) <= 2.25 for x in X) < k for q in X):
                    ctx.raises(Exception, lambda: K(arr(X)), f"{label}: too few neighbors")
                    continue
                if min(kx) == 0:
                    ctx.raises(ZeroDivisionError, lambda: K(arr(X)), f"{label}: zero bandwidth")
                    continue
                for Y in queries(X):
                    ky = kth(X, Y, k, None)
                    if Y is not None and (min(ky) == 0 or k > len(X) - 1 or dn == "brute" and any(sum(d2(q, x) <= 2.25 for x in X) < k for q in Y)):
                        continue
                    M = K(arr(X), arr(Y))
                    ctx.step()
                    kind, got = stored(M)
                    ctx.eq(kind, "sparse", "adjacency is sparse")
                    cut = {"dense": None, "brute": 1.5, "kd": 1.5, "kmin": 0.5}[dn]
                    for (i, j), s in pairs(X, Y, None).items():
                        ratio = math.sqrt(s) / math.sqrt(ky[i] * kx[j])
                        if abs(ratio - delta) < 1e-9:
                            continue
                        inside = cut is None or s <= cut * cut
                        g = (i, j) in got and got[i, j] != 0
                        if ratio >= delta:
                            ctx.true(not g, f"{label} Y={Y}: pair {(i, j)} with ratio {ratio} is connected")
                        elif inside:
                            ctx.true(g, f"{label} Y={Y}: pair {(i, j)} with ratio {ratio} is not connected")
                    if kind == "sparse":
                        ctx.true(all(v == 1 for v in got.values()), f"{label}: weights are {set(got.values())}")
                    if Y is None:
                        D = K.distance(arr(X))
                        E = D.copy()
                        K2 = mk()
                        ctx.eq(stored(K2.evaluate(D, is_pdist=True)), (kind, got), f"{label} evaluate")
                        ctx.eq(stored(D), stored(E), f"{label}: distance matrix modified")
                    else:
                        D = K.distance(arr(X), arr(Y))
                        E = D.copy()
                        ctx.eq(stored(K.evaluate(D)), (kind, got), f"{label} evaluate")
                        ctx.eq(stored(D), stored(E), f"{label}: distance matrix modified")
    ctx.state("cknn", X)


def dense(want, n, m):
    K = [[0.0] * m for _ in range(n)]
    for (i, j), v in want.items():
        K[i][j] = v
    return K


def dmap_expected(KX, KY, alpha, stochastic, symmetrize):
    """KX pairwise kernel values (dict), KY component-wise; returns the two expected matrices as dict and the row sums"""
    def rs(K):
        out = {}
        for (i, j), v in K.items():
            out[i] = out.get(i, 0.0) + v
        return out

    qx = rs(KX)
    W = {p: v / (qx[p[0]] ** alpha * qx[p[1]] ** alpha) for p, v in KX.items()} if stochastic else dict(KX)
    dx = rs(W)
    P = {p: v / dx[p[0]] for p, v in W.items()} if stochastic else W
    S = {p: v / math.sqrt(dx[p[0]] * dx[p[1]]) for p, v in W.items()} if stochastic else W
    if KY is None:
        return P, S, dx
    qy = rs(KY)
    V = {p: v / (qy[p[0]] ** alpha * qx[p[1]] ** alpha) for p, v in KY.items()} if stochastic else dict(KY)
    dy = rs(V)
    return {p: v / dy[p[0]] for p, v in V.items()} if stochastic else V


def run_dmap(ctx, X):
    from datafold.pcfold.kernels import DmapKernelFixed, GaussianKernel
    from datafold.pcfold.distance import SklearnKNN

    for dn in ("dense", "brute", "kd", "knn"):
        dist = DISTS.get(dn)
        if dn == "knn" and len(set(X)) < len(X):
            continue  # ties
        cut = 1.5 if dist else None
        f = rbf("gauss", 0.8)

        def internal():
            if dn == "knn":
                return GaussianKernel(0.8, distance=SklearnKNN(metric="sqeuclidean", k=2))
            return kern("gauss", 0.8, dist)

        if dn == "knn":
            near = [sorted(range(len(X)), key=lambda j: d2(X[i], X[j]))[:3] for i in range(len(X))]
            if any(len(r) > 2 and d2(X[i], X[r[1]]) == d2(X[i], X[r[2]]) for i, r in enumerate(near)):
                continue
            KX = {(i, j): f(d2(X[i], X[j])) for i, r in enumerate(near) for j in r[:2]}
        else:
            KX = {p: f(s) for p, s in pairs(X, None, cut).items()}
        n = len(X)
        for alpha, sto, sym in itertools.product((0, 0.5, 1), (True, False), (True, False)):
            P, S, dx = dmap_expected(KX, None, alpha, sto, sym)
            K = DmapKernelFixed(internal(), is_stochastic=sto, alpha=alpha, symmetrize_kernel=sym)
            label = f"dmap {dn} alpha={alpha} stochastic={sto} symmetrize={sym} X={X}"
            conj = sto and sym and dn != "knn"
            ctx.eq(bool(K.is_conjugate), conj, f"{label}: is_conjugate")
            ctx.eq(bool(K.is_symmetric), dn != "knn" and (sym or not sto), f"{label}: is_symmetric")
            kind = "dense" if dn == "dense" else "sparse"
            Xa = arr(X)
            M = K(Xa)
            same(ctx, M, S if conj else P, kind, (n, n), label)
            if conj:
                b = K.basis_change_matrix_.diagonal()
                ctx.close(b, [1 / math.sqrt(dx[i]) for i in range(n)], f"{label}: basis change")
            else:
                ctx.eq(K.basis_change_matrix_, None, f"{label}: basis change")
            K2 = DmapKernelFixed(internal(), is_stochastic=sto, alpha=alpha, symmetrize_kernel=sym)
            D = K2.distance(Xa)
            E = D.copy()
            same(ctx, K2.evaluate(D, is_pdist=True), S if conj else P, kind, (n, n), label + " evaluate")
            ctx.eq(stored(D), stored(E), f"{label}: distance matrix modified")
            ctx.raises(AttributeError, lambda: K(Xa), f"{label}: reference data cannot be reset")
            if dn == "knn":
                continue
            # component-wise, in every order and repeated
            qs = [q for q in queries(X)[1:] if all(any(d2(y, x) <= (cut or 99) ** 2 for x in X) for y in q)] + [list(X)]
            for Y in qs + qs[:2]:
                KY = {p: f(s) for p, s in pairs(X, Y, cut).items()}
                same(ctx, K(Xa, arr(Y)), dmap_expected(KX, KY, alpha, sto, sym), kind, (len(Y), n), f"{label} Y={Y}")
                D = K.distance(Xa, arr(Y))
                same(ctx, K.evaluate(D), dmap_expected(KX, KY, alpha, sto, sym), kind, (len(Y), n), f"{label} Y={Y} evaluate")
            if K.row_sums_alpha_ is not None:
                qx = {}
                for (i, j), v in KX.items():
                    qx[i] = qx.get(i, 0.0) + v
                ctx.close(K.row_sums_alpha_, [qx[i] ** alpha for i in range(n)], f"{label}: row sums after evaluations")
    ctx.state("dmap", X)


def rose_expected(K, n, m, alpha, fit=None):
    """K dict (data i, landmark j). Returns matrix D^-1/2 K~ and what later evaluations need"""
    M = np.array(dense(K, n, m))
    dens = M.sum(axis=0) if fit is None else fit[0]
    if alpha > 0:
        rows = M.sum(axis=1)
        M = M / np.outer(rows ** alpha, dens ** alpha)
    w = M.sum(axis=0) if fit is None else fit[1]
    deg = np.sqrt(M @ w)
    with np.errstate(divide="ignore", invalid="ignore"):
        out = M / deg[:, None]
    out[deg == 0] = 0
    return {p: out[p] for p in K}, (dens, w)


def run_roseland(ctx, X):
    """X are the landmarks; data sets are built from X and the queries"""
    from datafold.pcfold.kernels import RoselandKernel

    f = rbf("gauss", 0.8)
    for dn, dist in DISTS.items():
        cut = 1.5 if dist else None
        for alpha in (0, 0.5, 1):
            for data in queries(X)[1:3] + [list(X), list(X) + queries(X)[2]]:
                KX = {p: f(s) for p, s in pairs(X, data, cut).items()}
                cols = {j for _, j in KX}
                rows = {i for i, _ in KX}
                if len(cols) < len(X) or len(rows) < len(data):
                    continue
                k = RoselandKernel(kern("gauss", 0.8, dist), alpha=alpha)
                label = f"landmarks {dn} alpha={alpha} X={X} data={data}"
                want, fit = rose_expected(KX, len(data), len(X), alpha)
                same(ctx, k(arr(X), arr(data)), want, "sparse" if dist else "dense", (len(data), len(X)), label)
                for Y in queries(X)[1:] + [data]:
                    KY = {p: f(s) for p, s in pairs(X, Y, cut).items()}
                    if len({i for i, _ in KY}) < len(Y):
                        continue
                    want2, _ = rose_expected(KY, len(Y), len(X), alpha, fit)
                    same(ctx, k(arr(X), arr(Y)), want2, "sparse" if dist else "dense", (len(Y), len(X)), f"{label} Y={Y}")
                ctx.raises(ValueError, lambda: k(arr(X)), "Y is required")
    ctx.state("roseland", X)


# --- cone kernel
CL = {
    "one": ((0,), (8,), (0,)),
    "uns": ((5, 2), (6, 7), (0, 0)),
    "off": ((2, 1), (6, 6), (2, 0)),
}
WEIGHTS = {2: [-1 / 2, 0, 1 / 2], 4: [1 / 12, -8 / 12, 0, 8 / 12, -1 / 12]}


def cdata(layout, q):
    out = []
    ids, lens, offs = CL[layout]
    for p, n in enumerate(lens):
        t = np.arange(n) + 3 * q
        out.append(np.column_stack([np.sin(0.7 * t + p), 0.3 * t * (1 - 2 * p) + 0.2 * np.cos(1.3 * t)]))
    if q == 2:  # constant series: no velocity
        out[0][:] = out[0][0]
    return out


def ctsc(layout, axis, q):
    ids, lens, offs = CL[layout]
    return tm.build((["a", "b"], [(i, [(t, tuple(r)) for t, r in zip(tm.taxis(axis, n, o), d)]) for i, n, o, d in zip(ids, lens, offs, cdata(layout, q))]))


def flow(layout, axis, acc, q, dt):
    """list of (id, time, x, xi): the velocity of the central scheme, labelled with its last sample"""
    ids, lens, offs = CL[layout]
    w = WEIGHTS[acc]
    out = []
    for i, n, o, d in sorted(zip(ids, lens, offs, cdata(layout, q)), key=lambda r: r[0]):  # time_derivative sorts the IDs
        ts = tm.taxis(axis, n, o)
        for k in range(acc, n):
            xi = sum(w[m] * d[k - acc + m] for m in range(acc + 1)) / dt
            out.append((i, ts[k], d[k], xi))
    return out


def run_cone(ctx, layout, qlayout, axis, acc, zeta, eps):
    from datafold.pcfold.kernels import ConeKernel

    dt = {"int": 1.0, "int3": 3.0, "float01": 0.1, "float": 0.5}[axis]
    X, F = ctsc(layout, axis, 0), flow(layout, axis, acc, 0, dt)
    dt = float(X.delta_time)
    F = flow(layout, axis, acc, 0, dt)

    def cosine(xi, w):
        a, b = np.linalg.norm(xi), np.linalg.norm(w)
        return 0.0 if a * b <= 1e-14 else float(xi @ w) / (a * b)

    def value(y, xiy, x, xix):
        w = x - y
        nn = np.linalg.norm(xiy) * np.linalg.norm(xix)
        if nn == 0:
            return 1.0
        c = math.sqrt((1 - zeta * cosine(xiy, w) ** 2) * (1 - zeta * cosine(xix, -w) ** 2))
        return math.exp(-float(w @ w) / (eps * dt ** 2 * nn) * c)

    def check(got, Q, name):
        ctx.step()
        ctx.eq([(int(i), tm.norm_t(t)) for i, t in got.index], [(i, tm.norm_t(t)) for i, t, _, _ in Q], f"{name}: labels")
        ctx.eq(list(got.columns), [f"X{k}" for k in range(len(F))], f"{name}: columns")
        ctx.close(got.to_numpy(), [[value(y, xiy, x, xix) for _, _, x, xix in F] for _, _, y, xiy in Q], name, rtol=1e-9, atol=1e-12)

    obs = tm.observe(X)
    k = ConeKernel(zeta=zeta, epsilon=eps, fd_accuracy=acc)
    check(k(X), F, f"cone {layout} zeta {zeta} eps {eps} acc {acc}")
    for q in (1, 2, 0):
        Y = ctsc(qlayout, axis, q)
        yo = tm.observe(Y)
        check(k(X, Y), flow(qlayout, axis, acc, q, dt), f"cone {layout} {qlayout}/{q} zeta {zeta} eps {eps} acc {acc}")
        ctx.eq(tm.observe(Y), yo, "Y modified")
    k2 = ConeKernel(zeta=zeta, epsilon=eps, fd_accuracy=acc)
    check(k2(X, ctsc(qlayout, axis, 1)), flow(qlayout, axis, acc, 1, dt), "cone component-wise without pairwise evaluation")
    ctx.eq(tm.observe(X), obs, "X modified")
    ctx.raises(TypeError, lambda: k(X.to_numpy()), "arrays are rejected")
    ctx.state("cone", layout, qlayout, axis, acc, zeta, eps)


def run_dict(ctx, first, second):
    """distance options are the caller's: the same dict serves several kernels"""
    from datafold.pcfold import kernels as kk

    d = {"cut_off": 1.5}
    X = arr([(0,), (1,), (2,)])
    for name in (first, second):
        k = {"cknn": lambda: kk.ContinuousNNKernel(1, 1.5, distance=d), "cone": lambda: None}.get(name, lambda: getattr(kk, name)(distance=d))()
        ctx.eq(d, {"cut_off": 1.5}, f"{name} modified the distance options")
    bad = {"metric": "cityblock"}
    for n in (first, second):
        if n != "cknn":
            ctx.raises(ValueError, lambda: getattr(kk, n)(distance=bad), f"{n}: metric is fixed")
            ctx.eq(bad, {"metric": "cityblock"}, f"{n} modified the rejected options")
    ctx.state(first, second)




BADNUM = (0, 0.0, -1, -1e-12, "a", None, [1.0])


def run_params(ctx, cls, which):
    """kernel parameters outside their range are refused, at construction or when the kernel is used; the boundary values are accepted"""
    import datafold.pcfold.kernels as k
    from datafold.pcfold import TSCDataFrame

    X = arr([(0.0, 0.0), (1.0, 0.5), (0.3, 1.0), (2.0, 1.0)])
    T = TSCDataFrame.from_array(np.array([[np.sin(i), np.cos(2 * i)] for i in range(12)]), time_values=0.1 * np.arange(12))
    C = getattr(k, cls)
    D = X if cls != "ConeKernel" else T
    base = {"ContinuousNNKernel": {"k_neighbor": 2, "delta": 1.0}}.get(cls, {})

    def use(**kw):
        if cls in ("DmapKernelFixed", "RoselandKernel"):
            kk = C(internal_kernel=k.GaussianKernel(epsilon=1.0), **kw)
            return kk(X) if cls == "DmapKernelFixed" else kk(X, X[:2])
        return C(**{**base, **kw})(D)

    bad = {
        "epsilon": BADNUM if cls != "ConeKernel" else (-1, -1e-12, "a", None), "alpha": (-0.1, 1.1, -1, 2, "a", None), "zeta": (-0.1, 1.0, 1, 1.5, "a", None), "fd_accuracy": (0, -2, 1.5, "a", None),
        "k_neighbor": (0, -1, 1.5, 5, "a"), "delta": (0, -1.0, "a", None),
    }[which]
    good = {"epsilon": (1e-3, 1, np.float64(2.5), np.int64(3)), "alpha": (0, 1, 0.5, np.float64(0.25)), "zeta": (0, 0.5, 0.99), "fd_accuracy": (2, 4), "k_neighbor": (2, 4, np.int64(3)), "delta": (0.5, 1, np.float64(2.0))}[which]
    for v in bad:
        ctx.step()
        ctx.raises((ValueError, TypeError), lambda: use(**{which: v}), f"{cls} {which}={v!r}")
    for v in good:
        ctx.step()
        use(**{which: v})
    ctx.state("params", cls, which)


PARAMS = [(c, "epsilon") for c in ("GaussianKernel", "MultiquadricKernel", "InverseMultiquadricKernel", "InverseQuadraticKernel", "ConeKernel")] + [
    ("DmapKernelFixed", "alpha"), ("RoselandKernel", "alpha"), ("ConeKernel", "zeta"), ("ConeKernel", "fd_accuracy"), ("ContinuousNNKernel", "k_neighbor"), ("ContinuousNNKernel", "delta"),
]


def cases(tier):
    for c in PARAMS:
        yield "params", c
    th = tier == "thorough"
    names = ("GaussianKernel", "MultiquadricKernel", "InverseMultiquadricKernel", "ThinplateKernel", "CubicKernel", "QuinticKernel", "cknn")
    for a, b in itertools.product(names, repeat=2):
        yield "dict", (a, b)
    g2 = list(itertools.product((0, 1), (0, 1, 3)))
    clouds = [c for n in ((2, 3, 4) if th else (2, 3)) for c in itertools.product(G1, repeat=n)]
    clouds += [c for c in itertools.product(G1, repeat=4) if len(set(c)) == 3] if not th else []
    clouds += [c for n in (2, 3) for c in itertools.product(g2, repeat=n) if th or n == 2 or len(set(c)) == 3 and c == tuple(sorted(c))]
    for c in clouds:
        yield "rbf", (c,)
        yield "cknn", (c,)
        yield "dmap", (c,)
        yield "roseland", (c,)
    for layout, ql in itertools.product(CL, repeat=2):
        for axis in ("int", "float01", "int3"):
            for acc in (2, 4):
                for zeta in (0, 0.5, 0.9):
                    for eps in (0.5, 2):
                        yield "cone", (layout, ql, axis, acc, zeta, eps)


RUN = {"params": run_params, "rbf": run_rbf, "cknn": run_cknn, "dmap": run_dmap, "roseland": run_roseland, "cone": run_cone, "dict": run_dict}
