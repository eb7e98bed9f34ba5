"""C19: geometric harmonics and Laplacian pyramids: the documented interpolants, for every point set and stopping rule."""
import itertools
import math
import warnings
import numpy as np
import tscmodel as tm
from c16_kernels import rbf, pairs, arr, d2, kern, dense, dmap_expected
from c18_dmap import spectrum, distinct, quiet, CUT, DIST, new_points

PROPERTY = "C19"
CASE_LIMIT = 200
BOUND = """
every point cloud of 3-5 samples on {0,1,2,4} and 2D clouds x target functions {one, two columns, vector} x geometric harmonics: every
number of eigenpairs x {plain, stochastic} x alpha x {dense, cut-off} ; queries coincident/near/outside, one or several; score with every
weighting and aggregation; two models sharing one kernel in every order of fit and predict. Laplacian pyramids: clouds x targets
(consistent, conflicting duplicates, constant, linear) x {tolerance, auto-adaptive, both} x mu x initial scale x alpha, including
refits. Oracle: dense linear algebra on loop-written kernels; the pyramid recursion written with Python loops.
"""
EPS = 0.8
F = rbf("gauss", EPS)


def clouds(tier):
    out = []
    for n in (3, 4, 5):
        for c in itertools.combinations((0, 1, 2, 4, 7), n):
            out.append(tuple((v,) for v in c))
            out.append(tuple((v,) for v in (c[1:] + c[:1])[::-1]))
    grid = [(0, 0), (0, 1), (1, 0), (2, 1), (1, 3)]
    for n in (3, 4, 5):
        out += list(itertools.combinations(grid, n))
    return out


def targets(X):
    v = [sum((k + 1) * c for k, c in enumerate(x)) for x in X]
    one = np.array([math.sin(1.3 * s) + 0.2 * s for s in v])
    two = np.column_stack([one, [0.5 * s * s - 1 for s in v]])
    return {"vector": one, "column": one[:, None], "two": two}


def gh_matrix(X, Y, dn, alpha, sto):
    KX = {p: F(s) for p, s in pairs(X, None, CUT[dn]).items()}
    n = len(X)
    if Y is None:
        return np.array(dense(dmap_expected(KX, None, alpha, sto, True)[0], n, n))
    KY = {p: F(s) for p, s in pairs(X, Y, CUT[dn]).items()}
    if sto and len({i for i, _ in KY}) < len(Y):
        return None
    return np.array(dense(dmap_expected(KX, KY, alpha, sto, True), len(Y), n))


def shape_of(pred, n, yname):
    return (n, 2) if yname == "two" else (n,)


def run_gh(ctx, X):
    from datafold.dynfold.outofsample import GeometricHarmonicsInterpolator as GH

    n = len(X)
    for dn, sto, alpha, sym in itertools.product(("dense", "brute"), (False, True), (0, 1), (True, False)):
        if not sto and alpha == 0:
            continue
        M = gh_matrix(X, None, dn, alpha, sto)
        if sto and not sym and not distinct(M):
            continue
        for k in range(1, n):
            if sto and not sym and k == n - 1:
                continue
            for yname, y in targets(X).items():
                label = f"harmonics {dn} stochastic={sto} alpha={alpha} symmetrize={sym} k={k} y={yname} X={X}"
                ctx.step()
                user = kern("gauss", EPS, DIST[dn])
                m = GH(user, n_eigenpairs=k, is_stochastic=sto, alpha=alpha, symmetrize_kernel=sym)
                Xa, ya = arr(X), y.copy()
                quiet(m.fit, Xa, ya, store_kernel_matrix=True)
                ctx.true(np.array_equal(Xa, arr(X)) and np.array_equal(ya, y) and m.kernel is user, "arguments")
                val, vec = m.eigenvalues_, np.asarray(m.eigenvectors_)
                spectrum(ctx, val, vec, M, k, label)
                K = m.kernel_matrix_
                ctx.close(K.toarray() if hasattr(K, "toarray") else K, M, f"{label}: stored kernel matrix")
                if min(abs(val)) < 1e-5:
                    continue
                Y2 = y if y.ndim == 2 else y[:, None]
                for Y in new_points(X) + [list(X), [X[1]]]:
                    V = gh_matrix(X, Y, dn, alpha, sto)
                    if V is None:
                        continue
                    harmonics = V @ vec / val
                    want = harmonics @ (vec.T @ Y2)
                    got = quiet(m.predict, arr(Y))
                    ctx.step()
                    want = want if yname == "two" else want[:, 0]
                    ctx.eq(got.shape, want.shape, f"{label} predict {Y}: shape")
                    ctx.close(got, want, f"{label}: predict {Y}", rtol=1e-6, atol=1e-7)
                if not sto:
                    proj = vec @ np.linalg.solve(vec.T @ vec, vec.T @ Y2)
                    p = quiet(m.predict, arr(X))
                    ctx.close(p.reshape(proj.shape), proj, f"{label}: training values are projected onto the harmonics", rtol=1e-6, atol=1e-7)
                score(ctx, m, X, Y2, yname, label)
    ctx.state("gh", X)


def score(ctx, m, X, Y2, yname, label):
    for Q in (list(X), [X[0]], list(X)[1:]):
        t = Y2[: len(Q)] + 0.3 * np.arange(len(Q))[:, None] + 0.1
        p = quiet(m.predict, arr(Q)).reshape(len(Q), -1)
        for w in (None, np.arange(1, len(Q) + 1.0)):
            ww = np.ones(len(Q)) if w is None else w
            mse = np.array([sum(ww[i] * (t[i, c] - p[i, c]) ** 2 for i in range(len(Q))) / ww.sum() for c in range(t.shape[1])])
            for multi in ("raw_values", "uniform_average", np.array([0.25, 0.75])):
                if yname != "two" and not isinstance(multi, str):
                    continue
                name = f"{label}: score {len(Q)} weights {w is not None} {multi}"
                got = quiet(m.score, arr(Q), t if yname != "vector" else t[:, 0], sample_weight=w, multioutput=multi)
                ctx.step()
                if isinstance(multi, str) and multi == "raw_values":
                    want = -np.sqrt(mse) if len(mse) > 1 else -np.sqrt(mse[0])
                elif isinstance(multi, str):
                    want = -np.sqrt(mse.mean())
                else:
                    want = -np.sqrt((mse * multi).sum())
                ctx.close(np.asarray(got), np.asarray(want), name)


def run_share(ctx, kind, order):
    """two models with one kernel object: each behaves as if alone"""
    from datafold.dynfold.outofsample import GeometricHarmonicsInterpolator as GH
    from datafold.pcfold.kernels import ContinuousNNKernel, GaussianKernel

    def mk():
        return ContinuousNNKernel(k_neighbor=3, delta=1.2) if kind == "cknn" else GaussianKernel(lambda d: np.median(np.asarray(d)) + 0.1)

    data = {
        "a": (np.array([[0.0], [1], [2.2], [3.7], [5]]), np.array([1.0, 0, 2, 1, -1])),
        "b": (np.array([[0.0], [1], [2], [3.5], [5.5], [8.5]]), np.array([0.0, 3, 1, 1, 5, 2])),
    }
    Q = np.array([[0.3], [2.9], [4.6]])
    want = {}
    for key, (X, y) in data.items():
        want[key] = quiet(quiet(GH(mk(), n_eigenpairs=3).fit, X, y).predict, Q)
    shared = mk()
    models = {key: GH(shared, n_eigenpairs=3) for key in data}
    fitted = set()
    for op in order:
        key = op[1]
        if op[0] == "f":
            quiet(models[key].fit, *data[key])
            fitted.add(key)
        elif key in fitted:
            ctx.step()
            ctx.close(quiet(models[key].predict, Q), want[key], f"shared {kind} kernel {order}: predict {key}", rtol=1e-6, atol=1e-8)
    for key in fitted:
        ctx.close(quiet(models[key].predict, Q), want[key], f"shared {kind} kernel {order}: final predict {key}", rtol=1e-6, atol=1e-8)
    ctx.state("share", kind, order)


# ---- Laplacian pyramids
FAR = []


def lp_kernel(X, Y, eps, alpha):
    f = rbf("gauss", eps)
    KX = {p: f(s) for p, s in pairs(X, None, None).items()}
    n = len(X)
    if Y is None:
        return np.array(dense(dmap_expected(KX, None, alpha, True, False)[0], n, n))
    KY = {p: f(s) for p, s in pairs(X, Y, None).items()}
    far = [i for i in range(len(Y)) if sum(KY[i, j] for j in range(n)) < 1e-290]  # no weight left: contributes nothing
    if far and alpha > 0:
        FAR.append(far)
    out = np.zeros((len(Y), n))
    near = [i for i in range(len(Y)) if i not in far]
    if near:
        KN = {(near.index(i), j): v for (i, j), v in KY.items() if i in near}
        out[near] = np.array(dense(dmap_expected(KX, KN, alpha, True, False), len(near), n))
    return out


def lp_reference(X, y, Q, eps0, mu, tol, auto, alpha, limit=400):
    """each target on its own: levels until the stopping rule of that target; returns prediction and number of levels, None if it does not stop"""
    n = len(X)
    approx, last, eps = np.zeros(n), None, eps0
    out = np.zeros(len(Q))
    residual, levels = y.copy(), 0
    margin = np.inf  # distance of the decisions from a tie
    while levels < limit:
        K = lp_kernel(X, None, eps, alpha)
        if auto:
            K = K - np.diag(np.diag(K))
        approx = approx + K @ residual
        new = y - approx
        norm = float(np.linalg.norm(new))
        if last is not None and norm == last and eps < 1e-9 and not auto:
            break
        if auto and last is not None:
            margin = min(margin, abs(norm - last) / max(norm, last, 1e-300))
            if norm >= last:
                return out, levels, margin
        out = out + lp_kernel(X, Q, eps, alpha) @ residual
        levels += 1
        if tol is not None:
            margin = min(margin, abs(norm - tol) / tol)
        if (tol is not None and norm <= tol) or norm < 1e-15:
            return out, levels, margin
        if norm > 1e-15:
            margin = min(margin, abs(norm - 1e-15) / 1e-15)
        residual, last, eps = new, norm, eps / mu
    return out, None, margin


LPX = [((0,), (1,), (3,)), ((2,), (0,), (5,), (1,)), ((0, 0), (1, 0), (0, 2), (2, 2)), ((0,), (1,), (1,), (4,)), ((3,), (3,), (0,)), ((0,), (2,))]


def lp_targets(X):
    v = np.array([sum((k + 1) * c for k, c in enumerate(x)) for x in X], float)
    return {
        "lin": 0.5 * v - 1,
        "const": np.ones(len(X)),
        "sin": np.sin(1.1 * v) + 0.1,
        "zero": np.zeros(len(X)),
        "conflict": np.arange(len(X)) - 1.0,  # different values at equal points
        "alt": np.array([(-1.0) ** i for i in range(len(X))]),
    }


def run_lp(ctx, xi, tol, auto, mu, eps0, alpha):
    from datafold.dynfold.outofsample import LaplacianPyramidsInterpolator as LP

    X = LPX[xi]
    T = lp_targets(X)
    Q = new_points(X)[1] + [X[0]] + [tuple(5.0 for _ in X[0])]
    FAR.clear()
    ref = {name: lp_reference(X, y, Q, eps0, mu, tol, auto, alpha) for name, y in T.items()}
    if FAR:  # density of such queries is zero up to underflow: rejected for alpha > 0; stay on the training samples
        Q = list(X) + [X[0]]
        ref = {name: lp_reference(X, y, Q, eps0, mu, tol, auto, alpha) for name, y in T.items()}
    names = list(T)
    groups = [(a,) for a in names] + list(itertools.combinations(names, 2)) + [tuple(names)]
    for g in groups:
        label = f"pyramid X={X} tol={tol} auto={auto} mu={mu} eps={eps0} alpha={alpha} targets={g}"
        y = np.column_stack([T[a] for a in g])
        m = LP(initial_epsilon=eps0, mu=mu, residual_tol=tol, auto_adaptive=auto, alpha=alpha)
        ya = y[:, 0].copy() if len(g) == 1 else y.copy()
        Xa = arr(X)
        ctx.step()
        quiet(m.fit, Xa, ya)
        ctx.true(np.array_equal(Xa, arr(X)) and np.array_equal(ya.reshape(y.shape), y), "arguments modified")
        got = quiet(m.predict, arr(Q))
        ctx.eq(got.shape, (len(Q),) if len(g) == 1 else (len(Q), len(g)), f"{label}: shape")
        ctx.true(np.isfinite(got).all(), f"{label}: finite")
        got = got.reshape(len(Q), len(g))
        for c, a in enumerate(g):
            out, levels, margin = ref[a]
            if margin < 1e-7:
                continue  # the stopping decision is a tie up to rounding
            if levels is None:
                # never meets the stopping rule: must end with the limit of the recursion
                ctx.close(got[:, c], out, f"{label}: target {a} (limit)", rtol=1e-6, atol=1e-8)
                continue
            ctx.close(got[:, c], out, f"{label}: target {a} with {levels} levels", rtol=1e-8, atol=1e-10)
            used = sum(c in info["active_indices"] for info in m._level_tracker.values())
            ctx.eq(used, levels, f"{label}: levels of target {a}")
        one = quiet(m.predict, arr(Q)[:1])
        ctx.eq(one.shape, (1,) if len(g) == 1 else (1, len(g)), f"{label}: shape of one query")
        ctx.close(one.reshape(1, -1), got[:1], f"{label}: one query")
        # refit equals fresh
        other = LPX[(xi + 1) % len(LPX)]
        if len(other[0]) == len(X[0]):
            quiet(m.fit, arr(other), lp_targets(other)["lin"])
            quiet(m.fit, Xa, ya)
            ctx.close(quiet(m.predict, arr(Q)).reshape(got.shape), got, f"{label}: refit")
    ctx.state("lp", xi, tol, auto, mu, eps0, alpha)


def run_lpbad(ctx):
    from datafold.dynfold.outofsample import LaplacianPyramidsInterpolator as LP

    X, y = arr(LPX[0]), lp_targets(LPX[0])["lin"]
    for bad in (dict(), dict(residual_tol=-0.1), dict(residual_tol=0.1, mu=1.0), dict(residual_tol=0.1, mu=0.5), dict(auto_adaptive=True, mu=1)):
        ctx.step()
        ctx.raises(ValueError, lambda: quiet(LP(**bad).fit, X, y), f"parameters {bad}")
    ctx.state("lpbad")


def cases(tier):
    th = tier == "thorough"
    out = [("gh", (X,)) for X in clouds(tier)]
    ops = ("fa", "fb", "pa", "pb")
    out += [("share", (k, o)) for k in ("cknn", "callable") for o in itertools.product(ops, repeat=4 if th else 3) if o[0][0] == "f"]
    for xi in range(len(LPX)):
        for tol, auto in ((0.5, False), (0.01, False), (1e-6, False), (None, True), (0.05, True)):
            for mu in (2.0, 3, 1.3) if th else (2.0, 3):
                for eps0 in (10.0, 1.0):
                    for alpha in (0, 0.5, 1) if th else (0, 1):
                        out.append(("lp", (xi, tol, auto, mu, eps0, alpha)))
    out.append(("lpbad", ()))
    return out


RUN = {"gh": run_gh, "share": run_share, "lp": run_lp, "lpbad": run_lpbad}
