"""C21: an estimator's observable state is a function of its parameters and its last fit -- never of its history."""
import copy
import itertools
import pickle
import warnings
import numpy as np
import pandas as pd
import tscmodel as tm

PROPERTY = "C21"
CASE_LIMIT = 300
OPS = ("fA", "fB", "fC", "tA", "use", "dc", "pk", "cl", "sp")
BOUND = """
every public estimator (transformers, DMD variants, EDMD with several dictionaries, diffusion maps, Roseland, harmonics, pyramids, JSF,
local regression selection; 2 parameter settings each) x every sequence of up to 3 (thorough 4) operations out of {fit on data A, B
(other features, IDs, step size, number of samples) or C (subset of A, other order), fit_transform(A), use (transform/predict/inverse on
a query), continue on a deepcopy, on a pickle round trip, on a sklearn clone, set_params to the other setting}; at the end the model, all
models left behind by a copy, and a bystander sharing the very same parameter objects are compared with freshly fitted models. Every kernel x history of up to two evaluations
x {deepcopy, pickle, clone}; every small collection x {pickle, copy, deepcopy} followed by further operations.
"""


def series(cols, ids, n, kind, f):
    ts = tm.taxis(kind, n)
    return (cols, [(i, [(t, tuple(f(p, k, c) for c in range(len(cols)))) for k, t in enumerate(ts)]) for p, i in enumerate(ids)])


def fA(p, k, c):
    return round((0.9 ** k) * np.cos(0.7 * k + c + p) + 0.2 * c + 0.05 * p, 6)


def fB(p, k, c):
    return round((0.8 ** k) * np.sin(0.9 * k + 1.3 * c + 0.7 * p) - 0.1 * c + 1.0, 6)


def data():
    D = {}
    D["A"] = series(["a", "b"], (0, 1), 7, "int", fA)
    D["B"] = series(["c", "a", "x"], (5, 3, 4), 8, "float", fB)
    D["C"] = (["a", "b"], [(9, [(r[0] + 2, r[1]) for r in D["A"][1][1][1][1:]])])
    D["qA"] = series(["a", "b"], (2,), 5, "int", lambda p, k, c: fA(p, k, c) + 0.03 * k)
    D["qC"] = D["qA"]
    D["qB"] = series(["c", "a", "x"], (2,), 4, "float", lambda p, k, c: fB(p, k, c) + 0.03 * k)
    return {k: tm.build(v) for k, v in D.items()}


def control(X):
    """control input for all but the last sample of each series"""
    v = X.tsc.drop_last_n_samples(1)
    u = np.sin(1.3 * np.arange(len(v)))[:, None]
    from datafold import TSCDataFrame

    return TSCDataFrame.from_same_indices_as(v, u, except_columns=["u"])


def val(x):
    if isinstance(x, pd.DataFrame):
        return ("df", list(map(str, x.columns)), [tuple(map(tm.norm_t, i)) if isinstance(i, tuple) else tm.norm_t(i) for i in x.index], type(x).__name__, x.to_numpy())
    return x


def same(ctx, a, b, msg):
    a, b = val(a), val(b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        ctx.eq(len(a), len(b), msg)
        for k, (p, q) in enumerate(zip(a, b)):
            same(ctx, p, q, f"{msg}[{k}]")
        return
    if isinstance(a, (str, type(None), bool)) or isinstance(b, (str, type(None), bool)):
        return ctx.eq(a, b, msg)
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in "OUSM":
        return ctx.eq(list(map(str, a.ravel())), list(map(str, b.ravel())), msg)
    ctx.close(a, b, msg, rtol=1e-9, atol=1e-11)


# ---- observers -----------------------------------------------------------------------------------------------
def obs_transform(e, q, inverse=True):
    out = [e.transform(q.copy()), list(map(str, e.get_feature_names_out())), int(e.n_features_in_), list(map(str, e.feature_names_in_))]
    if inverse:
        out.append(e.inverse_transform(e.transform(q.copy())))
    return out


def obs_noinv(e, q):
    return obs_transform(e, q, False)


def obs_nofn(e, q):
    return [e.transform(q.copy())]


def obs_numpy(e, q):
    return [e.transform(q.to_numpy().copy())]


def ic(q, n=1):
    return q.initial_states(n)


def tv(q):
    t = np.asarray(q.time_values())
    d = t[1] - t[0]
    return np.array([t[0] + k * d for k in range(3)])


def obs_dmd(e, q):
    t = tv(q)
    out = [e.predict(ic(q), time_values=t), list(e.feature_names_in_), float(e.dt_) if hasattr(e, "dt_") else None, e.predict(ic(q))]
    if e.sys_mode == "spectral":
        out.append(sorted(np.round(np.abs(e.eigenvalues_), 8).tolist()))
    else:
        out.append(e.sys_matrix_)
    return out


def obs_dmdc(e, q):
    U = control(q)
    return [e.predict(ic(q), U=U), np.asarray(e.sys_matrix_), np.asarray(e.control_matrix_)]


def obs_affine(e, q):
    return [e.predict(ic(q), U=control(q), time_values=np.asarray(q.time_values())) if False else np.asarray(e.sys_matrix_)]


def obs_edmd(e, q):
    n = e.n_samples_ic_
    t0 = np.asarray(q.time_values())[n - 1]
    d = np.asarray(q.time_values())
    d = d[1] - d[0]
    return [e.transform(q.copy()), e.predict(ic(q, n), time_values=np.array([t0, t0 + d, t0 + 3 * d])), e.reconstruct(q.copy()), float(e.score(q.copy())), list(map(str, e.get_feature_names_out())), n, e.inverse_transform(e.transform(q.copy()))]


def obs_edmdc(e, q):
    return [e.predict(ic(q, e.n_samples_ic_), U=control(q).groupby("ID").tail(len(q) - e.n_samples_ic_)), e.transform(q.copy())]


def obs_regress(e, q):
    return [e.predict(q.to_numpy().copy()), np.asarray(e.score(q.to_numpy(), target(q)))]


def target(X):
    x = X.to_numpy()
    return np.column_stack([x[:, 0] + 0.3 * x[:, 1] ** 2, np.sin(x[:, 1])])


def fit_x(e, X):
    e.fit(X)


def fit_one(e, X):
    from datafold import TSCDataFrame

    X = X.loc[[X.ids[-1]]]
    n = 2 if hasattr(e, "max_rank") else 4  # initial fit, then one sample at a time
    e.fit(X.iloc[:n])
    for k in range(n, len(X)):
        e.partial_fit(X.iloc[k - 1 : k + 1])


def fit_u(e, X):
    e.fit(X, U=control(X))


def fit_np_target(e, X):
    e.fit(X.to_numpy().copy(), target(X))


def fit_centers(e, X):
    e.fit(X, centers=X.to_numpy()[::3])


def registry():
    from datafold import appfold, dynfold, pcfold
    from datafold.dynfold import transform as tr, dmd, dmap, outofsample as oos, jsf
    from datafold.pcfold import kernels as kn
    from datafold.appfold import EDMD
    from sklearn.preprocessing import StandardScaler, MinMaxScaler

    R = {}

    def add(name, make, p1, p2, obs, fit=fit_x, nopickle=False, only=None):
        R[name] = (make, p1, p2, obs, fit, nopickle, only)

    add("preprocess", tr.TSCFeaturePreprocess, dict(sklearn_transformer=MinMaxScaler()), dict(sklearn_transformer=StandardScaler()), obs_transform)
    add("identity", tr.TSCIdentity, dict(include_const=False), dict(include_const=True, rename_features=True), obs_transform)
    add("pca", tr.TSCPrincipalComponent, dict(n_components=1), dict(n_components=2, whiten=True), obs_transform)
    add("takens", tr.TSCTakensEmbedding, dict(delays=1), dict(delays=2, kappa=0.4), obs_transform)
    add("takens-lag", tr.TSCTakensEmbedding, dict(delays=1, lag=1), dict(delays=1, lag=0, frequency=1), obs_transform)
    add("average", tr.TSCMovingAverage, dict(window=2), dict(window=3), obs_noinv)
    add("poly", tr.TSCPolynomialFeatures, dict(degree=2), dict(degree=3, include_first_order=True, include_bias=True), obs_noinv)
    add("rbf-all", tr.TSCRadialBasis, dict(kernel=kn.MultiquadricKernel(1.0)), dict(kernel=kn.GaussianKernel(0.7)), obs_transform)
    add("rbf-ic", tr.TSCRadialBasis, dict(kernel=kn.MultiquadricKernel(1.0), center_type="random", n_samples=4), dict(center_type="random", n_samples=3), obs_transform)
    add("rbf-fit", tr.TSCRadialBasis, dict(kernel=kn.MultiquadricKernel(1.0), center_type="fit_params"), dict(center_type="fit_params", kernel=kn.InverseMultiquadricKernel(0.5)), obs_transform, fit_centers)
    add("rbf-callable", tr.TSCRadialBasis, dict(kernel=kn.GaussianKernel(np.median)), dict(kernel=kn.GaussianKernel(np.max)), obs_noinv)
    add("lambdas", tr.TSCApplyLambdas, dict(lambdas=[np.sin]), dict(lambdas=[np.sin, np.square]), obs_noinv)
    add("fdiff", tr.TSCFiniteDifference, dict(diff_order=1), dict(diff_order=2), obs_noinv)
    add("dmd", dmd.DMDStandard, dict(), dict(sys_mode="matrix"), obs_dmd)
    add("dmd-rank", dmd.DMDStandard, dict(rank=1), dict(rank=1, reconstruct_mode="project"), obs_dmd)
    add("dmd-id", dmd.DMDStandard, dict(approx_generator=True), dict(sys_mode="matrix", approx_generator=True), obs_dmd)
    add("dmd-gen", dmd.DMDStandard, dict(), dict(approx_generator=True), obs_dmd)
    add("gdmd", dmd.gDMDFull, dict(), dict(sys_mode="matrix", kwargs_fd=dict(scheme="forward", diff_order=1, accuracy=1)) if False else dict(sys_mode="matrix"), obs_dmd)
    add("dmdc", dmd.DMDControl, dict(), dict(rcond=0.3), obs_dmdc, fit_u)
    add("stream", dmd.StreamingDMD, dict(), dict(max_rank=1), obs_dmd, fit_one)
    add("online", dmd.OnlineDMD, dict(), dict(weighting=0.5), obs_dmd, fit_one)
    T = tr.TSCTakensEmbedding
    add("edmd-id", EDMD, dict(dict_steps=[("id", tr.TSCIdentity())], dmd_model=dmd.DMDStandard()), dict(id__include_const=True, dmd__sys_mode="matrix"), obs_edmd)
    add("edmd-poly", EDMD, dict(dict_steps=[("p", tr.TSCPolynomialFeatures(degree=2))], include_id_state=True), dict(dict_steps=[("p", tr.TSCPolynomialFeatures(degree=2, include_first_order=True))], include_id_state=False), obs_edmd)
    add("edmd-delay", EDMD, dict(dict_steps=[("d", T(delays=1)), ("r", tr.TSCRadialBasis(kernel=kn.GaussianKernel(1.5), center_type="random", n_samples=3))]), dict(d__delays=2), obs_edmd, only=("A", "B"))
    add("edmd-pca", EDMD, dict(dict_steps=[("s", tr.TSCFeaturePreprocess(MinMaxScaler())), ("d", T(delays=1)), ("pca", tr.TSCPrincipalComponent(n_components=2))], include_id_state=False), dict(d__kappa=0.5), obs_edmd)
    add("edmd-control", EDMD, dict(dict_steps=[("d", T(delays=1))], dmd_model=dmd.DMDControl()), dict(d__delays=2), obs_edmdc, fit_u)
    gk = lambda: pcfold.GaussianKernel(0.8)
    add("dmap", dmap.DiffusionMaps, dict(kernel=gk(), n_eigenpairs=3), dict(n_eigenpairs=4, alpha=0.5, symmetrize_kernel=False), obs_noinv)
    add("dmap-callable", dmap.DiffusionMaps, dict(kernel=kn.GaussianKernel(np.median), n_eigenpairs=3), dict(kernel=kn.GaussianKernel(np.max)), obs_noinv)
    add("dmap-cknn", dmap.DiffusionMaps, dict(kernel=kn.ContinuousNNKernel(k_neighbor=3, delta=3.5), n_eigenpairs=2), dict(kernel=kn.ContinuousNNKernel(k_neighbor=3, delta=3.2)), obs_noinv, only=("A", "B"))
    add("dmap-cone", dmap.DiffusionMaps, dict(kernel=kn.ConeKernel(zeta=0.0, epsilon=0.5, fd_accuracy=2), n_eigenpairs=2), dict(kernel=kn.ConeKernel(zeta=0.5, epsilon=1.0, fd_accuracy=2)), obs_noinv)
    add("roseland", dmap.Roseland, dict(kernel=gk(), n_svdtriplet=2, landmarks=0.5, random_state=1), dict(n_svdtriplet=3, alpha=1), obs_noinv)
    add("harmonics", oos.GeometricHarmonicsInterpolator, dict(kernel=gk(), n_eigenpairs=4), dict(n_eigenpairs=3), obs_regress, fit_np_target)
    add("pyramids", oos.LaplacianPyramidsInterpolator, dict(initial_epsilon=5.0, mu=2, residual_tol=0.05), dict(initial_epsilon=2.0, mu=3, alpha=0.5), obs_regress, fit_np_target)
    ds = lambda: [("u", gk(), slice(0, 1)), ("v", gk(), slice(1, 2))]
    add("jsf", jsf.JointlySmoothFunctions, dict(data_splits=ds(), n_kernel_eigenvectors=3, n_jointly_smooth_functions=2), dict(n_jointly_smooth_functions=1), obs_noinv)
    add("select", dmap.LocalRegressionSelection, dict(intrinsic_dim=1), dict(strategy="threshold", regress_threshold=0.1), obs_noinv)
    return R


def fresh(spec, setting, letter, D):
    make, p1, p2, obs, fit, _, _ = spec
    e = make(**copy.deepcopy(p1))
    if setting == 2:
        e.set_params(**copy.deepcopy(p2))
    fit(e, D[letter].copy())
    return e


def construct(spec):
    return spec[0](**copy.deepcopy(spec[1]))


def params_obs(e):
    return sorted((k, repr(v) if not isinstance(v, np.ndarray) else v.tolist()) for k, v in e.get_params(deep=True).items())


def explore(ctx, name, first, depth, full):
    import sklearn.base

    spec = registry()[name]
    make, p1, p2, obs, fit, nopickle, only = spec
    D = data()
    letters = only or ("A", "B", "C")
    frozen = {k: tm.observe(v) for k, v in D.items()}
    want = {}

    def expected(setting, letter):
        if (setting, letter) not in want:
            want[setting, letter] = obs(fresh(spec, setting, letter, data()), data()["q" + letter])
        return want[setting, letter]

    base_params = {}
    for s in (1, 2):
        e = construct(spec)
        if s == 2:
            e.set_params(**copy.deepcopy(p2))
        base_params[s] = params_obs(e)
    ops = [o for o in OPS if not (o[0] == "f" and o[1] not in letters) and not (o == "pk" and nopickle)]
    pairable = [s for n in range(0, depth) for s in itertools.product(ops, repeat=n)]
    for tail in pairable:
        seq = (first,) + tail
        if not any(o[0] == "f" or o == "tA" for o in seq) and len(seq) > 1:
            continue
        if not full and len(seq) == 3 and (first in ("use", "dc", "pk", "cl") or seq[-1] in ("use", "cl", "sp")):
            continue  # no-ops before the first fit and after the last; all are explored at depth 2
        if any(a == b and a in ("use", "sp", "cl") for a, b in zip(seq, seq[1:])):
            continue
        shared = copy.deepcopy(p1)
        e, setting, fitted = make(**shared), 1, None
        bystander = None if "edmd" in name else make(**shared)  # same parameter objects (a pipeline fits the given steps)
        if bystander is not None:
            fit(bystander, D["A"])
        left = []
        msg = f"{name} {' '.join(seq)}"
        for o in seq:
            ctx.step()
            if o in ("fA", "fB", "fC"):
                fit(e, D[o[1]])
                fitted = (setting, o[1])
            elif o == "tA":
                if hasattr(e, "fit_transform") and fit in (fit_x, fit_centers) and "dmd" not in name:
                    e.fit_transform(D["A"], **(dict(centers=D["A"].to_numpy()[::3]) if fit is fit_centers else {}))
                else:
                    fit(e, D["A"])
                fitted = (setting, "A")
            elif o == "use" and fitted and fitted[0] == setting:
                obs(e, D["q" + fitted[1]])
            elif o in ("dc", "pk"):
                left.append((e, setting, fitted))
                e = copy.deepcopy(e) if o == "dc" else pickle.loads(pickle.dumps(e))
            elif o == "cl":
                left.append((e, setting, fitted))
                e, fitted = sklearn.base.clone(e), None
            elif o == "sp":
                e.set_params(**copy.deepcopy(p2))
                setting = 2
        for who, s, f in left + [(e, setting, fitted)]:
            if f and f[0] == s:
                same(ctx, obs(who, D["q" + f[1]]), expected(*f), f"{msg}: state after fit {f}")
            ctx.eq(params_obs(who), base_params[s], f"{msg}: parameters")
        if bystander is not None:
            same(ctx, obs(bystander, D["qA"]), expected(1, "A"), f"{msg}: bystander with the same parameter objects")
    for k, v in D.items():
        ctx.eq(tm.observe(v), frozen[k], f"{name}: dataset {k} modified")
    ctx.state(name, first, depth)


def run_life(ctx, name, first, depth, full):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        explore(ctx, name, first, depth, full)


def run_unfitted(ctx, name):
    """using a model before fit is rejected with NotFittedError, also for clones of fitted models"""
    import sklearn.base
    from sklearn.exceptions import NotFittedError

    spec = registry()[name]
    D = data()
    for clone in (False, True):
        e = construct(spec)
        if clone:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                spec[4](e, D["A"])
            e = sklearn.base.clone(e)
        for meth in ("transform", "predict", "inverse_transform"):
            if not hasattr(type(e), meth) or (meth == "inverse_transform" and spec[3] is obs_noinv):
                continue
            arg = D["qA"].to_numpy() if spec[3] is obs_regress else D["qA"]
            ctx.step()
            ctx.raises((Exception,), lambda: getattr(e, meth)(arg), f"{name}.{meth} before fit (clone {clone})")
    ctx.state("unfitted", name)


def run_pickle(ctx, model, validate):
    """a collection that went through pickle, copy or deepcopy behaves like the original"""
    from datafold import TSCDataFrame

    X = tm.build(tm.make(*model))
    if not validate:
        X = TSCDataFrame(pd.DataFrame(X), validate=False)
    want = tm.observe(X)
    for how, f in (("pickle", lambda x: pickle.loads(pickle.dumps(x))), ("copy", copy.copy), ("deepcopy", copy.deepcopy), ("twice", lambda x: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x)))))):
        Y = f(X)
        ctx.step()
        ctx.eq(type(Y).__name__, "TSCDataFrame", f"{how}: type")
        ctx.eq(tm.observe(Y), want, f"{how}: content")
        ctx.eq(Y.is_validate, validate, f"{how}: validation flag")
        ctx.eq(Y.flags.allows_duplicate_labels, X.flags.allows_duplicate_labels, f"{how}: flags")
        for name, op in (("iloc", lambda x: x.iloc[:, [0]]), ("copy", lambda x: x.copy()), ("loc", lambda x: x.loc[[x.ids[0]]]), ("add", lambda x: x + 1)):
            ctx.eq(tm.observe(op(Y)), tm.observe(op(X)), f"{how}, then {name}")
        ctx.eq([int(i) for i in Y.ids], [int(i) for i in X.ids], f"{how}: ids")
        ctx.eq(str(Y.delta_time), str(X.delta_time), f"{how}: delta time")
        if validate:
            def bad(x):
                x.columns = pd.Index(["z"] * x.shape[1]) if x.shape[1] > 1 else pd.MultiIndex.from_tuples([("a", "b")])

            a, b = None, None
            for x in (X.copy(), Y):
                try:
                    bad(x)
                    r = "accepted"
                except Exception as e:
                    r = type(e).__name__
                a, b = b, r
            ctx.eq(b, a, f"{how}: validation of a bad assignment")
    ctx.state("pickle", tm.observe(X), validate)


def kernels():
    from datafold.pcfold import kernels as kn

    out = {c.__name__: (lambda c=c: c(0.7)) for c in (kn.GaussianKernel, kn.MultiquadricKernel, kn.InverseMultiquadricKernel, kn.InverseQuadraticKernel)}
    out.update({c.__name__: (lambda c=c: c()) for c in (kn.CubicKernel, kn.QuinticKernel)})
    out["sparse"] = lambda: kn.GaussianKernel(0.7, distance=dict(cut_off=1.0))
    out["knn"] = lambda: kn.GaussianKernel(0.7, distance=dict(cut_off=0.3, k=3, backend="scipy.kdtree"))
    out["cknn"] = lambda: kn.ContinuousNNKernel(3, 2.0)
    out["cknn-knn"] = lambda: kn.ContinuousNNKernel(3, 2.0, distance=dict(k=5, backend="sklearn.knn"))
    out["cone"] = lambda: kn.ConeKernel(zeta=0.4, epsilon=0.6, fd_accuracy=2)
    out["fixed"] = lambda: kn.DmapKernelFixed(kn.GaussianKernel(0.7), alpha=0.5)
    out["fixed-cknn"] = lambda: kn.DmapKernelFixed(kn.ContinuousNNKernel(3, 2.0), alpha=1.0, is_stochastic=True)
    out["roseland"] = lambda: kn.RoselandKernel(kn.GaussianKernel(0.7), alpha=0.5)
    return out


def run_kernel(ctx, name):
    """a kernel is a value: copies and clones (made at any time) have equal parameters and act alike and apart"""
    import sklearn.base

    D = data()
    tsc = name == "cone"
    arr = lambda k: D[k] if tsc else D[k].to_numpy()
    dense = lambda M: M.toarray() if hasattr(M, "toarray") else np.asarray(M)
    ev = lambda k, key: [dense(k(arr(key), arr(key)[::3])) if name == "roseland" else dense(k(arr(key)))]

    def both(k, key):
        out = ev(k, key)
        if name != "roseland":
            out.append(dense(k(arr(key), arr("qB" if key == "B" else "qA"))))
        return out

    copies = {"deepcopy": copy.deepcopy, "pickle": lambda k: pickle.loads(pickle.dumps(k)), "clone": sklearn.base.clone}
    params = lambda k: sorted((a, repr(b)) for a, b in k.get_params(deep=False).items())
    want = {key: both(kernels()[name](), key) for key in "AB"}
    par = params(kernels()[name]())
    once = any(w in name for w in ("cknn", "fixed", "roseland"))  # a second pairwise evaluation is rejected by contract
    q = lambda key: arr("qB" if key == "B" else "qA")
    for n in (0, 1) if once else (0, 1, 2):
        for hist, key in itertools.product(itertools.product("AB", repeat=n), "AB"):
            for how, f in copies.items():
                k = kernels()[name]()
                for h in hist:
                    both(k, h)
                c = f(k)
                msg = f"{name} after {hist}, {how}, then {key}"
                ctx.step()
                ctx.eq(params(c), par, f"{msg}: parameters of the copy")
                ctx.eq(params(k), par, f"{msg}: parameters")
                ctx.true(type(c) is type(k), "type")
                if how == "clone" or not once or not hist:
                    same(ctx, both(c, key), want[key], f"{msg}: copy evaluated")
                elif name != "roseland":
                    same(ctx, dense(c(arr(hist[-1]), q(hist[-1]))), want[hist[-1]][1], f"{msg}: copy")
                if hist and name != "roseland":  # component-wise evaluations of the original still refer to its own data
                    same(ctx, dense(k(arr(hist[-1]), q(hist[-1]))), want[hist[-1]][1], f"{msg}: original")
                if not once or not hist:
                    same(ctx, both(k, key), want[key], f"{msg}: original evaluated")
                else:
                    ctx.raises(Exception, lambda: k(arr(key)), f"{msg}: second pairwise evaluation") if name != "roseland" else None
    ctx.state("kernel", name)


NAMES = ("preprocess identity pca takens takens-lag average poly rbf-all rbf-ic rbf-fit rbf-callable lambdas fdiff dmd dmd-rank dmd-id dmd-gen gdmd dmdc stream online "
         "edmd-id edmd-poly edmd-delay edmd-pca edmd-control dmap dmap-callable dmap-cknn dmap-cone roseland harmonics pyramids jsf select").split()


def cases(tier):
    th = tier == "thorough"
    d = 4 if th else 3
    out = []
    for n in NAMES:
        heavy = n.startswith("edmd") or n in ("roseland", "pyramids", "select", "dmd-rank", "dmd-id", "dmd-gen", "gdmd", "stream", "online", "dmap-cone", "takens-lag")
        out += [("life", (n, o, d - heavy, th)) for o in OPS if not (n == "dmap-cknn" and o == "fC") and not (n == "edmd-delay" and o == "fC")]
    return out + [("unfitted", (n,)) for n in NAMES] + [("kernel", (k,)) for k in kernels()] + [
        ("pickle", (m, v)) for m in tm.shapes(max_series=3 if th else 2, max_len=3 if th else 2) for v in (True, False)]


RUN = {"life": run_life, "unfitted": run_unfitted, "kernel": run_kernel, "pickle": run_pickle}
