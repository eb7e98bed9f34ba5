"""C15: EDMD = lift with the dictionary, advance with the least squares matrix, map back; in every configuration."""
import itertools
import numpy as np
import pandas as pd
import tscmodel as tm
from c11_dmd import frame, series, LAYOUTS, nonlin, uval, check_labels

PROPERTY = "C15"
CASE_LIMIT = 100
BOUND = """
dictionaries {identity, constant, polynomial, one/two delays, delays then polynomial, scaling, principal components, lambda} x
include_id_state x dict_preserves_id_state x DMD {matrix, spectral} x {linear map, pipeline inverse} x {plain, stepwise, sorted triplets};
training layouts {one, unsorted, ragged, shifted series} x time axes; predictions for 1-3 initial conditions, consecutive and skipping
time values, every ordered non-empty selection of quantities of interest; reconstruct / score / windows of every size and offset for
every layout; controlled models; EDMDCV over every fold number and parameter grid; exceptions. Oracle: dictionary of independently
fitted steps, least squares matrix over snapshot pairs listed by hand, powers, selection by feature name.
"""
ASSUMPTIONS = ["datetime axes use nanosecond resolution: pandas 2.1.4 itself turns appended datetime64[s] index levels with a frequency into NaT"]
COL = ["b", "a"]
LAYOUTS.update({
    "big": ((0,), (14,), (0,)),
    "bigu": ((5, 2), (8, 8), (0, 0)),
    "bigt": ((5, 2, 9), (7, 7, 7), (0, 0, 0)),
    "bigr": ((3, 0, 7), (6, 8, 5), (0, 0, 0)),
    "bigo": ((2, 1, 4), (6, 8, 6), (1, 3, 0)),
})
DICTS = ("id", "const", "poly", "delay", "delay2", "delay_pca", "scale", "pca", "lam", "scale_poly")


def steps_of(d):
    from datafold.dynfold import TSCApplyLambdas, TSCFeaturePreprocess, TSCIdentity, TSCPolynomialFeatures, TSCPrincipalComponent, TSCTakensEmbedding
    from sklearn.preprocessing import StandardScaler

    mk = {
        "id": lambda: TSCIdentity(),
        "const": lambda: TSCIdentity(include_const=True),
        "poly": lambda: TSCPolynomialFeatures(degree=2),
        "delay": lambda: TSCTakensEmbedding(delays=1),
        "delay2": lambda: TSCTakensEmbedding(delays=2),
        "scale": lambda: TSCFeaturePreprocess(StandardScaler()),
        "pca": lambda: TSCPrincipalComponent(n_components=2),
        "lam": lambda: TSCApplyLambdas([np.sin, np.square]),
    }
    if d == "delay_pca":
        return [("t", mk["delay"]()), ("p", TSCPrincipalComponent(n_components=3))]
    if d == "scale_poly":
        return [("s", mk["scale"]()), ("p", mk["poly"]())]
    return [("d", mk[d]())]


class Ref:
    """reference model: everything from independently fitted transformers and lstsq"""

    def __init__(self, axis, d, include_id, preserve, inv, data, X, us=None):
        self.axis = axis
        self.steps = [s for _, s in steps_of(d)]
        Z = X
        for s in self.steps:
            s.fit(Z)
            Z = s.transform(Z)
        self.nic = (len(X) - len(Z)) // X.n_timeseries + 1
        cols = list(Z.columns)
        self.preserves = all(c in cols for c in COL) if preserve == "infer" else preserve
        self.attach = include_id and not self.preserves
        self.inv = inv
        Z = self.lift(X)
        self.cols = list(Z.columns)
        ids = list(dict.fromkeys(int(i) for i in X.index.get_level_values(0)))
        zs = [Z.loc[[i]].to_numpy() for i in ids]
        P, Q = np.vstack([z[:-1] for z in zs]), np.vstack([z[1:] for z in zs])
        if us is not None:
            W = np.vstack([u[self.nic - 1:] for u in us])
            P = np.column_stack([P, W])
        self.rank_ok = np.linalg.matrix_rank(P) == P.shape[1]
        K = np.linalg.lstsq(P, Q, rcond=None)[0].T
        n = len(self.cols)
        self.K, self.B = K[:, :n], K[:, n:]
        if inv:
            self.C = None
        elif include_id or self.preserves:
            self.C = np.array([[float(c == s) for s in COL] for c in self.cols])
        else:
            xs = np.vstack([X.loc[[i]].to_numpy()[self.nic - 1:] for i in ids])
            self.C = np.linalg.lstsq(np.vstack(zs), xs, rcond=None)[0]

    def mk(self, rows, cols):
        return tm.build((list(cols), [(0, [(t, tuple(r)) for t, r in zip(tm.taxis(self.axis, len(rows), 0), rows)])]))

    def lift(self, X):
        Z = X
        for s in self.steps:
            Z = s.transform(Z)
        if self.attach:
            A = pd.DataFrame(X).loc[Z.index]
            Z = type(X)(pd.concat([A, pd.DataFrame(Z)], axis=1))
        return Z

    def back(self, z):
        """z: array (n, dict)"""
        if self.C is not None:
            return z @ self.C
        Z = self.mk(z, self.cols)
        for s in reversed(self.steps):
            Z = s.inverse_transform(Z)
        return pd.DataFrame(Z)[COL].to_numpy()

    def predict(self, x, steps, stepwise=False, us=None):
        """x: array (nic, 2) -> array (len(steps), 2); steps[0] == 0"""
        def z0(rows):
            return self.lift(self.mk(rows, COL)).to_numpy()[-1]

        if stepwise:
            rows = [r for r in x]
            for k in range(steps[-1]):
                z = self.K @ z0(np.array(rows[-self.nic:]))
                if us is not None:
                    z = z + self.B @ us[k]
                rows.append(self.back(z[None])[0])
            rows = np.array(rows)[self.nic - 1:]
            return rows[steps]
        z = [z0(x)]
        for k in range(steps[-1]):
            nz = self.K @ z[-1]
            if us is not None:
                nz = nz + self.B @ us[k]
            z.append(nz)
        return self.back(np.array(z))[steps]


def model_of(d, include_id, preserve, mode, inv, var, control=False):
    from datafold.appfold import EDMD
    from datafold.dynfold import DMDStandard
    from datafold.dynfold.dmd import DMDControl

    dm = DMDControl if control else DMDStandard
    return EDMD(steps_of(d), dmd_model=dm(sys_mode=mode), include_id_state=include_id, dict_preserves_id_state=preserve,
                use_transform_inverse=inv, stepwise_transform=var == "stepwise", sort_koopman_triplets=var == "sorted")


def valid(d, include_id, preserve, mode, inv, var):
    if preserve is True and (d in ("pca", "lam", "delay_pca") or include_id):
        return False
    if preserve is False and include_id and d not in ("pca", "lam", "delay_pca"):
        return False
    if preserve is True and d in ("poly", "scale_poly"):
        return False
    if inv and (include_id or d in ("lam", "poly", "scale_poly") or var == "sorted"):
        return False
    if d == "scale" and not inv:  # documented: only names are matched
        return False
    if var == "sorted" and mode != "spectral":
        return False
    if d == "pca" and include_id:  # linearly dependent dictionary
        return False
    if d == "scale_poly" and not include_id:
        return False
    return True


CONFIGS = [c for c in itertools.product(DICTS, (True, False), ("infer", False, True), ("matrix", "spectral"), (False, True), ("plain", "stepwise", "sorted")) if valid(*c)]
_memo = {}


def fitted(cfg, layout, axis):
    key = (cfg, layout, axis)
    if key not in _memo:
        _memo.clear()
        data = series(layout, nonlin, 2)
        X = frame(layout, axis, data, COL)
        m = model_of(*cfg)
        before = tm.observe(X)
        m.fit(X)
        ref = Ref(axis, cfg[0], cfg[1], cfg[2], cfg[4], data, X)
        _memo[key] = m, ref, X, before
    return _memo[key]


def icrows(p, nic):
    return np.array([[0.4 + 0.3 * p - 0.2 * k, -0.1 + 0.25 * k * (p + 1) + 0.3 * p] for k in range(nic)])


QOIS = [None] + [list(q) for r in (1, 2) for q in itertools.permutations(COL, r)]


def run_predict(ctx, cfg, layout, axis, full=True):
    m, ref, X, before = fitted(cfg, layout, axis)
    if not ref.rank_ok:
        ctx.true(False, f"harness: rank deficient {cfg}")
    ctx.eq(tm.observe(X), before, "fit modified X")
    ctx.eq(m.n_samples_ic_, ref.nic, "n_samples_ic_")
    ctx.eq(bool(m.dict_preserves_id_state_), bool(ref.preserves), "dict_preserves_id_state_")
    ctx.eq(list(m.feature_names_in_), COL, "feature_names_in_")
    ctx.eq(list(m.feature_names_out_), ref.cols, "feature_names_out_")
    ctx.eq(list(m.feature_names_pred_), COL, "feature_names_pred_")
    T = m.transform(X)
    R = ref.lift(X)
    ctx.eq(list(T.columns), list(R.columns), "dictionary columns")
    ctx.close(T.to_numpy(), R.to_numpy(), "dictionary values", rtol=1e-9, atol=1e-10)
    check_labels(ctx, T, list(zip(R.index.get_level_values(0), R.index.get_level_values(1))), "dictionary labels")
    back = m.inverse_transform(T)
    ctx.eq(list(back.columns)[:2], COL, "inverse columns")
    ctx.close(back.to_numpy()[:, :2], ref.back(R.to_numpy()), "inverse_transform", rtol=1e-7, atol=1e-8)
    stepwise = cfg[5] == "stepwise"
    nic = ref.nic
    allt = tm.taxis(axis, nic + 6, 0)
    tol = 1e-6
    combos = list(itertools.product(((0,), (4, 1), (2, 0, 9)) if axis == "int" else ((4, 1),), (0, 2)))
    for ids, r0 in combos if full else [((0,), 0), ((4, 1), 2), ((2, 0, 9), 0)] if axis == "int" else [((4, 1), 2)]:
        if True:
            ser = [(i, [(t, tuple(v)) for t, v in zip(allt[r0:], icrows(p, nic))]) for p, i in enumerate(ids)]
            Xi = tm.build((COL, ser))
            obs = tm.observe(Xi)
            for st in ([[0, 1]] if full else []) + [[0, 1, 2, 3]] + ([] if stepwise else [[0, 3]]):
                tv = np.array([allt[r0 + nic - 1 + s] for s in st if r0 + nic - 1 + s < len(allt)])
                if len(tv) < len(st):
                    continue
                want = {i: ref.predict(icrows(p, nic), st, stepwise) for p, i in enumerate(ids)}
                for q in QOIS if (ids == (4, 1) and r0 == 2) else QOIS[:1]:
                    got = m.predict(Xi, time_values=tv, qois=q)
                    qq = q or COL
                    name = f"{cfg} {axis} ids {ids} steps {st} qois {q}"
                    ctx.eq(list(got.columns), qq, f"{name}: columns")
                    check_labels(ctx, got, [(i, t) for i in ids for t in tv], f"{name}: labels")
                    w = np.vstack([want[i][:, [COL.index(c) for c in qq]] for i in ids])
                    g = np.vstack([got.loc[[i]].to_numpy() for i in ids])
                    ctx.close(g, w, f"{name}: values", rtol=tol, atol=tol)
            ctx.eq(tm.observe(Xi), obs, "predict modified its input")
            ctx.raises((ValueError, KeyError, TypeError), lambda: m.predict(Xi, qois=["a", "zz"]), "unknown quantity of interest")
    if cfg[3] == "spectral" and not cfg[4]:
        # Koopman triplets: modes @ diag(lambda^k) @ eigenfunction(x) is the prediction
        V, lam = m.koopman_modes, m.koopman_eigenvalues
        ctx.eq(list(V.index), COL, "rows of the modes")
        xi = m.koopman_eigenfunction(X)
        xin = xi.to_numpy()
        ids = list(dict.fromkeys(int(i) for i in X.index.get_level_values(0)))
        for k in (0, 1, 2):
            got = (V.to_numpy() @ np.diag(np.asarray(lam) ** k) @ xin.T).T
            want = ref.back((np.linalg.matrix_power(ref.K, k) @ R.to_numpy().T).T)
            ctx.close(got, want, f"{cfg}: Koopman triplet reconstruction after {k} steps", rtol=1e-6, atol=1e-6)
        if cfg[5] == "sorted":
            first = np.abs(xi.initial_states().to_numpy()).mean(axis=0) * np.linalg.norm(V.to_numpy(), axis=0)
            ctx.true((np.diff(first) <= 1e-7 * first.max()).all(), f"triplets not sorted by importance {first}")
    ctx.eq(tm.observe(X), before, "X modified")
    ctx.state(cfg, layout, axis)


TEST_LAYOUTS = ("one", "uns", "rag", "off", "bigr")


def run_recon(ctx, cfg, layout, axis, tests=TEST_LAYOUTS):
    """reconstruct / fit_predict / score on another collection and on the training data"""
    m, ref, Xtrain, _ = fitted(cfg, layout, axis)
    stepwise = cfg[5] == "stepwise"
    nic = ref.nic
    for lay in (layout,) + tuple(tests):
        data = [d * 0.8 + 0.05 for d in series(lay, nonlin, 2)]
        X = frame(lay, axis, data, COL)
        ids, lens, offs = LAYOUTS[lay]
        if min(lens) < nic + 1:
            ctx.raises(Exception, lambda: m.reconstruct(X), "series too short")
            continue
        obs = tm.observe(X)
        want = {i: ref.predict(d[:nic], list(range(n - nic + 1)), stepwise) for i, n, d in zip(ids, lens, data)}
        lab = [(i, t) for i, n, o in zip(ids, lens, offs) for t in tm.taxis(axis, n, o)[nic - 1:]]
        for q in QOIS if lay in ("rag", "off") and (len(tests) > 2 or lay == tests[0]) else QOIS[:1]:
            got = m.reconstruct(X, qois=q)
            qq = q or COL
            name = f"{cfg} {axis} reconstruct {lay} qois {q}"
            ctx.eq(list(got.columns), qq, f"{name}: columns")
            g = [(int(i), tm.norm_t(t)) for i, t in got.index]
            ctx.eq(g, [(i, tm.norm_t(t)) for i, t in lab], f"{name}: labels in the order of X")
            ctx.close(got.to_numpy(), np.vstack([want[i][:, [COL.index(c) for c in qq]] for i in ids]), f"{name}: values", rtol=1e-6, atol=1e-6)
        rec = got if qq == COL else m.reconstruct(X)
        Xt = type(X)(pd.DataFrame(X).loc[rec.index])
        if all(n > nic + 1 for n in lens):
            err = np.vstack([want[i] for i in ids]) - Xt.to_numpy()
            s = m.score(X)
            ctx.true(np.isfinite(s) and s <= 1e-12, f"score {s}")
            # default: mean over features of the RMSE normalised by the feature-wise interval (min-max scaled)
            a, b = Xt.to_numpy(), np.vstack([want[i] for i in ids])
            lo, hi = a.min(0), a.max(0)
            sc = -np.mean(np.sqrt(np.mean(((a - b) / (hi - lo)) ** 2, axis=0)))
            ctx.close(s, sc, f"score {lay}", rtol=1e-6, atol=1e-7)
        ctx.eq(tm.observe(X), obs, "reconstruct modified X")
    ctx.state(cfg, layout, axis)


def run_window(ctx, cfg, axis, size, offset, lay):
    from datafold.appfold.edmd import EDMDWindowPrediction

    data0 = series("bigr", nonlin, 2)
    m = model_of(*cfg).fit(frame("bigr", axis, data0, COL))
    ref = Ref(axis, cfg[0], cfg[1], cfg[2], cfg[4], data0, frame("bigr", axis, data0, COL))
    nic = ref.nic
    data = [d * 0.8 + 0.05 for d in series(lay, nonlin, 2)]
    X = frame(lay, axis, data, COL)
    ids, lens, offs = LAYOUTS[lay]
    obs = tm.observe(X)
    mm = EDMDWindowPrediction(window_size=size, offset=offset).adapt_model(m)
    if size <= nic or min(lens) < size:
        ctx.raises(Exception, lambda: mm.reconstruct(X), f"window {size} not possible")
        ctx.state(cfg, axis, size, offset, lay)
        return
    wins = []
    for i, n, o, d in sorted(zip(ids, lens, offs, data), key=lambda r: r[0]):  # windows are numbered along the sorted IDs
        ts = tm.taxis(axis, n, o)
        for s in range(0, n - size + 1, offset):
            wins.append((ts[s:s + size], d[s:s + size]))
    for q in QOIS:
        got, W = mm.reconstruct(X, qois=q, return_windows=True)
        only = mm.reconstruct(X, qois=q)
        ctx.eq(tm.observe(only), tm.observe(got), "return_windows changes the reconstruction")
        qq = q or COL
        sel = [COL.index(c) for c in qq]
        ctx.eq(list(got.columns), qq, "columns")
        gw = [(list(map(tm.norm_t, W.loc[[i]].index.get_level_values(1))), W.loc[[i]].to_numpy().tolist()) for i in W.index.unique(0)]
        ctx.eq(gw, [([tm.norm_t(t) for t in ts], d.tolist()) for ts, d in wins], f"windows {size}/{offset} of {lay}")
        gids = list(got.index.unique(0))
        ctx.eq(gids, list(W.index.unique(0)), "IDs of windows and reconstruction")
        for i, (ts, d) in zip(gids, wins):
            r = got.loc[[i]]
            ctx.eq([tm.norm_t(t) for t in r.index.get_level_values(1)], [tm.norm_t(t) for t in ts[nic - 1:]], f"{cfg} {lay} window {size}/{offset}: times")
            ctx.close(r.to_numpy(), ref.predict(d[:nic], list(range(size - nic + 1)), cfg[5] == "stepwise")[:, sel], f"{cfg} {lay} window {size}/{offset} qois {q}: values", rtol=1e-6, atol=1e-6)
    s = mm.score(X)
    if size - nic + 1 > 1:
        a = np.vstack([d[nic - 1:] for _, d in wins])
        b = np.vstack([ref.predict(d[:nic], list(range(size - nic + 1)), cfg[5] == "stepwise") for _, d in wins])
        ctx.close(s, -np.mean(np.sqrt(np.mean(((a - b) / (a.max(0) - a.min(0))) ** 2, axis=0))), f"window score {size}/{offset} {lay}", rtol=1e-6, atol=1e-7)
    ctx.eq(tm.observe(X), obs, "X modified")
    ctx.state(cfg, axis, size, offset, lay)


A_ = np.array([[0.5, 0.4], [-0.3, 0.8]])


def cstep(x, p, k):
    return np.roll(x, 1) * 0.6 + 0.3 * np.sin(1.7 * x + 0.4 * p) + np.array([0.4, -0.2]) * uval(p, k, 0)


CCONF = [c for c in CONFIGS if c[5] in ("plain", "stepwise") and c[0] in ("id", "const", "poly", "delay", "delay2", "pca", "lam")]


def run_control(ctx, cfg, layout, axis):
    data = series(layout, cstep, 2)
    ids, lens, offs = LAYOUTS[layout]
    us = [np.array([[uval(p, k, 0)] for k in range(n - 1)]) for p, n in enumerate(lens)]
    X = frame(layout, axis, data, COL)
    U = tm.build((["u"], [(i, [(t, tuple(u)) for t, u in zip(tm.taxis(axis, n, o), uu)]) for i, n, o, uu in zip(ids, lens, offs, us)]))
    obs = tm.observe(X), tm.observe(U)
    m = model_of(*cfg, control=True)
    m.fit(X, U=U)
    ref = Ref(axis, cfg[0], cfg[1], cfg[2], cfg[4], data, X, us=us)
    nic = ref.nic
    if not ref.rank_ok:
        return
    if ref.C is not None and not (cfg[1] or ref.preserves):  # least squares output map: from the samples with control
        xs = np.vstack([d[nic - 1:-1] for d in data])
        Z = ref.lift(X)
        zs = np.vstack([Z.loc[[i]].to_numpy()[:-1] for i in ids])
        ref.C = np.linalg.lstsq(zs, xs, rcond=None)[0]
    ctx.eq((m.n_control_in_, list(m.control_names_in_)), (1, ["u"]), "control features")
    allt = tm.taxis(axis, nic + 5, 0)
    for pid in ((3,), (4, 1)):
        for st in ([0, 1], [0, 1, 2, 3]):
            n = len(st) - 1
            Xi = tm.build((COL, [(i, [(t, tuple(v)) for t, v in zip(allt, icrows(p, nic))]) for p, i in enumerate(pid)]))
            ui = [np.array([[uval(p + 1, k + 2, 0)] for k in range(n)]) for p in range(len(pid))]
            Ui = tm.build((["u"], [(i, [(t, tuple(v)) for t, v in zip(allt[nic - 1:], u)]) for i, u in zip(pid, ui)]))
            for q in QOIS if pid == (4, 1) and n == 3 else QOIS[:1]:
                got = m.predict(Xi, U=Ui, qois=q)
                qq = q or COL
                ctx.eq(list(got.columns), qq, "columns")
                check_labels(ctx, got, [(i, t) for i in pid for t in allt[nic - 1: nic + n]], f"{cfg}: labels")
                w = np.vstack([ref.predict(icrows(p, nic), st, us=ui[p], stepwise=cfg[5] == "stepwise") for p in range(len(pid))])[:, [COL.index(c) for c in qq]]
                ctx.close(np.vstack([got.loc[[i]].to_numpy() for i in pid]), w, f"{cfg} control predict {pid} {st} {q}", rtol=1e-6, atol=1e-6)
    if nic == 1 or True:
        # reconstruct needs the control from the last sample of the initial condition on
        Ur = tm.build((["u"], [(i, [(t, tuple(u)) for t, u in list(zip(tm.taxis(axis, n, o), uu))[nic - 1:]]) for i, n, o, uu in zip(ids, lens, offs, us)]))
        got = m.reconstruct(X, U=Ur)
        w = np.vstack([ref.predict(d[:nic], list(range(n - nic + 1)), us=u[nic - 1:], stepwise=cfg[5] == "stepwise") for d, n, u in zip(data, lens, us)])
        ctx.eq([(int(i), tm.norm_t(t)) for i, t in got.index], [(i, tm.norm_t(t)) for i, n, o in zip(ids, lens, offs) for t in tm.taxis(axis, n, o)[nic - 1:]], "labels of reconstruct")
        ctx.close(got.to_numpy(), w, f"{cfg} control reconstruct", rtol=1e-6, atol=1e-6)
        a = np.vstack([d[nic - 1:] for d in data])
        ctx.close(m.score(X, U=Ur), -np.mean(np.sqrt(np.mean(((a - w) / (a.max(0) - a.min(0))) ** 2, axis=0))), f"{cfg} control score", rtol=1e-6, atol=1e-7)
        if layout == "bigu":
            again = model_of(*cfg, control=True).fit_predict(X, U=Ur)
            ctx.true(again.index.equals(got.index), "labels of fit_predict")
            ctx.close(again.to_numpy(), w, f"{cfg} control fit_predict", rtol=1e-6, atol=1e-6)
    ctx.eq((tm.observe(X), tm.observe(U)), obs, "inputs modified")
    ctx.state(cfg, layout, axis)


def run_ctrlwin(ctx, cfg, axis, size, offset, lay, full):
    """windows of a controlled model: every window with its own samples of the control input (the last one is never needed)"""
    from datafold.appfold.edmd import EDMDWindowPrediction

    def inputs(layout, lens, shift):
        return [np.array([[uval(p + shift, k, 0)] for k in range(n)]) for p, n in enumerate(lens)]

    def uframe(layout, us, cut):
        ids, lens, offs = LAYOUTS[layout]
        return tm.build((["u"], [(i, [(t, tuple(u)) for t, u in zip(tm.taxis(axis, n, o), uu[: n - cut])]) for i, n, o, uu in zip(ids, lens, offs, us)]))

    data0, us0 = series("bigr", cstep, 2), inputs("bigr", LAYOUTS["bigr"][1], 0)
    X0 = frame("bigr", axis, data0, COL)
    m = model_of(*cfg, control=True).fit(X0, U=uframe("bigr", us0, 1))
    ref = Ref(axis, cfg[0], cfg[1], cfg[2], cfg[4], data0, X0, us=[u[:-1] for u in us0])
    if not ref.rank_ok or (ref.C is not None and not (cfg[1] or ref.preserves)):
        return
    nic = ref.nic
    ids, lens, offs = LAYOUTS[lay]
    data, us = [d * 0.8 + 0.05 for d in series(lay, cstep, 2)], inputs(lay, lens, 3)
    X, U = frame(lay, axis, data, COL), uframe(lay, us, 0 if full else 1)
    obs = tm.observe(X), tm.observe(U)
    mm = EDMDWindowPrediction(window_size=size, offset=offset).adapt_model(m)
    ctx.raises(Exception, lambda: mm.reconstruct(X), "control input missing")
    if size <= nic or min(lens) < size:
        ctx.raises(Exception, lambda: mm.reconstruct(X, U=U), f"window {size} not possible")
        ctx.state("ctrlwin", cfg, axis, size, offset, lay, full)
        return
    if len(ids) > 1:
        ctx.raises((KeyError, ValueError), lambda: mm.reconstruct(X, U=U.loc[[ids[0]], :]), "no control input for the second series")
    wins = []
    for i, n, o, d, u in sorted(zip(ids, lens, offs, data, us), key=lambda r: r[0]):
        ts = tm.taxis(axis, n, o)
        for k in range(0, n - size + 1, offset):
            wins.append((ts[k:k + size], d[k:k + size], u[k:k + size]))
    want = [ref.predict(d[:nic], list(range(size - nic + 1)), us=u[nic - 1:], stepwise=cfg[5] == "stepwise") for _, d, u in wins]
    name = f"{cfg} {lay} control window {size}/{offset} full {full}"
    for q in QOIS[:2]:
        got, W, V = mm.reconstruct(X, U=U, qois=q, return_windows=True)
        ctx.eq(tm.observe(mm.reconstruct(X, U=U, qois=q)), tm.observe(got), "return_windows changes the reconstruction")
        sel = [COL.index(c) for c in q or COL]
        gids = list(got.index.unique(0))
        ctx.eq((list(W.index.unique(0)), list(V.index.unique(0))), (gids, gids), f"{name}: IDs")
        ctx.eq(len(gids), len(wins), f"{name}: number of windows")
        for i, (ts, d, u), w in zip(gids, wins, want):
            r, x, v = got.loc[[i]], W.loc[[i]], V.loc[[i]]
            times = lambda f: [tm.norm_t(t) for t in f.index.get_level_values(1)]
            ctx.eq((times(x), x.to_numpy().tolist()), ([tm.norm_t(t) for t in ts], d.tolist()), f"{name}: window")
            ctx.eq((times(v), v.to_numpy().tolist()), ([tm.norm_t(t) for t in ts[nic - 1:-1]], u[nic - 1:-1].tolist()), f"{name}: control window")
            ctx.eq(times(r), [tm.norm_t(t) for t in ts[nic - 1:]], f"{name}: times")
            ctx.close(r.to_numpy(), w[:, sel], f"{name} qois {q}: values", rtol=1e-6, atol=1e-6)
    if size - nic + 1 > 1:
        a, b = np.vstack([d[nic - 1:] for _, d, _ in wins]), np.vstack(want)
        ctx.close(mm.score(X, U=U), -np.mean(np.sqrt(np.mean(((a - b) / (a.max(0) - a.min(0))) ** 2, axis=0))), f"{name}: score", rtol=1e-6, atol=1e-7)
    ctx.eq((tm.observe(X), tm.observe(U)), obs, "arguments modified")
    ctx.state("ctrlwin", cfg, axis, size, offset, lay, full)


def run_cv(ctx, kind, folds, grid, layout, axis):
    from datafold.appfold import EDMD
    from datafold.appfold.edmd import EDMDCV
    from datafold.dynfold import DMDStandard
    from datafold.pcfold import TSCKfoldSeries, TSCKFoldTime

    data = series(layout, nonlin, 2)
    X = frame(layout, axis, data, COL)
    obs = tm.observe(X)
    base = EDMD(steps_of("poly" if grid == "poly" else "id"), dmd_model=DMDStandard(sys_mode="matrix"))
    pg = {"poly": {"d__degree": [2, 1]}, "const": {"d__include_const": [False, True]}, "two": {"d__include_const": [True, False], "dmd__sys_mode": ["spectral", "matrix"]}}[grid]
    cv = (TSCKfoldSeries if kind == "series" else TSCKFoldTime)(n_splits=folds)
    splits = list(cv.split(X))
    est = EDMDCV(estimator=base, param_grid=pg, cv=cv, return_train_score=True, error_score="raise")
    est.fit(X)
    keys = sorted(pg)
    cands = [dict(zip(keys, v)) for v in itertools.product(*[pg[k] for k in keys])]
    res = est.cv_results_
    ctx.eq([dict(p) for p in res["params"]], cands, "candidates")
    scores = np.zeros((len(cands), len(splits)))
    tscores = np.zeros_like(scores)
    from sklearn.base import clone

    for c, prm in enumerate(cands):
        for k, (tr, te) in enumerate(splits):
            A, B = X.tsc.assign_ids_train_test(train_indices=tr, test_indices=te)
            mm = clone(base).set_params(**prm).fit(A)
            scores[c, k] = mm.score(B)
            tscores[c, k] = mm.score(A)
    for k in range(len(splits)):
        ctx.close(res[f"split{k}_test_score"], scores[:, k], f"test scores of split {k}", rtol=1e-9, atol=1e-12)
        ctx.close(res[f"split{k}_train_score"], tscores[:, k], f"train scores of split {k}", rtol=1e-9, atol=1e-12)
    mean = scores.mean(axis=1)
    ctx.close(res["mean_test_score"], mean, "mean test score", rtol=1e-9, atol=1e-12)
    ctx.close(est.best_score_, mean.max(), "best score", rtol=1e-9, atol=1e-12)
    ctx.close(mean[est.best_index_], mean.max(), "best index", rtol=1e-9, atol=1e-9)
    ctx.eq(dict(est.best_params_), cands[est.best_index_], "best parameters")
    want = clone(base).set_params(**cands[est.best_index_]).fit(X)
    ctx.close(est.best_estimator_.reconstruct(X).to_numpy(), want.reconstruct(X).to_numpy(), "refit estimator", rtol=1e-9, atol=1e-9)
    ctx.eq(hasattr(base, "dt_"), False, "the given estimator must not be fitted")
    ctx.eq(tm.observe(X), obs, "X modified")
    ctx.state(kind, folds, grid, layout, axis)


def run_array(ctx, dt, n):
    """transform of an array of length n at sampling rate dt"""
    from datafold.appfold import EDMD

    x = np.array([nonlin(np.array([0.3, 0.1]) * k, 0, k) for k in range(12)])
    X = tm.build((COL, [(0, [(k * dt, tuple(v)) for k, v in enumerate(x)])]))
    m = EDMD(steps_of("poly")).fit(X)
    a = x[:n].copy()
    got = m.transform(a)
    ctx.eq(len(got), n, "rows")
    ctx.close(got.index.get_level_values(1).to_numpy().astype(float), np.arange(n) * dt, "times", rtol=1e-12, atol=1e-12)
    ctx.close(got.to_numpy(), m.transform(X).to_numpy()[:n], "values", rtol=1e-12)
    ctx.eq(a.tolist(), x[:n].tolist(), "array modified")
    ctx.state(dt, n)


RUN = {"predict": run_predict, "recon": run_recon, "window": run_window, "control": run_control, "ctrlwin": run_ctrlwin, "cv": run_cv, "array": run_array}


def cases(tier):
    th = tier == "thorough"
    axes = ("int", "float01", "datens", "int3", "float") if th else ("int", "float01", "datens")
    lays = ("big", "bigu", "bigr", "bigo")
    combos = list(itertools.product(lays, axes))
    for k, cfg in enumerate(CONFIGS):
        for lay, axis in combos if th else [combos[(5 * k) % len(combos)]]:
            yield "predict", (cfg, lay, axis, th)
        for lay, axis in combos if th else [combos[(7 * k + 3) % len(combos)]]:
            yield "recon", (cfg, lay, axis, TEST_LAYOUTS if th else (("off", "uns"), ("rag", "bigr"), ("off", "one"))[k % 3])
    wc = [c for c in CONFIGS if c[0] in ("id", "delay", "pca", "poly") and c[2] == "infer"]
    wins = list(itertools.product(("one", "uns", "rag", "off", "bigo"), (2, 3, 4, 5), (1, 2, 3), ("int", "float01", "datens")))
    for k, cfg in enumerate(wc):
        for n, (lay, size, off, axis) in enumerate(wins):
            if th or (n + 5 * k) % 83 == 0:
                yield "window", (cfg, axis, size, off, lay)
    for k, cfg in enumerate(CCONF):
        for lay, axis in combos if th else [combos[(5 * k + 1) % len(combos)]]:
            yield "control", (cfg, lay, axis)
    for k, cfg in enumerate([c for c in CCONF if c[0] in ("id", "delay", "poly") and c[1] and c[2] == "infer" and not c[4]]):
        for n, (lay, size, off, axis, full) in enumerate(itertools.product(("one", "uns", "rag", "off", "bigo"), (2, 3, 4, 5), (1, 2, 3), ("int", "float01", "datens"), (False, True))):
            if th or (n + 5 * k) % 61 == 0:
                yield "ctrlwin", (cfg, axis, size, off, lay, full)
    for grid in ("poly", "const", "two"):
        for lay, kind, f in [(l, "series", f) for l in ("bigu", "bigt") for f in (2, 3)] + [(l, "time", f) for l in ("big", "bigu", "bigt") for f in (2, 3)]:
            if kind == "series" and f > len(LAYOUTS[lay][0]):
                continue
            for axis in ("int", "float01", "datens") if th else (("int", "float01", "datens")[(f + len(lay) + len(kind)) % 3],):
                yield "cv", (kind, f, grid, lay, axis)
    for dt in (1, 3, 0.1, 0.2, 0.3, 0.7, 0.01, 1 / 3, 0.05, 1.1):
        for n in range(1, 13, 1 if th or dt in (0.1, 0.7) else 5):
            yield "array", (dt, n)
