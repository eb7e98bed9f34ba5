"""C20: model predictive control and LQR return the optimal admissible input of the stated problem."""
import itertools
import numpy as np
import scipy.linalg
import scipy.optimize
import tscmodel as tm

PROPERTY = "C20"
CASE_LIMIT = 300
BOUND = """
controlled linear EDMD models (2 states, 1 and 2 inputs, stable/unstable, identity dictionary, constant appended, delay embedding) x
horizon {2, 3, 4} x every ordered choice of quantities of interest x running/terminal/input costs (number, vector, default) x input bounds
{none, tight, one-sided, wide} and state bounds {none, wide, active, contradictory}, both orders of a bound x references x initial
states x time axes; closed loop of up to 5 steps with a recorded plant; LQR for all costs and targets; control affine generator models
(AffineKgMPC): dictionaries {states, constant, bias first, attached states} x inputs x interpolation x costs x bounds, repeated calls with a
state array updated in place. Oracle: the cost as a Python loop
over x' = A x + B u, its exact gradient from finite evaluations, KKT conditions with non-negative multipliers, a linear program for
feasibility; value iteration for the Riccati equation.
"""
A2 = {"stable": [[0.9, 0.2], [-0.1, 0.8]], "unstable": [[1.1, 0.3], [0.0, 0.9]]}
B1 = {1: [[0.0], [0.5]], 2: [[0.4, -0.1], [0.2, 0.5]]}
DICTS = ("id", "const", "delay")
AXES = {"int": (lambda k: int(k), 1), "float": (lambda k: k * 0.5, 0.5), "int3": (lambda k: int(3 * k + 2), 3)}
_memo = {}


def model(system, m, d, axis):
    from datafold import EDMD, TSCDataFrame
    from datafold.dynfold import DMDControl, TSCIdentity, TSCTakensEmbedding

    key = (system, m, d, axis)
    if key in _memo:
        return _memo[key]
    A, B = np.array(A2[system]), np.array(B1[m])
    f = AXES[axis][0]
    xs, us = [], []
    for s, x0 in enumerate(([1.0, 0.5], [-0.7, 0.3], [0.2, -1.0])):
        x, n = np.array(x0), 7
        for k in range(n):
            xs.append((s, f(k), *x))
            if k < n - 1:
                u = np.array([np.sin(1.7 * k + s + 2.1 * j) + 0.3 * (-1) ** (k * (j + 1) + s) for j in range(m)])
                us.append((s, f(k), *u))
                x = A @ x + B @ u

    def tsc(rows, cols):
        return tm.build((cols, [(s, [(r[1], tuple(r[2:])) for r in rows if r[0] == s]) for s in range(3)]))

    X, U = tsc(xs, ["a", "b"]), tsc(us, [f"u{j}" for j in range(m)])
    steps = {"id": [("id", TSCIdentity())], "const": [("id", TSCIdentity(include_const=True))], "delay": [("delay", TSCTakensEmbedding(delays=1))]}[d]
    e = EDMD(steps, dmd_model=DMDControl(), include_id_state=False)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e.fit(X, U=U)
    _memo[key] = e
    return e


def lift(e, d, axis, rows):
    """initial condition (last sample at step 4) and its dictionary state"""
    f, dt = AXES[axis]
    n = e.n_samples_ic_
    X = tm.build((["a", "b"], [(3, [(f(4 - n + 1 + k), tuple(r)) for k, r in enumerate(rows[-n:])])]))
    last = np.array(rows[-1])
    z = {"id": last, "const": np.append(last, 1.0), "delay": np.concatenate([last, rows[-2]])}[d]
    return X, z


def names_of(e, d):
    return {"id": ["a", "b"], "const": ["a", "b", "const"], "delay": ["a", "b", "a:d1", "b:d1"]}[d]


def vec(cost, n):
    return np.ones(n) * cost if np.isscalar(cost) else np.array(cost, float)


def reference_problem(e, d, z0, qois, horizon, Q, QN, R, ref):
    A, B = np.array(e.dmd_model.sys_matrix_), np.array(e.dmd_model.control_matrix_)
    names = names_of(e, d)
    sel = [names.index(q) for q in qois]
    m = B.shape[1]

    def states(U):
        z, out = np.array(z0, float), []
        for k in range(horizon):
            z = A @ z + B @ U[k * m : (k + 1) * m]
            out.append(z[sel])
        return out

    def J(U):
        total = 0.0
        for k, y in enumerate(states(U)):
            w = QN if k == horizon - 1 else Q
            total += sum(w[i] * (y[i] - ref[k][i]) ** 2 for i in range(len(sel)))
            total += sum(R[j] * U[k * m + j] ** 2 for j in range(m))
        return total

    n = horizon * m
    zero = np.array(states(np.zeros(n))).ravel()
    S = np.column_stack([np.array(states(row)).ravel() - zero for row in np.eye(n)])
    return J, zero, S


def quad_gradient(zero, S, U, ref, Q, QN, R, horizon):
    """gradient of the cost from the simulated responses"""
    W = np.concatenate([np.tile(Q, horizon - 1), QN])
    return 2 * S.T @ (W * (zero + S @ U - np.array(ref).ravel())) + 2 * np.tile(R, horizon) * U


def gradient(J, U):
    n = len(U)
    return np.array([(J(U + e) - J(U - e)) / 2 for e in np.eye(n)])  # exact for a quadratic


def constraints(zero, S, horizon, m, sb, ib):
    rows, rhs = [], []
    n = S.shape[1]
    if sb is not None:
        lo, hi = np.tile(sb.min(axis=1), horizon), np.tile(sb.max(axis=1), horizon)
        rows += list(S) + list(-S)
        rhs += list(hi - zero) + list(zero - lo)
    if ib is not None:
        lo, hi = np.tile(ib.min(axis=1), horizon), np.tile(ib.max(axis=1), horizon)
        rows += list(np.eye(n)) + list(-np.eye(n))
        rhs += list(hi) + list(-lo)
    return np.array(rows).reshape(-1, n), np.array(rhs)


def optimal(ctx, g, U, G, h, name):
    scale = 1 + np.abs(U).max()
    if len(h):
        ctx.true((G @ U <= h + 1e-6 * scale).all(), f"{name}: bounds violated by {np.max(G @ U - h):.3g}")
    act = G[G @ U >= h - 1e-5 * scale] if len(h) else np.zeros((0, len(U)))
    if len(act):
        lam, res = scipy.optimize.nnls(act.T, -g)
    else:
        res = np.linalg.norm(g)
    ctx.true(res <= 1e-5 * (1 + np.abs(U).max() + np.abs(g).max()), f"{name}: not optimal, residual {res:.3g} of gradient {g}")


def bounds_of(kind, n):
    if kind is None:
        return None
    lo, hi = {"tight": (-0.2, 0.3), "wide": (-50, 60), "pos": (0.1, 5), "active": (-0.35, 0.6), "empty": (90, 91)}[kind]
    return np.array([[lo - 0.1 * i, hi + 0.05 * i] for i in range(n)])


REFS = {"zero": lambda k, i: 0.0, "ramp": lambda k, i: 0.3 * (k + 1) - 0.5 * i, "step": lambda k, i: 1.5 if k else -0.5}
ICS = [[(0.4, 0.1), (0.5, -0.2)], [(0.0, 0.0), (0.0, 0.0)], [(1.0, -1.0), (-0.3, 0.4)]]
COSTS = [(1, 1, 1), (1, 10, 0.1), ([1, 3], [0.5, 4], 0.2), ([2, 0], [0, 4], 0.5), (2, None, 0.5), (0.5, 2, "vec")]


QLISTS = [None] + [list(q) for r in (1, 2) for q in itertools.permutations(["a", "b"], r)]


def run_qp(ctx, system, m, d, axis, horizon, solver, full):
    from datafold.appfold.mpc import KMPC

    e = model(system, m, d, axis)
    f, dt = AXES[axis]
    names = names_of(e, d)
    ctx.close(e.dmd_model.sys_matrix_[:2, :2] if d != "delay" else np.array(A2[system]), A2[system], "identified system", atol=1e-6) if d == "id" else None
    qlists = QLISTS if full else [None, ["b"], ["b", "a"]]
    for qois, cost, sb, ib in itertools.product(qlists, COSTS, (None, "wide", "active", "empty"), (None, "tight", "pos", "wide")):
        use = qois or names
        n = len(use)
        if qois is None and sb == "active" and d == "const":
            continue  # the bound on the constant would be contradictory
        if (isinstance(cost[0], list) or isinstance(cost[1], list)) and n != 2:
            continue
        Q, R = vec(cost[0], n), vec(cost[2], m) if cost[2] != "vec" else np.array([0.3, 0.8][:m])
        QN = Q if cost[1] is None else vec(cost[1], n)
        arr = lambda c: np.array(c, float) if isinstance(c, list) else c
        sbb, ibb = bounds_of(sb, n), bounds_of(ib, m)
        flip = (horizon + n) % 2 == 1  # the two orders of a bound are the same admissible set
        kw = dict(state_bounds=None if sbb is None else (sbb[:, ::-1].copy() if flip else sbb.copy()), input_bounds=None if ibb is None else (ibb[:, ::-1].copy() if flip else ibb.copy()))
        first = True
        label = f"{system} inputs {m} {d} horizon {horizon} qois {qois} cost {cost} state {sb} input {ib}"
        c = KMPC(edmd=e, horizon=horizon, qois=qois, cost_running=arr(cost[0]), cost_terminal=arr(cost[1]), cost_input=R if cost[2] == "vec" else cost[2], solver=solver, **kw)
        for (rname, r), ic in itertools.product(list(REFS.items())[0 if full else 1 :], ICS[::2] if sb or not full else ICS):
            X, z0 = lift(e, d, axis, ic)
            ref = [[r(k, i) for i in range(n)] for k in range(horizon)]
            T = tm.build((list(use), [(3, [(f(5 + k), tuple(row)) for k, row in enumerate(ref)])]))
            before = tm.observe(X), tm.observe(T)
            J, zero, S = reference_problem(e, d, z0, use, horizon, Q, QN, R, ref)
            G, h = constraints(zero, S, horizon, m, sbb, ibb)
            name = f"{label} ref {rname} ic {ic}"
            ctx.step()
            if sb in ("active", "empty"):
                lp = scipy.optimize.linprog(np.append(np.zeros(S.shape[1]), 1.0), A_ub=np.column_stack([G, -np.ones(len(h))]), b_ub=h, bounds=[(None, None)] * S.shape[1] + [(-1, None)])
                if lp.x[-1] > 1e-6:
                    ctx.raises(ValueError, lambda: c.control_sequence_horizon(X, T), f"{name}: contradictory bounds")
                    continue
                if lp.x[-1] > -1e-6:
                    continue
            U = c.control_sequence_horizon(X, T)
            ctx.eq(list(U.columns), [f"u{j}" for j in range(m)], f"{name}: columns")
            ctx.eq([tm.norm_t(t) for t in U.time_values()], [tm.norm_t(f(4 + k)) for k in range(horizon)], f"{name}: time values")
            ctx.eq(U.n_timeseries, 1, "one series")
            v = U.to_numpy().ravel()
            g = quad_gradient(zero, S, v, ref, Q, QN, R, horizon)
            if first:  # bind the closed form to the simulated cost
                ctx.close(gradient(J, v), g, f"{name}: harness gradient", rtol=1e-6, atol=1e-6)
                first = False
            optimal(ctx, g, v, G, h, name)
            ctx.eq((tm.observe(X), tm.observe(T)), before, "arguments modified")
    ctx.state("qp", system, m, d, axis, horizon, solver)


def run_reject(ctx, d):
    from datafold.appfold.mpc import KMPC

    e = model("stable", 1, d, "int")
    n = len(names_of(e, d))
    ok = dict(edmd=e, horizon=3, state_bounds=None, input_bounds=None)
    bad = [
        (dict(horizon=1), ValueError), (dict(input_bounds=np.array([[0, 1], [0, 1]])), ValueError), (dict(state_bounds=np.array([[0, 1]] * (n + 1))), ValueError),
        (dict(cost_running=-1), ValueError), (dict(cost_running=np.ones(n + 1)), ValueError), (dict(cost_input=np.array([-1.0])), ValueError),
        (dict(cost_terminal=np.ones(n + 2)), ValueError), (dict(solver="none"), ValueError), (dict(qois=["nope"]), ValueError), (dict(cost_running="a"), TypeError),
    ]
    for kw, exc in bad:
        ctx.step()
        ctx.raises(exc, lambda: KMPC(**{**ok, **kw}), f"{kw}")
    c = KMPC(**ok)
    X, _ = lift(e, d, "int", ICS[0])
    T = lambda start, steps, cols: tm.build((cols, [(0, [(start + k, tuple(0.0 for _ in cols)) for k in range(steps)])]))
    cols = names_of(e, d)
    for ref, what in ((T(4, 3, cols), "starts at the initial condition"), (T(6, 3, cols), "starts late"), (T(5, 2, cols), "short"), (T(5, 4, cols), "long"), (T(5, 3, cols[:1]), "columns")):
        ctx.step()
        ctx.raises(ValueError, lambda: c.control_sequence_horizon(X, ref), f"reference {what}")
    ctx.state("reject", d)


def run_loop(ctx, system, m, d, horizon, steps, as_method):
    """receding horizon: each input is the first of the optimal sequence for the state the plant is in"""
    from datafold.appfold.mpc import KMPC

    axis = "int"
    e = model(system, m, d, axis)
    f = AXES[axis][0]
    cols = ["a", "b"]
    ib = bounds_of("tight", m)
    c = KMPC(edmd=e, horizon=horizon, state_bounds=None, input_bounds=ib, qois=cols, cost_running=1, cost_terminal=3, cost_input=0.1)
    calls = []
    Ap, Bp = np.array(A2[system]) * 0.97, np.array(B1[m]) * 1.1  # the plant differs from the model

    class Plant:
        def predict(self, X, U=None, time_values=None):
            calls.append((X.to_numpy().ravel().copy(), U.to_numpy().ravel().copy(), [tm.norm_t(t) for t in time_values], [tm.norm_t(t) for t in X.time_values()]))
            x = X.to_numpy().ravel()
            y = Ap @ x + Bp @ U.to_numpy().ravel()
            S = tm.build((cols, [(int(X.ids[0]), [(time_values[0], tuple(x)), (time_values[1], tuple(y))])]))
            return S, U

    ic = ICS[0]
    X, z0 = lift(e, d, axis, ic)
    ref = [[0.2 * k, -0.1 * k] for k in range(steps)]
    T = tm.build((cols, [(3, [(f(5 + k), tuple(r)) for k, r in enumerate(ref)])]))
    p = Plant()
    before = tm.observe(X), tm.observe(T)
    S, U = c.control_system_reference(p.predict if as_method else p, X.iloc[[-1], :], T, X)
    ctx.eq((tm.observe(X), tm.observe(T)), before, "arguments modified")
    ctx.true(len(calls) >= steps - 1, f"number of control steps {len(calls)}")
    hist = [np.array(r, float) for r in ic]
    for k, (x, u, tv, xt) in enumerate(calls):
        ctx.step()
        ctx.close(x, hist[-1], f"step {k}: state handed to the plant")
        ctx.eq(tv, [tm.norm_t(f(4 + k)), tm.norm_t(f(5 + k))], f"step {k}: time values")
        ctx.eq(xt, [tm.norm_t(f(4 + k))], f"step {k}: time of the state")
        z = np.concatenate([hist[-1], hist[-2]]) if d == "delay" else (np.append(hist[-1], 1.0) if d == "const" else hist[-1])
        window = (ref[k:] + [ref[-1]] * horizon)[:horizon]
        J, zero, S_ = reference_problem(e, d, z, cols, horizon, np.ones(2), 3 * np.ones(2), 0.1 * np.ones(m), window)
        G, h = constraints(zero, S_, horizon, m, None, ib)
        # the first input of an optimal sequence: the rest solves the remaining problem
        H = np.array([[(J(a + b) - J(a) - J(b) + J(np.zeros(len(a)))) for b in np.eye(S_.shape[1])] for a in np.eye(S_.shape[1])])
        best = scipy.optimize.minimize(J, np.clip(np.zeros(S_.shape[1]), -0.2, 0.3), jac=lambda v: gradient(J, v), bounds=[(-b, c2) for b, c2 in zip(-np.tile(ib[:, 0], horizon), np.tile(ib[:, 1], horizon))], method="L-BFGS-B", options={"ftol": 1e-15, "gtol": 1e-10})
        ctx.true(np.linalg.eigvalsh(H).min() > 1e-3, "harness: strictly convex")
        ctx.close(u, best.x[:m], f"step {k}: applied input", rtol=1e-4, atol=1e-4)
        hist.append(Ap @ hist[-1] + Bp @ u)
    got = S.loc[:, cols].to_numpy()
    ctx.close(got, np.array([hist[1 + k] for k in range(len(calls) + 1)]), "closed loop states", rtol=1e-8, atol=1e-9)
    ctx.eq([tm.norm_t(t) for t in S.time_values()], [tm.norm_t(f(4 + k)) for k in range(len(calls) + 1)], "closed loop times")
    ctx.close(U.to_numpy(), np.array([c_[1] for c_ in calls]), "control sequence")
    ctx.eq([tm.norm_t(t) for t in U.time_values()], [tm.norm_t(f(4 + k)) for k in range(len(calls))], "control times")
    ctx.state("loop", system, m, d, horizon, steps, as_method)


def riccati(A, B, Q, R):
    P = Q.copy()
    for _ in range(20000):
        K = np.linalg.solve(R + B.T @ P @ B, B.T @ P @ A)
        N = Q + A.T @ P @ (A - B @ K)
        if np.abs(N - P).max() < 1e-13 * np.abs(N).max():
            break
        P = N
    return np.linalg.solve(R + B.T @ P @ B, B.T @ P @ A)


def run_lqr(ctx, system, m, d, axis):
    from datafold.appfold.mpc import LQR

    if d == "const" or d == "delay":
        return  # uncontrollable modes on the unit circle / singular: not an LQR problem
    e = model(system, m, d, axis)
    A, B = np.array(e.dmd_model.sys_matrix_), np.array(e.dmd_model.control_matrix_)
    n = A.shape[0]
    for q, r in itertools.product((1, 0.2, [1.0, 3.0]), (1, 0.1, "vec")):
        Q = np.diag(vec(q, n))
        Rv = np.array([0.3, 0.8][:m]) if r == "vec" else vec(r, m)
        F = riccati(A, B, Q, np.diag(Rv))
        L = LQR(e, np.array(q) if isinstance(q, list) else q, Rv if r == "vec" else r)
        ctx.step()
        ctx.close(L.Flqr, F, f"gain {q} {r}", rtol=1e-6, atol=1e-7)
        X, z = lift(e, d, axis, ICS[0])
        ctx.raises(ValueError, lambda: L.control_sequence(X), "no target state")
        for target, how in itertools.product(([0.0, 0.0], [0.5, -1.0]), ("param", "preset", "both")):
            T, zt = lift(e, d, axis, [target, target])
            other, _ = lift(e, d, axis, [[9.0, 9.0], [9.0, 9.0]])
            L = LQR(e, np.array(q) if isinstance(q, list) else q, Rv if r == "vec" else r)
            if how != "param":
                ctx.true(L.preset_target_state(T if how == "preset" else other) is L, "returns self")
            name = f"LQR {system} inputs {m} costs {q} {r} target {target} {how}"
            u = L.control_sequence(X, target_state=None if how == "preset" else T)
            ctx.step()
            ctx.eq(list(u.columns), [f"u{j}" for j in range(m)], f"{name}: columns")
            ctx.eq([(int(i), tm.norm_t(t)) for i, t in u.index], [(3, tm.norm_t(AXES[axis][0](4)))], f"{name}: label")
            ctx.close(u.to_numpy(), (-F @ (z - zt))[None, :], name, rtol=1e-6, atol=1e-7)
    ctx.state("lqr", system, m, d, axis)


AFF = {
    # dictionary -> (names, lift of the states b, a)
    "id": (["b", "a"], lambda x: list(x)),
    "const": (["b", "a", "const"], lambda x: list(x) + [1.0]),
    "bias": (["1", "b", "a", "b^2", "b a", "a^2"], lambda x: [1.0, x[0], x[1], x[0] ** 2, x[0] * x[1], x[1] ** 2]),
    "attach": (["b", "a", "b^2", "b a", "a^2"], lambda x: [x[0], x[1], x[0] ** 2, x[0] * x[1], x[1] ** 2]),
}


def affine(d, m):
    """fitted EDMD with a control affine generator model"""
    from datafold import EDMD
    from datafold.dynfold import TSCIdentity, TSCPolynomialFeatures
    from datafold.dynfold.dmd import gDMDAffine

    key = ("affine", d, m)
    if key in _memo:
        return _memo[key]
    A = np.array([[-0.2, 0.9], [-0.8, -0.3]])
    Bs = np.array([[[0.3, 0.1], [-0.2, 0.4]], [[-0.1, 0.5], [0.2, 0.3]]])[:m]
    dt, xs, us = 0.1, [], []
    for s, x0 in enumerate(([1.0, 0.5], [-0.7, 0.3], [0.2, -1.0])):
        x = np.array(x0)
        for k in range(14):
            u = np.array([np.sin(0.9 * k + s + 2.1 * j) + 0.2 * (j + 1) for j in range(m)])
            xs.append((s, round(k * dt, 6), *x))
            us.append((s, round(k * dt, 6), *u))
            x = scipy.linalg.expm((A + np.einsum("i,ijk->jk", u, Bs)) * dt) @ x
    tsc = lambda rows, cols: tm.build((cols, [(s, [(r[1], tuple(r[2:])) for r in rows if r[0] == s]) for s in range(3)]))
    steps = {"id": TSCIdentity(), "const": TSCIdentity(include_const=True), "bias": TSCPolynomialFeatures(degree=2, include_bias=True, include_first_order=True), "attach": TSCPolynomialFeatures(degree=2, include_first_order=False)}[d]
    e = EDMD([("d", steps)], dmd_model=gDMDAffine(), include_id_state=d == "attach")
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e.fit(tsc(xs, ["b", "a"]), U=tsc(us, [f"u{j}" for j in range(m)]))
    _memo[key] = e
    return e


def rk4(f, y, t0, t1, n=20):
    h = (t1 - t0) / n
    for i in range(n):
        t = t0 + i * h
        k1 = f(t, y); k2 = f(t + h / 2, y + h / 2 * k1); k3 = f(t + h / 2, y + h / 2 * k2); k4 = f(t + h, y + h * k3)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return y


def run_affine(ctx, d, m, horizon, interp, costs, bound):
    from datafold.appfold.mpc import AffineKgMPC
    from scipy.interpolate import interp1d

    e = affine(d, m)
    names, lf = AFF[d]
    ctx.eq(list(e.dmd_model.feature_names_in_), names, "dictionary")
    L, B = np.asarray(e.dmd_model.sys_matrix_), np.asarray(e.dmd_model.control_matrix_)
    ctx.eq(B.shape, (len(names), len(names), m), "control tensor")
    sel = [names.index("b"), names.index("a")]
    cs, ci = costs
    ib = np.array([[bound + 0.3 * j, -bound - 0.2 * j] for j in range(m)])
    args = dict(horizon=horizon, input_bounds=ib, cost_state=np.array(cs) if isinstance(cs, list) else cs, cost_input=np.array(ci[:m]) if isinstance(ci, list) else ci, interpolation=interp)
    mpc = AffineKgMPC(e, **args)
    q = np.ones(2) * cs if not isinstance(cs, list) else np.array(cs)
    r = np.ones(m) * ci if not isinstance(ci, list) else np.array(ci[:m])
    dt = 0.1
    t = 0.3 + dt * np.arange(horizon + 1)
    x0s = [np.array([0.6, -0.4]), np.array([-0.3, 0.8])]
    xref = np.array([[0.5 - 0.1 * k, -0.2 + 0.07 * k * k] for k in range(horizon + 1)]).T
    us = [np.zeros((m, horizon + 1)), np.array([[0.4 * np.cos(k + j) + 0.1 * j for k in range(horizon + 1)] for j in range(m)])]

    def traj(x0, u):
        iu = interp1d(t, u, axis=1, kind=interp)
        f = lambda s, y: (L + B @ iu(min(max(s, t[0]), t[-1]))) @ y
        out = [np.array(lf(x0))]
        for k in range(horizon):
            # strictly inside the interval the (piecewise constant) input is the one of the interval
            g = f if interp != "previous" else (lambda s, y, k=k: (L + B @ u[:, k]) @ y)
            out.append(rk4(g, out[-1], t[k], t[k + 1]))
        return np.array(out).T

    def cost(x0, u):
        x = traj(x0, u)[sel]
        return sum((q[i] * (x[i, k] - xref[i, k])) ** 2 for i in range(2) for k in range(horizon + 1)) + sum((r[j] * u[j, k]) ** 2 for j in range(m) for k in range(horizon + 1))

    def jac(x0, u):
        x = traj(x0, u)
        gam = np.zeros_like(x)
        for i in range(2):
            gam[sel[i]] = 2 * q[i] * (x[sel[i]] - xref[i])
        lam = [np.zeros(len(names))]
        for k in reversed(range(horizon)):
            M = (L + B @ u[:, k]).T
            lam.append(rk4(lambda s, y: gam[:, k] + M @ y, lam[-1], 0.0, dt))
        lam = np.array(lam[::-1]).T
        return np.array([[lam[:, k] @ B[:, :, j] @ x[:, k] + 2 * r[j] * u[j, k] for k in range(horizon + 1)] for j in range(m)]).ravel()

    fresh = {}
    for (xi, x0), (ui, u) in itertools.product(enumerate(x0s), enumerate(us)):
        ctx.step()
        keep = x0.copy(), u.copy(), xref.copy()
        want = cost(x0, u)
        got = mpc.cost(u.ravel(), x0[:, None], xref, t)
        ctx.close(got, want, f"cost {d} inputs {m}", rtol=5e-3, atol=2e-3)
        wj = jac(x0, u)
        gj = mpc.jacobian(u.ravel(), x0[:, None], xref, t)
        ctx.eq(gj.shape, wj.shape, "jacobian shape")
        ctx.close(gj, wj, f"jacobian {d} inputs {m}", rtol=1e-2, atol=1e-2 * max(1.0, np.abs(wj).max()))
        c2, j2 = mpc.cost_and_jacobian(u.ravel(), x0[:, None], xref, t)
        ctx.close(c2, got, "cost_and_jacobian", rtol=1e-12)
        ctx.close(j2, gj, "cost_and_jacobian", rtol=1e-12, atol=1e-12)
        ctx.true(np.array_equal(keep[0], x0) and np.array_equal(keep[1], u) and np.array_equal(keep[2], xref), "arguments modified")
    R = tm.build((["b", "a"], [(0, [(tt, tuple(xref[:, k])) for k, tt in enumerate(t)])]))
    opt = {"maxiter": 6}
    for xi, x0 in enumerate(x0s):
        keep = x0.copy(), xref.copy(), tm.observe(R)
        U = mpc.generate_control_signal(x0, R, options=opt)
        ctx.step()
        ctx.eq(U.shape, (horizon, m), "shape of the control sequence")
        for j in range(m):
            ctx.true(bool((U[:, j] <= ib[j, 0] + 1e-12).all() and (U[:, j] >= ib[j, 1] - 1e-12).all()), f"input {j} within its bounds {ib[j]}: {U[:, j]}")
        ref0 = xref.copy()
        alt = AffineKgMPC(e, **args)
        W = alt.generate_control_signal(x0[:, None], xref, time_values=t, options=opt)
        ctx.close(W, U, "array and time series arguments", rtol=1e-9, atol=1e-9)
        ctx.true(np.array_equal(keep[0], x0) and np.array_equal(keep[1], xref) and tm.observe(R) == keep[2], "arguments modified")
        base = cost(x0, np.zeros((m, horizon + 1)))
        full = np.vstack([U, np.zeros((1, m))]).T if interp == "previous" else None
        if full is not None:  # the last input only enters the input cost
            ctx.true(cost(x0, full) <= base * (1 + 1e-2) + 1e-3, f"sequence is not better than no input: {cost(x0, full)} > {base}")
        fresh[xi] = U
    # receding horizon: the state array is updated in place between two calls
    x = x0s[0].copy()
    one = AffineKgMPC(e, **args)
    ctx.close(one.generate_control_signal(x, R, options=opt), fresh[0], "first call", rtol=1e-9, atol=1e-9)
    x[:] = x0s[1]
    ctx.close(one.generate_control_signal(x, R, options=opt), fresh[1], "second call with the updated state", rtol=1e-9, atol=1e-9)
    ctx.close(one.generate_control_signal(x0s[0], R, options=opt), fresh[0], "third call", rtol=1e-9, atol=1e-9)
    ctx.state("affine", d, m, horizon, interp, costs, bound)


def run_affreject(ctx, d, m):
    from datafold.appfold.mpc import AffineKgMPC

    e = affine(d, m)
    ib = np.array([[1.0, -1.0]] * m)
    ok = dict(predictor=e, horizon=3, input_bounds=ib)
    for kw, exc in ((dict(predictor=model("stable", 1, "id", "int")), TypeError), (dict(input_bounds=np.ones((m + 1, 2))), ValueError), (dict(input_bounds=np.ones((m, 3))), ValueError), (dict(cost_input=np.ones(m + 1)), ValueError), (dict(cost_state=np.ones(3)), ValueError)):
        ctx.step()
        ctx.raises(exc, lambda: AffineKgMPC(**{**ok, **kw}), f"{list(kw)}")
    c = AffineKgMPC(**ok)
    x0, t = np.array([0.1, 0.2]), 0.1 * np.arange(4)
    ref = np.zeros((2, 4))
    for a, exc, what in (((x0, ref), TypeError, "array reference without time values"), ((x0, ref, t[:-1]), ValueError, "short time values"), ((x0, ref[:, :-1], t), ValueError, "short reference"), ((x0, ref[:1], t), ValueError, "reference with one feature"), ((x0[:1], ref, t), ValueError, "short state"), ((np.ones((2, 2)), ref, t), ValueError, "two states")):
        ctx.step()
        ctx.raises(exc, lambda: c.generate_control_signal(*a), what)
    ctx.state("affreject", d, m)


def cases(tier):
    th = tier == "thorough"
    out = []
    for s, m, d, h in itertools.product(A2, (1, 2), DICTS, (2, 3, 4)):
        axis = ("int", "float", "int3")[(h + m) % 3]
        for ax in AXES if th else (axis,):
            for solver in ("quadprog", "daqp") if th else ("quadprog",):
                out.append(("qp", (s, m, d, ax, h, solver, th)))
    out += [("reject", (d,)) for d in ("id", "const")]
    out += [("loop", (s, m, d, h, n, a)) for s in A2 for m in (1, 2) for d in DICTS for h, n in ((2, 2), (2, 5), (3, 3), (5, 3)) for a in (True, False)]
    out += [("lqr", (s, m, d, a)) for s in A2 for m in (1, 2) for d in ("id",) for a in AXES]
    for d, m in itertools.product(AFF, (1, 2)):
        out.append(("affreject", (d, m)))
        for h, ip, c, b in itertools.product((3, 6) if th else (4,), ("previous", "linear", "cubic"), ((1, 1), (2, 0.3), ([1.0, 3.0], 0), (0.5, [0.2, 0.7])), (5.0, 0.2)):
            if not th and (c, b) not in (((2, 0.3), 5.0), (([1.0, 3.0], 0)), (([1.0, 3.0], 0), 0.2), ((0.5, [0.2, 0.7]), 5.0)):
                continue
            out.append(("affine", (d, m, h, ip, c, b)))
    return out


RUN = {"affine": run_affine, "affreject": run_affreject, "qp": run_qp, "reject": run_reject, "loop": run_loop, "lqr": run_lqr}
