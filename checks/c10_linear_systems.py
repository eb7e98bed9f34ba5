"""C10: evolution of linear dynamical systems: matrix powers / exponentials / control recursion, labels."""
import itertools
import numpy as np
import tscmodel as tm

PROPERTY = "C10"
BOUND = """
alphabet: every 2x2 matrix over {-1, 0, 1/2, 2} (256) and a catalogue of 1x1 and 3x3 matrices (diagonal, rotation, Jordan,
nilpotent, defective); types {flowmap, differential} x modes {matrix, spectral with left+right, spectral right only} x
{free, controlled, control affine}; time steps {1, 0.5, 0.1, datetime-ns} and time value words (every subset of
{0,1,2,3,5} steps of size 1..3 plus unsorted/one value); 1-3 initial conditions, IDs default/permuted/holed; control words over
{-1,0,2} up to 3 steps (1-2 inputs); overwrite (projection) matrices; all illegal argument shapes. Oracle: repeated
multiplication, scaled Taylor series of the matrix exponential, step recursion; semigroup property.
"""
V = (-1.0, 0.0, 0.5, 2.0)


def mats():
    for q in itertools.product(range(4), repeat=4):
        yield q


def mat(q):
    if isinstance(q, (list, tuple)):
        return np.array([V[k] for k in q]).reshape(2, 2)
    c, s = np.cos(0.7), np.sin(0.7)
    return {
        "one": np.array([[0.5]]), "neg": np.array([[-1.5]]), "zero": np.array([[0.0]]),
        "diag3": np.diag([1.0, 0.5, -0.25]), "rot3": np.array([[c, -s, 0], [s, c, 0], [0, 0, 0.9]]),
        "jordan3": np.array([[1.0, 1, 0], [0, 1, 1], [0, 0, 1]]), "nil3": np.array([[0.0, 1, 2], [0, 0, 3], [0, 0, 0]]),
        "full3": np.array([[0.2, 0.5, -0.3], [0.1, -0.4, 0.6], [0.7, 0.0, 0.3]]), "spd3": np.array([[2.0, 0.5, 0.1], [0.5, 1.0, 0.2], [0.1, 0.2, 0.5]]),
    }[q]


NAMED = ("one", "neg", "zero", "diag3", "rot3", "jordan3", "nil3", "full3", "spd3")


def power(A, n):
    R = np.eye(len(A))
    for _ in range(n):
        R = A @ R
    return R


def expm(A):
    s = 0
    while np.abs(A).sum() > 0.5:
        A = A / 2
        s += 1
    R, T = np.eye(len(A)), np.eye(len(A))
    for k in range(1, 25):
        T = T @ A / k
        R = R + T
    for _ in range(s):
        R = R @ R
    return R


def ics(n, m):
    return np.array([[1.0 + 0.5 * i - 0.75 * j + (0.3 if (i + j) % 2 else 0) for j in range(m)] for i in range(n)])


IDS = {1: [None, (4,)], 2: [None, (5, 2)], 3: [None, (1, 7, 0)]}


def spectral(A):
    """(right, eigenvalues, left) or None if not (well) diagonalisable"""
    ev, R = np.linalg.eig(A)
    if np.linalg.cond(R) > 1e6:
        return None
    return R, ev, np.linalg.inv(R)


def check_frame(ctx, df, states, ids, times, names, msg, tol=1e-8):
    """states: dict series position -> list over times of vectors; df rows must be ids x times"""
    want_idx = [(int(i), float(t)) for i in ids for t in sorted(times)]
    got_idx = [(int(i), float(t)) for i, t in zip(df.index.get_level_values(0), df.index.get_level_values(1))]
    ctx.eq(sorted(got_idx), sorted(want_idx), f"{msg}: index")
    ctx.eq(list(df.columns), list(names), f"{msg}: columns")
    lut = {(int(i), float(t)): states[p][k] for p, i in enumerate(ids) for k, t in enumerate(times)}
    arr = df.to_numpy()
    ctx.true(np.isrealobj(arr), f"{msg}: complex result")
    want = np.array([lut[k] for k in got_idx])
    ctx.close(arr, want, msg, rtol=tol, atol=tol * max(1.0, float(np.abs(want).max())))


def build(typ, mode, A, **kw):
    from datafold.dynfold.dynsystem import LinearDynamicalSystem

    L = LinearDynamicalSystem(sys_type=typ, sys_mode="matrix" if mode == "matrix" else "spectral", **{k: v for k, v in kw.items() if k.startswith("is_")})
    B = kw.get("B")
    if mode == "matrix":
        L.setup_matrix_system(A.copy(), control_matrix=None if B is None else B.copy())
        return L, None
    sp = spectral(A)
    if sp is None:
        return None, None
    R, ev, Le = sp
    L.setup_spectral_system(eigenvectors_right=R, eigenvalues=ev, eigenvectors_left=Le if mode == "spectral" else None, control_matrix=None if B is None else B.copy())
    return L, sp


def run_free(ctx, typ, mode, q, dt, words, m):
    A = mat(q)
    n = len(A)
    L, sp = build(typ, mode, A)
    if L is None:
        ctx.state("defective", q)
        return
    X0 = ics(n, m)
    x0c = X0.copy()
    names = ["x", "y", "z"][:n]
    start = X0 if mode == "matrix" else L.compute_spectral_system_states(X0)
    if mode != "matrix":
        ctx.close(sp[0] @ start, X0, "spectral state represents the state", atol=1e-8)
    prop = (lambda k: power(A, k)) if typ == "flowmap" else (lambda k: expm(A * (k * dt)))
    tol = 1e-8 if sp is None else 1e-8 * max(1.0, np.linalg.cond(sp[0]) ** 1)
    for w in words:
        times = np.array([k * dt for k in w])
        for ids in IDS[m]:
            kw = dict(time_series_ids=None if ids is None else np.array(ids), feature_names_out=names if ids else None)
            if typ == "flowmap":
                kw["time_delta"] = dt
            df = L.evolve_system(start, time_values=times, **kw)
            st = {p: [prop(k) @ X0[:, p] for k in w] for p in range(m)}
            check_frame(ctx, df, st, ids or range(m), times, names if ids else range(n), f"{typ}/{mode} A={A.tolist()} dt={dt} steps={w}", tol)
    # list / scalar time values, single 1-dim state
    if m == 1 and mode == "matrix":
        kw = dict(time_delta=dt) if typ == "flowmap" else {}
        df = L.evolve_system(X0[:, 0], time_values=2 * dt, **kw)
        check_frame(ctx, df, {0: [prop(2) @ X0[:, 0]]}, [0], [2 * dt], range(n), "scalar time value", tol)
        df = L.evolve_system(X0[:, 0], time_values=[0, dt], **kw)
        check_frame(ctx, df, {0: [X0[:, 0], prop(1) @ X0[:, 0]]}, [0], [0, dt], range(n), "list of time values", tol)
    # semigroup: 3 steps = 2 steps after 1 step
    kw = dict(time_delta=dt) if typ == "flowmap" else {}
    one = L.evolve_system(start, time_values=np.array([dt]), **kw).to_numpy().T
    s1 = one if mode == "matrix" else L.compute_spectral_system_states(one)
    two = L.evolve_system(s1, time_values=np.array([2 * dt]), **kw).to_numpy().T
    thr = L.evolve_system(start, time_values=np.array([3 * dt]), **kw).to_numpy().T
    ctx.close(two, thr, f"semigroup property {typ}/{mode} A={A.tolist()}", atol=tol * 1e2 * max(1, np.abs(thr).max()), rtol=1e-6)
    # a projection (only spectral or matrix type with overwrite)
    P = np.array([[1.0] * n, [0.5] + [0.0] * (n - 1)])
    if mode != "matrix":
        df = L.evolve_system(start, time_values=np.array([0, 2 * dt]), overwrite_sys_matrix=P @ sp[0], feature_names_out=["p", "q"] if n == 2 else None, **kw) if n == 2 else None
        if df is not None:
            st = {p: [P @ X0[:, p], P @ prop(2) @ X0[:, p]] for p in range(m)}
            check_frame(ctx, df, st, range(m), [0, 2 * dt], ["p", "q"], "projected system", tol)
    ctx.eq(X0, x0c, "initial states modified")
    ctx.state(typ, mode, q, dt, m, thr)


def run_fraction(ctx, mode, q, num, den):
    """flowmap at fractional steps: (A^(num/den))^den = A^num, for matrices with positive real spectrum"""
    A = mat(q)
    ev = np.linalg.eigvals(A)
    if np.iscomplexobj(ev) and np.abs(ev.imag).max() > 1e-12 or ev.real.min() < 1e-6:
        return
    L, sp = build("flowmap", mode, A)
    if L is None:
        return
    n = len(A)
    x = np.eye(n)
    # propagate the identity: rows of the frame are the columns of A^(num/den)
    F = L.evolve_system(x if mode == "matrix" else L.compute_spectral_system_states(x), time_values=np.array([num / den]), time_delta=1.0).to_numpy().T
    ctx.close(power(F, den), power(A, num), f"fractional step {num}/{den} of {A.tolist()}", atol=1e-6, rtol=1e-5)
    ctx.state(mode, q, num, den, F)


def recursion(A, B, x, u):
    out = [x]
    for k in range(len(u)):
        x = A @ x + B @ np.asarray(u[k])
        out.append(x)
    return out


def run_control(ctx, typ, mode, q, m, uw, nin, dt):
    """uw: per initial condition a word of control values"""
    A = mat(q)
    n = len(A)
    B = np.array([[1.0, -0.5], [0.25, 2.0], [-1.0, 0.5]])[:n, :nin]
    L, sp = build(typ, mode, A, B=B, is_controlled=True)
    if L is None:
        ctx.state("defective", q)
        return
    T = len(uw[0])
    U = np.array([[[uw[p][k] * (1 if c == 0 else -0.5) + 0.1 * c for c in range(nin)] for k in range(T)] for p in range(m)])
    uc = U.copy()
    X0 = ics(n, m)
    start = X0 if mode == "matrix" else L.compute_spectral_system_states(X0)
    times = np.arange(T + 1) * dt
    kw = dict(time_delta=dt) if typ == "flowmap" else {}
    arg = U if m > 1 or T % 2 else U[0]
    if m == 1 and nin == 1 and T % 3 == 0:
        arg = U[0, :, 0]
    df = L.evolve_system(start, time_values=times, control_input=arg, time_series_ids=np.array([9, 3, 5][:m]), **kw)
    if typ == "flowmap":
        Ad, Bd = A, B
    else:  # zero-order hold
        M = np.zeros((n + nin, n + nin))
        M[:n, :n], M[:n, n:] = A * dt, B * dt
        E = expm(M)
        Ad, Bd = E[:n, :n], E[:n, n:]
    st = {p: recursion(Ad, Bd, X0[:, p], U[p]) for p in range(m)}
    tol = 1e-8 if sp is None else 1e-8 * max(1.0, np.linalg.cond(sp[0]))
    check_frame(ctx, df, st, [9, 3, 5][:m], times, range(n), f"controlled {typ}/{mode} A={A.tolist()} u={uw}", tol)
    ctx.eq(U, uc, "control input modified")
    ctx.state(typ, mode, q, uw, nin, dt)


def run_affine(ctx, q, m, us, T, dt):
    """constant control: x(t) = exp((A + sum_k u_k B_k) t) x0 (ode solver tolerance)"""
    A = mat(q)
    n = len(A)
    B = np.zeros((n, n, len(us[0])))
    for k in range(len(us[0])):
        B[:, :, k] = np.array([[0.1 * (k + 1), 0.2], [-0.3, 0.05 * k]])
    L, _ = build("differential", "matrix", A, B=B, is_controlled=True, is_control_affine=True)
    L._requires_last_control_state = True  # as the models using this system set it
    X0 = ics(n, m)
    times = np.arange(T) * dt
    U = np.array([[us[p] for _ in range(T)] for p in range(m)])
    df = L.evolve_system(X0, time_values=times, control_input=U)
    for p in range(m):
        G = A + sum(us[p][k] * B[:, :, k] for k in range(len(us[p])))
        got = df.loc[p].to_numpy()
        want = np.array([expm(G * t) @ X0[:, p] for t in times])
        ctx.close(got, want, f"control affine system {A.tolist()} u={us[p]}", rtol=2e-2, atol=2e-2 * max(1.0, np.abs(want).max()))
    ctx.state(q, m, us, T, dt)


def run_reject(ctx, what):
    from datafold.dynfold.dynsystem import LinearDynamicalSystem as LS

    A = np.array([[0.5, 1.0], [0.0, 0.25]])
    x = np.array([1.0, 2.0])
    t = np.arange(3)
    E = (ValueError, TypeError, RuntimeError, AttributeError, NotImplementedError)
    L = LS("flowmap", "matrix").setup_matrix_system(A)
    C = LS("flowmap", "matrix", is_controlled=True).setup_matrix_system(A, control_matrix=np.ones((2, 1)))
    u = np.ones((2, 1))
    cases = {
        "type": lambda: LS("flow", "matrix"),
        "mode": lambda: LS("flowmap", "spectra"),
        "timevariant": lambda: LS("flowmap", "matrix", is_time_invariant=False),
        "affine_flow": lambda: LS("flowmap", "matrix", is_controlled=True, is_control_affine=True),
        "spectral_diff_controlled": lambda: LS("differential", "spectral", is_controlled=True),
        "no_dt": lambda: L.evolve_system(x, time_values=t),
        "zero_dt": lambda: L.evolve_system(x, time_values=t, time_delta=0),
        "neg_dt": lambda: L.evolve_system(x, time_values=t, time_delta=-0.5),
        "array_dt": lambda: L.evolve_system(x, time_values=t, time_delta=np.array([1.0, 2.0])),
        "ic_len": lambda: L.evolve_system(np.ones(3), time_values=t, time_delta=1),
        "ic_3d": lambda: L.evolve_system(np.ones((2, 1, 1)), time_values=t, time_delta=1),
        "names_len": lambda: L.evolve_system(x, time_values=t, time_delta=1, feature_names_out=["a"]),
        "names_dup": lambda: L.evolve_system(x, time_values=t, time_delta=1, feature_names_out=["a", "a"]),
        "ids_len": lambda: L.evolve_system(x, time_values=t, time_delta=1, time_series_ids=np.array([0, 1])),
        "ids_dup": lambda: L.evolve_system(np.ones((2, 2)), time_values=t, time_delta=1, time_series_ids=np.array([1, 1])),
        "ids_neg": lambda: L.evolve_system(x, time_values=t, time_delta=1, time_series_ids=np.array([-1])),
        "overwrite_1d": lambda: L.evolve_system(x, time_values=t, time_delta=1, overwrite_sys_matrix=np.ones(2)),
        "control_missing": lambda: C.evolve_system(x, time_values=t, time_delta=1),
        "control_short": lambda: C.evolve_system(x, time_values=t, time_delta=1, control_input=u[:1]),
        "control_long": lambda: C.evolve_system(x, time_values=t, time_delta=1, control_input=np.ones((3, 1))),
        "control_width": lambda: C.evolve_system(x, time_values=t, time_delta=1, control_input=np.ones((2, 2))),
        "control_n_ic": lambda: C.evolve_system(np.ones((2, 2)), time_values=t, time_delta=1, control_input=u),
        "setup_control_rows": lambda: LS("flowmap", "matrix", is_controlled=True).setup_matrix_system(A, control_matrix=np.ones((3, 1))),
        "setup_control_uncontrolled": lambda: LS("flowmap", "matrix").setup_matrix_system(A, control_matrix=np.ones((2, 1))),
        "setup_affine_shape": lambda: LS("differential", "matrix", is_controlled=True, is_control_affine=True).setup_matrix_system(A, control_matrix=np.ones((2, 1))),
        "setup_affine_rows": lambda: LS("differential", "matrix", is_controlled=True, is_control_affine=True).setup_matrix_system(A, control_matrix=np.ones((3, 2, 1))),
        "spectral_on_matrix": lambda: L.setup_spectral_system(A, np.ones(2)),
        "spectral_states_on_matrix": lambda: L.compute_spectral_system_states(x),
        "spectral_len": lambda: LS("flowmap", "spectral").setup_spectral_system(A, np.ones(3)),
        "not_setup": lambda: LS("flowmap", "matrix").is_linear_system_setup(raise_error_if_not_setup=True),
        "not_setup_spectral": lambda: LS("flowmap", "spectral").compute_spectral_system_states(x),
    }
    if what == "list":
        return sorted(cases)
    ctx.raises(E, cases[what], what)
    ctx.state(what)


RUN = {"free": run_free, "fraction": run_fraction, "control": run_control, "affine": run_affine, "reject": run_reject}
REJ = ["affine_flow", "array_dt", "control_long", "control_missing", "control_n_ic", "control_short", "control_width", "ic_3d", "ic_len", "ids_dup", "ids_len", "ids_neg", "mode", "names_dup", "names_len", "neg_dt", "no_dt", "not_setup", "not_setup_spectral", "overwrite_1d", "setup_affine_rows", "setup_affine_shape", "setup_control_rows", "setup_control_uncontrolled", "spectral_diff_controlled", "spectral_len", "spectral_on_matrix", "spectral_states_on_matrix", "timevariant", "type", "zero_dt"]


def cases(tier):
    th = tier == "thorough"
    words = [w for r in (1, 2, 3) for w in itertools.combinations((0, 1, 2, 3, 5), r)] + [(3, 1), (2, 0, 5)]
    few = [(0,), (1,), (0, 1, 2), (0, 2, 5), (3, 1)]
    all_m = list(mats()) + list(NAMED)
    for k, q in enumerate(all_m):
        for typ in ("flowmap", "differential"):
            for mode in ("matrix", "spectral", "right"):
                ms = (1, 2, 3) if (th or isinstance(q, str)) else (1 + k % 3,)
                for m in ms:
                    full = isinstance(q, str) or th
                    for dt in (1, 0.5, 0.1) if full else ((1, 0.5, 0.1)[k % 3],):
                        yield "free", (typ, mode, q, dt, tuple(words if full else few), m)
    for q in all_m:
        for mode in ("matrix", "spectral", "right"):
            for num, den in ((1, 2), (3, 2), (1, 3), (7, 4)):
                yield "fraction", (mode, q, num, den)
    cm = list(NAMED) + [(3, 0, 2, 1), (2, 1, 1, 2), (0, 1, 3, 2), (1, 3, 0, 1), (2, 3, 0, 2)]
    for q in cm:
        for typ, mode in (("flowmap", "matrix"), ("flowmap", "spectral"), ("differential", "matrix")):
            for dt in (1, 0.5):
                for nin in (1, 2):
                    for T in (1, 2, 3):
                        for w in itertools.product((-1, 0, 2), repeat=T):
                            yield "control", (typ, mode, q, 1, (w,), nin, dt)
                            if T == 2:
                                yield "control", (typ, mode, q, 2, (w, w[::-1]), nin, dt)
                                yield "control", (typ, mode, q, 3, (w, (2, 2), (0, -1)), nin, dt)
    for q in [(2, 1, 1, 2), (0, 1, 2, 0), (1, 2, 0, 1), (0, 2, 2, 0)]:
        for T in (4, 6):
            for dt in (0.1, 0.25):
                for us in itertools.product([(-1.0,), (0.0,), (2.0,)], repeat=1):
                    yield "affine", (q, 1, us, T, dt)
                for us in itertools.product([(-1.0, 0.5), (1.0, 0.0), (0.0, 2.0)], repeat=2):
                    yield "affine", (q, 2, us, T, dt)
    for w in REJ:
        yield "reject", (w,)
