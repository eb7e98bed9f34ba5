"""C12: OnlineDMD / StreamingDMD: every way to cut a stream into partial_fit calls gives the batch solution."""
import itertools
import numpy as np
import pandas as pd
import tscmodel as tm
import c11_dmd as d11
from datafold.pcfold.timeseries.collection import TSCException

PROPERTY = "C12"
BOUND = """
alphabet: streams of 6-8 samples with 1-3 features from 3 linear and 3 non-linear sources; EVERY partition of the stream into
consecutive partial_fit calls (2^(n-2) cut sets, chunks overlap in one sample), every order of up to 4 two-sample series, chunks with
several series; OnlineDMD: weighting {1, 0.9, 0.5} x batch start / cold start x diagonalize; StreamingDMD: max_rank {none, 1, 2, 3}.
After every chunk: A equals the exponentially weighted least squares optimum of the pairs seen so far, timestep_ and ready_ count them,
predictions are powers of A.  StreamingDMD after every chunk equals the projected least squares operator on the span of the snapshots.
"""


def stream(kind, n, N):
    if kind == "nl":
        x = [d11.ic(0, n)]
        for k in range(N - 1):
            x.append(d11.nonlin(x[-1], 1, k) + 0.2 * np.cos(3.0 * k + np.arange(n)))
        return np.array(x)
    if kind == "nl2":
        return np.array([[np.sin(1.3 * k * (j + 1)) + 0.1 * j * k - 0.4 for j in range(n)] for k in range(N)])
    if kind == "lin":
        A = {1: np.array([[-0.8]]), 2: np.array([[0.9, 0.4], [-0.5, 0.7]]), 3: d11.mat("full3") + np.eye(3) * 0.3}[n]
        x = [d11.ic(1, n)]
        for _ in range(N - 1):
            x.append(A @ x[-1])
        return np.array(x)
    if kind == "rank1":  # snapshots in a one/two dimensional subspace
        v = np.array([1.0, -0.5, 2.0])[:n]
        return np.array([v * (0.8**k) * (1 if k % 2 else -1.2) for k in range(N)])
    raise KeyError(kind)


def tsc(rows, t0, cols, sid=0, axis="int"):
    ts = tm.taxis(axis, len(rows), t0)
    return tm.build((cols, [(sid, list(zip(ts, [tuple(r) for r in rows])))]))


def chunks(N, mask):
    """cut at inner samples 1..N-2; consecutive chunks share one sample"""
    cuts = [0] + [k for k in range(1, N - 1) if mask >> (k - 1) & 1] + [N - 1]
    return [(a, b) for a, b in zip(cuts[:-1], cuts[1:])]


def wls(P, Y, rho):
    w = rho ** np.arange(len(P))[::-1]
    X, Z = P * np.sqrt(w)[:, None], Y * np.sqrt(w)[:, None]
    s = np.linalg.svd(X, compute_uv=False)
    full = len(P) >= P.shape[1] and s[-1] > 2e-2 * s[0]
    return np.linalg.lstsq(X, Z, rcond=1e-10)[0].T, full


def check_spectral(ctx, model, A, cols, msg, tol):
    R, ev, L = model.eigenvectors_right_, model.eigenvalues_, model.eigenvectors_left_
    ctx.close(A @ R, R * ev, f"{msg}: eigenpairs do not belong to the current A", rtol=tol, atol=tol)
    if model.get_params().get("is_diagonalize"):
        ctx.close(R @ L, np.eye(len(A)), f"{msg}: left eigenvectors", rtol=tol, atol=tol)
    if not d11.diagonalisable(A):
        return
    from datafold.pcfold import InitialCondition

    x0 = d11.ic(2, len(A))[None, :]
    got = model.predict(InitialCondition.from_array(x0, time_value=3, feature_names=pd.Index(cols)), time_values=np.array([3, 4, 6]))
    P = d11.powers(A, 3)
    ctx.close(got.to_numpy(), np.array([P[k] @ x0[0] for k in (0, 1, 3)]), f"{msg}: prediction", rtol=tol, atol=tol)
    got = model.predict(x0)
    ctx.close(got.to_numpy(), np.array([x0[0], A @ x0[0]]), f"{msg}: default prediction of an array", rtol=tol, atol=tol)


def run_online(ctx, kind, n, N, mask, rho, batch, diag):
    from datafold.dynfold.dmd import OnlineDMD

    data = stream(kind, n, N)
    cols = d11.cols_of(n)
    model = OnlineDMD(weighting=rho, is_diagonalize=bool(diag))
    for c, (a, b) in enumerate(chunks(N, mask)):
        X = tsc(data[a: b + 1], a, cols)
        before = tm.observe(X)
        model.partial_fit(X, **(dict(batch_fit=True) if batch and c == 0 else {}))
        ctx.eq(tm.observe(X), before, "partial_fit modified the data")
        ctx.eq(int(model.timestep_), b, "timestep_")
        ctx.eq(bool(model.ready_), b >= 2 * n, "ready_")
        A, full = wls(data[:b], data[1: b + 1], rho)
        if batch:
            A0, full0 = wls(data[: chunks(N, mask)[0][1]], data[1: chunks(N, mask)[0][1] + 1], rho)
            if not full0:
                return  # batch start with fewer independent samples than features is not defined
            tol = 1e-6
        else:
            if not full:
                continue
            tol = 0.15 * max(1.0, np.abs(A).max())  # ghost-sample start in double precision
        ctx.close(model.A, A, f"OnlineDMD after chunk {c} (pairs 0..{b - 1}): A is not the weighted least squares solution", rtol=tol, atol=tol)
        if model.ready_:
            check_spectral(ctx, model, np.array(model.A), cols, f"OnlineDMD after chunk {c}", 1e-6)
        ctx.state(np.round(A, 6), b, rho)


def run_online_series(ctx, n, order, split, rho):
    """series as chunks / several series in one chunk: pairs never cross a series"""
    from datafold.dynfold.dmd import OnlineDMD

    base = [stream("nl", n, 4), stream("nl2", n, 3), stream("lin", n, 4)]
    cols = d11.cols_of(n)
    P, Y = [], []
    model = OnlineDMD(weighting=rho)
    groups = [order[:split], order[split:]] if split else [[p] for p in order]
    first = True
    for g in groups:
        if not g:
            continue
        X = tm.build((cols, [(10 - p, list(zip(range(len(base[p])), [tuple(r) for r in base[p]]))) for p in g]))
        model.partial_fit(X, batch_fit=first)
        first = False
        for p in g:
            P.append(base[p][:-1])
            Y.append(base[p][1:])
        if len(g) > 1 and rho < 1:
            # within one chunk the order of the series is that of the snapshot matrices: only the weight of whole chunks is specified
            return
        A, full = wls(np.vstack(P), np.vstack(Y), rho)
        A0, full0 = wls(np.vstack(P[: len(groups[0])]), np.vstack(Y[: len(groups[0])]), rho)
        if not full0:
            return
        ctx.close(model.A, A, f"OnlineDMD series {order} split {split}", rtol=1e-6, atol=1e-6)
        ctx.eq(int(model.timestep_), len(np.vstack(P)), "timestep_ of several series")
    ctx.state(model.A)


def proj_oracle(P, Y, r):
    """streaming DMD: subspaces = span of the first (at most r) independent snapshots"""
    def basis(S):
        Q = np.zeros((S.shape[1], 0))
        margin = np.inf
        for s in S:
            if r is not None and Q.shape[1] >= r:
                break
            e = s - Q @ (Q.T @ s)
            e = e - Q @ (Q.T @ e)
            rel = np.linalg.norm(e) / np.linalg.norm(s)
            if rel > 1e-8:
                margin = min(margin, rel)
                Q = np.column_stack([Q, e / np.linalg.norm(e)])
        return Q, margin
    Qx, m1 = basis(P)
    Qy, m2 = basis(Y)
    if min(m1, m2) < 1e-3:
        return None
    G = Qx.T @ P.T @ P @ Qx
    s = np.linalg.svd(G, compute_uv=False)
    if s[-1] < 1e-5 * s[0]:
        return None
    Kt = Qx.T @ Qy @ Qy.T @ Y.T @ P @ Qx @ np.linalg.inv(G)
    return Qx, Kt


def run_streaming(ctx, kind, n, N, mask, rank):
    from datafold.dynfold.dmd import StreamingDMD
    from datafold.pcfold import InitialCondition

    data = stream(kind, n, N)
    cols = d11.cols_of(n)
    model = StreamingDMD(max_rank=rank)
    P, Y = [], []
    for c, (a, b) in enumerate(chunks(N, mask)):
        if c == 0 and b == 2:
            ctx.raises((ValueError, TSCException), lambda: StreamingDMD(max_rank=rank).partial_fit(tsc(data[:3], 0, cols)), "first series with three samples")
            return
        X = tsc(data[a: b + 1], a, cols)
        before = tm.observe(X)
        model.partial_fit(X)
        ctx.eq(tm.observe(X), before, "partial_fit modified the data")
        for k in range(a, b):
            if c == 0 and k == 1:
                continue  # see family "first": the second pair of the very first chunk is not processed (known finding)
            P.append(data[k])
            Y.append(data[k + 1])
        if c == 0 and b == 1:
            continue
        res = proj_oracle(np.array(P), np.array(Y), rank)
        if res is None:
            continue
        Qx, Kt = res
        ctx.eq(model._Qx.shape[1] if hasattr(model, "_Qx") else Qx.shape[1], Qx.shape[1], "rank of the basis")
        ev = np.linalg.eigvals(Kt)
        ctx.close(np.sort_complex(np.round(model.eigenvalues_, 6)), np.sort_complex(np.round(ev, 6)), f"StreamingDMD after chunk {c}: eigenvalues", rtol=1e-4, atol=1e-5)
        if d11.diagonalisable(Kt):
            x0 = data[0] * 0.5 + data[-1]
            got = model.predict(InitialCondition.from_array(x0[None, :], time_value=1, feature_names=pd.Index(cols)), time_values=np.array([1, 2, 4]))
            Pw = d11.powers(Kt, 3)
            ctx.close(got.to_numpy(), np.array([Qx @ Pw[k] @ Qx.T @ x0 for k in (0, 1, 3)]), f"StreamingDMD after chunk {c}: prediction", rtol=1e-5, atol=1e-5)
            got = model.predict(x0[None, :])
            ctx.close(got.to_numpy()[1], Qx @ Kt @ Qx.T @ x0, "StreamingDMD default prediction of an array", rtol=1e-5, atol=1e-5)
        ctx.state(np.round(Kt, 5), b)


def run_first(ctx, n):
    """one long first chunk must give the solution over all of its pairs"""
    from datafold.dynfold.dmd import StreamingDMD

    data = stream("nl", n, 7)
    model = StreamingDMD().partial_fit(tsc(data, 0, d11.cols_of(n)))
    Qx, Kt = proj_oracle(data[:-1], data[1:], None)
    ctx.close(np.sort_complex(np.round(model.eigenvalues_, 6)), np.sort_complex(np.round(np.linalg.eigvals(Kt), 6)), "StreamingDMD skips the second snapshot pair of the first chunk", rtol=1e-4, atol=1e-5)


def run_rank_energy(ctx, n, r, order):
    """the compression keeps the directions with the largest energy"""
    from datafold.dynfold.dmd import StreamingDMD

    cols = d11.cols_of(n)
    model = StreamingDMD(max_rank=r)
    scales = [10.0, 3.0, 1.0]
    E = np.eye(n)
    # every series is a pair e_j -> e_j (times scale); the first r directions carry the energy
    for c, j in enumerate(order):
        for rep in range(2):
            model.partial_fit(tm.build((cols, [(0, [(0, tuple(scales[j] * E[j])), (1, tuple(0.5 * scales[j] * E[j]))])])))
    keep = list(dict.fromkeys(order))[:r]
    Q = model._Qx
    ctx.close(Q @ Q.T, sum(np.outer(E[j], E[j]) for j in keep), f"StreamingDMD(max_rank={r}): retained subspace", rtol=1e-6, atol=1e-6)
    ctx.close(np.sort(np.abs(model.eigenvalues_)), np.full(len(keep), 0.5), "eigenvalues of the retained subspace", rtol=1e-6, atol=1e-6)
    ctx.state(keep, n)


def run_reject(ctx, what):
    from datafold.dynfold.dmd import OnlineDMD, StreamingDMD

    data = stream("nl", 2, 6)
    cols = d11.cols_of(2)
    X = tsc(data, 0, cols)
    mk = {"online": lambda: OnlineDMD(), "stream": lambda: StreamingDMD()}
    for name, f in mk.items():
        if what == "names":
            M = f().partial_fit(X)
            ctx.raises(ValueError, lambda: M.partial_fit(X.rename(columns={"b": "z"})), f"{name}: other features")
            ctx.raises(ValueError, lambda: M.partial_fit(X.loc[:, ["a", "b"]]), f"{name}: permuted features")
        elif what == "dt":
            M = f().partial_fit(X)
            X2 = tsc(data, 0, cols, axis="int3")
            ctx.raises(Exception, lambda: M.partial_fit(X2), f"{name}: other sampling rate")
        elif what == "degenerate":
            M = f().partial_fit(X)
            ctx.raises(Exception, lambda: M.partial_fit(X.iloc[:1]), f"{name}: a single sample")
            A = np.array(M.A)
            ctx.close(M.partial_fit(X.iloc[:2]).A.shape, np.array(A.shape), f"{name}: works after a rejected chunk")
        elif what == "array":
            ctx.raises(Exception, lambda: f().partial_fit(data), f"{name}: array")
            ctx.raises(Exception, lambda: f().partial_fit(pd.DataFrame(X)), f"{name}: frame")
        elif what == "unfitted":
            from sklearn.exceptions import NotFittedError

            ctx.raises(NotFittedError, lambda: f().predict(data[:1]), f"{name}: unfitted")
    if what == "param":
        for w in (0, -0.1, 1.1):
            ctx.raises(ValueError, lambda: OnlineDMD(weighting=w).partial_fit(X), f"weighting={w}")
        for r in (0, -1):
            ctx.raises(ValueError, lambda: StreamingDMD(max_rank=r).partial_fit(X), f"max_rank={r}")
        ctx.raises(TypeError, lambda: StreamingDMD(max_rank=1.5).partial_fit(X), "max_rank=1.5")
        ctx.raises(ValueError, lambda: StreamingDMD(ngram=0).partial_fit(X), "ngram=0")
        ctx.raises(ValueError, lambda: StreamingDMD(incr_basis_tol=-1.0).partial_fit(X), "incr_basis_tol=-1")
    if what == "warm":
        M = OnlineDMD().partial_fit(X.iloc[:3])
        ctx.true(not M.ready_, "not ready")
        ctx.raises(Exception, lambda: M.predict(data[:1], time_values=np.array([0, 1])), "predict during warm up")
        M2 = OnlineDMD(with_warm_up=False).partial_fit(X.iloc[:3], batch_fit=True)
        ctx.true(M2.ready_, "no warm up")
        M2.predict(data[:1], time_values=np.array([0, 1]))
    ctx.state(what)


RUN = {"online": run_online, "series": run_online_series, "stream": run_streaming, "first": run_first, "energy": run_rank_energy, "rej": run_reject}


def cases(tier):
    th = tier == "thorough"
    for w in ("names", "dt", "degenerate", "array", "unfitted", "param", "warm"):
        yield "rej", (w,)
    for n in (1, 2, 3):
        N = {1: 6, 2: 7, 3: 8}[n] + (2 if th else 0)
        for kind in ("nl", "nl2", "lin"):
            for mask in range(2 ** (N - 2)):
                for i, (rho, batch) in enumerate(itertools.product((1, 0.9, 0.5), (1, 0))):
                    if not th and n == 3 and (mask + i) % 3:
                        continue
                    if not batch and (rho == 0.5 or rho != 1 and kind == "lin"):
                        continue
                    yield "online", (kind, n, N, mask, rho, batch, (mask + i) % 2)
        for order in itertools.permutations(range(3)):
            for split in (0, 1, 2, 3):
                for rho in (1, 0.8):
                    yield "series", (n, list(order), split, rho)
        for kind in ("nl", "nl2", "lin", "rank1"):
            for mask in range(2 ** (N - 2)):
                for rank in (None, 1, 2, 3)[: n + 1]:
                    yield "stream", (kind, n, N, mask, rank)
    for n in (1, 2, 3):
        yield "first", (n,)
    for n in (2, 3):
        for r in range(1, n + 1):
            for order in itertools.permutations(range(n)):
                if all(a < b for a, b in zip(order, order[1:])) or th or True:
                    yield "energy", (n, r, list(order))
