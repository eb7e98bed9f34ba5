"""C06: every validation flag accepts a collection exactly if the stated predicate holds."""
import itertools
import numpy as np
import pandas as pd
import tscmodel as tm

PROPERTY = "C06"
BOUND = """
alphabet: all collections with 1-2 (thorough 3) series of length 1..3 (4), IDs consecutive/unsorted/holed, all time-axis
kinds regular/irregular (plus every word of time gaps over {1,2} up to length 4 and pairs of words of length 3), each with all-finite data or one nan/inf in any position class (first/last row); every single
ensure_* flag with every argument value in range and every pair of flags (quick: pairs on one-series collections and on two unsorted series of length <= 2; thorough: every triple); every ordered pair of
collections of the sub-catalogue for check_equal_delta_time; all permutations/subsets of IDs for
check_contain_required_ids. Oracle: predicates on the list of series; a collection failing one must be rejected with
TSCException, otherwise it is returned unchanged.
"""


def fnum(t):
    return float(t) if not isinstance(t, (np.datetime64, pd.Timestamp)) else float(pd.Timestamp(t).value)


def steps(rows):
    ts = [fnum(t) for t, _ in rows]
    return [b - a for a, b in zip(ts, ts[1:])]


def dt_of(rows):
    d = steps(rows)
    if not d or any(abs(x - d[0]) > 1e-9 * max(1, abs(d[0])) for x in d):
        return None
    return d[0]


def flags(model, kind, finite):
    """[(name, kwargs, holds)]"""
    cols, series = model
    isdate = "date" in kind
    n = [len(r) for _, r in series]
    dts = [dt_of(r) for _, r in series]
    const = dts[0] is not None and all(d is not None and abs(d - dts[0]) <= 1e-9 * max(1, abs(dts[0])) for d in dts)
    tl = [[tm.norm_t(t) for t, _ in r] for _, r in series]
    N = sum(n)
    alltimes = sorted({fnum(t) for _, r in series for t, _ in r})
    unit = 86400e9 if isdate else None
    out = [("finite", dict(ensure_all_finite=True), finite)]
    for k in (1, N, N + 1):
        out.append((f"min_samples{k}", dict(ensure_min_samples=k), N >= k))
    for k in (len(cols), len(cols) + 1):
        out.append((f"min_features{k}", dict(ensure_min_features=k), len(cols) >= k))
    out.append(("same_length", dict(ensure_same_length=True), len(set(n)) == 1))
    out.append(("const_delta", dict(ensure_const_delta_time=True), const))
    for d in (1, 2, 0.5, 1.5):
        if isdate:
            val = np.timedelta64(int(d * 24), "h")
            f = d * unit
        else:
            val, f = d, float(d)
        out.append((f"delta{d}", dict(ensure_delta_time=val), const and abs(dts[0] - f) < 1e-12))
    out.append(("same_times", dict(ensure_same_time_values=True), all(t == tl[0] for t in tl)))
    if isdate:
        norm = False
    else:
        norm = const and alltimes[0] == 0 and abs(dts[0] - 1) < 1e-12
    if norm is not None and not (all(x == 1 for x in n)):
        out.append(("normalized", dict(ensure_normalized_time=True), norm))
    for k in (1, 2, 3):
        out.append((f"n_timeseries{k}", dict(ensure_n_timeseries=k), len(series) == k))
        out.append((f"n_timesteps{k}", dict(ensure_n_timesteps=k), all(x == k for x in n)))
        out.append((f"min_timesteps{k}", dict(ensure_min_timesteps=k), all(x >= k for x in n)))
    out.append(("no_degenerate", dict(ensure_no_degenerate_ts=True), all(x > 1 for x in n)))
    out.append(("dtype_float", dict(ensure_dtype_time=np.dtype(float)), tm.family_of(kind) == "float"))
    out.append(("dtype_int", dict(ensure_dtype_time=np.dtype(int)), tm.family_of(kind) == "int"))
    return out


BASE_OFF = dict(ensure_all_finite=False, ensure_const_delta_time=False, ensure_no_degenerate_ts=False)


def run_flags(ctx, ids, lens, kinds, offs, bad, depth):
    from datafold.pcfold.timeseries.collection import TSCException

    model = tm.make(ids, lens, kinds, offs, "s2")
    X = tm.build(model)
    if bad is not None:
        what, pos = bad
        arr = X.to_numpy().copy()
        arr[pos, 0 if pos == 0 else 1] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[what]
        X.iloc[:, :] = arr
    fl = flags(model, kinds[0], bad is None)
    before = tm.observe(X)
    acc = []
    for r in range(1, depth + 1):
        for combo in itertools.combinations(fl, r):
            kw = dict(BASE_OFF)
            dup = False
            for _, k, _ in combo:
                for a in k:
                    dup |= a in kw and a not in BASE_OFF
                kw.update(k)
            if dup:
                continue
            want = all(h for _, _, h in combo)
            name = "+".join(c[0] for c in combo)
            if want:
                Y = X.tsc.check_tsc(**kw)
                ctx.true(Y is X or tm.observe(Y) == before, f"check_tsc({name}) returned something else")
                ctx.step()
            else:
                ctx.raises(TSCException, lambda: X.tsc.check_tsc(**kw), f"check_tsc({name})")
            acc.append(want)
    # defaults: finite, constantly sampled and no degenerate series
    if bad is None and all(n > 1 for n in lens) and {n: h for n, _, h in fl}["const_delta"]:
        X.tsc.check_tsc()
        ctx.step()
    else:
        ctx.raises(TSCException, lambda: X.tsc.check_tsc(), "check_tsc() defaults")
    # single-purpose checks outside check_tsc
    if len(set(lens)) == 1:
        ctx.eq(X.tsc.check_const_timesteps(), lens[0], "check_const_timesteps")
    else:
        ctx.raises(TSCException, lambda: X.tsc.check_const_timesteps(), "check_const_timesteps")
    tv = [tm.norm_t(t) for _, r in model[1] for t, _ in r]
    if len(set(tv)) == len(tv):
        X.tsc.check_non_overlapping_timeseries()
        ctx.step()
    else:
        ctx.raises(TSCException, lambda: X.tsc.check_non_overlapping_timeseries(), "check_non_overlapping_timeseries")
    ctx.eq(str(tm.observe(X)), str(before), "collection modified")
    ctx.state(ids, lens, kinds, offs, bad, acc)


def run_ids(ctx, ids, lens):
    from datafold.pcfold.timeseries.collection import TSCException

    X = tm.build(tm.make(ids, lens, ("int",) * len(ids), (0,) * len(ids), "s2"))
    pool = sorted(set(ids) | {2, 11})
    for r in range(0, len(pool) + 1):
        for req in itertools.permutations(pool, r):
            ok_set = sorted(req) == sorted(ids)
            ok_order = tuple(req) == tuple(ids)
            for typ in (list, np.array, pd.Index):
                arg = typ(req) if len(req) else np.array([], dtype=int)
                for order, ok in ((False, ok_set), (True, ok_order)):
                    if ok:
                        X.tsc.check_contain_required_ids(arg, check_order=order)
                        ctx.step()
                    else:
                        ctx.raises(TSCException, lambda: X.tsc.check_contain_required_ids(arg, check_order=order), f"IDs {ids} required {req} order={order}")
    ctx.state(ids, lens)


def run_eqdt(ctx, s1, s2):
    from datafold.pcfold.timeseries.accessor import TSCAccessor
    from datafold.pcfold.timeseries.collection import TSCException

    m1, m2 = tm.make(*s1, "s2"), tm.make(*s2, "s2")
    X, Y = tm.build(m1), tm.build(m2)

    def dts(m):
        return {i: dt_of(r) for i, r in m[1]}

    d1, d2 = dts(m1), dts(m2)

    def const(d):
        v = list(d.values())
        return v[0] if v[0] is not None and all(x is not None and abs(x - v[0]) < 1e-9 * max(abs(v[0]), 1) for x in v) else None

    c1, c2 = const(d1), const(d2)
    if c1 is not None and c2 is not None and abs(c1 - c2) <= 1e-15 * max(1, abs(c1)):
        a, b = TSCAccessor.check_equal_delta_time(X, Y, require_const=True)
        ctx.eq((tm.norm_t(a), tm.norm_t(b)), (tm.norm_t(X.delta_time), tm.norm_t(Y.delta_time)), "returned deltas")
        TSCAccessor.check_equal_delta_time(X, Y, require_const=False)
    elif c1 is None or c2 is None or abs(c1 - c2) > 1e-9:
        ctx.raises(TSCException, lambda: TSCAccessor.check_equal_delta_time(X, Y, require_const=True), f"{d1} vs {d2} require_const")
        allirr = all(v is None for v in list(d1.values()) + list(d2.values()))
        if not allirr:
            if d1 == d2:
                TSCAccessor.check_equal_delta_time(X, Y)
                ctx.step()
            else:
                ctx.raises(TSCException, lambda: TSCAccessor.check_equal_delta_time(X, Y), f"{d1} vs {d2}")
    ctx.state(s1, s2)


RUN = {"flags": run_flags, "ids": run_ids, "eqdt": run_eqdt}


def cases(tier):
    th = tier == "thorough"
    kinds = ("int", "float", "date")
    for k, s in enumerate(tm.shapes(3 if th else 2, 3 if th else 3, kinds=kinds, offs=(0, 1))):
        N = sum(s[1])
        for bad in [None, ("nan", 0), ("inf", N - 1), ("-inf", N - 1)]:
            if bad is not None and not (s[2] == (s[2][0],) * len(s[2]) and s[3][-1] == 0):
                continue
            yield "flags", s + (bad, (3 if len(s[0]) < 3 else 2) if th else (2 if len(s[0]) == 1 or (bad is None and max(s[1]) <= 2 and s[0] == (1, 0)) else 1))
    for s in tm.gap_shapes(one=5 if th else 4, two=3, fams=("i", "f", "date") if th else ("i", "date"), idsets=((0, 1), (4, 2)) if th else ((4, 2),)):
        yield "flags", s + (None, 1)
    for ids in [(0,), (5,), (0, 1), (1, 0), (3, 9), (0, 1, 2), (2, 0, 1), (5, 1, 9)]:
        for lens in itertools.product((1, 2), repeat=len(ids)):
            yield "ids", (ids, lens)
    for kind in kinds:
        cat = [s for s in tm.shapes(2, 3, kinds=(kind,), offs=(0,), idsets={1: [(0,)], 2: [(0, 1), (1, 0)]}) if th or max(s[1]) == 3 or len(s[0]) == 1]
        for a, b in itertools.product(cat, cat):
            if (th and sum(a[1]) + sum(b[1]) <= 9) or sum(a[1]) + sum(b[1]) <= 6:
                yield "eqdt", (a, b)
