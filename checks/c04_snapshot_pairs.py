"""C04: shift matrices pair exactly the consecutive samples of each series, in row order."""
import itertools
import numpy as np
import tscmodel as tm

PROPERTY = "C04"
BOUND = """
alphabet: all collections with 1-4 series, all length vectors in 1..4 (<=3 series) / 1..3 (4 series; thorough:
1..5), ID sets {consecutive, unsorted, with holes}, integer/float/datetime axes, regular or one irregular / one
differently sampled series, 1-2 features, both orientations, validation on/off; plus every history
collection -> pairs -> collection -> pairs. Oracle: plain double loop over series and rows.
"""


def pairs(model):
    left, right = [], []
    for _, rows in model[1]:
        for (t0, a), (t1, b) in zip(rows, rows[1:]):
            left.append(list(a))
            right.append(list(b))
    return left, right


def run_pairs(ctx, ids, lens, kinds, offs, cols):
    from datafold.pcfold import TSCDataFrame
    from datafold.pcfold.timeseries.collection import TSCException

    model = tm.make(ids, lens, kinds, offs, cols)
    X = tm.build(model)
    before = tm.observe(X)
    left, right = pairs(model)
    nf = len(model[0])
    wl, wr = np.array(left).reshape(-1, nf), np.array(right).reshape(-1, nf)

    def steps(rows):
        ts = [tm.norm_t(t) if not isinstance(tm.norm_t(t), str) else float(tm.norm_t(t)[1:]) for t, _ in rows]
        return {round(b - a, 9) for a, b in zip(ts, ts[1:])}

    st = [steps(r) for _, r in model[1]]
    legal = all(n >= 2 for n in lens) and len(set().union(*st)) == 1
    for orient in ("row", "col"):
        if legal:
            l, r = X.tsc.shift_matrices(snapshot_orientation=orient)
            if orient == "col":
                l, r = l.T, r.T
            ctx.eq(l, wl, f"left matrix ({orient})")
            ctx.eq(r, wr, f"right matrix ({orient})")
        else:
            ctx.raises(TSCException, lambda: X.tsc.shift_matrices(snapshot_orientation=orient),
                       f"series shorter than two samples or without a common step: {lens} {kinds}")
            if len(left) and all(n >= 2 for n in lens):
                l, r = X.tsc.shift_matrices(snapshot_orientation=orient, validate=False)
                if orient == "col":
                    l, r = l.T, r.T
                ctx.eq(l, wl, f"left matrix ({orient}, validate=False)")
                ctx.eq(r, wr, f"right matrix ({orient}, validate=False)")
    ctx.raises(ValueError, lambda: X.tsc.shift_matrices("diagonal", validate=False), "unknown orientation") if legal else None
    # the returned matrices own their memory
    if legal:
        l, r = X.tsc.shift_matrices("row")
        l[...] = -1.0
        ctx.eq(r, wr, "right matrix changed when the left one is overwritten")
        r[...] = -2.0
        ctx.eq(tm.observe(X), before, "collection changed when the shift matrices are overwritten")
        # back to a collection of pairs
        for orient in ("row", "col"):
            l, r = X.tsc.shift_matrices(orient)
            Y = TSCDataFrame.from_shift_matrices(l, r, snapshot_orientation=orient, columns=X.columns, time_values=(2, 5))
            want = (model[0], [(k, [(2, tuple(a)), (5, tuple(b))]) for k, (a, b) in enumerate(zip(left, right))])
            ctx.eq(tm.observe(Y), tm.observe_model(want), "from_shift_matrices")
            l2, r2 = Y.tsc.shift_matrices(orient)
            ctx.eq((l2, r2), (l, r), "pairs of the rebuilt collection")
    ctx.eq(tm.observe(X), before, "collection changed by shift_matrices")
    ctx.state(before, legal)


def run_badpairs(ctx, sl, sr):
    from datafold.pcfold import TSCDataFrame

    a, b = np.arange(float(sl[0] * sl[1])).reshape(sl), np.arange(float(sr[0] * sr[1])).reshape(sr)
    if sl == sr:
        for orient in ("row", "col"):
            A, B = (a, b) if orient == "row" else (a.T, b.T)
            Y = TSCDataFrame.from_shift_matrices(A, B + 100, snapshot_orientation=orient)
            n, f = a.shape
            ctx.eq(Y.to_numpy(), np.array([[(a[i], b[i] + 100)[k] for k in (0, 1)] for i in range(n)]).reshape(2 * n, f), "values")
            ctx.eq([tuple(int(v) for v in t) for t in Y.index], [(i, k) for i in range(n) for k in (0, 1)], "index")
    else:
        for orient in ("row", "col"):
            ctx.raises(ValueError, lambda: TSCDataFrame.from_shift_matrices(a, b, snapshot_orientation=orient), f"{sl} {sr}")
    ctx.state(sl, sr)


RUN = {"pairs": run_pairs, "matrices": run_badpairs}


def cases(tier):
    th = tier == "thorough"
    for cols in ("s2", ["a"]) if th else ("s2",):
        for s in tm.shapes(3, 4 if th else 3, kinds=("int", "float", "date", "int3", "float01") if th else ("int", "float", "date")):
            yield "pairs", s + (cols,)
        for s in tm.shapes(3, 5 if th else 4, kinds=("int",), mixed=False, min_len=2):
            yield "pairs", s + (cols,)
        for s in tm.shapes(4, 4 if th else 3, kinds=("int",), mixed=th, min_len=1):
            if len(s[0]) == 4:
                yield "pairs", s + (cols,)
    yield "pairs", ((4,), (3,), ("int",), (0,), ["a"])
    yield "pairs", ((4, 1), (3, 2), ("int",) * 2, (0, 1), ["a"])
    for sl in itertools.product((1, 2, 3), (1, 2)):
        for sr in itertools.product((1, 2, 3), (1, 2)):
            yield "matrices", (sl, sr)
