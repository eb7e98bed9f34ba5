"""Bounded exhaustive exploration of the real datafold code against reference models.

A check module in /verif/checks defines

  PROPERTY      id in properties.jsonl
  BOUND         text: alphabet, bound and oracle
  cases(tier)   generator of (family, params): *every* member of a finite, stated space
                (params is a tuple of plain JSON values)
  RUN           {family: function(ctx, *params)}: builds the real objects, performs the real calls and
                compares each step with a reference model (ctx.fail / ctx.eq / ctx.close / ctx.raises)

Each case is one trace executed on the implementation.  ctx.step() counts a transition (one call into
the implementation whose result was compared); ctx.state() records a canonical observed state (hashed,
deduplicated over the whole run).

Nothing is sampled: the cases are a finite product space, partitioned over worker processes by index.
"""

import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import contextlib
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Fail(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def canon(obj):
    """A canonical, hashable text form of an observation (floats rounded to 9 significant digits)."""
    import numpy as np
    import pandas as pd

    if obj is None or isinstance(obj, (str, bool, int)):
        return repr(obj)
    if isinstance(obj, (float, np.floating)):
        f = float(obj)
        if f != f:
            return "nan"
        return f"{f:.9g}" if f != 0 else "0"
    if isinstance(obj, (np.integer, np.bool_)):
        return repr(obj.item())
    if isinstance(obj, (complex, np.complexfloating)):
        return f"({canon(obj.real)},{canon(obj.imag)})"
    if isinstance(obj, np.ndarray):
        return f"A{obj.shape}[" + ",".join(canon(x) for x in obj.ravel().tolist()) + "]"
    if isinstance(obj, pd.DataFrame):
        return "F" + canon([list(obj.columns), list(obj.index), obj.to_numpy()])
    if isinstance(obj, pd.Series):
        return "S" + canon([list(obj.index), obj.to_numpy()])
    if isinstance(obj, pd.Index):
        return "I" + canon(list(obj))
    if isinstance(obj, dict):
        return "{" + ",".join(f"{canon(k)}:{canon(v)}" for k, v in obj.items()) + "}"
    if isinstance(obj, (list, tuple)):
        return "[" + ",".join(canon(x) for x in obj) + "]"
    if isinstance(obj, type):
        return obj.__name__
    return str(obj)


class Ctx:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.last_obs = None

    def step(self, n=1):
        self.transitions += n

    def state(self, *obj):
        c = canon(obj)
        self.last_obs = c
        self.states.add(hashlib.blake2b(c.encode(), digest_size=8).digest())

    # -- comparisons -----------------------------------------------------------------
    def fail(self, msg):
        raise Fail(msg)

    def true(self, cond, msg):
        self.transitions += 1
        if not cond:
            raise Fail(msg() if callable(msg) else msg)

    def eq(self, got, want, msg=""):
        self.transitions += 1
        if canon(got) != canon(want):
            raise Fail(f"{msg}\n   got: {canon(got)[:1500]}\n  want: {canon(want)[:1500]}")

    def close(self, got, want, msg="", rtol=1e-8, atol=1e-9):
        import numpy as np

        self.transitions += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Fail(f"{msg}: shape {got.shape} != {want.shape}")
        if got.size and not np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True):
            with np.errstate(all="ignore"):
                err = np.nanmax(np.abs(got - want))
            raise Fail(
                f"{msg}: max abs difference {err:.3g}\n   got: {canon(got)[:1200]}\n  want: {canon(want)[:1200]}"
            )

    def raises(self, exc, fn, msg=""):
        """fn must be rejected with one of exc"""
        self.transitions += 1
        try:
            res = fn()
        except exc:
            return
        raise Fail(f"{msg}: was accepted, must be rejected; result {canon(res)[:500]}")


def _quiet():
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, ctx, family, params, limit):
    """Run one trace.  Returns None or a violation text."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod.RUN[family](ctx, *params)
        return None
    except Fail as e:
        return str(e)
    except CaseTimeout:
        return f"no result after {limit} s"
    except Exception as e:  # an unexpected exception of the implementation is a violation
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-1:-5:-1])
        return f"unexpected {type(e).__name__}: {e} [{where}]"
    finally:
        signal.alarm(0)


def _jsonable(x):
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    return x


def _worker(modname, tier, rank, n, deadline, conn):
    try:
        _quiet()
        mod = load(modname)
        _quiet()
        ctx = Ctx()
        viol, ncase, samples, capped, fams = [], 0, [], False, {}
        limit = getattr(mod, "CASE_LIMIT", 120)
        order, nquick = ordered_cases(mod, tier)
        for i, (family, params) in enumerate(order):
            if i % n != rank:
                continue
            if time.time() > deadline:
                capped = i < nquick and 2 or capped or 1
                break
            conn.send(("at", family, _jsonable(params)))
            ctx.last_obs = None
            msg = run_case(mod, ctx, family, params, limit)
            ncase += 1
            fams[family] = fams.get(family, 0) + 1
            if msg is not None:
                viol.append((family, _jsonable(params), msg))
                if len(viol) > 400:
                    break
            elif fams[family] <= 1 and len(samples) < 6:
                samples.append({"family": family, "params": _jsonable(params), "observed": (ctx.last_obs or "")[:300]})
        conn.send(("done", viol, ncase, samples, capped, fams, ctx.states, ctx.transitions))
    except BaseException:
        conn.send(("crash", traceback.format_exc()))
    finally:
        conn.close()


def load(modname):
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    import importlib

    return importlib.import_module(modname)


def known_findings(prop):
    """[(family, params-prefix-or-None, text)] of findings (not 'fixed:' entries)."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            head, _, text = line[len("finding:"):].partition("#")
            f = json.loads(head)
            if f["property"] == prop:
                out.append((f["family"], f["params"], f.get("contains", ""), text.strip()))
    return out


def ordered_cases(mod, tier):
    """quick: the order of the generator; thorough: every member of the quick space first, then the others spread over the families, so
    that a run that ends with its time budget has covered the quick bounds completely and a part of every family beyond them"""
    quick = list(mod.cases("quick"))
    if tier == "quick":
        return quick, len(quick)
    import random

    seen, by = {repr(c) for c in quick}, {}
    for c in mod.cases(tier):
        if repr(c) not in seen:
            by.setdefault(c[0], []).append(c)
    keyed = []
    for fam in by:
        random.Random(1).shuffle(by[fam])
        keyed += [((k + 0.5) / len(by[fam]), fam, k, c) for k, c in enumerate(by[fam])]
    keyed.sort(key=lambda e: e[:3])
    return quick + [e[3] for e in keyed], len(quick)


def _explore(prop, modname, tier, t0, budget, nworkers):
    procs = []
    for r in range(nworkers):
        a, b = mp.Pipe(duplex=False)
        p = mp.Process(target=_worker, args=(modname, tier, r, nworkers, t0 + budget, b), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
    import multiprocessing.connection as mpc

    res, viols = [], []
    at = {}
    open_conns = {a: i for i, (p, a) in enumerate(procs)}
    while open_conns:
        for c in mpc.wait(list(open_conns)):
            i = open_conns[c]
            try:
                m = c.recv()
            except EOFError:
                if i not in [x[0] for x in res]:
                    fam, par = at.get(i, ("startup", []))
                    viols.append((fam, par, "the process executing this trace died (crash or out of memory)"))
                del open_conns[c]
                continue
            if m[0] == "at":
                at[i] = (m[1], m[2])
            elif m[0] == "done":
                res.append((i, m))
            elif m[0] == "crash":
                fam, par = at.get(i, ("startup", []))
                viols.append((fam, par, "the exploration could not proceed:\n" + m[1]))
                res.append((i, None))
    for p, _ in procs:
        p.join(5)
        if p.is_alive():
            p.terminate()
    return res, viols


def main(prop, modname, argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    os.environ.setdefault("MPLBACKEND", "Agg")
    _quiet()

    if a.replay:
        mod = load(modname)
        rep = json.load(open(a.replay))
        msg = run_case(mod, Ctx(), rep["family"], _tuple(rep["params"]), 600)
        print("no violation" if msg is None else f"VIOLATION property={prop} replay={a.replay}\n{msg}")
        return 0 if msg is None else 1
    if a.list:
        from collections import Counter

        print(Counter(f for f, _ in load(modname).cases(a.tier)))
        return 0

    t0 = time.time()
    budget = a.budget or 780
    try:
        load(modname)  # import once before forking; an import failure is reported by the workers
    except Exception:
        pass
    res, viols = _explore(prop, modname, a.tier, t0, budget, a.workers)
    states, transitions, ncase, samples, capped, fams = set(), 0, 0, [], False, {}
    for i, m in res:
        if m is None:
            continue
        _, v, nc, sm, cp, fm, st, tr = m
        viols += v
        ncase += nc
        samples += sm
        capped = max(capped, cp)
        states |= st
        transitions += tr
        for k, x in fm.items():
            fams[k] = fams.get(k, 0) + x
    seenf, uniq = set(), []
    for s in samples:
        if s["family"] not in seenf:
            seenf.add(s["family"])
            uniq.append(s)

    known = known_findings(prop)
    new, hit = [], {}
    for fam, par, msg in viols:
        for j, (kf, kp, kc, text) in enumerate(known):
            if kf == fam and kp == par and kc in msg:
                hit[j] = text
                break
        else:
            new.append((fam, par, msg))
    for j in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {hit[j]}")

    mod = load(modname) if not any(f == "startup" for f, _, _ in new) else None
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": ncase,
            "exhaustive": not capped,
            "quick_space_exhausted": capped < 2,
            "bound": getattr(mod, "BOUND", "").strip() if mod else "",
            "traces_per_family": fams,
            "samples": uniq[:8] or [{"family": "none"}],
            "known_findings_seen": [hit[j] for j in sorted(hit)],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    if new:
        new.sort(key=lambda v: (len(json.dumps(v[1])), json.dumps(v[1])))  # smallest first
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for fam, par, msg in new:
            if fam in shown and not a.verbose:
                continue
            shown.add(fam)
            path = os.path.join(rdir, f"{prop}_{fam}_{len(shown)}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop, "family": fam, "params": par, "message": msg,
                        "replay_cmd": f"cd {VERIF} && bash run.sh {prop} --replay {path}",
                    }, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  family={fam} params={json.dumps(par)[:600]}\n  {msg[:1500]}")
        print(f"{len(new)} violating traces of {ncase}; families {sorted(shown)}")
        return 1
    print(
        f"OK property={prop} tier={a.tier} traces={ncase} states={len(states)} transitions={transitions} "
        f"exhaustive={not capped} wall={ev['wall_s']}s families={fams}"
    )
    return 0


def _tuple(x):
    return tuple(_tuple(v) for v in x) if isinstance(x, list) else x
