"""Deductive layer driver: generate and discharge the obligations of a property from the current source, replay what fails."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FRAME = "the inputs are not modified"
FRAME_PROP = "C17"  # its obligations: the frame condition of every contract
QUICK_LIMIT, THOROUGH_LIMIT = 60, 300  # seconds per contract
QUICK_SAMPLES, THOROUGH_SAMPLES = 6, 60

TRUSTED = [
    "the engine (vlib/sym): AST interpreter of Python, sum normaliser, models of the numpy/scipy functions it reaches, z3",
    "floating point is treated as exact real arithmetic (np.allclose as equality); integers as unbounded",
    "numpy.linalg.inv/pinv return the two-sided inverse of an invertible matrix; scipy.linalg.expm is the matrix exponential",
]


def load(prop=None):
    """the contracts; with prop, only the files that mention it"""
    d = os.path.join(HERE, "contracts")
    errors = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_") and (prop in (None, FRAME_PROP) or prop in open(os.path.join(d, f)).read()):
            try:
                importlib.import_module("contracts." + f[:-3])
            except Exception as e:  # a renamed function: the contracts of this file cannot be stated any more
                errors.append(f"{f}: {type(e).__name__}: {e}")
    from .sym.contract import CONTRACTS

    return CONTRACTS, errors


def seed_of(seed, name, k):
    return int.from_bytes(hashlib.sha256(f"{seed}/{name}/{k}".encode()).digest()[:6], "big")


def replay_limit(t0, lim):
    return time.time() - t0 < lim


def work(args):
    name, tier, seed, hard, prop = args
    from .sym import contract as K

    con = next(c for c in K.CONTRACTS if c.name == name)
    lim = min(QUICK_LIMIT if tier == "quick" else THOROUGH_LIMIT, max(5.0, hard - time.time()))
    out = dict(name=name, props=con.props, bounded=con.bounded, assumes=con.assumes)
    t0 = time.time()
    try:
        r = K.run_symbolic(con, time.time() + lim)
        out.update(obl=r.obl, paths=r.paths, aborted=r.aborted, functions=r.functions, stats=r.stats, time=round(r.time, 2), model=r.model)
    except BaseException as e:  # noqa
        out.update(obl={"all": dict(status="undecided", paths=0, detail=f"engine: {type(e).__name__}: {e}")}, paths=0, aborted=[f"engine: {type(e).__name__}: {e}"], functions={}, stats={}, time=0.0, model=None)
    if prop == FRAME_PROP:
        out["obl"] = {FRAME: out["obl"].get(FRAME) or dict(status="undecided", paths=0, detail="; ".join(out["aborted"])[:300])}
        out["model"] = None
    refuted = [n for n, o in out["obl"].items() if o["status"] == "refuted"]
    # the same contract evaluated on the real code: the verifier's counterexample first, then samples
    n = con.samples if tier == "quick" else max(THOROUGH_SAMPLES, con.samples)
    tries = []
    if out.get("model"):
        tries += [(out["model"], k) for k in range(4)]
    tries += [(None, k) for k in range(n * (5 if refuted else 1))]
    if (refuted or out["aborted"]) and not con.bounded:
        tries += [({"__larger__": 12}, k) for k in range(4 * n)]  # some of the sizes larger
    checked, fail, evaluated_model = 0, None, False
    t1 = time.time()
    budget = (40 if refuted else 12) if tier == "quick" else 200
    for m, k in tries:
        if time.time() - t1 > budget or time.time() > hard:
            break
        try:
            fail, c = K.run_concrete(con, seed_of(seed, name, k), m, timeout=10)
        except BaseException as e:  # noqa
            out.setdefault("concrete_errors", []).append(f"{type(e).__name__}: {e}")
            continue
        if prop == FRAME_PROP:
            c = min(c, 1)
            if fail:
                fail["failures"] = [f for f in fail["failures"] if f[0] == FRAME]
                fail = fail if fail["failures"] else None
        checked += c
        if m is not None and c:
            evaluated_model = True
        if fail:
            break
    out.update(concrete_checked=checked, fail=fail, evaluated_model=evaluated_model, wall=round(time.time() - t0, 2))
    return out


def run(prop, tier, seed, deadline=None):
    cons, errors = load(prop)
    mine = [c for c in cons if (prop in c.props or prop == FRAME_PROP) and (tier == "thorough" or c.cost == "quick")]
    deadline = deadline or time.time() + 400
    mine.sort(key=lambda c: -getattr(c, "weight", 1))
    results = []
    jobs = min(8, os.cpu_count() or 1)
    if mine:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(min(jobs, len(mine)), maxtasksperchild=1)
        try:
            it = pool.imap_unordered(work, [(c.name, tier, seed, deadline, prop) for c in mine], chunksize=1)
            for _ in mine:
                try:
                    results.append(it.next(timeout=max(1.0, deadline + 30 - time.time())))
                except mp.TimeoutError:
                    break
        finally:
            pool.terminate()
    done = {r["name"] for r in results}
    for c in mine:
        if c.name not in done:
            results.append(dict(name=c.name, props=c.props, bounded=c.bounded, assumes=c.assumes, obl={"all": dict(status="undecided", paths=0, detail="time limit")}, paths=0, aborted=["time limit"], functions={}, stats={}, time=0.0, model=None, concrete_checked=0, fail=None, evaluated_model=False))
    results.sort(key=lambda r: r["name"])

    violations, undecided, per = [], [], {}
    total = dis = 0
    funcs = {}
    q = t = unk = 0.0
    assumes = list(TRUSTED)
    for r in results:
        st = {}
        refuted = [n for n, o in r["obl"].items() if o["status"] == "refuted"]
        for n, o in r["obl"].items():
            total += 1
            s = o["status"]
            dis += s == "proved"
            st[s] = st.get(s, 0) + 1
            if s != "proved":
                undecided.append(f"{r['name']}: {n}: {s}: {o['detail'][:300]}")
        for a in r["assumes"]:
            if a not in assumes:
                assumes.append(a)
        for f, k in r["functions"].items():
            funcs[f] = funcs.get(f, 0) + k
        q += r["stats"].get("queries", 0)
        t += r["stats"].get("time", 0)
        unk += r["stats"].get("unknown", 0)
        per[r["name"]] = dict(obligations=len(r["obl"]), **st, paths=r["paths"], seconds=r["time"], bounded=r["bounded"], aborted=r["aborted"], concrete_postconditions=r["concrete_checked"])
        if r["fail"]:
            f = r["fail"]
            names = ", ".join(n for n, _ in f["failures"][:3])
            violations.append(
                dict(
                    name=f"obligation {r['name']}: {names}",
                    message=f"{f['failures'][0][1]}; failing input {json.dumps(f['inputs'], default=str)[:400]}; refuted obligations: {refuted[:4]}",
                    confirmed=True,
                    obligations={n: r["obl"][n] for n in refuted},
                    replay_case=dict(contract=r["name"], seed=f["seed"], model=f["model"]),
                )
            )
        elif refuted and r["concrete_checked"] == 0:
            violations.append(
                dict(
                    name=f"obligation {r['name']}: {', '.join(refuted[:4])}",
                    message=r["obl"][refuted[0]]["detail"][:600],
                    confirmed=False,
                    obligations={n: r["obl"][n] for n in refuted},
                    verifier_output=[r["obl"][n]["detail"] for n in refuted],
                    model=r["model"],
                )
            )
    cov = dict(
        obligations=total,
        discharged=dis,
        undecided=undecided[:60],
        contracts=per,
        functions_under_contract={k: v for k, v in sorted(funcs.items())},
        back_ends=dict(normaliser_and_z3=dict(solver_queries=int(q), solver_seconds=round(t, 2), unknown=int(unk))),
        concrete_postconditions_of_contracts=sum(r["concrete_checked"] for r in results),
        checker_errors=errors[:10],
    )
    return dict(violations=violations, obligations=total, coverage=cov, assumptions=assumes)


def replay(prop, case):
    cons, _ = load(prop)
    from .sym import contract as K

    con = next(c for c in cons if c.name == case["contract"])
    fail, n = K.run_concrete(con, case["seed"], case.get("model"), timeout=120)
    if fail and prop == FRAME_PROP:
        fail["failures"] = [f for f in fail["failures"] if f[0] == FRAME]
    if fail and fail["failures"]:
        return False, json.dumps(fail, default=str, indent=1)
    return True, f"{n} postconditions hold"
