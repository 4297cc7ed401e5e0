#!/opt/venv/bin/python
"""run.py <property> [--replay FILE]   decide one property on the current tree of /repo.

Two layers:
  1. deductive: the contracts of /verif/contracts/<property>*.py are turned into obligations from the
     source text of /repo (vlib/sym), discharged by the engine's normaliser, z3, cvc5 or sympy;
  2. bounded: the same contracts evaluated by CPython on concrete inputs (vlib/harness, bounded/), which
     replays counterexamples and stands in for what layer 1 does not reach.
Exit 0: nothing violated.  Exit 1: VIOLATION line.  Other: the check itself failed.
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vlib  # noqa: E402,F401  (thread limits before numpy)

REPO = os.environ.get("LIE_NN_REPO", "/repo")
sys.path.insert(0, REPO)


def known_findings(prop):
    known = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            if line.startswith(f"known: property={prop} "):
                rest = line.split(" ", 2)[2]
                js, _, what = rest.partition(" :: ")
                known.append((json.loads(js[len("case=") :]), what.strip()))
    return known


def evidence_dir():
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    return d


def replay(prop, path):
    from vlib import harness

    d = json.load(open(path))
    if d["kind"] == "bounded":
        harness.load_groups()
        c = d["case"]
        r = harness.run_case((prop, c["name"], c["params"], c["seed"]))
        print(json.dumps(r, default=str, indent=1))
        return 1 if r["status"] == "violation" else 0
    print(json.dumps(d, indent=1)[:20000])
    if d["kind"] == "obligation" and d.get("replay_case"):
        from vlib import deduct

        ok, msg = deduct.replay(prop, d["replay_case"])
        print(msg)
        return 0 if ok else 1
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--no-bounded", action="store_true")
    ap.add_argument("--no-deductive", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    if a.replay:
        sys.exit(replay(prop, a.replay))
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = 780 if tier == "quick" else 7200
    ev = evidence_dir()
    for f in os.listdir(ev):
        if f.startswith(f"replay-{prop}-"):
            os.remove(os.path.join(ev, f))

    import lie_nn

    src = os.path.realpath(os.path.dirname(lie_nn.__file__))
    assert src == os.path.realpath(os.path.join(REPO, "lie_nn")), f"lie_nn imported from {src}"

    violations = []  # (replay file, suffix, text)
    ded = None
    if not a.no_deductive:
        from vlib import deduct

        ded = deduct.run(prop, tier, seed, deadline=t0 + budget * 0.6)
        for k, v in enumerate(ded["violations"]):
            path = os.path.join(ev, f"replay-{prop}-obligation-{k}.json")
            with open(path, "w") as f:
                json.dump(dict(kind="obligation", property=prop, **v), f, indent=1, default=str)
            violations.append((path, "" if v.get("confirmed") else " no-failing-input-found", v["name"] + ": " + v["message"]))

    from vlib import harness

    results = [] if a.no_bounded else harness.run_bounded(prop, tier, seed, deadline=t0 + budget)
    known = known_findings(prop)
    errors = [r for r in results if r["status"] == "error"]
    nv = 0
    for r in results:
        if r["status"] != "violation":
            continue
        case = dict(name=r["name"], params=r["params"], seed=r["seed"])
        hit = [w for k, w in known if k["name"] == r["name"] and k["params"] == r["params"]]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[0]}")
            continue
        if nv < 10:
            path = os.path.join(ev, f"replay-{prop}-bounded-{nv}.json")
            with open(path, "w") as f:
                json.dump(dict(kind="bounded", property=prop, case=case, message=r["msg"]), f, indent=1, default=str)
            violations.append((path, "", f"{r['name']} {json.dumps(r['params'], default=str)[:200]}: {r['msg'][:400]}"))
        nv += 1

    ok = [r for r in results if r["status"] == "ok" and r["checks"] > 0]
    distinct = {json.dumps([r["name"], r["params"], r["seed"]], sort_keys=True, default=str) for r in ok}
    cov = dict(
        evaluations=sum(r["checks"] for r in results),
        distinct_nontrivial=len(distinct),
        rule="BOUNDED part: a case is a contract group with concrete parameters and a seed; it is non-trivial if it "
        "evaluated at least one postcondition on results of the real code; evaluations counts single postconditions",
        samples=[dict(group=r["name"], params=r["params"], seed=r["seed"], checks=r["checks"], status=r["status"]) for r in results[:: max(1, len(results) // 5)]][:6],
        bounded_groups={n: dict(cases=sum(r["name"] == n for r in results), checks=sum(r["checks"] for r in results if r["name"] == n)) for n in sorted({r["name"] for r in results})},
        bounded_skipped=[f"{r['name']}: {r['msg']}" for r in results if r["status"] == "skip"][:20],
        bounded_errors=[f"{r['name']}: {r['msg']}" for r in errors][:20],
    )
    from tools.levels import LEVELS

    level = LEVELS.get(prop, "exploration")
    assumptions = []
    if ded and ded["obligations"]:
        cov.update(ded["coverage"])
        cov["checker_cmd"] = f"VERIF_TIER={tier} ./run.py {prop} --no-bounded"
        cov["trusted_base"] = ded["assumptions"]
        assumptions = ded["assumptions"]
    cov["explanation"] = (
        "obligations/discharged count the deductive part only; the bounded part is reported separately "
        "(evaluations, bounded_groups) and never counted as proved"
    )
    out = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(ev, f"{prop}.json"), "w") as f:
        json.dump(out, f, indent=1, default=str)
    for path, suffix, text in violations:
        print("  " + text.replace("\n", " ")[:600])
        print(f"VIOLATION property={prop} replay={path}{suffix}")
    if ded:
        print(f"{prop}: deductive {ded['coverage'].get('discharged')}/{ded['coverage'].get('obligations')} obligations discharged, {len(ded['coverage'].get('undecided', []))} undecided; ", end="")
    print(f"bounded {cov['evaluations']} postconditions in {len(distinct)} cases; {out['wall_s']} s")
    if violations:
        sys.exit(1)
    if not a.no_bounded and not ok:
        print("no case was evaluated")
        sys.exit(3)
    if errors and len(errors) > len(results) // 2:
        sys.exit(3)
    sys.exit(0)


if __name__ == "__main__":
    main()
