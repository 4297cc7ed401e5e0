#!/opt/venv/bin/python
"""rewrite the sections of DESIGN.md after '## Properties' from the registered contracts, the bounded groups and tools/seed-results.json"""
import glob, importlib, io, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import vlib
from vlib import harness
for f in sorted(glob.glob(H + "/contracts/*.py")):
    importlib.import_module("contracts." + os.path.basename(f)[:-3])
for f in sorted(glob.glob(H + "/bounded/*_.py")):
    importlib.import_module("bounded." + os.path.basename(f)[:-3])
from vlib.sym.contract import CONTRACTS
from tools.levels import LEVELS, REST

out = io.StringIO()
w = lambda s="": print(s, file=out)
for l in open(H + "/properties.jsonl"):
    d = json.loads(l)
    p = d["id"]
    w(f"\n### {p} {d['title']}")
    mine = [c for c in CONTRACTS if p in c.props]
    if p == "C17":
        w("Deductive: the frame obligation `the inputs are not modified` of *every* contract of this file: no store of the code under proof reaches an "
          "array, list or object that the caller owns (views and aliases are tracked), so the whole call graph under contract is pure. Its obligations are "
          "counted once per contract.")
    elif mine:
        w("Contracts (symbolic inputs; postconditions are obligations):")
        for c in mine:
            fs = sorted({t.split("._src.")[-1] for t in c.targets})
            doc = " ".join((c.fn.__doc__ or "").split())
            extra = (f" — *{c.bounded}*" if c.bounded else "") + (" — thorough tier" if c.cost != "quick" else "")
            w(f"* `{c.name}` [{', '.join(fs)}]{': ' + doc if doc else ''}{extra}")
        ass = sorted({a for c in mine for a in c.assumes})
        if ass:
            w("Assumed: " + "; ".join(ass) + ".")
    g = harness.GROUPS.get(p, [])
    w("Bounded: " + ", ".join(f"`{n}` ({len(q)} cases{', thorough +' + str(len(t)) if t else ''})" for n, _, q, t in g) + ".")
    w(REST.get(p, ""))
w("\n## Seeded bugs")
w("`seeded/<id>`: each compiles, passes the 2754 tests, and has a demonstration. `tools/runseeds.py` runs the check of its property against a scratch copy.")
r = json.load(open(H + "/tools/seed-results.json"))
w("\n| bug | property | caught by the check | by contracts alone (`--no-bounded`) | needs |\n|---|---|---|---|---|")
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    x = r.get(i, {})
    w(f"| {i} | {m['property']} | {x.get('all', '?')} | {x.get('deductive', '?')} | {m['needs']} |")
s = open(H + "/DESIGN.md").read()
head = s[: s.index("## Properties")]
open(H + "/DESIGN.md", "w").write(head + "## Properties\n(This and the following section are written by `tools/mkdesign.py` from the registered contracts.)\n" + out.getvalue())
