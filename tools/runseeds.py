#!/opt/venv/bin/python
"""run the check of each seeded bug (or of the ids given) against a scratch copy of /repo with the bug; report caught or not.
usage: runseeds.py [--args '--no-bounded'] [ids]"""
import json, os, subprocess, sys, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
extra = ""
if args and args[0] == "--args":
    extra = args[1]; args = args[2:]
ids = args or sorted(os.listdir(os.path.join(H, "seeded")))

def one(i):
    d = os.path.join(H, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="rs-", dir="/tmp")
    try:
        subprocess.run(f"git clone -q /repo {w}/repo && cd {w}/repo && git apply {d}/patch.diff", shell=True, check=True)
        # own copy of /verif so that evidence files do not collide
        subprocess.run(f"mkdir {w}/verif && cd {H} && tar c --exclude=.git --exclude=seeded --exclude=evidence . | tar x -C {w}/verif", shell=True, check=True)
        t = time.time()
        r = subprocess.run(f"./run.py {prop} {extra}", shell=True, cwd=f"{w}/verif", capture_output=True, text=True, env=dict(os.environ, LIE_NN_REPO=f"{w}/repo", VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        first = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        results[i] = ("yes" if r.returncode == 1 and v else "no") + (" (no failing input found)" if v and all("no-failing-input" in x for x in v) else "")
        return f"{i:22s} {prop} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {'(nfif)' if v and all('no-failing-input' in x for x in v) else ''} {time.time()-t:.0f}s ded={sum('obligation' in x for x in v)} bnd={sum('bounded' in x for x in v)} {first[0][:140] if first else r.stdout[-100:]} {r.stderr[-200:] if r.returncode not in (0,1) else ''}"
    finally:
        shutil.rmtree(w)

results = {}
with ThreadPoolExecutor(4) as ex:
    for x in ex.map(one, ids):
        print(x, flush=True)
F = os.path.join(H, "tools", "seed-results.json")
old = json.load(open(F)) if os.path.exists(F) else {}
for i, x in results.items():
    old.setdefault(i, {})["deductive" if "--no-bounded" in extra else "all"] = x
json.dump(dict(sorted(old.items())), open(F, "w"), indent=1)
