#!/opt/venv/bin/python
"""(Re)generate /verif/seeded/<id>/ from the table in tools/seeds.py, keeping only confirmed ones:
patch applies, package imports, stable tests pass with the patch, demo passes without and fails with it."""
import json, os, subprocess, sys, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from seeds import SEEDS
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu OPENBLAS_NUM_THREADS=1\nPYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=kw.pop("env", ENV), **kw)

def main():
    only = sys.argv[1:]
    for s in SEEDS:
        if only and s["id"] not in only:
            continue
        d = os.path.join(H, "seeded", s["id"])
        if not only and os.path.exists(os.path.join(d, "meta.json")):
            continue
        w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            r = os.path.join(w, "repo")
            sh(f"git clone -q /repo {r}", "/tmp")
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "demo.py"), "w").write(s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            a = sh(os.path.join(d, "demo.sh"), r)
            for f, old, new in s["edits"]:
                p = os.path.join(r, "lie_nn", f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, old, t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = sh("git diff", r).stdout
            b = sh(os.path.join(d, "demo.sh"), r)
            t = sh(f"{PY} -m pytest -q -n 8 -p seed_rng -p no:cacheprovider --timeout=300 --doctest-modules --ignore=noxfile.py --ignore=setup.py --ignore=lie_nn/_src/reduce_test.py . | tail -5", r, env=dict(ENV, PYTHONPATH=f"{r}:/opt/vp"))
            ok = a.returncode == 0 and b.returncode != 0 and "failed" not in t.stdout and "error" not in t.stdout and "2754 passed" in t.stdout
            print(s["id"], "OK" if ok else "REJECTED", a.returncode, b.returncode, t.stdout.strip().splitlines()[-1:], (a.stderr[-300:] if a.returncode else ""), b.stderr.strip().splitlines()[-1:], flush=True)
            if ok:
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            else:
                shutil.rmtree(d)
        finally:
            shutil.rmtree(w)

main()
