import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
from vlib import harness
import collections
if __name__ == "__main__":
    for p in sys.argv[1:]:
        t=time.time(); res = run_bounded(p, os.environ.get("VERIF_TIER","quick"), int(os.environ.get("VERIF_SEED","1")))
        c=collections.Counter(r["status"] for r in res)
        print(p, dict(c), "checks", sum(r["checks"] for r in res), "t %.1f"%(time.time()-t), "max %.1f"%max([r["t"] for r in res] or [0]))
        for r in [r for r in res if r["status"]!="ok"][:12]: print("   ", r["name"], str(r["params"])[:120], r["status"], r["msg"][:250])
