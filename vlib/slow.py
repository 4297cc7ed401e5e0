import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.harness import *
import vlib.harness as h
h.CASE_LIMIT=int(os.environ.get("CL","60"))
if __name__ == "__main__":
    for p in sys.argv[1:]:
        res = run_bounded(p, "quick", 1)
        print(p, "total cpu", sum(r["t"] for r in res))
        for r in sorted(res,key=lambda r:-r["t"])[:10]: print("   %.1f"%r["t"], r["name"], str(r["params"])[:150], r["status"], r["msg"][:100])
