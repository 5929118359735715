"""developer entry: every harness in parallel, one summary line each"""
import os
import sys
import time
sys.dont_write_bytecode = True
sys.path[:0] = ["/verif", os.path.join(os.environ.get("FCSQL_REPO", "/repo"), "src")]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
import multiprocessing as mp
from contracts import run, base


def one(i):
    h = base.REG[i]
    return run.run_harness(h, deadline=time.time() + 250)


if __name__ == "__main__":
    run.load()
    pats = sys.argv[1:]
    idx = [i for i, h in enumerate(base.REG) if not pats or any(p in h.name or p in h.tags or p == h.fn.__name__ for p in pats)]
    t = time.time()
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(one, idx, 1):
            bad = [o for o in r["obligations"] if o["failed"] or o["unknown"]]
            unc = [k for k, v in r["covers"].items() if not v]
            print(f"{r['harness'][:90]:90s} {r['status']:8s} obl={len(r['obligations'])} bad={len(bad)} paths={r['paths']} "
                  f"t={r['time']:.1f} s={r['solver_time']:.1f} {'UNCOVERED ' + str(unc) if unc else ''}", flush=True)
            if r["reason"]:
                print("      ", r["reason"][:900])
            for o in bad:
                print("   BAD", o["tags"], o["name"], "failed", o["failed"], "unknown", o["unknown"])
                for d in o["detail"][:1]:
                    print("       ", str(d)[:900])
    print("total", round(time.time() - t, 1))
