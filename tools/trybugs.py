"""developer tool: run the check of each planted bug's property (or all of --all) on a scratch copy with the bug applied"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    if args and not any(i.startswith(a) for a in args):
        continue
    d = os.path.join(HERE, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    w = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", w, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w, check=True)
        t = time.time()
        r = subprocess.run([os.path.join(HERE, "bin/check"), prop], env=dict(os.environ, FCSQL_REPO=w), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        st = [l for l in r.stdout.splitlines() if "obligations discharged" in l]
        print(f"{i:24s} {prop} exit={r.returncode} {time.time()-t:5.1f}s {'CAUGHT' if v else 'MISSED'} {v[:1]} {st[0].split(':')[1:3] if st else r.stdout[-300:] + r.stderr[-300:]}", flush=True)
        if "--show" in sys.argv:
            print("    ", "\n     ".join(l[:300] for l in r.stdout.splitlines()[:6]))
        if v:
            try:
                j = json.load(open(v[0].split("replay=")[1].split()[0]))
                print("      refuted:", [o["name"] for o in j["failed_obligations"]][:3], "undecided", len(j.get("undecided", [])))
            except Exception as ex:
                print("     ", ex)
    finally:
        shutil.rmtree(tmp)
