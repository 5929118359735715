"""developer tool: apply the behaviour-preserving edits of tools/refactorings/*.py (a batch, or one edit each) to a scratch copy, run the
project's tests there and every harness / a list of checks

python3 tools/refactor.py BATCH            copy with the whole batch in /tmp/refac-BATCH (kept), tests run
"""
import glob
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
BATCHES, cur = {}, [None]


def batch(n):
    cur[0] = BATCHES.setdefault(n, [])


def edit(f, old, new, pre=""):
    cur[0].append((f, pre + old, pre + new))


for f in sorted(glob.glob(os.path.join(HERE, "refactorings", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))
for b in sys.argv[1:] or BATCHES:
    w = f"/tmp/refac-{b}"
    if os.path.exists(w):
        shutil.rmtree(w)
    shutil.copytree("/repo", w, symlinks=True)
    for k, (f, old, new) in enumerate(BATCHES[b]):
        path = os.path.join(w, "src/fcsql", f)
        s = open(path).read()
        if s.count(old) != 1:
            print(f"batch {b} edit {k}: {s.count(old)} places for {old[:200]!r}")
            continue
        open(path, "w").write(s.replace(old, new))
    r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=w, capture_output=True,
                       text=True, env=dict(os.environ, PYTHONPATH=w + "/src"))
    print(b, r.stdout.strip().splitlines()[-1])
