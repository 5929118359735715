"""developer tool: make and confirm the planted bugs listed in tools/plants/*.py (writes /verif/seeded/<id>/)

python3 tools/plant.py [id ...]
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLANTS = {}


def plant(i, prop, edits, needs, breaks, demo):
    assert i not in PLANTS, i
    PLANTS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


HEAD = '''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import fcsql
from fcsql import parser as fp, validation as fv
'''


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env), capture_output=True, text=True,
                          timeout=300)


def make(i, p):
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    w = os.path.join(tmp, "repo")
    out = os.path.join(HERE, "seeded", i)
    try:
        shutil.copytree("/repo", w, symlinks=True)
        for f, old, new in p["edits"]:
            path = os.path.join(w, "src/fcsql", f)
            s = open(path).read()
            n = s.count(old)
            if n != 1:
                return f"{n} places for {old!r}"
            open(path, "w").write(s.replace(old, new))
        base = run(["git", "show", "ce32609:src/fcsql/" + p["edits"][0][0]], w).stdout
        diff = run(["git", "diff"], w).stdout
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        fixed = [l for l in gone if l.strip() and l not in base]
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(HEAD + p["demo"])
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], w,
                PYTHONPATH=os.path.join(w, "src"))
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        if "66 passed" not in last:
            return "tests: " + last + t.stdout[-600:]
        bad = run(["bash", os.path.join(out, "demo.sh")], w)
        good = run(["bash", os.path.join(out, "demo.sh")], "/repo")
        if good.returncode != 0:
            return "demo fails on the unchanged tree: " + good.stderr[-500:]
        if bad.returncode == 0:
            return "demo passes with the change"
        return ("ok" if not fixed else f"ok, BUT changes lines of a fix: {fixed[:2]}") + "  (" + bad.stderr.strip().splitlines()[-1][:100] + ")"
    finally:
        shutil.rmtree(tmp)


for f in sorted(glob.glob(os.path.join(HERE, "tools/plants/*.py"))):
    exec(compile(open(f).read(), f, "exec"))
if __name__ == "__main__":
    only = sys.argv[1:]
    for i, p in PLANTS.items():
        if only and i not in only:
            continue
        print(i, p["prop"], make(i, p), flush=True)
