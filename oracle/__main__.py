"""python -B -m oracle check PID [--seed N] [--budget SECONDS] [--scale X] --out FILE | replay FILE"""
import json
import logging
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ.get("FCSQL_REPO", "/repo"), "src"))
logging.disable(logging.CRITICAL) if False else None


class Quiet:
    """the recognisers print error messages to stderr"""

    def write(self, s):
        return len(s)

    def flush(self):
        pass


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("what", choices=["check", "replay"])
    ap.add_argument("arg")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--out")
    ap.add_argument("--queries", help="file with queries to try first (what the verifier found)")
    a = ap.parse_args(argv)
    if a.what == "replay":
        from . import kinds
        d = json.load(open(a.arg))
        d = d.get("failing_input") or d
        err, sys.stderr = sys.stderr, Quiet()
        try:
            r = kinds.RUN[d["kind"]](**d["input"])
        finally:
            sys.stderr = err
        print(json.dumps({"property": d["property"], "input": d["input"], "observed": None if r is None else str(r)}))
        return 1 if r is not None and not isinstance(r, kinds.Known) else 0
    err, sys.stderr = sys.stderr, Quiet()
    try:
        from . import checks
        c = checks.Ctx(a.arg, a.seed, a.budget, a.scale)
        if a.queries:
            for q in json.load(open(a.queries)):
                for kind in checks.QUERY_KIND.get(a.arg, []):
                    if c.more():
                        c.case(kind, query=q)
        checks.CHECKS[a.arg](c)
    finally:
        sys.stderr = err
    out = {"property": a.arg, "evaluations": c.n, "distinct": len(c.distinct), "failures": c.failures, "known": c.known[:50],
           "known_count": len(c.known), "samples": c.samples[:5], "rule": checks.RULES[a.arg], "cut_short": not c.more() and not c.failures}
    s = json.dumps(out)
    if a.out:
        with open(a.out, "w") as f:
            f.write(s)
    else:
        print(s[:3000])
    return 0


sys.exit(main(sys.argv[1:]))
