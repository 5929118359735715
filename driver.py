"""Decide one property: discharge every obligation of its contracts on /repo's current source, replay refutations.

    python3-vt -B -m driver C05 [--tier quick|thorough]

1. every contract harness tagged with the property is verified in a process of its own (z3);
2. the oracle executes the real code on generated inputs (bounded): it looks for a failing input of a refuted obligation
   and cross-checks what the contracts assume; it is never counted as proof;
3. verdict: see `main`.
"""
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FCSQL_REPO", "/repo")
VENV = "/opt/venv/bin/python"
sys.path.insert(0, f"{REPO}/src")
sys.path.append("/opt/venv/lib/python3.12/site-packages")
CPUS = max(1, min(8, os.cpu_count() or 1))

LIMITS = {       # seconds
    "quick": dict(harness=200, prover=360, oracle=45, search=60, bounded=60, scale=1.0),
    "thorough": dict(harness=500, prover=600, oracle=300, search=60, bounded=60, scale=8.0),
}


# ------------------------------------------------------------------ prover processes
def child(conn, i, tier, limit, bounded, dumpdir):
    try:
        sys.setrecursionlimit(20000)
        sys.stderr = open(os.devnull, "w")
        from contracts import run
        from contracts.base import REG
        dump = None
        if dumpdir:
            n = [0]

            def dump(h, name, text):
                n[0] += 1
                with open(os.path.join(dumpdir, f"{i}-{n[0]}.smt2"), "w") as f:
                    f.write(f"; {h} / {name}\n{text}")
        r = run.run_harness(REG[i], tier, deadline=time.time() + limit, bounded=bounded, dump=dump)
    except BaseException as ex:
        r = {"harness": "?", "status": "error", "reason": "".join(traceback.format_exception(ex))[-1500:], "obligations": []}
    try:
        conn.send(r)
    except BaseException as ex:
        conn.send({"harness": "?", "status": "error", "reason": "result not sendable: " + repr(ex), "obligations": []})
    conn.close()


def empty(name, status, reason):
    return {"harness": name, "status": status, "reason": reason, "obligations": [], "covers": {}, "hints": [], "paths": 0,
            "queries": 0, "solver_time": 0.0, "time": 0.0, "inlined": [], "stubs": {}, "assumptions": [], "invariants": {},
            "tags": []}


def prove(idx, names, tier, limit, total, bounded=None, dumpdir=None):
    """verify the harnesses idx in parallel; answer {index: result}"""
    ctx = mp.get_context("fork")
    out, todo, live = {}, sorted(idx, key=lambda i: not names[i].startswith(("expression [", "construct with"))), {}
    end = time.time() + total
    while todo or live:
        while todo and len(live) < CPUS and time.time() < end:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            lim = min(limit, max(5, end - time.time()))
            p = ctx.Process(target=child, args=(b, i, tier, lim, bounded, dumpdir), daemon=True)
            p.start()
            b.close()
            live[i] = (p, a, time.time() + lim + 30)
        if todo and time.time() >= end:
            for i in todo:
                out[i] = empty(names[i], "budget", "no time left")
            todo = []
        mp.connection.wait([c for _, c, _ in live.values()], timeout=1)
        for i, (p, c, dl) in list(live.items()):
            r = None
            if c.poll():
                try:
                    r = c.recv()
                except EOFError:
                    r = empty(names[i], "error", "the prover process ended without a result")
            elif time.time() > dl:
                r = empty(names[i], "budget", "time limit of the prover process")
            if r is not None:
                p.terminate()
                p.join(5)
                c.close()
                del live[i]
                out[i] = {**empty(names[i], "", ""), **r}
                out[i]["harness"] = names[i]
    return out


# ------------------------------------------------------------------ oracle process
def start_oracle(pid, seed, budget, scale, out, queries=()):
    env = dict(os.environ, FCSQL_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    more = []
    if queries:
        with open(out + ".q", "w") as f:
            json.dump(list(queries), f)
        more = ["--queries", out + ".q"]
    return subprocess.Popen([VENV, "-B", "-m", "oracle", "check", pid, "--seed", str(seed), "--budget", str(budget),
                             "--scale", str(scale), "--out", out] + more, cwd=HERE, env=env, stdout=subprocess.DEVNULL,
                            stderr=subprocess.PIPE)


def end_oracle(p, budget, out):
    err = b""
    try:
        _, err = p.communicate(timeout=budget + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
    try:
        with open(out) as f:
            r = json.load(f)
        for x in (out, out + ".q"):
            if os.path.exists(x):
                os.remove(x)
        return r, None
    except (OSError, ValueError):
        return None, f"the oracle gave no result (exit {p.returncode}): " + err.decode(errors="replace")[-1500:]


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: property=" + pid + " "):
                out.append(line.split(" ", 2)[2].strip())
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args(argv)
    pid, tier = a.pid, a.tier if a.tier in LIMITS else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    L = LIMITS[tier]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{pid}.oracle.json")
    orc = start_oracle(pid, seed, L["oracle"], L["scale"], tmp)

    # contracts
    load_error, results, idx, names = None, {}, [], {}
    try:
        err, sys.stderr = sys.stderr, open(os.devnull, "w")
        try:
            from contracts import run
            reg = run.load()
        finally:
            sys.stderr = err
        idx = [i for i, h in enumerate(reg) if pid in h.tags]
        names = {i: reg[i].name for i in idx}
    except BaseException as ex:
        load_error = "".join(traceback.format_exception(ex))[-1500:]
    dumpdir = None
    if tier == "thorough":
        dumpdir = os.path.join(HERE, "evidence", f".{pid}.smt2")
        os.makedirs(dumpdir, exist_ok=True)
        for f in os.listdir(dumpdir):
            os.remove(os.path.join(dumpdir, f))
    if idx:
        results = prove(idx, names, tier, L["harness"], L["prover"], dumpdir=dumpdir)

    # bounded execution of the real code
    oracle, oerr = end_oracle(orc, L["oracle"], tmp)
    failures = list(oracle["failures"]) if oracle else []

    # obligations of this property
    obls, undecided, refuted, doubtful = [], [], [], []
    for i in idx:
        r = results[i]
        mine = [o for o in r["obligations"] if pid in o["tags"]]
        for o in mine:
            o["harness"] = r["harness"]
        bad = [o for o in mine if o["failed"]]
        if bad and r["invariants"] and not failures:
            doubtful.append((i, bad))
        else:
            refuted += bad
        undecided += [f"{r['harness']}: {o['name']}: solver answered unknown" for o in mine if o["unknown"] and not o["failed"]]
        if r["status"] != "ok":
            undecided.append(f"{r['harness']}: {r['status']}: {str(r['reason'])[-400:]}")
        elif not mine and pid in r["tags"]:
            undecided.append(f"{r['harness']}: no obligation generated")
        undecided += [f"{r['harness']}: case {c!r} was not reached" for c, v in r["covers"].items() if not v]
        obls += mine
    if doubtful:
        # a refutation that went through an inferred invariant may only mean the invariant is too weak:
        # confirm it on the executions without cut (short lists, short texts)
        again = prove([i for i, _ in doubtful], names, tier, L["bounded"], 2 * L["bounded"], bounded=(3, 6))
        for i, bad in doubtful:
            b = again[i]
            if any(pid in o["tags"] and o["failed"] for o in b["obligations"]):
                refuted += bad
            else:
                for o in bad:
                    o["unconfirmed"] = True
                    undecided.append(f"{results[i]['harness']}: {o['name']}: not provable with the inferred loop invariants")
    if load_error:
        undecided.append("contracts could not be loaded: " + load_error)
    if not obls and not undecided and idx:
        undecided.append("no obligation generated")

    if oerr:
        undecided.append(oerr)
    runs = [oracle] if oracle else []
    if not failures and (refuted or undecided) and not oerr:
        # search harder for a failing input
        found = sorted({q for i in idx for o in results[i]["obligations"] for d in o["detail"] for q in d.get("queries", [])}, key=len)
        more, e2 = end_oracle(start_oracle(pid, seed + 1000, L["search"], L["scale"] * 4, tmp, found[:400]), L["search"], tmp)
        if more:
            runs.append(more)
            failures = list(more["failures"])

    discharged = [o for o in obls if o["ok"] and not o["failed"] and not o["unknown"]]
    cvc5 = redischarge(dumpdir) if dumpdir else None
    status = "proved" if obls and len(discharged) == len(obls) and not undecided else ("bounded" if not refuted else "refuted")

    ev = evidence(pid, tier, seed, obls, discharged, results, idx, undecided, refuted, runs, cvc5, status)
    violations = []
    if failures:
        for k, f in enumerate(failures[:3]):
            path = os.path.join(HERE, "evidence", "replay", f"{pid}-{k + 1}.json")
            write(path, {"property": pid, "failing_input": f, "failed_obligations": refuted[:10], "undecided": undecided[:10],
                         "replay_cmd": f"cd {HERE} && {VENV} -B -m oracle replay {path}"})
            violations.append(f"VIOLATION property={pid} replay={path}")
            print(f"{pid}: {f['kind']}: {json.dumps(f['input'], ensure_ascii=True)[:400]} -> {f['observed'][:400]}")
    elif refuted:
        path = os.path.join(HERE, "evidence", "replay", f"{pid}-obligation.json")
        write(path, {"property": pid, "failed_obligations": refuted[:10],
                     "searched": sum(r["evaluations"] for r in runs)})
        for o in refuted[:5]:
            print(f"{pid}: failed obligation: {o['harness']}: {o['name']} {str(o['detail'][:1])[:600]}")
        violations.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    ev["violations"] = len(violations)
    ev["wall_s"] = round(time.time() - t0, 2)
    write(os.path.join(HERE, "evidence", f"{pid}.json"), ev)

    if runs and any(r["known_count"] for r in runs):
        listed = known_findings(pid)
        if not listed:      # a known class that the file does not list is a violation
            path = os.path.join(HERE, "evidence", "replay", f"{pid}-1.json")
            write(path, {"property": pid, "failing_input": next(k for r in runs for k in r["known"])})
            violations.append(f"VIOLATION property={pid} replay={path}")
        for k in listed:
            print(f"KNOWN-FINDING: property={pid} {k}")
    print(f"{pid}: {status}: {len(discharged)}/{len(obls)} obligations discharged over {len(idx)} contract harnesses; "
          f"{sum(r['evaluations'] for r in runs)} executions of the real code; {ev['wall_s']} s")
    for u in undecided[:8]:
        print(f"{pid}: BOUNDED (not proved on this tree): {u}"[:700])
    for v in violations:
        print(v)
    sys.stdout.flush()
    return 1 if violations else 0


def redischarge(d):
    """thorough: every query z3 answered unsat is put to cvc5 as well"""
    files = sorted(os.listdir(d))
    deadline = time.time() + 150
    out = {"queries": len(files), "unsat": 0, "unknown_or_timeout": 0, "sat": 0, "not_run": 0, "sat_in": []}
    live = []

    def reap(block):
        for p, f in list(live):
            if block or p.poll() is not None:
                try:
                    o, _ = p.communicate(timeout=15)
                except subprocess.TimeoutExpired:
                    p.kill()
                    o, _ = p.communicate()
                live.remove((p, f))
                ans = o.decode(errors="replace").strip().splitlines()
                ans = ans[0] if ans else ""
                if ans == "unsat":
                    out["unsat"] += 1
                elif ans == "sat":
                    out["sat"] += 1
                    out["sat_in"].append(open(os.path.join(d, f)).readline().strip())
                else:
                    out["unknown_or_timeout"] += 1
    for f in files:
        if time.time() > deadline:
            out["not_run"] += 1
            continue
        while len(live) >= CPUS:
            reap(False)
            time.sleep(0.01)
        live.append((subprocess.Popen(["cvc5", "--strings-exp", "--tlimit=4000", os.path.join(d, f)],
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL), f))
    while live:
        reap(True)
    for f in files:
        os.remove(os.path.join(d, f))
    os.rmdir(d)
    return out


def evidence(pid, tier, seed, obls, discharged, results, idx, undecided, refuted, runs, cvc5, status):
    inlined, stubs, assumptions, inv, hs = set(), {}, set(), {}, []
    for i in idx:
        r = results[i]
        inlined |= set(r["inlined"])
        assumptions |= set(r["assumptions"])
        for k, v in r["stubs"].items():
            stubs[k] = stubs.get(k, 0) + v
        inv.update(r["invariants"])
        hs.append({"harness": r["harness"], "status": r["status"], "paths": r["paths"], "queries": r["queries"],
                   "solver_s": r["solver_time"], "obligations": sum(1 for o in r["obligations"] if pid in o["tags"])})
    try:
        from contracts import trust
        trusted = trust.TRUSTED
        own = trust.BY_PROPERTY.get(pid, [])
    except Exception:
        trusted, own = [], []
    nd = sum(r["distinct"] for r in runs)
    cov = {
        "obligations": len(obls), "discharged": len(discharged),
        "checker_cmd": f"cd {HERE} && python3-vt -B -m contracts {pid}",
        "trusted_base": sorted(set(trusted) | set(own) | {f"assumed contract: {s}" for s in stubs}),
        "status": status,
        "back_end": "z3 (quick and thorough); thorough re-discharges every proved query with cvc5",
        "discharged_by": {"z3": len(discharged)},
        "verification_conditions": sum(o["ok"] for o in obls),
        "solver_s": round(sum(h["solver_s"] for h in hs), 2),
        "functions_under_contract": sorted(inlined),
        "contracts_used_at_call_sites": stubs,
        "harnesses": hs,
        "loop_invariants": inv,
        "undecided": undecided[:20],
        "refuted": [{"harness": o["harness"], "obligation": o["name"]} for o in refuted[:20]],
        "evaluations": sum(r["evaluations"] for r in runs), "distinct_nontrivial": nd,
        "rule": (runs[0]["rule"] if runs else "the oracle did not run") +
                " [bounded cross-check by execution; never counted as proof]",
        "samples": (runs[0]["samples"] if runs else []) or ["none"],
    }
    if cvc5 is not None:
        cov["cvc5"] = cvc5
    return {"property": pid, "tier": tier, "seed": seed, "level": "proof" if obls else "exploration", "coverage": cov,
            "assumptions": sorted(assumptions) + own, "wall_s": 0.0, "violations": 0}


def write(path, d):
    with open(path + ".tmp", "w") as f:
        json.dump(d, f, indent=1, default=str)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
