"""Run harnesses: one engine per harness, results as plain data."""
import copy
import importlib
import os
import sys
import time
import traceback

import z3

from pyvc import core, interp, loops, views
from . import base

MODULES = ["nodes", "visitor", "parse", "validator", "text", "builder", "grammar"]


def load():
    for m in MODULES:
        if os.path.exists(os.path.join(os.path.dirname(__file__), m + ".py")):
            importlib.import_module("contracts." + m)
    return base.REG


def run_harness(h, tier="quick", deadline=None, log=None, dump=None, bounded=None):
    e = core.Engine(h.name, timeout_ms=10000 if tier == "quick" else 60000, deadline=deadline, log=log)
    core.set_engine(e)
    e.smt_dump = dump
    e.templates = list(h.templates)
    e.case = h.case
    e.htags = h.tags
    loops.ROOTS.clear()
    res = {"harness": h.name, "tags": h.tags, "status": "ok", "reason": None}
    t0 = time.time()
    interps = {}
    if bounded:
        e.bounded, e.bounded_text = bounded

    def path(e):
        I = interps.get(0)
        if I is None:
            I = interps[0] = base.new_interp(h.prefixes)
            I.stubs0, I.handlers0, I.mh0 = dict(I.stubs), dict(I.handlers), dict(I.method_handlers)
        I.stubs, I.handlers, I.method_handlers = dict(I.stubs0), dict(I.handlers0), dict(I.mh0)
        I.chain, I.depth = (), 0
        I.handling.clear()
        e.stubs = I.stubs
        loops.ROOTS.clear()
        base.NODE.on_accept = None
        base.NODE.fields = {}
        e.loop_hook = None
        e.templates = list(h.templates)
        h.fn(e, I)

    try:
        e.explore(path)
    except core.OutOfSubset as ex:
        res["status"], res["reason"] = "out-of-subset", str(ex)
    except core.Budget as ex:
        res["status"], res["reason"] = "budget", str(ex)
    except core.Control as ex:
        res["status"], res["reason"] = "error", repr(ex)
    except Exception as ex:
        res["status"], res["reason"] = "error", "".join(traceback.format_exception(ex))[-4500:]
    res["obligations"] = [
        {"tags": list(o.tags), "name": o.name, "ok": o.ok, "failed": o.failed, "unknown": o.unknown,
         "time": round(o.time, 4), "detail": o.detail} for o in e.obls.values()]
    res["covers"] = dict(e.covers)
    res["hints"] = e.hints[:20]
    res["paths"] = getattr(e, "paths", 0)
    res["queries"] = e.queries
    res["solver_time"] = round(e.solver_time, 3)
    res["time"] = round(time.time() - t0, 3)
    res["inlined"] = sorted(e.inlined)
    res["stubs"] = dict(e.stub_uses)
    res["assumptions"] = sorted(e.assumptions)
    res["invariants"] = {" / ".join(k[-2:]): sorted(r.kept) for k, r in e.loops.items() if r.cut}
    return res


def main(argv):
    """developer entry: run harnesses whose name or tag matches"""
    load()
    pat = argv[0] if argv else ""
    for h in base.REG:
        if pat and pat not in h.name and pat not in h.tags and pat != h.fn.__name__:
            continue
        r = run_harness(h, log=print if "-v" in argv else None, bounded=(3, 6) if "-b" in argv else None)
        bad = [o for o in r["obligations"] if o["failed"] or o["unknown"]]
        print(f"{h.name:40s} {r['status']:14s} obl={len(r['obligations'])} bad={len(bad)} paths={r['paths']} "
              f"t={r['time']:.2f}s solver={r['solver_time']:.2f}s covers={sum(r['covers'].values())}/{len(r['covers'])}")
        if r["reason"]:
            print("     ", r["reason"])
        for o in bad:
            print("   BAD", o["tags"], o["name"], "failed", o["failed"], "unknown", o["unknown"])
            for d in o["detail"][:1]:
                print("       ", str(d)[:1200])
        for k, v in r["covers"].items():
            if not v:
                print("   UNCOVERED", k)
