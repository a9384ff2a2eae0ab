#!/usr/bin/env python3
"""Entry point: run.py <PROPERTY> [quick|thorough]   (exit 0 holds, 1 violation, 2 no answer)"""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.prog import load_program, AnalysisBroken
from sa.report import Result, finish, known
from checks.registry import CHECKS

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    fns, expl = CHECKS[pid]
    res = Result(pid)
    try:
        prog = load_program()
        res.cov["translation_units"] = prog.units; res.cov["functions_in_program"] = len(prog.fns)
        for f in fns: f(prog, res, tier)
    except Exception as e:
        # findings established before the analysis lost track are still findings
        if any(k not in known().get(pid, {}) for k, _ in res.viol):
            print("note: analysis incomplete: %s" % e)
        else:
            traceback.print_exc(); print("ANALYSIS-BROKEN %s: %s" % (pid, e)); return 2
    return finish(res, tier, seed, t0, expl)
sys.exit(main())
