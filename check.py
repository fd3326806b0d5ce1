#!/usr/bin/env python3
"""check.py <property> [quick|thorough]     decide one property on the sources in /repo"""
import importlib
import json
import os
import sys
import time
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.loader import Program, AnchorMissing     # noqa
from sa import report                              # noqa


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        prog = Program()
    except SyntaxError as e:
        print("ERROR property=%s cannot parse: %s" % (pid, e))
        return 2
    mod = importlib.import_module("sa.checks." + pid)
    ctx = report.Ctx(pid, prog, tier)
    try:
        mod.run(ctx)
        ctx.evaluate()
    except AnchorMissing as e:
        print("ERROR property=%s public entry point %s not found" % (pid, e))
        return 2
    code = report.finish(ctx, t0, seed, mod.TITLE)
    return code


sys.exit(main())
