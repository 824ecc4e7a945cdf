#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decides one property of /repo's current source."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import core


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default="quick")
    o = a.parse_args()
    import checks
    ctx = core.Ctx(o.prop, o.tier)
    try:
        level = checks.TABLE[o.prop](ctx)
        return ctx.finish(level)
    except core.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (o.prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % o.prop)
        return 3


sys.exit(main())
