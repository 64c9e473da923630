#!/usr/bin/env python3
"""check.py <property>: decides the property on /repo's working tree.
check.py --replay FILE: runs the recorded requests of a violation again in the harness."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core


def main():
    if sys.argv[1] == "--replay":
        v = json.load(open(sys.argv[2]))
        ctx = core.Ctx(v["property"], "quick", 1)
        ctx.harness = core.build_harness()
        for x in v["violations"]:
            print(json.dumps(x)[:4000])
            if "request" in x: print("  now:", json.dumps(ctx.run_harness([x["request"]]))[:2000])
        return 0
    prop = sys.argv[1]
    ctx = core.Ctx(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    try:
        return importlib.import_module("checks." + prop.lower()).run(ctx)
    except core.ToolError as e:
        print("ERROR", e)
        if ctx.bad:
            return ctx.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.bad:
            return ctx.finish()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
