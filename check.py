#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   - decide one property
   check.py --replay FILE             - run the scenario of a reported violation again"""
import importlib, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        ctx = vlib.Ctx(d["property"], "replay", 1)
        try:
            evs = ctx.run_driver(d["area"], [d["scenario"]], par=1, race=d.get("race", False))
            acc = ctx.validate(d["module"], evs)
            for i, e in enumerate(evs[0]):
                print("ok " if i < acc[0] else "REJECTED " if i == acc[0] else "   ", json.dumps(e))
            return 0 if acc[0] == len(evs[0]) else 1
        finally:
            ctx.cleanup()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = vlib.Ctx(pid, tier, seed)
    try:
        areas = importlib.import_module("areas")
        areas.CHECKS[pid](ctx)
        return ctx.finish()
    except vlib.Infra as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 3
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.cleanup()


sys.exit(main())
