#!/usr/bin/env python3
"""Checks that the tools are there and that the driver builds (checks build their own copy from /repo)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib
ctx = vlib.Ctx("setup", "quick", 1)
try:
    ctx.driver()
    r = ctx.tlc("FragReadMC", "FragReadMC.cfg")
    if r["rc"] != 0:
        raise vlib.Infra(r["out"][-2000:])
finally:
    ctx.cleanup()
print("setup ok")
