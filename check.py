#!/usr/bin/env python3
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if pid == "setup":
        vlib.build(("rhx", "invader")); return 0
    mod = importlib.import_module("checks." + pid.lower())
    vlib.build(getattr(mod, "BINS", ("rhx",)))
    c = vlib.Check(pid, tier)
    try:
        mod.run(c)
    except vlib.ToolError as e:
        if not c.violations:      # a violation already shown stands
            raise
        vlib.log("after the violation: " + str(e)[:500])
    return c.finish()
try:
    sys.exit(main())
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.exit(2)
