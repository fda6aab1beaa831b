#!/usr/bin/env python3
"""check.py <property>  -- runs one property's monitor; VERIF_SEED and VERIF_TIER select the workload."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), HERE]
sys.dont_write_bytecode = True

def main():
    prop = sys.argv[1]
    from checks import registry
    mod, fn, level = registry.CHECKS[prop]
    from ctx import Ctx
    ctx = Ctx(prop, level)
    def late():
        # whatever hangs: what has been seen so far decides
        print("late: the run is ended", file=sys.stderr)
        rc = ctx.finish() if ctx.nviol else 3
        sys.stdout.flush(); os._exit(rc)
    if not ctx.thorough:
        import threading
        t = threading.Timer(820, late); t.daemon = True; t.start()
    try:
        getattr(importlib.import_module("checks." + mod), fn)(ctx)
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        # a harness that failed decides nothing, unless it had already seen a violation
        rc = ctx.finish() if ctx.nviol else 3
    sys.stdout.flush()
    os._exit(rc)

main()
