#!/bin/bash
# Development aid: does the harness build in every configuration? (A configuration that does not build is only noted by the checks.)
cd /verif && python3 - <<'P'
import sys
sys.path.insert(0, "driver"); sys.dont_write_bytecode = True
import core, concurrent.futures
run = core.Run("C01", "quick", 1)
bad = 0
try:
    def one(v):
        try:
            run.binary(v)
        except core.BuildError as e:
            return v, str(e)[-400:]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, core.VARIANTS):
            if r:
                bad = 1
                print("FAILS", *r)
finally:
    run.cleanup()
print("all %d configurations build" % len(core.VARIANTS) if not bad else "SOME FAIL")
sys.exit(bad)
P
