#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are present and that the harness builds (in scratch)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/driver")
sys.dont_write_bytecode = True
import core
r = core.Run("setup", "quick", 1)
try:
    r.go_build("amd64")
    print("harness builds")
finally:
    r.cleanup()
