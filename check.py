#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - decide one property of /repo by bounded exhaustive exploration.

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Any other exit is an error of the check itself."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
sys.dont_write_bytecode = True
import core
import props

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:], props.PROPS))
