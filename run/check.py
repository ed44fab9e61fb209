#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core, importlib, glob
for m in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p_*.py"))):
    importlib.import_module(os.path.basename(m)[:-3])
if __name__ == "__main__":
    if len(sys.argv) != 2 or sys.argv[1] not in core.REG:
        print("usage: check.py <id>; ids: " + " ".join(sorted(core.REG)))
        sys.exit(2)
    sys.exit(core.main(sys.argv[1], None))
