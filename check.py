#!/usr/bin/env python3
"""usage: check.py <property id>  -- runs the runtime monitors deciding that property against /repo's working tree."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module("vf.checks." + pid.lower())
        mod.main()
    except core.HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        sys.exit(3)


if __name__ == "__main__":
    main()
