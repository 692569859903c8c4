#!/usr/bin/env python3
"""Checks that the tools the monitors need are present; every check builds what it needs from /repo by itself."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
missing = [t for t in ("gcc", "clang", "as", "ar", "musl-gcc") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
