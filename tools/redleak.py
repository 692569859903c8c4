#!/usr/bin/env python3
"""redleak.py case.c mode feats: reduces a unit that leaks in the library's allocator ledger"""
import sys, os, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import *
from vf import fuzzgen
from vf.checks.c19 import hist
b = build("asan"); drv = driver(b, "asan")
mode, feats = sys.argv[2], int(sys.argv[3])
wd = tempfile.mkdtemp()
def bad(t):
    p = wd + "/x.c"; open(p, "wb").write(t.encode("latin-1"))
    rr, res, lk = hist(drv, [("k", mode, feats, p)], 1)
    return "k" in res and res["k"][2] > 0
t = fuzzgen.tokens(open(sys.argv[1], "rb").read().decode("latin-1"))
assert bad("".join(t))
n = max(1, len(t) // 2)
while n >= 1:
    i, ch = 0, False
    while i < len(t):
        c = t[:i] + t[i + n:]
        if c and bad("".join(c)):
            t, ch = c, True
        else:
            i += n
    if not ch or n > 1:
        n //= 2
print("".join(t))
rr, res, lk = hist(drv, [("k", mode, feats, wd + "/x.c")], 1)
shutil.rmtree(wd)
