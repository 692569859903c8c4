"""C18: every allocation failure during preprocessing and tokenisation is survived cleanly."""
import re
from vf.core import *
from vf import ppmon, corpus, fuzzgen
from vf.checks import c13, c14, c15
from vf.checks.c17 import site

ENVS = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:symbolize=1", "UBSAN_OPTIONS": "abort_on_error=1"}

ZOO = r'''#define OBJ 1
#define EMPTY
#define FN(a, b) a ## b #a OBJ
#define VA(a, ...) f(a, ## __VA_ARGS__) #__VA_ARGS__
#define PASTE(a, b) a ## b
#define REC(x) REC (x) x
#if defined OBJ && (OBJ + 2 * 3 > 4 ? 1 : 0) || !defined(NOPE) && 'a' == 97 && 0x7fULL
FN(x, y) VA(1) VA(1, 2, "s") PASTE(<, <=) PASTE(>, >) PASTE(1., e5) REC(REC(2)) PASTE(,) PASTE(L, 'a')
#elif 1 / 1
#else
#error no
#endif
#ifdef OBJ
"abc" "d\n\x41\101" L"wide" u"u16" U"u32" u8"u8" 'a' L'b' u'c' U'd' 1.5e3f 0x1.8p3L 1e10 .5 123ull 0777 0xfFu
#endif
#ifndef OBJ
#include "nosuch.h"
#endif
#undef OBJ
#line 77 "other.c"
__LINE__ __FILE__ __DATE__ __TIME__ __STDC__ __STDC_VERSION__
#pragma once what
_Pragma("x") ... -> ++ -- <<= >>= <: :> <% %> %: ## # ident _Thread_local while
'''


def gen(r):
    k = r.random()
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    os.makedirs(wd + "/inc1")
    if k < .65:
        m = r.choice([c13, c13, c14, c15])
        g = m.gen(r, r.choice([1, 2, 3]))
        ppmon.write(wd, g)
        return wd, m.__name__[-3:]
    if k < .75:
        lines = ZOO.split("\n")
        open(wd + "/in.c", "w").write("\n".join(lines))
        return wd, "zoo"
    if k < .9:
        t = corpus.macroize(r, corpus.unit(r, 1)[1])[:r.choice([600, 1500, 2500])]
        t = t[:t.rfind("\n") + 1]
    else:
        t = fuzzgen.gen(r)[1][:2000]
    open(wd + "/in.c", "wb").write(t if isinstance(t, bytes) else t.encode("utf-8", "replace"))
    return wd, "text"


def job(drv, seed, idx, budget):
    r = rng(seed, idx)
    wd, kind = gen(r)
    try:
        mode = r.choice("ppt")
        pers = int(r.random() < .3)
        line = "u %s 0 %s/in.c %s/inc1" % (mode, wd, wd)
        h = run([drv, "hist", "0"], stdin=(line + "\n").encode(), timeout=60, env=ENVS, mem=None)
        p = h.out.decode(errors="replace").split()
        if h.timeout or len(p) < 5 or p[3] != "0":
            return {"st": "skip"}       # concerns C17 and C19
        total = int(p[2])
        step = max(1, (total + budget - 1) // budget)
        first = 1 + r.randrange(step)
        os.makedirs(wd + "/err")
        o = run([drv, "oom", wd + "/err"], stdin=("%s %d %d %d %d\n" % (line, first, step, total + 5, pers)).encode(), timeout=300, env=ENVS, mem=None, maxout=1 << 30)
        out = o.out.decode(errors="replace")
        res = {"st": "ok", "kind": kind, "mode": mode, "pers": pers, "points": 0, "bad": [], "src": open(wd + "/in.c", "rb").read(), "rec": 0}
        if "DONE" not in out:
            return {"st": "skip"}
        cur = None
        for ln in out.split("\n"):
            m = re.match(r"K u (\d+) (\d) (\d+) (\d+) (\w)(.*)", ln)
            if m:
                k, st, live, fails, d, bt = m.groups()
                cur = (k, bt)
                if fails == "0":
                    continue
                res["points"] += 1
                if st == "0":
                    res["bad"].append(("the failure of allocation %s is not reported" % k, bt))
                elif d == "N":
                    res["bad"].append(("failure of allocation %s leaves no diagnostic" % k, bt))
                if live != "0":
                    res["bad"].append(("failure of allocation %s leaks %s blocks" % (k, live), bt))
            elif ln.startswith("LEAK") and res["bad"]:
                res["bad"][-1] = (res["bad"][-1][0], res["bad"][-1][1] + "\n    leaked: " + ln)
            m = re.search(r"CRASH u (\d+) (-?\d+)", ln)
            if m:
                ef = "%s/err/u.%s.err" % (wd, m.group(1))
                e = open(ef, errors="replace").read() if os.path.exists(ef) else ""
                if m.group(2) in ("-14", "-9", "-24"):
                    continue
                res["points"] += 1
                res["bad"].append(("failure of allocation %s crashes (status %s, %s)" % (m.group(1), m.group(2), " in ".join(site(e))), e[:1500]))
            m = re.match(r"REC u (\d) (\d+) (\w+)", ln)
            if m:
                res["rec"] += 1
                if m.group(1) != p[1] or m.group(2) != "0" or (p[1] == "0" and m.group(3) != p[4]):
                    res["bad"].append(("a compilation following the failures differs: status %s blocks %s" % (m.group(1), m.group(2)), ""))
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    ck = Check("C18")
    ck.rule = "one evaluation = one preprocessing or tokenisation of a unit in which allocation number k (or every one from k on) fails, under AddressSanitizer with a poisoning ledger allocator; distinct by unit, mode and fault plan"
    ck.assumptions = ["the lists, trees and tables of the core library are covered as far as preprocessing uses them"]
    bdir = build("aonly")
    drv = driver(bdir, "aonly")
    for r in pmap(job, [(drv, ("C18", SEED), i, scale(500, 6000)) for i in range(scale(80, 1500))]):
        if r["st"] == "skip":
            ck.inconclusive += 1
            continue
        ck.evaluations += r["points"]
        ck.seen(r["src"] + (r["mode"] + str(r["pers"])).encode())
        ck.count("failures_injected:" + ("persistent" if r["pers"] else "single"), r["points"])
        ck.count("kind:" + r["kind"])
        ck.count("recoveries", r["rec"])
        for what, how in r["bad"][:1]:
            ck.violation(r["src"].decode("latin-1") + r["mode"], {"in.c": r["src"], "report.txt": how}, "mode %s: %s; failing allocation: %s" % (r["mode"], what, how[:500]))
        if not r["bad"]:
            ck.sample(r["src"].decode("utf-8", "replace")[:600])
    ck.finish(5000)
