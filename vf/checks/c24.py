"""C24: the core containers behave as their abstract types under any operation history."""
from vf.core import *

KINDS = ("list", "vector", "hashtree", "tree", "trie", "string", "block", "symbols", "char32")
ENVS = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=1", "UBSAN_OPTIONS": "print_stacktrace=1"}


def job(exe, kind, seed, hists, ops):
    r = run([exe, kind, str(seed), str(hists), str(ops)], timeout=300, env=ENVS, mem=None)
    o = r.out.decode(errors="replace")
    if r.rc == 0 and o.startswith("ok "):
        return (kind, [int(x) for x in o.split()[1:]], None)
    return (kind, None, (r.rc, o[-500:], r.err.decode(errors="replace")[-4000:], (seed, hists, ops)))


def main():
    ck = Check("C24")
    bdir = build("asan")
    exe = driver(bdir, "asan", "cont.c")
    n = scale(8, 150)
    argl = [(exe, k, SEED * 1000 + i, *((60, 400) if i % 2 else (400, 40))) for i in range(n) for k in KINDS]
    for kind, st, bad in pmap(job, argl):
        if st:
            ck.count("histories", st[0])
            ck.count("operations", st[1])
            ck.count("distinct states of " + kind, st[2])
            ck.evaluations += st[1]
            for x in range(st[2]):
                ck.seen("%s/%d/%d" % (kind, st[0], x))
        else:
            rc, out, err, (s, h, o) = bad
            what = " ".join(out.split()[5:]) if "MISMATCH" in out else "sanitizer report or crash: " + err.strip()[-300:]
            ck.violation(kind + what[:80], {"replay.sh": "#!/bin/sh\n# built by check.py C24: rt/cont.c against libkefir.a\n%s %s %d %d %d\n" % (exe, kind, s, h, o), "out.txt": out + "\n" + err}, "%s: %s (seed %d, exit %s)" % (kind, what[:200], s, rc))
    ck.rule = ("one evaluation = one operation; distinct = distinct container states seen in one process; after every operation the container is compared in full with a reference model (array, map, queue of the same history); every removal callback must have run exactly once per removed element, refused operations must change nothing, and the allocator must hold nothing once the container is freed; the library runs under AddressSanitizer and UBSan")
    ck.finish(min_events=20000)
