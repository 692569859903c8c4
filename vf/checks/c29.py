"""C29: compiled code and the library are safe under threads and signals."""
import re
from vf.core import *
from vf import corpus, fuzzgen

CODE = ["c01", "c02", "c03", "c04", "c05", "c06", "c08", "c09", "c10", "c10", "c11"]


def gcc_o(src, out, flags=()):
    r = run(["gcc", "-O1", "-w", "-fno-pie", "-U_FORTIFY_SOURCE", "-fcf-protection=none", "-fno-stack-protector"] + list(flags) + ["-c", src, "-o", out], timeout=60)
    if r.rc:
        raise HarnessError("harness does not compile: " + r.err.decode()[:800])


def tls_items(r, n):
    out = []
    for k in range(n):
        v = ["tv%d_%d" % (k, i) for i in range(6)]
        it = r.choice(["int", "long", "unsigned", "short", "unsigned char", "long long"])
        ft = r.choice(["float", "double", "long double"])
        st = r.choice(["static ", ""])
        a, b = r.randrange(-100, 100), r.randrange(1, 100)
        N = r.choice([1, 3, 17, 260])
        dec = "%s_Thread_local %s %s = %d; static _Thread_local %s %s = %s; %s_Thread_local struct ts%d { char a[%d]; %s b; %s c; struct ts%d *p; } %s = { \"ab\", %d, 2.5 };\n" % (
            st, it, v[0], a & 127, ft, v[1], "%d.25" % b, r.choice(["static ", ""]), k, r.choice([3, 5, 8]), it, ft, k, v[2], b)
        dec += "static _Thread_local %s %s[%d]; static const char cs%d[] = \"xyz\"; static _Thread_local const char *%s = cs%d + 1; extern _Thread_local long vf_ext_tls; long vf_ext_tls_get(void);\n" % (it, v[3], N, k, v[4], k)
        loc = "static _Thread_local unsigned lc = %d; lc = lc * 5 + 1; " % r.randrange(9)
        dec += "static unsigned f%d(int d) { %sif (d > 0) { unsigned t = lc; %s[d %% %d] += (%s) d; return f%d(d - 1) + t; } return lc; }\n" % (k, loc, v[3], N, it, k)
        body = ""
        if r.random() < .5:
            body += "struct ts%d *old = %s.p; T(1, old == 0 || old == &%s); %s.p = &%s;\n" % (k, v[2], v[2], v[2], v[2])
        ops = ["T(2, (unsigned long long) %s); %s = (%s) (%s * 3 + %d); T(3, (unsigned long long) %s);" % (v[0], v[0], it, v[0], b, v[0]),
               "TL(4, %s); %s = %s / 2 + %d; TL(5, %s);" % (v[1], v[1], v[1], a, v[1]),
               "TS(6, %s.a); %s.a[0]++; if (%s.a[0] > 'y') %s.a[0] = 'a'; T(7, (unsigned long long) %s.b); %s.b ^= 5; TL(8, %s.c); %s.c += 1;" % ((v[2],) * 8),
               "T(9, f%d(%d)); TB(10, %s, sizeof %s);" % (k, r.randrange(1, 30), v[3], v[3]),
               "T(11, (unsigned long long) *%s); %s = cs%d + (%s - cs%d + 1) %% 3;" % (v[4], v[4], k, v[4], k),
               "T(12, (unsigned long long) vf_ext_tls); vf_ext_tls += %d; T(13, (unsigned long long) vf_ext_tls_get());" % b,
               "{ %s *q = &%s; *q += 2; T(14, (unsigned long long) %s); T(15, q == &%s); }" % (it, v[0], v[0], v[0]),
               "{ int i; for (i = 0; i < %d; i++) %s[i] = (%s) (%s[i] + %s + i); TB(16, %s, sizeof %s); }" % (N, v[3], it, v[3], v[0], v[3], v[3])]
        for _ in range(r.randrange(4, 14)):
            body += r.choice(ops) + "\n"
        out.append(Item(dec, body, ["tls"]))
    return out


def prog_job(bdir, wd0, idx, thorough):
    r = rng("C29", SEED, idx)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        tls = idx % 4 == 0
        if tls:
            kind, its = "tls", tls_items(r, r.choice([1, 2, 3]))
        else:
            kind, its = corpus.items(r, None, CODE)
        src = program(its)
        open(wd + "/u.c", "w", encoding="utf-8", errors="surrogateescape").write(src)
        res = {"kind": kind, "src": src, "st": "ok", "det": "", "ev": []}
        if gcc_ok(wd, res):
            return res
        k = kefir_s(bdir, "u.c", "u.s", ["-Dmain=vf_main"], cwd=wd)
        if k.rc != 0 or assemble("u.s", "u.o", wd).rc != 0 or \
           run(["gcc", "-no-pie", "-Wl,-z,noexecstack", "-o", "x", "u.o"] + [os.path.join(wd0, f) for f in ("storm.o", "handler.o")] + [os.path.join(bdir, "rt.o"), "-lpthread", "-lm"], cwd=wd, timeout=60).rc != 0:
            res["st"] = "skip"
            return res
        # mutable shared objects make concurrent runs of the unit itself racy
        shared = res.pop("shared")
        modes = []
        if tls or not shared:
            modes += [["threads", "6", "6"], ["storm", "4", "8"]]
        modes.append(["step", "1", "1", str(r.choice([1, 1, 1, 2, 3])), str(120000 if thorough else 25000)])
        if shared and not tls:
            modes.append(["storm", "1", "1"])
        if tls:
            a, b = (run([os.path.join(wd, e), "log"], cwd=wd, timeout=60) for e in ("x", "ref"))
            if b.rc != 0:
                res["st"] = "skip"
                return res
            if a.out != b.out or a.rc != b.rc:
                res["st"], res["det"] = "bad", "thread-local objects in a fresh thread: exit %s, reference %s; %s" % (a.rc, b.rc, first_diff(b.out.decode(errors="replace").split("\n"), a.out.decode(errors="replace").split("\n")))
                return res
        if run(["./x", "log"], cwd=wd, timeout=60).rc != 0:
            res["st"] = "skip"      # not this property's concern
            return res
        if shared and not tls and b"diff=0" not in run(["./x", "threads", "1", "1"], cwd=wd, timeout=60).out:
            res["st"] = "skip"      # the unit keeps state between runs of its main
            return res
        for m in modes:
            bad = []
            for attempt in range(3):
                p = run(["./x"] + m, cwd=wd, timeout=60)
                if p.timeout:
                    bad.append("timeout")
                    continue
                if p.rc == 97:
                    bad = []
                    break
                g = dict(re.findall(rb"(\w+)=(\d+)", p.out)) if b"RESULT" in p.out else None
                if g is None:
                    bad.append("mode %s: the program ends with status %s" % (m[0], p.rc))
                elif int(g[b"diff"]) or int(g[b"wrong"]):
                    bad.append("mode %s: %s" % (m[0], p.out.decode().strip()))
                else:
                    res["ev"].append((m[0], {k.decode(): int(v) for k, v in g.items()}))
                    break
            bad = [b for b in bad if b != "timeout"]
            if bad:
                # any single disturbance of a deterministic computation is a violation
                res["st"], res["det"] = "bad", bad[0]
                return res
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def gcc_ok(wd, res):
    """reference build; notes whether the unit has mutable shared objects; True = stop"""
    if run(["gcc"] + REF_FLAGS + ["-Dmain=vf_main", "-c", "u.c", "-o", "r.o"], cwd=wd, timeout=60).rc != 0 or \
       run(["gcc", "-no-pie", "-o", "ref", "r.o", os.path.join(WD0, "storm.o"), os.path.join(WD0, "handler-ref.o"), "-lpthread", "-lm"], cwd=wd, timeout=60).rc != 0:
        res["st"] = "skip"
        return True
    o = run(["size", "-A", "r.o"], cwd=wd).out.decode()
    res["shared"] = any(int(m.group(2)) for m in re.finditer(r"^(\.data\S*|\.bss\S*)\s+(\d+)", o, re.M)) or b" C " in run(["nm", "r.o"], cwd=wd).out
    return False


WD0 = None


def tsan_job(drv, idx, n, nthr):
    r = rng("C29lib", SEED, idx)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        jobs, acc = [], []
        os.makedirs(wd + "/inc")
        for h in range(3):
            open(wd + "/inc/h%d.h" % h, "w").write("#ifndef H%d\n#define H%d\n#define M%d(x) ((x) + __LINE__)\nstruct sh%d { int a; long b : %d; };\n#endif\n" % (h, h, h, h, h + 3))
        for k in range(n):
            if r.random() < .6:
                kind, t = corpus.unit(r, r.choice([1, 2]))
                mode, feats = r.choice("aaaistp"), 0
                if r.random() < .5:
                    t = corpus.macroize(r, t)
                t = "#include \"h%d.h\"\n" % r.randrange(3) + t
            else:
                kind, t, mode, feats = fuzzgen.gen(r)
            data = t if isinstance(t, bytes) else t.encode("utf-8", "replace")
            open("%s/%d.c" % (wd, k), "wb").write(data[:6000])
            jobs.append("%d %s %d %s/%d.c %s/inc\n" % (k, mode, feats, wd, k, wd))
        p = run([drv, "threads", str(nthr)], stdin="".join(jobs).encode(), timeout=300, mem=None, env={"TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_signal_unsafe=0"})
        err = p.err.decode(errors="replace")
        files = {}
        st, det = "ok", ""
        diff = re.findall(r"DIFF thread=\d+ unit=(\d+)", p.out.decode(errors="replace"))
        if "WARNING: ThreadSanitizer" in err:
            st, det = "bad", "data race between compilations in separate contexts: " + err[err.index("WARNING: ThreadSanitizer"):][:900]
        elif diff:
            st, det = "bad", "a compilation running concurrently with others gives a different result (units %s)" % ", ".join(sorted(set(diff))[:8])
            files = {"%s.c" % d: open("%s/%s.c" % (wd, d), "rb").read() for d in sorted(set(diff))[:4]}
        elif b"DONE" not in p.out:
            # a compilation that crashes alone is C17's concern
            alone = run([drv, "threads", "1"], stdin="".join(jobs).encode(), timeout=300, mem=None)
            st = "skip" if p.timeout or b"DONE" not in alone.out else "bad"
            det = "concurrent compilations end with status %s, alone they succeed: %s" % (p.rc, err[-500:])
        return {"st": st, "det": det, "files": dict(files, **{"report.txt": err[:20000]}), "n": n * nthr, "key": "".join(jobs)}
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    global WD0
    ck = Check("C29")
    ck.rule = ("one evaluation = one unit run under one disturbance (6 concurrent threads with injected yields; 4 threads under a timer-signal storm; a signal at every instruction by single-stepping), or one compilation in one of 6 concurrent threads under ThreadSanitizer; "
               "distinct by unit; a disturbed run must report the events of the undisturbed one and every handler's own result must be right")
    ck.assumptions = ["a unit with mutable shared objects is run concurrently only with signals, not with other threads running the same unit"]
    bdir = build("plain")
    WD0 = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        gcc_o(os.path.join(VERIF, "rt/storm.c"), WD0 + "/storm.o", ["-pthread"])
        gcc_o(os.path.join(VERIF, "rt/handler.c"), WD0 + "/handler-ref.o")
        h = kefir_s(bdir, os.path.join(VERIF, "rt/handler.c"), WD0 + "/handler.s")
        if h.rc != 0 or assemble(WD0 + "/handler.s", WD0 + "/handler.o").rc != 0:
            raise HarnessError("the signal handler does not compile: " + h.err.decode(errors="replace")[:500])
        thorough = scale(0, 1) == 1
        for r in pmap(prog_job, [(bdir, WD0, i, thorough) for i in range(scale(110, 4000))]):
            if r["st"] == "skip":
                ck.inconclusive += 1
                continue
            ck.count("units:" + r["kind"])
            ck.seen(r["src"])
            for m, g in r["ev"]:
                ck.evaluations += g["runs"]
                ck.count("runs:" + m, g["runs"])
                ck.count("signals:" + m, g["delivered"])
                ck.count("nested_signals", g["nested"])
                ck.count("events_compared", g["events"] * g["runs"])
            if r["st"] == "bad":
                ck.evaluations += 1
                ck.violation(r["src"], {"u.c": r["src"]}, r["det"])
            elif ck.evaluations % 50 < 8:
                ck.sample(r["src"][:800])
    finally:
        shutil.rmtree(WD0, ignore_errors=True)
    tdir = build("tsan")
    drv = driver(tdir, "tsan")
    for r in pmap(tsan_job, [(drv, i, 16, 6) for i in range(scale(8, 400))]):
        if r["st"] == "skip":
            ck.inconclusive += 1
            continue
        ck.evaluations += r["n"]
        ck.seen(r["key"])
        ck.count("concurrent_compilations", r["n"])
        if r["st"] == "bad":
            ck.violation(r["det"][:200], r["files"], r["det"])
    ck.finish(300)
