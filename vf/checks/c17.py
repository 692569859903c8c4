"""C17: whatever the input, the compiler ends with success or a diagnosed failure, without memory errors, undefined behaviour or hangs."""
import re
from vf.core import *
from vf import fuzzgen

ENVS = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=1:symbolize=1:hard_rss_limit_mb=3500", "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=1"}


def site(err):
    """(kind, first frame inside kefir) of a sanitizer report"""
    kind = "no report"
    m = re.search(r"runtime error: (.*)", err)
    if m:
        kind = "undefined behaviour: " + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m and kind == "no report":
        kind = m.group(1)
    m = re.search(r"LEDGER: (.*)", err)
    if m:
        kind = m.group(1)
    fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+)", err) if not f.startswith(("__", "m_malloc", "m_free", "m_realloc", "led_"))]
    fr = [f for f in fr if f not in ("abort", "raise", "gsignal", "malloc", "free", "realloc", "memcpy", "strlen")] or ["?"]
    return kind, fr[0]


def run_batch(drv, wd, jobs, secs=10):
    """jobs: [(id, mode, feats, path)] -> {id: (status, ms)}"""
    inp = "".join("%s %s %d %s %s\n" % (i, m, f, p, "-") for i, m, f, p in jobs).encode()
    r = run([drv, "fuzz", wd, str(secs)], stdin=inp, timeout=600, env=ENVS, mem=None)
    res = {}
    for ln in r.out.decode().split("\n"):
        p = ln.split()
        if len(p) == 3:
            res[p[0]] = (int(p[1]), int(p[2]))
    return res


def job(drv, seed, idx, n):
    r = rng(seed, idx)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        cases, jobs = [], []
        for k in range(n):
            kind, text, mode, feats = fuzzgen.gen(r)
            p = "%s/%d.c" % (wd, k)
            data = text.encode("latin-1", "replace") if r.random() < 0.5 else text.encode("utf-8", "replace")
            with open(p, "wb") as fh:
                fh.write(data)
            cases.append((kind, data, mode, feats))
            jobs.append((str(k), mode, feats, p))
        res = run_batch(drv, wd, jobs)
        out = {"n": n, "bad": [], "kinds": {}, "acc": 0, "rej": 0, "ms": 0, "hash": [], "modes": {}}
        for k, (kind, data, mode, feats) in enumerate(cases):
            st, ms = res.get(str(k), (None, 0))
            out["hash"].append(hashlib.sha256(data + mode.encode()).digest()[:12])
            out["kinds"][kind] = out["kinds"].get(kind, 0) + 1
            out["modes"][mode] = out["modes"].get(mode, 0) + 1
            out["ms"] = max(out["ms"], ms)
            if st == 0:
                out["acc"] += 1
            elif st == 1:
                out["rej"] += 1
            else:
                # reproduce before alarming; a hang must persist with more time
                again = run_batch(drv, wd, [(str(k), mode, feats, "%s/%d.c" % (wd, k))], 40 if st in (-24, -14, -9) else 10).get(str(k), (None, 0))[0]
                if again in (0, 1):
                    continue
                err = open("%s/%d.err" % (wd, k), errors="replace").read() if os.path.exists("%s/%d.err" % (wd, k)) else ""
                out["bad"].append((kind, data, mode, feats, again, err[-200000:], site(err)))
        return out
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def cli_job(bdir, seed, idx):
    """the command-line program itself, with random option sets"""
    r = rng(seed, idx)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        kind, text, mode, feats = fuzzgen.gen(r)
        data = text.encode("latin-1", "replace")
        open(wd + "/in.c", "wb").write(data)
        opts = r.choice([[], ["-p"], ["--dump-tokens"], ["--dump-ast"], ["--dump-ir"], ["--dump-asm"]]) + r.choice([[], ["--json-errors"], ["--tabular-errors"]]) + r.choice([[], ["-P"]])
        opts += r.choice([[], ["-D", r.choice(["A", "A=1", "A=", "=", "A=(", "A='", "A=\"", "A=1 2 #", "1", "F(x)=x"])], ["-I", r.choice(["/nonexistent", ".", ""])], ["--include", r.choice(["in.c", "nofile"])]])
        opts += r.choice([[], ["--detailed-output"]]) + r.choice([[], ["--source-id", "x\"y\\z\n"], ["--source-id", "y" * r.choice([200, 240, 250, 300, 3000])]]) + ["--feature-" + f for f in ("signed-enums", "empty-structs", "labels-as-values", "statement-expressions") if r.random() < 0.3]
        use_stdin = r.random() < 0.3
        rr = run([bdir + "/kefir"] + opts + ([] if use_stdin else ["in.c"]), cwd=wd, timeout=60, stdin=data if use_stdin else None, env=ENVS, mem=None)
        err = rr.err.decode("utf-8", "replace")
        bad = None
        if rr.timeout or rr.rc not in (0, 1) or (rr.rc == 1 and not err.strip()):
            bad = (kind + " " + " ".join(opts), data, mode, feats, rr.rc, err, site(err))
        return {"bad": bad, "rc": rr.rc}
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    ck = Check("C17")
    ck.rule = ("one evaluation = one hostile input compiled in one mode with one feature set under AddressSanitizer and UBSan with a poisoning ledger allocator; "
               "distinct by input bytes and mode; the sanitizers, the allocator ledger, the exit status and a CPU-time watchdog decide")
    ck.assumptions = ["inputs nested deeper than 120 levels are outside the explored space (recursive descent needs stack in proportion)"]
    bdir = build("asan")
    drv = driver(bdir, "asan")
    known = {(k["site_kind"], k["site_frame"]): k for k in ck.known if "site_kind" in k}
    seen = set()

    def bad(b):
        kind, data, mode, feats, st, err, (sk, sf) = b
        for (a, f), k in known.items():
            if re.fullmatch(a, sk) and re.fullmatch(f, sf):
                k["seen"] = True
                ck.count("known:" + k["id"])
                return
        if (sk, sf) in seen:
            return
        seen.add((sk, sf))
        ck.violation(data.decode("latin-1") + mode + str(feats), {"case.c": data, "report.txt": err, "how.txt": "mode=%s feats=%d\n" % (mode, feats)},
                     "status=%s %s in %s (input kind %s, mode %s, features %d)\n%s" % (st, sk, sf, kind, mode, feats, err[:600]))
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    for k in ck.known:
        # the recorded inputs themselves
        p = os.path.join(VERIF, k["file"])
        st = run_batch(drv, wd, [("k", k.get("mode", "s"), k.get("feats", 0), p)]).get("k", (None, 0))[0]
        if st not in (0, 1):
            err = open(wd + "/k.err", errors="replace").read() if os.path.exists(wd + "/k.err") else ""
            bad(("known input " + k["id"], open(p, "rb").read(), k.get("mode", "s"), k.get("feats", 0), st, err, site(err)))
    shutil.rmtree(wd, ignore_errors=True)
    per = 40
    for r in pmap(job, [(drv, ("C17", SEED), i, per) for i in range(scale(170, 12000))]):
        ck.evaluations += r["n"]
        ck.count("accepted", r["acc"]); ck.count("rejected", r["rej"])
        for k, n in r["kinds"].items():
            ck.count("kind:" + k.split()[0], n)
        for k, n in r["modes"].items():
            ck.count("mode:" + k, n)
        ck.counters["slowest_ms"] = max(ck.counters.get("slowest_ms", 0), r["ms"])
        ck.distinct.update(r["hash"])
        for b in r["bad"]:
            bad(b)
    for r in pmap(cli_job, [(bdir, ("C17cli", SEED), i) for i in range(scale(500, 6000))]):
        ck.evaluations += 1
        ck.count("cli_status_%s" % r["rc"])
        if r["bad"]:
            bad(r["bad"])
    ck.finish(1000)
