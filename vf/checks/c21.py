"""C21: the output is a function of input and options only."""
import re
from vf.core import *
from vf import fuzzgen, corpus, badgen
from vf.checks.c19 import hist

MODES = [[], [], [], ["-p"], ["--dump-tokens"], ["--dump-ast"], ["--dump-ir"], ["--dump-asm"], ["--dump-runtime-code"]]
MS = {"MSAN_OPTIONS": "abort_on_error=0:exitcode=77:print_stats=0:symbolize=1"}


def pick(r):
    k = r.random()
    feats = []
    if k < 0.62:
        m, t = corpus.unit(r, r.choice([1, 1, 2, 4]))
        if r.random() < .3:
            t = corpus.macroize(r, t)
        return "valid:" + m, t, feats
    if k < 0.75:
        from vf.checks import c20
        kind, where, tpl = r.choice(badgen.T)
        return "violating", c20.make(r, kind, where, tpl, r.randrange(1000))[0], feats
    kind, t, _, _ = fuzzgen.gen(r)
    return kind, t, feats


def perturb(r, bdir, casan, wd, opts, src, base):
    """one differently arranged run of the same request -> (name, status, stdout-or-file bytes, stderr)"""
    kef = os.path.join(bdir, "kefir")
    out = os.path.join(wd, "o.%d" % r.randrange(1 << 30))
    k = r.randrange(11)
    env, cwd, cmd, inp, name = {}, wd, [kef] + opts + ["--source-id", "unit.c", "-o", out, src], None, ""
    if k == 0:
        name = "repeated run"
    elif k == 1:
        name, cmd = "fixed address space", ["setarch", "x86_64", "-R"] + cmd
    elif k == 2:
        name, env = "heap contents", {"MALLOC_PERTURB_": str(r.randrange(1, 256)), "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}
    elif k == 3:
        name, env = "environment size", {"VF_NOISE_%d" % i: "x" * r.randrange(4000) for i in range(r.randrange(1, 9))}
    elif k == 4:
        l = r.choice(["C", "POSIX", "C.UTF-8", "en_US.UTF-8", "de_DE", "nonexistent"])
        name, env = "locale", {"LC_ALL": l, "LANG": l, "LANGUAGE": "de"}
        if any(b > 126 for b in base["data"]) or re.search(rb"\\[uUx0-7]", base["data"]):
            env = {"LC_ALL": "C.UTF-8", "LANGUAGE": "fr"}
    elif k == 5:
        name, cwd = "working directory", os.path.join(wd, "sub")
        os.makedirs(cwd, exist_ok=True)
    elif k == 6:
        name, inp, cmd = "standard input", base["data"], [kef] + opts + ["--source-id", "unit.c", "-o", out]
    elif k == 7:
        name, cmd, out = "standard output", [kef] + opts + ["--source-id", "unit.c", src], None
    elif k == 8:
        with open(out, "wb") as fh:
            fh.write(b"stale " * 40000)
        name = "existing output file"
    elif k == 9:
        name, cmd = "compiler built by clang with sanitizers", [os.path.join(casan, "kefir")] + cmd[1:]
        env = {"ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=100000:malloc_fill_byte=%d" % r.randrange(1, 255)}
    else:
        name, env = "time zone and variables", {"TZ": r.choice(["UTC", "Asia/Tokyo", "XXX+5"]), "HOME": "/nonexistent", "TMPDIR": "/nonexistent", "C_INCLUDE_PATH": wd, "CPATH": wd, "KEFIR": "x", "TERM": "vt100", "COLUMNS": "20"}
    if k != 4:
        env.setdefault("LC_ALL", "C.UTF-8")
    rr = run(cmd, cwd=cwd, timeout=60, stdin=inp, env=env, mem=None if k == 9 else 4 << 30)
    data = rr.out
    if out:
        data = open(out, "rb").read() if os.path.exists(out) else b""
        os.path.exists(out) and os.unlink(out)
    if name.startswith("standard input"):
        rr.err = rr.err.replace(b"<stdin>", base["src"].encode())
    return name, rr, data


def job(bdir, casan, seed, idx):
    r = rng(seed, idx)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    out = {"n": 0, "bad": [], "pert": {}, "modes": {}, "hash": [], "ok": 0, "rej": 0}
    try:
        kind, text, feats = pick(r)
        data = text.encode("latin-1", "replace")
        if b"__TIME__" in data or b"__DATE__" in data or b"__FILE__" in data or b"#include" in data:
            return out
        src = os.path.join(wd, "unit.c")
        with open(src, "wb") as fh:
            fh.write(data)
        opts = r.choice(MODES) + r.choice([[], [], ["--json-errors"]]) + r.choice([[], [], ["--detailed-output"]]) + ["--feature-" + f for f in ("signed-enums", "empty-structs", "labels-as-values", "statement-expressions", "missing-braces-subobj") if r.random() < 0.15]
        o = os.path.join(wd, "base")
        b = run([os.path.join(bdir, "kefir")] + opts + ["--source-id", "unit.c", "-o", o, src], cwd=wd, timeout=20, env={"LC_ALL": "C.UTF-8"})
        if b.timeout or b.rc not in (0, 1):
            return out
        want = open(o, "rb").read() if os.path.exists(o) else b""
        out["ok" if b.rc == 0 else "rej"] += 1
        base = {"data": data, "src": src}
        for _ in range(6):
            name, rr, got = perturb(r, bdir, casan, wd, opts, src, base)
            out["n"] += 1
            out["pert"][name] = out["pert"].get(name, 0) + 1
            m = (opts[0] if opts and opts[0] in sum(MODES, []) else "code")
            out["modes"][m] = out["modes"].get(m, 0) + 1
            out["hash"].append(hashlib.sha256(data + " ".join(opts).encode() + name.encode()).digest()[:12])
            why = None
            if rr.rc != b.rc:
                why = "status %s instead of %s" % (rr.rc, b.rc)
            elif b.rc == 0 and got != want:
                why = "output of %d bytes differs from that of the first run (%d bytes)" % (len(got), len(want))
            elif b.rc == 1 and rr.err != b.err and name != "compiler built by clang with sanitizers":
                why = "diagnostics differ"
            if why:
                out["bad"].append((name, why, {"case.c": data, "cmd.txt": " ".join(opts), "want": want[:200000], "got": got[:200000], "err.txt": b.err + b"\n=====\n" + rr.err}))
                break
        return out
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def msan_job(drv, seed, idx, n):
    r = rng(seed, idx)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    out = {"n": 0, "bad": [], "hash": [], "allocs": 0}
    try:
        jobs, cases = [], {}
        for k in range(n):
            kind, text, _ = pick(r)
            mode = r.choice("ssssiatp")
            feats = r.choice([0, 0, 0x1ffe, r.randrange(1 << 13)]) | (r.randrange(2) << 14)
            p = "%s/%d.c" % (wd, k)
            data = text.encode("latin-1", "replace")
            with open(p, "wb") as fh:
                fh.write(data)
            jobs.append((str(k), mode, feats, p))
            cases[str(k)] = (kind, data, mode, feats)
        while jobs:
            rr, res, _ = hist(drv, jobs, 2, env=MS)
            done = [j for j in jobs if j[0] in res]
            out["n"] += len(done)
            out["allocs"] += sum(res[j[0]][1] for j in done)
            out["hash"] += [hashlib.sha256(cases[j[0]][1] + b"msan" + j[1].encode()).digest()[:12] for j in done]
            rest = [j for j in jobs if j[0] not in res]
            if not rest:
                break
            err = rr.err.decode(errors="replace")
            if "MemorySanitizer" in err and "use-of-uninitialized" in err:
                fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+)", err) if not f.startswith(("__", "m_", "hash_bytes"))] or ["?"]
                kind, data, mode, feats = cases[rest[0][0]]
                out["bad"].append(("uninitialised read in " + fr[0], "a decision depends on uninitialised memory (mode %s, features %d)" % (mode, feats), {"case.c": data, "how.txt": "mode=%s feats=%d" % (mode, feats), "report.txt": err[:20000]}))
            jobs = rest[1:]
        return out
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    ck = Check("C21")
    bdir, casan, ms = build("plain"), build("casan"), build("msan")
    drv = driver(ms, "msan")
    seen = set()

    def bad(o):
        for what, why, files in o["bad"]:
            if what in seen:
                continue
            seen.add(what)
            ck.violation(what, files, "%s: %s" % (what, why))
    for o in pmap(job, [(bdir, casan, ("C21", SEED), i) for i in range(scale(420, 12000))]):
        ck.evaluations += o["n"]
        ck.count("inputs accepted", o["ok"])
        ck.count("inputs rejected", o["rej"])
        for k, v in o["pert"].items():
            ck.count("perturbation: " + k, v)
        for k, v in o["modes"].items():
            ck.count("artefact: " + k, v)
        ck.distinct.update(o["hash"])
        bad(o)
    for o in pmap(msan_job, [(drv, ("C21m", SEED), i, 20) for i in range(scale(40, 3000))]):
        ck.evaluations += o["n"]
        ck.count("compilations under MemorySanitizer", o["n"])
        ck.count("allocations watched by MemorySanitizer", o["allocs"])
        ck.distinct.update(o["hash"])
        bad(o)
    ck.rule = "one evaluation = one run of the compiler in a perturbed environment whose status, output bytes and diagnostics must equal those of the first run, or one in-process compilation under MemorySanitizer, which decides whether any branch or output depends on uninitialised memory; distinct by input, options and perturbation"
    ck.assumptions = ["__DATE__, __TIME__ and __FILE__ name the environment and are left out", "input outside ASCII is decoded in the locale's character encoding, which is an input"]
    ck.finish(min_events=500)
