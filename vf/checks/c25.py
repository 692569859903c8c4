"""C25: kefir compiles itself to an equivalent compiler."""
from vf.core import *
from vf import corpus, fuzzgen

GCCINC = None


def incs():
    out = ["-D__x86_64__", "-I", "headers", "-I", os.path.join(VERIF, "rt/selfinc"), "-I", "/usr/include", "-I", "/usr/include/x86_64-linux-gnu"]
    r = run(["gcc", "-print-file-name=include"])
    return out + ["-I", r.out.decode().strip()]


def comp_job(K, opts, src, out):
    """one module -> assembly and object"""
    p = run([K] + opts + ["-o", out + ".s", src], cwd=REPO, timeout=120)
    if p.rc is None or p.rc in (-9, -24):
        return src, "slow", ""
    if p.rc:
        return src, "rejected", p.err.decode(errors="replace")[-600:]
    if assemble(out + ".s", out + ".o").rc:
        return src, "bad assembly", ""
    return src, "ok", ""


def size_job(K, opts, src):
    return src, len(run([K] + opts + ["-p", src], cwd=REPO, timeout=60).out or b"")


def link_job(bdir, wd, name, mods, total, ss):
    """a compiler whose modules in mods are the self-compiled ones"""
    objs = []
    for c in total:
        objs.append(os.path.join(wd, c.replace("/", "_") + ".o") if c in mods else os.path.join(bdir, "o", c.replace("/", "_") + ".o"))
    objs += [os.path.join(bdir, "o", s.replace("/", "_") + ".o") for s in ss] + [os.path.join(bdir, "rt.o")]
    r = run(["gcc", "-no-pie", "-Wl,-z,noexecstack", "-o", os.path.join(wd, name)] + objs + ["-lm", "-lpthread"], timeout=120)
    return name, r.rc, r.err.decode(errors="replace")[-800:]


MODES = [["--dump-asm"], ["--dump-asm"], ["--dump-asm"], ["--dump-ir"], ["--dump-ast"], ["--dump-ast", "--detailed-output"], ["--dump-tokens"], ["-p"]]


def input_job(bdir, wd, names, seed, idx):
    """one input through the reference and some of the self-compiled compilers"""
    r = rng("C25", seed, idx)
    d = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        if r.random() < .6:
            k, src = corpus.unit(r, r.choice([1, 2]))
            if r.random() < .3:
                src = corpus.macroize(r, src)
        else:
            k, src = fuzzgen.gen(r)[:2]
            k = "fuzz"
        data = src if isinstance(src, bytes) else src.encode("utf-8", "surrogateescape")
        data = data[:12000]
        open(d + "/k.c", "wb").write(data)
        opts = r.choice(MODES) + r.choice([[], [], ["--json-errors"], ["--feature-statement-expressions", "--feature-labels-as-values"]])

        def go(K):
            p = run([K] + opts + ["k.c"], cwd=d, timeout=120, stack=512 << 20)
            return p.rc, p.out, p.err
        ref = go(os.path.join(bdir, "kefir"))
        if ref[0] not in (0, 1):
            return "skip", k, opts, data, "", 0
        for n in names:
            got = go(os.path.join(wd, n))
            if got != ref:
                # a time-out of the slower compiler decides nothing
                if got[0] not in (0, 1) and got[0] in (-9, -24, 124, None):
                    return "skip", k, opts, data, "", 0
                w = "status %s / %s" % (ref[0], got[0])
                if got[0] == ref[0]:
                    a, b = (ref[1], got[1]) if ref[1] != got[1] else (ref[2], got[2])
                    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    w = "%r / %r" % (a[max(0, i - 60):i + 80], b[max(0, i - 60):i + 80])
                return "bad", k, opts, data, "%s differs: %s" % (n, w), len(ref[1])
        return "ok", k, opts, data, "", ref[0] == 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ck = Check("C25")
    ck.rule = "one evaluation = one input (program or arbitrary text, random mode) through the reference and self-compiled compilers, or one module compiled by both; distinct by input"
    ck.assumptions = ["modules that kefir rejects (up to three) are taken from the system compiler; system headers are glibc's with stddef.h and stdarg.h of rt/selfinc"]
    bdir = build("plain")
    cs, ss = repo_sources()
    opts = incs()
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        good, rej = [], []
        for src, st, det in pmap(comp_job, [(os.path.join(bdir, "kefir"), opts, c, os.path.join(wd, c.replace("/", "_"))) for c in cs]):
            if st == "ok":
                good.append(src)
                ck.count("modules")
            else:
                rej.append((src, st, det))
        for src, st, det in rej:
            print("not self-compiled: %s (%s) %s" % (src, st, det))
        if len(rej) > 3:
            ck.violation("rejected modules", {"modules.txt": "\n".join("%s %s\n%s" % x for x in rej)}, "kefir does not compile %d of its modules, e.g. %s: %s %s" % (len(rej), *rej[0]))
            ck.evaluations = len(cs)
            ck.finish(1)
        ck.count("rejected_modules", len(rej))
        good.sort()
        r = rng("C25mix", SEED)
        n = scale(6, 40)
        mixes = {"full": set(good)}
        dirs = sorted({os.path.dirname(c) for c in good})
        for i in range(n):
            if i % 2:
                mixes["mix%d" % i] = set(r.sample(good, len(good) // 3))
            else:
                ds = set(r.sample(dirs, max(1, len(dirs) // 3)))
                mixes["mix%d" % i] = {c for c in good if os.path.dirname(c) in ds}
        for name, rc, err in pmap(link_job, [(bdir, wd, nm, m, cs, ss) for nm, m in mixes.items()]):
            ck.count("compilers")
            if rc:
                ck.violation("link " + name, {"link.txt": err}, "a compiler with self-compiled modules does not link: " + err)
        if ck.violations:
            ck.evaluations = 1
            ck.finish(1)
        # inputs
        names = sorted(mixes)
        jobs = []
        for i in range(scale(120, 5000)):
            jobs.append((bdir, wd, ["full"] if i % 3 == 0 else [names[i % len(names)]], SEED, i))
        for st, k, o, data, det, acc in pmap(input_job, jobs):
            if st == "skip":
                ck.inconclusive += 1
                continue
            ck.evaluations += 1
            ck.seen(data + repr(o).encode())
            ck.count("input:" + k)
            ck.count("mode:" + o[0])
            if acc:
                ck.count("accepted")
            if st == "bad":
                ck.violation(repr(o) + repr(data)[:3000], {"k.c": data}, "%s %s" % (" ".join(o), det))
            else:
                ck.sample(data.decode("utf-8", "replace")[:800])
        # second stage
        sz = {c: z for c, z in pmap(size_job, [(os.path.join(bdir, "kefir"), opts, c) for c in good])}
        pool = sorted(good, key=lambda c: (sz[c], c))[:scale(len(good) * 2 // 3, len(good))]
        sel = r.sample(pool, min(len(pool), scale(16, len(pool))))
        os.makedirs(wd + "/2")
        for src, st, det in pmap(comp_job, [(wd + "/full", opts, c, os.path.join(wd, "2", c.replace("/", "_"))) for c in sel]):
            f = src.replace("/", "_") + ".s"
            if st == "slow":
                ck.inconclusive += 1
                continue
            ck.evaluations += 1
            ck.seen(src)
            ck.count("second_stage")
            if st != "ok":
                ck.violation("stage2 " + src, {"error.txt": det}, "the self-compiled compiler fails on %s (%s): %s" % (src, st, det))
            elif open(os.path.join(wd, f), "rb").read() != open(os.path.join(wd, "2", f), "rb").read():
                ck.violation("stage2 " + src, {"stage1.s": open(os.path.join(wd, f), "rb").read(), "stage2.s": open(os.path.join(wd, "2", f), "rb").read()}, "the self-compiled compiler translates %s differently" % src)
    finally:
        if os.environ.get("VF_KEEP"):
            print("kept", wd)
        else:
            shutil.rmtree(wd, ignore_errors=True)
    ck.finish(60)
