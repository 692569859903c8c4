"""C19: every block is returned exactly once, and a compilation does not depend on those before it."""
import re
from vf.core import *
from vf import fuzzgen, corpus, badgen

ENVS = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=1:hard_rss_limit_mb=3500", "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=1"}
LSAN = dict(ENVS, ASAN_OPTIONS=ENVS["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1"))


def hist(drv, jobs, trace=0, env=ENVS, timeout=300):
    inp = "".join("%s %s %d %s -\n" % j for j in jobs).encode()
    r = run([drv, "hist", str(trace)], stdin=inp, timeout=timeout, env=env, mem=None)
    res, leaks, last = {}, {}, None
    for ln in r.out.decode(errors="replace").split("\n"):
        p = ln.split()
        if ln.startswith("LEAK "):
            leaks.setdefault(last, []).append(p[3:])
        elif len(p) == 6:
            last = p[0]
            res[p[0]] = (int(p[1]), int(p[2]), int(p[3]), p[4])
    return r, res, leaks


def pick(r):
    """-> (kind, text, mode, feats)"""
    k = r.random()
    feats = r.choice([0, 0, 0x1ffe, r.randrange(1 << 13)]) | (r.randrange(2) << 14)
    if k < 0.30:
        m, t = corpus.unit(r, 1)
        return "valid:" + m, t, r.choice("ssssiatp"), feats
    if k < 0.42:
        from vf.checks import c20
        kind, where, tpl = r.choice(badgen.T)
        return "violating", c20.make(r, kind, where, tpl, r.randrange(1000))[0], r.choice("ssai"), 0
    return fuzzgen.gen(r)


def site(bt):
    fr = [f for f in bt if f.startswith("kefir") or not f.startswith(("m_", "led_", "backtrace"))]
    return " ".join(fr[:5])


def job(drv, plain, seed, idx, n):
    r = rng(seed, idx)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        cases, jobs = {}, []
        for k in range(n):
            kind, text, mode, feats = pick(r)
            p = "%s/%d.c" % (wd, k)
            data = text.encode("latin-1", "replace")
            with open(p, "wb") as fh:
                fh.write(data)
            cases[str(k)] = (kind, data, mode, feats)
            jobs.append((str(k), mode, feats, p))
        # every unit alone first: units that crash or do not end are the business of C17
        alone = {}
        for j in jobs:
            rr, res, _ = hist(plain, [j], timeout=10)
            if j[0] in res and rr.rc == 0:
                alone[j[0]] = res[j[0]]
        seq = [j for j in jobs if j[0] in alone]
        # a history: random order, with repetitions under new names
        order = r.sample(seq, len(seq))
        rep = [(j[0] + "r", j[1], j[2], j[3]) for j in r.sample(seq, len(seq) // 3)]
        order += rep
        out = {"n": 0, "acc": 0, "rej": 0, "allocs": 0, "bad": [], "kinds": {}, "hash": [], "pairs": []}
        rr, res, leaks = hist(drv, order, 1, env=LSAN)
        prev = None
        for i, j in enumerate(order):
            k = j[0].rstrip("r")
            kind, data, mode, feats = cases[k]
            if j[0] not in res:
                err = rr.err.decode(errors="replace")
                out["bad"].append(("history", "the history ends at %s after %d units (status %s)" % (kind, i, rr.rc), data, mode, feats, err[:3000], [cases[x[0].rstrip("r")][1] for x in order[:i]]))
                break
            st, cnt, live, h = res[j[0]]
            out["n"] += 1
            out["acc" if st == 0 else "rej"] += 1
            out["allocs"] += cnt
            out["kinds"][kind.split(":")[0]] = out["kinds"].get(kind.split(":")[0], 0) + 1
            out["hash"].append(hashlib.sha256(data + mode.encode()).digest()[:12])
            out["pairs"].append((cases[prev][0] if prev else "", kind))
            prev = k
            if live:
                s = site((leaks.get(j[0]) or [[]])[0])
                out["bad"].append(("leak " + s, "%d blocks never released" % live, data, mode, feats, "\n".join(" ".join(x) for x in leaks.get(j[0], [])), []))
            if (st, h) != (alone[k][0], alone[k][3]):
                out["bad"].append(("influence", "result %s/%s in a history, %s/%s alone" % (st, h, alone[k][0], alone[k][3]), data, mode, feats, kind, [cases[x[0].rstrip("r")][1] for x in order[:i]]))
        else:
            if rr.rc != 0:
                err = rr.err.decode(errors="replace")
                m = re.search(r"LeakSanitizer", err)
                out["bad"].append(("process", "leak outside of the allocator interface" if m else "status %s at the end" % rr.rc, b"", "s", 0, err[:3000], [cases[x[0].rstrip("r")][1] for x in order]))
        return out
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    ck = Check("C19")
    bdir, pb = build("asan"), build("plain")
    drv, plain = driver(bdir, "asan"), driver(pb, "plain")
    known = [k for k in ck.known]
    seen = set()
    for k in known:
        p = os.path.join(VERIF, k["file"])
        rr, res, leaks = hist(drv, [("k", k.get("mode", "s"), k.get("feats", 0), p)], 1)
        if "k" not in res or res["k"][2]:
            k["seen"] = True
    pairs = set()
    for o in pmap(job, [(drv, plain, ("C19", SEED), i, 24) for i in range(scale(64, 4000))]):
        ck.evaluations += o["n"]
        ck.count("accepted", o["acc"])
        ck.count("rejected", o["rej"])
        ck.count("blocks tracked", o["allocs"])
        for k, v in o["kinds"].items():
            ck.count("kind:" + k, v)
        ck.distinct.update(o["hash"])
        pairs.update(o["pairs"])
        for what, why, data, mode, feats, err, before in o["bad"]:
            hit = [k for k in known if re.search(k["site"], what)]
            if hit:
                hit[0]["seen"] = True
                ck.count("known:" + hit[0]["id"])
                continue
            if what in seen:
                continue
            seen.add(what)
            files = {"case.c": data, "how.txt": "mode=%s feats=%d\n" % (mode, feats), "report.txt": err}
            for i, b in enumerate(before[-40:]):
                files["before%d.c" % i] = b
            ck.violation(what + mode, files, "%s: %s (mode %s, features %d)\n%s" % (what, why, mode, feats, err[:500]))
    ck.counters["distinct successor pairs of unit kinds"] = len(pairs)
    ck.rule = "one evaluation = one compilation inside a history of accepted and rejected compilations in one process; a ledger behind the library's allocator interface requires exactly one release per block (LeakSanitizer covers the rest of the process), and status, output and diagnostics must equal those of the same unit compiled alone in a fresh process"
    ck.finish(min_events=500)
