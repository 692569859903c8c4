"""C16: staged processing equals direct compilation; the token stream reported is the one compiled."""
import hashlib
from vf.core import *
from vf import lex, ppmon, corpus
from vf.checks import c13, c14, c15

ENV = dict(os.environ, LC_ALL="C.UTF-8")


def kf(bdir, wd, opts, name):
    return run([os.path.join(bdir, "kefir"), "--pp-timestamp", "1234567890"] + list(opts) + [name], cwd=wd, timeout=60, env=ENV)


def toks(r):
    if r.rc != 0:
        return None
    try:
        return lex.dump_tokens(r.out)
    except Exception:
        return None


def judge_staged(bdir, wd, opts, asm):
    """-> (verdict, detail, tokens, asm_lines); verdict in ok/rejected/bad"""
    d = kf(bdir, wd, list(opts) + ["--dump-tokens"], "in.c")
    if d.rc != 0:
        return "rejected", d.err.decode("utf-8", "replace")[-400:], 0, 0
    t0 = toks(d)
    if t0 is None:
        return "bad", "the token dump of the unit is unreadable", 0, 0
    p = kf(bdir, wd, list(opts) + ["-p"], "in.c")
    if p.rc != 0:
        return "bad", "preprocessing alone fails (%d) where compilation's front end succeeds: %s" % (p.rc, p.err.decode("utf-8", "replace")[-300:]), 0, 0
    open(wd + "/p1.i", "wb").write(p.out)

    def diff(a, b, what):
        if b is None:
            return "bad", what + ": no token stream", 0, 0
        j = next((j for j in range(max(len(a), len(b))) if a[j:j + 1] != b[j:j + 1]), 0)
        return "bad", "%s: first difference at token %d: direct %s staged %s" % (what, j, a[j:j + 3], b[j:j + 3]), 0, 0
    r1 = kf(bdir, wd, ["-P", "--dump-tokens"], "p1.i")
    t1 = toks(r1)
    if t1 != t0:
        return diff(t0, t1, "tokens of the preprocessed output, preprocessing skipped %s" % r1.err.decode("utf-8", "replace")[-200:])
    r2 = kf(bdir, wd, ["--dump-tokens"], "p1.i")
    t2 = toks(r2)
    if t2 != t0 and "hash" not in opts:
        return diff(t0, t2, "tokens of the preprocessed output, preprocessed again %s" % r2.err.decode("utf-8", "replace")[-200:])
    p2 = kf(bdir, wd, ["-p"], "p1.i")
    if p2.rc != 0 or p2.out != p.out:
        a, b = p.out.split(b"\n"), p2.out.split(b"\n")
        j = next((j for j in range(max(len(a), len(b))) if a[j:j + 1] != b[j:j + 1]), 0)
        return "bad", "preprocessing is not idempotent (exit %d) at line %d: %r / %r" % (p2.rc, j + 1, a[j:j + 1], b[j:j + 1]), 0, 0
    n = 0
    if asm:
        a0 = kf(bdir, wd, opts, "in.c")
        a1 = kf(bdir, wd, ["-P"], "p1.i")
        a2 = kf(bdir, wd, [], "p1.i")
        if a0.rc == 0:
            for nm, a in (("with preprocessing skipped", a1), ("preprocessed again", a2)):
                if a.rc != 0:
                    return "bad", "the unit compiles directly, its preprocessed form %s does not: %s" % (nm, a.err.decode("utf-8", "replace")[-300:]), 0, 0
                if a.out != a0.out:
                    x, y = a0.out.split(b"\n"), a.out.split(b"\n")
                    j = next((j for j in range(max(len(x), len(y))) if x[j:j + 1] != y[j:j + 1]), 0)
                    return "bad", "the code of the preprocessed form (%s) differs at line %d: %r / %r" % (nm, j + 1, x[j:j + 1], y[j:j + 1]), 0, 0
            n = a0.out.count(b"\n")
        elif a1.rc == 0:
            return "bad", "the unit does not compile directly, its preprocessed form does", 0, 0
        else:
            return "rejected", a0.err.decode("utf-8", "replace")[-400:], len(t0), 0
    return "ok", "", len(t0), n


def job(bdir, kind, seed, idx):
    r = rng(seed, idx)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        opts, asm, src = [], False, None
        if kind == "pp":
            g = r.choice([c13, c13, c14, c15]).gen(r, 10)
            ppmon.write(wd, g)
            opts = list(g[0].opts)
        elif kind == "repo":
            us = corpus.repo_units()
            src = us[idx % len(us)]
            shutil.copy(src, wd + "/in.c")
            opts = ["-I", os.path.dirname(src), "-I", os.path.join(REPO, "headers"), "-I", "/usr/include/x86_64-linux-musl"]
            asm = True
        else:
            m, t = corpus.unit(r)
            if r.random() < 0.7:
                t = corpus.macroize(r, t)
            open(wd + "/in.c", "w").write(t)
            asm = True
        v, det, n, m = judge_staged(bdir, wd, opts, asm)
        text = open(wd + "/in.c", "rb").read()
        files = {}
        if v == "bad":
            for root, _, fs in os.walk(wd):
                for f in fs:
                    files[os.path.relpath(os.path.join(root, f), wd).replace("/", "__")] = open(os.path.join(root, f), "rb").read()
        return {"v": v, "det": det, "n": n, "m": m, "h": hashlib.sha256(text).digest()[:12], "files": files, "opts": opts, "kind": kind, "head": text[:1200].decode("utf-8", "replace")}
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    ck = Check("C16")
    ck.rule = "one evaluation = one unit taken through three pipelines (direct; preprocessed then -P; preprocessed twice): token streams, preprocessed text and generated code are compared; distinct by unit text"
    ck.assumptions = ["equality of generated code stands for equality of behaviour"]
    bdir = build("plain")
    jobs = [(bdir, "pp", ("C16pp", SEED), i) for i in range(scale(450, 8000))] + [(bdir, "prog", ("C16prog", SEED), i) for i in range(scale(300, 6000))]
    jobs += [(bdir, "repo", ("C16repo", SEED), i) for i in range(len(corpus.repo_units()))]
    for r in pmap(job, jobs):
        ck.evaluations += 1
        ck.count("verdict:" + r["kind"] + ":" + r["v"])
        ck.count("tokens_compared", r["n"])
        ck.count("asm_lines_compared", r["m"])
        ck.distinct.add(r["h"])
        if ck.evaluations % 400 == 1:
            ck.sample(r["head"])
        if r["v"] == "bad":
            r["files"]["opts.txt"] = " ".join(r["opts"])
            ck.violation(r["head"], r["files"], r["det"])
            if len(ck.violations) >= 20:
                break
        elif r["v"] == "rejected" and os.environ.get("VF_DEBUG"):
            print("REJECTED", r["kind"], r["det"][-200:], r["head"][:200])
    if ck.counters.get("verdict:prog:ok", 0) < 100 or ck.counters.get("verdict:pp:ok", 0) < 100:
        ck.invalid += [(Item("", ""), "too few accepted units")] * ck.evaluations
    ck.finish(500)
