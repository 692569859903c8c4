"""C20: invalid programs are rejected with a located diagnostic; valid ones are accepted."""
import re
from vf.core import *
from vf import badgen, corpus

TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\.?\d(?:[eEpP][+-]|[\w.])*|<<=|>>=|\.\.\.|->|\+\+|--|&&|\|\||[-+*/%&|^<>=!]=|<<|>>|##|\S')
UNLOCATED = {}


def fill(r, t, n):
    iv = r.choice(["i20", "z20", "st20.m", "arr20[1]", "*ip20", "st20.n->m", "ip20[2]"])
    ie = r.choice(["i20", "(i20 + 1)", "z20", "fn20(1, cp20)", "arr20[i20 & 3]", "(i20 ? z20 : 3)", "sizeof(st20)", "17", "-z20", "*ip20"])
    c = str(r.choice([1, 2, 5, 9]))
    for k, v in (("{N}", "_%d" % n), ("{IV}", iv), ("{IE}", ie), ("{C1}", r.choice(["1", "2", "1 + 0", "4 / 2", "EB", "'\\1'"])), ("{C}", c), ("{ITY}", r.choice(["int", "long", "unsigned char", "double", "_Bool"])), ("{{", "{"), ("}}", "}")):
        t = t.replace(k, v)
    return t


def noise(r):
    """text that changes the line count without changing the program"""
    return r.choice(["", "", "\n", "/* a comment\n over lines */\n", "// x\n", "#if 0\n anything 'goes\n#endif\n", "#define NOISE%d \\\n  1\n" % r.randrange(99999), "int nz%d; /* \n\n */ int nw%d;\n" % (r.randrange(10**9), r.randrange(10**9)), "\n\n\n"])


def bnoise(r, k):
    return r.choice(["", "", "\n", "/* a comment\n over lines */\n", "z20 += %d; // x\n" % k, "{ int q = z20; z20 = \\\n q; }\n", "while (z20 < 0) { z20++;\n }\n", "if (i20) { z20 = 1; } else { z20 = 2;\n }\n", "#if 1\nz20--;\n#endif\n", "switch (z20) { case 1: z20 = 3; break; default: ; }\n"])


def wrap(r, k, frag):
    """the fragment at some depth of nested statements (which provide no loop or switch)"""
    pre = post = ""
    for _ in range(r.randrange(3)):
        a, b = r.choice([("{", "}"), ("if (i20) {\n", "}"), ("if (z20) ; else {", "\n}"), ("lab%d_%d: {" % (k, len(pre)), "}")])
        pre += a
        post = b + post
    return pre + "\n" + frag + "\n" + post


def make(r, kind, where, tpl, n):
    """(files, main, faulty text, control text, file name, lines)"""
    frag = fill(r, tpl, n)
    pre = badgen.CTX + "".join(noise(r) for _ in range(3))
    if r.random() < .6:
        pre += "int before%d(int a) {\n return a + 1;\n}\n" % n
    post = "".join(noise(r) for _ in range(2)) + "int after%d(int a) { return a; }\n" % n
    def text(f):
        if where == "B":
            b = "int body%d(void) {\n int z20 = 1;\n" % n + bnoise(rr, 1) + bnoise(rr, 2) + wrap(rr, n, f) + "\n" + bnoise(rr, 3) + " return z20;\n}\n"
        else:
            b = f + "\n"
        return pre + b + post
    st = r.getrandbits(64)
    rr = random.Random(st)
    bad = text(frag)
    rr = random.Random(st)
    good = text(";" if where == "B" else "")
    lines = set()
    for i, l in enumerate(bad.split("\n"), 1):
        if "/*!*/" in l:
            lines.add(i)
        if "/*!!*/" in l:
            lines.add(i + 1)
    return bad.replace(" /*!*/", "").replace("/*!!*/", ""), good, lines


import random
LOC = re.compile(r"\|\s*([^|\n]*?)@(\d+):(\d+) ")


def compile_(bdir, wd, files, main, opts=()):
    for fn, t in files.items():
        with open(os.path.join(wd, fn), "w") as fh:
            fh.write(t)
    out = os.path.join(wd, "out.s")
    if os.path.exists(out):
        os.unlink(out)
    r = run([os.path.join(bdir, "kefir")] + list(opts) + ["-o", out, main], cwd=wd, timeout=30)
    size = os.path.getsize(out) if os.path.exists(out) else 0
    return r, size


def rejection(r, size):
    """None if properly rejected, else what is wrong"""
    if r.timeout:
        return "the compiler does not terminate"
    if r.rc == 0:
        return "accepted"
    if r.rc != 1:
        return "ends with status %s" % r.rc
    if not r.err.strip():
        return "rejected without any diagnostic"
    if size:
        return "rejected, but an output program of %d bytes is written" % size
    return None


def kind_job(bdir, seed, idx):
    r = rng(seed, idx)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    out = {"n": 0, "bad": [], "loc": 0, "kinds": {}, "hdr": 0, "invalid": []}
    try:
        for q in range(len(badgen.T) // 6):
            kind, where, tpl = badgen.T[(idx * (len(badgen.T) // 6) + q) % len(badgen.T)]
            n = r.randrange(1000)
            bad, good, lines = make(r, kind, where, tpl, n)
            mode = r.random()
            files, main, fname = {"main.c": bad}, "main.c", "main.c"
            gfiles = {"main.c": good}
            if mode < .25:
                m = "int mm%d;\n#include \"h.h\"\nint mn%d;\n" % (n, n)
                files, fname = {"h.h": bad, "main.c": m}, "h.h"
                gfiles = {"h.h": good, "main.c": m}
                out["hdr"] += 1
            g = run(["gcc", "-std=c17", "-pedantic-errors", "-w", "-fsyntax-only", "-x", "c", "-"], stdin=good.encode(), timeout=30)
            if g.rc != 0:
                out["invalid"].append("control: " + kind + g.err.decode()[:300] + good)
                continue
            kg, size = compile_(bdir, wd, gfiles, main)
            if kg.rc != 0:
                out["bad"].append((kind, "valid program rejected", gfiles, kg.err.decode(errors="replace")[:600]))
                continue
            k, size = compile_(bdir, wd, files, main)
            out["n"] += 1
            out["kinds"][kind] = out["kinds"].get(kind, 0) + 1
            why = rejection(k, size)
            err = k.err.decode(errors="replace")
            if why is None:
                m = [x for x in LOC.findall(err) if x[0] != "(null)"]
                if not m:
                    why = "rejected without a source location"
                elif os.path.basename(m[0][0]) != fname:
                    why = "the diagnostic names file %s instead of %s" % (m[0][0], fname)
                elif int(m[0][1]) not in lines:
                    why = "the diagnostic names line %s instead of %s" % (m[0][1], sorted(lines))
                else:
                    L = bad.split("\n")[int(m[0][1]) - 1]
                    if not 1 <= int(m[0][2]) <= len(L) + 1:
                        why = "the diagnostic names column %s of a line of %d characters" % (m[0][2], len(L))
                out["loc"] += 1
            if why:
                out["bad"].append((kind, why, files, err[:600]))
        return out
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def token_job(bdir, seed, idx):
    """token-level faults in whole valid programs: unbalanced brackets, truncation, undeclared names"""
    r = rng(seed, idx)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    out = {"n": 0, "bad": [], "loc": 0, "kinds": {}, "hdr": 0, "invalid": []}
    try:
        _, src = corpus.unit(r, 2)
        k, size = compile_(bdir, wd, {"main.c": src}, "main.c")
        g = run(["gcc", "-std=gnu17", "-w", "-fsyntax-only", os.path.join(wd, "main.c")], timeout=30)
        if k.rc != 0 or g.rc != 0:
            out["invalid"].append("base program: " + k.err.decode(errors="replace")[:300])
            return out
        toks = [m for m in TOK.finditer(src) if not src[src.rfind("\n", 0, m.start()) + 1:m.start()].lstrip().startswith("#") and src[m.start()] != "#"]
        for _ in range(6):
            f = r.randrange(5)
            exact = None
            if f == 0:
                m = r.choice([t for t in toks if t.group() in "()[]{}"])
                bad, kind = src[:m.start()] + " " + src[m.end():], "bracket deleted"
            elif f == 1:
                m = r.choice(toks)
                bad, kind = src[:m.start()] + r.choice("()[]{}") + " " + src[m.start():], "bracket inserted"
            elif f == 2:
                ends = [i for i, t in enumerate(toks)]
                i = r.randrange(len(toks) // 3, len(toks))
                depth = sum({"{": 1, "}": -1}.get(t.group(), 0) for t in toks[:i])
                if depth <= 0:
                    continue
                bad, kind = src[:toks[i].start()], "truncated inside a block"
            elif f == 3:
                m = r.choice([t for t in toks if t.group() in ("+", "*", "/", "%", "<<", "==", "<", "&&", "||", "=", "+=", "?", ":", ".", "->", ",", ";")])
                bad, kind = src[:m.start()] + r.choice(["/ %", "= =", "? ?", "-> ->", "<< <", "% ="]) + src[m.end():], "operators collide"
            else:
                m = r.choice([t for t in toks if re.match(r"[A-Za-z_]\w*$", t.group())])
                bad, kind = src[:m.start()] + "undeclared_zz" + src[m.end():], "undeclared name"
                if m.group() in ("T", "TB", "TS", "TD", "TF", "TL", "END", "B", "I", "U", "P", "D", "F", "L"):
                    continue
            bp = os.path.join(wd, "b.c")
            with open(bp, "w") as fh:
                fh.write(bad)
            g = run(["gcc", "-std=gnu17", "-w", "-fsyntax-only", bp], timeout=30, env={"LC_ALL": "C"})
            if g.rc == 0:
                continue
            gerr = g.err.decode(errors="replace")
            if f == 4:
                e = re.findall(r"b\.c:(\d+):\d+: error: (.*)", gerr)
                if not e or "'undeclared_zz' undeclared" not in e[0][1] or len(e) > 1:
                    continue
                exact = {int(e[0][0])}
            k, size = compile_(bdir, wd, {"main.c": bad}, "main.c")
            out["n"] += 1
            out["kinds"][kind] = out["kinds"].get(kind, 0) + 1
            why = rejection(k, size)
            err = k.err.decode(errors="replace")
            if why is None:
                m = [x for x in LOC.findall(err) if x[0] != "(null)"]
                if not m:
                    why = "rejected without a source location"
                elif os.path.basename(m[0][0]) != "main.c":
                    why = "the diagnostic names file %s" % m[0][0]
                elif exact and int(m[0][1]) not in exact:
                    why = "the diagnostic names line %s instead of %s" % (m[0][1], sorted(exact))
                elif int(m[0][1]) > bad.count("\n") + 2:
                    why = "the diagnostic names line %s of a file of %d lines" % (m[0][1], bad.count("\n") + 1)
                out["loc"] += 1
            if why:
                out["bad"].append((kind, why, {"main.c": bad}, gerr[:300] + "\n---\n" + err[:600]))
        return out
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    ck = Check("C20")
    bdir = build("plain")
    known = {}
    for kf in ck.known:
        for kd in kf["kinds"]:
            known[(kd, kf["why"])] = kf
    n = scale(26, 500)
    res = list(pmap(kind_job, [(bdir, SEED, i) for i in range(n)])) + list(pmap(token_job, [(bdir, SEED * 7 + 3, i) for i in range(scale(150, 3000))]))
    for o in res:
        ck.evaluations += o["n"]
        ck.count("diagnostics with a source location compared", o["loc"])
        ck.count("faults placed in an included file", o["hdr"])
        for k, v in o["kinds"].items():
            ck.count("fault: " + k, v)
            ck.seen(k)
        ck.invalid += [(Item("", x), x) for x in o["invalid"]]
        for kind, why, files, err in o["bad"]:
            if (kind, why) in known:
                known[(kind, why)]["seen"] = True
                continue
            ck.violation(kind + why, dict(files, **{"err.txt": err}), "%s: %s\n%s" % (kind, why, err[:500]))
    ck.extra["fault_kinds"] = len(badgen.T)
    ck.rule = "one evaluation = one valid program with one injected violation; the valid control must be accepted (gcc -pedantic-errors agrees), the faulty one rejected with status 1, a diagnostic naming the file and line of the violation, and no output"
    ck.finish(min_events=300)
