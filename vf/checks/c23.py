"""C23: separately compiled units link as C linkage rules prescribe."""
import itertools
from vf.core import *

NU = 3
ODD = ["byte", "offset", "mod", "and", "or", "eq", "near", "dword", "ptr", "rax", "al", "xmm3", "st", "flat", "not", "rip", "lea", "push", "ret", "text", "data", "global", "section", "this", "new", "class", "Ldata", "L0", "_a", "a_", "x1234567890123456789012345678901234567890123456789012345678901234567890", "main2", "short_", "low", "high", "length", "size", "type", "cs", "fs", "even", "align", "word", "qword", "tbyte", "xor", "shl", "ge", "ne", "lt"]
TYS = [("int", 0), ("unsigned char", 0), ("short", 0), ("long", 0), ("unsigned", 0), ("double", 0), ("float", 0), ("_Bool", 0), ("long long", 0), ("char", 0)]


class P:
    """one multi-unit program: per unit, file-scope text and the bodies of op/adr dispatchers"""

    def __init__(self, r):
        self.r = r
        self.head = [[] for _ in range(NU)]
        self.tail = [[] for _ in range(NU)]
        self.op = [[] for _ in range(NU)]
        self.adr = [[] for _ in range(NU)]
        self.n = 0
        self.tags = set()
        self.names = r.sample(ODD, len(ODD))
        self.ext_objs = []
        self.ext_fns = []
        self.vis = []

    def name(self, p):
        self.n += 1
        if self.names and self.r.random() < .25:
            return self.names.pop()
        return "%s%d" % (p, self.n)

    def entity(self):
        self.vis.append([False] * NU)
        return len(self.vis) - 1

    def access(self, k, e, op, adr, pre=""):
        self.op[k].append("case %d: { %s%s } break;\n" % (e, pre, op))
        if adr:
            self.adr[k].append("case %d: { %sreturn (void *) (%s); } break;\n" % (e, pre, adr))
        self.vis[e][k] = True


def other_meaning(p, k, nm, e):
    """the name means something without linkage in this unit"""
    r = p.r
    w = r.randrange(5)
    if w == 0:
        p.head[k].append("enum { %s = %d };\n" % (nm, r.randrange(99)))
        p.access(k, e, "return %s;" % nm, None)
    elif w == 1:
        p.head[k].append("typedef char %s[%d];\n" % (nm, 3 + r.randrange(9)))
        p.access(k, e, "return sizeof(%s);" % nm, None)
    elif w == 2:
        p.access(k, e, "int %s = v + 3; return %s * 2;" % (nm, nm), None)
    elif w == 3:
        p.access(k, e, "struct { int %s; } s = { v }; return s.%s + 1;" % (nm, nm), None)
    else:
        p.access(k, e, "if (v > 3) goto %s; return 5; %s: return 6;" % (nm, nm), None)
    p.tags.add("no linkage")


def obj_scalar(p):
    r = p.r
    nm, (ty, _) = p.name("o"), r.choice(TYS)
    e = p.entity()
    d = r.randrange(NU)
    init = r.randrange(1, 50)
    q = r.choice(["", "", "", "volatile "])
    roles = {}
    for k in range(NU):
        roles[k] = "def" if k == d else r.choice(["ext", "ext", "ext", "static", "other", "none"])
    D = {"T": q + ty, "X": nm, "I": init}
    for k, role in roles.items():
        opx = "%(X)s = (%(T)s) ((int) %(X)s + v & 63); return (int) %(X)s;" % D
        ad = "&%s" % nm
        pre = ""
        if role == "def":
            v = r.choice(["%(T)s %(X)s = %(I)d;", "extern %(T)s %(X)s; %(T)s %(X)s = %(I)d;", "%(T)s %(X)s; %(T)s %(X)s;", "%(T)s %(X)s = %(I)d; extern %(T)s %(X)s;", "%(T)s %(X)s; extern %(T)s %(X)s; %(T)s %(X)s = %(I)d; %(T)s %(X)s;", "extern %(T)s %(X)s = %(I)d;", "%(T)s %(X)s;", "extern %(T)s %(X)s; %(T)s %(X)s;", "@%(T)s %(X)s = %(I)d;", "extern %(T)s %(X)s;@%(T)s %(X)s = %(I)d;", "%(T)s %(X)s;@%(T)s %(X)s;"]) % D
            p.tags.add("external object")
            h, _, t = v.rpartition("@") if "@" in v else (v, "", "")
            p.head[k].append(h + "\n")
            p.tail[k].append(t + "\n")
            if h == "":
                pre = "extern %(T)s %(X)s; " % D
        elif role == "ext":
            w = r.randrange(5)
            if w < 2:
                p.head[k].append(r.choice(["extern %(T)s %(X)s;\n", "extern %(T)s %(X)s; extern %(T)s %(X)s;\n"]) % D)
            elif w == 2:
                pre = "extern %(T)s %(X)s; " % D
                p.tags.add("block-scope extern")
            elif w == 3:
                p.head[k].append("extern %(T)s %(X)s;\n" % D)
                pre = "double %(X)s = 1; (void) %(X)s; { extern %(T)s %(X)s; " % D
                opx, ad = opx + " }", ad
                p.tags.add("extern behind a local")
                p.op[k].append("case %d: { %s%s } break;\n" % (e, pre, opx))
                p.adr[k].append("case %d: { %sreturn (void *) %s; } } break;\n" % (e, pre, ad))
                p.vis[e][k] = True
                continue
            else:
                p.tail[k].append("extern %(T)s %(X)s;\n" % D)
                pre = "extern %(T)s %(X)s; " % D
        elif role == "static":
            D2 = dict(D, I=r.randrange(50, 60))
            v = r.choice(["static %(T)s %(X)s = %(I)d;\n", "static %(T)s %(X)s; static %(T)s %(X)s = %(I)d;\n", "static %(T)s %(X)s = %(I)d; extern %(T)s %(X)s;\n", "static %(T)s %(X)s;\n", "static %(T)s %(X)s; extern %(T)s %(X)s; static %(T)s %(X)s;\n"]) % D2
            p.head[k].append(v)
            if r.random() < .4:
                pre = "extern %(T)s %(X)s; " % D
            p.tags.add("internal object")
        elif role == "other":
            other_meaning(p, k, nm, e)
            continue
        else:
            continue
        p.access(k, e, opx, ad, pre)
    p.ext_objs.append((nm, q + ty, d, [k for k in roles if roles[k] in ("static", "other")]))


def obj_array(p):
    r = p.r
    nm, n = p.name("a"), r.randrange(2, 7)
    e = p.entity()
    d = r.randrange(NU)
    ty = r.choice(["int", "char", "long", "short", "double"])
    D = {"T": ty, "X": nm, "N": n, "I": ", ".join(str(r.randrange(40)) for _ in range(n))}
    for k in range(NU):
        if k == d:
            p.head[k].append(r.choice(["%(T)s %(X)s[%(N)d] = { %(I)s };\n", "%(T)s %(X)s[] = { %(I)s };\n", "extern %(T)s %(X)s[]; %(T)s %(X)s[%(N)d] = { %(I)s };\n", "%(T)s %(X)s[%(N)d];\n", "%(T)s %(X)s[]; %(T)s %(X)s[%(N)d];\n", "extern %(T)s %(X)s[%(N)d]; %(T)s %(X)s[] = { %(I)s };\n"]) % D)
        elif r.random() < .3:
            p.head[k].append("static %(T)s %(X)s[%(N)d] = { 1 };\n" % D)
        else:
            p.head[k].append(r.choice(["extern %(T)s %(X)s[];\n", "extern %(T)s %(X)s[%(N)d];\n", "extern %(T)s %(X)s[]; extern %(T)s %(X)s[%(N)d];\n"]) % D)
        p.access(k, e, "%(X)s[v %% %(N)d] += 1; int s = 0; for (int i = 0; i < %(N)d; i++) s = s * 3 + (int) %(X)s[i]; return s %% 10007;" % D, "%(X)s + %%d" % D % r.randrange(n))
    p.tags.add("arrays")


def obj_struct(p):
    r = p.r
    nm = p.name("s")
    e = p.entity()
    d = r.randrange(NU)
    tag = "tg%d" % p.n
    for k in range(NU):
        # tags and members are named differently in each unit: only the layout has to agree
        t = "struct %s%d { int a%d; char b; long c[2]; } " % (tag, k, k)
        if r.random() < .3:
            t = "struct %s { int a%d; char b; long c[2]; } " % (tag, k)
        if k == d:
            p.head[k].append(r.choice(["%s%s = { 3, 'x', { 4, 5 } };\n", "%s%s;\n"]) % (t, nm))
        else:
            p.head[k].append("extern %s%s;\n" % (t, nm))
        p.access(k, e, "%s.a%d += v; %s.c[v & 1] -= 2; %s.b++; return %s.a%d + (int) %s.c[0] * 3 + (int) %s.c[1] * 5 + %s.b;" % (nm, k, nm, nm, nm, k, nm, nm, nm), "&%s.c[1]" % nm)
    p.tags.add("structures")


def pointer(p):
    """a pointer initialised with the address of an entity of another unit"""
    r = p.r
    c = [o for o in p.ext_objs]
    if not c:
        return
    nm, ty, d, banned = r.choice(c)
    ks = [k for k in range(NU) if k not in banned]
    x = p.name("p")
    e = p.entity()
    k0 = r.choice(ks)
    cst = r.choice(["", "const "])
    pre = "" if k0 == d else "extern %s %s;\n" % (ty, nm)
    if k0 == d:
        pre = "extern %s %s;\n" % (ty, nm)
    st = r.random() < .3
    p.tail[k0].append(pre + "%s%s *%sP%s = &%s;\n" % ("static " if st else "", ty, cst, x, nm))
    for k in range(NU):
        if st and k != k0:
            continue
        kw = "static" if st else "extern"
        if not st or True:
            p.head[k].append("%s %s *%sP%s;\n" % (kw, ty, cst, x) if not (st and cst) else "static %s *%sP%s;\n" % (ty, cst, x))
        p.access(k, e, "return P%s ? (int) *P%s : -1;" % (x, x), "P%s" % x)
    p.tags.add("cross-unit addresses in initializers")


def func(p):
    r = p.r
    nm = p.name("f")
    e = p.entity()
    d = r.randrange(NU)
    c = r.randrange(1, 100)
    banned = []
    for k in range(NU):
        body = "{ return a * 2 + %d; }" % (c if k == d else 100 + k)
        role = "def" if k == d else r.choice(["ext", "ext", "ext", "static", "other", "none"])
        pre = ""
        if role == "def":
            v = r.choice(["int %s(int a) %s", "extern int %s(int a) %s", "int %s(int); int %s(int a) %s", "@int %s(int a) %s", "int %s(int a) %s int %s(int);", "extern inline int %s(int a) %s", "inline int %s(int a); extern int %s(int a); int %s(int a) %s" if False else "int %s(int a) %s", "int %s(a) int a; %s", "inline extern int %s(int a) %s"])
            at = "@" in v
            v = v.replace("@", "")
            args = []
            for part in v.split("%s")[1:]:
                args.append(nm)
            txt, i = v, 0
            txt = txt.replace(") %s", ") BODY").replace("; %s", "; BODY") if "(a) int a" in v else txt.replace(") %s", ") BODY")
            txt = txt.replace("%s", nm).replace("BODY", body)
            if at:
                p.tail[k].append(txt + "\n")
                pre = r.choice(["int %s(int); ", "extern int %s(int); ", "int %s(); "]) % nm
            else:
                p.head[k].append(txt + "\n")
                if r.random() < .2:
                    pre = "int %s(int); " % nm
            p.tags.add("external function")
        elif role == "ext":
            w = r.randrange(3)
            if w == 0:
                p.head[k].append(r.choice(["int %s(int);\n", "extern int %s(int a);\n", "int %s();\n", "int %s(int); extern int %s();\n".replace("%s();", nm + "();"), "extern int (%s)(int);\n"]) % nm)
            else:
                pre = r.choice(["int %s(int); ", "extern int %s(int); ", "int %s(); ", "typedef int FT(int); FT %s; "]) % nm
        elif role == "static":
            v = r.choice(["static int {n}(int a) {b}", "static int {n}(int); int {n}(int a) {b}", "static inline int {n}(int a) {b}", "static int {n}(int a) {b} int {n}(int); extern int {n}(int);", "static int {n}(int);@static int {n}(int a) {b}", "static int {n}(int);@int {n}(int a) {b}", "inline static int {n}(int a) {b}"])
            v = v.replace("{n}", nm).replace("{b}", body)
            h, _, t = v.partition("@")
            p.head[k].append(h + "\n")
            p.tail[k].append(t + "\n")
            if r.random() < .3:
                pre = "int %s(int); " % nm
            banned.append(k)
            p.tags.add("internal function")
        elif role == "other":
            other_meaning(p, k, nm, e)
            banned.append(k)
            continue
        else:
            continue
        call = r.choice(["return %s(v);", "int (*q)(int) = %s; return q(v);", "int (*q)(int) = &%s; return (*q)(v);", "return (*%s)(v);", "return (&%s)(v);"]) % nm
        p.access(k, e, call, nm, pre)
    p.ext_fns.append((nm, d, banned))


def fnptr(p):
    if not p.ext_fns:
        return
    r = p.r
    nm, d, banned = r.choice(p.ext_fns)
    k = r.choice([k for k in range(NU) if k not in banned])
    x = p.name("q")
    e = p.entity()
    p.tail[k].append("int %s(int);\nint (*const tab_%s[])(int) = { 0, %s, &%s };\n" % (nm, x, nm, nm))
    for j in range(NU):
        p.head[j].append("extern int (*const tab_%s[])(int);\n" % x)
        p.access(j, e, "return tab_%s[1 + (v & 1)](v);" % x, "tab_%s[2]" % x)
    p.tags.add("function addresses in initializers")


def static_local(p):
    r = p.r
    nm = p.name("l")
    e = p.entity()
    d = r.randrange(NU)
    ln = r.choice(["cnt", "n", "buf", "x"])
    st = r.random() < .5
    a, b = r.randrange(50), r.randrange(50)
    body = "{ static int %s = %d; if (v & 1) { static int %s = %d; %s += v; return %s * 3 + 1; } { static char %s[3] = \"ab\"; %s[0]++; if (v & 2) return %s[0] + %s[1]; } return %s += v; }" % (ln, a, ln, b, ln, ln, ln, ln, ln, ln, ln)
    for k in range(NU):
        if st:
            p.head[k].append("static int F%s(int v) %s\n" % (nm, body))
        elif k == d:
            p.head[k].append("int F%s(int v) %s\n" % (nm, body))
        else:
            p.head[k].append("int F%s(int v);\n" % nm)
        p.access(k, e, "return F%s(v & 63);" % nm, None)
    p.tags.add("static locals")


def tls(p):
    r = p.r
    nm = p.name("t")
    e = p.entity()
    d = r.randrange(NU)
    ty = r.choice(["int", "long", "char", "short"])
    init = r.choice([" = %d" % r.randrange(1, 60), ""])
    for k in range(NU):
        pre = ""
        if k == d:
            p.head[k].append(r.choice(["_Thread_local %s %s%s;\n", "extern _Thread_local %s %s%s;\n".replace("%s%s;", nm + "; _Thread_local %s %s%%s;" % (ty, nm)) if False else "_Thread_local %s %s%s;\n"]) % (ty, nm, init))
        elif r.random() < .3:
            p.head[k].append("static _Thread_local %s %s%s;\n" % (ty, nm, r.choice([" = 7", ""])))
        elif r.random() < .3:
            pre = "extern _Thread_local %s %s; " % (ty, nm)
        else:
            p.head[k].append("extern _Thread_local %s %s;\n" % (ty, nm))
        p.access(k, e, "%s = (%s) (%s + v & 63); return %s;" % (nm, ty, nm, nm), "&%s" % nm, pre)
    p.tags.add("thread-local")


KINDS = [obj_scalar] * 6 + [obj_array] * 2 + [obj_struct] + [pointer] * 2 + [func] * 6 + [fnptr] + [static_local] * 2 + [tls] * 2


def gen(r):
    p = P(r)
    for _ in range(r.randrange(4, 12)):
        r.choice(KINDS)(p)
    srcs = []
    for k in range(NU):
        s = PRE + "".join(p.head[k])
        s += "int op_%d(int e, int v) {\nswitch (e) {\n%s}\nreturn -1;\n}\nvoid *adr_%d(int e) {\nswitch (e) {\n%s}\nreturn 0;\n}\n" % (k, "".join(p.op[k]), k, "".join(p.adr[k]))
        s += "".join(p.tail[k])
        if k == 0:
            s += "".join("int op_%d(int, int); void *adr_%d(int);\n" % (j, j) for j in range(1, NU))
            s += "int main(void) {\n"
            for e, vis in enumerate(p.vis):
                s += "B(%d);\n" % e
                for a, b in itertools.combinations(range(NU), 2):
                    s += "T(%d, adr_%d(%d) == adr_%d(%d));\n" % (e * 10 + a * 3 + b, a, e, b, e)
            s += "B(%d);\n" % len(p.vis)
            for i in range(r.randrange(30, 90)):
                e = r.randrange(len(p.vis))
                ks = [k2 for k2 in range(NU) if p.vis[e][k2]]
                if ks:
                    s += "T(%d, (unsigned) op_%d(%d, %d));\n" % (1000 + i, r.choice(ks), e, r.randrange(8))
            s += "END(); return 0;\n}\n"
        srcs.append(s)
    return srcs, p.tags, len(p.vis)


def compile_unit(bdir, wd, k, src, cc):
    base = os.path.join(wd, "u%d%s" % (k, cc))
    with open(base + ".c", "w") as fh:
        fh.write(src)
    if cc == "k":
        r = kefir_s(bdir, base + ".c", base + ".s", timeout=40)
        if r.timeout or r.rc != 0:
            return "reject", r.err.decode(errors="replace")[:600]
        r = assemble(base + ".s", base + ".o")
        return ("ok", base + ".o") if r.rc == 0 else ("asm", r.err.decode(errors="replace")[:500])
    r = run(["gcc"] + REF_FLAGS + ["-fno-common", "-c", base + ".c", "-o", base + ".o"], timeout=60)
    return ("ok", base + ".o") if r.rc == 0 else ("ref", r.err.decode(errors="replace")[:500])


def run_mix(bdir, wd, objs, mix):
    use = [objs[(k, c)] for k, c in enumerate(mix)]
    for st, x in use:
        if st != "ok":
            return st, b"", x
    exe = os.path.join(wd, "x" + mix)
    r = link([x for _, x in use] + [os.path.join(bdir, "rt.o"), os.path.join(bdir, "chk.o")], exe)
    if r.rc != 0:
        return "link", b"", r.err.decode(errors="replace")[:500]
    r = run([exe], cwd=wd, timeout=20)
    return ("ok" if r.rc == 0 else "run"), r.out, "exit %s" % r.rc


def judge(bdir, srcs):
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        objs = {(k, c): compile_unit(bdir, wd, k, srcs[k], c) for k in range(NU) for c in "kg"}
        st, exp, det = run_mix(bdir, wd, objs, "g" * NU)
        if st != "ok":
            return None, [("reference", st, det)], 0
        bad = []
        mixes = ["".join(m) for m in itertools.product("kg", repeat=NU)]
        mixes.remove("g" * NU)
        for m in mixes:
            st, got, det = run_mix(bdir, wd, objs, m)
            if st != "ok" or got != exp:
                bad.append((m, st, det if st != "ok" else first_diff(split_log(exp)[0], split_log(got)[0])))
        return exp.count(b"\n") * len(mixes), bad, len(mixes)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def job(bdir, seed, idx):
    r = rng(seed, idx)
    srcs, tags, n = gen(r)
    ev, bad, mixes = judge(bdir, srcs)
    return srcs, tags, n, ev, bad, mixes


def main():
    ck = Check("C23")
    bdir = build("plain")
    for k in ck.known:
        d = os.path.join(VERIF, k["file"])
        srcs = [PRE + open(os.path.join(d, "u%d.c" % i)).read() for i in range(NU)]
        ev, bad, _ = judge(bdir, srcs)
        if ev is not None and bad:
            k["seen"] = True
    for srcs, tags, n, ev, bad, mixes in pmap(job, [(bdir, SEED, i) for i in range(scale(250, 5000))]):
        if ev is None:
            ck.invalid.append((Item("", "\n=====\n".join(srcs)), str(bad)))
            continue
        ck.evaluations += n * mixes
        ck.count("events compared", ev)
        ck.count("links of kefir- and gcc-compiled units", mixes)
        for t in tags:
            ck.count("programs with " + t)
        ck.seen("".join(srcs))
        ck.sample("\n/* next unit */\n".join(srcs))
        for m, st, det in bad[:1]:
            ck.violation("".join(srcs) + m, dict({"u%d.c" % i: s for i, s in enumerate(srcs)}, **{"mix.txt": m}), "mix %s: %s %s" % (m, st, det))
    ck.rule = "one evaluation = one entity (object, function, static local or thread-local, declared in up to three units) in one of the 7 kefir/gcc mixes; every unit reports the entity's address identity and the values of an interleaved update history; the all-gcc program is the reference"
    ck.finish(min_events=2000)
