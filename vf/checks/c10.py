"""C10: storage duration, scopes, recursion, VLA, alloca, TLS: live objects keep their values and stay distinct."""
from vf.core import *

PREX = """static void fil(void *p, unsigned long n, unsigned s) { unsigned char *q = p; unsigned long k; for (k = 0; k < n; k++) q[k] = (unsigned char) (s * 31u + k * 7u + (k >> 3) + 1u); }
static unsigned long chk(const void *p, unsigned long n, unsigned s) { const unsigned char *q = p; unsigned long k, bad = 0; for (k = 0; k < n; k++) if (q[k] != (unsigned char) (s * 31u + k * 7u + (k >> 3) + 1u)) bad++; return bad; }
extern int pthread_create(unsigned long *, const void *, void *(*)(void *), void *); extern int pthread_join(unsigned long, void **);
struct lv { void *p; unsigned long n; }; static struct lv lvs[256]; static int nlv;
static void lpush(void *p, unsigned long n) { if (nlv < 256) { lvs[nlv].p = p; lvs[nlv].n = n; nlv++; } }
static unsigned long lover(void) { unsigned long c = 0; int i, j; for (i = 0; i < nlv; i++) for (j = 0; j < i; j++) if ((char *) lvs[i].p < (char *) lvs[j].p + lvs[j].n && (char *) lvs[j].p < (char *) lvs[i].p + lvs[i].n) c++; return c; }
"""
SCAL = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "float", "double", "long double", "void *", "int (*)(int)", "_Bool"]
SST = ["struct { char a[%d]; }", "struct { short a; char b[%d]; }", "struct { char a; int b[%d]; }", "struct { double d; char e[%d]; }", "union { char a[%d]; int b; long c; }", "struct { long double l; char q[%d]; }", "struct { char c; struct { short s; char z[%d]; } n[2]; }"]


class G:
    def __init__(self, r, u):
        self.r, self.u = r, u
        self.n = 0
        self.ev = 0
        self.tags = set()
        self.decls = []
        self.live = []       # (name expr, size expr, seed)
        self.depth = 0
        self.budget = r.choice([12, 20, 35])
        self.infn = False
        self.jump_ok = True

    def id(self, p="v"):
        self.n += 1
        return "%s%s_%d" % (p, self.u, self.n)

    def T(self, e):
        self.ev += 1
        return "T(%d, (unsigned long long) (%s));\n" % (self.ev, e)

    def otype(self):
        """declarator with %s for the name"""
        r = self.r
        k = r.random()
        if k < 0.35:
            t = r.choice(SCAL)
            if t == "int (*)(int)":
                return "int (*%s)(int)"
            return t + (" %s")
        if k < 0.6:
            return "%s %%s[%d]" % (r.choice(["char", "unsigned char", "short", "int", "long", "double", "long double", "void *"]), r.choice([1, 2, 3, 5, 7, 8, 9, 16, 17, 33]))
        if k < 0.7:
            return "%s %%s[%d][%d]" % (r.choice(["char", "short", "int", "double"]), r.randrange(1, 5), r.randrange(1, 6))
        return (r.choice(SST) % r.choice([1, 2, 3, 5, 7, 8, 12, 20])) + " %s" + r.choice(["", "", "[2]", "[3]"])

    def check(self, some=True):
        r = self.r
        ls = self.live if not some or len(self.live) < 5 else r.sample(self.live, 5)
        return "".join(self.T("chk(%s, %s, %s)" % l) for l in ls)

    def allchk(self):
        if not self.live:
            return ""
        return self.T(" + ".join("chk(%s, %s, %s) * %du" % (l + (k * 2 + 1,)) for k, l in enumerate(self.live[-12:])))

    def overlap(self):
        if len(self.live) < 2:
            return ""
        return "nlv = 0; " + " ".join("lpush((void *) %s, %s);" % (l[0], l[1]) for l in self.live) + " " + self.T("lover()")

    def newobj(self, name=None):
        """-> code; pushes on live"""
        r = self.r
        v = name or self.id()
        k = r.random()
        seed = str(r.randrange(1, 250))
        al = ""
        if k < 0.60:
            if r.random() < 0.12:
                al = "_Alignas(%d) " % 16
                self.tags.add("alignas")
            st = r.choice(["", "", "", "auto ", "register "] if not al else [""])
            st = "" if st == "register " else st
            code = al + st + self.otype() % v + ";\n"
            self.tags.add("auto")
            e = "&" + v
            size = "sizeof %s" % v
            if al:
                code += self.T("(unsigned long) &%s %% 16" % v)
        elif k < 0.82:
            self.tags.add("vla")
            n = r.choice([1, 2, 3, 5, 8, 13, 17, 40, 100])
            el = r.choice(["char", "unsigned char", "short", "int", "long", "double", "long double", "struct { char a[3]; }"])
            form = r.randrange(6)
            if form <= 2:
                code = "%s %s[I(%d)];\n" % (el, v, n)
            elif form == 3:
                m = r.randrange(1, 5)
                code = "%s %s[I(%d)][I(%d)];\n" % (el, v, m, n)
                code += self.T("sizeof %s[0]" % v)
            elif form == 4:
                tn = self.id("vt")
                code = "typedef %s %s[I(%d)]; %s %s;\n" % (el, tn, n, tn, v)
                code += self.T("sizeof(%s)" % tn)
            else:
                c = self.id("n")
                code = "int %s = (int) I(%d); %s %s[%s + 1]; %s = 77;\n" % (c, n, el, v, c, c)
                if not el.startswith("struct"):
                    code += self.T("sizeof(%s) == sizeof(%s[%d])" % (v, el, n + 1))
            code += self.T("sizeof %s" % v)
            e, size = v, "sizeof %s" % v
        elif k < 0.90 and not self.in_loop_alloca:
            self.tags.add("alloca")
            n = r.choice([1, 3, 8, 15, 16, 17, 64, 129])
            if r.random() < 0.7:
                code = "unsigned char *%s = __builtin_alloca(I(%d));\n" % (v, n)
            else:
                a = r.choice([8, 16, 32, 64, 128])
                code = "unsigned char *%s = __builtin_alloca_with_align(I(%d), %d);\n" % (v, n, a * 8)
                code += self.T("(unsigned long) %s %% %d" % (v, a))
                self.tags.add("alloca_align")
            e, size = v, str(n)
        else:
            self.tags.add("static_local")
            code = "static " + self.otype() % v + ";\n"
            if self.rec == 0:
                f = self.id("z")
                # zero at first entry, keeps its content at later ones
                code += "static int %s; { unsigned long zk, zb = 0; for (zk = 0; zk < sizeof %s; zk++) zb += ((unsigned char *) &%s)[zk] != 0; %s }\n" % (f, v, v, self.T("%s ? chk(&%s, sizeof %s, %s) : zb" % (f, v, v, seed)))
                code += "%s = 1;\n" % f
            e, size = "&" + v, "sizeof %s" % v
        code += "fil(%s, %s, %s);\n" % (e, size, seed)
        self.live.append((e, size, seed))
        return code

    in_loop_alloca = False
    rec = 0

    def block(self, d):
        r = self.r
        self.depth += 1
        keep = len(self.live)
        out = ["{\n"]
        for _ in range(r.randrange(1, 5)):
            self.budget -= 1
            if self.budget < 0:
                break
            k = r.random()
            if k < 0.45:
                out.append(self.newobj())
            elif k < 0.55:
                out.append(self.check())
            elif k < 0.60:
                out.append(self.overlap())
            elif k < 0.66 and self.live:
                i = r.randrange(len(self.live))
                l = self.live[i]
                nl = (l[0], l[1], str(r.randrange(1, 250)))
                if i >= keep and not self.loopvar:
                    self.live[i] = nl
                    out.append("fil(%s, %s, %s);\n" % nl)
                else:
                    out.append("fil(%s, %s, %s);\n" % nl + self.check() .replace("", "") + "fil(%s, %s, %s);\n" % l if False else "fil(%s, %s, %s);\n%sfil(%s, %s, %s);\n" % (nl + (self.T("chk(%s, %s, %s)" % nl),) + l))
            elif k < 0.80 and d > 0:
                out.append(self.block(d - 1))
                out.append(self.check())
            elif k < 0.90 and d > 0:
                out.append(self.loop(d - 1))
                out.append(self.check())
            elif k < 0.97 and d > 0:
                out.append(self.shadow(d - 1))
            else:
                out.append(self.gotoblk(d - 1))
        out.append(self.allchk())
        out.append("}\n")
        del self.live[keep:]
        self.depth -= 1
        return "".join(out)

    loopvar = None

    def loop(self, d):
        r = self.r
        c = self.id("i")
        ol, oa = self.loopvar, self.in_loop_alloca
        self.loopvar = c
        self.tags.add("loop")
        n = r.randrange(2, 5)
        k = r.randrange(4)
        b = self.block(d)
        ex = ""
        if r.random() < 0.4:
            ex = "if (%s == %d) %s;\n" % (c, r.randrange(0, n), r.choice(["break", "continue"]))
            self.tags.add("loop_exit")
            b = b[:2] + ex + b[2:] if r.random() < 0.4 else b[:-2] + ex + b[-2:]
        if k == 0:
            s = "for (int %s = 0; %s < %d; %s++) %s" % (c, c, n, c, b)
        elif k == 1:
            s = "{ int %s = -1; while (++%s < %d) %s }\n" % (c, c, n, b)
        elif k == 2:
            s = "{ int %s = -1; do { %s++; if (%s >= %d) break; %s } while (1); }\n" % (c, c, c, n, b.replace("continue;", ";"))
        else:
            # the variable itself lives in the loop's scope
            w = self.id("w")
            s = "for (struct { int a; char pad[%d]; } %s = { 0 }; %s.a < %d; %s.a++) { int %s = %s.a; %s }\n" % (r.randrange(1, 9), w, w, n, w, c, w, b)
        self.loopvar, self.in_loop_alloca = ol, oa
        return s

    def shadow(self, d):
        r = self.r
        self.tags.add("shadow")
        v = self.id("sh")
        vals = [r.randrange(1, 1000) for _ in range(6)]
        form = r.randrange(6)
        e = lambda x: self.T(x)
        if form == 0:
            return "{ int %s = %d; { %s { long %s = %d; %s { char %s[%d]; %s[0] = 5; %s } %s = %s + 1; %s } } %s }\n" % (
                v, vals[0], e(v), v, vals[1], e(v), v, vals[2] % 40 + 1, v, e("sizeof %s * 100 + %s[0]" % (v, v)), v, v, e(v), e(v))
        if form == 1:
            # the initialiser is in the scope of the new name; size of itself
            return "{ short %s = %d; { long %s = sizeof %s; %s } %s }\n" % (v, vals[0], v, v, e(v), e(v))
        if form == 2:
            self.decls.append("static int %s = %d;\n" % (v, vals[0]))
            return "{ %s int %s = %d; %s { extern int %s; %s } %s += 1; { %s } }\n" % (e(v), v, vals[1], e(v), v if False else "ext10", e("ext10"), v, e(v))
        if form == 3:
            return "{ enum { %s = %d }; { int x_ = %s; enum { %s = %d }; %s %s } %s }\n" % (v, vals[0], v, v, vals[1], e("x_"), e(v), e(v))
        if form == 4:
            return "{ typedef char %s[%d]; { %s a_; %s { int %s = %d; %s } } { typedef short %s; %s } %s }\n" % (
                v, vals[0] % 50 + 1, v, e("sizeof a_"), v, vals[1], e(v), v, e("sizeof(%s)" % v), e("sizeof(%s)" % v))
        return "{ int %s = %d; for (int %s = %d; %s < %d; %s++) { int %s = 3; %s } %s if (%s) { int %s = %d; %s } %s { static int %s = %d; %s++; %s } %s }\n" % (
            v, vals[0], v, 0, v, 2, v, v, e(v), e(v), v, v, vals[1], e(v), e(v), v, vals[2], v, e(v), e(v))

    def gotoblk(self, d):
        r = self.r
        self.tags.add("goto")
        l, c = self.id("l"), self.id("c")
        keep = len(self.live)
        b = ""
        form = r.randrange(3)
        novla = None
        if form == 0:   # backward over a block: objects get a new life each time
            b = "{ int %s = 0; %s: ; { %s %s %s } if (++%s < %d) goto %s; }\n" % (c, l, self.newobj(), self.newobj(), self.allchk(), c, r.randrange(2, 5), l)
        elif form == 1:  # out of nested scopes
            o1, o2, o3 = self.newobj(), self.newobj(), self.newobj()
            b = "{ int %s = 0; { %s { %s { %s %s if (I(%d)) goto %s; } %s = 9; } %s = 8; } %s: %s %s }\n" % (c, o1, o2, o3, self.allchk(), r.randrange(2), l, c, c, l, "%s += 1;" % c, self.T(c))
        else:            # into a scope past plain declarations
            x = self.id("x")
            b = "{ int %s = 0; if (I(%d)) goto %s; { int %s; char pad_%s[5]; %s = 1; pad_%s[0] = 1; %s: %s = 5; fil(pad_%s, 5, 3); %s %s } }\n" % (c, r.randrange(2), l, x, x, x, x, l, x, x, self.T(x), self.T("chk(pad_%s, 5, 3) + %s" % (x, c)))
        del self.live[keep:]
        return b


def recursion(g):
    """frames of one function: every activation has its own objects, the caller's stay intact"""
    r = g.r
    g.tags.add("recursion")
    f = g.id("rec")
    g.rec = 1
    o = [g.newobj() for _ in range(r.randrange(1, 4))]
    objs = list(g.live)
    g.live.clear()
    par = "q"
    code = "static unsigned long %s(int d, unsigned long *%s, int *cnt) {\nunsigned long acc = 1000u + (unsigned) d; (*cnt)++;\n" % (f, par)
    lines = "".join(o)
    # reports within a recursive function: fixed ids are fine, the log is ordered
    code += lines
    code += "if (%s) *%s += (unsigned) d;\n" % (par, par)
    k = r.randrange(3)
    if k == 0:
        code += "if (d > 0) { unsigned long z = %s(d - 1, &acc, cnt); acc = acc * 3 + z; }\n" % f
    elif k == 1:
        code += "if (d > 0) acc += %s(d - 1, &acc, cnt) + 2 * %s(d - 2, &acc, cnt);\n" % (f, f)
        code = code.replace("acc += " + f, "acc = acc * 1 + " + f)
        code = code.replace("acc = acc * 1 + %s(d - 1, &acc, cnt) + 2 * %s(d - 2, &acc, cnt);" % (f, f), "{ unsigned long y = %s(d - 1, &acc, cnt); y += 2 * %s(d - 2, %s, cnt); acc += y; }" % (f, f, par))
    else:
        code += "for (int j = 0; j < d; j++) { char pad[5]; fil(pad, 5, (unsigned) j); { unsigned long y = %s(d - 2, &acc, cnt); acc += y; } acc += chk(pad, 5, (unsigned) j) * 1000000u; }\n" % f
    st = [l for l in objs]
    for l in st:
        code += g.T("chk(%s, %s, %s)" % l)
    code += "return acc;\n}\n"
    g.rec = 0
    depth = r.choice([1, 3, 5]) if k else r.choice([1, 4, 30])
    return code, "{ int cnt = 0; unsigned long top = 0; unsigned long y = %s(%d, &top, &cnt); %s%s%s }\n" % (f, depth, g.T("y"), g.T("top"), g.T("cnt"))


def mutual(g):
    """pointers to objects of outer frames are followed from inner ones"""
    r = g.r
    g.tags.add("outer_frame_pointer")
    f = g.id("mu")
    n = r.randrange(2, 8)
    code = "struct %s_n { struct %s_n *up; int id; char pad[%d]; };\n" % (f, f, r.choice([1, 3, 9]))
    code += ("static long %s(struct %s_n *up, int d) { struct %s_n me; long s = 0; struct %s_n *p; char vla[d + 1]; me.up = up; me.id = d * 7 + 1; fil(me.pad, sizeof me.pad, (unsigned) d); fil(vla, sizeof vla, (unsigned) d + 3);\n"
             "if (d > 0) s = %s(&me, d - 1);\nfor (p = &me; p; p = p->up) { s = s * 3 + p->id; p->id += d; }\n%s%s return s; }\n" % (f, f, f, f, f, g.T("chk(me.pad, sizeof me.pad, (unsigned) d)"), g.T("chk(vla, sizeof vla, (unsigned) d + 3)")))
    return code, g.T("%s(0, %d)" % (f, n))


def vla_loops(g):
    """automatic storage is given back: many re-entries fit in the stack"""
    r = g.r
    g.tags.add("vla_release")
    form = r.randrange(5)
    n = r.choice([3000, 9000])
    sz = r.choice([2000, 5001])
    v = g.id()
    if form == 0:
        return "", "{ long s = 0; char keep[9]; fil(keep, 9, 5); for (long k = 0; k < %d; k++) { char %s[I(%d)]; %s[0] = (char) k; %s[%d] = 1; s += %s[0]; } %s%s }\n" % (n, v, sz, v, v, sz - 1, v, g.T("s"), g.T("chk(keep, 9, 5)"))
    if form == 1:
        return "", "{ long s = 0, k = 0; while (1) { char %s[I(%d)]; %s[0] = (char) k; s += %s[0]; if (++k >= %d) break; if (k %% 3) continue; s++; } %s }\n" % (v, sz, v, v, n, g.T("s"))
    if form == 2:
        l = g.id("l")
        return "", "{ long s = 0, k = 0; %s: ; { char %s[I(%d)]; %s[%d] = (char) k; s += %s[%d]; if (++k < %d) goto %s; } %s }\n" % (l, v, sz, v, sz - 1, v, sz - 1, n, l, g.T("s"))
    if form == 3:
        return "", "{ long s = 0; for (long k = 0; k < %d; k++) { switch (k %% 3) { case 0: { char %s[I(%d)]; %s[1] = 1; s += %s[1]; break; } case 1: { int %s[I(%d)]; %s[1] = 2; s += %s[1]; } default: s += 5; } } %s }\n" % (n, v, sz, v, v, v, sz // 4, v, v, g.T("s"))
    f = g.id("fv")
    return "static int %s(long n) { char a[n]; if (n > 3) { char b[n]; b[n - 1] = 2; a[0] = 3; return a[0] + b[n - 1]; } a[0] = 1; return a[0]; }\n" % f, "{ long s = 0; for (long k = 0; k < %d; k++) s += %s(k %% 7 ? %d : 2); %s }\n" % (n, f, sz, g.T("s"))


def vla_types(g):
    """variably modified types: size fixed at the declaration, pointers and parameters"""
    r = g.r
    g.tags.add("vm_types")
    f = g.id("vm")
    n, m = r.randrange(1, 7), r.randrange(1, 7)
    el = r.choice(["char", "short", "int", "long", "double"])
    # (element access through a variably modified element type: recorded finding KF-C10-5)
    body = "{ int n = (int) I(%d), m = (int) I(%d); %s a[n][m]; %s b[m]; %s (*p)[m]; int i; p = &b; n = 50;\n" % (n, m, el, el, el)
    body += "for (i = 0; i < %d; i++) b[i] = (%s) (i * 10 + 1);\n" % (m, el)
    body += g.T("sizeof a") + g.T("sizeof *p") +  g.T("sizeof(a[0])") + g.T("(*p)[%d]" % (m - 1)) + g.T("&(*p)[%d] == &b[%d]" % (m - 1, m - 1)) + g.T("sizeof(%s[n++])" % el) + g.T("n") + "m = 60;\n" + g.T("sizeof b") + g.T("sizeof a") + "m = %d;\n" % m
    body += "n = %d;\n" % n + g.T("%s(%d, %d, b)" % (f, n, m))
    body += "{ typedef %s row_[m]; row_ x; %s%s { row_ y; y[0] = 2; x[0] = 3; %s%s%s } }\n" % (el, g.T("sizeof x"), g.T("sizeof(row_)"), g.T("sizeof y"), g.T("x[0]"), g.T("y[0]"))
    body += "}\n"
    # (array parameters sized by earlier parameters: recorded finding KF-C10-1)
    dec = "static long %s(int n, int m, %s *b0) { %s (*b)[m]; b = (void *) b0; long s = (long) sizeof *b; s = s * 5 + n; return s * 3 + (long) (*b)[m - 1]; }\n" % (f, el, el)
    return dec, body


def vla_jumps(g):
    """jumps within and out of blocks release exactly the arrays that go out of scope"""
    r = g.r
    g.tags.add("vla_jumps")
    l = [g.id("lj") for _ in range(5)]
    names = []
    body = "{ int n = (int) I(%d), i, k = 0;\n" % r.randrange(1, 30)
    seeds = {}

    def vla(nm):
        seeds[nm] = r.randrange(1, 200)
        return "%s %s[n + %d]; fil(%s, sizeof %s, %d);\n" % (r.choice(["char", "short", "int", "long"]), nm, r.randrange(4), nm, nm, seeds[nm])

    def ck(live):
        return g.T(" + ".join("chk(%s, sizeof %s, %d) * %du" % (x, x, seeds[x], 2 * i + 1) for i, x in enumerate(live)))

    body += vla("a")
    if r.random() < .5:
        body += "if (I(%d)) goto %s; k = 3; %s: k++;\n" % (r.randrange(2), l[0], l[0])
    body += ck(["a"])
    live = ["a"]
    if r.random() < .7:
        body += "{ int w = 7; if (I(%d)) goto %s; %sif (I(%d)) goto %s; %s %s: k += w; }\n" % (r.randrange(2), l[1], "int pad_[5]; fil(pad_, sizeof pad_, 2); ", r.randrange(2), l[1], "k += pad_[1];", l[1])
    body += vla("b")
    live.append("b")
    if r.random() < .8:
        body += "%s: k++;\n" % l[2]
        if r.random() < .5:
            body += ck(["a", "b"])
        body += vla("c") + ck(["a", "b", "c"]) + "if (k < %d) goto %s;\n" % (r.randrange(2, 9), l[2])
        live.append("c")
    body += ck(live)
    stop = r.randrange(5)
    body += "for (i = 0; i < 4; i++) { if (i == %d) %s; %s" % (r.randrange(5), r.choice(["break", "continue", "goto %s" % l[3]]), vla("d"))
    body += "if (i == %d) %s; %s{ if (i == %d) %s; %s if (i == %d) %s; %s }\n" % (
        r.randrange(5), r.choice(["break", "continue"]), vla("e"), r.randrange(5), r.choice(["break", "continue", "goto %s" % l[3]]), vla("f"), stop, r.choice(["break", "continue", "goto %s" % l[3]]), ck(live + ["d", "e", "f"]))
    body += ck(live + ["d", "e"]) + "}\n%s: ;\n" % l[3] + ck(live) + g.T("k")
    if r.random() < .5:
        body += "switch (I(%d)) { case 0: { %s if (n) break; k++; } case 1: k += 5; { %s k++; } break; default: k += 9; }\n" % (r.randrange(3), vla("h"), vla("m_")) + ck(live) + g.T("k")
    return "", body + "}\n"


def tls(g):
    r = g.r
    g.tags.add("tls")
    a, b, c, w = g.id("tl"), g.id("tl"), g.id("tl"), g.id("wk")
    nz = r.randrange(1, 1000)
    ty = r.choice(["int", "long", "short", "char", "unsigned", "double"])
    dec = "static _Thread_local %s %s = %d; _Thread_local %s %s; static _Thread_local struct { char a[%d]; int b; char *p; } %s = { \"xy\", %d, 0 }; static int sh%s = 3; static _Thread_local char big%s[%d];\n" % (
        ty, a, nz % 100, r.choice(["int", "long"]), b, r.randrange(3, 9), c, nz, w, w, r.choice([1, 3, 100, 1000]))
    loc = r.random() < 0.6
    dec += "static void *%s(void *arg) { long *o = arg; %so[0] = (long) %s; o[1] = (long) %s; o[2] = %s.b + %s.a[1]; o[3] = big%s[sizeof big%s - 1]; %s += 2; %s = 9; %s.b = 1; big%s[0] = 7; o[4] = (long) %s + %s.b; o[5] = (o[6] != (long) &%s); sh%s++; %sreturn &%s; }\n" % (
        w, "static _Thread_local int tl = 5; tl += 3; o[7] = tl; " if loc else "", a, b, c, c, w, w, a, b, c, w, a, c, a, w, "" if loc else "o[7] = 0; ", a)
    e = g.T
    body = "{ long o[8]; unsigned long th; void *ret; %s = 50; %s = 60; %s.b = 70; o[6] = (long) &%s; o[5] = 0; o[7] = 0;\n" % (a, b, c, a)
    n = r.randrange(1, 4)
    for _ in range(n):
        body += "if (pthread_create(&th, (void *) 0, %s, o) == 0) pthread_join(th, &ret);\n" % w
        body += "".join(e("o[%d]" % k) for k in (0, 1, 2, 3, 4, 5, 7)) + e("%s" % a) + e(b) + e("%s.b" % c) + e("sh" + w) + e("big%s[0]" % w)
    body += "%s(o); %s%s%s }\n" % (w, e(a), e("o[0]"), e("o[7]"))
    return dec, body


def statics(g):
    """static objects: one instance, initialised once before start, per function / block / translation unit"""
    r = g.r
    g.tags.add("static_persist")
    f, h, v = g.id("sf"), g.id("sf"), g.id("s")
    i0 = r.randrange(-100, 100)
    dec = "static int %s = %d; static const char *%s_p = \"st%d\"; static int *%s_q = &%s;\n" % (v, i0, v, r.randrange(100), v, v)
    dec += "static int *%s(int d) { static int %s = %d; static int arr_[3] = { 1, 2 }; static int *self = &%s; { static int %s = 100; %s += 2; arr_[1] += %s; } %s += d; arr_[2] += %s; *self += 1; T(1, (unsigned) arr_[1]); T(2, (unsigned) arr_[2]); return &%s; }\n" % (f, v, i0 + 5, v, v, v, v, v, v, v)
    dec += "static int *%s(void) { static int %s; static double dd = 1.5; dd *= 2; %s += (int) dd; return &%s; }\n" % (h, v, v, v)
    body = "{ int *a = %s(1), *b = %s(2), *c = %s(), *d = %s();\n" % (f, f, h, h)
    body += g.T("a == b") + g.T("c == d") + g.T("a == c") + g.T("a == &%s" % v) + g.T("*a") + g.T("*c") + g.T(v) + g.T("*%s_q" % v) + "*%s_q = 77;\n" % v + g.T(v) + g.T("*a") + "TS(9, %s_p);\n" % v
    body += "{ extern int ext10; int loc = 4; { extern int ext10; %s ext10++; } %s } }\n" % (g.T("ext10 != loc + 1000"), g.T("*%s(3)" % f))
    return dec, body


def compound(g):
    """compound literals: automatic in a block (one object per entry), static at file scope"""
    r = g.r
    g.tags.add("compound_literal")
    v = g.id("cl")
    n = r.randrange(1, 6)
    dec = "struct %s_s { int a; char b[%d]; short c; }; static struct %s_s *%s_g = &(struct %s_s) { %d, { 1 }, 3 }; static int *%s_h = &(int[]) { 4, 5, 6 }[0];\n" % (v, n, v, v, v, r.randrange(100), v)
    body = "{ struct %s_s *p[3]; int i; for (i = 0; i < 3; i++) { struct %s_s *q = &(struct %s_s) { i, { 2 }, (short) I(i) }; q->a += 10; p[i] = q; %s%s }\n" % (v, v, v, g.T("q->a"), g.T("q->c"))
    body += "int *z = (int[]) { (int) I(3), 4 }, *y = (int[]) { 7, (int) I(8) }; z[0] = 11; y[1] += 2; %s%s%s" % (g.T("z[0] + z[1] * 100"), g.T("y[0] + y[1] * 100"), g.T("z != y && z + 1 != y"))
    body += g.T("%s_g->a" % v) + "%s_g->a++; %s_h[1] = 9;\n" % (v, v) + g.T("%s_g->a + %s_g->b[0] + %s_g->c" % (v, v, v)) + g.T("%s_h[0] + %s_h[1] * 10 + %s_h[2] * 100" % (v, v, v))
    body += "%s = (struct %s_s) { 5, { 6 } }; %s }\n" % ("*%s_g" % v, v, g.T("%s_g->a + %s_g->c + (long) sizeof((char[]) { 1, 2, 3 })" % (v, v)))
    return dec, body


def bigframe(g):
    r = g.r
    g.tags.add("big_frame")
    v = g.id("bf")
    n = r.choice([5000, 40000, 300000])
    dec = "static unsigned long %s(int d) { char lo; unsigned char big[%d]; char hi; lo = 3; hi = 5; fil(big, sizeof big, (unsigned) d); if (d > 0) { unsigned long y = %s(d - 1); lo += (char) y; } return chk(big, sizeof big, (unsigned) d) * 100 + (unsigned) (lo + hi); }\n" % (v, n, v)
    return dec, g.T("%s(%d)" % (v, r.randrange(1, 4)))


def many_params(g):
    """parameters are objects of the callee"""
    r = g.r
    g.tags.add("params")
    v = g.id("pa")
    n = r.randrange(1, 12)
    ts = [r.choice(["char", "short", "int", "long", "float", "double", "unsigned char", "long double", "void *"]) for _ in range(n)]
    args = ", ".join("%s p%d" % (t, i) for i, t in enumerate(ts))
    code = "static void %s(int d, %s) {\n" % (v, args)
    code += "".join("unsigned long k%d = chk(&p%d, 0, 0); fil(&p%d, sizeof p%d, %d);\n" % (i, i, i, i, i + 1) for i in range(n) if ts[i] != "_Bool")
    code += "if (d > 0) %s(d - 1%s);\n" % (v, "".join(", 0" for _ in ts))
    code += g.T(" + ".join("chk(&p%d, sizeof p%d, %d) + k%d" % (i, i, i + 1, i) for i in range(n)))
    code += "nlv = 0; " + "".join("lpush(&p%d, sizeof p%d); " % (i, i) for i in range(n)) + g.T("lover()") + "}\n"
    return code, "%s(2%s);\n" % (v, "".join(", 0" for _ in ts))


KINDS = [recursion, mutual, vla_loops, vla_types, vla_jumps, tls, statics, compound, bigframe, many_params]


def gen_one(r, u):
    g = G(r, str(u))
    if r.random() < 0.5:
        d, b = r.choice(KINDS)(g)
        return Item(d, b, sorted(g.tags), PREX + "int ext10 = 1000;\n")
    body = "int rep_; for (rep_ = 0; rep_ < %d; rep_++)\n" % r.choice([1, 2]) + g.block(r.choice([1, 2, 3, 4]))
    return Item("".join(g.decls), body, sorted(g.tags) or ["plain"], PREX + "int ext10 = 1000;\n")


def gen(r, n):
    return [gen_one(r, u) for u in range(n)]


def main():
    item_check("C10", gen, scale(420, 12000), 6,
               "one evaluation = one random scope/lifetime scenario: every live object carries a byte pattern that is re-verified, live objects are checked pairwise for overlap; distinct by source text",
               min_items=1000)
