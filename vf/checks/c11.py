"""C11: accesses to aggregates, arrays and pointers touch exactly the designated object."""
from vf.core import *
from vf.tygen import *
from vf.interop import byvalue_ok


class G:
    def __init__(self, r, u):
        self.r, self.u, self.n, self.k = r, u, 0, 0
        self.tags = set()

    def T(self, e):
        self.n += 1
        return "T(%d, (unsigned long long) (%s));\n" % (self.n, e)

    def id(self, p="v"):
        self.k += 1
        return "%s%d_%d" % (p, self.u, self.k)


def alt(r, path, base, ptr):
    """another spelling of the lvalue `path` that starts at object `base` (to which `ptr` points)"""
    rest = path[len(base):]
    k = r.randrange(6)
    if rest.startswith("."):
        head = r.choice(["%s->%s", "(*%s).%s", "%s[0].%s", "(&*%s)->%s", "(%s + 0)->%s"]) % (ptr, rest[1:])
    else:
        head = r.choice(["(*%s)%s", "%s[0]%s"]) % (ptr, rest)
    # index spellings
    out = ""
    i = 0
    while i < len(head):
        out += head[i]
        i += 1
    if out.endswith("]") and r.random() < .5:
        j = out.rindex("[")
        a, n = out[:j], out[j + 1:-1]
        if not a.endswith(ptr):
            out = r.choice(["*(%s + %s)", "%s[I(%s)]", "(%s)[%s + 0u]", "*(&(%s)[0] + %s)", "(%s + 1)[%s - 1]"]) % (a, n)
            if out[0] == "*":
                out = "(%s)" % out
    return out


def fold(ls, fn, decl):
    """a function that folds every leaf into one number"""
    code = "static unsigned long long %s(const %s) { unsigned long long h = 7;\n" % (fn, decl)
    for l in ls:
        t = l.ty
        e = "(*p)" + l.path
        if t.kind == "ptr":
            c = "(unsigned long) %s" % e
        elif t.kind == "sc" and t.it is None:
            c = "(unsigned long long) (long long) (%s * 8)" % e
        else:
            c = "(unsigned long long) %s" % e
        code += "h = h * 1000003u + %s;\n" % c
    return code + "return h; }\n"


def scenario(g):
    r = g.r
    tg = Gen(r, "%d_%d" % (g.u, g.k), maxm=r.choice([2, 3, 5, 7]), alignas=r.random() < .3)
    ty = tg.su(r.choice([0, 1, 1, 2, 2]))
    ls = leaves(ty, "", first_only=True)
    if len(ls) > 60 or not ls:
        return scenario(g)
    g.tags |= tg.tags
    W, f = g.id("W"), g.id("fo")
    nel = r.choice([1, 2, 3, 5])
    decl = tg.text() + "struct %s { unsigned char g0[16]; %s; unsigned char g1[16]; };\n" % (W, ty.decl("o[%d]" % nel))
    decl += fold(ls, f, ty.decl("*p"))
    ob = g.id("ob")
    decl += "static unsigned long long %s(struct %s *w) { unsigned long long h = 0; int i; for (i = 0; i < 16; i++) h += (w->g0[i] != 0xA0 + i) + 100 * (w->g1[i] != 0xB0 + i); for (i = 0; i < %d; i++) h = h * 31 + %s(&w->o[i]); return h; }\n" % (ob, W, nel, f)
    ini = g.id("in")
    decl += "static void %s(struct %s *w, unsigned s) { unsigned char *q = (unsigned char *) w; unsigned long i; for (i = 0; i < sizeof *w; i++) q[i] = 0; for (i = 0; i < 16; i++) { w->g0[i] = (unsigned char) (0xA0 + i); w->g1[i] = (unsigned char) (0xB0 + i); }\n" % (ini, W)
    decl += "for (i = 0; i < %d; i++) { s = s * 7 + 3;\n" % nel
    for j, l in enumerate(ls):
        e = "w->o[i]" + l.path
        t = l.ty
        if t.kind == "ptr":
            decl += "%s = (void *) (unsigned long) (s + %d);\n" % (e, j)
        elif t.kind == "enum":
            decl += "%s = %d;\n" % (e, t.consts[j % len(t.consts)])
        elif t.it is None:
            decl += "%s = (s & 1023) + %d;\n" % (e, j)
        elif l.bits is not None:
            decl += "%s = (s + %d) & %d;\n" % (e, j * 5, (1 << max(0, min(l.bits, 30) - 1)) - 1 if t.it.signed else 1)
        else:
            decl += "%s = (s * %d + %d) & 127;\n" % (e, 2 * j + 1, j)
    decl += "} }\n"
    byv, ret, cp = g.id("bv"), g.id("rt"), g.id("cp")
    l0 = r.choice(ls)
    val = byvalue_ok(ty) and "alignas" not in tg.tags   # (classes kefir cannot pass by value: recorded findings of C07)
    V = lambda l, const=False: value(r, l, const)
    T1 = ty.decl("")
    if val:
        decl += "static unsigned long long %s(%s, int n) { unsigned long long h = %s(&a); a%s = %s; if (n > 0) h = h * 3 + %s(a, n - 1); return h * 5 + %s(&a); }\n" % (byv, ty.decl("a"), f, l0.path, V(l0), byv, f)
        decl += "static %s { %s; c = *p; c%s = %s; return c; }\n" % (ty.decl("%s(%s)" % (ret, ty.decl("*p"))), ty.decl("c"), l0.path, V(l0))
    where = r.choice(["static ", "", ""])
    body = "%sstruct %s x, y; struct %s *px = &x, *py = &y; %s = &x.o[%d]; int i_ = 0;\n%s(px, %d); %s(py, %d);\n" % (
        where, W, W, ty.decl("*pt"), r.randrange(nel), ini, r.randrange(1000), ini, r.randrange(1000))
    chk = lambda: g.T("%s(px)" % ob) + g.T("%s(py)" % ob)
    body += chk()
    idx = lambda: str(r.randrange(nel)) if r.random() < .6 else "I(%d)" % r.randrange(nel)
    el = lambda: r.choice(["x.o[%s]", "px->o[%s]", "y.o[%s]", "(*py).o[%s]", "*(x.o + %s)", "*(&y.o[0] + %s)"]) % idx()

    def E(e):
        return "(%s)" % e if e[0] == "*" else e
    subs = [(p, t) for p, t in member_paths(ty, "") if t.kind in ("su", "arr")]
    for _ in range(r.randrange(4, 12)):
        k = r.randrange(17) if val else r.choice([0, 3, 4, 6, 7, 11, 12, 13, 14, 15, 16])
        l = r.choice(ls)
        if k <= 2:
            e = E(el())
            if r.random() < .5:
                body += "pt = &%s; %s = %s;\n" % (e, alt(r, "Z" + l.path, "Z", "pt").replace("Z" + l.path, "pt[0]" + l.path), V(l))
            else:
                body += "%s%s = %s;\n" % (e, l.path, V(l))
            g.tags.add("store")
        elif k == 3 and l.bits is None:
            q = g.id("q")
            body += "{ %s = &%s%s; *%s = %s; }\n" % (l.ty.decl("*" + q) if l.ty.kind != "ptr" or l.ty.base != "fn" else "int (**%s)(int)" % q, E(el()), l.path, q, V(l))
            g.tags.add("leaf_pointer")
        elif k <= 5:
            a, b = el(), el()
            body += r.choice(["%s = %s;\n", "%s = (i_++, %s);\n", "*&%s = %s;\n"]) % (E(a), b)
            g.tags.add("assign")
        elif k == 6:
            body += "%s = %s = %s;\n" % (E(el()), E(el()), el())
            g.tags.add("assign_chain")
        elif k == 7:
            body += "%s = I(%d) ? %s : %s;\n" % (E(el()), r.randrange(2), el(), el())
            g.tags.add("assign_cond")
        elif k == 8:
            body += g.T("%s(%s, %d)" % (byv, el(), r.randrange(4)))
            g.tags.add("by_value")
        elif k == 9:
            body += "%s = %s(&%s);\n" % (E(el()), ret, E(el()))
            g.tags.add("by_return")
        elif k == 10 and not l.ty.kind == "ptr":
            c = "(unsigned long long) (long long)" if l.ty.kind == "sc" and l.ty.it is None else ""
            # (an array member of a returned value is not an lvalue: only scalars along plain member paths)
            if "[" not in l.path:
                body += g.T("%s %s(&%s)%s" % (c, ret, E(el()), l.path))
                g.tags.add("return_member")
        elif k == 11 and subs:
            p, t = r.choice(subs)
            if t.kind == "su":
                body += "%s%s = %s%s;\n" % (E(el()), p, E(el()), p)
                g.tags.add("sub_assign")
            else:
                e1, e2 = t.el, None
                if t.el.kind != "arr":
                    body += "for (i_ = 0; i_ < %d; i_++) %s%s[i_] = %s%s[%d - 1 - i_];\n" % (t.n, E(r.choice(["x.o[%s]", "px->o[%s]"]) % idx()).replace("I(", "(int) I("), p, E("y.o[%s]" % r.randrange(nel)), p, t.n)
                    g.tags.add("array_copy")
        elif k == 12:
            body += "*px = *py;\n" if r.random() < .5 else "{ struct %s t_ = x; x = y; y = t_; }\n" % W
            g.tags.add("whole_copy")
        elif k == 13:
            a, b = r.randrange(nel), r.randrange(nel)
            body += g.T("&x.o[%d] - &px->o[%d]" % (a, b)) + g.T("(&x.o[%d] < &x.o[%d]) + 2 * (&x.o[%d] == x.o + %d) + 4 * (&x.o[%d] >= &px->o[%d]) + 8 * (&x.o[0] != (void *) &x)" % (a, b, a, b, b, a))
            body += g.T("(char *) (x.o + %d) - (char *) x.o == %d * (long) sizeof(%s)" % (a, a, T1))
            g.tags.add("pointer_compare")
        elif k == 14:
            s = r.randrange(1, nel + 1)
            body += "for (pt = px->o + %d; pt > px->o; ) { %s; i_ += (int) (pt - x.o); %s = %s; }\n" % (
                s, r.choice(["pt--", "--pt", "pt -= 1", "pt = pt - 1", "pt = &pt[-1]", "pt += -1"]), "pt->" + l.path[1:] if l.path[0] == "." else "(*pt)" + l.path, V(l)) + g.T("i_") + "i_ = 0; pt = x.o;\n"
            g.tags.add("pointer_walk")
        elif k == 15:
            body += "for (pt = y.o; pt != y.o + %d; ) { %s = *%s; } pt = &y.o[0];\n" % (nel, E("x.o[pt - y.o]"), r.choice(["pt++", "pt++", "(pt += 1, pt - 1)", "(++pt - 1)"])) if r.random() < 2 else ""
            # the left side reads pt and the right side changes it: keep them sequenced
            body = body.replace("x.o[pt - y.o] = *pt++;", "x.o[pt - y.o] = *pt; pt++;").replace("x.o[pt - y.o] = *(pt += 1, pt - 1);", "x.o[pt - y.o] = *pt; pt += 1;").replace("x.o[pt - y.o] = *(++pt - 1);", "x.o[pt - y.o] = *pt; ++pt;")
            g.tags.add("pointer_walk")
        elif k == 16:
            body += "%s = %s;\n" % (E(el()), "(%s) { 0 }" % T1) if r.random() < .5 else "{ %s = %s; tmp_%s = %s; %s = tmp_; }\n" % (ty.decl("tmp_"), el(), l.path, V(l), E(el()))
            g.tags.add("temporary")
        body += chk()
    return decl, body


def multidim(g):
    """rectangular arrays and pointers to rows"""
    r = g.r
    el = r.choice(["char", "short", "int", "long", "double", "unsigned char", "float"])
    d = [r.randrange(1, 5) for _ in range(r.choice([2, 2, 3, 3, 4]))]
    dims = "".join("[%d]" % x for x in d)
    nm = g.id("md")
    g.tags.add("multidim")
    flat = 1
    for x in d:
        flat *= x
    f = g.id("rf")
    sub = "".join("[%d]" % x for x in d[1:])
    decl = "static struct { %s b; %s a%s; %s c; } %s;\n" % (el, el, dims, el, nm)
    par = r.choice(["%s (*p)%s" % (el, sub), "%s p[]%s" % (el, sub), "%s p[%d]%s" % (el, d[0], sub), "%s p[static 1]%s" % (el, sub), "%s p[const]%s" % (el, sub)])
    ix = lambda: "".join("[%d]" % r.randrange(x) for x in d)
    decl += "static long %s(%s, int n) { long s = 0; int i; for (i = 0; i < n; i++) { s = s * 3 + (long) p[i]%s; p[i]%s = (%s) (i + 9); } return s + (long) sizeof *p; }\n" % (f, par, "".join("[%d]" % r.randrange(x) for x in d[1:]), "".join("[%d]" % r.randrange(x) for x in d[1:]), el)
    v = nm + ".a"
    body = "%s *q; %s (*row)%s; int i, s = 0; q = &%s%s; for (i = 0; i < %d; i++) q[i] = (%s) (i * 3 + 1); %s.b = 101; %s.c = 102; row = %s;\n" % (el, el, sub, v, "[0]" * len(d), flat, el, nm, nm, v)

    def spell():
        e = v
        for x in d:
            i = r.randrange(x)
            k = r.randrange(5)
            if e == v and k == 4:
                e = "row[%d]" % i
            elif k == 0:
                e = "(*(%s + %d))" % (e, i)
            elif k == 1:
                e = "%s[I(%d)]" % (e, i)
            elif k == 2:
                e = "%s[(unsigned char) %d]" % (e, i)
            else:
                e = "%s[%d]" % (e, i)
        return e
    obs = "for (i = s = 0; i < %d; i++) s = s * 5 + (int) q[i];\n" % flat + g.T("s") + g.T("%s.b + %s.c" % (nm, nm))
    for _ in range(r.randrange(3, 9)):
        k = r.randrange(8)
        if k <= 2:
            body += "%s %s %d;\n" % (spell(), r.choice(["=", "=", "+=", "-="]), r.randrange(100)) if el not in ("char",) else "%s = %d;\n" % (spell(), r.randrange(100))
        elif k == 3:
            body += g.T("(long) %s" % spell())
        elif k == 4:
            body += g.T("%s(%s, %d)" % (f, r.choice([v, "&%s[0]" % v, "row"]), r.randrange(d[0] + 1)))
        elif k == 5:
            body += "for (row = %s; row < %s + %d; row++) (*row)%s += 2; row = %s;\n" % (v, v, d[0], "".join("[%d]" % r.randrange(x) for x in d[1:]), v) if len(d) > 1 else ""
        elif k == 6:
            body += g.T("&%s%s - &%s%s" % (v, ix(), v, ix())) if False else g.T("(char *) &%s%s - (char *) %s" % (v, ix(), v)) + g.T("&%s[%d] - row" % (v, r.randrange(d[0])))
        else:
            body += g.T("(long) sizeof(%s) + (long) sizeof *%s" % (v, v)) + g.T("**(%s *) (void *) %s == 0" % ("char (*)[1]", v)) if False else g.T("sizeof %s[0]" % v)
        body += obs
    return decl, body


def links(g):
    """pointer structures: lists, trees, tables of function pointers"""
    r = g.r
    n = r.randrange(3, 9)
    s, fn = g.id("ln"), g.id("fp")
    g.tags.add("linked")
    pad = r.choice(["", "char c; ", "char c[3]; ", "short s; double d; ", "unsigned b : 5; "])
    decl = "struct %s { %sstruct %s *nx, **pp; int v; struct { int (*f)(int); struct %s *in[2]; } k[2]; };\n" % (s, pad, s, s)
    decl += "static int %s_0(int x) { return x * 3 + 1; }\nstatic int %s_1(int x) { return x - 7; }\nstatic int (*%s_t[3])(int) = { %s_0, &%s_1, %s_0 };\n" % (fn, fn, fn, fn, fn, fn)
    body = "struct %s nd[%d], *h = 0, *p, **pp; int i, s = 0;\nfor (i = 0; i < %d; i++) { nd[i].v = i * i; nd[i].nx = h; h = nd + i; nd[i].k[0].f = %s_t[i %% 3]; nd[i].k[1].f = *%s_t[(i + 1) %% 3]; nd[i].k[i & 1].in[0] = &nd[(i * 2) %% %d]; nd[i].k[i & 1].in[1] = &nd[(i * 5 + 1) %% %d]; nd[i].k[!(i & 1)].in[0] = nd[i].k[1 - i %% 2].in[1] = nd; nd[i].pp = &nd[i].nx; }\n" % (s, n, n, fn, fn, n, n)
    ob = "for (s = 0, p = h, i = 0; p && i < 50; p = p->nx, i++) s = s * 3 + p->v;\n" + g.T("s") + g.T("i")
    ops = ["for (pp = &h; *pp; pp = &(*pp)->nx) if ((*pp)->v == %d) { *pp = (*pp)->nx; break; }\n" % (r.randrange(n) ** 2),
           "p = 0; while (h) { struct %s *t = h->nx; h->nx = p; p = h; h = t; } h = p;\n" % s,
           "for (p = h; p; p = p->nx) p->v = p->k[p->v & 1].f(p->v);\n",
           "for (p = h; p; p = p->nx) p->v += (*p->k[1].in[0]).k[0].in[1]->v & 15;\n",
           "for (p = h; p; p = p->nx) p->v ^= (int) (p->k[0].in[1] - nd);\n",
           "for (p = h; p && p->nx; p = p->nx) { int t = p->v; p->v = p->nx->v; p->nx->v = t; }\n",
           "*h->pp = h->nx ? h->nx->nx : h->nx;\n", "if (h) h = *h->pp;\n",
           "s = (***%s_t)(%d) + (*h->k[0].f)(2) + (&*h)->k[1].f(3);\n" % (fn, r.randrange(50)) + g.T("s"),
           "if (h && h->nx) { struct %s c = *h; *h = *h->nx; h->pp = &h->nx; h->v += c.v; }\n" % s]
    body += ob
    for _ in range(r.randrange(2, 7)):
        body += "if (h) { %s }\n" % r.choice(ops) + ob
    return decl, body


def puns(g):
    """unions and character access: every byte of an object is where the representation says"""
    r = g.r
    g.tags.add("pun")
    u = g.id("U")
    decl = "union %s { unsigned long long q[2]; unsigned char b[16]; unsigned short h[8]; unsigned w[4]; struct { unsigned char a; unsigned short m; unsigned z; unsigned long e; } s; double d; float f[4]; struct { char x[5]; union { int i; signed char c[4]; } y; } n; };\n" % u
    body = "union %s a, b, *p = &a; int i; unsigned long k; for (i = 0; i < 16; i++) a.b[i] = (unsigned char) (i * 17 + %d); b = a;\n" % (u, r.randrange(256))
    acc = ["q[%d]" % r.randrange(2), "b[%d]" % r.randrange(16), "h[%d]" % r.randrange(8), "w[%d]" % r.randrange(4), "s.a", "s.m", "s.z", "s.e", "n.x[%d]" % r.randrange(5), "n.y.i", "n.y.c[%d]" % r.randrange(4)]
    for _ in range(r.randrange(4, 10)):
        x = r.choice(acc)
        o = r.choice(["a.", "p->", "b.", "(*p)."])
        op = r.choice(["= %d" % r.randrange(256), "^= 0x5a", "+= 77", "|= 3", "&= 0xf0", "<<= 1", "++", "--"])
        if x in ("n.y.i", ) or x.startswith("n.y.c") or x.startswith("n.x"):
            op = r.choice(["= %d" % r.randrange(100), "^= 0x5a", "|= 3"])
        body += "%s%s %s;\n" % (o, x, op)
        if r.random() < .4:
            body += r.choice(["b.s = a.s;\n", "a.n.y = b.n.y;\n", "b = *p;\n", "p = p == &a ? &b : &a;\n", "((unsigned char *) p)[%d] ^= 9;\n" % r.randrange(16), "*(unsigned short *) (void *) &p->h[%d] += 5;\n" % r.randrange(8)])
        g.n += 2
        body += "b.s = b.s;\n" if False else ""
        body += "TB(%d, a.b + 8, 8); TB(%d, &b.w[1], 12);\n" % (g.n - 1, g.n)
        body += g.T("a.b[0] + 256 * a.b[2] + 65536 * a.b[3]") + g.T("p->h[3]") + g.T("p->n.y.c[1]")
    return decl, body


KINDS = [scenario] * 6 + [multidim] * 2 + [links, puns]


def gen_one(r, u):
    g = G(r, u)
    d, b = r.choice(KINDS)(g)
    return Item(d, b, tuple(sorted(g.tags)) or ("plain",))


def gen(r, n):
    return [gen_one(r, u) for u in range(n)]


def main():
    item_check("C11", gen, scale(420, 8000), 6,
               "one evaluation = one random data structure and access history; after every access all leaves of both objects and their guard bytes are observed; distinct by source text",
               min_items=1000, assumptions=["padding bytes are not observed"])
