"""C28: declarations, statements and expressions get the structure of the C17 grammar."""
from vf.core import *


class G:
    def __init__(self, r, u):
        self.r, self.u, self.n, self.k = r, u, 0, 0
        self.tags = set()

    def T(self, e):
        self.n += 1
        return "T(%d, (unsigned long long) (%s));\n" % (self.n, e)

    def id(self, p="v"):
        self.k += 1
        return "%s%d_%d" % (p, self.u, self.k)


BASE = ["int", "char", "unsigned", "long", "double", "short", "struct q28", "unsigned char", "long long", "float"]
QUAL = ["", "", "", "const", "volatile", "const volatile"]


def rand_type(g, depth):
    """a derivation: list of steps applied to a base type, outermost last: ('p', quals) ('a', n) ('f', params)"""
    r = g.r
    base = r.choice(BASE)
    steps = []
    for _ in range(depth):
        last = steps[-1][0] if steps else "o"
        c = [("p", r.choice(QUAL))] * 3
        if last != "f":
            c += [("a", r.randrange(1, 6))] * 2
        if last in ("o", "p"):
            c += [("f", [r.choice(["int", "char *", "double", "struct q28", "int (*)(int)", "int [3]", "long f(int)", "const char *p", "register int z", "void (*)(void)", "int a[], int n", "unsigned (*q)[2]", "..."]) for _ in range(r.randrange(0, 3))])]
        s = r.choice(c)
        if s[0] == "f":
            ps = [p for p in s[1] if p != "..."]
            if "..." in s[1] and ps:
                ps.append("...")
            # parameter names may not repeat
            seen, out = set(), []
            for p in ps:
                if p not in seen or "[" not in p and " " not in p and p.isidentifier():
                    out.append(p)
                seen.add(p)
            s = ("f", out)
        steps.append(s)
    return base, steps


def declarator(g, name, steps, noise=True):
    """text of a declarator of `name` with the derivation (innermost step first in `steps`)"""
    r = g.r
    t = name
    prec = 0   # 0 = direct declarator, 1 = pointer prefix
    for s in reversed(steps):
        if s[0] == "p":
            t = "*%s%s" % (s[1] + " " if s[1] else r.choice(["", " "]), t)
            prec = 1
        else:
            if prec == 1:
                t = "(%s)" % t
            if s[0] == "a":
                t = "%s[%s]" % (t, r.choice(["%d", "%d", "%d + 0", "sizeof(char[%d])", "(%d)", "0x%x"]) % s[1])
            else:
                t = "%s(%s)" % (t, ", ".join(s[1]) or "void")
            prec = 0
        if noise and name and r.random() < .15:
            t = "(%s)" % t
            prec = 0
    return t


def steps_typedef(g, base, steps):
    """the same type built by one typedef per step -> (declarations, name)"""
    out = ""
    cur = base
    for s in steps:
        n = g.id("t")
        if s[0] == "p":
            out += "typedef %s *%s %s;\n" % (cur, s[1], n)
        elif s[0] == "a":
            out += "typedef %s %s[%d];\n" % (cur, n, s[1])
        else:
            out += "typedef %s %s(%s);\n" % (cur, n, ", ".join(s[1]) or "void")
        cur = n
    return out, cur


def declarators(g):
    r = g.r
    dec, body = "", ""
    for _ in range(3):
        base, steps = rand_type(g, r.randrange(1, 7))
        d, tn = steps_typedef(g, base, steps)
        v = g.id("x")
        fn = steps[-1][0] == "f"
        dec += d
        spec = r.choice(["extern %s", "%s extern"]) % base if " " not in base or base.startswith("struct") else "extern %s" % base
        extra = ""
        if r.random() < .5:
            b2 = g.id("y")
            st2 = rand_type(g, r.randrange(0, 3))[1]
            extra = ", " + declarator(g, b2, st2)
            d2, tn2 = steps_typedef(g, base, st2)
            dec += d2
            body += g.T("_Generic(&%s, %s *: 1, default: 0)" % (b2, tn2))
            g.tags.add("declaration_list")
        dec += "%s %s%s;\n" % (spec, declarator(g, v, steps), extra)
        body += g.T("_Generic(&%s, %s *: 1, default: 0)" % (v, tn))
        # abstract declarator
        if fn:
            body += g.T("_Generic((%s) 0, %s *: 1, default: 0)" % (base + " " + declarator(g, "", steps + [("p", "")], False), tn))
        else:
            body += g.T("_Generic((%s) 0, %s *: 1, default: 0)" % (base + " " + declarator(g, "", steps + [("p", "")], False), tn))
            body += g.T("sizeof(%s) == sizeof(%s)" % (base + " " + declarator(g, "", steps, False), tn)) + g.T("sizeof %s" % v)
        # peel: the expression that mirrors the declarator has the base type
        e = v
        unq = True
        for s in reversed(steps):
            if s[0] == "p":
                e = "(*%s)" % e
            elif s[0] == "a":
                e = "%s[0]" % e
            else:
                e = None
                break
        if e and not base.startswith("struct"):
            body += g.T("_Generic(%s, %s: 1, default: 0)" % (e, base))
        # as parameter and as return type
        if not fn and r.random() < .5:
            f = g.id("f")
            dec += "void %s(%s %s);\nvoid %s(%s);\n" % (f, base, declarator(g, "p", steps), f, tn)
            g.tags.add("parameter")
        if steps[-1][0] == "p" and r.random() < .5:
            f = g.id("f")
            dec += "%s %s;\n" % (base, declarator(g, f, steps + [("f", ["int"])]))
            body += g.T("_Generic(%s(0), %s: 1, default: 0)" % (f, tn if not steps[-1][1] else "default" if False else tn)) if not steps[-1][1] else g.T("_Generic(&%s, %s (*)(int): 1, default: 0)" % (f, tn)) if False else g.T("sizeof %s(0)" % f)
            g.tags.add("function_returning")
        if r.random() < .3:
            s = g.id("ms")
            if not fn:
                dec += "struct %s { char c_; %s %s; } ;\n" % (s, base, declarator(g, "m", steps))
                body += g.T("_Generic(&((struct %s *) 0)->m, %s *: 1, default: 0)" % (s, tn))
                g.tags.add("member")
    g.tags.add("declarator")
    return dec, body


# ---- expressions with minimal parentheses -------------------------------------------------
BIN = [("*", 12), ("+", 11), ("-", 11), ("<<", 10), (">>", 10), ("<", 9), (">", 9), ("<=", 9), (">=", 9), ("==", 8), ("!=", 8), ("&", 7), ("^", 6), ("|", 5), ("&&", 4), ("||", 3)]


def ex(g, d, vs):
    """(text, precedence) of an unsigned expression"""
    r = g.r
    if d <= 0:
        k = r.random()
        if k < .6:
            return r.choice(vs), 16
        if k < .75:
            return "%du" % r.randrange(100), 16
        if k < .8:
            return "A[%s]" % ex(g, 0, vs[:1])[0] if False else "A[%d]" % r.randrange(4), 16
        if k < .87:
            return "S.m", 16
        if k < .94:
            return "PS->m", 16
        return "h28(%s, %s)" % (r.choice(vs), r.choice(vs)), 16

    def w(e, p):
        t, q = e
        return "(%s)" % t if q < p or r.random() < .04 else t
    k = r.random()
    if k < .6:
        op, p = r.choice(BIN)
        a = w(ex(g, d - 1, vs), p)
        if op in ("<<", ">>"):
            b = r.choice(["%d" % r.randrange(8), "(%s & 7u)" % r.choice(vs)])
        else:
            b = w(ex(g, d - 1, vs), p + 1)
        sp = r.choice(["", " "])
        if b[0] == op[-1] or (op == "-" and b[0] == "-") or (op == "+" and b[0] == "+") or (op == "&" and b[0] == "&"):
            sp = " "
        if a[-1] in "+-&<>|" :
            sp = " "
        return a + sp + op + sp + b, p
    if k < .72:
        t, q = ex(g, d - 1, vs)
        op = r.choice(["-", "~", "!", "+", "(unsigned)", "(unsigned char)", "(T28)", "sizeof ", "*&"])
        if op == "sizeof ":
            return "(unsigned) sizeof (%s)" % t, 14
        if op == "*&":
            v = r.choice(vs)
            return "*&" + v, 14
        b = w((t, q), 14)
        sp = " " if b[0] == op[0] else ""
        return op + sp + b, 14
    if k < .84:
        c, a, b = ex(g, d - 1, vs), ex(g, d - 1, vs), ex(g, d - 1, vs)
        return "%s ? %s : %s" % (w(c, 3), w(a, 0 if r.random() < .5 else 2), w(b, 2)), 2
    if k < .9:
        return "(%s, %s)" % (w(ex(g, d - 1, vs), 2), w(ex(g, d - 1, vs), 2)), 16
    if k < .95:
        g.side = True
        x = "w%d" % r.randrange(3)
        if x in g.used:
            return r.choice(vs), 16
        g.used.add(x)
        kk = r.random()
        if kk < .4:
            return "%s%s" % (x, r.choice(["++", "--"])), 15
        if kk < .7:
            return "%s%s" % (r.choice(["++", "--"]), x), 14
        return "%s %s %s" % (x, r.choice(["=", "+=", "-=", "*=", "^=", "|=", "&="]), w(ex(g, d - 1, vs), 2)), 1
    return "(%s)[A + 0]" % r.randrange(4) if r.random() < .5 else "*(A + %d)" % r.randrange(4), 14


def expressions(g):
    r = g.r
    g.tags.add("precedence")
    vs = ["a", "b", "c", "e"]
    body = "unsigned a = (unsigned) U(%d), b = (unsigned) U(%d), c = (unsigned) U(%d), e = 1; unsigned w0 = 3, w1 = 5, w2 = 9; unsigned A[4] = { 11, 22, 33, 44 }; struct { unsigned m; } S = { 77 }, *PS = &S; typedef unsigned short T28; (void) e; (void) A; (void) PS; (void) w0; (void) w1; (void) w2;\n" % (
        r.choice([0, 1, 2, 255, 65536, 4294967295]), r.choice([0, 1, 3, 17, 2147483648]), r.randrange(1000))
    for _ in range(8):
        g.used, g.side = set(), False
        t, p = ex(g, r.randrange(2, 5), vs)
        body += g.T(t)
        if g.side:
            body += g.T("w0 * 961u + w1 * 31u + w2")
    if r.random() < .3:
        body += "w0 = w1 = w2 = a; " + g.T("w0+++w1") + g.T("w0---w1") + g.T("w0+ ++w1") + g.T("- -w0- -1u") + g.T("w1=-1") + g.T("w0") + g.T("a?b:c?w1:w2") + g.T("w0=w1=a,7u") + g.T("a<b==c>e!=!a") + g.T("-a*b") + g.T("!a+b") + g.T("~a&b|c^e")
        body += g.T("sizeof(a)+1u") + g.T("sizeof a+1") + g.T("(a)+(b)") + g.T("(a)-b") + g.T("*&a*b") + g.T("&A[1]-A") + g.T("&S==PS&&a") + g.T("(T28)a+65536u") + g.T("(T28)-1") + g.T("sizeof(T28)*2") + g.T("a?b,c:e") + g.T("-PS->m") + g.T("++PS->m") + g.T("PS++->m") + g.T("(--PS)->m") + g.T("sizeof PS->m") + g.T("*A+1") + g.T("(*A)++") + g.T("*A") + g.T("2[A]") + g.T("!A[0]") + g.T("sizeof(int){1}+0u" if False else "(int){3}+1") + g.T("(unsigned[]){4,5}[1]") + g.T("(struct { int z; }){8}.z") + g.T("(int){2}*3")
    return "static unsigned h28_%d(unsigned x, unsigned y) { return x * 3 + y; }\n#undef h28\n#define h28 h28_%d\n" % (g.u, g.u), body


# ---- typedef names, scopes, name spaces ------------------------------------------------------
def names(g):
    r = g.r
    t = g.id("N")
    g.tags.add("names")
    dec = "typedef short %s;\nstatic int %s_g = 40; enum %s_e { %s_k = 11 };\n" % (t, t, t, t)
    N = t
    B = []
    a = B.append
    T = g.T
    # each snippet is a block
    sn = [
        lambda: "{ %s x = 5; %s y = 6; { int %s = 3; %s { int y = 2; %s } } %s %s (z) = 70000; %s }" % (N, N, N, T("sizeof %s" % N) + T("%s * x" % N), T("%s * y" % N) + T("(%s)-1" % N) + T("(%s)+(y)" % N), T("(%s)-1 < 0" % N) + T("sizeof(%s)" % N), N, T("z")),
        lambda: "{ %s *p = 0; { long %s = 3, p = 4; %s %s * p; %s } %s }" % (N, N, T("%s*p" % N), N, T("(%s)*p" % N), T("p == 0") + T("sizeof *p")),
        lambda: "{ struct %s { %s %s; int x; } %s = { 1, 2 }; %s goto %s; %s: %s }" % (N, N, N, N, T("%s.%s" % (N, N)) + T("sizeof(struct %s)" % N), N, N, T("%s.x" % N)),
        lambda: "{ %s %s = 4; %s %s += 1; %s }" % (N, N, T("%s" % N), N, T("sizeof %s + %s" % (N, N))),
        lambda: "{ for (%s %s = 2; %s < 5; %s++) { %s } { %s q = 1; %s } }" % (N, N, N, N, T(N), N, T("sizeof q")),
        lambda: "{ enum { %s = 9, q_ = %s + 1 }; %s %s }" % (N, N, T(N), T("q_") + T("(%s)*2" % N)),
        lambda: "{ int x = sizeof x; enum { e_ = sizeof(%s) }; %s { enum { e_ = e_ + 5, f_ = e_ * 2 }; %s } }" % (N, T("x") + T("e_"), T("e_") + T("f_")),
        lambda: "{ struct s_ { char c[3]; }; { struct s_ { struct s_ *n; int v; } a, *p = &a; a.n = p; a.v = 6; %s } { struct s_ { char c[9]; struct s_ *q; } *q = 0; %s } %s }" % (T("p->n->n->v") + T("sizeof(struct s_)"), T("sizeof *q"), T("sizeof(struct s_)")),
        lambda: "{ int y = %s_g; { int %s_g = 2; { extern int ext28; %s } %s } %s }" % (N, N, T("ext28"), T("%s_g + y" % N), T("%s_g" % N)),
        lambda: "{ int i = 5; for (int i = 0; i < 2; i++) { int i = 7; %s } %s if (i) { int i = 3; %s } while (i > 4) { i--; int i = 9; %s } %s }" % (T("i"), T("i"), T("i"), T("i"), T("i")),
        lambda: "{ union { struct { int %s; }; char c; } u = { { 33 } }; %s struct { struct { int a, b; } x; union { int c; struct { char d; }; }; } z = { { 1, 2 }, { 3 } }; %s }" % (N, T("u.%s" % N), T("z.x.b") + T("z.c") + T("z.d")),
        lambda: "{ struct { int x; } x = { 4 }; struct x { int y; } y = { 5 }; int z = x.x + y.y; x: z += 0; if (z > 100) goto x; %s }" % T("z"),
        lambda: "{ %s (*f_)(%s (x), int (%s)); f_ = 0; %s %s }" % (N, N, N, T("f_ == 0"), T("sizeof f_(1, 0)")),
        lambda: "{ typedef int A_[2], *P_, F_(int); A_ a = { 1, 2 }; P_ p = a; F_ *q = 0; const P_ cp = p; %s { typedef char A_; A_ c = 3; { unsigned A_; %s } } }" % (T("sizeof(A_)") + T("p[1] + cp[0]") + T("q == 0"), "A_ = 4; " + T("sizeof A_ + c + A_")),
        lambda: "{ int o_ = 3; { int o_ = 8, p_ = o_; %s } %s }" % (T("p_"), T("o_")),
        lambda: "{ if (I(%d)) if (I(%d)) %s else %s }" % (r.randrange(2), r.randrange(2), T("1"), T("2")),
        lambda: "{ int k = 0; if (I(%d)) for (;;) if (k++ > 2) break; else continue; else k = 50; %s do if (k) k--; else break; while (k); %s }" % (r.randrange(2), T("k"), T("k")),
        lambda: "{ int k = 0; if (I(%d)) while (k < 3) if (k == 1) { k += 5; } else k++; else { k = 9; } %s switch (k) case 6: default: k++; %s ; ; { } %s }" % (r.randrange(2), T("k"), T("k"), T("k + 1")),
        lambda: "{ int k = 1; L_: M_: if (k < 3) { k++; goto L_; } switch (k) { case 1: case 2: k = 90; break; { case 3: k += 20; } default: k += 100; } %s }" % T("k"),
        lambda: "{ const int static x = 3; int const y = 4; long unsigned int typedef ul_; ul_ z = 5; static const struct { int a; } inline_ = { 6 }; int unsigned volatile long w = 7; %s }" % (T("x + y + z + inline_.a + w") + T("_Generic(&w, volatile unsigned long *: 1, default: 2)")),
        lambda: "{ char a[] = \"a\" \"b\"\n\"c\"; int b[] = { [3] = 1, 2 }, c[2][2] = { { 1 }, { 2, 3 } }; %s }" % (T("sizeof a") + T("sizeof b / sizeof *b") + T("c[0][1] * 100 + c[1][1]")),
        lambda: "{ int x <: 2 :> = <%% 1, 2 %%>; %s }" % T("x<:1:>"),
        lambda: "{ int x = (int) sizeof(struct t_ { int a; char b[20]; }); struct t_ v; enum { z_ = sizeof(enum ee_ { K_ = 7 }) }; enum ee_ w = K_; v.a = K_; %s }" % (T("x + v.a") + T("sizeof v + z_ + w")),
        lambda: "{ _Static_assert(sizeof(%s) == 2, \"size\"); struct { _Static_assert(1, \"x\"); int a; } s = { 3 }; ; _Static_assert(1 ? 2 : 0, \"\"); %s }" % (N, T("s.a")),
        lambda: "{ int n = 3; int (*fp)(int), *ip = &n, arr[2] = { n, n + 1 }, (*pa)[2] = &arr; fp = fn28; %s }" % (T("fp(1) + *ip + (*pa)[1]") + T("(*fp)(2)") + T("(***fp)(3)") + T("(&fn28)(4)")),
        lambda: "{ int a = 1, b = a + 1, *c = &b, d = *c * 2; %s }" % T("a + b * 10 + d * 100"),
        lambda: "{ register int a = 4; auto int b = 5; register struct { int q; } s = { 6 }; %s }" % T("a + b + s.q"),
        lambda: "{ int knr28_(); %s }" % T("fn28(3)"),
        lambda: "{ int %s = 3, z = %s * 2, *p = &%s, w = (%s) - 1; %s }" % (N, N, N, N, T("z + *p + w")),
        lambda: "{ int x = sizeof(%s), %s = x * 2, y = sizeof %s; %s }" % (N, N, N, T("x + y + %s" % N)),
        lambda: "{ for (int %s = 1, q = (%s) + 1; %s < q; %s++) %s %s z = 3; %s }" % (N, N, N, N, T("(%s) * 2 + q" % N), N, T("sizeof z")),
        lambda: "{ struct { %s m; } a = { 3 }, %s = { 4 }, *p = &%s; %s }" % (N, N, N, T("a.m + p->m + %s.m" % N)),
        lambda: "{ typedef long %s; %s v = 1; { typedef char %s, *q_t; q_t p = 0; %s c = 2; (void) p; %s } %s }" % (N, N, N, N, T("sizeof c + sizeof *p + sizeof(%s)" % N), T("sizeof v + sizeof(%s)" % N)),
    ]
    body = ""
    for s in r.sample(sn, 6):
        body += s() + "\n"
    return dec, body


def functions(g):
    """function definitions in unusual but valid shapes"""
    r = g.r
    f = g.id("fd")
    g.tags.add("function_shapes")
    shapes = [
        ("static int (%s)(int (x), int y[]) { return x + y[1]; }\n" % f, "%s(3, (int[]) { 4, 5 })" % f),
        ("static int (*%s(int a))(int) { return a ? fn28 : 0; }\n" % f, "%s(1)(7)" % f),
        ("static int (*(*%s)(int))(int); static int (*%s_i(int a))(int) { return a ? fn28 : 0; }\n" % (f, f), "(%s = %s_i)(1)(9)" % (f, f)),
        ("typedef int %s_t(int); static %s_t %s; static int %s(int a) { return a * 2; }\n" % (f, f, f, f), "%s(21)" % f),
        ("static int (*%s(void))[3] { static int z[3] = { 1, 2, 3 }; return &z; }\n" % f, "(*%s())[2]" % f),
        ("static int %s(int a, int (*cb)(int), int (*arr)[2], const char *restrict s) { return cb(a) + (*arr)[1] + s[0]; }\n" % f, "%s(1, fn28, &(int[2]) { 5, 6 }, \"A\")" % f),
        ("static int %s(int cb(int), int n, int m[n]) { return cb(m[n - 1]); }\n" % f if False else "static int %s(int cb(int), int n, int m[static 1]) { return cb(m[n - 1]); }\n" % f, "%s(fn28, 2, (int[]) { 5, 6 })" % f),
        ("static inline int %s(struct { int a; } *p);\n" % f if False else "static inline int %s(void) { struct l { int a; } v = { 4 }; typedef struct l L; L *q = &v; return q->a; }\n" % f, "%s()" % f),
        ("static int %s(int a) { if (a) return 1; else return 2; }\n" % f, "%s(0) * 10 + %s(1)" % (f, f)),
        ("static struct q28 %s(struct q28 s) { s.b++; return s; }\n" % f, "%s((struct q28) { 1, 2 }).b" % f),
        ("static int %s(a, b) int a; char *b; { return a + b[0]; }\n" % f, "%s(1, \"B\")" % f),
        ("static const char *const %s[] = { \"x\", \"yz\", }; static int %s_f(const char *const *p, unsigned n) { return p[n][0]; }\n" % (f, f), "%s_f(%s, 1)" % (f, f)),
        ("static void (%s_v)(void) { } static int %s(int n, ...) { (void) n; %s_v(); return n; }\n" % (f, f, f), "%s(3, 4, 5.0)" % f),
        ("int static %s(int const x) { return x + 1; } ;\n" % f if False else "int static %s(int const x) { return x + 1; }\n" % f, "%s(1)" % f),
        ("static int %s(int (*(*x)[2])(int)) { return (*x)[1](5); }\n" % f, "%s(&(int (*[2])(int)) { 0, fn28 })" % f),
        ("static int %s(int x) { { { return x ; } } }\n" % f, "%s(6)" % f),
        ("typedef short F_t; static int F(F_t F_t) { return (F_t) - 1 + sizeof F_t * 10; } static F_t F_g = 3;\n".replace("F", f), "F(5) * 1000 + F_g + sizeof(F_t)".replace("F", f)),
        ("typedef short F_t; static int F(int F_t, char b) { { typedef long F_u; F_u z = F_t; F_t *b_ = 0; F_t *= 2; (void) b_; return z * F_t + b; } }\n".replace("F", f).replace("%s_t *b_ = 0; " % f, "int *b_ = 0; "), "F(5, 1)".replace("F", f)),
        ("typedef long F_t; static int F(a, b) F_t a; char b; { F_t F_t = a; return (F_t) * b; } static F_t F_h = 6; static F_t a_F_, b;\n".replace("F", f).replace(", b;", ";"), "F(7L, 3) + F_h * 100 + sizeof(F_t) + a_F_".replace("F", f)),
        ("typedef char F_t; static int F(int (*F_t)(int), int n) { return (F_t)(n) + F_t(1); } static F_t F_c = 'x';\n".replace("F", f), "F(fn28, 4) + sizeof F_c".replace("F", f)),
        ("typedef char F_t; static int F(int n, int F_t[2]) { int q = 2; { return n + F_t[1] * q - (F_t)[0]; } } static F_t F_c[3];\n".replace("F", f), "F(4, (int[2]) { 5, 6 }) + sizeof F_c".replace("F", f)),
        ("typedef char F_t; static int F_p(F_t F_t, int); static int F(void) { F_t F_t = 3; return F_t; } static int F_p(F_t z, int F_t) { return F_t + z; }\n".replace("F", f), "F() + F_p(1, 2)".replace("F", f)),
    ]
    dec, body = "", ""
    d, e = r.choice(shapes)
    if r.random() < .9:
        dec += d
        body += g.T(e)
    return dec, body


PREAMBLE = "struct q28 { char a; int b; };\nint ext28 = 1234; static int fn28(int x) { return x * 5 + 1; }\n"
KINDS = [declarators] * 4 + [expressions] * 4 + [names] * 3 + [functions] * 2


def gen_one(r, u):
    g = G(r, u)
    d, b = r.choice(KINDS)(g)
    return Item(d, b, tuple(sorted(g.tags)), pre=PREAMBLE)


def gen(r, n):
    return [gen_one(r, u) for u in range(n)]


def main():
    item_check("C28", gen, scale(400, 8000), 6,
               "one evaluation = one random set of declarators, minimally parenthesised expressions or scoping fragments, observed by _Generic, sizeof and values; distinct by source text",
               min_items=1000)
