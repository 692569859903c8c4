"""C26: language extensions apply exactly when enabled and mean what they say."""
from vf.core import *
from vf import corpus

ALL = ["fail-on-attributes", "missing-function-return-type", "designated-init-colons", "labels-as-values", "non-strict-qualifiers", "signed-enums", "implicit-function-decl", "empty-structs",
       "ext-pointer-arithmetics", "missing-braces-subobj", "statement-expressions", "omitted-conditional-operand", "int-to-pointer"]


class G:
    def __init__(self, r, u, on):
        self.r, self.u, self.on, self.k, self.n = r, u, on, 0, 0
        self.used = set()
        self.dec = ""
        self.inl = 0   # inside a loop of the innermost function body

    def id(self, p="v"):
        self.k += 1
        return "%s%d_%d" % (p, self.u, self.k)

    def T(self, e):
        self.n += 1
        return "T(%d, (unsigned long long) (%s));\n" % (self.n, e)

    # ---- unsigned int expressions, free of undefined behaviour; ev() reports its evaluation
    def e(self, d, vs):
        r = self.r
        if d <= 0 or r.random() < .12:
            return r.choice(vs + ["%du" % r.choice([0, 0, 1, 2, 7, 255, 4294967295]), "EV(%d, %d)" % (self.nx(), r.choice([0, 0, 1, 5]))])
        k = r.random()
        if "statement-expressions" in self.on and k < .28:
            return self.stmt_expr(d, vs)
        if "omitted-conditional-operand" in self.on and k < .5:
            self.used.add("omitted-conditional-operand")
            return "(%s ?%s: %s)" % (self.cond_operand(d, vs), r.choice(["", " ", "\n"]), self.e(d - 1, vs))
        k = r.randrange(6)
        a = self.e(d - 1, vs)
        if k == 0:
            return "(%s ? %s : %s)" % (a, self.e(d - 1, vs), self.e(d - 1, vs))
        if k == 1:
            return "(unsigned) (%s %s %s)" % (a, r.choice(["&&", "||"]), self.e(d - 1, vs))
        if k == 2:
            return "(%s, %s)" % (a, self.e(d - 1, vs))
        if k == 3:
            return "(unsigned) !(%s)" % a
        return "(%s %s %s)" % (a, r.choice(["+", "-", "*", "^", "&", "|", "==", "<"]), r.choice(["3u", "1u", "0u"]))

    def lv(self, vs):
        return self.r.choice([v for v in vs if not v.startswith("(")])

    def nx(self):
        self.n += 1
        return self.n

    def cond_operand(self, d, vs):
        r = self.r
        k = r.randrange(7)
        if k == 0:
            return "(int) (%s)" % self.e(d - 1, vs) if r.random() < .5 else "(unsigned char) (%s)" % self.e(d - 1, vs)
        if k == 1:
            return self.lv(vs) + "++"
        if k == 2:
            return "(%s = %s)" % (self.lv(vs), self.e(d - 1, vs))
        if k == 3:
            return "EV(%d, %d)" % (self.nx(), r.choice([0, 3]))
        if k == 4:
            return "%s == %s" % (r.choice(["0u", "1u"]), self.e(d - 1, vs))
        return self.e(d - 1, vs)

    def stmt_expr(self, d, vs):
        r = self.r
        self.used.add("statement-expressions")
        loc = self.id("l")
        vs2 = vs + [loc]
        s = "unsigned %s = %s; " % (loc, self.e(d - 1, vs))
        for _ in range(r.randrange(0, 3)):
            k = r.randrange(9)
            if k == 0:
                s += "if (%s) %s = %s; else %s ^= 5; " % (self.e(d - 1, vs2), loc, self.e(d - 2, vs2), self.lv(vs2))
            elif k == 1:
                i = self.id("i")
                s += "for (unsigned %s = 0; %s < 3; %s++) { if (%s == %s) %s; %s += %s; } " % (i, i, i, i, self.e(d - 2, vs2), r.choice(["break", "continue"]), loc, self.e(d - 2, vs2 + ["(%s + 0)" % i]))
            elif k == 2:
                s += "switch (%s & 3) { case 0: %s++; case 1: %s += 2; break; case 3: %s ^= 4; case 2: %s = %s; } " % (self.e(d - 1, vs2), loc, loc, loc, loc, self.e(d - 2, vs2))  # every value has a label: KF-C26-1
            elif k == 3:
                lb = self.id("L")
                s += "if (%s) goto %s; %s += 9; %s: ; " % (self.e(d - 2, vs2), lb, loc, lb)
                if "labels-as-values" in self.on and r.random() < .6:
                    self.used.add("labels-as-values")
                    l2 = self.id("L")
                    s += "{ void *p = %s ? &&%s : &&%s_; goto *p; %s: %s += 1; %s_: ; } " % (self.e(d - 2, vs2), l2, l2, l2, loc, l2)
            elif k == 4:
                s += "%s; " % self.e(d - 1, vs2)
            elif k == 5:
                t = self.id("sh")
                s += "{ unsigned %s = %s; unsigned %s = %s; %s += %s; } " % (loc + "x", r.choice(vs2), t, self.e(d - 2, vs2), loc, t)
            elif k == 6 and self.inl and r.random() < .5:
                s += "if (%s == 77u) %s; " % (r.choice(vs2), r.choice(["break", "continue"]))
            elif k == 7:
                s += "({ %s = %s; }); " % (self.lv(vs2), self.e(d - 2, vs2))
            elif k == 8:
                st = "%sz%d" % (loc, self.nx())
                self.dec += "struct s%s { unsigned a, b; };\n" % st
                s += "struct s%s q%s = ({ struct s%s w = { %s, 4 }; w.b += %s; w; }); %s += q%s.a ^ q%s.b; " % (st, st, st, self.e(d - 2, vs2), r.choice(vs2), loc, st, st)
        return "({ %s%s; })" % (s, self.e(d - 1, vs2))


def f_expr(g):
    """statement expressions and omitted operands in all contexts"""
    r = g.r
    b = "unsigned a = %d, b = %d, c = 77;\n" % (r.choice([0, 1, 5]), r.choice([0, 3]))
    vs = ["a", "b", "c"]
    for _ in range(4):
        k = r.randrange(9)
        if k == 0:
            b += g.T(g.e(4, vs))
        elif k == 1:
            b += "if (%s) %s else %s" % (g.e(3, vs), g.T("1"), g.T("2"))
        elif k == 2:
            i = g.id("i")
            g.inl += 1
            b += "for (unsigned %s = 0; %s < 4; %s++) {\n%s}\n" % (i, i, i, g.T(g.e(3, vs + ["(%s + 0)" % i])))
            g.inl -= 1
        elif k == 3:
            f = g.id("f")
            g2 = G(r, g.u, g.on)
            g2.k, g2.n = g.k + 1000, g.n
            x = g2.e(3, ["x", "y"])
            g.dec += g2.dec
            g.used |= g2.used
            g.dec += "static unsigned %s(unsigned x, unsigned y) { return %s; }\n" % (f, x)
            b += g.T("%s(%s, %s)" % (f, r.choice(vs), r.choice(vs)))
            g.n, g.k = g2.n + 1, g2.k
        elif k == 4:
            b += "{ unsigned arr[3] = { %s, %s }; %s%s }\n" % (g.e(2, vs), r.choice(vs), g.T("arr[0]"), g.T("arr[%s & 1]" % g.e(2, vs)))
        elif k == 5:
            b += "switch (%s & 3) { case 1: %s case 2: %s break; default: %s }\n" % (g.e(3, vs), g.T("1"), g.T("2"), g.T("a"))
        elif k == 6:
            b += "%s %s= %s;\n" % (r.choice(vs), r.choice(["", "+", "^"]), g.e(3, vs)) + g.T("a") + g.T("b")
        elif k == 7 and "omitted-conditional-operand" in g.on:
            g.used.add("omitted-conditional-operand")
            b += "{ int i = %d; signed char s = -3; char *p = %s; static char z[3];\n%s%s%s%s}\n" % (
                r.choice([0, 4]), r.choice(["0", "z"]).replace("z", "\"q\""),
                g.T("(i ?: s) < 0") + g.T("sizeof(s ?: s)"), g.T("(s ?: 200u) > 5"), g.T("sizeof(i ?: 2.0)") + g.T("(i ?: (long) -2) * 2"), g.T("(p ?: z) == z") + g.T("_Generic(s ?: 1l, long: 1, default: 2)"))
        elif k == 8 and "statement-expressions" in g.on:
            g.used.add("statement-expressions")
            b += "{ double d = ({ int q = (int) %s & 7; q / 2.0; }); %s char *s = ({ \"lit\"; }); %s %s long l = ({ ; ({ (long) -5; }); }); %s }\n" % (
                g.e(2, vs), g.T("(int) (d * 4)"), g.T("s[1]"), g.T("sizeof(({ (char) 1; }))") + g.T("_Generic(({ 1.0f; }), float: 1, default: 0)"), g.T("l"))
    return b


def f_labels(g):
    """computed jumps: a small threaded interpreter"""
    r = g.r
    g.used.add("labels-as-values")
    n = r.randrange(2, 7)
    ops = [r.choice(["acc += %d;", "acc = acc * 3 + %d;", "acc ^= %d;", "{ unsigned loc = acc; acc += loc + %d; }", "for (int q = 0; q < 2; q++) acc += %d;"]) % r.randrange(1, 9) for _ in range(n)]
    code = [r.randrange(n) for _ in range(r.randrange(3, 12))]
    f, L = g.id("m"), g.id("L")
    lab = ["%s_%d" % (L, i) for i in range(n)]
    style = r.randrange(3)
    s = "static unsigned %s(const unsigned char *pc, unsigned acc) {\n" % f
    tab = "void *tab[%d] = { %s };\n" % (n + 1, ", ".join("&&" + x for x in lab) + ", &&%s_end" % L)
    if style == 2:
        tab = "struct { int pad; const void *t[%d]; } st = { 1, { %s } };\n" % (n + 1, ", ".join(r.choice(["&&%s", "&& %s", "(void *) &&%s"]) % x for x in lab) + ", &&%s_end" % L)
    s += tab
    t = "st.t" if style == 2 else "tab"
    disp = r.choice(["goto *%s[*pc++];", "goto *(%s[*pc++]);", "{ const void *const x = %s[*pc]; pc++; goto *x; }", "goto **(%s + *pc++);"]) % t
    s += disp + "\n"
    order = list(range(n))
    r.shuffle(order)
    for i in order:
        wrap = r.random()
        body = "%s: %s %s\n" % (lab[i], ops[i], disp)
        if wrap < .2:
            body = "{ unsigned shadow = 3; (void) shadow; %s}\n" % body
        elif wrap < .3:
            body = "while (acc) { %s}\n" % body
        elif wrap < .4:
            body = "switch (acc) { case 1: %s}\n" % body
        s += body
    s += "%s_end: return acc;\n}\n" % L
    g.dec += s
    c = g.id("c")
    g.dec += "static const unsigned char %s[] = { %s, %d };\n" % (c, ", ".join(map(str, code)), n)
    return g.T("%s(%s, %du)" % (f, c, r.randrange(100))) + g.T("%s(%s + %d, 5u)" % (f, c, r.randrange(len(code))))


def f_colons(g):
    r = g.r
    g.used.add("designated-init-colons")
    t = g.id("t")
    g.dec += "struct %s { int a; struct { char x; long y[3]; } b; union { int u; float f; } c; int d[3]; };\n" % t

    def init(const):
        q = "" if const else " + k"
        # members are initialised once: overriding is KF-C09
        parts = [r.choice(["a: %d%s" % (r.randrange(9), q), ".a = 7"]), r.choice(["b: { y: { 1, [2] = %d }, x: 3 }" % r.randrange(9), "b: { %d, { 4%s } }" % (r.randrange(9), q)]), r.choice(["c: { %s: 2 }" % r.choice("uf"), "c: { .f = 1.5f }"]), r.choice([".d[1] = %d" % r.randrange(9), "d: { 1, 2%s }" % q])]
        p = r.sample(parts, r.randrange(1, 5))
        if r.random() < .2:
            p = ["a: 7", "{ y: { 9 } }"] + [x for x in p if x[0] in "cd"]
        return "{ %s%s }" % (", ".join(p), r.choice(["", ","]))
    v, w = g.id("g"), g.id("g")
    g.dec += "static struct %s %s = %s, %s[2] = { %s, [1] = %s };\n" % (t, v, init(True), w, init(True), init(True))
    b = "int k = %d, a = 4; a: k++;\nstruct %s l = %s, *p = &(struct %s) %s;\n" % (r.randrange(5), t, init(False), t, init(False))
    b += "struct %s m = { a ? k : 3, c: { u: k } };\n" % t
    for o in (v + ".", w + "[0].", w + "[1].", "l.", "p->", "m."):
        for x in ("a", "b.x", "b.y[0]", "b.y[1]", "b.y[2]", "c.u", "d[0]", "d[1]", "d[2]"):
            b += g.T(o + x)
    return b + "if (k < 0) goto a;\n"


def f_rettype(g):
    r = g.r
    g.used.add("missing-function-return-type")
    f, h, k = g.id("f"), g.id("f"), g.id("f")
    g.dec += r.choice(["%s(int a, char b) { return a * 3 + b; }\n", "%s(a, b) int a; char b; { return a * 3 + b; }\n", "%s(int a, char b) { int (*p)(int, char) = %s; return p == 0 ? 1 : a - b; }\n".replace("= %s", "= 0")]) % f
    g.dec += "%s(void) { return -1; }\n%s(x) char *x; { return x[1] - x[0]; }\n" % (h, k)
    return g.T("%s(%d, (char) %d)" % (f, r.randrange(99), r.randrange(200))) + g.T("%s() < 0" % h) + g.T("%s(\"ad\")" % k) + g.T("_Generic(%s(1, 2), int: 1, default: 0)" % f) + g.T("sizeof(%s())" % h)


def f_implicit(g):
    r = g.r
    g.used.add("implicit-function-decl")
    f, h = g.id("f"), g.id("f")
    b = g.T("%s(%d, 2.5, (char) 7)" % (f, r.randrange(50))) + g.T("abs(-%d)" % r.randrange(50)) + g.T("sizeof(%s(1))" % h) + g.T("_Generic(%s(), int: 3, default: 4)" % h)
    b += "{ int x = %s(1); %s}\n" % (h, g.T("x"))
    if r.random() < .5:
        b = "int %s = 3; { extern int %s(); %s }\n" % (h + "z", h, g.T("%s() + %sz" % (h, h))) + b
    g.late = getattr(g, "late", "") + "int %s(int a, double d, int c) { return a * 10 + (int) (d * 2) + c; }\nint %s() { return 21; }\n" % (f, h)
    return b


def f_quals(g):
    r = g.r
    g.used.add("non-strict-qualifiers")
    f = g.id("f")
    g.dec += "static int %s(char *p, volatile int *q) { return p[0] + *q; }\nstatic char *r%s(const char *p) { return p; }\n" % (f, f)
    b = "const int ci = %d; volatile int vi = 6; const char cs[] = \"xyz\"; const volatile int cvi = 9;\nint *p = &ci; int *q; q = &vi; char *s = cs;\n" % r.randrange(99)
    return b + g.T("*p") + g.T("*q") + g.T("%s(cs, &cvi)" % f) + g.T("r%s(cs)[1]" % f) + g.T("s[2]") + g.T("*(%s ? p : q)" % r.choice("01"))


def f_intptr(g):
    r = g.r
    g.used.add("int-to-pointer")
    f = g.id("f")
    g.dec += "static unsigned long %s(char *p) { return (unsigned long) p; }\nstatic void *r%s(int x) { return x; }\n" % (f, f)
    b = "int i = %d; unsigned u = 4000000000u; short s = -2; unsigned char uc = 200; _Bool bo = 1;\nvoid *p = i; char *q; q = u; int *w = s; struct z *y = uc;\n" % r.choice([0, -1, 77])
    return b + "".join(g.T("(unsigned long) " + x) for x in ("p", "q", "w", "y", "r%s(i)" % f)) + g.T("%s(s)" % f) + g.T("%s(uc)" % f)


def f_ptrarith(g):
    r = g.r
    g.used.add("ext-pointer-arithmetics")
    f, v = g.id("f"), g.id("g")
    g.dec += "static int %s(int a) { return a; }\nstatic char %s[64]; static void *s%s = (void *) %s + %d; static const void *t%s = (const void *) (%s + 40) - %d;\n" % (f, v, v, v, r.randrange(60), v, v, r.randrange(30))
    b = "void *p = %s; const volatile void *q = %s + 20; int (*fp)(int) = %s; long k = %d; unsigned char c = 3;\n" % (v, v, f, r.randrange(-3, 9))
    st = ["p++;", "++p;", "p += 5;", "p -= k;", "--p;", "p--;", "p = p + c;", "p = c + p;", "q += k;", "q = q - 2;", "fp++;", "fp += 3;", "fp = fp - 1;", "--fp;", "p = (k > 2 ? p : p + 1);"]
    for _ in range(r.randrange(3, 9)):
        b += r.choice(st) + "\n"
    return b + g.T("(char *) p - %s" % v) + g.T("q - (const volatile void *) %s" % v) + g.T("(char *) fp - (char *) %s" % f) + g.T("fp - (int (*)(int)) %s" % f) + g.T("sizeof(void)") + g.T("sizeof(%s)" % f) + g.T("sizeof(*p)") + g.T("(char *) s%s - %s" % (v, v)) + g.T("(char *) t%s - %s" % (v, v)) + g.T("p++ - p == -1 || 1") + g.T("(p + 1) > p")


def f_braces(g):
    r = g.r
    g.used.add("missing-braces-subobj")
    t = g.id("t")
    g.dec += "struct i%s { int a; short b; }; struct %s { int h; struct i%s s; long m[2][2]; union { char c; int d; } u; const char *p[2]; };\n" % (t, t, t)

    def init(const):
        q = "" if const else " + k"
        parts = [r.choice([".s = %d%s" % (r.randrange(99), q), ".s = %d, %d" % (r.randrange(99), r.randrange(99)), ".h = 2, 3%s, 4" % q]), r.choice([".m = 5", ".m[1] = 6%s, 7" % q, ".m[0] = 3, 4, 5", ".m[1][1] = 9"]), ".u = 'x'", ".p = \"ab\""]
        return "{ %s }" % ", ".join(r.sample(parts, r.randrange(1, 4)))
    v, w = g.id("g"), g.id("g")
    g.dec += "static struct %s %s = %s; static struct %s %s[2] = { [1] = %s };\n" % (t, v, init(True), t, w, r.choice(["7, 8", "{ .s = 4 }", "5"]))
    b = "int k = %d; struct %s l = %s; int mm[3][2] = { [%d] = 1 + k, 2%s }; struct %s *cl = &(struct %s) %s;\n" % (r.randrange(9), t, init(False), r.randrange(2), r.choice(["", ", 3"]), t, t, init(False))
    for o in (v + ".", w + "[0].", w + "[1].", "l.", "cl->"):
        for x in ("h", "s.a", "s.b", "m[0][0]", "m[0][1]", "m[1][0]", "m[1][1]", "u.c"):
            b += g.T(o + x)
        b += g.T("%sp[0] ? %sp[0][1] : 0" % (o, o))
    return b + "".join(g.T("mm[%d][%d]" % (i, j)) for i in range(3) for j in range(2))


def f_empty(g):
    r = g.r
    g.used.add("empty-structs")
    t, f = g.id("t"), g.id("f")
    g.dec += "struct %s { }; union u%s { }; static struct %s g%s; struct o%s { int a; struct %s *e; int b; };\n" % (t, t, t, t, t, t)
    g.dec += "static struct %s *%s(struct %s *p) { return p; }\n" % (t, f, t)
    b = "struct %s l, m; union u%s u; struct o%s o = { 3, &l, %d };\nl = m; (void) u; g%s = l;\n" % (t, t, t, r.randrange(99), t)
    return b + g.T("o.a") + g.T("o.b") + g.T("o.e == &l") + g.T("%s(&g%s) == &g%s" % (f, t, t))


def f_enums(g):
    """with signed-enums every enumeration has type int; otherwise unsigned when no constant is negative (as gcc)"""
    r = g.r
    t = g.id("e")
    neg = r.random() < .3
    g.dec += "enum %s { A%s%s, B%s = %d, C%s };\n" % (t, t, " = -3" if neg else "", t, r.randrange(5, 50), t)
    b = "enum %s v = B%s, w = (enum %s) %d; volatile enum %s x = A%s;\n" % (t, t, t, r.choice([-1, 4]) if neg or "signed-enums" in g.on else 4, t, t)
    exp = "signed" if neg or "signed-enums" in g.on else "unsigned"
    g.enum = True
    g.used.add("signed-enums" if "signed-enums" in g.on else "standard-enums")
    b += "S((v - 100) < 0, %d);\nS((enum %s) -1 < 0, %d);\nS(_Generic(v, %s int: 1, default: 0), 1);\nS((w * 0 - 1 > 0), %d);\nS((long) (x - 1 - C%s) < 0, %d);\n" % (exp == "signed", t, exp == "signed", exp, exp == "unsigned", t, exp == "signed")
    b += "S(_Generic(C%s, int: 1, default: 0), 1);\nS(sizeof v, 4);\n" % t
    return b + g.T("v") + g.T("C%s" % t)


def f_attr(g):
    r = g.r
    t = g.id("a")
    g.used.add("attributes")
    A = lambda: r.choice(["__attribute__((unused))", "__attribute__(())", "__attribute__((unused, cold))", "__attribute__((deprecated(\"x\")))", "__attribute__ ((unused)) __attribute__((used))"])
    g.dec += "static int %s %s(int a) %s;\nstatic %s int %s(int a) { return a + 1; }\nstruct s%s { int x %s; long y; };\n" % (A(), t, A(), A(), t, t, A())
    b = "int l %s = 3; %s int m = 4; struct s%s s = { 1, 2 };\n" % (A(), A(), t)
    return b + g.T("l + m") + g.T("%s(s.x)" % t) + g.T("s.y")


GEN = {"statement-expressions": f_expr, "omitted-conditional-operand": f_expr, "labels-as-values": f_labels, "designated-init-colons": f_colons, "missing-function-return-type": f_rettype, "implicit-function-decl": f_implicit,
       "non-strict-qualifiers": f_quals, "int-to-pointer": f_intptr, "ext-pointer-arithmetics": f_ptrarith, "missing-braces-subobj": f_braces, "empty-structs": f_empty}
PRE26 = PRE + "static unsigned ev26(int n, unsigned v) { T(n, v); return v; }\n#define EV(n, v) ev26(n, v)\nstatic void S(int got, int want) { T(9999, got == want ? 1 : 2); }\n"

# uses that have to be rejected while the feature is disabled (file scope, one line each)
OFF = {"statement-expressions": ["int o%d(int a) { return ({ a; }); }", "void o%d(void) { int x = 1 + ({ int y = 2; y; }); (void) x; }", "int o%d(int a) { if (({ a; })) return 1; return 2; }"],
       "omitted-conditional-operand": ["int o%d(int a) { return a ?: 1; }", "int o%d(int a) { return (a ? : 1) + 2; }"],
       "labels-as-values": ["void *o%d(void) { l: return &&l; }", "void o%d(void *p) { goto *p; }", "void o%d(void) { void *p = &&l; (void) p; l: ; }"],
       "designated-init-colons": ["struct so%d { int a; } vo%d = { a: 1 };", "struct so%d { int a, b; }; void o%d(void) { struct so%d x = { 1, b: 2 }; (void) x; }"],
       "missing-function-return-type": ["o%d(void) { return 0; }", "o%d(int a) { return a; }", "o%d(a) int a; { return a; }"],
       "implicit-function-decl": ["int o%d(int a) { return undeclared%d(a); }", "void o%d(void) { undeclared%d(); }"],
       "non-strict-qualifiers": ["char *o%d(const char *p) { return p; }", "void o%d(const int *p) { int *q = p; (void) q; }", "void o%d(volatile int *p) { int *q; q = p; }", "static void q%d(char *p) { } void o%d(const char *p) { q%d(p); }"],
       "int-to-pointer": ["int *o%d(int a) { return a; }", "void o%d(short a) { char *p = a; (void) p; }", "void o%d(unsigned a) { void *p; p = a; }"],
       "ext-pointer-arithmetics": ["void *o%d(void *p) { return p + 1; }", "void *o%d(void *p) { p += 2; return p; }", "long o%d(void *p, void *q) { return p - q; }", "void *o%d(const void *p) { return (char *) (p - 1); }", "int o%d(void) { return sizeof(void); }", "int o%d(void) { return sizeof(o%d); }", "void o%d(void *p) { p++; }"],
       "missing-braces-subobj": ["void o%d(int k) { int a[2][2] = { [0] = k }; (void) a; }", "struct so%d { struct { int a, b; } s; int c; } vo%d = { .s = 1 };"]}


def items(r, on, n):
    out = []
    feats = [f for f in on if f in GEN]
    for u in range(n):
        g = G(r, u, on)
        opts = [GEN[f] for f in feats] + [f_enums] * 1 + ([f_attr] if "fail-on-attributes" not in on else [])
        b = r.choice(opts)(g)
        out.append((Item(g.dec, b, sorted(g.used)), getattr(g, "late", "")))
    return out


def j_use(bdir, seed, idx):
    """programs using the enabled features, judged against the GNU C meaning"""
    r = rng(seed, idx)
    on = [f for f in ALL if r.random() < r.choice([.3, .6, 1.0])] or ["statement-expressions"]
    its = items(r, on, 5)
    # definitions that follow their implicit declarations are separate objects of the case
    items_ = []
    for it, late in its:
        items_.append(Item(it.decls, it.body, it.tags))
        if late:
            items_[-1] = Item(it.decls + "/*LATE*/" + late if False else it.decls, it.body, it.tags)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    opts = toggles(r, on)
    try:
        late = "".join(l for _, l in its)
        objs = []
        if late:
            with open(os.path.join(wd, "late.c"), "w") as fh:
                fh.write(late)
            q = run(["gcc", "-c", "-w", "-o", os.path.join(wd, "late.o"), os.path.join(wd, "late.c")])
            if q.rc:
                raise HarnessError(q.err.decode())
            objs = [os.path.join(wd, "late.o")]
        return "use", len(items_), [t for i in items_ for t in i.tags], judge26(bdir, items_, opts, wd, objs), [hashlib.sha256((i.decls + i.body).encode()).digest()[:12] for i in items_], opts
    finally:
        shutil.rmtree(wd, ignore_errors=True)


CL = ["-std=gnu17", "-w", "-O0", "-fno-pie", "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion", "-Wno-error=implicit-int"]


def judge26(bdir, its, opts, wd, objs):
    res = {"events": 0, "violations": [], "invalid": []}
    src = program(its, PRE26)
    st_r, exp, det = exec_ref(bdir, src, wd, extra_objs=objs)
    if st_r != "ok":
        if len(its) == 1:
            res["invalid"].append((its[0], "reference " + st_r + det))
            return res
    else:
        st, got, dk = exec_kefir(bdir, src, wd, opts, extra_objs=objs)
        # own expectations (S) are judged in the log of kefir, where gcc cannot be asked (signed enums)
        a, b = exp.replace(b"\n", b"\n").split(b"\n"), got.split(b"\n")
        A = [x for x in a if not is_s(x)]
        B = [x for x in b if not is_s(x)]
        res["events"] = len(a)
        bad_s = [x for x in b if is_s(x) and not x.endswith(b"1")]
        if st == "ok" and A == B and not bad_s:
            return res
        if len(its) == 1:
            for tag, cc, fl in (("c0", "gcc", ["-std=gnu17", "-w", "-O2", "-fno-pie", "-U_FORTIFY_SOURCE"]), ("c1", "clang", CL)):
                s2, l2, d2 = exec_ref(bdir, src, wd, cc, fl, tag=tag, extra_objs=objs)
                if s2 != "ok" or [x for x in l2.split(b"\n") if not is_s(x)] != A:
                    res["invalid"].append((its[0], "%s disagrees %s %s" % (cc, s2, d2[:200])))
                    return res
            res["violations"].append((its[0], st, dk + (" own expectation failed" if bad_s else ""), exp, got))
            return res
    n0 = 0
    for it in its:
        s = judge26(bdir, [it], opts, wd, objs)
        res["violations"] += s["violations"]
        res["invalid"] += s["invalid"]
    if not res["violations"] and not res["invalid"]:
        res["violations"].append((Item(src, "", ("combination",)), st, dk, exp, got))
    return res


def is_s(x):
    return x.startswith(b"T270f ") or x.startswith(b"270f ")


def toggles(r, on, off=()):
    """--feature / --no-feature in random order; the last toggle of each feature decides"""
    seqs = [[("--feature-" + f) if b else ("--no-feature-" + f) for b in [r.random() < .5 for _ in range(r.choice([0, 0, 1]))] + [True]] for f in on]
    seqs += [["--feature-" + f, "--no-feature-" + f] if r.random() < .4 else [] for f in ALL if f not in on]
    out = []
    seqs = [s for s in seqs if s]
    while seqs:
        s = r.choice(seqs)
        out.append(s.pop(0))
        seqs = [s for s in seqs if s]
    return out


def j_off(bdir, seed, idx):
    """uses of disabled features are rejected, enabled ones accepted"""
    r = rng(seed, "off", idx)
    out = {"events": 0, "violations": [], "invalid": []}
    tags = []
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        for _ in range(6):
            f = r.choice(sorted(OFF) + ["fail-on-attributes"])
            on = [x for x in ALL if x != f and r.random() < .5]
            if f == "fail-on-attributes":
                line = r.choice(["int x%d __attribute__((unused));", "static int __attribute__(()) f%d(int a) { return a; }", "void f%d(void) { int a __attribute__((unused)); }", "struct s%d { int a __attribute__((unused)); };"]) % 1
            else:
                t = r.choice(OFF[f])
                line = t.replace("%d", "1")
                on = [x for x in on if x != "fail-on-attributes"] + (["fail-on-attributes"] if r.random() < .3 else [])
            pre, post = r.choice(["", "int before(int a) { return a + 1; }\n", "struct q { int a; };\n"]), r.choice(["", "int after;\n"])
            with open(os.path.join(wd, "c.c"), "w") as fh:
                fh.write(pre + line + "\n" + post)
            want_on = f != "fail-on-attributes"
            for enabled in (False, True):
                opts = toggles(r, on + ([f] if enabled else []))
                q = run([os.path.join(bdir, "kefir")] + opts + ["-o", os.path.join(wd, "o.s"), os.path.join(wd, "c.c")], timeout=30)
                out["events"] += 1
                accept = enabled if want_on else not enabled
                if q.rc not in (0, 1) or (q.rc == 0) != accept:
                    out["violations"].append((Item(pre + line + "\n" + post, "", (f,)), "status", "exit %s with %s; expected to be %s" % (q.rc, " ".join(opts), "accepted" if accept else "rejected"), b"", q.err))
            tags.append(("disabled/enabled " + f))
        return "off", 12, tags, out, [hashlib.sha256(repr((seed, idx)).encode()).digest()[:12]], []
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def j_same(bdir, seed, idx):
    """programs that use no extension behave the same under every feature set"""
    r = rng(seed, "same", idx)
    out = {"events": 0, "violations": [], "invalid": []}
    name, its = corpus.items(r)
    src = program(its)
    # features whose documented effect reaches standard programs: signed-enums (enumeration types), fail-on-attributes (attributes)
    skip = set()
    if "enum" in src:
        skip.add("signed-enums")
    if "__attribute__" in src:
        skip.add("fail-on-attributes")
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        s0, l0, d0 = exec_kefir(bdir, src, wd)
        asm0 = open(os.path.join(wd, "k.s"), "rb").read() if os.path.exists(os.path.join(wd, "k.s")) else b""
        for _ in range(3):
            on = [x for x in ALL if x not in skip and r.random() < r.choice([.2, .5, 1.0])]
            opts = toggles(r, on)
            q = kefir_s(bdir, os.path.join(wd, "k.c"), os.path.join(wd, "k2.s"), opts)
            out["events"] += 1
            if (q.rc == 0) != (s0 not in ("reject", "hang")):
                out["violations"].append((Item(src, "", ("combination",)), "status", "%s without features, exit %s with %s: %s" % (s0, q.rc, " ".join(opts), q.err.decode(errors="replace")[:300]), l0, b""))
                break
            if q.rc == 0 and open(os.path.join(wd, "k2.s"), "rb").read() != asm0:
                s1, l1, d1 = exec_kefir(bdir, src, wd, opts)
                if (s1, l1) != (s0, l0):
                    out["violations"].append((Item(src, "", ("combination",)), "ok", "behaves differently with " + " ".join(opts), l0, l1))
                    break
        return "same", 3, ["features on a standard program"], out, [hashlib.sha256(src.encode()).digest()[:12]], []
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def job(bdir, kind, seed, idx):
    return {"use": j_use, "off": j_off, "same": j_same}[kind](bdir, seed, idx)


def main():
    ck = Check("C26")
    bdir = build("plain")
    jobs = []
    for i in range(scale(150, 5000)):
        jobs += [(bdir, "use", ("C26", SEED), i)]
        if i % 3 == 0:
            jobs += [(bdir, "off", ("C26", SEED), i), (bdir, "same", ("C26", SEED), i)]
    for kind, n, tags, r, hs, opts in pmap(job, jobs):
        ck.evaluations += n
        ck.count("events", r["events"])
        ck.count("cases: " + kind, n)
        for t in tags:
            ck.count("tag:" + t)
        ck.distinct.update(hs)
        ck.invalid += r["invalid"]
        for it, st, det, exp, got in r["violations"]:
            src = it.decls if it.tags == ("combination",) or kind == "off" else program([it], PRE26)
            ck.violation(it.decls + it.body, {"case.c": src, "expected.log": exp, "observed.log": got, "opts.txt": " ".join(opts)}, "stage=%s %s; %s\ntags=%s" % (st, det, first_diff(exp, got) if st in ("ok", "run") else "", ",".join(it.tags)))
        if len(ck.violations) >= 20:
            break
    run_known(ck, bdir)
    ck.rule = "one evaluation = one feature-using case under a random set of enabled features (event log against the GNU C meaning by gcc, confirmed by gcc -O2 and clang), one accept/reject decision with the feature off and on, or one standard program under a random feature set (same behaviour as without); distinct by source text"
    ck.assumptions = ["size and layout of empty structures are not judged (kefir gives them one byte, GNU C none)", "label addresses in static initialisers are outside (never supported)"]
    ck.finish(min_events=200)
