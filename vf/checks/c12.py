"""C12: every expression has its C17 type (observed by _Generic selections, which do not evaluate their operand)."""
from vf.core import *

INTS = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long"]
FL = ["float", "double", "long double"]
BASES = ["void", "char", "unsigned char", "short", "int", "unsigned int", "long", "unsigned long", "float", "double", "struct ty_s", "union ty_u"]
QS = ["", "const ", "volatile ", "const volatile "]


def assoc():
    ts = INTS + FL + ["struct ty_s", "union ty_u"]
    ts += [q + b + " *" for b in BASES for q in QS]
    ts += ["%s *%s*" % (a, q) for a in ("char", "int", "const int", "const char", "struct ty_s", "void") for q in ("", "const ", "volatile ", "const volatile ")]
    ts += ["%s (*)[%d]" % (a, n) for a in ("int", "const int", "char") for n in (3, 4)] + ["int (*)[3][4]", "const int (*)[3][4]", "char (*)[1]", "char (*)[6]", "int *(*)[3]"]
    ts += ["int (*)(int)", "int (*)(void)", "void (*)(double)", "int *(*)(const int *)", "struct ty_s (*)(struct ty_s)", "int (**)(int)", "int (*(*)(int))(int)", "int (*const *)(int)"]
    ts += ["long long *", "const long long *", "unsigned long long *", "_Bool *", "signed char *", "unsigned short *", "const unsigned short *", "const signed char *", "const _Bool *", "long double *", "const long double *", "volatile long double *", "volatile long long *"]
    return ts


ASSOC = assoc()
# written out at every use: expanding a macro of that size is slow
TAIL = ", " + ", ".join("%s: %d" % (t, i + 1) for i, t in enumerate(ASSOC)) + ", default: 0)"


class X:
    """expression: text, precedence class, kind (i f p s v), target (for pointers: (quals, base)), lvalue, modifiable, bits"""

    def __init__(self, t, k, ty, lv=False, mod=False, prim=True, bf=False):
        self.t, self.k, self.ty, self.lv, self.mod, self.prim, self.bf = t, k, ty, lv, mod, prim, bf

    def p(self):
        return self.t if self.prim else "(%s)" % self.t


class G:
    def __init__(self, r, u):
        self.r, self.u, self.n = r, u, 0
        self.tags = set()
        self.decl = ""
        self.iv, self.fv, self.pv, self.sv, self.arr, self.fn = [], [], [], [], [], []
        self.setup()

    def nm(self, p):
        self.n += 1
        return "%s%d_%d" % (p, self.u, self.n)

    def setup(self):
        r = self.r
        for t in r.sample(INTS, 7) + ["int"]:
            q = r.choice(QS) if r.random() < .4 else ""
            v = self.nm("i")
            if r.random() < .25:
                td = self.nm("td")
                self.decl += "typedef %s%s %s;\n" % (q, t, td)
                self.decl += "extern %s %s;\n" % (td, v)
                self.tags.add("typedef")
            else:
                self.decl += "extern %s%s %s;\n" % (q, t, v)
            self.iv.append(X(v, "i", t, True, "const" not in q))
            if q:
                self.tags.add("qualified")
        for t in FL:
            v = self.nm("f")
            self.decl += "extern %s%s %s;\n" % (r.choice(QS), t, v)
            self.fv.append(X(v, "f", t, True, False))
        for _ in range(6):
            b, q = r.choice(BASES), r.choice(QS)
            v = self.nm("p")
            oq = r.choice(["", "", "const", "volatile"])
            self.decl += "extern %s%s *%s %s;\n" % (q, b, oq, v)
            self.pv.append(X(v, "p", (q, b), True, oq != "const"))
            if r.random() < .5 and b != "void":
                w = self.nm("p")
                q2 = r.choice(QS)
                self.decl += "extern %s%s *%s;\n" % (q2, b, w)
                self.pv.append(X(w, "p", (q2, b), True, True))
        for b in ("int", "const int", "char"):
            v = self.nm("a")
            n = r.choice([3, 4])
            self.decl += "extern %s %s[%d];\n" % (b, v, n)
            self.arr.append((X(v, "a", None, True), b, n))
        v = self.nm("m")
        self.decl += "extern int %s[2][3][4];\n" % v
        self.md = v
        v = self.nm("o")
        q = r.choice(QS)
        self.decl += "extern %sstruct ty_s %s, *%s_p;\n" % (q, v, v)
        self.sv.append((v, q))
        self.sv.append(("(*%s_p)" % v, q))
        self.fs = [("ty_f1", "i", "int", lambda: self.ar(1).t), ("ty_f2", "p", ("", "int"), lambda: "(const int *) 0"), ("ty_f3", "s", "", lambda: "ty_so"), ("ty_f4", "f", "float", lambda: "")]

    # arithmetic expressions
    def ar(self, d):
        r = self.r
        if d <= 0 or r.random() < .18:
            return self.leaf()
        k = r.randrange(16)
        if k <= 3:
            a, b = self.ar(d - 1), self.ar(d - 1)
            op = r.choice(["+", "-", "*", "/"])
            if a.k == "i" and b.k == "i":
                op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^"])
                self.tags.add("integer_arith")
            return X("%s %s %s" % (a.p(), op, b.p()), "i" if a.k == b.k == "i" else "f", None, prim=False)
        if k == 4:
            a, b = self.intg(d - 1), self.intg(d - 1)
            self.tags.add("shift")
            return X("%s %s %s" % (a.p(), r.choice(["<<", ">>"]), b.p()), "i", None, prim=False)
        if k == 5:
            a, b = self.ar(d - 1), self.ar(d - 1)
            self.tags.add("relational")
            return X("%s %s %s" % (a.p(), r.choice(["<", ">", "<=", ">=", "==", "!=", "&&", "||"]), b.p()), "i", None, prim=False)
        if k == 6:
            a = self.ar(d - 1)
            op = r.choice(["+", "-", "!"] + (["~"] if a.k == "i" else []))
            self.tags.add("unary")
            return X("%s%s" % (op, "(%s)" % a.t if not a.prim or a.t[0] in "+-" else a.t), "i" if op == "!" else a.k, None, prim=False)
        if k == 7:
            t = r.choice(INTS + FL)
            self.tags.add("cast")
            return X("(%s) %s" % (t, self.ar(d - 1).p()), "i" if t in INTS else "f", t, prim=False)
        if k == 8:
            a, b = self.ar(d - 1), self.ar(d - 1)
            self.tags.add("conditional")
            return X("%s ? %s : %s" % (self.scalar(d - 1).p(), a.p(), b.p()), "i" if a.k == b.k == "i" else "f", None, prim=False)
        if k == 9:
            a, b = self.any(d - 1), self.ar(d - 1)
            self.tags.add("comma")
            return X("(%s, %s)" % (a.t, b.t), b.k, None)
        if k == 10:
            lv = [x for x in self.iv if x.mod]
            if lv:
                v = r.choice(lv)
                self.tags.add("assignment")
                kk = r.randrange(3)
                if kk == 0:
                    return X("%s = %s" % (v.t, self.ar(d - 1).p()), "i", v.ty, prim=False)
                if kk == 1:
                    return X("%s %s %s" % (v.t, r.choice(["+=", "-=", "*=", "<<=", "|=", "%=", ">>=", "&="]), self.intg(d - 1).p()), "i", v.ty, prim=False)
                return X(r.choice(["%s++", "%s--", "++%s", "--%s"]) % v.t, "i", v.ty, prim=False)
        if k == 11:
            a = self.ptr(d - 1)
            if a.ty[1] not in ("void", "struct ty_s", "union ty_u", "fn", "pp") and a.ty[1] in INTS + FL:
                self.tags.add("deref")
                t = r.choice(["*%s", "%s[1]", "%s[ty_c]"]) % a.p()
                return X(t, "i" if a.ty[1] in INTS else "f", a.ty[1], True, prim=False)
        if k == 12:
            self.tags.add("member")
            o, q = r.choice(self.sv)
            m, kk, t = r.choice([("c", "i", "char"), ("us", "i", "unsigned short"), ("ul", "i", "unsigned long"), ("b5", "bf", "unsigned int"), ("sb", "bf", "int"), ("b", "i", "_Bool"), ("in.d", "f", "double"), ("in.k", "i", "const int"), ("v", "i", "volatile long")])
            if kk == "bf":
                self.tags.add("bitfield")
                return X(r.choice(["+%s.%s", "-%s.%s", "%s.%s + 0", "%s.%s << 1", "~%s.%s", "%s.%s * 2l", "(0, 0 + %s.%s)"]) % (o, m), "i", None, prim=False)
            return X("%s.%s" % (o, m), kk, t, True)
        if k == 13:
            a = self.ptr(d - 1)
            if a.ty[1] not in ("void", "fn"):
                self.tags.add("ptrdiff")
                return X("%s - %s" % (a.p(), a.p()), "i", "long", prim=False)
        if k == 14:
            self.tags.add("call")
            return r.choice([X("ty_f1(%s)" % self.ar(d - 1).t, "i", "int"), X("ty_f4()", "f", "float"), X("(*ty_f1)(1)", "i", "int"), X("(&ty_f1)(2)", "i", "int"), X("ty_s1(3)", "i", "short"), X("ty_uc()", "i", "unsigned char")])
        self.tags.add("generic")
        t = r.sample(INTS, 3)
        return X("_Generic(%s, %s: %s, %s: %s, default: %s)" % (self.ar(d - 1).p(), t[0], self.intg(d - 1).p(), t[1], self.intg(d - 1).p(), self.intg(d - 1).p()), "i", None)

    def leaf(self):
        r = self.r
        k = r.random()
        if k < .5:
            return r.choice(self.iv)
        if k < .62:
            return r.choice(self.fv)
        if k < .9:
            self.tags.add("literal")
            v = r.choice([0, 1, 7, 127, 255, 32767, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807])
            s = r.choice(["", "", "u", "U", "l", "L", "ul", "LU", "ll", "LL", "ull", "uLL", "Lu", "llU"])
            b = r.choice(["%d", "%#x", "0%o"])
            if b == "%d" and v > 9223372036854775807:
                b = "%#x"
            return X(b % v + s, "i", None)
        if k < .95:
            return X(r.choice(["1.0", "1.5f", "2.L", ".5", "1e3", "0x1p3f", "0x.8p0l", "3.F"]), "f", None)
        return X(r.choice(["'a'", "L'b'", "u'c'", "U'd'", "'\\0'", "TY_E1", "TY_E2", "'\\xff'"]), "i", None)

    def intg(self, d):
        for _ in range(20):
            x = self.ar(d)
            if x.k == "i":
                return x
        return X("1", "i", None)

    # pointer expressions
    def ptr(self, d):
        r = self.r
        k = r.randrange(17)
        if d <= 0 or k <= 3:
            k = r.randrange(3)
            if k == 0:
                a, b, n = r.choice(self.arr)
                self.tags.add("decay")
                return X(a.t, "p", ("const " if "const" in b else "", b.replace("const ", "")), False)
            return r.choice(self.pv)
        if k == 4:
            a = self.ptr(d - 1)
            if a.ty[1] not in ("void", "fn"):
                self.tags.add("pointer_arith")
                return X(r.choice(["%s + %s", "%s - %s"]) % (a.p(), self.intg(d - 1).p()) if r.random() < .7 else "%s + %s" % (self.intg(d - 1).p(), a.p()), "p", a.ty, prim=False)
        if k == 5:
            v = r.choice(self.iv)
            self.tags.add("address")
            return X("&%s" % v.t, "p", ("?", v.ty), prim=False)
        if k == 6:
            # conditional on two pointers to the same base: union of the qualifiers
            a = r.choice(self.pv)
            bs = [x for x in self.pv if x.ty[1] == a.ty[1]]
            b = r.choice(bs)
            self.tags.add("cond_qualifiers")
            q = "".join(x for x in ("const ", "volatile ") if x in a.ty[0] or x in b.ty[0])
            return X("%s ? %s : %s" % (self.scalar(d - 1).p(), a.t, b.t), "p", (q, a.ty[1]), prim=False)
        if k == 7:
            a = r.choice(self.pv)
            self.tags.add("cond_null")
            z = r.choice(["0", "(void *) 0", "0l", "(void *) (int) 0.0" if False else "(void *) 0l", "TY_E1" if False else "'\\0'"])
            x = [a.t, z]
            if r.random() < .5:
                x.reverse()
            return X("%s ? %s : %s" % (self.scalar(d - 1).p(), x[0], x[1]), "p", a.ty, prim=False)
        if k == 8:
            a = r.choice(self.pv)
            vs = r.choice([x for x in self.pv if x.ty[1] == "void"] or [X("ty_vp", "p", ("", "void"))])
            self.tags.add("cond_void")
            q = "".join(x for x in ("const ", "volatile ") if x in a.ty[0] or x in vs.ty[0])
            return X("%s ? %s : %s" % (self.scalar(d - 1).p(), a.t, vs.t) if r.random() < .5 else "%s ? %s : %s" % (self.scalar(d - 1).p(), vs.t, a.t), "p", (q, "void"), prim=False)
        if k == 9:
            q, b = r.choice(QS), r.choice(BASES)
            self.tags.add("pointer_cast")
            return X("(%s%s *) %s" % (q, b, self.ptr(d - 1).p()), "p", (q, b), prim=False)
        if k == 10:
            a = self.ptr(d - 1)
            self.tags.add("comma")
            return X("(%s, %s)" % (self.any(d - 1).t, a.t), "p", a.ty)
        if k == 11:
            lv = [x for x in self.pv if x.mod and x.ty[1] != "void"]
            if lv:
                v = r.choice(lv)
                self.tags.add("pointer_assign")
                return X(r.choice(["%s += 1", "%s -= 1", "%s++", "--%s", "%s = 0"]) % v.t, "p", v.ty, prim=False)
        if k == 12:
            o, q = r.choice(self.sv)
            self.tags.add("member_address")
            m = r.choice(["c", "us", "in.d", "in.k", "v", "in"])
            if m == "in":
                return X("&%s.us" % o, "p", ("?", "unsigned short"), prim=False)
            return X("&%s.%s" % (o, m), "p", ("?", {"c": "char", "us": "unsigned short", "in.d": "double", "in.k": "int", "v": "long"}[m]), prim=False)
        if k == 13:
            self.tags.add("member_decay")
            o, q = r.choice(self.sv)
            return X("%s.arr" % o, "p", ("?", "int"))
        if k == 14:
            self.tags.add("string")
            return X(r.choice(['"abc"', '"x" "y"', '""', '&"hello"[0]', '("q")']), "p", ("", "char"), prim=False)
        if k == 15:
            self.tags.add("compound_literal")
            return r.choice([X("(int[]) { 1, 2 }", "p", ("", "int")), X("&(const int) { 3 }", "p", ("const ", "int"), prim=False), X("(const char[3]) { 1 }", "p", ("const ", "char")), X("&(struct ty_s) { 1 }", "p", ("", "struct ty_s"), prim=False)])
        self.tags.add("call")
        return r.choice([X("ty_f2(0)", "p", ("", "int")), X("ty_f5()", "p", ("const ", "char"))])

    def scalar(self, d):
        return self.ar(d) if self.r.random() < .6 else self.ptr(d)

    def any(self, d):
        r = self.r
        k = r.random()
        if k < .6:
            return self.ar(d)
        if k < .85:
            return self.ptr(d)
        return self.other(d)

    def other(self, d):
        r = self.r
        o, q = r.choice(self.sv)
        a, b, n = r.choice(self.arr)
        md = self.md
        self.tags.add("composite")
        i = lambda: self.intg(0).p()
        c = [("&%s" % a.t, "x"), ("&%s" % md, "x"), (md, "x"), ("%s[0]" % md, "x"), ("%s[0][1]" % md, "x"), ("&%s[1]" % md, "x"), ("*%s" % md, "x"), ("**%s" % md, "x"), ("***%s" % md, "x"), ("%s + 1" % md, "x"), ("&%s[1][2]" % md, "x"),
             ("ty_f1", "x"), ("&ty_f1", "x"), ("*ty_f1", "x"), ("**ty_f1", "x"), ("ty_f6", "x"), ("ty_f6(1)", "x"), ("ty_f6(1)(2)", "x"), ("ty_f3", "x"), ("ty_f3(ty_so)", "x"), ("ty_f3(ty_so).c", "x"), ("ty_f3(ty_so).arr[0]", "x"), ("ty_f2", "x"), ("ty_fpa", "x"), ("ty_fpa[0]", "x"), ("*ty_fpa", "x"), ("&ty_fpa[1]", "x"), ("ty_fpa[1](3)", "x"),
             ("%s" % o, "x"), ("&%s" % o, "x"), ("(0, %s)" % o, "x"), ("%s ? %s : %s" % (i(), o, o), "x"), ("&%s.in.k" % o, "x"), ("%s.pp" % o, "x"), ("*%s.pp" % o, "x"), ("&%s.arr" % o, "x"), ("&%s.cp" % o, "x"), ("%s.cp" % o, "x"), ("*%s.cp" % o, "x"), ("%s.un" % o, "x"), ("&%s.un" % o, "x"), ("%s.un.f" % o, "x"), ("&%s.un.l" % o, "x"), ("%s.fp" % o, "x"), ("*%s.fp" % o, "x"), ("%s.fp(1)" % o, "x"),
             ('&"hello"', "x"), ('&""', "x"), ('*"a"', "x"), ("%s ? ty_ia : ty_i3" % i(), "x"), ("%s ? ty_i3 : ty_ia" % i(), "x"), ("%s ? ty_f1 : &ty_f1" % i(), "x"), ("%s ? 0 : ty_f1" % i(), "x"), ("ty_arrp", "x"), ("*ty_arrp", "x"), ("ty_arrp + 1", "x"), ("(*ty_arrp)[1]", "x"), ("&(*ty_arrp)[1]", "x"), ("ty_cps", "x"), ("&ty_cps", "x"), ("*ty_cps", "x"), ("&*ty_cps", "x"), ("ty_cps[0][0]", "x"), ("ty_ppp", "x"), ("*ty_ppp", "x"), ("**ty_ppp", "x"), ("&ty_e", "x"), ("ty_e + 0", "x"), ("TY_E1", "x"), ("+ty_e", "x"),
             ("(int (*)[3]) 0", "x"), ("(char *const *) 0", "x"), ("*(char *const *) 0", "x"), ("(ty_ca *) 0", "x"), ("*(ty_ca *) 0", "x"), ("&(*(ty_ca *) 0)[0]", "x"), ("(ty_fn *) 0", "x"), ("(const ty_pi *) 0", "x"), ("*(const ty_pi *) 0", "x"), ("&(ty_pi) { 0 }", "x"), ("(ty_cs *) 0", "x"), ("((ty_cs *) 0)->c", "x"), ("&((ty_cs *) 0)->c", "x"), ("&((ty_cs *) 0)->cp", "x"), ("&((ty_cs *) 0)->arr[0]", "x"), ("((ty_cs *) 0)->pp", "x"), ("&((ty_cs *) 0)->pp", "x")]
        t, _ = r.choice(c)
        return X(t, "o", None, prim=t.isidentifier())


PREAMBLE = """
enum ty_en { TY_E0, TY_E1 = 5, TY_E2 = 2147483647 };
union ty_u { float f; long l; };
struct ty_s { char c; unsigned short us; unsigned long ul; unsigned b5 : 5; int sb : 7; _Bool b; struct { double d; const int k; } in; volatile long v; int arr[3]; struct ty_s *pp; const char *cp; union ty_u un; int (*fp)(int); };
typedef const int ty_ca[3]; typedef int ty_fn(int); typedef int *ty_pi; typedef const struct ty_s ty_cs;
extern int ty_c; extern struct ty_s ty_so; extern void *ty_vp; int ty_f1(int); int *ty_f2(const int *); struct ty_s ty_f3(struct ty_s); float ty_f4(void); const char *ty_f5(void);
short ty_s1(int); unsigned char ty_uc(void); int (*ty_f6(int))(int); extern int (*ty_fpa[2])(int); extern int (*ty_ia)[]; extern int (*ty_i3)[3]; extern int (*ty_arrp)[4]; extern const char *ty_cps[3]; extern int **const *ty_ppp; extern enum ty_en ty_e;
"""


def gen_one(r, u):
    g = G(r, u)
    body = ""
    n = 0
    for _ in range(30):
        x = g.any(r.choice([1, 2, 2, 3]))
        n += 1
        body += "T(%d, (unsigned long long) _Generic((%s)%s);\n" % (n, x.t, TAIL)
        if x.lv and not x.bf:
            n += 1
            body += "T(%d, (unsigned long long) _Generic((&%s)%s);\n" % (n, x.p(), TAIL)
    return Item(g.decl, body, tuple(sorted(g.tags)))


def gen(r, n):
    its = [gen_one(r, u) for u in range(n)]
    return [Item(it.decls, it.body, it.tags, pre=PREAMBLE) for it in its]


def main():
    item_check("C12", gen, scale(500, 20000), 1,
               "one evaluation = one set of random declarations with about 30 expressions, each selected against %d mutually incompatible types; distinct by source text" % len(ASSOC),
               min_items=300, ub=False, assumptions=["gcc and clang agree on the type; disagreements (e.g. bit-field types) are discarded", "the type of sizeof itself is not observed (int is pinned by the repository's tests)"])
