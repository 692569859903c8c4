"""Hostile inputs for the compiler: mutated valid units, syntactically plausible but ill-typed units, broken directives, noise."""
import re
from vf import corpus

TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\.?[0-9](?:[eEpP][+-]|[\w.])*|//[^\n]*|/\*.*?\*/|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|[<>=!+\-*/%&|^]=|&&|\|\||##|\s+|.', re.S)
KW = ("auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static "
      "struct switch typedef union unsigned void volatile while _Alignas _Alignof _Atomic _Bool _Complex _Generic _Imaginary _Noreturn _Static_assert _Thread_local "
      "__attribute__ asm __asm__ __builtin_va_list __builtin_va_start __builtin_va_arg __builtin_va_end __builtin_va_copy __builtin_alloca __builtin_alloca_with_align "
      "__func__ __extension__").split()
PUN = list("{}()[];:,.?~!<>=+-*/%&|^#") + ["->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "...", "*=", "+=", "<<=", ">>=", "##", "<:", ":>", "%:"]
LIT = ["0", "1", "-1", "0x7fffffff", "0xffffffffffffffff", "18446744073709551615u", "9223372036854775807", "1.5", "1e308", "1e-400", "0x1p3", "1.0f", "2.0L", "'a'", "'\\0'", "'\\xff'",
       "L'\\x12345'", '"s"', '""', 'L"w"', 'u8"x"', 'U"\\U0001F600"', "'ab'", "08", "0x", "1e", "1.2.3", "'", '"', "\\", "99999999999999999999999999", "u'\\uD800'", '"\\', "1ull", "0b1", "1i"]


def tokens(s):
    return TOK.findall(s)


def mutate(r, s, other=None):
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5, 8])):
        k = r.random()
        if k < 0.62:
            t = tokens(s)
            if not t:
                return s
            i = r.randrange(len(t))
            j = r.random()
            # move to a token that is not white space
            while i < len(t) - 1 and t[i].isspace():
                i += 1
            if j < 0.04:
                # a hostile byte inside (or right after) one token
                q = r.randrange(len(t[i]) + 1)
                t[i] = t[i][:q] + r.choice(["\0", "\0", "\n", "\\\n", "\r", "\xff", "\xc3", "\x1a", "\\", "'", '"', "/*", "\u2028"]) + t[i][q:]
            elif j < 0.22:
                del t[i]
            elif j < 0.34:
                t.insert(i, t[i] + " ")
            elif j < 0.44:
                q = r.randrange(len(t))
                t[i], t[q] = t[q], t[i]
            elif j < 0.70:
                t[i] = " " + r.choice(r.choice([KW, PUN, LIT, [x for x in t if not x.isspace()] or ["x"]])) + " "
            elif j < 0.86:
                t.insert(i, " " + r.choice(r.choice([KW, PUN, LIT, [x for x in t if not x.isspace()] or ["x"]])) + " ")
            elif j < 0.92:
                e = min(len(t), i + r.randrange(1, 12))
                seg = t[i:e]
                q = r.randrange(len(t))
                t[q:q] = seg
            elif j < 0.96:
                e = min(len(t), i + r.randrange(1, 12))
                del t[i:e]
            elif other:
                o = tokens(other)
                if o:
                    a = r.randrange(len(o))
                    t[i:i] = o[a:a + r.randrange(1, 25)]
            s = "".join(t)
        elif k < 0.80:
            ls = s.split("\n")
            i = r.randrange(len(ls))
            j = r.random()
            if j < 0.3:
                del ls[i]
            elif j < 0.5:
                ls.insert(i, ls[i])
            elif j < 0.7:
                q = r.randrange(len(ls))
                ls[i], ls[q] = ls[q], ls[i]
            elif j < 0.85:
                ls.insert(i, r.choice(DIRECTIVES))
            else:
                ls[i] = ls[i] + r.choice(["\\", " \\", "/*", "//", '"', "'", "(", ")", "}", "{", ";"])
            s = "\n".join(ls)
        else:
            if not s:
                return s
            i = r.randrange(len(s))
            j = r.random()
            c = chr(r.choice([r.randrange(32, 127), r.randrange(1, 32), 0, r.randrange(128, 256), 10, 34, 39, 92, 35]))
            if j < 0.3:
                s = s[:i] + s[i + 1:]
            elif j < 0.6:
                s = s[:i] + c + s[i:]
            elif j < 0.85:
                s = s[:i] + c + s[i + 1:]
            elif j < 0.93:
                s = s[:i]
            else:
                s = s[i:]
    return s


DIRECTIVES = ["#define A", "#define", "#define F(", "#define F(x", "#define F(x,)", "#define F(x,x) x", "#define F(...) __VA_ARGS__", "#define F(x) #y", "#define F(x) ##x", "#define F(x) x##",
              "#define F(x) #", "#undef", "#undef 1", "#include <a\0b>", "#include \"a\0b\"", "#if 'a\0'", "#define A '\0", "#if", "#if 1", "#if 0", "#if (", "#if 1 +", "#if 1/0", "#if 1%0", "#if defined", "#if defined(", "#if defined(X", "#elif", "#elif 1", "#else", "#endif",
              "#endif x", "#ifdef", "#ifdef 1", "#ifndef X", "#include", "#include <", "#include \"", "#include <no/such.h>", "#include \"no_such.h\"", "#include X", "#line", "#line 5", "#line 0", "#line x",
              "#line 99999999999", "#line 7 \"f.c\"", "#line 7 f", "#error", "#error some text 'quote", "#pragma", "#pragma STDC FP_CONTRACT ON", "#pragma once", "#", "##", "# 1 \"f.c\"", "#nosuch", "#if 'a' == 97",
              "#error " + "long text " * 200, "#include \"" + "d/" * 400 + "x.h\"", "#include <" + "n" * 5000 + ">", "#define " + "N" * 255 + " 1", "#error " + "N" * 255, "#if 18446744073709551615", "#if -1 > 0u", "#if 1 ? 2", "#if 1 ? 2 : (3", "#if X(1)", "#define X(a) a", "#if __VA_ARGS__", "#define __VA_ARGS__ 1", "#define defined 1", "#undef __LINE__", "#if \"s\"",
              "#if 1.5", "#if 0x", "#if ~0 << 65", "_Pragma(\"x\")", "_Pragma(", "__LINE__ __FILE__ __DATE__ __TIME__", "F(1", "F(1,(2", "F()", "F", "A(", "#if 9223372036854775807 + 1", "#if -9223372036854775807 - 1 < 0 && (-9223372036854775807 - 1) / -1"]


class SG:
    """syntactically plausible units with no regard to types and constraints"""

    def __init__(self, r):
        self.r = r
        self.names = ["a", "b", "c", "f", "g", "s", "t", "u", "p", "arr", "T", "S", "E", "x", "y", "z"]
        self.fuel = r.choice([60, 200, 600])

    def ch(self, *xs):
        return self.r.choice(xs)

    def name(self):
        return self.r.choice(self.names)

    def spec(self, d=0):
        r = self.r
        self.fuel -= 1
        if self.fuel < 0:
            return "int"
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            k = r.random()
            if k < 0.5 or d > 2:
                out.append(self.ch("int", "char", "long", "unsigned", "short", "double", "float", "_Bool", "void", "signed", "const", "volatile", "T", "T", "int", "int", "__builtin_va_list"))
            elif k < 0.6:
                out.append(self.ch("static", "extern", "typedef", "register", "auto", "inline", "_Noreturn", "_Thread_local", "restrict", "_Atomic", "_Complex"))
            elif k < 0.75:
                out.append(self.ch("struct", "union") + " " + self.ch("", "S", "U", self.name()) + (" { %s }" % " ".join(self.field(d + 1) for _ in range(r.randrange(0, 4))) if r.random() < 0.7 else ""))
            elif k < 0.83:
                out.append("enum " + self.ch("", "E") + (" { %s }" % ", ".join(self.name() + r.choice(["", "", " = " + self.expr(2)]) for _ in range(r.randrange(0, 4))) if r.random() < 0.7 else ""))
            elif k < 0.9:
                out.append("_Alignas(%s)" % r.choice([self.expr(2), self.typename(d + 1)]))
            elif k < 0.93:
                out.append("__attribute__((%s))" % self.ch("", "x", "x(1)", "aligned(8)", "x, y"))
            else:
                out.append(self.ch("int", "struct S", "union U", "enum E"))
        return " ".join(out)

    def field(self, d):
        r = self.r
        k = r.random()
        if k < 0.2:
            return "%s %s : %s;" % (self.spec(d + 1), r.choice(["", self.name()]), self.expr(2))
        if k < 0.26:
            return "_Static_assert(%s, \"m\");" % self.expr(2)
        if k < 0.32:
            return self.spec(d + 1) + ";"
        return "%s %s;" % (self.spec(d + 1), ", ".join(self.declarator(0) for _ in range(r.choice([1, 1, 2]))))

    def declarator(self, d, abstract=False):
        r = self.r
        k = r.random()
        if k < 0.45 or d > 3 or self.fuel < 0:
            return r.choice(["", self.name()]) if abstract else self.name()
        if k < 0.65:
            return "*" + self.ch("", "const ", "volatile ", "restrict ") + self.declarator(d + 1, abstract)
        if k < 0.75:
            return "(" + self.declarator(d + 1, abstract) + ")"
        if k < 0.88:
            return self.declarator(d + 1, abstract) + "[%s]" % r.choice(["", self.expr(2), "*", "static 3", "const", "3", "-1", "0"])
        return self.declarator(d + 1, abstract) + "(%s)" % r.choice(["", "void", self.params(d), self.params(d), "a, b", "..."])

    def params(self, d):
        r = self.r
        return ", ".join(self.spec(2) + " " + self.declarator(d + 2, r.random() < 0.4) for _ in range(r.randrange(1, 4))) + r.choice(["", "", ", ..."])

    def typename(self, d=0):
        return self.spec(d + 1) + " " + self.declarator(1, True)

    def expr(self, d=0):
        r = self.r
        self.fuel -= 1
        if d > 5 or self.fuel < 0:
            return r.choice([self.name(), r.choice(LIT[:24])])
        k = r.randrange(22)
        e = lambda: self.expr(d + 1)
        if k < 4:
            return self.name()
        if k < 7:
            return r.choice(LIT[:24])
        if k < 10:
            return "%s %s %s" % (e(), self.ch("+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||"), e())
        if k == 10:
            return "%s%s" % (self.ch("+", "-", "!", "~", "*", "&", "++", "--", "sizeof ", "&&"), e())
        if k == 11:
            return "%s %s %s" % (e(), self.ch("=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="), e())
        if k == 12:
            return "%s ? %s : %s" % (e(), r.choice(["", e(), e()]), e())
        if k == 13:
            return "%s(%s)" % (e(), ", ".join(e() for _ in range(r.randrange(0, 4))))
        if k == 14:
            return "%s[%s]" % (e(), e())
        if k == 15:
            return "%s%s%s" % (e(), self.ch(".", "->"), self.name())
        if k == 16:
            return "(%s)%s" % (self.typename(2), r.choice([e(), "{%s}" % self.init(2)]))
        if k == 17:
            return "%s(%s)" % (self.ch("sizeof", "_Alignof"), r.choice([self.typename(2), e()]))
        if k == 18:
            return "_Generic(%s, %s)" % (e(), ", ".join(r.choice(["default", self.typename(2)]) + ": " + e() for _ in range(r.randrange(1, 4))))
        if k == 19:
            return "(%s, %s)" % (e(), e())
        if k == 20:
            return r.choice(["__builtin_va_arg(%s, %s)" % (e(), self.typename(2)), "__builtin_va_start(%s, %s)" % (e(), e()), "__builtin_alloca(%s)" % e(), "__builtin_alloca_with_align(%s, %s)" % (e(), e()), "__builtin_va_copy(%s, %s)" % (e(), e()), "__builtin_va_end(%s)" % e(),
                             "({ %s })" % self.stmt(4), "__func__"])
        return "(%s)%s" % (e(), self.ch("", "++", "--"))

    def init(self, d=0):
        r = self.r
        out = []
        for _ in range(r.randrange(0, 5)):
            des = "".join(r.choice(["[%s]" % self.expr(3), "." + self.name()]) for _ in range(r.choice([0, 0, 1, 2])))
            out.append((des + r.choice([" = ", " = ", ": "]) if des else "") + (self.expr(2) if r.random() < 0.7 or d > 2 else "{%s}" % self.init(d + 1)))
        return ", ".join(out) + r.choice(["", "", ","])

    def decl(self):
        r = self.r
        if r.random() < 0.06:
            return "_Static_assert(%s, %s);" % (self.expr(2), r.choice(['"m"', self.expr(3)]))
        ds = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            ds.append(self.declarator(0) + r.choice(["", "", " = " + self.expr(1), " = {%s}" % self.init(), " = " + r.choice(LIT[:24])]))
        return self.spec() + " " + ", ".join(ds) + ";"

    def stmt(self, d=0):
        r = self.r
        k = r.randrange(18) if d < 4 and self.fuel > 0 else r.randrange(5)
        s = lambda: self.stmt(d + 1)
        if k < 4:
            return self.expr() + ";"
        if k < 7:
            return self.decl()
        if k == 7:
            return "{ %s }" % " ".join(s() for _ in range(r.randrange(0, 4)))
        if k == 8:
            return "if (%s) %s%s" % (self.expr(1), s(), r.choice(["", " else " + s()]))
        if k == 9:
            return "while (%s) %s" % (self.expr(1), s())
        if k == 10:
            return "do %s while (%s);" % (s(), self.expr(1))
        if k == 11:
            return "for (%s %s; %s) %s" % (r.choice([";", self.expr(1) + ";", self.decl()]), r.choice(["", self.expr(1)]), r.choice(["", self.expr(1)]), s())
        if k == 12:
            return "switch (%s) %s" % (self.expr(1), s())
        if k == 13:
            return r.choice(["case %s: " % self.expr(2), "default: ", self.name() + ": ", "case %s: " % r.choice(["1", "2", "'a'"])]) + s()
        if k == 14:
            return r.choice(["break;", "continue;", "goto %s;" % self.name(), "goto *%s;" % self.expr(2), "return;", "return %s;" % self.expr(1)])
        if k == 15:
            return ";"
        return self.expr() + ";"

    def func(self):
        r = self.r
        return "%s %s(%s)%s {\n%s\n}" % (self.spec(2), self.name(), r.choice(["", "void", self.params(0), "a, b"]), r.choice(["", "", "", " int a; char b;"]), "\n".join(self.stmt() for _ in range(r.randrange(0, 7))))

    def unit(self):
        r = self.r
        base = r.choice(["", "", "typedef int T; struct S { int a; int b[3]; struct { int x, y; }; }; enum E { E1, E2 }; int a, b, *p, arr[4]; struct S s; union U { int x; double y; } u; int f(int x); void g(char *, ...); T t; double c;\n"])
        return base + "\n".join(r.choice([self.decl, self.decl, self.func, self.func])() for _ in range(r.randrange(1, 6))) + "\n"


def nest(r):
    n = r.choice([20, 60, 120])
    k = r.randrange(10)
    return [lambda: "int x = " + "(" * n + "1" + ")" * n + ";", lambda: "int " + "*" * n + "p;", lambda: "int a" + "[1]" * n + ";", lambda: "void f(void) " + "{" * n + "}" * n,
            lambda: "struct A {" * n + "int x;" + "} a;" * n, lambda: "int x = " + "-" * 1 + "- " * n + "1;", lambda: "int x = " + "1 ? " * n + "1" + " : 2" * n + ";",
            lambda: "int a" + "[1]" * (n // 4) + " = " + "{" * (n // 4) + "1" + "}" * (n // 4) + ";", lambda: "#if 1\n" * n + "int x;\n" + "#endif\n" * n,
            lambda: "#define M(x) " + "x " * (n // 6) + "\n" + "M(" * min(n, 3) + "1" + ")" * min(n, 3) + "\n"][k]() + "\n"


def gen(r):
    """-> (kind, text, mode, feats)"""
    k, t, m, f = gen_(r)
    if r.random() < 0.04:
        # diagnostics that name a very long file
        t = '#line %d "%s"\n%s' % (r.randrange(1, 99), "n" * r.choice([100, 200, 230, 250, 260, 1000, 6000]), t)
        f &= ~(1 << 13)
    return k, t, m, f


def gen_(r):
    k = r.random()
    mode = r.choice("sssssssiaatp")
    feats = r.choice([0, 0, 0x1ffe, 0x1fff, r.randrange(1 << 13)]) | (r.choice([0, 0, 0, 1]) << 13) | (r.randrange(2) << 14)
    if k < 0.42:
        m, t = corpus.unit(r, 1)
        o = corpus.unit(r, 1)[1] if r.random() < 0.1 else None
        return "mutated:" + m, mutate(r, t, o), mode, feats
    if k < 0.52:
        us = corpus.repo_units()
        with open(r.choice(us), encoding="latin-1") as fh:
            t = re.sub(r"/\*.*?\*/", "", fh.read(), 1, re.S)
        t = re.sub(r"#include <[^>]*>", "", t)
        return "mutated:repo", mutate(r, t), mode, feats
    if k < 0.66:
        import importlib
        m = r.choice(["c13", "c14", "c15"])
        g = importlib.import_module("vf.checks." + m).gen(r, 1)[0]
        return "mutated:" + m, mutate(r, g.text), r.choice("ppptttt"), feats & ~(1 << 13)
    if k < 0.90:
        t = SG(r).unit()
        if r.random() < 0.15:
            t = mutate(r, t)
        return "syntax", t, mode, feats
    if k < 0.95:
        return "directives", "\n".join(r.choice(DIRECTIVES + ["int x;", "A F(1,2) X(1)"]) for _ in range(r.randrange(1, 8))) + r.choice(["", "\n"]), r.choice("ppts"), feats & ~(1 << 13)
    if k < 0.97:
        return "nesting", nest(r), mode, feats
    return "noise", "".join(r.choice(r.choice([KW, PUN, LIT, ["\n", " ", "x"]])) + r.choice(["", " "]) for _ in range(r.randrange(1, 60))), mode, feats
