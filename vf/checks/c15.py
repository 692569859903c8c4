"""C15: tokens and literals denote what C17 prescribes, in every layout."""
import os
from fractions import Fraction
from vf.core import *
from vf.ppmon import *
from vf import lex

os.environ["LC_ALL"] = "C.UTF-8"
UNI = [0xa8, 0xe9, 0x3b1, 0x416, 0x5d0, 0x4e2d, 0x20ac, 0xfffd, 0x1f600, 0x10ffff, 0x10000, 0xffff, 0xd7ff, 0xe000, 0x7ff, 0x800]


class LG:
    def __init__(self, r, u):
        self.r, self.u, self.tags = r, u, set()

    # ---------------------------------------------------------------- literals
    def integer(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            b = r.choice([7, 8, 15, 16, 31, 32, 33, 62, 63, 64])
            v = max(0, (1 << b) + r.choice([-2, -1, 0, 1]))
        elif k < 0.6:
            v = r.randrange(300)
        else:
            v = r.getrandbits(r.randrange(1, 65))
        v &= (1 << 64) - 1
        form = r.choice("ddxXo")
        if form == "d":
            s = str(v)
        elif form == "o":
            s = "0" * r.choice([1, 1, 2, 4]) + ("%o" % v if v else r.choice(["", "0"]))
            self.tags.add("octal")
        else:
            s = "0" + form + "0" * r.choice([0, 0, 1, 3]) + ("%x" % v if r.random() < 0.5 else "%X" % v)
            if r.random() < 0.2:
                s = "".join(c.upper() if r.random() < 0.5 and i > 1 else c for i, c in enumerate(s))
            self.tags.add("hex")
        sf = ""
        if r.random() < 0.5:
            a, b = r.choice(["", "u", "U"]), r.choice(["", "l", "L", "ll", "LL"])
            sf = a + b if r.random() < 0.6 else b + a
            self.tags.add("int_suffix")
        try:
            lex.number(s + sf)
        except lex.LexError:
            return self.integer()
        return s + sf

    def floating(self):
        r = self.r
        def digs(n):
            return "".join(r.choice("0123456789") for _ in range(r.randrange(*n)))
        for _ in range(50):
            if r.random() < 0.65:
                m = r.choice([digs((1, 6)) + ".", "." + digs((1, 8)), digs((1, 5)) + "." + digs((1, 25)), digs((1, 22)) + "." + digs((0, 3))])
                e = "" if r.random() < 0.4 else r.choice("eE") + r.choice(["", "+", "-"]) + str(r.choice([0, 1, 5, 12, 23, 30, 37, r.randrange(300)]))
                if r.random() < 0.2 and e:
                    m = digs((1, 18))
                self.tags.add("decimal_float")
            else:
                h = lambda n: "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.randrange(*n)))
                m = r.choice(["0x", "0X"]) + r.choice([h((1, 8)), h((1, 5)) + ".", "." + h((1, 10)), h((1, 3)) + "." + h((1, 16))])
                e = r.choice("pP") + r.choice(["", "+", "-"]) + str(r.choice([0, 1, 3, 10, 100, r.randrange(120)]))
                self.tags.add("hex_float")
            s = m + e + r.choice(["", "", "", "f", "F", "l", "L"])
            try:
                v = lex.number(s)
            except (lex.LexError, OverflowError, ValueError):
                continue
            if v[0] != "flt":
                continue
            lo = {"float": -120, "double": -1000, "ldouble": -1000}[v[1]]
            if v[2] and not (Fraction(2) ** lo < abs(v[2]) < 10 ** 308):
                continue
            return s
        return "1.5"

    def esc(self, width, nul=True):
        r = self.r
        k = r.random()
        if k < 0.4:
            return "\\" + r.choice("ntrabfv\\'\"?")
        if k < 0.6:
            v = r.choice([1, 7, 8, 31, 63, 64, 127] + ([0] if nul else [])) if width == 1 or r.random() < 0.6 else r.choice([128, 255, 256, 511])
            s = "%o" % v
            self.tags.add("octal_escape")
            return "\\" + (s if r.random() < 0.5 else s.zfill(3)) + ("" if len(s) == 3 or r.random() < 0.7 else r.choice(["8", "x", ""]))
        if k < 0.8:
            v = r.choice([1, 9, 31, 127] + ([192, 254, 255] if width == 1 else [255, 0x1234, 0xffff] + ([0x12345, 0x10ffff, 0x7fffffff] if width == 4 else [])))
            self.tags.add("hex_escape")
            return "\\x" + r.choice(["%x", "%X", "0%x", "000%x"]) % v
        cp = r.choice(UNI)
        if width == 1 and cp > 0xffff and r.random() < 0.2:
            cp = r.choice(UNI[:6])
        self.tags.add("ucn")
        return "\\u%04x" % cp if cp < 0x10000 else "\\U%08x" % cp

    def plain(self, q):
        r = self.r
        if r.random() < 0.08:
            self.tags.add("utf8_source")
            return chr(r.choice(UNI))
        return r.choice([c for c in "abcxyzABC019 _-+*/<>=!&|^~%#()[]{}.,;:?$@`'\"" if c != q])

    def char(self):
        r = self.r
        pf = r.choice(["", "", "", "L", "u", "U"])
        w = lex.WIDTH[pf]
        for _ in range(30):
            n = 1 if pf or r.random() < 0.9 else r.choice([2, 3, 4])
            c = "".join(self.esc(w) if r.random() < 0.5 else self.plain("'") for _ in range(n))
            try:
                u = lex.decode(c, w)
            except lex.LexError:
                continue
            if pf and len(u) != 1 or not pf and (len(u) > 4 or n == 1 and len(u) != 1 or n > 1 and any(x > 127 for x in u) or any(ord(x) > 127 for x in c) or "\\u" in c or "\\U" in c):
                continue
            if n > 1:
                self.tags.add("multichar")
            self.tags.add("char" + pf)
            return "%s'%s'" % (pf, c)
        return "'a'"

    def string(self, pf=None):
        r = self.r
        pf = r.choice(["", "", "", "u8", "L", "u", "U"]) if pf is None else pf
        w = lex.WIDTH[pf]
        for _ in range(30):
            out = ""
            for _ in range(r.choice([0, 1, 3, 6, 12])):
                p = self.esc(w) if r.random() < 0.3 else self.plain('"')
                if out.endswith("?") and p == "?":
                    p = "!"
                # an octal or hexadecimal escape must not swallow what follows by accident of generation: it may, the oracle knows
                out += p
            try:
                lex.decode(out, w)
            except lex.LexError:
                continue
            self.tags.add("string" + pf)
            return '%s"%s"' % (pf, out)
        return '""'

    def strings(self):
        r = self.r
        n = r.choice([1, 1, 1, 2, 3, 4])
        if n == 1:
            return [self.string()]
        pf = r.choice(["", "u8", "L", "u", "U"])
        self.tags.add("concatenation")
        out = [self.string(r.choice([pf, pf, ""])) for _ in range(n)]
        try:
            lex.tokens(" ".join(out))
        except lex.LexError:
            return [self.string("")]
        return out

    def ident(self):
        r = self.r
        k = r.random()
        if k < 0.2:
            return r.choice(sorted(lex.KEYWORDS))
        if k < 0.3:
            kw = r.choice(sorted(lex.KEYWORDS))
            self.tags.add("near_keyword")
            return r.choice([kw + "_", kw + "1", "_" + kw, kw[:-1] or "x", kw.upper() + "x", "x" + kw])
        if k < 0.4:
            return r.choice(["u", "U", "L", "u8", "l", "u8x", "LL", "R", "e1", "x", "_", "__", "E", "p"])
        if k < 0.55:
            self.tags.add("long_identifier")
            return "v" + "".join(r.choice("abcXYZ019_") for _ in range(r.choice([31, 63, 64, 100, 200])))
        return "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCXYZ_") for _ in range(r.randrange(1, 6))) + r.choice(["", "0", "12"])

    def punct(self):
        p = self.r.choice([x for x in lex.PUNCT if x not in ("#", "##", "%:", "%:%:")])
        if p in lex.DIGRAPH:
            self.tags.add("digraph")
        return p

    # ---------------------------------------------------------------- layout
    def sep(self, need):
        r = self.r
        k = r.random()
        if not need and k < 0.5:
            return ""
        if k < 0.75:
            return r.choice([" ", "  ", "\t", "\n", " \n ", "\v", "\f"])
        if k < 0.9:
            self.tags.add("comment")
            return r.choice(["/**/", "/* * / ** */", "/***/", "/* // */", "/*\n*/", "// x\n", "// /* \n", "/* \" */", "// '\n", "/*/ */", "//\\\n still\n", "/* \\\n*/", "/*\\\n*\\\n/"])
        self.tags.add("splice")
        return r.choice([" \\\n", "\\\n ", "\\\n\\\n\t"])

    def inner_splice(self, s):
        r = self.r
        if len(s) < 2 or r.random() > 0.06 or any(ord(c) > 127 for c in s):
            return s
        i = r.randrange(1, len(s))
        self.tags.add("splice_in_token")
        return s[:i] + "\\\n" + s[i:]

    def group(self):
        r = self.r
        out, prev = [], ""
        sticky = r.random() < 0.3      # maximal munch: operators without separation
        for _ in range(r.randrange(4, 24)):
            k = r.random()
            if sticky and k < 0.7 or k < 0.25:
                t = [self.punct()]
            elif k < 0.45:
                t = [self.ident()]
            elif k < 0.62:
                t = [self.integer()]
            elif k < 0.74:
                t = [self.floating()]
            elif k < 0.86:
                t = [self.char()]
            else:
                t = self.strings()
            if prev.endswith('"') and t[0].endswith('"'):
                t = [self.punct()] + t
            for x in t:
                need = True
                if prev:
                    isp = prev in lex.PUNCT
                    need = not (isp or x in lex.PUNCT or x[0] in "\"'" and prev[-1] in "\"'")
                    if isp and x[0] in ".0123456789" and prev[-1] == ".":
                        need = True
                    if prev[-1] in ".+-" and not isp or (x in lex.PUNCT and x[0] in "+-." and not isp and prev[0] in ".0123456789"):
                        need = True
                    if not isp and prev[0] in ".0123456789" and x[0] in ".":
                        need = True
                    if isp and x in lex.PUNCT and ((prev + x).startswith(("//", "/*", "%:", "#")) or "//" in prev + x or "/*" in prev + x or "%:" in prev + x or ".." in prev + x):
                        need = True
                out.append(self.sep(need))
                out.append(self.inner_splice(x))
                prev = x
        text = "q" + "".join(out) + "\n"
        if "??" in text:
            text = text.replace("??", "? ")
        return Group(text, sorted(self.tags))


def gen(r, n):
    return [LG(r, u).group() for u in range(n)]


# ---------------------------------------------------------------- values at run time
GEN = "_Generic((%s), char: 1, signed char: 2, unsigned char: 3, short: 4, unsigned short: 5, int: 6, unsigned: 7, long: 8, unsigned long: 9, long long: 10, unsigned long long: 11, float: 12, double: 13, long double: 14, default: 15)"


def gen_rt(r, n):
    out = []
    for u in range(n):
        g = LG(r, u)
        decls, body, t = "", "", 0
        for _ in range(r.randrange(4, 10)):
            k = r.random()
            t += 1
            if k < 0.3:
                s = g.integer()
                body += "T(%d, %s); T(%d, %s);\n" % (t, s, t, GEN % s)
                if r.random() < 0.3:
                    decls += "static const unsigned long long gi%d_%d = %s;\n" % (u, t, s)
                    body += "T(%d, gi%d_%d);\n" % (t, u, t)
            elif k < 0.5:
                s = g.floating()
                f = {"f": "TF", "l": "TL"}.get(s[-1].lower() if not (s.lower().startswith("0x") and "p" not in s.lower()) else "", "TD")
                body += "%s(%d, %s); T(%d, %s);\n" % (f, t, s, t, GEN % s)
                if r.random() < 0.3:
                    ty = {"TF": "float", "TD": "double", "TL": "long double"}[f]
                    decls += "static const %s gf%d_%d = %s;\n" % (ty, u, t, s)
                    body += "%s(%d, gf%d_%d);\n" % (f, t, u, t)
            elif k < 0.65:
                s = g.char()
                body += "T(%d, %s); T(%d, %s);\n" % (t, s, t, GEN % s)
                g.tags.add("char_value")
            else:
                ss = g.strings()
                s = r.choice([" ", "\n", "/**/"]).join(ss)
                pf = next((x[:x.index('"')] for x in ss if x[0] != '"'), "")
                ty = {"": "char", "u8": "char", "u": "unsigned short", "U": "unsigned", "L": "int"}[pf]
                nm = "gs%d_%d" % (u, t)
                form = r.choice(["arr", "ptr", "local", "direct", "bound"])
                if form == "arr":
                    decls += "static %s %s[] = %s;\n" % (ty, nm, s)
                    body += "TB(%d, %s, sizeof %s);\n" % (t, nm, nm)
                elif form == "bound":
                    decls += "static %s %s[80] = %s;\n" % (ty, nm, s)
                    body += "TB(%d, %s, sizeof %s);\n" % (t, nm, nm)
                elif form == "ptr":
                    decls += "static const %s *%s = %s;\n" % (ty, nm, s)
                    body += "TB(%d, %s, sizeof(%s));\n" % (t, nm, s)
                elif form == "local":
                    body += "{ %s %s[] = %s; TB(%d, %s, sizeof %s); }\n" % (ty, nm, s, t, nm, nm)
                else:
                    body += "TB(%d, %s, sizeof(%s)); T(%d, %s[sizeof(%s) / sizeof(%s) / 2]);\n" % (t, s, s, t, "(%s)" % s, s, ty)
                g.tags.add("string_" + form)
        out.append(Item(decls, body, sorted(g.tags)))
    return out


def main():
    ck = Check("C15")
    ck.rule = "one evaluation = one random token sequence in a random layout (its token stream is compared), or one group of literals (types, values and bytes are recorded by the compiled program); distinct by text"
    ck.assumptions = ["gcc and clang perform line splicing and comment removal, an independent tokenizer converts spellings to values", "trigraphs, identifiers with extended characters (KF-C15-1) and multi-character constants with bytes above 127 (implementation-defined) are not exercised"]
    bdir = build("plain")
    run_pp(ck, bdir, gen, scale(500, 8000), 16)
    run_items(ck, bdir, gen_rt, scale(100, 1500), 12, label="rt")
    run_known_pp(ck, bdir)
    ck.finish(1000)
