"""C14: conditional inclusion, #include and #line select the right text."""
from vf.ppmon import *

KW = ["int", "return", "sizeof", "if", "while"]


class CG:
    def __init__(self, r, u):
        self.r, self.u = r, u
        self.tags = set()
        self.files = {}
        self.n = 0
        self.defs = []          # names that may or may not be defined as integers
        self.fns = []
        self.budget = 45

    def name(self, p="m"):
        self.n += 1
        return "%s%d_%d" % (p, self.u, self.n)

    # ------------------------------------------------------------ #if expressions
    def num(self, small=False):
        r = self.r
        v = r.randrange(1000) if small else r.choice([0, 1, 2, 3, 5, 7, 8, 31, 63, 100, 255, 256, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807, r.randrange(1 << 62)])
        s = r.choice(["%d", "%d", "%d", "0x%x", "0%o"]) % v
        if r.random() < 0.2:
            s += r.choice(["L", "l", "LL", "U", "u", "UL", "ull", "LU"])
        return s

    def prim(self, d):
        r = self.r
        k = r.random()
        if k < 0.4:
            return self.num()
        if k < 0.55 and self.defs:
            return r.choice(self.defs)
        if k < 0.62:
            return "undef%d_%d" % (self.u, r.randrange(4))
        if k < 0.65:
            self.tags.add("keyword_operand")
            return r.choice(KW)
        if k < 0.75:
            self.tags.add("defined")
            n = r.choice(self.defs + self.fns + ["undef%d_1" % self.u, "__FILE__", "__STDC__"])
            return r.choice(["defined %s", "defined(%s)", "defined ( %s )"]) % n
        if k < 0.82:
            self.tags.add("char_operand")
            return r.choice(["'a'", "'\\0'", "'\\n'", "'0'", "'\\x7f'", "'\\''", "'\\177'"])
        if k < 0.87 and self.fns:
            f = r.choice(self.fns)
            self.tags.add("macro_operand")
            return "%s(%s)" % (f, self.expr(d + 2)) if r.random() < 0.85 else f
        return "(%s)" % self.expr(d + 1)

    def expr(self, d=0):
        r = self.r
        if d >= 4:
            return self.num()
        k = r.random()
        if k < 0.3:
            return self.prim(d)
        if k < 0.42:
            return r.choice(["-", "!", "~", "+", "! ", "- "]) + " " * (r.random() < 0.5) + self.paren(d + 1)
        if k < 0.52:
            self.tags.add("ternary")
            return "%s ? %s : %s" % (self.paren(d + 1), self.paren(d + 1), self.paren(d + 1))
        if k < 0.58:
            self.tags.add("guarded_div0")
            return r.choice(["0 && 1 / 0", "1 || 1 % 0", "(0 ? 1 / 0 : %s)" % self.num(), "defined undef%d_1 && 1 / undef%d_1" % (self.u, self.u)])
        op = r.choice(["+", "-", "*", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "&", "|", "^", "<<", ">>", "/", "%"])
        if op in ("<<", ">>"):
            return "%s %s %d" % (self.num(r.random() < 0.9), op, r.choice([0, 1, 5, 31, 32, 62]))
        if op in ("/", "%"):
            return "%s %s %s" % (self.paren(d + 1), op, r.choice(["3", "7", "10u", "255"]))
        sp = r.choice([" ", " ", "  "])
        if op in ("+", "-", "*") and r.random() < 0.9:
            return "%s%s%s%s%s" % (self.num(True) if r.random() < 0.5 else "-" + self.num(True), sp, op, sp, self.num(True))
        return self.paren(d + 1) + sp + op + sp + self.paren(d + 1)

    def paren(self, d):
        e = self.expr(d)
        return e if self.r.random() < 0.35 and d > 3 else "(%s)" % e

    # ------------------------------------------------------------ text
    def line(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return "t%d_%d" % (self.u, r.randrange(1000)) + r.choice(["", " +", " ;", " /* c */ x"])
        if k < 0.65 and self.defs:
            return r.choice(self.defs) + r.choice(["", " ;"])
        if k < 0.75 and self.fns:
            return "%s(%d)" % (r.choice(self.fns), r.randrange(9))
        if k < 0.85:
            self.tags.add("line_macro")
            return "__LINE__"
        if k < 0.92:
            self.tags.add("file_macro")
            return "__FILE__"
        return "\"s%d\"" % r.randrange(100)

    def hash(self):
        r = self.r
        k = r.random()
        if k < 0.75:
            return "#"
        self.tags.add("spaced_directive")
        return r.choice(["# ", "  #", "\t#", " # ", "#\t", "%:"] + ["/**/ #", "# /* c */ ", "/* a */#/* b */"])

    def tail(self):
        r = self.r
        k = r.random()
        if k < 0.85:
            return ""
        self.tags.add("comment_after_directive")
        return r.choice([" // c", " /* c */", "  ", " /* c\n d */"])

    def directive(self, live, depth, infile):
        """a complete construct; live: whether it may define things"""
        r = self.r
        self.budget -= 1
        k = r.random()
        out = []
        if k < 0.34 and depth < 6:
            return self.cond(live, depth, infile)
        if k < 0.50:
            n = r.choice(self.defs) if self.defs and r.random() < 0.5 else self.name()
            if n not in self.defs:
                self.defs.append(n)
            out.append("%sundef %s" % (self.hash(), n))
            if r.random() < 0.8:
                out.append("%sdefine %s %s%s" % (self.hash(), n, r.choice(["0", "1", "2", "(3)", "42", "-1", "0x10", "5u", "n%d_x" % self.u, n]), self.tail()))
                self.tags.add("redefine")
        elif k < 0.56 and self.fns:
            n = r.choice(self.fns)
            out.append("%sundef %s" % (self.hash(), n))
            out.append("%sdefine %s(x) ((x) %s)" % (self.hash(), n, r.choice(["+ 1", "== 0", "* 2", "- x"])))
        elif k < 0.62:
            out.append(r.choice(["#", "  #", "# /* nothing */"]))
            self.tags.add("null_directive")
        elif k < 0.72 and len(self.files) < 5 and depth < 5:
            return self.include(live, depth, infile)
        elif k < 0.76:
            self.tags.add("line_directive")
            out.append("#line %d%s" % (r.choice([1, 7, 1000, 32767, 65536]), r.choice(["", " \"lf%d.c\"" % r.randrange(9)])))
            out.append("__LINE__ __FILE__")
            out.append("__LINE__")
        elif k < 0.79:
            out.append("#define L%d_%d %d\n#line L%d_%d" % (self.u, self.n, r.randrange(1, 5000), self.u, self.n))
            self.n += 1
            out.append("__LINE__")
            self.tags.add("line_directive_macro")
        else:
            out.append(self.line())
        return out

    def include(self, live, depth, infile):
        r = self.r
        nm = "g%d_%d.h" % (self.u, len(self.files))
        self.tags.add("include")
        style = r.choice(["quote", "angle", "quote"])
        dirs = r.choice([["inc1"], ["inc2"], ["inc1", "inc2"], ["."], [".", "inc1"], ["sub"], ["sub", "inc2"]])
        if len(dirs) > 1:
            self.tags.add("include_shadowing")
        spell = nm
        if "sub" in dirs and style == "quote":
            spell = "sub/" + nm
        if style == "angle" and dirs[0] in (".", "sub"):
            dirs = ["inc1", "inc2"]
            spell = nm
        for d in dirs:
            p = nm if d == "." else d + "/" + nm
            self.files[p] = ""
        guard = r.random() < 0.5
        for d in dirs:
            p = nm if d == "." else d + "/" + nm
            body = ["in_%s" % p.replace("/", "_").replace(".", "_")]
            for _ in range(r.randrange(1, 4)):
                body += self.directive(live, depth + 1, d)
            t = "\n".join(body) + r.choice(["\n", "\n", ""])
            if guard:
                t = "#ifndef G%d_%s\n#define G%d_%s\n%s\n#endif\n" % (self.u, nm[:-2], self.u, nm[:-2], t)
                self.tags.add("include_guard")
            self.files[p] = t
        # nested quote includes resolve relative to the including file first
        out = []
        n = r.choice([1, 1, 2])
        if n == 2:
            self.tags.add("include_twice")
        for _ in range(n):
            pre = {"inc1": "inc1/", "inc2": "inc2/", "sub": "sub/"}.get(infile, "")
            if style == "angle":
                out.append("%sinclude <%s>%s" % (self.hash(), spell, self.tail()))
            elif infile in ("sub",) and spell.startswith("sub/"):
                out.append("%sinclude \"%s\"%s" % (self.hash(), spell[4:], self.tail()))
                self.tags.add("include_relative")
            elif infile not in (".", "sub") and dirs[0] in (".", "sub"):
                out.append("%sinclude \"../%s\"%s" % (self.hash(), spell, self.tail()))
                self.tags.add("include_relative")
            elif infile == "sub" and dirs[0] == ".":
                out.append("#include \"../%s\"" % spell)
            elif r.random() < 0.15:
                out.append("#define H%d_%d \"%s\"\n#include H%d_%d" % (self.u, self.n, spell, self.u, self.n))
                self.n += 1
                self.tags.add("include_macro")
            else:
                out.append("%sinclude \"%s\"%s" % (self.hash(), spell, self.tail()))
        return out

    def body(self, live, depth, infile):
        out = []
        for _ in range(self.r.choice([0, 1, 1, 2, 3])):
            if self.budget <= 0:
                break
            out += self.directive(live, depth, infile)
        return out

    def garbage(self):
        r = self.r
        self.tags.add("dead_garbage")
        return r.choice(["#error dead", "#unknown directive", "#include <no/such/file.h>", "#if 1 2 3\n#elif garbage (\n#endif", "@ ` $ tokens", "#define", "#line x",
                         "#ifdef\n#endif", "#undef 1", "#if\n#else\n#endif", "#include", "# 12 foo", "#elifx",
                         "/* in\n#endif\n#else\n*/", "\"/* no comment\"", "'/*'", "x // #endif", "text /* a\n#else */ b", "#define S \"/*\"", "#if 0 /*\n#endif */\n#endif",
                         "/* a */ # /* b */ if 1\n/* #endif */\n/* c\n*/ #endif", "t \\\n#endif", "'\\'' /* \n#else */", "\"\\\\\" /*\n#endif*/"])

    def cond(self, live, depth, infile):
        r = self.r
        self.tags.add("conditional")
        self.tags.add("nesting_%d" % depth)
        k = r.random()
        if k < 0.5:
            out = ["%sif %s%s" % (self.hash(), self.expr(), self.tail())]
        else:
            n = r.choice(self.defs + self.fns + ["undef%d_0" % self.u])
            out = ["%s%s %s%s" % (self.hash(), r.choice(["ifdef", "ifndef"]), n, self.tail())]
        out += self.body(live, depth + 1, infile)
        for _ in range(r.choice([0, 0, 1, 2])):
            out.append("%selif %s" % (self.hash(), self.expr()))
            self.tags.add("elif")
            out += self.body(live, depth + 1, infile)
        if r.random() < 0.6:
            out.append(self.hash() + "else" + self.tail())
            out += self.body(live, depth + 1, infile)
        out.append(self.hash() + "endif" + self.tail())
        if r.random() < 0.3:
            # certainly dead text, nested directives in it are only balanced
            out += ["#if 0"] + [self.garbage() for _ in range(r.randrange(1, 3))] + ["#ifdef x", "#else", "#endif"] + ["#else", "after_dead", "#endif"]
        if r.random() < 0.1:
            out += ["#if 1", "taken", "#elif 1 / 0", "#elif (", self.garbage(), "#else", self.garbage(), "#endif"]
            self.tags.add("unevaluated_elif")
        return out

    def group(self):
        r = self.r
        out = []
        for _ in range(r.choice([1, 2])):
            n = self.name()
            self.defs.append(n)
            out.append("#define %s %s" % (n, r.choice(["0", "1", "7", "-3", "4u"])) if r.random() < 0.8 else "// not defined")
        for _ in range(r.choice([0, 1, 2])):
            n = self.name("f")
            self.fns.append(n)
            out.append("#define %s(x) ((x) %s)" % (n, r.choice(["+ 1", "== 0", "* 2", "- x"])))
        for _ in range(r.choice([3, 5, 8])):
            out += self.directive(True, 0, ".")
        return Group("\n".join(out) + "\n", sorted(self.tags), self.files, ["-I", "inc1", "-I", "inc2"])


def gen(r, n):
    return [CG(r, u).group() for u in range(n)]


# ---------------------------------------------------------------- search order: random -I lists and files
class SG:
    """one main file including headers of one name that exist in a random subset of directories"""

    @staticmethod
    def gen(r, n):
        dirs = ["d%d" % i for i in range(4)]
        order = list(dirs)
        r.shuffle(order)
        order = order[:r.randrange(1, 5)]
        opts = []
        for d in order:
            opts += ["-I", d]
        out = []
        for u in range(n):
            nm = "h%d.h" % u
            have = [d for d in dirs if r.random() < 0.5] or [order[0]]
            if not set(have) & set(order):
                have.append(r.choice(order))
            files = {}
            for d in have:
                inner = ""
                if r.random() < 0.5:
                    inner = "#include %s\n" % r.choice(['"i%d.h"' % u, "<i%d.h>" % u])
                files["%s/%s" % (d, nm)] = "from_%s_h%d __FILE__ __LINE__\n%sback\n" % (d, u, inner)
            for d in dirs:
                if r.random() < 0.6:
                    files["%s/i%d.h" % (d, u)] = "inner_%s_%d __LINE__\n" % (d, u)
            files["%s/i%d.h" % (order[-1], u)] = "inner_last_%d\n" % u
            if r.random() < 0.3:
                files["i%d.h" % u] = "inner_cwd_%d\n" % u
            if r.random() < 0.3:
                files[nm] = "from_cwd_h%d\n" % u
            out.append(Group("#include %s\n#include %s\n__LINE__\n" % (r.choice(['"%s"' % nm, "<%s>" % nm]), r.choice(['"%s"' % nm, "<%s>" % nm])),
                             ["search_order", "file_macro"], files, opts))
        return out


def main():
    ck = Check("C14")
    ck.rule = "one evaluation = one independent group of nested conditionals, includes and #line directives (with its own header files); token streams are compared with gcc's and clang's; distinct by text"
    ck.assumptions = ["groups on which gcc and clang disagree, or that either rejects, are discarded", "file names are compared modulo ./ prefixes"]
    bdir = build("plain")
    run_pp(ck, bdir, gen, scale(500, 6000), 8)
    run_pp(ck, bdir, SG.gen, scale(200, 2000), 6, "s")
    run_known_pp(ck, bdir)
    ck.finish(1000)
