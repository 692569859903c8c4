"""C04: statements and operands execute exactly as often and in the order C prescribes."""
import re
from vf.core import *

PRE4 = """static unsigned x4, y4; static int fuel4;
static int CI(long id, int v) { T(id, (unsigned long long) (long long) v); return v; }
static long CL(long id, long v) { T(id, (unsigned long long) v); return v; }
static unsigned long long CU(long id, unsigned long long v) { T(id, v); return v; }
static signed char CC(long id, signed char v) { T(id, (unsigned long long) (long long) v); return v; }
static unsigned short CW(long id, unsigned short v) { T(id, v); return v; }
static _Bool CB(long id, _Bool v) { T(id, v); return v; }
static float CF(long id, float v) { TF(id, v); return v; }
static double CD(long id, double v) { TD(id, v); return v; }
static long double CX(long id, long double v) { TL(id, v); return v; }
static char *CP(long id, char *v) { T(id, v != 0); return v; }
static char ch4[4];
extern void SPM(long, const void *);
"""


class G:
    def __init__(self, r, spm=False):
        self.r, self.ev, self.lab, self.var, self.budget = r, 0, 0, 0, r.randrange(12, 60)
        self.labels = []      # labels usable for goto (function wide)
        self.spm = spm
        self.ret = "void"
        self.depth = 0
        self.kinds = set()

    def id(self):
        self.ev += 1
        return self.ev

    def st(self):
        """small arithmetic over the state"""
        return self.r.choice(["x4", "y4", "x4 + y4", "x4 ^ y4", "x4 * 3 + y4", "y4 - x4", "x4 >> 2", "y4 >> 3"])

    def bit(self):
        return "((%s) & %d)" % (self.st(), self.r.choice([1, 1, 2, 3, 4, 7]))

    def scalar(self):
        """a side-effecting scalar operand of some type, sometimes zero, sometimes nonzero only in high/odd bits"""
        r = self.r
        k = r.randrange(11)
        i = self.id()
        if k < 3:
            return "CI(%d, %s)" % (i, self.bit())
        if k == 3:
            return "CL(%d, (long) %s << %d)" % (i, self.bit(), r.choice([8, 31, 32, 40, 60]))
        if k == 4:
            return "CU(%d, (unsigned long long) %s << %d)" % (i, self.bit(), r.choice([16, 32, 33, 61]))
        if k == 5:
            return "CC(%d, (signed char) (%s << %d))" % (i, self.bit(), r.choice([0, 4, 5]))
        if k == 6:
            return "CW(%d, (unsigned short) (%s << %d))" % (i, self.bit(), r.choice([0, 8, 13]))
        if k == 7:
            return "CB(%d, %s)" % (i, self.bit())
        if k == 8:
            return "CF(%d, %s * 0.25f)" % (i, "(float) " + self.bit())
        if k == 9:
            return r.choice(["CD(%d, (double) %s * 0.125)", "CX(%d, (long double) %s * 0.125L)"]) % (i, self.bit())
        return "CP(%d, %s ? ch4 + 1 : (char *) 0)" % (i, self.bit())

    def cond(self, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.3:
            return self.scalar()
        if k < 0.5:
            return "%s && %s" % (self.cp(d - 1), self.cp(d - 1))
        if k < 0.7:
            return "%s || %s" % (self.cp(d - 1), self.cp(d - 1))
        if k < 0.78:
            return "!%s" % self.cp(d - 1)
        if k < 0.86:
            return "(%s, %s)" % (self.cond(d - 1), self.cond(d - 1))
        if k < 0.95:
            return "(%s ? %s : %s)" % (self.cond(d - 1), self.icond(d - 1), self.icond(d - 1))
        return "CI(%d, %s) %s CI(%d, %s) - 1" % (self.id(), self.bit(), r.choice(["<", "==", ">="]), 0, self.bit()) if False else \
            "CI(%d, %s) %s %d" % (self.id(), self.bit(), r.choice(["<", "==", ">=", "!="]), r.randrange(4))

    def cp(self, d):
        c = self.cond(d)
        return c if (c.startswith("C") and c.count("(") == 1 and False) else "(%s)" % c

    def icond(self, d):
        """integer-typed condition"""
        r = self.r
        k = r.randrange(4)
        if k == 0:
            return "!!(%s)" % self.cond(d)
        if k == 1:
            return "((%s) && (%s))" % (self.cond(d - 1), self.cond(d - 1))
        if k == 2:
            return "CI(%d, (int) %s)" % (self.id(), self.bit())
        return "((%s), CI(%d, (int) %s))" % (self.cond(d - 1), self.id(), self.bit())

    def simple(self):
        r = self.r
        k = r.randrange(8)
        self.budget -= 1
        if k == 0:
            return "x4 = x4 * %d + %d;" % (r.choice([3, 5, 9]), r.randrange(1, 8))
        if k == 1:
            return "y4 = y4 * 5 + x4 + %d;" % r.randrange(8)
        if k == 2:
            return "T(%d, x4); x4 += %d;" % (self.id(), r.randrange(1, 4))
        if k == 3:
            return "%s;" % self.cond(2)
        if k == 4:
            return "(void) (%s);" % self.cond(1)
        if k == 5:
            return "x4 += (%s) ? %d : y4;" % (self.cond(2), r.randrange(9))
        if k == 6:
            i = self.id()
            return "{ int ar[3] = {x4 & 7, 5, 6}; int *pa = ar; *pa++ += CI(%d, 2); T(%d, ar[0]); T(%d, pa - ar); y4 += *pa--; T(%d, *pa); }" % (i, self.id(), self.id(), self.id())
        return "T(%d, y4);%s" % (self.id(), ";" * r.randrange(2))

    def stmts(self, d, loop, n=None, sw=False):
        r = self.r
        out = []
        for _ in range(n or r.randrange(1, 4)):
            if self.budget <= 0:
                break
            out.append(self.stmt(d, loop, sw))
        if not out:
            out.append("T(%d, x4);" % self.id())
        return "\n".join(out)

    def body(self, d, loop, sw=False):
        if self.r.random() < 0.15:
            s = self.stmt(d, loop, sw, single=True)
            return s
        return "{\n%s\n}" % self.stmts(d, loop, sw=sw)

    def stmt(self, d, loop, sw=False, single=False):
        """loop: inside loop (continue allowed); sw: inside switch or loop (break allowed)"""
        r = self.r
        self.budget -= 1
        k = r.random()
        if d <= 0 or self.budget <= 0 or k < 0.22:
            s = self.simple()
            return "{ %s }" % s
        if k < 0.36:
            self.kinds.add("if")
            if r.random() < 0.45:
                s = "if (%s) %s" % (self.cond(), self.body(d - 1, loop, sw))
            else:
                s = "if (%s) {\n%s\n} else %s" % (self.cond(), self.stmts(d - 1, loop, sw=sw), self.body(d - 1, loop, sw))
            return s
        if k < 0.46:
            self.kinds.add("for")
            return self.for_(d)
        if k < 0.54:
            v = self.v()
            self.kinds.add("while")
            return "{ int %s = %d; while (%s-- > 0%s) {\n%s%s\n} T(%d, (unsigned) %s); }" % (
                v, r.randrange(0, 4), v, r.choice(["", " && (%s)" % self.cond(1)]), self.fuelck(), self.stmts(d - 1, True, sw=True), self.id(), v)
        if k < 0.62:
            v = self.v()
            self.kinds.add("do")
            return "{ int %s = %d; do {\n%s%s\n} while (%s%s++ < 2); T(%d, (unsigned) %s); }" % (
                v, r.randrange(0, 3), self.fuelck(), self.stmts(d - 1, True, sw=True), r.choice(["", "(%s) && " % self.cond(1)]), v, self.id(), v)
        if k < 0.80:
            self.kinds.add("switch")
            return self.switch(d, loop)
        if k < 0.86 and sw:
            self.kinds.add("break")
            return "if (%s) { T(%d, 1); break; }" % (self.cond(1), self.id())
        if k < 0.90 and loop:
            self.kinds.add("continue")
            return "if (%s) { T(%d, 2); continue; }" % (self.cond(1), self.id())
        if k < 0.93:
            self.kinds.add("return")
            return "if (fuel4 < %d) %s" % (r.randrange(60), self.return_())
        if k < 0.96:
            self.kinds.add("goto")
            return "if (fuel4-- > 0 && (%s)) goto @@;" % self.cond(1)
        # label definition (usable from anywhere in the function, also backwards)
        l = self.newlabel()
        self.kinds.add("label")
        return "{ %s: %s %s }" % (l, r.choice([";", "T(%d, 3);" % self.id()]), self.simple())

    def newlabel(self):
        self.lab += 1
        l = "L%d" % self.lab
        self.labels.append(l)
        return l

    def v(self):
        self.var += 1
        return "v%d" % self.var

    def fuelck(self):
        s = "if (fuel4-- <= 0) %s\n" % self.return_()
        if self.spm:
            s += "SPM(%d, &anchor);\n" % self.id()
        return s

    def return_(self):
        if self.ret == "void":
            return "return;"
        return "return (%s) (%s);" % (self.ret, self.cond(1)) if False else "return (%s) CI(%d, x4 & 127);" % (self.ret, self.id())

    def for_(self, d):
        r = self.r
        v = self.v()
        n = r.randrange(0, 4)
        k = r.randrange(5)
        if k == 0:
            return "for (int %s = 0; %s < %d; %s++) {\n%s%s\n}" % (v, v, n, v, self.fuelck(), self.stmts(d - 1, True, sw=True))
        if k == 1:
            return "for (int %s = CI(%d, %d), q%s = 9; CI(%d, %s) > 0; %s--, T(%d, q%s++)) {\n%s%s\n}" % (
                v, self.id(), n, v, self.id(), v, v, self.id(), v, self.fuelck(), self.stmts(d - 1, True, sw=True))
        if k == 2:
            return "{ int %s = 0; for (;;) {\n%sif (%s++ >= %d) break;\n%s\n} T(%d, (unsigned) %s); }" % (v, self.fuelck(), v, n, self.stmts(d - 1, True, sw=True), self.id(), v)
        if k == 3:
            return "{ int %s; for (%s = %d; %s; ) {\n%s%s--;\n%s\n} }" % (v, v, n, v, self.fuelck(), v, self.stmts(d - 1, True, sw=True))
        return "{ int %s = 0; for (T(%d, 7); %s < %d && (%s); T(%d, 8), ++%s) {\n%s%s\n} }" % (
            v, self.id(), v, n, self.cond(1), self.id(), v, self.fuelck(), self.stmts(d - 1, True, sw=True))

    def switch(self, d, loop):
        r = self.r
        if self.spm:
            n = 4
            vals = list(range(4))
            ctl = "(%s) & 3" % self.st()
            ctlt = "unsigned"
            default = False
        else:
            ctlt, pool = r.choice([
                ("int", list(range(-3, 8))), ("int", [0, 1, 2, 3, 100, 101, 5000]), ("unsigned char", list(range(0, 8))),
                ("signed char", list(range(-4, 4))), ("long", [-(1 << 33), -1, 0, 1, 2, 1 << 32, (1 << 32) + 1]),
                ("unsigned long long", [0, 1, 2, 3, 0xffffffff, 0x100000000]), ("unsigned", [0, 1, 2, 3, 4, 0xfffffffe, 0xffffffff]),
                ("short", [-2, -1, 0, 1, 2]), ("_Bool", [0, 1])])
            n = r.randrange(0, min(6, len(pool)) + 1)
            vals = r.sample(pool, n)
            # map the state onto values in (and next to) the pool
            tbl = r.sample(pool, min(len(pool), 4)) + (vals[:4] if vals else [])
            tbl = (tbl * 8)[:8]
            lits = ", ".join("%d%s" % (v, "" if -(1 << 31) < v < (1 << 31) else ("ull" if v > 0 and "unsigned" in ctlt else "ll")) for v in tbl)
            default = r.random() < 0.6
            tn = "tb%d" % self.id()
            ctl = "%s[(%s) & 7]" % (tn, self.st())
            pre = "static const %s %s[8] = {%s};\n" % (ctlt, tn, lits)
        out = []
        seq = list(vals)
        if default:
            seq.insert(r.randrange(len(seq) + 1), None)
        for j, v in enumerate(seq):
            lab = "default:" if v is None else "case %s:" % (v if -(1 << 31) < v < (1 << 31) else ("%d%s" % (v, "ull" if v > 0 and "unsigned" in ctlt else "ll")))
            if r.random() < 0.12 and not self.spm:
                # label nested in another construct (Duff-like)
                kind = r.randrange(3)
                if kind == 0:
                    out.append("if (%s) { %s T(%d, 4); }" % (self.cond(1), lab, self.id()))
                elif kind == 1:
                    w = "dv%d" % self.id()
                    out.append("do { T(%d, 5); %s T(%d, 6); } while (fuel4-- > 0 && (%s));" % (self.id(), lab, self.id(), self.cond(1)))
                else:
                    out.append("{ { T(%d, 9); %s ; } %s }" % (self.id(), lab, self.simple()))
                continue
            out.append(lab)
            if r.random() < 0.15 and j + 1 < len(seq):
                continue   # stacked labels
            out.append(self.stmts(d - 1, loop, n=r.randrange(1, 3), sw=True))
            if r.random() < 0.6:
                out.append("break;" if r.random() < 0.85 else "{ T(%d, 11); break; }" % self.id())
        if not out:
            out.append("T(%d, 12);" % self.id())
        sw = "switch (%s) {\n%s\n%s\n}" % (self.swctl(ctl), "T(%d, 13);" % self.id() if r.random() < 0.2 else "", "\n".join(out) + ("\n;" if True else ""))
        if r.random() < 0.1:
            w = r.choice(["T(%d, 14);", "{ T(%d, 15); }"]) % self.id()
            sw += "\n" + w
        return "{ %s%s }" % ("" if self.spm else pre, sw)

    def swctl(self, ctl):
        if self.spm:
            return "CI(%d, %s)" % (self.id(), ctl) if self.r.random() < 0.3 else ctl
        return ctl

    def function(self, name):
        r = self.r
        self.ret = r.choice(["void", "void", "int", "long", "unsigned char", "double"])
        anchor = "int anchor = 0;\n" if self.spm else ""
        b = self.stmts(r.randrange(2, 5), False, n=r.randrange(2, 6))
        self.labels.append("Lend")
        b = re.sub("@@", lambda m: r.choice(self.labels), b)
        if re.search(r"\bL\d+:", b):
            # a goto may enter any block: loop counters must not be skipped declarations
            vs = sorted(set(re.findall(r"\b(q?v\d+)\b", b)))
            b = re.sub(r"for \(int (v\d+) = ([^;,]*(?:\([^;]*\))?), (qv\d+) = 9;", r"for (\1 = \2, \3 = 9;", b)
            b = re.sub(r"\bint (v\d+)( = [^;]*)?;", lambda m: "%s%s;" % (m.group(1), m.group(2) or " = 0"), b)
            anchor += "int %s = 0;\n" % " = 0, ".join(vs) if vs else ""
        # forward references to labels not yet placed: add some at the end
        tail = ""
        if r.random() < 0.5:
            tail += "if (fuel4-- > 0 && (%s)) goto %s;\n" % (self.cond(1), r.choice(self.labels))
        return "static %s %s(void) {\n%s%s\n%sLend: T(%d, x4);\n%s\n}\n" % (
            self.ret, name, anchor, b, tail, self.id(), "" if self.ret == "void" else self.return_())


def gen(r, n):
    out = []
    for u in range(n):
        spm = r.random() < 0.25
        g = G(r, spm)
        f = g.function("f%d" % u)
        body = ""
        for s in range(r.randrange(2, 5)):
            c = "f%d()" % u
            body += "x4 = %d; y4 = %d; fuel4 = %d; %s; T(9000, x4); T(9001, y4);\n" % (
                r.getrandbits(16), r.getrandbits(16), r.randrange(20, 60),
                c if g.ret == "void" else ("TD(9002, %s)" % c if g.ret == "double" else "T(9002, (unsigned long long) %s)" % c))
        out.append(Item(f, body, tuple(sorted(g.kinds)) + (("spm",) if spm else ()), PRE4))
    return out


# -------- long loops: no construct may consume stack per iteration
LOOPS = {
    "if": "if (i & 1) s++; else s += 2;",
    "if_expr": "if ((s & 1) && (i & 2)) s++;",
    "while_break": "while (1) { s++; if (i & 1) break; s++; break; }",
    "do": "do { s++; } while (0);",
    "for": "for (int j = 0; j < 2; j++) { s += j; if (j) continue; }",
    "switch_match": "switch (i & 3) { case 0: s++; break; case 1: s += 2; case 2: s += 3; break; case 3: s += 4; default: s++; }",
    "switch_nested": "switch (i & 1) { case 0: switch (i & 2) { case 0: s++; break; case 2: s += 2; } break; case 1: s += 5; }",
    "switch_continue": "switch (i & 1) { case 0: s += 1; continue; case 1: s += 3; }",
    "goto": "if (i & 1) goto l1; s++; l1: s++; ",
    "goto_out": "{ int q = s; { if (q & 1) goto l1; s++; } } l1: s += 2;",
    "cond": "s += i & 1 ? s & 1 : 2; (i & 1) ? (void) s++ : (void) 0;",
    "logic": "(void) ((i & 1) && s++); (void) ((i & 2) || (s += 3)); s += (i & 1) && (i & 2);",
    "comma": "s++, s += 2, (void) i; (s, i, 5);",
    "call": "ext(i); s += (long) I(1); (void) I(2); I(3);",
    "call_void_expr": "vf(1); (vf(2), s++);",
    "call_struct": "sf(i); s += sf(i).a; st = sf(2); s += st.c;",
    "call_struct2": "bf(i); s += bf(i).a[3]; bt = bf(2); s += bt.a[1];",
    "struct_arg": "s += sa(st, i); s += sb(bt, i);",
    "ldouble": "ld = ld + 1.0L; (void) ld; ld; s += ld > 2; ld += i & 1; -ld; ld == 1.0L;",
    "double": "dd = dd + 1.0; (void) dd; dd; dd += i & 1; -dd; dd == 1.0; (float) dd;",
    "assign_chain": "s = t = i; s += t -= 1; t++; ++t; t--; --t;",
    "bitfield": "bf4.a = i; bf4.b += 1; bf4.a++; bf4.b; s += bf4.a;",
    "compound": "s += ((struct S4){1, 2, i & 1}).c; (struct S4){1, 2, 3}; st = (struct S4){4, 5, 6};",
    "array_init": "int a[4] = {1, i & 1, 3}; s += a[1]; char z[8] = \"abc\"; s += z[1];",
    "deref": "int *p = &iv; *p; *p = i & 3; (*p)++; p[0]; &p[0]; s += *p;",
    "fnptr": "fp(i); (*fp)(1); s += (&ext)(2);",
    "generic": "s += _Generic(i, long: 1, default: 2); _Generic(1, int: s);",
    "sizeof": "sizeof(s); sizeof(int); s += (long) sizeof(i);",
    "string": "\"abc\"; s += \"abc\"[1];",
    "voidcast": "(void) s; (void) st; (void) bt; (void) \"x\"; (void) 1.0L; (void) &s;",
    "aggregate_expr": "st; bt; (i & 1) ? st : st2; (s, st);",
    "ternary_ptr": "int *p = i & 1 ? &iv : 0; s += !p;",
    "nested_blocks": "{ { int a = i; { int b = a; s += b & 1; } } }",
    "vararg": "s += va(2, 1, 2.0); va(1, 5); va(3, 1, 2.0, 3L);",
    "returned": "s += rr(i);",
    "postincr_stmt": "s++; ++s; t--; dd++; ld++; pp++; pp--;",
    "struct_assign": "st = st2; st2 = st; *(&st) = st2; s += (st = st2).a;",
    "volatile": "vv; vv = 1; vv++; (void) vv;",
    "union": "un.l = i; un.d; s += un.i & 1;",
    "for_ld_tail": "for (int j = 0; j < 2; j++, ld += 1.0L) s++;",
    "for_ld_init": "long double y; for (y = 0; y < 2; y++) s++;",
    "for_ld_cond": "long double y = 1; for (; y; y--) s++;",
    "for_ld_decl": "for (long double y = 0; y < 2; ++y) { if (i & 1) continue; s++; }",
    "for_dbl": "double y; for (y = 0; y < 2; y += 1) s++; float f; for (f = 0; f < 2; f++) s++;",
    "for_struct": "int j = 0; for (st = st2; j < 1; j++, st2 = st) s++; for (j = 0; j < 1; st = st2) j++;",
    "for_void": "int j; for (j = 0, vf(1); j < 1; j++, vf(2)) s++; for (vf(3); ; vf(4)) { break; }",
    "for_ptr": "for (pp = &iv; pp != &iv + 1; pp++) s++;",
    "while_ld": "long double y = 2; while (y) { y -= 1; } while (y--) break; do { y += 1; } while (y < 1);",
    "ld_cond": "i & 1 ? ld : 2.0L; (void) (i & 1 ? ld : 1.0L); s += (i & 1 ? 1.0L : 2) > 1; i & 1 ? 1 : ld; i & 1 ? ld : 1.0f;",
    "ld_logic": "ld && s++; ld || s++; !ld; (void) !ld; s += !ld; if (!ld) s++; if (ld) s++; (ld && 0) || ld; !!ld;",
    "ld_cast": "(int) ld; (float) ld; (double) ld; (_Bool) ld; (char) ld; (unsigned long) 3.5L; (long double) i; (long double) dd; (long double) 1.0f; (void) (long double) i;",
    "ld_cmp": "ld < 1; ld > 1; ld <= 1; ld >= 1; ld != 1; s += (ld < 1) + (ld != 2) + (ld >= 0);",
    "ld_arith": "ld + 1; ld - 1; ld * 1; ld / 2; -ld; +ld; ld = ld * 0 + (i & 7); s += (long) (ld * 2);",
    "ld_comma": "ld, s++; (ld, ld); s += (ld, i) & 1; ld = (s, 1.0L); (ld++, --ld);",
    "ld_incdec": "ld++; ++ld; ld--; --ld; s += ld++ > 1; s += --ld > 1; ld += 1; ld -= 1; ld *= 1; ld /= 1;",
    "ld_deref": "long double *q = &ld; *q; *q = 1; (*q)++; q[0]; *q += 1; s += (long) *q; (void) *q;",
    "ld_array": "long double a[2] = {1, 2}; a[0]; a[i & 1] += 1; a[1]++; s += (long) a[1]; struct { long double m; } z = {3}; z.m; z.m++; s += (long) z.m;",
    "switch_break_deep": "switch (i & 1) { case 0: for (;;) { if (s & 1) { s++; break; } s += 2; break; } break; case 1: { { break; } } }",
    "switch_in_loop": "for (int j = 0; j < 3; j++) switch (j) { case 1: continue; case 2: s++; case 0: s++; break; }",
    "goto_into": "int j = 0; if (i & 1) goto in; for (j = 5; j < 6; j++) { in: s++; }",
    "goto_switch": "switch (i & 1) { case 0: goto out; case 1: s++; } s++; out: s += 2;",
    "void_deref": "void *vq = &iv; (void) *(int *) vq; (void) vq;",
    "logic_mixed": "dd && s++; 1.0f || s++; pp && s++; !dd; !pp; s += !pp + !dd; (0 && ext(1)) || vv; (void) (pp && dd && ld);",
    "cast_stmt": "(char) s; (short) s; (unsigned char) i; (_Bool) s; (double) s; (float) s; (void *) s; (long) pp; (int) dd; (void) 0;",
    "bit_assign": "s += bf4.a = i; bf4.a += bf4.b++; (bf4.a, bf4.b); bf4.a ? s++ : s--; bf4.a--; --bf4.b; (void) bf4.a;",
    "assign_agg": "(st = st2); (st = st2, s++); i & 1 ? (st = st2) : (st2 = st); bt = bt; (void) (bt = bt);",
    "compound_lit": "(int[]){1, 2, i}; s += (int[]){1, 2, 3}[i & 1]; (long double){1}; s += (long) (long double){2}; &(int){3}; (char[]){\"ab\"};",
    "init_ld": "long double a = 1, b = a, c[3] = {a, b}; s += (long) (a + b + c[2]); struct { char c; long double l; } z = {1, 2.0L}; s += (long) z.l; static long double k = 3; k;",
    "enum_static": "enum { A, B2 }; A; B2; static int si = 3; si; si++; s += si & 1; ext; &ext; *ext;",
    "array_expr": "int ar[3] = {0}; ar; &ar; *ar; ar[1]; &ar[1]; ar + 1; s += &ar[2] - ar; ar == &ar[0]; ar < ar + 1;",
    "return_ld": "rld(i); s += (long) rld(2); (void) rld(1); ld = rld(3); rld(1) + rld(2); s += rld2(1.0L, 2, 3.0L) > 1; rld2(1, 2, 3);",
    "return_mid": "s += rm(i); rm(1);",
    "label_empty": "l1: ; s++;",
    "empty": ";;{}{;}",
}
PRELOOP = """
struct S4 { int a, b, c; }; struct B4 { long a[6]; }; static struct S4 st, st2; static struct B4 bt; static struct { unsigned a : 5, b : 9; } bf4;
static long s, t; static int iv; static double dd; static long double ld; static int *pp; static volatile int vv; static union { long l; double d; int i; } un;
static int ext(int x) { return x + 1; } static int (*fp)(int) = ext; static void vf(int x) { s += x; }
static struct S4 sf(int x) { struct S4 q = {1, x, 3}; return q; } static struct B4 bf(int x) { struct B4 q = {{1, x, 3, 4}}; return q; }
static int sa(struct S4 q, int x) { return q.b + (x & 1); } static int sb(struct B4 q, int x) { return q.a[1] + (x & 1); }
static int va(int n, ...) { __builtin_va_list ap; __builtin_va_start(ap, n); int x = __builtin_va_arg(ap, int); __builtin_va_end(ap); return x; }
static int rr(int x) { for (;;) { { if (x & 1) return 1; } switch (x & 2) { case 0: return 2; case 2: { while (1) { return 3; } } } } }
static long double rld(int x) { return x & 3; } static int rld2(long double a, int b, long double c) { return a + b + c; }
static int rm(int x) { if (x & 1) return (void) 0, 5; { { { return x & 3; } } } }
"""


def loops(ck, bdir):
    names = sorted(LOOPS)
    n = scale(20000, 1500000)

    def src(k):
        return PRE4 + PRELOOP + (
            "int main(void) { long i; int anchor; B(0); for (i = 0; i < %d; i++) { SPM(1, &anchor); %s\n } T(1, (unsigned long long) s); END(); return 0; }\n" % (n, LOOPS[k]))
    for k, res in pmap(_loop_job, [(bdir, k, PRE + src(k)) for k in names]):
        ck.evaluations += 1
        ck.count("long_loops")
        ck.count("loop_iterations", n)
        ck.seen("loop:" + k)
        if res[0] == "violation":
            ck.violation("loop:" + k, {"case.c": PRE + src(k)}, "long loop over '%s': %s" % (LOOPS[k], res[1]))
        elif res[0] == "invalid":
            raise HarnessError("reference failed on loop %s: %s" % (k, res[1]))


def _loop_job(bdir, k, src):
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        st, exp, det = exec_ref(bdir, src, wd)
        if st != "ok":
            return k, ("invalid", det)
        st, got, det = exec_kefir(bdir, src, wd, [], timeout=60)
        if st == "hang" or det == "program did not finish":
            return k, ("inconclusive", det)
        if st != "ok" or got != exp:
            return k, ("violation", "stage=%s %s %s" % (st, det, first_diff(exp, got)))
        return k, ("ok", "")
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def extra(ck, bdir):
    loops(ck, bdir)


def main():
    item_check("C04", gen, scale(500, 12000), 10,
               "one evaluation = one generated control-flow function run from 2-4 states with every operand/statement evaluation logged, or one long loop; distinct by source text",
               extra=extra, min_items=1000,
               assumptions=["gcc/clang at two optimisation levels and UBSan define the prescribed event order", "a quarter of the functions also monitor the stack pointer at every loop iteration"])
