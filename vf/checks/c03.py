"""C03: constant expressions have the value the same expression has at run time."""
import re
from vf.core import *
from vf.cgen import *
from vf.checks.c02 import FT, REP, RANK, PRE_F, common, DECS


class Tmpl:
    """expression with placeholders: constant rendering (literals) and run-time rendering (variables)"""

    def __init__(self, types=TYPES):
        self.leaves, self.types = [], types

    def hook(self, r):
        k = r.random()
        if k < 0.06 and self.types is TYPES:
            # sizeof/alignof leaves: same text in both renderings
            t = r.choice(TYPES)
            s = "(unsigned long) " + r.choice(["sizeof(%s)", "_Alignof(%s)", "sizeof(%s[3])"]) % t.name
            v = t.size * (3 if "[3]" in s else 1)
            return E(s, 14, ULONG, v)
        t = r.choice(self.types)
        v = rval(r, t)
        i = len(self.leaves)
        self.leaves.append((t, v, lit_t(r, v, t)))
        return E("@%d@" % i, 16, t, v)

    def const(self, s):
        return re.sub(r"@(\d+)@", lambda m: self.leaves[int(m.group(1))][2], s)

    def dyn(self, s):
        return re.sub(r"@(\d+)@", lambda m: "v%s" % m.group(1), s)

    def vars(self):
        return "".join("%s v%d = (%s) %s(%s);\n" % (t.name, i, t.name, "U" if not t.signed else "I", l) for i, (t, v, l) in enumerate(self.leaves))


def mk(r, depth, types=TYPES):
    tm = Tmpl(types)
    return tm, gen_expr(r, tm_env(tm), depth, True)


def tm_env(tm):
    e = Env()
    e.hook = tm.hook
    return e


def it_int(r, u):
    tm, e = mk(r, r.choice([1, 1, 2, 2, 3, 4]))
    c, d = tm.const(e.s), tm.dyn(e.s)
    n = "q%d" % u
    decl, body = "", tm.vars()
    t = r.choice(TYPES)
    body += "T(0, (unsigned long long) (%s));\n" % d
    # static storage, scalar and members; block-scope static
    decl += "static %s %s_a = %s; struct %s_s { char c; %s m; short s; }; static struct %s_s %s_b = {1, %s, 2}; %s %s_d[3] = {[1] = %s};\n" % (
        t.name, n, c, n, t.name, n, n, c, t.name, n, c)
    body += "T(1, (unsigned long long) %s_a); T(2, (unsigned long long) %s_b.m); T(3, (unsigned long long) %s_d[1]); T(4, %s_b.c + %s_b.s + %s_d[0]); { %s z = %s; T(5, (unsigned long long) z); }\n" % (
        n, n, n, n, n, n, t.name, d)
    body += "{ static %s z = %s; T(6, (unsigned long long) z); }\n" % (t.name, c)
    ft = r.choice(FT)
    decl += "static %s %s_f = %s;\n" % (ft, n, c)
    body += "%s(7, %s_f); { %s z = %s; %s(8, z); }\n" % (REP[ft], n, ft, d, REP[ft])
    if INT.min <= e.v < INT.max:
        decl += "enum %s_e { %s_x = %s, %s_y };\n" % (n, n, c, n)
        body += "T(10, (unsigned long long) (long) %s_x); T(11, (unsigned long long) (long) %s_y);\n" % (n, n)
    body += "{ switch ((%s) (%s)) { case %s: T(12, 1); break; default: T(12, 2); } }\n" % (promote(e.t).name, d, c)
    st = r.choice(BIG)
    body += "{ %s sw = (%s) (%s); switch (sw) { case %s: T(13, 1); break; default: T(13, 2); } switch (sw) { default: T(14, 2); break; case (%s) (%s): T(14, 1); } }\n" % (
        st.name, st.name, d, c, st.name, c)
    decl += "static char %s_l[((%s) & 15) + 1]; struct %s_w { unsigned f : ((%s) & 15) + 1; };\n" % (n, c, n, c)
    body += "T(15, sizeof(%s_l)); T(16, ((%s) & 15) + 1); { struct %s_w w = {0}; w.f = -1; T(17, w.f); }\n" % (n, d, n)
    body += "{ _Static_assert((%s) == (%s), \"value\"); _Static_assert(!((%s) != (%s)), \"value\"); }\n" % (c, lit_t(r, e.v, e.t), c, lit_t(r, e.v, e.t))
    body += "{ int z[4] = {[(%s) & 3] = 9}; T(18, z[0]); T(19, z[1]); T(20, z[2]); T(21, z[3]); static int y[4] = {[(%s) & 3] = 7}; T(22, y[(%s) & 3]); }\n" % (c, c, d)
    body += "{ struct { char c; _Alignas(1 << ((%s) & 3)) char d; } z; T(23, sizeof z); T(24, (unsigned long) ((char *) &z.d - (char *) &z)); T(25, 1 << ((%s) & 3)); }\n" % (c, d)
    body += "T(26, sizeof(%s)); T(27, _Generic(%s, int: 1, unsigned: 2, long: 3, unsigned long: 4, long long: 5, unsigned long long: 6, default: 7)); T(28, sizeof(%s));\n" % (c, c, d)
    body += "T(29, (unsigned long long) (%s)); { static _Bool z = %s; T(30, z); T(31, !!(%s)); if (%s) T(32, 1); else T(32, 0); }\n" % (c, c, d, c)
    return Item(decl, body, ("int",), PRE_F)


def it_matrix(r, u, op, ta, tb):
    """one operator over one pair of operand types, several value pairs, as static data"""
    decl, body = "", ""
    for i in range(6):
        for _ in range(20):
            a, b = rval(r, ta), rval(r, tb)
            if op in SHIFT:
                b = conv(r.randrange(promote(ta).size * 8), tb)
            rv = binval(op, a, ta, b, tb)
            if rv:
                break
        if not rv:
            continue
        t, v = rv
        n = "m%d_%d" % (u, i)
        la, lb = lit_t(r, a, ta), lit_t(r, b, tb)
        decl += "static %s %s = %s %s %s; static long long %s_w = %s %s %s; static double %s_d = %s %s %s;\n" % (t.name, n, la, op, lb, n, la, op, lb, n, la, op, lb)
        decl += "_Static_assert((%s %s %s) == %s, \"\");\n" % (la, op, lb, lit_t(r, v, t))
        body += "{ %s x = (%s) %s; %s y = (%s) %s; T(%d, (unsigned long long) %s); T(%d, %s_w); TD(%d, %s_d); T(%d, (unsigned long long) (x %s y)); }\n" % (
            ta.name, ta.name, "I(%s)" % la if ta.signed else "U(%s)" % la, tb.name, tb.name, "I(%s)" % lb if tb.signed else "U(%s)" % lb,
            8 * i, n, 8 * i + 1, n, 8 * i + 2, n, 8 * i + 3, op)
    return Item(decl, body, ("m" + op,), PRE_F)


def flit(r, t):
    s = {"float": r.choice("fF"), "double": "", "long double": r.choice("lL")}[t]
    k = r.random()
    if k < 0.6:
        x = r.choice(DECS) + s
    elif k < 0.8:
        x = "%d.%d%s" % (r.randrange(100000), r.randrange(1000), s)
    else:
        x = "0x%x.%xp%d%s" % (r.randrange(1, 255), r.getrandbits(32), r.randrange(-30, 30), s)
    return "(-%s)" % x if r.random() < 0.25 else x


def fgen(r, tm, d):
    """(text with placeholders, type)"""
    if d <= 0 or r.random() < 0.1:
        i = len(tm)
        if r.random() < 0.25:
            t = r.choice(TYPES)
            v = rval(r, t)
            tm.append((t.name, lit_t(r, v, t), t.signed))
            return "@%d@" % i, t.name
        t = r.choice(FT)
        tm.append((t, flit(r, t), None))
        return "@%d@" % i, t
    k = r.random()
    if k < 0.6:
        a, ta = fgen(r, tm, d - 1)
        b, tb = fgen(r, tm, d - 1 - (r.random() < .4))
        if ta not in RANK and tb not in RANK:
            ft = r.choice(FT)
            a, ta = "((%s) %s)" % (ft, a), ft
        return "(%s %s %s)" % (a, r.choice("+-*/"), b), common(ta, tb)
    if k < 0.7:
        a, ta = fgen(r, tm, d - 1)
        if ta not in RANK:
            return "((%s) %s)" % ("double", a), "double"
        return "(-%s)" % a, ta
    if k < 0.88:
        a, ta = fgen(r, tm, d - 1)
        t = r.choice(FT)
        return "((%s) %s)" % (t, a), t
    a, ta = fgen(r, tm, d - 1)
    b, tb = fgen(r, tm, d - 1)
    t = r.choice(FT)
    return "(%s %s %s ? (%s) %s : (%s) %s)" % (a, r.choice(CMP), b, t, b, t, a), t


def it_float(r, u):
    tm = []
    e, t = fgen(r, tm, r.randrange(1, 5))
    if t not in RANK:
        e, t = "((double) %s)" % e, "double"
    e2, t2 = fgen(r, tm, 1)
    c = lambda s: re.sub(r"@(\d+)@", lambda m: tm[int(m.group(1))][1], s)
    d = lambda s: re.sub(r"@(\d+)@", lambda m: "v%s" % m.group(1), s)
    body = "".join("%s v%d = %s;\n" % (ty, i, ("(%s) %s(%s)" % (ty, "I" if sg else "U", l)) if sg is not None else {"float": "F(%s)", "double": "D(%s)", "long double": "L(%s)"}[ty] % l)
                   for i, (ty, l, sg) in enumerate(tm))
    n = "f%d" % u
    t3 = r.choice(FT)
    decl = "static %s %s_a = %s; static %s %s_b[2] = {1, %s}; static struct { char c; %s m; } %s_c = {3, %s};\n" % (t, n, c(e), t3, n, c(e), t, n, c(e))
    body += "%s(0, %s_a); %s(1, %s); %s(2, %s_b[1]); { %s z = %s; %s(3, z); } %s(4, %s_c.m); T(5, %s_c.c); %s(6, %s);\n" % (
        REP[t], n, REP[t], d(e), REP[t3], n, t3, d(e), REP[t3], REP[t], n, n, REP[t], c(e))
    op = r.choice(CMP)
    decl += "static int %s_d = %s %s %s, %s_e = !(%s) + 2 * ((%s) && 1) + 4 * ((%s) || 0) + ((%s) ? 8 : 16);\n" % (n, c(e), op, c(e2), n, c(e), c(e), c(e), c(e))
    body += "T(7, %s_d); T(8, %s %s %s); T(9, %s_e);\n" % (n, d(e), op, d(e2), n)
    # float -> integer, small values
    it = r.choice([x for x in TYPES])
    decl += "static %s %s_i = (%s) > -1e2 && (%s) < 1e2 ? (%s) ((%s) < 0 ? -(%s) : (%s)) : (%s) 5; static _Bool %s_t = %s;\n" % (
        it.name, n, c(e), c(e), it.name, c(e), c(e), c(e), it.name, n, c(e))
    body += "T(10, (unsigned long long) %s_i); T(11, %s_t);\n" % (n, n)
    for j, ty in enumerate([ULLONG, LLONG, UINT, INT]):
        v = rval(r, ty)
        ft = r.choice(FT)
        prec = {"float": 24, "double": 53, "long double": 64}[ft]
        m = abs(v)
        sh = max(0, m.bit_length() - prec)
        m = (m >> sh) << sh
        l = "%s%d.0%s" % ("-" if v < 0 else "", m, {"float": "f", "double": "", "long double": "l"}[ft])
        decl += "static %s %s_k%d = %s; static %s %s_m%d = %s;\n" % (ty.name, n, j, l, ft, n, j, lit_t(r, v, ty))
        body += "T(%d, (unsigned long long) %s_k%d); { %s z = %s; T(%d, (unsigned long long) (%s) z); } %s(%d, %s_m%d); { %s z = %s; %s(%d, (%s) z); }\n" % (
            20 + 4 * j, n, j, ft, l, 21 + 4 * j, ty.name, REP[ft], 22 + 4 * j, n, j, ty.name, lit_t(r, v, ty), REP[ft], 23 + 4 * j, ft)
    return Item(decl, body, ("float",), PRE_F)


PPT = [LLONG, ULLONG]


class PPE(Env):
    pass


def pp_gen(r, d):
    """#if expression (intmax arithmetic): (text, type in PPT, value)"""
    if d <= 0 or r.random() < 0.1:
        k = r.random()
        if k < 0.08:
            return E(r.choice(["undefined_identifier", "foo", "while_", "defined NOPE", "defined(NOPE)"]), 14, LLONG, 0)
        if k < 0.12:
            return E(r.choice(["defined YES", "defined(YES)", "defined ( YES )"]), 14, LLONG, 1)
        if k < 0.16:
            return E("VAL", 16, LLONG, 12)
        if k < 0.22:
            c, v = r.choice([("'a'", 97), ("'\\n'", 10), ("'\\0'", 0), ("'\\x7f'", 127), ("'0'", 48)])
            return E(c, 16, LLONG, v)
        t = r.choice(PPT)
        v = rval(r, t)
        if t.signed:
            v = abs(v) if v != t.min else t.max
            s = r.choice(["%d", "0x%x", "%dL", "%dll", "0%o"]) % v
            if not s[0:2].lower() == "0x" and s.startswith("0") and v == 0:
                s = "0"
        else:
            s = r.choice(["%dU", "0x%xu", "%dUL", "%dull"]) % v
        return E(s, 16, t, v)
    k = r.random()
    if k < 0.7:
        a, b = pp_gen(r, d - 1), pp_gen(r, d - 1 - (r.random() < .4))
        op = r.choice(BINOPS)
        if op in SHIFT and r.random() < 0.8:
            n = r.randrange(63)
            b = E(str(n), 16, LLONG, n)
        rv = ppbin(op, a, b)
        if rv is None:
            op = r.choice(["&", "|", "^", "<", ">=", "==", "&&", "||"])
            rv = ppbin(op, a, b)
        return E("%s %s %s" % (par(r, a, PREC[op]), op, par(r, b, PREC[op] + 1)), PREC[op], rv[0], rv[1])
    if k < 0.88:
        a = pp_gen(r, d - 1)
        op = r.choice("-~!+")
        if op == "!":
            return E("!" + par(r, a, 14), 14, LLONG, int(not a.v))
        if op == "-" and a.t.signed and a.v == a.t.min:
            op = "~"
        return E(op + " " + par(r, a, 14), 14, a.t, conv({"-": -a.v, "~": ~a.v, "+": a.v}[op], a.t))
    c, a, b = pp_gen(r, d - 1), pp_gen(r, d - 1), pp_gen(r, d - 2)
    t = ULLONG if ULLONG in (a.t, b.t) else LLONG
    return E("%s ? %s : %s" % (par(r, c, 4), a.s, par(r, b, 3)), 3, t, conv(a.v if c.v else b.v, t))


def ppbin(op, a, b):
    rv = binval(op, a.v, a.t, b.v, b.t)
    if rv and rv[0] is INT:
        return LLONG, rv[1]
    return rv


def it_pp(r, u):
    decl, body = "#undef YES\n#undef NOPE\n#undef VAL\n#define YES\n#define VAL (4 * 3)\n", ""
    for i in range(6):
        e = pp_gen(r, r.randrange(1, 5))
        n = "p%d_%d" % (u, i)
        l = "%d" % e.v if e.t.signed else "%dU" % e.v
        if e.v == LLONG.min:
            l = "(-%d - 1)" % LLONG.max
        decl += "#if %s\nstatic int %s = 1;\n#else\nstatic int %s = 2;\n#endif\n" % (e.s, n, n)
        decl += "#if (%s) == (%s)\nstatic int %s_q = 1;\n#elif (%s) < 0\nstatic int %s_q = 3;\n#else\nstatic int %s_q = 2;\n#endif\n" % (e.s, l, n, e.s, n, n)
        decl += "#if (%s) / 2 >= 0\nstatic int %s_s = 1;\n#else\nstatic int %s_s = 2;\n#endif\n" % (e.s, n, n)
        body += "T(%d, %s); T(%d, %s_q); T(%d, %s_s);\n" % (3 * i, n, 3 * i + 1, n, 3 * i + 2, n)
    return Item(decl, body, ("pp",))


def it_addr(r, u):
    n = "a%d" % u
    t = r.choice(TYPES).name
    N, M = r.randrange(3, 7), r.randrange(2, 5)
    k, m = r.randrange(N), r.randrange(M)
    big = r.randrange(1, 40)
    decl = """struct %(n)s_in { char c; %(t)s a[%(N)d]; struct { short h; %(t)s z; }; };
struct %(n)s_s { char pad[%(big)d]; struct %(n)s_in in[%(M)d]; double d; };
static struct %(n)s_s %(n)s_o[3]; struct %(n)s_s %(n)s_x; static %(t)s %(n)s_v[%(N)d][%(M)d]; extern %(t)s %(n)s_ext[%(N)d];
static int %(n)s_f(int x) { return x * 3 + %(k)d; }
static %(t)s *%(n)s_p0 = &%(n)s_o[1].in[%(m)d].a[%(k)d];
static %(t)s *%(n)s_p1 = &%(n)s_x.in[%(m)d].a[0] + %(k)d;
static void *%(n)s_p2 = &(&%(n)s_x.in[0] + %(m)d)->z;
static char *%(n)s_p3 = (char *) &%(n)s_o[2] + %(big)d;
static %(t)s *%(n)s_p4 = &(&%(n)s_v[0])[%(k)d][%(m)d];
static %(t)s *%(n)s_p5 = &%(n)s_v[%(k)d][%(m)d] - %(m)d;
static %(t)s (*%(n)s_p6)[%(M)d] = %(n)s_v + %(k)d, (*%(n)s_p7)[%(M)d] = &%(n)s_v[%(k)d];
static int (*%(n)s_p8)(int) = %(n)s_f, (*%(n)s_p9)(int) = &%(n)s_f;
static const char *%(n)s_s0 = "%(str)s" + %(so)d; static const char *%(n)s_s1 = (const char *) (void *) "%(str)s" + %(so)d - 1;
static long %(n)s_off = (long) &((struct %(n)s_s *) 0)->in[%(m)d].a[%(k)d];
static unsigned long %(n)s_off2 = (unsigned long) &((struct %(n)s_s *) 0)->in[%(m)d].z;
static struct { int q; %(t)s *p; void *v; } %(n)s_t = {4, &%(n)s_ext[%(k)d], &%(n)s_t};
%(t)s %(n)s_ext[%(N)d];
static void *%(n)s_np = (void *) 0, *%(n)s_ip = (void *) 0x%(ad)xul; static unsigned long %(n)s_ul = (unsigned long) (char *) 0x%(ad)xul + %(big)d;
static %(t)s *%(n)s_pp = (%(t)s *) 0x%(ad)xul + %(k)d; static %(t)s *%(n)s_cl = &(&(%(t)s [3]) {1, 0, 1})[0][1];
""" % {"n": n, "t": t, "N": N, "M": M, "k": k, "m": m, "big": big, "str": "hello world, this is it"[:r.randrange(8, 20)], "so": r.randrange(1, 8), "ad": r.getrandbits(40)}
    body = """T(0, (char *) %(n)s_p0 - (char *) %(n)s_o); T(1, (char *) %(n)s_p1 - (char *) &%(n)s_x); T(2, (char *) %(n)s_p2 - (char *) &%(n)s_x); T(3, %(n)s_p3 - (char *) %(n)s_o);
T(4, (char *) %(n)s_p4 - (char *) %(n)s_v); T(5, (char *) %(n)s_p5 - (char *) %(n)s_v); T(6, (char *) %(n)s_p6 - (char *) %(n)s_v); T(7, (char *) %(n)s_p7 - (char *) %(n)s_v);
T(8, %(n)s_p8(5)); T(9, %(n)s_p9(6)); T(10, %(n)s_p8 == %(n)s_f); TS(11, %(n)s_s0); TS(12, %(n)s_s1); T(13, %(n)s_off); T(14, %(n)s_off2);
T(15, %(n)s_t.q); T(16, (char *) %(n)s_t.p - (char *) %(n)s_ext); T(17, %(n)s_t.v == &%(n)s_t); T(18, (unsigned long) %(n)s_np); T(19, (unsigned long) %(n)s_ip); T(20, %(n)s_ul);
T(21, (unsigned long) %(n)s_pp); T(22, %(n)s_cl[-1]); T(23, %(n)s_cl[0]); T(24, %(n)s_cl[1]);
{ struct %(n)s_s *o = P(%(n)s_o), *x = P(&%(n)s_x); T(25, %(n)s_p0 == &o[1].in[%(m)d].a[%(k)d]); T(26, %(n)s_p1 == x->in[%(m)d].a + %(k)d); T(27, %(n)s_p2 == &(x->in + %(m)d)->z); T(28, (char *) &x->in[%(m)d].a[%(k)d] - (char *) x); }
""" % {"n": n, "m": m, "k": k}
    return Item(decl, body, ("addr",))


def gen(r, n):
    out = []
    for u in range(n):
        k = r.random()
        out.append(it_int(r, u) if k < 0.5 else it_float(r, u) if k < 0.75 else it_pp(r, u) if k < 0.9 else it_addr(r, u))
    return out


CELLS = [(op, a, b) for op in BINOPS for a in TYPES for b in TYPES]


def _matrix_job(bdir, seed, idx, cells):
    r = rng(seed, "m", idx)
    items = [it_matrix(r, u, *c) for u, c in enumerate(cells)]
    res = judge(bdir, items)
    res["n"] = len(items)
    return res


def main():
    ck = Check("C03")
    ck.rule = ("random integer/floating/#if/address constant expressions, each placed in every constant context (static scalar/member/element initialiser, enumerator, case label, array bound, "
               "bit-field width, _Static_assert, designator, _Alignas, #if/#elif) and evaluated at run time over opaque variables; every cell of binary operator x type x type as static data; "
               "events: stored values, sizes, selected labels; non-trivial = distinct case text")
    ck.assumptions = ["expressions whose evaluation is undefined are not generated (checked by model, UBSan on divergence)"]
    bdir = build("plain")
    cells = list(CELLS)
    rng("C03m", SEED).shuffle(cells)
    cells = cells[:scale(1000, len(cells))]
    per = 10
    jobs = [(bdir, ("C03", SEED, rep), i, cells[i:i + per]) for rep in range(scale(1, 4)) for i in range(0, len(cells), per)]
    for res in pmap(_matrix_job, jobs):
        ck.evaluations += res["n"]
        ck.count("events", res["events"]); ck.count("programs", res["programs"]); ck.count("matrix_cells", res["n"])
        ck.invalid += res["invalid"]
        for v in res["violations"]:
            report_item(ck, *v)
        if len(ck.violations) > 40:
            break
    run_items(ck, bdir, gen, scale(600, 8000), 8)
    run_known(ck, bdir)
    ck.finish(1000)
