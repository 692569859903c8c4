"""C02: floating-point arithmetic and conversions of generated code."""
import struct
from vf.core import *
from vf.cgen import *

FT = ["float", "double", "long double"]
REP = {"float": "TF", "double": "TD", "long double": "TL"}
RANK = {"float": 0, "double": 1, "long double": 2}
PRE_F = """union vf_f { unsigned u; float f; }; union vf_d { unsigned long long u; double d; };
union vf_l { struct { unsigned long long m; unsigned short e; } s; long double l; };
static float vf_mkf(unsigned u) { union vf_f x; x.u = u; return x.f; }
static double vf_mkd(unsigned long long u) { union vf_d x; x.u = u; return x.d; }
static long double vf_mkl(unsigned e, unsigned long long m) { union vf_l x; x.l = 0; x.s.m = m; x.s.e = e; return x.l; }
"""
PRE_F += "".join("static %s id_%s(%s x) { return x; }\n" % (t, t.replace(" ", "_"), t) for t in FT)


DECS = ["0.0", "1.0", "0.5", "0.1", "3.14159265358979323846264338327950288", "1e10", "1e-10", "123456789.0", "16777217.0", "9007199254740993.0",
        "1e30", "1e-30", "2.5", "1.5", "0.3333333333333333333333", "65536.75", "4294967295.0", "1e18", "7.0", "1e22", "1e23", "8.5e-3"]


def fconst(r, t, negzero=True):
    """expression of floating type t"""
    k = r.random()
    sfx = {"float": r.choice("fF"), "double": "", "long double": r.choice("lL")}[t]
    if k < 0.35:
        s = r.choice(DECS)
        return ("-" if r.random() < 0.3 and s != "0.0" else "") + s + sfx
    if k < 0.45:
        return ("-" if r.random() < 0.3 else "") + "0x%x.%xp%+d" % (r.randrange(1, 16), r.getrandbits(r.choice([4, 20, 40])), r.randrange(-60, 60)) + sfx
    if k < 0.55:
        return ("-" if r.random() < 0.3 else "") + "%d.%se%+d" % (r.randrange(1, 99999), r.randrange(100000), r.randrange(-25, 25)) + sfx
    if t == "float":
        c = r.choice([0, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x007fffff, 0x00800000, 0x7f7fffff, 0x4b800000, 0x4b7fffff, 0x5f000000] +
                     ([0x80000000] if negzero else []) + [r.getrandbits(32)] * 6)
        return "vf_mkf(0x%xu)" % c
    if t == "double":
        c = r.choice([0, 0x3ff << 52, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, 1, (1 << 52) - 1, 1 << 52, 0x7fefffffffffffff, 0x4340000000000000, 0x433fffffffffffff,
                      0x47efffffe0000000, 0x36a0000000000000, 0x3fb999999999999a] + ([1 << 63] if negzero else []) + [r.getrandbits(64)] * 6)
        return "vf_mkd(0x%xull)" % c
    c = r.choice([(0, 0), (16383, 1 << 63), (0x7fff, 1 << 63), (0xffff, 1 << 63), (0x7fff, 3 << 62), (0, 1), (1, 1 << 63), (0x7ffe, (1 << 64) - 1)] +
                 ([(0x8000, 0)] if negzero else []) + [(r.randrange(16383 - 100, 16383 + 100) | (r.randrange(2) << 15), r.getrandbits(63) | 1 << 63)] * 6)
    return "vf_mkl(%d, 0x%xull)" % c


def common(a, b):
    fa, fb = a in RANK, b in RANK
    if fa and fb:
        return a if RANK[a] >= RANK[b] else b
    return a if fa else b


def rarg(r, t, negzero=True):
    if t in RANK:
        return fconst(r, t, negzero)
    ty = by_name(t)
    return lit_t(r, rval(r, ty), ty)


PAIRS = [(a, b) for a in FT + [t.name for t in TYPES] for b in FT + [t.name for t in TYPES] if a in FT or b in FT]


def it_bin(r, u, op, a, b):
    fn = "b%d" % u
    cmp = op in CMP
    rt = "int" if cmp else common(a, b)
    rep = "T" if cmp else REP[rt]
    style = r.randrange(4)
    if style == 0:
        d = "static %s %s(%s a, %s b) { return a %s b; }" % (rt, fn, a, b, op)
    elif style == 1:
        d = "static %s %s_x; static %s %s_y; static %s %s(%s a, %s b) { %s_x = a; %s_y = b; %s z = %s_x %s %s_y; return z; }" % (
            a, fn, b, fn, rt, fn, a, b, fn, fn, rt, fn, op, fn)
    elif style == 2:
        d = "struct s%s { char c; %s p; %s q[2]; }; static %s %s(%s a, %s b) { struct s%s s = {1, a, {b, b}}; struct s%s *t = &s; return t->p %s s.q[1]; }" % (
            fn, a, b, rt, fn, a, b, fn, fn, op)
    else:
        d = "static %s %s(%s a, %s b) { %s r = 1; { %s x[3]; x[2] = a; %s *y = &b; r = x[2] %s *y; } return r; }" % (rt, fn, a, b, rt, a, b, op)
    body = ""
    for i in range(12):
        x, y = rarg(r, a), rarg(r, b)
        body += "%s(%d, %s(%s, %s));\n" % (rep, i, fn, x, y)
        if i < 3:
            if cmp:
                body += "{ %s x = %s; %s y = %s; if (x %s y) T(%d, 1); else T(%d, 0); T(%d, (x %s y) ? 3 : 4); T(%d, !(x %s y)); T(%d, x %s y && y == y); }\n" % (
                    a, x, b, y, op, 30 + i, 30 + i, 40 + i, op, 50 + i, op, 60 + i, op)
            else:
                body += "{ %s x = %s; %s y = %s; %s(%d, x %s y %s x); %s(%d, -(x %s y)); }\n" % (a, x, b, y, rep, 30 + i, op, r.choice("+-*/"), rep, 40 + i, op)
    return Item(d, body, ("bin" + op,), PRE_F)


def it_asg(r, u, op, a, b):
    """compound assignment with at least one floating operand; target a floating"""
    fn = "a%d" % u
    place = r.randrange(4)
    d, lv, init = [("", "x", "%s x = a;" % a), ("static %s g%s;" % (a, fn), "g" + fn, "g%s = a;" % fn),
                   ("", "ar[1]", "%s ar[3] = {1, 2, 3}; ar[1] = a;" % a),
                   ("struct S%s { char c; %s m; char d; };" % (fn, a), "p->m", "struct S%s s = {7, 0, 9}, *p = &s; p->m = a;" % fn)][place]
    d += "\nstatic void %s(long id, %s a, %s b) { %s %s(id, %s %s b); %s(id + 1, %s); %s }" % (
        fn, a, b, init, REP[a], lv, op, REP[a], lv, {2: "%s(id, ar[0]); %s(id, ar[2]);" % (REP[a], REP[a]), 3: "T(id, s.c); T(id, s.d);"}.get(place, ""))
    body = "".join("%s(%d, %s, %s);\n" % (fn, 8 * i, rarg(r, a), rarg(r, b)) for i in range(8))
    return Item(d, body, ("asg" + op,), PRE_F)


def it_asgi(r, u, op, a, b):
    """integer target, floating value: operands chosen so that the result is in range"""
    fn = "ai%d" % u
    ta = by_name(a)
    d = "static void %s(long id, %s a, %s b) { %s x = a; T(id, (unsigned long long) (x %s b)); T(id + 1, (unsigned long long) x); }" % (fn, a, b, a, op)
    body = ""
    for i in range(8):
        if ta is BOOL:
            x, y = 1, r.choice(["2", "3", "1"]) if op != "/=" else "0.5"
        else:
            x = r.randrange(1, 50)
            y = r.choice(["0.5", "1", "1.25", "2", "0.75"])
        if op == "-=":
            x, y = (x + 3, y) if ta is not BOOL else (1, "4")
        body += "%s(%d, %d, %s);\n" % (fn, 4 * i, x, y + ("" if b == "double" else ".0f" if "." not in y and b == "float" else "f" if b == "float" else ".0l" if "." not in y else "l"))
    return Item(d, body, ("asgi" + op,), PRE_F)


def it_conv(r, u, a, b):
    fn = "c%d" % u
    rep = REP.get(b, "T")
    cast = "" if b in REP else "(unsigned long long) "
    d = """static %(b)s %(f)s_ret(%(a)s v) { return v; }
static void %(f)s_arg(long id, %(b)s v) { %(rep)s(id, %(cast)s v); }
static %(b)s %(f)s_g; struct %(f)s_s { char c; %(b)s m; char d; };
static void %(f)s(long id, %(a)s v) {
 %(rep)s(id, %(cast)s(%(b)s) v);
 %(b)s x = v; %(rep)s(id + 1, %(cast)s x);
 %(f)s_g = v; %(rep)s(id + 2, %(cast)s %(f)s_g);
 %(rep)s(id + 3, %(cast)s %(f)s_ret(v));
 %(f)s_arg(id + 4, v);
 %(b)s ar[3] = {0, v}; %(rep)s(id + 5, %(cast)s ar[1]);
 %(rep)s(id + 6, %(cast)s (x = v));
 struct %(f)s_s s = {1, v, 2}; %(rep)s(id + 7, %(cast)s s.m); T(id + 8, s.c + s.d);
}""" % {"a": a, "b": b, "f": fn, "rep": rep, "cast": cast}
    body = ""
    for i in range(10):
        if a in RANK and b not in RANK:
            tb = by_name(b)
            sfx = {"float": "f", "double": "", "long double": "l"}[a]
            prec = {"float": 24, "double": 53, "long double": 64}[a]
            if tb is BOOL:
                v = r.choice(["0.0", "1.0", "-1.0", "2.5", "1e9", "-3.75"]) + sfx
            else:
                k = r.random()
                if k < 0.3:
                    n = r.choice([0, 1, 2, 3, 100, 127])
                    if r.random() < 0.4 and tb.signed:
                        n = -n
                else:
                    n = rval(r, tb)
                # representable magnitude: keep the top `prec` bits
                m = abs(n)
                sh = max(0, m.bit_length() - prec)
                m = (m >> sh) << sh
                frac = ""
                if m.bit_length() < min(prec, 20) and r.random() < 0.5 and m < tb.max:
                    frac = r.choice([".25", ".5", ".75"])
                if n < 0 and frac and -m - 1 < tb.min and False:
                    frac = ""
                v = ("-" if n < 0 else "") + "%d%s" % (m, frac or ".0") + sfx
                if not tb.signed and n <= 0 and frac:
                    v = r.choice(["-0.5", "-0.25", "0.75", "-0.875"]) + sfx
        else:
            v = rarg(r, a)
        body += "%s(%d, %s);\n" % (fn, 10 * i, v)
    return Item(d, body, ("conv",), PRE_F)


def it_unary(r, u, t):
    body = ""
    rep = REP[t]
    for i in range(8):
        v = fconst(r, t, negzero=False)
        k = 40 * i
        body += "{ %s v = %s; %s(%d, -v); %s(%d, +v); %s(%d, - -v);" % (t, v, rep, k, rep, k + 1, rep, k + 2)
        body += " if (v) T(%d, 1); else T(%d, 0); T(%d, !v); T(%d, !!v); T(%d, v && 1); T(%d, v || 0); T(%d, v ? 5 : 6);" % (k + 3, k + 3, k + 4, k + 5, k + 6, k + 7, k + 8)
        body += " { int q = 0; while (v) { if (++q > 1) break; } do { q++; if (q > 4) break; } while (v); for (; v; ) { if (++q > 7) break; } T(%d, q); }" % (k + 9)
        for j, (pre, post) in enumerate([("++", ""), ("--", ""), ("", "++"), ("", "--")]):
            body += " v = %s; %s(%d, %sv%s); %s(%d, v);" % (v, rep, k + 10 + 2 * j, pre, post, rep, k + 11 + 2 * j)
        body += " v = %s; { %s *p = &v, y = 3; %s(%d, (*p)++); %s(%d, y--); %s(%d, v + y); } }\n" % (v, t, rep, k + 20, rep, k + 21, rep, k + 22)
    for i, (a, b) in enumerate([(x, y) for x in FT for y in ["int", "long", "unsigned long", "float", "double", "long double"]]):
        va, vb = fconst(r, a, False), rarg(r, b, False)
        body += "{ %s a = %s; %s b = %s; T(%d, !((%s) b - (%s) b)); T(%d, ((%s) b - (%s) b) ? 1 : 2); T(%d, (%s) b && a - a); T(%d, !((%s) b * (%s) b * 0.0f) || 0); if ((%s) b - (%s) b) T(%d, 1); else T(%d, 2); }\n" % (
            a, va, b, vb, 700 + i, t, t, 720 + i, t, t, 740 + i, t, 760 + i, t, t, t, t, 780 + i, 780 + i)
    nz = {"float": "vf_mkf(0x80000000u)", "double": "vf_mkd(1ull << 63)", "long double": "vf_mkl(0x8000, 0)"}[t]
    body += "{ %s z = %s; if (z) T(900, 1); else T(900, 0); T(901, z == 0); T(902, z < 0); %s(903, z); %s(904, -z); int q = 0; while (z) if (++q > 2) break; T(905, q); }\n" % (t, nz, rep, rep)
    return Item("", body, ("unary",), PRE_F)


def fexpr(r, vs, d):
    """random floating expression text of known type; returns (text, type)"""
    if d <= 0:
        if r.random() < 0.75:
            return r.choice(vs)
        t = r.choice(FT)
        s = fconst(r, t)
        return ("(%s)" % s if s[0] == "-" else s), t
    k = r.random()
    if k < 0.6:
        a, ta = fexpr(r, vs, d - 1)
        b, tb = fexpr(r, vs, d - 1 - (r.random() < .4))
        return "(%s %s %s)" % (a, r.choice("+-*/"), b), (common(ta, tb) if ta in RANK or tb in RANK else "double") if (ta in RANK or tb in RANK) else "int"
    if k < 0.7:
        a, ta = fexpr(r, vs, d - 1)
        return "(-%s)" % a, ta
    if k < 0.85:
        a, ta = fexpr(r, vs, d - 1)
        t = r.choice(FT)
        return "((%s) %s)" % (t, a), t
    if k < 0.93:
        a, ta = fexpr(r, vs, d - 1)
        b, tb = fexpr(r, vs, d - 1)
        t = r.choice(FT)
        return "(%s %s %s ? (%s) %s : (%s) %s)" % (a, r.choice(CMP), b, t, b, t, a), t
    a, ta = fexpr(r, vs, d - 1)
    t = r.choice(FT)
    return "id_%s(%s)" % (t.replace(" ", "_"), a), t


def it_expr(r, u):
    vs, b, d = [], "", ""
    for i in range(r.randrange(3, 7)):
        t = r.choice(FT)
        k = r.randrange(4)
        if k == 0:
            b += "%s v%d = %s;\n" % (t, i, fconst(r, t)); vs.append(("v%d" % i, t))
        elif k == 1:
            d += "static %s g%d_%d;\n" % (t, u, i); b += "g%d_%d = %s;\n" % (u, i, fconst(r, t)); vs.append(("g%d_%d" % (u, i), t))
        elif k == 2:
            b += "%s w%d[2]; w%d[1] = %s;\n" % (t, i, i, fconst(r, t)); vs.append(("w%d[1]" % i, t))
        else:
            b += "struct { char c; %s m; } s%d = {1, %s};\n" % (t, i, fconst(r, t)); vs.append(("s%d.m" % i, t))
    for i in range(5):
        e, t = fexpr(r, vs, r.randrange(1, 5))
        if t == "int":
            continue
        k = r.randrange(4)
        if k == 0:
            b += "%s(%d, %s);\n" % (REP[t], i, e)
        elif k == 1:
            t2 = r.choice(FT)
            b += "{ %s z = %s; %s(%d, z); }\n" % (t2, e, REP[t2], i)
        elif k == 2:
            e2, t2 = fexpr(r, vs, 2)
            b += "if (%s %s %s) T(%d, 1); else T(%d, 0);\n" % (e, r.choice(CMP), e2, i, i)
        else:
            b += "{ %s z = %s; T(%d, z > -1000000 && z < 1000000 ? (long) z : -1l); }\n" % (t, e, i)
    return Item(d, b, ("expr",), PRE_F)


CELLS = [("b", op, a, b) for op in ["+", "-", "*", "/"] + CMP for a, b in PAIRS] + \
        [("a", op, a, b) for op in ["+=", "-=", "*=", "/="] for a, b in PAIRS if a in RANK] + \
        [("i", op, a, b) for op in ["+=", "-=", "*=", "/="] for a, b in PAIRS if a not in RANK] + \
        [("c", a, b) for a, b in PAIRS] * 2 + [("u", t) for t in FT] * 3


def cell(r, u, c):
    return {"b": it_bin, "a": it_asg, "i": it_asgi, "c": it_conv, "u": it_unary}[c[0]](r, u, *c[1:])


def gen(r, n):
    return [it_expr(r, u) if r.random() < 0.5 else cell(r, u, r.choice(CELLS)) for u in range(n)]


def _matrix_job(bdir, seed, idx, cells):
    r = rng(seed, "m", idx)
    items = [cell(r, u, c) for u, c in enumerate(cells)]
    res = judge(bdir, items)
    res["n"] = len(items)
    return res


def main():
    ck = Check("C02")
    ck.rule = ("every cell of operator x type x type for arithmetic/comparison/compound assignment/conversion with at least one floating operand "
               "(float, double, long double against all 15 arithmetic types) on boundary/special/random values, plus random floating expression trees; "
               "bit patterns of all results are recorded as events and compared with the reference; non-trivial = distinct source text of a case")
    ck.assumptions = ["x86-64 SSE2/x87 arithmetic as generated by gcc -O0 (confirmed by clang and gcc -O2) is the IEEE reference", "NaN payload and sign are not compared"]
    bdir = build("plain")
    cells = list(CELLS)
    rng("C02m", SEED).shuffle(cells)
    per = 12
    jobs = [(bdir, ("C02", SEED, rep), i, cells[i:i + per]) for rep in range(scale(1, 8)) for i in range(0, len(cells), per)]
    for res in pmap(_matrix_job, jobs):
        ck.evaluations += res["n"]
        ck.count("events", res["events"]); ck.count("programs", res["programs"]); ck.count("matrix_cells", res["n"])
        ck.invalid += res["invalid"]
        for v in res["violations"]:
            report_item(ck, *v)
        if len(ck.violations) > 40:
            break
    run_items(ck, bdir, gen, scale(700, 9000), 12)
    run_known(ck, bdir)
    ck.finish(1000)
