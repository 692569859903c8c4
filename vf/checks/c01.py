"""C01: integer arithmetic of generated code."""
from vf.core import *
from vf.cgen import *

OPS_MATRIX = [(op, a, b) for op in BINOPS for a in TYPES for b in TYPES]
CASG = ["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="]
ASG_MATRIX = [(op, a, b) for op in CASG for a in TYPES for b in TYPES]
CAST_MATRIX = [(a, b) for a in TYPES for b in TYPES]


def pick_pairs(r, op, ta, tb, n):
    out = []
    for _ in range(n * 12):
        a = r.choice(boundary(ta)) if r.random() < 0.7 else rval(r, ta)
        if op in SHIFT:
            w = promote(ta).size * 8
            b = conv(r.choice([0, 1, 7, 8, 15, 16, 31, 32, 33, 63, w - 1, r.randrange(w)]), tb)
        else:
            b = r.choice(boundary(tb)) if r.random() < 0.7 else rval(r, tb)
        if binval(op, a, ta, b, tb) is not None:
            out.append((a, b))
            if len(out) >= n:
                break
    return out


def it_bin(r, u, op, ta, tb):
    rt = (binval(op, 1, ta, 1, tb) or (usual(ta, tb), 0))[0]
    fn = "b%d" % u
    style = r.randrange(4)
    na, nb = r.choice(SPELL[ta.name]), r.choice(SPELL[tb.name])
    pairs = pick_pairs(r, op, ta, tb, 10)
    if style == 0:
        d = "static %s %s(%s a, %s b) { return a %s b; }" % (rt.name, fn, na, nb, op)
    elif style == 1:
        d = "static %s %s_x; static %s %s_y; static %s %s(%s a, %s b) { %s_x = a; %s_y = b; return %s_x %s %s_y; }" % (
            na, fn, nb, fn, rt.name, fn, na, nb, fn, fn, fn, op, fn)
    elif style == 2:
        d = "static %s %s(%s a, %s b) { volatile %s x = a; %s y[2] = {0, b}; return x %s y[1]; }" % (rt.name, fn, na, nb, na, nb, op)
    else:
        d = "struct s%s { %s p; %s q; }; static %s %s(%s a, %s b) { struct s%s s = {a, b}, *t = &s; %s z = s.p %s t->q; return z; }" % (
            fn, na, nb, rt.name, fn, na, nb, fn, rt.name, op)
    body = "".join("T(%d, (unsigned long long) %s(%s, %s));\n" % (i, fn, lit_t(r, a, ta), lit_t(r, b, tb)) for i, (a, b) in enumerate(pairs))
    # mixed literal operands and use as a condition
    for i, (a, b) in enumerate(pairs[:3]):
        body += "{ %s v = %s; T(%d, (unsigned long long) (v %s %s)); }\n" % (na, lit_t(r, a, ta), 20 + i, op, lit_t(r, b, tb))
        body += "{ %s w = %s; T(%d, (unsigned long long) (%s %s w)); }\n" % (nb, lit_t(r, b, tb), 30 + i, lit_t(r, a, ta), op)
        body += "{ %s v = %s; %s w = %s; if (v %s w) T(%d, 1); else T(%d, 0); T(%d, (v %s w) ? 11 : 22); T(%d, !(v %s w)); }\n" % (
            na, lit_t(r, a, ta), nb, lit_t(r, b, tb), op, 40 + i, 40 + i, 50 + i, op, 60 + i, op)
    return Item(d, body, ("bin" + op,))


def it_asg(r, u, op, ta, tb):
    base = op[:-1]
    pairs = []
    for a, b in pick_pairs(r, base, ta, tb, 8):
        if op in ("%=", ">>=") and ta.size == 8 and not ta.signed and tb.signed and (a >> 63 or b < 0):
            continue  # recorded in known_findings.json: KF-C01-1
        pairs.append((a, b))
    fn = "a%d" % u
    place = r.randrange(6)
    na, nb = r.choice(SPELL[ta.name]), r.choice(SPELL[tb.name])
    if place == 0:
        d, lv, init = "", "x", "%s x = a;" % na
    elif place == 1:
        d, lv, init = "static %s g%s;" % (na, fn), "g%s" % fn, "g%s = a;" % fn
    elif place == 2:
        d, lv, init = "", "ar[i]", "%s ar[3] = {1, 0, 1}; int i = 1; ar[i] = a;" % na
    elif place == 3:
        d, lv, init = "struct S%s { char c; %s m; char d; };" % (fn, na), "s.m", "struct S%s s; s.c = 1; s.d = 2; s.m = a;" % fn
    elif place == 4:
        d, lv, init = "", "*p", "%s x; %s *p = &x; *p = a;" % (na, na)
    else:
        d, lv, init = "union U%s { %s m; unsigned long long z; };" % (fn, na), "u->m", "union U%s uu, *u = &uu; u->z = ~0ull; u->m = a;" % fn
    d += "\nstatic void %s(long id, %s a, %s b) { %s T(id, (unsigned long long) (%s %s b)); T(id + 1, (unsigned long long) %s); %s }" % (
        fn, na, nb, init, lv, op, lv,
        {2: "T(id + 2, (unsigned long long) ar[0]); T(id + 2, (unsigned long long) ar[2]);", 3: "T(id + 2, s.c); T(id + 2, s.d);",
         5: "T(id + 2, u->z);"}.get(place, ""))
    body = "".join("%s(%d, %s, %s);\n" % (fn, 10 * i, lit_t(r, a, ta), lit_t(r, b, tb)) for i, (a, b) in enumerate(pairs))
    return Item(d, body, ("asg" + op,))


def it_cast(r, u, ta, tb):
    """value of type ta converted to tb by cast, assignment, initialisation, argument, return, array store"""
    fn = "c%d" % u
    na, nb = r.choice(SPELL[ta.name]), r.choice(SPELL[tb.name])
    d = """static %(b)s %(f)s_ret(%(a)s v) { return v; }
static void %(f)s_arg(long id, %(b)s v) { T(id, (unsigned long long) v); }
static %(b)s %(f)s_g; struct %(f)s_s { char c; %(b)s m; char d; };
static void %(f)s(long id, %(a)s v) {
 T(id, (unsigned long long) (%(b)s) v);
 %(b)s x = v; T(id + 1, (unsigned long long) x);
 %(f)s_g = v; T(id + 2, (unsigned long long) %(f)s_g);
 T(id + 3, (unsigned long long) %(f)s_ret(v));
 %(f)s_arg(id + 4, v);
 %(b)s ar[2]; ar[1] = v; T(id + 5, (unsigned long long) ar[1]);
 T(id + 6, (unsigned long long) (x = v));
 struct %(f)s_s s = {1, v, 2}; T(id + 7, (unsigned long long) s.m + s.c + s.d);
 s.m = 0; s.m += v; T(id + 8, (unsigned long long) s.m);
 T(id + 9, (unsigned long long) (1 ? (%(b)s) v : (%(b)s) 0));
}""" % {"a": na, "b": nb, "f": fn}
    vals = boundary(ta)
    r.shuffle(vals)
    body = "".join("%s(%d, %s);\n" % (fn, 16 * i, lit_t(r, v, ta)) for i, v in enumerate(vals[:12]))
    return Item(d, body, ("conv",))


def it_unary(r, u, t):
    fn = "u%d" % u
    n = r.choice(SPELL[t.name])
    d = "static %s g%s;\n" % (n, fn)
    body = ""
    vals = boundary(t)
    r.shuffle(vals)
    for i, v in enumerate(vals[:10]):
        k = 32 * i
        body += "{ %s v = %s; T(%d, !v); T(%d, (unsigned long long) +v); T(%d, (unsigned long long) ~v);" % (n, lit_t(r, v, t), k, k + 1, k + 2)
        pt = promote(t)
        if not (pt.signed and conv(v, pt) == pt.min):
            body += " T(%d, (unsigned long long) -v); T(%d, (unsigned long long) - - v);" % (k + 3, k + 4)
        body += " if (v) T(%d, 1); else T(%d, 0); T(%d, v ? 5 : 6); T(%d, !!v);" % (k + 5, k + 5, k + 6, k + 7)
        body += " if (!v) T(%d, 1); T(%d, v && 1); T(%d, v || 0); { int q = 0; while (v && q < 2) q++; T(%d, q); }" % (k + 8, k + 9, k + 10, k + 11)
        for j, (pre, post) in enumerate([("++", ""), ("--", ""), ("", "++"), ("", "--")]):
            inc = 1 if "+" in pre + post else -1
            if t is not BOOL and promote(t) is t and t.signed and not (t.min <= v + inc <= t.max):
                continue
            body += " v = %s; T(%d, (unsigned long long) %sv%s); T(%d, (unsigned long long) v);" % (lit_t(r, v, t), k + 12 + 2 * j, pre, post, k + 13 + 2 * j)
            body += " g%s = %s; { %s *p = &g%s; T(%d, (unsigned long long) %s%s%s); T(%d, (unsigned long long) g%s); }" % (
                fn, lit_t(r, v, t), n, fn, k + 20, pre, "(*p)", post, k + 21, fn)
        body += " }\n"
    return Item(d, body, ("unary",))


def it_expr(r, u):
    env = Env()
    fn = "e%d" % u
    d, b = "", ""
    for i in range(r.randrange(4, 9)):
        t = r.choice(TYPES)
        v = rval(r, t)
        n = r.choice(SPELL[t.name])
        l = lit_t(r, v, t)
        k = r.randrange(7)
        nm = "%s_%d" % (fn, i)
        if k == 0:
            b += "%s v%d = %s;\n" % (n, i, l); s = "v%d" % i
        elif k == 1:
            d += "static %s %s;\n" % (n, nm); b += "%s = %s;\n" % (nm, l); s = nm
        elif k == 2:
            d += "%s %s = %s;\n" % (n, nm, lit_t(r, v, t)); s = nm
        elif k == 3:
            b += "volatile %s v%d = %s;\n" % (n, i, l); s = "v%d" % i
        elif k == 4:
            b += "%s w%d[4]; w%d[%d] = %s;\n" % (n, i, i, i % 4, l); s = "w%d[%d]" % (i, i % 4)
        elif k == 5:
            b += "%s x%d = %s, *p%d = &x%d;\n" % (n, i, l, i, i); s = r.choice(["*p%d" % i, "p%d[0]" % i])
        else:
            d += "struct S%s { char pad; %s m; };\n" % (nm, n)
            b += "struct S%s s%d = {.m = %s}, *q%d = &s%d;\n" % (nm, i, l, i, i); s = r.choice(["s%d.m" % i, "q%d->m" % i])
        env.vars.append((s, t, v))
    for i in range(2):
        at, rt = r.choice(TYPES), r.choice(TYPES)
        d += "static %s f%s_%d(%s a) { return a; }\n" % (rt.name, fn, i, at.name)
        env.funcs.append(("f%s_%d" % (fn, i), at, rt))
    for i in range(6):
        e = gen_expr(r, env, r.randrange(2, 6))
        k = r.randrange(3)
        if k == 0:
            b += "T(%d, (unsigned long long) (%s));\n" % (i, e.s)
        elif k == 1:
            t = r.choice(TYPES)
            b += "{ %s z = %s; T(%d, (unsigned long long) z); }\n" % (t.name, par(r, e, 2), i)
        else:
            b += "if (%s) T(%d, 1); else T(%d, 0);\n" % (e.s, i, i)
    return Item(d, b, ("expr",))


def gen(r, n):
    out = []
    for u in range(n):
        k = r.random()
        if k < 0.38:
            out.append(it_bin(r, u, *r.choice(OPS_MATRIX)))
        elif k < 0.60:
            out.append(it_asg(r, u, *r.choice(ASG_MATRIX)))
        elif k < 0.70:
            out.append(it_cast(r, u, *r.choice(CAST_MATRIX)))
        elif k < 0.74:
            out.append(it_unary(r, u, r.choice(TYPES)))
        else:
            out.append(it_expr(r, u))
    return out


ALL = [("b",) + x for x in OPS_MATRIX] + [("a",) + x for x in ASG_MATRIX] + [("c",) + x for x in CAST_MATRIX] + [("u", t) for t in TYPES]


def gen_cells(r, cells):
    out = []
    for u, c in enumerate(cells):
        k = c[0]
        out.append({"b": it_bin, "a": it_asg, "c": it_cast, "u": it_unary}[k](r, u, *c[1:]))
    return out


def _matrix_job(bdir, seed, idx, cells):
    items = gen_cells(rng(seed, "m", idx), cells)
    res = judge(bdir, items)
    res["n"] = len(items)
    return res


def main():
    ck = Check("C01")
    ck.rule = ("every cell of the operator x type x type tables (binary, compound assignment, conversion, unary; 12 integer types) with "
               "boundary operand values, plus random UB-free expression trees; non-trivial = distinct source text of a case; "
               "each case reports its values as events and the log is compared with the reference execution")
    ck.assumptions = ["gcc -O0 (confirmed by gcc -O2, clang and a UBSan run before any alarm) is the C17 reference"]
    bdir = build("plain")
    cells = list(ALL)
    rng("C01m", SEED).shuffle(cells)
    per = 14
    reps = scale(1, 6)
    jobs = [(bdir, ("C01", SEED, rep), i, cells[i:i + per]) for rep in range(reps) for i in range(0, len(cells), per)]
    for res in pmap(_matrix_job, jobs):
        ck.evaluations += res["n"]
        ck.count("events", res["events"]); ck.count("programs", res["programs"]); ck.count("matrix_cells", res["n"])
        ck.invalid += res["invalid"]
        for v in res["violations"]:
            report_item(ck, *v)
    run_items(ck, bdir, gen, scale(600, 8000), 14)
    run_known(ck, bdir)
    ck.finish(1000)
