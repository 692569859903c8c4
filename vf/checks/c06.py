"""C06: bit-field reads and writes affect exactly their bits."""
from vf.core import *
from vf.tygen import *
from vf.cgen import *


def rt_type(t, w):
    """promoted type of a bit-field of declared type t and width w (gcc/C17: int if representable)"""
    return t


def bf_struct(r, u):
    """structure made mostly of bit-fields, guarded by neighbours"""
    g = Gen(r, "%d" % u, floats=False, ptrs=False, enums=False, arrays=False, anon=False, alignas=False, unions=False)
    ms = []
    g.tags.clear()
    n = r.randrange(2, 9)
    wide = r.random() < 0.35
    for _ in range(n):
        k = r.random()
        if k < 0.82:
            for m in g.bitmems():
                if wide and m.name and m.bits and m.ty.it.size == 8 and r.random() < 0.6:
                    m.bits = r.randrange(33, 65)
                ms.append(m)
        else:
            ms.append(Mem(g.uid("m"), Sc(r.choice(TYPES).name)))
    if not any(m.name and m.bits for m in ms):
        ms.append(Mem(g.uid("b"), Sc("int"), 7))
    union = r.random() < 0.1
    if union and ms[0].name is None:
        ms.insert(0, Mem(g.uid("m"), Sc("int")))
    s = Su(union, g.uid("s"), ms)
    return s


def bval(r, t, w):
    if t is BOOL:
        return r.randrange(2)
    v = r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, r.getrandbits(w), r.getrandbits(w)])
    if t.signed and v >> (w - 1):
        v -= 1 << w
    return v


OPS = ["=", "=", "=", "+=", "-=", "*=", "&=", "|=", "^=", "<<=", ">>=", "/=", "%="]


def bconv(v, t, w):
    if t is BOOL:
        return 1 if v else 0
    v &= (1 << w) - 1
    if t.signed and v >> (w - 1):
        v -= 1 << w
    return v


def prom(t, w):
    """C17 promotion as gcc implements it; for declared types wider than int the exact promoted type is
    implementation-defined, so callers cast those operands explicitly"""
    if t.size <= 4:
        if t.signed or w < 32:
            return INT
        return UINT
    return None


def gen_one(r, u):
    s = bf_struct(r, u)
    # wrap: neighbours on both sides + maybe an array of it
    n = [0]
    tag = s.decl("")
    decl = s.define(r)
    form = r.choice(["static", "auto", "ptr", "array", "nested", "heap"])
    o = {"static": "g%d.o" % u, "auto": "l.o", "ptr": "(*p)", "array": "ga%d[idx]" % u, "nested": "gn%d.in.o" % u, "heap": "p->o"}[form]
    W = "struct w%d { unsigned char a[8]; %s; unsigned char b[8]; }" % (u, s.decl("o"))
    decl += W + ";\n"
    body = ""
    if form == "static":
        decl += "static struct w%d g%d;\n" % (u, u)
        base, size = "&g%d" % u, "sizeof g%d" % u
    elif form == "auto":
        body += "struct w%d l;\n" % u
        base, size = "&l", "sizeof l"
    elif form == "ptr":
        body += "struct w%d l; %s = &l.o;\n" % (u, s.decl("*p"))
        base, size = "&l", "sizeof l"
    elif form == "array":
        decl += "static %s;\n" % s.decl("ga%d[3]" % u)
        body += "int idx = (int) I(1);\n"
        base, size = "ga%d" % u, "sizeof ga%d" % u
    elif form == "nested":
        decl += "static struct { short q; struct w%d in; char z; } gn%d;\n" % (u, u)
        base, size = "&gn%d" % u, "sizeof gn%d" % u
    else:
        body += "struct w%d l; struct w%d *p = &l;\n" % (u, u)
        base, size = "&l", "sizeof l"
    body += "unsigned char *img = (unsigned char *) (%s); unsigned long k, nb = %s; long long si; unsigned long long ui; int ii;\n" % (base, size)
    fill = r.choice(["0", "255", "(unsigned char) (k * 29 + %d)" % r.randrange(256)])
    body += "for (k = 0; k < nb; k++) img[k] = %s;\n" % fill
    fs = [m for m in s.members if m.name]
    val = {}
    seq = []
    # known initial values for all fields: assign each once
    for m in fs:
        t = m.ty.it
        w = m.bits if m.bits is not None else t.size * 8
        v = bval(r, t, w)
        val[m.name] = v
        seq.append("%s.%s = %s;" % (o, m.name, lit_t(r, v, t)))
        if s.union:
            val = {m.name: v}

    def i():
        n[0] += 1
        return n[0]
    body += "\n".join(seq) + "\nTB(%d, img, nb);\n" % i()
    for _ in range(r.randrange(3, 10)):
        cand = [m for m in fs if m.name in val]
        m = r.choice(fs if not s.union else cand)
        t = m.ty.it
        w = m.bits if m.bits is not None else t.size * 8
        if t is BOOL:
            w = 1
        lv = "%s.%s" % (o, m.name)
        cur = val[m.name]
        k = r.random()
        if k < 0.6:
            op = r.choice(OPS)
            if op == "=":
                # any value: conversion to the bit-field width is modulo (unsigned) or implementation-defined-modulo (signed)
                tt = r.choice(BIG)
                v = rval(r, tt) if r.random() < 0.5 else bconv(r.getrandbits(64), t, w)
                if not (tt.min <= v <= tt.max):
                    v = conv(v, tt)
                rhs = lit_t(r, v, tt)
                if r.random() < 0.6:
                    rhs = "(%s) %s(%s)" % (tt.name, "I" if tt.signed else "U", rhs)
                new = bconv(v, t, w)
            else:
                tt = r.choice([INT, INT, UINT, LONG, ULONG, LLONG]) if t.size <= 4 else INT
                v = rval(r, tt)
                if op in ("<<=", ">>="):
                    v = r.randrange(0, max(1, min(w, 31)))
                    tt = INT
                if op in ("/=", "%=") and v in (0, -1):
                    v = 3
                pt = prom(t, w)
                if pt is None:
                    # wide declared type: promoted type is the declared type in kefir/clang, own-width type in gcc; keep values small
                    if op in ("<<=", "*=") or cur < 0 or w < 34:
                        op = r.choice(["&=", "|=", "^="])
                    v = r.randrange(0, 1000)
                    if op in ("<<=", ">>="):
                        v = r.randrange(0, 20)
                    if op in ("/=", "%=") and v == 0:
                        v = 7
                    pt = t
                    if not t.signed:
                        tt = t  # unsigned 64-bit %=/>>= with a signed operand is KF-C01-1
                bv = binval(op[:-1], cur, pt, v, tt)
                if bv is None:
                    op = "^="
                    bv = binval("^", cur, pt, v, tt)
                new = bconv(bv[1], t, w)
                if t.size == 8 and op not in ("&=", "|=", "^=", ">>=", "/=", "%=") and new != bv[1]:
                    op, new = "=", bconv(v, t, w)
                rhs = lit_t(r, v, tt)
                if r.random() < 0.4:
                    rhs = "(%s) %s(%s)" % (tt.name, "I" if tt.signed else "U", rhs)
            st = "%s %s %s" % (lv, op, rhs)
        elif k < 0.85:
            st = r.choice(["%s++", "%s--", "++%s", "--%s"]) % lv
            d = 1 if "++" in st else -1
            if t is BOOL:
                st, new = lv + " = 1", 1
            elif t.signed and cur + d != bconv(cur + d, t, 64 if t.size == 8 else 32):
                st, new = lv + " = 0", 0
            else:
                new = bconv(cur + d, t, w)
        else:
            # copy between fields
            m2 = r.choice(cand)
            st = "%s = %s.%s" % (lv, o, m2.name)
            new = bconv(val[m2.name], t, w)
        val[m.name] = new
        if s.union:
            val = {m.name: new}
        j = r.random()
        if j < 0.4:
            body += st + ";\n"
        elif j < 0.7:
            body += "T(%d, (unsigned long long) (%s));\n" % (i(), st)
        elif j < 0.85:
            body += "si = (%s); T(%d, (unsigned long long) si);\n" % (st, i())
        else:
            body += "if (%s) T(%d, 1); else T(%d, 0);\n" % (st, i(), i())
        body += "TB(%d, img, nb);\n" % i()
        for mm in r.sample(fs, min(len(fs), 3)):
            if not s.union or mm.name in val:
                body += "T(%d, (unsigned long long) %s.%s);\n" % (i(), o, mm.name)
    # use in expressions: promotions observable for declared types up to int
    for m in fs:
        if m.name not in val:
            continue
        t = m.ty.it
        lv = "%s.%s" % (o, m.name)
        if m.bits is not None and t.size <= 4:
            body += "T(%d, %s < -1); T(%d, (unsigned long long) (long long) -%s); T(%d, (unsigned long long) (long long) ~%s); T(%d, (unsigned long long) (%s - 1 > 0)); T(%d, (unsigned long long) (long long) (%s >> 1));\n" % (
                i(), lv, i(), lv, i(), lv, i(), lv, i(), lv)
            body += "ui = %s; T(%d, ui); T(%d, !%s); T(%d, %s && 1); T(%d, (unsigned long long) (%s ? %s : 7));\n" % (lv, i(), i(), lv, i(), lv, i(), lv, lv)
            body += "TD(%d, (double) %s); TD(%d, %s + 0.5); T(%d, (unsigned long long) (%s, %s)); T(%d, (unsigned long long) I(%s)); T(%d, (unsigned char) %s);\n" % (
                i(), lv, i(), lv, i(), lv, lv, i(), lv, i(), lv)
            if m.bits < 32 or t.signed:
                body += "T(%d, _Generic(+%s, int: 1, unsigned: 2, default: 3));\n" % (i(), lv)
        elif t.size == 8:
            body += "T(%d, (unsigned long long) (%s) %s); TD(%d, (double) (%s) %s); T(%d, !%s);\n" % (i(), t.name, lv, i(), t.name, lv, i(), lv)
        else:
            body += "T(%d, (unsigned long long) %s);\n" % (i(), lv)
    body += "switch (%s.%s) { case 0: T(%d, 0); break; default: T(%d, 1); }\n" % (o, r.choice([m for m in fs if m.name in val]).name, i(), i())
    body += "{ %s = %s; TB(%d, img, nb); %s.%s = 0; T(%d, (unsigned long long) %s.%s); %s = cp; TB(%d, img, nb); }\n" % (
        s.decl("cp"), o, i(), o, r.choice(fs).name if not s.union else list(val)[0], i(), "cp", list(val)[0], o, i())
    return Item(decl, body, ("bf", form) + (("union",) if s.union else ()))


def gen(r, n):
    return [gen_one(r, u) for u in range(n)]


def main():
    item_check("C06", gen, scale(420, 9000), 8,
               "one evaluation = one random bit-field structure driven through 3-10 stores with a byte image of the guarded object after each; distinct by source text",
               min_items=1000, assumptions=["the promoted type of bit-fields declared wider than int is implementation-defined and not observed"])
