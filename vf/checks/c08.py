"""C08: variable arguments interoperate in both directions."""
from vf.core import *
from vf.interop import *

PROM = ["int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "double", "double", "long double"]
SMALL = ["char", "signed char", "unsigned char", "short", "unsigned short", "_Bool", "float"]


def vtype(r, g, sus):
    k = r.random()
    if sus and k < 0.3:
        return r.choice(sus)
    if k < 0.85:
        return Sc(r.choice(PROM))
    if k < 0.95:
        return Ptr(r.choice(["char", "int", "void", "double"]))
    return g.enum()


def arg_expr(r, t, name):
    """an argument expression whose promoted type is t: sometimes an unpromoted value"""
    if t.kind == "sc" and t.name == "int" and r.random() < 0.5:
        s = r.choice(SMALL[:6])
        return "(%s) %s" % (s, name)
    if t.kind == "sc" and t.name == "double" and r.random() < 0.4:
        return "(float) %s" % name
    return name


def take(r, types, i, nxt, ap="ap"):
    """read the arguments one by one"""
    b = ""
    for j, t in enumerate(types):
        if t.kind == "su":
            k = r.random()
            ls = [l for l in leaves(t, "", first_only=True) if "[" not in l.path]
            if k < 0.75 or not ls:
                b += "{ %s = __builtin_va_arg(%s, %s);\n%s}\n" % (t.decl("x"), ap, t.decl(""), obs(t, "x", nxt))
            elif k < 0.9:
                l = r.choice(ls)
                b += observe(Leaf("__builtin_va_arg(%s, %s)%s" % (ap, t.decl(""), l.path), l.ty, l.bits, False), nxt()) + "\n"
            else:
                b += "{ %s[2]; x[I(1)] = __builtin_va_arg(%s, %s);\n%s}\n" % (t.decl("x"), ap, t.decl(""), obs(t, "x[1]", nxt))
        else:
            tn = t.decl("")
            e = "__builtin_va_arg(%s, %s)" % (ap, tn)
            if t.kind == "sc" and t.it is not None and r.random() < 0.3:
                # signed/unsigned counterpart, value kept representable by the caller
                e = r.choice(["(I(3) + (long long) %s - 3)" % e, "(U(1) * (unsigned long long) %s)" % e])
                b += "T(%d, (unsigned long long) %s);\n" % (nxt(), e)
            else:
                b += observe(Leaf(e, t, None, False), nxt()) + "\n"
    return b


def gen_one(r, u):
    g = Gen(r, "%d_" % u, alignas=False)
    cnt = [0]

    def nxt():
        cnt[0] += 1
        return cnt[0]
    sus = [su_type(r, g) for _ in range(r.randrange(0, 4))]
    nf = r.choice([1, 1, 2, 3, 5, 6, 7, 9, 12])
    fixed = [(r.choice(sus) if sus and r.random() < 0.2 else Sc(r.choice(["int", "long", "double", "float", "char", "long double", "double", "short"]))) for _ in range(nf)]
    # the last named parameter must not have a type that changes under promotion
    fixed[-1] = Sc(r.choice(["int", "long", "double", "unsigned long"]))
    nv = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 14, 20])
    style = r.choice(["mixed", "mixed", "ints", "fps", "structs", "ld"])
    va = []
    for _ in range(nv):
        if style == "ints":
            va.append(Sc(r.choice(PROM[:6])))
        elif style == "fps":
            va.append(Sc("double"))
        elif style == "structs" and sus:
            va.append(r.choice(sus))
        elif style == "ld":
            va.append(Sc(r.choice(["long double", "int", "double"])))
        else:
            va.append(vtype(r, g, sus))
    mode = r.choice(["plain", "plain", "copy", "restart", "forward", "forward", "ptrforward", "split", "unused", "loop"])
    k = r.random()
    ret = None if k < 0.2 else (r.choice(sus) if sus and k < 0.4 else Sc(r.choice(["int", "double", "long double", "unsigned long", "float"])))
    f, gn = "f%d" % u, "g%d" % u
    rdecl = (lambda d: "void " + d) if ret is None else ret.decl
    names = ["a%d" % i for i in range(nf)]
    proto = "(%s, ...)" % ", ".join(t.decl(n) for t, n in zip(fixed, names))
    com = g.text() + rdecl(f + proto) + ";\n" + rdecl(gn + proto) + ";\n"
    asm = thunk(gn, f, ret, fixed + va, False, True)
    tags = {mode, style, "fixed>6" if nf > 6 else "fixed<=6"}
    if mode == "loop":
        va = [Sc(r.choice(["int", "double", "long"])) if not sus or r.random() < 0.7 else r.choice(sus)] * nv
    b = "__builtin_va_list ap;\n"
    callee = ""
    if mode == "split":
        b += "__builtin_va_list bp;\n"
    if mode != "unused":
        b += "__builtin_va_start(ap, %s);\n" % names[-1]
    for t, n in zip(fixed, names):
        b += obs(t, n, nxt)
    caller_extra = ""
    if mode == "plain":
        cut = r.choice([nv, nv, r.randrange(0, nv + 1)])
        b += take(r, va[:cut], 0, nxt) + "__builtin_va_end(ap);\n"
    elif mode == "unused":
        pass
    elif mode == "loop":
        t = va[0] if va else Sc("int")
        b += "{ int i; for (i = 0; i < %d; i++) {\n%s} }\n__builtin_va_end(ap);\n" % (nv, take(r, [t], 0, nxt))
    elif mode == "restart":
        c = r.randrange(0, nv + 1)
        b += take(r, va[:c], 0, nxt) + "__builtin_va_end(ap);\n__builtin_va_start(ap, %s);\n" % names[-1]
        b += take(r, va, 0, nxt) + "__builtin_va_end(ap);\n"
    elif mode == "copy":
        c = r.randrange(0, nv + 1)
        b += take(r, va[:c], 0, nxt)
        b += "{ __builtin_va_list bp; __builtin_va_copy(bp, ap);\n" + take(r, va[c:], 0, nxt, "bp") + "__builtin_va_end(bp); }\n"
        b += take(r, va[c:], 0, nxt) + "__builtin_va_end(ap);\n"
    elif mode == "split":
        b += "__builtin_va_copy(bp, ap);\n"
        i = j = 0
        while i < nv or j < nv:
            if i < nv and (j >= nv or r.random() < 0.5):
                b += take(r, [va[i]], 0, nxt)
                i += 1
            else:
                b += take(r, [va[j]], 0, nxt, "bp")
                j += 1
        b += "__builtin_va_end(bp); __builtin_va_end(ap);\n"
    else:
        # hand the list to a function in the other unit, by va_list parameter or by pointer to it
        c = r.randrange(0, nv + 1)
        star = "*" if mode == "ptrforward" else ""
        com += "int hf%d(int, __builtin_va_list %sap); int hg%d(int, __builtin_va_list %sap);\n" % (u, star, u, star)
        asm += thunk("hg%d" % u, "hf%d" % u, Sc("int"), [Sc("int"), Ptr("void")], True)
        h = "int hf%d(int k, __builtin_va_list %sap) {\nT(%d, (unsigned long long) k);\n%sreturn k + 1;\n}\n" % (
            u, star, nxt(), take(r, va[c:] if mode == "forward" else va[c:c + 2], 0, nxt, "(*ap)" if star else "ap"))
        caller_extra += h
        b += take(r, va[:c], 0, nxt)
        if mode == "forward":
            b += "T(%d, (unsigned long long) hg%d(%d, ap));\n" % (nxt(), u, r.randrange(100))
        else:
            b += "T(%d, (unsigned long long) hg%d(%d, &ap));\n" % (nxt(), u, r.randrange(100))
            b += take(r, va[c + 2:], 0, nxt)
        b += "__builtin_va_end(ap);\n"
    for t, n in zip(fixed, names):
        b += obs(t, n, nxt)
    if ret is not None:
        b += ret.decl("res") + ";\n" + (clr("res") if ret.kind == "su" else "") + setv(r, ret, "res") + "return res;\n"
    callee += rdecl(f + proto) + " {\n" + b + "}\n"
    body = ""
    for t, n in zip(fixed, names):
        body += t.decl(n) + ";\n"
    vn = ["v%d" % i for i in range(nv)]
    for t, n in zip(va, vn):
        body += t.decl(n) + ";\n"
    if ret is not None:
        body += ret.decl("v") + ";\n"
    fp = r.random() < 0.3
    if fp:
        body += rdecl("(*fp)" + proto) + " = %s;\n" % gn
        tags.add("pointer")
    for rep in range(r.choice([1, 2])):
        for t, n in list(zip(fixed, names)) + list(zip(va, vn)):
            if t.kind == "su":
                body += clr(n)
            body += setv(r, t, n)
        av = names + [arg_expr(r, t, n) for t, n in zip(va, vn)]
        call = "%s(%s)" % ("fp" if fp else gn, ", ".join(av))
        if ret is None:
            body += call + ";\n"
        else:
            body += "v = %s;\n" % call + obs(ret, "v", nxt)
        body += "GUARD(%d);\n" % nxt()
    return XItem(com, caller_extra, body, callee, asm, tags)


# ------------------------------------------------------------------ calls into the system library's variadic functions
FMT = [("%d", "int"), ("%u", "unsigned int"), ("%ld", "long"), ("%lu", "unsigned long"), ("%lld", "long long"), ("%llx", "unsigned long long"),
       ("%hhd", "signed char"), ("%hd", "short"), ("%hu", "unsigned short"), ("%c", "char1"), ("%s", "str"), ("%p", "ptr"), ("%g", "double"), ("%.17g", "double"), ("%a", "double"),
       ("%f", "float"), ("%Lg", "long double"), ("%La", "long double"), ("%.20Lg", "long double"), ("%5d", "int"), ("%-8s", "str"), ("%*d", "star"), ("%.*s", "starstr"), ("%%", None)]


def lib_one(r, u):
    decls = "int snprintf(char *, unsigned long, const char *, ...);\nint sscanf(const char *, const char *, ...);\n"
    b = "char buf[2000];\nint n;\n"
    for rep in range(3):
        fmt, args = "", []
        for _ in range(r.randrange(1, 16)):
            f, t = r.choice(FMT)
            fmt += f + r.choice(["", " ", ",", "x"])
            if t is None:
                continue
            if t == "str":
                args.append('"%s"' % "".join(r.choice("abcXYZ09") for _ in range(r.randrange(0, 9))))
            elif t == "char1":
                args.append("(char) %d" % r.randrange(33, 120))
            elif t == "ptr":
                args.append("(void *) %dul" % r.getrandbits(40))
            elif t == "star":
                args += [str(r.randrange(0, 12)), str(r.randrange(-999, 999))]
            elif t == "starstr":
                args += [str(r.randrange(0, 6)), '"abcdefgh"']
            else:
                e = value(r, Leaf("x", Sc(t), None, False))
                args.append("(%s) %s" % (t, e))
        b += 'n = snprintf(%s);\nTS(%d, buf); T(%d, (unsigned long long) n);\n' % (", ".join(["buf", "sizeof buf", '"%s"' % fmt] + args), rep, rep)
    b += "{ int a; long l; double d; float f; char c; long double e; short s; n = sscanf(\"%d %ld %g %g %c %g %d\", \"%%d %%ld %%lf %%f %%c %%Lf %%hd\", &a, &l, &d, &f, &c, &e, &s);\n" % (
        r.randrange(-999, 999), r.randrange(-10**12, 10**12), r.choice([1.5, -2.25, 0.125, 1024]), r.choice([1.5, -2.25]), ord("x") and 7, r.choice([0.5, 3]), r.randrange(-99, 99))
    b += "T(10, (unsigned long long) a); T(11, l); TD(12, d); TF(13, f); T(14, c); TL(15, e); T(16, s); T(17, (unsigned long long) n); }\n"
    return Item(decls, b, ("library",))


def noproto_one(r, u):
    """calls without a prototype: default argument promotions"""
    n = r.randrange(1, 12)
    ts = [r.choice(PROM + ["double"] * 2) for _ in range(n)]
    args, params = [], []
    for i, t in enumerate(ts):
        e = value(r, Leaf("x", Sc(t), None, False))
        if t == "int" and r.random() < 0.6:
            s = r.choice(SMALL[:6])
            e = "(%s) %s" % (s, e)
        elif t == "double" and r.random() < 0.5:
            e = "(float) %s" % e
        args.append(e)
        params.append("%s a%d" % (t, i))
    f = "np%d" % u
    rt = r.choice(["int", "double", "long"])
    decl = "%s %s();\n" % (rt, f)
    fdef = "%s %s(%s) {\n%sreturn 3;\n}\n" % (rt, f, ", ".join(params), "".join(observe(Leaf("a%d" % i, Sc(t), None, False), i + 1) + "\n" for i, t in enumerate(ts)))
    fp = "%s (*fp)() = %s;\n" % (rt, f) if r.random() < 0.3 else ""
    call = "TD(50, (double) %s(%s));\n" % ("fp" if fp else f, ", ".join(args))
    return XItem(decl, "", fp + call, fdef, "", ("unprototyped",))


def gen(r, n):
    return [noproto_one(r, u) if r.random() < 0.12 else gen_one(r, u) for u in range(n)]


def lib_gen(r, n):
    return [lib_one(r, u) for u in range(n)]


def main():
    ck = Check("C08")
    ck.rule = "one evaluation = one random variadic call sequence in one of the pairings kefir->gcc, gcc->kefir, kefir->kefir, compared event by event with gcc->gcc, or one sequence of calls of the C library's variadic functions; distinct by source text"
    ck.assumptions = ["argument lists that gcc and clang treat differently are discarded", "over-aligned aggregates are not passed"]
    bdir = build("plain")
    run_x(ck, bdir, gen, scale(500, 6000), 6)
    run_items(ck, bdir, lib_gen, scale(50, 800), 10, label="lib")
    run_known_x(ck, bdir)
    ck.finish(1000)
