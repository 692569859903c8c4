"""C07: calls interoperate with the system compiler's code in both directions."""
from vf.core import *
from vf.interop import *


def gen_one(r, u):
    g = Gen(r, "%d_" % u, alignas=False)
    cnt = [0]

    def nxt():
        cnt[0] += 1
        return cnt[0]
    tags = set()
    sus = [su_type(r, g) for _ in range(r.randrange(0, 4))]
    sc = lambda: g.scalar() if r.random() < 0.7 else Sc(r.choice(["int", "double", "float", "long", "long double"]))
    nargs = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15])
    args = [(r.choice(sus) if sus and r.random() < 0.4 else sc()) for _ in range(nargs)]
    k = r.random()
    ret = None if k < 0.1 else (r.choice(sus) if sus and k < 0.5 else sc())
    mode = r.choice(["plain", "plain", "recursive", "callback", "nested"])
    f, gname = "f%d" % u, "g%d" % u
    rdecl = (lambda d: "void " + d) if ret is None else (lambda d: ret.decl(d) if ret.kind != "ptr" or ret.base != "fn" else "void *" + d)
    rty = ret if ret is None or ret.kind != "ptr" or ret.base != "fn" else Ptr("void")
    cbt = Ptr("cb")
    names = ["a%d" % i for i in range(nargs)]
    plist = [t.decl(n) for t, n in zip(args, names)]
    alltypes = list(args)
    if mode == "recursive":
        plist.insert(0, "int depth")
        alltypes.insert(0, Sc("int"))
    if mode == "callback":
        at = r.randrange(0, nargs + 1)
        plist.insert(at, "double (*cb)(int, double, long)")
        alltypes.insert(at, cbt)
    proto = "(%s)" % (", ".join(plist) or "void")
    com = g.text() + rdecl(f + proto) + ";\n" + rdecl(gname + proto) + ";\n"
    asm = thunk(gname, f, rty, alltypes, r.random() < 0.7)
    # ---- callee
    b = ""
    for t, n in zip(args, names):
        b += obs(t, n, nxt)
    if mode == "callback":
        b += "{ double cr = cb(%d, %s, %dl); TD(%d, cr); }\n" % (r.randrange(-99, 99), r.choice(FVALS), r.randrange(1 << 40), nxt())
        b += "".join(obs(t, n, nxt) for t, n in zip(args, names))
    for t, n in zip(args, names):
        if r.random() < 0.7:
            b += setv(r, t, n)
            b += obs(t, n, nxt)
    if mode == "recursive":
        call = "%s(%s)" % (gname, ", ".join(["depth - 1"] + names))
        if ret is None:
            b += "if (depth > 0) { %s; GUARD(%d); }\n" % (call, nxt())
        else:
            b += "if (depth > 0) { %s = %s; GUARD(%d); %s }\n" % (rty.decl("rr"), call, nxt(), obs(rty, "rr", nxt))
    if ret is not None:
        b += "%s;\n" % ("static " if r.random() < 0.3 else "") .join(["", rty.decl("res")]) if False else rty.decl("res") + ";\n"
        b += clr("res") if rty.kind == "su" else ""
        b += setv(r, rty, "res")
        if r.random() < 0.3 and rty.kind == "su":
            b += "%s = &res; return *pr;\n" % rty.decl("*pr")
        else:
            b += "return res;\n"
    callee = rdecl(f + proto) + " {\n" + b + "}\n"
    caller = ""
    if mode == "callback":
        com += "double cbf%d(int, double, long); double cbg%d(int, double, long);\n" % (u, u)
        caller += "double cbf%d(int x, double y, long z) { T(%d, (unsigned long long) x); TD(%d, y); T(%d, z); return y + x; }\n" % (u, nxt(), nxt(), nxt())
        asm += thunk("cbg%d" % u, "cbf%d" % u, Sc("double"), [Sc("int"), Sc("double"), Sc("long")], True)
    if mode == "nested":
        com += "long nf%d(long, double); long ng%d(long, double);\n" % (u, u)
        callee += "long nf%d(long x, double y) { T(%d, x); TD(%d, y); return x * 2 + (long) y; }\n" % (u, nxt(), nxt())
        asm += thunk("ng%d" % u, "nf%d" % u, Sc("long"), [Sc("long"), Sc("double")], True)
    # ---- caller
    body = ""
    if sus and r.random() < 0.5:
        body += ""
    stor = ["", "static "]
    for t, n in zip(args, names):
        body += "%s%s;\n" % (r.choice(stor), t.decl(n))
    if ret is not None:
        body += rty.decl("v") + ";\n"
    if mode == "recursive":
        body += "int depth = (int) I(%d);\n" % r.randrange(0, 4)
    form = r.choice(["direct", "direct", "ptr", "deref", "member", "array"])
    fpt = rdecl("(*%s)" % "fp" + proto)
    if form in ("ptr", "deref"):
        body += "%s = %s;\n" % (fpt, r.choice(["", "&"]) + gname)
        cal = {"ptr": "fp", "deref": r.choice(["(*fp)", "(**fp)"])}[form]
    elif form == "member":
        body += "struct { char pad; %s; } st; st.fp = %s;\n" % (fpt, gname)
        cal = "st.fp"
    elif form == "array":
        body += "%s; fp[1] = %s;\n" % (rdecl("(*fp[3])" + proto), gname)
        cal = "fp[I(1)]"
    else:
        cal = gname
    for rep in range(r.choice([1, 1, 2])):
        for t, n in zip(args, names):
            body += setv(r, t, n)
        av = list(names)
        # array element or member or literal as the argument expression
        for i, t in enumerate(args):
            if t.kind == "sc" and r.random() < 0.25:
                av[i] = value(r, Leaf("x", t, None, False))
        if mode == "nested":
            cands = [i for i, t in enumerate(args) if t.kind == "sc"]
            if cands:
                i = r.choice(cands)
                av[i] = "(%s) (ng%d(%dl, %s) & 63)" % (args[i].name, u, r.randrange(1 << 30), r.choice(["1.5", "-2.0", "7.25"]))
        if mode == "recursive":
            av.insert(0, "depth")
        if mode == "callback":
            av.insert(at, r.choice(["cbg%d", "&cbg%d"]) % u)
        call = "%s(%s)" % (cal, ", ".join(av))
        if ret is None:
            body += r.choice(["%s;\n", "(void) %s;\n", "(%s, (void) 0);\n", "if (I(1)) %s;\n"]) % call
        elif rty.kind == "su":
            kk = r.random()
            if kk < 0.6:
                body += "v = %s;\n" % call + obs(rty, "v", nxt)
            elif kk < 0.8:
                ls = [l for l in leaves(rty, "", first_only=True) if "[" not in l.path]
                if ls:
                    body += observe(r.choice(ls), nxt(), call + r.choice(ls).path if False else None) if False else ""
                    l = r.choice(ls)
                    body += observe(Leaf(call + l.path, l.ty, l.bits, False), nxt()) + "\n"
                else:
                    body += "v = %s;\n" % call + obs(rty, "v", nxt)
            else:
                body += "{ %s[2]; pv[I(1)] = %s; v = pv[1]; }\n" % (rty.decl("pv"), call) + obs(rty, "v", nxt)
        else:
            kk = r.random()
            lf = Leaf("v", rty, None, False)
            if kk < 0.4 or rty.kind != "sc":
                body += "v = %s;\n" % call + observe(lf, nxt()) + "\n"
            elif rty.it is None:
                fn = {"float": ("TF", "F"), "double": ("TD", "D"), "long double": ("TL", "L")}[rty.name]
                body += r.choice(["%s(%d, %s);\n" % (fn[0], nxt(), call),
                                  "TL(%d, (L(1.5L) + (D(2.0) + %s)));\n" % (nxt(), call),
                                  "T(%d, I(3) + (I(4) + (%s < 2)));\n" % (nxt(), call)])
            else:
                body += r.choice(["T(%d, (unsigned long long) %s);\n" % (nxt(), call),
                                  "T(%d, U(1) + (unsigned long long) %s);\n" % (nxt(), call),
                                  "T(%d, U(1) + (U(2) ^ (unsigned long long) %s));\n" % (nxt(), call),
                                  "T(%d, U(1) + (U(2) ^ (U(5) * (unsigned long long) %s)));\n" % (nxt(), call),
                                  "if (%s) T(%d, 1); else T(%d, 0);\n" % (call, nxt(), nxt()),
                                  "T(%d, (unsigned long long) !%s);\n" % (nxt(), call)])
        body += "GUARD(%d);\n" % nxt()
        for t, n in zip(args, names):
            body += obs(t, n, nxt)
    tags |= {mode, "call:" + form, "ret:" + ("void" if ret is None else ret.kind if ret.kind != "sc" else ("fp" if ret.it is None else "int"))}
    if any(a.kind == "su" for a in args):
        tags.add("aggregate_args")
    if nargs > 6:
        tags.add("many_args")
    return XItem(com, caller, body, callee, asm, tags)


def gen(r, n):
    return [gen_one(r, u) for u in range(n)]


def main():
    ck = Check("C07")
    ck.rule = "one evaluation = one random prototype in one of the pairings kefir->gcc, gcc->kefir, kefir->kefir, compared event by event with gcc->gcc; distinct by source text"
    ck.assumptions = ["arguments that gcc and clang classify differently are discarded", "over-aligned aggregates are not passed by value"]
    bdir = build("plain")
    run_x(ck, bdir, gen, scale(700, 8000), 6)
    run_known_x(ck, bdir)
    run_known(ck, bdir)
    ck.finish(1000)
