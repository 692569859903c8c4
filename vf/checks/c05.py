"""C05: type layout agrees with the System V x86-64 ABI."""
from vf.core import *
from vf.tygen import *


def gen_one(r, u):
    g = Gen(r, "%d" % u, maxm=r.choice([2, 4, 7, 10]))
    d = r.choice([0, 1, 1, 2, 2, 3])
    ty = g.su(d)
    flex = None
    if not ty.union and r.random() < 0.12 and len([m for m in ty.members if m.name]) >= 1 and not any(m.alignas for m in ty.members):
        el = Sc(r.choice(TYPES).name)
        ty.members.append(Mem("flex", Arr(el, None)))
        g.defs[-1] = ty.define(r)
        flex = el
        g.tags.add("flexible")
    decl = g.text()
    o = "o%d" % u
    n = [0]

    def T(e):
        n[0] += 1
        return "T(%d, (unsigned long long) (%s));\n" % (n[0], e)
    decl += "static %s; static %s; \n" % (ty.decl(o), ("struct { char c; %s; char d; }" % ty.decl("w") if not flex else "struct { char c; char d; }") + " w" + o)
    body = T("sizeof(%s)" % ty.decl("")) + T("_Alignof(%s)" % ty.decl("")) + T("sizeof %s" % o)
    if not flex:
        body += T("sizeof w" + o) + T("(char *) &w%s.w - (char *) &w%s" % (o, o)) + T("(char *) &w%s.d - (char *) &w%s" % (o, o))
        body += T("sizeof(%s)" % Arr(ty, 3).decl(""))
    body += T("(unsigned long) &%s %% _Alignof(%s)" % (o, ty.decl("")))
    tag = ty.decl("")
    paths = member_paths(ty, o)
    if len(paths) > 40:
        paths = r.sample(paths, 40)
    for p, t in paths:
        if t.kind == "arr" and t.n is None:
            body += T("(char *) %s - (char *) &%s" % (p, o))
            continue
        body += T("(char *) &%s - (char *) &%s" % (p, o)) + T("sizeof(%s)" % p)
        if r.random() < 0.3 and "[" not in p.split(".")[-1]:
            body += T("(unsigned long) &((%s *) 0)->%s" % (tag, p[len(o) + 1:]))
    # images: one leaf at a time over zero, then over ones; then everything
    ls = leaves(ty, o)
    if len(ls) > 24:
        ls = r.sample(ls, 24)
    nb = "(sizeof %s > 600 ? 600 : sizeof %s)" % (o, o)
    body += "unsigned char *img = (unsigned char *) &%s; unsigned long k; const unsigned long nb = sizeof %s;\n" % (o, o)
    for l in ls:
        if l.ty.kind == "sc" and l.ty.name == "long double":
            continue   # its padding bytes are unspecified
        if l.ty.kind == "sc" and l.ty.it is None:
            v = "1.5"
        elif l.ty.kind == "ptr":
            v = "(void *) -1L"
        elif l.ty.kind == "enum":
            v = str(max(l.ty.consts))
        else:
            v = "-1"
        n[0] += 1
        body += "for (k = 0; k < nb; k++) img[k] = 0; %s = %s; TB(%d, img, nb);\n" % (l.path, v, n[0])
        if l.ty.kind == "sc" and l.ty.it is not None and l.ty.name != "_Bool":
            n[0] += 1
            body += "for (k = 0; k < nb; k++) img[k] = 255; %s = 0; TB(%d, img, nb);\n" % (l.path, n[0])
    # values seen through a foreign image
    body += "for (k = 0; k < nb; k++) img[k] = (unsigned char) (k * 37 + 11);\n"
    for l in ls:
        if l.ty.kind != "sc" or (l.ty.it is not None and l.ty.name != "_Bool"):
            if l.ty.kind == "sc" and l.ty.it is None:
                continue
            n[0] += 1
            body += observe(l, n[0]) + "\n"
    if r.random() < 0.3:
        al = r.choice([1, 2, 4, 8, 16, 32, 64, 128, 256])
        t = Sc(r.choice(TYPES).name)
        if al >= t.it.size:
            decl += "static char pad%s; static _Alignas(%d) %s; _Alignas(%d) %s;\n" % (o, al, t.decl("al" + o), al, t.decl("ag" + o))
            body += T("(unsigned long) &al%s %% %d" % (o, al)) + T("(unsigned long) &ag%s %% %d" % (o, al)) + "pad%s = 1;\n" % o
            if al <= 16:
                body += "{ char z1; _Alignas(%d) %s; char z2; z1 = z2 = 1; alz = 0; %s }\n" % (al, t.decl("alz"), T("(unsigned long) &alz %% %d" % al))
            g.tags.add("object_alignas")
    return Item(decl, body, tuple(sorted(g.tags)) or ("plain",))


def gen(r, n):
    return [gen_one(r, u) for u in range(n)]


def main():
    item_check("C05", gen, scale(500, 10000), 8,
               "one evaluation = one random aggregate type with size, alignment, offset and byte-image events; distinct by declaration text",
               min_items=1000, assumptions=["gcc and clang agree on the reference layout; disagreements are discarded"])
