"""Random C object types: declarations, leaf enumeration, values."""
from vf.cgen import TYPES, BIG, SPELL, rval, lit_t, conv, by_name, BOOL, INT

FLT = ["float", "double", "long double"]
SIZES = {"float": 4, "double": 8, "long double": 16}


class Ty:
    kind = ""


class Sc(Ty):
    kind = "sc"

    def __init__(self, name):
        self.name = name
        self.it = None if name in FLT else by_name(name)

    def decl(self, d, r=None):
        n = self.name
        if r and n in SPELL and r.random() < 0.2:
            n = r.choice(SPELL[n])
        return (n + " " + d).rstrip()


class Ptr(Ty):
    kind = "ptr"

    def __init__(self, base="char"):
        self.base = base

    def decl(self, d, r=None):
        if self.base == "fn":
            return "int (*%s)(int)" % d
        return "%s *%s" % (self.base, d)


class Enum(Ty):
    kind = "enum"

    def __init__(self, tag, consts):
        self.tag, self.consts = tag, consts

    def decl(self, d, r=None):
        return ("enum %s %s" % (self.tag, d)).rstrip()


class Arr(Ty):
    kind = "arr"

    def __init__(self, el, n):
        self.el, self.n = el, n

    def decl(self, d, r=None):
        if d[:1] == "*":
            d = "(%s)" % d
        return self.el.decl("%s[%s]" % (d, "" if self.n is None else self.n), r)


class Su(Ty):
    kind = "su"

    def __init__(self, union, tag, members):
        self.union, self.tag, self.members = union, tag, members

    @property
    def key(self):
        return "union" if self.union else "struct"

    def decl(self, d, r=None):
        return ("%s %s %s" % (self.key, self.tag, d)).rstrip()

    def body(self, r=None):
        return "{ %s }" % " ".join(m.decl(r) for m in self.members)

    def define(self, r=None):
        return "%s %s %s;\n" % (self.key, self.tag, self.body(r))


class Mem:
    """member: bits None or width; name None = anonymous aggregate or unnamed bit-field; inl = type defined in place"""

    def __init__(self, name, ty, bits=None, alignas=None, inl=False):
        self.name, self.ty, self.bits, self.alignas, self.inl = name, ty, bits, alignas, inl

    def decl(self, r=None):
        a = "_Alignas(%s) " % self.alignas if self.alignas else ""
        if self.bits is not None:
            return "%s : %d;" % (a + self.ty.decl(self.name or "", r), self.bits)
        if self.inl:
            t, dims = self.ty, ""
            while t.kind == "arr":
                dims += "[%d]" % t.n
                t = t.el
            tag = "" if t.tag.startswith("_") else t.tag + " "
            return "%s%s %s%s %s%s;" % (a, t.key, tag, t.body(r), self.name or "", dims)
        return a + self.ty.decl(self.name, r) + ";"


class Gen:
    def __init__(self, r, prefix, bitfields=True, floats=True, ldouble=True, alignas=True, unions=True, ptrs=True, enums=True, arrays=True,
                 anon=True, maxm=7, odd_bits=True):
        self.r, self.prefix, self.n = r, prefix, 0
        self.defs = []       # definitions text in order
        self.o = dict(bitfields=bitfields, floats=floats, ldouble=ldouble, alignas=alignas, unions=unions, ptrs=ptrs, enums=enums, arrays=arrays, anon=anon)
        self.maxm = maxm
        self.odd_bits = odd_bits
        self.tags = set()

    def uid(self, k):
        self.n += 1
        return "%s%s%d" % (k, self.prefix, self.n)

    def scalar(self):
        r = self.r
        k = r.random()
        if k < 0.72:
            return Sc(r.choice(TYPES).name)
        if k < 0.86 and self.o["floats"]:
            return Sc(r.choice(FLT if self.o["ldouble"] else FLT[:2]))
        if k < 0.95 and self.o["ptrs"]:
            return Ptr(r.choice(["char", "int", "void", "fn", "double"]))
        if self.o["enums"]:
            return self.enum()
        return Sc("int")

    def enum(self):
        t = self.uid("e")
        r = self.r
        vals = [r.choice([0, 1, 2, 5, 100, 65536, 2147483647]) for _ in range(r.randrange(1, 4))]
        if r.random() < 0.4:
            vals.append(-r.choice([1, 2, 2147483648]))
        self.defs.append("enum %s { %s };\n" % (t, ", ".join("%s_%d = %d" % (t, i, v) if v != -2147483648 else "%s_%d = -2147483647 - 1" % (t, i) for i, v in enumerate(vals))))
        return Enum(t, vals)

    def any(self, depth):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.62:
            return self.scalar()
        if k < 0.8 and self.o["arrays"]:
            return Arr(self.any(depth - 1), r.choice([1, 2, 2, 3, 3, 4, 5, 7]))
        return self.su(depth - 1)

    def bitmem(self):
        r = self.r
        self.tags.add("bitfield")
        t = r.choice(TYPES)
        mx = 1 if t is BOOL else t.size * 8
        k = r.random()
        w = r.choice([1, 2, 3, 5, 7, 8, mx - 1, mx, r.randrange(1, mx + 1), r.randrange(1, mx + 1)])
        w = max(1, min(mx, w))
        if k < 0.2:
            return Mem(None, Sc(t.name), w)
        return Mem(self.uid("b"), Sc(t.name), w)

    def bitmems(self):
        # a zero-width bit-field is only followed by a member of its own type (the other cases are KF-C05-2)
        if self.r.random() < 0.1:
            t = self.r.choice(TYPES)
            return [Mem(None, Sc(t.name), 0), Mem(self.uid("m"), Sc(t.name))]
        return [self.bitmem()]

    def su(self, depth, union=None, inline=False):
        r = self.r
        if union is None:
            union = self.o["unions"] and r.random() < 0.22
        tag = self.uid("u" if union else "s")
        ms = []
        nm = r.randrange(1, self.maxm + 1)
        bitty = self.o["bitfields"] and r.random() < 0.4
        for _ in range(nm):
            k = r.random()
            if bitty and k < 0.6:
                ms += self.bitmems()
            elif self.o["anon"] and depth > 0 and k < 0.12 and k < 0.12:
                sub = self.su(depth - 1, inline=True)
                sub.tag = "_" + sub.tag
                ms.append(Mem(None, sub, inl=True))
                self.tags.add("anonymous")
            elif depth > 0 and k < 0.2:
                sub = self.su(depth - 1, inline=True)
                if r.random() < 0.5:
                    sub.tag = "_" + sub.tag
                t = sub
                if r.random() < 0.3:
                    t = Arr(sub, r.randrange(1, 4))
                ms.append(Mem(self.uid("m"), t, inl=True))
            else:
                t = self.any(depth)
                al = None
                b = t
                while b.kind == "arr":
                    b = b.el
                if self.o["alignas"] and r.random() < 0.08 and b.kind == "sc":
                    al = r.choice((["8"] if b.name != "long double" else []) + ["16", "16", "32", "64", "256", "long double"])
                    self.tags.add("alignas")
                ms.append(Mem(self.uid("m"), t, alignas=al))
        if not any(m.name or m.ty.kind == "su" for m in ms):
            ms.append(Mem(self.uid("m"), Sc(r.choice(TYPES).name)))
        if union and ms[0].name is None and ms[0].bits is not None:
            ms.insert(0, Mem(self.uid("m"), Sc("int")))
        s = Su(union, tag, ms)
        if union:
            self.tags.add("union")
        if not inline:
            self.defs.append(s.define(r))
        return s

    def text(self):
        return "".join(self.defs)


class Leaf:
    __slots__ = ("path", "ty", "bits", "inunion")

    def __init__(self, path, ty, bits, inunion):
        self.path, self.ty, self.bits, self.inunion = path, ty, bits, inunion


def leaves(ty, path, inunion=False, first_only=False):
    """all scalar leaves; first_only: only the first named member of unions"""
    if ty.kind in ("sc", "ptr", "enum"):
        return [Leaf(path, ty, None, inunion)]
    out = []
    if ty.kind == "arr":
        for i in range(ty.n or 0):
            out += leaves(ty.el, "%s[%d]" % (path, i), inunion, first_only)
        return out
    for m in ty.members:
        if m.bits is not None:
            if m.name:
                out.append(Leaf("%s.%s" % (path, m.name), m.ty, m.bits, inunion or ty.union))
                if ty.union and first_only:
                    break
            continue
        p = path if m.name is None else "%s.%s" % (path, m.name)
        out += leaves(m.ty, p, inunion or ty.union, first_only)
        if ty.union and first_only:
            break
    return out


def member_paths(ty, path, depth=6):
    """addressable sub-object paths with their types"""
    out = []
    if depth <= 0:
        return out
    if ty.kind == "arr":
        for i in sorted({0, (ty.n or 1) - 1}):
            out.append(("%s[%d]" % (path, i), ty.el))
            out += member_paths(ty.el, "%s[%d]" % (path, i), depth - 1)
    elif ty.kind == "su":
        for m in ty.members:
            if m.bits is not None:
                continue
            if m.name is None:
                out += member_paths(m.ty, path, depth - 1)
            else:
                out.append(("%s.%s" % (path, m.name), m.ty))
                out += member_paths(m.ty, "%s.%s" % (path, m.name), depth - 1)
    return out


FVALS = ["0.0", "1.0", "-1.0", "0.5", "-2.25", "1024.0", "3.0e10", "-0.125", "65535.0"]


def value(r, leaf, const=False):
    """(expression text, python value or None) assignable to the leaf"""
    ty, bits = leaf.ty, leaf.bits
    if ty.kind == "ptr":
        return r.choice(["0", "(void *) 0"]) if const or ty.base == "fn" else "(void *) %dul" % r.getrandbits(40)
    if ty.kind == "enum":
        return str(r.choice([v for v in ty.consts if v != -2147483648] or [0]))
    if ty.it is None:
        return r.choice(FVALS) + {"float": "f", "double": "", "long double": "L"}[ty.name]
    t = ty.it
    if bits is not None and t is not BOOL:
        v = r.getrandbits(bits)
        if t.signed and v >> (bits - 1):
            v -= 1 << bits
        return lit_t(r, v, t)
    return lit_t(r, rval(r, t), t)


def observe(leaf, i, lv=None):
    p = lv or leaf.path
    ty = leaf.ty
    if ty.kind == "ptr":
        return "T(%d, (unsigned long) %s);" % (i, p)
    if ty.kind == "enum" or ty.it is not None:
        return "T(%d, (unsigned long long) %s);" % (i, p)
    return {"float": "TF", "double": "TD", "long double": "TL"}[ty.name] + "(%d, %s);" % (i, p)
