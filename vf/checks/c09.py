"""C09: initialised objects hold exactly the prescribed contents."""
from vf.core import *
from vf.tygen import *

PRE9 = """static int ga9[8]; static char gc9[16]; static struct { int a; struct { char b[4]; long c; } s; } gs9; static int gf9(int x) { return x + 1; }
static int gf9b(int x) { return x - 1; } enum { EN0, EN1, EN2, EN3 = 3 };
static void fill9(void *p, unsigned long n, int v) { unsigned char *q = p; while (n) q[--n] = (unsigned char) v; }
static void dirty9(void) { unsigned char b[3000]; fill9(b, sizeof b, 0xa5); }
static long strdiff9(const char *a, const char *b) { long n = 0; while (a[n] && a[n] == b[n]) n++; return a[n] - b[n]; }
"""
ADDRS = {
    "int": ["&ga9[2]", "ga9 + 3", "&ga9[EN1]", "ga9", "&gs9.a", "(int *) 0", "0", "(int *) &gc9[4]", "1 + ga9"],
    "char": ["&gc9[5]", "gc9 + 1", "gc9", "0", "(char *) &ga9[1]", "&gs9.s.b[1]", '"lit"', '"a" "bc"'],
    "void": ["ga9", "&ga9[7]", "gc9 + 2", "(void *) 0", "&gs9", "&gs9.s.c", "0"],
    "double": ["(double *) 0", "0", "(void *) 0"],
    "fn": ["gf9", "&gf9b", "0"],
}


class IG:
    def __init__(self, r, const):
        self.r, self.const = r, const
        self.active = {}     # union path -> member index
        self.ptr = {}        # leaf path -> expression last stored (pointers)
        self.tags = set()
        self.seen = set()    # generator paths of initialised leaves
        self.strs = set()    # generator paths of arrays initialised by a string literal

    def overrides(self, ty, path):
        """does a designator for path replace something static data cannot replace (KF-C09-1, KF-C09-2)"""
        if any(path.startswith(q) for q in self.strs):
            return True
        return ty.kind not in ("sc", "ptr", "enum") and any(q.startswith(path) for q in self.seen | self.strs)

    def act(self, ty, path):
        if path not in self.active:
            named = [i for i, m in enumerate(ty.members) if m.name or m.ty.kind == "su"]
            self.active[path] = named[0] if self.r.random() < 0.5 else self.r.choice(named)
        return self.active[path]

    def scalar(self, ty, path, bits):
        r = self.r
        self.seen.add(path)
        if ty.kind == "ptr":
            e = r.choice(ADDRS[ty.base])
            self.ptr[path] = e
            return e
        if ty.kind == "enum":
            return str(r.choice([v for v in ty.consts if v != -2147483648] or [0]))
        lf = Leaf(path, ty, bits, False)
        k = r.random()
        if ty.it is None:
            if k < 0.6:
                e = value(r, lf)
            elif k < 0.8:
                e = r.choice(["3", "-7", "'a'", "1u", "sizeof(int)", "0", "EN2"])
            else:
                e = r.choice(FVALS) + r.choice(["", "f", "L"])
        elif k < 0.75:
            e = value(r, lf)
        elif k < 0.85 and bits is None and ty.it is not BOOL and ty.it.size >= 4:
            e = r.choice(["3.7", "100.0f", "-0.0", "2.5L", "7.99"])
        else:
            e = r.choice(["EN1", "'x'", "1 + 2", "EN3 - 4" if ty.it.signed and (bits or 8) > 3 else "EN1", "sizeof(char)", "1"]) if (bits or 8) > 7 and ty.it is not BOOL else "1"
        if not self.const and r.random() < 0.3 and ty.kind == "sc":
            if ty.it is None:
                fn = {"float": "F", "double": "D", "long double": "L"}[ty.name]
                e = "%s(%s)" % (fn, e)
            else:
                e = "(%s) %s(%s)" % (ty.name, "I" if ty.it.signed else "U", e)
        return e

    def string(self, ty, path, fit=True):
        """string literal for a character array, or None"""
        if ty.kind != "arr" or ty.el.kind != "sc":
            return None
        pf = {"char": ("", 1), "signed char": ("", 1), "unsigned char": ("u8", 1), "int": ("L", 4), "unsigned short": ("u", 2), "unsigned int": ("U", 4)}.get(ty.el.name)
        if pf is None:
            return None
        r = self.r
        self.strs.add(path)
        p = pf[0]
        if p == "u8":
            p = r.choice(["", "u8"])
        n = r.randrange(0, 7) if ty.n is None else r.randrange(0, ty.n + 1)
        s = "".join(r.choice(["a", "Z", "0", " ", "\\n", "\\0", "\\x41", "\\101", "\\\\", "\\\"", "?"]) for _ in range(n))
        s = s.replace("\\x41", '\\x41" "' if False else "\\101")
        self.tags.add("string" + (":" + p if p else ""))
        if n >= 2 and r.random() < 0.2:
            s = "a%s\" %s\"%s" % ("", "", "b" * (n - 1))
        if ty.n is None:
            self.slen = None
        return '%s"%s"' % (p, s)

    def init(self, ty, path, bits=None, depth=0):
        """initialiser for an object of type ty (braced when an aggregate)"""
        r = self.r
        if ty.kind in ("sc", "ptr", "enum"):
            e = self.scalar(ty, path, bits)
            return "{%s}" % e if r.random() < 0.05 else e
        s = self.string(ty, path) if r.random() < 0.35 else None
        if s:
            return s if r.random() < 0.8 else "{ %s }" % s
        return "{ %s }" % self.items(ty, path, depth)

    def flat(self, ty, path, bits=None):
        """all leaf initialisers in order (brace elision); None when not expressible"""
        if ty.kind in ("sc", "ptr", "enum"):
            return [self.scalar(ty, path, bits)]
        if ty.kind == "arr":
            s = self.string(ty, path) if self.r.random() < 0.25 else None
            if s:
                return [s]
            out = []
            for i in range(ty.n):
                out += self.flat(ty.el, "%s[%d]" % (path, i))
            return out
        if ty.union:
            self.active[path] = next(i for i, m in enumerate(ty.members) if m.name or m.ty.kind == "su")
            m = ty.members[self.active[path]]
            return self.flat(m.ty, self.mpath(path, m), m.bits)
        out = []
        for m in ty.members:
            if m.name is None and m.bits is not None:
                continue
            out += self.flat(m.ty, self.mpath(path, m), m.bits)
        return out

    def mpath(self, path, m):
        return "%s.%s" % (path, m.name) if m.name else path + ".<%d>" % id(m)

    def chain(self, ty, path, k):
        """extend a designator below ty -> (text, type, path, bits)"""
        r = self.r
        txt, bits = "", None
        while k > 0:
            k -= 1
            if ty.kind == "arr":
                i = r.randrange(ty.n)
                txt += "[%s]" % r.choice([str(i), str(i), "%d + 0" % i, "EN%d" % i if i < 4 else str(i)])
                path = "%s[%d]" % (path, i)
                ty = ty.el
            elif ty.kind == "su":
                c = [m for m in ty.members if m.name or m.bits is None]
                if ty.union:
                    c = [ty.members[self.act(ty, path)]]
                m = r.choice(c)
                path = self.mpath(path, m)
                if m.name is None:
                    ty = m.ty
                    k += 1
                    continue
                txt += "." + m.name
                ty, bits = m.ty, m.bits
            else:
                break
        return txt, ty, path, bits

    def items(self, ty, path, depth):
        r = self.r
        out = []
        if ty.kind == "arr":
            slots = [(None, ty.el, "%s[%d]" % (path, i), None) for i in range(ty.n)]
        elif ty.union:
            i = self.act(ty, path)
            m = ty.members[i]
            first = next(j for j, x in enumerate(ty.members) if x.name or x.ty.kind == "su")
            p = self.mpath(path, m)
            if m.name is None:
                # anonymous aggregate: only reachable by position or by its members' names
                if i == first and r.random() < 0.5:
                    return self.init(m.ty, p, m.bits, depth + 1)
                d, t, p2, b = self.chain(ty, path, 1)
                if d and not (self.const and self.overrides(t, p2)):
                    return "%s = %s" % (d, self.init(t, p2, b, depth + 1))
                self.active[path] = first
                m = ty.members[first]
                return self.init(m.ty, self.mpath(path, m), m.bits, depth + 1)
            if i == first and r.random() < 0.6:
                return self.init(m.ty, p, m.bits, depth + 1)
            return ".%s = %s" % (m.name, self.init(m.ty, p, m.bits, depth + 1))
        else:
            slots = [(m, m.ty, self.mpath(path, m), m.bits) for m in ty.members if m.name or m.bits is None]
        cur, must = 0, False
        target = r.choice([len(slots), len(slots), r.randrange(1, len(slots) + 1)])
        cnt = 0
        while cnt < target + 1:
            cnt += 1
            if must or cur >= len(slots) or r.random() < 0.25:
                if cnt > 1 and (cur >= len(slots) or must) and r.random() < 0.5:
                    break
                self.tags.add("designated")
                k = r.choice([1, 1, 1, 2, 3])
                d, t, p, b = self.chain(ty, path, k)
                if not d or (self.const and self.overrides(t, p)):
                    break
                deep = d.count(".") + d.count("[") > 1
                if deep:
                    self.tags.add("nested_designator")
                out.append("%s = %s" % (d, self.init(t, p, b, depth + 1)))
                idx = [j for j, s in enumerate(slots) if p == s[2]]
                if idx:
                    cur, must = idx[0] + 1, False
                else:
                    must = True
                continue
            m, t, p, b = slots[cur]
            if (self.const or (m is not None and m.name is None)) and self.overrides(t, p):
                break
            if t.kind in ("arr", "su") and r.random() < 0.3:
                fl = self.flat(t, p)
                self.tags.add("brace_elision")
                if cur == len(slots) - 1 and len(fl) > 1 and r.random() < 0.3:
                    fl = fl[:r.randrange(1, len(fl))]
                    out += fl
                    self.cut = True
                    # leaves after the cut are zero; pointer expectations below this path are re-derived from the object itself
                    for q in [q for q in self.ptr if q.startswith(p)]:
                        self.ptr[q] = None
                    return ", ".join(out)
                out += fl
            else:
                out.append(self.init(t, p, b, depth + 1))
            cur += 1
        if not out:
            d, t, p, b = self.chain(ty, path, 1)
            out.append("%s = %s" % (d, self.init(t, p, b, depth + 1))) if d else out.append("0")
        return ", ".join(out) + ("," if r.random() < 0.15 else "")


def reals(ty, path, gpath, ig):
    """leaves under the active union members: (leaf, generator path)"""
    if ty.kind in ("sc", "ptr", "enum"):
        return [(Leaf(path, ty, None, False), gpath)]
    out = []
    if ty.kind == "arr":
        for i in range(ty.n):
            out += reals(ty.el, "%s[%d]" % (path, i), "%s[%d]" % (gpath, i), ig)
        return out
    ms = ty.members
    if ty.union:
        i = ig.active.get(gpath)
        if i is None:
            i = next(j for j, m in enumerate(ms) if m.name or m.ty.kind == "su")
        ms = [ms[i]]
    for m in ms:
        g = ig.mpath(gpath, m)
        if m.bits is not None:
            if m.name:
                out.append((Leaf("%s.%s" % (path, m.name), m.ty, m.bits, False), g))
            continue
        out += reals(m.ty, path if m.name is None else "%s.%s" % (path, m.name), g, ig)
    return out


def observe_all(ty, lv, ig, nxt):
    b = ""
    for l, g in reals(ty, lv, "x", ig):
        if l.ty.kind == "ptr":
            e = ig.ptr.get(g)
            if g in ig.ptr and e is None:
                # an elided tail: only nullness or a known target is comparable
                b += "T(%d, (unsigned long long) (%s == 0));\n" % (nxt(), l.path)
            elif e is None:
                b += "T(%d, (unsigned long long) (%s == 0));\n" % (nxt(), l.path)
            elif '"' in e:
                b += "TS(%d, %s ? %s : \"<null>\");\n" % (nxt(), l.path, l.path)
            else:
                b += "T(%d, (unsigned long long) (%s == (%s)));\n" % (nxt(), l.path, e)
        else:
            b += observe(l, nxt()) + "\n"
    return b


def wide_bits(ty):
    """a bit-field run that may extend over more than 64 bits (KF-C09-3)"""
    if ty.kind == "arr":
        return wide_bits(ty.el)
    if ty.kind != "su":
        return False
    run = 0
    for m in ty.members:
        if m.bits is None:
            run = 0
            if wide_bits(m.ty):
                return True
        else:
            run = (0 if ty.union else run) + m.bits
            if run > 24 or (m.ty.it is not None and m.ty.it.size > 4):
                return True
    return False


def gen_one(r, u):
    while 1:
        it = gen_try(r, u)
        if it:
            return it


def gen_try(r, u):
    g = Gen(r, "%d_" % u, alignas=r.random() < 0.2)
    g.maxm = r.choice([2, 3, 4, 6])
    ctx = r.choice(["file", "static", "auto", "auto", "auto", "compound", "compound_arg", "tls", "loop", "copy", "fcompound", "const"])
    t = g.any(2) if r.random() < 0.25 else (g.su(2) if r.random() < 0.7 else Arr(g.any(1), r.choice([1, 2, 3, 4, 5])))
    if t.kind not in ("arr", "su"):
        t = Arr(t, r.randrange(1, 5))
    const = ctx in ("file", "static", "tls", "fcompound", "const")
    if const and wide_bits(t):
        return None
    if ctx == "compound_arg" and "alignas" in g.tags:
        return None  # KF-C07-2
    ig = IG(r, const)
    unsized = t.kind == "arr" and r.random() < 0.4 and ctx != "copy"
    cnt = [0]

    def nxt():
        cnt[0] += 1
        return cnt[0]
    it = ig.init(t, "x")
    if it[0] != "{" and it.lstrip("uUL8")[:1] != '"':
        it = "{ %s }" % it
    decls = g.text()
    td = t.decl
    tname = t.decl("")
    body = ""
    n = "x%d" % u
    ob = lambda lv: observe_all(t, lv, ig, nxt)
    dt = Arr(t.el, None) if unsized else t
    tags = {ctx} | ig.tags | g.tags | ({"unsized"} if unsized else set())
    if unsized:
        # only the elements that exist are observed, through a bounds test
        def ob(lv):
            b = "T(%d, sizeof %s / sizeof %s[0]);\n" % (nxt(), lv, lv)
            for i in range(t.n):
                sub = ""
                for l, gp in reals(t.el, "%s[%d]" % (lv, i), "x[%d]" % i, ig):
                    if l.ty.kind == "ptr":
                        e = ig.ptr.get(gp)
                        if e is None:
                            sub += "T(%d, (unsigned long long) (%s == 0));\n" % (nxt(), l.path)
                        elif '"' in e:
                            sub += "TS(%d, %s ? %s : \"<null>\");\n" % (nxt(), l.path, l.path)
                        else:
                            sub += "T(%d, (unsigned long long) (%s == (%s)));\n" % (nxt(), l.path, e)
                    else:
                        sub += observe(l, nxt()) + "\n"
                b += "if (sizeof %s / sizeof %s[0] > %d) {\n%s}\n" % (lv, lv, i, sub)
            return b
    canary = "unsigned char c1[16] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};\n"
    canary2 = "unsigned char c2[16] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};\n"
    chkc = "TB(%d, c1, 16); TB(%d, c2, 16);\n"
    if ctx in ("file", "tls", "const"):
        q = {"file": r.choice(["", "static "]), "tls": r.choice(["static _Thread_local ", "_Thread_local "]), "const": "static const "}[ctx]
        decls += "%s%s = %s;\n" % (q, dt.decl(n), it)
        body += ob(n)
    elif ctx == "static":
        body += "static %s = %s;\n" % (dt.decl(n), it) + ob(n)
    elif ctx == "auto":
        body += "dirty9();\n{\n%s%s = %s;\n%s%s%s}\n" % (canary, dt.decl(n), it, canary2, ob(n), chkc % (nxt(), nxt()))
    elif ctx == "loop":
        body += "int k; for (k = 0; k < 2; k++) {\n%s%s = %s;\n%s%sfill9(&%s, sizeof %s, 0x5a);\n%s}\n" % (canary, dt.decl(n), it, canary2, ob(n), n, n, chkc % (nxt(), nxt()))
    elif ctx == "copy":
        body += "dirty9();\n{ %s = %s;\n" % (t.decl(n), it)
        if t.kind == "su":
            body += "%s = %s;\nfill9(&%s, sizeof %s, 0x3c);\n%s" % (t.decl("y"), n, n, n, ob("y"))
            body += "{ %s[3] = { %s }; %s}\n" % (t.decl("z"), r.choice(["y, y", "[1] = y", "y, [2] = y"]), ob("z[0]") if False else "")
        else:
            body += ob(n)
        body += "}\n"
    elif ctx == "compound":
        ct = dt.decl("")
        if t.kind == "arr":
            if it[0] != "{":
                it = "{ %s }" % it
            body += "dirty9(); {\n%s = (%s) %s;\n" % (t.el.decl("*p") if t.el.kind != "arr" else t.el.decl("(*p)"), ct, it)
            body += "T(%d, sizeof((%s) %s));\n" % (nxt(), ct, it)
            lf = [(l, gp) for l, gp in reals(t, "p", "x", ig)]
            mx = "sizeof((%s) %s) / sizeof p[0]" % (ct, it)
            for i in range(t.n):
                sub = ""
                for l, gp in reals(t.el, "p[%d]" % i, "x[%d]" % i, ig):
                    if l.ty.kind == "ptr":
                        sub += "T(%d, (unsigned long long) (%s == 0));\n" % (nxt(), l.path)
                    else:
                        sub += observe(l, nxt()) + "\n"
                body += "if (%s > %d) {\n%s}\n" % (mx, i, sub) if unsized else sub
            body += "}\n"
        else:
            body += "dirty9(); {\n%s%s = &(%s) %s;\n%s" % (canary, t.decl("*p"), ct, it, canary2)
            body += ob("(*p)") + chkc % (nxt(), nxt()) + "}\n"
    elif ctx == "compound_arg":
        if t.kind == "su":
            decls += "static void arg%d(%s, %s) {\n%s%s}\n" % (u, t.decl("x"), t.decl("*q"), ob("x"), ob("(*q)"))
            body += "dirty9(); arg%d((%s) %s, &(%s) %s);\n" % (u, tname, it, tname, it)
        else:
            body += "dirty9(); { %s = %s;\n%s}\n" % (dt.decl(n), it, ob(n))
    elif ctx == "fcompound":
        if t.kind == "su":
            decls += "static %s = &(%s) %s;\n" % (t.decl("*" + n), tname, it)
            body += ob("(*%s)" % n)
        else:
            decls += "static %s = %s;\n" % (dt.decl(n), it)
            body += ob(n)
    return Item(decls, body, sorted(tags), PRE9)


def gen(r, n):
    return [gen_one(r, u) for u in range(n)]


def main():
    item_check("C09", gen, scale(700, 8000), 12, "one evaluation = one initialised object (type, storage, initialiser), every member read back; distinct by source text",
               assumptions=["union members other than the initialised one are not read", "initialisers on which gcc and clang disagree are discarded"], min_items=2000)
