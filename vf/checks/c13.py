"""C13: macro expansion yields the token stream C17 prescribes."""
from vf.ppmon import *

IDS = ["x", "y1", "foo", "bar_", "_k", "int", "if", "return", "Z9", "sizeof", "e", "p1"]
NUMS = ["0", "1", "42", "0x1F", "3u", "10L", "1.5", "2e3", ".5", "0x1p3", "017", "1e-2f"]
PUN = ["+", "-", "*", "/", "%", "<", ">", "==", "!=", "<=", ">=", "&&", "||", "!", "~", "^", "|", "&", "<<", ">>", "=", "+=", "->", ".", "?", ":", ";", "[", "]",
       "{", "}", "++", "--", "...", "<<=", ">>=", "^="]
STRS = ['"s"', '"a b"', '"q\\"r"', '"\\\\"', '"n\\n"', '""', "'c'", "'\\n'", "'\\''", 'L"w"', '"(,)"', "'('", "','"]
PASTE_OPS = [("+", "+"), ("-", ">"), ("<", "<"), ("<<", "="), (">", ">="), ("=", "="), ("!", "="), ("&", "&"), ("|", "="), ("-", "-"), ("*", "="), ("/", "=")]


class Mac:
    def __init__(self, name, params, variadic, body, use, selfref=False):
        self.name, self.params, self.variadic, self.body, self.use = name, params, variadic, body, use

    @property
    def fn(self):
        return self.params is not None


class MG:
    def __init__(self, r, u):
        self.r, self.u = r, u
        self.macs = []
        self.tags = set()
        self.n = 0

    def name(self):
        self.n += 1
        return "%s%d_%s" % (self.r.choice(["M", "f", "mac", "E", "L", "u8", "__x"]), self.u, "abcdefghijklmnopqrstuvwxyz"[self.n % 26] + str(self.n))

    def ws(self):
        r = self.r
        return r.choice(["", " ", " ", " ", "/**/", " /* c */ ", "\t"])

    def tok(self, call=True, depth=0):
        """one token or macro use from the text level (balanced, no comma)"""
        r = self.r
        k = r.random()
        if k < 0.28:
            return r.choice(IDS)
        if k < 0.42:
            return r.choice(NUMS)
        if k < 0.58:
            return r.choice(PUN)
        if k < 0.68:
            return r.choice(STRS)
        if k < 0.74 and depth < 3:
            return "(%s)" % self.run(r.randrange(0, 4), depth + 1, comma=True)
        if self.macs and depth < 4:
            m = r.choice(self.macs)
            if not m.fn:
                return m.name
            if r.random() < 0.12:
                self.tags.add("fn_without_parens")
                return m.name + r.choice([" ;", " +", " x"])
            return self.invoke(m, depth + 1)
        return r.choice(IDS)

    def run(self, n, depth=0, comma=False):
        r = self.r
        out = []
        for i in range(n):
            out.append(self.tok(True, depth))
            if comma and r.random() < 0.2 and i < n - 1:
                out.append(",")
        return " ".join(out)

    def invoke(self, m, depth=0):
        r = self.r
        args = []
        for p in m.params:
            args.append(self.arg(m.use.get(p, set()), depth))
        if m.variadic:
            k = r.choice([1, 1, 2, 3])
            u = m.use.get("__VA_ARGS__", set())
            for i in range(k):
                a = self.arg(u if i in (0, k - 1) else u - {"paste"} | ({"str"} if u & {"str", "paste"} else set()), depth)
                # an empty first or last variable argument next to ## meets a GNU extension of the references
                args.append(a or "v" if "paste" in u and k > 1 else a)
            self.tags.add("variadic")
        strs = any("str" in u for u in m.use.values())
        sep = r.choice([",", ", "]) if strs else r.choice([",", ", ", " , "])
        s = m.name + ("" if r.random() < 0.8 else " ")
        if r.random() < 0.1 and depth < 2 and not self.inarg:
            s += r.choice(["\n", " /* x\n y */ "])
            self.tags.add("call_across_lines")
        return s + "(" + sep.join(args) + ")"

    inarg = False

    def arg(self, use, depth):
        r = self.r
        if "paste" in use:
            a = r.choice(["", "a", "b2", "x", "_", "b"] + ([] if "pastehead" in use else ["7", "12", "0"]))
            if a == "":
                self.tags.add("empty_arg")
            return a
        k = r.random()
        if k < 0.12:
            self.tags.add("empty_arg")
            return ""
        if "str" in use:
            # spelling-sensitive: plain spellings, single spaces (see KF-C13-1, KF-C13-2)
            n = r.randrange(1, 4)
            out = []
            for _ in range(n):
                j = r.random()
                out.append(r.choice(IDS) if j < 0.35 else r.choice(NUMS) if j < 0.5 else r.choice([p for p in PUN]) if j < 0.7 else
                           r.choice(['"s"', '"a b"', '"q\\"r"', '"\\\\"', '"n\\n"', '""', "'c'", "'\\n'", "' '", '"%d"', "','"]) if j < 0.85 else
                           "(%s, %s)" % (r.choice(IDS), r.choice(NUMS)) if j < 0.93 else "x" + r.choice("yz0"))
            return r.choice([" ", " ", ""]).join(out) if n == 1 else " ".join(out)
        if self.macs and r.random() < 0.35:
            m = r.choice(self.macs)
            if m.fn and r.random() < 0.25:
                self.tags.add("macro_name_arg")
                return m.name
            old = self.inarg
            s = self.invoke(m, depth + 1) if m.fn and depth < 4 else (m.name if not m.fn else "k")
            return s
        return self.run(r.randrange(1, 4), depth + 1)

    def body(self, params, variadic, name):
        r = self.r
        use = {}
        out = []
        ps = list(params or []) + (["__VA_ARGS__"] if variadic else [])
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7])
        paren = 0
        for _ in range(n):
            k = r.random()
            if ps and k < 0.35:
                p = r.choice(ps)
                use.setdefault(p, set()).add("plain")
                out.append(p)
            elif ps and k < 0.47:
                p = r.choice(ps)
                use.setdefault(p, set()).add("str")
                out.append(r.choice(["#", "#", "# ", "%:"]) + p)
                self.tags.add("stringify")
            elif k < 0.60:
                self.tags.add("paste")
                j = r.random()
                if params is not None and ps and j < 0.7:
                    n2 = r.choice([2, 2, 3])
                    parts = []
                    for i in range(n2):
                        if r.random() < 0.6:
                            p = r.choice(ps)
                            use.setdefault(p, set()).add("paste")
                            parts.append(p)
                        else:
                            parts.append(r.choice(["aa", "_t", "q9", "zz"]))
                    if parts[0] in ps and r.random() < 0.5:
                        parts[0] = r.choice(["id", "_"])
                    for q in parts:
                        if q not in ps:
                            break
                        use[q].add("pastehead")
                    sep = r.choice(["##", " ## ", " ##", "## ", "%:%:"])
                    out.append(sep.join(parts))
                elif j < 0.85:
                    a, b = r.choice(PASTE_OPS)
                    out.append("%s ## %s" % (a, b))
                else:
                    out.append("%s##%s" % (r.choice(["aa", "bb_"]), r.choice(["1", "c", "2x"])))
            elif self.macs and k < 0.78:
                m = r.choice(self.macs)
                if m.fn and r.random() < 0.8:
                    out.append(m.name + "(" + ",".join(self.barg(m, i, ps, use) for i in range(len(m.params) + (r.choice([1, 2]) if m.variadic else 0))) + ")")
                    self.tags.add("nested_call")
                else:
                    out.append(m.name)
                    if m.fn:
                        self.tags.add("trailing_fn_name")
            elif k < 0.83:
                # self reference: never expanded again
                self.tags.add("self_reference")
                if params is None:
                    out.append(name)
                else:
                    out.append(name + "(" + ",".join(r.choice(["1", "x"]) for _ in range(max(len(params), 1) + (1 if variadic else 0))) + ")")
            else:
                out.append(r.choice([r.choice(IDS), r.choice(NUMS), r.choice(PUN), r.choice(STRS), "(", ","]))
                if out[-1] == "(":
                    paren += 1
        out += [")"] * paren
        return out, use

    def barg(self, m, i, ps, use):
        r = self.r
        p = m.params[i] if i < len(m.params) else "__VA_ARGS__"
        u = m.use.get(p, set())
        if "paste" in u:
            return r.choice(["a", "", "b3"] + ([] if "pastehead" in u else ["1"]))
        if ps and r.random() < 0.6:
            q = r.choice(ps)
            use.setdefault(q, set()).add("str" if "str" in u else "plain")
            return q
        return r.choice(IDS) if r.random() < 0.7 else r.choice(NUMS)

    def define(self):
        r = self.r
        nm = self.name()
        if r.random() < 0.35:
            params, variadic = None, False
        else:
            params = ["a", "b", "x_", "q"][:r.choice([0, 1, 1, 2, 2, 3])]
            variadic = r.random() < 0.25
            if r.random() < 0.15:
                params = [p + "_p" for p in params]
        b, use = self.body(params, variadic, nm)
        if params is None:
            b = [t.replace("#", "", 1) if t.startswith("#") else t for t in b]
        s = "#define " + nm
        if params is not None:
            s += "(" + r.choice([",", ", "]).join(params + (["..."] if variadic else [])) + ")"
        s += " " + r.choice([" ", " ", "  "]).join(b)
        if r.random() < 0.08:
            s = s.replace(" ", " \\\n ", 2)
            self.tags.add("spliced_define")
        m = Mac(nm, params, variadic, b, use)
        self.tags.add("object" if params is None else "function")
        self.macs.append(m)
        return s

    def group(self):
        r = self.r
        out = []
        for _ in range(r.choice([2, 3, 4, 5, 6])):
            out.append(self.define())
            if r.random() < 0.3:
                out.append(self.run(r.randrange(1, 5)))
            if r.random() < 0.06 and len(self.macs) > 1:
                m = r.choice(self.macs)
                out.append("#undef " + m.name)
                out.append(m.name + " " + r.choice(["x", "(1)", ""]))
                if r.random() < 0.6:
                    out.append("#define %s %s" % (m.name, r.choice(["redefined", "1+", "", "(x)"])))
                    m.params, m.variadic, m.use = None, False, {}
                else:
                    self.macs.remove(m)
                self.tags.add("undef")
            if r.random() < 0.05:
                out.append(r.choice(["#undef never_defined_%d" % self.u, "#", "# define", "#ifdef %s\nyes\n#else\nno\n#endif" % (self.macs[0].name if self.macs else "x")]) .replace("# define", "#"))
        for _ in range(r.choice([2, 3, 4, 6])):
            out.append(self.run(r.randrange(1, 6)))
        return Group("\n".join(out) + "\n", sorted(self.tags))


def gen(r, n):
    return [MG(r, u).group() for u in range(n)]


def main():
    ck = Check("C13")
    ck.rule = "one evaluation = one independent group of macro definitions and uses; its whole token stream is compared with gcc's and clang's; distinct by text"
    ck.assumptions = ["groups on which gcc and clang disagree, or that either rejects, are discarded", "stringified arguments use canonical spellings and single spaces (KF-C13-*)"]
    bdir = build("plain")
    run_pp(ck, bdir, gen, scale(900, 12000), 12)
    run_known_pp(ck, bdir)
    ck.finish(1000)
