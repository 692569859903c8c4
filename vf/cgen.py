"""C integer model and UB-free expression generation (values are tracked at generation time)."""
from vf.core import Item


class IT:
    def __init__(self, name, size, signed, rank, suffix=None):
        self.name, self.size, self.signed, self.rank, self.suffix = name, size, signed, rank, suffix
        if name == "_Bool":
            self.min, self.max = 0, 1
        else:
            b = size * 8
            self.min = -(1 << (b - 1)) if signed else 0
            self.max = (1 << (b - 1)) - 1 if signed else (1 << b) - 1

    def __repr__(self):
        return self.name

    def __reduce__(self):
        return (by_name, (self.name,))


def by_name(n):
    return next(t for t in TYPES if t.name == n)


BOOL = IT("_Bool", 1, False, 0)
CHAR = IT("char", 1, True, 1)
SCHAR = IT("signed char", 1, True, 1)
UCHAR = IT("unsigned char", 1, False, 1)
SHORT = IT("short", 2, True, 2)
USHORT = IT("unsigned short", 2, False, 2)
INT = IT("int", 4, True, 3, "")
UINT = IT("unsigned int", 4, False, 3, "u")
LONG = IT("long", 8, True, 4, "l")
ULONG = IT("unsigned long", 8, False, 4, "ul")
LLONG = IT("long long", 8, True, 5, "ll")
ULLONG = IT("unsigned long long", 8, False, 5, "ull")
TYPES = [BOOL, CHAR, SCHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, LLONG, ULLONG]
BIG = [INT, UINT, LONG, ULONG, LLONG, ULLONG]
SPELL = {
    "char": ["char"], "signed char": ["signed char", "char signed"], "unsigned char": ["unsigned char"],
    "short": ["short", "short int", "signed short", "int short signed"], "unsigned short": ["unsigned short", "short unsigned int"],
    "int": ["int", "signed", "signed int"], "unsigned int": ["unsigned", "unsigned int", "int unsigned"],
    "long": ["long", "long int", "signed long", "int long"], "unsigned long": ["unsigned long", "long unsigned int", "unsigned long int"],
    "long long": ["long long", "long long int", "signed long long", "long int long"],
    "unsigned long long": ["unsigned long long", "long unsigned long int", "unsigned long long int"], "_Bool": ["_Bool"]}


def conv(v, t):
    if t is BOOL:
        return 1 if v else 0
    b = t.size * 8
    v &= (1 << b) - 1
    if t.signed and v >> (b - 1):
        v -= 1 << b
    return v


def promote(t):
    return INT if t.rank < 3 else t


def usual(a, b):
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.rank > b.rank else b
    u, s = (a, b) if not a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    if s.size > u.size:
        return s
    return {LONG: ULONG, LLONG: ULLONG, INT: UINT}[s]


def boundary(t):
    if t is BOOL:
        return [0, 1]
    b = t.size * 8
    vs = {0, 1, 2, 3, 5, 7, 10, 100, t.max, t.max - 1, t.min, t.min + 1, t.max // 2, t.max // 3}
    if t.signed:
        vs |= {-1, -2, -3, -5, -7, -10, -100}
    for k in (7, 8, 15, 16, 31, 32, 63):
        if k < b:
            for d in (-1, 0, 1):
                vs.add(conv((1 << k) + d, t))
                if t.signed:
                    vs.add(conv(-(1 << k) + d, t))
    return sorted(v for v in vs if t.min <= v <= t.max)


_BND = {t.name: boundary(t) for t in TYPES}


def rval(r, t):
    k = r.random()
    if k < 0.45:
        return r.choice(_BND[t.name])
    if k < 0.7:
        return conv(r.randrange(-20, 21), t) if t.signed else conv(r.randrange(0, 40), t)
    if k < 0.85:
        return conv(r.getrandbits(64) >> r.randrange(64), t)
    return conv(r.getrandbits(64), t)


def lit(r, v, t):
    """literal expression of exactly type t and value v (t one of BIG): returns (text, prec)"""
    def mag(m):
        # choose a base; decimal without u may need a wider type -> the suffix pins it down
        k = r.random()
        if k < 0.5 or m > t.max:
            s = str(m)
        elif k < 0.8:
            s = ("0x%x" if r.random() < 0.5 else "0X%X") % m
        else:
            s = "0%o" % m
        sf = t.suffix
        if r.random() < 0.3:
            sf = sf.upper()
        if sf and sf[0] in "uU" and len(sf) > 1 and r.random() < 0.3:
            sf = sf[1:] + sf[0]
        return s + sf
    if v >= 0:
        s = mag(v)
        return s, 16
    if v == t.min:
        return "(-%s - 1)" % mag(-(v + 1)), 16
    return "-" + mag(-v), 14


def lit_t(r, v, t):
    """expression text of type t, value v for any integer type (fully parenthesised)"""
    if t in BIG:
        s, p = lit(r, v, t)
        return s if p == 16 else "(%s)" % s
    s, p = lit(r, v, INT)
    return "((%s)%s)" % (t.name, s if p >= 14 else "(%s)" % s)


class E:
    __slots__ = ("s", "p", "t", "v", "const")

    def __init__(self, s, p, t, v, const=False):
        self.s, self.p, self.t, self.v, self.const = s, p, t, v, const


PREC = {"*": 13, "/": 13, "%": 13, "+": 12, "-": 12, "<<": 11, ">>": 11, "<": 10, ">": 10, "<=": 10, ">=": 10, "==": 9, "!=": 9,
        "&": 8, "^": 7, "|": 6, "&&": 5, "||": 4}
ARITH = ["+", "-", "*", "/", "%", "&", "|", "^"]
SHIFT = ["<<", ">>"]
CMP = ["<", ">", "<=", ">=", "==", "!="]
LOGIC = ["&&", "||"]
BINOPS = ARITH + SHIFT + CMP + LOGIC


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binval(op, a, ta, b, tb):
    """-> (type, value) or None when undefined"""
    if op in LOGIC:
        return INT, int(bool(a) and bool(b)) if op == "&&" else int(bool(a) or bool(b))
    if op in SHIFT:
        t = promote(ta)
        b = conv(b, promote(tb))
        a = conv(a, t)
        if b < 0 or b >= t.size * 8:
            return None
        if op == "<<":
            if t.signed and (a < 0 or (a << b) > t.max):
                return None
            return t, conv(a << b, t)
        return t, a >> b
    t = usual(ta, tb)
    a, b = conv(a, t), conv(b, t)
    if op in CMP:
        return INT, int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op])
    if op in "/%":
        if b == 0:
            return None
        q = cdiv(a, b)
        if t.signed and not (t.min <= q <= t.max):
            return None
        v = q if op == "/" else a - q * b
    else:
        v = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op]
    if t.signed and not (t.min <= v <= t.max):
        return None
    return t, conv(v, t)


def par(r, e, minp, extra=0.15):
    if e.p < minp or r.random() < extra:
        return "(" + e.s + ")"
    return e.s


def join(op, a, b):
    sp = " "
    return a + sp + op + sp + b


class Env:
    """variables with known values; scratch variables may be modified at most once per full expression"""

    def __init__(self):
        self.vars = []      # (text, type, value)
        self.scratch = []   # (name, type, value) modifiable, one use per expression
        self.funcs = []     # (name, argtype, rettype): returns its argument converted
        self.used = set()


def gen_expr(r, env, depth, const=False):
    """UB-free integer expression."""
    if depth <= 0 or r.random() < 0.08:
        return leaf(r, env, const)
    k = r.random()
    if k < 0.62:
        a = gen_expr(r, env, depth - 1, const)
        b = gen_expr(r, env, depth - 1 - (r.random() < 0.3), const)
        op = r.choice(BINOPS) if r.random() < 0.8 else r.choice(ARITH)
        if op in SHIFT and r.random() < 0.7:
            w = promote(a.t).size * 8
            n = r.choice([0, 1, w - 1, w // 2, r.randrange(w)])
            b = E(str(n), 16, INT, n)
        if op in "/%" and b.v == 0:
            b = E("3", 16, INT, 3)
        rv = binval(op, a.v, a.t, b.v, b.t)
        if rv is None:
            op = r.choice(["&", "|", "^", "<", ">=", "==", "&&"])
            rv = binval(op, a.v, a.t, b.v, b.t)
        if op in LOGIC or True:
            p = PREC[op]
            return E(join(op, par(r, a, p), par(r, b, p + 1)), p, rv[0], rv[1])
    if k < 0.76:
        a = gen_expr(r, env, depth - 1, const)
        op = r.choice("-~!+")
        t = promote(a.t)
        av = conv(a.v, t)
        if op == "!":
            return E("!" + par(r, a, 14), 14, INT, int(not a.v))
        if op == "-" and t.signed and av == t.min:
            op = "~"
        v = {"-": -av, "~": ~av, "+": av}[op]
        inner = par(r, a, 14)
        if inner and inner[0] == op and op in "+-":
            inner = " " + inner
        return E(op + inner, 14, t, conv(v, t))
    if k < 0.86:
        a = gen_expr(r, env, depth - 1, const)
        t = r.choice(TYPES)
        return E("(%s) %s" % (r.choice(SPELL[t.name]), par(r, a, 14)), 14, t, conv(a.v, t))
    if k < 0.93:
        c = gen_expr(r, env, depth - 1, const)
        # the untaken branch is generated from leaves/const only, without side effects
        a = gen_expr(r, env, depth - 1, const)
        b = gen_expr(r, env, depth - 2, const)
        t = usual(a.t, b.t)
        v = conv(a.v if c.v else b.v, t)
        return E("%s ? %s : %s" % (par(r, c, 4), a.s, par(r, b, 3)), 3, t, v)
    if const:
        return E("sizeof(%s)" % r.choice(TYPES).name, 16, ULONG, None) if False else leaf(r, env, const)
    if k < 0.97 and env.funcs:
        a = gen_expr(r, env, depth - 1, const)
        f, at, rt = r.choice(env.funcs)
        return E("%s(%s)" % (f, par(r, a, 2, 0)), 16, rt, conv(conv(a.v, at), rt))
    a = gen_expr(r, env, depth - 2, const)
    b = gen_expr(r, env, depth - 1, const)
    return E("(%s, %s)" % (a.s, b.s), 16, b.t, b.v)


def leaf(r, env, const):
    hook = getattr(env, "hook", None)
    if hook:
        return hook(r)
    if not const and env.vars and r.random() < 0.7:
        s, t, v = r.choice(env.vars)
        return E(s, 15 if s[0] in "*" else 16, t, v) if s[0] != "*" else E(s, 14, t, v)
    if r.random() < 0.06:
        c = r.choice(["'a'", "'\\n'", "'\\0'", "'\\x7f'", "'\\377'", "'0'", "'\\''"])
        v = {"'a'": 97, "'\\n'": 10, "'\\0'": 0, "'\\x7f'": 127, "'\\377'": -1, "'0'": 48, "'\\''": 39}[c]
        return E(c, 16, INT, v)
    t = r.choice(BIG)
    v = rval(r, t)
    s, p = lit(r, v, t)
    return E(s, p, t, v)
