"""An independent C17 tokenizer: source or preprocessed text -> comparable tokens; and the same normal form for kefir's token dumps."""
import json, re, struct
from fractions import Fraction

KEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return
short signed sizeof static struct switch typedef union unsigned void volatile while _Alignas _Alignof _Atomic _Bool _Complex _Generic _Imaginary
_Noreturn _Static_assert _Thread_local""".split())
PUNCT = sorted("""[ ] ( ) { } . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : ; ... = *= /= %= += -= <<= >>= &= ^= |= , # ##
<: :> <% %> %: %:%:""".split(), key=len, reverse=True)
DIGRAPH = {"<:": "[", ":>": "]", "<%": "{", "%>": "}", "%:": "#", "%:%:": "##"}
TOK = re.compile(r"""(?P<ws>[ \t\v\f\r\n]+)|(?P<str>(?:u8|u|U|L)?"(?:[^"\\\n]|\\.)*")|(?P<chr>(?:u|U|L)?'(?:[^'\\\n]|\\.)*')|(?P<id>(?:[A-Za-z_]|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{8}|[^\x00-\x7f])(?:[A-Za-z_0-9]|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{8}|[^\x00-\x7f])*)|(?P<num>\.?[0-9](?:[eEpP][+-]|[A-Za-z_0-9.])*)|(?P<p>%s)""" % "|".join(re.escape(x) for x in PUNCT))


class LexError(Exception):
    pass


def pp_tokens(text):
    """(kind, spelling, space_before) list"""
    out, i, sp = [], 0, False
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise LexError("stray %r at %d" % (text[i:i + 10], i))
        i = m.end()
        k = m.lastgroup
        if k == "ws":
            sp = True
            continue
        out.append((k, m.group(), sp))
        sp = False
    return out


SIMPLE = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "f": 12, "v": 11, "\\": 92, "'": 39, '"': 34, "?": 63}


def decode(body, width):
    """code units of an escaped body; width in bytes (1: UTF-8 units)"""
    out, i = [], 0

    def put(cp):
        if width == 1:
            out.extend(chr(cp).encode("utf-8"))
        elif width == 2 and cp > 0xffff:
            cp -= 0x10000
            out.extend([0xd800 + (cp >> 10), 0xdc00 + (cp & 0x3ff)])
        else:
            out.append(cp)
    while i < len(body):
        c = body[i]
        if c != "\\":
            put(ord(c))
            i += 1
            continue
        c = body[i + 1]
        if c in SIMPLE:
            out.append(SIMPLE[c])
            i += 2
        elif c == "x":
            m = re.match(r"[0-9a-fA-F]+", body[i + 2:])
            if not m:
                raise LexError("hex escape")
            v = int(m.group(), 16)
            if v >> (8 * width):
                raise LexError("escape range")
            out.append(v)
            i += 2 + m.end()
        elif c in "01234567":
            m = re.match(r"[0-7]{1,3}", body[i + 1:])
            v = int(m.group(), 8)
            if v >> (8 * width):
                raise LexError("escape range")
            out.append(v)
            i += 1 + m.end()
        elif c in "uU":
            n = 4 if c == "u" else 8
            put(int(body[i + 2:i + 2 + n], 16))
            i += 2 + n
        else:
            raise LexError("escape \\" + c)
    return out


def number(s):
    m = re.fullmatch(r"(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)([uUlL]*)", s)
    if m:
        d, sf = m.group(1), m.group(2).lower()
        if sf.replace("ll", "L") not in ("", "u", "l", "L", "ul", "uL", "lu", "Lu") or "lL" in m.group(2) or "Ll" in m.group(2):
            raise LexError("suffix " + s)
        dec = not d.startswith("0")
        v = int(d, 10) if dec else (int(d, 16) if d[1:2] in "xX" and len(d) > 1 else int(d, 8))
        u = "u" in sf
        l = sf.count("l")
        cand = []
        for name, rank, sg in (("int", 0, 1), ("unsigned", 0, 0), ("long", 1, 1), ("ulong", 1, 0), ("llong", 2, 1), ("ullong", 2, 0)):
            if rank < l or (u and sg) or (not u and not sg and dec):
                continue
            cand.append((name, (2 ** 31 if rank == 0 else 2 ** 63) * (1 if sg else 2) - 1))
        for name, mx in cand:
            if v <= mx:
                return ("int", name, v)
        raise LexError("too large " + s)
    m = re.fullmatch(r"((?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?|0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)[pP][+-]?[0-9]+)([fFlL]?)", s)
    if not m or re.fullmatch("[0-9]+", m.group(1)):
        raise LexError("number " + s)
    d = m.group(1).lower()
    if d.startswith("0x"):
        man, ex = d[2:].split("p")
        ip, _, fp = man.partition(".")
        v = Fraction(int((ip + fp) or "0", 16), 16 ** len(fp)) * Fraction(2) ** int(ex)
    else:
        man, _, ex = d.partition("e")
        ip, _, fp = man.partition(".")
        v = Fraction(int((ip + fp) or "0"), 10 ** len(fp)) * Fraction(10) ** int(ex or 0)
    k = {"": "double", "f": "float", "l": "ldouble"}[m.group(2).lower()]
    return ("flt", k, rnd(v, {"float": 24, "double": 53, "ldouble": 64}[k], {"float": 128, "double": 1024, "ldouble": 16384}[k]))


def rnd(v, p, emax):
    """v rounded to p bits, nearest even (no overflow expected)"""
    if v == 0:
        return v
    e = v.numerator.bit_length() - v.denominator.bit_length()
    if v < Fraction(2) ** e:
        e -= 1
    e = max(e, 2 - emax)
    q = v / Fraction(2) ** (e - p + 1)
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n * Fraction(2) ** (e - p + 1) >= Fraction(2) ** emax:
        raise LexError("overflow")
    return n * Fraction(2) ** (e - p + 1)


def hexfloat(s):
    m = re.fullmatch(r"(-?)0x([0-9a-f]+)(?:\.([0-9a-f]*))?p([+-]?\d+)", s)
    if not m:
        raise LexError("hexfloat " + s)
    fp = m.group(3) or ""
    v = Fraction(int(m.group(2) + fp, 16), 16 ** len(fp)) * Fraction(2) ** int(m.group(4))
    return -v if m.group(1) else v


WIDTH = {"": 1, "u8": 1, "u": 2, "U": 4, "L": 4}


def tokens(text):
    """normal form of preprocessed text: adjacent string literals are concatenated"""
    out = []
    for k, s, _ in pp_tokens(text):
        if k == "id":
            s = re.sub(r"\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})", lambda m: chr(int(m.group(1) or m.group(2), 16)), s)
            out.append(("kw" if s in KEYWORDS else "id", s))
        elif k == "num":
            out.append(number(s))
        elif k == "chr":
            pf = s[:s.index("'")]
            u = decode(s[len(pf) + 1:-1], WIDTH[pf])
            if not u:
                raise LexError("empty char")
            if pf == "":
                v = 0
                for c in u:
                    v = (v << 8 | c) & 0xffffffff
                if len(u) == 1 and v > 127:
                    v -= 256
                elif v >> 31:
                    v -= 1 << 32
            else:
                v = u[-1]
            out.append(("chr", pf, v))
        elif k == "str":
            pf = s[:s.index('"')]
            body = s[len(pf) + 1:-1]
            if out and out[-1][0] == "raw":
                opf, parts = out[-1][1], out[-1][2]
                if opf and pf and opf != pf:
                    raise LexError("mixed prefixes")
                out[-1] = ("raw", opf or pf, parts + [body])
            else:
                out.append(("raw", pf, [body]))
        else:
            out.append(("p", DIGRAPH.get(s, s)))
    for i, t in enumerate(out):
        if t[0] == "raw":
            u = []
            for b in t[2]:
                u += decode(b, WIDTH[t[1]])
            out[i] = ("str", t[1], tuple(u))
    return out


ITYPE = {"integer": "int", "unsigned": "unsigned", "long": "long", "long_unsigned": "ulong", "long_long": "llong", "long_long_unsigned": "ullong",
         "unsigned_integer": "unsigned", "long_integer": "long", "long_long_integer": "llong", "unsigned_long_integer": "ulong", "unsigned_long_long_integer": "ullong"}


KWNAME = {k[1:].lower(): k for k in KEYWORDS if k[0] == "_"}


def dump_tokens(doc):
    """normal form of a kefir token dump (bytes)"""
    # \\a \\v \\? are no JSON escapes, but the repository's tests pin them (KF-C22-1)
    js = json.loads(re.sub(r"\\(.)", lambda m: {"a": "\\u0007", "v": "\\u000b", "?": "?"}.get(m.group(1), m.group()), doc.decode("latin-1")))
    out = []
    for t in js:
        c = t["class"]
        if c == "sentinel":
            continue
        if c == "keyword":
            kw = t["keyword"]
            kw = KWNAME.get(kw, kw)
            out.append(("kw", kw))
        elif c == "identifier":
            out.append(("id", t["identifier"].encode("latin-1").decode("utf-8", "replace")))
        elif c == "punctuator":
            out.append(("p", DIGRAPH.get(t["punctuator"], t["punctuator"])))
        elif c == "constant":
            ty = t["type"]
            if ty in ITYPE:
                out.append(("int", ITYPE[ty], int(t["value"])))
            elif ty in ("float", "double", "long_double"):
                out.append(("flt", {"long_double": "ldouble"}.get(ty, ty), hexfloat(t["value"])))
            else:
                out.append(("chr", {"char": "", "wide_char": "L", "unicode16_char": "u", "unicode32_char": "U"}[ty], t["value"]))
        elif c == "string_literal":
            ty = t["type"]
            cont = t["content"]
            if isinstance(cont, str):
                cont = list(cont.encode("latin-1"))
            if cont and cont[-1] == 0:
                cont = cont[:-1]
            out.append(("str", {"multibyte": "", "unicode8": "u8", "unicode16": "u", "unicode32": "U", "wide": "L"}[ty], tuple(cont)))
        else:
            out.append((c, json.dumps(t, sort_keys=True)))
    return out


def show(toks, n=400):
    s = " ".join(str(t[-1]) if t[0] in ("id", "kw", "p") else repr(t) for t in toks)
    return s[:n]
