"""Strict JSON reading of kefir's dumps, and C source text from its syntax tree dump."""
import json, re


class BadJSON(Exception):
    pass


class BadTree(Exception):
    pass


def _pairs(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise BadJSON("duplicate key %r" % k)
        d[k] = v
    return d


def _const(x):
    raise BadJSON("not JSON: %s" % x)


# KF-C22-1: literal contents use the C escapes \a \v \? (pinned by the repository's golden files)
PINNED = re.compile(rb'\\(\\|a|v|\?)')
BYTES = re.compile(rb'\\(\\|u00[89a-f][0-9a-f])')


def strict(data, pinned=False):
    """bytes -> document; bytes written as \\u0080..\\u00ff become U+F080..U+F0FF, to tell them from characters"""
    if pinned:
        data = PINNED.sub(lambda m: {b"\\": rb"\\", b"a": rb"\u0007", b"v": rb"\u000b", b"?": b"?"}[m.group(1)], data)
    data = BYTES.sub(lambda m: m.group() if m.group(1) == b"\\" else rb"\uf0" + m.group(1)[3:], data)
    try:
        text = data.decode("utf-8")
        return json.loads(text, object_pairs_hook=_pairs, parse_constant=_const, parse_float=lambda s: s)
    except (ValueError, UnicodeDecodeError) as e:
        raise BadJSON(str(e))
    except RecursionError:
        raise BadJSON("too deep")


def raw(s):
    b = b""
    for c in s:
        o = ord(c)
        b += bytes([o & 0xff]) if 0xf080 <= o <= 0xf0ff else c.encode("utf-8")
    return b


UN = {"plus": "+", "negate": "-", "invert": "~", "logical_negate": "!", "prefix_increment": "++", "prefix_decrement": "--", "address": "&", "indirection": "*", "sizeof": "sizeof ", "alignof": "_Alignof "}
BIN = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "modulo": "%", "shift_left": "<<", "shift_right": ">>", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!=", "bitwise_and": "&", "bitwise_or": "|", "bitwise_xor": "^", "logical_and": "&&", "logical_or": "||"}
BUILTIN = {"va_start": "__builtin_va_start", "va_end": "__builtin_va_end", "va_copy": "__builtin_va_copy", "va_args": "__builtin_va_arg", "alloca": "__builtin_alloca", "alloca_with_align": "__builtin_alloca_with_align", "alloca_with_align_and_max": "__builtin_alloca_with_align_and_max"}
SUF = {"integer": "", "unsigned_integer": "u", "long": "l", "unsigned_long": "ul", "long_long": "ll", "unsigned_long_long": "ull"}
SUB = {"void": "void", "char": "char", "short": "short", "int": "int", "long": "long", "float": "float", "double": "double", "signed": "signed", "unsigned": "unsigned", "bool": "_Bool", "va_list": "__builtin_va_list"}
STO = {"typedef": "typedef", "extern": "extern", "static": "static", "thread_local": "_Thread_local", "auto": "auto", "register": "register"}
FUN = {"noreturn": "_Noreturn", "inline": "inline"}


class Un:
    """fl: (text, type, value as Fraction) of the floating constants of the source in order: the dump shows six decimals only"""

    def __init__(self, fl=None):
        self.fl = list(fl) if fl is not None else None
        self.nodes = {}
        self.locs = 0

    def get(self, n, k):
        if not isinstance(n, dict) or k not in n:
            raise BadTree("no %s in %s" % (k, str(n)[:200]))
        return n[k]

    # expressions ---------------------------------------------------------------------------------------------------
    def P(self, n):
        """as an operand"""
        t = self.E(n)
        return t if n["class"] in ("identifier", "string_literal", "constant") else "(%s)" % t

    def E(self, n):
        c = self.get(n, "class")
        self.nodes[c] = self.nodes.get(c, 0) + 1
        if "source_location" in n:
            self.locs += 1
        g = lambda k: self.get(n, k)
        if c == "identifier":
            return g("identifier")
        if c == "constant":
            return self.const(g("type"), g("value"))
        if c == "string_literal":
            return self.string(n)
        if c == "array_subscript":
            return "%s[%s]" % (self.P(g("array")), self.E(g("subscript")))
        if c == "function_call":
            return "%s(%s)" % (self.P(g("function")), ", ".join(self.A(a) for a in g("arguments")))
        if c == "builtin":
            return "%s(%s)" % (BUILTIN[g("builtin")], ", ".join(self.type_name(a) if a["class"] == "type_name" else self.A(a) for a in g("arguments")))
        if c == "struct_member":
            return "%s.%s" % (self.P(g("structure")), g("member"))
        if c == "indirect_struct_member":
            return "%s->%s" % (self.P(g("structure")), g("member"))
        if c == "unary_operation":
            t, a = g("type"), g("argument")
            if a["class"] == "type_name":
                if t not in ("sizeof", "alignof"):
                    raise BadTree("%s of a type name" % t)
                return "%s(%s)" % (UN[t], self.type_name(a))
            if t.startswith("postfix_"):
                return self.P(a) + ("++" if t.endswith("increment") else "--")
            return UN[t] + self.P(a)
        if c == "cast_operator":
            return "(%s) %s" % (self.type_name(g("type_name")), self.P(g("expression")))
        if c == "binary_operation":
            a = self.P(g("left"))
            return "%s %s %s" % (a, BIN[g("type")], self.P(g("right")))
        if c == "conditional_operator":
            a = self.P(g("condition"))
            b = "" if g("thenBranch") is None else self.P(g("thenBranch"))
            return "%s ? %s : %s" % (a, b, self.P(g("elseBranch")))
        if c == "assignment_operator":
            a = self.P(g("target"))
            return "%s %s= %s" % (a, "" if g("type") == "simple" else BIN[g("type")], self.P(g("value")))
        if c == "comma_operator":
            return ", ".join(self.P(x) for x in g("expressions"))
        if c == "generic_selection":
            s = "_Generic(%s" % self.A(g("control_expression"))
            for a in g("associations"):
                s += ", %s: %s" % (self.type_name(self.get(a, "type_name")), self.A(self.get(a, "expression")))
            if g("default_association") is not None:
                s += ", default: %s" % self.A(g("default_association"))
            return s + ")"
        if c == "compound_literal":
            return "(%s) %s" % (self.type_name(g("type")), self.init(g("initializer")))
        if c == "label_address":
            return "&&%s" % g("label")
        if c == "statement_expression":
            s = "({ " + "".join(self.S(x) for x in g("items"))
            r = g("result")
            if r is not None:
                s += self.S(r) if r["class"].endswith("statement") else self.E(r) + ";"
            return s + " })"
        raise BadTree("expression of class %s" % c)

    def A(self, n):
        t = self.E(n)
        return "(%s)" % t if n["class"] in ("comma_operator", "assignment_operator") else t

    def const(self, t, v):
        if t in SUF:
            if not isinstance(v, int):
                raise BadTree("integer constant %r" % (v,))
            return "%d%s" % (v, SUF[t])
        if t in ("character", "wide_character", "unicode16_character", "unicode32_character"):
            p = {"character": "", "wide_character": "L", "unicode16_character": "u", "unicode32_character": "U"}[t]
            m = {"": 0xff, "u": 0xffff}.get(p, 0xffffffff)
            if p == "" and not -128 <= v <= 255:
                return "'%s'" % "".join("\\x%02x" % b for b in (v & 0xffffffff).to_bytes(4, "big").lstrip(b"\0"))
            return "%s'\\x%x'" % (p, v & m)
        if t in ("float", "double", "long_double"):
            v = v if isinstance(v, str) else str(v)
            if not self.fl:
                raise BadTree("floating constant %s with no token in the source" % v)
            txt, ty, val = self.fl.pop(0)
            if ty != t or abs(float(v) - val) > 1e-6 + abs(val) * 1e-12:
                raise BadTree("constant %s of the source is shown as %s %s" % (txt, t, v))
            return txt
        if t == "boolean":
            return "1" if v else "0"
        raise BadTree("constant of type %s" % t)

    def string(self, n):
        t = self.get(n, "type")
        b = raw(self.get(n, "content"))
        w = {"multibyte": 1, "unicode8": 1, "unicode16": 2, "unicode32": 4, "wide": 4}[t]
        p = {"multibyte": "", "unicode8": "u8", "unicode16": "u", "unicode32": "U", "wide": "L"}[t]
        if len(b) != w * self.get(n, "length"):
            raise BadTree("string of %d bytes has length %s" % (len(b), n["length"]))
        u = [int.from_bytes(b[i:i + w], "little") for i in range(0, len(b), w)]
        if not u or u[-1]:
            raise BadTree("string without terminator")
        return p + '"' + "".join("\\%03o" % x if w == 1 else '\\x%x"%s"' % (x, p) for x in u[:-1]) + '"'

    # declarations ---------------------------------------------------------------------------------------------------
    def quals(self, q):
        return " ".join({"const": "const", "restrict": "restrict", "volatile": "volatile"}[x] for x in q)

    def specs(self, l):
        out = []
        for s in l:
            if "source_location" in s:
                self.locs += 1
            c = self.get(s, "class")
            g = lambda k: self.get(s, k)
            self.nodes[c] = self.nodes.get(c, 0) + 1
            if c == "type_specifier":
                k = g("specifier")
                if k in ("struct", "union", "enum"):
                    t = k + (" " + g("identifier") if g("identifier") is not None else "")
                    if g("members") is not None:
                        t += " { "
                        if k == "enum":
                            t += ", ".join(m["identifier"] + (" = " + self.A(m["value"]) if m["value"] is not None else "") for m in s["members"])
                        else:
                            for m in s["members"]:
                                if m["type"] == "static_assert":
                                    t += self.sassert(m["assertion"])
                                else:
                                    sp = self.specs(m["specifiers"])
                                    ds = [self.decl(d["declarator"]) + (" : " + self.A(d["bitwidth"]) if d["bitwidth"] is not None else "") for d in m["declarators"]]
                                    t += "%s %s; " % (sp, ", ".join(ds))
                        t += " }"
                    out.append(t)
                elif k == "typedef":
                    out.append(g("identifier"))
                elif k in SUB:
                    out.append(SUB[k])
                else:
                    raise BadTree("type specifier %s" % k)
            elif c == "type_qualifier":
                out.append(self.quals([g("qualifier")]))
            elif c == "storage_class":
                out.append(STO[g("storage")])
            elif c == "function_specifier":
                out.append(FUN[g("specifier")])
            elif c == "alignment_specifier":
                a = g("alignment")
                out.append("_Alignas(%s)" % (self.type_name(a) if a["class"] == "type_name" else self.A(a)))
            else:
                raise BadTree("specifier %s" % c)
        return " ".join(out)

    def decl(self, d):
        """the outermost node is the one next to the base type"""
        if d is None:
            return ""
        c = self.get(d, "class")
        g = lambda k: self.get(d, k)
        self.nodes["declarator:" + c] = self.nodes.get("declarator:" + c, 0) + 1
        if c == "identifier":
            return g("identifier")
        if c == "abstract":
            return ""
        if c not in ("pointer", "array", "function"):
            raise BadTree("declarator %s" % c)
        x = g("declarator")
        if c == "pointer":
            return "*%s %s" % (self.quals(g("type_qualifiers")), self.decl(x))
        t = self.decl(x)
        if x is not None and x["class"] == "pointer":
            t = "(%s)" % t
        if c == "array":
            q = ("static " if g("static") else "") + self.quals(g("type_qualifiers"))
            k = g("type")
            return t + "[%s %s]" % (q, self.A(g("length")) if k == "bounded" else {"unbounded": "", "vla_unspecified": "*"}[k])
        l = [p["identifier"] if p["class"] == "identifier" else self.param(p) for p in g("parameters")]
        return t + "(%s)" % ", ".join(l + (["..."] if g("ellipsis") else []))

    def param(self, p):
        if p["class"] == "type_name":
            return self.type_name(p)
        if self.get(p, "class") != "declaration":
            raise BadTree("parameter of class %s" % p["class"])
        s = self.specs(p["specifiers"])
        i = p["init_declarators"]
        return s + (" " + self.decl(i[0]["declarator"]) if i else "")

    def type_name(self, n):
        if self.get(n, "class") != "type_name":
            raise BadTree("type name of class %s" % n["class"])
        self.nodes["type_name"] = self.nodes.get("type_name", 0) + 1
        return (self.specs(self.get(n, "specifiers")) + " " + self.decl(self.get(n, "declarator"))).strip()

    def init(self, i):
        if self.get(i, "type") == "expression":
            return self.A(self.get(i, "expression"))
        out = []
        for e in self.get(i, "list"):
            s = ""
            ds = []
            d = e["designation"]
            while d is not None:
                ds.append(d)
                d = d["next"]
            # the chain starts at the innermost designator
            for d in reversed(ds):
                s += "[%s]" % self.A(d["index"]) if d["type"] == "index" else "." + d["member"]
            out.append((s + " = " if s else "") + self.init(e["initializer"]))
        return "{ %s }" % ", ".join(out)

    def sassert(self, a):
        e = self.A(self.get(a, "assertion"))
        return "_Static_assert(%s, %s);\n" % (e, self.string(self.get(a, "string_literal")))

    def declaration(self, n):
        s = self.specs(self.get(n, "specifiers"))
        ds = []
        for d in self.get(n, "init_declarators"):
            t = self.decl(self.get(d, "declarator"))
            if self.get(d, "initializer") is not None:
                t += " = " + self.init(d["initializer"])
            ds.append(t)
        return s + " " + ", ".join(ds) + ";\n"

    # statements -----------------------------------------------------------------------------------------------------
    def S(self, n):
        c = self.get(n, "class")
        g = lambda k: self.get(n, k)
        self.nodes[c] = self.nodes.get(c, 0) + 1
        if c == "declaration":
            d = g("init_declarators")
            if len(d) == 1 and json.dumps(d[0]["declarator"]).count('"__func__"') == 1:
                # declared by the parser in every function
                self.nodes["__func__"] = self.nodes.get("__func__", 0) + 1
                return ""
            return self.declaration(n)
        if c == "static_assertion":
            return self.sassert(n)
        if c == "expression_statement":
            return ("" if g("expression") is None else self.E(g("expression"))) + ";\n"
        if c == "compound_statement":
            return "{\n" + "".join(self.S(x) for x in g("items")) + "}\n"
        if c == "labeled_statement":
            return "%s: %s" % (g("label"), self.S(g("statement")))
        if c == "case_statement":
            return "%s: %s" % ("default" if g("expression") is None else "case " + self.P(g("expression")), self.S(g("statement")))
        if c == "if_statement":
            e = self.E(g("expression"))
            t = "if (%s) {\n%s}\n" % (e, self.S(g("thenBranch")))
            return t + ("" if g("elseBranch") is None else "else {\n%s}\n" % self.S(g("elseBranch")))
        if c == "switch_statement":
            e = self.E(g("expression"))
            return "switch (%s) %s" % (e, self.S(g("statement")))
        if c == "while_statement":
            e = self.E(g("controlling_expression"))
            return "while (%s) %s" % (e, self.S(g("body")))
        if c == "do_while_statement":
            b = self.S(g("body"))
            return "do %s while (%s);\n" % (b, self.E(g("controlling_expression")))
        if c == "for_statement":
            i = g("init")
            t = ";" if i is None else (self.declaration(i).strip() if i["class"] == "declaration" else self.E(i) + ";")
            t += " %s; " % ("" if g("controlling_expression") is None else self.E(g("controlling_expression")))
            t += "" if g("tail") is None else self.E(g("tail"))
            return "for (%s) %s" % (t, self.S(g("body")))
        if c == "return_statement":
            return "return %s;\n" % ("" if g("expression") is None else self.E(g("expression")))
        if c == "goto_statement":
            return "goto %s;\n" % g("identifier")
        if c == "goto_address_statement":
            return "goto *%s;\n" % self.P(g("target"))
        if c == "continue_statement":
            return "continue;\n"
        if c == "break_statement":
            return "break;\n"
        raise BadTree("statement of class %s" % c)

    def unit(self, n):
        if self.get(n, "class") != "translation_unit":
            raise BadTree("no translation unit")
        out = []
        for d in self.get(n, "external_declarations"):
            if d["class"] == "function_definition":
                s = self.specs(self.get(d, "specifiers")) + " " + self.decl(self.get(d, "declarator")) + "\n"
                s += "".join(self.declaration(x) for x in self.get(d, "declarations"))
                out.append(s + self.S(self.get(d, "body")))
            else:
                out.append(self.S(d))
        if self.fl:
            raise BadTree("constant %s of the source is missing from the tree" % (self.fl[0][0],))
        return "".join(out)
