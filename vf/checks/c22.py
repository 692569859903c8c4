"""C22: token, AST, IR and diagnostic dumps are well-formed and faithful."""
import json, re, sys
from vf.core import *
from vf import ast2c, corpus, fuzzgen, lex

ROW = re.compile(rb"^\s*\.quad ([^\s,]+)(?:, (.+))?$")


def toks_of(text):
    """(kind, spelling, line, column) of preprocessed text; columns count characters"""
    out, i, ln, col = [], 0, 1, 1
    for m in re.finditer(lex.TOK, text):
        if m.start() != i:
            raise lex.LexError("stray")
        i = m.end()
        if m.lastgroup != "ws":
            out.append((m.lastgroup, m.group(), ln, col))
        s = m.group()
        n = s.count("\n")
        if n:
            ln += n
            col = len(s) - s.rindex("\n")
        else:
            col += len(s)
    if i != len(text):
        raise lex.LexError("stray")
    return out


def strip(n):
    """without locations; -> (tree, locations)"""
    locs = []

    def go(x):
        if isinstance(x, dict):
            if "source_location" in x:
                locs.append((x, x["source_location"]))
            return {k: go(v) for k, v in x.items() if k != "source_location"}
        if isinstance(x, list):
            return [go(v) for v in x]
        return x
    return go(n), locs


def refs(ir, err):
    """cross references of an IR dump"""
    types = {t["identifier"]: t["type"] for t in ir["types"]}
    decls = {d["identifier"]: d for d in ir["function_declarations"]}
    strs = {s["id"]: s for s in ir["string_literals"]}
    n = 0
    if len(types) != len(ir["types"]) or len(decls) != len(ir["function_declarations"]) or len(strs) != len(ir["string_literals"]):
        err("identifiers are not unique")

    def T(t, where):
        if t is not None and t not in types:
            err("%s refers to type %s, which is not listed" % (where, t))
    for d in ir["function_declarations"]:
        T(d["parameters"], "function declaration")
        T(d["returns"], "function declaration")
    for d in ir["data"]:
        T(d["type"], "data " + d["identifier"])
        for v in d["value"]:
            n += 1
            if v["class"] == "string_pointer" and v["string"] not in strs:
                err("data %s refers to string %s, which is not listed" % (d["identifier"], v["string"]))
    for s in ir["string_literals"]:
        w = {"multibyte": 1, "unicode8": 1, "unicode16": 2, "unicode32": 4, "wide": 4}.get(s["type"], 1)
        if isinstance(s["literal"], str) and len(ast2c.raw(s["literal"])) != w * s["length"]:
            err("string literal %d has %d bytes for length %d" % (s["id"], len(ast2c.raw(s["literal"])), s["length"]))
    for f in ir["functions"]:
        if f["identifier"] not in decls or decls[f["identifier"]]["name"] != f["name"]:
            err("function %s does not match its declaration" % f["name"])
        T(f["locals"], "function " + f["name"])
        for i in f["body"]:
            n += 1
            a = i.get("arg")
            if i["opcode"] in ("jmp", "branch") and not 0 <= a <= len(f["body"]):
                err("%s %s is outside of %s" % (i["opcode"], a, f["name"]))
            if i["opcode"] in ("invoke", "invokev") and (a["identifier"] not in decls or decls[a["identifier"]]["name"] != a["name"]):
                err("call of unlisted function %s" % a)
            if isinstance(a, dict) and "type" in a:
                T(a["type"], i["opcode"])
                k = a.get("index")
                if k is not None and a["type"] in types and k >= slots(types[a["type"]]):
                    err("%s refers to slot %s of type %s" % (i["opcode"], k, a["type"]))
    return n


def slots(t):
    n = 0
    for e in t:
        n += 1 + (slots(e["fields"]) if "fields" in e else 0) + (slots([e["element_type"]]) if "element_type" in e else 0)
    return n


def ir_asm(ir, asm, err):
    """the listed bodies are the ones in the assembly"""
    bodies, cur = {}, None
    for l in asm.split(b"\n"):
        m = re.match(rb"^__(.+)_body:", l)
        if m:
            cur = bodies.setdefault(m.group(1).decode(), [])
            continue
        m = ROW.match(l)
        if m and cur is not None:
            cur.append((m.group(1).decode(), (m.group(2) or b"").decode()))
        elif l.strip().endswith(b":") or not l.strip():
            cur = None
    n = 0
    for f in ir["functions"]:
        rows = bodies.get(f["name"])
        if rows is None:
            return 0
        if not len(f["body"]) <= len(rows) <= len(f["body"]) + 1:
            err("%s: %d instructions listed, %d rows generated" % (f["name"], len(f["body"]), len(rows)))
        for i, (h, a) in zip(f["body"], rows):
            m = re.fullmatch(r"__kefirrt_(\w+)_impl", h)
            if not m:
                continue
            h = m.group(1)
            op, arg = i["opcode"], i.get("arg")
            if h == op:
                n += 1
                if op in ("jmp", "branch"):
                    mm = re.fullmatch(r"__.+_body \+ (\d+)", a)
                    if mm and int(mm.group(1)) != 16 * arg:
                        err("%s: %s %s listed, %s generated" % (f["name"], op, arg, a))
                elif op in ("pick", "xchg", "put", "insert", "iadd1", "extractu", "extracts", "bcopy") and isinstance(arg, int):
                    if int(a, 0) % 2 ** 64 != arg % 2 ** 64:
                        err("%s: %s %s listed, %s generated" % (f["name"], op, arg, a))
            elif h == "push" and op in ("pushi64", "pushu64", "pushi", "pushu") and isinstance(arg, int) and re.fullmatch(r"-?(0x)?[0-9a-fA-F]+", a):
                n += 1
                if int(a, 0) % 2 ** 64 != arg % 2 ** 64:
                    err("%s: %s %s listed, %s generated" % (f["name"], op, arg, a))
            elif h == "push" and op == "getglobal" and isinstance(arg, dict):
                n += 1
                if arg.get("data") != a.strip():
                    err("%s: %s %s listed, %s generated" % (f["name"], op, arg, a))
    return n


def symbols(ir, obj, err):
    r = run(["nm", obj])
    defs, und = set(), set()
    for l in r.out.decode().split("\n"):
        p = l.split()
        if len(p) == 2 and p[0] == "U":
            und.add(p[1])
        elif len(p) == 3:
            defs.add(p[2])
    for g in ir["globals"]:
        if g not in defs and g not in und:
            err("global %s is not in the object" % g)
    for f in ir["functions"]:
        if f["name"] not in defs:
            err("function %s is not defined by the object" % f["name"])
    for d in ir["data"]:
        if d["storage"] != "thread_local" and d["identifier"] not in defs:
            err("data %s is not defined by the object" % d["identifier"])
    names = set(ir["globals"]) | set(ir["externals"]) | {f["name"] for f in ir["functions"]} | {d["identifier"] for d in ir["data"]}
    for u in und | {d for d in defs if not d.startswith("_")}:
        if not u.startswith(("__kefirrt", "_GLOBAL_OFFSET")) and u not in names and "." not in u:
            err("symbol %s of the object is not listed" % u)


ZOO = ["static inline int zi@(int a) { return a + 1; }", "_Noreturn void zn@(void);", "_Thread_local int zt@ = 4; extern _Thread_local long zu@; static _Thread_local char zv@[3];",
       "int zv@(int n, ...) { __builtin_va_list a, b; __builtin_va_start(a, n); __builtin_va_copy(b, a); int s = __builtin_va_arg(a, int) + (int) __builtin_va_arg(b, double); __builtin_va_end(b); __builtin_va_end(a); return s; }",
       "int zg@(int k) { void *t[2]; t[0] = &&l1; t[1] = &&l2; goto *t[k]; l1: return 1; l2: return 2; }", "int zs@(int a) { return ({ int b = a; if (b) b++; b * 2; }); }", "int zo@(int a, int b) { return a ?: b ? 3 : a; }",
       "void *za@(unsigned long n) { return __builtin_alloca(n); }", "int zk@(a, b, c) int a; char b; double *c; { return a + b + (int) *c; }", "int (*zf@(int (*a)(int, char), int b))(int, char) { return b ? a : 0; }",
       "int zp@(int n, int a[const static 3], int b[*], int (*c)[5], int d[restrict 5]); int zq@(int n, int a[const static 3], int (*c)[4]) { return a[1] + c[1][2] + n; }",
       "struct zs@ { int a : 3, : 2, b : 7; unsigned : 0; _Alignas(16) char c; struct { int d, e; }; union { long f; double g; } h[2]; _Static_assert(sizeof(int) == 4, \"m\"); int (*fp)(int); char fl[]; };",
       "enum ze@ { ZA@, ZB@ = ZA@ + 5, ZC@ = sizeof(int[3]), ZD@ }; enum ze@ zy@ = ZD@;", "int zh@(register int a) { auto int b = a; volatile const int *const volatile p = &b; return *p; }",
       "struct zx@ { int a[3][2]; struct { char c; long d; } e[2]; } zz@ = { .a[1][0] = 7, 8, .e = { [1].d = 9, [0] = { .c = 1 } } }, *zzp@ = &(struct zx@) { { { 1 } }, .e[0].c = 'x' };",
       "void zl@(void) { for (;;) { for (int i = 0, j = 1; i < j; i++, j--) continue; break; } int k = 9; do k--; while (k); while (k++ < 3) if (k) ; else k = 2; switch (k) default: case 1: case 2: k = 3; goto out; out: ; }",
       "const char *const zw@[] = { \"a\\n\\t\\\\\\\"\\x7f\\377\", u8\"\u00e9\", \"\" }; const int zwi@[] = L\"w\u20ac\"; const unsigned short zw6@[] = u\"\u20ac\"; const unsigned zw3@[] = U\"\U0001f600\";", "int zc@ = 'a' + L'b' + u'c' + U'd' + '\\377' + '\\0' + 'ab';",
       "typedef int zt@t; zt@t ztf@(zt@t zt@t) { return (zt@t) + 1 - sizeof zt@t; } zt@t ztg@(void) { return (zt@t) -1; }", "unsigned long long zll@ = 18446744073709551615ull, zlm@ = 0x7fffffffffffffff, zln@ = 4294967295, zlo@ = 0xffffffff; long zlp@ = 1l - 2ul + 3ll;",
       "int zgen@(long a) { return _Generic(a, int: 1, long: 2, const char *: 3, int (*)(int): 5, default: 4) + _Alignof(double) + sizeof a + sizeof(a) + sizeof(long[2]) + sizeof (a) * 2 - -a - - -a + !~a; }",
       "int zpf@(int *p, int **q) { return *p++ + (*p)++ + ++*p + *++p + p[1] - 2[p] + **q-- + &p[3] - p + -*p; }", "int zas@(int a, int b) { a += b -= a *= b /= a %= 7; a <<= b >>= 1; a &= b |= a ^= 3; return a = b, a < b == b > a != (a <= b) && a >= b || !a & b | a ^ b; }"]
FE = ["--feature-labels-as-values", "--feature-statement-expressions", "--feature-omitted-conditional-operand"]


def zoo(r):
    """declarations that use every construct of the grammar"""
    out = []
    for k in range(r.randrange(4, 14)):
        out.append(r.choice(ZOO).replace("@", str(k)))
    return "zoo", "\n".join(out) + "\n"


def more(r):
    import importlib
    m = r.choice(["c10", "c11", "c12", "c28"])
    return m, program(importlib.import_module("vf.checks." + m).gen(r, 1))


def good_job(bdir, seed, idx):
    r = rng("C22", seed, idx)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    errs, cnt = [], {}
    K = os.path.join(bdir, "kefir")
    C = lambda k, n=1: cnt.__setitem__(k, cnt.get(k, 0) + n)
    try:
        k = r.random()
        name, src = corpus.unit(r) if k < .5 else zoo(r) if k < .75 else more(r)
        if r.random() < .4 and name != "c12":
            src = corpus.macroize(r, src)
        open(wd + "/a.c", "w").write(src)
        p = run([K, "-p", "-o", wd + "/k.c"] + [wd + "/a.c"], timeout=60)
        if p.rc:
            return "skip", src, [], {}
        data = open(wd + "/k.c", "rb").read()
        text = data.decode("utf-8")
        if r.random() < .3:
            text = re.sub(r"\n+", "\n", text)
        if r.random() < .2:
            text = text.replace("; ", ";\n\n   ")
        open(wd + "/k.c", "w", newline="").write(text)
        err = lambda s: errs.append(s)
        p = run([K] + FE + ["-o", wd + "/k.s", wd + "/k.c"], timeout=60)
        if p.rc:
            return "skip", src, [p.err.decode(errors="replace")[-300:]], {}
        asm = open(wd + "/k.s", "rb").read()

        def dump(*a):
            p = run([K] + FE + list(a) + ["-o", wd + "/d.json", wd + "/k.c"], timeout=60)
            if p.rc:
                err("%s fails on an accepted program: %s" % (" ".join(a), p.err.decode(errors="replace")[:300]))
                return None
            d = open(wd + "/d.json", "rb").read()
            try:
                x = ast2c.strict(d, True)
                C("documents")
                return x
            except ast2c.BadJSON as e:
                err("%s is not JSON: %s" % (" ".join(a), e))
        # tokens
        exp = toks_of(text)
        td = dump("--dump-tokens", "--detailed-output")
        tp = dump("--dump-tokens")
        if td is not None and tp is not None:
            if strip(td)[0] != tp:
                err("token dumps with and without locations differ")
            body = [t for t in td if t["class"] != "sentinel"]
            # adjacent string literals are one token of the dump
            k = 0
            prev = False
            for t in exp:
                s = t[0] == "str"
                if s and prev:
                    continue
                prev = s
                if k >= len(body):
                    err("token %s at line %d is missing from the dump" % (t[1], t[2]))
                    break
                l = body[k]["source_location"]
                if (l["line"], l["column"]) != (t[2], t[3]):
                    err("token %r at %d:%d is listed at %d:%d as %s" % (t[1], t[2], t[3], l["line"], l["column"], str(body[k])[:150]))
                    break
                C("token_locations")
                k += 1
            else:
                if k != len(body):
                    err("%d tokens in the source, %d in the dump" % (k, len(body)))
            try:
                a = lex.tokens(text)
                if a != lex.dump_tokens(json.dumps(norm_bytes(tp)).encode("latin-1")):
                    err("tokens differ from the source")
            except lex.LexError:
                pass
        # AST
        ad, ap = dump("--dump-ast", "--detailed-output"), dump("--dump-ast")
        if ad is not None and ap is not None:
            st, locs = strip(ad)
            if st != ap:
                err("tree dumps with and without locations differ")
            at = {(t[2], t[3]): i for i, t in enumerate(exp)}
            for n, l in locs:
                if l is None:
                    continue
                k = at.get((l["line"], l["column"]))
                if k is None:
                    err("%s located at %s:%s, where no token starts" % (n.get("class"), l["line"], l["column"]))
                    break
                C("node_locations")
                t = exp[k]
                while t[1] == "(" and k + 1 < len(exp):
                    k += 1
                    t = exp[k]
                if n.get("class") == "identifier" and isinstance(n.get("identifier"), str) and t[1] != n["identifier"]:
                    err("identifier %s located at %s" % (n["identifier"], t[1]))
                    break
            fl = []
            for k, s, ln, c in exp:
                if k == "num":
                    v = lex.number(s)
                    if v[0] == "flt":
                        fl.append((s, {"ldouble": "long_double"}.get(v[1], v[1]), float(v[2])))
            u = ast2c.Un(fl)
            try:
                t2 = u.unit(ap)
                open(wd + "/u.c", "w").write(t2)
                p = run([K] + FE + ["-o", wd + "/u.s", wd + "/u.c"], timeout=60)
                if p.rc:
                    err("the program shown by the tree is rejected: " + p.err.decode(errors="replace")[:300])
                elif open(wd + "/u.s", "rb").read() != asm:
                    a, b = asm.split(b"\n"), open(wd + "/u.s", "rb").read().split(b"\n")
                    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    err("the program shown by the tree compiles to other code: %r / %r" % (a[k:k + 3], b[k:k + 3]))
                for k, v in u.nodes.items():
                    C("node:" + k, v)
            except (ast2c.BadTree, KeyError) as e:
                err("tree: %r" % e)
        # IR
        ir = dump("--dump-ir")
        if ir is not None:
            try:
                C("ir_instructions", refs(ir, err))
                C("ir_rows", ir_asm(ir, asm, err))
                if assemble(wd + "/k.s", wd + "/k.o").rc == 0:
                    symbols(ir, wd + "/k.o", err)
            except (KeyError, TypeError, IndexError) as e:
                err("IR dump: %r" % e)
        return "bad" if errs else "ok", text, errs[:6], cnt
    except lex.LexError as e:
        return "skip", src, [str(e)], {}
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def norm_bytes(x):
    if isinstance(x, dict):
        return {k: norm_bytes(v) for k, v in x.items()}
    if isinstance(x, list):
        return [norm_bytes(v) for v in x]
    if isinstance(x, str):
        return ast2c.raw(x).decode("latin-1")
    return x


def any_job(bdir, seed, idx):
    """arbitrary input: documents are JSON, dumps accept what compilation accepts, both diagnostics agree"""
    r = rng("C22b", seed, idx)
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    errs, cnt = [], {}
    K = os.path.join(bdir, "kefir")
    C = lambda k, n=1: cnt.__setitem__(k, cnt.get(k, 0) + n)
    try:
        s = fuzzgen.gen(r)[1]
        s = s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")
        s = s[:20000]
        open(wd + "/k.c", "wb").write(s)
        rc = {}
        for m in ("--dump-asm", "--dump-tokens", "--dump-ast", "--dump-ir"):
            det = ["--detailed-output"] if r.random() < .5 else []
            p = run([K, m] + det + ["--json-errors", "-o", wd + "/o", wd + "/k.c"], timeout=60)
            if p.rc not in (0, 1):
                return "skip", s, [], {}
            rc[m] = p.rc
            if p.rc == 0:
                if m != "--dump-asm":
                    try:
                        ast2c.strict(open(wd + "/o", "rb").read(), True)
                        C("documents")
                    except ast2c.BadJSON as e:
                        if "too deep" not in str(e):
                            errs.append("%s is not JSON: %s" % (m, e))
                continue
            C("diagnostics")
            try:
                d = ast2c.strict(p.err)
                if not isinstance(d, list) or not d:
                    errs.append("empty diagnostics of %s" % m)
                    continue
                q = run([K, m] + det + ["--tabular-errors", "-o", wd + "/o", wd + "/k.c"], timeout=60)
                if q.rc != p.rc:
                    errs.append("%s: status %d with JSON and %d with tabular diagnostics" % (m, p.rc, q.rc))
                t = q.err
                for e in d:
                    for f in (e["message"],):
                        if ast2c.raw(f) not in t:
                            errs.append("%s: message %r is not in the tabular diagnostics" % (m, f))
                    o = "%s:%d" % (e["origin"]["file"], e["origin"]["line"])
                    if o.encode() not in t:
                        errs.append("%s: origin %s is not in the tabular diagnostics" % (m, o))
                    l = e["source_location"]
                    if l is not None:
                        C("located")
                        lines = s.count(b"\n") + 1
                        if l["source"] == wd + "/k.c" and b"line" not in s and not 1 <= l["line"] <= lines + 1:
                            errs.append("%s: located at line %d of %d" % (m, l["line"], lines))
                        # long names are truncated in messages
                        if len(l["source"]) < 100 and ("%s@%d:%d" % (l["source"], l["line"], l["column"])).encode() not in t:
                            errs.append("%s: location %s is not in the tabular diagnostics" % (m, l))
            except ast2c.BadJSON as e:
                errs.append("diagnostics of %s are not JSON: %s" % (m, e))
            except (KeyError, TypeError) as e:
                errs.append("diagnostics of %s lack %r" % (m, e))
        if rc["--dump-asm"] == 0 and any(rc.values()):
            # the writer's nesting limit is documented by its error
            if not errs and b"Maximum json depth" not in run([K, "--dump-ast", "-o", wd + "/o", wd + "/k.c"], timeout=60).err:
                errs.append("accepted, but not by every dump: %s" % rc)
        if rc["--dump-ir"] == 0 and rc["--dump-asm"] == 0:
            C("accepted")
        if rc["--dump-tokens"] and not rc["--dump-asm"]:
            errs.append("tokens rejected of an accepted program")
        return "bad" if errs else "ok", s, errs[:6], cnt
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    sys.setrecursionlimit(20000)
    ck = Check("C22")
    ck.rule = "one evaluation = one program or arbitrary input under every dump mode; distinct by source text"
    ck.assumptions = ["kefir's own compiler is trusted to compile the program rebuilt from a tree dump the same way twice (C17)", "floating constants are compared to the six decimals the dumps show (KF-C22-2)"]
    bdir = build("plain")
    for fn, n, lab in ((good_job, scale(90, 4000), "program"), (any_job, scale(220, 9000), "input")):
        for st, src, errs, cnt in pmap(fn, [(bdir, SEED, i) for i in range(n)]):
            if st == "skip":
                ck.inconclusive += 1
                if os.environ.get("VF_DEBUG"):
                    print("SKIP", errs)
                continue
            ck.evaluations += 1
            ck.count(lab + "s")
            ck.seen(src)
            for k, v in cnt.items():
                ck.count(k, v)
            if st == "bad":
                ck.violation(repr(src)[:4000], {"k.c": src}, "\n".join(errs))
            elif lab == "program":
                ck.sample(src[:1500])
    for k in ck.known:
        with open(os.path.join(VERIF, k["file"])) as fh:
            wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
            open(wd + "/k.c", "w").write(fh.read())
            p = run([os.path.join(bdir, "kefir"), "--dump-ast", wd + "/k.c"])
            if k["id"] == "KF-C22-1":
                try:
                    ast2c.strict(p.out)
                except ast2c.BadJSON:
                    k["seen"] = True
            elif b"1e-20" not in p.out and b"0.00000000000000000001" not in p.out and b"e-21" not in p.out:
                k["seen"] = True
            shutil.rmtree(wd, ignore_errors=True)
    ck.finish(150)
