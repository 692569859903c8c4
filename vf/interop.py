"""Cross-compiler call monitoring: a caller unit and a callee unit, each built by kefir or by a system compiler, with every
call between them passing through the call-boundary monitor rt/guard.s."""
from vf.core import *
from vf.tygen import *
from vf import core

GPRE = PRE + "void GUARD(long);\n"
GUARD_C = """extern unsigned long guard_bad, guard_calls, guard_top; void T(long, unsigned long long);
void GUARD(long id) { T(id, guard_bad); T(id, guard_top); guard_bad = 0; guard_top = 0; }
unsigned long GCALLS(void) { return guard_calls; }
"""


class XItem:
    """common: declarations seen by both units; caller: file-scope text of the caller unit; body: driver body;
    callee: text of the callee unit; asm: thunks"""
    __slots__ = ("common", "caller", "body", "callee", "asm", "tags")

    def __init__(self, common, caller, body, callee, asm, tags=()):
        self.common, self.caller, self.body, self.callee, self.asm, self.tags = common, caller, body, callee, asm, tuple(tags)

    def text(self):
        return self.common + self.caller + self.body + self.callee


def sources(items):
    com = GPRE + "".join(i.common for i in items)
    cal = com + "".join("%s\nstatic void t_%d(void) {\n%s\n}\n" % (i.caller, k, i.body) for k, i in enumerate(items))
    cal += "int main(void) {\n" + "".join("B(%d); t_%d();\n" % (k, k) for k in range(len(items))) + "END();\nreturn 0;\n}\n"
    cee = com + "".join(i.callee for i in items)
    asm = ".intel_syntax noprefix\n.section .text\n" + "".join(i.asm for i in items)
    return cal, cee, asm


CCS = {"g": ("gcc", ["-std=gnu17", "-w", "-O0", "-fno-pie", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-fcf-protection=none", "-fno-strict-aliasing"]),
       "G": ("gcc", ["-std=gnu17", "-w", "-O2", "-fno-pie", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-fcf-protection=none", "-fno-strict-aliasing"]),
       "c": ("clang", ["-std=gnu17", "-w", "-O0", "-fno-pie", "-fno-stack-protector", "-fno-strict-aliasing"]),
       "C": ("clang", ["-std=gnu17", "-w", "-O2", "-fno-pie", "-fno-stack-protector", "-fno-strict-aliasing"])}


def support(bdir):
    """assembled guard objects, next to the build"""
    o1, o2 = os.path.join(bdir, "guard.o"), os.path.join(bdir, "guardc.o")
    with open(os.path.join(bdir, ".guardlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(["as", "-o", o1, os.path.join(VERIF, "rt/guard.s")])
        if r.rc != 0:
            raise HarnessError("guard.s: " + r.err.decode())
        c = os.path.join(bdir, "guardc.c")
        with open(c, "w") as fh:
            fh.write(GUARD_C)
        r = run(["gcc", "-w", "-O1", "-fno-pie", "-c", c, "-o", o2])
        if r.rc != 0:
            raise HarnessError("guardc: " + r.err.decode())
    return [o1, o2]


class Unit:
    """compiles the two units with each compiler at most once"""

    def __init__(self, bdir, items, wd):
        self.bdir, self.wd = bdir, wd
        self.src = sources(items)
        self.objs = {}
        self.thunk = None

    def obj(self, which, cc):
        key = (which, cc)
        if key in self.objs:
            return self.objs[key]
        base = os.path.join(self.wd, "%s_%s" % (which, cc))
        with open(base + ".c", "w") as fh:
            fh.write(self.src[0 if which == "caller" else 1])
        if cc == "k":
            r = kefir_s(self.bdir, base + ".c", base + ".s", timeout=40)
            if r.timeout:
                res = ("hang", "kefir did not finish")
            elif r.rc != 0:
                res = ("reject", "kefir exit %s: %s" % (r.rc, r.err.decode(errors="replace")[:700]))
            else:
                r = assemble(base + ".s", base + ".o")
                res = ("ok", base + ".o") if r.rc == 0 else ("asm", r.err.decode(errors="replace")[:500])
        else:
            c, fl = CCS[cc]
            r = run([c] + fl + ["-c", base + ".c", "-o", base + ".o"], timeout=60)
            res = ("ok", base + ".o") if r.rc == 0 else ("refreject", r.err.decode(errors="replace")[:700])
        self.objs[key] = res
        return res

    def run(self, pair):
        a, b = self.obj("caller", pair[0]), self.obj("callee", pair[1])
        for x in (a, b):
            if x[0] != "ok":
                return x[0], b"", x[1]
        if self.thunk is None:
            s = os.path.join(self.wd, "th.s")
            with open(s, "w") as fh:
                fh.write(self.src[2])
            self.thunk = os.path.join(self.wd, "th.o")
            r = assemble(s, self.thunk)
            if r.rc != 0:
                raise HarnessError("thunk: " + r.err.decode(errors="replace")[:500] + self.src[2][:3000])
        exe = os.path.join(self.wd, "x_" + pair)
        r = link([a[1], b[1], self.thunk, os.path.join(self.bdir, "guard.o"), os.path.join(self.bdir, "guardc.o"),
                  os.path.join(self.bdir, "rt.o"), os.path.join(self.bdir, "chk.o")], exe)
        if r.rc != 0:
            return "link", b"", r.err.decode(errors="replace")[:500]
        for att in (0, 1):
            r = core.run([exe], cwd=self.wd, timeout=15 + 30 * att)
            if not r.timeout:
                break
        if r.timeout:
            return "run", r.out, "program did not finish"
        if r.rc != 0:
            return "run", r.out, "program exit %s" % r.rc
        return "ok", r.out, ""


def judge_x(bdir, items, pairs=("kg", "gk", "kk"), confirm_pairs=("cg", "gc", "Gc", "GG")):
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    res = {"events": 0, "violations": [], "invalid": [], "programs": 0}
    try:
        u = Unit(bdir, items, wd)
        st, exp, det = u.run("gg")
        if st != "ok":
            if len(items) > 1:
                for it in items:
                    merge(res, judge_x(bdir, [it], pairs, confirm_pairs))
            else:
                res["invalid"].append((items[0], "reference %s %s" % (st, det)))
            return res
        res["events"] = exp.count(b"\n") * len(pairs)
        bad = []
        for p in pairs:
            res["programs"] += 1
            s, got, d = u.run(p)
            if s != "ok" or got != exp:
                bad.append((p, s, got, d))
        if not bad:
            return res
        if len(items) > 1:
            le, _ = split_log(exp)
            idx = set()
            for p, s, got, d in bad:
                if s == "ok":
                    lg, _ = split_log(got)
                    idx |= {k for k in le if lg.get(k) != le[k]}
                elif s == "run":
                    lg, _ = split_log(got)
                    b = [k for k in sorted(le) if lg.get(k) != le[k]]
                    idx |= set(b[:1])
            if not idx:
                idx = set(range(len(items)))
            n0 = len(res["violations"]) + len(res["invalid"])
            for k in sorted(idx):
                merge(res, judge_x(bdir, [items[k]], pairs, confirm_pairs))
            if len(res["violations"]) + len(res["invalid"]) > n0:
                return res
        for p in confirm_pairs:
            s, got, d = u.run(p)
            if s != "ok" or got != exp:
                res["invalid"].append((items[0], "compilers disagree (%s): %s %s" % (p, s, d[:300])))
                return res
        p, s, got, d = bad[0]
        cal, cee, asm = u.src
        res["violations"].append((items, "pairing caller=%s callee=%s %s" % (p[0], p[1], s), d, exp, got, u.src))
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)


# ------------------------------------------------------------------ thunks
INTREG = ["rdi", "rsi", "rdx", "rcx", "r8", "r9"]


def scalar_size(t):
    if t.kind == "ptr":
        return 8
    if t.kind == "enum":
        return 4
    return SIZES[t.name] if t.it is None else t.it.size


def is_fp(t):
    return t.kind == "sc" and t.it is None


def byvalue_ok(ty):
    """aggregates outside the known finding KF-C07-1: padding bits introduced by bit-fields (unnamed bit-fields, storage units
    starting at the next eightbyte) take part in classification"""
    fl, odd = [False], [False]

    def walk(t):
        if t.kind == "arr":
            walk(t.el)
        elif t.kind == "sc" and t.it is None:
            fl[0] = True
        elif t.kind == "su":
            for m in t.members:
                if m.bits is not None:
                    if m.bits > 32:
                        odd[0] = odd[0] or fl[0]
                else:
                    walk(m.ty)
    walk(ty)
    return not odd[0]


def su_type(r, g):
    """aggregates around the two-eightbyte boundary, with mixed classes"""
    for _ in range(50):
        n0 = len(g.defs)
        s = _su_type(r, g)
        if byvalue_ok(s):
            return s
        del g.defs[n0:]
    raise HarnessError("no by-value type")


def _su_type(r, g):
    k = r.random()
    if k < 0.35:
        # small, all combinations of classes
        pool = ["float", "float", "double", "int", "char", "short", "long", "unsigned char"]
        n = r.randrange(1, 6)
        ms = [Mem(g.uid("m"), Sc(r.choice(pool))) for _ in range(n)]
        if r.random() < 0.3:
            ms = [Mem(g.uid("m"), Arr(Sc(r.choice(pool)), r.randrange(1, 5)))] + ms[:2]
        s = Su(r.random() < 0.15, g.uid("s"), ms)
        g.defs.append(s.define())
        return s
    g.maxm = r.choice([1, 2, 3, 4])
    return g.su(r.choice([0, 0, 1]))


def obs(ty, path, nxt):
    return "".join(observe(l, nxt()) + "\n" for l in leaves(ty, path, first_only=True))


def setv(r, ty, path):
    return "".join("%s = %s; " % (l.path, value(r, l)) for l in leaves(ty, path, first_only=True)) + "\n"


def clr(path):
    return "{ unsigned char *q_ = (unsigned char *) &%s; unsigned long z_; for (z_ = 0; z_ < sizeof %s; z_++) q_[z_] = 0; }\n" % (path, path)


def run_known_x(ck, bdir):
    """known findings in the form of a file with //--caller, //--body, //--callee parts after the common declarations;
    calls go straight to the target"""
    for k in ck.known:
        if k.get("kind") == "interop":
            t = open(os.path.join(VERIF, k["file"])).read()
            com, t = t.split("//--caller\n")
            cal, t = t.split("//--body\n")
            body, cee = t.split("//--callee\n")
            r = judge_x(bdir, [XItem(com, cal, body, cee, "")])
            if r["violations"]:
                k["seen"] = True


def thunk(name, target, ret, args, dirty, variadic=False):
    """thunk `name` -> guard_call -> target. dirty: bits the ABI leaves unspecified are filled with garbage
    (only for prototypes made of scalars, where their position is known without classifying aggregates)"""
    pre, post = [], []
    if dirty and all(a.kind != "su" for a in args) and (ret is None or ret.kind != "su"):
        ni = nx = 0
        off = 8
        for a in args:
            sz = scalar_size(a)
            if is_fp(a) and a.name == "long double":
                off = (off - 8 + 15) // 16 * 16 + 8
                pre.append("    mov dword ptr [rsp + %d], 0x5aa5f00d\n    mov word ptr [rsp + %d], 0x1bad\n" % (off + 12, off + 10))
                off += 16
            elif is_fp(a):
                if nx < 8:
                    if sz == 4:
                        pre.append("    movd dword ptr [rip + guard_gf], xmm%d\n    movdqu xmm%d, [rip + guard_gf]\n" % (nx, nx))
                    else:
                        pre.append("    movq qword ptr [rip + guard_gd], xmm%d\n    movdqu xmm%d, [rip + guard_gd]\n" % (nx, nx))
                    nx += 1
                else:
                    if sz == 4:
                        pre.append("    mov dword ptr [rsp + %d], 0x7fabcdef\n" % (off + 4))
                    off += 8
            else:
                if ni < 6:
                    if sz <= 4:
                        g = INTREG[ni]
                        g32 = {"rdi": "edi", "rsi": "esi", "rdx": "edx", "rcx": "ecx", "r8": "r8d", "r9": "r9d"}[g]
                        pre.append("    mov %s, %s\n    movabs r11, 0xdeadbeef00000000\n    or %s, r11\n" % (g32, g32, g))
                    ni += 1
                else:
                    if sz <= 4:
                        pre.append("    mov dword ptr [rsp + %d], 0x8badf00d\n" % (off + 4))
                    off += 8
        if ret is None:
            post.append("    movabs rax, 0xbad0bad0bad0bad0\n")
        elif is_fp(ret):
            if ret.name == "float":
                post.append("    movd dword ptr [rip + guard_gf], xmm0\n    movdqu xmm0, [rip + guard_gf]\n")
            elif ret.name == "double":
                post.append("    movq qword ptr [rip + guard_gd], xmm0\n    movdqu xmm0, [rip + guard_gd]\n")
        else:
            sz = scalar_size(ret)
            if sz == 1:
                post.append("    movzx eax, al\n    movabs r11, 0xa5a5a5a5a5a5a500\n    or rax, r11\n")
            elif sz == 2:
                post.append("    movzx eax, ax\n    movabs r11, 0xa5a5a5a5a5a50000\n    or rax, r11\n")
            elif sz == 4:
                post.append("    mov eax, eax\n    movabs r11, 0xa5a5a5a500000000\n    or rax, r11\n")
            post.append("    movabs rdx, 0xbad0bad0bad0bad0\n")
    if variadic:
        pre.append("    movzx eax, al\n    or rax, 0x5a5a5a00\n")
    s = ".global %s\n%s:\n%s" % (name, name, "".join(pre))
    if post:
        s += "    lea r10, [rip + %s_post]\n" % name
    else:
        s += "    lea r10, [rip + guard_ret]\n"
    s += "    lea r11, [rip + %s]\n    jmp guard_call\n" % target
    if post:
        s += "%s_post:\n%s    ret\n" % (name, "".join(post))
    return s


def _x_job(bdir, gen, seed, idx, n):
    items = gen(rng(seed, idx), n)
    r = judge_x(bdir, items)
    r["n"] = len(items)
    r["tags"] = {}
    r["hash"] = []
    for it in items:
        r["hash"].append(hashlib.sha256(it.text().encode()).digest()[:12])
        for t in it.tags:
            r["tags"][t] = r["tags"].get(t, 0) + 1
    r["sample"] = items[0].text() if idx == 0 else None
    return r


def run_x(ck, bdir, gen, programs, per, label=""):
    support(bdir)
    for r in pmap(_x_job, [(bdir, gen, (ck.pid + label, SEED), i, per) for i in range(programs)]):
        ck.evaluations += r["n"] * 3
        ck.count("prototypes", r["n"])
        ck.count("events", r["events"])
        ck.count("linked_programs", r["programs"])
        for t, n in r["tags"].items():
            ck.count("tag:" + t, n)
        ck.distinct.update(r["hash"])
        if r["sample"]:
            ck.sample(r["sample"])
        for it, why in r["invalid"]:
            ck.invalid.append((Item(it.text(), ""), why))
        for items, st, det, exp, got, src in r["violations"]:
            ck.violation(src[0] + src[1], {"caller.c": src[0], "callee.c": src[1], "thunks.s": src[2], "expected.log": exp, "observed.log": got},
                         "%s %s; %s" % (st, det, first_diff(exp, got)))
        if len(ck.violations) >= 20 or (ck.violations and time.time() - ck.t0 > 300):
            break
