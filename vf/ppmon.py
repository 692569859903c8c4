"""Preprocessor monitors: the token stream kefir reports is compared with the streams of two independent preprocessors."""
import os, re, shutil, tempfile
from vf.core import *
from vf import lex


class Group:
    """an independent piece of preprocessor input; text may contain any directives"""

    def __init__(self, text, tags=(), files=None, opts=()):
        self.text, self.tags, self.files, self.opts = text, tuple(tags), files or {}, tuple(opts)

    def key(self):
        return self.text + "".join("\n//-- %s\n%s" % kv for kv in sorted(self.files.items())) + " ".join(self.opts)

    def has_file(self):
        return "__FILE__" in self.key()


MARK = "vf_mark_%d"


def assemble_pp(groups):
    return "".join("%s\n%s%s" % (MARK % i, g.text, "" if g.text.endswith("\n") else "\n") for i, g in enumerate(groups)) + "vf_mark_end\n"


def split(toks):
    out, cur = {}, None
    for t in toks:
        if t[0] == "id" and t[1].startswith("vf_mark_"):
            cur = t[1][8:]
            out[cur] = []
        elif cur is not None:
            out[cur].append(t)
    return out


def write(wd, groups, name="in.c"):
    for g in groups:
        for n, c in g.files.items():
            p = os.path.join(wd, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fh:
                fh.write(c)
    with open(os.path.join(wd, name), "w") as fh:
        fh.write(assemble_pp(groups))


ENV8 = {"LC_ALL": "C.UTF-8"}


def ref_tokens(cc, wd, opts, name="in.c"):
    r = run([cc, "-E", "-P", "-std=c17", "-pedantic-errors"] + (["-Wno-newline-eof", "-Wno-comment"] if cc == "clang" else []) + list(opts) + [name], cwd=wd, timeout=30)
    if r.rc != 0:
        return None, r.err.decode("utf-8", "replace")[:500]
    if b"at least one argument" in r.err:
        return None, "not C17: the variable arguments are missing"
    try:
        return split(lex.tokens(r.out.decode("utf-8", "surrogateescape"))), ""
    except (lex.LexError, ValueError) as e:
        return None, "tokenizer: %s" % e


def kefir_tokens(bdir, wd, opts, name="in.c"):
    r = run([os.path.join(bdir, "kefir")] + list(opts) + ["--dump-tokens", name], cwd=wd, timeout=30, env=dict(os.environ, **ENV8))
    if r.rc != 0:
        return None, "exit %d: %s" % (r.rc, r.err.decode("utf-8", "replace")[-700:])
    try:
        return split(lex.dump_tokens(r.out)), ""
    except Exception as e:
        return None, "unreadable token dump: %s" % e


def judge_pp(bdir, groups, tolerate=True):
    """-> dict(events, discarded[], violations[(group, detail)])"""
    res = {"events": 0, "invalid": [], "violations": []}
    opts = groups[0].opts
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    try:
        write(wd, groups)
        g, ge = ref_tokens("gcc", wd, opts)
        if g is None:
            if len(groups) == 1:
                res["invalid"].append((groups[0], "gcc: " + ge))
                return res
            return _each(bdir, groups, res)
        c, ce = ref_tokens("clang", wd, opts)
        if c is None:
            if len(groups) == 1:
                res["invalid"].append((groups[0], "clang: " + ce))
                return res
            return _each(bdir, groups, res)
        k, ke = kefir_tokens(bdir, wd, opts)
        if k is None and len(groups) > 1:
            return _each(bdir, groups, res)
        for i, gr in enumerate(groups):
            a, b = g.get(str(i)), c.get(str(i))
            if gr.has_file():
                a, b = paths(a), paths(b)
            if a != b or a is None:
                res["invalid"].append((gr, "gcc and clang differ: %s / %s" % (lex.show(a or []), lex.show(b or []))))
                continue
            res["events"] += len(a)
            x = None if k is None else k.get(str(i))
            if x and gr.has_file():
                x = paths(x, wd)
            if x != a and not (x and "stringify" in gr.tags and collapse(x) == collapse(a)):
                if len(groups) > 1:
                    # alone first: the alarm must be reproducible from one group
                    sub = judge_pp(bdir, [gr])
                    if sub["violations"]:
                        res["violations"] += sub["violations"]
                        continue
                alt = expand_first(gr) if tolerate else None
                if alt is not None:
                    # KF-C13-6 (pinned): operands of # and ## are macro-expanded before the operator applies
                    write(wd, [alt], "alt.c")
                    y, _ = ref_tokens("gcc", wd, opts, "alt.c")
                    y = y and y.get("0")
                    if y != a:
                        if y is None or x is None or collapse(y) != collapse(x):
                            res["invalid"].append((gr, "an operand of # or ## is a macro use formed during expansion (KF-C13-6)"))
                        continue
                j = next((j for j in range(max(len(a), len(x or []))) if a[j:j + 1] != (x or [])[j:j + 1]), 0)
                res["violations"].append((gr, "kefir: %s\nfirst difference at token %d: expected %s observed %s\nexpected: %s\nobserved: %s" % (
                    ke or "ok", j, a[j:j + 1], (x or [])[j:j + 1], lex.show(a, 600), lex.show(x or [], 600))))
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def expand_first(g):
    """the group with every macro that uses # or ## called through a wrapper, so that its arguments are expanded first; None if there is none"""
    out, hit = [], False
    for ln in g.text.replace("\\\n", "").split("\n"):
        m = re.match(r"(\s*(?:#|%:)\s*define\s+)(\w+)\(([^)]*)\)(.*)", ln, re.S)
        if m and re.search(r"#|%:", m.group(4)):
            ps = m.group(3).replace("...", "__VA_ARGS__")
            out.append("#define %s(%s) %s__i(%s)" % (m.group(2), m.group(3), m.group(2), ps))
            out.append("#define %s__i(%s)%s" % (m.group(2), m.group(3), m.group(4)))
            hit = True
        else:
            out.append(ln)
    return Group("\n".join(out), g.tags, g.files, g.opts) if hit else None


def collapse(toks):
    """KF-C13-1/-2: # does not collapse white space runs and escapes ' and ? in literals; only these differences are ignored"""
    out = []
    for t in toks:
        if t[0] == "str":
            v = []
            for i, c in enumerate(t[2]):
                if c == 92 and t[2][i + 1:i + 2] in ((39,), (63,)):
                    continue
                c = 32 if c in (9, 10) and t[1] == "" else c
                if not (c == 32 and v and v[-1] == 32):
                    v.append(c)
            t = (t[0], t[1], tuple(v))
        out.append(t)
    return out


def paths(toks, wd=None):
    """file names modulo ./ and dir/../ segments and modulo absolute or relative spelling of the working directory"""
    out = []
    for t in toks or []:
        if t[0] == "str" and t[1] == "" and t[2]:
            n = "".join(map(chr, t[2]))
            if wd:
                n = n.replace(wd + "/", "")
            t = (t[0], t[1], tuple(os.path.normpath(n).encode("latin-1")))
        out.append(t)
    return out


def _each(bdir, groups, res):
    for g in groups:
        s = judge_pp(bdir, [g])
        res["events"] += s["events"]
        res["invalid"] += s["invalid"]
        res["violations"] += s["violations"]
    return res


def _pp_job(bdir, gen, seed, idx, n):
    groups = gen(rng(seed, idx), n)
    r = judge_pp(bdir, groups)
    r["n"] = len(groups)
    r["hash"] = [hashlib.sha256(g.key().encode("utf-8", "replace")).digest()[:12] for g in groups]
    r["tags"] = {}
    for g in groups:
        for t in g.tags:
            r["tags"][t] = r["tags"].get(t, 0) + 1
    r["sample"] = groups[0].key() if idx == 0 else None
    return r


def run_pp(ck, bdir, gen, files, per_file, label=""):
    jobs = [(bdir, gen, (ck.pid + label, SEED), i, per_file) for i in range(files)]
    for r in pmap(_pp_job, jobs):
        ck.evaluations += r["n"]
        ck.count("tokens_compared", r["events"])
        for t, n in r["tags"].items():
            ck.count("tag:" + t, n)
        ck.distinct.update(r["hash"])
        if r["sample"]:
            ck.sample(r["sample"])
        for g, why in r["invalid"]:
            ck.invalid.append((Item(g.key(), "", g.tags), why))
        for g, det in r["violations"]:
            fs = {"case.c": assemble_pp([g]), "opts.txt": " ".join(g.opts)}
            fs.update({n.replace("/", "__"): c for n, c in g.files.items()})
            ck.violation(g.key(), fs, det)
        if len(ck.violations) >= 20:
            break


def run_known_pp(ck, bdir):
    """known findings of kind "pp": a file holding one group"""
    for k in ck.known:
        if k.get("kind") == "pp":
            with open(os.path.join(VERIF, k["file"])) as fh:
                g = Group(fh.read())
            if judge_pp(bdir, [g], False)["violations"]:
                k["seen"] = True
