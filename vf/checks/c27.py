"""C27: command-line options do what they say."""
import json, re
from vf.core import *

ACTIONS = {"asm": ["--dump-asm"], "default": [], "ir": ["--dump-ir"], "ast": ["--dump-ast"], "tokens": ["--dump-tokens"], "pp": ["-p"], "pp2": ["--preprocess"], "rt": ["--dump-runtime-code"], "help": ["-h"], "help2": ["--help"], "version": ["-v"], "version2": ["--version"]}
FEAT = {"statement-expressions": "int fs(int a) { return ({ int q = a; q + 1; }); }\n", "labels-as-values": "void *fl(void) { x: return &&x; }\n", "omitted-conditional-operand": "int fo(int a) { return a ?: 2; }\n",
        "missing-function-return-type": "fm(void) { return 0; }\n", "implicit-function-decl": "int fi(int a) { return undeclared_fn(a); }\n", "empty-structs": "struct es { }; int fe(void) { struct es e; (void) e; return 3; }\n",
        "designated-init-colons": "struct dc { int a, b; } vdc = { b: 3, a: 4 };\n"}


def snapshot(d):
    s = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            if os.path.isfile(p) and not os.path.islink(p):
                s[os.path.relpath(p, d)] = open(p, "rb").read()
        for x in dirs:
            s[os.path.relpath(os.path.join(root, x), d) + "/"] = b""
    return s


def norm(t):
    return re.sub(r"\s+", " ", re.sub(r"(?<=\W)\s+|\s+(?=\W)", "", t)).strip()


def gen(r, wd):
    """-> dict with argv, stdin, expectation"""
    W = lambda p, t: (os.makedirs(os.path.dirname(os.path.join(wd, p)) or wd, exist_ok=True), open(os.path.join(wd, p), "w").write(t))
    tags, groups = set(), []
    body, exp = "int first;\n", "int first;\n"
    fail = None  # why a diagnostic is due
    # ---- include directories
    nd = r.randrange(0, 4)
    order = [r.randrange(5) for _ in range(nd)]
    for k in range(5):
        W("inc%d/u%d.h" % (k, k), "int u%d = %d;\n" % (k, k + 40))
        W("inc%d/sub/v.h" % k, "int v = %d;\n" % (k + 60))
        if k % 2 == 0:
            W("inc%d/h.h" % k, "int h = %d;\n" % k)
    skip = r.random() < .12
    dirforms = {}
    for k in order:
        d = r.choice(["inc%d", "./inc%d", "inc%d/", wd + "/inc%d", "inc0/../inc%d"]) % k
        groups.append(r.choice([["-I", d], ["-I" + d], ["--include-path", d], ["--include-path=" + d], ["--include-dir", d]]))
        tags.add("include path")
    if r.random() < .2:
        groups.append(["-I", r.choice(["nonexistent", "main.c", "inc1/u1.h"])])
    inp_dir = r.choice(["", "", "src/"])
    if not skip and order:
        for k in sorted(set(order)):
            if r.random() < .6:
                body += r.choice(["#include <u%d.h>\n", '#include "u%d.h"\n']) % k
                exp += "int u%d = %d;\n" % (k, k + 40)
        h = [k for k in order if k % 2 == 0]
        if h and r.random() < .7:
            body += "#include <h.h>\n"
            exp += "int h = %d;\n" % h[0]
            tags.add("include order")
        if r.random() < .5:
            body += "#include <sub/v.h>\n"
            exp += "int v = %d;\n" % (order[0] + 60)
            tags.add("include order")
    # ---- definitions
    names = ["A", "BB", "C_1", "DEBUG", "E2", "_F", "X" * 40]
    for n in r.sample(names, r.randrange(0, 5)):
        v = r.choice([None, "", "1", "5 + 2", "(7)", "'x'", "\"s t\"", "x==y", "0x1f", "a.b", "-3", "-o", " 9 ", "A"])
        arg = n if v is None else n + "=" + v
        groups.append(r.choice([["-D", arg], ["-D" + arg], ["--define", arg], ["--define=" + arg]]))
        if skip:
            continue
        tags.add("definitions")
        body += "#ifdef %s\nint d_%s;\n#else\nint nd_%s;\n#endif\n" % (n, n, n)
        exp += "int d_%s;\n" % n
        if v is not None and "A" not in v and "x=" not in v and "a.b" not in v and v != "-o":
            if v.strip() == "":
                body += "int e_%s %s;\n" % (n, n)
                exp += "int e_%s;\n" % n
            elif '"' in v:
                body += "char s_%s[] = %s;\n" % (n, n)
                exp += "char s_%s[] = %s;\n" % (n, v)
            else:
                body += "int v_%s = %s;\n" % (n, n)
                exp += "int v_%s = %s;\n" % (n, v.strip())
    if not skip and r.random() < .3:
        body += "#ifndef UNDEFINED_ANYWHERE\nint absent;\n#endif\n"
        exp += "int absent;\n"
    # ---- included files
    pre = ""
    for i in range(r.choice([0, 0, 0, 1, 2, 3])):
        if skip and True:
            break
        nl = r.choice(["\n", "\n", ""])
        W("pre%d.h" % i, "#define PRE%d %d\n#ifdef PRE%d\nint chained%d;\n#endif\nint pre%d = PRE%d;%s" % (i, i + 5, i - 1, i, i, i, nl))
        groups.append(["--include", "pre%d.h" % i] if r.random() < .7 else ["--include=" + wd + "/pre%d.h" % i])
        pre += ("int chained%d;\n" % i if i else "") + "int pre%d = %d;\n" % (i, i + 5)
        body += "int after%d = PRE%d;\n" % (i, i)
        exp += "int after%d = %d;\n" % (i, i + 5)
        tags.add("included files")
    pre_order = [g for g in groups if g[0].startswith("--include") and "pre" in g[-1]]
    # ---- timestamp, names
    sid = None
    ts = None
    if r.random() < .3:
        ts = r.randrange(0, 2000000000)
        groups.append(r.choice([["--pp-timestamp", str(ts)], ["--pp-timestamp=%d" % ts]]))
        if not skip:
            import time
            tm = time.gmtime(ts)
            body += "char date[] = __DATE__;\nchar tim[] = __TIME__;\n"
            exp += "char date[] = \"%s %2d %d\";\nchar tim[] = \"%s\";\n" % (time.strftime("%b", tm), tm.tm_mday, tm.tm_year, time.strftime("%H:%M:%S", tm))
            tags.add("timestamp")
    if r.random() < .3:
        sid = r.choice(["my id.c", "x", "weird/../name", "q'q"])
        groups.append(["--source-id", sid])
        tags.add("source id")
    # ---- features, the last toggle decides
    feats = {}
    for f in r.sample(sorted(FEAT), r.choice([0, 0, 1, 2, 3])):
        tog = [r.random() < .6 for _ in range(r.choice([1, 1, 2, 3]))]
        feats[f] = tog
    for f, tog in feats.items():
        if f == "empty-structs" and not tog[-1]:
            continue  # accepted either way
        body += FEAT[f]
        exp += FEAT[f]
        tags.add("features")
    # ---- action and reporting
    act = r.choice([["default"], ["default"], ["asm"], ["ir"], ["ast"], ["tokens"], ["pp"], ["pp2"], ["pp"], ["rt"], ["help"], ["version"], ["help2"], ["version2"], r.sample(sorted(set(ACTIONS) - {"default", "help", "help2", "version", "version2", "pp", "pp2"}), 2), ["tokens", "pp"], ["pp", "ir"]])
    if skip and any(a.startswith("pp") for a in act):
        act = ["pp"]  # with -P: not to be combined
        fail = "options"
    final = {"default": "asm", "pp2": "pp", "help2": "help", "version2": "version"}.get(act[-1], act[-1])
    rep = [r.choice(["--json-errors", "--tabular-errors"]) for _ in range(r.choice([0, 0, 1, 2]))]
    js = bool(rep) and rep[-1] == "--json-errors"
    seqs = [[ACTIONS[a] for a in act if ACTIONS[a]], [[x] for x in rep]] + [[["--%sfeature-%s" % ("" if t else "no-", f)] for t in tog] for f, tog in feats.items()]
    iseq = [g for g in groups if g[0].startswith("-I") or g[0].startswith("--include-")]
    pseq = pre_order
    rest = [g for g in groups if g not in iseq and g not in pseq]
    if skip:
        seqs[0].insert(r.randrange(len(seqs[0]) + 1), r.choice([["-P"], ["--skip-preprocessor"]]))
        tags.add("skip preprocessor")
    detailed = r.random() < .15
    if detailed:
        rest.append(["--detailed-output"])
    profile = r.random() < .1
    if profile:
        rest.append(["--target-profile", "amd64-sysv-gas"])
    # ---- source text and errors in it
    need_pre = False
    srcerr = None
    k = r.random()
    analysed = final in ("asm", "ir", "ast")
    if k < .08:
        body += "int bad = ;\n"
        exp += "int bad = ;\n"
        srcerr = "syntax"
    elif k < .14:
        body += "int worse(void) { return nosuchname; }\n"
        exp += "int worse(void) { return nosuchname; }\n"
        srcerr = "syntax"
    elif k < .2 and not skip:
        body += r.choice(["#error stop\n", "#include <really/nosuch.h>\n", "#if 1 +\n#endif\n"])
        srcerr = "pp"
    # ---- input
    isrc = r.choice(["file", "file", "file", "stdin", "abs", "dot", "fifo"])
    path = inp_dir + r.choice(["main.c", "a b.c", "noext", "-x.c", "ü.c"])
    if path == "-x.c":
        isrc = r.choice(["dot", "abs"])
    argv_in = {"file": path, "abs": wd + "/" + path, "dot": "./" + path, "stdin": None, "fifo": "/dev/stdin"}[isrc]
    shown = sid or (argv_in if argv_in is not None else "<stdin>")
    if not skip and r.random() < .3 and final == "pp":
        body += "char file[] = __FILE__;\n"
        exp += 'char file[] = "%s";\n' % shown.replace("'", "\\'")
        tags.add("source id")
    W(path, body)
    stdin = body.encode() if isrc in ("stdin", "fifo") else None
    # ---- output
    outs = []
    ok_out = None
    if r.random() < .75:
        ok_out = r.choice(["out.s", "dir with space/o", "out.s", "./o.txt", wd + "/abs.out"])
        os.makedirs(os.path.join(wd, "dir with space"), exist_ok=True)
        if r.random() < .3:
            W(os.path.relpath(os.path.join(wd, ok_out), wd), "old contents\n" * 5000)
        if r.random() < .1:
            outs.append(["-o", "overridden.out"])
        outs.append(r.choice([["-o", ok_out], ["-o" + ok_out], ["--output", ok_out], ["--output=" + ok_out]]))
        tags.add("output file")
    # ---- broken requests
    tail = [] if argv_in is None else [argv_in]
    k = r.random()
    if fail is None and k < .03:
        rest.append([r.choice(["--nosuchoption", "-q", "--feature-nosuch", "--dump-nosuch"])]); fail = "options"
    elif fail is None and k < .06 and tail:
        tail = tail + ["second.c"]; fail = "options"; W("second.c", "int s;\n")
    elif fail is None and k < .09:
        if final not in ("help", "version", "rt"):
            tail = [r.choice(["missing.c", "missingdir/x.c", "inc0"])]; fail = "input"; stdin = None
    elif fail is None and k < .12 and final not in ("help", "version"):
        outs = [["-o", r.choice(["missingdir/out", "inc0", "/dev/full"])]]; fail = "output"; ok_out = None
    elif fail is None and k < .14 and final not in ("help", "version") and not profile:
        rest.append(["--target-profile", "nosuch"]); fail = "profile"
    elif fail is None and k < .16:
        rest.append([]); tail = [r.choice(["-o", "-I", "-D", "--include", "--define", "--pp-timestamp", "--source-id"])]; fail = "options"
    elif fail is None and k < .18 and not skip and final in ("asm", "ir", "ast", "tokens", "pp"):
        pseq = pseq + [["--include", "missing_pre.h"]]; fail = "input"
    fe_off = [f for f in feats if not feats[f][-1] and f != "empty-structs"]
    if fail is None and final in ("asm", "ir", "ast", "tokens", "pp"):
        if srcerr == "pp" or (srcerr and analysed) or (fe_off and analysed):
            fail = "source"
        if fe_off and set(fe_off) <= {"labels-as-values"} and False:
            fail = None
    # interleave the option groups, keeping the order inside each sequence
    seqs += [iseq, pseq, outs] + [[g] for g in rest if g]
    seqs = [list(s) for s in seqs if s]
    argv = []
    while seqs:
        s = r.choice(seqs)
        argv += s.pop(0)
        seqs = [x for x in seqs if x]
    if tail and r.random() < .1 and fail != "options":
        argv.append("--")
    argv += tail
    return {"argv": argv, "stdin": stdin, "fail": fail, "final": final, "out": ok_out, "exp": pre + exp, "skip": skip, "body": body, "shown": shown, "json": js, "detailed": detailed, "tags": tags,
            "srcerr": srcerr, "feats": [f for f in feats if feats[f][-1]], "fe_off": fe_off, "over": ["overridden.out"] in [g[1:] for g in outs]}


def names(err, c):
    if not c["json"]:
        return c["shown"] + "@" in err
    return any((e.get("source_location") or {}).get("source") == c["shown"] for e in json.loads(err))


def observe(bdir, wd, c, help_txt):
    env = {"LC_ALL": "C.UTF-8", "TZ": "UTC"}
    kef = os.path.join(bdir, "kefir")
    before = snapshot(wd)
    rr = run([kef] + c["argv"], cwd=wd, timeout=30, stdin=c["stdin"] if c["stdin"] is not None else b"", env=env)
    after = snapshot(wd)
    err = rr.err.decode(errors="replace")
    ev = 4
    if rr.timeout:
        return "does not end", ev
    outname = os.path.relpath(os.path.join(wd, c["out"]), wd) if c["out"] else None
    changed = sorted(f for f in set(before) | set(after) if before.get(f) != after.get(f))
    if [f for f in changed if f != outname]:
        return "files changed that are not the output: %s" % changed, ev
    if c["fail"]:
        if rr.rc != 1:
            return "status %s where a failure (%s) is due" % (rr.rc, c["fail"]), ev
        if not err.strip():
            return "failure without a diagnostic", ev
        if rr.out:
            return "failure with output on stdout", ev
        if outname and after.get(outname) and after.get(outname) != before.get(outname):
            return "failure with a nonempty output file", ev
        if c["json"] and c["fail"] != "options":
            try:
                json.loads(err)
            except ValueError:
                return "diagnostic is not JSON although requested", ev
        if not c["json"] and c["fail"] != "options" and "Error stack" not in err:
            return "diagnostic is not a table", ev
        if c["fail"] == "source" and c["srcerr"] == "syntax" and not c["fe_off"] and "chained" not in c["exp"] and not names(err, c) and "'" not in c["shown"]:
            return "the diagnostic does not name %s" % c["shown"], ev
        return None, ev + 2
    if rr.rc != 0:
        return "status %s: %s" % (rr.rc, err[:400]), ev
    if err:
        return "success with a diagnostic", ev
    if c["final"] == "help":
        return (None if rr.out == help_txt else "help text differs"), ev
    if c["final"] == "version":
        return (None if re.fullmatch(rb"\d+\.\d+\.\d+\n", rr.out) else "version differs"), ev
    if outname:
        if outname not in after:
            return "the output file is missing", ev
        if rr.out:
            return "output on stdout although a file is requested", ev
        got = after[outname]
    else:
        got = rr.out
    if c["final"] == "rt":
        return (None if b"__kefirrt_" in got and run([kef, "--dump-runtime-code"]).out == got else "runtime code differs"), ev
    if c["final"] == "pp":
        g, e = norm(got.decode(errors="replace")), norm(c["exp"])
        return (None if g == e else "preprocessed text differs:\n%s\nexpected:\n%s" % (g, e)), ev + 1
    # the same artefact from the plainest request on the equivalent unit
    with open(os.path.join(wd, "canon.c"), "w") as fh:
        fh.write(c["body"] if c["skip"] else c["exp"])
    o = {"asm": [], "ir": ["--dump-ir"], "ast": ["--dump-ast"], "tokens": ["--dump-tokens"]}[c["final"]]
    k = run([kef, "-P"] + o + ["--feature-" + f for f in c["feats"]] + ["canon.c"], cwd=wd, timeout=30, env=env)
    if k.rc != 0:
        return "the equivalent unit is rejected: " + k.err.decode(errors="replace")[:300], ev
    if c["detailed"] and c["final"] in ("ast", "tokens"):
        try:
            txt = json.dumps(json.loads(got))
        except ValueError:
            return "detailed dump is not JSON", ev
        if (c["shown"] not in txt.encode().decode("unicode_escape", "replace")) and c["exp"] and '"' not in c["shown"] and c["shown"].isascii():
            return "detailed dump does not name the source", ev
        return None, ev + 1
    if k.out != got:
        return "the artefact differs from that of the equivalent unit (%d against %d bytes)" % (len(got), len(k.out)), ev
    return None, ev + 1


def job(bdir, help_txt, seed, idx, n):
    r = rng(seed, idx)
    out = {"n": 0, "ev": 0, "tags": {}, "bad": [], "hash": [], "fails": {}, "acts": {}}
    for _ in range(n):
        wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
        try:
            c = gen(r, wd)
            why, ev = observe(bdir, wd, c, help_txt)
            out["n"] += 1
            out["ev"] += ev
            for t in c["tags"]:
                out["tags"][t] = out["tags"].get(t, 0) + 1
            out["acts"][c["final"]] = out["acts"].get(c["final"], 0) + 1
            if c["fail"]:
                out["fails"][c["fail"]] = out["fails"].get(c["fail"], 0) + 1
            out["hash"].append(hashlib.sha256("\0".join(c["argv"]).replace(wd, "").encode()).digest()[:12])
            if why:
                out["bad"].append((re.sub(r"/tmp/vf\w+", "", why)[:60], why, " ".join("'%s'" % a for a in c["argv"]), c["body"], c["exp"]))
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    return out


def main():
    ck = Check("C27")
    bdir = build("plain")
    help_txt = open(os.path.join(REPO, "source/main/help.txt"), "rb").read()
    seen = set()
    for o in pmap(job, [(bdir, help_txt, ("C27", SEED), i, 20) for i in range(scale(90, 3000))]):
        ck.evaluations += o["n"]
        ck.count("observations", o["ev"])
        for p, d in (("with ", o["tags"]), ("action ", o["acts"]), ("failing request: ", o["fails"])):
            for k, v in d.items():
                ck.count(p + k, v)
        ck.distinct.update(o["hash"])
        for key, why, argv, body, exp in o["bad"]:
            if key in seen:
                continue
            seen.add(key)
            ck.violation(key, {"argv.txt": argv, "body.c": body, "expected.c": exp, "why.txt": why}, "%s\nkefir %s" % (why, argv))
    ck.rule = "one evaluation = one random command line run in a scratch directory; monitors: status, stdout, stderr, a before/after snapshot of the file system, the preprocessed text computed independently, and for the other artefacts equality with the plainest request on the equivalent preprocessed unit; distinct by command line"
    ck.assumptions = ["defining one macro twice on the command line is not explored (kefir diagnoses it)"]
    ck.finish(min_events=500)
