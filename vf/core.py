"""Common machinery of the kefir runtime monitors: building /repo, running monitored
programs, comparing recorded event logs with the reference execution, verdicts, evidence."""
import fcntl, hashlib, json, multiprocessing, multiprocessing.pool, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
REPLAY = os.path.join(VERIF, "replays")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("VF_JOBS", str(os.cpu_count() or 8)))
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8",
       "HOME": "/tmp", "TZ": "UTC"}


class HarnessError(Exception):
    pass


def scale(quick, thorough):
    v = thorough if TIER == "thorough" else quick
    f = float(os.environ.get("VF_SCALE", "1"))
    return max(1, int(v * f))


# ------------------------------------------------------------------ processes
class R:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def crashed(self):
        return self.rc is not None and self.rc < 0


def _limits(mem, cpu, core=True, stack=None):
    import resource
    def f():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        if stack:
            resource.setrlimit(resource.RLIMIT_STACK, (stack, stack))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 29, 1 << 29))
    return f


def run(cmd, cwd=None, timeout=20, stdin=None, env=None, mem=4 << 30, maxout=64 << 20, stack=None):
    e = dict(ENV)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=_limits(mem, int(timeout) * 2 + 2, stack=stack))
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return R(p.returncode, out, err, False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return R(None, out, err, True)


# ------------------------------------------------------------------ building /repo
VARIANTS = {
    # name: (cc, compile flags, link flags)
    "plain": ("gcc", "-O1", ""),
    "aonly": ("gcc", "-O1 -g -fno-omit-frame-pointer -fsanitize=address", "-fsanitize=address"),
    "asan": ("gcc", "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all",
             "-fsanitize=address,undefined"),
    "casan": ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all",
              "-fsanitize=address,undefined"),
    "tsan": ("gcc", "-O1 -g -fsanitize=thread", "-fsanitize=thread"),
    "msan": ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-recover=all", "-fsanitize=memory"),
    "dbg": ("gcc", "-O0 -g", ""),
}


def repo_sources():
    cs, ss = [], []
    for d, ds, fs in os.walk(os.path.join(REPO, "source")):
        ds.sort()
        rel = os.path.relpath(d, REPO)
        if rel.startswith("source/tests"):
            ds[:] = []
            continue
        for f in sorted(fs):
            if f.endswith(".c"):
                cs.append(os.path.join(rel, f))
            elif f.endswith(".s") and not rel.startswith("source/runtime"):
                ss.append(os.path.join(rel, f))
    return cs, ss


def repo_digest():
    h = hashlib.sha256()
    for top in ("source", "headers"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            if "/source/tests" in d:
                ds[:] = []
                continue
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def _cc1(job):
    cmd, cwd = job
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return (p.returncode, " ".join(cmd), p.stdout.decode(errors="replace"))


def build(variant="plain"):
    """Build kefir from the working tree of /repo; returns the directory with kefir, libkefir.a, rt.o, chk.o."""
    cc, cf, lf = VARIANTS[variant]
    dig = repo_digest() + "-" + hashlib.sha256((cc + cf + lf + open(os.path.join(VERIF, "rt/chk.c")).read() + "v2").encode()).hexdigest()[:8]
    out = os.path.join(BUILD, variant + "-" + dig)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, ".ok")):
            return out
        # drop stale builds of this variant
        for d in os.listdir(BUILD):
            if d.startswith(variant + "-") and not os.environ.get("VF_KEEP"):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(os.path.join(tmp, "o"))
        cs, ss = repo_sources()
        jobs, libobjs, mainobjs = [], [], []
        for c in cs:
            o = os.path.join(tmp, "o", c.replace("/", "_") + ".o")
            (mainobjs if c.startswith("source/main/") else libobjs).append(o)
            jobs.append(([cc, "-std=c11", "-w", "-Iheaders"] + cf.split() + ["-c", c, "-o", o], REPO))
        for s in ss:
            o = os.path.join(tmp, "o", s.replace("/", "_") + ".o")
            (mainobjs if s.startswith("source/main/") else libobjs).append(o)
            jobs.append((["as", "-o", o, s], REPO))
        with multiprocessing.pool.ThreadPool(JOBS) as tp:
            for rc, cmd, txt in tp.imap_unordered(_cc1, jobs):
                if rc != 0:
                    raise HarnessError("repository does not build: %s\n%s" % (cmd, txt[:2000]))
        lib = os.path.join(tmp, "libkefir.a")
        steps = [["ar", "rcs", lib] + libobjs,
                 [cc] + lf.split() + ["-o", os.path.join(tmp, "kefir")] + mainobjs + [lib],
                 ["as", "-o", os.path.join(tmp, "rt.o"), os.path.join(REPO, "source/runtime/amd64_sysv.s")],
                 ["gcc", "-O1", "-w", "-fno-pie", "-U_FORTIFY_SOURCE", "-fcf-protection=none", "-fno-stack-protector", "-c", os.path.join(VERIF, "rt/chk.c"), "-o", os.path.join(tmp, "chk.o")]]
        for st in steps:
            rc, cmd, txt = _cc1((st, REPO))
            if rc != 0:
                raise HarnessError("link failed: %s\n%s" % (cmd[:300], txt[:2000]))
        open(os.path.join(tmp, ".ok"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return out


# ------------------------------------------------------------------ toolchain wrappers
LINK = ["musl-gcc", "-static", "-no-pie", "-Wl,-z,noexecstack"] if shutil.which("musl-gcc") else ["gcc", "-no-pie"]
REF_FLAGS = ["-U_FORTIFY_SOURCE", "-std=gnu17", "-w", "-O0", "-fno-pie", "-fno-stack-protector", "-fcf-protection=none", "-fno-strict-aliasing"]


def driver(bdir, variant, name="drv.c"):
    """rt/drv.c (or another harness of rt/) linked against the library of that build"""
    src = os.path.join(VERIF, "rt", name)
    exe = os.path.join(bdir, name[:-2] + "-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:8])
    cc, cf, lf = VARIANTS[variant]
    with open(os.path.join(BUILD, ".lock-drv-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            r = run([cc, "-std=gnu11", "-w", "-rdynamic", "-I" + os.path.join(REPO, "headers")] + cf.split() + [src, os.path.join(bdir, "libkefir.a"), "-o", exe + ".tmp", "-lpthread"] + lf.split(), timeout=300, mem=None)
            if r.rc != 0:
                raise HarnessError("driver does not build: " + r.err.decode()[:1500])
            os.rename(exe + ".tmp", exe)
    return exe


def kefir_s(bdir, src, asm, opts=(), cwd=None, timeout=60, env=None):
    return run([os.path.join(bdir, "kefir")] + list(opts) + ["-o", asm, src], cwd=cwd, timeout=timeout, env=env)


def assemble(asm, obj, cwd=None):
    return run(["as", "-o", obj, asm], cwd=cwd, timeout=60)


def link(objs, exe, cwd=None, extra=()):
    return run(LINK + list(objs) + list(extra) + ["-o", exe], cwd=cwd, timeout=60)


PRE = """void T(long, unsigned long long); void TF(long, float); void TD(long, double); void TL(long, long double);
void TB(long, const void *, unsigned long); void TS(long, const char *); void B(long); void END(void);
long long I(long long); unsigned long long U(unsigned long long); double D(double); float F(float);
long double L(long double); void *P(void *);
"""


class Item:
    """One independently observable case: file-scope declarations + a function body reporting events."""
    __slots__ = ("decls", "body", "tags", "pre")

    def __init__(self, decls, body, tags=(), pre=""):
        self.decls, self.body, self.tags, self.pre = decls, body, tuple(tags), pre


def program(items, pre=PRE):
    s = [pre]
    seen = set()
    for it in items:
        if it.pre and it.pre not in seen:
            seen.add(it.pre)
            s.append(it.pre)
    for k, it in enumerate(items):
        s.append("/*item %d %s*/\n%s\nstatic void t_%d(void) {\n%s\n}\n" % (k, ",".join(it.tags), it.decls, k, it.body))
    s.append("int main(void) {\n" + "".join("B(%d); t_%d();\n" % (k, k) for k in range(len(items))) + "END();\nreturn 0;\n}\n")
    return "".join(s)


def split_log(out):
    """event log -> ({item: [events]}, finished)"""
    res, cur, fin = {}, None, False
    for ln in out.decode("latin1").split("\n"):
        if ln.startswith("#"):
            cur = int(ln[1:].split()[0], 16)
            res[cur] = []
        elif ln.startswith("E"):
            fin = True
        elif ln:
            res.setdefault(cur, []).append(ln)
    return res, fin


class Outcome:
    def __init__(self, stage, ok, log=None, detail=""):
        self.stage, self.ok, self.log, self.detail = stage, ok, log, detail


def exec_kefir(bdir, src, wd, opts=(), timeout=20, runenv=None, extra_objs=(), runner=()):
    """compile+assemble+link+run with kefir -> (stage, log bytes, detail); stage in ok/reject/hang/asm/link/run"""
    cfile, s, o, x = (os.path.join(wd, n) for n in ("k.c", "k.s", "k.o", "k.exe"))
    with open(cfile, "w", encoding="latin1" if isinstance(src, bytes) else "utf-8") as fh:
        fh.write(src)
    for attempt in (0, 1):
        r = kefir_s(bdir, cfile, s, opts, timeout=timeout * (1 + 3 * attempt))
        if not r.timeout:
            break
    if r.timeout:
        return "hang", b"", "kefir did not finish"
    if r.rc != 0:
        return "reject", b"", "kefir exit %s: %s" % (r.rc, r.err.decode(errors="replace")[:600])
    r = assemble(s, o)
    if r.rc != 0:
        return "asm", b"", r.err.decode(errors="replace")[:600]
    r = link([o, os.path.join(bdir, "rt.o"), os.path.join(bdir, "chk.o")] + list(extra_objs), x)
    if r.rc != 0:
        return "link", b"", r.err.decode(errors="replace")[:600]
    for attempt in (0, 1):
        r = run(list(runner) + [x], cwd=wd, timeout=timeout * (1 + 2 * attempt), env=runenv)
        if not r.timeout:
            break
    if r.timeout:
        return "run", r.out, "program did not finish"
    if r.rc != 0:
        return "run", r.out, "program exit %s" % r.rc
    return "ok", r.out, ""


def exec_ref(bdir, src, wd, cc="gcc", flags=None, tag="r", timeout=30, chk=True, ld=None, extra_objs=(), runenv=None):
    cfile, o, x = (os.path.join(wd, tag + e) for e in (".c", ".o", ".exe"))
    with open(cfile, "w", encoding="latin1" if isinstance(src, bytes) else "utf-8") as fh:
        fh.write(src)
    r = run([cc] + list(REF_FLAGS if flags is None else flags) + ["-c", cfile, "-o", o], timeout=timeout)
    if r.rc != 0:
        return "reject", b"", r.err.decode(errors="replace")[:1500]
    objs = [o] + ([os.path.join(bdir, "chk.o")] if chk else []) + list(extra_objs)
    r = link(objs, x) if ld is None else run(ld + objs + ["-o", x], timeout=60)
    if r.rc != 0:
        return "link", b"", r.err.decode(errors="replace")[:600]
    r = run([x], cwd=wd, timeout=timeout, env=runenv, mem=None if ld else 4 << 30)
    if r.timeout or r.rc != 0:
        return "run", r.out, "exit %s %s" % (r.rc, r.err.decode(errors="replace")[:600])
    return "ok", r.out, ""


UBFLAGS = ["-std=gnu17", "-w", "-O0", "-g", "-fsanitize=undefined,address,float-cast-overflow,float-divide-by-zero",
           "-fno-sanitize=float-divide-by-zero", "-fno-sanitize-recover=all", "-fno-pie"]


def confirm(bdir, items, wd, exp, ub=True, pre=PRE):
    """Is the reference outcome trustworthy: independent compilers/optimisation levels agree and no UB is observed?"""
    src = program(items, pre)
    for n, (cc, fl) in enumerate([("gcc", ["-U_FORTIFY_SOURCE", "-fno-stack-protector", "-std=gnu17", "-w", "-O2", "-fno-pie"]), ("clang", ["-std=gnu17", "-w", "-O0", "-fno-pie"])]):
        st, log, det = exec_ref(bdir, src, wd, cc, fl, tag="c%d" % n)
        if st != "ok" or log != exp:
            return False, "%s %s disagrees: %s %s" % (cc, fl, st, det[:300])
    if ub:
        st, log, det = exec_ref(bdir, src, wd, "gcc", UBFLAGS, tag="ub", ld=["gcc", "-no-pie", "-fsanitize=undefined,address"],
                                runenv={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0"})
        if st != "ok" or log != exp:
            return False, "UB or instability in the case: %s %s" % (st, det[:500])
    return True, ""


def judge(bdir, items, opts=(), pre=PRE, ub=True, ref_tag="gcc"):
    """Run a batch of items. Returns dict(events, violations=[(item, stage, detail, exp, got)], invalid=[(item, why)])."""
    wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    res = {"events": 0, "violations": [], "invalid": [], "programs": 1}
    try:
        src = program(items, pre)
        st_r, exp, det_r = exec_ref(bdir, src, wd)
        if st_r != "ok":
            if len(items) > 1:
                for it in items:
                    merge(res, judge(bdir, [it], opts, pre, ub))
            else:
                res["invalid"].append((items[0], "reference %s: %s" % (st_r, det_r)))
            return res
        st_k, got, det_k = exec_kefir(bdir, src, wd, opts)
        res["events"] = exp.count(b"\n")
        if st_k == "ok" and got == exp:
            return res
        if len(items) > 1:
            bad = set()
            if st_k == "hang":
                ok, why = confirm(bdir, items, wd, exp, ub, pre)
                it = Item(src, "", ("combination",))
                (res["violations"].append((it, st_k, det_k, exp, got)) if ok else res["invalid"].append((it, why)))
                return res
            if st_k in ("ok", "run"):
                le, _ = split_log(exp)
                lg, _ = split_log(got)
                bad = {k for k in le if lg.get(k) != le[k]}
                if st_k == "run" and bad:
                    # everything after an abnormal end is missing: judge the first case affected, then the others
                    first = judge(bdir, [items[min(bad)]], opts, pre, ub)
                    if first["violations"]:
                        merge(res, first)
                        return res
            todo = [items[k] for k in sorted(bad)] or items
            n0 = len(res["violations"]) + len(res["invalid"])
            for it in todo:
                merge(res, judge(bdir, [it], opts, pre, ub))
            if len(res["violations"]) + len(res["invalid"]) == n0:
                if set(map(id, todo)) != set(map(id, items)):
                    for it in items:
                        merge(res, judge(bdir, [it], opts, pre, ub))
                if len(res["violations"]) + len(res["invalid"]) == n0:
                    # only fails in combination
                    ok, why = confirm(bdir, items, wd, exp, ub, pre)
                    it = Item(src, "", ("combination",))
                    (res["violations"].append((it, st_k, det_k, exp, got)) if ok else res["invalid"].append((it, why)))
            return res
        ok, why = confirm(bdir, items, wd, exp, ub, pre)
        if not ok:
            res["invalid"].append((items[0], why))
        else:
            res["violations"].append((items[0], st_k, det_k, exp, got))
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def merge(a, b):
    a["events"] += b["events"]
    a["programs"] += b["programs"]
    a["violations"] += b["violations"]
    a["invalid"] += b["invalid"]


# ------------------------------------------------------------------ check driver
class Check:
    """Collects observations and decides the verdict of one property."""

    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.invalid = []
        self.inconclusive = 0
        self.known = [k for k in load_known() if k["property"] == pid]
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        shutil.rmtree(os.path.join(REPLAY, pid), ignore_errors=True)

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s if len(s) < 4000 else s[:4000] + "...")

    def seen(self, x):
        self.distinct.add(hashlib.sha256(x.encode("utf-8", "replace") if isinstance(x, str) else x).digest()[:12])

    def violation(self, key, files, detail):
        """key: stable text identifying the failing input/history; files: {name: content}"""
        d = os.path.join(REPLAY, self.pid, hashlib.sha256(key.encode("utf-8", "replace")).hexdigest()[:12])
        os.makedirs(d, exist_ok=True)
        for n, c in files.items():
            with open(os.path.join(d, n), "wb") as fh:
                fh.write(c if isinstance(c, bytes) else c.encode("utf-8", "replace"))
        with open(os.path.join(d, "detail.txt"), "w") as fh:
            fh.write(detail + "\n")
        self.violations.append((key, d, detail))

    def finish(self, min_events=1):
        v = len(self.violations)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples, "counters": self.counters, "inconclusive": self.inconclusive,
               "discarded_cases": len(self.invalid)}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": v}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k in self.known:
            if k.get("seen"):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        print("%s: evaluations=%d distinct=%d counters=%s discarded=%d inconclusive=%d wall=%.1fs" % (
            self.pid, self.evaluations, len(self.distinct), json.dumps(self.counters), len(self.invalid), self.inconclusive,
            time.time() - self.t0))
        if self.invalid and os.environ.get("VF_DEBUG"):
            for x in self.invalid[:int(os.environ["VF_DEBUG"])]:
                print("DISCARDED", x[1], (x[0].decls + x[0].body)[:3000])
        if v:
            for key, d, detail in self.violations[:10]:
                print("VIOLATION property=%s replay=%s" % (self.pid, d))
                print("  " + detail.replace("\n", "\n  ")[:1500])
            sys.stdout.flush()
            sys.exit(1)
        if len(self.invalid) > max(5, 0.05 * self.evaluations):
            print("inconclusive: %d of %d cases discarded" % (len(self.invalid), self.evaluations))
            sys.exit(2)
        if self.evaluations < min_events:
            print("inconclusive: the monitors observed too little (%d)" % self.evaluations)
            sys.exit(2)
        sys.exit(0)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k.get("status") == "known"]


_G = {}


def _winit():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _wcall(a):
    fn, args = a
    try:
        return ("ok", fn(*args))
    except Exception:
        return ("err", traceback.format_exc())


def pmap(fn, argl, chunksize=1):
    with multiprocessing.Pool(JOBS, _winit) as p:
        for st, r in p.imap_unordered(_wcall, [(fn, a) for a in argl], chunksize):
            if st == "err":
                raise HarnessError(r)
            yield r


def rng(*key):
    return random.Random(hashlib.sha256(repr(key).encode()).hexdigest())


def main_guard(fn):
    try:
        fn()
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        sys.exit(3)


# ------------------------------------------------------------------ item-based checks
def _item_job(bdir, gen, seed, idx, nitems, opts, ub):
    items = gen(rng(seed, idx), nitems)
    r = judge(bdir, items, opts, ub=ub)
    r["n"] = len(items)
    r["tags"] = {}
    r["hash"] = []
    for it in items:
        r["hash"].append(hashlib.sha256((it.decls + it.body).encode("utf-8", "replace")).digest()[:12])
        for t in it.tags:
            r["tags"][t] = r["tags"].get(t, 0) + 1
    r["sample"] = items[0].decls + "\n" + items[0].body if idx == 0 else None
    return r


def item_check(pid, gen, programs, per_program, rule, opts=(), ub=True, assumptions=(), extra=None, min_items=100):
    """gen(rng, n) -> list of Item"""
    ck = Check(pid)
    ck.rule = rule
    ck.assumptions = list(assumptions)
    bdir = build("plain")
    run_items(ck, bdir, gen, programs, per_program, opts, ub)
    if extra:
        extra(ck, bdir)
    run_known(ck, bdir)
    ck.finish(min_items)


def run_items(ck, bdir, gen, programs, per_program, opts=(), ub=True, label=""):
    jobs = [(bdir, gen, (ck.pid + label, SEED), i, per_program, opts, ub) for i in range(programs)]
    for r in pmap(_item_job, jobs):
        ck.evaluations += r["n"]
        ck.count("events", r["events"])
        ck.count("programs", r["programs"])
        for t, n in r["tags"].items():
            ck.count("tag:" + t, n)
        ck.distinct.update(r["hash"])
        if r["sample"]:
            ck.sample(r["sample"])
        ck.invalid += [(it, why) for it, why in r["invalid"]]
        for it, st, det, exp, got in r["violations"]:
            report_item(ck, it, st, det, exp, got, opts)
        if len(ck.violations) >= 20 or (ck.violations and time.time() - ck.t0 > 300):
            break


def first_diff(exp, got):
    a, b = exp.decode("latin1").split("\n"), got.decode("latin1").split("\n")
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "<none>"
        y = b[i] if i < len(b) else "<none>"
        if x != y:
            return "event %d: expected %s observed %s" % (i, x, y)
    return "no difference"


def report_item(ck, it, st, det, exp, got, opts=()):
    src = it.decls if it.tags == ("combination",) else program([it])
    det = "stage=%s %s; %s\n%s" % (st, det, first_diff(exp, got) if st in ("ok", "run") else "", "tags=" + ",".join(it.tags))
    ck.violation(it.decls + it.body, {"case.c": src, "expected.log": exp, "observed.log": got, "opts.txt": " ".join(opts)}, det)


def run_known(ck, bdir):
    """Re-run the reproducers of recorded known findings of this property: seen = kefir still differs from the reference."""
    for k in ck.known:
        if k.get("kind") == "program":
            with open(os.path.join(VERIF, k["file"])) as fh:
                src = PRE + fh.read()
            wd = tempfile.mkdtemp(prefix="vf", dir="/tmp")
            try:
                st, got, det = exec_kefir(bdir, src, wd, k.get("opts", []))
                st_r, exp, _ = exec_ref(bdir, src, wd)
                if st != "ok" or got != exp:
                    k["seen"] = True
            finally:
                shutil.rmtree(wd, ignore_errors=True)
