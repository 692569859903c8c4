#!/usr/bin/env python3
"""Shrinks a failing case (a program over rt/chk.c events): tools/reduce.py case.c -- keeps gcc == clang == UBSan run, kefir different in the same way."""
import os, re, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import *
from multiprocessing.pool import ThreadPool

src = open(sys.argv[1]).read()
opts = sys.argv[2:]
bdir = build("plain")
body = src.replace(PRE, "")


PED = True


def outcome(s, full=False):
    wd = tempfile.mkdtemp(prefix="red", dir="/tmp")
    try:
        s = PRE + s
        st, exp, d = exec_ref(bdir, s, wd, "gcc", ["-std=c17", "-pedantic-errors", "-O0", "-fno-pie", "-fno-stack-protector"] if PED else None)
        if st != "ok":
            return None
        k, got, det = exec_kefir(bdir, s, wd, opts, timeout=5)
        if k == "ok" and got == exp:
            return None
        st, e2, d = exec_ref(bdir, s, wd, "clang", ["-std=gnu17", "-w", "-O1", "-fno-pie", "-Werror=implicit-int", "-Werror=implicit-function-declaration"], tag="c")
        if st != "ok" or e2 != exp:
            return None
        st, e2, d = exec_ref(bdir, s, wd, "gcc", UBFLAGS, tag="ub", ld=["gcc", "-no-pie", "-fsanitize=undefined,address"], runenv={"ASAN_OPTIONS": "detect_leaks=0"})
        if st != "ok" or e2 != exp:
            return None
        m = re.search(r"\|\s*([^|]*?)\s*\|", det)
        return (k, re.sub(r"\d+", "N", m.group(1)) if m and k == "reject" else (det if k != "ok" else ""))
    finally:
        shutil.rmtree(wd, ignore_errors=True)


body = re.sub(r"/\*.*?\*/", " ", body, flags=re.S)
toks = re.findall(r'#[^\n]*\n|(?:u8|[uUL])?"(?:\\.|[^"\\])*"|(?:[uUL])?\'(?:\\.|[^\'\\])*\'|\.?[0-9](?:[eEpP][+-]|[A-Za-z_0-9.])*|[A-Za-z_][A-Za-z_0-9]*|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\S', body)
tgt = outcome(body)
if tgt is None:
    PED = False
    tgt = outcome(body)
    print("not pedantically valid", file=sys.stderr)
print("target", tgt, file=sys.stderr)
if tgt is None:
    sys.exit("not reproducible")
J = lambda t: " ".join(t)
pool = ThreadPool(8)


def balanced_spans(t):
    st, out = [], []
    for i, x in enumerate(t):
        if x in "([{":
            st.append(i)
        elif x in ")]}" and st:
            out.append((st.pop(), i + 1))
    return out


changed = True
while changed:
    changed = False
    n = max(1, len(toks) // 2)
    while n >= 1:
        i = 0
        while i < len(toks):
            batch = []
            for k in range(8):
                a = i + k * n
                if a < len(toks):
                    batch.append((a, toks[:a] + toks[a + n:]))
            res = pool.map(lambda c: outcome(J(c[1])) == tgt, batch)
            hit = next((c for c, ok in zip(batch, res) if ok), None)
            if hit:
                toks = hit[1]
                changed = True
                i = hit[0]
            else:
                i += 8 * n
        n //= 2
    sp = sorted(balanced_spans(toks), key=lambda s: s[0] - s[1])
    cands = [toks[:a] + toks[b:] for a, b in sp] + [toks[:a] + toks[a + 1:b - 1] + toks[b:] for a, b in sp]
    for k in range(0, len(cands), 8):
        res = pool.map(lambda c: outcome(J(c)) == tgt, cands[k:k + 8])
        hit = next((c for c, ok in zip(cands[k:k + 8], res) if ok), None)
        if hit:
            toks, changed = hit, True
            break
print(J(toks))
print("/*", tgt, "*/")
