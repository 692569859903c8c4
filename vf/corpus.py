"""Program corpus shared by checks that need whole translation units: random units from the other checks' generators and the repository's own end-to-end units."""
import glob, importlib, os
from vf.core import *

GENS = [("c01", "gen", 6), ("c02", "gen", 5), ("c03", "gen", 4), ("c04", "gen", 4), ("c05", "gen", 3), ("c06", "gen", 3), ("c08", "lib_gen", 4), ("c09", "gen", 5), ("c10", "gen", 3), ("c11", "gen", 3), ("c15", "gen_rt", 5)]


def items(r, n=None, only=None):
    """(name, [Item])"""
    m, f, k = r.choice([g for g in GENS if only is None or g[0] in only])
    mod = importlib.import_module("vf.checks." + m)
    return m, getattr(mod, f)(r, n or k)


def unit(r, n=None, only=None):
    m, its = items(r, n, only)
    return m, program(its)


MACROS = """#define VF_ID(x) x
#define VF_CAT(a, b) a##b
#define VF_XCAT(a, b) VF_CAT(a, b)
#define VF_STR(x) #x
#define VF_XSTR(x) VF_STR(x)
#define VF_SEQ(...) __VA_ARGS__
#define VF_NEG(x) -x
"""


def macroize(r, src):
    """the same program with macros wrapped around random integer constants and identifiers"""
    import re
    out = []
    for ln in src.split("\n"):
        if ln.startswith("#") or '"' in ln or "'" in ln or "/*" in ln or ln.endswith("\\"):
            out.append(ln)
            continue

        def sub(m):
            t = m.group()
            k = r.random()
            if k < 0.05:
                return "VF_ID(%s)" % t
            if k < 0.08:
                return "VF_SEQ(%s)" % t
            if k < 0.10 and re.fullmatch("[a-z]{2,}", t):
                return "VF_XCAT(%s, %s)" % (t[:1], t[1:])
            if k < 0.11:
                return "VF_SEQ(VF_ID)(%s)" % t
            return t
        out.append(re.sub(r"(?<![\w.])(?:[A-Za-z_]\w*|[0-9](?:[eEpP][+-]|[\w.])*)", sub, ln))
    return MACROS + "\n".join(out)


def repo_units():
    """end-to-end units of the repository (compiled with its own headers)"""
    return sorted(glob.glob(os.path.join(REPO, "source/tests/end2end/*/*.c")))
