"""Shape-independent source lints shared by several properties."""
import re
from rules.common import *

WIDTH = {"unsigned char": 8, "signed char": 8, "char": 8, "unsigned short": 16, "short": 16, "bool": 1,
         "unsigned int": 32, "int": 32, "unsigned long": 64, "long": 64, "unsigned long long": 64, "long long": 64}


def width(t):
    t = re.sub(r"\b(const|volatile)\b", "", t).replace("&", "").strip()
    return WIDTH.get(t)


def walk(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if "k" in y:
                yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def bare(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren", "wrap") and e.get("ck", "implicit") == "implicit" and "e" in e and "v" not in e:
        e = e["e"]
    return e


def counters(run, prefix, funcs):
    """no loop counts in a type of at most 16 bits up to a bound held in a wider one"""
    seen = 0
    for f in funcs:
        for n in walk(f.get("body")):
            if n["k"] not in ("for", "while", "do"):
                continue
            c = n.get("c")
            c = bare(c) if c else None
            if not c or c["k"] != "bin" or c.get("op") not in ("<", "<=", ">", ">=", "!="):
                continue
            l, r = bare(c["a"]), bare(c["b"])
            for v, o in ((l, r), (r, l)):
                if not isinstance(v, dict) or v.get("k") != "ref" or v.get("dk") != "local" or not isinstance(o, dict) or "v" in o or o.get("k") in ("int", "lit"):
                    continue
                if "const" in v["t"].split():
                    continue
                wv, wo = width(v["t"]), width(o.get("t", ""))
                if not wv or not wo:
                    continue
                seen += 1
                if wv <= 16 and wo > wv and any(u["k"] in ("un", "asg") and u["op"] in ("++", "--", "+=", "-=") and (bare(u.get("e") or u.get("a")) or {}).get("id") == v["id"] for u in walk(n)):
                    run.bad("%s: loop counter in %s" % (prefix, f["q"]), "%s:%s" % (f["file"], c["l"]), "the counter %s has %d bits and the bound it is compared with %d: a larger bound is never reached" % (v["n"], wv, wo))
                else:
                    run.ok("%s: loop counter in %s line %d" % (prefix, f["q"], c["l"] - f["l"]), loc(f), "", 1)
    return seen
