#!/usr/bin/env python3
"""Development aid, not a check: plants small textual changes (operator,
constant, condition, dropped statement) in a scratch copy of /repo/src and
reports which of the named checks notice each.
usage: mutate.py SEED COUNT WORKERS SCRATCH "P01 P02" file[:first-last] ..."""
import os, random, re, shutil, subprocess, sys, threading, queue, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUBS = [
    (r"(?<![<>=!\-])<(?![<=])(?=\s)", "<="), (r"<=", "<"), (r"(?<![<>=!\-])>(?![>=])(?=\s)", ">="), (r">=", ">"),
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"),
    (r"<<(?=\s*\d)", ">>"), (r">>(?=\s*\d)", "<<"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\+=", "-="), (r"-=", "+="), (r"\|=", "="), (r"(?<=[\s(])!(?=\w)", ""),
    (r"\b\d+\b", lambda m: str(int(m.group(0)) + 1)), (r"\b[1-9]\d*\b", lambda m: str(int(m.group(0)) - 1)),
    (r"\bwidth\b", "height"), (r"\brow\b", "column"), (r"\bcolumn\b", "row"), (r"\bx\b", "y"), (r"\by\b", "x"),
    (r"\buint32_t\b", "uint16_t"), (r"\buint16_t\b", "uint8_t"), (r"\bint16_t\b", "int8_t"), (r"\bGOLDEN", "ALTREF"), (r"\bgolden\b", "last"), (r"\balternative\b", "golden"),
    (r"\bmax\b", "min"), (r"\bmin\b", "max"), (r"\bU\b\(\)", "V()"), (r"\bV\(\)", "U()"), (r"\babove\b", "left"), (r"\bleft\b", "above"),
]


def candidates(path, lo, hi):
    out = []
    lines = open(path).read().split("\n")
    depth = False
    for i, l in enumerate(lines):
        if not (lo <= i + 1 <= hi) or i < 27:
            continue
        s = l.strip()
        if s.startswith(("//", "*", "/*", "#", "using", "template", "assert", "cerr", "throw")) or not s:
            continue
        if "assert" in s or "cerr" in s or "Invalid" in s or "operator<<" in s:
            continue
        code = re.sub(r"//.*|/\*.*?\*/", lambda m: " " * len(m.group(0)), l)
        for pat, rep in SUBS:
            for m in re.finditer(pat, code):
                if '"' in code:
                    continue
                if "template" in code or "class " in code or "struct " in code:
                    continue
                new = l[:m.start()] + (rep(m) if callable(rep) else rep) + l[m.end():]
                out.append((i, new))
        if s.endswith(";") and not re.match(r"(return|const |static |[\w:<>]+ \w+( =|;)|break|continue|\}|typedef|[\w:<>&,\s]+\(.*\)( const)?;)", s) and s.count("(") == s.count(")"):
            out.append((i, l[:len(l) - len(l.lstrip())] + ";"))
    return lines, out


def main():
    seed, count, workers, scratch = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    props = sys.argv[5].split()
    pool = []
    for a in sys.argv[6:]:
        f, _, r = a.partition(":")
        lo, hi = (int(x) for x in r.split("-")) if r else (1, 10 ** 6)
        lines, c = candidates("/repo/" + f, lo, hi)
        pool += [(f, i, new) for i, new in c]
    random.Random(seed).shuffle(pool)
    seen, pick = set(), []
    for f, i, new in pool:   # at most two per line
        k = (f, i)
        if sum(1 for x in seen if x[:2] == k) >= 2:
            continue
        seen.add((f, i, new))
        pick.append((f, i, new))
    pick = pick[:count]
    q = queue.Queue()
    for n, p in enumerate(pick):
        q.put((n, p))
    lock = threading.Lock()

    def work(w):
        d = os.path.join(scratch, "w%d" % w)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/tu")
        subprocess.run(["cp", "-a", "/repo/src", d + "/repo.src"], check=True)
        os.makedirs(d + "/repo")
        os.rename(d + "/repo.src", d + "/repo/src")
        os.makedirs(d + "/verif/.cache")
        for x in ("vf", "spec", "afx", "check.sh", "known-findings.txt"):
            subprocess.run(["cp", "-a", VERIF + "/" + x, d + "/verif/"], check=True)
        for x in glob.glob(VERIF + "/.cache/afx-*"):
            subprocess.run(["cp", "-a", x, d + "/verif/.cache/"])
        env = dict(os.environ, VF_REPO=d + "/repo", VF_TUCACHE=d + "/tu")
        while True:
            try:
                n, (f, i, new) = q.get_nowait()
            except queue.Empty:
                break
            path = d + "/repo/" + f
            old = open(path).read()
            lines = old.split("\n")
            was = lines[i]
            lines[i] = new
            open(path, "w").write("\n".join(lines))
            # compiles?
            res = []
            if f.endswith(".cc"):
                tus = [path]
            else:
                base = os.path.basename(f)
                tus = [x for x in glob.glob(d + "/repo/src/*/*.cc") if base in open(x).read()][:2] or [d + "/repo/src/decoder/decoder.cc"]
            ok = True
            for t in tus:
                r = subprocess.run(["g++", "-std=c++14", "-fsyntax-only", "-Werror=narrowing", "-include", "cstdint", "-w", "-I" + VERIF + "/vf"] + ["-I%s/repo/src/%s" % (d, x) for x in ("util", "decoder", "input", "encoder", "net", "display")] + ["-DHAVE_CONFIG_H", t], capture_output=True, text=True)
                ok = ok and r.returncode == 0
            if ok:
                for p in props:
                    r = subprocess.run(["timeout", "900", d + "/verif/check.sh", p, "quick"], capture_output=True, text=True, env=env)
                    und = re.search(r"(\d+) undecided", r.stdout)
                    res.append("%s:%s%s" % (p, {0: "quiet", 1: "CAUGHT", 2: "noanswer"}.get(r.returncode, r.returncode), "(u%s)" % und.group(1) if und and und.group(1) != "0" else ""))
                    if r.returncode == 1:
                        break
            else:
                res = ["nocompile"]
            open(path, "w").write(old)
            with lock:
                tag = "SURVIVED" if ok and not any("CAUGHT" in x for x in res) else ""
                print("%s %s | %s:%d | %s | => %s" % (tag, " ".join(res), f, i + 1, was.strip(), new.strip()), flush=True)
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
