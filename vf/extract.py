"""Builds the extractor, runs it over every translation unit of /repo's
current tree, and merges the results into one resolved program."""
import hashlib, json, os, pickle, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
AFX_SRC = os.path.join(VERIF, "afx", "afx.cc")
DIRS = ["util", "decoder", "input", "encoder", "net", "display", "frontend", "salsify"]


class AnalysisBroken(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def readb(p):
    with open(p, "rb") as f:
        return f.read()


def afx_binary():
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "afx-" + sha(readb(AFX_SRC)))
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    llvm = "/usr/lib/llvm-18"
    cmd = ["clang++-18" if shutil.which("clang++-18") else "clang++", "-O1", "-std=c++17", "-fno-rtti", "-w",
           "-I" + llvm + "/include", AFX_SRC, "-o", tmp,
           llvm + "/lib/libclang-cpp.so.18.1", llvm + "/lib/libLLVM.so"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("extractor does not build:\n" + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def tu_list():
    """(file, ndebug) for every .cc named in a *_SOURCES of a src/*/Makefile.am;
    a .cc that another .cc #includes and that does not parse alone is dropped later."""
    tus = []
    for d in DIRS:
        mk = os.path.join(REPO, "src", d, "Makefile.am")
        if not os.path.exists(mk):
            continue
        txt = open(mk, errors="replace").read().replace("\\\n", " ")
        nd = "NODEBUG_CXXFLAGS" in txt
        for m in re.finditer(r"^\s*\w+_SOURCES\s*\+?=(.*)$", txt, re.M):
            for w in m.group(1).split():
                if w.endswith(".cc"):
                    tus.append((os.path.join(REPO, "src", d, w), nd))
    seen, out = set(), []
    for t in tus:
        if t[0] not in seen and os.path.exists(t[0]):
            seen.add(t[0])
            out.append(t)
    return out


def flags(nd):
    f = ["-std=c++14", "-include", "cstdint", "-DHAVE_CONFIG_H", "-w", "-ferror-limit=0", "-I" + HERE,
         "-resource-dir=" + resource_dir()]
    if nd:
        f.append("-DNDEBUG")
    for d in ["util", "decoder", "input", "encoder", "net", "display"]:
        f.append("-I" + os.path.join(REPO, "src", d))
    return f


_rd = []


def resource_dir():
    if not _rd:
        r = subprocess.run(["clang++-18" if shutil.which("clang++-18") else "clang++", "-print-resource-dir"], capture_output=True, text=True)
        _rd.append(r.stdout.strip())
    return _rd[0]


def run_afx(afx, roots, f, nd, extra=()):
    tc = os.environ.get("VF_TUCACHE")  # development only: reuse units whose text did not change
    if not tc or extra:
        return run_afx1(afx, roots, f, nd, extra)
    deps = [readb(f), f.encode(), afx.encode()]
    for d in DIRS:
        dd = os.path.join(REPO, "src", d)
        if os.path.isdir(dd):
            deps += [readb(os.path.join(dd, x)) for x in sorted(os.listdir(dd)) if x.endswith((".hh", ".h"))]
    for m in re.finditer(rb'#include "([\w.]+\.cc)"', deps[0]):
        p = os.path.join(os.path.dirname(f), m.group(1).decode())
        if os.path.exists(p):
            deps.append(readb(p))
    key = os.path.join(tc, sha(*deps))
    if os.path.exists(key):
        with open(key, "rb") as h:
            return pickle.load(h)
    r = run_afx1(afx, roots, f, nd, extra)
    with open(key, "wb") as h:
        pickle.dump(r, h, protocol=4)
    return r


def run_afx1(afx, roots, f, nd, extra=()):
    with tempfile.NamedTemporaryFile(suffix=".json", dir=CACHE, delete=False) as t:
        out = t.name
    try:
        r = subprocess.run([afx, roots, out, f, "--"] + flags(nd) + list(extra), capture_output=True, text=True)
        raw = readb(out)
        if not raw:
            return {"functions": [], "records": [], "vars": [], "enums": [], "types": [], "errors": 999, "errs": ["no output"], "stderr": r.stderr[-1500:]}
        d = json.loads(raw)
        d["errs"] = [l for l in r.stderr.splitlines() if " error: " in l]
        d["stderr"] = r.stderr[-1500:] if d["errors"] else ""
        return d
    finally:
        os.unlink(out)


class Program:
    def __init__(self):
        self.fns = {}      # usr -> function
        self.records = {}  # name -> record
        self.vars = {}     # usr -> var
        self.enums = {}    # qname -> enum
        self.units = []
        self.nfn_raw = 0
        self.errors = []
        self.other = {}    # unit -> functions another unit defines differently

    def unit(self, path):
        """the program as linked with this unit"""
        if path not in self.other:
            return self
        p = Program.__new__(Program)
        p.__dict__.update(self.__dict__)
        p.fns = dict(self.fns)
        p.fns.update(self.other[path])
        return p

    def add(self, d, path):
        types = d["types"]
        self.units.append(path)

        def fix(x):
            # type indices -> strings, in place
            if isinstance(x, dict):
                for k in ("t", "ret", "ct", "rt", "st", "at", "ft", "tt", "nt", "base"):
                    v = x.get(k)
                    if type(v) is int and not (k == "t" and x.get("k") == "if") and not (k == "st" and x.get("k") in ("call", "ref", "mem")):
                        if k == "st" and x.get("k") != "sizeof":
                            continue
                        x[k] = types[v] if v >= 0 else ""
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        fix(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        fix(v)
        for f in d["functions"]:
            self.nfn_raw += 1
            key = f["f"]
            if key in self.fns:
                if rel(f["file"]) != self.fns[key]["file"] and rel(f["file"]) == path:
                    # the same name in another program: main and its helpers
                    fix(f)
                    f["file"] = rel(f["file"])
                    self.other.setdefault(path, {})[key] = f
                continue
            fix(f)
            f["file"] = rel(f["file"])
            self.fns[key] = f
        for r in d["records"]:
            if r["n"] in self.records:
                continue
            fix(r)
            r["file"] = rel(r["file"])
            self.records[r["n"]] = r
        for v in d["vars"]:
            o = self.vars.get(v["id"])
            if o is None or ("val" in v and "val" not in o) or (v.get("def") and not o.get("def")) or ("init" in v and "init" not in o):
                fix(v)
                v["file"] = rel(v["file"])
                self.vars[v["id"]] = v
        for e in d["enums"]:
            e["file"] = rel(e["file"])
            self.enums.setdefault(e["q"], e)


def rel(p):
    p = os.path.normpath(p)
    for r in (REPO + "/", VERIF + "/"):
        if p.startswith(r):
            return p[len(r):]
    return p


def tree_key():
    parts = []
    for root, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".cc", ".hh", ".h", ".am")):
                p = os.path.join(root, f)
                parts.append(p)
                parts.append(readb(p))
    parts.append(readb(AFX_SRC))
    parts.append(readb(os.path.abspath(__file__)))
    parts.append(readb(os.path.join(HERE, "config.h")))
    return sha(*parts)


def load(use_cache=True):
    os.makedirs(CACHE, exist_ok=True)
    key = tree_key()
    pk = os.path.join(CACHE, "prog-" + key + ".pickle")
    if use_cache and os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    afx = afx_binary()
    tus = tu_list()
    if len(tus) < 40:
        raise AnalysisBroken("only %d translation units found" % len(tus))
    prog = Program()
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(lambda t: run_afx(afx, REPO + "/src/", t[0], t[1]), tus))
    for (f, nd), d in zip(tus, res):
        # g++ accepts these explicit specialisations; clang diagnoses them and recovers
        hard = [l for l in d["errs"] if "explicit specialization of" not in l and "duplicate explicit instantiation" not in l]
        d["errors"] = len(hard)
        if d["errors"]:
            prog.errors.append((rel(f), d["errors"], d["stderr"]))
    # units that parse cleanly first, so that they define the merged program
    for (f, nd), d in sorted(zip(tus, res), key=lambda x: x[1]["errors"]):
        if d["errors"]:
            continue
        prog.add(d, rel(f))
    for e in os.listdir(CACHE):
        if e.startswith("prog-") and e != os.path.basename(pk):
            try:
                os.unlink(os.path.join(CACHE, e))
            except OSError:
                pass
    tmp = pk + ".%d.tmp" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(prog, f, protocol=4)
    os.rename(tmp, pk)
    return prog


def load_spec(prog, path, extra=()):
    """Extract a reference transcription from /verif/spec and return its functions by name."""
    d = run_afx(afx_binary(), VERIF + "/spec/:" + REPO + "/src/", path, True, ["-fno-access-control"] + list(extra))
    if d["errors"]:
        raise AnalysisBroken("reference file %s does not parse against the current tree:\n%s" % (path, d["stderr"]))
    p = Program()
    p.add(d, rel(path))
    return p


if __name__ == "__main__":
    import time
    t = time.time()
    p = load("--nocache" not in sys.argv)
    print(len(p.units), "units", len(p.fns), "functions", len(p.records), "records", len(p.vars), "vars", len(p.enums), "enums", round(time.time() - t, 1), "s")
    for e in p.errors:
        print("not analysable alone:", e[0], e[1], e[2][:300])
