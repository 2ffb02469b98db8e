"""Ownership: what is acquired is released exactly once. Lifetimes inside Optional, descriptors, mappings and final
actions as typestates over value graphs; classes that own something cannot be copied (compile-time witnesses)."""
import os
import re
import subprocess
import tempfile
from evalx import *
from chan import *
from rules.common import *
from rules.encframe import tail
from rules.lints import walk
from rules.state import verdict, tobv
from rules import lints

OPT = "src/util/optional.hh"
yes = lambda v: c_not(eq(v, K(0)))


class Life:
    """follows construction and destruction of the object held by each of two Optionals"""

    def __init__(self, run, f):
        self.P, self.f = run.prog, f
        self.ev = ev = Ev(run.prog, gate=30)
        self.T = re.match(r"Optional<(.*)>$", f["cls"]).group(1)
        self.wrong = []
        t = strip(self.T)
        self.plain = t in W or t in ("double", "float", "bool") or t.endswith("*") or ev.isenum(t)   # nothing to construct or destroy
        new = ev.x_new

        def x_new(e):
            r = None
            if e.get("pl"):
                v = self.made(e["e"]) if e.get("e") else mk("made")
                p = ev.deref(ev.rv(e["pl"]))
                self.born(p)
                ev.store(p, v)
                return p
            return new(e)
        ev.x_new = x_new
        for g in run.prog.fns.values():
            if g["file"] == OPT and g.get("cls") == f["cls"]:
                for x in walk([g.get("body"), g.get("inits")]):
                    if x["k"] == "call" and tail(str(x.get("q", ""))).startswith("~"):
                        ev.hooks[x["q"]] = self.died
                    elif x["k"] == "call" and x.get("pd"):
                        ev.hooks[x["q"]] = self.died

    def made(self, e):
        while isinstance(e, dict) and e.get("k") in ("cast", "paren", "wrap"):
            e = e["e"]
        if e.get("k") == "ctor" and strip(e.get("cls") or e.get("t", "")) == strip(self.T):
            a = e.get("a", [])
            if len(a) == 1 and strip(a[0].get("t", "")) == strip(self.T):
                return self.ev.load(self.ev.lvl(a[0])) if a[0].get("lv") or a[0].get("xv") else self.ev.rv(a[0])
            return mk("made", *[self.ev.load(self.ev.lvl(x)) if x.get("lv") or x.get("xv") else self.ev.rv(x) for x in a])
        return self.ev.rv(e)

    def slot(self, p):
        for r in (("this",), ("arg", 0)):
            if p is self.ev.addr(r, (("f", "object_"),)):
                return ("alive", r)
        if p.op == "addr" and p.args and p.args[0] not in (("this",), ("arg", 0)):
            return None   # inside an Optional of its own
        raise Unsupported("object at " + show(p)[:80])

    def born(self, p):
        if self.slot(p) is None or self.plain:
            return
        a = self.ev.addr(self.slot(p))
        self.wrong.append(("an object is constructed over one that was not destroyed", c_and(self.ev.guard(), yes(self.ev.load(a)))))
        self.ev.store(a, K(1))

    def died(self, ev, e):
        p = ev.deref(ev.rv(e["obj"])) if e.get("arrow") else ev.lvl(e["obj"])
        if self.slot(p) is None or self.plain:
            return mk("void")
        a = ev.addr(self.slot(p))
        self.wrong.append(("an object that is not there is destroyed", c_and(ev.guard(), c_not(yes(ev.load(a))))))
        ev.store(a, K(0))
        return mk("void")

    def put(self, root, there, value):
        self.ev.env[root] = mk_rec(mk("obj", self.f["cls"]), {"initialized_": there, "object_": value})
        self.ev.env[("alive", root)] = there


def lifetime(run, name, f, what):
    t = Life(run, f)
    ev = t.ev
    A, B = b2v(yes(atom("in", "this holds", lo=0, hi=3))), b2v(yes(atom("in", "other holds", lo=0, hi=3)))
    x, y = mk("in", "own object"), mk("in", "other's object")
    roots, argv = [], None
    if f["kind"] == "ctor":
        ev.env[("this",)] = mk_rec(mk("obj", f["cls"]), {"initialized_": atom("in", "garbage", lo=0, hi=1)})
        ev.env[("alive", ("this",))] = K(0)
    else:
        t.put(("this",), A, x)
    other = what in ("copy", "move", "copy assignment", "move assignment")
    if other:
        t.put(("arg", 0), B, y)
        roots = [("arg", 0)]
    want, val = {"copy": (B, y), "move": (B, y), "copy assignment": (B, y), "move assignment": (B, y), "destructor": (K(0), None),
                 "clear": (K(0), None), "empty": (K(0), None), "initialize": (K(1), None), "reset": (K(1), None), "from a value": (K(1), y), "conditional": (B, None)}[what]
    if what == "initialize":
        t.put(("this",), K(0), x)
        A = K(0)
    if what == "from a value":
        ev.env[("arg", 0)] = y
        roots = [("arg", 0)]
    if what == "conditional":
        ev.env[("argv", 0)] = B
    for i in range(0 if what in ("initialize", "reset") else 1 if what == "conditional" else 9, len(f["ps"])):
        ev.env[("arg", i)] = mk("in", "argument %d" % i)
    s = summarize(ev, f, arg_roots=(roots + [None] * 9)[:len(f["ps"])] if roots else None)
    out, n = [], 1
    for w, g in t.wrong:
        n += 1
        if g is not FALSE:
            n += leafcmp(b2v(g), K(0), w, TRUE, out)
    n += leafcmp(b2v(s.live), K(1), "completed", TRUE, out)
    me = s.env[("this",)]
    if what == "from a value":
        alive = K(1)
    else:
        alive = s.env[("alive", ("this",))]
    if not t.plain:
        n += leafcmp(tobv(alive), tobv(want), "an object is held afterwards", TRUE, out)
    if what != "destructor":
        n += leafcmp(tobv(field(me, "initialized_", None, 0, 1)), tobv(want), "held object recorded", TRUE, out)
        held = field(me, "object_")
        if val is not None and not (what == "from a value" and held.op == "rec"):   # moved member by member: judged on the plain ones
            n += leafcmp(ite(yes(want), held, K(0)), ite(yes(want), val, K(0)), "object held", TRUE, out)
    if other:
        n += 0 if t.plain else leafcmp(tobv(s.env[("alive", ("arg", 0))]), tobv(B), "the other still holds its object", TRUE, out)
        n += leafcmp(tobv(field(s.env[("arg", 0)], "initialized_", None, 0, 1)), tobv(B), "the other still records its object", TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def kind(f):
    n, ps = tail(f["q"]), [p["t"] for p in f["ps"]]
    c = f["cls"]
    own = lambda t: strip(t).replace("const ", "").rstrip("& ") == c or c in t
    if f["kind"] == "dtor":
        return "destructor"
    if n == "clear":
        return "clear"
    if n in ("initialize", "reset"):
        return n
    if n.startswith("operator=") and not n.startswith("operator==") and len(ps) == 1 and own(ps[0]):
        return "move assignment" if ps[0].rstrip().endswith("&&") else "copy assignment"
    if f["kind"] == "ctor":
        if not ps:
            return "empty"
        if len(ps) == 1 and own(ps[0]):
            return "move" if ps[0].rstrip().endswith("&&") else "copy"
        if ps[0] == "const bool" and len(ps) >= 1 and c != "Optional<bool>":
            return "conditional"
        if len(ps) == 1 and ps[0].rstrip().endswith("&&"):
            return "from a value"
    return None


# ------------------------------------------------------------ descriptors and mappings
def released(ev, q, log):
    ev.x_null = lambda e: K(0)   # a mapping's address is compared as a number
    def h(ev, e):
        log.append((ev.guard(),) + tuple(ev.rv(x) for x in e["a"]))
        return K(0)
    for n in (q, "::" + q):
        ev.hooks[n] = h


def owner_dtor(run, name, f, cls, members, handle, none, call, args):
    """releases what it owns, once; nothing when it owns nothing"""
    ev = Ev(run.prog, gate=30)
    log = []
    released(ev, call, log)
    ev.env[("this",)] = mk_rec(mk("obj", cls), dict(members))
    s = summarize(ev, f)
    out, n = [], 1
    owned = none(members[handle])
    g = FALSE
    for x in log:
        n += 1
        if c_and(g, x[0]) is not FALSE:
            n += leafcmp(b2v(c_and(g, x[0])), K(0), "released twice", TRUE, out)
        g = c_or(g, x[0])
        for i, m in enumerate(args):
            n += leafcmp(x[1 + i], members[m], "what is released", x[0], out)
    n += leafcmp(b2v(g), b2v(owned), "%s called" % call, TRUE, out)
    n += leafcmp(b2v(s.live), K(1), "completed", TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def owner_move(run, name, f, dtor, cls, members, handle, none, call):
    """the new owner has everything, the old one releases nothing afterwards"""
    ev = Ev(run.prog, gate=30)
    log = []
    released(ev, call, log)
    ev.env[("arg", 0)] = mk_rec(mk("obj", cls), dict(members))
    ev.env[("this",)] = mk("obj", cls)
    s = summarize(ev, f, arg_roots=[("arg", 0)])
    out, n = [], 1
    if any(x[0] is not FALSE for x in log):
        out.append(("released while it is moved", K(1), K(0), {}))
    me = s.env[("this",)]
    for m in members:
        n += leafcmp(field(me, m), members[m], "member %s of the new owner" % m, TRUE, out)
    old = s.env[("arg", 0)]
    ev2 = Ev(run.prog, gate=30)
    log2 = []
    released(ev2, call, log2)
    ev2.env[("this",)] = old
    summarize(ev2, dtor)
    g = FALSE
    for x in log2:
        g = c_or(g, x[0])
    n += leafcmp(b2v(g), K(0), "the old owner releases it too", TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def mapping(run, name, f):
    """a failed mapping is refused, a good one kept with its length"""
    ev = Ev(run.prog, gate=30)
    got = []
    ev.x_null = lambda e: K(0)
    addr = atom("in", "address", lo=-1, hi=1 << 47)

    def h(ev, e):
        got.append([ev.rv(x) for x in e["a"]])
        return addr
    for q in ("mmap", "::mmap", "mmap64"):
        ev.hooks[q] = h
    vals = [atom("in", p["n"], lo=0, hi=1 << 30) for p in f["ps"]]
    for i, v in enumerate(vals):
        ev.env[("argv", i)] = v
    ev.env[("this",)] = mk("obj", "MMap_Region")
    s = summarize(ev, f)
    if len(got) != 1:
        raise Unsupported("%d mappings" % len(got))
    out, n = [], 0
    for i, w in zip((1, 2, 3, 4, 5), vals):
        n += leafcmp(got[0][i], w, "argument %d of mmap" % i, TRUE, out)
    n += leafcmp(b2v(s.live), b2v(c_not(eq(addr, K(-1)))), "mapping accepted", TRUE, out)
    if s.live is not FALSE:
        n += leafcmp(field(s.env[("this",)], "length_"), vals[0], "length kept", s.live, out)
        n += leafcmp(field(s.env[("this",)], "addr_"), addr, "address kept", s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


WITNESS = [
    ("FileDescriptor", "file_descriptor.hh", "FileDescriptor", "ncm"),
    ("MMap_Region", "mmap_region.hh", "MMap_Region", "ncm"),
    ("File", "file.hh", "File", "ncm"),
    ("UnixDomainSocket", "socketpair.hh", "UnixDomainSocket", "nc"),
    ("UDPSocket", "socket.hh", "UDPSocket", "nc"),
    ("TwoD", "2d.hh", "TwoD<int>", "ncm"),
    ("TwoDStorage", "2d.hh", "TwoDStorage<int>", "nc"),
    ("MutableRasterHandle", "raster_handle.hh", "MutableRasterHandle", "nc"),
    ("IVFWriter", "ivf_writer.hh", "IVFWriter", "nc"),
    ("an Optional of an owner", "optional.hh", "Optional<FileDescriptor>", ""),
]


def witness(run, name, what, header, cls, tests):
    """the compiler decides: no way to make a second owner"""
    text = "#include <type_traits>\n#include <cstddef>\n#include <cstdint>\n#include <cstring>\n#include <vector>\n#include <memory>\n#include <string>\n#include \"%s\"\n" % header
    cond = []
    if "n" in tests:
        cond.append(("not std::is_copy_constructible<%s>::value" % cls, "OWNER copied by construction"))
    if "c" in tests:
        cond.append(("not std::is_copy_assignable<%s>::value" % cls, "OWNER copied by assignment"))
    if "m" in tests:
        cond.append(("std::is_move_constructible<%s>::value" % cls, "OWNER cannot be moved"))
    for c, m in cond:
        text += "static_assert( %s, \"%s\" );\n" % (c, m)
    p, err = compile_text(text)
    n = len(cond)
    bad = sorted(set(re.findall(r"OWNER [a-z ]+", err)))
    others = [l for l in err.splitlines() if "error:" in l and "OWNER" not in l]
    if others:
        raise Unsupported("witness does not compile: " + others[0][:120])
    if bad:
        for b in bad:
            run.bad(name, "src/" + header, what + b[5:])
    else:
        run.ok(name, "src/" + header, "", n)


def compile_text(text):
    src = os.path.join(os.environ.get("VF_REPO", "/repo"), "src")
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "w.cc")
        open(f, "w").write(text)
        inc = ["-I" + os.path.join(src, x) for x in ("util", "decoder", "encoder", "input", "net")] + ["-I" + os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
        r = subprocess.run(["clang++", "-std=c++14", "-fsyntax-only", "-w"] + inc + [f], capture_output=True, text=True, timeout=120)
        return r.returncode, r.stderr


def final(run, name, f):
    ev = Ev(run.prog, gate=30)
    on = b2v(yes(atom("in", "enabled", lo=0, hi=3)))
    ran = []
    for g in run.prog.fns.values():
        if g["file"] == f["file"]:
            for x in walk([g.get("body")]):
                if x["k"] == "call" and str(x.get("q", "")).endswith("operator()"):
                    ev.hooks[x["q"]] = lambda ev, e: (ran.append(ev.guard()), mk("void"))[1]
    ev.env[("this",)] = mk_rec(mk("obj", "FinalAction"), {"clean_": mk("action"), "enabled_": on})
    s = summarize(ev, f)
    out = []
    g = FALSE
    for x in ran:
        if c_and(g, x) is not FALSE:
            out.append(("the action runs twice", K(1), K(0), {}))
        g = c_or(g, x)
    n = leafcmp(b2v(g), b2v(yes(on)), "the action runs", TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


# ------------------------------------------------------------ system calls, whole files
def outcome(run, name, f):
    """a negative result is an error, any other is handed on"""
    ev = Ev(run.prog, gate=30)
    r = atom("in", "result", lo=-1, hi=1 << 20)
    ev.env[("argv", 1)] = r
    s = summarize(ev, f)
    out = []
    n = leafcmp(b2v(s.live), b2v(ge(r, K(0))), "accepted", TRUE, out)
    n += leafcmp(s.ret, r, "result handed on", s.live, out) if s.live is not FALSE else 0
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def wholefile(run, name, f):
    """the file's bytes are the mapping of the whole of its own descriptor"""
    ev = Ev(run.prog, gate=30)
    ev.x_null = lambda e: K(0)
    size, addr, fd = atom("in", "size", lo=1, hi=1 << 40), atom("in", "address", lo=1, hi=1 << 47), atom("in", "fd", lo=3, hi=1000)
    got, closed = [], []
    ev.hooks["FileDescriptor::size"] = lambda ev, e: size
    for q in ("mmap", "::mmap", "mmap64"):
        ev.hooks[q] = lambda ev, e: (got.append([ev.rv(x) for x in e["a"]]), addr)[1]
    for q in ("munmap", "close"):
        released(ev, q, closed)
    ev.env[("arg", 0)] = mk_rec(mk("obj", "FileDescriptor"), {"fd_": fd, "eof_": K(0), "read_count_": K(0), "write_count_": K(0)})
    ev.env[("this",)] = mk("obj", "File")
    s = summarize(ev, f, arg_roots=[("arg", 0)])
    me = s.env[("this",)]
    if len(got) != 1:
        raise Unsupported("%d mappings" % len(got))
    out, n = [], 1
    if any(c_and(x[0], s.live) is not FALSE for x in closed if x[1] is not K(-1) and x[1] is not K(0)):
        raise Unsupported("something is released on the way")
    n += leafcmp(b2v(s.live), K(1), "completed", TRUE, out)
    for i, w, t in ((1, size, "length mapped"), (2, K(1), "mapped for reading"), (4, fd, "descriptor mapped"), (5, K(0), "start of the mapping")):
        n += leafcmp(got[0][i], w, t, TRUE, out)
    n += leafcmp(field(me, "size_"), size, "size kept", TRUE, out)
    n += leafcmp(field(field(me, "chunk_"), "size_"), size, "size of the bytes", TRUE, out)
    n += leafcmp(field(field(me, "chunk_"), "buffer_"), addr, "start of the bytes", TRUE, out)
    n += leafcmp(field(field(me, "fd_"), "fd_"), fd, "descriptor kept", TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def check(run):
    P = run.prog
    per = {}
    for f in fns(P):
        if f["file"] == OPT and (f.get("cls") or "").startswith("Optional<") and "(anonymous" not in f["q"] and f.get("body") is not None and not f.get("dfltd"):
            k = kind(f)
            if k:
                per.setdefault(k, []).append(f)
    for k in sorted(per):
        fs = sorted(per[k], key=lambda f: (not re.search("Handle|shared_ptr|unique_ptr|TwoD", f["cls"]), f["cls"], len(f["ps"])))
        lim = len(fs) if run.tier == "thorough" else 4
        for f in fs[:lim]:
            nm = "%s of %s%s" % (k, f["cls"][:60], " with %d arguments" % len(f["ps"]) if k in ("initialize", "reset", "conditional") else "")
            run.attempt(nm, lifetime, run, nm, f, k)
    fd = {"fd_": atom("in", "fd", lo=-1, hi=1000), "eof_": b2v(yes(atom("in", "eof", lo=0, hi=3))), "read_count_": atom("in", "reads", lo=0, hi=99), "write_count_": atom("in", "writes", lo=0, hi=99)}
    mm = {"addr_": atom("in", "address", lo=0, hi=1 << 47), "length_": atom("in", "length", lo=0, hi=1 << 40)}
    for cls, members, handle, none, call, args in (("FileDescriptor", fd, "fd_", lambda v: ge(v, K(0)), "close", ["fd_"]), ("MMap_Region", mm, "addr_", yes, "munmap", ["addr_", "length_"])):
        d = [f for f in fns(P) if f.get("cls") == cls and f["kind"] == "dtor" and f.get("body") is not None]
        m = [f for f in fns(P) if f.get("cls") == cls and f["kind"] == "ctor" and len(f["ps"]) == 1 and cls in f["ps"][0]["t"] and f["ps"][0]["t"].rstrip().endswith("&&")]
        if len(d) != 1 or len(m) != 1:
            run.undecided(cls, "", "%d destructors, %d move constructors" % (len(d), len(m)))
            continue
        run.attempt("release by " + cls, owner_dtor, run, "release by " + cls, d[0], cls, members, handle, none, call, args)
        run.attempt("move of " + cls, owner_move, run, "move of " + cls, m[0], d[0], cls, members, handle, none, call)
    f = one(run, "MMap_Region", [f for f in fns(P) if f.get("cls") == "MMap_Region" and f["kind"] == "ctor" and len(f["ps"]) == 5])
    if f:
        run.attempt("mapping", mapping, run, "mapping", f)
    f = one(run, "SystemCall", [f for f in fns(P) if f["q"] == "SystemCall" and re.match(r"(const )?char ", f["ps"][0]["t"])])
    if f:
        run.attempt("SystemCall", outcome, run, "SystemCall", f)
    f = one(run, "File", [f for f in fns(P) if f.get("cls") == "File" and f["kind"] == "ctor" and "FileDescriptor" in f["ps"][0]["t"]])
    if f:
        run.attempt("whole file", wholefile, run, "whole file", f)
    d = [f for f in fns(P) if (f.get("cls") or "").startswith("FinalAction<") and f["kind"] == "dtor" and f.get("body") is not None]
    for f in d[:2]:
        run.attempt("final action", final, run, "final action", f)
    for what, header, cls, tests in WITNESS:
        if tests:
            nm = "one owner: " + what
            run.attempt(nm, witness, run, nm, what, header, cls, tests)
    run.floor("values_compared", 20)
