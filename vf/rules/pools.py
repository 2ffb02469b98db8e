"""State shared between threads: which mutex protects it, and that no access escapes it. Lock sets are computed
flow-sensitively per function and met over all call sites; an object nobody else can reach needs no lock."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.lints import walk
from rules.state import verdict, tobv

LIB = ("src/util/", "src/decoder/", "src/encoder/", "src/net/", "src/input/")
LOCKS = re.compile(r"^(const )?std::(unique_lock|lock_guard|scoped_lock|shared_lock)<")
SYNC = re.compile(r"\bstd::(recursive_|shared_|timed_|recursive_timed_)?mutex$|\bstd::condition_variable|\bstd::atomic\b|\bstd::atomic<|\bstd::once_flag")
MUTEX = re.compile(r"\bstd::(recursive_|shared_|timed_|recursive_timed_)?mutex$")
ANY = "a lock taken elsewhere"
NOCALL = "nothing calls it"
READS = {"empty", "size", "front", "back", "begin", "end", "cbegin", "cend", "count", "find", "at", "operator[]", "data", "get", "top", "length", "c_str"}


def unconst(t):
    return re.sub(r"^const ", "", (t or "").strip())


def strip_casts(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren", "wrap") and "e" in e:
        e = e["e"]
    return e


ALIAS = {}


def everywhere(P):
    """functions of the libraries and of every program"""
    return [f for d in [P.fns] + list(P.other.values()) for f in d.values() if f.get("body") is not None]


def key(e):
    """canonical name of an object expression"""
    e = strip_casts(e)
    if not isinstance(e, dict):
        return None
    k = e.get("k")
    if k == "this":
        return "this"
    if k == "ref":
        i = e.get("id") or e.get("q")
        return ALIAS.get(i) or ("v", i)
    if k == "mem":
        b = key(e.get("b"))
        return None if b is None else (b, e.get("fld"))
    if k == "un" and e.get("op") in ("*", "&"):
        return key(e["e"])
    if k == "call" and e.get("obj") is not None and str(e.get("q", "")).rsplit("::", 1)[-1] in ("operator->", "operator*", "get"):
        return key(e["obj"])
    return None


class Walk:
    """one function; visits every expression with the set of locks held when it is evaluated"""

    def __init__(self, body, entry, onref, oncall, esc=None):
        self.onref, self.oncall = onref, oncall
        self.vars = {}
        self.sw = entry
        self.stmt(body, entry)

    def stmt(self, n, S):
        if n is None or S is None:
            return S
        if isinstance(n, list):
            for x in n:
                S = self.stmt(x, S)
            return S
        k = n["k"]
        if k == "block":
            mine = set()
            T = S
            for x in n["s"]:
                if x and x["k"] in ("case", "default"):
                    T = self.sw if T is None else T & self.sw
                T = self.stmt(x, T)
                if x and x["k"] == "decl":
                    mine |= {v["id"] for v in x["vars"]}
            return None if T is None else frozenset(h for h in T if h[0] not in mine)
        if k == "decl":
            for v in n["vars"]:
                S = self.var(v, S)
            return S
        if k == "expr":
            return self.expr(n["e"], S)
        if k == "if":
            S = self.stmt(n.get("init"), S)
            if n.get("var"):
                S = self.var(n["var"], S)
            S = self.expr(n.get("c"), S)
            a = self.stmt(n.get("t"), S)
            b = self.stmt(n["e"], S) if n.get("e") else S
            return b if a is None else a if b is None else a & b
        if k in ("for", "while", "do", "rfor"):
            S = self.stmt(n.get("init"), S)
            if k == "rfor":
                S = self.expr(n.get("r"), S)
            T = S
            for _ in range(2):
                T = self.expr(n.get("c"), T) if k != "do" else T
                U = self.stmt(n.get("b"), T)
                if U is not None:
                    U = self.expr(n.get("inc"), U)
                    if k == "do":
                        U = self.expr(n.get("c"), U)
                    T = T & U
            return T
        if k == "switch":
            S = self.expr(n.get("c"), S)
            outer, self.sw = self.sw, S
            T = self.stmt(n.get("b"), None if n.get("b", {}).get("k") != "block" else S)
            self.sw = outer
            return S if T is None else S & T
        if k in ("case", "default"):
            return self.stmt(n.get("s"), S)
        if k == "return":
            self.expr(n.get("e"), S)
            return None
        if k in ("break", "continue"):
            return None
        if k == "try":
            T = self.stmt(n.get("b"), S)
            for h in n.get("h", []):
                U = self.stmt(h.get("b"), S)
                T = U if T is None else T if U is None else T & U
            return T
        if k == "unk":
            return self.stmt(n.get("s"), S)
        return S

    def var(self, v, S):
        i = v.get("init")
        if i is None:
            return S
        c = strip_casts(i)
        if v.get("ref") and key(i) is not None:
            ALIAS[v["id"]] = key(i)
        if LOCKS.match(v["t"].replace("&", "").strip()) and c.get("k") == "call" or v.get("ref") and LOCKS.match(v["t"]):
            return self.expr(i, S) | {(v["id"], ANY)}
        if LOCKS.match(v["t"]) and c.get("k") in ("ctor", "tmp", "ilist"):
            a = [x for x in c.get("a", []) if isinstance(x, dict)]
            tags = " ".join(str(x.get("t", "")) for x in a[1:])
            for x in a:
                self.expr(x, S)
            ks = [key(x) for x in a if MUTEX.search(unconst(x.get("t", "")))]
            self.vars[v["id"]] = ks
            if "defer_lock" in tags or "try_to_lock" in tags:
                return S
            return S | {(v["id"], q) for q in ks if q is not None}
        return self.expr(i, S)

    def expr(self, e, S):
        if S is None or e is None:
            return S
        if isinstance(e, list):
            for x in e:
                S = self.expr(x, S)
            return S
        if not isinstance(e, dict):
            return S
        k = e.get("k")
        if k == "lambda":
            for f in e.get("fs", []):
                Walk.__new__(Walk).sub(self, f.get("body"), S)
            return S
        if k == "throw":
            self.expr(e.get("e"), S)
            return None
        if k == "call" or k == "ctor":
            q = str(e.get("q", ""))
            n = q.rsplit("::", 1)[-1]
            o = strip_casts(e.get("obj")) if e.get("obj") is not None else None
            spawn = re.match(r"^std::(thread|async|packaged_task|function)\b", q) or re.match(r"^std::(thread|packaged_task|function)\b", str(e.get("cls", "")))
            if o is not None:
                S = self.expr(o, S)
            for x in e.get("a", []):
                y = strip_casts(x) if isinstance(x, dict) else x
                while isinstance(y, dict) and y.get("k") == "ctor" and len(y.get("a", [])) == 1:
                    y = strip_casts(y["a"][0])
                if spawn and isinstance(y, dict) and y.get("k") == "lambda":
                    for f in y.get("fs", []):
                        Walk.__new__(Walk).sub(self, f.get("body"), frozenset())
                else:
                    S = self.expr(x, S)
                    if S is None:
                        return S
            if isinstance(o, dict) and o.get("k") == "ref" and o.get("id") in self.vars:
                ks = self.vars[o["id"]]
                if n in ("unlock", "release"):
                    S = frozenset(h for h in S if h[0] != o["id"])
                elif n == "lock":
                    S = S | {(o["id"], q) for q in ks if q is not None}
            elif o is not None and MUTEX.search(unconst(o.get("t", ""))):
                if n == "unlock":
                    S = frozenset(h for h in S if h[1] != key(o))
                elif n == "lock" and key(o) is not None:
                    S = S | {("direct", key(o))}
            self.oncall(e, S)
            # an object passed on by pointer may be reachable by others afterwards
            gone = {key(x) for x in e.get("a", []) if isinstance(x, dict) and strip(x.get("t", "")) != x.get("t", "") and str(x.get("t", "")).rstrip().endswith("*")}
            if gone:
                S = frozenset(h for h in S if not (h[0] == "mine" and h[1] in gone))
            if e.get("noret"):
                return None
            return S
        if k in ("ref", "mem"):
            self.onref(e, S)
            return self.expr(e.get("b"), S) if k == "mem" else S
        if k == "cond" or k == "?:":
            S = self.expr(e.get("c"), S)
            a, b = self.expr(e.get("a") or e.get("t"), S), self.expr(e.get("b") or e.get("e"), S)
            return b if a is None else a if b is None else a & b
        for x in ("obj", "c", "a", "b", "e", "i", "n", "args", "init"):
            v = e.get(x)
            if isinstance(v, (dict, list)):
                S = self.expr(v, S)
                if S is None:
                    return S
        return S

    def sub(self, outer, body, S):
        self.onref, self.oncall = outer.onref, outer.oncall
        self.vars = dict(outer.vars)
        self.sw = S
        if body is not None:
            self.stmt(body, S)


class Locks:
    def __init__(self, P):
        self.P = P
        self.guarded = {}
        for r in P.records.values():
            ms = [f for f in r.get("fields", []) if MUTEX.search(unconst(f["t"]))]
            if ms:
                ids = {r.get("q"), r.get("n")}
                for f in r["fields"]:
                    if not SYNC.search(unconst(f["t"])) and not f["t"].startswith("const "):
                        self.guarded.setdefault(r.get("n") or r["q"], set()).add(f["n"])
        self.fns = everywhere(P)
        self.entry = {}
        self.sites = {}
        self.acc = []
        self.globs = []

    def owner(self, cls):
        return cls if cls in self.guarded else None

    def run(self):
        relevant = [f for f in self.fns if any(n["k"] in ("mem",) and self.field(n) or n["k"] == "call" and self.owner(n.get("cls")) for n in walk([f.get("body"), f.get("inits")]))]
        for rnd in range(4):
            self.acc, sites = [], {}
            for f in relevant:
                self.one(f, sites)
            new = {}
            for f in relevant:
                if not self.owner(f.get("cls")):
                    continue
                ss = sites.get(f["f"])
                if f["kind"] in ("ctor", "dtor"):
                    new[f["f"]] = frozenset([("mine", "this")])
                elif not ss:
                    # nothing calls it: what a caller would have to do is not decided here
                    new[f["f"]] = frozenset([("entry", NOCALL)]) if not called(self, f) else frozenset()
                else:
                    t = ss[0]
                    for s in ss[1:]:
                        t = t & s
                    new[f["f"]] = t
            if new == self.entry:
                break
            self.entry = new
        return self.acc

    def field(self, n):
        f = n.get("fld")
        if not f:
            return None
        c, m = f.rsplit("::", 1)
        return (c, m) if m in self.guarded.get(c, ()) else None

    def one(self, f, sites):
        S = self.entry.get(f["f"], frozenset([("mine", "this")]) if f["kind"] in ("ctor", "dtor") else frozenset())
        if "Deleter" in (f.get("cls") or "") and f["q"].endswith("operator()"):
            S = S | {("mine", ("v", p.get("id"))) for p in f["ps"]}
        ctor = f["kind"] == "ctor"
        for p in f["ps"]:
            if LOCKS.match(p["t"].replace("&", "").strip()):
                S = S | {(p.get("id"), ANY)}

        def held(S, base):
            out = set()
            for h in S:
                if h[0] == "mine":
                    if h[1] == base or h[1] == "this" and base is not None and ctor and isinstance(base, tuple) and base[0] == "this":
                        out.add("mine")
                elif h[1] is ANY:
                    out.add(ANY)
                elif h[1] is not None and isinstance(h[1], tuple) and h[1][0] == base:
                    out.add(h[1][1])
                elif h[0] == "entry":
                    if base == "this":
                        out.add(h[1])
            return out

        def onref(n, S):
            if n["k"] != "mem":
                return
            g = self.field(n)
            if g:
                self.acc.append((g, f, n["l"], held(S, key(n.get("b")))))

        def oncall(e, S):
            c = self.owner(e.get("cls"))
            if e["k"] == "call" and c and e.get("obj") is not None:
                hs = held(S, key(e["obj"]))
                sites.setdefault(e["f"], []).append(frozenset(("mine", "this") if h == "mine" else ("entry", h) for h in hs))
        for i in f.get("inits") or []:
            pass
        Walk(f["body"], S, onref, oncall)


def called(L, f):
    if not hasattr(L, "calls"):
        L.calls = {n.get("f") for g in L.fns for n in walk([g.get("body"), g.get("inits")]) if n["k"] in ("call", "ref", "un", "ctor")} | {n.get("id") for g in L.fns for n in walk(g.get("body")) if n["k"] == "ref"}
    return f["f"] in L.calls


def library(f):
    return f["file"].startswith(LIB)


def lockset(run):
    P = run.prog
    L = Locks(P)
    acc = L.run()
    by = {}
    for g, f, l, hs in acc:
        by.setdefault(g, []).append((f, l, hs))
    for (c, m), xs in sorted(by.items()):
        every = None
        for f, l, hs in xs:
            if "mine" in hs:
                continue
            hs = {h for h in hs if h is not ANY and h != NOCALL}
            if hs:
                every = set(hs) if every is None else every & hs
        for f, l, hs in xs:
            nm = "%s::%s in %s line %d" % (c, m, f["q"], l - f["l"])
            where = "%s:%s" % (f["file"], l)
            run.count("guarded_accesses")
            if hs:
                run.ok(nm, where, ", ".join(sorted(str(h) for h in hs)), 1)
            else:
                run.bad(nm, where, "%s::%s is reached without holding the object's mutex, which other threads rely on" % (c, m))
        if every is not None and not every and all(x[2] for x in xs):
            run.bad("%s::%s under one mutex" % (c, m), loc(xs[0][0]), "no single mutex protects every access")
    return L


def storage(run):
    """everything with static storage in the libraries is constant, per thread, or locked"""
    P = run.prog
    L = Locks(P)
    sv = {}
    for v in P.vars.values():
        if v["file"].startswith(LIB) and not v.get("const"):
            sv[v["id"]] = (v["q"], v["t"], "%s:%s" % (v["file"], v["l"]), v.get("tls"))
    owner = {}
    for f in fns(P):
        if not library(f):
            continue
        for n in walk(f.get("body")):
            if n["k"] == "decl":
                for v in n["vars"]:
                    if v.get("static") and not v.get("const") and not v["t"].startswith("const "):
                        sv[(f["f"], v["id"])] = ("%s in %s" % (v["n"], f["q"]), v["t"], "%s:%s" % (f["file"], v["l"]), v.get("tls"))
    for i, (nm, t, where, tls) in sorted(sv.items(), key=lambda x: x[1][0]):
        name = "static storage: %s" % nm
        run.count("static_objects")
        if tls:
            run.ok(name, where, "one per thread", 1)
            continue
        if unconst(t) in L.guarded:
            run.ok(name, where, "its members are behind its mutex", 1)
            continue
        if SYNC.search(unconst(t)):
            run.ok(name, where, "synchronizes itself", 1)
            continue
        w = writes(P, i)
        if w:
            run.bad(name, w[0], "%s is shared by every thread of the process and changed here without a lock" % nm)
        else:
            run.ok(name, where, "never changed after initialization", 1)
    for r in {r.get("n") or r["q"]: r for r in P.records.values()}.values():
        if not str(r.get("file", "src/util/")).startswith(LIB):
            continue
        for f in r.get("fields", []):
            if f.get("mut") and not SYNC.search(unconst(f["t"])):
                run.count("mutable_members")
                nm = "member %s::%s changes under const" % (r["q"], f["n"])
                if f["n"] in L.guarded.get(r.get("n") or r["q"], ()):
                    run.ok(nm, "", "its class has a mutex", 1)
                else:
                    run.bad(nm, "%s:%s" % (r.get("file", ""), f.get("l", "")), "shared objects are only reached through const, and this member can still be changed, with no mutex in the class")


def writes(P, i):
    fn = None
    if isinstance(i, tuple):
        fn, i = i
    out = []
    for f in fns(P):
        if not library(f) or fn and f["f"] != fn:
            continue
        for why, l in modified(f.get("body"), i, f):
            out.append("%s:%s" % (f["file"], l))
    return out


def modified(body, i, f):
    """places that change the object with this id or let others change it"""
    def mine(e):
        e = strip_casts(e)
        while isinstance(e, dict):
            if e.get("k") == "ref":
                return e.get("id") == i
            if e.get("k") == "mem" and not e.get("arrow"):
                e = strip_casts(e.get("b"))
            elif e.get("k") in ("idx", "sub") and isinstance(e.get("a"), dict):
                e = strip_casts(e["a"])
            elif e.get("k") == "call" and e.get("obj") is not None and str(e.get("q", "")).rsplit("::", 1)[-1] in ("at", "operator[]", "front", "back", "get"):
                e = strip_casts(e["obj"])
            else:
                return False
        return False
    ret = f.get("ret", "")
    for n in walk(body):
        k = n["k"]
        if k == "asg" and mine(n.get("a") or n.get("e")):
            yield "assigned", n["l"]
        elif k == "un" and n.get("op") in ("++", "--") and mine(n.get("e")):
            yield "changed", n["l"]
        elif k in ("call", "ctor"):
            m = str(n.get("q", "")).rsplit("::", 1)[-1]
            if n.get("obj") is not None and mine(n["obj"]) and not n.get("cst") and m not in READS:
                yield "changed by " + m, n["l"]
            for x, p in zip(n.get("a", []), n.get("pm", [])):
                if not isinstance(x, dict):
                    continue
                y = strip_casts(x)
                if p in ("r", "rr") and mine(x):
                    yield "passed on", n["l"]
                elif p == "p" and y.get("k") == "un" and y.get("op") == "&" and mine(y["e"]):
                    yield "passed on", n["l"]
        elif k == "return" and n.get("e") is not None and mine(n["e"]) and ret.rstrip().endswith("&") and not ret.startswith("const "):
            yield "handed out", n["l"]
        elif k == "decl":
            for v in n["vars"]:
                if v.get("ref") and not v["t"].startswith("const ") and v.get("init") is not None and mine(v["init"]):
                    yield "bound", v.get("l", n["l"])


def programs(run):
    """a variable that one thread of a program reaches under a lock is reached under it everywhere"""
    P = run.prog
    gl = {v["id"]: v for v in P.vars.values() if not v.get("const") and not SYNC.search(unconst(v["t"]))}
    mutexes = {v["id"] for v in P.vars.values() if MUTEX.search(unconst(v["t"]))}
    acc = {}
    for f in everywhere(P):
        def onref(n, S, f=f):
            if n["k"] == "ref" and n.get("dk") == "global" and n.get("id") in gl:
                acc.setdefault(n["id"], []).append((f, n["l"], frozenset(h[1] for h in S if h[0] != "mine" and (h[1] is ANY or isinstance(h[1], tuple) and h[1][0] == "v" and str(h[1][1]) in mutexes))))
        Walk(f["body"], frozenset(), onref, lambda e, S: None)
    for i, xs in sorted(acc.items()):
        if not any(x[2] for x in xs):
            continue
        common = frozenset.intersection(*[x[2] for x in xs if x[2]])
        for f, l, hs in xs:
            nm = "%s in %s line %d" % (gl[i]["q"], f["q"], l - f["l"])
            run.count("guarded_accesses")
            if hs & common:
                run.ok(nm, "%s:%s" % (f["file"], l), "", 1)
            else:
                run.bad(nm, "%s:%s" % (f["file"], l), "%s is protected by a mutex elsewhere and reached without it here" % gl[i]["q"])


def queue_hooks(ev):
    """the queue of unused buffers: any number of them, handed out in order"""
    P = ev.prog
    ev.env[("unused",)] = mk("obj", "unused")
    ev.env[("popped",)] = K(0)
    ev.env[("pushed",)] = mk("null")
    n = atom("in", "unused buffers", lo=0, hi=1000)
    top = lambda: ev.env[("popped",)]

    def front(ev, e):
        return mk("addr", ("unused",), (("i", top()),))

    def pop(ev, e):
        ev.env[("popped",)] = add(top(), K(1))
        return mk("void")

    def push(ev, e):
        ev.env[("pushed",)] = ev.rv(e["a"][0])
        return mk("void")
    acts = {"front": front, "pop": pop, "push": push, "emplace": push, "empty": lambda ev, e: b2v(eq(sub(n, top()), K(0))), "size": lambda ev, e: sub(n, top())}

    def deleter(ev, e):
        return mk("addr", ("deleter",), ())
    for f in P.fns.values():
        for x in walk([f.get("body"), f.get("inits")]):
            q = str(x.get("q", "")) if x["k"] == "call" else ""
            t = q.rsplit("::", 1)[-1]
            if q.startswith("std::queue<") and t in acts:
                ev.hooks[q] = acts[t]
            elif q.startswith("std::unique_ptr<") and t == "get_deleter":
                ev.hooks[q] = deleter
    return n


def handed_out(run, name, f, cls):
    P = run.prog
    ev = Ev(P, gate=20, wrap=True)
    n = queue_hooks(ev)
    ev.env[("deleter",)] = mk("obj", "deleter")
    kind = re.search(r"<(.*)>$", cls).group(1)
    made = []

    def ihook(ev, g, this, binds, e):
        c = g.get("cls") or ""
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        if g["kind"] == "ctor" and c == kind or g["kind"] == "ctor" and len(binds) == 2 and kind in [c] + bases(P, kind):
            made.append((ev.guard(), [val(b) for b in binds[:2]]))
            ev.store(this, mk("obj", "a new buffer"))
            return mk("void")
        if g["q"].rsplit("::", 1)[-1] in ("display_width", "display_height"):
            return atom("h", g["q"].rsplit("::", 1)[-1], ev.ptrval(this), lo=0, hi=65535)
        return NotImplemented
    ev.ihook = ihook
    ev.env[("this",)] = sym(ev, cls, "pool", [(r"pool\..*", lambda ev, t, nm: mk("in", nm))])
    for v in P.vars.values():
        if v["q"].endswith("::allow_resize"):
            # debugging aid, off unless a test turns it on
            ev.env[("glob", v["q"])] = K(0)
    w, h = atom("in", "width", lo=1, hi=65535), atom("in", "height", lo=1, hi=65535)
    ev.env[("argv", 0)], ev.env[("argv", 1)] = w, h
    s = summarize(ev, f)
    out = []
    old = ge(n, K(1))
    first = elem(mk("obj", "unused"), K(0))
    dim = lambda x: atom("h", "display_" + x, first, lo=0, hi=65535)
    fits = c_and(eq(dim("width"), w), eq(dim("height"), h))
    k = leafcmp(b2v(s.live), b2v(c_or(c_not(old), fits)), "a buffer is handed out", TRUE, out)
    k += leafcmp(s.env[("popped",)], b2v(old), "buffers taken from the pool", s.live, out)
    if len(made) != 1:
        raise Unsupported("buffers made: %d" % len(made))
    k += leafcmp(b2v(made[0][0]), b2v(c_not(old)), "a new buffer is made", TRUE, out)
    k += leafcmp(made[0][1][0], w, "width of a new buffer", c_not(old), out)
    k += leafcmp(made[0][1][1], h, "height of a new buffer", c_not(old), out)
    fresh = s.retv
    k += leafcmp(b2v(eq(fresh, first)) if False else pick(fresh, first), b2v(old), "the buffer handed out is the one taken", s.live, out)
    d = s.env[("deleter",)]
    k += leafcmp(b2v(eq(only(d), mk("null"))), K(0), "the buffer will return to a pool", s.live, out)
    run.count("values_compared", k)
    verdict(run, name, f, out, k)


def only(r):
    return list(dict(r.args[1]).values())[0] if r.op == "rec" and len(r.args[1]) == 1 else mk("null")


def pick(v, first):
    """1 where the value is this one, 0 where it is anything else"""
    if v.op == "br":
        return liftn(lambda x: K(int(x is first)), [v])
    return K(int(v is first))


def bases(P, c):
    out = []
    for r in P.records.values():
        if (r.get("n") or r["q"]) == c:
            for b in r.get("bases", []):
                b = b if isinstance(b, str) else b.get("t") or b.get("q") or ""
                out += [strip(b)] + bases(P, strip(b))
    return out


def taken_back(run, name, f, cls):
    ev = Ev(run.prog, gate=20)
    queue_hooks(ev)
    ev.env[("this",)] = sym(ev, cls, "pool", [(r"pool\..*", lambda ev, t, nm: mk("in", nm))])
    p = mk("in", "the buffer")
    ev.env[("argv", 0)] = p
    s = summarize(ev, f)
    out = []
    k = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    k += leafcmp(s.env[("pushed",)], p, "buffer kept", TRUE, out)
    k += leafcmp(s.env[("popped",)], K(0), "buffers taken from the pool", TRUE, out)
    run.count("values_compared", k)
    verdict(run, name, f, out, k)


def released(run, name, f, cls):
    """giving up a buffer: back to its pool once, as the last thing, with no cached hash; deleted if it has none"""
    P = run.prog
    kind = re.search(r"<(.*)>$", cls).group(1)
    out, k = [], 0
    for pooled in (1, 0):
        ev = Ev(P, gate=20)
        acts = []
        cached = [x for x in P.records.values() if (x.get("n") or x["q"]) == kind and any(y["n"] == "frozen_hash_" for y in x["fields"])]

        def ihook(ev, g, this, binds, e):
            n = g["q"].rsplit("::", 1)[-1]
            if "Pool<" in (g.get("cls") or "") and len(binds) == 1:
                v = binds[0][1] if isinstance(binds[0], tuple) else ev.load(binds[0])
                b = ev.load(ev.deref(v))
                acts.append(("returned", ev.guard(), this, v, field(field(b, "frozen_hash_"), "initialized_", None, 0, 1) if cached else None, len(ev.events)))
                return mk("void")
            return NotImplemented
        ev.ihook = ihook
        pool = mk("addr", ("pool",), ())
        r = ev.rec(cls)
        if not r or len(r["fields"]) != 1:
            raise Unsupported("deleter")
        ev.env[("pool",)] = mk("in", "pool")
        ev.env[("this",)] = mk_rec(mk("obj", cls), {r["fields"][0]["n"]: pool if pooled else mk("null")})
        ev.env[("buffer",)] = sym(ev, kind, "buffer", [(r"buffer\.(?!frozen_hash_).*", lambda ev, t, nm: mk("in", nm))]) if cached else mk("in", "buffer")
        p = mk("addr", ("buffer",), ())
        ev.env[("argv", 0)] = p
        s = summarize(ev, f)
        dels = [x for x in ev.events if x.kind == "delete"]
        lab = "with a pool" if pooled else "without a pool"
        k += leafcmp(b2v(s.live), K(1), "defined " + lab, TRUE, out)
        k += leafcmp(K(len(acts)), K(pooled), "times returned to the pool " + lab, TRUE, out)
        k += leafcmp(K(len(dels)), K(1 - pooled), "times deleted " + lab, TRUE, out)
        for a in acts:
            k += leafcmp(a[3], p, "buffer returned", TRUE, out)
            k += leafcmp(a[2], pool, "pool it returns to", TRUE, out)
            if cached:
                k += leafcmp(tobv(a[4]), K(0), "hash still cached when it returns", TRUE, out)
    run.count("values_compared", k)
    verdict(run, name, f, out, k)


def cached_hash(run, name, f):
    ev = Ev(run.prog, gate=20)
    raw = atom("in", "hash of the pixels", lo=0, hi=2 ** 64 - 1)

    def ihook(ev, g, this, binds, e):
        if g["q"].endswith("::raw_hash"):
            return raw
        return NotImplemented
    ev.ihook = ihook
    old = atom("in", "cached hash", lo=0, hi=2 ** 64 - 1)
    has = atom("in", "hash cached", lo=0, hi=1)
    ev.env[("this",)] = mk_rec(mk("obj", "HashCachedRaster"), {"frozen_hash_": mk_rec(mk("obj", "Optional"), {"initialized_": has, "object_": old}), "mutex_": mk("in", "mutex")})
    s = summarize(ev, f)
    want = ite(eq(has, K(1)), old, raw)
    out = []
    k = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    k += leafcmp(s.retv, want, "hash", TRUE, out)
    q = field(s.env[("this",)], "frozen_hash_")
    k += leafcmp(tobv(field(q, "initialized_", None, 0, 1)), K(1), "hash cached afterwards", TRUE, out)
    v = field(q, "object_")
    while v.op == "rec" and len(v.args[1]) == 1:
        v = v.args[1][0][1]
    k += leafcmp(v, want, "cached hash afterwards", TRUE, out)
    run.count("values_compared", k)
    verdict(run, name, f, out, k)


def recycling(run):
    P = run.prog
    short = lambda c: re.sub(r"<(\w+)Header, .*", r"<\1>", c).replace("<Frame<", "<")
    for f in sorted(fns(P), key=lambda f: f["f"]):
        c = f.get("cls") or ""
        if re.match(r"(Raster|Frame)Pool<", c) and f["kind"] == "method" and f["q"].split("::")[-1]:
            if "unique_ptr" in f.get("ret", "") and len(f["ps"]) == 2:
                nm = "buffer handed out by %s" % short(c)
                run.attempt(nm, handed_out, run, nm, f, c)
            elif len(f["ps"]) == 1 and f["ps"][0]["t"].rstrip().endswith("*"):
                nm = "buffer taken back by %s" % short(c)
                run.attempt(nm, taken_back, run, nm, f, c)
        if re.match(r"(Raster|Frame)Deleter<", c) and f["q"].endswith("operator()"):
            nm = "buffer released by %s" % short(c)
            run.attempt(nm, released, run, nm, f, c)
        if f["q"] == "HashCachedRaster::hash":
            run.attempt("cached raster hash", cached_hash, run, "cached raster hash", f)


def check(run):
    recycling(run)
    run.attempt("accesses to locked members", lockset, run)
    run.attempt("static storage", storage, run)
    run.attempt("variables shared by a program's threads", programs, run)
    run.floor("guarded_accesses", 15)
