"""Gated value-graph construction over the resolved syntax tree.

Every function is translated once per calling context into (a) the values of
its outputs as gated value-graph nodes over its inputs, and (b) an ordered list
of guarded effects.  Branches become gates, constant-trip loops are expanded,
other loops become mu nodes.  Nothing is executed and no path is enumerated;
conditions are decision diagrams over comparison atoms."""
import functools
import os
import re
from terms import *
from terms import T

W = {"bool": (0, 1), "char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255), "short": (-32768, 32767),
     "unsigned short": (0, 65535), "int": (-(1 << 31), (1 << 31) - 1), "unsigned int": (0, (1 << 32) - 1),
     "long": (-(1 << 63), (1 << 63) - 1), "unsigned long": (0, (1 << 64) - 1), "long long": (-(1 << 63), (1 << 63) - 1),
     "unsigned long long": (0, (1 << 64) - 1), "std::byte": (0, 255)}
SIZES = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}


@functools.lru_cache(maxsize=None)
def strip(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "volatile "):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
        for p in (" const", " &", " &&", "&", " volatile"):
            if t.endswith(p):
                t = t[:-len(p)].strip()
                ch = True
        if t.endswith("*const"):
            t = t[:-5]
            ch = True
    return t


def splitargs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def elemtype(c):
    m = re.match(r"std::(?:__cxx11::)?\w+<(.*)>$", c)
    return splitargs(m.group(1))[0] if m else ""


class Event:
    __slots__ = ("g", "kind", "args", "loc", "sub", "extra")

    def __init__(self, g, kind, args, loc, sub=None, extra=None):
        self.g, self.kind, self.args, self.loc, self.sub, self.extra = g, kind, args, loc, sub, extra

    def __repr__(self):
        return "<%s %s%s @%s%s>" % (show(self.g), self.kind, show(tuple(self.args)), self.loc, " sub=%r" % (self.sub,) if self.sub else "")


class Frame:
    def __init__(self, fn, this, parent=None):
        self.fn, self.this, self.parent = fn, this, parent
        self.vars = {}
        self.exits = []   # (live, value or None, env)
        self.loops = []
        self.made = []
        self.thrown = []

    def look(self, i):
        f = self
        while f is not None:
            if i in f.vars:
                return f.vars[i]
            f = f.parent
        return None


class Unsupported(Exception):
    pass


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.conts = []


CONTAINER = re.compile(r"^std::(__cxx11::)?(vector|deque|basic_string|array|initializer_list|list)\b")
SMART = re.compile(r"^std::(__)?(shared_ptr|unique_ptr|__shared_ptr_access|__shared_ptr|reference_wrapper)\b")


class Ev:
    def __init__(self, prog, extra=None, unroll=600, hooks=None, opaque=None, maxdepth=60, budget=3000000, strict32=False, noinline=None, gate=0, wrap=False):
        self.progs = [prog] + ([extra] if extra else [])
        self.prog = prog
        self.unroll = unroll
        self.hooks = hooks or {}
        self.opaque = opaque or (lambda e: False)
        self.maxdepth = maxdepth
        self.budget = budget
        self.strict32 = strict32
        self.wrap = wrap
        self.gate = gate
        self.env = {}
        self.live = TRUE
        self.base = TRUE
        self.events = []
        self.nroot = 0
        self.frame = None
        self.stack = []
        self.lams = {}
        self.nphi = 0
        self.loopdepth = 0
        self.notes = []
        self.globroots = {}
        self.inlined = set()
        self.trys = []
        self.rangeassume = {}
        self.lossy = []
        self.ihook = None
        self.sthook = None
        self.subst = {}
        self.globbusy = set()

    # ------------------------------------------------------------ lookup
    def fn(self, usr):
        for p in self.progs:
            f = p.fns.get(usr)
            if f is not None:
                return f
        # explicit specializations: the definition's name may lack the marker of a static member
        for alt in ((usr[:-1],) if usr and usr.endswith("S") else ()):
            for p in self.progs:
                if alt in p.fns:
                    return p.fns[alt]
        return None

    def rec(self, n):
        for p in self.progs:
            r = p.records.get(n)
            if r is not None:
                return r
        return None

    def fieldnames(self, cls):
        r = self.rec(cls)
        if not r:
            return None
        return ["#base%d" % i for i, b in enumerate(r["bases"])] + [f["n"] for f in r["fields"]]

    def trange(self, t):
        t = strip(t or "")
        if t in W:
            return W[t]
        for p in self.progs:
            e = p.enums.get(t)
            if e and e["c"]:
                vs = [v for _, v in e["c"]]
                return min(vs), max(vs)
        return None, None

    def isenum(self, t):
        t = strip(t or "")
        return any(t in p.enums for p in self.progs)

    # ------------------------------------------------------------ memory
    def newroot(self, kind="loc"):
        self.nroot += 1
        r = (kind, self.nroot)
        if self.frame is not None and kind != "heap":
            self.frame.made.append(r)
        return r

    def addr(self, root, path=()):
        return mk("addr", root, path)

    def deref(self, p):
        """pointer value leaf -> addr"""
        def f(x):
            if x.op == "addr":
                return x
            return mk("addr", ("D", x), (("i", K(0)),))
        return lift1("deref", f, p)

    def ptrval(self, a):
        """addr -> pointer value (normalises &*p to p)"""
        def f(x):
            if x.op == "addr" and x.args[0][0] == "D" and x.args[1] == (("i", K(0)),):
                return x.args[0][1]
            return x
        return lift1("ptrval", f, a)

    def ext(self, a, sel):
        def f(x):
            if x.op != "addr":
                x = mk("addr", ("D", x), (("i", K(0)),))
            if x.args[1] and len(x.args[1][-1]) == 3 and x.args[1][-1][0] == "i":
                if sel[0] == "f":
                    return x
                return mk("addr", x.args[0], x.args[1][:-1] + (("i", add(x.args[1][-1][1], sel[1])),))
            return mk("addr", x.args[0], x.args[1] + (sel,))
        if sel[0] == "f" and sel[1] == "":
            return a
        if sel[0] == "i" and sel[1].op == "br":
            return lift2("exti", lambda x, i: self.ext(x, ("i", i)), a, sel[1])
        return lift1(("ext", sel), f, a)

    def padd(self, p, n):
        """pointer arithmetic"""
        def f(x, d):
            if x.op == "null":
                return x
            if x.op != "addr":
                x = mk("addr", ("D", x), (("i", K(0)),))
            path = x.args[1]
            if path and path[-1][0] == "i":
                return self.ptrval(mk("addr", x.args[0], path[:-1] + (("i", add(path[-1][1], d)),)))
            if d is K(0):
                return x
            return mk("addr", x.args[0], path + (("i", d),))
        return lift2("padd", f, p, n)

    def rootval(self, root):
        v = self.env.get(root)
        if v is None:
            v = mk("root", root)
            self.env[root] = v
        return v

    def load(self, a, t=None, cls=None):
        lo, hi = self.trange(t) if t else (None, None)

        def f(x):
            if x.op != "addr":
                x = mk("addr", ("D", x), (("i", K(0)),))
            v = self.rootval(x.args[0])
            path = x.args[1]
            for n, s in enumerate(path):
                last = n == len(path) - 1
                if s[0] == "f":
                    v = field(v, s[1], s[2] if len(s) > 2 else None, lo if last else None, hi if last else None)
                else:
                    v = self.gelem(v, s[1], lo if last else None, hi if last else None)
            return v
        if a.op != "br":
            return f(a)
        t_, k, h, l = a.args
        c = mk("c", t_, k, TRUE, FALSE)
        g = self.guard()
        if c_and(g, c) is FALSE:
            return self.load(l, t)
        if c_and(g, c_not(c)) is FALSE:
            return self.load(h, t)
        sv = self.live
        self.live = c_and(sv, c)
        x = self.load(h, t)
        self.live = c_and(sv, c_not(c))
        y = self.load(l, t)
        self.live = sv
        return ite(c, x, y)

    def gelem(self, v, i, lo, hi):
        """element at a symbolic index of an array whose stores are at known indices:
        gated over the indices the current guard allows"""
        if v.op == "br":
            t, k, h, l = v.args
            c = mk("c", t, k, TRUE, FALSE)
            return ite(c, self.gelem(h, i, lo, hi), self.gelem(l, i, lo, hi))
        if i.op == "br":
            t, k, h, l = i.args
            c = mk("c", t, k, TRUE, FALSE)
            g = self.guard()
            if c_and(g, c) is FALSE:
                return self.gelem(v, l, lo, hi)
            if c_and(g, c_not(c)) is FALSE:
                return self.gelem(v, h, lo, hi)
            sv = self.live
            self.live = c_and(sv, c)
            x = self.gelem(v, h, lo, hi)
            self.live = c_and(sv, c_not(c))
            y = self.gelem(v, l, lo, hi)
            self.live = sv
            return ite(c, x, y)
        if i.op != "k" and v.op == "arr" and not v.args[2] and len(v.args[1]) <= 300:
            g = self.guard()
            cand, rest = [], g
            for n, w in v.args[1]:
                c = eq(i, K(n))
                if c is FALSE or c_and(rest, c) is FALSE:
                    continue
                cand.append((n, c))
                if len(cand) > 40:
                    return elem(v, i, lo, hi)
                rest = c_and(rest, c_not(c))
            if rest is FALSE and cand:
                r = elem(v, K(cand[-1][0]), lo, hi)
                for n, c in reversed(cand[:-1]):
                    r = ite(c, elem(v, K(n), lo, hi), r)
                return r
        if i.op != "k" and v.op == "tab" and isinstance(v.args[0], tuple):
            n = len(v.args[0])
            a, b = rng(i)
            g = self.guard()
            if n <= 40 or (a >= 0 and b - a <= 20):
                cand, rest = [], g
                for j in range(max(0, a) if a > -1000000 else 0, min(n - 1, b) + 1 if b < 1000000 else n):
                    c = eq(i, K(j))
                    if c is FALSE or c_and(rest, c) is FALSE:
                        continue
                    cand.append((j, c))
                    rest = c_and(rest, c_not(c))
                if rest is FALSE and cand and len(cand) <= 20:
                    r = elem(v, K(cand[-1][0]), lo, hi)
                    for j, c in reversed(cand[:-1]):
                        r = ite(c, elem(v, K(j), lo, hi), r)
                    return r
        return elem(v, i, lo, hi)

    def upd(self, v, path, val):
        if not path:
            return val
        s = path[0]
        if s[0] == "f":
            return upd_field(v, s[1], self.upd(field(v, s[1], s[2] if len(s) > 2 else None), path[1:], val))
        return upd_elem(v, s[1], self.upd(elem(v, s[1]), path[1:], val) if len(path) > 1 else val)

    def store(self, a, val, g=TRUE):
        if g is FALSE:
            return
        if self.sthook is not None and self.sthook(self, a, val):
            return
        if a.op == "br":
            t, k, h, l = a.args
            c = mk("c", t, k, TRUE, FALSE)
            self.store(h, val, c_and(g, c))
            self.store(l, val, c_and(g, c_not(c)))
            return
        if a.op != "addr":
            a = mk("addr", ("D", a), (("i", K(0)),))
        root, path = a.args
        old = self.rootval(root)
        if g is not TRUE:
            val = ite(g, val, self.load(a))
        self.env[root] = self.upd(old, path, val)

    def temp(self, v, kind="tmp"):
        r = self.newroot(kind)
        self.env[r] = v
        return self.addr(r)

    # ------------------------------------------------------------ effects
    def guard(self):
        return c_and(self.base, self.live)

    def loc(self, e):
        f = self.frame.fn["file"] if self.frame and self.frame.fn else "?"
        return "%s:%s" % (f, e.get("l", "?"))

    def event(self, kind, args, e, sub=None, extra=None):
        g = self.guard()
        if g is FALSE:
            return
        self.events.append(Event(g, kind, tuple(args), self.loc(e) if isinstance(e, dict) else e, sub, extra))

    # ------------------------------------------------------------ expressions
    def cast(self, v, t):
        t = strip(t)
        if t == "bool":
            return b2v(tobool(v))
        r = W.get(t)
        if r is None:
            lo, hi = self.trange(t)
            if lo is None:
                return v
            return v
        w = SIZES[t]

        def f(x):
            if x.op in ("addr", "str", "null", "rec", "arr", "float"):
                return x
            xl, xh = rng(x)
            if xl >= r[0] and xh <= r[1]:
                return x
            if x.op == "k":
                n = x.args[0] & ((1 << (8 * w)) - 1)
                if n > r[1]:
                    n -= 1 << (8 * w)
                return K(n)
            if w >= 8 or (w == 4 and not self.strict32):
                return x
            if w == 4 and xl >= -(1 << 31) and xh < (1 << 32):
                return x
            if r[0] == 0:
                return bits(x, 0, 8 * w)
            return atom("sx", bits(x, 0, 8 * w), w, lo=r[0], hi=r[1])
        return lift1(("cast", t, self.strict32), f, v)

    def rv(self, e):
        self.budget -= 1
        if self.budget < 0:
            raise Cap("evaluation budget")
        if e is None:
            return mk("void")
        if "v" in e:
            return K(e["v"])
        if "vs" in e:
            return K(int(e["vs"]))
        k = e["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (k, self.loc(e)))
        return m(e)

    def lvl(self, e):
        """address of a glvalue (or of a materialised temporary)"""
        k = e["k"]
        if k == "ref" and e["dk"] in ("param", "local", "other", "slocal"):
            b = self.frame.look(e["id"])
            if b is None:
                if e["dk"] == "slocal":
                    return self.addr(("static", e["id"], e["n"]))
                b = self.addr(("ext", e["n"], e["id"]))
            return b
        if k == "ref" and e["dk"] == "global":
            return self.globaddr(e)
        if k == "ref" and e["dk"] == "fn":
            return mk("fn", e["q"])
        if k == "mem" and "fld" in e:
            b = e["b"]
            if e.get("arrow"):
                ba = self.deref(self.rv(b))
            else:
                ba = self.lvl(b)
            return self.memaddr(ba, e)
        if k == "idx":
            a = e["a"]
            at = e.get("at", "")
            i = self.rv(e["b"])
            if at.rstrip().endswith("]"):
                return self.ext(self.lvl(a), ("i", i))
            return self.deref(self.padd(self.rv(a), i))
        if k == "un" and e["op"] == "*":
            return self.deref(self.rv(e["e"]))
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            a = self.lvl(e["e"])
            self.incdec(a, e)
            return a
        if k == "asg":
            return self.assign(e)
        if k == "cond":
            return self.x_cond(e, self.lvl)
        if k == "cast" and (e.get("lv") or e.get("xv")):
            if e.get("ck") == "reinterpret":
                return self.lvl(e["e"])
            return self.lvl(e["e"])
        if k == "bin" and e["op"] == ",":
            self.rv(e["a"])
            return self.lvl(e["b"])
        if k == "call" and (e.get("lv") or e.get("xv")):
            r = self.call(e)
            return r
        if k == "this":
            return self.frame.this
        if k == "str":
            return mk("addr", ("str", e.get("s", "")), ())
        if k in ("lambda",):
            return self.temp(self.rv(e))
        if k in ("ctor", "ilist") or not (e.get("lv") or e.get("xv")):
            return self.temp(self.rv(e))
        v = self.rv(e)
        return self.temp(v)

    def memaddr(self, ba, e):
        if e["n"] == "":
            return ba
        fn = self.fieldnames(e.get("cls", "")) if e.get("cls") else None
        fr = self.fieldref(e)
        if fr:
            # reference member: its binding is a pointer stored in the field
            return self.deref(self.load(self.ext(ba, ("f", e["n"]))))
        return self.ext(ba, ("f", e["n"]) if not fn or not self.is_tab(ba) else ("f", e["n"], tuple(fn)))

    def is_tab(self, a):
        return a.op == "addr" and (a.args[0][0] == "glob" or self.rootval(a.args[0]).op == "tab")

    _fr = {}

    def fieldref(self, e):
        key = (e.get("cls"), e["n"])
        r = self._fr.get(key)
        if r is None:
            r = False
            rc = self.rec(e.get("cls", ""))
            if rc:
                for f in rc["fields"]:
                    if f["n"] == e["n"]:
                        r = f["t"].rstrip().endswith("&")
            self._fr[key] = r
        return r

    def globaddr(self, e):
        root = ("glob", e["q"])
        if root not in self.env:
            v = None
            for p in self.progs:
                c = p.vars.get(e["id"])
                if c is not None and (v is None or ("val" in c and "val" not in v)):
                    v = c
            if v is None or (v.get("internal") is not True and "val" not in v):
                for p in self.progs:
                    for c in p.vars.values():
                        if c["q"] == e["q"] and "val" in c:
                            v = c
            if v is not None and v.get("const") and v.get("val") is not None:
                self.env[root] = tabval(totuple(v["val"]))
            elif v is not None and v.get("const") and v.get("init") is not None and root not in self.globbusy:
                # constant without a compile-time value: its initialiser defines it
                self.globbusy.add(root)
                fr, lv, bs, evs = self.frame, self.live, self.base, self.events
                self.frame, self.live, self.base, self.events = Frame({"f": "init", "ps": [], "file": v["file"], "l": v["l"], "q": "init", "kind": "fn", "ret": "void"}, None), TRUE, TRUE, []
                ih, self.ihook = self.ihook, None
                try:
                    self.env[root] = self.rv(v["init"])
                except Unsupported:
                    self.env[root] = mk("root", root)
                finally:
                    self.frame, self.live, self.base, self.events = fr, lv, bs, evs
                    self.ihook = ih
                    self.globbusy.discard(root)
            else:
                self.env[root] = mk("root", root)
        return self.addr(root)

    def x_int(self, e):
        return K(e["v"])

    def x_float(self, e):
        return mk("float", e["fv"])

    def x_str(self, e):
        return mk("str", e.get("s", ""))

    def x_null(self, e):
        return mk("null")

    def x_this(self, e):
        return self.ptrval(self.frame.this)

    def x_zero(self, e):
        t = strip(e.get("t", ""))
        if t in W or self.isenum(t):
            return K(0)
        if t.endswith("*"):
            return mk("null")
        return mk("zeroinit")

    def x_ref(self, e):
        if e["dk"] == "enum":
            return K(e["v"])
        if e["dk"] == "fn":
            return mk("fn", e["q"], tuple(e.get("ta", ())))
        a = self.lvl(e)
        t = e.get("t", "")
        if t.rstrip().endswith("]"):
            return self.ext(a, ("i", K(0)))
        return self.load(a, t)

    def x_mem(self, e):
        if "fld" not in e:
            if "f" in e:
                return mk("fn", e.get("q", ""))
            raise Unsupported("member " + e.get("n", "?"))
        if not e.get("arrow") and not (e["b"].get("lv") or e["b"].get("xv")) and e["b"]["k"] in ("call", "ctor"):
            o = self.rv(e["b"])
            lo, hi = self.trange(e.get("t"))
            if e["n"] == "":
                return o
            return field(o, e["n"], self.fieldnames(e.get("cls", "")), lo, hi)
        a = self.lvl(e)
        t = e.get("t", "")
        if t.rstrip().endswith("]"):
            return self.ext(a, ("i", K(0)))
        return self.load(a, t)

    def x_idx(self, e):
        a = self.lvl(e)
        if e.get("t", "").rstrip().endswith("]"):
            return self.ext(a, ("i", K(0)))
        return self.load(a, e.get("t"))

    def x_un(self, e):
        op = e["op"]
        if op == "&":
            if e["e"]["k"] == "ref" and e["e"].get("dk") == "fn":
                return self.rv(e["e"])
            return self.ptrval(self.lvl(e["e"]))
        if op == "*":
            a = self.lvl(e)
            if e.get("t", "").rstrip().endswith("]"):
                return self.ext(a, ("i", K(0)))
            return self.load(a, e.get("t"))
        if op in ("++", "--"):
            a = self.lvl(e["e"])
            old = self.load(a, e["e"].get("t"))
            self.incdec(a, e)
            return old if e.get("post") else self.load(a, e.get("t"))
        if op == "!":
            return b2v(c_not(self.cond(e["e"])))
        v = self.rv(e["e"])
        if self.isfloat(e.get("t")):
            return mk("fop", "neg", v) if op == "-" else v
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "~":
            t = strip(e.get("t", ""))
            if t in W and W[t][0] == 0:
                return sub(K(W[t][1]), v)
            return sub(neg(v), K(1))
        return liftn(lambda x: mk("un", op, x), [v])

    def isfloat(self, t):
        return strip(t or "") in ("float", "double", "long double")

    def incdec(self, a, e):
        t = e["e"].get("t", "")
        d = 1 if e["op"] == "++" else -1
        old = self.load(a, t)
        if strip(t).endswith("*"):
            self.store(a, self.padd(old, K(d)))
        elif self.isfloat(t):
            self.store(a, mk("fop", "+", old, K(d)))
        else:
            self.store(a, self.cast(add(old, K(d)), t))

    def arith(self, op, a, b, t, ta="", tb=""):
        v = self.arith0(op, a, b, t, ta, tb)
        if not self.wrap or op not in ("+", "-", "*", "<<"):
            return v
        r, w = W.get(strip(t)), SIZES.get(strip(t))
        if r is None or w is None or v.op in ("addr", "str", "null"):
            return v

        def f(x):
            if x.op in ("addr", "str", "null", "rec", "arr", "float"):
                return x
            xl, xh = rng(x)
            if xl >= r[0] and xh <= r[1]:
                return x
            if r[0] == 0:
                return bits(x, 0, 8 * w)
            if x.op == "k":
                return mk("ub", op, x)      # signed overflow
            return ite(c_and(ge(x, K(r[0])), ge(K(r[1]), x)), x, mk("ub", op, x))
        return lift1(("wrap", op, strip(t)), f, v)

    def arith0(self, op, a, b, t, ta="", tb=""):
        if self.isfloat(t) or self.isfloat(ta) or self.isfloat(tb):
            if op in ("<", ">", "<=", ">=", "==", "!="):
                flip = {">": "<", "<=": ">=", "!=": "=="}
                def f(x, y):
                    if op == "<":
                        return thr(atom("flt", x, y, lo=0, hi=1), 1)
                    if op == ">":
                        return thr(atom("flt", y, x, lo=0, hi=1), 1)
                    if op == ">=":
                        return c_not(thr(atom("flt", x, y, lo=0, hi=1), 1))
                    if op == "<=":
                        return c_not(thr(atom("flt", y, x, lo=0, hi=1), 1))
                    p, q = sorted((x, y), key=lambda z: z.id)
                    c = thr(atom("feq", p, q, lo=0, hi=1), 1)
                    return c if op == "==" else c_not(c)
                return b2v(lift2c(("f", op), f, a, b))
            def g(x, y):
                if op in "+*":
                    x, y = sorted((x, y), key=lambda z: z.id)
                return mk("fop", op, x, y)
            return lift2(("fop", op), g, a, b)
        pa, pb = strip(ta).endswith("*") or strip(ta).endswith("]"), strip(tb).endswith("*") or strip(tb).endswith("]")
        if op == "+":
            if pa:
                return self.padd(a, b)
            if pb:
                return self.padd(b, a)
            return add(a, b)
        if op == "-":
            if pa and pb:
                def f(x, y):
                    if x.op == "addr" and y.op == "addr" and x.args[0] == y.args[0] and x.args[1][:-1] == y.args[1][:-1]:
                        return sub(x.args[1][-1][1], y.args[1][-1][1])
                    if x.op == "addr" and x.args[0] == ("D", y) and len(x.args[1]) == 1:
                        return x.args[1][0][1]
                    return mk("pdiff", x, y)
                return lift2("pdiff", f, a, b)
            if pa:
                return self.padd(a, neg(b))
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            return div(a, b)
        if op == "%":
            return mod(a, b)
        if op == "<<":
            return shl(a, b)
        if op == ">>":
            return shr(a, b)
        if op == "&":
            return band(a, b)
        if op == "|":
            return bor(a, b)
        if op == "^":
            return bxor(a, b)
        if (pa or pb) and op in ("<", ">", "<=", ">="):
            def pc(x, y):
                if x.op == "addr" and y.op == "addr" and x.args[0] == y.args[0] and x.args[1][:-1] == y.args[1][:-1]:
                    return ge(x.args[1][-1][1], y.args[1][-1][1])
                return thr(atom("pge", x, y, lo=0, hi=1), 1)
            if op == ">=":
                return b2v(lift2c("pge", pc, a, b))
            if op == "<":
                return b2v(c_not(lift2c("pge", pc, a, b)))
            if op == "<=":
                return b2v(lift2c("pge", pc, b, a))
            return b2v(c_not(lift2c("pge", pc, b, a)))
        if op == "<":
            return b2v(lt(a, b))
        if op == ">":
            return b2v(lt(b, a))
        if op == "<=":
            return b2v(ge(b, a))
        if op == ">=":
            return b2v(ge(a, b))
        if op == "==":
            return b2v(eq(a, b))
        if op == "!=":
            return b2v(c_not(eq(a, b)))
        raise Unsupported("operator " + op)

    def x_bin(self, e):
        op = e["op"]
        if op == "&&":
            return b2v(self.cond(e))
        if op == "||":
            return b2v(self.cond(e))
        if op == ",":
            self.rv(e["a"])
            return self.rv(e["b"])
        a = self.rv(e["a"])
        b = self.rv(e["b"])
        return self.arith(op, a, b, e.get("t", ""), e["a"].get("t", ""), e["b"].get("t", ""))

    def cond(self, e):
        """condition of a boolean expression; operands of && and || are evaluated gated"""
        if "v" in e:
            return TRUE if e["v"] else FALSE
        if e["k"] == "bin" and e["op"] in ("&&", "||"):
            a = self.cond(e["a"])
            if e["op"] == "&&":
                b = self.gated(a, lambda: self.cond(e["b"]), FALSE)
                return c_and(a, b)
            b = self.gated(c_not(a), lambda: self.cond(e["b"]), FALSE)
            return c_or(a, b)
        if e["k"] == "un" and e["op"] == "!":
            return c_not(self.cond(e["e"]))
        if e["k"] == "cast" and e.get("op") in ("IntegralToBoolean", "PointerToBoolean"):
            return tobool(self.rv(e["e"]))
        if e["k"] == "decl":
            pass
        return tobool(self.rv(e))

    def gated(self, c, f, dflt):
        """evaluate f only where c holds, merging its side effects"""
        if c is FALSE or c_and(self.live, c) is FALSE:
            return dflt
        if c is TRUE:
            return f()
        env0, live0 = dict(self.env), self.live
        self.live = c_and(live0, c)
        r = f()
        live1 = self.live
        self.env = self.merge2(c, self.env, env0)
        self.live = c_or(live1, c_and(live0, c_not(c)))
        return r

    def merge2(self, c, ea, eb):
        if c is TRUE:
            return ea
        if c is FALSE:
            return eb
        out = dict(ea)
        for r, v in eb.items():
            w = ea.get(r)
            if w is None:
                out[r] = v
            elif w is not v:
                out[r] = ite(c, w, v)
        # roots read for the first time on one side only keep their initial value
        return out

    def merge_many(self, lst):
        """[(guard, env)] -> (env, live)"""
        lst = [(g, e) for g, e in lst if g is not FALSE]
        if not lst:
            return {}, FALSE
        joint = FALSE
        for g, _ in lst:
            joint = c_or(joint, g)
        env = lst[-1][1]
        for g, e in reversed(lst[:-1]):
            if e is env:
                continue
            env = self.merge2(constrain(g, joint), e, env)
        return env, joint

    def x_cond(self, e, f=None):
        f = f or self.rv
        c = self.cond(e["c"])
        c = constrain(c, self.guard())
        if c is TRUE:
            return f(e["a"])
        if c is FALSE:
            return f(e["b"])
        env0, live0 = dict(self.env), self.live
        self.live = c_and(live0, c)
        a = f(e["a"])
        env1, live1 = self.env, self.live
        self.env, self.live = env0, c_and(live0, c_not(c))
        b = f(e["b"])
        live2 = self.live
        if live1 is FALSE:
            self.env, self.live = self.env, live2
            return b
        if live2 is FALSE:
            self.env, self.live = env1, live1
            return a
        self.env = self.merge2(c, env1, self.env)
        self.live = c_or(live1, live2)
        return ite(c, a, b)

    def x_cast(self, e):
        op, ck = e.get("op"), e.get("ck")
        t = e.get("t", "")
        if op in ("IntegralCast", "IntegralToBoolean", "BooleanToSignedIntegral"):
            return self.cast(self.rv(e["e"]), t)
        if op == "PointerToBoolean":
            return b2v(tobool(self.rv(e["e"])))
        if op == "IntegralToFloating":
            return self.rv(e["e"])
        if op in ("FloatingToIntegral", "FloatingToBoolean"):
            return liftn(lambda x: atom("f2i", x, strip(t)), [self.rv(e["e"])])
        if op == "ToVoid":
            self.rv(e["e"])
            return mk("void")
        if op in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "LValueToRValue", "BitCast", "DerivedToBase", "BaseToDerived", "ArrayToPointerDecay", "NullToPointer", "FloatingCast", "FunctionToPointerDecay", "Dynamic", "UncheckedDerivedToBase", "LValueBitCast"):
            if op == "NullToPointer":
                return mk("null")
            if op == "BitCast":
                v = self.rv(e["e"])
                to, ft = strip(t).rstrip("*").strip(), strip(e.get("ft", "")).rstrip("*").strip()
                r = self.rec(strip(to))
                if r and len(r["fields"]) == 1 and re.match(re.escape(strip(ft)) + r"\[\d+\]$", r["fields"][0]["t"]):
                    # an array seen through a one-array record (SafeArray::slice)
                    def f(x):
                        if x.op == "addr" and x.args[1] and x.args[1][-1][0] == "i":
                            return mk("addr", x.args[0], x.args[1][:-1] + (("i", x.args[1][-1][1], "vw"),))
                        return x
                    return lift1(("view",), f, v)
                return v
            return self.rv(e["e"])
        if op in ("IntegralToPointer", "PointerToIntegral"):
            return self.rv(e["e"])
        return self.rv(e["e"])

    def x_sizeof(self, e):
        return K(e["v"]) if "v" in e else mk("sizeof", e.get("st", ""))

    def x_typeid(self, e):
        return mk("typeid", self.loc(e))

    def x_unk(self, e):
        for a in e.get("a", ()):
            self.rv(a)
        return mk("unkexpr", e.get("c", "?"))

    def x_stmtexpr(self, e):
        self.exec(e["s"])
        return mk("void")

    def x_asg(self, e):
        a = self.assign(e)
        return self.load(a, e.get("t"))

    def assign(self, e):
        op = e["op"]
        t = e["a"].get("t", "")
        if op == "=":
            v = self.rv(e["b"])
            a = self.lvl(e["a"])
            self.store(a, v)
            return a
        b = self.rv(e["b"])
        a = self.lvl(e["a"])
        old = self.load(a, t)
        v = self.arith(op[:-1], old, b, e.get("ct", ""), t, e["b"].get("t", ""))
        self.store(a, self.cast(v, t) if strip(t) in W else v)
        return a

    def x_throw(self, e):
        tt = strip(e.get("tt", "")) if e.get("e") else "rethrow"
        arg = []
        self.throw(tt, e)
        return mk("void")

    def throw(self, tt, e):
        g = self.guard()
        if g is not FALSE:
            if self.trys:
                self.trys[-1].append((g, tt, dict(self.env), self.loc(e)))
            else:
                self.event("throw", (mk("type", tt),), e)
        self.live = FALSE

    def x_lambda(self, e):
        self.nroot += 1
        key = ("lam", self.nroot)
        caps = {}
        for c in e["caps"]:
            if c.get("id") and not c["ref"]:
                b = self.frame.look(c["id"])
                if b is not None:
                    caps[c["id"]] = self.temp(self.load(b), "cap")
        self.lams[key] = (e, self.frame, caps)
        return mk("lam", key)

    def x_ilist(self, e):
        t = strip(e.get("t", ""))
        if e.get("flds"):
            d = {}
            fl = e["flds"]
            off = len(e["a"]) - len(fl)
            if t.startswith("std::array<") and len(fl) == 1:
                fl = ["#d"]
            for f, x in zip(fl, e["a"][max(0, off):]):
                if x is not None:
                    d[f] = self.rv(x)
            base = mk("obj", self.clsname(t))
            for x in e["a"][:max(0, off)]:
                base = self.rv(x)
            return mk_rec(base, d) if base.op == "obj" else self._over(base, d)
        if t in W or self.isenum(t) or t.endswith("*"):
            return self.rv(e["a"][0]) if e["a"] else K(0)
        d = {}
        base = mk("ilist")
        if e.get("filler"):
            base = mk("fill", self.rv(e["filler"]))
        for i, x in enumerate(e["a"]):
            if x is not None:
                d[i] = self.rv(x)
        r = mk_arr(base, d, ())
        if t.startswith("std::initializer_list"):
            return mk_rec(mk("obj", "vec"), {"#n": K(len(e["a"])), "#d": r})
        return r

    def _over(self, b, d):
        for f, v in d.items():
            b = upd_field(b, f, v)
        return b

    def clsname(self, t):
        return strip(t)

    def x_new(self, e):
        v = self.rv(e["e"]) if e.get("e") else mk("obj", strip(e.get("nt", "")))
        if e.get("pl"):
            p = self.rv(e["pl"])
            self.store(self.deref(p), v)
            return p
        if e.get("arr"):
            n = self.rv(e["arr"])
            v = mk("newarr", n, self.nroot)
        r = self.newroot("heap")
        self.env[r] = v
        return self.addr(r, (("i", K(0)),)) if e.get("arr") else self.addr(r)

    def x_delete(self, e):
        p = self.rv(e["e"])
        self.event("delete", (p,), e)
        return mk("void")

    def x_null_stmt(self, e):
        return mk("void")

    # ------------------------------------------------------------ constructors
    def x_ctor(self, e):
        cls = e.get("cls") or self.clsname(e.get("t", ""))
        h = self.hooks.get(e.get("q"))
        if h is not None:
            r = h(self, e)
            if r is not NotImplemented:
                return r
        f = self.fn(e["f"])
        if e.get("cm") and (e.get("dfltd") or f is None):
            return self.rv(e["a"][0])
        if e.get("inh") and f is not None:
            # inherited constructor: forward the current frame's parameters
            ps = self.frame.fn["ps"]
            args = [self.frame.look(p["id"]) for p in ps]
            return self.construct(f, cls, e, addrs=args)
        if f is None or f.get("body") is None and not f.get("inits"):
            if f is not None and f.get("dfltd"):
                return self.default_obj(cls)
            return self.stdctor(e, cls)
        if self.opaque(e):
            return self.opaquecall(e)
        return self.construct(f, cls, e)

    def default_obj(self, cls):
        r = self.rec(cls)
        b = mk("obj", cls)
        if not r:
            return b
        d = {}
        return b

    def construct(self, f, cls, e, addrs=None, this=None):
        if this is None:
            r = self.newroot("tmp")
            self.env[r] = mk("obj", cls)
            this = self.addr(r)
        self.invoke(f, this, e.get("a", []), e, addrs=addrs)
        return self.load(this)

    def vec(self, n, d):
        return mk_rec(mk("obj", "vec"), {"#n": n, "#d": d})

    def stdctor(self, e, cls):
        c = strip(cls)
        a = e.get("a", [])
        if e.get("cm"):
            return self.rv(a[0])
        m = CONTAINER.match(c)
        if c.startswith("__gnu_cxx::__normal_iterator<") and len(a) == 1:
            return self.rv(a[0])
        if m and m.group(2) in ("vector", "deque", "basic_string", "list"):
            real = [x for x in a if not (x.get("dflt") or (x["k"] == "ctor" and "allocator" in x.get("q", "")))]
            if not real:
                return self.vec(K(0), mk("empty"))
            if m.group(2) == "basic_string" and len(real) == 1 and "char" in real[0].get("t", ""):
                return self.rv(real[0])
            if m.group(2) == "basic_string" and len(real) == 2 and real[0].get("t", "").rstrip().endswith(("*", "]")) and real[0]["k"] != "str" and strip(real[1].get("t", "")) in W:
                return self.bytestring(real[0], self.rv(real[1]), e)
            if len(real) == 1 and "initializer_list" in real[0].get("t", ""):
                v = self.rv(real[0])
                if v.op == "arr" and v.args[0].op == "ilist":
                    v = self.vec(K(len(v.args[1])), v)
                return v
            if len(real) == 1 and real[0]["k"] == "ilist":
                return self.vec(K(len(real[0]["a"])), self.rv(real[0]))
            if m.group(2) in ("vector", "deque") and strip(real[0].get("t", "")) in W and len(real) <= 2:
                n = self.rv(real[0])
                v = self.rvobj(real[1]) if len(real) > 1 else self.valinit(elemtype(c), c, e)
                return self.vec(n, mk("fill", v))
        if m and m.group(2) == "array":
            return mk("obj", c)
        if SMART.match(c):
            real = [x for x in a]
            if not real:
                return mk("null")
            if "reference_wrapper" in c:
                return self.ptrval(self.lvl(real[0]))
            return self.rv(real[0])
        if c.startswith("std::function"):
            return self.rv(a[0]) if a else mk("null")
        if c.startswith("std::pair<") and len(a) == 2:
            return mk_rec(mk("obj", "pair"), {"first": self.rvobj(a[0]), "second": self.rvobj(a[1])})
        return self.opaquecall(e)

    def valinit(self, t, c, e):
        """value of a value-initialized object of type t"""
        t = strip(t or "?")
        if t in W:
            return K(0)
        f = self.pick_ctor(t, [])
        if f is not None and not f.get("implicit"):
            return self.construct(f, t, {"a": [p["d"] for p in f["ps"]], "l": e.get("l"), "cls": t})
        return mk("valinit", c)

    def bytestring(self, pe, n, e):
        """string(pointer, length)"""
        p = self.rv(pe) if not strip(pe.get("t", "")).endswith("]") else self.ext(self.lvl(pe), ("i", K(0)))
        if p.op in ("br", "null"):
            return self.opaquecall(e)
        es = self.elemsize(pe)
        aa, off = self.split(p)
        if es and es > 1:
            v = self.load(p) if aa is None else self.load(p)
            if n.op != "k" or n.args[0] > es:
                return self.opaquecall(e)
            return self.vec(n, mk_arr(mk("obj", "arr"), {i: bits(v, 8 * i, 8) for i in range(n.args[0])}, ()))
        if aa is None and n is K(1):
            return self.vec(n, mk_arr(mk("obj", "arr"), {0: self.load(p)}, ()))
        if aa is None:
            return self.opaquecall(e)
        if n.op == "k" and n.args[0] <= 64:
            return self.vec(n, mk_arr(mk("obj", "arr"), {i: self.load(self.padd(p, K(i)), "unsigned char") for i in range(n.args[0])}, ()))
        return self.vec(n, mk("slice", self.load(aa), off))

    def streq(self, x, y):
        """equality of two byte strings, None when their contents are not elementwise known"""
        def parts(v):
            if v.op == "str":
                return K(len(v.args[0])), v
            if v.op == "rec" and v.args[0].op == "obj":
                return field(v, "#n"), field(v, "#d")
            return None, None
        if x.op == "br" or y.op == "br":
            return None
        (n, a), (m, b) = parts(x), parts(y)
        if n is None or m is None:
            return None
        if n.op != "k" and m.op != "k":
            return None
        k = n.args[0] if n.op == "k" else m.args[0]
        if k > 64:
            return None
        c = eq(n, m)
        for i in range(k):
            c = c_and(c, eq(band(elem(a, K(i), -128, 255), K(255)), band(elem(b, K(i), -128, 255), K(255))))
        return c

    def tsize(self, t):
        t = strip(t)
        if t in SIZES:
            return SIZES[t]
        m = re.match(r"(?:SafeArray|std::array)<(.*), (\d+)>$", t) or re.match(r"(.*)\[(\d+)\]$", t)
        if m:
            z = self.tsize(m.group(1))
            return z and z * int(m.group(2))
        return None

    def memleaves(self, v, t):
        """scalars of an object in memory order, with their sizes"""
        t = strip(t)
        if t in SIZES:
            yield v, SIZES[t], t
            return
        if v.op == "in" and self.tsize(t):
            yield v, self.tsize(t), t
            return
        m = re.match(r"SafeArray<(.*), (\d+)>$", t)
        if not m:
            raise Unsupported("memory layout of " + t)
        d = field(v, "storage_")
        lh = self.trange(m.group(1))
        for i in range(int(m.group(2))):
            yield from self.memleaves(elem(d, K(i), *lh), m.group(1))

    def memcmp(self, e):
        """zero exactly when the compared bytes are equal"""
        a = e["a"]
        n = self.rv(a[2])
        ts = []
        for x in a[:2]:
            while x["k"] == "cast":
                x = x["e"]
            t = strip(x.get("t", ""))
            t = strip(t[:-1]) if t.endswith("*") else t
            m = re.match(r"(.*)\[\d*\]$", t)
            ts.append(strip(m.group(1)) if m else t)
        if n.op != "k" or n.args[0] > 65536 or ts[0] != ts[1] or not self.tsize(ts[0]):
            return None
        pa, pb = self.rv(a[0]), self.rv(a[1])
        if pa.op != "addr" or pb.op != "addr":
            return None
        c, left, i = TRUE, n.args[0], 0
        lh = self.trange(ts[0])
        while left > 0:
            aa, ab = self.split(self.padd(pa, K(i)) if i else pa), self.split(self.padd(pb, K(i)) if i else pb)
            if aa[0] is None or ab[0] is None:
                if i:
                    return None
                va, vb = self.load(pa, ts[0]), self.load(pb, ts[0])
            else:
                va, vb = elem(self.load(aa[0]), aa[1], *lh), elem(self.load(ab[0]), ab[1], *lh)
            for (x, z, _), (y, _, _) in zip(self.memleaves(va, ts[0]), self.memleaves(vb, ts[0])):
                if left <= 0:
                    break
                c = c_and(c, eq(x, y) if left >= z else eq(bits(x, 0, 8 * left), bits(y, 0, 8 * left)))
                left -= z
            i += 1
        return ite(c, K(0), atom("h", "memcmp", pa, pb, lo=1, hi=255))

    def veceq(self, x, y, t, e):
        """elementwise equality of two vectors of known size"""
        m = re.match(r"std::vector<(.*)>$", t)
        n, k = field(x, "#n"), field(y, "#n")
        if not m or n.op != "k" or k.op != "k" or n.args[0] > 4096:
            return None
        if n is not k:
            return FALSE
        et = m.group(1)
        et = strip(et.split(", std::allocator")[0])
        c = TRUE
        lh = self.trange(et)
        for i in range(n.args[0]):
            a, b = elem(field(x, "#d"), K(i), *lh), elem(field(y, "#d"), K(i), *lh)
            c = c_and(c, self.objeq(a, b, et, e))
        return c

    def objeq(self, a, b, t, e):
        """a == b as the program defines it for type t"""
        t = strip(t)
        if t in W or self.isenum(t):
            return eq(a, b)
        todo = [t]
        while todo:
            c = todo.pop()
            for g in self.prog.fns.values():
                if g.get("cls") == c and g["q"].endswith("operator==") and len(g["ps"]) == 1 and g.get("body"):
                    ra, rb = self.newroot("tmp"), self.newroot("tmp")
                    self.env[ra], self.env[rb] = a, b
                    return tobool(self.invoke(g, self.addr(ra), None, e, addrs=[self.addr(rb)]))
            r = self.rec(c)
            todo += [q["t"] for q in (r or {}).get("bases", ())]
        r = self.rec(t)
        if r and len(r["fields"]) == 1 and not r.get("bases"):
            f = r["fields"][0]
            return self.objeq(field(a, f["n"], None, *self.trange(f["t"])), field(b, f["n"], None, *self.trange(f["t"])), f["t"], e)
        return eq(a, b)

    def rvobj(self, e):
        return self.rv(e)

    # ------------------------------------------------------------ calls
    def x_call(self, e):
        r = self.call(e)
        if e.get("lv") or e.get("xv"):
            if e.get("t", "").rstrip().endswith("]"):
                return self.ext(r, ("i", K(0)))
            return self.load(r, e.get("t"))
        return r

    def call(self, e):
        """value (prvalue call) or address (glvalue call)"""
        if self.live is FALSE:
            return mk("dead")
        q = e.get("q")
        if q is None:
            fe = e.get("fe")
            fv = self.rv(fe) if fe else mk("fnptr")
            if fv.op == "lam":
                return self.calllam(fv, e)
            return self.opaquecall(e, name=mk("ind", fv))
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, e)
            if r is not NotImplemented:
                return r
        sf = self.subst.get(q)
        if sf is not None:
            return self.invoke(sf, None, e.get("a", []), e)
        # lambda / std::function
        if q.endswith("operator()") and e.get("obj") is not None and ("lambda" in q or "(anonymous" in q or "std::function" in e.get("cls", "")):
            o = self.load(self.lvl(e["obj"]))
            if o.op == "lam":
                return self.calllam(o, e)
        f = self.fn(e["f"])
        if f is None:
            f = self.virt(e)
        if f is not None and not self.opaque(e) and len(self.stack) < self.maxdepth and self.stack.count(e["f"]) < 2:
            if f.get("dfltd") and f["kind"] == "method" and e.get("opc") == "=":
                a = self.lvl(e["obj"])
                v = self.rv(e["a"][0])
                self.store(a, v)
                return a
            if f.get("body") is not None:
                this = None
                if f["kind"] != "fn" and not f.get("st") and not e.get("st"):
                    if e.get("arrow"):
                        this = self.deref(self.rv(e["obj"]))
                    else:
                        this = self.lvl(e["obj"])
                return self.invoke(f, this, e.get("a", []), e)
        return self.builtin(e)

    def virt(self, e):
        return None

    def calllam(self, lv, e):
        node, fr, caps = self.lams[lv.args[0]]
        fs = node["fs"]
        f = None
        for c in fs:
            if c["f"] == e.get("f"):
                f = c
        if f is None:
            c = [x for x in fs if len(x["ps"]) == len(e.get("a", []))]
            f = c[0] if c else None
        if f is None:
            return self.opaquecall(e)
        f = dict(f)
        f.setdefault("file", fr.fn["file"] if fr.fn else "?")
        return self.invoke(f, fr.this, e.get("a", []), e, parent=fr, caps=caps)

    def invoke(self, f, this, args, e, addrs=None, parent=None, caps=None):
        binds = []
        if addrs is None:
            for p, a in zip(f["ps"], args):
                if p.get("ref"):
                    binds.append(self.lvl(a))
                else:
                    binds.append(("v", self.rv(a)))
        else:
            binds = list(addrs)
        if self.live is FALSE:
            return mk("dead")
        if self.ihook is not None:
            r = self.ihook(self, f, this, binds, e)
            if r is not NotImplemented:
                return r
        caller = self.frame
        fr = Frame(f, this, parent)
        if caps:
            fr.vars.update(caps)
        base0, live0, depth0 = self.base, self.live, self.loopdepth
        self.frame = fr
        for p, b in zip(f["ps"], binds):
            if isinstance(b, tuple):
                r = self.newroot("par")
                self.env[r] = b[1]
                fr.vars[p["id"]] = self.addr(r)
            else:
                fr.vars[p["id"]] = b
        self.base = c_and(base0, live0)
        self.live = TRUE
        self.stack.append(f["f"])
        self.inlined.add(f["f"])
        try:
            self.run_body(f, e)
            val, env, joint = self.finish(fr)
        finally:
            self.stack.pop()
            self.frame = caller
            self.base = base0
            self.loopdepth = depth0
        self.env = env if joint is not FALSE else self.env
        self.live = c_and(live0, joint)
        isref = f["ret"].rstrip().endswith("&")
        for r in fr.made:
            if r[0] == "par" or r[0] == "loc" and val is not None and not isref and val.op not in ("addr", "br", "lam", "rec"):
                self.env.pop(r, None)
            elif r[0] == "loc" and val is None:
                self.env.pop(r, None)
        if caller is not None:
            caller.made.extend(r for r in fr.made if r[0] in ("tmp", "cap"))
        if val is None:
            return mk("void")
        return val

    def run_body(self, f, e):
        fr = self.frame
        if f["kind"] == "ctor":
            for i in f.get("inits", ()):
                ie = i.get("e")
                if i.get("deleg"):
                    self.init_into(fr.this, ie)
                elif "base" in i:
                    self.init_into(fr.this, ie)
                elif ie is not None:
                    fa = self.ext(fr.this, ("f", i["fld"]))
                    rc = self.rec(f.get("cls", ""))
                    isref = rc and any(x["n"] == i["fld"] and x["t"].rstrip().endswith("&") for x in rc["fields"])
                    if isref:
                        self.store(fa, self.ptrval(self.lvl(ie)))
                    else:
                        mark = len(fr.made)
                        v = self.rv(ie)
                        if i["fld"]:
                            self.store(fa, v)
                        if v.op not in ("addr", "br", "lam"):
                            self.drop(mark)
        self.exec(f["body"]) if f.get("body") else None
        if self.live is not FALSE:
            fr.exits.append((self.live, None, self.env))

    def init_into(self, this, ie):
        """base or delegated constructor writes into the same object"""
        if ie["k"] == "ctor":
            h = self.hooks.get(ie.get("q"))
            if h is not None:
                r = h(self, ie)
                if r is not NotImplemented:
                    if r is not None:
                        self.store(this, r)
                    return
            f = self.fn(ie["f"])
            if ie.get("cm") and (ie.get("dfltd") or f is None):
                src = self.lvl(ie["a"][0])
                v = self.load(src)
                old = self.load(this)
                if old.op == "obj" or old.op == "rec" and old.args[0].op == "obj" and not old.args[1]:
                    self.store(this, v)
                else:
                    self.store(this, v)
                return
            if f is not None and f.get("body") is not None:
                addrs = None
                if ie.get("inh"):
                    addrs = [self.frame.look(p["id"]) for p in self.frame.fn["ps"]]
                self.invoke(f, this, ie.get("a", []), ie, addrs=addrs)
                return
            if not ie.get("a"):
                return
            args = [self.argval(x, m) for x, m in zip(ie["a"], ie.get("pm", []))]
            self.store(this, upd_field(self.load(this), "#base:" + ie.get("q", "?"), mk("app", ie.get("q"), tuple(args))))
            return
        v = self.rv(ie)
        self.store(this, v)

    def finish(self, fr):
        ex = fr.exits
        if not ex:
            return None, {}, FALSE
        if len(ex) == 1:
            return ex[0][1], ex[0][2], ex[0][0]
        env, joint = self.merge_many([(g, en) for g, v, en in ex])
        vals = [(g, v) for g, v, en in ex if g is not FALSE]
        val = vals[-1][1]
        for g, v in reversed(vals[:-1]):
            if v is None or val is None:
                val = v if val is None else val
                continue
            val = ite(constrain(g, joint), v, val)
        return val, env, joint

    # ---- library models
    def ap(self, e, i):
        return self.rv(e["a"][i])

    def builtin(self, e):
        q = e["q"]
        a = e.get("a", [])
        cls = e.get("cls", "")
        n = q.rsplit("::", 1)[-1]
        if q.startswith("operator") or "::operator" in q:
            n = "operator" + q.split("operator", 1)[1]
        n = n.split("<")[0] if not n.startswith("operator") else n
        if "~" in n or n.startswith("~"):
            return mk("void")
        lvres = e.get("lv") or e.get("xv")
        if q in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::addressof", "std::__addressof"):
            if q in ("std::ref", "std::cref") or "addressof" in q:
                return self.ptrval(self.lvl(a[0]))
            if lvres:
                return self.lvl(a[0])
            return self.rv(a[0])
        if q in ("std::min", "std::max") and len(a) == 2:
            x, y = self.lvl(a[0]), self.lvl(a[1])
            vx, vy = self.load(x, a[0].get("t")), self.load(y, a[1].get("t"))
            if self.isfloat(a[0].get("t")):
                p, r = sorted((vx, vy), key=lambda z: z.id)
                return self.temp(mk("f" + n, p, r))
            c = lt(vy, vx) if n == "min" else lt(vx, vy)
            return self.temp(ite(c, vy, vx))
        if q in ("abs", "std::abs", "labs") and len(a) == 1 and not self.isfloat(a[0].get("t")):
            v = self.rv(a[0])
            return ite(ge(v, K(0)), v, neg(v))
        if q in ("le16toh", "le32toh", "le64toh", "htole16", "htole32", "htole64", "__uint16_identity", "__uint32_identity", "__uint64_identity"):
            return self.rv(a[0])
        if q in ("memcmp", "std::memcmp", "__builtin_memcmp") and len(a) == 3:
            r = self.memcmp(e)
            if r is not None:
                return r
        if q in ("std::memcpy", "memcpy", "std::memmove", "memmove", "__builtin_memcpy", "__builtin_memmove"):
            return self.memcpy(e)
        if q in ("std::memset", "memset"):
            d, v, cnt = self.rv(a[0]), self.rv(a[1]), self.rv(a[2])
            if d.op == "addr" and cnt.op == "k" and 0 <= cnt.args[0] <= 64 and self.elemsize(a[0]) == 1:
                da, off = self.split(d)
                if da is not None:
                    x = self.cast(v, self.pointee(a[0]))
                    old = self.load(da)
                    for i in range(cnt.args[0]):
                        old = upd_elem(old, add(off, K(i)), x)
                    self.store(da, old)
                    return d
            pt = self.pointee(a[0])
            if v is K(0) and d.op == "addr" and self.split(d)[0] is None and pt not in W and not pt.endswith("*") and not self.isenum(pt):
                self.store(self.deref(d), mk("zeroinit"))
                return d
            self.bulkstore(d, lambda arr, off: mk("memset", arr, off, v, cnt), v if v is K(0) else None, cnt)
            return d
        if q.startswith("std::make_pair") or q == "std::make_pair":
            return mk_rec(mk("obj", "pair"), {"first": self.rv(a[0]), "second": self.rv(a[1])})
        if n in ("make_shared", "make_unique") and q.startswith("std::"):
            ta = e.get("ta", ["?"])
            t = ta[0]
            return self.make_heap(t, e)
        if q == "std::swap" or n == "swap" and len(a) == 2 and q.startswith("std::"):
            x, y = self.lvl(a[0]), self.lvl(a[1])
            vx, vy = self.load(x), self.load(y)
            self.store(x, vy)
            self.store(y, vx)
            return mk("void")
        if q == "std::exchange" and len(a) == 2:
            x = self.lvl(a[0])
            old, new = self.load(x), self.load(self.lvl(a[1])) if a[1].get("lv") or a[1].get("xv") else self.rv(a[1])
            self.store(x, new)
            return old
        if q in ("__assert_fail", "abort", "std::abort", "exit", "_exit", "std::terminate", "std::exit", "__assert_perror_fail"):
            args = [] if q == "__assert_fail" else [self.rv(x) for x in a]
            if q == "__assert_fail":
                self.throw("assert", e)
            else:
                self.event("exit", [mk("str", q)] + args, e)
                self.live = FALSE
            return mk("void")
        c = strip(cls)
        if SMART.match(c):
            return self.smart(e, n, c)
        if CONTAINER.match(c):
            r = self.container(e, n, c)
            if r is not NotImplemented:
                return r
        if c.startswith("std::reverse_iterator"):
            r = self.reviter(e, n)
            if r is not NotImplemented:
                return r
        if c.startswith("__gnu_cxx::__normal_iterator") or c.startswith("std::_Deque_iterator"):
            r = self.iterator(e, n)
            if r is not NotImplemented:
                return r
        if "__normal_iterator" in q or (q.startswith(("__gnu_cxx::operator", "std::operator")) and a and "_iterator" in a[0].get("t", "")):
            r = self.iterfree(e, n)
            if r is not NotImplemented:
                return r
        if q.startswith("std::operator") and n in ("operator==", "operator!=") and len(a) == 2:
            x, y = self.rv(a[0]), self.rv(a[1])
            r = self.streq(x, y) if "basic_string" in a[0].get("t", "") + a[1].get("t", "") else None
            if r is None and "vector<" in strip(a[0].get("t", "")):
                r = self.veceq(x, y, strip(a[0]["t"]), e)
            if r is None:
                r = eq(x, y)
            return b2v(r if n == "operator==" else c_not(r))
        if q == "std::operator+" or (n == "operator+" and q.startswith("std::")):
            return self.cat(self.rv(a[0]), self.rv(a[1]))
        return self.opaquecall(e)

    def cat(self, x, y):
        def parts(z):
            if z.op == "cat":
                return z.args[0]
            if z.op == "rec" and z.args[0].op == "obj" and field(z, "#n") is K(0):
                return ()
            return (z,)
        return liftn(lambda p, r: mk("cat", parts(p) + parts(r)), [x, y])

    def make_heap(self, t, e):
        r = self.newroot("heap")
        f = self.pick_ctor(strip(t), e["a"])
        if f is not None and not (len(e["a"]) == 1 and strip(e["a"][0].get("t", "")) == strip(t)):
            self.env[r] = mk("obj", strip(t))
            self.invoke(f, self.addr(r), list(e["a"]) + [p["d"] for p in f["ps"][len(e["a"]):]], e)
            return self.addr(r)
        if len(e["a"]) == 1 and strip(e["a"][0].get("t", "")) == strip(t):
            self.env[r] = self.rv(e["a"][0])
            return self.addr(r)
        args = [self.argval(x, "cr") for x in e["a"]]
        self.env[r] = liftn(lambda *z: mk("app", "new " + strip(t), tuple(z)), args)
        return self.addr(r)

    def smart(self, e, n, c):
        if n in ("operator->", "operator*", "get"):
            p = self.rv(e["obj"]) if not e.get("arrow") else self.load(self.deref(self.rv(e["obj"])))
            if e.get("lv") or e.get("xv"):
                return self.deref(p)
            return p
        if n.startswith("operator ") and "reference_wrapper" in c:
            return self.deref(self.rv(e["obj"]))
        if n in ("operator bool",):
            return b2v(tobool(self.rv(e["obj"])))
        if n == "operator=":
            a = self.lvl(e["obj"])
            self.store(a, self.rv(e["a"][0]))
            return a
        if n == "operator[]":
            return self.deref(self.padd(self.rv(e["obj"]), self.rv(e["a"][0])))
        if n == "reset":
            a = self.lvl(e["obj"])
            self.store(a, self.rv(e["a"][0]) if e["a"] and not e["a"][0].get("dflt") else mk("null"))
            return mk("void")
        if n == "release":
            a = self.lvl(e["obj"])
            v = self.load(a)
            self.store(a, mk("null"))
            return v
        return self.opaquecall(e)

    def objaddr(self, e):
        return self.deref(self.rv(e["obj"])) if e.get("arrow") else self.lvl(e["obj"])

    def arrlen(self, c):
        m = re.match(r"std::array<.*, (\d+)(UL|ul|u)?>$", c)
        return int(m.group(1)) if m else None

    def container(self, e, n, c):
        a = e.get("a", [])
        isarr = c.startswith("std::array")
        D = ("f", "#d")
        if n in ("size", "length"):
            if isarr:
                return K(self.arrlen(c) or 0)
            o = self.objaddr(e)
            return self.vsize(o)
        if n in ("operator[]", "at"):
            o = self.objaddr(e)
            i = self.rv(a[0])
            if not isarr:
                # map-like containers do not get here
                pass
            if n == "at":
                self.event("at", (i, self.vsize(o) if not isarr else K(self.arrlen(c) or 0)), e)
            return self.ext(self.ext(o, D), ("i", i))
        if n in ("data", "c_str", "begin", "cbegin"):
            o = self.objaddr(e)
            return self.ext(self.ext(o, D), ("i", K(0)))
        if n in ("rbegin", "rend", "crbegin", "crend"):
            o = self.objaddr(e)
            if n in ("rend", "crend"):
                return self.ext(self.ext(o, D), ("i", K(0)))
            return self.ext(self.ext(o, D), ("i", K(self.arrlen(c) or 0) if isarr else self.vsize(o)))
        if n == "insert" and len(a) == 3 and "_iterator" in a[1].get("t", ""):
            o = self.objaddr(e)
            pos, b, en = self.rv(a[0]), self.rv(a[1]), self.rv(a[2])
            old = self.load(o)
            endp = self.ext(self.ext(o, D), ("i", self.vsize(o)))
            if pos is endp:
                r = self.rangeval(b, en)
                if r is not None:
                    self.store(o, self.cat(old, r))
                    return endp
            return NotImplemented
        if n in ("end", "cend"):
            o = self.objaddr(e)
            return self.ext(self.ext(o, D), ("i", K(self.arrlen(c) or 0) if isarr else self.vsize(o)))
        if n == "front":
            return self.ext(self.ext(self.objaddr(e), D), ("i", K(0)))
        if n == "back":
            o = self.objaddr(e)
            return self.ext(self.ext(o, D), ("i", sub(self.vsize(o), K(1))))
        if n == "empty":
            return b2v(eq(self.vsize(self.objaddr(e)), K(0)))
        if n in ("push_back", "emplace_back"):
            o = self.objaddr(e)
            if n == "push_back" or (len(a) == 1 and self.same_elem(c, a[0])):
                v = self.rv(a[0])
            else:
                v = self.emplace(c, a, e)
            ov = self.load(o)
            if ov.op == "cat" and not (e.get("lv") or e.get("xv")):
                self.store(o, self.cat(ov, self.vec(K(1), mk_arr(mk("obj", "arr"), {0: v}, ()))))
                return mk("void")
            sz = self.vsize(o)
            ea = self.ext(self.ext(o, D), ("i", sz))
            self.store(ea, v)
            self.store(self.ext(o, ("f", "#n")), add(sz, K(1)))
            return ea if (e.get("lv") or e.get("xv")) else mk("void")
        if n == "pop_back":
            o = self.objaddr(e)
            self.store(self.ext(o, ("f", "#n")), sub(self.vsize(o), K(1)))
            return mk("void")
        if n == "fill" and isarr and len(a) == 1:
            o = self.objaddr(e)
            t = strip(elemtype(c) or "?")
            self.store(self.ext(o, D), mk("fill", self.cast(self.rv(a[0]), t) if t in W else self.rv(a[0])))
            return mk("void")
        if n == "clear":
            o = self.objaddr(e)
            self.store(o, self.vec(K(0), mk("empty")))
            return mk("void")
        if n in ("reserve", "shrink_to_fit"):
            for x in a:
                self.rv(x)
            return mk("void")
        if n == "resize":
            o = self.objaddr(e)
            self.store(self.ext(o, ("f", "#n")), self.rv(a[0]))
            return mk("void")
        if n == "operator=" and a:
            o = self.objaddr(e)
            self.store(o, self.rv(a[0]))
            return o
        if n in ("operator+=", "append") and len(a) == 1:
            o = self.objaddr(e)
            self.store(o, self.cat(self.load(o), self.rv(a[0])))
            return o
        return NotImplemented

    def rangeval(self, b, en):
        """[begin,end) of one whole container -> its value"""
        aa, off = self.split(b)
        ab, offe = self.split(en)
        if aa is None or ab is not aa or off is not K(0) or not aa.args[1] or aa.args[1][-1] != ("f", "#d"):
            return None
        v = self.load(mk("addr", aa.args[0], aa.args[1][:-1]))
        if offe is not self.vsize(mk("addr", aa.args[0], aa.args[1][:-1])):
            return None
        return v

    def same_elem(self, c, x):
        t = elemtype(c)
        return strip(x.get("t", "")) == strip(t) or strip(x.get("t", "")) in W and strip(t) in W

    def emplace(self, c, a, e):
        t = strip(elemtype(c) or "?")
        f = self.pick_ctor(t, a)
        if f is not None:
            full = list(a) + [p["d"] for p in f["ps"][len(a):]]
            return self.construct(f, t, {"a": full, "l": e.get("l"), "cls": t})
        if not a:
            return mk("valinit", t)
        if t.startswith("std::pair<") and len(a) == 2:
            m2 = re.match(r"std::pair<(.*)>$", t)
            ts = splitargs(m2.group(1))
            vs = [self.cast(self.rv(x), tt) if strip(tt) in W else self.rv(x) for x, tt in zip(a, ts)]
            return mk_rec(mk("obj", "pair"), {"first": vs[0], "second": vs[1]})
        args = [self.argval(x, "cr") for x in a]
        return liftn(lambda *z: mk("app", "new " + t, tuple(z)), args)

    def arithm(self, t):
        t = strip(t)
        return t in W or self.isenum(t) or self.isfloat(t)

    _ctors = None

    def pick_ctor(self, t, a):
        """constructor of t (or inherited by it) that an emplacement of a resolves to"""
        if Ev._ctors is None or Ev._ctors[0] is not self.prog:
            d = {}
            for p in self.progs:
                for f in p.fns.values():
                    if f["kind"] == "ctor" and not f.get("cm") and f.get("body") is not None:
                        d.setdefault(f.get("cls"), []).append(f)
            Ev._ctors = (self.prog, d)
        best = None
        for f in Ev._ctors[1].get(t, ()):
            ps = f["ps"]
            if len(ps) < len(a) or any("d" not in p for p in ps[len(a):]):
                continue
            sc = 0
            for p, x in zip(ps, a):
                pt, xt = strip(p["t"]), strip(x.get("t", ""))
                if pt == xt:
                    sc += 3
                elif self.arithm(pt) and self.arithm(xt):
                    sc += 1
                elif self.arithm(pt) != self.arithm(xt):
                    sc -= 2
            sc = (sc, -len(ps))
            if best is None or sc > best[0]:
                best = (sc, f)
        return best[1] if best else None

    def vsize(self, o):
        v = self.load(o)

        def f(x):
            if x.op == "cat":
                r = K(0)
                for p in x.args[0]:
                    r = add(r, f(p))
                return r
            if x.op == "str":
                return K(len(x.args[0]))
            return field(x, "#n", None, 0, None)
        return lift1("vsize", f, v)

    def iterator(self, e, n):
        if n in ("operator*", "operator->"):
            p = self.rv(e["obj"])
            return self.deref(p) if (e.get("lv") or e.get("xv")) else p
        if n in ("operator++", "operator--"):
            a = self.lvl(e["obj"])
            old = self.load(a)
            self.store(a, self.padd(old, K(1 if n == "operator++" else -1)))
            if e.get("lv"):
                return a
            return old
        if n in ("operator+", "operator-"):
            p = self.rv(e["obj"])
            d = self.rv(e["a"][0])
            return self.padd(p, d if n == "operator+" else neg(d))
        if n in ("operator+=", "operator-="):
            a = self.lvl(e["obj"])
            d = self.rv(e["a"][0])
            self.store(a, self.padd(self.load(a), d if n == "operator+=" else neg(d)))
            return a
        if n == "operator=":
            a = self.lvl(e["obj"])
            self.store(a, self.rv(e["a"][0]))
            return a
        if n == "base":
            return self.rv(e["obj"])
        return NotImplemented

    def reviter(self, e, n):
        if n in ("operator*", "operator->"):
            p = self.padd(self.rv(e["obj"]), K(-1))
            return self.deref(p) if (e.get("lv") or e.get("xv")) else p
        if n in ("operator++", "operator--"):
            a = self.lvl(e["obj"])
            old = self.load(a)
            self.store(a, self.padd(old, K(-1 if n == "operator++" else 1)))
            return a if e.get("lv") else old
        if n in ("operator+", "operator-"):
            d = self.rv(e["a"][0])
            return self.padd(self.rv(e["obj"]), neg(d) if n == "operator+" else d)
        if n == "base":
            return self.rv(e["obj"])
        return NotImplemented

    def iterfree(self, e, n):
        a = e["a"]
        if n in ("operator==", "operator!=") and len(a) == 2:
            r = eq(self.rv(a[0]), self.rv(a[1]))
            return b2v(r if n == "operator==" else c_not(r))
        if n in ("operator-",) and len(a) == 2:
            return self.arith("-", self.rv(a[0]), self.rv(a[1]), "long", "x *", "x *")
        if n in ("operator<",) and len(a) == 2:
            return self.arith("<", self.rv(a[0]), self.rv(a[1]), "bool", "x *", "x *")
        return NotImplemented

    def split(self, p):
        """pointer leaf -> (array addr, offset)"""
        if p.op != "addr":
            p = mk("addr", ("D", p), (("i", K(0)),))
        path = p.args[1]
        if path and path[-1][0] == "i":
            return mk("addr", p.args[0], path[:-1]), path[-1][1]
        return None, None

    def memcpy(self, e):
        a = e["a"]
        d, s, n = self.rv(a[0]), self.rv(a[1]), self.rv(a[2])

        def sv(p):
            if p.op == "str":
                return p, K(0)
            aa, off = self.split(p)
            if aa is None:
                return mk("bytesof", self.load(p)), K(0)
            return self.load(aa), off
        if s.op == "br" or d.op == "br" or d.op == "null" or s.op == "null":
            self.lossy.append(("memcpy", self.loc(e)))
            self.event("memcpy", (d, s, n), e)
            return d
        arr, off = sv(s)
        da, doff = self.split(d)
        if da is None:
            nd = self.elemsize(a[0])
            if n.op == "k" and nd == n.args[0] and nd in (2, 4, 8) and self.elemsize(a[1]) == 1:
                v = K(0)
                for i in range(nd):
                    v = add(v, mul(band(elem(arr, add(off, K(i)), 0, 255), K(255)), K(1 << (8 * i))))
                t = strip(self.pointee(a[0]))
                if t in W and W[t][0] < 0:
                    v = self.cast(v, t)
                self.store(self.deref(d), v)
                return d
            self.store(self.deref(d), liftn(lambda x, o, m: atom("raw", x, o, m), [arr, off, n]))
        else:
            old = self.load(da)
            es = self.elemsize(a[1])
            if n.op == "k" and es in (2, 4, 8) and n.args[0] <= es and self.elemsize(a[0]) == 1 and self.split(s)[0] is None and s.op == "addr":
                v = self.load(s, self.pointee(a[1]))
                for i in range(n.args[0]):
                    old = upd_elem(old, add(doff, K(i)), bits(v, 8 * i, 8))
                self.store(da, old)
                return d
            # whole-object copy of a constant number of elements
            if n.op == "k" and n.args[0] <= (256 if off.op == "k" and doff.op == "k" else 64) and self.elemsize(a[0]) and self.elemsize(a[0]) == self.elemsize(a[1]) and n.args[0] % self.elemsize(a[0]) == 0:
                cnt = n.args[0] // self.elemsize(a[0])
                lh = self.trange(self.pointee(a[1]))
                for i in range(cnt):
                    old = upd_elem(old, add(doff, K(i)), elem(arr, add(off, K(i)), *lh))
                self.store(da, old)
            else:
                self.store(da, liftn(lambda x, o, y, p, m: mk("memcpy", x, o, y, p, m), [old, doff, arr, off, n]))
        return d

    def pointee(self, e):
        while e["k"] == "cast":
            e = e["e"]
        t = strip(e.get("t", ""))
        return strip(t[:-1]) if t.endswith("*") else t

    def elemsize(self, e):
        while e["k"] == "cast":
            e = e["e"]
        t = strip(e.get("t", ""))
        if t.endswith("*"):
            t = strip(t[:-1])
        m = re.match(r"(.*)\[\d*\]$", t)
        if m:
            t = strip(m.group(1))
        return SIZES.get(t)

    def bulkstore(self, d, f, fillv, n):
        if d.op in ("br", "null"):
            return
        da, off = self.split(d)
        if da is None:
            self.store(self.deref(d), fillv if fillv is not None else mk("memset1", n))
            return
        self.store(da, f(self.load(da), off))

    def argval(self, x, mode):
        """by-value content of an argument of an uninterpreted call"""
        v = self.rv(x)
        return self.deepval(v)

    def deepval(self, v, depth=0):
        def f(p):
            if p.op == "addr" and depth < 3:
                aa, off = self.split(p)
                if p.args[0][0] in ("heap", "tmp", "loc", "par"):
                    if aa is not None:
                        return mk("pv", self.deepval(self.load(aa), depth + 1), off)
                    return mk("pv", self.deepval(self.load(p), depth + 1), K(0))
            if p.op == "lam":
                node = self.lams[p.args[0]][0]
                return mk("lamv", node["f"])
            if p.op == "rec" and depth < 4:
                return mk_rec(p.args[0], {k: self.deepval(w, depth + 1) for k, w in p.args[1]})
            return p
        return lift1(("deep", depth, self._envstamp()), f, v) if v.op == "br" else f(v)

    def _envstamp(self):
        self.nroot += 1
        return self.nroot

    def opaquecall(self, e, name=None):
        q = e.get("q", "?")
        ta = tuple(e.get("ta", ()))
        pm = e.get("pm") or []
        a = e.get("a", [])
        vals, outs = [], []
        if e.get("obj") is not None and not e.get("st"):
            oa = self.objaddr(e) if e["k"] == "call" else None
            vals.append(self.deepval(self.load(oa)))
            if not e.get("cst"):
                outs.append(("this", oa))
        for i, x in enumerate(a):
            m = pm[i] if i < len(pm) else "v"
            if m in ("r", "rr", "cr"):
                ad = self.lvl(x)
                vals.append(self.deepval(self.load(ad, x.get("t"))))
                if m == "r":
                    outs.append((i, ad))
            else:
                v = self.rv(x)
                if m in ("p", "cp") and v.op not in ("null", "str", "br"):
                    aa, off = self.split(v) if v.op == "addr" else (None, None)
                    vals.append(self.deepval(v) if v.op != "addr" else mk("pv", self.load(aa), off) if aa is not None else mk("pv", self.load(v), K(0)))
                    if m == "p":
                        outs.append((i, aa if aa is not None else self.deref(v)))
                else:
                    vals.append(self.deepval(v))
        if self.live is FALSE:
            return mk("dead")
        nm = name if name is not None else q
        if e["k"] == "ctor":
            nm = "new " + q
        args = tuple(vals)
        lo, hi = self.trange(e.get("t")) if e.get("t") else (None, None)
        res = liftn(lambda *z: atom("app", nm, ta, z, lo=lo, hi=hi), args)
        for i, ad in outs:
            self.store(ad, liftn(lambda *z: mk("out", nm, ta, i, z), args))
        self.event("call", (mk("str", q) if name is None else name,) + args, e, extra=q)
        f = self.fn(e["f"]) if e.get("f") else None
        if f is not None and f.get("noreturn"):
            self.live = FALSE
        if e.get("lv") or e.get("xv"):
            return mk("addr", ("R", res), ())
        return res

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None or self.live is FALSE:
            return
        self.budget -= 1
        if self.budget < 0:
            raise Cap("evaluation budget")
        getattr(self, "s_" + s["k"])(s)

    def s_block(self, s):
        for x in s["s"]:
            if self.live is FALSE:
                return
            self.exec(x)

    def s_null(self, s):
        pass

    def s_unk(self, s):
        raise Unsupported("statement %s at %s" % (s.get("c"), self.loc(s)))

    def drop(self, mark):
        """end of a full expression: its temporaries die"""
        made = self.frame.made
        keep = []
        for r in made[mark:]:
            if r[0] == "tmp":
                self.env.pop(r, None)
            else:
                keep.append(r)
        made[mark:] = keep

    def s_expr(self, s):
        mark = len(self.frame.made)
        self.s_expr1(s)
        self.drop(mark)

    def s_expr1(self, s):
        e = s["e"]
        if e["k"] == "call" and (e.get("lv") or e.get("xv")):
            self.call(e)
        elif e["k"] == "asg":
            self.assign(e)
        elif e["k"] == "cast" and e.get("op") == "ToVoid":
            self.s_expr1({"k": "expr", "e": e["e"], "l": e.get("l")})
        else:
            self.rv(e)

    def s_decl(self, s):
        for v in s["vars"]:
            self.declare(v)

    def declare(self, v):
        if v.get("static"):
            i = v.get("init")
            while isinstance(i, dict) and i.get("k") in ("cast", "paren", "wrap", "ctor") and (i.get("e") or len(i.get("a") or ()) == 1):
                i = i["e"] if i.get("e") else i["a"][0]
            fun = isinstance(i, dict) and i.get("k") == "lambda"
            if v.get("const") and v.get("val") is not None and not fun:
                r = self.newroot()
                self.env[r] = tabval(totuple(v["val"]))
                self.frame.vars[v["id"]] = self.addr(r)
                return
            root = ("static", self.frame.fn["q"], v["n"])
            if v.get("const") and v.get("init") is not None:
                self.env[root] = self.rv(v["init"])
            self.frame.vars[v["id"]] = self.addr(root)
            return
        if v.get("ref") and v.get("init") is not None:
            self.frame.vars[v["id"]] = self.lvl(v["init"])
            return
        r = self.newroot()
        if v.get("init") is not None:
            mark = len(self.frame.made)
            val = self.rv(v["init"])
            if val.op not in ("addr", "br", "lam"):
                self.drop(mark)
        else:
            val = mk("undef", strip(v["t"]))
        self.env[r] = val
        self.frame.vars[v["id"]] = self.addr(r)

    def s_if(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("var"):
            self.declare(s["var"])
        c = self.cond(s["c"])
        if self.live is FALSE:
            return
        c = constrain(c, self.guard())
        self.branch(c, lambda: self.exec(s["t"]), lambda: self.exec(s.get("e")))

    def branch(self, c, ft, fe):
        if c is TRUE:
            ft()
            return
        if c is FALSE:
            fe()
            return
        env0, live0 = self.env, self.live
        self.env, self.live = dict(env0), c_and(live0, c)
        ft()
        env1, live1 = self.env, self.live
        self.env, self.live = dict(env0), c_and(live0, c_not(c))
        fe()
        env2, live2 = self.env, self.live
        if live1 is FALSE:
            return
        if live2 is FALSE:
            self.env, self.live = env1, live1
            return
        self.env = self.merge2(c, env1, env2)
        self.live = c_or(live1, live2)

    def s_return(self, s):
        v = None
        if s.get("e") is not None:
            if self.frame.fn["ret"].rstrip().endswith("&"):
                v = self.lvl(s["e"])
            else:
                v = self.rv(s["e"])
        if self.live is FALSE:
            return
        self.frame.exits.append((self.live, v, self.env))
        self.env = dict(self.env)
        self.live = FALSE

    def s_break(self, s):
        self.frame.loops[-1].breaks.append((self.live, self.env))
        self.env = dict(self.env)
        self.live = FALSE

    def s_continue(self, s):
        for l in reversed(self.frame.loops):
            if isinstance(l, LoopCtx) and not getattr(l, "sw", False):
                l.conts.append((self.live, self.env))
                break
        self.env = dict(self.env)
        self.live = FALSE

    def s_try(self, s):
        self.trys.append([])
        self.exec(s["b"])
        th = self.trys.pop()
        env_n, live_n = self.env, self.live
        outs = [(live_n, env_n)]
        handled = []
        for h in s["h"]:
            ht = strip(h.get("t", "")) if h.get("t") else "..."
            mine = []
            rest = []
            for t in th:
                (mine if self.catches(ht, t[1]) else rest).append(t)
            th = rest
            if not mine:
                continue
            base0 = self.base
            g = FALSE
            for t in mine:
                g = c_or(g, t[0])
            env, _ = self.merge_many([(t[0], t[2]) for t in mine])
            self.env, self.live = dict(env), constrain(g, self.base)
            if h.get("var"):
                self.declare(dict(h["var"], init=None))
            self.exec(h["b"])
            outs.append((self.live, self.env))
        for t in th:
            if self.trys:
                self.trys[-1].append(t)
            else:
                self.events.append(Event(t[0], "throw", (mk("type", t[1]),), t[3]))
        self.env, self.live = self.merge_many(outs)

    def catches(self, ht, tt):
        if ht == "..." or ht == tt:
            return True
        if ht == "std::exception":
            return tt != "assert"
        std = {"std::out_of_range": ["std::logic_error"], "std::runtime_error": [], "std::logic_error": [], "std::invalid_argument": ["std::logic_error"]}
        seen, st = set(), [tt]
        while st:
            x = st.pop()
            if x == ht:
                return True
            if x in seen:
                continue
            seen.add(x)
            st.extend(std.get(x, []))
            r = self.rec(x)
            if r:
                st.extend(strip(b["t"]) for b in r["bases"])
        return False

    def s_switch(self, s):
        v = self.rv(s["c"])
        body = s["b"]
        segs = []

        def flat(x):
            if x["k"] == "block":
                for y in x["s"]:
                    flat(y)
            elif x["k"] == "case":
                segs.append(("case", x["c"]))
                flat(x["s"])
            elif x["k"] == "default":
                segs.append(("default", None))
                flat(x["s"])
            else:
                segs.append(("stmt", x))
        if body["k"] == "block":
            for y in body["s"]:
                if y["k"] in ("case", "default"):
                    def lab(z):
                        while z["k"] in ("case", "default"):
                            segs.append((z["k"], z.get("c")))
                            z = z["s"]
                        segs.append(("stmt", z))
                    lab(y)
                else:
                    segs.append(("stmt", y))
        else:
            flat(body)
        env0, live0 = self.env, self.live
        conds, allc = {}, FALSE
        for i, (k, c) in enumerate(segs):
            if k == "case":
                cc = eq(v, K(c["v"]))
                conds[i] = cc
                allc = c_or(allc, cc)
        ctx = LoopCtx()
        ctx.sw = True
        self.frame.loops.append(ctx)
        env, live = {}, FALSE
        hasdef = False
        for i, (k, c) in enumerate(segs):
            if k in ("case", "default"):
                if k == "default":
                    hasdef = True
                g = c_and(live0, conds[i] if k == "case" else c_not(allc))
                g = c_and(g, live0)
                if constrain(g, self.base) is FALSE:
                    continue
                env, live = self.merge_many([(live, env), (g, env0)])
                env = dict(env)
            else:
                if live is FALSE:
                    continue
                self.env, self.live = env, live
                self.exec(c)
                env, live = self.env, self.live
        self.frame.loops.pop()
        outs = [(live, env)] + ctx.breaks
        if not hasdef:
            outs.append((c_and(live0, c_not(allc)), env0))
        self.env, self.live = self.merge_many(outs)
        self.env = dict(self.env)

    s_case = s_default = lambda self, s: self.exec(s["s"])

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        if s.get("init"):
            self.exec(s["init"])
        self.loop(lambda: self.cond(s["c"]) if s.get("c") else TRUE, s["b"], (lambda: self.rv(s["inc"]) if s["inc"]["k"] != "call" else self.call(s["inc"])) if s.get("inc") else None, s)

    def s_while(self, s):
        self.loop(lambda: self.cond(s["c"]), s["b"], None, s)

    def s_do(self, s):
        first = [True]

        def cond():
            if first[0]:
                first[0] = False
                return TRUE
            return self.cond(s["c"])
        self.loop(cond, s["b"], None, s, do=s)

    def s_rfor(self, s):
        r = s["r"]
        rt = strip(s.get("rt", ""))
        ra = self.lvl(r)
        n = None
        m = re.match(r".*\[(\d+)\]$", rt)
        whole = self.env.get(ra.args[0]) if ra.op == "addr" and not ra.args[1] else None
        if whole is not None and whole.op == "dq":
            return self.rfor_items(s, ra, whole)
        if m:
            n, base = K(int(m.group(1))), ra
        elif rt.startswith("std::array"):
            n, base = K(self.arrlen(rt) or 0), self.ext(ra, ("f", "#d"))
        elif re.match(r"SafeArray<.*, (\d+)>$", rt):
            n, base = K(int(re.match(r"SafeArray<.*, (\d+)>$", rt).group(1))), self.ext(ra, ("f", "storage_"))
        elif CONTAINER.match(rt):
            n, base = self.vsize(ra), self.ext(ra, ("f", "#d"))
        else:
            n, base = liftn(lambda x: atom("size", x, lo=0), [self.load(ra)]), self.ext(ra, ("f", "#d"))
        i = self.newroot("loc")
        self.env[i] = K(0)
        ia = self.addr(i)

        def body():
            ea = self.ext(base, ("i", self.load(ia)))
            v = s["var"]
            if v.get("ref"):
                self.frame.vars[v["id"]] = ea
            else:
                self.frame.vars[v["id"]] = self.temp(self.load(ea, v.get("t")), "loc")
            self.exec(s["b"])
        self.loop(lambda: lt(self.load(ia), n), body, lambda: self.store(ia, add(self.load(ia), K(1))), s)

    def rfor_items(self, s, ra, whole):
        """range-for over a sequence whose items are known one by one"""
        i = self.newroot("loc")
        self.env[i] = K(0)
        ia = self.addr(i)
        cells = []
        for x in whole.args[0]:
            r = self.newroot("item")
            self.env[r] = x
            cells.append(self.addr(r))

        def body():
            j = self.load(ia)
            if j.op != "k":
                raise Unsupported("position in a sequence")
            v = s["var"]
            self.frame.vars[v["id"]] = cells[j.args[0]] if v.get("ref") else self.temp(self.load(cells[j.args[0]], v.get("t")), "loc")
            self.exec(s["b"])
        self.loop(lambda: lt(self.load(ia), K(len(cells))), body, lambda: self.store(ia, add(self.load(ia), K(1))), s)
        if self.live is not FALSE and self.load(ra) is whole:
            now = [self.load(c) for c in cells]
            if now != list(whole.args[0]):
                self.store(ra, mk("dq", tuple(now)))

    def loop(self, cond, body, inc, s, do=None):
        run = body if callable(body) else (lambda: self.exec(body))
        snapshot = (dict(self.env), self.live, len(self.events), self.nroot, len(self.frame.exits))
        cost0 = self.budget
        breaks = []
        n = 0
        while True:
            if self.live is FALSE:
                break
            c = cond()
            if self.live is FALSE:
                break
            c = constrain(c, self.guard())
            if c is FALSE:
                break
            if os.environ.get("VF_LOOPS") and c is not TRUE and n >= self.gate - 1:
                print("loop", self.loc(s), n, cost0 - self.budget, show(c)[:300], "G", show(self.guard())[:300])
            if c is not TRUE and n >= self.gate:
                # data-dependent trip count
                self.restore(snapshot)
                self.symloop(cond, run, inc, s, do)
                return
            if n >= self.unroll or cost0 - self.budget > 400000:
                self.restore(snapshot)
                self.symloop(cond, run, inc, s, do)
                return
            n += 1
            exit_live = FALSE
            if c is not TRUE:
                breaks.append((c_and(self.live, c_not(c)), dict(self.env)))
                self.live = c_and(self.live, c)
            ctx = LoopCtx()
            self.frame.loops.append(ctx)
            run()
            self.frame.loops.pop()
            if ctx.conts:
                self.env, self.live = self.merge_many(ctx.conts + [(self.live, self.env)])
                self.env = dict(self.env)
            breaks += ctx.breaks
            if inc and self.live is not FALSE:
                inc()
        self.env, self.live = self.merge_many(breaks + [(self.live, self.env)])
        self.env = dict(self.env)

    def restore(self, snap):
        env, live, ne, nr, nx = snap
        self.env, self.live = dict(env), live
        del self.events[ne:]
        del self.frame.exits[nx:]

    def diffpaths(self, a, b, path=()):
        if a is b:
            return []
        if a.op == "rec" or b.op == "rec":
            ba = a.args[0] if a.op == "rec" else a
            bb = b.args[0] if b.op == "rec" else b
            if ba is bb:
                fs = set(f for f, _ in (a.args[1] if a.op == "rec" else ())) | set(f for f, _ in (b.args[1] if b.op == "rec" else ()))
                out = []
                for f in sorted(fs, key=str):
                    out += self.diffpaths(field(a, f), field(b, f), path + (("f", f),))
                return out
        return [path]

    def symloop(self, cond, run, inc, s, do):
        """loop with a data-dependent trip count: loop-carried locations become phi
        nodes (closed form when they advance by a constant)"""
        depth = self.loopdepth
        self.loopdepth += 1
        it = atom("it", depth, lo=0)
        env0, live0 = dict(self.env), self.live
        ev0 = self.events
        base0 = self.base
        exits0 = list(self.frame.exits)
        carried = {}   # (root,path) -> ("phi",T) or ("ind", step)
        roots_before = set(env0)
        for round_ in range(12):
            self.env = dict(env0)
            self.live = TRUE
            self.events = []
            self.base = c_and(base0, live0)
            self.frame.exits = list(exits0)
            init, phis = {}, {}
            for i, ((root, path), kind) in enumerate(carried.items()):
                a = mk("addr", root, path)
                iv = self.load(a)
                init[(root, path)] = iv
                if kind[0] == "ind":
                    self.store(a, add(iv, mul(K(kind[1]), it)))
                elif kind[0] == "pind":
                    self.store(a, self.padd(iv, mul(K(kind[1]), it)))
                else:
                    self.store(a, kind[1])
            top = dict(self.env)
            c = TRUE if do else cond()
            c = constrain(c, self.guard())
            cguard = c
            ctx = LoopCtx()
            self.frame.loops.append(ctx)
            env_c = dict(self.env)
            self.live = c_and(self.live, c)
            run()
            self.frame.loops.pop()
            if ctx.conts:
                self.env, self.live = self.merge_many(ctx.conts + [(self.live, self.env)])
                self.env = dict(self.env)
            if inc and self.live is not FALSE:
                inc()
            c2 = TRUE
            if do and self.live is not FALSE:
                c2 = self.cond(do["c"])
            # what changed
            endenvs = [self.env] + [e for _, e in ctx.breaks]
            changed = False
            for root in sorted(roots_before, key=str):
                if root not in top:
                    continue
                for en in endenvs:
                    if root not in en:
                        continue
                    for p in self.diffpaths(top[root], en[root]):
                        if not any(root == r2 and p[:len(p2)] == p2 for r2, p2 in carried):
                            for k2 in [k2 for k2 in carried if k2[0] == root and k2[1][:len(p)] == p]:
                                del carried[k2]
                            self.nphi += 1
                            carried[(root, p)] = ("phi", mk("phi", depth, self.nphi))
                            changed = True
            if self.live is not FALSE:
                for key, kind in list(carried.items()):
                    nx = self.load(mk("addr", key[0], key[1]))
                    if kind[0] == "phi":
                        if nx.op in ("addr",) :
                            d = self.pdelta(nx, kind[1])
                            if d is not None and not ctx.breaks_touch if hasattr(ctx, "breaks_touch") else d is not None:
                                carried[key] = ("pind", d)
                                changed = True
                            continue
                        d = sub(nx, kind[1]) if nx.op in ("poly", "k", "phi") or nx is kind[1] else None
                        if d is not None and d.op == "k" and d.args[0] != 0:
                            carried[key] = ("ind", d.args[0])
                            changed = True
                    elif kind[0] == "ind":
                        want = add(init[key], mul(K(kind[1]), add(it, K(1)))) if key in init else None
                        if want is not None and nx is not want:
                            self.nphi += 1
                            carried[key] = ("phi", mk("phi", depth, self.nphi), "noind")
                            changed = True
            if not changed:
                break
        else:
            raise Cap("loop summary did not stabilise at " + self.loc(s))
        body_events = self.events
        end_live, end_env = self.live, self.env
        ret_exits = self.frame.exits[len(exits0):]
        self.events = ev0
        self.base = base0
        self.loopdepth = depth
        brk = [(g, e) for g, e in ctx.breaks if g is not FALSE]
        nexts = {}
        for key, kind in carried.items():
            if kind[0] == "phi":
                nexts[kind[1]] = self.load_in(end_env, key) if end_live is not FALSE else kind[1]
        inits = {kind[1]: init[key] for key, kind in carried.items() if kind[0] == "phi" and key in init}
        summ = LoopSum(cguard, c2, nexts, inits, [g for g, _ in brk], body_events, depth, [g for g, _, _ in ret_exits])
        # values after the loop
        self.env = dict(env0)
        outs = {}
        for key, kind in carried.items():
            if key[0] not in roots_before:
                continue
            if kind[0] in ("ind", "pind") and not brk:
                trip = summ.trip()
                v = add(init[key], mul(K(kind[1]), trip)) if kind[0] == "ind" else self.padd(init[key], mul(K(kind[1]), trip))
            else:
                nxt = kind[1] if kind[0] == "phi" else add(init[key], mul(K(kind[1]), it)) if kind[0] == "ind" else self.padd(init[key], mul(K(kind[1]), it))
                bv = [self.load_in(e, key) for _, e in brk]
                v = summ.out(nxt, bv)
            outs[key] = v
        for key, v in outs.items():
            self.store(mk("addr", key[0], key[1]), v)
        self.live = live0
        self.frame.exits = exits0
        self.events.append(Event(c_and(base0, live0), "loop", (), self.loc(s), body_events, summ))
        if ret_exits:
            # return from inside the loop
            rc = thr(summ.flag("ret"), 1)
            rv = None
            vs = [(g, v) for g, v, _ in ret_exits]
            if vs[0][1] is not None:
                val = vs[-1][1]
                for g, v in reversed(vs[:-1]):
                    val = ite(g, v, val)
                rv = summ.outval("retval", val)
            self.frame.exits.append((c_and(live0, rc), rv, dict(self.env)))
            self.live = c_and(live0, c_not(rc))

    def load_in(self, env, key):
        sv = self.env
        self.env = env
        try:
            return self.load(mk("addr", key[0], key[1]))
        finally:
            self.env = sv

    def pdelta(self, nx, phi):
        if nx.args[0] == ("D", phi) and len(nx.args[1]) == 1 and nx.args[1][0][0] == "i" and nx.args[1][0][1].op == "k":
            return nx.args[1][0][1].args[0]
        return None


class LoopSum:
    def __init__(self, cond, cond2, nexts, inits, breaks, events, depth, rets):
        self.cond, self.cond2, self.nexts, self.inits, self.breaks, self.events, self.depth, self.rets = cond, cond2, nexts, inits, breaks, events, depth, rets

    def canon(self, roots):
        """rename the phis reachable from roots in discovery order; returns
        (renamed roots, nexts, inits)"""
        order, seen = [], set()
        todo = list(roots) + [self.cond, self.cond2] + list(self.breaks) + list(self.rets)

        def visit(x):
            st = [x]
            vis = set()
            while st:
                y = st.pop()
                if isinstance(y, T):
                    if y in vis:
                        continue
                    vis.add(y)
                    if y.op == "phi" and y in self.nexts and y not in seen:
                        seen.add(y)
                        order.append(y)
                    st.extend(reversed(y.args))
                elif isinstance(y, tuple):
                    st.extend(reversed(y))
        for r in todo:
            visit(r)
        i = 0
        while i < len(order):
            visit(self.nexts[order[i]])
            i += 1
        m = {p: mk("phi", self.depth, -1 - i) for i, p in enumerate(order)}
        memo = {}
        rn = lambda x: rebuild(x, m, memo) if m else x
        return (tuple(rn(r) for r in roots), rn(self.cond), rn(self.cond2), tuple(rn(b) for b in self.breaks), tuple(rn(r) for r in self.rets),
                tuple(rn(self.nexts[p]) for p in order), tuple(self.inits.get(p, p) for p in order))

    def trip(self):
        it = atom("it", self.depth, lo=0)
        c = self.cond
        if self.cond2 is TRUE and not self.breaks:
            # it < N with N loop invariant
            if c.op == "c" and c.args[2] is FALSE and c.args[3] is TRUE:
                t, k = c.args[0], c.args[1]
                cc, d = poly_of(t)
                if d.get((it,)) == 1 and not any(it in m and m != (it,) for m in d):
                    n = p_add(K(k), p_add(t, it, -1), -1)
                    if not any(x is it or x.op == "phi" for x in subterms(n)):
                        if n.lo >= 0:
                            return n
                        return ite(ge(n, K(0)), n, K(0))
        r, co, c2, b, rt, nx, ini = self.canon(())
        return atom("trip", self.depth, co, c2, b, nx, ini, lo=0)

    def out(self, v, bv):
        r, co, c2, b, rt, nx, ini = self.canon((v,) + tuple(bv))
        return mk("mu", self.depth, r, co, c2, b, nx, ini)

    def outval(self, name, v):
        r, co, c2, b, rt, nx, ini = self.canon((v,))
        return mk("muret", self.depth, name, r, co, c2, b, rt, nx, ini)

    def flag(self, name):
        r, co, c2, b, rt, nx, ini = self.canon(())
        return atom("muflag", self.depth, name, co, c2, b, rt, nx, ini, lo=0, hi=1)


# ------------------------------------------------------------------ summaries
class Summary:
    pass


def summarize(ev, f, this_root=("this",), arg_roots=None, pre=None):
    """summary of function f over symbolic inputs"""
    fr = Frame(f, ev.addr(this_root) if f["kind"] != "fn" and not f.get("st") else None)
    ev.frame = fr
    ev.stack.append(f["f"])
    args = []
    for i, p in enumerate(f["ps"]):
        t = p["t"]
        if p.get("ref"):
            a = ev.addr(arg_roots[i] if arg_roots and arg_roots[i] else ("arg", i))
            if strip(t) in W and a.args[0] not in ev.env:
                lo, hi = ev.trange(t)
                ev.env[a.args[0]] = atom("root", a.args[0], lo=lo, hi=hi)
        else:
            r = ("argv", i)
            lo, hi = ev.trange(t)
            if r not in ev.env:
                ev.env[r] = atom("in", i, lo=lo, hi=hi)
            a = ev.addr(r)
        fr.vars[p["id"]] = a
        args.append(a)
    if f["kind"] == "ctor" and this_root not in ev.env:
        ev.env[this_root] = mk("obj", f.get("cls"))
    if pre:
        pre(ev, fr, args)
    ev.run_body(f, {})
    val, env, joint = ev.finish(fr)
    s = Summary()
    s.ret, s.env, s.live, s.events, s.ev, s.fn = val, env, joint, ev.events, ev, f
    ev.env = env
    s.args = args
    if val is not None and f["ret"].rstrip().endswith("&"):
        s.retv = ev.load(val)
    else:
        s.retv = val
    return s
