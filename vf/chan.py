"""Composition of a writer with a reader over an ordered channel of guarded
symbols, and typed symbolic inputs."""
import re
from terms import *
from evalx import *
from evalx import splitargs
from interp import distinguish, dense


def fns_named(prog, q, pred=None):
    return [f for f in prog.fns.values() if f["q"] == q and f.get("body") is not None and (pred is None or pred(f))]


def sym(ev, t, name, over=None, depth=0):
    """typed symbolic value of type t; ranges follow the type"""
    t = strip(t)
    if over:
        for pat, fn in over:
            if re.fullmatch(pat, name) or re.fullmatch(pat, t):
                r = fn(ev, t, name)
                if r is not None:
                    return r
    if t in W:
        lo, hi = W[t]
        return atom("in", name, lo=lo, hi=hi)
    if ev.isenum(t):
        lo, hi = ev.trange(t)
        return atom("in", name, lo=lo, hi=hi)
    m = re.match(r"(Unsigned|Signed)<(\d+)>$", t)
    if m:
        w = int(m.group(2))
        lo, hi = (0, (1 << w) - 1) if m.group(1) == "Unsigned" else (-(1 << w) + 1, (1 << w) - 1)
        return mk_rec(mk("obj", t), {"i_": atom("in", name, lo=lo, hi=hi)})
    m = re.match(r"(?:std::array|SafeArray)<(.*)>$", t)
    if m:
        et, n = splitargs(m.group(1))
        n = int(re.match(r"\d+", n).group(0))
        arr = mk_arr(mk("obj", "arr"), {i: sym(ev, et, "%s[%d]" % (name, i), over, depth + 1) for i in range(n)}, ())
        r = ev.rec(t)
        f = r["fields"][0]["n"] if r and r["fields"] else "#d"
        if t.startswith("std::array"):
            return mk_rec(mk("obj", t), {"#d": arr})
        if r and "std::array" in r["fields"][0]["t"]:
            return mk_rec(mk("obj", t), {f: mk_rec(mk("obj", "sa"), {"#d": arr})})
        return mk_rec(mk("obj", t), {f: arr})
    m = re.match(r"(.*)\[(\d+)\]$", t)
    if m:
        return mk_arr(mk("obj", "arr"), {i: sym(ev, m.group(1), "%s[%d]" % (name, i), over, depth + 1) for i in range(int(m.group(2)))}, ())
    m = re.match(r"(?:Array|Enumerate)<(.*)>$", t)
    if m:
        et, n = splitargs(m.group(1))
        n = int(re.match(r"\d+", n).group(0))
        arr = mk_arr(mk("obj", "arr"), {i: sym(ev, et, "%s[%d]" % (name, i), over, depth + 1) for i in range(n)}, ())
        return mk_rec(mk("obj", t), {"storage_": mk_rec(mk("obj", "vec"), {"#n": K(n), "#d": arr})})
    r = ev.rec(t)
    if r is None or t.startswith("std::") or t.endswith(("*", "&")) or depth > 12:
        return mk("in", name)
    d = {}
    for b in r["bases"]:
        v = sym(ev, b["t"], name, over, depth + 1)
        if v.op == "rec":
            d.update(dict(v.args[1]))
    for f in r["fields"]:
        if f["n"] == "missing_":
            continue
        if f["n"] == "":
            v = sym(ev, f["t"], name, over, depth + 1)
            if v.op == "rec":
                d.update(dict(v.args[1]))
            continue
        if f["t"].rstrip().endswith("&"):
            d[f["n"]] = mk("in", name + ".&" + f["n"])
            continue
        d[f["n"]] = sym(ev, f["t"], name + "." + f["n"], over, depth + 1)
    return mk_rec(mk("obj", t), d)


class Mismatch:
    def __init__(self, what, loc=None, extra=""):
        self.what, self.loc, self.extra = what, loc, extra

    def __repr__(self):
        return "%s%s%s" % (self.what, " at " + self.loc if self.loc else "", " [" + self.extra + "]" if self.extra else "")


class Sym:
    __slots__ = ("g", "bit", "prob", "loc", "left")

    def __init__(self, g, bit, prob, loc):
        self.g, self.bit, self.prob, self.loc, self.left = g, bit, prob, loc, g


class Misaligned(Exception):
    pass


class Tape:
    def __init__(self):
        self.items = []
        self.first = 0
        self.problems = []
        self.reads = 0

    def hooks(self):
        return {"BoolEncoder::put": self.put_hook, "BoolDecoder::get": self.get_hook}

    # -- writer side
    def put_hook(self, ev, e):
        a = e.get("a", [])
        bit = ev.cond(a[0])
        prob = ev.rv(a[1]) if len(a) > 1 else K(128)
        g = ev.guard()
        if g is not FALSE:
            self.items.append(Sym(g, bit, prob, ev.loc(e)))
        return mk("void")

    # -- reader side
    def get_hook(self, ev, e):
        a = e.get("a", [])
        prob = ev.rv(a[0]) if a else K(128)
        g = ev.guard()
        if g is FALSE:
            return K(0)
        return self.read(ev, g, prob, ev.loc(e))

    def read(self, ev, g, prob, loc):
        self.reads += 1
        rest = g
        parts = []
        n = len(self.items)
        while self.first < n and self.items[self.first].left is FALSE:
            self.first += 1
        i = self.first
        while rest is not FALSE and i < n:
            it = self.items[i]
            if it.left is not FALSE:
                take = c_and(rest, it.left)
                if take is not FALSE:
                    p1 = constrain(prob, take)
                    p2 = constrain(it.prob, take)
                    if p1 is not p2:
                        d = distinguish(prob, it.prob, take, samples=120)
                        if d:
                            self.problems.append(Mismatch("symbol written at %s with probability %s is read with probability %s" % (it.loc, show(p2)[:160], show(p1)[:160]), loc, "for example %s / %s" % (d["b"], d["a"])))
                            raise Misaligned()
                    parts.append((take, it.bit))
                    it.left = c_and(it.left, c_not(take))
                    rest = c_and(rest, c_not(take))
            i += 1
        if rest is not FALSE and feasible(rest):
            self.problems.append(Mismatch("reads a symbol that was not written when %s" % show(rest)[:300], loc))
            raise Misaligned()
        c = FALSE
        for t, b in parts:
            c = c_or(c, c_and(t, b))
        return b2v(constrain(c, g))

    def finish(self, live=TRUE):
        for it in self.items:
            if it.left is not FALSE and c_and(it.left, live) is not FALSE and feasible(c_and(it.left, live)):
                self.problems.append(Mismatch("symbol written when %s is not consumed by the reader" % show(it.left)[:300], it.loc))
                break


class Kind(Exception):
    pass


class FreeTape:
    """The parser runs first over a free symbol stream; the writer must then emit the
    same stream.  Symbols are single bits, tree-coded values and motion vectors."""

    def __init__(self, prog, fix=None):
        self.prog = prog
        self.fix = fix or {}
        self.items = []
        self.first = 0
        self.problems = []
        self.reads = self.writes = 0
        self.reading = True

    def attach(self, ev):
        ev.hooks["BoolEncoder::put"] = self.put
        ev.hooks["BoolDecoder::get"] = self.get
        ev.ihook = self.ihook

    def leaves(self, cls):
        nm = splitargs(cls[5:-1])[-1].strip()
        for v in self.prog.vars.values():
            if v["q"] == nm and "val" in v:
                ls = [-x for x in v["val"][0] if x <= 0]
                return min(ls), max(ls)
        return None

    def rewind(self):
        self.first = 0
        self.reading = False
        for it in self.items:
            it.left = it.g

    def match(self, ev, g, kind, probs, loc, dflt):
        """a second reader takes the symbols the first one took"""
        self.writes += 1
        if g is FALSE:
            return list(dflt)
        rest, res = g, None
        n = len(self.items)
        while self.first < n and self.items[self.first].left is FALSE:
            self.first += 1
        i = self.first
        while rest is not FALSE and i < n:
            it = self.items[i]
            take = c_and(rest, it.left) if it.left is not FALSE else FALSE
            if take is not FALSE:
                if it.kind != kind:
                    if not feasible(take):
                        i += 1
                        continue
                    if "bit" in (it.kind, kind):
                        raise Kind("symbol kinds %s / %s at %s" % (it.kind, kind, it.loc))
                    self.problems.append(Mismatch("reads %s where the format has %s" % (it.kind, kind), it.loc))
                    raise Misaligned()
                for k, (x, y) in enumerate(zip(probs, it.probs)):
                    if constrain(x, take) is constrain(y, take):
                        continue
                    d = distinguish(x, y, take, samples=150)
                    if d:
                        self.problems.append(Mismatch("reads a symbol with probability[%d] %s where the format says %s" % (k, show(constrain(y, take))[:140], show(constrain(x, take))[:140]), it.loc, "for example %s / %s" % (d["b"], d["a"])))
                        raise Misaligned()
                res = list(it.vals) if res is None else [ite(take, v, r) for v, r in zip(it.vals, res)]
                it.left = c_and(it.left, c_not(take))
                rest = c_and(rest, c_not(take))
            i += 1
        if rest is not FALSE and feasible(rest):
            self.problems.append(Mismatch("does not read a symbol that the format has when %s" % show(rest)[:300], loc))
            raise Misaligned()
        return [constrain(v, g) for v in res]

    def get(self, ev, e):
        a = e.get("a", [])
        prob = ev.rv(a[0]) if a else K(128)
        g = ev.guard()
        if g is FALSE:
            return K(0)
        if not self.reading:
            return self.match(ev, g, "bit", [prob], ev.loc(e), [K(0)])[0]
        v = atom("in", "s%d" % len(self.items), lo=0, hi=1)
        self.items.append(FItem(g, "bit", [v], [prob], ev.loc(e)))
        self.reads += 1
        return v

    def put(self, ev, e):
        a = e.get("a", [])
        bit = b2v(ev.cond(a[0]))
        prob = ev.rv(a[1]) if len(a) > 1 else K(128)
        g = ev.guard()
        if g is not FALSE:
            self.emit(ev, g, "bit", [bit], [prob], ev.loc(e))
        return mk("void")

    def probs(self, ev, b, n):
        v = ev.load(b) if not isinstance(b, tuple) else b[1]
        if v.op == "br":
            return [lift1("pe%d" % i, lambda x, i=i: self.pe(x, i), v) for i in range(n)]
        return [self.pe(v, i) for i in range(n)]

    def pe(self, v, i):
        return elem(field(v, "storage_") if True else v, K(i), 0, 255)

    def ihook(self, ev, f, this, binds, e):
        ps = f["ps"]
        if not ps:
            return NotImplemented
        t0 = ps[0]["t"]
        if "BoolDecoder" in t0 and f["kind"] == "ctor" and len(ps) == 2:
            cls = f.get("cls") or ""
            g = ev.guard()
            if cls.startswith("Tree<"):
                lv = self.leaves(cls)
                if lv is None:
                    return NotImplemented
                if not self.reading:
                    v = self.match(ev, g, cls, self.parr(ev, ps[1]["t"], binds[1]), ev.loc(e), [K(lv[0])])[0]
                    ev.store(ev.ext(this, ("f", "value_")), v)
                    return mk("void")
                v = atom("in", "s%d" % len(self.items), lo=lv[0], hi=lv[1])
                fx = [c for k, c in self.fix.items() if k == splitargs(cls[5:-1])[-1].strip()]
                if fx:
                    v = K(fx[0])
                self.items.append(FItem(g, cls, [v], self.parr(ev, ps[1]["t"], binds[1]), ev.loc(e)))
                ev.store(ev.ext(this, ("f", "value_")), v)
                self.reads += 1
                return mk("void")
            if cls == "MotionVector":
                n = len(self.items)
                if not self.reading:
                    y, x = self.match(ev, g, cls, self.parr2(ev, ps[1]["t"], binds[1]), ev.loc(e), [K(0), K(0)])
                    ev.store(ev.ext(this, ("f", "x_")), x)
                    ev.store(ev.ext(this, ("f", "y_")), y)
                    return mk("void")
                x = atom("in", "s%dx" % n, lo=-2047 * 2, hi=2047 * 2)
                y = atom("in", "s%dy" % n, lo=-2047 * 2, hi=2047 * 2)
                self.items.append(FItem(g, cls, [y, x], self.parr2(ev, ps[1]["t"], binds[1]), ev.loc(e)))
                ev.store(ev.ext(this, ("f", "x_")), x)
                ev.store(ev.ext(this, ("f", "y_")), y)
                self.reads += 1
                return mk("void")
        if "BoolEncoder" in t0 and f["kind"] == "fn" and len(ps) == 3:
            t1 = strip(ps[1]["t"])
            g = ev.guard()
            if t1.startswith("Tree<"):
                v = ev.load(binds[1]) if not isinstance(binds[1], tuple) else binds[1][1]
                self.emit(ev, g, t1, [field(v, "value_", None, -128, 127)], self.parr(ev, ps[2]["t"], binds[2]), ev.loc(e))
                return mk("void")
            if t1 == "MotionVector":
                v = ev.load(binds[1]) if not isinstance(binds[1], tuple) else binds[1][1]
                self.emit(ev, g, t1, [field(v, "y_", None, -32768, 32767), field(v, "x_", None, -32768, 32767)], self.parr2(ev, ps[2]["t"], binds[2]), ev.loc(e))
                return mk("void")
        return NotImplemented

    def arrfield(self, ev, t):
        r = ev.rec(strip(t))
        f = r["fields"][0]
        return f["n"], "std::array" in f["t"]

    def parr(self, ev, t, b):
        m = re.match(r"SafeArray<(.*)>$", strip(t))
        n = int(splitargs(m.group(1))[1])
        f, std = self.arrfield(ev, t)
        a = ev.ext(b, ("f", f)) if not isinstance(b, tuple) else None
        out = []
        for i in range(n):
            if a is not None:
                x = ev.ext(a, ("f", "#d")) if std else a
                out.append(ev.load(ev.ext(x, ("i", K(i))), "unsigned char"))
            else:
                v = field(b[1], f)
                out.append(elem(field(v, "#d") if std else v, K(i), 0, 255))
        return out

    def parr2(self, ev, t, b):
        m = re.match(r"SafeArray<(.*)>$", strip(t))
        et, n = splitargs(m.group(1))
        f, std = self.arrfield(ev, t)
        out = []
        for i in range(int(n)):
            a = ev.ext(b, ("f", f))
            a = ev.ext(a, ("f", "#d")) if std else a
            out += self.parr(ev, et, ev.ext(a, ("i", K(i))))
        return out

    def emit(self, ev, g, kind, vals, probs, loc):
        self.writes += 1
        if g is FALSE:
            return
        rest = g
        n = len(self.items)
        while self.first < n and self.items[self.first].left is FALSE:
            self.first += 1
        i = self.first
        while rest is not FALSE and i < n:
            it = self.items[i]
            if it.left is not FALSE:
                take = c_and(rest, it.left)
                if take is not FALSE:
                    if it.kind != kind:
                        if "bit" in (it.kind, kind):
                            d = None
                            if not feasible(take):
                                i += 1
                                continue
                            raise Kind("symbol kinds %s / %s at %s" % (it.kind, kind, loc))
                        if feasible(take):
                            self.problems.append(Mismatch("emits %s where %s is parsed (%s)" % (kind, it.kind, it.loc), loc))
                            raise Misaligned()
                        i += 1
                        continue
                    for what, xs, ys in (("value", vals, it.vals), ("probability", probs, it.probs)):
                        for k, (x, y) in enumerate(zip(xs, ys)):
                            if constrain(x, take) is constrain(y, take):
                                continue
                            d = distinguish(x, y, take, samples=150)
                            if d:
                                self.problems.append(Mismatch("the symbol parsed at %s is written back with a different %s%s: parsed %s, written %s" % (it.loc, what, "[%d]" % k if len(xs) > 1 else "", show(constrain(y, take))[:120], show(constrain(x, take))[:160]), loc, "for example %s / %s" % (d["b"], d["a"])))
                                raise Misaligned()
                    it.left = c_and(it.left, c_not(take))
                    rest = c_and(rest, c_not(take))
            i += 1
        if rest is not FALSE and feasible(rest):
            self.problems.append(Mismatch("writes a symbol that the parser does not expect when %s" % show(rest)[:300], loc))
            raise Misaligned()

    def finish(self, live):
        for it in self.items:
            if it.left is not FALSE:
                r = c_and(it.left, live)
                if r is not FALSE and feasible(r):
                    self.problems.append(Mismatch("the symbol parsed when %s is not written back" % show(it.left)[:300], it.loc))
                    break


    def finish2(self, live):
        for it in self.items:
            if it.left is not FALSE:
                r = c_and(it.left, live)
                if r is not FALSE and feasible(r):
                    self.problems.append(Mismatch("reads a symbol that the format does not have when %s" % show(it.left)[:300], it.loc))
                    break


class FItem:
    __slots__ = ("g", "kind", "vals", "probs", "loc", "left")

    def __init__(self, g, kind, vals, probs, loc):
        self.g, self.kind, self.vals, self.probs, self.loc, self.left = g, kind, vals, probs, loc, g


def feasible(c):
    """a valuation satisfying the condition exists"""
    if c is TRUE:
        return True
    return distinguish(b2v(c), K(0), TRUE, samples=300) is not None


def compare(ev, a, b, t, path, pre, out, depth=0, over=None, skip=()):
    """field-wise comparison of two values of type t under pre; appends (path, a, b)"""
    t = strip(t)
    if a is b or pre is FALSE:
        return 1
    if path in skip:
        return 0
    n = 0
    r = ev.rec(t)
    m = re.match(r"(?:Array|Enumerate)<(.*)>$", t)
    if m:
        et, cnt = splitargs(m.group(1))
        va, vb = field(a, "storage_"), field(b, "storage_")
        n += leafcmp(field(va, "#n"), field(vb, "#n"), path + ".size", pre, out)
        for i in range(int(re.match(r"\d+", cnt).group(0))):
            n += compare(ev, elem(field(va, "#d"), K(i)), elem(field(vb, "#d"), K(i)), et, "%s[%d]" % (path, i), pre, out, depth + 1, over, skip)
        return n
    m = re.match(r"SafeArray<(.*)>$", t)
    if m and r and r["fields"]:
        et, cnt = splitargs(m.group(1))
        f = r["fields"][0]
        va, vb = field(a, f["n"]), field(b, f["n"])
        if "std::array" in f["t"]:
            va, vb = field(va, "#d"), field(vb, "#d")
        for i in range(int(re.match(r"\d+", cnt).group(0))):
            n += compare(ev, elem(va, K(i)), elem(vb, K(i)), et, "%s[%d]" % (path, i), pre, out, depth + 1, over, skip)
        return n
    m = re.match(r"(?:Optional|Flagged)<(.*)>$", t)
    if m:
        ia, ib = field(a, "initialized_", None, 0, 1), field(b, "initialized_", None, 0, 1)
        n += leafcmp(ia, ib, path + " (present)", pre, out)
        p2 = c_and(pre, c_and(tobool(ia), tobool(ib)))
        n += compare(ev, field(a, "object_"), field(b, "object_"), m.group(1), path, p2, out, depth + 1, over, skip)
        return n
    if r is None or t.startswith("std::") or depth > 12:
        return leafcmp(a, b, path, pre, out)
    for bs in r["bases"]:
        n += compare(ev, a, b, bs["t"], path, pre, out, depth + 1, over, skip)
    for f in r["fields"]:
        if f["n"] == "missing_":
            continue
        if f["n"] == "":
            n += compare(ev, a, b, f["t"], path, pre, out, depth + 1, over, skip)
            continue
        lo, hi = ev.trange(f["t"])
        n += compare(ev, field(a, f["n"], None, lo, hi), field(b, f["n"], None, lo, hi), f["t"], path + ("." if path else "") + f["n"], pre, out, depth + 1, over, skip)
    return n


def leafcmp(a, b, path, pre, out, samples=200):
    if a is b:
        return 1
    x, y = constrain(a, pre), constrain(b, pre)
    if x is y:
        return 1
    d = distinguish(a, b, pre, samples=samples)
    if d is None:
        d = dense(x, y, pre)
    if d is not None:
        if opaque_ops(x) != opaque_ops(y):
            # differs only up to calls the analysis has no model of
            UNMODELLED.append(path)
            return 1
        out.append((path, x, y, d))
    return 1


UNMODELLED = []
OPAQUE = {"app", "out", "raw", "memcpy", "memset", "memset1", "bytesof", "dead", "lam", "lamv", "fnptr", "ind", "new", "slice", "valinit"}


def opaque_ops(t):
    """heads of the uninterpreted operations a value depends on"""
    seen, out, st = set(), set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in OPAQUE:
                out.add((x.op, x.args[0]) if x.op == "app" and isinstance(x.args[0], str) else x.op)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


class CallTape(FreeTape):
    """ordered sequence of guarded calls of selected functions.  watch(ev,f,this,binds,e)
    returns None or (kind, argument terms, [(lo,hi) of each result], effect(results))"""

    def __init__(self, prog, watch):
        FreeTape.__init__(self, prog)
        self.watch = watch

    def attach(self, ev):
        ev.ihook = self.ihook

    def ihook(self, ev, f, this, binds, e):
        r = self.watch(ev, f, this, binds, e)
        if r is None:
            return NotImplemented
        kind, args, rs, effect = r
        g = ev.guard()
        if self.reading:
            vals = [atom("in", "r%d_%d" % (len(self.items), i), lo=a, hi=b) for i, (a, b) in enumerate(rs)]
            self.items.append(FItem(g, kind, vals, args, ev.loc(e)))
            self.reads += 1
        else:
            vals = self.match(ev, g, kind, args, ev.loc(e), [K(a) for a, b in rs])
        v = effect(vals)
        return mk("void") if v is None else v


def argval(ev, b):
    return ev.load(b) if not isinstance(b, tuple) else b[1]
