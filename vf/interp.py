"""Random interpretation of value graphs (Gulwani & Necula, "Global value
numbering using random interpretation"): when two graphs have different normal
forms, look for a valuation of their atoms that tells them apart.  Only a
distinguishing valuation makes the difference a violation; two graphs that no
sampled valuation separates are taken as the same value.  The atoms are the
graph's inputs (memory cells, uninterpreted calls); the program is not run."""
import hashlib, random
from terms import *
from terms import T


class Unk(Exception):
    pass


class AV:
    __slots__ = ("base", "d", "fill")

    def __init__(self, base, d, fill=None):
        self.base, self.d, self.fill = base, d, fill


class RV:
    __slots__ = ("base", "d")

    def __init__(self, base, d):
        self.base, self.d = base, d


def h(*x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


def num(b):
    return int.from_bytes(b, "big")


class Val:
    """one valuation"""

    def __init__(self, seed, over=None, mode=0):
        self.seed, self.over, self.mode = seed, over or {}, mode
        self.memo = {}
        self.phi = {}
        self.its = {}
        self.used = {}
        self.steps = 0

    def digest(self, v):
        if isinstance(v, bool):
            return ("i", int(v))
        if isinstance(v, int):
            return ("i", v)
        if isinstance(v, AV):
            items = []
            for k in sorted(v.d, key=repr):
                x = self.digest(v.d[k])
                if v.fill is None and x == self.digest(self.adef(v, k)):
                    continue
                items.append((k, x))
            if not items:
                return v.base
            return ("a", v.base, tuple(items))
        if isinstance(v, RV):
            items = []
            for k in sorted(v.d, key=repr):
                x = self.digest(v.d[k])
                items.append((k, x))
            return ("r", v.base, tuple(items)) if items else v.base
        return v

    def adef(self, a, i):
        if a.fill is not None:
            return a.fill
        return self.atom(("elem", a.base, i), None, None)

    def atom(self, key, lo, hi):
        if key in self.over:
            return self.over[key]
        r = num(h(self.seed, key))
        m = self.mode
        if lo is None or lo == -INF:
            lo = None
        if hi is None or hi == INF:
            hi = None
        if lo is None and hi is None:
            c = r % 10
            r //= 16
            if c < 4:
                v = r % 7 - 2
            elif c < 8:
                v = r % 400 - 100
            else:
                v = r % 70000 - 35000
        else:
            if lo is None:
                lo = hi - 100000
            if hi is None:
                hi = lo + (1 << 16)
            w = hi - lo + 1
            c = r % 12
            r //= 16
            if w <= 16:
                v = lo + r % w
            elif c < 2:
                v = lo + r % 4
            elif c < 4:
                v = hi - r % 4
            elif c < 7:
                z = 0 if lo <= 0 <= hi else lo
                v = max(lo, min(hi, z + r % 41 - 20))
            else:
                v = lo + r % w
        self.used[key] = (v, lo, hi)
        return v

    def ev(self, t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.digest(self.ev(x)) for x in t)
            return t
        r = self.memo.get(t)
        if r is None:
            self.steps += 1
            if self.steps > 400000:
                raise Unk("steps")
            r = self._ev(t)
            self.memo[t] = r
        return r

    def evi(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        return num(h(self.digest(v))) % 100003

    def elem(self, a, i, lo=None, hi=None):
        if isinstance(a, AV):
            if i in a.d:
                return a.d[i]
            if a.fill is not None:
                return a.fill
            b = a.base
        else:
            b = self.digest(a)
        if isinstance(b, tuple) and len(b) == 3 and b[0] == "rootoff" and isinstance(i, int):
            b, i = ("root", b[1]), i + b[2]
        if isinstance(b, tuple) and len(b) == 2 and b[0] == "tab":
            if isinstance(i, int) and 0 <= i < len(b[1]):
                x = b[1][i]
                return ("tab", x) if isinstance(x, tuple) else (x if x is not None else ("?",))
        if isinstance(b, tuple) and len(b) == 2 and b[0] == "str" and isinstance(i, int) and 0 <= i < len(b[1]):
            return ord(b[1][i])
        return self.atom(("elem", b, i), lo, hi)

    def _ev(self, t):
        o, a = t.op, t.args
        if o == "k":
            return a[0]
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "poly":
            s = a[0]
            for m, k in a[1]:
                p = k
                for x in m:
                    p *= self.evi(x)
                s += p
            return s
        if o == "mul":
            return self.evi(a[0]) * self.evi(a[1])
        if o == "bits":
            v = self.evi(a[0]) >> a[1]
            return v if a[2] == INF else v & ((1 << a[2]) - 1)
        if o in ("c", "br"):
            return self.ev(a[2] if self.evi(a[0]) >= a[1] else a[3])
        if o == "div":
            x, y = self.evi(a[0]), self.evi(a[1])
            if not y:
                return ("divzero",)
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        if o == "mod":
            x, y = self.evi(a[0]), self.evi(a[1])
            if not y:
                return ("divzero",)
            m = abs(x) % abs(y)
            return -m if x < 0 else m
        if o == "shr":
            n = self.evi(a[1])
            return self.evi(a[0]) >> n if 0 <= n < 200 else ("badshift",)
        if o == "shl":
            n = self.evi(a[1])
            return self.evi(a[0]) << n if 0 <= n < 200 else ("badshift",)
        if o == "and":
            return self.evi(a[0]) & self.evi(a[1])
        if o == "or":
            return self.evi(a[0]) | self.evi(a[1])
        if o == "xor":
            return self.evi(a[0]) ^ self.evi(a[1])
        if o == "sx":
            v = self.evi(a[0])
            w = a[1] * 8
            v &= (1 << w) - 1
            return v - (1 << w) if v >> (w - 1) else v
        if o == "eq":
            return int(self.digest(self.ev(a[0])) == self.digest(self.ev(a[1])))
        if o == "tab":
            return ("tab", a[0])
        if o == "str":
            return ("str", a[0])
        if o == "rec":
            b = self.ev(a[0])
            d = dict(b.d) if isinstance(b, RV) else {}
            base = b.base if isinstance(b, RV) else self.digest(b)
            for f, x in a[1]:
                d[f] = self.ev(x)
            return RV(base, d)
        if o == "arr":
            b = self.ev(a[0])
            if isinstance(b, AV):
                r = AV(b.base, dict(b.d), b.fill)
            else:
                r = AV(self.digest(b), {})
            for i, x in a[2]:
                r.d[self.evi(i)] = self.ev(x)
            for i, x in a[1]:
                r.d[i] = self.ev(x)
            return r
        if o == "fill":
            return AV(("fill", self.digest(self.ev(a[0]))), {}, self.ev(a[0]))
        if o == "memset":
            b = self.ev(a[0])
            r = AV(b.base, dict(b.d), b.fill) if isinstance(b, AV) else AV(self.digest(b), {})
            off, n = self.evi(a[1]), self.evi(a[3])
            if not 0 <= n <= 4096:
                raise Unk("memset")
            v = self.ev(a[2])
            for i in range(n):
                r.d[off + i] = v
            return r
        if o == "memcpy":
            b, s = self.ev(a[0]), self.ev(a[2])
            r = AV(b.base, dict(b.d), b.fill) if isinstance(b, AV) else AV(self.digest(b), {})
            off, so, n = self.evi(a[1]), self.evi(a[3]), self.evi(a[4])
            if not 0 <= n <= 4096:
                return ("o", h("memcpy", self.digest(b), off, self.digest(s), so, n))
            for i in range(n):
                r.d[off + i] = self.elem(s, so + i)
            return r
        if o == "fld":
            b = self.ev(a[0])
            if isinstance(b, RV):
                if a[1] in b.d:
                    return b.d[a[1]]
                b = b.base
            else:
                b = self.digest(b)
            return self.atom(("fld", b, a[1]), t.lo, t.hi)
        if o == "elem":
            return self.elem(self.ev(a[0]), self.evi(a[1]), t.lo, t.hi)
        if o == "phi":
            if t in self.phi:
                return self.phi[t]
            return ("phi", a)
        if o == "it":
            if a[0] in self.its:
                return self.its[a[0]]
            return self.atom(("it", a[0]), 0, 40)
        if o in ("mu", "muret", "muflag", "trip"):
            return self.loop(t)
        if o == "in":
            return self.atom(("in",) + a, t.lo, t.hi)
        if o == "root":
            if t.lo > -INF or t.hi < INF:
                return self.atom(("root", a[0]), t.lo, t.hi)
            if isinstance(a[0], tuple) and len(a[0]) == 2 and a[0][0] == "D" and isinstance(a[0][1], T):
                p = self.ev(a[0][1])
                if isinstance(p, tuple) and len(p) == 3 and p[0] == "addr" and len(p[2]) == 1 and p[2][0][0] == "i":
                    return ("rootoff", p[1], p[2][0][1]) if p[2][0][1] else ("root", p[1])
            return ("root", a[0])
        if o == "addr":
            if isinstance(a[0], tuple) and len(a[0]) == 2 and a[0][0] == "D" and isinstance(a[0][1], T) and a[1] and a[1][0][0] == "i":
                p = self.ev(a[0][1])
                if isinstance(p, tuple) and len(p) == 3 and p[0] == "addr" and p[2] and p[2][-1][0] == "i":
                    pp = tuple((s[0], self.evi(s[1]) if s[0] == "i" else s[1]) for s in a[1])
                    return ("addr", p[1], p[2][:-1] + (("i", p[2][-1][1] + pp[0][1]),) + pp[1:])
            return ("addr", self.dk(a[0]), tuple((s[0], self.evi(s[1]) if s[0] == "i" else s[1]) for s in a[1]))
        key = (o,) + tuple(self.dk(x) for x in a)
        if t.lo > -INF or t.hi < INF or o in ("app", "f2i", "truth", "size", "raw", "out", "pdiff"):
            return self.atom(("h", h(key)), t.lo, t.hi)
        return ("o", h(key))

    def dk(self, x):
        if isinstance(x, T):
            return self.digest(self.ev(x))
        if isinstance(x, tuple):
            return tuple(self.dk(y) for y in x)
        return x

    def loop(self, t):
        o, a = t.op, t.args
        if o == "mu":
            depth, r, co, c2, brk, nx, ini = a
            rets = ()
        elif o == "muret":
            depth, name, r, co, c2, brk, rets, nx, ini = a
        elif o == "muflag":
            depth, name, co, c2, brk, rets, nx, ini = a
            r = ()
        else:
            depth, co, c2, brk, nx, ini = a
            r, rets = (), ()
        phis = [mk("phi", depth, -1 - i) for i in range(len(nx))]
        cur = [self.ev(x) for x in ini]
        sv_phi, sv_it, sv_memo = dict(self.phi), dict(self.its), self.memo
        n = 0
        try:
            while True:
                self.memo = dict(sv_memo)
                # drop memo entries that may depend on this loop's state
                self.memo = {}
                for p, v in zip(phis, cur):
                    self.phi[p] = v
                self.its[depth] = n
                if not self.ev(co):
                    res = ("exit", None)
                    break
                hit = None
                for i, b in enumerate(rets):
                    if self.ev(b):
                        hit = ("ret", i)
                        break
                if hit is None:
                    for i, b in enumerate(brk):
                        if self.ev(b):
                            hit = ("brk", i)
                            break
                if hit:
                    res = hit
                    break
                nxt = [self.ev(x) for x in nx]
                last = not self.ev(c2)
                cur = nxt
                n += 1
                if last:
                    self.memo = {}
                    for p, v in zip(phis, cur):
                        self.phi[p] = v
                    self.its[depth] = n
                    res = ("exit", None)
                    break
                if n > 80:
                    raise Unk("loop bound")
            if o == "trip":
                return n
            if o == "muflag":
                return int(res[0] == "ret")
            if o == "muret":
                return self.ev(r[0])
            if res[0] == "exit":
                return self.ev(r[0])
            if res[0] == "brk":
                return self.ev(r[1 + res[1]])
            return self.ev(r[0])
        finally:
            self.phi, self.its, self.memo = sv_phi, sv_it, sv_memo


def thresholds(ts, cap=4000):
    out = []
    for x in list(subterms(tuple(ts)))[:20000]:
        if x.op in ("c", "br"):
            out.append((x.args[0], x.args[1]))
            if len(out) > cap:
                break
    return out


LEAFOPS = ("fld", "elem", "in", "root", "app", "h")


def keyof(val, t):
    """atom key of t under valuation val (so that it can be overridden)"""
    o, a = t.op, t.args
    try:
        if o == "in":
            return ("in",) + a
        if o == "root":
            return ("root", a[0])
        if o == "fld":
            b = val.ev(a[0])
            if isinstance(b, RV):
                if a[1] in b.d:
                    return None
                b = b.base
            else:
                b = val.digest(b)
            return ("fld", b, a[1])
        if o == "elem":
            b = val.ev(a[0])
            i = val.evi(a[1])
            if isinstance(b, AV):
                if i in b.d:
                    return None
                b = b.base
            else:
                b = val.digest(b)
            if isinstance(b, tuple) and b and b[0] in ("tab", "str"):
                return None
            if isinstance(b, tuple) and len(b) == 3 and b[0] == "rootoff":
                return ("elem", ("root", b[1]), i + b[2])
            return ("elem", b, i)
        if o in ("app", "f2i", "truth", "size", "raw", "out", "pdiff", "flt", "feq"):
            return ("h", h((o,) + tuple(val.dk(x) for x in a)))
    except (Unk, RecursionError):
        return None
    return None


def force(val, t, want_ge, k, over, rnd, lo=None, hi=None):
    """extend overrides so that t lands in [lo,hi] (approximately, for polynomials)"""
    if t.op == "poly":
        cand = []
        for m, c in t.args[1]:
            if len(m) == 1:
                kk = keyof(val, m[0])
                if kk is not None:
                    cand.append((kk, c, m[0]))
        if not cand:
            return
        kk, c, at = rnd.choice(cand)
        v = Val(val.seed, over, val.mode)
        try:
            cur = v.evi(t)
            av = v.evi(at)
        except Unk:
            return
        target = rnd.randint(lo, hi) if hi - lo < 1000 else rnd.choice([lo, hi, rnd.randint(lo, hi)])
        d = target - cur
        if d % abs(c):
            d -= d % abs(c)
            if cur + d < lo:
                d += abs(c)
        nv = av + d // c
        if at.lo <= nv <= at.hi:
            over[kk] = nv
        return
    if t.op == "bits":
        x = t.args[0]
        tgt = rnd.randint(max(lo, 0), hi) if hi < 1 << 40 else max(lo, 0)
        w = t.args[2] if t.args[2] != INF else 30
        if x.lo >= 0 or True:
            kk = keyof(val, x)
            if kk is None:
                return
            v = Val(val.seed, over, val.mode)
            try:
                cur = v.evi(x)
            except Unk:
                return
            mask = ((1 << w) - 1) << t.args[1]
            nv = (cur & ~mask) | ((tgt << t.args[1]) & mask)
            if x.lo <= nv <= x.hi:
                over[kk] = nv
        return
    kk = keyof(val, t)
    if kk is not None:
        over[kk] = rnd.choice([lo, hi, rnd.randint(lo, hi)])


def diffpath(a, b, pre, rnd):
    """random path of the joint diagram to differing leaves: {t: (lo,hi)}"""
    cons = {}
    order = []
    for _ in range(4000):
        best = None
        for n in (a, b, pre):
            if n.op in ("c", "br"):
                kk = (n.args[0].id, n.args[1])
                if best is None or kk < best[0]:
                    best = (kk, n)
        if best is None:
            break
        t, k = best[1].args[0], best[1].args[1]
        opts = []
        for v in (1, 0):
            a2, b2, p2 = cof(a, t, k, v), cof(b, t, k, v), cof(pre, t, k, v)
            if p2 is FALSE or a2 is b2:
                continue
            opts.append((v, a2, b2, p2))
        if not opts:
            return None
        v, a, b, pre = rnd.choice(opts)
        lo, hi = cons.get(t, (t.lo if t.lo > -INF else -70000, t.hi if t.hi < INF else 70000))
        if v:
            lo = max(lo, k)
            hi = max(hi, lo)
        else:
            hi = min(hi, k - 1)
            lo = min(lo, hi)
        if t not in cons:
            order.append(t)
        cons[t] = (lo, hi)
    return [(t,) + cons[t] for t in order]


def distinguish(a, b, pre=TRUE, samples=400, seed=1, eqf=None):
    """a valuation under which pre holds and a != b, or None"""
    if a is b:
        return None
    rnd = random.Random(seed)
    pool = None
    fails = 0
    tried = ok = 0
    for n in range(samples):
        over = {}
        val = Val((seed, n), over, n % 3)
        try:
            if n % 2 == 0 and (a.op in ("c", "br") or b.op in ("c", "br") or pre.op == "c"):
                p = diffpath(a, b, pre, rnd)
                if p:
                    # atoms first, polynomials adjusted afterwards
                    for t, lo, hi in sorted(p, key=lambda x: x[0].op in ("poly", "bits")):
                        cur = Val(val.seed, over, val.mode)
                        x = cur.evi(t)
                        if lo <= x <= hi:
                            continue
                        force(cur, t, None, None, over, rnd, lo, hi)
            elif n % 4 == 3:
                if pool is None:
                    pool = thresholds((a, b, pre))
                for t, k in rnd.sample(pool, min(len(pool), 6)):
                    lo, hi = max(k - 1, t.lo), min(k + 1, t.hi)
                    force(Val(val.seed, over, val.mode), t, None, None, over, rnd, lo, hi)
            val = Val((seed, n), over, n % 3)
            if not val.ev(pre):
                continue
            tried += 1
            x, y = val.ev(a), val.ev(b)
            if val.digest(x) != val.digest(y):
                return {"a": x, "b": y, "val": val, "over": over}
            ok += 1
        except (Unk, OverflowError, RecursionError, ValueError):
            fails += 1
            continue
    return None


# ---------------------------------------------------------------- dense sampling
class NoCode(Exception):
    pass


INTOPS = {"k", "poly", "mul", "bits", "div", "mod", "shr", "shl", "and", "or", "xor", "sx", "eq", "true", "false"}


def _shl(x, n):
    return x << n if 0 <= n < 200 else -77


def _shr(x, n):
    return x >> n if 0 <= n < 200 else -77


def _div(x, y):
    if not y:
        return -78
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def _mod(x, y):
    if not y:
        return -78
    m = abs(x) % abs(y)
    return -m if x < 0 else m


def _sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def _tab(t, i, dflt):
    return t[i] if 0 <= i < len(t) and t[i] is not None else dflt


def codegen(roots, cap=6000):
    """straight-line evaluator of integer graphs over input atoms:
    (function of a list of atom values, [atom terms])"""
    order, state, st = [], {}, [(r, 0) for r in roots]
    atoms, names, env = [], {}, {"_shl": _shl, "_shr": _shr, "_div": _div, "_mod": _mod, "_sx": _sx, "_tab": _tab}

    def tabof(b):
        """(table, index terms) of a possibly nested table element"""
        if b.op == "tab":
            return b.args[0]
        if b.op == "elem" and b.args[1].op == "k":
            t = tabof(b.args[0])
            if t is not None and 0 <= b.args[1].args[0] < len(t) and isinstance(t[b.args[1].args[0]], tuple):
                return t[b.args[1].args[0]]
        return None

    def leaf(t):
        while t.op in ("fld", "elem"):
            if t.op == "elem" and t.args[1].op != "k":
                return False
            t = t.args[0]
        return t.op in ("in", "root", "obj") and not (t.op == "root" and not isinstance(t.args[0], (str, tuple)))

    def plain(t):
        if t.op == "root" and isinstance(t.args[0], tuple):
            return not any(isinstance(x, T) for x in t.args[0])
        return True

    def kids(t):
        o, a = t.op, t.args
        if o in ("k", "true", "false"):
            return ()
        if o == "poly":
            return tuple(x for m, _ in a[1] for x in m)
        if o in ("mul", "div", "mod", "shr", "shl", "and", "or", "xor"):
            return (a[0], a[1])
        if o in ("bits", "sx"):
            return (a[0],)
        if o in ("c", "br"):
            return (a[0], a[2], a[3])
        if o == "eq":
            if not all(isinstance(x, T) and (x.op in INTOPS or x.lo > -INF) for x in a[:2]):
                raise NoCode()
            return (a[0], a[1])
        if o == "elem":
            tb = tabof(a[0])
            if tb is not None:
                if any(isinstance(x, tuple) for x in tb):
                    raise NoCode()
                return (a[1],)
        if o == "h" and all(not isinstance(x, T) or x.op == "in" for x in a):
            return None
        if leaf(t) and plain(t) and (t.lo > -INF or o in ("in", "fld", "elem")):
            return None
        raise NoCode(o)
    while st:
        t, ph = st.pop()
        if ph:
            order.append(t)
            continue
        if t in state:
            continue
        state[t] = 1
        if len(state) > cap:
            raise NoCode("size")
        k = kids(t)
        if k is None:
            names[t] = "x%d" % len(atoms)
            atoms.append(t)
            continue
        st.append((t, 1))
        for x in k:
            if not isinstance(x, T):
                raise NoCode()
            st.append((x, 0))
    lines = []
    for t in order:
        o, a = t.op, t.args
        n = names[t] = "v%d" % len(names)
        g = lambda x: names[x]
        if o == "k":
            e = repr(a[0]) if isinstance(a[0], int) else None
            if e is None:
                raise NoCode()
        elif o in ("true", "false"):
            e = str(int(o == "true"))
        elif o == "poly":
            e = str(a[0]) + "".join(" + %d*%s" % (k, "*".join(g(x) for x in m)) for m, k in a[1])
        elif o == "mul":
            e = "%s*%s" % (g(a[0]), g(a[1]))
        elif o == "bits":
            e = "(%s >> %d)" % (g(a[0]), a[1])
            if a[2] != INF:
                e += " & %d" % ((1 << a[2]) - 1)
        elif o in ("c", "br"):
            e = "%s if %s >= %d else %s" % (g(a[2]), g(a[0]), a[1], g(a[3]))
        elif o in ("div", "mod", "shr", "shl"):
            e = "_%s(%s, %s)" % (o, g(a[0]), g(a[1]))
        elif o in ("and", "or", "xor"):
            e = "%s %s %s" % (g(a[0]), {"and": "&", "or": "|", "xor": "^"}[o], g(a[1]))
        elif o == "sx":
            e = "_sx(%s, %d)" % (g(a[0]), a[1] * 8)
        elif o == "eq":
            e = "int(%s == %s)" % (g(a[0]), g(a[1]))
        elif o == "elem":
            nm = "t%d" % len(env)
            env[nm] = tabof(a[0])
            e = "_tab(%s, %s, -79)" % (nm, g(a[1]))
        else:
            raise NoCode(o)
        lines.append("  %s = %s" % (n, e))
    src = "def f(X):\n" + ("  %s = X\n" % (", ".join(names[t] for t in atoms) + ("," if len(atoms) == 1 else "")) if atoms else "")
    src += "\n".join(lines) + "\n  return %s\n" % ", ".join(names[r] for r in roots)
    if len(lines) > 3000:
        raise NoCode("size")
    exec(compile(src, "<graph>", "exec"), env)
    consts = set()
    for t in order:
        if t.op in ("c", "br"):
            consts.add(t.args[1])
        elif t.op == "k":
            consts.add(t.args[0])
        elif t.op == "poly":
            consts.add(-t.args[0])
    return env["f"], atoms, sorted(consts), len(lines)


SPENT = [0.0]


def dense(a, b, pre, seed=1, each=0.35, total=40.0):
    """many more valuations of small integer graphs; all of them when the inputs are few"""
    import itertools, time
    if SPENT[0] > total:
        return None
    t0 = time.time()
    try:
        f, atoms, consts, size = codegen((a, b, pre))
    except (NoCode, RecursionError, SyntaxError, MemoryError):
        return None
    if not atoms:
        return None
    rng = []
    span = 1
    for t in atoms:
        lo, hi = (t.lo if t.lo > -INF else -70000), (t.hi if t.hi < INF else 70000)
        rng.append((lo, hi))
        span *= hi - lo + 1
    rnd = random.Random(seed)
    if span <= 40000:
        cases = itertools.product(*[range(lo, hi + 1) for lo, hi in rng])
        each *= 4
    else:
        pools = []
        for lo, hi in rng:
            p = {lo, hi, lo + 1, hi - 1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32}
            for c in consts[:60]:
                p |= {c - 1, c, c + 1}
            pools.append(sorted(x for x in p if lo <= x <= hi) or [lo])

        def gen():
            n = 0
            while True:
                n += 1
                yield [rnd.choice(p) if rnd.random() < 0.35 else rnd.randint(lo, hi) for p, (lo, hi) in zip(pools, rng)]
        cases = gen()
    try:
        for i, X in enumerate(cases):
            if i % 64 == 0 and time.time() - t0 > each:
                break
            x, y, p = f(X)
            if p and x != y:
                return {"a": x, "b": y, "val": None, "over": {}, "atoms": dict(zip(atoms, X))}
    except (OverflowError, MemoryError, ValueError):
        return None
    finally:
        SPENT[0] += time.time() - t0
    return None
