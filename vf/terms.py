"""Hash-consed value graph: integer polynomials, gated values (decision
diagrams over threshold atoms) and functional records/arrays.  Two source
fragments that compute the same function by different arrangements of the same
operations get the same node.  No solver: equality is node identity after
normalisation."""
import sys
from math import gcd
sys.setrecursionlimit(60000)

INF = 1 << 70
_tab = {}
_cnt = [0]


class Cap(Exception):
    """value graph larger than the stated bound"""


class T:
    __slots__ = ("op", "args", "id", "lo", "hi", "fv", "_h")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        _cnt[0] += 1
        self.id = _cnt[0]
        self.lo = -INF
        self.hi = INF
        self.fv = None

    def __repr__(self):
        return show(self)


def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = T(op, args)
        _tab[k] = t
    return t


def atom(op, *args, lo=None, hi=None):
    t = mk(op, *args)
    if lo is not None and (t.lo == -INF):
        t.lo = lo
    if hi is not None and (t.hi == INF):
        t.hi = hi
    return t


# ---------------------------------------------------------------- polynomials
def K(n):
    t = mk("k", n)
    t.lo = t.hi = n
    return t


def isk(t):
    return t.op == "k"


def poly_of(t):
    """(const, {monomial: coef})"""
    if t.op == "k":
        return t.args[0], {}
    if t.op == "poly":
        return t.args[0], dict(t.args[1])
    return 0, {(t,): 1}


def mono_key(m):
    return (len(m),) + tuple(a.id for a in m)


def mk_poly(c, d):
    d = {m: k for m, k in d.items() if k}
    if not d:
        return K(c)
    # recombine adjacent bit fields of one value
    bl = [m for m in d if len(m) == 1 and m[0].op == "bits"]
    if len(bl) > 1 or (bl and any(len(m) == 1 and m[0].op != "bits" for m in d)):
        again = True
        while again:
            again = False
            idx = {}
            for m in d:
                if len(m) == 1 and m[0].op == "bits":
                    x, l, w = m[0].args
                    idx[(x.id, l)] = m[0]
            for (xid, l), a in list(idx.items()):
                x, l, w = a.args
                if w == INF:
                    continue
                b = idx.get((xid, l + w))
                if b is None:
                    continue
                ca = d[(a,)]
                if d[(b,)] == ca << w:
                    del d[(a,)], d[(b,)]
                    nb = bits(x, l, INF if b.args[2] == INF else w + b.args[2])
                    nc, nd = poly_of(nb)
                    c += ca * nc
                    for m, k in nd.items():
                        d[m] = d.get(m, 0) + ca * k
                    d = {m: k for m, k in d.items() if k}
                    again = True
                    break
        if not d:
            return K(c)
    if len(d) == 1 and c == 0:
        (m, k), = d.items()
        if k == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda x: mono_key(x[0])))
    t = mk("poly", c, items)
    if t.lo == -INF and t.hi == INF:
        lo = hi = c
        for m, k in items:
            ml = mh = 1
            for a in m:
                cs = [ml * a.lo, ml * a.hi, mh * a.lo, mh * a.hi]
                ml, mh = min(cs), max(cs)
            if k < 0:
                ml, mh = mh, ml
            lo += k * ml
            hi += k * mh
        t.lo = max(lo, -INF)
        t.hi = min(hi, INF)
    return t


def p_add(a, b, s=1):
    if a.op == "k" and b.op == "k":
        return K(a.args[0] + s * b.args[0])
    ca, da = poly_of(a)
    cb, db = poly_of(b)
    for m, k in db.items():
        da[m] = da.get(m, 0) + s * k
    return mk_poly(ca + s * cb, da)


def p_mul(a, b):
    if a.op == "k" and b.op == "k":
        return K(a.args[0] * b.args[0])
    ca, da = poly_of(a)
    cb, db = poly_of(b)
    if len(da) * len(db) > 400:
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("mul", x, y)
    r = {}
    for m, k in da.items():
        if cb:
            r[m] = r.get(m, 0) + k * cb
        for m2, k2 in db.items():
            mm = tuple(sorted(m + m2, key=lambda t: t.id))
            # idempotence of 0/1 values
            out = []
            for x in mm:
                if out and out[-1] is x and x.lo >= 0 and x.hi <= 1:
                    continue
                out.append(x)
            mm = tuple(out)
            r[mm] = r.get(mm, 0) + k * k2
    if ca:
        for m2, k2 in db.items():
            r[m2] = r.get(m2, 0) + ca * k2
    return mk_poly(ca * cb, r)


def bits(x, l, w):
    """floor(x / 2^l) mod 2^w  (w = INF: no modulus)"""
    if w == 0:
        return K(0)
    if x.op == "k":
        v = x.args[0] >> l
        return K(v if w == INF else v & ((1 << w) - 1))
    if x.op == "bits":
        y, l2, w2 = x.args
        if w2 == INF:
            return bits(y, l + l2, w)
        if l >= w2:
            return K(0)
        return bits(y, l + l2, min(w, w2 - l))
    if REF and l == 0:
        rl, rh = rng(x)
        if rl >= 0 and (w == INF or rh < (1 << w)):
            return x
    # split off multiples of 2^l
    c, d = poly_of(x)
    M = 1 << l
    out_c, out_d, in_c, in_d = 0, {}, 0, {}
    if l:
        for m, k in d.items():
            if k % M == 0:
                out_d[m] = k // M
            else:
                in_d[m] = k
        in_c = c % M
        out_c = c // M
    else:
        in_c, in_d = c, d
    if l and (out_d or out_c):
        inner = mk_poly(in_c, in_d)
        s = bits(inner, l, INF)
        whole = p_add(s, mk_poly(out_c, out_d))
        return bits(whole, 0, w)
    if w != INF and l == 0:
        W = 1 << w
        nd = {m: k % W for m, k in d.items()}
        nc = c % W
        if nc != c or nd != d:
            red = mk_poly(nc, nd)
            if x.lo >= 0 and x.hi < W:
                return x
            return bits(red, 0, w)
    if x.lo >= 0 and x.hi < INF:
        n = x.hi.bit_length()
        if l >= n:
            return K(0)
        if w != INF and l + w > n:
            w = n - l
        elif w == INF:
            w = n - l
        if l == 0 and w >= n:
            return x
    elif l == 0 and w == INF:
        return x
    t = mk("bits", x, l, w)
    if w != INF:
        t.lo, t.hi = 0, (1 << w) - 1
        if x.lo >= 0 and x.hi < INF:
            t.hi = min(t.hi, x.hi >> l) if l + w >= x.hi.bit_length() else t.hi
    else:
        t.lo = x.lo >> l if x.lo > -INF else -INF
        t.hi = x.hi >> l if x.hi < INF else INF
    return t


# ---------------------------------------------------------------- conditions
TRUE = mk("true")
FALSE = mk("false")
_ite = {}


def thr(t, k):
    """condition t >= k"""
    if t.lo >= k:
        return TRUE
    if t.hi < k:
        return FALSE
    return mk("c", t, k, TRUE, FALSE)


def ckey(n):
    return (n.args[0].id, n.args[1])


def mkc(t, k, hi, lo):
    while lo.op == "c" and lo.args[0] is t:
        lo = lo.args[3]
    if hi is lo:
        return hi
    if hi.op == "c" and hi.args[0] is t and hi.args[3] is lo:
        return hi
    return mk("c", t, k, hi, lo)


def cof(n, t, k, val):
    """cofactor of node n (cond or value) whose top atom is >= (t,k)"""
    if n.op in ("c", "br") and n.args[0] is t and n.args[1] == k:
        return n.args[2] if val else n.args[3]
    if not val and n.op in ("c", "br"):
        # t < k: every same-term node with larger threshold is false
        while n.op in ("c", "br") and n.args[0] is t and n.args[1] >= k:
            n = n.args[3]
    return n


def ite_c(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = (f, g, h)
    r = _ite.get(key)
    if r is not None:
        return r
    top = min((ckey(n), n) for n in (f, g, h) if n.op == "c")[1] if False else None
    best = None
    for n in (f, g, h):
        if n.op == "c":
            kk = ckey(n)
            if best is None or kk < best[0]:
                best = (kk, n)
    n = best[1]
    t, k = n.args[0], n.args[1]
    hi = ite_c(cof(f, t, k, 1), cof(g, t, k, 1), cof(h, t, k, 1))
    lo = ite_c(cof(f, t, k, 0), cof(g, t, k, 0), cof(h, t, k, 0))
    r = mkc(t, k, hi, lo)
    _ite[key] = r
    if len(_ite) > 6000000:
        raise Cap("decision diagram table")
    return r


def c_not(f):
    return ite_c(f, FALSE, TRUE)


def c_and(f, g):
    return ite_c(f, g, FALSE)


def c_or(f, g):
    return ite_c(f, TRUE, g)


def c_implies(f, g):
    return ite_c(f, g, TRUE) is TRUE


# ---------------------------------------------------------------- gated values
def free(t):
    """ids of numeric atoms occurring at the top polynomial level (for substitution)"""
    if t.fv is None:
        if t.op == "poly":
            s = set()
            for m, k in t.args[1]:
                for a in m:
                    s.add(a)
            t.fv = frozenset(s)
        else:
            t.fv = frozenset((t,))
    return t.fv


_sl = {}


def subst_leaf(v, t, n):
    """replace atom t by integer n in the leaves of v (top polynomial level)"""
    if v.op == "br":
        r = _sl.get((v, t, n))
        if r is None:
            a = v.args
            r = mkv(a[0], a[1], subst_leaf(a[2], t, n), subst_leaf(a[3], t, n))
            _sl[(v, t, n)] = r
        return r
    if v is t:
        return K(n)
    if v.op == "poly" and t in free(v):
        c, d = v.args[0], v.args[1]
        r = {}
        for m, k in d:
            if t in m:
                e = sum(1 for x in m if x is t)
                m2 = tuple(x for x in m if x is not t)
                k2 = k * n ** e
                if m2:
                    r[m2] = r.get(m2, 0) + k2
                else:
                    c += k2
            else:
                r[m] = r.get(m, 0) + k
        return mk_poly(c, r)
    return v


def mkv(t, k, hi, lo):
    while lo.op == "br" and lo.args[0] is t:
        lo = lo.args[3]
    if hi is lo:
        return hi
    if t.lo == k - 1:
        lo = subst_leaf(lo, t, k - 1)
    if hi.op == "br" and hi.args[0] is t:
        if hi.args[1] == k + 1:
            x = subst_leaf(hi.args[3], t, k)
            if x is not hi.args[3]:
                hi = hi.args[2] if hi.args[2] is x else mk("br", t, k + 1, hi.args[2], x)
    elif t.hi == k:
        hi = subst_leaf(hi, t, k)
    if hi is lo:
        return hi
    if hi.op == "br" and hi.args[0] is t and hi.args[3] is lo:
        return hi
    if t.lo == 0 and t.hi == 1 and k == 1 and hi.op == "k" and lo.op == "k":
        a, b = hi.args[0], lo.args[0]
        return p_add(K(b), p_mul(K(a - b), t))
    return mk("br", t, k, hi, lo)


_itev = {}


def ite(c, a, b):
    """gated merge of values under condition c"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    m = merge_obj(c, a, b)
    if m is not None:
        return m
    key = (c, a, b)
    r = _itev.get(key)
    if r is not None:
        return r
    best = None
    for n in (c, a, b):
        if n.op in ("c", "br"):
            kk = ckey(n)
            if best is None or kk < best[0]:
                best = (kk, n)
    n = best[1]
    t, k = n.args[0], n.args[1]
    hi = ite(cof(c, t, k, 1), cof(a, t, k, 1), cof(b, t, k, 1))
    lo = ite(cof(c, t, k, 0), cof(a, t, k, 0), cof(b, t, k, 0))
    r = mkv(t, k, hi, lo)
    _itev[key] = r
    if len(_itev) > 4000000:
        raise Cap("gated value table")
    return r


def merge_obj(c, a, b):
    """field-wise merge of two functional updates of one object"""
    # storage of a fresh object that was never constructed has no value to keep
    if a.op == "fld" and a.args[0].op == "obj" and b.op in ("rec", "arr"):
        return b
    if b.op == "fld" and b.args[0].op == "obj" and a.op in ("rec", "arr"):
        return a
    if a.op == "rec" or b.op == "rec":
        ba = a.args[0] if a.op == "rec" else a
        bb = b.args[0] if b.op == "rec" else b
        if ba is bb:
            fa = dict(a.args[1]) if a.op == "rec" else {}
            fb = dict(b.args[1]) if b.op == "rec" else {}
            d = {}
            for f in list(fa) + [x for x in fb if x not in fa]:
                x = fa[f] if f in fa else field(ba, f)
                y = fb[f] if f in fb else field(bb, f)
                d[f] = ite(c, x, y)
            return mk_rec(ba, d)
    if a.op == "arr" or b.op == "arr":
        ba, ea, sa = a.args if a.op == "arr" else (a, (), ())
        bb, eb, sb = b.args if b.op == "arr" else (b, (), ())
        if ba is bb and sa == sb:
            da, db = dict(ea), dict(eb)
            d = {}
            for i in list(da) + [x for x in db if x not in da]:
                x = da[i] if i in da else elem(base_arr(ba, sa), K(i))
                y = db[i] if i in db else elem(base_arr(bb, sb), K(i))
                d[i] = ite(c, x, y)
            return mk_arr(ba, d, sa)
    return None


def base_arr(b, sym):
    return mk_arr(b, {}, sym)


def mk_rec(base, d):
    items = tuple(sorted(((f, x) for f, x in d.items() if not (x.op == "fld" and x.args[0] is base and x.args[1] == f)), key=lambda z: str(z[0])))
    if not items:
        return base
    return mk("rec", base, items)


def mk_arr(base, d, sym):
    items = tuple(sorted((i, x) for i, x in d.items() if not (not sym and x.op == "elem" and x.args[0] is base and x.args[1] is K(i))))
    if not items and not sym:
        return base
    return mk("arr", base, items, sym)


_lift = {}
LEAFCAP = 3000


REF = {}   # ranges implied by the gates above the leaf being rewritten


def rng(x):
    """range of a leaf, refined by the gates above it"""
    if not REF:
        return x.lo, x.hi
    r = REF.get(x)
    lo, hi = x.lo, x.hi
    if r:
        lo, hi = max(lo, r[0]), min(hi, r[1])
    if x.op == "poly":
        l = u = x.args[0]
        for m, k in x.args[1]:
            ml = mh = 1
            for a in m:
                al, ah = a.lo, a.hi
                q = REF.get(a)
                if q:
                    al, ah = max(al, q[0]), min(ah, q[1])
                cs = [ml * al, ml * ah, mh * al, mh * ah]
                ml, mh = min(cs), max(cs)
            if k < 0:
                ml, mh = mh, ml
            l += k * ml
            u += k * mh
        lo, hi = max(lo, l), min(hi, u)
        # thresholds on this polynomial up to a constant and sign
        c0, d0 = x.args[0], x.args[1]
        for t, (tl, th) in REF.items():
            if t.op == "poly" and len(t.args[1]) == len(d0):
                if t.args[1] == d0:
                    lo, hi = max(lo, tl + c0 - t.args[0]), min(hi, th + c0 - t.args[0])
                elif all(m == m2 and k == -k2 for (m, k), (m2, k2) in zip(t.args[1], d0)):
                    lo, hi = max(lo, -th + c0 + t.args[0]), min(hi, -tl + c0 + t.args[0])
    return lo, hi


def with_ref(t, k, side, fn):
    old = REF.get(t)
    lo, hi = old if old else (t.lo, t.hi)
    REF[t] = (max(lo, k), hi) if side else (lo, min(hi, k - 1))
    try:
        return fn()
    finally:
        if old is None:
            del REF[t]
        else:
            REF[t] = old


def lift1(name, f, a):
    if a.op != "br":
        return f(a)
    if count_leaves(a) <= 24:
        key = (name, a) if not REF else None
        r = _lift.get(key) if key else None
        if r is None:
            t, k, hi, lo = a.args
            r = ite(mk("c", t, k, TRUE, FALSE), with_ref(t, k, 1, lambda: lift1(name, f, hi)), with_ref(t, k, 0, lambda: lift1(name, f, lo)))
            if key:
                _lift[key] = r
        return r
    key = (name, a)
    r = _lift.get(key)
    if r is None:
        t, k, hi, lo = a.args
        r = ite(mk("c", t, k, TRUE, FALSE), lift1(name, f, hi), lift1(name, f, lo))
        _lift[key] = r
    return r


REFOPS = ("&", "|", ">>", "/", "%", "^")


def lift2(name, f, a, b):
    if a.op != "br" and b.op != "br":
        return f(a, b)
    small = name in REFOPS and count_leaves(a) * count_leaves(b) <= 24
    key = (name, a, b) if not (small and REF) else None
    r = _lift.get(key) if key else None
    if r is None:
        best = None
        for n in (a, b):
            if n.op == "br":
                kk = ckey(n)
                if best is None or kk < best[0]:
                    best = (kk, n)
        n = best[1]
        t, k = n.args[0], n.args[1]
        if small:
            hi = with_ref(t, k, 1, lambda: lift2(name, f, cof(a, t, k, 1), cof(b, t, k, 1)))
            lo = with_ref(t, k, 0, lambda: lift2(name, f, cof(a, t, k, 0), cof(b, t, k, 0)))
            r = ite(mk("c", t, k, TRUE, FALSE), hi, lo)
            if key:
                _lift[key] = r
            return r
        hi = lift2(name, f, cof(a, t, k, 1), cof(b, t, k, 1))
        lo = lift2(name, f, cof(a, t, k, 0), cof(b, t, k, 0))
        r = ite(mk("c", t, k, TRUE, FALSE), hi, lo)
        _lift[key] = r
        if len(_lift) > 4000000:
            raise Cap("lift table")
    return r


def lift1c(name, f, a):
    """value -> condition"""
    if a.op != "br":
        return f(a)
    key = (name, a)
    r = _lift.get(key)
    if r is None:
        t, k, hi, lo = a.args
        r = ite_c(mk("c", t, k, TRUE, FALSE), lift1c(name, f, hi), lift1c(name, f, lo))
        _lift[key] = r
    return r


def lift2c(name, f, a, b):
    if a.op != "br" and b.op != "br":
        return f(a, b)
    key = (name, a, b)
    r = _lift.get(key)
    if r is None:
        best = None
        for n in (a, b):
            if n.op == "br":
                kk = ckey(n)
                if best is None or kk < best[0]:
                    best = (kk, n)
        n = best[1]
        t, k = n.args[0], n.args[1]
        hi = lift2c(name, f, cof(a, t, k, 1), cof(b, t, k, 1))
        lo = lift2c(name, f, cof(a, t, k, 0), cof(b, t, k, 0))
        r = ite_c(mk("c", t, k, TRUE, FALSE), hi, lo)
        _lift[key] = r
    return r


def liftn(f, args):
    """lift an uninterpreted constructor over gated arguments"""
    args = list(args)
    for i, a in enumerate(args):
        if isinstance(a, T) and a.op == "br":
            break
    else:
        return f(*args)
    n = 1
    for a in args:
        if isinstance(a, T) and a.op == "br":
            n *= count_leaves(a)
    if n > 64:
        return f(*args)
    return _liftn(f, args)


def _liftn(f, args):
    best = None
    for n in args:
        if isinstance(n, T) and n.op == "br":
            kk = ckey(n)
            if best is None or kk < best[0]:
                best = (kk, n)
    if best is None:
        return f(*args)
    n = best[1]
    t, k = n.args[0], n.args[1]
    hi = _liftn(f, [cof(a, t, k, 1) if isinstance(a, T) else a for a in args])
    lo = _liftn(f, [cof(a, t, k, 0) if isinstance(a, T) else a for a in args])
    return ite(mk("c", t, k, TRUE, FALSE), hi, lo)


_cl = {}


def count_leaves(a):
    if a.op != "br":
        return 1
    r = _cl.get(a)
    if r is None:
        r = min(count_leaves(a.args[2]) + count_leaves(a.args[3]), 100000)
        _cl[a] = r
    return r


# arithmetic on gated values
def add(a, b):
    return lift2("+", p_add, a, b)


def sub(a, b):
    return lift2("-", lambda x, y: p_add(x, y, -1), a, b)


def mul(a, b):
    return lift2("*", p_mul, a, b)


def neg(a):
    return sub(K(0), a)


def shr(a, b):
    def f(x, y):
        if y.op == "k" and 0 <= y.args[0] < 64:
            return bits(x, y.args[0], INF)
        return atom("shr", x, y, lo=0 if x.lo >= 0 else None, hi=x.hi if x.lo >= 0 else None)
    return lift2(">>", f, a, b)


def shl(a, b):
    def f(x, y):
        if y.op == "k" and 0 <= y.args[0] < 64:
            return p_mul(x, K(1 << y.args[0]))
        if x.op == "k" and y.lo >= 0 and y.hi < 64:
            # small table of powers
            return atom("shl", x, y, lo=min(x.args[0], 0) << 63 if x.args[0] < 0 else 0)
        return atom("shl", x, y, lo=0 if x.lo >= 0 else None)
    return lift2("<<", f, a, b)


def trailing(t):
    c, d = poly_of(t)
    g = 0
    for v in [c] + list(d.values()):
        g = gcd(g, v)
    if g == 0:
        return 64
    return (g & -g).bit_length() - 1


def band(a, b):
    def f(x, y):
        if x.op == "k" and y.op != "k":
            x, y = y, x
        if y.op == "k":
            m = y.args[0]
            if x.op == "k":
                return K(x.args[0] & m)
            if m == 0:
                return K(0)
            if m > 0:
                s = (m & -m).bit_length() - 1
                mm = m >> s
                if mm & (mm + 1) == 0:
                    w = mm.bit_length()
                    return p_mul(bits(x, s, w), K(1 << s))
            elif m < 0:
                # clear low bits: ~mask
                inv = ~m
                if inv & (inv + 1) == 0:
                    w = inv.bit_length()
                    return p_mul(bits(x, w, INF), K(1 << w))
        if x is y:
            return x
        if x.lo >= 0 and x.hi <= 1 and y.lo >= 0 and y.hi <= 1:
            return p_mul(x, y)
        p, q = sorted((x, y), key=lambda t: t.id)
        return atom("and", p, q, lo=0 if (p.lo >= 0 or q.lo >= 0) else None, hi=min(p.hi if p.lo >= 0 else INF, q.hi if q.lo >= 0 else INF))
    return lift2("&", f, a, b)


def bor(a, b):
    def f(x, y):
        if x.op == "k" and y.op == "k":
            return K(x.args[0] | y.args[0])
        if x is y:
            return x
        for p, q in ((x, y), (y, x)):
            if p.op == "k" and p.args[0] == 0:
                return q
            n = trailing(p)
            if n and q.lo >= 0 and q.hi < (1 << n):
                return p_add(p, q)
        if x.lo >= 0 and x.hi <= 1 and y.lo >= 0 and y.hi <= 1:
            return p_add(p_add(x, y), p_mul(x, y), -1)
        p, q = sorted((x, y), key=lambda t: t.id)
        return atom("or", p, q, lo=0 if (p.lo >= 0 and q.lo >= 0) else None)
    return lift2("|", f, a, b)


def bxor(a, b):
    def f(x, y):
        if x.op == "k" and y.op == "k":
            return K(x.args[0] ^ y.args[0])
        if x is y:
            return K(0)
        if x.lo >= 0 and x.hi <= 1 and y.lo >= 0 and y.hi <= 1:
            return p_add(p_add(x, y), p_mul(K(2), p_mul(x, y)), -1)
        p, q = sorted((x, y), key=lambda t: t.id)
        return atom("xor", p, q, lo=0 if (p.lo >= 0 and q.lo >= 0) else None)
    return lift2("^", f, a, b)


def div(a, b):
    def f(x, y):
        if x.op == "k" and y.op == "k" and y.args[0]:
            q = abs(x.args[0]) // abs(y.args[0])
            return K(q if (x.args[0] < 0) == (y.args[0] < 0) else -q)
        if y.op == "k":
            n = y.args[0]
            if n == 1:
                return x
            if n > 0 and n & (n - 1) == 0 and rng(x)[0] >= 0:
                return bits(x, n.bit_length() - 1, INF)
            if n > 0:
                c, d = poly_of(x)
                if c % n == 0 and all(v % n == 0 for v in d.values()):
                    return mk_poly(c // n, {m: v // n for m, v in d.items()})
        r = mk("div", x, y)
        if x.lo >= 0 and y.lo >= 0:
            r.lo, r.hi = 0, x.hi
        elif y.lo >= 1:
            r.lo, r.hi = min(0, x.lo), max(0, x.hi)
        return r
    return lift2("/", f, a, b)


def mod(a, b):
    def f(x, y):
        if x.op == "k" and y.op == "k" and y.args[0]:
            m = abs(x.args[0]) % abs(y.args[0])
            return K(-m if x.args[0] < 0 else m)
        if y.op == "k":
            n = y.args[0]
            if n > 0 and n & (n - 1) == 0 and rng(x)[0] >= 0:
                return bits(x, 0, n.bit_length() - 1)
            if n > 0 and 0 <= x.lo and x.hi < n:
                return x
        r = mk("mod", x, y)
        if x.lo >= 0 and y.lo >= 0:
            r.lo, r.hi = 0, min(x.hi, y.hi - 1 if y.hi < INF else INF)
        return r
    return lift2("%", f, a, b)


def cdiv(a, b):
    return -((-a) // b)


def p_ge0(d):
    """condition d >= 0 for a polynomial d"""
    c, m = poly_of(d)
    if not m:
        return TRUE if c >= 0 else FALSE
    if d.lo >= 0:
        return TRUE
    if d.hi < 0:
        return FALSE
    items = sorted(m.items(), key=lambda x: mono_key(x[0]))
    g = 0
    for _, k in items:
        g = gcd(g, k)
    sgn = 1 if items[0][1] > 0 else -1
    P = mk_poly(0, {mm: sgn * k // g for mm, k in items})
    # sgn*g*P + c >= 0
    if sgn > 0:
        return thr(P, cdiv(-c, g))
    # g*P <= c  <=> not (P >= floor(c/g)+1)
    return c_not(thr(P, c // g + 1))


def ge(a, b):
    return lift2c(">=", lambda x, y: p_ge0(p_add(x, y, -1)), a, b)


def lt(a, b):
    return c_not(ge(a, b))


NONNUM = ("addr", "str", "rec", "arr", "null", "lam", "tab", "obj", "newptr", "list")


def p_eq(x, y):
    if x is y:
        return TRUE
    if x.op in NONNUM or y.op in NONNUM or x.lo == -INF and x.op in ("out",):
        if x.op == "addr" and y.op == "addr" and x.args[0] == y.args[0] and len(x.args[1]) == len(y.args[1]) and x.args[1]:
            p, q = x.args[1], y.args[1]
            if p[:-1] == q[:-1] and p[-1][0] == "i" and q[-1][0] == "i":
                return lift2c("==", p_eq, p[-1][1], q[-1][1])
        if x.op in ("str", "null") and y.op in ("str", "null"):
            return FALSE
        if {x.op, y.op} == {"addr", "null"} or x.op == "addr" and y is K(0) or y.op == "addr" and x is K(0):
            return FALSE
        if x.op == "rec" and y.op == "rec" and x.args[0] is y.args[0] and [f for f, _ in x.args[1]] == [f for f, _ in y.args[1]]:
            c = TRUE
            for (f, p), (_, q) in zip(x.args[1], y.args[1]):
                c = c_and(c, eq(p, q))
            return c
        p, q = sorted((x, y), key=lambda t: t.id)
        return thr(atom("eq", p, q, lo=0, hi=1), 1)
    d = p_add(x, y, -1)
    c, m = poly_of(d)
    if not m:
        return TRUE if c == 0 else FALSE
    if d.lo > 0 or d.hi < 0:
        return FALSE
    items = sorted(m.items(), key=lambda z: mono_key(z[0]))
    g = 0
    for _, k in items:
        g = gcd(g, k)
    sgn = 1 if items[0][1] > 0 else -1
    P = mk_poly(0, {mm: sgn * k // g for mm, k in items})
    v = -c * sgn
    if v % g:
        return FALSE
    v //= g
    return c_and(thr(P, v), c_not(thr(P, v + 1)))


def eq(a, b):
    return lift2c("==", p_eq, a, b)


def tobool(v):
    def f(x):
        if x.op in ("addr", "newptr", "str", "lam"):
            return TRUE
        if x.op == "null":
            return FALSE
        if x.op in ("rec", "arr", "obj"):
            return thr(atom("truth", x, lo=0, hi=1), 1)
        return c_not(p_eq(x, K(0)))
    return lift1c("bool", f, v)


def b2v(c):
    return ite(c, K(1), K(0))


# ---------------------------------------------------------------- objects
def field(o, f, cls_fields=None, lo=None, hi=None):
    def g(x):
        if x.op == "rec":
            for n, v in x.args[1]:
                if n == f:
                    return v
            return field(x.args[0], f, cls_fields, lo, hi)
        if x.op == "tab" and cls_fields:
            if f in cls_fields and isinstance(x.args[0], tuple) and len(x.args[0]) == len(cls_fields):
                return tabval(x.args[0][cls_fields.index(f)])
        if x.op == "zeroinit":
            return x if lo is None or lo <= -INF else K(0)
        return atom("fld", x, f, lo=lo, hi=hi)
    if o.op != "br":
        return g(o)
    key = ("fld", f, o)
    r = _lift.get(key)
    if r is None:
        t, k, hi_, lo_ = o.args
        r = ite(mk("c", t, k, TRUE, FALSE), field(hi_, f, cls_fields, lo, hi), field(lo_, f, cls_fields, lo, hi))
        _lift[key] = r
    return r


def tabval(v):
    if isinstance(v, tuple):
        return mk("tab", v)
    if isinstance(v, float):
        return mk("float", v)
    if v is None:
        return mk("unkval")
    return K(int(v))


def totuple(v):
    return tuple(totuple(x) for x in v) if isinstance(v, list) else v


def tab_range(v):
    if all(isinstance(x, int) for x in v):
        return min(v), max(v)
    return None, None


def distinct(i, j):
    """provably different indices"""
    d = p_add(i, j, -1)
    return d.lo > 0 or d.hi < 0


def elem(a, i, lo=None, hi=None):
    def g(x, i):
        if x.op == "arr":
            base, ents, sym = x.args
            # sym: symbolic stores, newest last, made before the constant-index entries
            if i.op == "k":
                for n, v in ents:
                    if n == i.args[0]:
                        return v
            else:
                for n, v in ents:
                    if not distinct(i, K(n)):
                        r = mk("arr", base, ents, sym)
                        return atom("elem", r, i, lo=lo, hi=hi)
            for j, v in reversed(sym):
                if j is i:
                    return v
                if j.op == "br" or i.op == "br" or not distinct(i, j):
                    return atom("elem", mk_arr(base, {}, sym), i, lo=lo, hi=hi)
            return elem(base, i, lo, hi)
        if x.op == "tab" and i.op == "k" and isinstance(x.args[0], tuple) and 0 <= i.args[0] < len(x.args[0]):
            return tabval(x.args[0][i.args[0]])
        if x.op == "tab" and isinstance(x.args[0], tuple) and len(x.args[0]):
            l2, h2 = tab_range(x.args[0])
            if l2 is not None and l2 == h2:
                return K(l2)
            return atom("elem", x, i, lo=l2, hi=h2)
        if x.op == "fill":
            return x.args[0]
        if x.op == "zeroinit":
            return x if lo is None or lo <= -INF else K(0)
        if x.op == "str" and i.op == "k" and 0 <= i.args[0] < len(x.args[0]):
            return K(ord(x.args[0][i.args[0]]))
        return atom("elem", x, i, lo=lo, hi=hi)
    return lift2(("elem", lo, hi), g, a, i)


def upd_field(o, f, v):
    def g(x):
        if x.op == "rec":
            d = dict(x.args[1])
            d[f] = v
            return mk_rec(x.args[0], d)
        return mk_rec(x, {f: v})
    if o.op != "br":
        return g(o)
    t, k, hi, lo = o.args
    return ite(mk("c", t, k, TRUE, FALSE), upd_field(hi, f, v), upd_field(lo, f, v))


def upd_elem(a, i, v):
    if a.op == "br":
        t, k, hi, lo = a.args
        return ite(mk("c", t, k, TRUE, FALSE), upd_elem(hi, i, v), upd_elem(lo, i, v))
    if i.op == "br":
        t, k, hi, lo = i.args
        return ite(mk("c", t, k, TRUE, FALSE), upd_elem(a, hi, v), upd_elem(a, lo, v))
    base, ents, sym = a.args if a.op == "arr" else (a, (), ())
    d = dict(ents)
    if i.op == "k":
        d[i.args[0]] = v
        return mk_arr(base, d, sym)
    # symbolic store: constant entries that may alias move into the store list
    sym = list(sym)
    sym = [(j, w) for j, w in sym]
    keep = {}
    for n, w in d.items():
        if distinct(i, K(n)):
            keep[n] = w
        else:
            sym.append((K(n), w))
    if not keep or True:
        # same index again: drop the older entry when everything after it is distinct
        for p in range(len(sym) - 1, -1, -1):
            if sym[p][0] is i:
                del sym[p]
                break
            if sym[p][0].op == "br" or not distinct(sym[p][0], i):
                break
        sym.append((i, v))
        # canonical order of mutually distinct symbolic stores
        p = len(sym) - 1
        while p > 0 and sym[p][0].id < sym[p - 1][0].id and sym[p][0].op != "br" and sym[p - 1][0].op != "br" and distinct(sym[p][0], sym[p - 1][0]):
            sym[p], sym[p - 1] = sym[p - 1], sym[p]
            p -= 1
    return mk_arr(base, keep, tuple(sym))


# ---------------------------------------------------------------- restriction
_con = {}


def constrain(v, c):
    """generalised cofactor of value/condition v by care set c (canonical in v on c)"""
    if c is TRUE or c is FALSE:
        return v
    if v.op in ("k", "true", "false"):
        return v
    key = (v, c)
    r = _con.get(key)
    if r is not None:
        return r
    r = _constrain(v, c)
    _con[key] = r
    return r


def _constrain(v, c):
    if v.op in ("br", "c") and c.op == "c":
        best = v if ckey(v) <= ckey(c) else c
        t, k = best.args[0], best.args[1]
        c1, c0 = cof(c, t, k, 1), cof(c, t, k, 0)
        v1, v0 = cof(v, t, k, 1), cof(v, t, k, 0)
        if c1 is FALSE:
            return constrain(v0, c0)
        if c0 is FALSE:
            r = constrain(v1, c1)
            return r
        h, l = constrain(v1, c1), constrain(v0, c0)
        return mkc(t, k, h, l) if v.op == "c" else (h if h is l else mkv(t, k, h, l))
    if v.op in ("br", "c"):
        return v
    if v.op == "rec":
        return mk_rec(v.args[0], {f: constrain(x, c) for f, x in v.args[1]})
    if v.op == "arr":
        return mk_arr(v.args[0], {i: constrain(x, c) for i, x in v.args[1]}, v.args[2])
    return v


# ---------------------------------------------------------------- rebuilding
def rebuild(v, m, memo=None):
    """apply substitution m (dict T -> T) throughout, re-normalising"""
    if memo is None:
        memo = {}
    if not isinstance(v, T):
        if isinstance(v, tuple):
            return tuple(rebuild(x, m, memo) for x in v)
        return v
    if v in m:
        return m[v]
    if v in memo:
        return memo[v]
    o, a = v.op, v.args
    if o in ("k", "true", "false", "str", "null", "tab", "float", "unkval"):
        r = v
    elif o == "poly":
        r = K(a[0])
        for mono, k in a[1]:
            x = K(k)
            for y in mono:
                x = mul(x, rebuild(y, m, memo))
            r = add(r, x)
    elif o == "bits":
        r = lift1(("bits", a[1], a[2]), lambda x: bits(x, a[1], a[2]), rebuild(a[0], m, memo))
    elif o == "c":
        t = rebuild(a[0], m, memo)
        c = lift2c(">=", lambda x, y: p_ge0(p_add(x, y, -1)), t, K(a[1])) if t is not a[0] else mk("c", a[0], a[1], TRUE, FALSE)
        r = ite_c(c, rebuild(a[2], m, memo), rebuild(a[3], m, memo))
    elif o == "br":
        t = rebuild(a[0], m, memo)
        c = lift2c(">=", lambda x, y: p_ge0(p_add(x, y, -1)), t, K(a[1])) if t is not a[0] else mk("c", a[0], a[1], TRUE, FALSE)
        r = ite(c, rebuild(a[2], m, memo), rebuild(a[3], m, memo))
    elif o == "rec":
        b = rebuild(a[0], m, memo)
        r = b
        for f, x in a[1]:
            r = upd_field(r, f, rebuild(x, m, memo))
    elif o == "arr":
        r = rebuild(a[0], m, memo)
        for i, x in a[2]:
            r = upd_elem(r, rebuild(i, m, memo), rebuild(x, m, memo))
        for i, x in a[1]:
            r = upd_elem(r, K(i), rebuild(x, m, memo))
    elif o == "fld":
        r = field(rebuild(a[0], m, memo), a[1], None, v.lo, v.hi)
    elif o == "elem":
        r = elem(rebuild(a[0], m, memo), rebuild(a[1], m, memo), v.lo, v.hi)
    elif o == "div":
        r = div(rebuild(a[0], m, memo), rebuild(a[1], m, memo))
    elif o == "mod":
        r = mod(rebuild(a[0], m, memo), rebuild(a[1], m, memo))
    elif o == "shr":
        r = shr(rebuild(a[0], m, memo), rebuild(a[1], m, memo))
    elif o == "shl":
        r = shl(rebuild(a[0], m, memo), rebuild(a[1], m, memo))
    elif o == "and":
        r = band(rebuild(a[0], m, memo), rebuild(a[1], m, memo))
    elif o == "or":
        r = bor(rebuild(a[0], m, memo), rebuild(a[1], m, memo))
    elif o == "xor":
        r = bxor(rebuild(a[0], m, memo), rebuild(a[1], m, memo))
    elif o == "eq":
        r = b2v(eq(rebuild(a[0], m, memo), rebuild(a[1], m, memo)))
    else:
        na = tuple(rebuild(x, m, memo) for x in a)
        if na == a:
            r = v
        else:
            lo, hi = v.lo, v.hi
            r = liftn(lambda *z: atom(o, *z, lo=lo if lo > -INF else None, hi=hi if hi < INF else None), na)
    memo[v] = r
    return r


def subterms(v, seen=None):
    """every T reachable from v"""
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


# ---------------------------------------------------------------- printing
def show(t, d=0, budget=None):
    if budget is None:
        budget = [400]
    budget[0] -= 1
    if budget[0] < 0 or d > 12:
        return "..."
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1, budget) for x in t) + ")"
        return str(t)
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1, budget)
    if o == "k":
        return str(a[0])
    if o == "poly":
        out = []
        for m, k in a[1]:
            x = "*".join(s(y) for y in m)
            out.append(x if k == 1 else "%d*%s" % (k, x))
        if a[0]:
            out.append(str(a[0]))
        return "(" + " + ".join(out) + ")"
    if o == "bits":
        return "%s[%d:%s]" % (s(a[0]), a[1], "" if a[2] == INF else a[1] + a[2])
    if o in ("c", "br"):
        t0 = a[0]
        c = s(t0) if (t0.lo == 0 and t0.hi == 1 and a[1] == 1) else "%s>=%d" % (s(t0), a[1])
        if o == "c" and a[2] is TRUE and a[3] is FALSE:
            return "[%s]" % c
        if o == "c" and a[2] is FALSE and a[3] is TRUE:
            return "[!%s]" % c
        return "(%s ? %s : %s)" % (c, s(a[2]), s(a[3]))
    if o == "fld":
        return s(a[0]) + "." + str(a[1])
    if o == "elem":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if o == "root":
        return "/".join(str(x) for x in (a[0] if isinstance(a[0], tuple) else (a[0],)))
    if o == "rec":
        return s(a[0]) + "{" + ", ".join("%s:%s" % (f, s(x)) for f, x in a[1]) + "}"
    if o == "arr":
        return s(a[0]) + "{" + ", ".join("[%s]=%s" % (i if isinstance(i, int) else s(i), s(x)) for i, x in tuple(a[2]) + tuple(a[1])) + "}"
    if o == "tab":
        return "table<%d>" % len(a[0])
    if o == "str":
        return repr(a[0])
    if not a:
        return o
    return o + "(" + ", ".join(s(x) for x in a) + ")"
