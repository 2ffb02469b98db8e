"""Decoder state as a value: serialization, equality and hashing."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.state import handle, verdict, tobv

PB = ("Y", "U", "V")


def segover(w, h, tag):
    """segment maps of concrete size: cells (tag, i) behind an address"""
    def mp(ev, t, name):
        root = (tag,)
        ev.env[root] = grid(w, h, [atom("in", "%s[%d]" % (tag, i), lo=0, hi=3) for i in range(w * h)])
        return mk_rec(mk("obj", "TwoD"), {"storage_": mk("addr", root, ())})
    return [(r".*\.map", mp)]


def grid(w, h, els):
    return mk_rec(mk("obj", "TwoDStorage"), {"width_": K(w), "height_": K(h), "storage_": mk_rec(mk("obj", "vec"), {"#n": K(w * h), "#d": mk_arr(mk("obj", "cells"), dict(enumerate(els)), ())})})


def planes(ev, tag, mw, mh, init):
    """raster of concrete size behind ("raster "+tag): address"""
    d = {}
    for p in PB:
        w, h = (16 * mw, 16 * mh) if p == "Y" else (8 * mw, 8 * mh)
        root = (tag + p,)
        ev.env[root] = grid(w, h, [atom("in", "%s%s[%d]" % (tag, p, i), lo=0, hi=255) if init else K(0) for i in range(w * h)])
        d[p + "_"] = mk_rec(mk("obj", "TwoD"), {"storage_": mk("addr", root, ())})
    d.update({"width_": K(16 * mw), "height_": K(16 * mh), "display_width_": K(16 * mw - 9), "display_height_": K(16 * mh - 15)})
    ev.env[("raster " + tag,)] = mk_rec(mk("obj", "HashCachedRaster"), d)
    return mk("addr", ("raster " + tag,), ())


def build(ev, t, seg, filt):
    over = segover(3, 2, "map")
    over += [(r".*\.references_", lambda ev, t, n: refs(ev)), (r"References", lambda ev, t, n: refs(ev)), (r"bool", lambda ev, t, n: atom("in", n, lo=0, hi=1))]
    v = sym(ev, t, "s", over)

    def fix(v, t):
        if t == "Decoder":
            d = dict(v.args[1])
            d["state_"] = fix(d["state_"], "DecoderState")
            return mk_rec(v.args[0], d)
        if t != "DecoderState":
            return v
        d = dict(v.args[1])
        for k, on in (("segmentation", seg), ("filter_adjustments", filt)):
            o = dict(d[k].args[1])
            o["initialized_"] = K(int(on))
            d[k] = mk_rec(d[k].args[0], o)
        return mk_rec(v.args[0], d)
    return fix(v, t)


def refs(ev):
    h = handle(planes(ev, "px", 2, 1, True))
    return mk_rec(mk("obj", "References"), {k: h for k in ("last", "golden", "alternative")})


class Files:
    """the serializer's bytes are the deserializer's file"""

    def __init__(self, ev):
        self.made = 0
        ev.ihook = self.ihook

    def ihook(self, ev, g, this, binds, e):
        c = g.get("cls") or ""
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        if c == "File" and g["q"].endswith("operator()") or c == "File" and g["q"].endswith("::chunk"):
            n = field(ev.load(mk("addr", ("file",), ())), "#n")
            whole = mk_rec(mk("obj", "Chunk"), {"buffer_": mk("addr", ("file",), (("f", "#d"), ("i", K(0)))), "size_": n})
            if g["q"].endswith("::chunk"):
                r = ev.newroot("tmp")
                ev.env[r] = whole
                return mk("addr", r, ())
            off, ln = val(binds[0]), val(binds[1])
            ok = c_and(lt(off, add(n, K(1))), lt(ln, add(sub(n, off), K(1))))
            if feasible(c_and(ev.guard(), c_not(ok))):
                ev.live = c_and(ev.live, ok)
            return mk_rec(mk("obj", "Chunk"), {"buffer_": mk("addr", ("file",), (("f", "#d"), ("i", off))), "size_": ln})
        if g["kind"] == "ctor" and c.startswith("VP8MutableRasterHandle<") and len(binds) >= 2:
            w, h = val(binds[0]), val(binds[1])
            if w.op != "k" or h.op != "k":
                raise Unsupported("raster of unknown size")
            mw, mh = (w.args[0] + 15) // 16, (h.args[0] + 15) // 16
            self.made += 1
            a = planes(ev, "new%d" % self.made, mw, mh, False)
            d = dict(ev.load(a).args[1])
            d["display_width_"], d["display_height_"] = w, h
            ev.store(a, mk_rec(mk("obj", "HashCachedRaster"), d))
            ev.store(this, mk_rec(mk("obj", "MutableRasterHandle"), {"raster_": a}))
            return mk("void")
        if g["kind"] == "ctor" and c.startswith("VP8RasterHandle<") and len(binds) == 1 and "Mutable" in g["ps"][0]["t"]:
            ev.store(this, handle(field(val(binds[0]), "raster_")))
            return mk("void")
        return NotImplemented


def roundtrip(run, name, T, ser, des, seg, filt):
    P = run.prog
    ev = Ev(P, gate=20)
    Files(ev)
    src = build(ev, T, seg, filt)
    ev.env[("this",)] = src
    empty = mk_rec(mk("obj", "vec"), {"#n": K(0), "#d": mk("empty")})
    ev.env[("arg", 0)] = mk_rec(mk("obj", "EncoderStateSerializer"), {"data_": empty})
    s = summarize(ev, ser)
    data = field(s.env[("arg", 0)], "data_")
    out = []
    n = leafcmp(b2v(s.live), K(1), "serialization defined", TRUE, out)
    size = field(data, "#n")
    if size.op != "k":
        raise Unsupported("number of bytes written %s" % show(size)[:100])
    n += leafcmp(s.retv, size, "returned length against bytes written", s.live, out)
    ev2 = Ev(P, gate=20)
    ev2.env.update({k: v for k, v in s.env.items() if k and isinstance(k[0], str) and (k[0].startswith(("raster ", "px")) or k == ("map",))})
    Files(ev2)
    ev2.env[("file",)] = data
    ev2.env[("arg", 0)] = mk_rec(mk("obj", "EncoderStateDeserializer"), {"ptr_": K(0)})
    s2 = summarize(ev2, des)
    n += leafcmp(b2v(s2.live), K(1), "serialized state accepted", s.live, out)
    n += leafcmp(field(s2.env[("arg", 0)], "ptr_"), size, "bytes consumed", s2.live, out)
    if s2.live is not FALSE:
        n += same(ev2, s.env, src, s2.env, s2.retv, T, "", s2.live, out)
    run.count("bytes", size.args[0])
    run.count("values_compared", n)
    verdict(run, name, des, out, n)


def deref(env, v):
    """storage record behind a TwoD / raster handle value"""
    if v.op == "addr" and not v.args[1]:
        return env[v.args[0]]
    raise Unsupported("storage %s" % show(v)[:80])


def same(ev, ea, a, eb, b, t, path, pre, out):
    """semantic equality of two decoder state values: containers by contents, rasters by pixels"""
    t = strip(t)
    n = 0
    if re.match(r"TwoD<", t):
        a, b = deref(ea, field(a, "storage_")), deref(eb, field(b, "storage_"))
        for k in ("width_", "height_"):
            n += leafcmp(field(b, k), field(a, k), path + "." + k, pre, out)
        va, vb = field(a, "storage_"), field(b, "storage_")
        for i in range(field(va, "#n").args[0]):
            n += leafcmp(elem(field(vb, "#d"), K(i), 0, 255), elem(field(va, "#d"), K(i), 0, 255), "%s[%d]" % (path, i), pre, out)
        return n
    if t.startswith("VP8RasterHandle<"):
        a, b = deref(ea, field(a, "raster_")), deref(eb, field(b, "raster_"))
        for k in ("display_width_", "display_height_"):
            n += leafcmp(field(b, k), field(a, k), path + "." + k, pre, out)
        for p in PB:
            n += same(ev, ea, field(a, p + "_"), eb, field(b, p + "_"), "TwoD<uint8_t>", path + " plane " + p, pre, out)
        return n
    m = re.match(r"Optional<(.*)>$", t)
    if m:
        ia, ib = field(a, "initialized_", None, 0, 1), field(b, "initialized_", None, 0, 1)
        n += leafcmp(tobv(ib), tobv(ia), path + " (present)", pre, out)
        p2 = c_and(pre, c_and(tobool(ia), tobool(ib)))
        return n + (same(ev, ea, field(a, "object_"), eb, field(b, "object_"), m.group(1), path, p2, out) if feasible(p2) else 0)
    if t in ("Decoder", "DecoderState", "References", "Segmentation"):
        for f in ev.rec(t)["fields"]:
            if f["n"] == "error_concealment_":
                continue
            n += same(ev, ea, field(a, f["n"]), eb, field(b, f["n"]), f["t"], path + "." + f["n"], pre, out)
        return n
    return n + compare(ev, b, a, t, path, pre, out)


# ------------------------------------------------------------------ equality and hash
EQ = ["DecoderState", "ProbabilityTables", "FilterAdjustments", "Segmentation", "References", "Decoder", "DecoderHash", "KeyFrameHeader", "InterFrameHeader",
      "QuantIndices", "ModeRefLFDeltaUpdate", "SegmentFeatureData", "UpdateSegmentation", "MotionVector", "DCTCoefficients", "TokenProbUpdate", "MVProbUpdate"]
# error_concealment_ is an option of the decoder, not part of its state
SKIP = {("Decoder", "error_concealment_")} | {("BaseRaster", k) for k in ("width_", "height_", "display_width_", "display_height_")}


def eqhook(self_f):
    def ih(ev, g, this, binds, e):
        if g["q"].endswith("operator==") and g["f"] != self_f["f"] and this is not None and len(binds) == 1:
            x, y = ev.load(this), (ev.load(binds[0]) if not isinstance(binds[0], tuple) else binds[0][1])
            return eqv(x, y)
        return NotImplemented
    return ih


def eqv(x, y):
    if x is y:
        return K(1)
    a, b = sorted((x, y), key=lambda z: z.id)
    return atom("h", "equal", a, b, lo=0, hi=1)


def equality(run, name, T, f):
    P = run.prog
    ev0 = Ev(P, gate=20)
    r = ev0.rec(T)
    fl = []
    for b in r["bases"]:
        rb = ev0.rec(b["t"])
        fl += rb["fields"] if rb and not b["t"].startswith("Optional") else []
    fl += r["fields"]
    over = [(r"s2?\.\w+", lambda ev, t, n: None if strip(t) in W or ev.isenum(strip(t)) else mk("in", n))]
    a = sym(ev0, T, "s", over)
    if a.op != "rec":
        raise Unsupported("value of type " + T)
    b2 = sym(ev0, T, "s2", over)
    da, db = dict(a.args[1]), dict(b2.args[1])
    out, n = [], 0

    def run1(y):
        ev = Ev(P, gate=20)
        ev.ihook = eqhook(f)
        ev.env[("this",)] = a
        ev.env[("arg", 0)] = y
        return summarize(ev, f)
    s = run1(a)
    n += leafcmp(tobv(s.retv), K(1), "comparison of equal values", TRUE, out)
    for k in da:
        if (T, k) in SKIP or da[k] is db.get(k):
            continue
        s = run1(mk_rec(a.args[0], dict(da, **{k: db[k]})))
        n += 1
        v = tobv(s.retv)
        if v is K(1):
            out.append(("comparison of values differing in member %s" % k, v, mk("in", "unequal"), {"a": "equal", "b": "unequal"}))
        elif v.op == "k":
            out.append(("comparison of values with possibly equal %s" % k, v, mk("in", "equal"), {}))
        elif da[k].op == "in" and da[k].lo > -INF:
            n += leafcmp(v, b2v(eq(da[k], db[k])), "comparison of values differing in member %s" % k, s.live, out)
    run.count("members_compared", len(da))
    verdict(run, name, f, out, n)


def elems_of(ev, T_, nm):
    """value of a container type whose elements are distinct inputs, with the list of those elements and their type"""
    def one(t, n):
        t = strip(t)
        if t in W or ev.isenum(t):
            return sym(ev, t, n, ())
        r = ev.rec(t)
        m = re.match(r"SafeArray<(.*), (\d+)>$", t)
        if m and (ev.tsize(t) or 999) <= 64:
            return mk_rec(mk("obj", t), {"storage_": mk_arr(mk("obj", n), {i: one(m.group(1), "%s[%d]" % (n, i)) for i in range(int(m.group(2)))}, ())})
        if r and re.match(r"(Unsigned|Signed|Boolean)\b", t) or t in ("Boolean",):
            return sym(ev, t, n, ())
        return mk("in", n)
    m = re.match(r"Optional<(.*)>$", T_)
    if m:
        i, o = atom("in", nm + " present", lo=0, hi=1), one(m.group(1), nm + " value")
        return mk_rec(mk("obj", T_), {"initialized_": i, "object_": o}), [o], m.group(1), i
    m = re.match(r"Array<(.*), (\d+)>$", T_)
    if m:
        n = int(m.group(2))
        es = [one(m.group(1), "%s[%d]" % (nm, i)) for i in range(n)]
        return mk_rec(mk("obj", T_), {"storage_": mk_rec(mk("obj", "vec"), {"#n": K(n), "#d": mk_arr(mk("obj", nm), dict(enumerate(es)), ())})}), es, m.group(1), None
    m = re.match(r"SafeArray<(.*), (\d+)>$", T_)
    if m:
        n = int(m.group(2))
        es = [one(m.group(1), "%s[%d]" % (nm, i)) for i in range(n)]
        return mk_rec(mk("obj", T_), {"storage_": mk_arr(mk("obj", nm), dict(enumerate(es)), ())}), es, m.group(1), None
    raise Unsupported("container " + T_)


def eqterm(ev, a, b, t):
    t = strip(t)
    if t in W or ev.isenum(t):
        return eq(a, b)
    m = re.match(r"SafeArray<(.*), (\d+)>$", t)
    if m and a.op == "in":
        return eq(a, b)
    if m:
        c = TRUE
        for i in range(int(m.group(2))):
            c = c_and(c, eqterm(ev, elem(field(a, "storage_"), K(i), 0, 255), elem(field(b, "storage_"), K(i), 0, 255), m.group(1)))
        return c
    if a.op == "rec":
        c = TRUE
        for f in ev.rec(t)["fields"]:
            c = c_and(c, eqterm(ev, field(a, f["n"]), field(b, f["n"]), f["t"]))
        return c
    return tobool(eqv(a, b))


def container_eq(run, name, T_, f):
    """operator== of an optional or array: all elements, and presence"""
    ev = Ev(run.prog, gate=20, unroll=2000)
    a, ea, et, ia = elems_of(ev, T_, "a")
    b, eb, _, ib = elems_of(ev, T_, "b")
    c = TRUE
    for x, y in zip(ea, eb):
        c = c_and(c, eqterm(ev, x, y, et))
    if ia is not None:
        c = c_or(c_and(c_not(tobool(ia)), c_not(tobool(ib))), c_and(c_and(tobool(ia), tobool(ib)), c))

    def ih(ev, g, this, binds, e):
        if g["q"].endswith("operator==") and g["f"] != f["f"] and this is not None and len(binds) == 1:
            x, y = ev.load(this), (ev.load(binds[0]) if not isinstance(binds[0], tuple) else binds[0][1])
            if x.op == "in" and y.op == "in":
                return eqv(x, y)
        return NotImplemented
    ev.ihook = ih
    ev.env[("this",)] = a
    ev.env[("arg", 0)] = b
    s = summarize(ev, f)
    out = []
    n = leafcmp(tobv(s.retv), b2v(c), "comparison", s.live, out)
    run.count("members_compared", len(ea))
    verdict(run, name, f, out, n)


def planes_eq(run, name, T_, f, w, h, w2, h2):
    """operator== of a plane: dimensions and every pixel"""
    ev = Ev(run.prog, gate=20, unroll=2000)
    v = []
    for k, (p, ww, hh) in enumerate((("a", w, h), ("b", w2, h2))):
        px = {i: atom("in", "%s[%d]" % (p, i), lo=0, hi=255) for i in range(ww * hh)}
        st = mk_rec(mk("obj", "TwoDStorage<unsigned char>"), {"width_": K(ww), "height_": K(hh), "storage_": mk_rec(mk("obj", "vec"), {"#n": K(ww * hh), "#d": mk_arr(mk("obj", p), px, ())})})
        v.append((px, st))
        if T_.startswith("TwoD<"):
            ev.env[("st", p)] = st
            st = mk_rec(mk("obj", T_), {"storage_": mk("addr", ("st", p), ())})
        ev.env[[("this",), ("arg", 0)][k]] = st
    c = TRUE
    if (w, h) != (w2, h2):
        c = FALSE
    else:
        for i in range(w * h):
            c = c_and(c, eq(v[0][0][i], v[1][0][i]))
    s = summarize(ev, f)
    out = []
    n = leafcmp(tobv(s.retv), b2v(c), "comparison of a %dx%d and a %dx%d plane" % (w, h, w2, h2), s.live, out)
    run.count("members_compared", w * h)
    verdict(run, name, f, out, n)


def inequality(run, name, T_, f):
    """operator!= is the negation of operator=="""
    ev = Ev(run.prog, gate=20)
    a, b = mk("in", "a"), mk("in", "b")
    ev.env[("this",)], ev.env[("arg", 0)] = a, b

    def ih(ev, g, this, binds, e):
        if g["q"].endswith("operator==") and this is not None and len(binds) == 1:
            x, y = ev.load(this), (ev.load(binds[0]) if not isinstance(binds[0], tuple) else binds[0][1])
            return eqv(x, y)
        return NotImplemented
    ev.ihook = ih
    s = summarize(ev, f)
    w = sub(K(1), eqv(a, b))
    if opaque_ops(s.retv) or not contains(s.retv, eqv(a, b)):
        # written out rather than by way of operator==
        raise Unsupported("inequality not expressed through equality")
    out = []
    n = leafcmp(tobv(s.retv), w, "inequality", s.live, out)
    verdict(run, name, f, out, n)


def contains(t, x):
    seen, todo = set(), [t]
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            todo += list(y.args)
        elif isinstance(y, tuple):
            todo += list(y)
    return False


def leaves(t, acc, seen, env):
    """inputs a value is made of, through the storage it refers to"""
    if isinstance(t, tuple):
        for x in t:
            leaves(x, acc, seen, env)
    elif isinstance(t, T) and t.id not in seen:
        seen.add(t.id)
        if t.op == "in":
            acc.add(t)
        if t.op == "addr" and not t.args[1] and t.args[0] in env and t.args[0] != ("this",):
            leaves(env[t.args[0]], acc, seen, env)
        for x in t.args:
            leaves(x, acc, seen, env)


def hashing(run, name, T_, f):
    P = run.prog
    ev = Ev(P, gate=20)
    bad = []

    def combine(ev, e):
        s = ev.lvl(e["a"][0])
        ev.store(s, atom("h", "combine", ev.load(s), ev.rv(e["a"][1])))
        return mk("void")

    def rng(ev, e):
        s = ev.lvl(e["a"][0])
        b, en = ev.rv(e["a"][1]), ev.rv(e["a"][2])
        ab, ob = ev.split(b)
        ae, oe = ev.split(en)
        if ab is None or ae is None:
            raise Unsupported("hashed range")
        if ab is not ae:
            bad.append((e, ab, ae))
            return mk("void")
        if ob.op != "k" or oe.op != "k":
            raise Unsupported("hashed range bounds")
        v = ev.load(ab)
        for i in range(ob.args[0], oe.args[0]):
            ev.store(s, atom("h", "combine", ev.load(s), elem(v, K(i), -INF, INF)))
        return mk("void")
    ev.hooks["boost::hash_combine"] = combine
    ev.hooks["boost::hash_range"] = rng

    def ih(ev, g, this, binds, e):
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        if (g["q"].endswith("::hash") or g["q"].endswith("::raw_hash")) and this is not None and g["f"] != f["f"] and not binds:
            return atom("h", "hash", val(this), lo=0, hi=(1 << 64) - 1)
        return NotImplemented
    ev.ihook = ih
    over = segover(3, 2, "map")
    for p in PB:
        over += [(x, y) for x, y in segover(3, 2, p)]
        over[-1] = (r".*\.%s_" % p, over[-1][1])
    over += [(r".*references_\.\w+", lambda ev, t, n: mk_rec(mk("obj", t), {"raster_": mk("in", n)}))]
    src = sym(ev, T_, "s", over)
    if T_ == "Decoder":
        src = mk_rec(src.args[0], {k: v for k, v in src.args[1] if (T_, k) not in SKIP})
    if T_ == "DecoderState":
        d = dict(src.args[1])
        for k in ("segmentation", "filter_adjustments"):
            o = dict(d[k].args[1])
            o["initialized_"] = K(1)
            d[k] = mk_rec(d[k].args[0], o)
        src = mk_rec(src.args[0], d)
    ev.env[("this",)] = src
    s = summarize(ev, f)
    for e, ab, ae in bad[:1]:
        run.bad(name, loc(f), "a hashed range begins in %s and ends in %s" % (show(ab)[:80], show(ae)[:80]))
    if bad:
        return
    want, got = set(), set()
    leaves(src, want, set(), s.env)
    leaves(s.retv, got, set(), s.env)
    if T_ == "BaseRaster":  # the pixels identify a raster; its dimensions are the stream's
        want = {x for x in want if "[" in str(x.args[0])}
    miss = sorted(x.args[0] for x in want - got)
    if opaque_ops(s.retv):
        raise Unsupported("hash computed by %s" % sorted(map(str, opaque_ops(s.retv)))[:3])
    run.count("hashed_members", len(want))
    if miss:
        run.bad(name, loc(f), "the hash does not depend on %s" % ", ".join(miss[:5]))
    else:
        run.ok(name, loc(f), "", len(want))


def check_serial(run):
    P = run.prog
    for T_ in ("ProbabilityTables", "FilterAdjustments", "Segmentation", "DecoderState", "References", "Decoder"):
        ser = [f for f in fns(P) if f.get("cls") == T_ and f["q"].endswith("::serialize") and len(f["ps"]) == 1]
        des = [f for f in fns(P) if f.get("cls") == T_ and f["q"].endswith("::deserialize") and len(f["ps"]) == 1]
        if len(ser) != 1 or len(des) != 1:
            run.undecided(T_, "", "serializer not found")
            continue
        for seg, filt in ([(a, b) for a in (0, 1) for b in (0, 1)] if T_ == "DecoderState" else [(1, 1)]):
            nm = T_ + (", segmentation %s, filter adjustments %s" % ("present" if seg else "absent", "present" if filt else "absent") if T_ == "DecoderState" else "")
            run.attempt(nm, roundtrip, run, nm, T_, ser[0], des[0], seg, filt)
    run.floor("bytes", 1000)


def check_identity(run):
    P = run.prog
    for T_ in EQ:
        for f in fns(P):
            if f.get("cls") == T_ and f["q"] == T_ + "::operator==":
                run.attempt("equality of " + T_, equality, run, "equality of " + T_, T_, f)
    seen = set()
    for f in sorted(fns(P), key=lambda f: f["q"]):
        c = f.get("cls") or ""
        if not f.get("body") or len(f["ps"]) != 1 or f["f"] in seen:
            continue
        seen.add(f["f"])
        if f["q"] == c + "::operator==":
            nm = "equality of " + c
            if re.match(r"(Optional|Array|SafeArray)<", c):
                run.attempt(nm, container_eq, run, nm, c, f)
            elif c in ("TwoDStorage<unsigned char>", "TwoD<unsigned char>"):
                for d in ((3, 2, 3, 2), (3, 2, 2, 3), (2, 3, 2, 2)):
                    run.attempt(nm, planes_eq, run, nm + " (%dx%d, %dx%d)" % d, c, f, *d)
            elif c == "BaseRaster":
                run.attempt(nm, equality, run, nm, c, f)
        elif f["q"] == c + "::operator!=":
            nm = "inequality of " + c
            run.attempt(nm, inequality, run, nm, c, f)
    for f in fns(P):
        if f["q"] in ("ProbabilityTables::hash", "FilterAdjustments::hash", "Segmentation::hash", "DecoderState::hash", "DecoderHash::hash", "BaseRaster::raw_hash", "Decoder::get_hash"):
            nm = "hash of " + f["cls"]
            run.attempt(nm, hashing, run, nm, f["cls"], f)
    run.floor("members_compared", 30)
