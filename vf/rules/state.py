"""Persistent decoder state: what each frame does to references, probabilities, segmentation
and filter adjustments, and how decoding a frame is put together."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.headers import OVER

REFS = ("last", "golden", "alternative")


def verdict(run, name, f, out, n):
    if out:
        for path, a, b, d in out[:3]:
            run.bad(name, loc(f), "%s is %s, the format says %s (for example %s / %s)" % (path, show(a)[:160], show(b)[:160], str(d.get("a"))[:60], str(d.get("b"))[:60]))
    else:
        run.ok(name, loc(f), "", n)


def handle(v):
    return mk_rec(mk("obj", "RasterHandle"), {"raster_": v})


def refs_record(names=REFS):
    return mk_rec(mk("obj", "References"), {r: handle(mk("in", "frame " + r)) for r in names})


# ------------------------------------------------------------------ reference buffers
def references(run, name, f, sp, inter):
    ev = Ev(run.prog, gate=20)
    fr = sym(ev, f["cls"], "f", [(r"f\.(Y2_|Y_|U_|V_|macroblock_headers_)", lambda ev, t, n: mk("in", n))] + OVER)
    ev.env[("this",)] = fr
    ev.env[("arg", 0)] = handle(mk("in", "frame new"))
    ev.env[("arg", 1)] = refs_record()
    s = summarize(ev, f)
    out = []
    n = leafcmp(b2v(s.live), K(1), "update defined", TRUE, out)
    got = s.env[("arg", 1)]
    if inter:
        e2 = Ev(run.prog, extra=sp, gate=20)
        e2.env[("arg", 0)] = field(fr, "header_")
        s2 = summarize(e2, fns_named(sp, "spec::references")[0])
        want = [s2.env[("arg", i)] for i in (1, 2, 3)]
    else:
        want = [K(3)] * 3
    val = {mk("in", "frame " + r): K(i) for i, r in enumerate(REFS + ("new",))}

    def number(v):
        if v in val:
            return val[v]
        if v.op in ("c", "br"):
            return liftn(lambda z: number(z) if z.op not in ("c", "br") else z, [v])
        raise Unsupported("raster handle %s" % show(v)[:100])
    for r, w in zip(REFS, want):
        n += leafcmp(number(field(field(got, r), "raster_")), w, "frame held by %s" % r, s.live, out)
    verdict(run, name, f, out, n)


def refs_at(run, name, f):
    out, n = [], 0
    for code, r in ((1, "last"), (2, "golden"), (3, "alternative")):
        ev = Ev(run.prog, gate=20)
        for x in REFS:
            ev.env[("raster " + x,)] = mk("in", "pixels of " + x)
        ev.env[("this",)] = mk_rec(mk("obj", "References"), {x: handle(mk("addr", ("raster " + x,), ())) for x in REFS})
        ev.env[("argv", 0)] = K(code)
        s = summarize(ev, f)
        n += 1
        v = s.retv
        want = mk("addr", ("raster " + r,), ())
        if s.live is not TRUE or v is not want and v is not ev.load(want):
            out.append(("reference %d" % code, v, want, {}))
    verdict(run, name, f, out, n)


# ------------------------------------------------------------------ header -> state
def sarr(v):
    (fl, a), = v.args[1]
    return field(a, "#d") if a.op == "rec" else a


def state_record(ev, seg, filt):
    st = sym(ev, "DecoderState", "s", [(r"s\.segmentation.*\.map", lambda ev, t, n: mk("in", "old map"))])
    d = dict(st.args[1])
    for k, on in (("segmentation", seg), ("filter_adjustments", filt)):
        o = dict(d[k].args[1])
        o["initialized_"] = K(int(on))
        d[k] = mk_rec(d[k].args[0], o)
    return mk_rec(st.args[0], d)


class Parse:
    """models of the parts of parse_and_apply that other properties decide"""

    def __init__(self, ev, FT, HT):
        self.ev, self.FT = ev, FT
        self.header = sym(ev, HT, "h", OVER)
        self.calls = []

    def ihook(self, ev, g, this, binds, e):
        n = g["q"].rsplit("::", 1)[-1]
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        if g["kind"] == "ctor" and g.get("cls") == "BoolDecoder":
            ev.store(this, mk("obj", "decoder"))
            return mk("void")
        if g["kind"] == "ctor" and g.get("cls") == self.FT and len(binds) == 4:
            ev.store(this, mk_rec(mk("obj", self.FT), {"header_": self.header, "show_": val(binds[0]), "display_width_": val(binds[1]), "display_height_": val(binds[2])}))
            self.calls.append(("frame", ev.guard(), [val(b) for b in binds[:3]]))
            return mk("void")
        if n in ("parse_macroblock_headers", "update_segmentation", "parse_tokens") and g.get("cls") == self.FT:
            self.calls.append((n, ev.guard(), [val(b) for b in binds]))
            if n == "update_segmentation":
                ev.store(binds[0], atom("h", "map after the frame", ev.load(binds[0])))
            return mk("void")
        if n == "dct_partitions":
            return mk("in", "partitions")
        if n == "dct_partition_count":
            return atom("in", "count", lo=1, hi=8)
        return NotImplemented


def spec_call(run, sp, q, args):
    ev = Ev(run.prog, extra=sp, gate=20)
    f = fns_named(sp, q)[0]
    outs = []
    for i, (p, a) in enumerate(zip(f["ps"], args)):
        if p.get("ref"):
            if a is not None:
                ev.env[("arg", i)] = a
            elif strip(p["t"]) in W:
                ev.env[("arg", i)] = K(0)
        elif p["t"].rstrip().endswith("*"):
            ev.env[("m", i)] = a if a is not None else mk_arr(mk("obj", "o"), {j: K(0) for j in range(4)}, ())
            ev.env[("argv", i)] = mk("addr", ("m", i), (("i", K(0)),))
        else:
            ev.env[("argv", i)] = a
    s = summarize(ev, f)
    return [s.env.get(("arg", i)) if f["ps"][i].get("ref") else s.env.get(("m", i)) for i, a in enumerate(args) if a is None]


def apply(run, name, f, sp, FT, HT, seg, filt):
    P = run.prog
    ev = Ev(P, gate=20)
    pa = Parse(ev, FT, HT)
    ev.ihook = pa.ihook
    key = HT.startswith("Key")
    st = state_record(ev, seg, filt)
    ev.env[("this",)] = st
    uc = sym(ev, "UncompressedChunk", "u")
    d = dict(uc.args[1])
    d["key_frame_"], d["experimental_"] = K(int(key)), K(0)
    ev.env[("arg", 0)] = mk_rec(uc.args[0], d)
    s = summarize(ev, f)
    got = s.env[("this",)]
    out = []
    n = leafcmp(b2v(s.live), K(1), "frame accepted", TRUE, out)
    h = pa.header
    k = "key" if key else "inter"
    if key:
        e3 = Ev(P, gate=20)
        dflt = [g for g in fns(P) if g["kind"] == "ctor" and g.get("cls") == "ProbabilityTables" and not g["ps"]]
        dflt = summarize(e3, dflt[0]).env[("this",)]
        if any(f2["n"] not in dict(dflt.args[1]) for f2 in ev.rec("ProbabilityTables")["fields"]):
            raise Unsupported("default probabilities")
    old = dflt if key else field(st, "probability_tables")
    frame, kept = spec_call(run, sp, "spec::%s_probabilities" % k, [old, h, None, None])
    n += compare(ev, field(got, "probability_tables"), kept, "ProbabilityTables", "saved probabilities", s.live, out)
    sg, fa = field(field(st, "segmentation"), "object_"), field(field(st, "filter_adjustments"), "object_")
    ga, gs = field(got, "filter_adjustments"), field(got, "segmentation")
    with_f, with_s = K(int(filt and not key)), K(int(seg and not key))
    en, nr, nm = spec_call(run, sp, "spec::%s_filter" % k, [with_f, sarr(field(fa, "loopfilter_ref_adjustments")), sarr(field(fa, "loopfilter_mode_adjustments")), h, None, None, None])
    gi = field(ga, "initialized_", None, 0, 1)
    n += leafcmp(tobv(gi), en, "filter adjustments enabled", s.live, out)
    pre = c_and(s.live, tobool(en))
    for fl, w in (("loopfilter_ref_adjustments", nr), ("loopfilter_mode_adjustments", nm)):
        if feasible(pre):
            g = field(field(ga, "object_"), fl)
            for i in range(4):
                n += leafcmp(elem(sarrv(g), K(i), -128, 127), elem(w, K(i), -128, 127), "%s[%d]" % (fl, i), pre, out)
    en, nabs, nq, nf = spec_call(run, sp, "spec::%s_segments" % k, [with_s, field(sg, "absolute_segment_adjustments"), sarr(field(sg, "segment_quantizer_adjustments")), sarr(field(sg, "segment_filter_adjustments")), h, None, None, None, None])
    gi = field(gs, "initialized_", None, 0, 1)
    n += leafcmp(tobv(gi), en, "segmentation enabled", s.live, out)
    pre = c_and(s.live, tobool(en))
    go = field(gs, "object_")
    n += leafcmp(tobv(field(go, "absolute_segment_adjustments", None, 0, 1)), nabs, "absolute segment adjustments", pre, out)
    for fl, w in (("segment_quantizer_adjustments", nq), ("segment_filter_adjustments", nf)):
        g = field(go, fl)
        for i in range(4):
            n += leafcmp(elem(sarrv(g), K(i), -128, 127), elem(w, K(i), -128, 127), "%s[%d]" % (fl, i), pre, out)
    if seg and not key:
        m = field(go, "map")
        n += leafcmp(m, atom("h", "map after the frame", mk("in", "old map")), "segment map", pre, out)
    n += leafcmp(field(got, "width"), field(st, "width"), "width", s.live, out)
    n += leafcmp(field(got, "height"), field(st, "height"), "height", s.live, out)
    names = [c[0] for c in pa.calls]
    want = ["frame", "parse_macroblock_headers", "update_segmentation", "parse_tokens"]
    if sorted(names) != sorted(want):
        raise Unsupported("parsing steps %s" % names)
    pos = {x: names.index(x) for x in want}
    if not pos["frame"] < pos["parse_macroblock_headers"] < min(pos["update_segmentation"], pos["parse_tokens"]):
        out.append(("order of the parsing steps", mk("in", ",".join(names)), mk("in", ",".join(want)), {}))
    for c, g, a in pa.calls:
        n += leafcmp(b2v(g), en if c == "update_segmentation" else K(1), "condition of " + c, s.live, out)
        if c in ("parse_macroblock_headers", "parse_tokens"):
            n += compare(ev, a[1], frame, "ProbabilityTables", "probabilities used by " + c, s.live, out)
        if c == "frame":
            n += leafcmp(tobv(a[0]), tobv(field(ev.env[("arg", 0)], "show_frame_", None, 0, 1)), "shown flag", s.live, out)
            n += leafcmp(a[1], field(st, "width"), "frame width", s.live, out)
            n += leafcmp(a[2], field(st, "height"), "frame height", s.live, out)
    run.count("state_fields_compared", n)
    verdict(run, name, f, out, n)


def sarrv(v):
    if v.op == "rec":
        (fl, a), = v.args[1]
        return sarrv2(a)
    return liftn(lambda z: sarrv(z) if z.op == "rec" else mk("in", "?"), [v])


def sarrv2(a):
    return field(a, "#d") if a.op == "rec" and "#d" in dict(a.args[1]) else a


def tobv(x):
    return b2v(tobool(x))


def map_update(run, name, f):
    """the persistent map takes the macroblock's segment when the frame codes one; the macroblock uses the map"""
    ev = Ev(run.prog, gate=20)
    cls = f["cls"]
    m = sym(ev, cls, "m")
    d = dict(m.args[1])
    c, r, w = atom("in", "column", lo=0, hi=1000), atom("in", "row", lo=0, hi=1000), atom("in", "map width", lo=1001, hi=16383)
    ctx = dict(d["context_"].args[1])
    ctx["column"], ctx["row"] = c, r
    d["context_"] = mk_rec(d["context_"].args[0], ctx)
    ev.env[("this",)] = mk_rec(m.args[0], d)
    sm = mk("obj", "map cells")
    ev.env[("map",)] = mk_rec(mk("obj", "TwoDStorage"), {"width_": w, "height_": atom("in", "map height", lo=1001, hi=16383), "storage_": mk_rec(mk("obj", "vec"), {"#n": atom("in", "cells", lo=1, hi=1 << 28), "#d": sm})})
    ev.env[("arg", 0)] = mk_rec(mk("obj", "TwoD"), {"storage_": mk("addr", ("map",), ())})
    s = summarize(ev, f)
    upd = d["segment_id_update_"]
    u = field(upd, "initialized_", None, 0, 1)
    v = field(upd, "object_")
    while v.op == "rec" and len(v.args[1]) == 1:
        v = v.args[1][0][1]
    cell = add(c, mul(r, w))
    old = elem(sm, cell, 0, 255)
    new = ite(tobool(u), v, old)
    out = []
    n = leafcmp(b2v(s.live), K(1), "update defined", TRUE, out)
    after = field(field(s.env[("map",)], "storage_"), "#d")
    n += leafcmp(elem(after, cell, 0, 255), new, "map cell", s.live, out)
    n += leafcmp(field(s.env[("this",)], "segment_id_", None, 0, 255), new, "segment of the macroblock", s.live, out)
    other = atom("in", "another cell", lo=0, hi=1 << 28)
    n += leafcmp(elem(after, other, 0, 255), elem(sm, other, 0, 255), "other map cells", c_and(s.live, c_not(eq(other, cell))), out)
    verdict(run, name, f, out, n)


# ------------------------------------------------------------------ decoding a frame
def decode(run, name, f, FT):
    ev = Ev(run.prog, gate=20)
    seen = []
    val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]

    def ih(ev, g, this, binds, e):
        n = g["q"].rsplit("::", 1)[-1]
        if g["kind"] == "ctor" and (g.get("cls") or "").startswith("VP8MutableRasterHandle<") and len(binds) >= 2:
            ev.store(this, mk_rec(mk("obj", "MutableRasterHandle"), {"raster_": mk("addr", ("raster",), ())}))
            seen.append(("new", ev.guard(), [val(b) for b in binds[:2]], None))
            return mk("void")
        if g["kind"] == "ctor" and (g.get("cls") or "").startswith("VP8RasterHandle<") and len(binds) == 1 and "Mutable" in g["ps"][0]["t"]:
            ev.store(this, handle(field(val(binds[0]), "raster_")))
            return mk("void")
        if (g.get("cls") or "") == FT and n in ("decode", "loopfilter", "copy_to"):
            seen.append((n, ev.guard(), [val(b) for b in binds], binds))
            if n in ("decode", "loopfilter"):
                ev.store(binds[2], atom("h", n, ev.load(binds[2])))
            else:
                ev.store(binds[1], mk("in", "references after"))
            return mk("void")
        return NotImplemented
    ev.ihook = ih
    ev.env[("raster",)] = mk("in", "blank")
    dec = sym(ev, "Decoder", "d", [(r"d\.state_\.segmentation.*\.map", lambda ev, t, n: mk("in", "map"))])
    d = dict(dec.args[1])
    d["references_"] = refs_record()
    ev.env[("this",)] = dec = mk_rec(dec.args[0], d)
    fr = sym(ev, FT, "f", [(r"f\.(Y2_|Y_|U_|V_|macroblock_headers_|header_)", lambda ev, t, n: mk("in", n))])
    ev.env[("arg", 0)] = fr
    s = summarize(ev, f)
    out = []
    n = leafcmp(b2v(s.live), K(1), "decoding defined", TRUE, out)
    names = [x[0] for x in seen]
    if sorted(names) != ["copy_to", "decode", "loopfilter", "new"]:
        raise Unsupported("decoding steps %s" % names)
    by = {x[0]: x for x in seen}
    for nm, g, a, b in seen:
        n += leafcmp(b2v(g), K(1), nm + " always happens", TRUE, out)
    if not names.index("new") < names.index("decode") < names.index("loopfilter"):
        out.append(("order of the decoding steps", mk("in", ",".join(names)), mk("in", "new,decode,loopfilter,copy_to"), {}))
    n += 1
    if names.index("copy_to") < names.index("loopfilter"):
        fin = atom("h", "loopfilter", atom("h", "decode", mk("in", "blank")))
    st = d["state_"]
    n += leafcmp(by["new"][2][0], field(st, "width"), "width of the output", TRUE, out)
    n += leafcmp(by["new"][2][1], field(st, "height"), "height of the output", TRUE, out)
    n += leafcmp(ev.env[("raster",)], atom("h", "loopfilter", atom("h", "decode", mk("in", "blank"))), "output pixels", TRUE, out)
    for nm, i, what, w in (("decode", 0, "segmentation", field(st, "segmentation")), ("decode", 1, "references", d["references_"]),
                           ("loopfilter", 0, "segmentation", field(st, "segmentation")), ("loopfilter", 1, "filter adjustments", field(st, "filter_adjustments"))):
        n += leafcmp(by[nm][2][i], w, "%s used by %s" % (what, nm), TRUE, out)
    ra = mk("addr", ("raster",), ())
    n += leafcmp(field(by["copy_to"][2][0], "raster_"), ra, "raster stored into the references", TRUE, out)
    n += leafcmp(by["copy_to"][3][1], mk("addr", ("this",), (("f", "references_"),)), "references updated", TRUE, out)
    after = s.env[("this",)]
    n += leafcmp(field(after, "references_"), mk("in", "references after"), "references after the frame", TRUE, out)
    n += leafcmp(field(after, "state_"), st, "state", TRUE, out)
    n += leafcmp(tobv(field(s.retv, "first")), tobv(field(fr, "show_", None, 0, 1)), "shown flag", TRUE, out)
    n += leafcmp(field(field(s.retv, "second"), "raster_"), ra, "raster returned", TRUE, out)
    verdict(run, name, f, out, n)


def output(run, name, f):
    ev = Ev(run.prog, gate=20)
    key, ex = atom("in", "key", lo=0, hi=1), atom("in", "experimental", lo=0, hi=1)
    seen = []

    def ih(ev, g, this, binds, e):
        n = g["q"].rsplit("::", 1)[-1]
        t = "key" if "KeyFrame" in g["ret"] + str(g["ps"]) else "inter"
        if n == "decompress_frame":
            return mk_rec(mk("obj", "u"), {"key_frame_": key, "experimental_": ex, "show_frame_": mk("in", "show")})
        if n == "parse_frame":
            seen.append(("parse " + t, ev.guard()))
            return mk("obj", "frame " + t)
        if n == "decode_frame":
            seen.append(("decode " + t, ev.guard()))
            v = ev.load(binds[0]) if not isinstance(binds[0], tuple) else binds[0][1]
            return mk_rec(mk("obj", "pair"), {"first": atom("in", "shown " + t, lo=0, hi=1), "second": atom("h", "output " + t, v)})
        return NotImplemented
    ev.ihook = ih
    ev.env[("arg", 0)] = mk("obj", "chunk")
    ev.env[("this",)] = mk("obj", "decoder")
    s = summarize(ev, f)
    kb, xb = tobool(key), tobool(ex)
    out = []
    n = leafcmp(b2v(s.live), b2v(c_or(kb, c_not(xb))), "frame accepted", TRUE, out)
    want = {"parse key": kb, "decode key": kb, "parse inter": c_and(c_not(kb), c_not(xb)), "decode inter": c_and(c_not(kb), c_not(xb))}
    if sorted(x[0] for x in seen) != sorted(want):
        raise Unsupported("decoding steps %s" % [x[0] for x in seen])
    for nm, g in seen:
        n += leafcmp(b2v(g), b2v(want[nm]), "condition of " + nm, TRUE, out)
    r = s.retv
    if f["q"].endswith("get_frame_output"):
        n += leafcmp(field(r, "first"), ite(kb, atom("in", "shown key", lo=0, hi=1), atom("in", "shown inter", lo=0, hi=1)), "shown flag", s.live, out)
        n += leafcmp(field(r, "second"), ite(kb, atom("h", "output key", mk("obj", "frame key")), atom("h", "output inter", mk("obj", "frame inter"))), "output", s.live, out)
    else:
        sh = ite(kb, atom("in", "shown key", lo=0, hi=1), atom("in", "shown inter", lo=0, hi=1))
        n += leafcmp(tobv(field(r, "initialized_", None, 0, 1)), sh, "an output is returned exactly for a shown frame", s.live, out)
        n += leafcmp(field(r, "object_"), ite(kb, atom("h", "output key", mk("obj", "frame key")), atom("h", "output inter", mk("obj", "frame inter"))), "output", c_and(s.live, tobool(sh)), out)
    verdict(run, name, f, out, n)


def check(run):
    P = run.prog
    sp = spec(run, "state.cc")
    if not sp:
        return
    for f in fns(P):
        m = re.match(r"Frame<(Key|Inter).*::copy_to$", f["q"])
        if m and len(f["ps"]) == 2:
            nm = "reference buffers after %s frame" % ("a key" if m.group(1) == "Key" else "an inter")
            run.attempt(nm, references, run, nm, f, sp, m.group(1) == "Inter")
        if f["q"] == "References::at":
            run.attempt("reference selected by a macroblock", refs_at, run, "reference selected by a macroblock", f)
        if f["q"].startswith("DecoderState::parse_and_apply") and len(f["ps"]) == 1:
            HT = "KeyFrameHeader" if "KeyFrame" in f["ret"] else "InterFrameHeader"
            for seg in (False, True):
                for filt in (False, True):
                    nm = "state after %s, segmentation %s and filter adjustments %s before" % (HT.replace("Header", ""), "on" if seg else "off", "on" if filt else "off")
                    run.attempt(nm, apply, run, nm, f, sp, strip(f["ret"]), HT, seg, filt)
        if re.match(r"Macroblock<(Key|Inter).*::update_segmentation$", f["q"]):
            nm = "segment map update, " + ("key" if "<Key" in f["q"] else "inter")
            run.attempt(nm, map_update, run, nm, f)
        if f["q"].startswith("Decoder::decode_frame") and len(f["ps"]) == 1:
            FT = strip(f["ps"][0]["t"])
            nm = "decoding " + ("a key frame" if "KeyFrame" in FT else "an inter frame")
            run.attempt(nm, decode, run, nm, f, FT)
        if f["q"] in ("Decoder::get_frame_output", "Decoder::parse_and_decode_frame"):
            run.attempt(f["q"], output, run, f["q"], f)
    run.floor("state_fields_compared", 100)
