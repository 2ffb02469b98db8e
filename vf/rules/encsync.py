"""The encoder's model of the receiving decoder: what it records about a frame it emits is what decoding
that frame does."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.headers import OVER
from rules.state import verdict, state_record, refs_record, handle, spec_call, tobv, sarr, sarrv, REFS


def deref(ev, v):
    return ev.load(v) if v.op == "addr" else v


class Steps:
    """the frame's own operations, which other properties decide, recorded with what they are given"""

    def __init__(self, ev, FT):
        self.ev, self.FT, self.seen, self.k = ev, FT, [], 0
        ev.ihook = self.ihook

    def val(self, b):
        return self.ev.load(b) if not isinstance(b, tuple) else b[1]

    def ihook(self, ev, g, this, binds, e):
        n, c = g["q"].rsplit("::", 1)[-1], g.get("cls") or ""
        val = self.val
        if g["kind"] == "ctor" and c.startswith("VP8MutableRasterHandle<") and len(binds) >= 2:
            self.k += 1
            r = ("raster", self.k)
            ev.env[r] = mk("in", "blank %d" % self.k)
            ev.store(this, mk_rec(mk("obj", "MutableRasterHandle"), {"raster_": mk("addr", r, ())}))
            self.seen.append(("new", ev.guard(), [val(b) for b in binds[:2]], binds))
            return mk("void")
        if g["kind"] == "ctor" and c.startswith("VP8RasterHandle<") and len(binds) == 1 and "Mutable" in g["ps"][0]["t"]:
            ev.store(this, handle(field(val(binds[0]), "raster_")))
            return mk("void")
        if g["kind"] == "ctor" and c == "References" and len(binds) == 2 and "int" in g["ps"][0]["t"] + g["ps"][0]["t"].replace("short", "int"):
            ev.store(this, mk_rec(mk("obj", "References"), {r: handle(mk("in", "fresh " + r)) for r in REFS}))
            return mk("void")
        if n == "load" and c == "SafeReferences":
            v = val(binds[0]) if not isinstance(binds[0], tuple) else binds[0][1]
            b = binds[0]
            src = b[1] if isinstance(b, tuple) else b
            return mk_rec(mk("obj", "MutableRasterHandle"), {"raster_": atom("h", "safe copy", src if src.op == "addr" else v)})
        if c == self.FT and n in ("decode", "loopfilter", "copy_to", "serialize_first_partition", "serialize_tokens"):
            self.seen.append((n, ev.guard(), [val(b) for b in binds], binds))
            if n in ("decode", "loopfilter"):
                ev.store(binds[2], atom("h", n, ev.load(binds[2])))
            elif n == "copy_to":
                ev.store(binds[1], mk_rec(mk("obj", "References"), {r: handle(mk("addr", ("new " + r,), ())) for r in REFS}))
            else:
                return mk("in", n)
            return mk("void")
        if n == "make_frame" and not c and len(binds) >= 8:
            self.seen.append((n, ev.guard(), [val(b) for b in binds], binds))
            return mk("in", "bitstream")
        return NotImplemented


def header_without(ev, HT, seg):
    h = sym(ev, HT, "h", OVER)
    d = dict(h.args[1])
    o = dict(d["update_segmentation"].args[1])
    o["initialized_"] = K(int(seg))
    d["update_segmentation"] = mk_rec(d["update_segmentation"].args[0], o)
    return mk_rec(h.args[0], d)


def written(run, name, f, sp, FT, HT, filt, seg0, seg1):
    P = run.prog
    ev = Ev(P, gate=20)
    st = Steps(ev, FT)
    key = HT.startswith("Key")
    for r in REFS:
        ev.env[("new " + r,)] = mk("in", "pixels of new " + r)
    enc = sym(ev, "Encoder", "e", [(r"e\.decoder_state_\.segmentation.*\.map", lambda ev, t, n: mk("in", "old map")), (r"e\.(costs_|key_frame_|inter_frame_|subsampled_.*|encode_stats_)$", lambda ev, t, n: mk("in", n)),
                                  (r"e\.(safe_)?references_$", lambda ev, t, n: mk("in", n))])
    d = dict(enc.args[1])
    old = state_record(ev, seg0, filt)
    d["decoder_state_"], d["references_"] = old, refs_record()
    d["safe_references_"] = mk_rec(mk("obj", "SafeReferences"), {r: mk_rec(mk("obj", "MutableRasterHandle"), {"raster_": mk("in", "old safe " + r)}) for r in REFS})
    ev.env[("this",)] = mk_rec(enc.args[0], d)
    fr = sym(ev, FT, "f", [(r"f\.display_(width|height)_$", lambda ev, t, n: atom("in", n, lo=0, hi=16383)), (r"f\.(Y2_|Y_|U_|V_|macroblock_headers_|header_)", lambda ev, t, n: mk("in", n))])
    fd = dict(fr.args[1])
    fd["header_"] = h = header_without(ev, HT, seg1)
    ev.env[("arg", 0)] = fr = mk_rec(fr.args[0], fd)
    s = summarize(ev, f)
    got = s.env[("this",)]
    out = []
    n = leafcmp(b2v(s.live), K(1), "frame written", TRUE, out)
    # persistent state
    k = "key" if key else "inter"
    if key:
        dflt = [g for g in fns(P) if g["kind"] == "ctor" and g.get("cls") == "ProbabilityTables" and not g["ps"]]
        base = summarize(Ev(P, gate=20), dflt[0]).env[("this",)]
    else:
        base = field(old, "probability_tables")
    frame, kept = spec_call(run, sp, "spec::%s_probabilities" % k, [base, h, None, None])
    gs = field(got, "decoder_state_")
    n += compare(ev, field(gs, "probability_tables"), kept, "ProbabilityTables", "recorded probabilities", s.live, out)
    fa = field(field(old, "filter_adjustments"), "object_")
    ga = field(gs, "filter_adjustments")
    en, nr, nm = spec_call(run, sp, "spec::%s_filter" % k, [K(int(filt and not key)), sarr(field(fa, "loopfilter_ref_adjustments")), sarr(field(fa, "loopfilter_mode_adjustments")), h, None, None, None])
    n += leafcmp(tobv(field(ga, "initialized_", None, 0, 1)), en, "filter adjustments recorded", s.live, out)
    pre = c_and(s.live, tobool(en))
    for fl, w in (("loopfilter_ref_adjustments", nr), ("loopfilter_mode_adjustments", nm)):
        if feasible(pre):
            g = field(field(ga, "object_"), fl)
            for i in range(4):
                n += leafcmp(elem(sarrv(g), K(i), -128, 127), elem(w, K(i), -128, 127), "recorded %s[%d]" % (fl, i), pre, out)
    sg = field(field(old, "segmentation"), "object_")
    en, nabs, nq, nf = spec_call(run, sp, "spec::%s_segments" % k, [K(int(seg0 and not key)), field(sg, "absolute_segment_adjustments"), sarr(field(sg, "segment_quantizer_adjustments")), sarr(field(sg, "segment_filter_adjustments")), h, None, None, None, None])
    n += leafcmp(tobv(field(field(gs, "segmentation"), "initialized_", None, 0, 1)), en, "segmentation recorded", s.live, out)
    pre = c_and(s.live, tobool(en))
    if feasible(pre):
        gg = field(field(gs, "segmentation"), "object_")
        n += leafcmp(tobv(field(gg, "absolute_segment_adjustments")), tobv(nabs), "recorded kind of segment adjustments", pre, out)
        for fl, w in (("segment_quantizer_adjustments", nq), ("segment_filter_adjustments", nf)):
            for i in range(4):
                n += leafcmp(elem(sarrv(field(gg, fl)), K(i), -128, 127), elem(w, K(i), -128, 127), "recorded %s[%d]" % (fl, i), pre, out)
    for x in ("width", "height"):
        n += leafcmp(field(gs, x), field(old, x), "recorded " + x, s.live, out)
    # reconstruction
    names = [x[0] for x in st.seen]
    if sorted(names) != ["copy_to", "decode", "loopfilter", "make_frame", "new", "serialize_first_partition", "serialize_tokens"]:
        raise Unsupported("steps %s" % names)
    for nm_, g, a, b in st.seen:
        n += leafcmp(b2v(g), K(1), nm_ + " always happens", TRUE, out)
    by = {x[0]: x for x in st.seen}
    if not names.index("new") < names.index("decode") < names.index("loopfilter"):
        out.append(("order of the steps", mk("in", ",".join(names)), mk("in", "decode,loopfilter,copy_to"), {}))
    for i, x in ((0, "width"), (1, "height")):
        n += leafcmp(by["new"][2][i], field(old, x), x + " of the reconstruction", TRUE, out)
    n += leafcmp(ev.env[("raster", 1)], atom("h", "loopfilter", atom("h", "decode", mk("in", "blank 1"))), "reconstructed pixels", TRUE, out)
    n += leafcmp(field(by["copy_to"][2][0], "raster_"), mk("addr", ("raster", 1), ()), "raster stored into the references", TRUE, out)
    n += leafcmp(by["copy_to"][3][1], mk("addr", ("this",), (("f", "references_"),)), "references updated", TRUE, out)
    if not key:
        n += leafcmp(by["decode"][2][1], d["references_"], "references predicted from", TRUE, out)
        n += leafcmp(by["copy_to"][2][1], d["references_"], "references before the update", TRUE, out)
    for nm_ in ("decode", "loopfilter"):
        n += leafcmp(tobv(field(by[nm_][2][0], "initialized_", None, 0, 1)), en, "segmentation used by " + nm_, TRUE, out)
    g = by["loopfilter"][2][1]
    n += leafcmp(tobv(field(g, "initialized_", None, 0, 1)), tobv(field(ga, "initialized_", None, 0, 1)), "filter adjustments used by loopfilter", TRUE, out)
    for fl in ("loopfilter_ref_adjustments", "loopfilter_mode_adjustments"):
        for i in range(4):
            if feasible(pre):
                n += leafcmp(elem(sarrv(field(field(g, "object_"), fl)), K(i), -128, 127), elem(sarrv(field(field(ga, "object_"), fl)), K(i), -128, 127), "%s[%d] used by loopfilter" % (fl, i), pre, out)
    for r in REFS:
        v = field(field(got, "references_"), r)
        n += leafcmp(field(v, "raster_"), mk("addr", ("new " + r,), ()), "%s reference after the frame" % r, TRUE, out)
        v = field(field(field(got, "safe_references_"), r), "raster_")
        n += leafcmp(v, atom("h", "safe copy", mk("addr", ("new " + r,), ())), "padded copy of the %s reference" % r, TRUE, out)
    # the bytes
    for x in ("serialize_first_partition", "serialize_tokens"):
        n += compare(ev, by[x][2][0], frame, "ProbabilityTables", "probabilities used by " + x, TRUE, out)
    a = by["make_frame"][2]
    n += leafcmp(tobv(a[0]), K(int(key)), "key frame flag", TRUE, out)
    n += leafcmp(tobv(a[1]), tobv(field(fr, "show_", None, 0, 1)), "shown flag", TRUE, out)
    n += leafcmp(a[4], field(fr, "display_width_"), "coded width", TRUE, out)
    n += leafcmp(a[5], field(fr, "display_height_"), "coded height", TRUE, out)
    n += leafcmp(a[6], mk("in", "serialize_first_partition"), "first partition", TRUE, out)
    n += leafcmp(a[7], mk("in", "serialize_tokens"), "token partitions", TRUE, out)
    n += leafcmp(s.retv, mk("in", "bitstream"), "bytes returned", TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


STATE = ("decoder_state_", "references_", "safe_references_", "has_state_")
OPAQUE = [(r"[eo]\.(decoder_state_|references_|safe_references_|costs_|key_frame_|inter_frame_|subsampled_.*|encode_stats_|temp_raster_handle_|loop_filter_level_|last_y_ac_qi_)$", lambda ev, t, n: mk("in", n)),
          (r"[eod]\.state_$", lambda ev, t, n: mk("in", n)), (r"d\.(references_|error_concealment_)$", lambda ev, t, n: mk("in", n))]


class Copies:
    """records copied or moved as a whole; building anything else gives a fresh value"""

    def __init__(self, ev):
        ev.ihook = self.ihook
        self.k = 0

    def ihook(self, ev, g, this, binds, e):
        n, c = g["q"].rsplit("::", 1)[-1], g.get("cls") or ""
        val = [ev.load(b) if not isinstance(b, tuple) else b[1] for b in binds]
        if c in ("Encoder", "Decoder"):
            return NotImplemented
        if c == "SafeReferences" and g["kind"] == "ctor" and len(val) == 1 and "SafeReferences" not in g["ps"][0]["t"]:
            ev.store(this, atom("h", "padded", val[0]))
            return mk("void")
        if (g["kind"] == "ctor" or n == "operator=") and len(val) == 1 and c in g["ps"][0]["t"]:
            ev.store(this, val[0])
            return this if n == "operator=" else mk("void")
        if g["kind"] == "ctor":
            ev.store(this, atom("h", "new " + c, *val) if val else mk("in", "new " + c))
            return mk("void")
        if n == "hash":
            return atom("h", "hash", val[0] if val else ev.load(this), lo=0, hi=2 ** 64 - 1)
        if g["kind"] == "method" and n not in ("get_state", "get_references", "width", "height", "get", "export_decoder") and g.get("ret") == "void":
            return mk("void")
        return NotImplemented


def same(ev, a, b, path, pre, out):
    if a is b:
        return 1
    if a.op in ("in", "rec", "h", "atom") and b.op in ("in", "rec", "h", "atom") and "obj" in show(a)[:4] + show(b)[:4] or a.op == "in" and b.op == "in":
        out.append((path, a, b, {}))
        return 1
    return leafcmp(tobv(a), tobv(b), path, pre, out)


def copied(run, name, f):
    """a copied, moved or assigned encoder carries the whole state of the original"""
    ev = Ev(run.prog, gate=20)
    Copies(ev)
    o = sym(ev, "Encoder", "o", OPAQUE)
    ev.env[("arg", 0)] = o
    if f["kind"] != "ctor":
        ev.env[("this",)] = sym(ev, "Encoder", "e", OPAQUE)
    s = summarize(ev, f)
    got, out, n = s.env[("this",)], [], 0
    n += leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    for m in STATE + ("two_pass_encoder_", "encode_quality_", "loop_filter_level_", "last_y_ac_qi_"):
        n += same(ev, field(got, m), field(o, m), m, s.live, out)
    run.count("members_compared", n)
    verdict(run, name, f, out, n)


def made(run, name, f):
    """an encoder built on a decoder starts from that decoder's state; built on nothing, it has none"""
    ev = Ev(run.prog, gate=20)
    Copies(ev)
    from_decoder = "Decoder" in f["ps"][0]["t"]
    d = sym(ev, "Decoder", "d", OPAQUE)
    for i, p in enumerate(f["ps"]):
        if "Decoder" in p["t"]:
            ev.env[("arg", i)] = d
        else:
            ev.env[("argv", i)] = atom("in", "arg %d" % i, lo=0, hi=16383 if "short" in p["t"] or "16" in p["t"] else 1)
    s = summarize(ev, f)
    got, out = s.env[("this",)], []
    n = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    n += leafcmp(tobv(field(got, "has_state_")), K(int(from_decoder)), "has_state_", s.live, out)
    n += same(ev, field(got, "safe_references_"), atom("h", "padded", field(got, "references_")), "padded references", s.live, out)
    if from_decoder:
        n += same(ev, field(got, "decoder_state_"), field(d, "state_"), "state", s.live, out)
        n += same(ev, field(got, "references_"), field(d, "references_"), "references", s.live, out)
    else:
        w, h = atom("in", "arg 0", lo=0, hi=16383), atom("in", "arg 1", lo=0, hi=16383)
        n += same(ev, field(got, "decoder_state_"), atom("h", "new DecoderState", w, h), "state", s.live, out)
    run.count("members_compared", n)
    verdict(run, name, f, out, n)


def exported(run, name, f):
    ev = Ev(run.prog, gate=20)
    Copies(ev)
    e = sym(ev, "Encoder", "e", OPAQUE)
    ev.env[("this",)] = e
    s = summarize(ev, f)
    out = []
    n = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    n += same(ev, field(s.retv, "state_"), field(e, "decoder_state_"), "state", s.live, out)
    n += same(ev, field(s.retv, "references_"), field(e, "references_"), "references", s.live, out)
    run.count("members_compared", n)
    verdict(run, name, f, out, n)


def minihash(run, name, f, g):
    """sender and receiver derive the same number from the same state"""
    got = []
    for fn, cls, st in ((f, "Encoder", "decoder_state_"), (g, "Decoder", "state_")):
        ev = Ev(run.prog, gate=20)
        Copies(ev)
        base = ev.ihook

        def hook(ev, q, this, binds, e, base=base):
            if q.get("cls") == "DecoderHash":
                return NotImplemented
            return base(ev, q, this, binds, e)
        ev.ihook = hook
        ev.hooks["boost::hash_combine"] = lambda ev, e: combine(ev, e)
        r = mk_rec(mk("obj", "References"), {x: handle(mk("in", "raster " + x)) for x in REFS})
        d = dict(sym(ev, cls, "e", OPAQUE).args[1])
        d[st], d["references_"] = mk("in", "state"), r
        ev.env[("this",)] = mk_rec(mk("obj", cls), d)
        s = summarize(ev, fn)
        got.append(s)
    out = []
    n = leafcmp(b2v(got[0].live), b2v(got[1].live), "defined", TRUE, out)
    n += leafcmp(got[0].retv, got[1].retv, "value for the same state", TRUE, out)
    # and it depends on each part
    t = show(got[0].retv)
    run.count("members_compared", n)
    verdict(run, name, f, out, n)


def combine(ev, e):
    a = ev.lvl(e["a"][0])
    v = ev.rv(e["a"][1])
    ev.store(a, atom("h", "combine", ev.load(a), v, lo=0, hi=2 ** 64 - 1))
    return mk("void")


def one_frame(run, name, f, has):
    """each call of the encoder emits one frame, a key frame exactly when there is no state to build on, and
    only for a raster of the encoder's size"""
    P = run.prog
    ev = Ev(P, gate=20)
    wrote = []

    def ihook(ev, g, this, binds, e):
        n = g["q"].rsplit("::", 1)[-1]
        m = re.search(r"(KeyFrame|InterFrame|Frame<\w+Header)", g["ps"][0]["t"] if g["ps"] and "Frame" in g["ps"][0]["t"] else g.get("ret") or "")
        kind = m and ("key" if "Key" in m.group(1) else "inter")
        if n == "write_frame" and kind:
            wrote.append((ev.guard(), kind))
            return mk("in", "bytes of the %s frame" % kind)
        if n in ("encode_raster", "encode_with_quantizer_search") and kind:
            fr = ev.temp(mk("in", kind + " frame"), "t")
            if n == "encode_raster":
                return mk_rec(mk("obj", "pair"), {"first": fr, "second": mk("in", "ssim")})
            return fr
        if n in ("estimate_frame_size", "estimate_size"):
            return atom("h", "estimate", ev.load(binds[1]) if not isinstance(binds[1], tuple) else binds[1][1], lo=0, hi=2 ** 40)
        return NotImplemented
    ev.ihook = ihook
    d = dict(sym(ev, "Encoder", "e", OPAQUE).args[1])
    w, h, rw, rh = (atom("in", x, lo=1, hi=16383) for x in ("width", "height", "raster width", "raster height"))
    d["has_state_"] = K(int(has))
    d["last_y_ac_qi_"] = mk_rec(mk("obj", "Optional"), {"initialized_": K(0), "object_": K(0)})
    st = sym(ev, "DecoderState", "s", [(r"s\.(probability_tables|segmentation|filter_adjustments)$", lambda ev, t, n: mk("in", n))])
    sd = dict(st.args[1])
    sd["width"], sd["height"] = w, h
    d["decoder_state_"] = mk_rec(st.args[0], sd)
    ev.env[("this",)] = mk_rec(mk("obj", "Encoder"), d)
    r = sym(ev, "VP8Raster", "r", [(r"r\.[YUV]_$", lambda ev, t, n: mk("in", n))])
    rd = dict(r.args[1])
    rd["display_width_"], rd["display_height_"] = rw, rh
    ev.env[("arg", 0)] = mk_rec(r.args[0], rd)
    for i, p in enumerate(f["ps"][1:], 1):
        ev.env[("argv", i)] = atom("in", "limit", lo=0, hi=127)
    s = summarize(ev, f)
    out = []
    fits = c_and(eq(w, rw), eq(h, rh))
    n = leafcmp(b2v(s.live), b2v(fits), "a frame is emitted", TRUE, out)
    cnt = K(0)
    for g, kind in wrote:
        cnt = add(cnt, b2v(g))
        n += leafcmp(K(int(kind == "inter")), K(int(has)), "kind of frame", g, out)
    n += leafcmp(cnt, K(1), "frames written", fits, out)
    n += leafcmp(tobv(field(s.env[("this",)], "has_state_")), K(1), "has_state_ afterwards", fits, out)
    n += leafcmp(s.retv, mk("in", "bytes of the %s frame" % ("inter" if has else "key")), "bytes returned", fits, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def check(run):
    P = run.prog
    mh = {}
    for f in fns(P):
        q, ps = f["q"], [p["t"] for p in f["ps"]]
        if f.get("cls") == "Encoder" and f["kind"] == "ctor" and len(ps) == 1 or q == "Encoder::operator=":
            nm = "encoder %s" % ("assigned" if f["kind"] != "ctor" else "moved" if "&&" in ps[0] else "copied")
            run.attempt(nm, copied, run, nm, f)
        elif f.get("cls") == "Encoder" and f["kind"] == "ctor" and len(ps) >= 3:
            nm = "encoder made %s" % ("from a decoder" if "Decoder" in ps[0] else "from nothing")
            run.attempt(nm, made, run, nm, f)
        if q == "Encoder::export_decoder":
            run.attempt("decoder exported", exported, run, "decoder exported", f)
        if q in ("Encoder::minihash", "Decoder::minihash"):
            mh[q[:7]] = f
        if f.get("cls") == "Encoder" and re.match(r"encode_with_", q.rsplit("::", 1)[-1]) and "vector" in (f.get("ret") or ""):
            for has in (False, True):
                nm = "%s %s a frame to build on" % (q.rsplit("::", 1)[-1], "with" if has else "without")
                run.attempt(nm, one_frame, run, nm, f, has)
    if len(mh) == 2:
        run.attempt("minihash of encoder and decoder", minihash, run, "minihash of encoder and decoder", mh["Encoder"], mh["Decoder"])
    sp = spec(run, "state.cc")
    if not sp:
        return
    for f in fns(P):
        if f["q"] == "Encoder::write_frame" and len(f["ps"]) == 1:
            FT = strip(f["ps"][0]["t"])
            HT = "KeyFrameHeader" if "<Key" in FT else "InterFrameHeader"
            for filt in (False, True):
                for seg0, seg1 in ((False, False), (True, False), (False, True)):
                    nm = "%s written, filter adjustments %s before%s%s" % ("key frame" if HT[0] == "K" else "inter frame", "on" if filt else "off", ", segmentation on before" if seg0 else "", ", segmentation in the header" if seg1 else "")
                    run.attempt(nm, written, run, nm, f, sp, FT, HT, filt, seg0, seg1)
