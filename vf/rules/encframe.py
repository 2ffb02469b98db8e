"""Macroblocks the encoder builds: whatever they held before, what the encoder leaves in them is what a decoder
reads back for the mode it writes, and the residue is of the source against the prediction, scaled by the
factors the decoder multiplies by."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.state import verdict, tobv
from rules.recon import mbstate, raster_mb, positions, quantizer, PLANES, FW, enumval
from rules.mbsyntax import block_cls
from rules.tokens import coef

INTRA = ("DC_PRED", "V_PRED", "H_PRED", "TM_PRED", "B_PRED")
INTER = ("NEARESTMV", "NEARMV", "ZEROMV", "NEWMV", "SPLITMV")


def at(tag):
    """position of one of the macroblock views handed to the encoder; distinct symbols tell them apart"""
    return atom("in", tag + " column", lo=0, hi=1023), atom("in", tag + " row", lo=0, hi=1023)


def dct(i):
    return lambda k: atom("in", "dct %s %d" % (i, k), lo=-2048 * 8, hi=2047 * 8)


def bare(v, k):
    while v.op == "rec" and "#d" not in dict(v.args[1]):
        v = v.args[1][0][1]
    if v.op == "rec":
        v = dict(v.args[1])["#d"]
    return elem(v, K(k), -32768, 32767)


class Scene:
    def __init__(self, run, MB, ymode, stale):
        self.run, P = run, run.prog
        self.ev = ev = Ev(P, gate=30)
        self.views = {}
        mbw, mbh = atom("in", "mbs across", lo=1024, hi=2000), atom("in", "mbs down", lo=1024, hi=2000)
        for t in ("source", "output", "scratch"):
            c, r = at(t)
            _, self.views[t] = raster_mb(run, ev, c, r, mbw, mbh)
        m, self.co, self.mvs = mbstate(run, ev, MB, stale, 0, True)
        d = dict(m.args[1])
        self.m = mk_rec(m.args[0], d)
        self.qrec, self.q = quantizer(ev)
        self.subs = []
        ev.ihook = self.ihook

    def where(self, b):
        """(view, plane, index) of a 4x4 block view or a 4x4 part of a plane"""
        ev = self.ev
        v = ev.load(b) if not isinstance(b, tuple) else b[1]
        sr = field(v, "contents_") if v.op == "rec" and "contents_" in dict(v.args[1]) else v
        c, r, ms = field(sr, "column_"), field(sr, "row_"), field(sr, "master_")
        if ms.op != "addr":
            raise Unsupported("pixels of a block")
        root = ms.args[0]
        p = root[1][:1] if root[0] == "mem" and root[1] != "raster" else ([s[1] for s in ms.args[1] if s[0] == "f"] or ["?"])[-1][:1]
        for t in self.views:
            tc, tr = at(t)
            size = PLANES[p][0]
            for i in range(PLANES[p][1] ** 2):
                n = PLANES[p][1]
                if c is add(mul(K(size), tc), K(4 * (i % n))) and r is add(mul(K(size), tr), K(4 * (i // n))):
                    return t, p, i
        raise Unsupported("pixels of a block at %s, %s" % (show(c)[:60], show(r)[:60]))

    def ihook(self, ev, g, this, binds, e):
        n, c = g["q"].rsplit("::", 1)[-1], g.get("cls") or ""
        if c == "DCTCoefficients" and n == "subtract_dct":
            a, b = self.where(binds[0]), self.where(binds[1])
            self.subs.append((ev.guard(), a, b, ev.loc(e)))
            tag = "%s %s%d against %s %s%d" % (a + b)
            self.fill(this, lambda k: atom("in", "dct of %s, %d" % (tag, k), lo=-16384, hi=16383))
            return mk("void")
        if c == "DCTCoefficients" and n == "wht":
            inp = ev.load(binds[0]) if not isinstance(binds[0], tuple) else binds[0][1]
            xs = [bare(inp, i) for i in range(16)]
            self.fill(this, lambda k: atom("h", "wht", K(k), *xs, lo=-16384, hi=16383))
            return mk("void")
        if n == "trellis_quantize" and c == "Encoder":
            old = ev.load(binds[0])
            nm = show(field(old, "coefficients_"))[:0] + str(len(self.subs))
            base = binds[0] if not isinstance(binds[0], tuple) else None
            self.fill(mk("addr", base.args[0], base.args[1] + (("f", "coefficients_"),)), lambda k: atom("h", "trellis", K(k), coef(old, k), lo=-2048, hi=2047))
            return mk("void")
        if n in ("intra_predict", "idct_add", "inter_predict", "check_reset_y2"):
            return mk("void")
        return NotImplemented

    def fill(self, a, fn):
        ev = self.ev
        old = ev.load(a)
        new = shape16(ev, old, fn)
        ev.store(a, new)


def shape16(ev, old, fn):
    d = mk_arr(mk("obj", "coefficients"), {k: fn(k) for k in range(16)}, ())

    def sub(t, depth=0):
        r = ev.rec(t) if depth else ev.rec(t)
        fl = r["fields"][0]
        inner = mk_rec(mk("obj", "a"), {"#d": d}) if "std::array" in fl["t"] else (sub(strip(fl["t"]), depth + 1) if "SafeArray" in fl["t"] else d)
        return mk_rec(mk("obj", strip(t)), {fl["n"]: inner})
    return sub("DCTCoefficients")


def block_at(s, p, i):
    n = PLANES[p][1]
    st = field(field(s.env[("m" + p,)], "storage_"), "#d")
    return elem(st, K((n + i // n) * FW * n + 2 * n + i % n))


def anynz(xs):
    c = FALSE
    for x in xs:
        c = c_or(c, c_not(eq(x, K(0))))
    return c


def want_dct(a, b, k):
    return atom("in", "dct of %s %s%d against %s %s%d, %d" % (a + b + (k,)), lo=-16384, hi=16383)


def residue(sc, s, p, i, typ, first, cls_q, out, pas):
    """coefficients of one block: source against output, scaled; returns values compared"""
    ev, n = sc.ev, 0
    b = block_at(s, p, i)
    nm = "%s block %d" % (p, i)
    got = [coef(b, k) for k in range(16)]
    for k in range(16):
        w = want_dct(("source", p, i), ("output", p, i), k)
        if k == 0 and first == 1:
            w = K(0)
        w = div(w, sc.q[cls_q + ("_dc" if k == 0 else "_ac")]) if pas == 0 else atom("h", "trellis", K(k), w, lo=-2048, hi=2047)
        n += leafcmp(got[k], w, "%s coefficient %d" % (nm, k), s.live, out)
    n += leafcmp(tobv(field(b, "has_nonzero_", None, 0, 1)), b2v(anynz(got)), "%s marked as having coefficients" % nm, s.live, out)
    if typ is not None:
        n += leafcmp(field(b, "type_", None, 0, 3), K(typ), "%s type" % nm, s.live, out)
    return n


def y2(sc, s, mode, coded, out, pas):
    n = 0
    b = s.env[("mY2",)]
    n += leafcmp(field(b, "prediction_mode_"), K(enumval(sc.run.prog, mode)), "luma mode", s.live, out)
    n += leafcmp(tobv(field(b, "coded_", None, 0, 1)), K(int(coded)), "second-order block present", s.live, out)
    if coded:
        xs = [want_dct(("source", "Y", i), ("output", "Y", i), 0) for i in range(16)]
        got = [coef(b, k) for k in range(16)]
        for k in range(16):
            w = atom("h", "wht", K(k), *xs, lo=-16384, hi=16383)
            w = div(w, sc.q["y2" + ("_dc" if k == 0 else "_ac")]) if pas == 0 else atom("h", "trellis", K(k), w, lo=-2048, hi=2047)
            n += leafcmp(got[k], w, "Y2 coefficient %d" % k, s.live, out)
        n += leafcmp(tobv(field(b, "has_nonzero_", None, 0, 1)), b2v(anynz(got)), "Y2 marked as having coefficients", s.live, out)
    return n


def bind(sc, f, **kw):
    """arguments by type: views in the order source, output, scratch"""
    ev, order = sc.ev, ["source", "output", "scratch"]
    for i, p in enumerate(f["ps"]):
        t = strip(p["t"])
        if t.endswith("VP8Raster::Macroblock"):
            ev.env[("arg", i)] = sc.views[order.pop(0)]
        elif t.startswith("Macroblock<"):
            ev.env[("arg", i)] = sc.m
            sc.slot = i
        elif t == "Quantizer":
            ev.env[("arg", i)] = sc.qrec
        elif t.endswith("mbmode"):
            ev.env[("argv", i)] = kw["mode"]
        elif t.endswith("EncoderPass"):
            ev.env[("argv", i)] = kw.get("pas", K(0))
        elif t == "MotionVector":
            ev.env[("arg", i)] = ev.env[("argv", i)] = kw["mv"]
        else:
            raise Unsupported("parameter %s" % t)


def luma_inter(run, name, f, MB, mode, stale):
    sc = Scene(run, MB, mode, stale)
    ev = sc.ev
    mv = mk_rec(mk("obj", "MotionVector"), {"x_": atom("in", "chosen x", lo=-4096, hi=4095), "y_": atom("in", "chosen y", lo=-4096, hi=4095)})
    split = mode == "SPLITMV"
    bind(sc, f, mode=K(enumval(run.prog, mode)), mv=mv)
    s = summarize(ev, f)
    out = []
    n = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    n += y2(sc, s, mode, not split, out, 0)
    for i in range(16):
        b = block_at(s, "Y", i)
        n += residue(sc, s, "Y", i, 3 if split else 0, 0 if split else 1, "y", out, 0)
        v = field(b, "motion_vector_")
        want = mv if i == 15 and False else (mv if not split else None)
        if want is not None:
            for x in ("x_", "y_"):
                n += leafcmp(field(v, x), field(mv, x), "motion vector %s of Y block %d" % (x, i), s.live, out)
        elif i != 15:
            for j, x in enumerate(("x_", "y_")):
                n += leafcmp(field(v, x), sc.mvs["Y", i][j], "motion vector %s of Y block %d" % (x, i), s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def luma_intra(run, name, f, MB, mode, stale, pas):
    sc = Scene(run, MB, mode, stale)
    ev = sc.ev
    bp = mode == "B_PRED"
    bind(sc, f, mode=K(enumval(run.prog, mode)), pas=K(pas))
    s = summarize(ev, f)
    out = []
    n = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    n += y2(sc, s, mode, not bp, out, pas)
    implied = {"DC_PRED": "B_DC_PRED", "V_PRED": "B_VE_PRED", "H_PRED": "B_HE_PRED", "TM_PRED": "B_TM_PRED"}
    if not bp:
        for i in range(16):
            n += residue(sc, s, "Y", i, 0, 1, "y", out, pas)
            n += leafcmp(field(block_at(s, "Y", i), "prediction_mode_"), K(enumval(run.prog, implied[mode])), "mode of Y block %d" % i, s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def chroma_intra(run, name, f, MB, mode, stale, pas):
    sc = Scene(run, MB, mode, stale)
    bind(sc, f, mode=K(enumval(run.prog, mode)), pas=K(pas))
    s = summarize(sc.ev, f)
    out = []
    n = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    n += leafcmp(field(block_at(s, "U", 0), "prediction_mode_"), K(enumval(run.prog, mode)), "chroma mode", s.live, out)
    for p in "UV":
        for i in range(4):
            n += residue(sc, s, p, i, None, 0, "uv", out, pas)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def sub_intra(run, name, f, pas):
    """one 4x4 luma block predicted on its own"""
    P = run.prog
    MB = [c for c in {g.get("cls") or "" for g in fns(P)} if re.match(r"Macroblock<Key", c)][0]
    sc = Scene(run, MB, "B_PRED", "DC_PRED")
    ev = sc.ev
    views = ["source", "output"]
    y = block_cls(run, MB)[1]
    from rules.tokens import coef_block
    for i, p in enumerate(f["ps"]):
        t = strip(p["t"])
        if "VP8Raster::Block" in t:
            v = sc.views[views.pop(0)]
            a = field(v, "Y_sub")
            while a.op == "rec" and len(a.args[1]) == 1:
                a = a.args[1][0][1]
            ev.env[("arg", i)] = elem(a, K(6))
        elif t == y:
            ev.env[("arg", i)] = block_at(type("S", (), {"env": ev.env}), "Y", 6)
            slot = i
        elif t == "Quantizer":
            ev.env[("arg", i)] = sc.qrec
        elif t.endswith("EncoderPass"):
            ev.env[("argv", i)] = K(pas)
        else:
            ev.env[("argv", i)] = atom("in", "mode", lo=0, hi=9)
    s = summarize(ev, f)
    out = []
    b = s.env[("arg", slot)]
    n = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    n += leafcmp(field(b, "prediction_mode_"), atom("in", "mode", lo=0, hi=9), "mode", s.live, out)
    n += leafcmp(field(b, "type_", None, 0, 3), K(3), "type", s.live, out)
    got = [coef(b, k) for k in range(16)]
    for k in range(16):
        w = want_dct(("source", "Y", 6), ("output", "Y", 6), k)
        w = div(w, sc.q["y" + ("_dc" if k == 0 else "_ac")]) if pas == 0 else atom("h", "trellis", K(k), w, lo=-2048, hi=2047)
        n += leafcmp(got[k], w, "coefficient %d" % k, s.live, out)
    n += leafcmp(tobv(field(b, "has_nonzero_", None, 0, 1)), b2v(anynz(got)), "marked as having coefficients", s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def nonzero(run, name, f, MB, stale):
    """the macroblock's flags say whether any coefficient that would be coded is nonzero"""
    sc = Scene(run, MB, stale, stale)
    sc.ev.env[("this",)] = sc.m
    s = summarize(sc.ev, f)
    out = []
    n = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    split = stale in ("B_PRED", "SPLITMV")
    any_ = FALSE
    for p, i in [(p, i) for p in "YUV" for i in range(PLANES[p][1] ** 2)] + ([] if split else [("Y2", 0)]):
        c = anynz(sc.co[p, i])
        any_ = c_or(any_, c)
        b = s.env[("mY2",)] if p == "Y2" else block_at(s, p, i)
        n += leafcmp(tobv(field(b, "has_nonzero_", None, 0, 1)), b2v(c), "%s block %d marked as having coefficients" % (p, i), s.live, out)
    q = s.env[("this",)]
    n += leafcmp(tobv(field(q, "has_nonzero_", None, 0, 1)), b2v(any_), "macroblock marked as having coefficients", s.live, out)
    sk = field(q, "mb_skip_coeff_")
    n += leafcmp(tobv(field(sk, "initialized_", None, 0, 1)), K(1), "skip flag present", s.live, out)
    v = field(sk, "object_")
    while v.op == "rec" and len(v.args[1]) == 1:
        v = v.args[1][0][1]
    n += leafcmp(tobv(v), b2v(c_not(any_)), "skip flag", s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def vec(x, y):
    return mk_rec(mk("obj", "MotionVector"), {"x_": x, "y_": y})


def tail(q):
    return q.rsplit("::", 1)[-1]


class Choice:
    """the search is opaque (any cost, any candidate); what it hands on is not"""

    def __init__(self, run, f, MB):
        self.run, self.ev, self.applied, self.k = run, Ev(run.prog, gate=40), [], 0
        ev = self.ev
        ev.ihook = self.ihook
        m, self.co, self.mvs = mbstate(run, ev, MB, "DC_PRED", 0, True)
        self.m = m
        sr = sym(ev, "Scorer", "census")
        for i, t in enumerate(strip(p["t"]) for p in f["ps"]):
            if t.endswith("VP8Raster::Macroblock"):
                ev.env[("arg", i)] = mk("in", "view %d" % i)
                ev.env[("pixels", ("arg", i))] = mk("in", "pixels %d" % i)
            elif t == MB:
                ev.env[("arg", i)] = m
                self.slot = i
            elif t == "Quantizer":
                ev.env[("arg", i)] = mk("in", "quantizer")
            elif t.endswith("EncoderPass"):
                ev.env[("argv", i)] = K(0)
            elif strip(t) in ("unsigned long", "size_t"):
                ev.env[("argv", i)] = atom("in", "index", lo=0, hi=127)
            else:
                ev.env[("arg", i)] = mk("in", "argument %d" % i)
        self.census = sr

    def n(self, what, lo=0, hi=2 ** 32 - 1):
        self.k += 1
        return atom("in", "%s %d" % (what, self.k), lo=lo, hi=hi)

    def px(self, a):
        a = a[1] if isinstance(a, tuple) else a
        if a.op != "addr":
            raise Unsupported("pixels written")
        return mk("addr", ("pixels", a.args[0]), ())

    def ihook(self, ev, g, this, binds, e):
        n, c = tail(g["q"]), g.get("cls") or ""
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        if n == "luma_mb_best_prediction_mode":
            r = g["rt"] if "rt" in g else None
            return mk_rec(mk("obj", "MBPredictionData"), {"prediction_mode": self.n("intra mode", 0, 4), "mv": vec(K(0), K(0)), "rate": self.n("rate"), "distortion": self.n("distortion"), "cost": self.n("cost")})
        if n == "diamond_search":
            return mk_rec(mk("obj", "MVSearchResult"), {"mv": vec(self.n("found x", -1023, 1023), self.n("found y", -1023, 1023)), "first_step": K(0)})
        if n in ("luma_mb_apply_intra_prediction", "luma_mb_apply_inter_prediction"):
            d = {}
            for p, b in zip(g["ps"], binds):
                t = strip(p["t"])
                if t.endswith("mbmode"):
                    d["mode"] = val(b)
                elif t == "MotionVector":
                    d["mv"] = val(b)
                elif t.endswith("VP8Raster::Macroblock"):
                    d.setdefault("views", []).append(ev.load(self.px(b)))
                elif t.startswith("Macroblock<"):
                    d["mb"] = val(b)
            self.applied.append(("inter" in n, ev.guard(), d))
            return mk("void")
        if n == "motion_vector_census":
            return self.census
        if n == "clamp" and c == "Scorer":
            v = val(binds[0])
            return vec(*[atom("h", "clamped " + x, field(v, x), lo=-16384, hi=16383) for x in ("x_", "y_")])
        if n == "inter_predict":
            mv = val(binds[0])
            ev.store(self.px(binds[-1]), atom("h", "predicted", field(mv, "x_"), field(mv, "y_")))
            return mk("void")
        if n == "copy_from":
            ev.store(self.px(this), ev.load(self.px(binds[0])))
            return mk("void")
        if n in ("variance", "sse", "sad", "rdcost") or n.endswith("_cost"):
            return self.n(n)
        if n.startswith("fill_") or n == "mode_contexts" and False:
            return mk("void")
        if n == "macroblock" and c.startswith("VP8Raster") or n in ("at", "get") and "References" in c:
            return mk("in", n + " of " + c)
        return NotImplemented


def scorer(run, ch, which, ctx):
    P = run.prog
    ev = Ev(P, gate=20)
    ev.env[("this",)] = ch.census
    g = [f for f in fns(P) if f["q"] == "Scorer::" + which]
    if not g:
        raise Unsupported("Scorer::" + which)
    v = summarize(ev, g[0]).retv
    v = ev.load(v) if v.op == "addr" else v
    return vec(*[atom("h", "clamped " + x, field(v, x), lo=-16384, hi=16383) for x in ("x_", "y_")])


def inter_choice(run, name, f, MB):
    P = run.prog
    ch = Choice(run, f, MB)
    ev = ch.ev
    ev.env[("this",)] = sym(ev, "Encoder", "e", [(r"e\.(decoder_state_|costs_|key_frame_|inter_frame_|subsampled_.*|encode_stats_|(safe_)?references_|temp_raster_handle_)$", lambda ev, t, n: mk("in", n))])
    s = summarize(ev, f)
    ctx = field(ch.m, "context_")
    best, near, nearest = (scorer(run, ch, w, ctx) for w in ("best", "near", "nearest"))
    out = []
    n = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    if len(ch.applied) < 2 or {a[0] for a in ch.applied} != {True, False}:
        raise Unsupported("applied predictions")
    every = FALSE
    for inter, g, d in ch.applied:
        n += leafcmp(b2v(c_and(g, every)), K(0), "applied once", TRUE, out)
        every = c_or(every, g)
        mode, hd = d["mode"], field(d["mb"], "header_")
        n += leafcmp(flag(field(hd, "is_inter_mb")), K(int(inter)), "inter flag of an %s macroblock" % ("inter" if inter else "intra"), g, out)
        ref = spec_reference(run, ev, hd)
        n += leafcmp(ref, K(int(inter)), "reference of an %s macroblock" % ("inter" if inter else "intra"), g, out)
        if not inter:
            n += leafcmp(b2v(c_and(ge(mode, K(0)), ge(K(4), mode))), K(1), "mode of an intra macroblock", g, out)
            continue
        want = {"ZEROMV": vec(K(0), K(0)), "NEARESTMV": nearest, "NEARMV": near}
        sel = FALSE
        for m, w in want.items():
            here = eq(mode, K(enumval(P, m)))
            sel = c_or(sel, here)
            for x in ("x_", "y_"):
                n += leafcmp(field(d["mv"], x), field(w, x), "motion vector %s applied with %s" % (x, m), c_and(g, here), out)
        new = eq(mode, K(enumval(P, "NEWMV")))
        n += leafcmp(b2v(c_or(sel, new)), K(1), "mode of an inter macroblock", g, out)
        # what NEWMV sends is the difference to the clamped best vector: one the search may find
        for x in ("x_", "y_"):
            dv = sub(field(d["mv"], x), field(best, x))
            n += leafcmp(b2v(c_and(ge(dv, K(-1023)), ge(K(1023), dv))), K(1), "coded difference %s of NEWMV" % x, c_and(g, new), out)
        n += leafcmp(d["views"][1], atom("h", "predicted", field(d["mv"], "x_"), field(d["mv"], "y_")), "prediction of the applied vector", g, out)
    n += leafcmp(b2v(every), K(1), "a prediction is applied", TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def flag(v):
    while v.op == "rec" and len(v.args[1]) == 1:
        v = v.args[1][0][1]
    return tobv(v)


def set_reference(run, name, f):
    """every reference buffer can be selected, whatever was selected before, and is the one written"""
    out, n = [], 0
    sp = spec(run, "modes.cc")
    for r in range(4):
        ev = Ev(run.prog, gate=20)
        ev.env[("this",)] = sym(ev, f["cls"], "h")
        ev.env[("argv", 0)] = K(r)
        s = summarize(ev, f)
        h = s.env[("this",)]
        n += leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
        n += leafcmp(spec_reference(run, ev, h), K(r), "reference read back", s.live, out)
        n += leafcmp(flag(field(h, "is_inter_mb")), K(int(r > 0)), "inter flag for reference %d" % r, s.live, out)
        for i, fl in enumerate(("mb_ref_frame_sel1", "mb_ref_frame_sel2")):
            o = field(h, fl)
            n += leafcmp(tobv(field(o, "initialized_", None, 0, 1)), K(int(r > i)), "%s written for reference %d" % (fl, r), s.live, out)
            if r > i:
                n += leafcmp(flag(field(o, "object_")), K(int(r > i + 1)), "%s for reference %d" % (fl, r), s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def chroma_inter(run, name, f, MB, mode):
    P = run.prog
    sc = Scene(run, MB, mode, mode)
    ev = sc.ev
    for b in "UV":
        pass
    bind(sc, f)
    ev.env[("this",)] = sym(ev, "Encoder", "e", [(r"e\.(decoder_state_|costs_|key_frame_|inter_frame_|subsampled_.*|encode_stats_|(safe_)?references_|temp_raster_handle_)$", lambda ev, t, n: mk("in", n))])
    preds = []
    old = sc.ihook

    def hook(ev, g, this, binds, e):
        n, c = tail(g["q"]), g.get("cls") or ""
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        if n == "macroblock" and c.startswith("VP8Raster"):
            return mk_rec(mk("obj", "ConstMacroblock"), {"macroblock_": sc.views["scratch"]})
        if n == "at" and c == "References":
            preds.append(("reference", ev.guard(), val(binds[0])))
            return mk("in", "reference")
        if n == "inter_predict":
            mv = val(binds[0])
            preds.append(("predict", ev.guard(), g["cls"], val(this), field(mv, "x_"), field(mv, "y_")))
            return mk("void")
        return old(ev, g, this, binds, e)
    ev.ihook = hook
    s = summarize(ev, f)
    out = []
    n = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    for p in "UV":
        for i in range(4):
            n += residue(sc, s, p, i, None, 0, "uv", out, 0)
    # the vectors a decoder derives
    sp = spec(run, "recon.cc")
    c = [g for g in fns(P) if tail(g["q"]) == "luma_to_chroma"]
    for i in range(4):
        v = field(block_at(s, "U", i), "motion_vector_")
        e2 = Ev(P, gate=20)
        x, y = i % 2, i // 2
        for k, j in enumerate((8 * y + 2 * x, 8 * y + 2 * x + 1, 8 * y + 2 * x + 4, 8 * y + 2 * x + 5)):
            e2.env[("arg", k)] = vec(*sc.mvs["Y", j])
        w = summarize(e2, c[0]).retv
        for a in ("x_", "y_"):
            n += leafcmp(field(v, a), field(w, a), "vector %s of chroma block %d" % (a, i), s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def spec_reference(run, ev, hd):
    g = [f for f in fns(run.prog) if tail(f["q"]) == "reference" and f.get("cls") == "InterFrameMacroblockHeader"]
    if not g:
        raise Unsupported("reference of a macroblock header")
    e = Ev(run.prog, gate=20)
    e.env[("this",)] = hd
    return summarize(e, g[0]).retv


def check(run):
    P = run.prog
    for f in fns(P):
        q = f["q"]
        ts = [strip(p["t"]) for p in f["ps"]]
        MB = next((t for t in ts if t.startswith("Macroblock<")), None)
        kind = "inter frame" if MB and "<Inter" in MB else "key frame"
        if q == "Encoder::luma_mb_apply_inter_prediction":
            for m in INTER:
                for st in ("DC_PRED", "B_PRED"):
                    nm = "luma of a %s macroblock that was %s" % (m, st)
                    run.attempt(nm, luma_inter, run, nm, f, MB, m, st)
        if q == "InterFrameMacroblockHeader::set_reference":
            run.attempt("reference selected in a macroblock header", set_reference, run, "reference selected in a macroblock header", f)
        if q == "Encoder::chroma_mb_inter_predict":
            for m in ("ZEROMV", "SPLITMV"):
                nm = "chroma of a %s macroblock" % m
                run.attempt(nm, chroma_inter, run, nm, f, MB, m)
        if q == "Encoder::luma_mb_inter_predict":
            run.attempt("prediction chosen for an inter frame macroblock", inter_choice, run, "prediction chosen for an inter frame macroblock", f, MB)
        if q == "Encoder::luma_mb_apply_intra_prediction":
            for m in INTRA:
                for st in ("DC_PRED", "B_PRED"):
                    for pas in (0, 1):
                        nm = "luma of a %s macroblock that was %s, %s, pass %d" % (m, st, kind, pas + 1)
                        run.attempt(nm, luma_intra, run, nm, f, MB, m, st, pas)
        if q == "Encoder::chroma_mb_apply_intra_prediction":
            for m in INTRA[:4]:
                for pas in (0, 1):
                    nm = "chroma of a %s macroblock, %s, pass %d" % (m, kind, pas + 1)
                    run.attempt(nm, chroma_intra, run, nm, f, MB, m, "DC_PRED", pas)
        if q == "Encoder::luma_sb_apply_intra_prediction":
            for pas in (0, 1):
                nm = "4x4 luma block, pass %d" % (pas + 1)
                run.attempt(nm, sub_intra, run, nm, f, pas)
        if re.match(r"Macroblock<.*::calculate_has_nonzero$", q):
            for st in ("DC_PRED", "B_PRED"):
                nm = "coefficient flags of a %s macroblock of a %s" % (st, "inter frame" if "<Inter" in f["cls"] else "key frame")
                run.attempt(nm, nonzero, run, nm, f, f["cls"], st)
    run.floor("values_compared", 100)
