"""Re-encoding a chunk: which frame is written for every picture, from which prediction, with which quantizer;
what survives of the original prediction in the new frame."""
import itertools
from fractions import Fraction
import re
from evalx import *
from chan import *
from rules.common import *
from rules.headers import OVER
from rules.lints import walk
from rules.state import verdict, handle, tobv, sarr, sarrv, REFS
from rules.recon import mbstate, enumval, PLANES, FW
from rules.encframe import Scene, flag, tail, vec, block_at, anynz, residue, y2
from terms import rebuild, T

KF, IF = "KeyFrameHeader", "InterFrameHeader"


# ------------------------------------------------------------ arithmetic on floating-point terms
def poly(v):
    """a floating-point term as a polynomial over its atoms (sums and products, exact reading)"""
    if v.op == "k":
        return {(): v.args[0]} if v.args[0] else {}
    if v.op == "float":
        c = Fraction(str(v.args[0]))
        return {(): c} if c else {}
    if v.op == "fop":
        op, xs = v.args[0], v.args[1:]
        ps = [poly(x) for x in xs]
        if op == "neg":
            return {k: -c for k, c in ps[0].items()}
        if op in "+-" and len(ps) == 2:
            r = dict(ps[0])
            for k, c in ps[1].items():
                r[k] = r.get(k, 0) + (c if op == "+" else -c)
            return {k: c for k, c in r.items() if c}
        if op == "*" and len(ps) == 2:
            r = {}
            for (k1, c1), (k2, c2) in itertools.product(ps[0].items(), ps[1].items()):
                k = tuple(sorted(k1 + k2))
                r[k] = r.get(k, 0) + c1 * c2
            return {k: c for k, c in r.items() if c}
        raise Unsupported("floating-point %s" % op)
    if v.op in ("i2f", "cvt") and v.args:
        return poly(v.args[-1])
    return {(show(v),): 1}


def rounded(v):
    p = poly(v)
    return atom("h", "nearest whole number to " + " + ".join("%s %s" % (c, " ".join(k)) for k, c in sorted(p.items())), lo=0, hi=127)


def bound(run, f, ev, spec_):
    for i, p in enumerate(f["ps"]):
        for pat, v in spec_:
            if re.search(pat, strip(p["t"])):
                ev.env[("arg", i)] = ev.env[("argv", i)] = v
                break
        else:
            raise Unsupported("parameter of type %s" % p["t"])


def vectors(ev, P, f, table):
    """the lists handed to the driver, of known length"""
    def call(n):
        def h(ev, e):
            a = ev.deref(ev.rv(e["obj"])) if e.get("arrow") else ev.lvl(e["obj"])
            v = ev.load(a)
            if v.op != "list":
                return NotImplemented
            k = v.args[1]
            if n == "size":
                return K(k)
            if n == "empty":
                return K(int(k == 0))
            if n in ("at", "operator[]"):
                i = ev.rv(e["a"][0])
            elif n in ("front", "back"):
                i = K(0 if n == "front" else k - 1)
            else:
                raise Unsupported("list " + n)
            if i.op != "k":
                raise Unsupported("index into a list")
            if not 0 <= i.args[0] < k:
                ev.live = FALSE
                return ev.addr((v.args[0], 0))
            return ev.addr((v.args[0], i.args[0]))
        return h
    for x in walk([f["body"]]):
        if x["k"] == "call" and str(x.get("cls", "")).startswith("std::vector<"):
            ev.hooks[x["q"]] = call(tail(x["q"]))
    ev.hooks["lrint"] = ev.hooks["lround"] = ev.hooks["llrint"] = lambda ev, e: rounded(ev.rv(e["a"][0]))


def header(ev, T, name):
    return sym(ev, T, name, OVER)


def quant(ev, T, name):
    return field(header(ev, T, name), "quant_indices")


class Driver:
    def __init__(self, run, f, pattern, extra, counts=None, sizes=None):
        self.run, self.f, self.pattern = run, f, pattern
        P = run.prog
        self.ev = ev = Ev(P, gate=30)
        n = len(pattern)
        self.steps, self.k = [], 0
        W, H = atom("in", "width", lo=1, hi=16383), atom("in", "height", lo=1, hi=16383)
        other = sizes or {}
        enc = sym(ev, "Encoder", "e", [(r"e\.(costs_|key_frame_|inter_frame_|subsampled_.*|encode_stats_|(safe_)?references_|temp_raster_handle_)$", lambda ev, t, n: mk("in", n)),
                                       (r"e\.decoder_state_\.(probability_tables|segmentation|filter_adjustments)$", lambda ev, t, n: mk("in", n)),
                                       (r"e\.decoder_state_\.width$", lambda ev, t, n: W), (r"e\.decoder_state_\.height$", lambda ev, t, n: H)])
        ev.env[("this",)] = enc
        for i in range(counts if counts is not None else n):
            ev.env[("raster", i)] = mk("in", "pixels %d" % i)
            ev.env[("orig", i)] = handle(mk("addr", ("raster", i), ()))
            self.frames = None
        for i, c in enumerate(pattern):
            d = {}
            for fld, T, here in (("first", KF, c == "K"), ("second", IF, c == "I")):
                nm = ("k%d" if T is KF else "i%d") % i
                ev.env[(nm,)] = mk("in", nm)
                d[fld] = mk_rec(mk("obj", "Optional"), {"initialized_": K(int(here)), "object_": mk_rec(mk("obj", "frame " + nm), {"header_": header(ev, T, nm), "name": mk("in", nm)})})
            ev.env[("pair", i)] = mk_rec(mk("obj", "pair"), d)
        vectors(ev, P, f, None)
        bound(run, f, ev, [(r"^std::vector<VP8RasterHandle", mk("list", "orig", counts if counts is not None else n)), (r"^std::vector<std::pair", mk("list", "pair", n)),
                           (r"^double|^float", atom("in", "weight")), (r"^bool", K(int(extra))), (r"IVFWriter", mk("in", "file"))])
        self.W, self.H, self.other = W, H, other
        ev.ihook = self.ihook

    def ihook(self, ev, g, this, binds, e):
        n, c = tail(g["q"]), g.get("cls") or ""
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        if n in ("display_width", "display_height"):
            who = this.args[0] if this is not None and this.op == "addr" else None
            return self.other.get((who, n), self.W if n.endswith("width") else self.H)
        if c == "IVFWriter" and n in ("width", "height"):
            return self.other.get(("file", n), self.W if n == "width" else self.H)
        if n in ("reencode_as_interframe", "update_residues", "write_frame"):
            d = {"what": n}
            for p, b in zip(g["ps"], binds):
                t = strip(p["t"])
                v = val(b)
                if t.endswith("Raster"):
                    d["raster"] = b if not isinstance(b, tuple) else b[1]
                elif "Quantizer" in t or t == "QuantIndices":
                    d["q"] = v
                elif t == "bool":
                    d["last"] = v
                elif t.startswith("Frame<"):
                    d["frame"] = v
                elif t.startswith("std::vector"):
                    pass
                elif "Optional" not in t and t != "double":
                    raise Unsupported("argument %s of %s" % (t, n))
            self.k += 1
            d["id"] = mk("in", "result %d" % self.k)
            self.steps.append((ev.guard(), d))
            return d["id"]
        if n == "append_frame":
            self.steps.append((ev.guard(), {"what": n, "frame": val(binds[0])}))
            return K(0)
        if c == "Chunk" and g["kind"] == "ctor" and len(binds) == 1:
            ev.store(this, val(binds[0]))
            return mk("void")
        return NotImplemented


def name_of(v):
    if v.op == "rec" and "name" in dict(v.args[1]):
        return field(v, "name")
    return v


def drive(run, name, f, pattern, extra):
    d = Driver(run, f, pattern, extra)
    ev = d.ev
    n = len(pattern)
    out, k = [], 0
    start = int(extra)
    refuse = n > start and extra and pattern[start] != "K" and pattern[0] != "K"
    try:
        s = summarize(ev, f)
    except Unsupported:
        raise
    k += leafcmp(b2v(s.live), K(int(not refuse)), "chunk re-encoded", TRUE, out)
    if refuse:
        run.count("values_compared", k)
        return verdict(run, name, f, out, k)
    want = []
    w = atom("in", "weight")

    def mixed(a, b):
        qa, qb = [field(field(q, "y_ac_qi"), "i_") for q in (a, b)]
        return rounded(mk("fop", "+", mk("fop", "*", w, qa), mk("fop", "*", mk("fop", "-", K(1), w), qb)))
    for i in range(start, n):
        kq, iq = quant(ev, KF, "k%d" % i), quant(ev, IF, "i%d" % i)
        fr = mk("in", ("k%d" if pattern[i] == "K" else "i%d") % i)
        last = K(int(i == n - 1))
        if i == start and pattern[i] == "K":
            y = mixed(kq, quant(ev, IF, "i%d" % (i + 1))) if i + 1 < n and pattern[i + 1] == "I" else None
            want.append(("reencode_as_interframe", i, fr, kq, y, None))
        elif pattern[i] == "K":
            want.append((None, i, fr, None, None, None))
        else:
            y = mixed(quant(ev, KF, "k0"), iq) if i == start and extra else None
            want.append(("update_residues", i, fr, iq, y, last))
    steps = [x for x in d.steps if x[0] is not FALSE]
    for g, x in steps:
        k += leafcmp(b2v(g), K(1), x["what"] + " always happens", TRUE, out)
    seq = [x for g, x in steps]
    pos = 0

    def nxt(what):
        nonlocal pos
        x = seq[pos] if pos < len(seq) else {"what": "nothing"}
        pos += 1
        if x["what"] != what:
            out.append(("step %d" % pos, mk("in", x["what"]), mk("in", what), {}))
            return None
        return x
    for what, i, fr, q, y, last in want:
        res = fr
        if what:
            x = nxt(what)
            if x is None:
                break
            k += 2
            r = x.get("raster")
            if r is None or r.op != "addr" or r.args[0] != ("raster", i):
                out.append(("picture given to %s for frame %d" % (what, i), r, mk("in", "picture %d" % i), {}))
            k += leafcmp(name_of(x["frame"]), fr, "original frame given to %s for frame %d" % (what, i), TRUE, out)
            wq = q
            if y is not None:
                qd = dict(q.args[1])
                qd["y_ac_qi"] = mk_rec(qd["y_ac_qi"].args[0], dict(qd["y_ac_qi"].args[1], i_=y))
                wq = mk_rec(q.args[0], qd)
            k += compare(ev, x["q"], wq, "QuantIndices", "quantizer of frame %d" % i, TRUE, out)
            if last is not None:
                k += leafcmp(tobv(x["last"]), last, "frame %d marked as the last" % i, TRUE, out)
            res = x["id"]
        x = nxt("write_frame")
        if x is None:
            break
        k += leafcmp(name_of(x["frame"]), res, "frame written for picture %d" % i, TRUE, out)
        y_ = nxt("append_frame")
        if y_ is None:
            break
        k += leafcmp(y_["frame"], x["id"], "bytes put in the file for picture %d" % i, TRUE, out)
    else:
        if pos != len(seq):
            out.append(("step %d" % (pos + 1), mk("in", seq[pos]["what"]), mk("in", "nothing"), {}))
    run.count("values_compared", k)
    run.count("frames_followed", n - start)
    verdict(run, name, f, out, k)


def refusals(run, name, f):
    out, k = [], 0
    for what, kw in (("no pictures", dict(pattern="", extra=0)), ("fewer pictures than frames", dict(pattern="KI", extra=0, counts=1)), ("more pictures than frames", dict(pattern="K", extra=0, counts=2)),
                     ("picture of another width", dict(pattern="KI", extra=0, sizes={(("raster", 1), "display_width"): K(64)})),
                     ("picture of another height", dict(pattern="KI", extra=0, sizes={(("raster", 0), "display_height"): K(64)})),
                     ("file of another width", dict(pattern="KI", extra=0, sizes={("file", "width"): K(64)})),
                     ("file of another height", dict(pattern="IK", extra=0, sizes={("file", "height"): K(64)}))):
        d = Driver(run, f, **kw)
        if "sizes" in kw:
            (who, dim), v = list(kw["sizes"].items())[0]
        s = summarize(d.ev, f)
        okc = FALSE
        if "sizes" in kw:
            okc = eq(d.W if dim.endswith("width") else d.H, K(64))
        k += leafcmp(b2v(s.live), b2v(okc), what + " accepted", TRUE, out)
    run.count("values_compared", k)
    verdict(run, name, f, out, k)


# ------------------------------------------------------------ one frame
class FrameFlow:
    """a frame of 3x2 macroblocks rebuilt from a picture; the operations on one macroblock are recorded"""
    MBS = (3, 2)
    OPS = ("update_macroblock", "luma_mb_inter_predict", "chroma_mb_inter_predict", "chroma_mb_intra_predict", "luma_mb_intra_predict",
           "calculate_has_nonzero", "reconstruct_inter", "reconstruct_intra")

    def __init__(self, run, f, T, last=None, seg=False, refresh=None):
        self.run, self.f = run, f
        P = run.prog
        self.ev = ev = Ev(P, gate=30)
        w, h = 16 * self.MBS[0], 16 * self.MBS[1]
        self.seen, self.k = [], 0
        ev.env[("temp raster",)] = self.raster("temp", w, h)
        ev.env[("original",)] = self.raster("original", w, h)
        tmp = mk_rec(mk("obj", "MutableRasterHandle"), {"raster_": mk("addr", ("temp raster",), ())})
        enc = sym(ev, "Encoder", "e", [(r"e\.(costs_|key_frame_|inter_frame_|subsampled_.*|encode_stats_|(safe_)?references_)$", lambda ev, t, n: mk("in", n)),
                                       (r"e\.decoder_state_\.(probability_tables|segmentation|filter_adjustments)$", lambda ev, t, n: mk("in", n)),
                                       (r"e\.temp_raster_handle_$", lambda ev, t, n: tmp),
                                       (r"e\.decoder_state_\.width$", lambda ev, t, n: K(w)), (r"e\.decoder_state_\.height$", lambda ev, t, n: K(h))])
        ev.env[("this",)] = enc
        hd = header(ev, T, "h")
        d = dict(hd.args[1])
        u = d["update_segmentation"]
        d["update_segmentation"] = mk_rec(u.args[0], dict(u.args[1], initialized_=K(int(seg))))
        self.hdr = hd = mk_rec(hd.args[0], d)
        self.q = sym(ev, "QuantIndices", "q", OVER)
        bound(run, f, ev, [(r"Raster$", ev.env[("original",)]), (r"^Frame<", self.frame("original", hd)), (r"QuantIndices", self.q), (r"^bool", K(int(bool(last))))])
        self.oroot = next(("arg", i) for i, p in enumerate(f["ps"]) if strip(p["t"]).endswith("Raster"))
        ev.ihook = self.ihook

    def raster(self, name, w, h):
        return mk_rec(mk("obj", "VP8Raster"), {"name": mk("in", name), "width_": K(w), "height_": K(h), "display_width_": K(w), "display_height_": K(h)})

    def frame(self, name, hd):
        mbs = mk_rec(mk("obj", "Optional"), {"initialized_": K(1), "object_": mk("in", "macroblocks of " + name)})
        d = {"header_": hd, "name": mk("in", name), "macroblock_headers_": mbs, "display_width_": K(16 * self.MBS[0]), "display_height_": K(16 * self.MBS[1]), "show_": K(1)}
        return mk_rec(mk("obj", "frame"), d)

    def note(self, ev, n, d):
        self.seen.append((ev.guard(), n, d))

    def ihook(self, ev, g, this, binds, e):
        n, c = tail(g["q"]), g.get("cls") or ""
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        if g["kind"] == "ctor":
            if c.startswith("VP8MutableRasterHandle<") and len(binds) >= 2:
                self.k += 1
                r = ("rebuilt", self.k)
                w, h = val(binds[0]), val(binds[1])
                if (w, h) != (K(16 * self.MBS[0]), K(16 * self.MBS[1])):
                    raise Unsupported("size of the rebuilt picture")
                ev.env[r] = self.raster("rebuilt %d" % self.k, w.args[0], h.args[0])
                ev.store(this, mk_rec(mk("obj", "MutableRasterHandle"), {"raster_": mk("addr", r, ())}))
                return mk("void")
            if c.startswith("Frame<") and len(binds) == 2 and "int" in g["ps"][0]["t"] or c.startswith("Frame<") and len(binds) == 2 and "short" in g["ps"][0]["t"]:
                T = IF if "<Inter" in c else KF
                ev.store(this, self.frame("new", header(ev, T, "blank")))
                return mk("void")
            if c.startswith("Frame<") and len(binds) == 1:
                ev.store(this, val(binds[0]))
                return mk("void")
            if c == "Quantizer" and len(binds) == 1:
                ev.store(this, mk_rec(mk("obj", "Quantizer"), {"of": val(binds[0])}))
                return mk("void")
            if c == "ProbabilityTables" or c.startswith("SafeArray<SafeArray<"):
                ev.store(this, mk("in", "tables"))
                return mk("void")
            if c == "VP8Raster::Macroblock" and len(binds) == 1:
                ev.store(this, val(binds[0]))
                return mk("void")
            if c == "VP8Raster::ConstMacroblock" and len(binds) == 3:
                ev.store(this, mk_rec(mk("obj", "ConstMacroblock"), {"macroblock_": self.view(val(binds[2]), val(binds[0]), val(binds[1]))}))
                return mk("void")
            if c == "VP8Raster::Macroblock" and len(binds) == 3:
                ev.store(this, self.view(val(binds[2]), val(binds[0]), val(binds[1])))
                return mk("void")
            return NotImplemented
        if n == "macroblock" and c in ("VP8Raster", "HashCachedRaster") and len(binds) == 2:
            v = self.view(ev.load(this), val(binds[0]), val(binds[1]))
            return v if "Const" not in str(g.get("rt", g.get("ret", ""))) else mk_rec(mk("obj", "ConstMacroblock"), {"macroblock_": v})
        if c.startswith("TwoD<Macroblock<") and n == "at":
            v = ev.load(this)
            if v.op != "in":
                raise Unsupported("macroblock array")
            x, y = val(binds[0]), val(binds[1])
            if x.op != "k" or y.op != "k" or not (0 <= x.args[0] < self.MBS[0] and 0 <= y.args[0] < self.MBS[1]):
                raise Unsupported("macroblock position")
            r = ("mb", v.args[0], x.args[0], y.args[0])
            ev.env.setdefault(r, mk("in", "%s at %d,%d" % (v.args[0], x.args[0], y.args[0])))
            return ev.addr(r)
        if c.startswith("Macroblock<") and n == "inter_coded":
            a = this
            return atom("in", "inter coded %s" % (a.args[0],), lo=0, hi=1)
        if n in self.OPS and (c == "Encoder" or c.startswith("Macroblock<")):
            d = {"mbs": [], "views": [], "this": this if c != "Encoder" else None}
            for p, b in zip(g["ps"], binds):
                t = strip(p["t"])
                if t.startswith("Macroblock<"):
                    d["mbs"].append(b if not isinstance(b, tuple) else b[1])
                elif t.endswith("Raster::Macroblock"):
                    d["views"].append(val(b))
                elif t == "Quantizer":
                    d["quant"] = val(b)
                elif t == "References":
                    d["refs"] = b if not isinstance(b, tuple) else b[1]
            if this is not None and c.startswith("Macroblock<"):
                d["mbs"].append(this)
            self.note(ev, n, d)
            return mk("void")
        if n in ("relink_y2_blocks", "optimize_prob_skip", "optimize_interframe_probs", "optimize_probability_tables", "apply_best_loopfilter_settings", "accumulate_token_branches", "fill_mv_component_costs", "fill_mode_costs", "update") and (c == "Encoder" or c.startswith(("Frame<", "Macroblock<")) or c in ("Costs", "ProbabilityTables")):
            d = {"this": this}
            for p, b in zip(g["ps"], binds):
                t = strip(p["t"])
                if t.startswith("Frame<"):
                    d["frame"] = b if not isinstance(b, tuple) else b[1]
                elif t.endswith("Raster"):
                    d.setdefault("rasters", []).append(field(val(b), "name"))
            self.note(ev, n, d)
            return mk("void")
        return NotImplemented

    def view(self, r, x, y):
        r = self.ev.load(r) if r.op == "addr" else r
        if r.op != "rec" or "name" not in dict(r.args[1]):
            raise Unsupported("macroblock of an unknown picture")
        return mk("view", field(r, "name").args[0], x, y)


def flow(run, name, f, T, last=None):
    """every macroblock of the new frame is rebuilt from its own picture and its own original, in an order that has its neighbours ready"""
    fl = FrameFlow(run, f, T, last)
    ev = fl.ev
    s = summarize(ev, f)
    out = []
    n = leafcmp(b2v(s.live), K(1), "frame rebuilt", TRUE, out)
    W, H = fl.MBS
    done = {}
    steps = [x for x in fl.seen if x[0] is not FALSE]
    update = T == IF
    ops = {}
    for i, (g, what, d) in enumerate(steps):
        if what not in fl.OPS:
            continue
        own = [m for m in d["mbs"] if m.op == "addr" and m.args[0][0] == "mb" and m.args[0][1] == "macroblocks of new"]
        if len(own) != 1:
            raise Unsupported("macroblock given to %s" % what)
        pos = own[0].args[0][2:]
        ops.setdefault(pos, []).append((i, g, what, d))
        k = K(pos[0]), K(pos[1])
        vs = d["views"]
        if what == "update_macroblock" and len(vs) == 3 or what.endswith("_predict") and len(vs) == 3:
            wants = [mk("view", "original", *k), mk("view", "rebuilt 1", *k), mk("view", "temp", *k)]
        elif what.startswith("reconstruct"):
            wants = [mk("view", "rebuilt 1", *k)]
        else:
            wants = []
        n += 1
        if vs != wants:
            out.append(("pictures %s of macroblock %d,%d works on" % ((what,) + pos), mk("in", str([show(v) for v in vs])), mk("in", str([show(v) for v in wants])), {}))
        if "quant" in d:
            n += compare(ev, field(d["quant"], "of"), fl.q, "QuantIndices", "quantizer of macroblock %d,%d" % pos, TRUE, out)
        if what == "update_macroblock":
            o = [m.args[0] for m in d["mbs"] if m is not own[0]]
            n += 1
            if o != [("mb", "macroblocks of original") + pos]:
                out.append(("original macroblock of macroblock %d,%d" % pos, mk("in", str(o)), mk("in", str(pos)), {}))
        if "refs" in d:
            n += leafcmp(d["refs"], mk("addr", ("this",), (("f", "references_"),)), "references of macroblock %d,%d" % pos, TRUE, out)
    for y in range(H):
        for x in range(W):
            mine = [o for o in ops.get((x, y), []) if o[2] != "calculate_has_nonzero"]
            c = atom("in", "inter coded %s" % (("mb", "macroblocks of new", x, y),), lo=0, hi=1)
            if update:
                want = [("update_macroblock", TRUE)]
            else:
                want = [("luma_mb_inter_predict", TRUE), ("chroma_mb_inter_predict", tobool(c)), ("chroma_mb_intra_predict", c_not(tobool(c))), ("reconstruct_inter", tobool(c)), ("reconstruct_intra", c_not(tobool(c)))]
            kinds = sorted(o[2] for o in mine)
            n += 1
            if kinds != sorted(k for k, _ in want):
                out.append(("operations on macroblock %d,%d" % (x, y), mk("in", str(kinds)), mk("in", str([k for k, _ in want])), {}))
                continue
            by = {o[2]: o for o in mine}
            for k, g in want:
                n += leafcmp(b2v(by[k][1]), b2v(g), "when %s happens to macroblock %d,%d" % (k, x, y), TRUE, out)
            if not update:
                nz = [o for o in ops[x, y] if o[2] == "calculate_has_nonzero" and o[1] is TRUE]
                ordered = any(max(by[k][0] for k, _ in want[:3]) < z[0] < min(by[k][0] for k, _ in want[3:]) for z in nz) and by["luma_mb_inter_predict"][0] < min(by[k][0] for k, _ in want[1:3])
                n += 1
                if not ordered:
                    out.append(("order of the operations on macroblock %d,%d" % (x, y), mk("in", str([o[2] for o in ops[x, y]])), mk("in", "luma, chroma, coefficient flags, reconstruction"), {}))
            first, lst = min(o[0] for o in mine), max(o[0] for o in mine)
            done[x, y] = (first, lst)
    for (x, y), (first, _) in done.items():
        for dx, dy in ((-1, 0), (-1, -1), (0, -1), (1, -1)):
            o = done.get((x + dx, y + dy))
            n += 1
            if o and o[1] > first:
                out.append(("macroblock %d,%d rebuilt before its neighbour %d,%d" % (x, y, x + dx, y + dy), K(1), K(0), {}))
    end = max((b for _, b in done.values()), default=-1)
    rl = [i for i, (g, what, d) in enumerate(steps) if what == "relink_y2_blocks" and g is TRUE]
    n += leafcmp(K(int(bool(rl) and rl[-1] > end)), K(1), "second-order blocks linked once every macroblock is rebuilt", TRUE, out)
    sk = [i for i, (g, what, d) in enumerate(steps) if what == "optimize_prob_skip" and g is TRUE]
    n += leafcmp(K(int(bool(sk) and sk[-1] > end)), K(1), "skipping enabled once every macroblock is rebuilt", TRUE, out)
    if not update:
        lf = [(i, d) for i, (g, what, d) in enumerate(steps) if what == "apply_best_loopfilter_settings" and g is TRUE]
        n += leafcmp(K(int(len(lf) == 1 and lf[0][0] > end and [x.args[0] for x in lf[0][1]["rasters"]] == ["original", "rebuilt 1"])), K(1), "loop filter chosen for the rebuilt picture", TRUE, out)
    # the header
    v = s.retv
    v = ev.load(v) if v.op == "addr" else v
    if field(v, "name") is not mk("in", "new"):
        out.append(("frame returned", field(v, "name"), mk("in", "new"), {}))
    h = field(v, "header_")
    o = fl.hdr
    types = {x["n"]: strip(x["t"]) for x in ev.rec(IF)["fields"]}
    same = ["filter_type", "loop_filter_level", "sharpness_level", "mode_lf_adjustments", "update_segmentation"]
    if update:
        same += ["sign_bias_golden", "sign_bias_alternate", "refresh_entropy_probs"]
        if not last:
            same += ["refresh_last", "refresh_golden_frame", "refresh_alternate_frame", "copy_buffer_to_golden", "copy_buffer_to_alternate"]
    for m in same:
        n += compare(ev, field(h, m), field(o, m), types[m], m, s.live, out)
    n += compare(ev, field(h, "quant_indices"), fl.q, "QuantIndices", "quant_indices", s.live, out)
    if not update or last:
        for m in ("refresh_last", "refresh_golden_frame", "refresh_alternate_frame"):
            n += leafcmp(flag(field(h, m)), K(1), m, s.live, out)
        for m in ("copy_buffer_to_golden", "copy_buffer_to_alternate"):
            n += leafcmp(tobv(field(field(h, m), "initialized_", None, 0, 1)), K(0), m, s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def segmented(run, name, f):
    out = []
    fl = FrameFlow(run, f, KF, seg=True)
    s = summarize(fl.ev, f)
    n = leafcmp(b2v(s.live), K(0), "segmented key frame accepted", TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


# ------------------------------------------------------------ one macroblock
def atoms_in(v, acc, seen):
    if isinstance(v, tuple):
        for x in v:
            atoms_in(x, acc, seen)
        return
    if not isinstance(v, T) or v in seen:
        return
    seen.add(v)
    if v.op in ("in", "addr"):
        acc.add(v)
        return
    for x in v.args:
        atoms_in(x, acc, seen)


def original_mb(run, ev, MB, mode, uv, header_):
    """a second macroblock, the original's, next to the one being rebuilt"""
    e2 = Ev(run.prog, gate=30)
    m, co, mvs = mbstate(run, e2, MB, mode, uv, True, b0=2)
    roots = [r for r in e2.env if r[0] in ("mY", "mU", "mV", "mY2")]
    acc, seen = set(), set()
    for v in [m] + [e2.env[r] for r in roots]:
        atoms_in(v, acc, seen)
    sub_ = {}
    for t in acc:
        if t.op == "in" and isinstance(t.args[0], str):
            sub_[t] = atom("in", "original " + t.args[0], *t.args[1:], lo=t.lo, hi=t.hi)
        elif t.op == "addr" and t.args[0] in roots:
            sub_[t] = mk("addr", ("o" + t.args[0][0][1:],), t.args[1])
    for r in roots:
        ev.env[("o" + r[0][1:],)] = rebuild(e2.env[r], sub_)
    m = rebuild(m, sub_)
    d = dict(m.args[1])
    d["header_"] = header_
    return mk_rec(m.args[0], d), {k: tuple(rebuild(x, sub_) for x in v) for k, v in mvs.items()}, co


def mb_update(run, name, f, mode, stale, uvmode):
    P = run.prog
    ts = [strip(p["t"]) for p in f["ps"]]
    MB = next(t for t in ts if t.startswith("Macroblock<"))
    sc = Scene(run, MB, stale, stale)
    ev = sc.ev
    inter = mode in ("NEARESTMV", "NEARMV", "ZEROMV", "NEWMV", "SPLITMV")
    uv = enumval(P, uvmode)
    s1 = atom("in", "other reference than last", lo=0, hi=1)
    boolean = lambda v: mk_rec(mk("obj", "b"), {"i_": v})
    opt = lambda i, v: mk_rec(mk("obj", "opt"), {"initialized_": i, "object_": boolean(v)})
    base = sym(ev, "InterFrameMacroblockHeader", "oh")
    d = dict(base.args[1])
    d["is_inter_mb"] = boolean(K(int(inter)))
    d["mb_ref_frame_sel1"] = opt(K(int(inter)), s1 if inter else K(0))
    d["mb_ref_frame_sel2"] = opt(s1 if inter else K(0), atom("in", "golden or alternative", lo=0, hi=1))
    ohd = mk_rec(base.args[0], d)
    om, omv, oco = original_mb(run, ev, MB, mode, uv, ohd)
    order, mbs = ["source", "output", "scratch"], []
    for i, p in enumerate(f["ps"]):
        t = strip(p["t"])
        if t.endswith("VP8Raster::Macroblock"):
            ev.env[("arg", i)] = sc.views[order.pop(0)]
        elif t.startswith("Macroblock<"):
            mbs.append(i)
            ev.env[("arg", i)] = sc.m if len(mbs) == 1 else om
        elif t == "Quantizer":
            ev.env[("arg", i)] = sc.qrec
        else:
            raise Unsupported("parameter %s" % t)
    slot = mbs[0]
    ev.env[("this",)] = sym(ev, "Encoder", "e", [(r"e\.(decoder_state_|costs_|key_frame_|inter_frame_|subsampled_.*|encode_stats_|(safe_)?references_|temp_raster_handle_)$", lambda ev, t, n: mk("in", n))])
    log = []

    def viewname(v):
        for t in sc.views:
            if v is sc.views[t]:
                return t
        raise Unsupported("macroblock view")

    def hook(ev, g, this, binds, e):
        n, c = tail(g["q"]), g.get("cls") or ""
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        m = re.match(r"VP8Raster::Block<(\d+)>$", c)
        if m and n in ("intra_predict", "inter_predict"):
            t, p, i = sc.where(this)
            r = binds[-1] if n == "inter_predict" else None
            r = r[1] if isinstance(r, tuple) else r
            log.append((ev.guard(), n, (t, p, i, int(m.group(1))), val(binds[0]), r))
            return mk("void")
        if n == "at" and c == "References":
            v = val(binds[0])
            return ev.addr(("reference", v))
        if c == "BaseRaster" and n in "YUV" and this is not None and this.op == "addr" and this.args[0][0] == "reference":
            return ev.addr(("refplane", this.args[0][1], n))
        if n in ("luma_mb_apply_intra_prediction", "luma_mb_apply_inter_prediction", "chroma_mb_apply_intra_prediction", "chroma_mb_inter_predict", "luma_sb_apply_intra_prediction", "reconstruct_inter", "reconstruct_intra", "calculate_has_nonzero") and (c == "Encoder" or c.startswith("Macroblock<")):
            d = {"views": []}
            for p, b in zip(g["ps"], binds):
                t = strip(p["t"])
                a = b if not isinstance(b, tuple) else b[1]
                if t.endswith("VP8Raster::Macroblock"):
                    d["views"].append(viewname(val(b)))
                elif "VP8Raster::Block" in t:
                    d["views"].append(sc.where(b))
                elif t.startswith("Macroblock<"):
                    d["mb"] = a
                elif t.startswith("Block<"):
                    d["block"] = a
                elif t == "Quantizer":
                    d["quant"] = val(b)
                elif t in ("mbmode", "bmode") or t.endswith("mode"):
                    d["mode"] = val(b)
                elif t == "MotionVector":
                    d["mv"] = val(b)
                elif t == "References":
                    d["refs"] = a
            if c.startswith("Macroblock<"):
                d["mb"] = this
            d["now"] = (ev.load(ev.addr(("arg", slot))), ev.load(ev.addr(("mY",))))
            log.append((ev.guard(), n, d))
            return mk("void")
        return NotImplemented
    ev.ihook = hook
    s = summarize(ev, f)
    out = []
    n = leafcmp(b2v(s.live), K(1), "macroblock rebuilt", TRUE, out)
    log = [x for x in log if x[0] is not FALSE]
    for x in log:
        n += leafcmp(b2v(x[0]), K(1), x[1] + " always happens", TRUE, out)
    target = mk("addr", ("arg", slot), ())
    pos = {}
    for i, x in enumerate(log):
        if isinstance(x[2], tuple):
            pos.setdefault((x[1],) + x[2], []).append(i)
        else:
            pos.setdefault(x[1], []).append(i)
            dd = x[2]
            if dd.get("mb") is not None and dd["mb"] is not target:
                out.append((x[1] + " works on", dd["mb"], target, {}))
            if "quant" in dd:
                for q in sc.q:
                    n += leafcmp(field(dd["quant"], q), sc.q[q], "%s of %s" % (q, x[1]), TRUE, out)
            if "refs" in dd:
                n += leafcmp(dd["refs"], mk("addr", ("this",), (("f", "references_"),)), "references of " + x[1], TRUE, out)

    def last(k, what):
        if not pos.get(k):
            out.append((what, K(0), K(1), {}))
            return None
        return pos[k][-1]

    def before(a, b, what):
        nonlocal n
        n += 1
        if a is None or b is None or not a < b:
            out.append((what, K(0), K(1), {}))

    def only(what, names):
        nonlocal n
        n += 1
        have = sorted({x[1] for x in log if not isinstance(x[2], tuple)})
        if have != sorted(names):
            out.append((what, mk("in", str(have)), mk("in", str(sorted(names))), {}))
    mv = K(enumval(P, mode))
    if inter:
        names = ["luma_mb_apply_inter_prediction", "chroma_mb_inter_predict", "calculate_has_nonzero", "reconstruct_inter"]
        only("operations on an inter macroblock", names)
        ref = spec_ref(run, ohd)
        la = last(names[0], "luma residue taken")
        if mode != "SPLITMV":
            wants = [(0, 16, omv["Y", 15])]
        else:
            wants = [(i, 4, omv["Y", i]) for i in range(16)]
        for i, size, v in wants:
            k = ("inter_predict", "output", "Y", i, size)
            x = last(k, "luma block %d predicted" % i)
            before(x, la, "luma block %d predicted before its residue" % i)
            if x is not None:
                for a, w in zip(("x_", "y_"), v):
                    n += leafcmp(field(log[x][3], a), w, "vector %s of luma block %d" % (a, i), TRUE, out)
                r = log[x][4]
                if r.op != "addr" or r.args[0][0] != "refplane" or r.args[0][2] != "Y":
                    out.append(("plane luma block %d is predicted from" % i, r, mk("in", "Y"), {}))
                else:
                    n += leafcmp(r.args[0][1], ref, "reference luma block %d is predicted from" % i, TRUE, out)
        if any(x[1] == "intra_predict" and x[2][0] == "output" for x in log if isinstance(x[2], tuple)):
            out.append(("prediction of an inter macroblock", mk("in", "intra"), mk("in", "inter"), {}))
        seqn = [last(k, k) for k in names]
        for a, b, k in zip(seqn, seqn[1:], names[1:]):
            before(a, b, "%s after what it depends on" % k)
        if la is not None:
            dd = log[la][2]
            n += leafcmp(dd["mode"], mv, "mode of the macroblock", TRUE, out)
            for a, w in zip(("x_", "y_"), omv["Y", 15]):
                if mode != "SPLITMV":
                    n += leafcmp(field(dd["mv"], a), w, "vector %s of the macroblock" % a, TRUE, out)
            # what the residue is computed for
            blocks = dd["now"][1]
            if mode == "SPLITMV":
                fake = type("S", (), {"env": {("mY",): blocks}})
                for i in range(16):
                    b = block_at(fake, "Y", i)
                    for a, w in zip(("x_", "y_"), omv["Y", i]):
                        n += leafcmp(field(field(b, "motion_vector_"), a), w, "vector %s written for luma block %d" % (a, i), TRUE, out)
                    n += leafcmp(field(b, "prediction_mode_"), oco["bmode", i], "mode written for luma block %d" % i, TRUE, out)
                    n += leafcmp(field(b, "type_", None, 0, 3), K(3), "type of luma block %d" % i, TRUE, out)
    else:
        names = ["luma_mb_apply_intra_prediction", "chroma_mb_apply_intra_prediction", "calculate_has_nonzero", "reconstruct_intra"]
        only("operations on an intra macroblock", names + (["luma_sb_apply_intra_prediction"] if mode == "B_PRED" else []))
        seqn = [last(k, k) for k in names]
        before(seqn[0], seqn[2], "coefficient flags after the luma residue")
        before(seqn[1], seqn[2], "coefficient flags after the chroma residue")
        before(seqn[2], seqn[3], "reconstruction after the coefficient flags")
        if mode != "B_PRED":
            x = last(("intra_predict", "output", "Y", 0, 16), "luma predicted")
            before(x, seqn[0], "luma predicted before its residue")
            if x is not None:
                n += leafcmp(log[x][3], mv, "mode luma is predicted with", TRUE, out)
        else:
            prev = -1
            sb = {log[i][2]["views"][1][2]: i for i in pos.get("luma_sb_apply_intra_prediction", []) if log[i][2]["views"][1][:2] == ("output", "Y")}
            for i in range(16):
                x = last(("intra_predict", "output", "Y", i, 4), "luma block %d predicted" % i)
                y = sb.get(i)
                before(x, y, "luma block %d predicted before its residue" % i)
                for j in (i - 1 if i % 4 else None, i - 4 if i >= 4 else None, i - 3 if i >= 4 and i % 4 < 3 else None, i - 5 if i >= 4 and i % 4 else None):
                    if j is not None:
                        before(sb.get(j), x, "luma block %d predicted after block %d is rebuilt" % (i, j))
                if x is None or y is None:
                    continue
                n += leafcmp(log[x][3], oco["bmode", i], "mode luma block %d is predicted with" % i, TRUE, out)
                dd = log[y][2]
                n += leafcmp(dd["mode"], oco["bmode", i], "mode written for luma block %d" % i, TRUE, out)
                n += 2
                if dd["views"] != [("source", "Y", i), ("output", "Y", i)]:
                    out.append(("pictures luma block %d is compared between" % i, mk("in", str(dd["views"])), mk("in", "source, output"), {}))
                if not is_block(dd["block"], i):
                    out.append(("coefficients of luma block %d" % i, dd["block"], mk("in", "block %d" % i), {}))
                before(y, seqn[0], "luma blocks before the macroblock")
        for p in "UV":
            x = last(("intra_predict", "output", p, 0, 8), p + " predicted")
            before(x, seqn[1], p + " predicted before its residue")
            if x is not None:
                n += leafcmp(log[x][3], K(uv), "mode %s is predicted with" % p, TRUE, out)
        if seqn[0] is not None:
            n += leafcmp(log[seqn[0]][2]["mode"], mv, "mode of the macroblock", TRUE, out)
        if seqn[1] is not None:
            n += leafcmp(log[seqn[1]][2]["mode"], K(uv), "chroma mode of the macroblock", TRUE, out)
        if any(x[1] == "inter_predict" and x[2][0] == "output" for x in log if isinstance(x[2], tuple)):
            out.append(("prediction of an intra macroblock", mk("in", "inter"), mk("in", "intra"), {}))
    for x in log:
        if isinstance(x[2], dict) and x[1] != "luma_sb_apply_intra_prediction" and x[2]["views"]:
            w = ["output"] if x[1].startswith("reconstruct") else ["source", "output", "scratch"][:len(x[2]["views"])]
            n += 1
            if x[2]["views"] != w:
                out.append(("pictures given to " + x[1], mk("in", str(x[2]["views"])), mk("in", str(w)), {}))
    for where, hd in [("when chroma is predicted", field(log[x][2]["now"][0], "header_")) for x in [last(names[1], names[1])] if inter and x is not None] + [("at the end", field(s.env[("arg", slot)], "header_"))]:
        n += leafcmp(flag(field(hd, "is_inter_mb")), K(int(inter)), "inter flag " + where, TRUE, out)
        n += leafcmp(spec_ref(run, hd), spec_ref(run, ohd), "reference " + where, TRUE, out)
        if inter:
            for sname in ("mb_ref_frame_sel1", "mb_ref_frame_sel2"):
                g0, w0 = field(hd, sname), field(ohd, sname)
                gi, wi = tobv(field(g0, "initialized_", None, 0, 1)), tobv(field(w0, "initialized_", None, 0, 1))
                n += leafcmp(gi, wi, "%s present %s" % (sname, where), TRUE, out)
                n += leafcmp(flag(field(g0, "object_")), flag(field(w0, "object_")), "%s %s" % (sname, where), tobool(wi), out)
    run.count("values_compared", n)
    run.count("modes", 1)
    verdict(run, name, f, out, n)


def is_block(a, i):
    if a.op != "addr" or a.args[0] != ("mY",):
        return False
    idx = [x[1] for x in a.args[1] if x[0] == "i"]
    n = 4
    return len(idx) == 1 and idx[0] is K((n + i // n) * FW * n + 2 * n + i % n)


def spec_ref(run, hd):
    from rules.encframe import spec_reference
    return spec_reference(run, None, hd)


def check(run):
    P = run.prog
    f = one(run, "re-encoding of a chunk", [g for g in fns(P) if g["q"] == "Encoder::reencode"])
    if f:
        for n in (1, 2, 3, 4):
            for pat in itertools.product("KI", repeat=n):
                for extra in (0, 1):
                    if extra and n == 1:
                        continue
                    pat_ = "".join(pat)
                    nm = "chunk %s%s" % (pat_, " after an extra frame" if extra else "")
                    run.attempt(nm, drive, run, nm, f, pat_, extra)
        run.attempt("chunks refused", refusals, run, "chunks refused", f)
    for g in fns(P):
        if g["q"] == "Encoder::update_residues":
            for last in (0, 1):
                nm = "residues of %s frame" % ("the last" if last else "a")
                run.attempt(nm, flow, run, nm, g, IF, last)
        if g["q"] == "Encoder::reencode_as_interframe" and any("<KeyFrame" in p["t"] for p in g["ps"]):
            run.attempt("key frame turned into an inter frame", flow, run, "key frame turned into an inter frame", g, KF)
            run.attempt("segmented key frame refused", segmented, run, "segmented key frame refused", g)
        if g["q"] == "Encoder::update_macroblock":
            for mode in ("DC_PRED", "V_PRED", "H_PRED", "TM_PRED", "B_PRED", "NEARESTMV", "NEARMV", "ZEROMV", "NEWMV", "SPLITMV"):
                for stale in ("DC_PRED", "SPLITMV"):
                    uv = {"DC_PRED": "TM_PRED", "V_PRED": "H_PRED", "H_PRED": "V_PRED"}.get(mode, "DC_PRED")
                    nm = "%s macroblock rebuilt over a %s one" % (mode, stale)
                    run.attempt(nm, mb_update, run, nm, g, mode, stale, uv)
    run.floor("values_compared", 100)
