"""Dequantization, inverse transforms and reconstruction of macroblocks against RFC 6386."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.mbsyntax import block_cls, FW
from rules.mbsyntax import plane as blockplane, fresh_block
from rules.tokens import coef_block, shape
from rules.pixels import plane as pixplane, enumval
import terms

S16 = (-32768, 32767)
PLANES = {"Y": (16, 4), "U": (8, 2), "V": (8, 2)}
YQ = ("y_dc", "y_ac", "y2_dc", "y2_ac", "uv_dc", "uv_ac")
QMAX = {"y_dc": 157, "y_ac": 284, "y2_dc": 314, "y2_ac": 440, "uv_dc": 132, "uv_ac": 284}


# ------------------------------------------------------------ vector intrinsics
def vec8(f):
    def h(ev, e):
        return f(ev, e, [a for a in e.get("a", [])])
    return h


def intrinsics(ev):
    def loadu(ev, e, a):
        arr, off = ev.split(ev.rv(a[0]))
        if arr is None:
            raise Unsupported("vector load")
        v = ev.load(arr)
        return mk("v8", *[elem(v, add(off, K(i)), *S16) for i in range(8)])

    def store(ev, e, a):
        arr, off = ev.split(ev.rv(a[0]))
        v = ev.rv(a[1])
        if arr is None or v.op != "v8":
            raise Unsupported("vector store")
        for i in range(8):
            ev.store(ev.ext(arr, ("i", add(off, K(i)))), v.args[i])
        return mk("void")

    def set_(ev, e, a):
        return mk("v8", *[ev.cast(ev.rv(x), "short") for x in reversed(a)])

    def set1(ev, e, a):
        return mk("v8", *[ev.cast(ev.rv(a[0]), "short")] * 8)

    def lanes(op):
        def f(ev, e, a):
            x, y = ev.rv(a[0]), ev.rv(a[1])
            if x.op != "v8" or y.op != "v8":
                raise Unsupported("vector operand")
            return mk("v8", *[ev.cast(op(p, q), "short") for p, q in zip(x.args, y.args)])
        return f
    for n, f in (("_mm_loadu_si128", loadu), ("_mm_load_si128", loadu), ("_mm_store_si128", store), ("_mm_storeu_si128", store),
                 ("_mm_set_epi16", set_), ("_mm_set1_epi16", set1), ("_mm_mullo_epi16", lanes(mul)), ("_mm_add_epi16", lanes(add)), ("_mm_sub_epi16", lanes(sub))):
        ev.hooks[n] = vec8(f)


# ------------------------------------------------------------ abstract pixels
class Canvas:
    """one value per 4x4 block of each plane of the macroblock under reconstruction"""

    def __init__(self, ev, W, mc, mr):
        self.W, self.mc, self.mr = W, mc, mr
        for p, (size, n) in PLANES.items():
            ev.env[("px", p)] = mk_arr(mk("obj", "px" + p), {i: atom("in", "old %s %d" % (p, i), lo=0, hi=255) for i in range(n * n)}, ())

    def get(self, ev, p, i):
        return ev.load(mk("addr", ("px", p), (("i", K(i)),)))

    def put(self, ev, p, i, v):
        ev.store(mk("addr", ("px", p), (("i", K(i)),)), v)

    def at(self, ev, p, x, y):
        """block index of a pixel position relative to the macroblock"""
        size, n = PLANES[p]
        dx, dy = sub(x, mul(K(size), self.mc)), sub(y, mul(K(size), self.mr))
        if dx.op != "k" or dy.op != "k" or dx.args[0] % 4 or dy.args[0] % 4 or not (0 <= dx.args[0] < size and 0 <= dy.args[0] < size):
            return None
        return dy.args[0] // 4 * n + dx.args[0] // 4

    def plane_of(self, a):
        r = a.args[0]
        if r[0] == "mem" and r[1].endswith(".storage"):
            return r[1][:-8]
        return None

    def addr(self, ev, a):
        """(plane, block) of a pixel address"""
        arr, off = ev.split(a)
        p = self.plane_of(arr) if arr is not None else None
        if p not in PLANES:
            raise Unsupported("pixel address %s" % show(a)[:80])
        size, n = PLANES[p]
        W = self.W if p == "Y" else self.Wc(ev)
        for i in range(n * n):
            x, y = add(mul(K(size), self.mc), K(i % n * 4)), add(mul(K(size), self.mr), K(i // n * 4))
            if sub(off, add(mul(y, W), x)) is K(0):
                return p, i, W
        raise Unsupported("pixel address outside the macroblock or inside a block: %s" % show(off)[:80])

    def Wc(self, ev):
        return mul(K(8), self.mbw)

    def intra_deps(self, get, p, i):
        n = 4
        k, m = i % n, i // n
        d = []
        for dk, dm in ((-1, 0), (-1, -1), (0, -1), (1, -1)):
            kk, mm = k + dk, m + dm
            if 0 <= kk < n and 0 <= mm < n:
                d.append(get(mm * n + kk))
        return d

    def idct(self, old, coefs):
        if all(c is K(0) for c in coefs):
            return old
        return atom("h", "residue", old, *coefs, lo=0, hi=255)


def iwht(i, coefs):
    if all(c is K(0) for c in coefs):
        return K(0)
    return atom("h", "walsh%d" % i, *coefs, lo=S16[0], hi=S16[1])


def canvas_hooks(ev, cv):
    def idct_hook(ev, e):
        a = [ev.rv(x) for x in e["a"]]
        arr, off = ev.split(a[0])
        v = ev.load(arr)
        co = [elem(v, add(off, K(i)), *S16) for i in range(16)]
        p, i, W = cv.addr(ev, a[1])
        p2, i2, _ = cv.addr(ev, a[3])
        if sub(a[2], W) is not K(0) or sub(a[4], W) is not K(0):
            raise Unsupported("stride of the inverse transform")
        cv.put(ev, p2, i2, cv.idct(cv.get(ev, p, i), co))
        return mk("void")

    def walsh_hook(ev, e):
        a = [ev.rv(x) for x in e["a"]]
        arr, off = ev.split(a[0])
        v = ev.load(arr)
        co = [elem(v, add(off, K(i)), *S16) for i in range(16)]
        dst = a[1]
        if dst.op != "addr":
            raise Unsupported("walsh output")
        path = list(dst.args[1])
        idx = [j for j, s in enumerate(path) if s[0] == "i"]
        if len(idx) == 3 and all(path[j][1] is K(0) for j in idx):
            for i in range(16):
                q = list(path)
                q[idx[0]], q[idx[1]] = ("i", K(i // 4)), ("i", K(i % 4))
                ev.store(mk("addr", dst.args[0], tuple(q)), iwht(i, co))
        elif len(idx) == 2 and all(path[j][1] is K(0) for j in idx):
            for i in range(16):
                q = list(path)
                q[idx[0]] = ("i", K(i))
                ev.store(mk("addr", dst.args[0], tuple(q)), iwht(i, co))
        else:
            raise Unsupported("walsh output layout")
        return mk("void")
    ev.hooks["vp8_short_idct4x4llm_mmx"] = idct_hook
    ev.hooks["vp8_short_inv_walsh4x4_sse2"] = walsh_hook

    def val(b):
        return ev.load(b) if not isinstance(b, tuple) else b[1]

    def ih(ev, f, this, binds, e):
        m = re.match(r"VP8Raster::Block<(\d+)>$", f.get("cls") or "")
        if not m or this is None:
            return NotImplemented
        n = f["q"].rsplit("::", 1)[-1]
        size = int(m.group(1))
        if (n, len(f["ps"])) not in (("intra_predict", 1), ("inter_predict", 2)):
            return NotImplemented
        b = ev.load(this)
        sr = field(b, "contents_")
        p = cv.plane_of(field(sr, "master_"))
        x, y = field(sr, "column_"), field(sr, "row_")
        i0 = cv.at(ev, p, x, y) if p else None
        if i0 is None:
            raise Unsupported("predicted block outside the macroblock")
        if sub(mul(K(size), field(b, "column_")), x) is not K(0) or sub(mul(K(size), field(b, "row_")), y) is not K(0):
            raise Unsupported("block whose position disagrees with its contents")
        nn = PLANES[p][1]
        w = size // 4
        ids = [i0 + r * nn + c for r in range(w) for c in range(w)]
        if n == "intra_predict":
            mode = val(binds[0])
            dep = cv.intra_deps(lambda i: cv.get(ev, p, i), p, i0) if size == 4 and p == "Y" else []
            vals = [atom("h", "intra", K(size), mode, K(j), *dep, lo=0, hi=255) for j in range(len(ids))]
        else:
            mv = val(binds[0])
            ref = binds[1] if not isinstance(binds[1], tuple) else binds[1][1]
            vals = [atom("h", "inter %s" % refname(ev, ref), K(size), field(mv, "x_", None, *S16), field(mv, "y_", None, *S16), K(j), lo=0, hi=255) for j in range(len(ids))]
        for i, v in zip(ids, vals):
            cv.put(ev, p, i, v)
        return mk("void")
    ev.ihook = ih


def refname(ev, a):
    if a.op != "addr":
        raise Unsupported("reference plane %s" % show(a)[:80])
    return "%s/%s" % (a.args[0][1] if a.args[0][0] == "ref" else show(a)[:60], [s[1] for s in a.args[1] if s[0] == "f"][-1])


def positions():
    mc, mr, more = atom("in", "mb column", lo=0, hi=1023), atom("in", "mb row", lo=0, hi=1023), atom("in", "mbs to the right", lo=0, hi=1023)
    return mc, mr, add(add(mc, K(1)), more), add(mr, K(1))


def raster_mb(run, ev, mc, mr, mbw, mbh):
    """the macroblock view made by the program itself for a symbolic position"""
    P = run.prog
    d = {}
    for p, (size, n) in PLANES.items():
        pixplane(ev, p, mul(K(size), mbw), mul(K(size), mbh))
        d[p + "_"] = ev.env[("mem", p)]
    c = [f for f in fns(P) if f.get("cls") == "VP8Raster::Macroblock" and f["kind"] == "ctor" and len(f["ps"]) == 3]
    r = sym(ev, "VP8Raster", "raster")
    dd = dict(r.args[1]) if r.op == "rec" else {}
    dd.update(d)
    ev2 = Ev(P, gate=20)
    ev2.env.update({k: v for k, v in ev.env.items() if k[0] == "mem"})
    ev2.env[("mem", "raster")] = mk_rec(mk("obj", "VP8Raster"), dd)
    ev2.env[("argv", 0)], ev2.env[("argv", 1)] = mc, mr
    ev2.env[("arg", 2)] = ev2.env[("mem", "raster")]
    s = summarize(ev2, c[0])
    return c[0], s.env[("this",)]


def mb_layout(run):
    """every block of a macroblock view covers its own pixels of its own plane"""
    ev = Ev(run.prog, gate=20)
    mc, mr, mbw, mbh = positions()
    f, m = raster_mb(run, ev, mc, mr, mbw, mbh)
    out, n = [], 0
    for p, (size, k) in PLANES.items():
        blocks = [(p, size, 0, 0, field(m, p))]
        a = field(m, p + "_sub")
        r = ev.rec("SafeArray<VP8Raster::Block<4>, %d>" % (k * k))
        fl = r["fields"][0]["n"]
        arr = field(a, fl)
        if "std::array" in r["fields"][0]["t"]:
            arr = field(arr, "#d")
        blocks += [("%s(%d,%d)" % (p, i % k, i // k), 4, i % k, i // k, elem(arr, K(i))) for i in range(k * k)]
        for nm, sz, c, r, b in blocks:
            sc = size // sz
            col, row = add(mul(K(sc), mc), K(c)), add(mul(K(sc), mr), K(r))
            sr = field(b, "contents_")
            for path, got, want in (("column", field(b, "column_"), col), ("row", field(b, "row_"), row),
                                    ("first pixel column", field(sr, "column_"), mul(K(sz), col)), ("first pixel row", field(sr, "row_"), mul(K(sz), row))):
                n += leafcmp(got, want, "%s %s" % (nm, path), TRUE, out)
            ms, rc = field(sr, "master_"), field(b, "raster_component_")
            n += 2
            for what, got in (("contents", ms), ("component", rc)):
                while False:
                    break
                if got.op != "addr" or got.args[0][0] not in ("mem", "arg"):
                    raise Unsupported("plane of a block")
                nm2 = got.args[0][1][:1] if got.args[0][0] == "mem" and got.args[0][1] != "raster" else ([s[1] for s in got.args[1] if s[0] == "f"] or ["?"])[-1][:1]
                if nm2 != p:
                    out.append((nm + " " + what, got, mk("obj", p), {"a": nm2, "b": p}))
    name = "blocks of a macroblock view"
    if out:
        for path, a, b, d in out[:2]:
            run.bad(name, loc(f), "%s: %s instead of %s" % (path, show(a)[:120], show(b)[:120]))
    else:
        run.ok(name, loc(f), "", n)


# ------------------------------------------------------------ macroblock reconstruction
def mbstate(run, ev, MB, ymode, uvmode, nz, hdr=None, bmodes=None, b0=0):
    """a macroblock whose coefficients are symbolic (nz) or all zero"""
    P = run.prog
    y2, y, uv = block_cls(run, MB)
    m = sym(ev, MB, "m")
    d = dict(m.args[1])
    env = ev.env
    split = ymode in ("B_PRED", "SPLITMV")
    co = {}
    base = (atom("in", "mv.x", lo=S16[0], hi=S16[1]), atom("in", "mv.y", lo=S16[0], hi=S16[1]))
    cb = (atom("in", "cmv.x", lo=S16[0], hi=S16[1]), atom("in", "cmv.y", lo=S16[0], hi=S16[1]))
    mvs = {}
    for pl, cls, n in (("Y", y, 4), ("U", uv, 2), ("V", uv, 2)):
        blockplane(ev, env, "m" + pl, cls, pl, n, 0, FW)
        root = env[("m" + pl,)]
        st = field(root, "storage_")
        els = {}
        for i in range(n * n):
            c = [atom("in", "%s%d c%d" % (pl, i, k), lo=-74, hi=74) if nz else K(0) for k in range(16)]
            if pl == "Y" and not split:
                c[0] = K(0)
            co[pl, i] = c
            b = coef_block(ev, cls, (3 if split else 0) if pl == "Y" else 2, c, "%s[%d]" % (pl, i))
            bd = dict(b.args[1])
            if pl == "Y":
                mv = (atom("in", "mv%d.x" % i, lo=S16[0], hi=S16[1]), atom("in", "mv%d.y" % i, lo=S16[0], hi=S16[1])) if ymode == "SPLITMV" else base
                bm = (b0 + i * 3) % 10
                bd["prediction_mode_"] = K(bm)
                co["bmode", i] = K(bm)
            else:
                j = i
                mv = (atom("in", "cmv%d.x" % i, lo=S16[0], hi=S16[1]), atom("in", "cmv%d.y" % i, lo=S16[0], hi=S16[1])) if ymode == "SPLITMV" else cb
                bd["prediction_mode_"] = K(uvmode if pl == "U" and i == 0 else 0)
                if pl == "V":
                    mv = (atom("in", "vmv%d.x" % i, lo=S16[0], hi=S16[1]), atom("in", "vmv%d.y" % i, lo=S16[0], hi=S16[1]))
            bd["motion_vector_"] = mk_rec(mk("obj", "MotionVector"), {"x_": mv[0], "y_": mv[1]})
            mvs[pl, i] = mv
            els[(n + i // n) * FW * n + 2 * n + i % n] = mk_rec(b.args[0], bd)
        sd = dict(st.args[1])
        sd["#d"] = mk_arr(mk("in", pl + "#d"), els, ())
        rd = dict(root.args[1])
        rd["storage_"] = mk_rec(st.args[0], sd)
        env[("m" + pl,)] = mk_rec(root.args[0], rd)
        d[pl + "_"] = mk_rec(mk("obj", "sub"), {"master_": mk("addr", ("m" + pl,), ()), "column_": K(2 * n), "row_": K(n)})
    c2 = [atom("in", "Y2 c%d" % k, lo=-74, hi=74) if nz and not split else K(0) for k in range(16)]
    co["Y2", 0] = c2
    b = coef_block(ev, y2, 1, c2, "Y2")
    bd = dict(b.args[1])
    bd["prediction_mode_"] = K(enumval(P, ymode))
    bd["coded_"] = K(int(not split))
    env[("mY2",)] = mk_rec(b.args[0], bd)
    d["Y2_"] = mk("addr", ("mY2",), ())
    d["has_nonzero_"] = K(int(nz))
    if hdr is not None:
        d["header_"] = hdr
    return mk_rec(m.args[0], d), co, mvs


def quantizer(ev):
    q = {n: atom("in", "factor " + n, lo=4, hi=QMAX[n]) for n in YQ}
    return mk_rec(mk("obj", "Quantizer"), q), q


def reconstruct(run, name, MB, f, ymode, uvmode, nz, ref=None, b0=0):
    P = run.prog
    ev = Ev(P, gate=20)
    mc, mr, mbw, mbh = positions()
    _, view = raster_mb(run, ev, mc, mr, mbw, mbh)
    cv = Canvas(ev, mul(K(16), mbw), mc, mr)
    cv.mbw = mbw
    intrinsics(ev)
    canvas_hooks(ev, cv)
    uvm = enumval(P, uvmode) if uvmode else 0
    hdr = None
    none = lambda: mk_rec(mk("obj", "none"), {"initialized_": K(0)})
    boolean = lambda v: mk_rec(mk("obj", "b"), {"i_": K(v)})
    if ref is not None:
        opt = lambda v: mk_rec(mk("obj", "opt"), {"initialized_": K(1), "object_": boolean(v)}) if v is not None else none()
        s1, s2 = {"last": (0, None), "golden": (1, 0), "alternative": (1, 1)}[ref]
        hdr = mk_rec(mk("obj", "hdr"), {"is_inter_mb": boolean(1), "mb_ref_frame_sel1": opt(s1), "mb_ref_frame_sel2": opt(s2), "motion_vectors_flipped_": K(0), "partition_id": none()})
    elif MB.startswith("Macroblock<Inter"):
        hdr = mk_rec(mk("obj", "hdr"), {"is_inter_mb": boolean(0), "mb_ref_frame_sel1": none(), "mb_ref_frame_sel2": none(), "motion_vectors_flipped_": K(0), "partition_id": none()})
    m, co, mvs = mbstate(run, ev, MB, ymode, uvm, nz, hdr, b0=b0)
    ev.env[("this",)] = m
    ev.env[("mem", "q")], q = quantizer(ev)
    ev.env[("arg", 0)] = ev.env[("mem", "q")]
    ev.env[("arg", len(f["ps"]) - 1)] = view
    if ref is not None:
        for r in ("last", "golden", "alternative"):
            ev.env[("ref", r)] = mk("obj", "raster " + r)
        h = {r: handle(ev, r) for r in ("last", "golden", "alternative")}
        ev.env[("arg", 1)] = mk_rec(mk("obj", "References"), h)
        ev.hooks["VP8RasterHandle<HashCachedRaster>::operator const HashCachedRaster &"] = None
        ev.hooks = {k: v for k, v in ev.hooks.items() if v}
    s = summarize(ev, f)
    # expectation
    dq = lambda c, k: [ev.cast(mul(c[i], q[k + ("_dc" if i == 0 else "_ac")]), "short") for i in range(16)]
    want = {}
    if ref is None:
        for p in "UV":
            for i in range(4):
                want[p, i] = atom("h", "intra", K(8), K(uvm), K(i), lo=0, hi=255)
        if ymode != "B_PRED":
            for i in range(16):
                want["Y", i] = atom("h", "intra", K(16), K(enumval(P, ymode)), K(i), lo=0, hi=255)
        else:
            for i in range(16):
                dep = cv.intra_deps(lambda j: want.get(("Y", j), atom("in", "old Y %d" % j, lo=0, hi=255)), "Y", i)
                v = atom("h", "intra", K(4), co["bmode", i], K(0), *dep, lo=0, hi=255)
                want["Y", i] = cv.idct(v, dq(co["Y", i], "y"))
    else:
        for p in "YUV":
            nn = PLANES[p][1]
            for i in range(nn * nn):
                mp = "U" if p == "V" else p
                if ymode == "SPLITMV":
                    a = (K(4),) + mvs[mp, i] + (K(0),)
                else:
                    a = (K(PLANES[p][0]),) + mvs[mp, 0] + (K(i),)
                want[p, i] = atom("h", "inter %s/%s" % (ref, p + "_"), *a, lo=0, hi=255)
    for p in "UV":
        for i in range(4):
            want[p, i] = cv.idct(want[p, i], dq(co[p, i], "uv"))
    if ymode == "SPLITMV":
        for i in range(16):
            want["Y", i] = cv.idct(want["Y", i], dq(co["Y", i], "y"))
    elif ymode != "B_PRED":
        w = dq(co["Y2", 0], "y2")
        for i in range(16):
            c = dq(co["Y", i], "y")
            c[0] = iwht(i, w)
            want["Y", i] = cv.idct(want["Y", i], c)
    out = []
    n = leafcmp(b2v(s.live), K(1), "reconstruction defined", TRUE, out)
    for (p, i), w in sorted(want.items()):
        g = elem(s.env[("px", p)], K(i), 0, 255)
        n += leafcmp(g, w, "%s block %d" % (p, i), s.live, out)
    run.count("blocks_compared", len(want))
    if out:
        for path, a, b, d in out[:2]:
            run.bad(name, loc(f), "%s: %s where the format gives %s" % (path, show(a)[:200], show(b)[:200]))
    else:
        run.ok(name, loc(f), "", n)


def handle(ev, r):
    """a raster handle whose shared pointer leads to the root ('ref', r)"""
    p = mk("addr", ("ref", r), ())
    v = sym(ev, "VP8RasterHandle<HashCachedRaster>", "h" + r)
    d = dict(v.args[1]) if v.op == "rec" else {}
    for fl in ev.rec("VP8RasterHandle<HashCachedRaster>")["fields"]:
        if "shared_ptr" in fl["t"]:
            d[fl["n"]] = p
    return mk_rec(mk("obj", "handle"), d)


# ------------------------------------------------------------ quantizers
def quant(run, name, f, sp, frame, concrete=None):
    """Quantizer of a frame (frame) or of a segment"""
    P = run.prog
    ev = Ev(P, gate=20)
    qi = sym(ev, "QuantIndices", "q")
    d = dict(qi.args[1])
    base = atom("in", "base", lo=0, hi=127) if concrete is None else K(concrete)
    d["y_ac_qi"] = mk_rec(mk("obj", "u"), {"i_": base})
    deltas = {}
    for n in ("y_dc", "y2_dc", "y2_ac", "uv_dc", "uv_ac"):
        fl, v = atom("in", n + "?", lo=0, hi=1), atom("in", n, lo=-15, hi=15)
        if concrete is not None:
            fl, v = K(0), K(0)
        d[n] = mk_rec(mk("obj", "flagged"), {"initialized_": fl, "object_": mk_rec(mk("obj", "s"), {"i_": v})})
        deltas[n] = mul(fl, v)
    q = mk_rec(mk("obj", "QuantIndices"), d)
    adj = [atom("in", "adj%d" % i, lo=-127, hi=127) for i in range(4)]
    ab = atom("in", "absolute", lo=0, hi=1)
    res = []
    if frame:
        ev.env[("mem", "qi")] = q
        ev.env[("arg", 0)] = q
        s = summarize(ev, f)
        res.append((s.env[("this",)], s.live, 0))
    else:
        H = sym(ev, f["cls"], "frame")
        hd = dict(field(H, "header_").args[1])
        hd["quant_indices"] = q
        fd = dict(H.args[1])
        fd["header_"] = mk_rec(mk("obj", "hdr"), hd)
        ev.env[("this",)] = mk_rec(H.args[0], fd)
        sg = sym(ev, "Segmentation", "seg")
        sd = dict(sg.args[1])
        sd["absolute_segment_adjustments"] = ab
        sa = sd["segment_quantizer_adjustments"]
        (fl, arr), = sa.args[1]
        na = mk_arr(mk("obj", "arr"), dict(enumerate(adj)), ())
        sd["segment_quantizer_adjustments"] = mk_rec(sa.args[0], {fl: mk_rec(arr.args[0], {"#d": na}) if arr.op == "rec" else na})
        ev.env[("arg", 0)] = mk_rec(mk("obj", "opt"), {"initialized_": K(1), "object_": mk_rec(sg.args[0], sd)})
        s = summarize(ev, f)
        r = s.retv
        (fl, arr), = r.args[1]
        if arr.op == "rec" and len(arr.args[1]) == 1:
            arr = arr.args[1][0][1]
        for i in range(4):
            res.append((elem(arr, K(i)), s.live, i))
    out, n = [], 0
    g = fns_named(sp, "spec::quantizer")[0]
    for v, live, i in res:
        ev2 = Ev(P, extra=sp, gate=20)
        ev2.env[("mem", "out")] = mk("obj", "out")
        ev2.env[("mem", "agree")] = mk("obj", "agree")
        for k, a in enumerate([base, K(int(not frame)), ab, adj[i]] + [deltas[x] for x in ("y_dc", "y2_dc", "y2_ac", "uv_dc", "uv_ac")] + [mk("addr", ("mem", x), (("i", K(0)),)) for x in ("out", "agree")]):
            ev2.env[("argv", k)] = a
        s2 = summarize(ev2, g)
        n += leafcmp(b2v(live), K(1), "quantizer defined", TRUE, out)
        for k, fl in enumerate(YQ):
            pre = c_and(live, tobool(elem(s2.env[("mem", "agree")], K(k), 0, 1)))
            n += leafcmp(field(v, fl, None, 0, 65535), elem(s2.env[("mem", "out")], K(k), 0, 65535), "%s%s" % (fl, "" if frame else " of segment %d" % i), pre, out, samples=600)
    run.count("quantizer_factors", n)
    if out:
        for path, a, b, dd in out[:3]:
            run.bad(name, loc(f), "%s differs from the format (for example %s instead of %s)" % (path, dd["a"], dd["b"]))
    else:
        run.ok(name, loc(f), "", n)


def quant_table(run, f, sp, lo, hi):
    for c in range(lo, hi):
        k = len(run.obs)
        quant(run, "quantizer of index %d" % c, f, sp, True, c)
        if run.obs[k].status == "violated":
            return


# ------------------------------------------------------------ frame walk
def walk(run, name, f, seg, inter):
    """Frame::decode on a 3x2 frame: every macroblock reconstructed once, in raster order, with its own quantizer and pixels"""
    P = run.prog
    ev = Ev(P, gate=20)
    MW, MH = 3, 2
    for p, (size, n) in PLANES.items():
        pixplane(ev, p, K(size * MW), K(size * MH))
    r = sym(ev, "VP8Raster", "raster")
    dd = dict(r.args[1])
    dd.update({p + "_": ev.env[("mem", p)] for p in PLANES})
    dd["width_"], dd["height_"] = K(16 * MW), K(16 * MH)
    ev.env[("arg", 2)] = mk_rec(mk("obj", "VP8Raster"), dd)
    cls = f["cls"]
    fr = sym(ev, cls, "frame")
    MB = splitargs(re.match(r"Frame<(.*)>$", cls).group(1))[1]
    none = mk_rec(mk("obj", "none"), {"initialized_": K(0)})
    boolean = lambda v: mk_rec(mk("obj", "b"), {"i_": v})
    els, inters = {}, {}
    for i in range(MW * MH):
        m = sym(ev, MB, "mb%d" % i)
        d = dict(m.args[1])
        inters[i] = i % 2 if inter else 0
        if inter:
            d["header_"] = mk_rec(mk("obj", "hdr"), {"is_inter_mb": boolean(K(inters[i])), "mb_ref_frame_sel1": none, "mb_ref_frame_sel2": none, "motion_vectors_flipped_": K(0), "partition_id": none})
        d["segment_id_"] = atom("in", "segment%d" % i, lo=0, hi=3)
        els[i] = mk_rec(m.args[0], d)
    ev.env[("mbs",)] = mk_rec(mk("obj", "TwoDStorage"), {"width_": K(MW), "height_": K(MH), "storage_": mk_rec(mk("obj", "vec"), {"#n": K(MW * MH), "#d": mk_arr(mk("obj", "mbs"), els, ())})})
    fd = dict(fr.args[1])
    fd["macroblock_headers_"] = mk_rec(mk("obj", "opt"), {"initialized_": K(1), "object_": mk_rec(mk("obj", "TwoD"), {"storage_": mk("addr", ("mbs",), ())})})
    fd["macroblock_width_"], fd["macroblock_height_"] = K(MW), K(MH)
    ev.env[("this",)] = mk_rec(fr.args[0], fd)
    ev.env[("arg", 0)] = mk_rec(mk("obj", "opt"), {"initialized_": K(int(seg)), "object_": sym(ev, "Segmentation", "seg")})
    ev.env[("arg", 1)] = mk("obj", "references")
    seen = []
    fq = lambda tag: mk_rec(mk("obj", "Quantizer"), {n: atom("in", tag + n, lo=0, hi=65535) for n in YQ})

    def ih(ev, g, this, binds, e):
        n = g["q"].rsplit("::", 1)[-1]
        if n in ("reconstruct_intra", "reconstruct_inter") and (g.get("cls") or "") == MB:
            v = [ev.load(b) if not isinstance(b, tuple) else b[1] for b in (binds[0], binds[-1])]
            seen.append((ev.guard(), n, this, v[0], v[1], binds[1] if n.endswith("inter") else None))
            return mk("void")
        if g["kind"] == "ctor" and g.get("cls") == "Quantizer" and len(g["ps"]) == 1 and "QuantIndices" in g["ps"][0]["t"] and this is not None:
            ev.store(this, fq("frame "))
            return mk("void")
        if n == "calculate_segment_quantizers":
            arr = mk_arr(mk("obj", "arr"), {i: fq("segment%d " % i) for i in range(4)}, ())
            r = ev.rec("SafeArray<Quantizer, 4>")
            fl = r["fields"][0]
            return mk_rec(mk("obj", "sa"), {fl["n"]: mk_rec(mk("obj", "a"), {"#d": arr}) if "std::array" in fl["t"] else arr})
        return NotImplemented
    ev.ihook = ih
    s = summarize(ev, f)
    out, n = [], 0
    if len(seen) != MW * MH:
        if not seen or any(x[0] is not TRUE for x in seen):
            raise Unsupported("reconstruction calls not recognised")
        run.bad(name, loc(f), "%d macroblocks of a frame of %d are reconstructed" % (len(seen), MW * MH))
        return
    for i, (g, what, this, q, view, refs) in enumerate(seen):
        n += leafcmp(b2v(g), K(1), "macroblock %d reconstructed" % i, TRUE, out)
        want = mk("addr", ("mbs",), ())
        ix = [x[1] for x in this.args[1] if x[0] == "i"] if this.op == "addr" else None
        if this.op != "addr" or this.args[0] != ("mbs",) or len(ix) != 1 or ix[0].op != "k":
            raise Unsupported("macroblock %s" % show(this)[:80])
        if ix[0].args[0] != i:
            out.append(("order: step %d" % i, ix[0], K(i), {"a": ix[0].args[0], "b": i}))
        ww = "reconstruct_inter" if inters[i] else "reconstruct_intra"
        if what != ww:
            out.append(("macroblock %d: %s instead of %s" % (i, what, ww), K(0), K(1), {"a": what, "b": ww}))
        y = field(view, "Y")
        n += leafcmp(field(y, "column_"), K(i % MW), "column of the pixels of macroblock %d" % i, TRUE, out)
        n += leafcmp(field(y, "row_"), K(i // MW), "row of the pixels of macroblock %d" % i, TRUE, out)
        sid = atom("in", "segment%d" % i, lo=0, hi=3)
        for k in YQ:
            w = atom("in", "frame " + k, lo=0, hi=65535)
            if seg:
                w = K(0)
                for j in range(4):
                    w = ite(eq(sid, K(j)), atom("in", "segment%d %s" % (j, k), lo=0, hi=65535), w)
            n += leafcmp(field(q, k, None, 0, 65535), w, "factor %s of macroblock %d" % (k, i), TRUE, out)
    run.count("macroblocks_walked", len(seen))
    if out:
        for path, a, b, d in out[:3]:
            run.bad(name, loc(f), "%s: %s instead of %s" % (path, d["a"], d["b"]))
    else:
        run.ok(name, loc(f), "", n)


def check(run):
    P = run.prog
    sp = spec(run, "recon.cc")
    run.attempt("blocks of a macroblock view", mb_layout, run)
    F = fns(P)
    for H in ("Key", "Inter"):
        MB = "Macroblock<%sFrameHeader, %sFrameMacroblockHeader>" % (H, H)
        f = one(run, MB + "::reconstruct_intra", [x for x in F if x["q"] == MB + "::reconstruct_intra"])
        if f:
            for i, (ym, uvm) in enumerate((("DC_PRED", "TM_PRED"), ("V_PRED", "H_PRED"), ("H_PRED", "DC_PRED"), ("TM_PRED", "V_PRED"), ("B_PRED", "H_PRED"), ("B_PRED", "TM_PRED"))):
                for nz in (True, False):
                    nm = "%s frame, intra macroblock %s/%s%s" % (H, ym, uvm, "" if nz else " without residue")
                    run.attempt(nm, reconstruct, run, nm, MB, f, ym, uvm, nz, None, i)
    f = one(run, "reconstruct_inter", [x for x in F if x["q"].endswith("::reconstruct_inter")])
    if f:
        for ref in ("last", "golden", "alternative"):
            for ym in ("NEARESTMV", "ZEROMV", "NEWMV", "SPLITMV"):
                for nz in (True, False):
                    nm = "inter macroblock %s from %s%s" % (ym, ref, "" if nz else " without residue")
                    run.attempt(nm, reconstruct, run, nm, f["cls"], f, ym, None, nz, ref)
    q = one(run, "Quantizer(QuantIndices)", [x for x in F if x["kind"] == "ctor" and x.get("cls") == "Quantizer" and len(x["ps"]) == 1 and "QuantIndices" in x["ps"][0]["t"]])
    if q and sp:
        for i in range(0, 128, 16):
            run.attempt("quantizer of indices %d.." % i, quant_table, run, q, sp, i, i + 16)
        run.attempt("frame quantizer", quant, run, "frame quantizer", q, sp, True)
        for x in F:
            if x["q"].endswith("::calculate_segment_quantizers"):
                nm = "segment quantizers (%s)" % ("key" if "Key" in x["cls"] else "inter")
                run.attempt(nm, quant, run, nm, x, sp, False)
    for x in F:
        m = re.match(r"Frame<(Key|Inter).*::decode$", x["q"])
        if m and len(x["ps"]) == 3:
            for seg in (False, True):
                nm = "walk of %s frame%s" % (m.group(1), " with segments" if seg else "")
                run.attempt(nm, walk, run, nm, x, seg, m.group(1) == "Inter")
    run.floor("blocks_compared", 200)
