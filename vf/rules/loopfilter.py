"""Loop filter: which edges are filtered, in which order, with which limits, against RFC 6386."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.recon import PLANES
from rules.pixels import plane as pixplane, enumval
from rules.mbsyntax import block_cls

MW, MH = 2, 2


def vec(ev, p):
    arr, off = ev.split(p)
    if arr is None:
        raise Unsupported("limit vector")
    v = ev.load(arr)
    return [elem(v, add(off, K(i)), 0, 255) for i in (0, 5, 15)]


def kernels(ev):
    def log(ev, p, what, args):
        a = mk("addr", ("log", p), ())
        ev.store(a, atom("h", "edge " + what, ev.load(a), *args))

    def where(ev, ptr, stride, shift=0):
        arr, off = ev.split(ptr)
        r = arr.args[0] if arr is not None else None
        if not r or r[0] != "mem" or not r[1].endswith(".storage"):
            raise Unsupported("pixel address %s" % show(ptr)[:80])
        p = r[1][:-8]
        w = PLANES[p][0] * MW
        if off.op != "k" or stride.op != "k":
            raise Unsupported("pixel address %s" % show(ptr)[:80])
        o = off.args[0]
        return p, o % w, o // w, stride.args[0] == w

    def edge(kind, direction, inner=None):
        def h(ev, e):
            a = [ev.rv(x) for x in e["a"]]
            lim = vec(ev, a[2]) + vec(ev, a[3]) + vec(ev, a[4])
            ptrs = [a[0]] + ([a[5]] if len(a) > 5 and inner is None else [])
            for q in ptrs:
                p, x, y, ok = where(ev, q, a[1])
                ev.kernelcalls += 1
                for d in inner or (0,):
                    xx, yy = (x + d, y) if direction == "v" else (x, y + d)
                    log(ev, p, "%s%s %d,%d%s" % (kind, direction, xx, yy, "" if ok else " wrong stride"), lim)
            return mk("void")
        return h
    ev.kernelcalls = 0
    for k, n in (("mb", "mbloop_filter"), ("sb", "loop_filter")):
        for d, dn in (("v", "vertical"), ("h", "horizontal")):
            for s in ("", "_uv"):
                ev.hooks["vp8_%s_%s_edge%s_sse2" % (n, dn, s)] = edge(k, d)
    ev.hooks["vp8_loop_filter_bv_y_sse2"] = edge("sb", "v", (4, 8, 12))
    ev.hooks["vp8_loop_filter_bh_y_sse2"] = edge("sb", "h", (4, 8, 12))


def call(P, sp, q, args, mem=None):
    ev = Ev(P, extra=sp, gate=20)
    ev.env.update(mem or {})
    for i, a in enumerate(args):
        ev.env[("argv", i)] = a
    return summarize(ev, fns_named(sp, q)[0]).retv


REFS = {"intra": (0, None, None), "last": (1, 0, None), "golden": (1, 1, 0), "altref": (1, 1, 1)}


def frame(run, name, f, sp, inter, seg, adj, sharp, mbs):
    """mbs: (reference, luma mode) of the four macroblocks of a 2x2 frame"""
    P = run.prog
    ev = Ev(P, gate=20)
    kernels(ev)
    px = {}
    for p, (size, n) in PLANES.items():
        pixplane(ev, p, K(size * MW), K(size * MH))
        px[p] = ev.env[("mem", p + ".storage")]
        ev.env[("log", p)] = atom("in", "unfiltered " + p)
    r = sym(ev, "VP8Raster", "raster")
    dd = dict(r.args[1])
    dd.update({p + "_": ev.env[("mem", p)] for p in PLANES})
    dd["width_"], dd["height_"] = K(16 * MW), K(16 * MH)
    ev.env[("arg", 2)] = mk_rec(mk("obj", "VP8Raster"), dd)
    cls = f["cls"]
    fr = sym(ev, cls, "frame")
    MB = splitargs(re.match(r"Frame<(.*)>$", cls).group(1))[1]
    y2c = block_cls(run, MB)[0]
    none = mk_rec(mk("obj", "none"), {"initialized_": K(0)})
    boolean = lambda v: mk_rec(mk("obj", "b"), {"i_": K(v)})
    opt = lambda v: none if v is None else mk_rec(mk("obj", "opt"), {"initialized_": K(1), "object_": boolean(v)})
    els, info = {}, []
    for i, (ref, mode) in enumerate(mbs):
        m = sym(ev, MB, "mb%d" % i)
        d = dict(m.args[1])
        a, b, c = REFS[ref]
        if inter:
            d["header_"] = mk_rec(mk("obj", "hdr"), {"is_inter_mb": boolean(a), "mb_ref_frame_sel1": opt(b), "mb_ref_frame_sel2": opt(c), "motion_vectors_flipped_": K(0), "partition_id": none})
        sid, nz = atom("in", "segment%d" % i, lo=0, hi=3), atom("in", "nonzero%d" % i, lo=0, hi=1)
        d["segment_id_"], d["has_nonzero_"] = sid, nz
        b = sym(ev, y2c, "y2.%d" % i)
        bd = dict(b.args[1])
        bd["prediction_mode_"] = K(enumval(P, mode))
        bd["coded_"] = K(int(mode not in ("B_PRED", "SPLITMV")))
        ev.env[("y2", i)] = mk_rec(b.args[0], bd)
        d["Y2_"] = mk("addr", ("y2", i), ())
        els[i] = mk_rec(m.args[0], d)
        info.append((sid, nz, ref, mode))
    ev.env[("mbs",)] = mk_rec(mk("obj", "TwoDStorage"), {"width_": K(MW), "height_": K(MH), "storage_": mk_rec(mk("obj", "vec"), {"#n": K(MW * MH), "#d": mk_arr(mk("obj", "mbs"), els, ())})})
    fd = dict(fr.args[1])
    fd["macroblock_headers_"] = mk_rec(mk("obj", "opt"), {"initialized_": K(1), "object_": mk_rec(mk("obj", "TwoD"), {"storage_": mk("addr", ("mbs",), ())})})
    fd["macroblock_width_"], fd["macroblock_height_"] = K(MW), K(MH)
    level = atom("in", "level", lo=0, hi=63)
    hd = dict(fd["header_"].args[1])
    u = lambda v: mk_rec(mk("obj", "u"), {"i_": v})
    hd["filter_type"], hd["loop_filter_level"], hd["sharpness_level"] = u(K(0)), u(level), u(K(sharp))
    fd["header_"] = mk_rec(mk("obj", "hdr"), hd)
    ev.env[("this",)] = mk_rec(fr.args[0], fd)

    def sarr(v, els):
        (fl, arr), = v.args[1]
        na = mk_arr(mk("obj", "arr"), dict(enumerate(els)), ())
        return mk_rec(v.args[0], {fl: mk_rec(arr.args[0], {"#d": na}) if arr.op == "rec" else na})
    ab = atom("in", "absolute", lo=0, hi=1)
    sa = [atom("in", "adj%d" % i, lo=-63, hi=63) for i in range(4)]
    sg = sym(ev, "Segmentation", "seg")
    sd = dict(sg.args[1])
    sd["absolute_segment_adjustments"] = ab
    sd["segment_filter_adjustments"] = sarr(sd["segment_filter_adjustments"], sa)
    ev.env[("arg", 0)] = mk_rec(mk("obj", "opt"), {"initialized_": K(int(seg)), "object_": mk_rec(sg.args[0], sd)})
    rd = [atom("in", "refdelta%d" % i, lo=-63, hi=63) for i in range(4)]
    md = [atom("in", "modedelta%d" % i, lo=-63, hi=63) for i in range(4)]
    fa = sym(ev, "FilterAdjustments", "fa")
    ad = dict(fa.args[1])
    ad["loopfilter_ref_adjustments"] = sarr(ad["loopfilter_ref_adjustments"], rd)
    ad["loopfilter_mode_adjustments"] = sarr(ad["loopfilter_mode_adjustments"], md)
    ev.env[("arg", 1)] = mk_rec(mk("obj", "opt"), {"initialized_": K(int(adj)), "object_": mk_rec(fa.args[0], ad)})
    s = summarize(ev, f)
    if any(s.env[("mem", p + ".storage")] is not px[p] for p in PLANES):
        raise Unsupported("pixels are filtered without the kernels")
    # expectation
    mem = {("mem", "rd"): mk_arr(mk("obj", "rd"), dict(enumerate(rd)), ()), ("mem", "md"): mk_arr(mk("obj", "md"), dict(enumerate(md)), ())}
    logs = {p: atom("in", "unfiltered " + p) for p in PLANES}
    for i, (sid, nz, ref, mode) in enumerate(info):
        a = K(0)
        for j in range(4):
            a = ite(eq(sid, K(j)), sa[j], a)
        mc = {"B_PRED": 1, "ZEROMV": 2, "SPLITMV": 3}.get(mode, 0 if ref == "intra" else 4)
        l = call(P, sp, "spec::filter_level", [level, K(int(seg)), ab, a, K(int(adj)), mk("addr", ("mem", "rd"), (("i", K(0)),)), mk("addr", ("mem", "md"), (("i", K(0)),)), K({"intra": 0, "last": 1, "golden": 2, "altref": 3}[ref]), K(mc)], mem)
        il = call(P, sp, "spec::interior_limit", [l, K(sharp)])
        hev = call(P, sp, "spec::hev_threshold", [l, K(int(not inter))])
        on = c_and(c_not(eq(level, K(0))), lt(K(0), l))
        inner = c_or(tobool(nz), TRUE if mode in ("B_PRED", "SPLITMV") else FALSE)
        mbl = add(mul(K(2), add(l, K(2))), il)
        sbl = add(mul(K(2), l), il)
        cx, cy = i % MW, i // MW

        def step(p, what, cond, lim):
            v = atom("h", "edge " + what, logs[p], *([lim] * 3 + [il] * 3 + [hev] * 3))
            logs[p] = ite(c_and(on, cond), v, logs[p])
        for p, (size, n) in PLANES.items():
            x, y = cx * size, cy * size
            if cx:
                step(p, "mbv %d,%d" % (x, y), TRUE, mbl)
            for k in range(4, size, 4):
                step(p, "sbv %d,%d" % (x + k, y), inner, sbl)
            if cy:
                step(p, "mbh %d,%d" % (x, y), TRUE, mbl)
            for k in range(4, size, 4):
                step(p, "sbh %d,%d" % (x, y + k), inner, sbl)
    out = []
    n = leafcmp(b2v(s.live), K(1), "filter defined", TRUE, out)
    for p in PLANES:
        n += leafcmp(s.env[("log", p)], logs[p], "sequence of filtered edges of plane %s" % p, s.live, out, samples=400)
    run.count("kernel_calls", ev.kernelcalls)
    if ev.kernelcalls == 0:
        raise Unsupported("no filter kernel is called")
    if out:
        for path, a, b, d in out[:2]:
            run.bad(name, loc(f), "%s differs from the format: %s" % (path, explain(a, b, d)))
    else:
        run.ok(name, loc(f), "", n)


def inputs(t, out, seen):
    if isinstance(t, tuple):
        for x in t:
            inputs(x, out, seen)
    elif isinstance(t, T) and t.id not in seen:
        seen.add(t.id)
        if t.op == "in":
            out.append(t)
        for x in t.args:
            inputs(x, out, seen)


def explain(a, b, d):
    out, v = [], d.get("val")
    inputs((a, b), out, set())
    try:
        return "for example with " + ", ".join("%s=%s" % (x.args[0], v.ev(x)) for x in out if x.hi < 256)
    except Exception:
        return ""


def check(run):
    P = run.prog
    sp = spec(run, "recon.cc")
    if not sp:
        return
    K1 = [("intra", "DC_PRED"), ("intra", "B_PRED"), ("intra", "TM_PRED"), ("intra", "B_PRED")]
    I1 = [("intra", "B_PRED"), ("last", "ZEROMV"), ("golden", "SPLITMV"), ("altref", "NEWMV")]
    I2 = [("altref", "SPLITMV"), ("intra", "V_PRED"), ("last", "NEARESTMV"), ("golden", "ZEROMV")]
    for f in fns(P):
        m = re.match(r"Frame<(Key|Inter).*::loopfilter$", f["q"])
        if not m or len(f["ps"]) != 3:
            continue
        inter = m.group(1) == "Inter"
        for vi, mbs in enumerate([I1, I2] if inter else [K1]):
            for seg in (False, True):
                for adj in (False, True):
                    for sharp in range(8) if (seg and adj) else (0, 3, 7):
                        nm = "%s frame %s, segments %s, deltas %s, sharpness %d" % (m.group(1), " ".join("/".join(x) for x in mbs), "on" if seg else "off", "on" if adj else "off", sharp)
                        run.attempt(nm, frame, run, nm, f, sp, inter, seg, adj, sharp, mbs)
    run.floor("kernel_calls", 100)
