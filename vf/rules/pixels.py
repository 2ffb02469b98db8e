"""Prediction, dequantization and reconstruction of pixels against RFC 6386."""
import re
from evalx import *
from chan import *
from rules.common import *

ELS = mk("obj", "pixels")


def kernels(ev, sp):
    for f in sp.fns.values():
        if f["q"].startswith("asmref::") and f.get("body") is not None:
            ev.subst[f["q"][8:]] = f


def plane(ev, name, w, h):
    """environment roots of a TwoD<uint8_t> and its storage"""
    px = mk("obj", name)
    ev.env[("mem", name + ".storage")] = mk_rec(mk("obj", "TwoDStorage"), {"width_": w, "height_": h, "storage_": mk_rec(mk("obj", "vec"), {"#n": mul(w, h), "#d": px})})
    ev.env[("mem", name)] = mk_rec(mk("obj", "TwoD"), {"storage_": mk("addr", ("mem", name + ".storage"), ())})
    return px


def pixels(env, name):
    return field(field(env[("mem", name + ".storage")], "storage_"), "#d")


def block(ev, cls, name, col, row):
    st = mk("addr", ("mem", name + ".storage"), ())
    size = int(re.search(r"<(\d+)>", cls).group(1))
    return mk_rec(mk("obj", cls), {
        "contents_": mk_rec(mk("obj", "sub"), {"master_": st, "column_": mul(K(size), col), "row_": mul(K(size), row)}),
        "raster_component_": mk("addr", ("mem", name), ()),
        "column_": col, "row_": row})


def positions(full):
    """macroblock position classes: (name, column, row, width in macroblocks)"""
    mc = atom("in", "mb column", lo=1, hi=1023)
    mr = atom("in", "mb row", lo=1, hi=1023)
    more = atom("in", "mbs to the right", lo=0, hi=1023)
    for cn, c in (("first column", K(0)), ("inner column", mc)):
        for rn, r in (("first row", K(0)), ("inner row", mr)):
            yield cn + ", " + rn + ", last in its row", c, r, add(c, K(1)), True
            yield cn + ", " + rn, c, r, add(add(c, K(2)), more), False


def enumval(P, name):
    for e in P.enums.values():
        for x in e["c"]:
            n, v = x
            if n == name:
                return v
    return None


MBM = ("DC_PRED", "V_PRED", "H_PRED", "TM_PRED")
BM = ("B_DC_PRED", "B_TM_PRED", "B_VE_PRED", "B_HE_PRED", "B_LD_PRED", "B_RD_PRED", "B_VR_PRED", "B_VL_PRED", "B_HD_PRED", "B_HU_PRED")


def intra(run, name, size, f, sp, modes, posn):
    P = run.prog
    cls = "VP8Raster::Block<%d>" % size
    for pn, mc, mr, mbw, last in posn:
        H = mul(K(16), add(mr, K(1)))
        sub = [(k, m) for m in range(4) for k in range(4)] if size == 4 else [(0, 0)]
        for k, m in sub:
            scale = 4 if size == 4 else 1
            col, row = add(mul(K(scale), mc), K(k)), add(mul(K(scale), mr), K(m))
            plw = 16 if size != 8 else 8
            W = mul(K(plw), mbw)
            for mi, mode in enumerate(modes):
                v = enumval(P, mode)
                if v is None:
                    continue
                ev = Ev(P, extra=sp, gate=20, strict32=True)
                kernels(ev, sp)
                px = plane(ev, "Y", W, H)
                ev.env[("this",)] = block(ev, cls, "Y", col, row)
                ev.env[("argv", 0)] = K(v)
                s = summarize(ev, f)
                ev2 = Ev(P, extra=sp, gate=20, strict32=True)
                ev2.env[("mem", "in")] = px
                ev2.env[("mem", "out")] = mk("obj", "out")
                pa, oa = mk("addr", ("mem", "in"), (("i", K(0)),)), mk("addr", ("mem", "out"), (("i", K(0)),))
                x, y = mul(K(size), col), mul(K(size), row)
                if size == 4:
                    args = [pa, W, x, y, K(k), K(m), K(int(last)), K(mi), oa]
                    g = fns_named(sp, "spec::subblock")[0]
                else:
                    args = [pa, W, x, y, K(size), K(size.bit_length() - 1), K(mi), oa]
                    g = fns_named(sp, "spec::whole")[0]
                for i, a in enumerate(args):
                    ev2.env[("argv", i)] = a
                s2 = summarize(ev2, g)
                out = []
                n = leafcmp(b2v(s.live), K(1), "prediction defined", TRUE, out)
                got, want = pixels(s.env, "Y"), s2.env[("mem", "out")]
                for r in range(size):
                    for c in range(size):
                        idx = add(mul(add(y, K(r)), W), add(x, K(c)))
                        n += leafcmp(elem(got, idx, 0, 255), elem(want, K(r * size + c), 0, 255), "pixel (%d,%d)" % (c, r), s.live, out)
                        if len(out) > 2:
                            break
                run.count("values_compared", n)
                nm = "%s, %s, %s%s" % (name, mode, pn, ", subblock (%d,%d)" % (k, m) if size == 4 else "")
                if out:
                    for path, a, b, d in out[:2]:
                        run.bad(nm, loc(f), "%s is %s where RFC 6386 section 12 has %s (for example %s / %s)" % (path, show(a)[:160], show(b)[:160], d["a"], d["b"]))
                    return
                run.ok(nm, loc(f), "", n)
                run.count("predictions")


def check_intra(run):
    P = run.prog
    sp = spec(run, "pixels.cc")
    if not sp:
        return
    for size, modes in ((16, MBM), (8, MBM), (4, BM)):
        c = [f for f in fns(P) if f["q"].endswith("::intra_predict") and (f.get("cls") or "") == "VP8Raster::Block<%d>" % size and len(f["ps"]) == 1]
        f = one(run, "intra prediction of %dx%d blocks" % (size, size), c)
        if not f:
            continue
        for p in positions(True):
            run.attempt("intra %d %s" % (size, p[0]), intra, run, "intra prediction of %dx%d blocks" % (size, size), size, f, sp, modes, [p])
    run.floor("predictions", 1000)


# ------------------------------------------------------------------ inter prediction
def inter(run, name, size, f, sp, cases, pts):
    """cases: (label, block column, block row, plane width, plane height, whole x, whole y, mx, my); whole part relative to the block"""
    P = run.prog
    cls = "VP8Raster::Block<%d>" % size
    g = fns_named(sp, "spec::inter_pixel")[0]
    tot = 0
    for lab, col, row, W, H, wx, wy, mx, my in cases:
        ev = Ev(P, extra=sp, gate=20, strict32=True)
        kernels(ev, sp)
        px = plane(ev, "ref", W, H)
        plane(ev, "Y", W, H)
        ev.env[("this",)] = block(ev, cls, "Y", col, row)
        ev.env[("mem", "mv")] = mk_rec(mk("obj", "MotionVector"), {"x_": add(mul(K(8), wx), K(mx)), "y_": add(mul(K(8), wy), K(my))})
        ev.env[("arg", 0)] = ev.env[("mem", "mv")]
        ev.env[("arg", 1)] = ev.env[("mem", "ref")]
        s = summarize(ev, f)
        out = []
        n = leafcmp(b2v(s.live), K(1), "prediction defined", TRUE, out)
        got = pixels(s.env, "Y")
        for r, c in pts:
            x0, y0 = add(mul(K(size), col), K(c)), add(mul(K(size), row), K(r))
            ev2 = Ev(P, extra=sp, gate=20, strict32=True)
            ev2.env[("mem", "in")] = px
            for i, a in enumerate([mk("addr", ("mem", "in"), (("i", K(0)),)), W, H, add(x0, wx), add(y0, wy), K(mx), K(my)]):
                ev2.env[("argv", i)] = a
            s2 = summarize(ev2, g)
            n += leafcmp(elem(got, add(mul(y0, W), x0), 0, 255), s2.retv, "pixel (%d,%d)" % (c, r), s.live, out)
            if out:
                break
        run.count("values_compared", n)
        run.count("predictions")
        tot += n
        nm = "%s, %s" % (name, lab)
        if out:
            for path, a, b, d in out[:2]:
                run.bad(nm, loc(f), "%s is %s where RFC 6386 section 18 has %s (for example %s / %s)" % (path, show(a)[:160], show(b)[:160], d["a"], d["b"]))
            return
        if lab.startswith("inside") or n == 0:
            run.ok(nm, loc(f), "", n)
    run.ok(name + ", %s and %d more positions" % (cases[0][0], len(cases) - 1), loc(f), "", tot)


def inter_cases(size, thorough):
    # inside: everything symbolic but the fraction
    wx, wy = atom("in", "whole x", lo=-2000, hi=2000), atom("in", "whole y", lo=-2000, hi=2000)
    a, b, c, d = (atom("in", n, lo=0, hi=1500) for n in ("room left", "room above", "room right", "room below"))
    sym = []
    col, row = atom("in", "block column", lo=0, hi=250), atom("in", "block row", lo=0, hi=250)
    some = {(2, 6), (5, 3), (4, 4), (1, 7)} if size == 16 else {(k, (3 * k) % 8) for k in range(1, 8)}
    for mx in range(8):
        for my in range(8):
            if mx and my and size > 4 and not thorough and (mx, my) not in some:
                continue
            # source at least 2 pixels inside on the left/top and 3 on the right/bottom
            sx, sy = add(a, K(2)), add(b, K(2))
            W = add(add(sx, c), K(size + 3))
            H = add(add(sy, d), K(size + 3))
            sym.append(("inside the frame, fraction %d,%d" % (mx, my), col, row, W, H, add(sx, mul(K(-size), col)), add(sy, mul(K(-size), row)), mx, my))
    edge = []
    W = H = 32
    lo, hi = list(range(-7, 4)), list(range(W - size - 5, W - size + 8))
    far = [-300, -40, W + 5, W + 300]
    xs = sorted(set(lo + hi + [-size - 1, -size - 4] + far))
    if size > 4 and not thorough:
        xs = sorted(set([-300, -size - 1, -3, -2, -1, 0, 1, 2, 3] + list(range(W - size - 4, W - size + 2)) + [W + 5, W + 300]))
    fr = ([(0, 0), (2, 0), (0, 4), (3, 6)] if size == 4 else [(3, 6), (2, 0)] if size == 8 else [(2, 0), (0, 4)]) if not thorough else [(x, y) for x in (0, 1, 2, 5) for y in (0, 3, 4, 6)]
    n = W // size
    for mx, my in fr:
        for i, x in enumerate(xs):
            bc, br = i % n, (i // n) % n
            inner = (W - size) // 2
            full = [(x, inner), (inner, x), (x, x), (x, xs[-1 - i])]
            for sx, sy in full if size == 4 or thorough else full[2:] if size == 8 else [full[i % 4]]:
                edge.append(("source at (%d,%d), fraction %d,%d" % (sx, sy, mx, my), K(bc), K(br), K(W), K(H), K(sx - size * bc), K(sy - size * br), mx, my))
    if size == 16 and not thorough:
        for sx, sy in ((-2, 3), (W - size - 3, W - size - 2)):
            edge.append(("source at (%d,%d), fraction 3,6" % (sx, sy), K(0), K(1), K(W), K(H), K(sx), K(sy - size), 3, 6))
        edge = edge[-2:] + edge[:-2]
    return sym, edge


def check_inter(run):
    P = run.prog
    sp = spec(run, "pixels.cc")
    if not sp:
        return
    th = run.tier == "thorough"
    for size in (4, 8, 16):
        c = [f for f in fns(P) if f["q"].endswith("::inter_predict") and (f.get("cls") or "") == "VP8Raster::Block<%d>" % size and len(f["ps"]) == 2]
        f = one(run, "inter prediction of %dx%d blocks" % (size, size), c)
        if not f:
            continue
        name = "inter prediction of %dx%d blocks" % (size, size)
        pts = [(r, c) for r in range(size) for c in range(size)]
        if size > 4:
            e = [0, 1, size // 2, size - 1]
            pts = [(r, c) for r in e for c in e]
        s, e = inter_cases(size, th)
        for i in range(min(16, len(s))):
            run.attempt("%s inside %d" % (name, i), inter, run, name, size, f, sp, s[i::16], pts)
        k = 16 * (size // 4)
        e0 = [(0, 0), (0, size - 1), (size - 1, 0), (size - 1, size - 1), (size // 2, 1)] if size > 4 and not th else pts
        for i in range(min(k, len(e))):
            run.attempt("%s edge %d" % (name, i), inter, run, name + " near the frame edge", size, f, sp, e[i::k], e0)
    run.floor("predictions", 500)
