"""The padded copies the motion search reads: every pixel of the copy is the nearest pixel of the frame, and
predicting from the copy is predicting from the frame."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.state import verdict, REFS
from rules import pixels as px
from rules import encframe as ef


def margin(run):
    for g in run.prog.vars.values():
        if g["q"].endswith("MARGIN_WIDTH") and g.get("val") is not None:
            return int(g["val"])
    raise Unsupported("margin width")


def safe(ev, name, w, h, M):
    W, H = add(w, K(2 * M)), add(h, K(2 * M))
    p = px.plane(ev, name, W, H)
    return p, W, H, mk_rec(mk("obj", "SafeRaster"), {"safe_Y_": ev.env[("mem", name)], "display_width_": w, "display_height_": h})


def index(a, name):
    if a.op != "addr" or a.args[0] != ("mem", name + ".storage"):
        raise Unsupported("pixel address")
    ix = [s[1] for s in a.args[1] if s[0] == "i"]
    if len(ix) != 1:
        raise Unsupported("pixel address")
    return ix[0]


def access(run, name, f, M):
    ev = Ev(run.prog, gate=20)
    w, h = atom("in", "width", lo=16, hi=16383), atom("in", "height", lo=16, hi=16383)
    c, r = atom("in", "column", lo=-M, hi=16383), atom("in", "row", lo=-M, hi=16383)
    _, W, H, rec = safe(ev, "safe", w, h, M)
    ev.env[("this",)] = rec
    ev.env[("argv", 0)], ev.env[("argv", 1)] = c, r
    s = summarize(ev, f)
    out = []
    n = leafcmp(s.retv, elem(px.pixels(ev.env, "safe"), add(mul(add(r, K(M)), W), add(c, K(M))), 0, 255), "pixel reached", s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def copied(run, name, f, M, h):
    """rows of a frame of h lines and any width"""
    ev = Ev(run.prog, gate=20, unroll=4096)
    w = atom("in", "width", lo=16, hi=16383)
    _, W, H, rec = safe(ev, "safe", w, K(h), M)
    px.plane(ev, "src", w, K(h))
    src = sym(ev, "VP8Raster", "raster", [(r"raster\.[YUV]_$", lambda ev, t, n: mk("in", n))])
    d = dict(src.args[1])
    d["Y_"] = ev.env[("mem", "src")]
    d.update({"width_": w, "height_": K(h), "display_width_": sub(w, atom("in", "columns not displayed", lo=0, hi=15)), "display_height_": K(h - 5)})
    ev.env[("this",)] = rec
    ev.env[("arg", 0)] = mk_rec(mk("obj", "VP8Raster"), d)
    acts = []

    def memset(ev, e):
        a, v, n = ev.rv(e["a"][0]), ev.rv(e["a"][1]), ev.rv(e["a"][2])
        acts.append((ev.guard(), "set", index(a, "safe"), v, n, ev.loc(e)))
        return a

    def memcpy(ev, e):
        a, b, n = ev.rv(e["a"][0]), ev.rv(e["a"][1]), ev.rv(e["a"][2])
        acts.append((ev.guard(), "copy", index(a, "safe"), index(b, "src"), n, ev.loc(e)))
        return a
    for q in ("memset", "std::memset", "__builtin_memset"):
        ev.hooks[q] = memset
    for q in ("memcpy", "std::memcpy", "__builtin_memcpy", "std::memmove", "memmove"):
        ev.hooks[q] = memcpy
    s = summarize(ev, f)
    if not acts:
        raise Unsupported("no copies")
    out = []
    n = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    rows = {}
    for a in acts:
        rs = set()
        for wv in (16, 48, 1000, 16000):
            v = value(a[2], {w: wv})
            rs.add(v // (wv + 2 * M))
        if len(rs) != 1:
            raise Unsupported("row written at %s" % a[5])
        rows.setdefault(rs.pop(), []).append(a)
    c = atom("in", "column", lo=0, hi=16383 + 2 * M)
    pre = lt(c, W)
    frame = lambda col, row: atom("h", "pixel", add(mul(row, w), col), lo=0, hi=255)
    pixof = lambda t: frame_of(t, w)
    for r in range(h + 2 * M):
        cell = atom("in", "unwritten", lo=256, hi=256)
        for g, kind, at, v, cnt, _ in rows.get(r, []):
            off = sub(c, sub(at, mul(K(r), W)))
            inside = c_and(g, c_and(ge(off, K(0)), lt(off, cnt)))
            val = atom("h", "pixel", add(v, off), lo=0, hi=255) if kind == "copy" else pixel_value(ev, v)
            cell = ite(inside, val, cell)
        col = sub(c, K(M))
        col = ite(lt(col, K(0)), K(0), ite(ge(col, w), sub(w, K(1)), col))
        row = min(max(r - M, 0), h - 1)
        n += leafcmp(cell, frame(col, K(row)), "column of row %d of the copy" % (r - M), pre, out)
        if len(out) > 2:
            break
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def pixel_value(ev, v):
    """a pixel read from the source plane"""
    if v.op == "sel" or v.op == "elem":
        return atom("h", "pixel", v.args[-1], lo=0, hi=255)
    t = v
    while t.op not in ("sel", "elem", "idx") and len(t.args) == 1 and hasattr(t.args[0], "op"):
        t = t.args[0]
    for x in t.args:
        if getattr(x, "op", None) == "obj" and x.args == ("src",):
            return atom("h", "pixel", t.args[1], lo=0, hi=255)
    raise Unsupported("value stored: %s" % show(v)[:80])


def frame_of(t, w):
    return t


def value(t, env):
    c, m = poly_of(t)
    tot = c
    for mono, k in m.items():
        x = k
        for a in (mono if isinstance(mono, tuple) else (mono,)):
            b, e = a if isinstance(a, tuple) else (a, 1)
            x *= env.get(b, 1) ** e
        tot += x
    return tot


def predicted(run, name, size, f, sp, cases, pts, M):
    P = run.prog
    cls = "VP8Raster::Block<%d>" % size
    g = fns_named(sp, "spec::inter_pixel")[0]
    out, n = [], 0
    for lab, col, row, w, h, wx, wy, mx, my in cases:
        ev = Ev(P, extra=sp, gate=20, strict32=True)
        px.kernels(ev, sp)
        plane, W, H, rec = safe(ev, "ref", w, h, M)
        px.plane(ev, "Y", w, h)
        oc, orow = atom("in", "output column", lo=0, hi=900), atom("in", "output row", lo=0, hi=900)
        ow = add(oc, atom("in", "room in the output", lo=size, hi=900))
        px.plane(ev, "out", ow, add(orow, K(size)))
        ev.env[("mem", "output")] = mk_rec(mk("obj", "TwoDSubRange"), {"master_": mk("addr", ("mem", "out.storage"), ()), "column_": oc, "row_": orow})
        ev.env[("arg", 2)] = ev.env[("mem", "output")]
        ev.env[("this",)] = px.block(ev, cls, "Y", col, row)
        ev.env[("mem", "mv")] = mk_rec(mk("obj", "MotionVector"), {"x_": add(mul(K(8), wx), K(mx)), "y_": add(mul(K(8), wy), K(my))})
        ev.env[("arg", 0)] = ev.env[("mem", "mv")]
        ev.env[("mem", "saferef")] = rec
        ev.env[("arg", 1)] = rec
        s = summarize(ev, f)
        n += leafcmp(b2v(s.live), K(1), "prediction defined", TRUE, out)
        got = px.pixels(s.env, "out")
        for r, c in pts:
            x0, y0 = add(mul(K(size), col), K(c)), add(mul(K(size), row), K(r))
            ev2 = Ev(P, extra=sp, gate=20, strict32=True)
            ev2.env[("mem", "in")] = plane
            for i, a in enumerate([mk("addr", ("mem", "in"), (("i", K(0)),)), W, H, add(add(x0, wx), K(M)), add(add(y0, wy), K(M)), K(mx), K(my)]):
                ev2.env[("argv", i)] = a
            s2 = summarize(ev2, g)
            n += leafcmp(elem(got, add(mul(add(orow, K(r)), ow), add(oc, K(c))), 0, 255), s2.retv, "pixel (%d,%d) with fraction %d,%d" % (c, r, mx, my), s.live, out)
            if out:
                break
        if out:
            break
        run.count("predictions")
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def cases(size, M):
    """sources reaching anywhere into the margin; everything symbolic but the fraction"""
    col, row = atom("in", "block column", lo=0, hi=900), atom("in", "block row", lo=0, hi=900)
    a, b = atom("in", "distance from the copy's left", lo=0, hi=15000), atom("in", "distance from the copy's top", lo=0, hi=15000)
    c, d = atom("in", "room right", lo=2 * M, hi=2 * M + 1500), atom("in", "room below", lo=2 * M, hi=2 * M + 1500)
    sx, sy = add(a, K(2 - M)), add(b, K(2 - M))
    w, h = add(add(sx, c), K(size + 3 - M)), add(add(sy, d), K(size + 3 - M))
    return [("", col, row, w, h, add(sx, mul(K(-size), col)), add(sy, mul(K(-size), row)), mx, my) for mx in range(8) for my in range(8)]


def loaded(run, name, f, M):
    """the copy made of a reference is as large as its luma plane and holds its pixels"""
    P = run.prog
    ev = Ev(P, gate=20)
    w, h, dw, dh = (atom("in", x, lo=1, hi=16383) for x in ("plane width", "plane height", "display width", "display height"))
    seen = []

    def ihook(ev, g, this, binds, e):
        n, c = g["q"].rsplit("::", 1)[-1], g.get("cls") or ""
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        if g["kind"] == "ctor" and c.startswith("VP8MutableRasterHandle<") and len(binds) >= 2:
            seen.append(("made", [val(b) for b in binds[:2]]))
            ev.env[("new raster",)] = mk("in", "blank")
            ev.store(this, mk_rec(mk("obj", "h"), {"raster_": mk("addr", ("new raster",), ())}))
            return mk("void")
        if n == "copy_raster":
            seen.append(("filled", this, binds[0]))
            return mk("void")
        return NotImplemented
    ev.ihook = ihook
    px.plane(ev, "src", w, h)
    d = dict(sym(ev, "VP8Raster", "raster", [(r"raster\.[YUV]_$", lambda ev, t, n: mk("in", n))]).args[1])
    d["Y_"] = ev.env[("mem", "src")]
    d.update({"width_": w, "height_": h, "display_width_": dw, "display_height_": dh})
    ev.env[("arg", 0)] = mk_rec(mk("obj", "VP8Raster"), d)
    s = summarize(ev, f)
    made = [x for x in seen if x[0] == "made"]
    filled = [x for x in seen if x[0] == "filled"]
    if len(made) != 1 or len(filled) != 1:
        raise Unsupported("copies made: %d" % len(made))
    out = []
    n = leafcmp(b2v(s.live), K(1), "defined", TRUE, out)
    n += leafcmp(made[0][1][0], w, "width of the copy", TRUE, out)
    n += leafcmp(made[0][1][1], h, "height of the copy", TRUE, out)
    n += leafcmp(filled[0][1], mk("addr", ("new raster",), ()), "raster filled", TRUE, out)
    n += leafcmp(field(s.retv, "raster_"), mk("addr", ("new raster",), ()), "raster returned", TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def made(run, name, f, M):
    ev = Ev(run.prog, gate=20)
    w, h = atom("in", "width", lo=1, hi=16383), atom("in", "height", lo=1, hi=16383)

    def ihook(ev, g, this, binds, e):
        if g["kind"] == "ctor" and (g.get("cls") or "").startswith("TwoD<") and len(binds) >= 2:
            v = [ev.load(b) if not isinstance(b, tuple) else b[1] for b in binds[:2]]
            ev.store(this, mk_rec(mk("obj", "plane"), {"w": v[0], "h": v[1]}))
            return mk("void")
        return NotImplemented
    ev.ihook = ihook
    ev.env[("argv", 0)], ev.env[("argv", 1)] = w, h
    s = summarize(ev, f)
    y = field(s.env[("this",)], "safe_Y_")
    out = []
    n = leafcmp(field(y, "w"), add(w, K(2 * M)), "width of the padded plane", TRUE, out)
    n += leafcmp(field(y, "h"), add(h, K(2 * M)), "height of the padded plane", TRUE, out)
    for a, b in (("display_width", w), ("display_height", h)):
        n += leafcmp(field(s.env[("this",)], a + "_"), b, a, TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def selected(run, name, f):
    out, n = [], 0
    for code, r in ((1, "last"), (2, "golden"), (3, "alternative")):
        ev = Ev(run.prog, gate=20)
        for x in REFS:
            ev.env[("raster " + x,)] = mk("in", "copy of " + x)
        ev.env[("this",)] = mk_rec(mk("obj", "SafeReferences"), {x: mk_rec(mk("obj", "h"), {"raster_": mk("addr", ("raster " + x,), ())}) for x in REFS})
        ev.env[("argv", 0)] = K(code)
        s = summarize(ev, f)
        n += leafcmp(s.retv, mk("in", "copy of " + r), "copy for reference %d" % code, TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def searched(run, name, f, M, step):
    """whatever the search tries, the pixels it reads lie inside the padded copy"""
    P = run.prog
    MB = [strip(p["t"]) for p in f["ps"] if strip(p["t"]).startswith("Macroblock<")]
    if len(MB) != 1:
        raise Unsupported("macroblock searched for")
    ch = ef.Choice(run, f, MB[0])
    ev, tried = ch.ev, []
    c, r = atom("in", "mb column", lo=0, hi=1023), atom("in", "mb row", lo=0, hi=1023)
    w, h = add(add(c, K(1)), atom("in", "mbs to the right", lo=0, hi=1023)), add(add(r, K(1)), atom("in", "mbs below", lo=0, hi=1023))
    ctx = dict(field(ch.m, "context_").args[1])
    ctx.update({"column": c, "row": r, "width": w, "height": h})
    ch.m = with_(ch.m, "context_", mk_rec(mk("obj", "Context"), ctx))
    k = 0
    for i, p in enumerate(f["ps"]):
        t = strip(p["t"])
        if t == MB[0]:
            ev.env[("arg", i)] = ch.m
        elif t == "MotionVector":
            k += 1
            ev.env[("arg", i)] = ef.vec(*[atom("in", "vector %d %s" % (k, x), lo=-16383, hi=16383) for x in "xy"])
        elif t in ("unsigned long", "size_t"):
            ev.env[("argv", i)] = K(step)

    def ihook(ev, g, this, binds, e):
        n, cl = ef.tail(g["q"]), g.get("cls") or ""
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        if n == "inter_predict":
            if len(binds) == 3 and strip(g["ps"][1]["t"]) == "SafeRaster":
                tried.append((ev.guard(), val(binds[0]), ev.loc(e)))
            return mk("void")
        if n in ("luma_mb_best_prediction_mode", "diamond_search", "clamp"):
            return NotImplemented
        return ch.ihook(ev, g, this, binds, e)
    ev.ihook = ihook
    ev.env[("this",)] = sym(ev, "Encoder", "e", [(r"e\.(decoder_state_|costs_|key_frame_|inter_frame_|subsampled_.*|encode_stats_|(safe_)?references_|temp_raster_handle_)$", lambda ev, t, n: mk("in", n))])
    summarize(ev, f)
    if not tried:
        raise Unsupported("no prediction from the copy")
    out, n = [], 0
    for g, mv, where in tried:
        for x, o, size in (("x_", c, w), ("y_", r, h)):
            at = add(mul(K(128), o), field(mv, x))
            n += leafcmp(b2v(ge(at, K(8 * (2 - M)))), K(1), "vector %s tried at %s stays inside the copy's start" % (x[0], where), g, out)
            n += leafcmp(b2v(ge(add(mul(K(128), size), K(8 * (M - 16 - 4))), at)), K(1), "vector %s tried at %s stays inside the copy's end" % (x[0], where), g, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def with_(r, n, v):
    d = dict(r.args[1])
    d[n] = v
    return mk_rec(r.args[0], d)


def check(run):
    P = run.prog
    sp = spec(run, "pixels.cc")
    try:
        M = margin(run)
    except Unsupported:
        run.undecided("margin", "", "no constant margin")
        return
    for f in fns(P):
        q, ps = f["q"], [strip(p["t"]) for p in f["ps"]]
        if q == "SafeRaster::at":
            run.attempt("padded pixel access", access, run, "padded pixel access", f, M)
        if q == "SafeRaster::copy_raster":
            for h in (16, 48):
                nm = "padded copy of %d lines" % h
                run.attempt(nm, copied, run, nm, f, M, h)
        if q == "SafeReferences::load":
            run.attempt("padded copy of a reference", loaded, run, "padded copy of a reference", f, M)
        if ps.count("SafeRaster") == 1 and f.get("cls") == "Encoder":
            for step in (2, 3):
                nm = "vectors tried by the search, last step %d" % step
                run.attempt(nm, searched, run, nm, f, M, step)
        if q == "SafeReferences::get":
            run.attempt("padded copy selected", selected, run, "padded copy selected", f)
        if f["kind"] == "ctor" and f.get("cls") == "SafeRaster" and len(ps) == 2:
            run.attempt("padded plane made", made, run, "padded plane made", f, M)
        if sp and q.endswith("::inter_predict") and len(ps) == 3 and ps[1] == "SafeRaster":
            size = int(re.search(r"<(\d+)>", f["cls"]).group(1))
            cs = cases(size, M)
            if size > 4 and run.tier != "thorough":
                some = {(2, 6), (5, 3), (4, 4), (1, 7)} if size == 16 else {(k, (3 * k) % 8) for k in range(1, 8)}
                cs = [x for x in cs if not (x[-2] and x[-1]) or x[-2:] in some]
            e = [0, 1, size // 2, size - 1]
            both = [x for x in cs if x[-2] and x[-1]] if size == 16 else []
            rest = [x for x in cs if x not in both]
            k = 16 if size == 4 else 8
            for i, part in enumerate([rest[i::k] for i in range(k)] + [[x] for x in both]):
                nm = "prediction of %dx%d blocks from the padded copy, part %d" % (size, size, i + 1)
                run.attempt(nm, predicted, run, nm, size, f, sp, part, [(r, c) for r in e for c in e], M)
    run.floor("values_compared", 100)
