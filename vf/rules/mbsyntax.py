"""Macroblock header, mode and motion-vector syntax."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.headers import OVER

COL, ROW = 2, 1
FW = 5


def ctx(ev, cls, name):
    r = ev.rec("TwoDStorage<%s>::Context" % cls)
    d = {}
    for f in r["fields"]:
        if f["n"] in ("column", "row"):
            d[f["n"]] = K(COL if f["n"] == "column" else ROW)
        elif f["n"] in ("width", "height"):
            d[f["n"]] = atom("in", name + "." + f["n"], lo=3, hi=1024)
        else:
            d[f["n"]] = mk_rec(mk("obj", f["t"]), {"initialized_": atom("in", name + "." + f["n"] + "?", lo=0, hi=1), "object_": mk("in", name + "." + f["n"])})
    return mk_rec(mk("obj", "ctx"), d)


def fresh_block(ev, cls, name, typ):
    v = sym(ev, cls, name)
    d = dict(v.args[1])
    d["context_"] = ctx(ev, cls, name + ".context_")
    z = lambda t, n: zero_of(ev, t)
    for f in ev.rec(cls)["fields"]:
        if f["n"] == "context_":
            continue
        d[f["n"]] = zero_of(ev, f["t"])
    d["type_"] = K(typ)
    d["coded_"] = K(1)
    return mk_rec(mk("obj", cls), d)


def zero_of(ev, t):
    v = sym(ev, t, "z")

    def z(x):
        if x.op == "rec":
            return mk_rec(x.args[0], {k: z(y) for k, y in x.args[1]})
        if x.op == "arr":
            return rebuild_arr(x, z)
        return K(0)
    return z(v)


def rebuild_arr(x, z):
    return mk_arr(x.args[0], {i: z(y) for i, y in x.args[1]}, x.args[2])


def plane(ev, env, root, cls, name, n, typ, fw):
    """TwoD<cls> with only the n x n window of the macroblock present"""
    w = fw * n
    els = {}
    for r in range(n):
        for c in range(n):
            els[(ROW * n + r) * w + COL * n + c] = fresh_block(ev, cls, "%s[%d,%d]" % (name, c, r), typ)
    env[(root,)] = mk_rec(mk("obj", "TwoDStorage"), {"width_": K(w), "height_": atom("in", name + "h", lo=(ROW + 1) * n, hi=4096),
                                                     "storage_": mk_rec(mk("obj", "vec"), {"#n": atom("in", name + "n", lo=0), "#d": mk_arr(mk("in", name + "#d"), els, ())})})
    return mk_rec(mk("obj", "TwoD"), {"storage_": mk("addr", (root,), ())})


def block_cls(run, MB):
    """block class names from the fields of the macroblock record"""
    r = run.prog.records[MB]
    f = {x["n"]: x["t"] for x in r["fields"]}
    y2 = strip(f["Y2_"])
    y = splitargs(re.match(r"TwoDSubRange<(.*)>$", f["Y_"]).group(1))[0]
    uv = splitargs(re.match(r"TwoDSubRange<(.*)>$", f["U_"]).group(1))[0]
    return y2, y, uv


def setup(run, ev, MB, H):
    y2, y, uv = block_cls(run, MB)
    env = ev.env
    env[("arg", 0)] = ctx(ev, MB, "mb")
    env[("arg", 2)] = sym(ev, H, "h", OVER)
    env[("arg", 3)] = sym(ev, "SafeArray<unsigned char, 3>", "segprob")
    env[("arg", 4)] = sym(ev, "ProbabilityTables", "pt")
    env[("arg", 5)] = plane(ev, env, "mY2", y2, "Y2", 1, 1, FW)
    env[("arg", 6)] = plane(ev, env, "mY", y, "Y", 4, 0, FW)
    env[("arg", 7)] = plane(ev, env, "mU", uv, "U", 2, 2, FW)
    env[("arg", 8)] = plane(ev, env, "mV", uv, "V", 2, 2, FW)
    env[("argv", 9)] = K(0)


def parse(run, tape, MB, H, ctor):
    ev = Ev(run.prog, gate=20)
    tape.attach(ev)
    ev.ihook = census_hook(tape.ihook)
    setup(run, ev, MB, H)
    s = summarize(ev, ctor)
    return ev, s


def write_back(run, name, MB, H, ctor, writer, wx=None, fix=None):
    tape = FreeTape(run.prog, fix)
    ev, s = parse(run, tape, MB, H, ctor)
    run.count("symbols_parsed", tape.reads)
    ev2 = Ev(run.prog, extra=wx, gate=20)
    tape.attach(ev2)
    ev2.ihook = census_hook(tape.ihook)
    for k in (("mY2",), ("mY",), ("mU",), ("mV",)):
        ev2.env[k] = s.env[k]
    off = 1 if writer["kind"] == "fn" else 0
    if off:
        ev2.env[("arg", 0)] = s.env[("this",)]
    else:
        ev2.env[("this",)] = s.env[("this",)]
    ev2.env[("arg", 1 + off)] = s.env[("arg", 2)]
    ev2.env[("arg", 2 + off)] = s.env[("arg", 3)]
    ev2.env[("arg", 3 + off)] = s.env[("arg", 4)]
    ev2.base = s.live
    try:
        s2 = summarize(ev2, writer)
        tape.finish(c_and(s.live, s2.live))
    except Misaligned:
        pass
    run.count("symbols_written", tape.writes)
    if tape.problems:
        for p in tape.problems[:2]:
            run.bad(name, p.loc or loc(writer), repr(p))
    else:
        run.ok(name, loc(writer), "%d symbols" % tape.reads, tape.reads)


def census_hook(inner):
    """the neighbour census as an uninterpreted pure function of its inputs (its own
    definition is compared with the reference elsewhere)"""
    def val(ev, b):
        return ev.load(b) if not isinstance(b, tuple) else b[1]

    def mv(ev, tag, *a):
        return mk_rec(mk("obj", "MotionVector"), {"x_": atom("h", tag + "x", *a, lo=-32768, hi=32767), "y_": atom("h", tag + "y", *a, lo=-32768, hi=32767)})

    def hook(ev, f, this, binds, e):
        if f.get("cls") == "Scorer":
            n = f["q"].rsplit("::", 1)[1]
            if f["kind"] == "ctor" and len(f["ps"]) == 1 and not f.get("cm"):
                ev.store(ev.ext(this, ("f", "#s")), mk("sc0", val(ev, binds[0])))
                return mk("void")
            st = field(ev.load(this), "#s") if this is not None else None
            if n == "add" and len(f["ps"]) == 2 and "Optional" in f["ps"][1]["t"]:
                m = val(ev, binds[1])
                ev.store(ev.ext(this, ("f", "#s")), mk("scadd", st, val(ev, binds[0]), field(m, "initialized_"), field(m, "object_")))
                return mk("void")
            if n == "calculate":
                ev.store(ev.ext(this, ("f", "#s")), mk("sccalc", st))
                return mk("void")
            if n == "mode_contexts":
                t = strip(f["ret"])
                r = ev.rec(t)
                return mk_rec(mk("obj", t), {r["fields"][0]["n"]: mk_arr(mk("obj", "arr"), {i: atom("h", "scmode%d" % i, st, lo=0, hi=5) for i in range(4)}, ())})
            if n in ("best", "nearest", "near"):
                return ev.temp(mv(ev, "sc" + n, st))
            if n == "clamp":
                m, c = val(ev, binds[0]), val(ev, binds[1])
                return mv(ev, "scclamp", field(m, "x_"), field(m, "y_"), *[field(c, x) for x in ("column", "row", "width", "height")])
        return inner(ev, f, this, binds, e)
    return hook


def conform(run, name, MB, H, ctor, sp, sname, fix=None):
    """the parser's symbol sequence and resulting macroblock against the reference parser"""
    tape = FreeTape(run.prog, fix)
    ev, s = parse(run, tape, MB, H, ctor)
    tape.rewind()
    ev2 = Ev(run.prog, extra=sp, gate=20)
    tape.attach(ev2)
    ev2.ihook = census_hook(tape.ihook)
    setup(run, ev2, MB, H)
    env = dict(ev2.env)
    for k in [k for k in ev2.env if k[0] in ("arg", "argv")]:
        del ev2.env[k]
    mb = s.env[("this",)]
    d = dict(mb.args[1])
    none = mk_rec(mk("obj", "none"), {"initialized_": K(0)})
    d["segment_id_update_"] = d["mb_skip_coeff_"] = none
    if "header_" in d and H.startswith("Inter"):
        d["header_"] = mk_rec(mk("obj", "hdr"), {"is_inter_mb": mk_rec(mk("obj", "b"), {"i_": K(0)}), "mb_ref_frame_sel1": none, "mb_ref_frame_sel2": none, "motion_vectors_flipped_": K(0), "partition_id": none})
    ev2.env[("arg", 0)] = mk_rec(mb.args[0], d)
    ev2.env[("arg", 2)] = env[("arg", 2)]
    ev2.env[("arg", 3)] = env[("arg", 3)]
    ev2.env[("arg", 4)] = env[("arg", 4)]
    for k in (("mY2",), ("mY",), ("mU",), ("mV",)):
        ev2.env[k] = env[k]
    f = fns_named(sp, sname)[0]
    try:
        s2 = summarize(ev2, f)
        tape.finish2(c_and(s.live, s2.live))
    except Misaligned:
        pass
    if tape.problems:
        for p in tape.problems[:2]:
            run.bad(name, p.loc or loc(ctor), repr(p))
        return
    live = c_and(s.live, s2.live)
    out, n = [], 0
    y2, y, uv = block_cls(run, MB)
    n += cmp_opt(ev2, mb, s2.env[("arg", 0)], ["segment_id_update_", "mb_skip_coeff_"], MB, live, out)
    if H.startswith("Inter"):
        n += cmp_opt(ev2, field(mb, "header_"), field(s2.env[("arg", 0)], "header_"), None, "InterFrameMacroblockHeader", live, out, "header")
    inter = tobool(field(field(field(mb, "header_"), "is_inter_mb"), "i_", None, 0, 1)) if H.startswith("Inter") else FALSE
    for root, cls, k, flds in (("mY2", y2, 1, ("prediction_mode_", "coded_")), ("mY", y, 4, ("prediction_mode_", "type_")), ("mU", uv, 2, ())):
        a, b = s.env[(root,)], s2.env[(root,)]
        da, db = field(field(a, "storage_"), "#d"), field(field(b, "storage_"), "#d")
        for r in range(k):
            for c in range(k):
                i = K((ROW * k + r) * FW * k + COL * k + c)
                ba, bb = elem(da, i), elem(db, i)
                for fl in flds + (("prediction_mode_",) if root == "mU" and r == c == 0 else ()):
                    pre = live
                    n += leafcmp(field(ba, fl, None, 0, 20), field(bb, fl, None, 0, 20), "%s(%d,%d).%s" % (root[1:], c, r, fl.strip("_")), pre, out)
                if root != "mY2" and H.startswith("Inter"):
                    pre = live if root == "mY" else c_and(live, inter)
                    for fl in ("x_", "y_"):
                        va = field(field(ba, "motion_vector_"), fl, None, -32768, 32767)
                        vb = field(field(bb, "motion_vector_"), fl, None, -32768, 32767)
                        n += leafcmp(va, vb, "%s(%d,%d).motion_vector.%s" % (root[1:], c, r, fl.strip("_")), pre, out, samples=60)
    run.count("fields_compared", n)
    if out:
        for path, x, z, dd in out[:3]:
            run.bad(name, loc(ctor), "%s: %s, the format gives %s (for example %s / %s)" % (path, show(x)[:140], show(z)[:140], dd["a"], dd["b"]))
    else:
        run.ok(name, loc(ctor), "%d symbols, %d values" % (tape.reads, n), n + tape.reads)


def cmp_opt(ev, a, b, fields, cls, live, out, path=""):
    n = 0
    for f in ev.rec(cls)["fields"]:
        if fields is not None and f["n"] not in fields:
            continue
        n += compare(ev, field(a, f["n"]), field(b, f["n"]), f["t"], path + "." + f["n"], live, out)
    return n


def tree_pair(run, cls, w, r):
    name = "tree codec " + splitargs(cls[5:-1])[-1].strip()
    tape = Tape()
    ev = Ev(run.prog, hooks=tape.hooks(), gate=20)
    lv = FreeTape(run.prog).leaves(cls)
    v = atom("in", "value", lo=lv[0], hi=lv[1])
    pt = strip(r["ps"][1]["t"])
    probs = sym(ev, pt, "p")
    ev.env[("arg", 1)] = mk_rec(mk("obj", cls), {"value_": v})
    ev.env[("arg", 2)] = probs
    summarize(ev, w)
    ev2 = Ev(run.prog, hooks=tape.hooks(), gate=20)
    ev2.env[("arg", 1)] = probs
    try:
        s2 = summarize(ev2, r)
        tape.finish(s2.live)
    except Misaligned:
        pass
    run.count("symbols_parsed", tape.reads)
    if tape.problems:
        for p in tape.problems[:2]:
            run.bad(name, p.loc or loc(r), repr(p))
        return
    out = []
    leafcmp(v, field(s2.env[("this",)], "value_", None, -128, 127), "value", s2.live, out)
    if out:
        run.bad(name, loc(r), "value %s is decoded as %s" % (out[0][3]["a"], out[0][3]["b"]))
    else:
        run.ok(name, loc(w), "%d leaves" % (lv[1] - lv[0] + 1), lv[1] - lv[0] + 1)


def mv_pair(run, w, r, axis):
    """encode(MotionVector) then MotionVector(BoolDecoder&): every even component in +-2046"""
    for axis in (axis,):
        name = "motion vector codec (%s)" % axis
        tape = Tape()
        ev = Ev(run.prog, hooks=tape.hooks(), gate=20)
        h = atom("in", "half", lo=-1023, hi=1023)
        comp = mul(K(2), h)
        mvv = mk_rec(mk("obj", "MotionVector"), {"x_": comp if axis == "x" else K(0), "y_": comp if axis == "y" else K(0)})
        probs = sym(ev, strip(w["ps"][2]["t"]), "p")
        ev.env[("arg", 1)] = mvv
        ev.env[("arg", 2)] = probs
        summarize(ev, w)
        ev2 = Ev(run.prog, hooks=tape.hooks(), gate=20)
        ev2.env[("arg", 1)] = probs
        try:
            s2 = summarize(ev2, r)
            tape.finish(s2.live)
        except Misaligned:
            pass
        run.count("symbols_parsed", tape.reads)
        if tape.problems:
            for p in tape.problems[:2]:
                run.bad(name, p.loc or loc(r), repr(p))
            continue
        out = []
        for fl in ("x_", "y_"):
            leafcmp(field(mvv, fl, None, -32768, 32767), field(s2.env[("this",)], fl, None, -32768, 32767), fl, s2.live, out, samples=400)
        if out:
            run.bad(name, loc(r), "component %s written as %s is parsed as %s" % (out[0][0], out[0][3]["a"], out[0][3]["b"]))
        else:
            run.ok(name, loc(r), "%d symbols" % tape.reads, tape.reads)


def mv_conform(run, r, sp):
    name = "motion vector syntax"
    tape = FreeTape(run.prog)
    ev = Ev(run.prog, gate=20)
    ev.hooks["BoolDecoder::get"] = tape.get
    probs = sym(ev, strip(r["ps"][1]["t"]), "p")
    ev.env[("arg", 1)] = probs
    s = summarize(ev, r)
    tape.rewind()
    ev2 = Ev(run.prog, extra=sp, gate=20)
    ev2.hooks["BoolDecoder::get"] = tape.get
    ev2.env[("arg", 1)] = probs
    try:
        s2 = summarize(ev2, fns_named(sp, "spec::motion_vector")[0])
        tape.finish2(TRUE)
    except Misaligned:
        pass
    run.count("symbols_parsed", tape.reads)
    if tape.problems:
        for p in tape.problems[:2]:
            run.bad(name, p.loc or loc(r), repr(p))
        return
    out = []
    for fl, i in (("x_", 2), ("y_", 3)):
        leafcmp(field(s.env[("this",)], fl, None, -32768, 32767), s2.env[("arg", i)], fl, TRUE, out, samples=400)
    if out:
        run.bad(name, loc(r), "component %s parsed as %s, the format gives %s" % (out[0][0], out[0][3]["a"], out[0][3]["b"]))
    else:
        run.ok(name, loc(r), "%d symbols" % tape.reads, tape.reads)


CASES = [{"mv_ref_tree": m} for m in (5, 6, 7, 8)] + [{"mv_ref_tree": 9, "split_mv_tree": k} for k in range(4)]


def check(run):
    P = run.prog
    sp = spec(run, "modes.cc")
    fs = fns(P)
    # trees
    n = 0
    for r in fs:
        cls = r.get("cls") or ""
        if r["kind"] == "ctor" and cls.startswith("Tree<") and len(r["ps"]) == 2 and "BoolDecoder" in r["ps"][0]["t"]:
            w = [f for f in fs if f["kind"] == "fn" and len(f["ps"]) == 3 and "BoolEncoder" in f["ps"][0]["t"] and strip(f["ps"][1]["t"]) == cls]
            if not w:
                run.undecided("tree codec " + cls, loc(r), "no writer")
                continue
            n += 1
            run.attempt("tree codec " + cls, tree_pair, run, cls, w[0], r)
    run.count("tree_codecs", n)
    # motion vectors
    r = one(run, "motion vector parser", [f for f in fs if f["kind"] == "ctor" and f.get("cls") == "MotionVector" and len(f["ps"]) == 2 and "BoolDecoder" in f["ps"][0]["t"]])
    w = one(run, "motion vector writer", [f for f in fs if f["kind"] == "fn" and len(f["ps"]) == 3 and "BoolEncoder" in f["ps"][0]["t"] and strip(f["ps"][1]["t"]) == "MotionVector"])
    if r and w:
        for axis in "yx":
            run.attempt("motion vector codec (%s)" % axis, mv_pair, run, w, r, axis)
    if r and sp:
        run.attempt("motion vector syntax", mv_conform, run, r, sp)
    # macroblocks
    for H, MH, sn, cases in (("KeyFrameHeader", "KeyFrameMacroblockHeader", "spec::key_mb", [None]), ("InterFrameHeader", "InterFrameMacroblockHeader", "spec::inter_mb", CASES)):
        MB = "Macroblock<%s, %s>" % (H, MH)
        c = one(run, MB + " parser", [f for f in fs if f["kind"] == "ctor" and f.get("cls") == MB and len(f["ps"]) == 10])
        w = one(run, MB + " writer", [f for f in fs if f["q"] == MB + "::serialize"])
        for fix in cases:
            tag = "key" if fix is None else "inter" + "".join(" %s=%d" % (k, v) for k, v in fix.items())
            if c and w:
                run.attempt("macroblock header written back: " + tag, write_back, run, "macroblock header written back: " + tag, MB, H, c, w, None, fix)
            if c and sp:
                run.attempt("macroblock header syntax: " + tag, conform, run, "macroblock header syntax: " + tag, MB, H, c, sp, sn, fix)
    run.floor("symbols_parsed", 300)
    run.floor("tree_codecs", 6)
