"""VP8 frame container: writer composed with the parser over symbolic partitions."""
import re
from evalx import *
from chan import *
from rules.common import *


def vec(n, d):
    return mk_rec(mk("obj", "vec"), {"#n": n, "#d": d})


def flat(v):
    """(constant-size prefix bytes and symbolic parts) of a cat value"""
    if v.op == "cat":
        return list(v.args[0])
    return [v]


def memory(v):
    """byte memory holding the concatenation v: value, start offset of every symbolic part, size"""
    off = K(0)
    ents, syms, starts = {}, [], []
    for p in flat(v):
        n = field(p, "#n")
        if n.op == "k":
            for j in range(n.args[0]):
                o = add(off, K(j))
                x = elem(field(p, "#d"), K(j), 0, 255)
                if o.op == "k":
                    ents[o.args[0]] = x
                else:
                    syms.append((o, x))
        else:
            starts.append((p, off))
        off = add(off, n)
    return mk_arr(mk("obj", "mem"), ents, tuple(syms)), starts, off


def compose(run, name, w, ctor, parts, T, k):
    F = atom("in", "F", lo=1, hi=(1 << 19) - 1)
    Ps = [atom("in", "P%d" % i, lo=0 if i < k - 1 else 1, hi=(1 << 24) - 1) for i in range(k)]
    first = vec(F, mk("obj", "first partition"))
    dct = [vec(Ps[i], mk("obj", "dct partition %d" % i)) for i in range(k)]

    def ih(ev, f, this, binds, e):
        if f["q"].endswith("::serialize_first_partition"):
            return first
        if f["q"].endswith("::serialize_tokens") and (f.get("cls") or "").startswith("Frame<"):
            return vec(K(k), mk_arr(mk("obj", "arr"), dict(enumerate(dct)), ()))
        if f["q"].startswith("ProbabilityTables::"):
            return mk("void")
        return NotImplemented
    ev = Ev(run.prog, gate=20, strict32=True)
    ev.ihook = ih
    fr = sym(ev, T, "f", [(r"f\.(Y2_|Y_|U_|V_|macroblock_headers_)", lambda ev, t, n: mk("in", n))])
    W_ = atom("in", "width", lo=1, hi=16383)
    H_ = atom("in", "height", lo=1, hi=16383)
    d = dict(fr.args[1])
    d["display_width_"], d["display_height_"] = W_, H_
    show_ = d["show_"]
    ev.env[("this",)] = mk_rec(fr.args[0], d)
    s = summarize(ev, w)
    if s.live is not TRUE and feasible(c_not(s.live)):
        run.bad(name, loc(w), "a frame within the size limits is rejected by the writer when %s" % show(c_not(s.live))[:200])
        return
    mem, starts, size = memory(s.retv)
    ev2 = Ev(run.prog, gate=20, strict32=True)
    ev2.env[("mem", "frame")] = mem
    ch = mk_rec(mk("obj", "Chunk"), {"buffer_": mk("addr", ("mem", "frame"), (("i", K(0)),)), "size_": size})
    ev2.env[("arg", 0)] = ch
    ev2.env[("argv", 1)], ev2.env[("argv", 2)], ev2.env[("argv", 3)] = W_, H_, K(0)
    s2 = summarize(ev2, ctor)
    out = []
    n = 0
    if feasible(c_not(s2.live)):
        run.bad(name, loc(ctor), "a frame produced by the writer is rejected by the parser when %s" % show(c_not(s2.live))[:300])
        return
    pc = s2.env[("this",)]
    key = K(1 if T == "KeyFrame" or "KeyFrameHeader" in T else 0)
    for lab, x, y in (("key-frame flag", field(pc, "key_frame_", None, 0, 1), key), ("show flag", field(pc, "show_frame_", None, 0, 1), show_),
                      ("experimental flag", field(pc, "experimental_", None, 0, 1), K(0))):
        n += leafcmp(tobv(x), tobv(y), lab, s2.live, out)
    n += chunkcmp(mem, starts, field(pc, "first_partition_"), first, "first partition", s2.live, out)
    ev3 = Ev(run.prog, gate=20, strict32=True)
    ev3.env[("mem", "frame")] = mem
    ev3.env[("this",)] = pc
    ev3.env[("argv", 0)] = K(k)
    ev3.base = s2.live
    s3 = summarize(ev3, parts)
    if feasible(c_and(s2.live, c_not(s3.live))):
        run.bad(name, loc(parts), "the token partitions written are rejected by the parser when %s" % show(c_not(s3.live))[:300])
        return
    n += leafcmp(field(s3.retv, "#n"), K(k), "number of token partitions", s2.live, out)
    for i in range(k):
        n += chunkcmp(mem, starts, elem(field(s3.retv, "#d"), K(i)), dct[i], "token partition %d" % i, s2.live, out)
    run.count("values_compared", n)
    if out:
        for path, x, y, dd in out[:3]:
            run.bad(name, loc(ctor), "%s: written %s, parsed %s (for example %s / %s)" % (path, show(y)[:140], show(x)[:140], dd["b"], dd["a"]))
    else:
        run.ok(name, loc(ctor), "%d values" % n, n)


def tobv(x):
    return x


def chunkcmp(mem, starts, c, part, lab, pre, out):
    st = [o for p, o in starts if p is part]
    if len(st) != 1:
        out.append((lab, mk("in", "written %d times" % len(st)), part, {"a": len(st), "b": 1}))
        return 1
    n = leafcmp(field(c, "size_", None, 0, 1 << 40), field(part, "#n"), lab + " size", pre, out)
    want = mk("addr", ("mem", "frame"), (("i", st[0]),))
    n += leafcmp(field(c, "buffer_"), want, lab + " position", pre, out)
    return n


def conform(run, name, ctor, sp):
    W_ = atom("in", "width", lo=0, hi=65535)
    H_ = atom("in", "height", lo=0, hi=65535)
    size = atom("in", "size", lo=0, hi=1 << 24)

    def start(ev, ai):
        ev.env[("arg", ai)] = mk_rec(mk("obj", "Chunk"), {"buffer_": mk("addr", ("mem", "frame"), (("i", K(0)),)), "size_": size})
        ev.env[("argv", 1)], ev.env[("argv", 2)] = W_, H_
    ev = Ev(run.prog, gate=20, strict32=True)
    start(ev, 0)
    ev.env[("argv", 3)] = K(0)
    s = summarize(ev, ctor)
    ev2 = Ev(run.prog, extra=sp, gate=20, strict32=True)
    start(ev2, 0)
    s2 = summarize(ev2, fns_named(sp, "spec::frame_tag")[0])
    out = []
    n = leafcmp(b2v(s.live), b2v(s2.live), "acceptance", TRUE, out)
    pre = c_and(s.live, s2.live)
    a, b = s.env[("this",)], s2.env[("arg", 3)]
    for f in ("key_frame_", "show_frame_", "experimental_", "loop_filter_"):
        n += leafcmp(field(a, f, None, 0, 1), field(b, f, None, 0, 1), f.strip("_").replace("_", " "), pre, out)
    for f in ("first_partition_", "rest_"):
        n += leafcmp(field(field(a, f), "size_"), field(field(b, f), "size_"), f.strip("_").replace("_", " ") + " size", pre, out)
        n += leafcmp(field(field(a, f), "buffer_"), field(field(b, f), "buffer_"), f.strip("_").replace("_", " ") + " position", pre, out)
    run.count("values_compared", n)
    if out:
        for path, x, y, dd in out[:3]:
            run.bad(name, loc(ctor), "%s is %s where RFC 6386 has %s (for example %s / %s)" % (path, show(x)[:140], show(y)[:140], dd["a"], dd["b"]))
    else:
        run.ok(name, loc(ctor), "%d values" % n, n)


def grid(ev, name, w, h, cell=None):
    """TwoD of w x h opaque cells"""
    ev.env[("grid", name)] = mk_rec(mk("obj", "grid"), {"width_": K(w), "height_": K(h), "storage_": vec(K(w * h), mk("obj", "cells " + name))})
    return mk_rec(mk("obj", "TwoD"), {"storage_": mk("addr", ("grid", name), ())})


def index_of(a):
    """element index of an address inside a container"""
    if isinstance(a, tuple) or a.op != "addr":
        return None
    ii = [s[1] for s in a.args[1] if s[0] == "i"]
    return ii[-1].args[0] if ii and ii[-1].op == "k" else None


def rows(run, name, f, T, log2, kind):
    """every macroblock row r, in raster order, uses token partition r mod count, and the
    partitions are finished in order"""
    k, w, h = 1 << log2, 2, 19
    ev = Ev(run.prog, gate=40)
    calls = []

    def ih(ev, g, this, binds, e):
        c = g.get("cls") or ""
        q = g["q"].rsplit("::", 1)[-1]
        if c.startswith("Macroblock<") and q == kind:
            calls.append((ev.guard(), index_of(this), index_of(binds[0]), ev.loc(e), binds[0] if not isinstance(binds[0], tuple) else None))
            return mk("void")
        if c == "BoolDecoder" and g["kind"] == "ctor":
            ev.store(ev.ext(this, ("f", "chunk_")), argval(ev, binds[0]))
            return mk("void")
        if c == "BoolEncoder" and q == "finish":
            return mk("in", "finished %s" % index_of(this))
        if c == "BoolEncoder" and g["kind"] == "ctor":
            return mk("void")
        return NotImplemented
    ev.ihook = ih
    mk_ = lambda e, t, n: mk("in", n)
    fr = sym(ev, T, "f", [(r"f\.(Y2_|Y_|U_|V_|macroblock_headers_)", mk_)])
    d = dict(fr.args[1])
    d["macroblock_headers_"] = mk_rec(mk("obj", "opt"), {"initialized_": K(1), "object_": grid(ev, "mbs", w, h)})
    hd = dict(d["header_"].args[1])
    hd["log2_number_of_dct_partitions"] = mk_rec(mk("obj", "u"), {"i_": K(log2)})
    d["header_"] = mk_rec(d["header_"].args[0], hd)
    ev.env[("this",)] = mk_rec(fr.args[0], d)
    if kind == "parse_tokens":
        ev.env[("argv", 0)] = vec(K(k), mk_arr(mk("obj", "arr"), {i: mk("in", "chunk %d" % i) for i in range(k)}, ()))
    s = summarize(ev, f)
    if any(c[0] is not TRUE or c[1] is None or c[2] is None for c in calls) or len(calls) == 0:
        run.undecided(name, loc(f), "macroblock visits not resolved")
        return
    bad = None
    if [c[1] for c in calls] != list(range(w * h)):
        bad = "macroblocks are not visited once each in raster order"
    for c in calls:
        r = c[1] // w
        part = c[2]
        if kind == "parse_tokens":
            ch = field(ev.load(c[4]), "chunk_")
            part = int(ch.args[0].split()[1]) if ch.op == "in" and str(ch.args[0]).startswith("chunk ") else None
        if part is None:
            run.undecided(name, loc(f), "partition of row %d not resolved" % r)
            return
        if not bad and part != r % k:
            bad = "row %d of a frame with %d partitions uses partition %d" % (r, k, part)
    if kind == "serialize_tokens" and not bad:
        n = field(s.retv, "#n")
        got = [elem(field(s.retv, "#d"), K(i)) for i in range(k)]
        if n is not K(k) or any(x is not mk("in", "finished %d" % i) for i, x in enumerate(got)):
            bad = "the partitions returned are not those written, in order: %s" % [show(x) for x in got]
    if bad:
        run.bad(name, calls[0][3], bad)
    else:
        run.ok(name, loc(f), "%d macroblock visits" % len(calls), len(calls))
    run.count("values_compared", len(calls))


def check(run):
    P = run.prog
    sp = spec(run, "container.cc")
    ctor = one(run, "frame parser", [f for f in fns(P) if f["kind"] == "ctor" and f.get("cls") == "UncompressedChunk" and len(f["ps"]) == 4])
    parts = one(run, "token partition parser", [f for f in fns(P) if f["q"] == "UncompressedChunk::dct_partitions"])
    if sp and ctor:
        run.attempt("frame tag", conform, run, "frame tag against RFC 6386 section 9.1", ctor, sp)
    for f in fns(P):
        if re.match(r"Frame<.*>::serialize$", f["q"]) and ctor and parts:
            T = f["cls"]
            lab = "key frame" if "KeyFrameHeader" in T else "inter frame"
            for k in (1, 2, 4, 8):
                run.attempt("%s, %d partitions" % (lab, k), compose, run, "%s, %d partitions: writer then parser" % (lab, k), f, ctor, parts, T, k)
    for f in fns(P):
        m = re.match(r"Frame<(\w+),.*::(parse_tokens|serialize_tokens)$", f["q"])
        if m:
            for l in range(4):
                nm = "%s %s, %d partitions" % (m.group(1)[:-6], m.group(2), 1 << l)
                run.attempt(nm, rows, run, nm, f, f["cls"], l, m.group(2))
    run.floor("values_compared", 60)
