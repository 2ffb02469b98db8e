"""Boolean entropy coder against RFC 6386 section 7."""
import re
from evalx import *
from chan import *
from rules.common import *


def mem(name):
    return mk("addr", ("mem", name), (("i", K(0)),))


def chunk(ev, name, lo=0, hi=4):
    v = sym(ev, "Chunk", name)
    d = dict(v.args[1])
    d["buffer_"] = mem(name)
    d["size_"] = atom("in", name + ".n", lo=lo, hi=hi)
    return mk_rec(v.args[0], d)


def decoder(ev, bc):
    v = sym(ev, "BoolDecoder", "d")
    d = dict(v.args[1])
    d["range_"] = atom("in", "drange", lo=128, hi=255)
    d["value_"] = atom("in", "dvalue", lo=0, hi=(256 << 8) - 1)
    d["bit_count_"] = K(bc)
    d["chunk_"] = chunk(ev, "chunk")
    return mk_rec(v.args[0], d)


def cmpstate(run, name, f, ev, s1, s2, a, b, t, extra=()):
    out = []
    n = leafcmp(b2v(s1.live), b2v(s2.live), "termination", TRUE, out)
    pre = c_and(s1.live, s2.live)
    n += compare(ev, a, b, t, "", pre, out)
    for lab, x, y in extra:
        n += leafcmp(x, y, lab, pre, out)
    run.count("values_compared", n)
    if out:
        for path, x, y, d in out[:3]:
            run.bad(name, loc(f), "%s is %s where RFC 6386 has %s (for example %s / %s)" % (path, show(x)[:140], show(y)[:140], d["a"], d["b"]))
    else:
        run.ok(name, loc(f), "", n)


def dec_get(run, name, f, sp, bcs):
    for bc in bcs:
        ev = Ev(run.prog, gate=20, strict32=True)
        ev.env[("this",)] = decoder(ev, bc)
        ev.env[("argv", 0)] = p = atom("in", "prob", lo=0, hi=255)
        pre = lt(field(ev.env[("this",)], "value_"), mul(field(ev.env[("this",)], "range_"), K(256)))
        ev.base = pre
        s = summarize(ev, f)
        ev2 = Ev(run.prog, extra=sp, gate=20, strict32=True)
        ev2.env[("arg", 0)] = decoder(ev2, bc)
        ev2.env[("argv", 1)] = p
        ev2.base = pre
        s2 = summarize(ev2, fns_named(sp, "spec::dec_step")[0])
        s.live, s2.live = c_and(pre, s.live), c_and(pre, s2.live)
        cmpstate(run, "%s, bit position %d" % (name, bc), f, ev, s, s2, s.env[("this",)], s2.env[("arg", 0)], "BoolDecoder", [("decoded bit", tov(s.retv), tov(s2.retv))])
        run.count("decoder_steps")


def tov(c):
    return c if isinstance(c, T) else b2v(c)


def dec_init(run, name, f, sp):
    ev = Ev(run.prog, gate=20, strict32=True)
    ev.env[("arg", 0)] = chunk(ev, "chunk")
    cc = atom("in", "complete", lo=0, hi=1)
    ev.env[("argv", 1)] = cc
    s = summarize(ev, f)
    ev2 = Ev(run.prog, extra=sp, gate=20, strict32=True)
    g = fns_named(sp, "spec::dec_start")[0]
    ev2.env[("arg", 1)] = chunk(ev2, "chunk")
    ev2.env[("argv", 2)] = cc
    s2 = summarize(ev2, g)
    cmpstate(run, name, f, ev, s, s2, s.env[("this",)], s2.env[("arg", 0)], "BoolDecoder")


def vecof(items):
    return mk_rec(mk("obj", "vec"), {"#n": K(len(items)), "#d": mk_arr(mk("obj", "arr"), dict(enumerate(items)), ())})


def encoder(ev, bc, octets, hi):
    v = sym(ev, "BoolEncoder", "e")
    d = dict(v.args[1])
    d["range_"] = atom("in", "range", lo=128, hi=255)
    d["bottom_"] = atom("in", "bottom%d_%d" % (bc, len(octets)), lo=0, hi=hi)
    d["bit_count_"] = K(bc)
    d["output_"] = vecof(octets)
    return mk_rec(v.args[0], d)


def message(enc, nmax):
    """the integer denoted by the encoder state"""
    o = field(enc, "output_")
    n, dd = field(o, "#n", None, 0, nmax), field(o, "#d")
    bc = field(enc, "bit_count_", None, -24, 7)
    num = K(0)
    for i in range(nmax):
        num = ite(lt(K(i), n), add(mul(num, K(256)), elem(dd, K(i), 0, 255)), num)
    pw = K(0)
    for b in range(-24, 0):
        pw = ite(eq(bc, K(b)), K(1 << (32 + b)), pw)
    return add(mul(num, pw), field(enc, "bottom_", None, 0, (1 << 32) - 1))


def enc_put(run, name, f, sp, cases):
    for bc, no, run255 in cases:
        # invariant: the message plus the range never exceeds the space its octets and pending bits leave
        if no == 0:
            hi = (256 << (bc + 24)) - 256
        else:
            hi = (((1 << 24) + 255) << (bc + 8)) - 256
        octs = [K(255) if no - i <= run255 else atom("in", "o%d" % i, lo=0, hi=254 if i == 0 or run255 else 255) for i in range(no)]
        ev = Ev(run.prog, gate=20, strict32=True)
        enc = encoder(ev, bc, octs, max(hi, 0))
        ev.env[("this",)] = enc
        ev.env[("argv", 0)] = v = atom("in", "bit", lo=0, hi=1)
        ev.env[("argv", 1)] = p = atom("in", "prob", lo=0, hi=255)
        s = summarize(ev, f)
        ev2 = Ev(run.prog, extra=sp, gate=20, strict32=False)
        ev2.env[("argv", 0)] = message(enc, no)
        ev2.env[("argv", 1)] = field(enc, "range_")
        ev2.env[("argv", 2)] = v
        ev2.env[("argv", 3)] = p
        s2 = summarize(ev2, fns_named(sp, "spec::enc_step")[0])
        post = s.env[("this",)]
        out = []
        n = leafcmp(b2v(s.live), K(1), "termination", TRUE, out)
        n += leafcmp(message(post, no + 1), s2.env[("arg", 4)], "the coded message", s.live, out)
        n += leafcmp(field(post, "range_"), s2.env[("arg", 5)], "the range", s.live, out)
        nb = field(post, "bit_count_", None, -24, 7)
        n += leafcmp(b2v(c_and(lt(nb, K(0)), ge(nb, K(-24)))), K(1), "pending bits within -24..-1", s.live, out)
        run.count("values_compared", n)
        run.count("encoder_steps")
        nm = "%s, %d bits pending after %d octets" % (name, bc, no) + (" ending in %d octets 255" % run255 if run255 else "")
        if out:
            for path, x, y, d in out[:2]:
                run.bad(nm, loc(f), "%s becomes %s where RFC 6386 has %s (for example %s / %s)" % (path, show(x)[:140], show(y)[:140], d["a"], d["b"]))
        else:
            run.ok(nm, loc(f), "", n)


def enc_start(run, name, f):
    ev = Ev(run.prog, gate=20)
    s = summarize(ev, f)
    t = s.env[("this",)]
    chk = [("range", field(t, "range_"), K(255)), ("bottom", field(t, "bottom_"), K(0)), ("bit count", field(t, "bit_count_"), K(-24)), ("octets written", field(field(t, "output_"), "#n"), K(0))]
    bad = [c for c in chk if c[1] is not c[2]]
    for c in bad:
        run.bad(name, loc(f), "a fresh encoder has %s %s instead of %s" % (c[0], show(c[1]), show(c[2])))
    if not bad:
        run.ok(name, loc(f), "", 4)


def enc_finish(run, name, f, put, ctor):
    calls = []

    def watch(ev, fn, this, binds, e):
        if fn["f"] != put["f"]:
            return None
        b, p = argval(ev, binds[0]), argval(ev, binds[1]) if len(binds) > 1 else K(128)
        calls.append((ev.guard(), tov(b), p, ev.loc(e)))

        def effect(vals):
            # one more pending step of unknown effect
            ev.store(ev.ext(this, ("f", "output_")), mk("in", "out%d" % len(calls)))
            ev.store(ev.ext(this, ("f", "bottom_")), mk("in", "bot%d" % len(calls)))
            ev.store(ev.ext(this, ("f", "range_")), atom("in", "rng%d" % len(calls), lo=128, hi=255))
            ev.store(ev.ext(this, ("f", "bit_count_")), atom("in", "bc%d" % len(calls), lo=-24, hi=-1))
        return ("put", [], [], effect)
    ev = Ev(run.prog, gate=20)
    CallTape(run.prog, watch).attach(ev)
    ev.env[("this",)] = sym(ev, "BoolEncoder", "e")
    s = summarize(ev, f)
    n = sum(1 for g, b, p, l in calls if g is TRUE and b is K(0) and p is K(128))
    if n != len(calls):
        run.undecided(name, loc(f), "unexpected flushing sequence")
        return
    if n < 32:
        run.bad(name, loc(f), "the encoder is finished after %d padding bits: at least 32 (up to 31 pending bits and the first may not shift) are needed to write out its pending bits" % n)
        return
    last = mk("in", "out%d" % n)
    if s.retv is not last:
        run.bad(name, loc(f), "finish() returns %s, not the octets written" % show(s.retv)[:200])
        return
    run.ok(name, loc(f), "%d padding bits" % n, n)


def check(run):
    P = run.prog
    sp = spec(run, "boolcoder.cc")
    if not sp:
        return
    g = one(run, "decoder step", [f for f in fns(P) if f["q"] == "BoolDecoder::get"])
    c = one(run, "decoder start", [f for f in fns(P) if f["kind"] == "ctor" and f.get("cls") == "BoolDecoder" and f["ps"] and strip(f["ps"][0]["t"]) == "Chunk"])
    p = one(run, "encoder step", [f for f in fns(P) if f["q"] == "BoolEncoder::put"])
    fi = one(run, "encoder finish", [f for f in fns(P) if f["q"] == "BoolEncoder::finish"])
    ec = one(run, "encoder start", [f for f in fns(P) if f["kind"] == "ctor" and f.get("cls") == "BoolEncoder" and not f["ps"]])
    if g:
        for bc in range(8):
            run.attempt("decoder step %d" % bc, dec_get, run, "decoder step", g, sp, [bc])
    if c:
        run.attempt("decoder start", dec_init, run, "decoder start", c, sp)
    if p:
        # carries: any two octets, and every run of trailing 255 octets up to the stated length after an octet that absorbs the carry
        cs = [(b, 0, 0) for b in range(-24, 0)] + [(b, 2, 0) for b in range(-8, 0)]
        cs += [(b, k + 1, k) for b in range(-8, 0) for k in (range(2, 9) if run.tier == "thorough" else (2, 3, 5))]
        for i in range(8):
            run.attempt("encoder step %d" % i, enc_put, run, "encoder step", p, sp, cs[i::8])
    if ec:
        run.attempt("encoder start", enc_start, run, "encoder start", ec)
    if fi and p:
        run.attempt("encoder finish", enc_finish, run, "encoder finish", fi, p, ec)
    run.floor("decoder_steps", 8)
    run.floor("encoder_steps", 32)
