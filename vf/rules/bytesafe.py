"""Bounded access to byte ranges, and complete transfers through file descriptors."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules import lints
from rules.state import verdict, tobv
from rules.wire import chunk, vec, flat

U64 = (1 << 64) - 1
B = ("mem", "chunk")


def le(n):
    v = K(0)
    for i in range(n):
        v = add(v, mul(elem(mk("root", B), K(i), 0, 255), K(1 << (8 * i))))
    return v


def start(run, size=None):
    ev = Ev(run.prog, gate=30, wrap=True, strict32=True)
    ev.env[B] = mk("root", B)
    size = size if size is not None else atom("in", "size", lo=0, hi=1 << 62)
    ev.env[("this",)] = chunk(B, size)
    return ev, size


def subrange(run, name, f):
    ev, size = start(run)
    out = []
    o = atom("in", "offset", lo=0, hi=U64)
    ev.env[("arg", 0)] = ev.env[("argv", 0)] = o
    ln = sub(size, o)
    ok = ge(size, o)
    if len(f["ps"]) == 2:
        ln = atom("in", "length", lo=0, hi=U64)
        ev.env[("arg", 1)] = ev.env[("argv", 1)] = ln
        ok = c_and(ok, ge(sub(size, o), ln))
    s = summarize(ev, f)
    n = leafcmp(b2v(s.live), b2v(ok), "acceptance of a part of the range", TRUE, out, samples=600)
    if len(f["ps"]) == 2:
        # lengths near 2^64, where offset + length wraps
        for d in (0, 1, 2, 9):
            ev2, size2 = start(run, K(64))
            ev2.env[("arg", 0)] = ev2.env[("argv", 0)] = K(32)
            ev2.env[("arg", 1)] = ev2.env[("argv", 1)] = K(U64 - 31 + d)
            s2 = summarize(ev2, f)
            n += leafcmp(b2v(s2.live), K(0), "acceptance of length 2^64-32+%d at offset 32 of 64 bytes" % d, TRUE, out)
    pre = c_and(s.live, ok)
    n += leafcmp(field(s.retv, "size_"), ln, "size of the part", pre, out)
    n += leafcmp(field(s.retv, "buffer_"), mk("addr", B, (("i", o),)), "position of the part", pre, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def scalar(run, name, f, w):
    ev, size = start(run)
    out = []
    s = summarize(ev, f)
    n = leafcmp(b2v(s.live), b2v(ge(size, K(w))), "acceptance", TRUE, out)
    n += leafcmp(s.retv, le(w), "value", c_and(s.live, ge(size, K(w))), out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def bitfield(run, name, f, o, ln):
    ev, size = start(run)
    out = []
    ev.env[("arg", 0)] = ev.env[("argv", 0)] = K(o)
    ev.env[("arg", 1)] = ev.env[("argv", 1)] = K(ln)
    s = summarize(ev, f)
    nb = (o + ln + 7) // 8
    n = leafcmp(b2v(s.live), b2v(ge(size, K(nb))), "acceptance", TRUE, out)
    n += leafcmp(s.retv, bits(le(nb), o, ln), "value of bits %d..%d" % (o, o + ln - 1), c_and(s.live, ge(size, K(nb))), out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


# ------------------------------------------------------------------ file descriptors
class Device:
    """read() and write() system calls that transfer any positive number of bytes up to what was asked;
    everything transferred must follow on from the transfer before"""

    def __init__(self, ev, rounds):
        self.ev, self.k, self.rounds = ev, 0, rounds
        self.pos, self.out, self.calls = K(0), [], []
        for q in ("write", "::write"):
            ev.hooks[q] = self.xfer
        for q in ("read", "::read"):
            ev.hooks[q] = self.xfer

    def xfer(self, ev, e):
        a = e["a"]
        p, n = ev.rv(a[1]), ev.rv(a[2])
        if self.k >= self.rounds:
            r = n                      # the last transfer completes the request
        else:
            r = atom("in", "transferred %d" % self.k, lo=1, hi=1 << 20)
        self.calls.append((ev.guard(), p, n, r, ev.loc(e)))
        if self.k < self.rounds:
            ev.live = c_and(ev.live, ge(n, r))
        self.k += 1
        return r


FD = lambda eof=K(0): mk_rec(mk("obj", "FileDescriptor"), {"fd_": atom("in", "fd", lo=0, hi=1000), "eof_": eof, "read_count_": K(0), "write_count_": K(0)})


def write_string(run, name, f, rounds):
    ev = Ev(run.prog, gate=30)
    dev = Device(ev, rounds)
    size = atom("in", "size", lo=1 << 22, hi=1 << 30)
    ev.env[B] = vec(size, mk("root", B))
    ev.env[("this",)] = FD()
    ev.env[("argv", 1)] = K(1)
    s = summarize(ev, f, arg_roots=[B, None])
    out, n = [], 0
    pos = K(0)
    if len(dev.calls) < rounds + 1:
        run.bad(name, loc(f), "a short write leaves the rest of the data unwritten (%d of %d transfers made)" % (len(dev.calls), rounds + 1))
        return
    if len(dev.calls) > rounds + 1:
        raise Unsupported("%d transfers" % len(dev.calls))
    for i, (g, p, m, r, where) in enumerate(dev.calls):
        n += leafcmp(p, mk("addr", B, (("f", "#d"), ("i", pos))), "start of transfer %d" % i, g, out)
        n += leafcmp(m, sub(size, pos), "bytes offered in transfer %d" % i, g, out)
        pos = add(pos, r)
    n += leafcmp(pos, size, "bytes transferred", s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def read_one(run, name, f):
    """read( limit ): asks for at most the limit and the buffer, returns what arrived, end of file when nothing did"""
    ev = Ev(run.prog, gate=30)
    lim = atom("in", "limit", lo=0, hi=1 << 40)
    r = atom("in", "received", lo=0, hi=1 << 20)
    calls = []

    def rd(ev, e):
        a = e["a"]
        p, m = ev.rv(a[1]), ev.rv(a[2])
        calls.append((p, m))
        return r
    ev.hooks["read"] = rd
    ev.env[("this",)] = FD()
    ev.env[("argv", 0)] = lim
    s = summarize(ev, f)
    if len(calls) != 1:
        raise Unsupported("%d reads" % len(calls))
    out = []
    p, m = calls[0]
    buf, off = ev.split(p)
    pre = c_and(ge(m, r), ge(m, K(0)))
    n = leafcmp(b2v(ge(lim, m)), K(1), "bytes asked for within the limit", TRUE, out)
    n += leafcmp(b2v(ge(K(1 << 20), m)), K(1), "bytes asked for within the buffer", TRUE, out)
    n += leafcmp(b2v(s.live), K(1), "read defined", pre, out)
    n += leafcmp(field(s.retv, "#n"), r, "bytes returned", pre, out)
    d = field(s.retv, "#d")
    if d.op == "slice":
        n += leafcmp(d.args[1], K(0), "start of the bytes returned", pre, out)
    n += leafcmp(tobv(field(s.env[("this",)], "eof_", None, 0, 1)), b2v(eq(r, K(0))), "end of file", pre, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def read_all(run, name, f, rounds):
    """read_exactly( n ) returns n bytes, the pieces in the order they arrived, whatever their sizes"""
    ev = Ev(run.prog, gate=30)
    size = atom("in", "length", lo=1 << 22, hi=1 << 30)
    calls = []

    def ih(ev, g, this, binds, e):
        if g["q"] == "FileDescriptor::read":
            lim = ev.load(binds[0]) if not isinstance(binds[0], tuple) else binds[0][1]
            i = len(calls)
            last = i >= rounds
            r = lim if last else atom("in", "received %d" % i, lo=1, hi=1 << 20)
            if not last:
                ev.live = c_and(ev.live, ge(lim, add(r, K(1))))
            calls.append((ev.guard(), lim, r))
            return vec(r, mk("obj", "piece %d" % i))
        return NotImplemented
    ev.ihook = ih
    ev.env[("this",)] = FD()
    ev.env[("argv", 0)] = size
    s = summarize(ev, f)
    out, n, pos = [], 0, K(0)
    if len(calls) < rounds + 1:
        run.bad(name, loc(f), "fewer bytes than asked for are returned after a short read")
        return
    if len(calls) > rounds + 1:
        raise Unsupported("%d reads" % len(calls))
    for i, (g, lim, r) in enumerate(calls):
        n += leafcmp(lim, sub(size, pos), "bytes asked for in read %d" % i, g, out)
        pos = add(pos, r)
    got = [x for x in flat(s.retv) if not (x.op == "rec" and field(x, "#n") is K(0))]
    n += 1
    if any(x.op == "br" for x in got):
        raise Unsupported("pieces returned")
    if [field(x, "#d") for x in got] != [mk("obj", "piece %d" % i) for i in range(rounds + 1)]:
        out.append(("pieces returned", mk("in", "%d pieces" % len(got)), mk("in", "%d pieces in order" % (rounds + 1)), {}))
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def read_eof(run, name, f):
    """end of file before n bytes arrived is an error"""
    ev = Ev(run.prog, gate=30)
    size = atom("in", "length", lo=1, hi=1 << 30)

    def ih(ev, g, this, binds, e):
        if g["q"] == "FileDescriptor::read":
            ev.store(ev.ext(this, ("f", "eof_")), K(1))
            return vec(K(0), mk("empty"))
        return NotImplemented
    ev.ihook = ih
    ev.env[("this",)] = FD()
    ev.env[("argv", 0)] = size
    s = summarize(ev, f)
    out = []
    n = leafcmp(b2v(s.live), K(0), "return with fewer bytes at end of file", TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def write_all(run, name, f, rounds):
    """FileDescriptor::write( Chunk ) hands every byte to the system exactly once, in order"""
    ev = Ev(run.prog, gate=30)
    dev = Device(ev, rounds)
    size = atom("in", "size", lo=1 << 22, hi=1 << 30)
    ev.env[("arg", 0)] = chunk(B, size)
    ev.env[("this",)] = mk_rec(mk("obj", "FileDescriptor"), {"fd_": atom("in", "fd", lo=0, hi=1000), "eof_": K(0), "read_count_": K(0), "write_count_": K(0)})
    s = summarize(ev, f)
    out, n = [], 0
    pos = K(0)
    if len(dev.calls) != rounds + 1:
        if len(dev.calls) > rounds + 1 or any(x[1].op != "addr" for x in dev.calls):
            raise Unsupported("%d transfers" % len(dev.calls))
        run.bad(name, loc(f), "a short write leaves the rest of the data unwritten (%d of %d transfers made)" % (len(dev.calls), rounds + 1))
        return
    for i, (g, p, m, r, where) in enumerate(dev.calls):
        n += leafcmp(p, mk("addr", B, (("i", pos),)), "start of transfer %d" % i, g, out)
        n += leafcmp(m, sub(size, pos), "bytes offered in transfer %d" % i, g, out)
        pos = add(pos, r)
    n += leafcmp(pos, size, "bytes transferred", s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def check(run):
    P = run.prog
    for f in fns(P):
        if f.get("cls") != "Chunk":
            continue
        q = f["q"].rsplit("::", 1)[-1]
        if q == "operator()":
            nm = "Chunk::operator() with %d arguments" % len(f["ps"])
            run.attempt(nm, subrange, run, nm, f)
        elif q in ("octet", "le16", "le32", "le64"):
            nm = "Chunk::" + q
            run.attempt(nm, scalar, run, nm, f, {"octet": 1, "le16": 2, "le32": 4, "le64": 8}[q])
        elif q == "bits":
            for o, ln in ((0, 1), (0, 8), (3, 7), (5, 19), (0, 14), (0, 31), (0, 32), (7, 30), (1, 40), (0, 63), (8, 48), (33, 20)):
                nm = "Chunk::bits, %d bits from %d" % (ln, o)
                run.attempt(nm, bitfield, run, nm, f, o, ln)
    for f in fns_named(P, "FileDescriptor::write", lambda f: "Chunk" in f["ps"][0]["t"]):
        for k in (0, 1, 2, 3):
            nm = "write completed after %d short transfers" % k
            run.attempt(nm, write_all, run, nm, f, k)
    for f in fns_named(P, "FileDescriptor::write", lambda f: "string" in f["ps"][0]["t"] and "iterator" not in f["ps"][0]["t"]):
        for k in (0, 1, 2):
            nm = "string write completed after %d short transfers" % k
            run.attempt(nm, write_string, run, nm, f, k)
    f = one(run, "FileDescriptor::read", fns_named(P, "FileDescriptor::read"))
    if f:
        run.attempt("FileDescriptor::read", read_one, run, "FileDescriptor::read", f)
    f = one(run, "FileDescriptor::read_exactly", fns_named(P, "FileDescriptor::read_exactly"))
    if f:
        for k in (0, 1, 2):
            nm = "exact read completed after %d short reads" % k
            run.attempt(nm, read_all, run, nm, f, k)
        run.attempt("exact read at end of file", read_eof, run, "exact read at end of file", f)
    lints.counters(run, "byte ranges", [f for f in fns(P) if re.search(r"src/util/(chunk|file)", f["file"])])
    run.floor("values_compared", 20)
