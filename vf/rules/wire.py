"""Byte formats outside VP8: datagrams, fragment reassembly and IVF files."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules import lints
from rules.container import vec, memory, flat
from rules.state import verdict, tobv

U16, U32 = (1 << 16) - 1, (1 << 32) - 1


def chunk(root, size, off=K(0)):
    return mk_rec(mk("obj", "Chunk"), {"buffer_": mk("addr", root, (("i", off),)), "size_": size})


def defined(s, what, out, pre=TRUE):
    return leafcmp(b2v(s.live), K(1), what, pre, out)


def bytes_at(mem, off, n):
    v = K(0)
    for i in range(n):
        v = add(v, mul(elem(mem, add(off, K(i)), 0, 255), K(1 << (8 * i))))
    return v


# ------------------------------------------------------------------ datagrams
def header_field(run, name, f):
    """a header field takes as many bytes as its type has"""
    t = strip(f["ps"][0]["t"])
    w = W[t][1].bit_length() // 8
    ev = Ev(run.prog, gate=20, strict32=True)
    x = atom("in", "n", lo=0, hi=W[t][1])
    ev.env[("argv", 0)] = x
    s = summarize(ev, f)
    out = []
    mem, starts, size = memory(s.retv)
    n = defined(s, "field defined", out) + leafcmp(size, K(w), "bytes of a %d-byte field" % w, s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def packet(ev, tag, no=None, count=None, payload=None):
    p = sym(ev, "Packet", tag, [(r".*\.payload_", lambda ev, t, n: payload if payload is not None else vec(atom("in", n + ".size", lo=1, hi=60000), mk("obj", n)))])
    d = dict(p.args[1])
    if no is not None:
        d["fragment_no_"] = no
    if count is not None:
        d["fragments_in_this_frame_"] = count
    return mk_rec(p.args[0], d)


def packet_roundtrip(run, name, ser, par):
    ev = Ev(run.prog, gate=20, strict32=True)
    p = packet(ev, "p")
    ev.env[("this",)] = p
    ok = lt(field(p, "fragment_no_"), field(p, "fragments_in_this_frame_"))
    ev.base = ok
    s = summarize(ev, ser)
    out = []
    n = defined(s, "packet with a fragment number below the count serialized", out, ok)
    if s.retv is None or s.retv.op == "br":
        raise Unsupported("conditional serialization")
    mem, starts, size = memory(s.retv)
    ev2 = Ev(run.prog, gate=20, strict32=True)
    ev2.env[("mem", "dgram")] = mem
    ev2.env[("arg", 0)] = chunk(("mem", "dgram"), size)
    s2 = summarize(ev2, par)
    n += defined(s2, "serialized packet accepted", out, ok)
    q = s2.env[("this",)]
    r = ev2.rec("Packet")
    for f in r["fields"]:
        a = field(q, f["n"])
        if f["n"] == "valid_":
            n += leafcmp(tobv(a), K(1), "valid", ok, out)
        elif f["n"] == "payload_":
            n += payload_cmp(a, mem, starts, field(p, "payload_"), ok, out)
        else:
            n += leafcmp(a, field(p, f["n"]), f["n"].rstrip("_").replace("_", " "), c_and(ok, s2.live), out)
    run.count("values_compared", n)
    verdict(run, name, par, out, n)


def payload_cmp(got, mem, starts, part, pre, out):
    st = [o for p, o in starts if p is part]
    if len(st) != 1:
        out.append(("payload", mk("in", "written %d times" % len(st)), part, {"a": len(st), "b": 1}))
        return 1
    n = leafcmp(field(got, "#n"), field(part, "#n"), "payload size", pre, out)
    d = field(got, "#d")
    if d.op != "slice":
        raise Unsupported("payload %s" % show(d)[:80])
    if d.args[0] is not mem:
        raise Unsupported("payload from other storage")
    return n + leafcmp(d.args[1], st[0], "payload position", pre, out)


def packet_reject(run, name, par):
    """datagrams without a payload, or with a fragment number not below the count, are refused, and
    nothing is read past the end"""
    ev = Ev(run.prog, gate=20, strict32=True)
    size = atom("in", "size", lo=0, hi=65535)
    ev.env[("arg", 0)] = chunk(("mem", "dgram"), size)
    s = summarize(ev, par)
    q = s.env[("this",)]
    out = []
    pre = s.live
    n = leafcmp(b2v(lt(field(q, "fragment_no_"), field(q, "fragments_in_this_frame_"))), K(1), "fragment number below the count in an accepted packet", pre, out)
    pl = field(field(q, "payload_"), "#n")
    n += leafcmp(b2v(ge(pl, K(1))), K(1), "payload present in an accepted packet", pre, out)
    hdr = sub(size, pl)
    n += leafcmp(b2v(ge(hdr, K(0))), K(1), "payload within the datagram", pre, out)
    run.count("values_compared", n)
    verdict(run, name, par, out, n)


def ack_roundtrip(run, name, ser, par, k):
    ev = Ev(run.prog, gate=20, strict32=True)
    states = [atom("in", "state %d" % i, lo=0, hi=U32) for i in range(k)]
    p = sym(ev, "AckPacket", "a", [(r".*\.complete_states_", lambda ev, t, n: vec(K(k), mk_arr(mk("obj", "arr"), dict(enumerate(states)), ())))])
    ev.env[("this",)] = p
    s = summarize(ev, ser)
    out = []
    n = defined(s, "acknowledgement serialized", out)
    mem, starts, size = memory(s.retv)
    ev2 = Ev(run.prog, gate=20, strict32=True)
    ev2.env[("mem", "dgram")] = mem
    ev2.env[("arg", 0)] = chunk(("mem", "dgram"), size)
    s2 = summarize(ev2, par)
    n += defined(s2, "serialized acknowledgement accepted", out)
    q = s2.env[("this",)]
    for f in ev2.rec("AckPacket")["fields"]:
        a = field(q, f["n"])
        if f["n"] == "complete_states_":
            n += leafcmp(field(a, "#n"), K(k), "number of complete states", s2.live, out)
            for i in range(k):
                n += leafcmp(elem(field(a, "#d"), K(i), 0, U32), states[i], "complete state %d" % i, s2.live, out)
        else:
            n += leafcmp(a, field(p, f["n"]), f["n"].rstrip("_").replace("_", " "), s2.live, out)
    run.count("values_compared", n)
    verdict(run, name, par, out, n)


# ------------------------------------------------------------------ fragments
def fragmenting(run, name, ctor, size):
    """the packets of a frame of `size` bytes carry it in order, each at most the maximum"""
    ev = Ev(run.prog, gate=20, strict32=True, unroll=4000)
    ids = {}
    for i, p in enumerate(ctor["ps"]):
        t = strip(p["t"])
        if t in W:
            ids[p["n"]] = atom("in", p["n"], lo=0, hi=W[t][1])
            ev.env[("argv", i)] = ids[p["n"]]
        else:
            ev.env[("arg", i)] = vec(K(size), mk("obj", "frame"))
            fr = ("arg", i)
    s = summarize(ev, ctor)
    out = []
    n = defined(s, "frame of %d bytes fragmented" % size, out)
    q = s.env[("this",)]
    fs = field(q, "fragments_")
    want = max(1, -(-size // 1400))
    cnt = field(fs, "#n")
    if cnt.op != "k":
        raise Unsupported("number of fragments")
    got = cnt.args[0]
    n += leafcmp(field(q, "fragments_in_this_frame_"), cnt, "announced number of fragments", s.live, out)
    n += leafcmp(field(q, "remaining_fragments_"), K(0), "fragments outstanding in an outgoing frame", s.live, out)
    pos = 0
    for i in range(got):
        p = elem(field(fs, "#d"), K(i))
        n += leafcmp(field(p, "fragment_no_"), K(i), "number of fragment %d" % i, s.live, out)
        n += leafcmp(field(p, "fragments_in_this_frame_"), cnt, "count in fragment %d" % i, s.live, out)
        n += leafcmp(tobv(field(p, "valid_", None, 0, 1)), K(1), "validity of fragment %d" % i, s.live, out)
        for k, v in (("connection_id_", "connection_id"), ("source_state_", "source_state"), ("target_state_", "target_state"), ("frame_no_", "frame_no")):
            if v in ids:
                n += leafcmp(field(p, k), ids[v], "%s of fragment %d" % (v, i), s.live, out)
        if i == 0 and "time_since_last" in ids:
            n += leafcmp(field(p, "time_since_last_"), ids["time_since_last"], "time since last frame", s.live, out)
        pl = field(p, "payload_")
        ln = field(pl, "#n")
        if ln.op != "k":
            raise Unsupported("payload length")
        d = field(pl, "#d")
        if ln.args[0] > 1400 or ln.args[0] < 1:
            out.append(("payload length of fragment %d" % i, ln, K(1400), {"a": ln.args[0], "b": "1..1400"}))
        if ln.args[0] <= 64 and d.op == "arr":
            for j in range(ln.args[0]):
                n += leafcmp(elem(d, K(j), 0, 255), elem(mk("obj", "frame"), K(pos + j), 0, 255), "byte %d of the frame" % (pos + j), s.live, out)
        elif d.op == "slice":
            n += leafcmp(d.args[1], K(pos), "position of fragment %d" % i, s.live, out)
        else:
            raise Unsupported("payload %s" % show(d)[:60])
        pos += ln.args[0]
    if pos != size:
        out.append(("bytes carried", K(pos), K(size), {"a": pos, "b": size}))
    run.count("values_compared", n)
    run.count("fragments", got)
    verdict(run, name, ctor, out, n)


def pay(name):
    """a byte string, identified by its length"""
    return vec(atom("in", "length of " + name, lo=1, hi=1400), mk("obj", name))


def partial(ev, k, tag="f"):
    """incoming frame of k fragments, an arbitrary subset received"""
    v = [atom("in", "received %d" % i, lo=0, hi=1) for i in range(k)]
    ps = []
    for i in range(k):
        p = dict(packet(ev, "old%d" % i, K(i), K(k), pay("payload %d" % i)).args[1])
        p["valid_"] = v[i]
        ps.append(mk_rec(mk("obj", "Packet"), p))
    rem = K(k)
    for x in v:
        rem = sub(rem, x)
    f = sym(ev, "FragmentedFrame", tag, [(r".*\.fragments_", lambda ev, t, n: vec(K(k), mk_arr(mk("obj", "arr"), dict(enumerate(ps)), ())))])
    d = dict(f.args[1])
    d["fragments_in_this_frame_"] = K(k)
    d["remaining_fragments_"] = rem
    return mk_rec(f.args[0], d), v


IDS = ("connection_id_", "source_state_", "target_state_", "frame_no_")


def adding(run, name, f, k):
    """a packet of the frame fills its place unless that is taken, any other is refused"""
    ev = Ev(run.prog, gate=40)
    fr, v = partial(ev, k)
    p = packet(ev, "p", None, None, pay("new payload"))
    d = dict(p.args[1])
    d["valid_"] = K(1)
    p = mk_rec(p.args[0], d)
    ev.env[("this",)], ev.env[("arg", 0)] = fr, p
    s = summarize(ev, f)
    out = []
    ok = TRUE
    for i in IDS:
        ok = c_and(ok, eq(field(p, i), field(fr, i)))
    no = field(p, "fragment_no_")
    ok = c_and(ok, c_and(eq(field(p, "fragments_in_this_frame_"), K(k)), lt(no, K(k))))
    n = leafcmp(b2v(s.live), b2v(ok), "acceptance of a packet", TRUE, out)
    q = s.env[("this",)]
    pre = c_and(ok, s.live)
    rem = K(k)
    for i in range(k):
        g = elem(field(field(q, "fragments_"), "#d"), K(i))
        here = eq(no, K(i))
        rem = sub(rem, ite(here, K(1), v[i]))
        n += leafcmp(tobv(field(g, "valid_", None, 0, 1)), ite(here, K(1), v[i]), "receipt of fragment %d" % i, pre, out)
        pl = field(g, "payload_")
        want = ite(c_and(here, eq(v[i], K(0))), field(pay("new payload"), "#n"), field(pay("payload %d" % i), "#n"))
        n += leafcmp(field(pl, "#n"), want, "payload kept for fragment %d" % i, c_and(pre, c_or(here, tobool(v[i]))), out)
    n += leafcmp(field(q, "remaining_fragments_"), rem, "fragments outstanding", pre, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def outputs(run, name, P, k):
    ev0 = Ev(P, gate=40)
    fr, v = partial(ev0, k)
    allv = TRUE
    for x in v:
        allv = c_and(allv, tobool(x))
    out, n = [], 0
    f0 = None
    for q in ("complete", "frame", "partial_frame"):
        f = one(run, "FragmentedFrame::" + q, fns_named(P, "FragmentedFrame::" + q))
        if f is None:
            return
        f0 = f0 or f
        ev = Ev(P, gate=60)
        ev.env.update(ev0.env)
        ev.env[("this",)] = fr
        s = summarize(ev, f)
        if q == "complete":
            n += leafcmp(tobv(s.retv), b2v(allv), "completeness", s.live, out)
            continue
        if q == "frame":
            n += leafcmp(b2v(s.live), b2v(allv), "whole frame available", TRUE, out)
        parts = [pay("payload %d" % i) for i in range(k)]
        # which payloads, in which order, in each case of received fragments
        for m in range(1 << k):
            env = TRUE
            for i in range(k):
                env = c_and(env, tobool(v[i]) if m >> i & 1 else c_not(tobool(v[i])))
            if q == "frame" and m != (1 << k) - 1:
                continue
            r = constrain(s.retv, env)
            got = [x for x in flat(r) if not (x.op == "rec" and field(x, "#n") is K(0))]
            pre = 0
            while pre < k and m >> pre & 1:
                pre += 1
            want = parts[:pre]
            n += 1
            if any(x.op == "br" for x in got):
                raise Unsupported("contents of %s" % q)
            if got != want:
                out.append(("%s with fragments %s received" % (q, [i for i in range(k) if m >> i & 1]), mk("in", "fragments " + ",".join(show(x) for x in got)), mk("in", "fragments 0..%d" % (pre - 1)), {}))
    run.count("values_compared", n)
    verdict(run, name, f0, out, n)


def incoming(run, name, ctor, k):
    """an incoming frame starts with the fragments of its first packet's announcement, one received"""
    ev = Ev(run.prog, gate=40)
    no = atom("in", "no", lo=0, hi=k - 1)
    p = packet(ev, "p", no, K(k), pay("new payload"))
    d = dict(p.args[1])
    d["valid_"] = K(1)
    p = mk_rec(p.args[0], d)
    ev.env[("arg", 1)] = p
    ev.env[("argv", 0)] = field(p, "connection_id_")
    s = summarize(ev, ctor)
    out = []
    n = defined(s, "first packet accepted", out)
    q = s.env[("this",)]
    for i in IDS:
        n += leafcmp(field(q, i), field(p, i), i.rstrip("_"), s.live, out)
    n += leafcmp(field(q, "remaining_fragments_"), K(k - 1), "fragments outstanding", s.live, out)
    n += leafcmp(field(field(q, "fragments_"), "#n"), K(k), "fragments expected", s.live, out)
    for i in range(k):
        g = elem(field(field(q, "fragments_"), "#d"), K(i))
        n += leafcmp(tobv(field(g, "valid_", None, 0, 1)), b2v(eq(no, K(i))), "receipt of fragment %d" % i, s.live, out)
    run.count("values_compared", n)
    verdict(run, name, ctor, out, n)


def check_packets(run):
    P = run.prog
    for f in fns(P):
        if f["q"] == "Packet::put_header_field":
            nm = "header field of %s" % strip(f["ps"][0]["t"])
            run.attempt(nm, header_field, run, nm, f)
    par = one(run, "Packet parser", [f for f in fns(P) if f["kind"] == "ctor" and f.get("cls") == "Packet" and len(f["ps"]) == 1 and "Chunk" in f["ps"][0]["t"]])
    ser = one(run, "Packet::to_string", fns_named(P, "Packet::to_string"))
    if par and ser:
        run.attempt("packet", packet_roundtrip, run, "packet written then parsed", ser, par)
        run.attempt("malformed packet", packet_reject, run, "malformed packet", par)
    par = one(run, "AckPacket parser", [f for f in fns(P) if f["kind"] == "ctor" and f.get("cls") == "AckPacket" and len(f["ps"]) == 1 and "Chunk" in f["ps"][0]["t"]])
    ser = one(run, "AckPacket::to_string", fns_named(P, "AckPacket::to_string"))
    if par and ser:
        for k in (0, 1, 3):
            nm = "acknowledgement of %d states written then parsed" % k
            run.attempt(nm, ack_roundtrip, run, nm, ser, par, k)
    out = one(run, "outgoing frame", [f for f in fns(P) if f["kind"] == "ctor" and f.get("cls") == "FragmentedFrame" and len(f["ps"]) == 6])
    if out:
        for z in (1, 63, 1399, 1400, 1401, 2799, 2800, 2801, 14000, 28001):
            nm = "frame of %d bytes fragmented" % z
            run.attempt(nm, fragmenting, run, nm, out, z)
    inc = one(run, "incoming frame", [f for f in fns(P) if f["kind"] == "ctor" and f.get("cls") == "FragmentedFrame" and len(f["ps"]) == 2])
    addp = one(run, "FragmentedFrame::add_packet", fns_named(P, "FragmentedFrame::add_packet"))
    for k in (1, 2, 3, 4):
        if inc:
            nm = "first packet of a frame of %d fragments" % k
            run.attempt(nm, incoming, run, nm, inc, k)
        if addp:
            nm = "packet added to a frame of %d fragments" % k
            run.attempt(nm, adding, run, nm, addp, k)
        nm = "contents of a frame of %d fragments" % k
        run.attempt(nm, outputs, run, nm, P, k)
    lints.counters(run, "packets", [f for f in fns(P) if re.search(r"src/net/packet", f["file"])])
    run.floor("values_compared", 100)


# ------------------------------------------------------------------ IVF files
HDR = 32
FRH = 12


class Disk:
    """one file: the bytes of its header at constant offsets, then what was appended, in order"""

    def __init__(self, ev, size, hdr=None):
        self.ev, self.size, self.parts, self.maps = ev, size, [], []
        ev.env[("file",)] = hdr if hdr is not None else mk("obj", "file bytes")
        ev.ihook = self.ihook

    def ihook(self, ev, g, this, binds, e):
        c = g.get("cls") or ""
        q = g["q"].rsplit("::", 1)[-1]
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        if c == "FileDescriptor" and q == "size":
            return self.size
        if c == "FileDescriptor" and q == "fd_num":
            return NotImplemented
        if c == "FileDescriptor" and q == "write":
            v = val(binds[0])
            if v.op != "rec" or "Chunk" not in g["ps"][0]["t"]:
                raise Unsupported("write of %s" % g["ps"][0]["t"])
            if ev.guard() is not TRUE and feasible(c_not(ev.guard())) and ev.guard() is not ev.base:
                raise Unsupported("conditional write")
            n, b = field(v, "size_"), field(v, "buffer_")
            if n.op == "k":
                by = [ev.load(ev.padd(b, K(i)), "unsigned char") for i in range(n.args[0])]
                if self.size.op == "k" and self.size.args[0] < HDR:
                    for i, x in enumerate(by):
                        ev.store(mk("addr", ("file",), (("i", K(self.size.args[0] + i)),)), x)
                else:
                    self.parts.append((self.size, by))
            else:
                self.parts.append((self.size, (b, n)))
            self.size = add(self.size, n)
            return mk("void")
        if c == "MMap_Region" and g["kind"] == "ctor" and len(binds) >= 4:
            ln, prot, flags, off = val(binds[0]), val(binds[1]), val(binds[2]), val(binds[4]) if len(binds) > 4 else K(0)
            if off is not K(0) or prot.op != "k" or flags.op != "k":
                raise Unsupported("mapping")
            self.maps.append((ln, prot.args[0], flags.args[0], ev.loc(e)))
            ev.store(this, mk_rec(mk("obj", "MMap_Region"), {"addr_": mk("addr", ("file",), (("i", K(0)),)), "length_": ln}))
            return mk("void")
        if g["q"].endswith("~MMap_Region"):
            return mk("void")
        if c == "FileDescriptor" and g["kind"] == "dtor":
            return mk("void")
        return NotImplemented

    def bad_maps(self):
        """a mapping written through must be shared and writable and cover the header"""
        for ln, prot, flags, where in self.maps:
            if not (prot & 2) or not (flags & 1) or (ln.op == "k" and ln.args[0] < HDR):
                return where
        return None


def hdr_byte(ev, i):
    return elem(ev.env[("file",)], K(i), 0, 255)


def lebytes(v, n):
    return [bits(v, 8 * i, 8) for i in range(n)]


def ivf_header(run, name, ctor):
    ev = Ev(run.prog, gate=20, strict32=True)
    fs = Disk(ev, K(0))
    four = [atom("in", "fourcc[%d]" % i, lo=0, hi=255) for i in range(4)]
    a = {}
    names = ["width", "height", "frame_rate", "time_scale"]
    strings = [i for i, p in enumerate(ctor["ps"]) if "string" in p["t"]]
    for q in ("open", "open64", "creat"):
        ev.hooks[q] = lambda ev, e: atom("in", "fd", lo=0, hi=1000)
    for i, p in enumerate(ctor["ps"]):
        t = strip(p["t"])
        if t in W:
            if not names:
                raise Unsupported("parameters of the constructor")
            nm = names.pop(0)
            a[nm] = atom("in", nm, lo=0, hi=W[t][1])
            ev.env[("argv", i)] = a[nm]
        elif "string" in t and i != strings[-1]:
            ev.env[("arg", i)] = vec(atom("in", "length of the name", lo=1, hi=200), mk("root", ("mem", "name")))
        elif "string" in t:
            ev.env[("arg", i)] = vec(K(4), mk_arr(mk("obj", "arr"), dict(enumerate(four)), ()))
        else:
            ev.env[("arg", i)] = mk_rec(mk("obj", "FileDescriptor"), {"fd_": atom("in", "fd", lo=0, hi=1000)})
    s = summarize(ev, ctor)
    out = []
    n = defined(s, "file created", out)
    want = [K(x) for x in b"DKIF\0\0 \0"] + four + lebytes(a["width"], 2) + lebytes(a["height"], 2) + lebytes(a["frame_rate"], 4) + lebytes(a["time_scale"], 4) + [K(0)] * 4
    n += leafcmp(fs.size, K(HDR), "bytes written for the file header", TRUE, out)
    for i, x in enumerate(want):
        n += leafcmp(elem(s.env[("file",)], K(i), 0, 255), x, "byte %d of the file header" % i, s.live, out)
    q = s.env[("this",)]
    n += leafcmp(field(q, "file_size_"), K(HDR), "recorded file size", s.live, out)
    n += leafcmp(field(q, "frame_count_"), K(0), "recorded frame count", s.live, out)
    run.count("values_compared", n)
    verdict(run, name, ctor, out, n)


def writer_state(ev, fs, S, N):
    return mk_rec(mk("obj", "IVFWriter"), {"fd_": mk_rec(mk("obj", "FileDescriptor"), {"fd_": atom("in", "fd", lo=0, hi=1000), "write_count_": K(0), "read_count_": K(0)}),
                                           "file_size_": S, "frame_count_": N, "width_": atom("in", "w", lo=0, hi=U16), "height_": atom("in", "h", lo=0, hi=U16)})


def known_header(N):
    d = {i: atom("in", "hdr[%d]" % i, lo=0, hi=255) for i in range(HDR)}
    for i in range(4):
        d[24 + i] = bits(N, 8 * i, 8)
    return mk_arr(mk("obj", "file bytes"), d, ())


def ivf_append(run, name, f):
    ev = Ev(run.prog, gate=20, strict32=True)
    S = atom("in", "file size", lo=HDR, hi=1 << 48)
    N = atom("in", "frame count", lo=0, hi=U32 - 1)
    L = atom("in", "frame size", lo=0, hi=U32)
    hdr = known_header(N)
    fs = Disk(ev, S, hdr)
    ev.env[("this",)] = writer_state(ev, fs, S, N)
    ev.env[("arg", 0)] = chunk(("mem", "frame"), L)
    s = summarize(ev, f)
    out = []
    n = defined(s, "frame appended", out)
    if fs.bad_maps():
        run.bad(name, fs.bad_maps(), "the file header is updated through a mapping that does not reach the file")
        return
    # contents appended
    lay = lebytes(L, 4) + [K(0)] * 8
    flatb = []
    for pos, p in fs.parts:
        if isinstance(p, list):
            flatb += p
        else:
            flatb.append(p)
    pl = [i for i, x in enumerate(flatb) if isinstance(x, tuple)]
    if len(pl) != 1 or pl[0] != FRH or len(flatb) != FRH + 1:
        out.append(("frame record", mk("in", "%d bytes, frame contents at %s" % (len(flatb), pl)), mk("in", "12-byte frame header, then the contents"), {}))
    else:
        for i in range(4):
            n += leafcmp(flatb[i], lay[i], "byte %d of the frame header" % i, s.live, out)
        b, ln = flatb[FRH]
        n += leafcmp(ln, L, "bytes written for the frame", s.live, out)
        n += leafcmp(b, mk("addr", ("mem", "frame"), (("i", K(0)),)), "frame contents", s.live, out)
    q = s.env[("this",)]
    N1 = add(N, K(1))
    for i in range(HDR):
        w = bits(N1, 8 * (i - 24), 8) if 24 <= i < 28 else elem(hdr, K(i), 0, 255)
        n += leafcmp(elem(s.env[("file",)], K(i), 0, 255), w, "byte %d of the file header" % i, s.live, out)
    end = add(add(S, K(FRH)), L)
    n += leafcmp(field(q, "file_size_"), end, "recorded file size", s.live, out)
    n += leafcmp(field(q, "frame_count_"), N1, "recorded frame count", s.live, out)
    n += leafcmp(s.retv, add(S, K(FRH)), "returned offset of the frame", s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def ivf_hash(run, name, f):
    ev = Ev(run.prog, gate=20, strict32=True)
    N = atom("in", "frame count", lo=0, hi=U32 - 1)
    S = atom("in", "file size", lo=HDR, hi=1 << 48)
    hdr = known_header(N)
    fs = Disk(ev, S, hdr)
    ev.env[("this",)] = writer_state(ev, fs, S, N)
    h = atom("in", "hash", lo=0, hi=U32)
    ev.env[("argv", 0)] = h
    s = summarize(ev, f)
    out = []
    n = defined(s, "hash recorded", out)
    if fs.bad_maps():
        run.bad(name, fs.bad_maps(), "the file header is updated through a mapping that does not reach the file")
        return
    for i in range(HDR):
        w = bits(h, 8 * (i - 28), 8) if i >= 28 else elem(hdr, K(i), 0, 255)
        n += leafcmp(elem(s.env[("file",)], K(i), 0, 255), w, "byte %d of the file header" % i, s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def ivf_read(run, name, ctor, frame, k, whole=True):
    """file of k frames of symbolic sizes: every field and every frame position"""
    P = run.prog
    ev = Ev(P, gate=20, strict32=True)
    fld = {"width_": (12, 2), "height_": (14, 2), "frame_rate_": (16, 4), "time_scale_": (20, 4), "expected_decoder_minihash_": (28, 4)}
    four = [atom("in", "fourcc[%d]" % i, lo=0, hi=255) for i in range(4)]
    hb = [K(x) for x in b"DKIF\0\0 \0"] + four
    vals = {}
    b = {i: x for i, x in enumerate(hb)}
    for nm, (o, w) in fld.items():
        vals[nm] = atom("in", nm.rstrip("_"), lo=0, hi=(1 << 8 * w) - 1)
        for j in range(w):
            b[o + j] = bits(vals[nm], 8 * j, 8)
    for j in range(4):
        b[24 + j] = K(k >> 8 * j & 255)
    Ls = [atom("in", "frame size %d" % i, lo=0, hi=U32) for i in range(k)]
    off = K(HDR)
    syms, pos = [], []
    for i in range(k):
        for j in range(4):
            o = add(off, K(j))
            if o.op == "k":
                b[o.args[0]] = bits(Ls[i], 8 * j, 8)
            else:
                syms.append((o, bits(Ls[i], 8 * j, 8)))
        pos.append(add(off, K(FRH)))
        off = add(pos[-1], Ls[i])
    mem = mk_arr(mk("obj", "file bytes"), b, tuple(syms))
    size = off if whole else atom("in", "file size", lo=0, hi=1 << 40)
    ev.env[("file",)] = mem

    def ih(ev, g, this, binds, e):
        if (g.get("cls") or "") == "File" and g["kind"] == "ctor":
            ev.store(this, mk_rec(mk("obj", "File"), {"size_": size, "chunk_": chunk(("file",), size)}))
            return mk("void")
        return NotImplemented
    ev.ihook = ih
    s = summarize(ev, ctor)
    out = []
    q = s.env[("this",)]
    n = 0
    if whole:
        n = defined(s, "well-formed file accepted", out)
        for nm in fld:
            n += leafcmp(field(q, nm), vals[nm], nm.rstrip("_").replace("_", " "), s.live, out)
        n += leafcmp(field(q, "frame_count_"), K(k), "frame count", s.live, out)
        fc = field(q, "fourcc_")
        n += leafcmp(field(fc, "#n"), K(4), "length of the fourcc", s.live, out)
        for i in range(4):
            n += leafcmp(elem(field(fc, "#d"), K(i), 0, 255), four[i], "fourcc", s.live, out)
    else:
        # a file too short for its frame headers is refused
        last = sub(pos[-1], K(0)) if k else K(HDR)
        n += leafcmp(b2v(s.live), b2v(ge(size, last)), "acceptance of a file whose size is not that of its frames", TRUE, out)
    ev2 = Ev(P, gate=20, strict32=True)
    ev2.ihook = ih
    ev2.env.update(s.env)
    pre = s.live if not whole else TRUE
    for i in range(k):
        ev3 = Ev(P, gate=20, strict32=True)
        ev3.ihook = ih
        ev3.env.update(s.env)
        ev3.env[("arg", 0)] = K(i)
        s3 = summarize(ev3, frame)
        end = add(pos[i], Ls[i])
        n += leafcmp(b2v(s3.live), K(1) if whole else b2v(ge(size, end)), "frame %d available" % i, pre, out)
        p2 = c_and(pre, s3.live)
        n += leafcmp(field(s3.retv, "size_"), Ls[i], "size of frame %d" % i, p2, out)
        n += leafcmp(field(s3.retv, "buffer_"), mk("addr", ("file",), (("i", pos[i]),)), "position of frame %d" % i, p2, out)
    run.count("values_compared", n)
    verdict(run, name, ctor, out, n)


def ivf_reject(run, name, ctor):
    """other magic, version or header length"""
    P = run.prog
    ev = Ev(P, gate=30, strict32=True)
    b = {i: atom("in", "b%d" % i, lo=0, hi=255) for i in range(HDR)}
    for j in range(4):
        b[24 + j] = K(0)
    ev.env[("file",)] = mk_arr(mk("obj", "file bytes"), b, ())
    size = K(HDR)

    def ih(ev, g, this, binds, e):
        if (g.get("cls") or "") == "File" and g["kind"] == "ctor":
            ev.store(this, mk_rec(mk("obj", "File"), {"size_": size, "chunk_": chunk(("file",), size)}))
            return mk("void")
        return NotImplemented
    ev.ihook = ih
    s = summarize(ev, ctor)
    ok = TRUE
    for i, x in enumerate(b"DKIF\0\0 \0"):
        ok = c_and(ok, eq(b[i], K(x)))
    out = []
    n = leafcmp(b2v(s.live), b2v(ok), "acceptance of a file header", TRUE, out)
    # random samples seldom hit the accepted header: decide it byte by byte as well
    for i, x in enumerate(b"DKIF\0\0 \0"):
        rest = TRUE
        for j, y in enumerate(b"DKIF\0\0 \0"):
            if j != i:
                rest = c_and(rest, eq(b[j], K(y)))
        n += leafcmp(b2v(s.live), b2v(eq(b[i], K(x))), "acceptance depending on byte %d" % i, rest, out)
    run.count("values_compared", n)
    verdict(run, name, ctor, out, n)


def ivf_open(run, name, ctor):
    """a new file replaces whatever had its name, and can be read back for the header update"""
    ev = Ev(run.prog, gate=20, strict32=True)
    got = []

    def op(ev, e):
        got.append((ev.rv(e["a"][1]), ev.loc(e)))
        return atom("in", "fd", lo=0, hi=1000)
    for q in ("open", "open64", "creat"):
        ev.hooks[q] = op
    fs = Disk(ev, K(0))
    base = fs.ihook
    ev.ihook = lambda ev, g, this, binds, e: mk("void") if g["kind"] == "ctor" and g.get("cls") == "IVFWriter" and g["f"] != ctor["f"] else base(ev, g, this, binds, e)
    summarize(ev, ctor)
    if len(got) != 1 or got[0][0].op != "k":
        raise Unsupported("how the file is opened")
    fl = got[0][0].args[0]
    if fl & 3 != 2 or not fl & 0o1000 or not fl & 0o100 or fl & 0o2000:
        run.bad(name, got[0][1], "the file is opened with flags %#o: not for reading and writing, created and truncated" % fl)
    else:
        run.ok(name, loc(ctor), "", 1)


def check_ivf(run):
    P = run.prog
    wn = one(run, "IVFWriter constructor by name", [f for f in fns(P) if f["kind"] == "ctor" and f.get("cls") == "IVFWriter" and len(f["ps"]) == 6 and "string" in f["ps"][0]["t"]])
    if wn:
        run.attempt("file created", ivf_open, run, "file created", wn)
        run.attempt("file header written to a named file", ivf_header, run, "file header written to a named file", wn)
    w = one(run, "IVFWriter constructor", [f for f in fns(P) if f["kind"] == "ctor" and f.get("cls") == "IVFWriter" and len(f["ps"]) == 6 and "FileDescriptor" in f["ps"][0]["t"]])
    if w:
        run.attempt("file header written", ivf_header, run, "file header written", w)
    ap = one(run, "append_frame", fns_named(P, "IVFWriter::append_frame"))
    if ap:
        run.attempt("frame appended", ivf_append, run, "frame appended", ap)
    h = one(run, "set_expected_decoder_entry_hash", fns_named(P, "IVFWriter::set_expected_decoder_entry_hash"))
    if h:
        run.attempt("expected state recorded", ivf_hash, run, "expected state recorded", h)
    c = one(run, "IVF constructor", [f for f in fns(P) if f["kind"] == "ctor" and f.get("cls") == "IVF" and len(f["ps"]) == 1])
    fr = one(run, "IVF::frame", fns_named(P, "IVF::frame"))
    if c and fr:
        for k in (0, 1, 2, 3, 5):
            nm = "file of %d frames read" % k
            run.attempt(nm, ivf_read, run, nm, c, fr, k)
        for k in (0, 1, 2):
            nm = "truncated file of %d frames" % k
            run.attempt(nm, ivf_read, run, nm, c, fr, k, False)
        run.attempt("file header checked", ivf_reject, run, "file header checked", c)
    lints.counters(run, "IVF", [f for f in fns(P) if re.search(r"src/util/ivf", f["file"])])
    run.floor("values_compared", 100)
