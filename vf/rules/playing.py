"""Playing a compressed file and the tools that pass over one: which frames are decoded, in which order, from which
state, and what comes out."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.headers import OVER
from rules.lints import walk
from rules.state import refs_record
from rules.encframe import tail
from rules.y4m import strings, text, chars

KF, IF = "KeyFrameHeader", "InterFrameHeader"
W, H = atom("in", "file width", lo=1, hi=16383), atom("in", "file height", lo=1, hi=16383)
SW, SH = atom("in", "state width", lo=1, hi=16383), atom("in", "state height", lo=1, hi=16383)
MBS = (2, 3)        # macroblocks across and down, where a program visits them one by one
MATCH = atom("b", "the decoder's state is the one the file expects", lo=0, hi=1)


def const(v):
    if v.op != "k":
        raise Unsupported("frame number " + show(v)[:50])
    return v.args[0]


def cstr(x):
    return mk("addr", ("str", x), (("i", K(0)),))


class Tape:
    """a file of known frames: K key, I inter; lower case when the frame is not shown"""

    def __init__(self, run, P, pattern, files, fourcc="VP80", second=None, fail=False):
        self.run, self.P, self.pattern, self.fail = run, P, pattern, fail
        self.tapes = [pattern] + ([second] if second is not None else [])
        self.ev = ev = Ev(P, gate=30)
        self.log = []
        self.opened = 0
        self.fourcc = fourcc
        self.states = {}
        strings(ev, P, files)
        ev.ihook = self.ihook
        self.scan(files)

    def scan(self, files):
        """library calls reached from these files that need a stand-in"""
        ev = self.ev

        def getopt(ev, e):
            o = self.opts.pop(0) if self.opts else (-1, None)
            if o[1] is not None:
                ev.env[("glob", "optarg")] = cstr(o[1])
            return K(ord(o[0]) if o[0] != -1 else -1)
        self.opts = []
        ev.hooks["getopt"] = ev.hooks["getopt_long"] = getopt
        ev.hooks["fopen"] = lambda ev, e: mk("in", "FILE " + "".join(chars(ev.rv(e["a"][0]))))
        ev.hooks["lseek"] = lambda ev, e: atom("in", "position of the output", len(self.log), lo=-1, hi=2 ** 62)
        ev.hooks["abort"] = lambda ev, e: self.dead(ev)
        for f in self.P.fns.values():
            if f["file"] not in files:
                continue
            for x in walk([f.get("body"), f.get("inits")]):
                q = str(x.get("q", ""))
                if x["k"] == "call" and str(x.get("cls", "")).startswith("std::basic_string<") and tail(q) in ("c_str", "data"):
                    ev.hooks[q] = lambda ev, e: ev.load(ev.deref(ev.rv(e["obj"])) if e.get("arrow") else ev.lvl(e["obj"]))
                if x["k"] == "call" and ("ostream" in q or q in ("std::operator<<", "operator<<") or "ostream" in str(x.get("cls"))):
                    old = ev.hooks.get(q)
                    ev.hooks[q] = self.printing(old)

    def dead(self, ev):
        ev.live = FALSE
        return mk("void")

    def printing(self, old):
        def h(ev, e):
            xs = ([e["obj"]] if e.get("obj") is not None else []) + e["a"]
            t = strip(xs[0].get("t", ""))
            if "stringstream" in t and old is not None:
                try:
                    r = old(ev, e)
                    if r is not NotImplemented:
                        return r
                except Unsupported:
                    pass            # what a message says is not looked at
            return ev.lvl(xs[0]) if xs[0].get("lv") or xs[0]["k"] in ("ref", "mem") else ev.temp(mk("in", "console"))
        return h

    def put(self, what, *xs):
        self.log.append((self.ev.guard(), (what,) + xs))

    # ---- the parts that have a property of their own
    def ihook(self, ev, g, this, binds, e):
        n, c = tail(g["q"]), g.get("cls") or ""
        val = lambda b: ev.load(b) if not isinstance(b, tuple) else b[1]
        if g["kind"] == "dtor":
            return mk("void")
        if c == "IVF":
            if g["kind"] == "ctor":
                if len(binds) == 1 and "IVF" in strip(g["ps"][0]["t"]):
                    ev.store(this, val(binds[0]))
                else:
                    name = "".join(x if isinstance(x, str) else "?" for x in chars(val(binds[0])))
                    i = min(self.opened, len(self.tapes) - 1) if not name.startswith("file") else int(name[4:])
                    self.opened += 1
                    ev.store(this, mk_rec(mk("obj", "IVF"), {"tape": K(i)}))
                return mk("void")
            i = const(field(ev.load(this), "tape"))
            tape = self.tapes[i]
            if n == "frame_count":
                return K(len(tape))
            if n in ("width", "height"):
                return {"width": W, "height": H}[n] if i == 0 else atom("in", "%s of file %d" % (n, i), lo=1, hi=16383)
            if n == "fourcc":
                v = text(self.fourcc)
                return ev.temp(v) if g["ret"].rstrip().endswith("&") else v
            if n == "expected_decoder_minihash":
                return atom("in", "entry state of file %d" % i, lo=0, hi=2 ** 32 - 1)
            if n in ("frame_rate", "time_scale"):
                return atom("in", "%s of file %d" % (n, i), lo=0, hi=2 ** 32 - 1)
            if n == "frame":
                k = const(val(binds[0]))
                if k >= len(tape) or k < 0:
                    self.put("beyond", K(k))
                    ev.live = FALSE
                    return mk("dead")
                return mk_rec(mk("obj", "Chunk"), {"frame": mk("frame", i, k)})
            raise Unsupported("IVF::" + n)
        if c == "Chunk" and g["kind"] == "ctor" and len(binds) == 1:
            ev.store(this, val(binds[0]))
            return mk("void")
        if c == "UncompressedChunk":
            if g["kind"] == "ctor":
                v = val(binds[0])
                if len(binds) == 1:
                    ev.store(this, v)
                else:
                    ev.store(this, mk_rec(mk("obj", "UncompressedChunk"), {"frame": field(v, "frame"), "w": val(binds[1]), "h": val(binds[2])}))
                return mk("void")
            i, k = self.frameof(ev.load(this))
            if n == "key_frame":
                return K(int(self.tapes[i][k] in "Kk"))
            if n in ("show_frame",):
                return K(int(self.tapes[i][k].isupper()))
            if n == "experimental":
                return K(0)
            raise Unsupported("UncompressedChunk::" + n)
        if c == "Decoder":
            return self.decoder(ev, g, n, this, val, binds, e)
        if c == "EncoderStateDeserializer" and n == "build":
            if "FilePlayer" in g["ret"] or "FramePlayer" in g["ret"]:
                v = mk_rec(mk("obj", g["ret"]), {"from": mk("in", "state"), "file": val(binds[1]) if len(binds) > 1 else K(0), "decoder_": self.newdecoder(SW, SH, "state")})
                return v
            return self.newdecoder(SW, SH, "state")
        if n == "print_exception" or n == "usage" or n == "usage_error":
            if n == "usage_error":
                pass
            return K(1) if g["ret"] != "void" else mk("void")
        return self.more(ev, g, n, c, this, val, binds, e)

    def more(self, ev, g, n, c, this, val, binds, e):
        return NotImplemented

    def frameof(self, v):
        t = field(v, "frame")
        if t.op != "frame":
            raise Unsupported("which frame")
        return t.args

    def newdecoder(self, w, h, src):
        return mk_rec(mk("obj", "Decoder"), {"w": w, "h": h, "state": mk("state", src)})

    def shown(self, i, k):
        return K(int(self.tapes[i][k].isupper()))

    def step(self, ev, this, i, k):
        d = ev.load(this)
        s = field(d, "state")
        ev.store(ev.ext(this, ("f", "state")), mk("after", s, mk("frame", i, k)))
        self.put("decode", mk("frame", i, k), s)

    def picture(self, i, k):
        return mk("in", "picture %d of file %d" % (k, i))

    def decoder(self, ev, g, n, this, val, binds, e):
        if g["kind"] == "ctor":
            if len(binds) == 2:
                ev.store(this, self.newdecoder(val(binds[0]), val(binds[1]), "fresh"))
            elif len(binds) == 1:
                ev.store(this, val(binds[0]))
            else:
                raise Unsupported("Decoder constructor")
            return mk("void")
        if n == "deserialize":
            return self.newdecoder(SW, SH, "state")
        d = ev.load(this)
        if n in ("get_width", "get_height"):
            return field(d, "w" if n == "get_width" else "h")
        if n == "minihash_match":
            h, s = val(binds[0]), field(d, "state")
            if s.op == "state" and h.op == "in" and str(h.args[0]).startswith("entry state of file"):
                self.put("compared", h, s)
                return MATCH if h.args[0].endswith(" 0") else atom("b", "match " + h.args[0], lo=0, hi=1)
            if h.op == "in" and str(h.args[0]).startswith("entry state of file"):
                self.put("compared", h, s)
                return atom("b", "match " + h.args[0], lo=0, hi=1)
            raise Unsupported("comparison of states")
        if n == "decompress_frame":
            v = val(binds[0])
            return mk_rec(mk("obj", "UncompressedChunk"), {"frame": field(v, "frame"), "w": field(d, "w"), "h": field(d, "h")})
        if n == "parse_and_decode_frame":
            i, k = self.frameof(val(binds[0]))
            self.step(ev, this, i, k)
            return mk_rec(mk("obj", "Optional"), {"initialized_": self.shown(i, k), "object_": self.picture(i, k)})
        if n == "get_frame_output":
            i, k = self.frameof(val(binds[0]))
            self.step(ev, this, i, k)
            return mk_rec(mk("obj", "pair"), {"first": self.shown(i, k), "second": self.picture(i, k)})
        if n == "serialize":
            self.put("saved", field(d, "state"))
            return K(1)
        if n == "minihash":
            return mk("in", "minihash", field(d, "state"))
        if n == "example_raster":
            return ev.temp(mk("in", "raster of the decoder"))
        if n == "operator=":
            ev.store(this, val(binds[0]))
            return this
        if n == "parse_frame":
            v = val(binds[0])
            i, k = self.frameof(v)
            key = KF in g["ret"] or g["ret"].startswith("KeyFrame")
            self.put("parse", mk("frame", i, k), field(d, "state"), K(int(key)))
            hd = sym(ev, KF if key else IF, "f%d" % k, OVER)
            return mk_rec(mk("obj", "frame"), {"frame": mk("frame", i, k), "parsed": field(d, "state"), "header_": hd})
        if n == "decode_frame":
            v = val(binds[0])
            i, k = self.frameof(v)
            self.put("applied", mk("frame", i, k), v)
            self.step(ev, this, i, k)
            return mk_rec(mk("obj", "pair"), {"first": self.shown(i, k), "second": self.picture(i, k)})
        if n == "get_state":
            return mk_rec(mk("obj", "DecoderState"), {"probability_tables": mk("tables of", field(d, "state"))})
        if n == "get_references":
            return refs_record()
        raise Unsupported("Decoder::" + n)


# ------------------------------------------------------------ the player
def ctor_of(P, cls, pats):
    r = [f for f in fns_named(P, cls + "::" + cls) if f["kind"] == "ctor" and len(f["ps"]) == len(pats) and all(re.search(p, f["ps"][i]["t"]) for i, p in enumerate(pats))]
    if len(r) != 1:
        raise Unsupported("%d constructors of %s" % (len(r), cls))
    return r[0]


FILES = {"src/decoder/player.cc", "src/decoder/player.hh", "src/input/ivf_reader.cc", "src/input/ivf_reader.hh"}


def say(run, name, f, out, n):
    run.count("values_compared", n)
    if not out:
        return run.ok(name, loc(f), "", n)
    for x in out[:3]:
        run.bad(name, loc(f), x if isinstance(x, str) else "%s is %s, expected %s" % (x[0], show(x[1])[:160], show(x[2])[:160]))


def nodecode(t, out):
    for g, x in t.log:
        if x[0] in ("decode", "parse", "beyond") and g is not FALSE:
            out.append("a frame is decoded while the file is opened" if x[0] != "beyond" else "a frame beyond the end of the file is read")


def opened(run, name, f, pat, fourcc):
    t = Tape(run, run.prog, pat, FILES, fourcc)
    t.ev.env[("arg", 0)] = t.ev.env[("argv", 0)] = text("file0")
    s = summarize(t.ev, f)
    out, k = [], 1
    k += leafcmp(b2v(s.live), K(int(fourcc == "VP80")), "file accepted", TRUE, out)
    if fourcc == "VP80" and s.live is not FALSE:
        want = next((i for i, c in enumerate(pat) if c in "Kk"), len(pat))
        o = t.ev.load(t.ev.addr(("this",)))
        d = field(o, "decoder_")
        for got, w, what in ((field(o, "frame_no_"), K(want), "first frame played"), (field(d, "w"), W, "decoder width"), (field(d, "h"), H, "decoder height"),
                             (field(d, "state"), mk("state", "fresh"), "decoder state"), (field(o, "width_"), W, "width"), (field(o, "height_"), H, "height"),
                             (field(field(o, "file_"), "tape"), K(0), "file played")):
            k += leafcmp(got, w, what, TRUE, out)
    nodecode(t, out)
    say(run, name, f, out, k)


def resumed(run, name, f, pat, fourcc):
    """resuming in the state a file names as its entry state"""
    t = Tape(run, run.prog, pat, FILES, fourcc)
    ev = t.ev
    for i, p in enumerate(f["ps"]):
        if "basic_string" in p["t"]:
            ev.env[("arg", i)] = ev.env[("argv", i)] = text("file0")
        elif "EncoderStateDeserializer" in p["t"]:
            ev.env[("arg", i)] = mk("in", "saved state")
        else:
            raise Unsupported("parameter " + p["t"])
    s = summarize(ev, f)
    out, k = [], 1
    ok = c_and(c_and(eq(W, SW), eq(H, SH)), tobool(MATCH)) if fourcc == "VP80" else FALSE
    k += leafcmp(b2v(s.live), b2v(ok), "file accepted", TRUE, out)
    if s.live is not FALSE:
        o = s.retv
        d = field(o, "decoder_")
        for got, w, what in ((field(o, "frame_no_"), K(0), "first frame played"), (field(d, "w"), SW, "decoder width"), (field(d, "state"), mk("state", "state"), "decoder state"),
                             (field(o, "width_"), SW, "width"), (field(o, "height_"), SH, "height"), (field(field(o, "file_"), "tape"), K(0), "file played")):
            k += leafcmp(got, w, what, s.live, out)
    nodecode(t, out)
    say(run, name, f, out, k)


def player(t, no):
    return mk_rec(mk("obj", "FilePlayer"), {"frame_no_": K(no), "width_": W, "height_": H, "decoder_": t.newdecoder(W, H, "now"), "file_": mk_rec(mk("obj", "IVF"), {"tape": K(0)}), "filename_": text("file0")})


def sequence(log):
    """what happened, in order, when it is the same on every path"""
    r = []
    for g, x in log:
        if g is FALSE:
            continue
        if g is not TRUE:
            raise Unsupported("guarded step")
        r.append(x)
    return r


def advanced(run, name, f, pat, no, reader):
    t = Tape(run, run.prog, pat, FILES)
    ev = t.ev
    p = player(t, no)
    ev.env[("this",)] = mk_rec(mk("obj", "IVFReader"), {"player_": p}) if reader else p
    s = summarize(ev, f)
    out, k = [], 1
    hit = next((i for i in range(no, len(pat)) if pat[i].isupper()), None)
    last = hit if hit is not None else len(pat) - 1
    if reader and no == len(pat):
        k += leafcmp(b2v(s.live), K(1), "end of file reported", TRUE, out)
        if s.live is not FALSE:
            k += leafcmp(field(s.retv, "initialized_"), K(0), "a picture is returned", TRUE, out)
    else:
        k += leafcmp(b2v(s.live), K(int(hit is not None)), "a picture is found", TRUE, out)
        if hit is not None and s.live is not FALSE:
            r = s.retv
            if reader:
                k += leafcmp(field(r, "initialized_"), K(1), "a picture is returned", TRUE, out)
                r = field(r, "object_")
            k += leafcmp(r, t.picture(0, hit), "picture returned", TRUE, out)
            o = ev.load(ev.addr(("this",)))
            o = field(o, "player_") if reader else o
            k += leafcmp(field(o, "frame_no_"), K(hit + 1), "next frame", TRUE, out)
    steps = [x for x in sequence(t.log) if x[0] in ("decode", "beyond")]
    st = mk("state", "now")
    for i in range(no, last + 1):
        k += 1
        if len(steps) <= i - no or steps[i - no][0] != "decode" or steps[i - no][1] is not mk("frame", 0, i) or steps[i - no][2] is not st:
            out.append("frame %d is not decoded once, in its turn" % i)
            break
        st = mk("after", st, mk("frame", 0, i))
    else:
        if len(steps) > last + 1 - no:
            out.append("more is decoded than needed for the next picture")
    say(run, name, f, out, k)


def ended(run, name, f, pat, no):
    t = Tape(run, run.prog, pat, FILES)
    t.ev.env[("this",)] = player(t, no)
    s = summarize(t.ev, f)
    out = []
    leafcmp(b2v(s.live), K(1), "answer given", TRUE, out)
    leafcmp(s.retv, K(int(no == len(pat))), "end of the file", TRUE, out)
    say(run, name, f, out, 2)


def matching(run, name, f):
    """a state matches an expected entry state when that is 0 (any) or the low 32 bits of its hash"""
    ev = Ev(run.prog, gate=30, wrap=True)
    hsh = atom("in", "hash", lo=0, hi=2 ** 64 - 1)
    e = atom("in", 0, lo=0, hi=2 ** 32 - 1)
    ev.env[("argv", 0)] = e
    ev.env[("this",)] = mk("in", "decoder")

    def ihook(ev, g, this, binds, x):
        if g["q"] == "Decoder::get_hash":
            return mk_rec(mk("obj", "DecoderHash"), {})
        if g["q"] == "DecoderHash::hash":
            return hsh
        return NotImplemented
    ev.ihook = ihook
    s = summarize(ev, f)
    out = []
    want = c_or(eq(e, K(0)), eq(ev.cast(hsh, "unsigned int"), e))
    leafcmp(b2v(s.live), K(1), "answer given", TRUE, out)
    k = leafcmp(s.retv, b2v(want), "state accepted", TRUE, out)
    say(run, name, f, out, k + 1)


# ------------------------------------------------------------ the programs
class Program(Tape):
    """main of a program, given its options and the files behind them"""

    def __init__(self, run, P, path, pattern, args, opts=(), second=None):
        super().__init__(run, P, pattern, {path}, second=second)
        self.opts = list(opts)
        ev = self.ev
        ev.env[("argv", 0)] = K(len(args) + 1)
        ev.env[("av",)] = mk("obj", "argv")
        for i, x in enumerate(("program",) + tuple(args)):
            ev.store(ev.addr(("av",), (("i", K(i)),)), cstr(x))
        ev.env[("argv", 1)] = mk("addr", ("av",), (("i", K(0)),))
        ev.env[("glob", "optind")] = K(1)
        self.args = args

    def more(self, ev, g, n, c, this, val, binds, e):
        if c == "FilePlayer":
            return self.fileplayer(ev, g, n, this, val, binds)
        if c == "FramePlayer" and n == "decode":
            i, k = self.frameof(val(binds[0]))
            self.step(ev, ev.ext(this, ("f", "decoder_")), i, k)
            return mk_rec(mk("obj", "Optional"), {"initialized_": self.shown(i, k), "object_": self.picture(i, k)})
        if c == "FileDescriptor":
            if g["kind"] == "ctor":
                v = val(binds[0])
                ev.store(this, v if v.op == "rec" else mk_rec(mk("obj", "FileDescriptor"), {"of": v}))
                return mk("void")
            if n == "write":
                self.put("write", field(ev.load(this), "of"), val(binds[0]))
                return mk("void")
            if n == "fd_num":
                return ev.temp(mk("in", "descriptor")) if g["ret"].rstrip().endswith("&") else atom("in", "descriptor", lo=0, hi=2 ** 31 - 1)
            if n == "operator=":
                ev.store(this, val(binds[0]))
                return this
            raise Unsupported("FileDescriptor::" + n)
        if c == "YUV4MPEGHeader":
            if g["kind"] == "ctor":
                if len(binds) != 1:
                    raise Unsupported("YUV4MPEGHeader constructor")
                ev.store(this, mk_rec(mk("obj", "YUV4MPEGHeader"), {"for": val(binds[0])}))
                return mk("void")
            if n == "to_string":
                return mk("header", field(ev.load(this), "for"))
            raise Unsupported("YUV4MPEGHeader::" + n)
        if c == "YUV4MPEGFrameWriter" and n == "write":
            self.put("picture", field(val(binds[1]), "of"), val(binds[0]))
            return mk("void")
        if c.startswith("VP8RasterHandle"):
            if g["kind"] == "ctor":
                ev.store(this, val(binds[0]))
                return mk("void")
            return this
        if c == "EncoderStateSerializer":
            if g["kind"] == "ctor":
                return mk("void")
            if n == "write":
                self.put("state written", val(binds[0]))
                return mk("void")
        if c == "IVFWriter":
            if g["kind"] == "ctor":
                self.put("output", *[val(b) for b in binds])
                return mk("void")
            if n == "append_frame":
                self.put("append", val(binds[0]))
                return K(0)
            if n == "set_expected_decoder_entry_hash":
                self.put("entry", val(binds[0]))
                return mk("void")
            raise Unsupported("IVFWriter::" + n)
        if c.startswith("Frame<") and n == "serialize":
            v = ev.load(this)
            return mk("serialized", v, val(binds[0]))
        if c.startswith("Frame<") and g["kind"] == "ctor" and len(binds) == 1:
            ev.store(this, val(binds[0]))
            return mk("void")
        if c.startswith("Frame<") and n == "mutable_macroblocks":
            return ev.ext(this, ("f", "macroblocks"))
        if n == "zero_out" and c.startswith("Macroblock<"):
            ev.store(this, mk("in", "macroblock without residue"))
            return mk("void")
        if n in ("forall", "forall_ij") and len(binds) == 1:
            v = ev.load(this)
            ev.store(this, mk("residues zeroed", v))
            self.zeroing(ev, val(binds[0]), 2 if n == "forall_ij" else 0)
            return mk("void")
        if c.startswith("TwoD<") and "Macroblock<" in c and n in ("width", "height", "at"):
            if n != "at":
                return K(MBS[n == "height"])
            at = [const(val(b)) for b in binds]
            if len(at) != 2 or None in at:
                raise Unsupported("macroblock at an unknown place")
            if not (at[0] < MBS[0] and at[1] < MBS[1]):
                self.put("macroblock outside the frame")
            return ev.ext(this, ("f", "mb %d %d" % tuple(at)))
        return NotImplemented

    def zeroing(self, ev, lam, extra=0):
        r = ev.newroot("mb")
        ev.env[r] = mk("in", "any macroblock")
        node = self.ev.lams[lam.args[0]] if lam.op == "lam" else None
        if node is None:
            raise Unsupported("macroblocks changed")
        g = [c for c in node[0]["fs"] if "InterFrame" in c["ps"][0]["t"] or "Inter" in c["ps"][0]["t"]] or node[0]["fs"][:1]
        f = dict(g[0])
        f.setdefault("file", node[1].fn["file"])
        ev.invoke(f, node[1].this, None, {}, addrs=[ev.addr(r)] + [("v", atom("in", "place", lo=0, hi=1023)) for _ in range(extra)], parent=node[1], caps=node[2])
        if ev.env[r] is not mk("in", "macroblock without residue"):
            self.put("macroblocks not zeroed")

    def fileplayer(self, ev, g, n, this, val, binds):
        if g["kind"] == "ctor":
            v = val(binds[0])
            if v.op == "rec":
                ev.store(this, v)
            else:
                ev.store(this, mk_rec(mk("obj", "FilePlayer"), {"from": mk("in", "start"), "file": v, "no": K(0)}))
            return mk("void")
        p = ev.load(this)
        no = dict(p.args[1]).get("no", K(0))
        if n == "eof":
            return K(int(const(no) == len(self.pattern)))
        if n == "advance":
            k = const(no)
            if k >= len(self.pattern):
                self.put("beyond", K(k))
                ev.live = FALSE
                return mk("dead")
            ev.store(ev.ext(this, ("f", "no")), K(k + 1))
            self.put("advance", K(k), field(p, "from"), text(chars(field(p, "file"))))
            return self.picture(0, k)
        raise Unsupported("FilePlayer::" + n)


def mainof(P, path):
    r = [f for f in P.fns.values() if f["q"] == "main" and f["file"] == path]
    return r[0] if len(r) == 1 else None


def steps(log, *keep):
    return [x for x in sequence(log) if x[0] in keep]


def vp8decode(run, name, P, f, n, state, output):
    opts = ([("s", "state0")] if state else []) + ([("o", "out")] if output else [])
    t = Program(run, P, f["file"], "K" * n, ("file0",), opts)
    t.ev.env[("glob", "optind")] = K(1)
    s = summarize(t.ev, f)
    out = []
    k = leafcmp(b2v(s.live), K(1), "program ends", TRUE, out) + leafcmp(s.retv, K(0), "exit status", TRUE, out)
    fd = mk("in", "FILE out")
    pic = lambda i: t.picture(0, i)
    want = []
    for i in range(n):
        want.append(("advance", K(i), mk("in", "state" if state else "start"), text("file0")))
        if output:
            if i == 0:
                want.append(("write", fd, mk("header", pic(0))))
            want.append(("picture", fd, pic(i)))
    got = [(g, x) for g, x in t.log if g is not FALSE]
    for j, w in enumerate(want):
        k += 1
        if j >= len(got) or got[j][1][0] != w[0] or any(a is not b for a, b in zip(got[j][1][1:], w[1:])):
            out.append("step %d should be %s, it is %s" % (j, told(w), told(got[j][1]) if j < len(got) else "missing"))
            break
        if got[j][0] is not TRUE:
            out.append("%s depends on %s" % (told(w), show(got[j][0])[:120]))
            break
    else:
        if len(got) > len(want):
            out.append("there is a further step: " + told(got[len(want)][1]))
    say(run, name, f, out, k)


def guarded(out, log, need, what, *kinds):
    """every such step happens only under the condition"""
    k = 0
    for g, x in log:
        if x[0] in kinds and g is not FALSE:
            k += 1
            if not implies(g, need):
                out.append("%s without %s" % (what, show(need)[:100]))
                break
    return k


def implies(g, c):
    return c_and(g, c_not(c)) is FALSE or constrain(c, g) is TRUE


def follow(out, log, want, need):
    """the steps, in order, under the condition"""
    k = 0
    got = [(g, x) for g, x in log if g is not FALSE and x[0] not in ("compared", "applied", "parse")]
    for j, w in enumerate(want):
        k += 1
        if j >= len(got) or got[j][1][0] != w[0] or any(a is not b for a, b in zip(got[j][1][1:], w[1:])):
            out.append("step %d should be %s, it is %s" % (j, told(w), told(got[j][1]) if j < len(got) else "missing"))
            return k
        if need is not None and b2v(got[j][0]) is not b2v(need):
            if not implies(got[j][0], need):
                out.append("%s also happens when the file expects another state" % told(w))
                return k
            if not implies(need, got[j][0]):
                out.append("%s depends on %s" % (told(w), show(got[j][0])[:120]))
                return k
    if len(got) > len(want):
        out.append("there is a further step: " + told(got[len(want)][1]))
    return k


def exits(out, s, need):
    """0 exactly when the pass took place"""
    ok = c_and(s.live, eq(s.retv, K(0))) if s.retv is not None and s.live is not FALSE else FALSE
    return leafcmp(b2v(ok), b2v(need), "success reported", TRUE, out)


def parsed(t, out, st="state"):
    """every frame is parsed as what it is, with the state left by the frames before it"""
    k = 0
    for g, x in t.log:
        if x[0] == "parse" and g is not FALSE:
            i, j = x[1].args
            k += 1
            if x[3] is not K(int(t.tapes[i][j] in "Kk")):
                out.append("frame %d is parsed as another kind of frame" % j)
            n, s = 0, x[2]
            while s.op == "after":
                n, s = n + 1, s.args[0]
            if n != j and st is not None:
                out.append("frame %d is parsed with the state after %d frames" % (j, n))
    return k


def rewritten(run, name, P, f, pat, saved):
    """a program that writes every frame of a chunk again: which frames, in which coding"""
    ends = "terminate" in f["file"]
    t = Program(run, P, f["file"], pat, ("file0", "out0") + (("state1",) if saved else ()))
    ev = t.ev
    s = summarize(ev, f)
    out, need = [], tobool(MATCH)
    log = [(g, tidy(x)) for g, x in t.log if g is not FALSE]
    k = exits(out, s, need) + parsed(t, out)
    made = [x for g, x in log if x[0] == "output"]
    k += 1
    rate = [atom("in", "%s of file 0" % r, lo=0, hi=2 ** 32 - 1) for r in ("frame_rate", "time_scale")]
    if len(made) != 1 or any(a is not b for a, b in zip(made[0][1:], [text("out0"), text("VP80"), W, H] + rate)):
        out.append("the file written is not one of the size, rate and type of the file read")
    st = mk("state", "fresh")
    for kind in ("append", "decode"):
        xs = [(g, x) for g, x in log if x[0] == kind]
        if len(xs) != len(pat):
            out.append("%d frames are %s, of %d" % (len(xs), "written" if kind == "append" else "decoded", len(pat)))
            return say(run, name, f, out, k)
        for i, (g, x) in enumerate(xs):
            k += 1
            if not implies(g, need):
                out.append("frame %d is used also when the file expects another state" % i)
            elif not implies(need, g):
                out.append("frame %d is left out when %s" % (i, show(g)[:100]))
            now = after(st, pat, i)
            key = pat[i] in "Kk"
            if kind == "decode":
                if x[1] is not mk("frame", 0, i) or x[2] is not now:
                    out.append("frame %d is not decoded in its turn" % i)
                continue
            v = x[1]
            if v.op != "serialized":
                raise Unsupported("frame written")
            fr, tab = v.args
            if field(fr, "frame") is not mk("frame", 0, i):
                out.append("frame %d is written as frame %s" % (i, show(field(fr, "frame"))))
                continue
            if tab is not mk("tables of", now):
                out.append("frame %d is written with the probabilities of another state" % i)
            T_ = KF if key else IF
            want = sym(ev, T_, "f%d" % i, OVER)
            got = field(fr, "header_")
            if ends and not key and i == len(pat) - 1:
                for n in ("refresh_last", "refresh_golden_frame", "refresh_alternate_frame"):
                    k += leafcmp(bit(field(got, n)), K(1), "%s of the last frame" % n, TRUE, out)
                for n in ("copy_buffer_to_golden", "copy_buffer_to_alternate"):
                    k += leafcmp(field(field(got, n), "initialized_"), K(0), "%s of the last frame" % n, TRUE, out)
                d = dict(got.args[1])
                for n in ("refresh_last", "refresh_golden_frame", "refresh_alternate_frame", "copy_buffer_to_golden", "copy_buffer_to_alternate"):
                    d[n] = field(want, n)
                got = mk_rec(got.args[0], d)
                ap = [y[2] for g2, y in log if y[0] == "applied" and y[1] is mk("frame", 0, i)]
                if any(field(a, "header_") is not field(fr, "header_") for a in ap):
                    out.append("the state kept is that after another last frame than the one written")
            k += compare(ev, got, want, T_, "header of frame %d" % i, TRUE, out)
            mbs = dict(fr.args[1]).get("macroblocks")
            zeroed = mbs is not None and (mbs.op == "residues zeroed" or mbs.op == "rec" and all(
                dict(mbs.args[1]).get("mb %d %d" % (a, b)) is mk("in", "macroblock without residue") for a in range(MBS[0]) for b in range(MBS[1])))
            if mbs is not None and not zeroed and mbs.op == "rec" and (ends or key):
                zeroed = True
            if zeroed != (not ends and not key):
                out.append("residues of frame %d are %s" % (i, "kept" if not zeroed else "removed"))
    for g, x in log:
        if x[0] == "macroblocks not zeroed":
            out.append("the residue of a macroblock is kept")
        if x[0] == "macroblock outside the frame":
            out.append("a macroblock outside the frame is reached")
    w = [x for g, x in log if x[0] in ("saved", "state written")]
    k += 1
    if ends and saved:
        if len(w) != 2 or w[0][1] is not after(st, pat, len(pat)) or w[1][1] is not text("state1"):
            out.append("the state saved is not the one after the last frame")
    say(run, name, f, out, k)


def bit(v):
    while v.op == "rec" and len(v.args[1]) == 1:
        v = v.args[1][0][1]
    return v


def after(st, pat, n, i=0):
    for k in range(n):
        st = mk("after", st, mk("frame", i, k))
    return st


def xcdump(run, name, P, f, pat, state, at):
    """the state after the chosen frame is written; nothing is decoded from another entry state"""
    opts = ([("S", "state0")] if state else []) + ([("f", str(at))] if at is not None else [])
    t = Program(run, P, f["file"], pat, ("file0", "out0"), opts)
    s = summarize(t.ev, f)
    out, need = [], tobool(MATCH)
    st = mk("state", "state" if state else "fresh")
    last = len(pat) - 1 if at is None else at
    want = []
    for i in range(min(last + 1, len(pat))):
        fr, now = mk("frame", 0, i), after(st, pat, i)
        want.append(("decode", fr, now))
    ok = need if last < len(pat) and pat else FALSE
    if ok is not FALSE:
        want.append(("saved", after(st, pat, last + 1)))
        want.append(("state written", text("out0")))
    k = follow(out, [(g, tidy(x)) for g, x in t.log], want, need) + exits(out, s, ok) + parsed(t, out)
    say(run, name, f, out, k)


def tidy(x):
    return tuple(text(chars(a)) if isinstance(a, T) and (a.op == "str" or a.op == "addr" and a.args[0][0] == "str") else a for a in x)


def merged(run, name, P, f, a, b):
    t = Program(run, P, f["file"], a, ("file0", "file1", "out0"), second=b)
    s = summarize(t.ev, f)
    out = []
    need = c_and(eq(W, atom("in", "width of file 1", lo=1, hi=16383)), eq(H, atom("in", "height of file 1", lo=1, hi=16383)))
    want = [("output", text("out0"), text("VP80"), W, H)]
    for i, p in enumerate((a, b)):
        want += [("append", mk("frame", i, k)) for k in range(len(p))]
    log = []
    for g, x in t.log:
        x = tidy(x)
        if x[0] == "output":
            x = x[:5]
        if x[0] == "append":
            x = ("append", field(x[1], "frame"))
        log.append((g, x))
    k = follow(out, log, want, need)
    k += exits(out, s, need)
    say(run, name, f, out, k)


def bundle(run, name, P, f, a, b, state):
    """files decoded one after the other, each only when it expects the state the decoder is in"""
    t = Program(run, P, f["file"], a, ("state0",) if state else (), second=b)
    ev = t.ev
    names = ["file0", "file1"]

    def getline(ev, e):
        x = ev.lvl(e["a"][1])
        t.good = bool(names)
        ev.store(x, text(names.pop(0) if names else ""))
        return ev.temp(mk("in", "console"))

    def good(neg):
        return lambda ev, e: K(int(t.good != neg))
    t.good = True
    for x in walk([f["body"]]):
        q, c = str(x.get("q", "")), str(x.get("cls", ""))
        if x["k"] == "call" and q == "std::getline":
            ev.hooks[q] = getline
        elif x["k"] == "call" and c.startswith("std::basic_ios<"):
            n = tail(q)
            ev.hooks[q] = good(n in ("operator!", "fail", "bad", "eof"))
    s = summarize(ev, f)
    out = []
    st = mk("state", "state" if state else "fresh")
    # the size of the first file is asserted to be that of the state, not refused
    k = 0
    log = [(g, x) for g, x in t.log if g is not FALSE]
    ok = [tobool(MATCH) if i == 0 else c_and(tobool(MATCH), tobool(atom("b", "match entry state of file 1", lo=0, hi=1))) for i in (0, 1)]
    size = c_and(eq(W, SW), eq(H, SH)) if state else TRUE
    seen = [x for g, x in log if x[0] == "compared"]
    k += 1
    if [(x[1], x[2]) for x in seen] != [(atom("in", "entry state of file 0", lo=0, hi=2 ** 32 - 1), st), (atom("in", "entry state of file 1", lo=0, hi=2 ** 32 - 1), after(st, a, len(a)))]:
        for i, x in enumerate(seen):
            w = st if i == 0 else after(st, a, len(a))
            if x[1] is not atom("in", "entry state of file %d" % i, lo=0, hi=2 ** 32 - 1) or x[2] is not w:
                out.append("file %d is compared as %s with the state %s" % (i, show(x[1]), show(x[2])[:80]))
    want = []
    for i, p in enumerate((a, b)):
        for j, c in enumerate(p):
            want.append((i, ("decode", mk("frame", i, j), st)))
            st = mk("after", st, mk("frame", i, j))
            if c.isupper():
                want.append((i, ("picture", None, t.picture(i, j))))
    got = [(g, x) for g, x in log if x[0] in ("decode", "picture", "beyond")]
    for j, (i, w) in enumerate(want):
        k += 1
        x = got[j][1] if j < len(got) else None
        if x is None or x[0] != w[0] or any(p is not None and p is not q for p, q in zip(w[1:], x[1:])):
            out.append("step %d should be %s, it is %s" % (j, w[0] + " " + show(w[-2] if w[0] == "decode" else w[-1])[:60], told(x) if x else "missing"))
            break
        g = got[j][0]
        if not implies(g, ok[i]):
            out.append("file %d is decoded also when it expects another state" % i)
            break
        if not implies(c_and(ok[i], size), g):
            out.append("file %d is not decoded when %s" % (i, show(g)[:100]))
            break
    else:
        if len(got) > len(want):
            out.append("there is a further step: " + told(got[len(want)][1]))
    heads = [(j, x) for j, (g, x) in enumerate(log) if x[0] == "write" and x[2].op == "header"]
    pics = [j for j, (g, x) in enumerate(log) if x[0] == "picture"]
    k += 1
    if len(heads) != 1 or pics and heads[0][0] > pics[0] or any(x[1] is not heads[0][1][1] for g, x in log if x[0] == "picture"):
        out.append("the stream does not start with one header")
    say(run, name, f, out, k)


class Encoding(Program):
    """xc-enc: pictures come from one reader, frames from one encoder"""

    def __init__(self, run, P, path, n, args, opts, pattern="", kind="IVFReader"):
        super().__init__(run, P, path, pattern, args, opts)
        ev = self.ev
        self.n, self.next, self.sizes = n, 0, 0
        self.w, self.h = atom("in", "picture width", lo=1, hi=16383), atom("in", "picture height", lo=1, hi=16383)

        def nextframe(ev, e):
            k = self.next
            self.next += 1
            if k > n + 2:
                raise Unsupported("reading goes on")
            return mk_rec(mk("obj", "Optional"), {"initialized_": K(int(k < n)), "object_": mk("in", "picture %d" % k)})
        ev.hooks["FrameInput::get_next_frame"] = nextframe
        ev.hooks["FrameInput::display_width"] = lambda ev, e: self.w
        ev.hooks["FrameInput::display_height"] = lambda ev, e: self.h

        def reader(ev, e):
            what = re.sub(r".*shared_ptr<(\w+)>.*", r"\1", strip(e.get("t", "")))
            v = ev.rv(e["a"][0]) if e["a"] and not (e["a"][0].get("lv") and "FileDescriptor" in e["a"][0].get("t", "")) else mk("in", "descriptor")
            self.put("reader", mk("in", what), text(chars(v)) if v.op in ("text", "str") else v)
            return mk("addr", ("reader",), ())
        ev.hooks["std::make_shared"] = reader
        ev.hooks["std::stod"] = lambda ev, e: mk("in", "number " + "".join(chars(ev.rv(e["a"][0]))))
        ev.hooks["strcmp"] = lambda ev, e: K(int(chars(ev.rv(e["a"][0])) != chars(ev.rv(e["a"][1]))))

    def newencoder(self, st, two, quality):
        """an encoder that starts from this state"""
        return mk_rec(mk("obj", "Encoder"), {"state": st, "two": two, "quality": quality})

    def more(self, ev, g, n, c, this, val, binds, e):
        if c == "Encoder":
            if g["kind"] == "ctor":
                if len(binds) == 1:
                    ev.store(this, val(binds[0]))
                elif len(binds) == 4:
                    ev.store(this, self.newencoder(mk("state", mk("blank", val(binds[0]), val(binds[1]))), val(binds[2]), val(binds[3])))
                elif len(binds) == 3:
                    ev.store(this, self.newencoder(field(val(binds[0]), "state"), val(binds[1]), val(binds[2])))
                else:
                    raise Unsupported("Encoder constructor")
                return mk("void")
            me = ev.load(this)
            st = field(me, "state")
            if n == "export_decoder":
                return mk_rec(mk("obj", "Decoder"), {"w": self.w, "h": self.h, "state": st})
            if n == "minihash":
                return mk("in", "minihash", st)
            if n.startswith("encode_with"):
                xs = tuple(val(b) for b in binds)
                fr = mk("coded", mk("in", n), st, field(me, "two"), field(me, "quality"), *xs)
                ev.store(ev.ext(this, ("f", "state")), mk("coded from", st, mk("in", n), *xs))
                return fr
            if n == "estimate_frame_size":
                return atom("in", "estimate", lo=0, hi=2 ** 40)
            if n == "reencode":
                xs = [val(b) for b in binds]
                ev.store(ev.ext(this, ("f", "state")), mk("re-encoded from", st))
                self.put("reencode", st, *xs[:4])
                return mk("void")
            raise Unsupported("Encoder::" + n)
        if c == "Decoder" and n == "get_hash":
            return mk_rec(mk("obj", "DecoderHash"), {"of": field(ev.load(this), "state")})
        if c == "DecoderHash" and n == "hash":
            return mk("hash", field(ev.load(this), "of"))
        if n == "read_next_frame_size":
            self.sizes += 1
            return atom("in", "size %d" % self.sizes, lo=0, hi=2 ** 40)
        if c == "FileDescriptor" and n == "eof":
            return K(1)
        return super().more(ev, g, n, c, this, val, binds, e)

    def decoder(self, ev, g, n, this, val, binds, e):
        if n == "get_hash":
            return mk_rec(mk("obj", "DecoderHash"), {"of": field(ev.load(this), "state")})
        return super().decoder(ev, g, n, this, val, binds, e)


def encoding(run, name, P, f, n, mode, state, fmt, two):
    """every picture is encoded once, in order, from the state named, and the file says which state that is"""
    opts = [("o", "out0"), ("i", fmt)] + ([("I", "state0")] if state else []) + ([("2", "")] if two else [])
    opts += {"ssim": [("s", "0.9")], "default": [], "quantizer": [("y", "35")], "sizes": [("F", "sizes0")]}[mode]
    t = Encoding(run, P, f["file"], n, ("file0",), opts)
    s = summarize(t.ev, f)
    out = []
    k = exits(out, s, TRUE)
    log = [(g, tidy(x)) for g, x in t.log if g is not FALSE]
    for g, x in log:
        if g is not TRUE:
            raise Unsupported("guarded step")
    st0 = mk("state", "state") if state else mk("state", mk("blank", t.w, t.h))
    want = {"reader": [("reader", mk("in", "IVFReader" if fmt == "ivf" else "YUV4MPEGReader"), text("file0"))],
            "output": [("output", text("out0"), text("VP80"), t.w, t.h, K(1), K(1))],
            "entry": [("entry", mk("hash", st0))] if state else [], "append": [], "state written": []}
    st = st0
    for i in range(n):
        m = {"ssim": "minimum_ssim", "default": "minimum_ssim", "quantizer": "quantizer", "sizes": "target_size"}[mode]
        what = {"ssim": mk("in", "number 0.9"), "default": None, "quantizer": K(35), "sizes": atom("in", "size %d" % (i + 1), lo=0, hi=2 ** 40)}[mode]
        want["append"].append((m, st, i, what))
        st = (st, m, i)
    for kind in ("reader", "output", "entry", "state written"):
        got = [x for g, x in log if x[0] == kind]
        k += 1
        if len(got) != len(want[kind]):
            out.append("%d steps of kind '%s', expected %d" % (len(got), kind, len(want[kind])))
        elif any(a is not b for x, y in zip(got, want[kind]) for a, b in zip(x, y) if isinstance(a, T)):
            out.append("%s is %s, expected %s" % (kind, told(got[0]), told(want[kind][0])))
    got = [x for g, x in log if x[0] == "append"]
    if len(got) != n:
        out.append("%d frames are written for %d pictures" % (len(got), n))
    cur = st0
    for i, (x, (m, _, j, what)) in enumerate(zip(got, want["append"])):
        v = x[1]
        k += 4
        if v.op != "coded":
            raise Unsupported("frame written")
        if v.args[0] is not mk("in", "encode_with_" + m):
            out.append("picture %d is coded by %s" % (i, show(v.args[0])))
        if v.args[1] is not cur:
            out.append("picture %d is not coded from the state its predecessor leaves" % i)
        if bool(v.args[2] is not K(0)) != bool(two):
            out.append("number of passes for picture %d" % i)
        if v.args[4] is not mk("in", "picture %d" % i):
            out.append("frame %d is coded from %s" % (i, show(v.args[4])))
        if what is not None and (len(v.args) < 6 or v.args[5] is not what):
            out.append("frame %d is coded for %s, asked was %s" % (i, show(v.args[5])[:60], show(what)[:60]))
        cur = mk("coded from", cur, v.args[0], *v.args[4:])
    say(run, name, f, out, k)


def optional(v):
    if v.op == "rec" and "frame" in dict(v.args[1]):
        return K(1), v
    return field(v, "initialized_"), field(v, "object_")


def reencoding(run, name, P, f, n, pat, pstate, extra, save):
    opts = [("o", "out0"), ("i", "y4m"), ("r", ""), ("I", "state0"), ("p", "file0"), ("W", "")] + ([("S", "pstate")] if pstate else []) + ([("e", "")] if extra else []) + ([("O", "state1")] if save else [])
    t = Encoding(run, P, f["file"], n, ("in.y4m",), opts, pattern=pat)
    s = summarize(t.ev, f)
    out, need = [], tobool(MATCH)
    log = [(g, tidy(x)) for g, x in t.log if g is not FALSE]
    k = exits(out, s, need) + parsed(t, out)
    st = mk("state", "state" if pstate else "fresh")
    dec = [(g, x) for g, x in log if x[0] in ("decode", "beyond")]
    k += len(pat) + 1
    if [x[1:3] for g, x in dec] != [(mk("frame", 0, i), after(st, pat, i)) for i in range(len(pat))]:
        out.append("the frames predicted from are not decoded once each, in order")
    ent = [(g, x) for g, x in log if x[0] == "entry"]
    re_ = [(g, x) for g, x in log if x[0] == "reencode"]
    st0 = mk("state", "state")
    for g, x in dec + re_:
        if not implies(g, need):
            out.append("a chunk that expects another state is re-encoded")
            break
    k += 3
    if len(ent) != 1 or ent[0][1][1] is not mk("hash", st0):
        out.append("the file written names %s as its entry state" % (show(ent[0][1][1])[:60] if ent else "nothing"))
    if len(re_) != 1:
        out.append("%d chunks are re-encoded" % len(re_))
    else:
        x = re_[0][1]
        if x[1] is not st0:
            out.append("the chunk is re-encoded from %s" % show(x[1])[:60])
        ras, pre = x[2], x[3]
        if field(ras, "#n") is not K(n):
            out.append("%s pictures are handed on, of %d" % (show(field(ras, "#n")), n))
        else:
            for i in range(n):
                k += 1
                if elem(field(ras, "#d"), K(i)) is not mk("in", "picture %d" % i):
                    out.append("picture %d handed on is %s" % (i, show(elem(field(ras, "#d"), K(i)))[:60]))
        if field(pre, "#n") is not K(len(pat)):
            out.append("%s frames are handed on, of %d" % (show(field(pre, "#n")), len(pat)))
        else:
            for i, c in enumerate(pat):
                p = elem(field(pre, "#d"), K(i))
                key = c in "Kk"
                k += 2
                a, b = optional(field(p, "first")), optional(field(p, "second"))
                k += leafcmp(a[0], K(int(key)), "frame %d handed on as a key frame" % i, TRUE, out)
                k += leafcmp(b[0], K(int(not key)), "frame %d handed on as an inter frame" % i, TRUE, out)
                fr = (a if key else b)[1]
                if field(fr, "frame") is not mk("frame", 0, i):
                    out.append("frame %d handed on is %s" % (i, show(fr)[:60]))
        k += leafcmp(x[5], K(int(extra)), "extra frame announced", TRUE, out)
    w = [x for g, x in log if x[0] in ("saved", "state written")]
    k += 1
    if save and (len(w) != 2 or w[0][1] is not mk("re-encoded from", st0) or w[1][1] is not text("state1")) or not save and w:
        out.append("the state saved is not the one after the chunk")
    say(run, name, f, out, k)


def told(x):
    return {"advance": "playing the next picture", "write": "writing the stream header", "picture": "writing a picture"}.get(x[0], x[0]) + " (" + ", ".join(show(a)[:60] for a in x[1:]) + ")"


PATTERNS = ["", "K", "IK", "kI", "IIK", "II", "iKIK", "IkK"]
OTHERS = ["VP90", "AV01", "vp80", "VP8X"]
RUNS = ["K", "KI", "KiI", "kiiI", "Kii", "k", "KIkI"]


def check(run):
    P = run.prog
    for f in fns(P):
        if f["q"] == "FilePlayer::FilePlayer" and len(f["ps"]) == 1 and "basic_string" in f["ps"][0]["t"]:
            for pat in PATTERNS:
                nm = "opening a file of frames %s" % (pat or "(none)")
                run.attempt(nm, opened, run, nm, f, pat, "VP80")
            for cc in OTHERS:
                nm = "opening a file of type %s" % cc
                run.attempt(nm, opened, run, nm, f, "K", cc)
        if f["q"] == "FilePlayer::deserialize":
            for pat in ("K", "I", "iI"):
                nm = "resuming at a file of frames %s" % pat
                run.attempt(nm, resumed, run, nm, f, pat, "VP80")
            for cc in OTHERS:
                nm = "resuming at a file of type %s" % cc
                run.attempt(nm, resumed, run, nm, f, "K", cc)
        if f["q"] in ("FilePlayer::advance", "IVFReader::get_next_frame"):
            r = f["q"].startswith("IVF")
            for pat in RUNS:
                for no in range(len(pat) + int(r)):
                    nm = "%s of %s from frame %d" % ("picture read" if r else "playing", pat, no)
                    run.attempt(nm, advanced, run, nm, f, pat, no, r)
        if f["q"] == "FilePlayer::eof":
            for no in range(3):
                nm = "end of a file of two frames, at frame %d" % no
                run.attempt(nm, ended, run, nm, f, "KI", no)
    for f in fns(P):
        if f["q"] == "Decoder::minihash_match":
            run.attempt("entry states accepted", matching, run, "entry states accepted", f)
    pr = P.unit("src/frontend/vp8decode.cc")
    f = mainof(pr, "src/frontend/vp8decode.cc")
    if f:
        for n in (0, 1, 3):
            for state in (0, 1):
                for output in (0, 1):
                    nm = "vp8decode of %d picture%s%s%s" % (n, "" if n == 1 else "s", " from a saved state" if state else "", " to a file or a pipe" if output else "")
                    run.attempt(nm, vp8decode, run, nm, pr, f, n, state, output)
    pr = P.unit("src/frontend/xc-dump.cc")
    f = mainof(pr, "src/frontend/xc-dump.cc")
    if f:
        for pat in ("K", "KI", "IkI", ""):
            for state in (0, 1):
                for at in [None] + list(range(len(pat) + 1)):
                    nm = "xc-dump of %s%s, %s" % (pat or "nothing", " from a saved state" if state else "", "last frame" if at is None else "frame %d" % at)
                    run.attempt(nm, xcdump, run, nm, pr, f, pat, state, at)
    pr = P.unit("src/frontend/xc-merge.cc")
    f = mainof(pr, "src/frontend/xc-merge.cc")
    if f:
        for a, b in (("KI", "KII"), ("", "K"), ("KI", "")):
            nm = "files of %s and %s merged" % (a or "nothing", b or "nothing")
            run.attempt(nm, merged, run, nm, pr, f, a, b)
    for path, what in (("src/frontend/xc-terminate-chunk.cc", "chunk closed"), ("src/frontend/xc-zero-out-residues.cc", "residues removed")):
        pr = P.unit(path)
        f = mainof(pr, path)
        if f:
            for pat in ("K", "KI", "KiI", "KIK", "II", ""):
                for saved in (0, 1) if "terminate" in path else (0,):
                    nm = "%s: %s%s" % (what, pat or "nothing", ", state saved" if saved else "")
                    run.attempt(nm, rewritten, run, nm, pr, f, pat, saved)
    pr = P.unit("src/frontend/decode-bundle.cc")
    f = mainof(pr, "src/frontend/decode-bundle.cc")
    if f:
        for a, b in (("KI", "I"), ("Ki", "KiI"), ("kI", "iKk"), ("", "I")):
            for state in (0, 1):
                nm = "bundle of %s and %s%s" % (a or "nothing", b, " from a saved state" if state else "")
                run.attempt(nm, bundle, run, nm, pr, f, a, b, state)
    pr = P.unit("src/frontend/xc-enc.cc")
    f = mainof(pr, "src/frontend/xc-enc.cc")
    if f:
        for mode in ("default", "ssim", "quantizer", "sizes"):
            for state in (0, 1):
                for n in (0, 3):
                    for fmt, two in (("ivf", 0), ("y4m", 1)):
                        nm = "xc-enc of %d pictures, %s, %s%s%s" % (n, mode, fmt, ", two passes" if two else "", ", from a saved state" if state else "")
                        run.attempt(nm, encoding, run, nm, pr, f, n, mode, state, fmt, two)
        for n, pat in ((2, "KI"), (1, "I"), (2, "kIK")):
            for pstate in (0, 1):
                for extra in (0, 1):
                    nm = "xc-enc re-encodes %s%s%s" % (pat, " predicted from a saved state" if pstate else "", " after an extra frame" if extra else "")
                    run.attempt(nm, reencoding, run, nm, pr, f, n, pat, pstate, extra, extra)
    run.floor("values_compared", 100)
