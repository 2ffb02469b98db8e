"""YUV4MPEG files: what is written is the format, what is read is what was written, and pixels beyond the displayed
rectangle are the nearest displayed ones."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.lints import walk
from rules import pixels as px

NPOS = 2 ** 64 - 1
STR = "std::basic_string<"
PLANES = "YUV"


# ------------------------------------------------------------------ text
# text is a tuple of characters and of terms printed as decimal numbers
def text(xs):
    return mk("text", tuple(xs))


def chars(v):
    if v.op == "text":
        return v.args[0]
    if v.op == "str":
        return tuple(v.args[0])
    if v.op == "addr" and v.args[0][0] == "str":
        return tuple(v.args[0][1])
    if v.op == "cat":
        return tuple(c for x in v.args[0] for c in (x if isch(x) else chars(x)))
    raise Unsupported("text " + show(v)[:60])


def isch(x):
    return isinstance(x, str)


def length(xs):
    n = sum(1 for x in xs if not isch(x))
    if not n:
        return K(len(xs))
    return atom("h", "length", text(xs), lo=len(xs), hi=len(xs) + 19 * n)


def position(xs, i):
    """the offset of the i-th item"""
    n = sum(1 for x in xs[:i] if not isch(x))
    return K(i) if not n else atom("h", "offset", text(xs), K(i), lo=i, hi=i + 19 * n)


def item(xs, t):
    """the item an offset denotes"""
    for i in range(len(xs) + 1):
        p = position(xs, i)
        if p is t:
            return i
        for d in range(1, len(xs) - i + 1):
            if add(p, K(d)) is t and all(isch(x) for x in xs[i:i + d]):
                return i + d
    if t is length(xs):
        return len(xs)
    return None


def printed(v, t):
    t = strip(t)
    if v.op in ("text", "str") or v.op == "addr" and v.args[0][0] == "str":
        return chars(v)
    if v.op == "k":
        return (chr(v.args[0]),) if t == "char" else tuple(str(v.args[0]))
    if t == "char" or rng(v)[0] < 0:
        raise Unsupported("symbolic character")
    return (v,)


def parsed(xs):
    """stoi and friends: the number at the start, None when there is none"""
    while xs and xs[0] == " ":
        xs = xs[1:]
    if not xs:
        return None
    if not isch(xs[0]):
        if len(xs) > 1 and (not isch(xs[1]) or xs[1].isdigit()):
            raise Unsupported("digits beside digits")
        return xs[0]
    m = re.match(r"[+-]?\d+", "".join(x if isch(x) else "\0" for x in xs))
    if not m:
        return None
    if m.end() < len(xs) and not isch(xs[m.end()]):
        raise Unsupported("digits beside digits")
    return K(int(m.group()))


def strings(ev, P, files):
    """transfer functions for strings and string streams"""
    def obj(e):
        return ev.deref(ev.rv(e["obj"])) if e.get("arrow") else ev.lvl(e["obj"])

    def isstream(v):
        return v.op == "stream"

    def out(ev, e):
        if e.get("obj") is not None:
            a, xs = obj(e), e["a"]
        else:
            a, xs = ev.lvl(e["a"][0]), e["a"][1:]
        s = ev.load(a)
        if not isstream(s) or len(xs) != 1:
            return NotImplemented
        v = ev.rv(xs[0])

        def one(s, v):
            if not isstream(s):
                raise Unsupported("stream")
            return mk("stream", chars(s.args[0]) and text(chars(s.args[0]) + printed(v, xs[0].get("t", ""))) or text(printed(v, xs[0].get("t", ""))), s.args[1])
        ev.store(a, liftn(one, [s, v]))
        return a

    def into(ev, e):
        a = ev.lvl(e["a"][0])
        s = ev.load(a)
        if not isstream(s):
            return NotImplemented
        xs, ok = chars(s.args[0]), s.args[1]
        i = 0
        while i < len(xs) and isch(xs[i]) and xs[i].isspace():
            i += 1
        j = i
        while j < len(xs) and not (isch(xs[j]) and xs[j].isspace()):
            j += 1
        if j > i and ok is K(1):
            ev.store(ev.lvl(e["a"][1]), text(xs[i:j]))
        else:
            ok = K(0)
        ev.store(a, mk("stream", text(xs[j:]), ok))
        return a

    def good(neg):
        def f(ev, e):
            s = ev.load(obj(e))
            if not isstream(s):
                return NotImplemented
            return K(1 - s.args[1].args[0]) if neg else s.args[1]
        return f

    def stream(ev, e):
        xs = [x for x in e.get("a", []) if "openmode" not in x.get("t", "").lower() and "Ios_Openmode" not in x.get("t", "")]
        if not xs:
            return mk("stream", text(()), K(1))
        v = ev.rv(xs[0])
        return mk("stream", text(chars(v)), K(1))

    def method(n):
        def f(ev, e):
            a = obj(e)
            v = ev.load(a)
            if isstream(v):
                return v.args[0] if n == "str" else NotImplemented
            if v.op == "bytes":
                if n in ("length", "size"):
                    return v.args[1]
                if n in ("operator[]", "at"):
                    return ev.addr(("file",), (("i", add(v.args[0], ev.rv(e["a"][0]))),))
                if n in ("data", "c_str"):
                    return ev.addr(("file",), (("i", v.args[0]),))
                if n in ("front",):
                    return ev.addr(("file",), (("i", v.args[0]),))
                if n == "operator=":
                    ev.store(a, ev.rv(e["a"][0]))
                    return a
                return NotImplemented
            args = e.get("a", [])
            if n == "operator=" and len(args) == 1:
                w = ev.rv(args[0])
                if w.op in ("text", "bytes") or w.op == "addr" and w.args[0][0] == "str":
                    ev.store(a, w if w.op == "bytes" else text(chars(w)))
                    return a
                return NotImplemented
            if v.op != "text":
                return NotImplemented
            xs = chars(v)
            if n in ("length", "size"):
                return length(xs)
            if n == "empty":
                return K(int(not xs))
            if n in ("operator[]", "at", "front", "back"):
                i = K(0) if n == "front" else K(len(xs) - 1) if n == "back" else ev.rv(args[0])
                j = item(xs, i)
                if j is None or any(not isch(x) for x in xs[:j]) and n != "back":
                    raise Unsupported("character of a text")
                if j >= len(xs):
                    return ev.temp(K(0))
                return ev.temp(K(ord(xs[j])) if isch(xs[j]) else atom("h", "digit", xs[j], lo=48, hi=57))
            if n == "substr":
                i = item(xs, ev.rv(args[0])) if args else 0
                if i is None:
                    raise Unsupported("part of a text")
                m = ev.rv(args[1]) if len(args) > 1 else K(NPOS)
                if m is K(NPOS) or rng(m)[0] >= rng(length(xs))[1]:
                    return text(xs[i:])
                if m.op == "k" and all(isch(x) for x in xs[i:i + m.args[0]]):
                    return text(xs[i:i + m.args[0]])
                j = item(xs, add(ev.rv(args[0]), m))
                if j is None:
                    raise Unsupported("part of a text")
                return text(xs[i:j])
            if n in ("find", "find_first_of"):
                w = ev.rv(args[0])
                w = (chr(w.args[0]),) if w.op == "k" else chars(w)
                if len(w) != 1 or len(args) > 1 and ev.rv(args[1]) is not K(0):
                    raise Unsupported("search of a text")
                return position(xs, xs.index(w[0])) if w[0] in xs else K(NPOS)
            if n in ("compare",):
                if len(args) == 3:
                    i, m = item(xs, ev.rv(args[0])), ev.rv(args[1]).args[0]
                    xs = xs[i:i + m]
                return b2v(c_not(tobool(same(xs, chars(ev.rv(args[-1]))))))
            if n in ("append", "operator+=", "push_back"):
                ev.store(a, text(xs + printed(ev.rv(args[0]), args[0].get("t", ""))))
                return a
            if n == "clear":
                ev.store(a, text(()))
                return mk("void")
            if n in ("begin", "end", "c_str", "data"):
                raise Unsupported("iteration over a text")
            return NotImplemented
        return f

    def same(a, b):
        """only differences that need no number"""
        for x, y in zip(a, b):
            if isch(x) and isch(y):
                if x != y:
                    return K(0)
            elif isch(x) or isch(y):
                c = x if isch(x) else y
                if not c.isdigit():
                    return K(0)
                raise Unsupported("comparison with a number")
            elif x is not y:
                raise Unsupported("comparison with a number")
        return K(int(len(a) == len(b)))

    def compare(neg):
        def f(ev, e):
            xs = ([e["obj"]] if e.get("obj") is not None else []) + e["a"]
            if len(xs) != 2:
                return NotImplemented
            a, b = ev.rv(xs[0]), ev.rv(xs[1])
            if not any(x.op == "text" for x in (a, b)):
                return NotImplemented
            r = same(chars(a), chars(b))
            return K(1 - r.args[0]) if neg else r
        return f

    def plus(ev, e):
        a, b = ev.rv(e["a"][0]), ev.rv(e["a"][1])
        if not any(x.op == "text" for x in (a, b)):
            return NotImplemented
        return text(printed(a, e["a"][0].get("t", "")) + printed(b, e["a"][1].get("t", "")))

    def tostring(ev, e):
        return text(printed(ev.rv(e["a"][0]), e["a"][0].get("t", "")))

    def number(ev, e):
        v = ev.rv(e["a"][0])
        if v.op != "text" or len(e["a"]) > 1 and any(x["k"] != "dflt" and not x.get("v") == 10 for x in e["a"][2:]):
            return NotImplemented
        r = parsed(chars(v))
        if r is None:
            ev.live = FALSE
            return K(0)
        return r

    def ctor(ev, e):
        xs = e.get("a", [])
        real = [x for x in xs if x["k"] != "dflt" and not strip(x.get("t", "")).startswith("std::allocator")]
        if not real:
            return text(())
        v = ev.rv(real[0])
        if len(real) == 1 and (v.op in ("text", "bytes") or v.op == "addr" and v.args[0][0] == "str"):
            return v if v.op == "bytes" else text(chars(v))
        return NotImplemented

    todo, seen = [f for f in P.fns.values() if f["file"] in files], set()
    for f in todo:
        for x in walk([f.get("body"), f.get("inits")]):
            if x["k"] not in ("call", "ctor"):
                continue
            q, cls = str(x.get("q", "")), str(x.get("cls", ""))
            n = q.rsplit("::", 1)[-1]
            if x["k"] == "ctor":
                if q.startswith(STR):
                    ev.hooks[q] = ctor
                elif re.match(r"std::(basic_(string|i|o|io|istring|ostring)stream|basic_stringstream|basic_istringstream|basic_ostringstream)<", q):
                    ev.hooks[q] = stream
                continue
            if n == "operator<<" and ("stream" in q or q == "std::operator<<"):
                ev.hooks[q] = out
            elif q == "std::operator>>":
                ev.hooks[q] = into
            elif cls.startswith("std::basic_ios<") and n.startswith("operator bool"):
                ev.hooks[q] = good(False)
            elif cls.startswith("std::basic_ios<") and n in ("operator!", "fail"):
                ev.hooks[q] = good(True)
            elif cls.startswith("std::basic_ios<") and n == "good":
                ev.hooks[q] = good(False)
            elif cls.startswith(STR) or "stringstream" in cls:
                ev.hooks[q] = method(n)
            elif q == "std::operator==":
                ev.hooks[q] = compare(False)
            elif q == "std::operator!=":
                ev.hooks[q] = compare(True)
            elif q == "std::operator+":
                ev.hooks[q] = plus
            elif re.match(r"std::(__cxx11::)?to_string$", q):
                ev.hooks[q] = tostring
            elif re.match(r"std::(__cxx11::)?sto(i|l|ul|ll|ull)$", q):
                ev.hooks[q] = number


# ------------------------------------------------------------------ pictures
def ceil2(x):
    return (x + 1) // 2


def shapes(w, h):
    """plane, displayed width and height, stored width and height"""
    W, H = (w + 15) // 16 * 16, (h + 15) // 16 * 16
    return [("Y", w, h, W, H), ("U", ceil2(w), ceil2(h), W // 2, H // 2), ("V", ceil2(w), ceil2(h), W // 2, H // 2)]


def picture(ev, w, h):
    P = ev.prog
    fs = {"display_width_": K(w), "display_height_": K(h), "width_": K((w + 15) // 16 * 16), "height_": K((h + 15) // 16 * 16)}
    for n, dw, dh, W, H in shapes(w, h):
        px.plane(ev, n, K(W), K(H))
        fs[n + "_"] = ev.env[("mem", n)]
        ev.env[("px", n)] = mk_arr(mk("obj", "arr"), {i: mk("in", "%s left from before at column %d, row %d" % (n, i % W, i // W)) for i in range(W * H)}, ())
    ev.env[("mem", "raster")] = mk_rec(mk("obj", "HashCachedRaster"), fs)

    def pixel(ev, e):
        a = ev.deref(ev.rv(e["obj"])) if e.get("arrow") else ev.lvl(e["obj"])
        for n in PLANES:
            if a.op == "addr" and a.args[0] == ("mem", n + ".storage"):
                i = ev.rv(e["a"][0])
                if i.op != "k":
                    raise Unsupported("pixel position")
                return ev.addr(("px", n), (("i", i),))
        return NotImplemented
    ev.hooks["std::vector<unsigned char, std::allocator<unsigned char>>::operator[]"] = pixel


def blocks(ev):
    def index(a, n):
        if a.op != "addr" or len(a.args[1]) != 1 or a.args[1][0][0] != "i" or a.args[1][0][1].op != "k":
            raise Unsupported("address of pixels")
        if n.op != "k" or n.args[0] > 100000:
            raise Unsupported("number of pixels")
        return a.args[1][0][1].args[0]

    def put(a, vs):
        root = a.args[0]
        if root[0] != "px":
            raise Unsupported("pixels written elsewhere")
        d = dict(arr_items(ev.env[root]))
        i = index(a, K(0))
        for j, v in enumerate(vs):
            if i + j not in d:
                ev.live = FALSE
                raise Unsupported("write beyond the plane")
            d[i + j] = v
        ev.env[root] = mk_arr(mk("obj", "arr"), d, ())

    def memcpy(ev, e):
        a, b, n = ev.rv(e["a"][0]), ev.rv(e["a"][1]), ev.rv(e["a"][2])
        i = index(b, n)
        src = arr_items(ev.env[b.args[0]])
        if ev.live is not TRUE:
            raise Unsupported("conditional copy")
        put(a, [src.get(i + j, mk("undef")) for j in range(n.args[0])])
        return a

    def memset(ev, e):
        a, v, n = ev.rv(e["a"][0]), ev.rv(e["a"][1]), ev.rv(e["a"][2])
        index(a, n)
        put(a, [v] * n.args[0])
        return a
    for p in ("", "std::", "__builtin_"):
        ev.hooks[p + "memcpy"] = ev.hooks[p + "memmove"] = memcpy
        ev.hooks[p + "memset"] = memset


def arr_items(v):
    if v.op != "arr":
        raise Unsupported("pixels " + v.op)
    return dict(v.args[1])


def optionals(ev, P, pat):
    for f in P.fns.values():
        if re.match(pat, f["q"]):
            ev.hooks[f["q"]] = lambda ev, e: mk("none") if not [x for x in e.get("a", []) if x["k"] != "dflt"] else NotImplemented


def descriptor(ev, state):
    def getline(ev, e):
        state["lines"] += 1
        return text(state["line"])

    def exactly(ev, e):
        n = ev.rv(e["a"][0])
        if n.op != "k":
            raise Unsupported("length read")
        p = state["pos"]
        state["pos"] += n.args[0]
        return mk("bytes", K(p), n)
    ev.hooks["FileDescriptor::getline"] = getline
    ev.hooks["FileDescriptor::read_exactly"] = exactly
    ev.hooks["FileDescriptor::eof"] = lambda ev, e: K(state["eof"])


def read_case(run, f, w, h, line="FRAME", eof=0):
    P = run.prog
    ev = Ev(P, gate=20, unroll=100000, budget=20000000)
    files = {f["file"]}
    strings(ev, P, files)
    picture(ev, w, h)
    blocks(ev)
    state = {"pos": 0, "lines": 0, "line": line, "eof": eof}
    descriptor(ev, state)
    total = sum(dw * dh for _, dw, dh, _, _ in shapes(w, h))
    ev.env[("file",)] = mk_arr(mk("obj", "arr"), {i: atom("in", "byte %d" % i, lo=0, hi=255) for i in range(total + 64)}, ())
    made = []

    def handle(ev, e):
        xs = [ev.rv(x) for x in e["a"]]
        if len(xs) == 2 and all(x.op == "k" for x in xs):
            made.append((xs[0].args[0], xs[1].args[0]))
            return mk_rec(mk("obj", "handle"), {"raster_": mk("addr", ("mem", "raster"), ())})
        return NotImplemented

    def wrap(ev, e):
        return mk("some", mk("picture"))
    for g in P.fns.values():
        c = g.get("cls") or ""
        if g["kind"] == "ctor":
            if c.startswith("VP8MutableRasterHandle<"):
                ev.hooks[g["q"]] = handle
            elif c.startswith("VP8RasterHandle<"):
                ev.hooks[g["q"]] = lambda ev, e: mk("picture")
            elif c.startswith("Optional<VP8RasterHandle"):
                ev.hooks[g["q"]] = lambda ev, e: mk("some", mk("picture")) if e.get("a") else mk("none")
    hdr = sym(ev, "YUV4MPEGHeader", "header")
    d = dict(hdr.args[1])
    d.update({"width": K(w), "height": K(h)})
    ev.env[("this",)] = mk_rec(mk("obj", "YUV4MPEGReader"), {"header_": mk_rec(hdr.args[0], d), "fd_": mk("obj", "fd")})
    s = summarize(ev, f)
    return s, state, made


def read_frame(run, name, f, w, h):
    s, state, made = read_case(run, f, w, h)
    out, n = [], 0
    where = "a picture of %dx%d" % (w, h)
    if s.live is not TRUE:
        out.append("%s is refused" % where)
    elif made != [(w, h)]:
        out.append("%s: the picture made has dimensions %s" % (where, made))
    elif s.retv.op != "some":
        raise Unsupported("result " + show(s.retv)[:80])
    total, pos = sum(dw * dh for _, dw, dh, _, _ in shapes(w, h)), 0
    if not out and (state["pos"] != total or state["lines"] != 1):
        out.append("%s: %d bytes are read after %d lines, a frame has %d" % (where, state["pos"], state["lines"], total))
    if not out:
        for p, dw, dh, W, H in shapes(w, h):
            got = arr_items(s.env[("px", p)])
            for r in range(H):
                for c in range(W):
                    n += 1
                    want = atom("in", "byte %d" % (pos + min(r, dh - 1) * dw + min(c, dw - 1)), lo=0, hi=255)
                    if got[r * W + c] is not want and not out:
                        out.append("%s: %s at column %d, row %d (displayed: %dx%d) is %s, not %s" % (where, p, c, r, dw, dh, show(got[r * W + c])[:60], show(want)))
            pos += dw * dh
    run.count("values_compared", n + 3)
    report(run, name, f, out, n + 3)


def report(run, name, f, out, n):
    where = "%s:%s" % (f["file"], f["l"])
    if out:
        run.bad(name, where, out[0])
    else:
        run.ok(name, where, "", n)


def read_ends(run, name, f):
    out, n = [], 0
    s, state, made = read_case(run, f, 2, 2, "", 1)
    if s.live is not TRUE or s.retv.op != "none":
        out.append("the end of the file is not the end of the pictures")
    for line in ("FRAMES", "frame", "", "YUV4MPEG2"):
        s, state, made = read_case(run, f, 2, 2, line, 0)
        n += 1
        if s.live is not FALSE:
            out.append("a picture that begins with '%s' is read" % line)
    report(run, name, f, out, n + 2)


def chunks(ev, P):
    def method(n):
        def f(ev, e):
            a = ev.deref(ev.rv(e["obj"])) if e.get("arrow") else ev.lvl(e["obj"])
            v = ev.load(a)
            if v.op == "dq":
                xs = v.args[0]
            elif v.op in ("obj", "rec"):
                xs = ()
            else:
                return NotImplemented
            if n in ("emplace_back", "push_back"):
                ys = [ev.rv(x) for x in e["a"]]
                y = ys[0] if len(ys) == 1 else mk("chunk", *ys)
                if ev.live is not TRUE or y.op != "chunk":
                    raise Unsupported("piece of a picture")
                ev.store(a, mk("dq", tuple(xs) + (y,)))
                return mk("void")
            if n == "reserve":
                return mk("void")
            if n == "size":
                return K(len(xs))
            if n in ("at", "operator[]"):
                return ev.temp(xs[ev.rv(e["a"][0]).args[0]])
            raise Unsupported("sequence " + n)
        return f
    pre = "std::vector<Chunk, std::allocator<Chunk>>::"
    for n in ("emplace_back", "push_back", "reserve", "size", "at", "operator[]"):
        ev.hooks[pre + n] = method(n)
    ev.hooks[pre + "vector"] = lambda ev, e: ev.rv(e["a"][0]) if e.get("a") else mk("dq", ())

    def chunk(ev, e):
        xs = [ev.rv(x) for x in e["a"]]
        return mk("chunk", *xs) if len(xs) == 2 else xs[0] if len(xs) == 1 and xs[0].op == "chunk" else NotImplemented
    ev.hooks["Chunk::Chunk"] = chunk


def written(run, name, f, w, h, write):
    P = run.prog
    ev = Ev(P, gate=20, unroll=100000, budget=20000000)
    strings(ev, P, {f["file"]})
    picture(ev, w, h)
    chunks(ev, P)
    got = []

    def wr(ev, e):
        v = ev.rv(e["a"][0])
        if ev.live is not TRUE:
            raise Unsupported("conditional write")
        got.append(v)
        return mk("void")

    def fwrite(ev, e):
        xs = [ev.rv(x) for x in e["a"]]
        if xs[1].op != "k" or xs[2].op != "k":
            raise Unsupported("length written")
        got.append(mk("chunk", xs[0], K(xs[1].args[0] * xs[2].args[0])))
        return xs[2]
    if write:
        ev.hooks["FileDescriptor::write"] = wr
    for n in ("buffer", "size"):
        def part(ev, e, n=n):
            v = ev.load(ev.deref(ev.rv(e["obj"])) if e.get("arrow") else ev.lvl(e["obj"]))
            if v.op != "chunk":
                return NotImplemented
            x = v.args[n == "size"]
            return ev.temp(x) if e.get("lv") or e.get("xv") else x
        ev.hooks["Chunk::" + n] = part
    ev.hooks["fwrite"] = ev.hooks["std::fwrite"] = fwrite
    for i, p in enumerate(f["ps"]):
        if "Raster" in p["t"]:
            ev.env[("arg", i)] = ev.env[("mem", "raster")]
        else:
            ev.env[("arg", i)] = mk("obj", "fd")
    ev.env[("this",)] = ev.env[("mem", "raster")]
    s = summarize(ev, f)
    out, n = [], 0
    pieces = got if write else list(s.retv.args[0]) if s.retv is not None and s.retv.op == "dq" else got
    where = "a picture of %dx%d" % (w, h)
    flat = []
    for v in pieces:
        if v.op == "chunk":
            a, m = v.args
            if a.op != "addr" or a.args[0][0] != "px" or m.op != "k" or a.args[1][0][1].op != "k":
                raise Unsupported("piece of a picture")
            flat += [(a.args[0][1], a.args[1][0][1].args[0] + j) for j in range(m.args[0])]
        else:
            flat += list(chars(v))
    want = list("FRAME\n") if write else []
    for p, dw, dh, W, H in shapes(w, h):
        want += [(p, r * W + c) for r in range(dh) for c in range(dw)]
    n = len(want)
    if s.live is not TRUE:
        out.append("%s is not written" % where)
    elif flat != want:
        i = next((i for i, (x, y) in enumerate(zip(flat, want)) if x != y), min(len(flat), len(want)))
        name_ = lambda x: "nothing" if x is None else "'%s'" % x if isch(x) else "%s[%d]" % x
        at = lambda xs: name_(xs[i] if i < len(xs) else None)
        out.append("%s: byte %d of %d written is %s, not %s (byte %d of %d)" % (where, i, len(flat), at(flat), at(want), i, len(want)))
    run.count("values_compared", n)
    report(run, name, f, out, n)


# ------------------------------------------------------------------ header
NUMBERS = ("width", "height", "fps_numerator", "fps_denominator", "pixel_aspect_ratio_numerator", "pixel_aspect_ratio_denominator")


def enum(P, name, q):
    for e, v in P.enums.items():
        if e.endswith(q):
            for n, x in v["c"]:
                if n.rsplit("::", 1)[-1] == name:
                    return x
    raise Unsupported("enumerator " + name)


def header_text(run, f, lace, space):
    P = run.prog
    ev = Ev(P, gate=20)
    strings(ev, P, {f["file"]})
    hdr = sym(ev, "YUV4MPEGHeader", "header")
    d = dict(hdr.args[1])
    for i, n in enumerate(NUMBERS):
        d[n] = atom("in", n, lo=1, hi=65535)
    d["interlacing_mode"], d["color_space"] = K(enum(P, lace, "InterlacingMode")), K(enum(P, space, "ColorSpace"))
    ev.env[("this",)] = mk_rec(hdr.args[0], d)
    s = summarize(ev, f)
    return s, d


def read_header(run, f, line):
    P = run.prog
    ev = Ev(P, gate=20)
    strings(ev, P, {f["file"]})
    state = {"pos": 0, "lines": 0, "line": line, "eof": 0}
    descriptor(ev, state)
    ev.hooks["FileDescriptor::FileDescriptor"] = lambda ev, e: mk("obj", "fd")
    ev.env[("arg", 0)] = mk("obj", "fd")
    s = summarize(ev, f)
    return s, (field(s.env[("this",)], "header_") if s.live is TRUE else None)


LACES = (("PROGRESSIVE", "p"), ("TOP_FIELD_FIRST", "t"), ("BOTTOM_FIELD_FIRST", "b"), ("MIXED_MODES", "m"))
SPACES = ("C420", "C420jpeg", "C420paldv", "C422", "C444")


def header_written(run, name, f):
    out, n = [], 0
    for lace, c in LACES:
        for space in SPACES:
            s, d = header_text(run, f, lace, space)
            if s.live is not TRUE:
                out.append("a header is not written (%s, %s)" % (lace, space))
                break
            xs = chars(s.retv)
            num = [d[x] for x in NUMBERS]
            want = tuple("YUV4MPEG2 W") + (num[0],) + tuple(" H") + (num[1],) + tuple(" F") + (num[2], ":", num[3]) + tuple(" I" + c + " A") + (num[4], ":", num[5]) + tuple(" " + space)
            n += len(want)
            # further parameters may follow, comments in particular
            rest = xs[len(want):]
            if xs[:len(want)] != want or not rest or rest[-1] != "\n" or "\n" in rest[:-1] or rest[0] not in " \n":
                ok = sorted(tokens(xs)) == sorted(tokens(want)) if xs and xs[-1] == "\n" else False
                if not ok:
                    out.append("a header of %s, %s is written as '%s'" % (lace, space, "".join(x if isch(x) else "<%s>" % show(x) for x in xs).replace("\n", "\\n")))
    run.count("values_compared", n)
    report(run, name, f, out, n)


def tokens(xs):
    """parameters of a header line, comments left out"""
    out, cur = [], ""
    for x in xs:
        if x in (" ", "\n"):
            out.append(cur)
            cur = ""
        else:
            cur += x if isch(x) else "<%s>" % show(x)
    return [t for t in out + [cur] if t and not t.startswith("X")]


def header_reread(run, name, f, w):
    """a header that was written reads back as it was"""
    P = run.prog
    out, n = [], 0
    for lace, c in LACES:
        for space in SPACES:
            s, d = header_text(run, w, lace, space)
            xs = chars(s.retv)
            if not xs or xs[-1] != "\n":
                raise Unsupported("header line")
            t, h = read_header(run, f, xs[:-1])
            n += 1
            if space in ("C422", "C444"):
                if t.live is TRUE:
                    out.append("a header of colour space %s is accepted" % space)
                continue
            bad = compared(t, h, d, P)
            n += 8
            if bad:
                out.append("%s (written: %s, %s)" % (bad, lace, space))
    run.count("values_compared", n)
    report(run, name, f, out, n)


def compared(t, h, d, P):
    """header read against the one meant"""
    if t.live is not TRUE:
        return "the header is refused"
    for x in NUMBERS + ("interlacing_mode",):
        v = field(h, x)
        if v is not d[x]:
            v2 = v
            if rng(v)[0] == rng(v)[1]:
                v2 = K(rng(v)[0])
            if v2 is not d[x]:
                return "%s is read as %s, not %s" % (x, show(v)[:60], show(d[x])[:60])
    v = field(h, "color_space")
    ok = [K(enum(P, x, "ColorSpace")) for x in ("C420", "C420jpeg", "C420paldv")]
    if v not in ok:
        return "the colour space is read as %s" % show(v)
    return None


def header_variants(run, name, f):
    """parameters in any order, optional ones left out, comments between them"""
    P = run.prog
    w, h, a, b, c, d = [atom("in", x, lo=1, hi=65535) for x in ("W", "H", "frames", "seconds", "pixels wide", "pixels high")]
    tok = {"W": (w,), "H": (h,), "F": (a, ":", b), "A": (c, ":", d), "It": (), "C420jpeg": (), "XCOMMENT": (), "C420": (), "Ip": (), "Ib": (), "Im": (), "C420mpeg2": ()}
    dflt = {"fps_numerator": K(0), "fps_denominator": K(0), "pixel_aspect_ratio_numerator": K(0), "pixel_aspect_ratio_denominator": K(0), "interlacing_mode": K(enum(P, "PROGRESSIVE", "InterlacingMode"))}
    out, n = [], 0
    cases = ("W H", "H W", "W H F It", "A W XCOMMENT H C420jpeg F", "XCOMMENT C420 It F A H W", "F W Im H", "W Ib C420mpeg2 H A", "W H Ip XCOMMENT XCOMMENT")
    for case in cases:
        line = tuple("YUV4MPEG2")
        for x in case.split():
            line += tuple(" " + x) + tok[x]
        t, hd = read_header(run, f, line)
        want = dict(dflt, width=w, height=h)
        for x in case.split():
            if x == "F":
                want.update(fps_numerator=a, fps_denominator=b)
            if x == "A":
                want.update(pixel_aspect_ratio_numerator=c, pixel_aspect_ratio_denominator=d)
            if x[0] == "I":
                want["interlacing_mode"] = K(enum(P, dict((v, k) for k, v in LACES)[x[1]], "InterlacingMode"))
        given = {"width", "height"} | {k for k in want if want[k] is not dflt.get(k)}
        bad = None
        if t.live is not TRUE:
            bad = "the header is refused"
        else:
            for x in sorted(given):
                n += 1
                if field(hd, x) is not want[x]:
                    bad = "%s is read as %s, not %s" % (x, show(field(hd, x))[:60], show(want[x])[:60])
        if bad:
            out.append("%s (parameters: %s)" % (bad, case))
    run.count("values_compared", n)
    report(run, name, f, out, n)


def header_digits(run, name, f):
    out, n = [], 0
    # digits, where a number may be cut short
    for line, want in (("YUV4MPEG2 W176 H144 F30000:1001 Ip A1:1 C420jpeg", (176, 144, 30000, 1001, 1, 1)), ("YUV4MPEG2 W1 H65535 F5:1 A128:117", (1, 65535, 5, 1, 128, 117)), ("YUV4MPEG2 C420 H7 W65535 A0:0 F1:65535", (65535, 7, 1, 65535, 0, 0))):
        t, hd = read_header(run, f, line)
        n += len(NUMBERS)
        if t.live is not TRUE:
            out.append("a header '%s' is refused" % line)
            continue
        for x, v in zip(NUMBERS, want):
            if field(hd, x) is not K(v):
                out.append("%s of '%s' is read as %s" % (x, line, show(field(hd, x))[:60]))
    run.count("values_compared", n)
    report(run, name, f, out, n)


def header_refused(run, name, f):
    out, n = [], 0
    for line in ("YUV4MPEG W2 H2", "RIFF", "", "YUV4MPEG2 W2", "YUV4MPEG2 H2", "YUV4MPEG2", "YUV4MPEG2 W2 H2 C422", "YUV4MPEG2 W2 H2 C444", "YUV4MPEG2 W2 H2 F30", "YUV4MPEG2 W2 H2 I", "YUV4MPEG2 W2 H2 Iz", "YUV4MPEG2 W2 H2 Q1", "YUV4MPEG2 W0 H2", "YUV4MPEG2 W2 H0", "YUV4MPEG2 W H2"):
        t, hd = read_header(run, f, line)
        n += 1
        if t.live is not FALSE:
            out.append("a header '%s' is accepted" % line)
    run.count("values_compared", n)
    report(run, name, f, out, n)


SIZES = ((16, 16), (1, 1), (2, 2), (3, 5), (17, 2), (2, 17), (31, 16), (16, 31), (14, 18), (15, 31), (32, 47), (47, 32))
MORE = ((16, 32), (32, 16), (33, 7), (7, 33), (48, 3), (4, 49))


def check(run):
    P = run.prog
    get = [f for f in fns_named(P, "YUV4MPEGReader::get_next_frame") if f.get("body") is not None]
    ctor = [f for f in P.fns.values() if f["q"] == "YUV4MPEGReader::YUV4MPEGReader" and f.get("body") is not None and len(f["ps"]) == 1 and "FileDescriptor" in f["ps"][0]["t"]]
    tos = [f for f in fns_named(P, "YUV4MPEGHeader::to_string") if f.get("body") is not None]
    wr = [f for f in fns_named(P, "YUV4MPEGFrameWriter::write") if f.get("body") is not None]
    dump = [f for f in fns_named(P, "BaseRaster::dump") if f.get("body") is not None]
    sizes = SIZES + (MORE if run.tier == "thorough" else ())
    for f in get[:1]:
        for w, h in sizes:
            nm = "reading pictures of %dx%d" % (w, h)
            run.attempt(nm, read_frame, run, nm, f, w, h)
        run.attempt("end and damage", read_ends, run, "end and damage", f)
    for f in wr[:1]:
        for w, h in sizes:
            nm = "writing pictures of %dx%d" % (w, h)
            run.attempt(nm, written, run, nm, f, w, h, True)
    for f in dump[:1]:
        for w, h in sizes[:5]:
            nm = "dumping pictures of %dx%d" % (w, h)
            run.attempt(nm, written, run, nm, f, w, h, False)
    for f in tos[:1]:
        run.attempt("header written", header_written, run, "header written", f)
        for g in ctor[:1]:
            run.attempt("header read back", header_reread, run, "header read back", g, f)
    for g in ctor[:1]:
        run.attempt("headers of other writers", header_variants, run, "headers of other writers", g)
        run.attempt("numbers of headers", header_digits, run, "numbers of headers", g)
        run.attempt("headers refused", header_refused, run, "headers refused", g)
