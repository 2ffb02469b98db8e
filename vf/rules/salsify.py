"""Salsify's sender and receiver: one event (datagram, encoded frame, acknowledgement, new picture) handled from an
arbitrary state of the program, compared with the protocol."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.lints import walk
from rules.state import verdict, tobv

MAX = 6     # different state hashes considered when two values are told apart by evaluation


def hsh(name):
    return atom("in", name, lo=0, hi=MAX)


def minihash(v):
    """hash of the state a coder is in"""
    def one(x):
        if x.op == "coder":
            return x.args[0]
        return atom("h", "state hash", x, lo=0, hi=MAX)
    return liftn(one, [v])


def coder(h):
    return liftn(lambda x: mk("coder", x), [h])


# ---------------------------------------------------------------- containers
def m_ins(m, k, v):
    return liftn(lambda m, k, v: mk("ins", m, k, v), [m, k, v])


def m_del(m, k):
    return liftn(lambda m, k: mk("del", m, k), [m, k])


def m_has(m, k):
    """condition: the key is present"""
    def one(m):
        c = FALSE
        log = []
        while m.op in ("ins", "del"):
            log.append(m)
            m = m.args[0]
        if m.op != "empty":
            c = c_not(eq(atom("h", "has", m, k, lo=0, hi=1), K(0)))
        for x in reversed(log):
            same = eq(x.args[1], k)
            c = c_or(c, same) if x.op == "ins" else c_and(c, c_not(same))
        return b2v(c)
    return c_not(eq(liftn(one, [m]), K(0)))


def m_at(m, k, absent=None):
    def one(m):
        log = []
        while m.op in ("ins", "del"):
            log.append(m)
            m = m.args[0]
        v = mk("held", m, k) if m.op != "empty" else mk("nothing")
        cur = m
        for x in reversed(log):
            if x.op == "ins":
                v = ite(c_and(eq(x.args[1], k), c_not(m_has(cur, k))), x.args[2], v)
            cur = x
        return v
    return liftn(one, [m])


def d_list(v):
    return v.args[0] if v.op == "dq" else None


def dq(items):
    return mk("dq", tuple(items))


def containers(ev, P, files, byroot):
    """transfer functions for the hash maps, sequences and iterators these programs use"""
    def obj(e):
        o = e["obj"]
        if e.get("arrow"):
            return ev.deref(ev.rv(o))
        return ev.lvl(o)

    def need(ok, what):
        if not ok:
            raise Unsupported(what)

    def mroot(a, k):
        return ("held", a.args[0], k)

    def m_call(n):
        def f(ev, e):
            a = obj(e)
            m = ev.load(a)
            if n in ("count", "contains"):
                return b2v(m_has(m, ev.rv(e["a"][0])))
            if n == "find":
                k = ev.rv(e["a"][0])
                return ite(m_has(m, k), mk("mit", a, k), mk("mend", a))
            if n in ("end", "cend"):
                return mk("mend", a)
            if n in ("at", "operator[]"):
                k = ev.rv(e["a"][0])
                if n == "at":
                    ev.event("throw", (), e, c_not(m_has(m, k))) if False else None
                    ev.live = c_and(ev.live, m_has(m, k))
                if any(re.search(x, e.get("cls", "")) for x in byroot):
                    r = mroot(a, k)
                    if r not in ev.env:
                        ev.env[r] = m_at(m, k)
                    return ev.addr(r)
                return ev.temp(m_at(m, k))
            if n == "erase":
                k = ev.rv(e["a"][0])
                k = liftn(lambda x: x.args[1] if x.op == "mit" else x, [k])
                b = b2v(m_has(m, k))
                ev.store(a, m_del(m, k))
                return b
            if n in ("insert", "emplace"):
                if n == "insert":
                    p = ev.rv(e["a"][0])
                    k, v = field(p, "first"), field(p, "second")
                else:
                    k, v = ev.rv(e["a"][0]), ev.rv(e["a"][1])
                if any(re.search(x, e.get("cls", "")) for x in byroot):
                    r = mroot(a, k)
                    was = m_has(m, k)
                    ev.env[r] = ite(was, ev.env.get(r, m_at(m, k)), v)
                ev.store(a, m_ins(m, k, v))
                return mk("inserted")
            raise Unsupported("map " + n)
        return f

    def seq(v):
        need(v.op == "dq", "sequence " + show(v)[:200])
        return v.args[0]

    def d_call(n):
        def f(ev, e):
            a = obj(e)
            v = ev.load(a)
            if v.op != "br" and v.op != "dq":
                return NotImplemented
            args = [x for x in e.get("a", [])]
            if n in ("size", "empty"):
                return liftn(lambda x: K(len(seq(x)) if n == "size" else int(not seq(x))), [v])
            if n in ("begin", "cbegin"):
                return mk("dit", a, K(0))
            if n in ("end", "cend"):
                return liftn(lambda x: mk("dit", a, K(len(seq(x)))), [v])
            if n in ("reserve", "shrink_to_fit"):
                return mk("void")
            if n == "operator=":
                w = ev.rv(args[0])
                seq(w)
                ev.store(a, w)
                return a
            if n in ("push_back", "emplace_back"):
                y = ev.rv(args[0]) if len(args) == 1 else mk("made", *[ev.rv(z) for z in args])
                ev.store(a, liftn(lambda x, y: dq(seq(x) + (y,)), [v, y]))
                return mk("void")
            if n in ("front", "back", "at", "operator[]"):
                def one(x, i):
                    s = seq(x)
                    j = 0 if n == "front" else len(s) - 1 if n == "back" else (i.args[0] if i.op == "k" else None)
                    need(j is not None, "symbolic index")
                    return s[j] if 0 <= j < len(s) else mk("undef")
                return ev.temp(liftn(one, [v, ev.rv(args[0]) if args else K(0)]))
            if n == "clear":
                ev.store(a, dq(()))
                return mk("void")
            if n in ("push_front", "emplace_front") and len(args) == 1:
                ev.store(a, liftn(lambda x, y: dq((y,) + tuple(seq(x))), [v, ev.rv(args[0])]))
                return mk("void")
            if n == "pop_back":
                ev.store(a, liftn(lambda x: dq(seq(x)[:-1]), [v]))
                return mk("void")
            if n == "pop_front":
                ev.store(a, liftn(lambda x: dq(seq(x)[1:]), [v]))
                return mk("void")
            if n == "erase":
                its = [ev.rv(x) for x in args]

                def one(x, i, j=None):
                    s = seq(x)
                    i = i.args[1].args[0]
                    j = i + 1 if j is None else j.args[1].args[0]
                    return dq(s[:i] + s[j:])
                ev.store(a, liftn(one, [v] + its))
                return its[0]
            raise Unsupported("sequence " + n)
        return f

    def cmp(neg):
        def f(ev, e):
            xs = ([ev.rv(e["obj"])] if e.get("obj") is not None else []) + [ev.rv(x) for x in e["a"]]
            ops = {z.op for x in xs for z in leaves(x)}
            if len(xs) != 2 or not ops <= {"dit", "mit", "mend"}:
                return NotImplemented

            def one(x, y):
                if x.op == "dit":
                    need(x.args[0] is y.args[0], "iterators of different sequences")
                    return K(int((x.args[1] is y.args[1]) != neg))
                return K(int((x.op == y.op) != neg))
            return liftn(one, xs)
        return f

    def step(d):
        def f(ev, e):
            if e.get("obj") is None:
                return NotImplemented
            a = obj(e)
            v = ev.load(a)
            if {z.op for z in leaves(v)} != {"dit"}:
                return NotImplemented
            nv = liftn(lambda x: mk("dit", x.args[0], add(x.args[1], K(d))), [v])
            ev.store(a, nv)
            return ev.temp(v) if False else (v if e.get("a") else a)
        return f

    def shift(sign):
        def f(ev, e):
            xs = ([ev.rv(e["obj"])] if e.get("obj") is not None else []) + [ev.rv(x) for x in e["a"]]
            if len(xs) != 2 or xs[0].op != "dit":
                return NotImplemented
            if xs[1].op == "dit":
                return sub(xs[0].args[1], xs[1].args[1])
            return mk("dit", xs[0].args[0], add(xs[0].args[1], xs[1]) if sign > 0 else sub(xs[0].args[1], xs[1]))
        return f

    def order(test):
        def f(ev, e):
            xs = ([ev.rv(e["obj"])] if e.get("obj") is not None else []) + [ev.rv(x) for x in e["a"]]
            if len(xs) != 2 or any(x.op != "dit" or not isk(x.args[1]) for x in xs):
                return NotImplemented
            return K(int(test(xs[0].args[1].args[0], xs[1].args[1].args[0])))
        return f

    def star(ev, e):
        v = ev.rv(e["obj"]) if e.get("obj") is not None else ev.rv(e["a"][0])
        if {z.op for z in leaves(v)} == {"dit"}:
            def one(x):
                s = ev.load(x.args[0])
                return liftn(lambda s: (s.args[0][x.args[1].args[0]] if x.args[1].args[0] < len(s.args[0]) else mk("undef")), [s])
            return ev.temp(liftn(one, [v]))
        return NotImplemented

    def arrow(ev, e):
        v = ev.rv(e["obj"])
        if {z.op for z in leaves(v)} <= {"mit", "mend"}:
            def one(x):
                if x.op == "mend":
                    return mk("undef")
                return mk_rec(mk("obj", "pair"), {"first": x.args[1], "second": m_at(ev.load(x.args[0]), x.args[1])})
            return ev.temp(liftn(one, [v]))
        return NotImplemented

    def nxt(d):
        def f(ev, e):
            v = ev.rv(e["a"][0])
            if {z.op for z in leaves(v)} != {"dit"}:
                return NotImplemented
            return liftn(lambda x: mk("dit", x.args[0], add(x.args[1], K(d))), [v])
        return f

    def find(ev, e):
        a, b, x = [ev.rv(y) for y in e["a"]]
        if {z.op for z in leaves(a)} != {"dit"}:
            return NotImplemented

        def one(a, b):
            s = ev.load(a.args[0])

            def two(s):
                r = b
                for i in range(b.args[1].args[0] - 1, a.args[1].args[0] - 1, -1):
                    r = ite(eq(s.args[0][i], x), mk("dit", a.args[0], K(i)), r)
                return r
            return liftn(two, [s])
        return liftn(one, [a, b])

    def quantified(n):
        def f(ev, e):
            a, b = ev.rv(e["a"][0]), ev.rv(e["a"][1])
            p = ev.rv(e["a"][2])
            if a.op != "dit" or b.op != "dit" or p.op != "lam":
                return NotImplemented
            s = ev.load(a.args[0])
            need(s.op == "dq", "sequence")
            c = TRUE if n == "all_of" else FALSE
            node, fr, caps = ev.lams[p.args[0]]
            g = dict(node["fs"][0])
            g.setdefault("file", fr.fn["file"])
            for i in range(a.args[1].args[0], b.args[1].args[0]):
                r = tobool(ev.invoke(g, fr.this, [], e, addrs=[ev.temp(s.args[0][i])], parent=fr, caps=caps))
                c = c_and(c, r) if n == "all_of" else c_or(c, r)
            return b2v(c_not(c) if n == "none_of" else c)
        return f

    for f in P.fns.values():
        if f["file"] not in files:
            continue
        for x in walk([f.get("body"), f.get("inits")]):
            if x["k"] != "call" and x["k"] != "ctor":
                continue
            q = str(x.get("q", ""))
            n = q.rsplit("::", 1)[-1]
            if x["k"] == "ctor":
                if q.startswith(("std::_Deque_iterator<", "__gnu_cxx::__normal_iterator<")):
                    ev.hooks[q] = lambda ev, e: ev.rv(e["a"][0]) if len(e.get("a", [])) == 1 else NotImplemented
                elif re.match(r"std::(deque|vector)<(unsigned (int|long)|EncodeOutput)", q):
                    ev.hooks[q] = lambda ev, e: ev.rv(e["a"][0]) if len(e.get("a", [])) == 1 and strip(e["a"][0].get("t", "")).startswith(("std::deque", "std::vector")) else NotImplemented
                continue
            cls = str(x.get("cls", ""))
            if cls.startswith("std::unordered_map<"):
                ev.hooks[q] = m_call(n)
            elif re.match(r"std::(deque|vector)<(unsigned (int|long)|EncodeJob|EncodeOutput|std::future<|Packet)", cls):
                ev.hooks[q] = d_call(n)
            elif q in ("std::operator!=", "std::__detail::operator!=", "__gnu_cxx::operator!="):
                ev.hooks[q] = cmp(True)
            elif q in ("std::operator==", "std::__detail::operator==", "__gnu_cxx::operator=="):
                ev.hooks[q] = cmp(False)
            elif q in ("std::operator+", "std::operator-") or n in ("operator+", "operator-") and "iterator" in cls:
                ev.hooks[q] = shift(1 if n == "operator+" else -1)
            elif q in ("std::operator<", "std::operator>", "std::operator<=", "std::operator>="):
                ev.hooks[q] = order({"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}[n[8:]])
            elif n == "operator++" and "iterator" in cls:
                ev.hooks[q] = step(1)
            elif n == "operator--" and "iterator" in cls:
                ev.hooks[q] = step(-1)
            elif n == "operator*" and "iterator" in cls:
                ev.hooks[q] = star
            elif n == "operator->" and "iterator" in cls:
                ev.hooks[q] = arrow
            elif q == "std::next":
                ev.hooks[q] = nxt(1)
            elif q == "std::prev":
                ev.hooks[q] = nxt(-1)
            elif q == "std::find":
                ev.hooks[q] = find
            elif q in ("std::any_of", "std::all_of", "std::none_of"):
                ev.hooks[q] = quantified(n)


def leaves(v):
    if v.op == "br":
        out, todo, seen = [], [v], set()
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.op == "br":
                todo += [x.args[2], x.args[3]]
            else:
                out.append(x)
        return out
    return [v]


# ---------------------------------------------------------------- the programs
def program(P, name):
    U = P.unit(name)
    for f in U.fns.values():
        if f["q"] == "main" and f["file"] == name and f.get("body") is not None:
            return U, f
    raise Unsupported("no main in " + name)


def reaches(U, body, want, seen=None, depth=0):
    """a call to `want` is reached from this code"""
    seen = set() if seen is None else seen
    for x in walk(body):
        if x["k"] in ("call", "ctor"):
            q = str(x.get("q", ""))
            if q == want:
                return True
            g = U.fns.get(x.get("f"))
            if g is not None and g["f"] not in seen and depth < 4 and g["file"].startswith("src/salsify/"):
                seen.add(g["f"])
                if reaches(U, [g.get("body"), g.get("inits")], want, seen, depth + 1):
                    return True
    return False


def handlers(U, f, want):
    """the functions main hands to the poller that reach a call of `want`"""
    out = []
    for n in walk(f["body"]):
        if n["k"] == "ctor" and n.get("q") == "Poller::Action::Action" and len(n.get("a", [])) == 4:
            for y in walk(n["a"][2]):
                if y["k"] == "lambda":
                    out += [(g, {c["id"] for c in y["caps"] if c.get("id")}) for g in y["fs"] if reaches(U, g.get("body"), want)]
                    break
    return out


def variables(f):
    out = {}
    for n in walk(f["body"]):
        if n["k"] == "decl":
            for v in n["vars"]:
                out.setdefault(v["id"], v)
    return list(out.values())


def one_of(vs, pat, const=False):
    xs = [v for v in vs if re.search(pat, v["t"]) and bool(re.match(r"const ", v["t"])) == const]
    if len(xs) != 1:
        raise Unsupported("%d variables of type %s" % (len(xs), pat))
    return ("ext", xs[0]["n"], xs[0]["id"])


QUIET = re.compile(r"^std::(operator<<|basic_ostream<.*>::operator<<|endl|flush)")


def stub(U, ev, files):
    """output to the console changes nothing"""
    for f in U.fns.values():
        if f["file"] in files:
            for x in walk([f.get("body"), f.get("inits")]):
                if x["k"] == "call" and QUIET.match(str(x.get("q", ""))):
                    ev.hooks[x["q"]] = lambda ev, e: ev.temp(mk("obj", "console"))


def keyof(v):
    """the frame a FragmentedFrame (or its bytes) belongs to"""
    return v


def receiver(f, U, vs, d, held, part, whole, some, seen):
    """one datagram, d frames ahead of the frame expected. held: offsets of the frames with fragments; part: which of
    the state hashes are equal; whole: the frame is complete; some: the frame has bytes"""
    ev = Ev(U, gate=20)
    files = {f["file"]}
    containers(ev, U, files | {"src/salsify/salsify-receiver.cc"}, (r"FragmentedFrame",))
    stub(U, ev, files)
    N = atom("in", "next frame", lo=4, hi=2 ** 31)
    frames = one_of(vs, r"unordered_map<.*FragmentedFrame")
    coders = one_of(vs, r"unordered_map<.*Decoder")
    lst = one_of(vs, r"deque<")
    player = one_of(vs, r"^FramePlayer$")
    ini = one_of(vs, r"^const (uint32_t|unsigned int)$", True)
    cur = one_of(vs, r"^(uint32_t|unsigned int)$")
    nxt = one_of(vs, r"^(size_t|unsigned long)$")
    I, C, Ehash, T, A = [K(10 + x) for x in part[:5]]
    L = [K(10 + x) for x in part[5:]]
    early = [K(500 + o) for o in held if o < d]
    # the last incomplete frame shown leaves the player in state C
    before = early[0] if early and some else C
    m0 = m_ins(mk("empty"), I, coder(I))
    for x in L:
        m0 = m_ins(m0, x, coder(x))
    ev.env[frames] = mk("empty")
    for o in held:
        k = add(N, K(o))
        ev.env[frames] = m_ins(ev.env[frames], k, mk("ff", k))
        ev.env[("held", frames, k)] = mk("ff", k)
    ev.env[coders] = m0
    f0 = ev.env[frames]
    ev.env[lst] = dq(L)
    ev.env[player] = mk_rec(mk("obj", "FramePlayer"), {"decoder_": coder(before)})
    ev.env[ini], ev.env[cur], ev.env[nxt] = I, before, N
    F = add(N, K(d))
    ev.env[("log",)] = dq(())
    log = ev.addr(("log",))

    def note(*a):
        v = ev.load(log)
        g = ev.guard()
        ev.store(log, ite(ev.live, liftn(lambda x: dq(x.args[0] + (mk(*a),)), [v]), v))

    def val(ev, b):
        return b[1] if isinstance(b, tuple) else ev.load(b)

    frag = {"source_state": lambda o: Ehash if o == d else K(300 + o),
            "target_state": lambda o: T if o == d else K(400 + o),
            "complete": lambda o: K(whole if o == d else 0),
            "frame_no": lambda o: add(N, K(o)),
            "frame": lambda o: mk("bytes", "whole", o), "partial_frame": lambda o: mk("bytes", "partial", o)}
    last = max([o for o in held if o < d], default=None)

    def after(b):
        if b.args == ("whole", d):
            return A
        if b.args[0] == "partial" and b.args[1] == last:
            return C
        return K(500 + b.args[1] + 1 if b.args[0] == "partial" else 600 + b.args[1])

    def frame_key(v):
        if v.op != "ff":
            raise Unsupported("fragments of %s" % show(v)[:60])
        o = sub(v.args[0], N)
        if not isk(o):
            raise Unsupported("frame %s" % show(o)[:60])
        return o.args[0]
    pk = {"frame_no": F, "fragment_no": mk("in", "fragment number"), "time_since_last": mk("in", "grace"), "connection_id": mk("in", "connection")}

    def ihook(ev, g, this, binds, e):
        q = g["q"]
        cls, _, n = q.rpartition("::")
        if cls == "Packet" and n in pk:
            if field(ev.load(this), "from").op == "undef":
                raise Unsupported("packet")
            return pk[n]
        if cls == "FragmentedFrame" and n in frag:
            return frag[n](frame_key(ev.load(this)))
        if cls == "FragmentedFrame" and n == "add_packet":
            note("added", frame_key(ev.load(this)))
            return mk("void")
        if q == "FramePlayer::decode":
            ch = val(ev, binds[0])
            if ch.op != "bytes":
                raise Unsupported("bytes decoded")
            note("decoded", ch, minihash(field(ev.load(this), "decoder_")))
            ev.store(ev.ext(this, ("f", "decoder_")), coder(after(ch)))
            return mk_rec(mk("obj", "Optional"), {"initialized_": K(seen), "object_": mk("picture", ch)})
        if q.startswith("Optional<RasterHandle>::") or q.startswith("Optional<") and g.get("cls", "").startswith("Optional<RasterHandle"):
            v = ev.load(this)
            if n == "initialized":
                return field(v, "initialized_", None, 0, 1)
            if n == "get":
                return ev.temp(field(v, "object_"))
        if q == "Decoder::minihash":
            return minihash(ev.load(this))
        if q == "Chunk::size":
            b = ev.load(this)
            return K(some)
        if q == "AverageInterPacketDelay::add":
            return mk("void")
        if q == "AverageInterPacketDelay::int_value":
            return mk("in", "delay")
        if q == "UDPSocket::recv":
            return mk_rec(mk("obj", "datagram"), {"payload": mk("in", "payload"), "source_address": mk("in", "sender"), "timestamp_us": mk("in", "time")})
        if q == "AckPacket::sendto":
            note("acknowledged", ev.load(this), val(ev, binds[1]))
            return mk("void")
        if q == "procinfo::memory_usage":
            return mk("in", "memory")
        return NotImplemented
    def located(ev, g, this, binds, e):
        r = ihook(ev, g, this, binds, e)
        if r is not NotImplemented and g["ret"].rstrip().endswith("&") and r.op != "addr":
            r = ev.temp(r)
        return r
    ev.ihook = located

    def ctor(n):
        def h(ev, e):
            a = e.get("a", [])
            t = strip(a[0].get("t", "")) if a else ""
            if len(a) == 1 and t == n:
                return ev.rv(a[0])
            if n == "Packet":
                return mk_rec(mk("obj", "Packet"), {"from": ev.rv(a[0])})
            if n == "Chunk":
                return ev.rv(a[0]) if len(a) == 1 else NotImplemented
            if n == "FragmentedFrame" and len(a) == 2:
                p = ev.rv(a[1])
                note("started", d)
                return mk("ff", F)
            if n == "AckPacket" and len(a) == 6:
                return mk("ack", *[ev.rv(x) for x in a])
            if n == "received":
                return ev.rv(a[0])
            return NotImplemented
        return h
    for n in ("Packet", "Chunk", "FragmentedFrame", "AckPacket"):
        ev.hooks[n + "::" + n] = ctor(n)
    ev.hooks["UDPSocket::received_datagram::received_datagram"] = ctor("received")
    shown = lambda ev, e: (note("shown", ev.rv(e["a"][0])), mk("void"))[1]

    def runs(ev, e):
        for x in e["a"]:
            v = ev.rv(x) if not x.get("lv") else ev.load(ev.lvl(x))
            if v.op == "lam":
                return ev.calllam(v, {"a": [], "k": "call"})
        raise Unsupported("asynchronous call")
    for g in U.fns.values():
        if g["file"] in files:
            for x in walk([g.get("body"), g.get("inits")]):
                q = str(x.get("q", ""))
                if x["k"] == "call":
                    if q == "std::async" or q.startswith("std::async<"):
                        ev.hooks[q] = runs
                    if re.match(r"std::queue<.*RasterHandle.*::(push|emplace)$", q):
                        ev.hooks[q] = shown
                if x["k"] == "ctor" and re.match(r"std::(lock_guard|unique_lock)<", q):
                    ev.hooks[q] = lambda ev, e: mk("obj", "lock")
    s = run_lambda(ev, f["handler"], f)
    g = lambda r: s.env[r]
    if __import__("os").environ.get("VF_DEBUG"):
        print([(e.kind, e.loc, str(e.args)[:200]) for e in s.events])
    for r in (cur, nxt, lst, coders, frames, ("log",)):
        if g(r).op == "br":
            raise Unsupported("the outcome depends on more than the scenario: " + show(g(r))[:900])
    return s, dict(N=N, F=F, I=I, C=C, E=Ehash, T=T, A=A, L=L, before=before, m0=m0, f0=f0, cur=g(cur), nxt=g(nxt), list=g(lst), coders=g(coders), frames=g(frames), log=g(("log",)), player=minihash(field(g(player), "decoder_")))


def run_lambda(ev, g, f):
    fr = dict(g)
    fr.setdefault("file", f["file"])
    fr.setdefault("q", "handler")
    fr.setdefault("kind", "fn")
    return summarize(ev, fr)


def partitions(n, apart=()):
    """every way n values can be equal or not; apart: pairs known to differ"""
    def grow(p, top):
        if len(p) == n:
            yield tuple(p)
            return
        for v in range(top + 1):
            if any(j == len(p) and p[i] == v for i, j in apart):
                continue
            yield from grow(p + [v], max(top, v + 1))
    return grow([], 0)


def holds(m, k):
    c = m_has(m, k)
    if c is not TRUE and c is not FALSE:
        raise Unsupported("membership")
    return c is TRUE


def items(v):
    if v.op != "dq":
        raise Unsupported("list")
    return list(v.args[0])


def num(t):
    if not isk(t):
        raise Unsupported("a state depends on more than the scenario")
    return t.args[0]


def judge(s, x, d, held, whole, some, seen):
    """what the receiver must have done; returns the first thing that is wrong, and the number compared"""
    N, F, E, I, C, A, T, L = x["N"], x["F"], x["E"], x["I"], x["C"], x["A"], x["T"], x["L"]
    n = 0
    if s.live is not TRUE:
        return "the receiver stops", 1
    log = items(x["log"])
    keys = lambda lo, hi: [o for o in range(lo, hi) if holds(x["frames"], add(N, K(o)))]
    before = [o for o in sorted(held)]
    after = keys(min([-3] + before), max([4] + before) + 1)
    listed = items(x["list"])
    if d < 0:
        same = x["cur"] is x["before"] and x["player"] is x["before"] and x["nxt"] is N and listed == L and after == before and not log
        if not same or any(not holds(x["coders"], y) for y in L + [I]):
            return "an old datagram changes something", 6
        return None, 6
    # the frames decoded, in order, each on the state it should be
    decoded = [y for y in log if y.op == "decoded"]
    want = [mk("bytes", "partial", o) for o in before if o < d] + ([mk("bytes", "whole", d)] if whole else [])
    if not some:
        want = []
    n += 1 + len(want)
    if [y.args[0] for y in decoded] != want:
        return "frames decoded: %s instead of %s" % ([y.args[0].args for y in decoded], [y.args for y in want]), n
    held_states = [I] + L
    if whole:
        src = E if E in held_states else C
        if some and decoded[-1].args[1] is not src:
            return "the frame is decoded on state %s, not %s" % (show(decoded[-1].args[1]), show(src)), n
        if not some:
            src2 = E if E in held_states else C
            if x["player"] is not src2:
                return "state after an empty frame", n
    shown = [y.args[0] for y in log if y.op == "shown"]
    n += 1
    if shown != ([mk("picture", y) for y in want] if seen else []):
        return "pictures shown: %d, decoded: %d" % (len(shown), len(want)), n
    end = (A if some else (E if E in held_states else C)) if whole else C
    n += 3
    if x["player"] is not end:
        return "state of the decoder afterwards is %s, not %s" % (show(x["player"]), show(end)), n
    if x["cur"] is not end:
        return "the state it believes it is in is %s, its decoder is in %s" % (show(x["cur"]), show(end)), n
    if x["nxt"] is not add(F, K(whole)):
        return "frame expected next is %s, not %s" % (show(x["nxt"]), show(add(F, K(whole)))), n
    n += 1
    if after != sorted(o for o in set(before) | {d} if o > d or o == d and not whole):
        return "frames with fragments afterwards: %s" % after, n
    n += 1
    put = [y for y in log if y.op in ("added", "started")]
    if put != [mk("added" if d in before else "started", d)]:
        return "the fragment is stored %s" % [(y.op, y.args) for y in put], n
    # the states kept
    for y in [I] + listed:
        n += 1
        if not holds(x["coders"], y):
            return "state %s is listed as complete (or is the initial one) and its decoder is gone" % show(y), n
        if minihash(m_at(x["coders"], y)) is not y:
            return "the decoder kept for state %s is in another" % show(y), n
    new = [end] if whole and end is T and end is not I else []
    n += 2
    for y in new:
        if y not in listed:
            return "a state reached as sent is not listed", n
    if any(y not in L + new for y in listed):
        return "a state the sender did not name is listed", n
    # what is older than a state the sender used may go
    keep = [] if whole and E is C and E is not I else L
    if whole and E in L:
        keep = L[len(L) - 1 - L[::-1].index(E):]
    n += len(keep)
    if any(y not in listed for y in keep):
        return "a state the sender may still refer to is forgotten", n
    if whole and E in L:
        young = L[L.index(E):] + new
        n += len(L)
        if any(y not in young for y in listed):
            return "a state older than the one the sender used stays listed", n
        if any(holds(x["coders"], y) for y in L if y not in young and y is not I):
            return "the decoder of a state older than the one the sender used is kept", n
    if new and listed[-1] is not new[0]:
        return "the latest state is not the last listed", n
    acks = [y for y in log if y.op == "acknowledged"]
    n += 4
    if len(acks) != 1 or log[-1] is not acks[0]:
        return "%d acknowledgements" % len(acks), n
    a = acks[0].args[0]
    if a.op != "ack":
        raise Unsupported("acknowledgement")
    if a.args[1] is not F or a.args[2] is not mk("in", "fragment number"):
        return "acknowledges frame %s, fragment %s" % (show(a.args[1]), show(a.args[2])), n
    if a.args[4] is not end:
        return "acknowledges state %s, the decoder is in %s" % (show(a.args[4]), show(end)), n
    if items(a.args[5]) != listed:
        return "the states acknowledged are not the ones held", n
    if acks[0].args[1] is not mk("in", "sender"):
        return "acknowledges to someone else", n
    return None, n


def family(run, name, f, U, vs, cases):
    bad, n, k = None, 0, 0
    for d, held, part, whole, some, seen in cases:
        s, x = receiver(f, U, vs, d, held, part, whole, some, seen)
        w, m = judge(s, x, d, held, whole, some, seen)
        n, k = n + m, k + 1
        if w:
            lab = ["initial", "current", "source", "target", "reached"] + ["saved%d" % i for i in range(len(part) - 5)]
            eqs = "; ".join("=".join(l for l, p in zip(lab, part) if p == v) for v in sorted(set(part)) if part.count(v) > 1)
            bad = "%s (datagram of the frame %+d from the one expected, fragments held of %s, frame complete: %s; states equal: %s)" % (w, d, sorted(held), bool(whole), eqs or "none")
            break
    run.count("scenarios", k)
    run.count("values_compared", n)
    if bad:
        run.bad(name, "%s:%s" % (f["file"], f["handler"].get("l", f["l"])), bad)
    else:
        run.ok(name, "%s:%s" % (f["file"], f["handler"].get("l", f["l"])), "", n)


def apart(n):
    return [(0, 5 + i) for i in range(n)]


# ---------------------------------------------------------------- sender
class Sender:
    def __init__(self, U, f, want):
        self.U = U
        hs = handlers(U, f, want)
        if len(hs) != 1:
            raise Unsupported("%d handlers that reach %s" % (len(hs), want))
        self.f = dict(f)
        self.f["handler"], caught = hs[0]
        self.vs = [v for v in variables(f) if v["id"] in caught]

    def var(self, pat, const=False):
        return one_of(self.vs, pat, const)

    def named(self, n):
        # a handler that does not mention a variable leaves it as it is
        xs = [v for v in self.vs if v["n"] == n] or [v for v in variables(self.f) if v["n"] == n]
        if len(xs) != 1:
            raise Unsupported("variable " + n)
        return ("ext", xs[0]["n"], xs[0]["id"])

    def start(self, budget=3000000):
        ev = Ev(self.U, gate=20)
        files = {self.f["file"]}
        containers(ev, self.U, files, ())
        stub(self.U, ev, files)
        self.calls = []
        self.methods = {}

        def ihook(ev, g, this, binds, e):
            h = self.methods.get(g["q"])
            if h is None:
                c = g.get("cls") or ""
                if c.startswith("Optional<"):
                    h = optional
            if h is None:
                return NotImplemented
            r = h(ev, g, this, [b[1] if isinstance(b, tuple) else ev.load(b) for b in binds])
            if r is not NotImplemented and g["ret"].rstrip().endswith("&") and r.op != "addr":
                r = ev.temp(r)
            return r

        def optional(ev, g, this, xs):
            n = g["q"].rsplit("::", 1)[-1]
            v = ev.load(this) if this is not None else None
            if n == "initialized":
                return K(int(v.op == "some"))
            if n == "get":
                if v.op != "some":
                    raise Unsupported("value that is not there")
                return v.args[0]
            if n == "get_or":
                return v.args[0] if v.op == "some" else xs[0]
            if n in ("reset", "initialize"):
                ev.store(this, mk("some", xs[0]))
                return mk("void")
            if n == "clear":
                ev.store(this, mk("none"))
                return mk("void")
            if n == "operator=":
                if xs[0].op not in ("some", "none"):
                    raise Unsupported("optional value")
                ev.store(this, xs[0])
                return this
            return NotImplemented
        ev.ihook = ihook
        return ev

    def time(self, ev, until, now_is_before):
        """comparisons of the clock with one moment"""
        ev.env[until] = mk("time", "until")

        def f(n):
            def h(ev, e):
                xs = ([ev.rv(e["obj"])] if e.get("obj") is not None else []) + [ev.rv(x) for x in e["a"]]
                if len(xs) != 2 or not any(x is mk("time", "until") for x in xs):
                    return NotImplemented
                first = xs[0] is mk("time", "until")
                less = n in ("<", "<=")
                return K(int(now_is_before != (first == less)))
            return h
        for n in ("<", "<=", ">", ">="):
            ev.hooks["std::chrono::operator" + n] = f(n)


def asked(S, c, ack, S_, R, I, busy, camera, mode, last_q=None):
    """a new picture: which states are kept and which encoder gets it"""
    ev = S.start()
    V = S.var
    enc, sent, rcv = V(r"unordered_map<.*Encoder"), S.named("encoder_states"), S.named("receiver_complete_states")
    ini, jobs = S.named("initial_state"), V(r"vector<EncodeJob")
    m0 = m_ins(mk("empty"), I, coder(I))
    for x in S_:
        m0 = m_ins(m0, x, coder(x))
    ev.env[enc], ev.env[sent], ev.env[rcv], ev.env[ini] = m0, dq(S_), dq(R), I
    ev.env[jobs] = dq((mk("made"),) if busy else ())
    acked, assumed, last = S.named("receiver_last_acked_state"), S.named("receiver_assumed_state"), S.named("last_raster")
    ev.env[acked] = mk("some", ack) if ack is not None else mk("none")
    ev.env[assumed] = mk("some", S_[-1]) if S_ else mk("none")
    ev.env[last] = mk("none")
    ev.env[S.named("operation_mode")] = K(mode)
    if last_q is not None:
        ev.env[S.named("last_quantizer")] = K(last_q)
    S.time(ev, S.named("conservative_until"), bool(c))
    S.methods["Camera::get_next_frame"] = lambda ev, g, this, xs: mk("some", mk("picture")) if camera else mk("none")
    S.methods["FileDescriptor::read"] = lambda ev, g, this, xs: mk("in", "pipe")
    S.methods["UnixDomainSocket::read"] = S.methods["FileDescriptor::read"]
    for x in walk(S.f["handler"]["body"]):
        if x["k"] == "ctor" and re.match(r"VP8RasterHandle<", str(x.get("q", ""))):
            ev.hooks[x["q"]] = lambda ev, e: ev.rv(e["a"][0]) if len(e.get("a", [])) == 1 else NotImplemented
        if x["k"] == "ctor" and str(x.get("q", "")) == "std::thread::thread":
            ev.hooks[x["q"]] = lambda ev, e: mk("obj", "thread")
    s = run_lambda(ev, S.f["handler"], S.f)
    return s, dict(enc=s.env[enc], sent=s.env[sent], jobs=s.env[jobs], acked=s.env[acked], assumed=s.env[assumed], last=s.env[last], rcv=s.env[rcv], until=s.env[S.named("conservative_until")])


def asked_case(S, c, ack, S_, R, I, busy, camera, mode):
    s, x = asked(S, c, ack, S_, R, I, busy, camera, mode)
    was = [I] + S_
    n = 4
    sent, jobs = items(x["sent"]), items(x["jobs"])
    if busy or not camera:
        if sent != S_ or len(jobs) != int(busy) or any(not holds(x["enc"], y) for y in was):
            return "something changes although %s" % ("a picture is being encoded" if busy else "there is no picture"), n
        if s.live is TRUE and s.retv is not None:
            r = s.retv if isk(s.retv) else field(s.retv, "result")
            if isk(r) and (r.args[0] == 0) != bool(camera):
                return "the camera's end does not end the program" if not camera else "the program ends", n
        return None, n
    keep = S_
    if ack is not None and ack is not I and ack in S_:
        keep = S_[min(S_.index(y) for y in [ack, S_[-1]] + R[-1:] if y in S_):]
    n += 2 + len(keep)
    if s.live is not TRUE:
        return "the sender stops: it refers to an encoder it dropped", n
    if sent != keep:
        return "states kept: %s instead of %s (acknowledged %s, assumed %s, complete %s)" % tuple([show(z) for z in y] for y in (sent, keep, [ack] if ack is not None else [], S_[-1:], R)), n
    for y in [I] + keep:
        if not holds(x["enc"], y) or minihash(m_at(x["enc"], y)) is not y:
            return "no encoder is kept for state %s" % show(y), n
    for y in S_:
        if y not in keep and y is not I and holds(x["enc"], y):
            return "the encoder of state %s, older than what the receiver acknowledged, is kept" % show(y), n
    lost = ack is not None and ack not in [I] + keep
    if c or lost:
        sel = R[-1] if R else I
    else:
        sel = S_[-1] if S_ else I
    n += 3 * len(jobs)
    if not jobs:
        return "no encoding is started", n
    for j in jobs:
        if j.op != "made" or len(j.args) != 6:
            raise Unsupported("job")
        if minihash(j.args[2]) is not sel:
            return "encodes from state %s instead of %s (%s)" % (show(minihash(j.args[2])), show(sel), "conservative" if c or lost else "assumed"), n
        if j.args[1] is not mk("picture"):
            return "encodes another picture", n
    if (x["until"] is mk("time", "until")) != (not lost or bool(c)):
        return "conservative mode is %s" % ("entered" if not lost else "not entered though the receiver is in an unknown state"), n
    if x["rcv"] is not dq(R) or x["assumed"] is not (mk("some", S_[-1]) if S_ else mk("none")):
        return "what is known of the receiver changes", n
    return None, n


def tried_case(S, mode, q):
    """the quantizers a picture is encoded with, given the one of the last frame sent"""
    v = [K(10 + y) for y in range(3)]
    s, x = asked(S, 0, v[2], v[1:], [v[1]], v[0], 0, 1, mode, q)
    qs = []
    for j in items(x["jobs"]):
        if j.op != "made" or len(j.args) != 6 or not isk(j.args[4]):
            raise Unsupported("job " + show(j.args[4] if len(j.args) == 6 else j)[:300])
        qs.append(j.args[4].args[0])
    n = 3
    if s.live is not TRUE or not qs:
        return "no encoding is started", n
    if min(qs) < 0 or max(qs) > 127:
        return "quantizers %s" % qs, n
    if not min(qs) <= q <= max(qs) or 32 <= q <= 96 and not min(qs) < q < max(qs):
        return "quantizers %s: none finer or none coarser" % qs, n
    if qs[-1] != max(qs):
        return "quantizers %s: the encoding sent as a last resort is not the coarsest" % qs, n
    return None, n


def sender_family(run, name, S, case, cases, lab):
    bad, n, k = None, 0, 0
    for c in cases:
        w, m = case(S, *c)
        n, k = n + m, k + 1
        if w:
            bad = "%s (%s)" % (w, lab(*c))
            break
    run.count("scenarios", k)
    run.count("values_compared", n)
    where = "%s:%s" % (S.f["file"], S.f["handler"].get("l", S.f["l"]))
    if bad:
        run.bad(name, where, bad)
    else:
        run.ok(name, where, "", n)


def ks(xs):
    return [show(x) for x in xs]


def asked_all(run, f, U):
    S = Sender(U, f, "Camera::get_next_frame")
    cases = {}
    for ns in range(4):
        for nr in range(3):
            # initial, acknowledged, sent..., complete...
            for p in partitions(2 + ns + nr, [(0, 2 + i) for i in range(ns)] + [(0, 2 + ns + i) for i in range(nr)]):
                v = [K(10 + y) for y in p]
                I, ack, S_, R = v[0], v[1], v[2:2 + ns], v[2 + ns:]
                if any(r not in S_ for r in R) or not ns:
                    continue
                for c in (0, 1):
                    cases.setdefault("pictures with %d states sent" % ns, []).append((c, ack, S_, R, I, 0, 1, 1))
            for c in (0, 1):
                v = [K(10 + y) for y in range(1 + ns)]
                cases.setdefault("pictures before any acknowledgement", []).append((c, None, v[1:], [], v[0], 0, 1, 1))
    # four states sent, of which one may recur
    for i in range(4):
        for j in range(i + 1, 4):
            y = [1, 2, 3, 4]
            y[j] = y[i]
            S_ = [K(10 + z) for z in y]
            for ack in [K(10), K(20)] + S_[:i] + S_[i:]:
                for R in [[]] + [[z] for z in S_]:
                    for c in (0, 1):
                        cases.setdefault("pictures with 4 states sent, one again", []).append((c, ack, S_, R, K(10), 0, 1, 1))
    v = [K(10 + y) for y in range(4)]
    for c in (0, 1):
        for mode in (0, 2):
            cases.setdefault("pictures in the other modes", []).append((c, v[2], v[1:], [v[1]], v[0], 0, 1, mode))
        for busy, cam in ((1, 1), (0, 0), (1, 0)):
            if not (busy and not cam):
                cases.setdefault("pictures that cannot be encoded now", []).append((c, v[2], v[1:], [v[2]], v[0], busy, cam, 1))
    run.attempt("quantizers tried", sender_family, run, "quantizers tried", S, tried_case, [(m, q) for m in (0, 1) for q in (3, 4, 19, 20, 21, 32, 64, 96, 103, 104, 105, 126, 127)], lambda m, q: "last frame sent with %d" % q)
    lab = lambda c, ack, S_, R, I, b, cam, mode: "initial %s, acknowledged %s, sent %s, complete at the receiver %s%s" % (show(I), show(ack) if ack is not None else "none", ks(S_), ks(R), ", conservative" if c else "")
    for name, xs in cases.items():
        for i in range(0, len(xs), 300):
            nm = name if len(xs) <= 300 else "%s (%d)" % (name, i // 300 + 1)
            run.attempt(nm, sender_family, run, nm, S, asked_case, xs[i:i + 300], lab)


BIG32, BIG64 = 2 ** 32 - 1, 2 ** 64 - 1


def finished(S, outs, avg, acked, cum, skipped, mode, taken):
    """the encodings are done. outs: (valid, bytes) of each; taken: hashes already sent"""
    ev = S.start()
    V = S.var
    ev.env[V(r"vector<EncodeJob")] = dq((mk("made"),))
    ev.env[V(r"vector<std::future<|vector<future<")] = dq([mk("future", i) for i in range(len(outs))])
    enc, sent, assumed = V(r"unordered_map<.*Encoder"), S.named("encoder_states"), S.named("receiver_assumed_state")
    I = K(10)
    m0 = m_ins(mk("empty"), I, coder(I))
    for x in taken:
        m0 = m_ins(m0, K(x), coder(K(x)))
    ev.env[enc], ev.env[sent] = m0, dq([K(x) for x in taken])
    ev.env[assumed] = mk("some", K(taken[-1])) if taken else mk("none")
    cumv, no, skip = S.named("cumulative_fpf"), S.named("frame_no"), S.named("skipped_count")
    ev.env[cumv], ev.env[no], ev.env[skip] = dq([K(x) for x in cum]), K(len(cum)), K(skipped)
    ev.env[S.named("avg_delay")], ev.env[S.named("last_acked")] = K(avg), K(acked)
    ev.env[S.named("operation_mode")] = K(mode)
    ev.env[S.named("connection_id")] = mk("in", "connection")
    ev.env[S.named("pacer")] = dq(())
    lastq = [v for v in variables(S.f) if v["n"] == "last_quantizer"]
    if len(lastq) == 1:
        ev.env[S.named("last_quantizer")] = K(64)
    ev.env[("log",)] = dq(())
    log = ev.addr(("log",))

    def note(*a):
        v = ev.load(log)
        ev.store(log, liftn(lambda x: dq(x.args[0] + (mk(*a),)), [v]))
        return mk("void")
    out = lambda i: mk_rec(mk("obj", "EncodeOutput"), {"encoder": coder(K(200 + i)), "frame": mk("bytes", i, outs[i][1]), "source_minihash": K(100 + i), "encode_time": mk("in", "time"), "job_name": mk("str", "fail-small" if i == len(outs) - 1 else "improve"), "y_ac_qi": K(30 + i)})
    m = S.methods
    m["Encoder::minihash"] = lambda ev, g, this, xs: minihash(ev.load(this))
    m["FileDescriptor::read"] = lambda ev, g, this, xs: mk("in", "pipe")
    m["FileDescriptor::write"] = lambda ev, g, this, xs: (note("next"), mk("in", "written"))[1]
    m["AverageEncodingTime::add"] = lambda ev, g, this, xs: mk("void")
    m["FragmentedFrame::packets"] = lambda ev, g, this, xs: dq([mk("packet", ev.load(this), i) for i in range(3)])
    m["FragmentedFrame::fragments_in_this_frame"] = lambda ev, g, this, xs: K(3)
    m["Packet::to_string"] = lambda ev, g, this, xs: mk("wire", ev.load(this))
    m["Pacer::push"] = lambda ev, g, this, xs: note("pushed", xs[0])
    m["UDPSocket::send"] = lambda ev, g, this, xs: note("pushed", xs[0])
    m["procinfo::memory_usage"] = lambda ev, g, this, xs: mk("in", "memory")
    last = []

    def kept(ev, e):
        v = ev.rv(e["a"][0])
        last.append(v)
        return mk("obj", "finally")
    ev.hooks["finally"] = kept
    for g in S.U.fns.values():
        if g["file"] == S.f["file"]:
            for x in walk([g.get("body"), g.get("inits")]):
                q, cls = str(x.get("q", "")), str(x.get("cls", ""))
                if x["k"] == "call" and re.match(r"std::(__basic_|shared_)?future<", cls):
                    n = q.rsplit("::", 1)[-1]

                    def fut(ev, e, n=n):
                        v = ev.load(ev.lvl(e["obj"]))
                        if v.op != "future":
                            return NotImplemented
                        if n == "valid":
                            return K(outs[v.args[0]][0])
                        if n == "get":
                            return out(v.args[0])
                        return mk("void")
                    ev.hooks[q] = fut
                if x["k"] == "call" and re.match(r"std::vector<unsigned char", cls) and q.endswith("::size"):
                    def size(ev, e):
                        v = ev.load(ev.lvl(e["obj"]))
                        return K(v.args[1]) if v.op == "bytes" else NotImplemented
                    ev.hooks[q] = size
    ev.hooks["FragmentedFrame::FragmentedFrame"] = lambda ev, e: mk("ff", *[ev.rv(z) for z in e["a"]]) if len(e["a"]) == 6 else NotImplemented
    ev.hooks["EncodeOutput::EncodeOutput"] = lambda ev, e: ev.rv(e["a"][0]) if len(e["a"]) == 1 else NotImplemented
    s = run_lambda(ev, S.f["handler"], S.f)
    if len(last) > 1:
        raise Unsupported("final actions")
    if last:
        ev.live = s.live
        ev.calllam(last[0], {"a": [], "k": "call"})
    g = lambda r: ev.env[r]
    for r in (enc, sent, assumed, cumv, no, skip, ("log",)):
        if g(r).op == "br":
            raise Unsupported("the outcome depends on more than the scenario: " + show(g(r))[:300])
    return s, dict(enc=g(enc), sent=g(sent), assumed=g(assumed), cum=g(cumv), no=g(no), skip=g(skip), log=g(("log",)), jobs=g(V(r"vector<EncodeJob")), I=I, lastq=g(S.named("last_quantizer")) if len(lastq) == 1 else None)


def finished_case(S, outs, avg, acked, cum, skipped, mode, taken):
    s, x = finished(S, outs, avg, acked, cum, skipped, mode, taken)
    n = 3
    if s.live is not TRUE:
        return "the sender stops", 1
    log = items(x["log"])
    if [y.op for y in log].count("next") != 1 or items(x["jobs"]):
        return "the next picture is not asked for once, with no encoding left over", n
    good = [i for i, o in enumerate(outs) if o[0]]
    cap = BIG64
    if avg != BIG32:
        cap = 1400 * max(0, 100000 // max(avg, 1) - (cum[-1] - acked))
    fit = [i for i in good if outs[i][1] <= cap]
    if mode == 2:
        choice = good[:1]
    elif fit:
        choice = [i for i in fit if outs[i][1] == max(outs[j][1] for j in fit)]
    elif good and skipped >= 3 and good[-1] == len(outs) - 1:
        choice = [good[-1]]
    else:
        choice = []
    pushed = [y.args[0] for y in log if y.op == "pushed"]
    n += 6
    if not pushed:
        if choice:
            return "nothing is sent, though an encoding of %d bytes fits in %d" % (outs[choice[0]][1], cap), n
        same = items(x["cum"]) == [K(y) for y in cum] and x["no"] is K(len(cum)) and items(x["sent"]) == [K(y) for y in taken] and x["assumed"] is (mk("some", K(taken[-1])) if taken else mk("none"))
        if not same or any(not holds(x["enc"], K(y)) for y in [10] + list(taken)):
            return "a picture that is not sent changes what the receiver is assumed to have", n
        if x["lastq"] is not None and isk(x["lastq"]) and x["lastq"] is not K(64):
            return "the quantizer of a picture that is not sent is recorded", n
        if good and x["skip"] is not K(skipped + 1):
            return "a skipped picture is not counted", n
        return None, n
    if any(y.op != "wire" or y.args[0].op != "packet" for y in pushed):
        raise Unsupported("packets sent")
    ff = pushed[0].args[0].args[0]
    if pushed != [mk("wire", mk("packet", ff, i)) for i in range(3)] or ff.op != "ff":
        return "the fragments are not sent once each, in order", n
    conn, src, dst, no, _, frame = ff.args
    if frame.op != "bytes":
        raise Unsupported("frame sent")
    i = frame.args[0]
    n += 12
    if i not in choice:
        return "sends %d bytes; capacity %d, encodings %s" % (outs[i][1], cap, [o[1] for o in outs]), n
    if src is not K(100 + i) or dst is not K(200 + i):
        return "frame of encoding %d is announced as leading from state %s to %s, it leads from %s to %s" % (i, show(src), show(dst), 100 + i, 200 + i), n
    if no is not K(len(cum)) or conn is not mk("in", "connection"):
        return "frame number %s instead of %d" % (show(no), len(cum)), n
    if x["no"] is not K(len(cum) + 1):
        return "the next frame number is %s after %d" % (show(x["no"]), len(cum)), n
    if items(x["cum"]) != [K(y) for y in cum] + [K((cum[-1] if cum else 0) + 3)]:
        return "fragments sent so far", n
    if x["assumed"] is not K(200 + i) and x["assumed"] is not mk("some", K(200 + i)):
        return "the receiver is assumed to reach %s, the frame leads to %d" % (show(x["assumed"]), 200 + i), n
    if items(x["sent"]) != [K(y) for y in taken] + [K(200 + i)]:
        return "states sent: %s" % ks(items(x["sent"])), n
    for y in [10, 200 + i] + list(taken):
        if not holds(x["enc"], K(y)) or minihash(m_at(x["enc"], K(y))) is not K(y):
            return "no encoder is kept for state %d" % y, n
    if x["lastq"] is not None and isk(x["lastq"]) and x["lastq"] is not K(30 + i):
        return "the last quantizer used is recorded as %s, not %d" % (show(x["lastq"]), 30 + i), n
    if x["skip"] is not K(0):
        return "skipped pictures in a row are not counted from here", n
    return None, n


def finished_all(run, f, U):
    S = Sender(U, f, "FragmentedFrame::FragmentedFrame")
    lab = lambda outs, avg, acked, cum, skipped, mode, taken: "bytes of the encodings %s, delay %s us, %s fragments sent, acknowledged %s, skipped %d, states sent %s" % ([o[1] if o[0] else "failed" for o in outs], avg if avg != BIG32 else "unknown", cum[-1] if cum else 0, acked if acked != BIG64 else "none", skipped, list(taken))
    cases = []
    for outs in ([(1, 5000), (1, 900)], [(1, 900), (1, 5000)], [(0, 5000), (1, 900)], [(1, 5000), (0, 900)], [(0, 1), (0, 1)], [(1, 20000), (1, 15000)], [(1, 1400), (1, 1399)], [(1, 2801), (1, 2800)]):
        for avg, acked, cum in ((BIG32, BIG64, []), (BIG32, BIG64, [4]), (10000, 6, [3, 8]), (25000, 7, [3, 7]), (25000, 5, [3, 7]), (30000, 2, [3, 9]), (0, 7, [7]), (200000, 7, [7])):
            for skipped in (0, 2, 3):
                for mode in (0, 1, 2):
                    if mode == 2 and not outs[0][0]:
                        continue
                    taken = [20 + i for i in range(len(cum))]
                    if len(cum) == 2 and skipped == 2:
                        taken = [20, 201]
                    cases.append((outs, avg, acked, cum, skipped, mode, taken))
    run.attempt("encodings finished", sender_family, run, "encodings finished", S, finished_case, cases, lab)


def heard(S, foreign, frame, frag, acked, cum, listed):
    """an acknowledgement arrives"""
    ev = S.start()
    V = S.var
    st, lst, la, avg = S.named("receiver_last_acked_state"), S.named("receiver_complete_states"), S.named("last_acked"), S.named("avg_delay")
    ev.env[st], ev.env[lst] = mk("some", K(50)), dq([K(51)])
    ev.env[la], ev.env[avg] = K(acked), K(777)
    ev.env[S.named("cumulative_fpf")] = dq([K(x) for x in cum])
    for n, v in (("connection_id", K(9)), ("frame_no", K(len(cum)))):
        try:
            ev.env[S.named(n)] = v
        except Unsupported:
            pass
    lst1 = [K(61 + i) for i in range(listed)]
    ack = {"connection_id": K(8 if foreign else 9), "frame_no": K(frame), "fragment_no": K(frag), "avg_delay": K(888), "current_state": K(60), "complete_states": dq(lst1)}
    for n, v in ack.items():
        S.methods["AckPacket::" + n] = lambda ev, g, this, xs, v=v: v
    S.methods["UDPSocket::recv"] = lambda ev, g, this, xs: mk_rec(mk("obj", "datagram"), {"payload": mk("in", "payload"), "source_address": mk("in", "sender"), "timestamp_us": mk("in", "time")})
    for n in ("AckPacket::AckPacket", "Chunk::Chunk", "UDPSocket::received_datagram::received_datagram"):
        ev.hooks[n] = lambda ev, e: ev.rv(e["a"][0]) if len(e["a"]) == 1 else NotImplemented
    s = run_lambda(ev, S.f["handler"], S.f)
    return s, [ev.env[r] for r in (st, lst, la, avg)], [mk("some", K(50)), dq([K(51)]), K(acked), K(777)]


def heard_case(S, foreign, frame, frag, acked, cum, listed):
    s, now, was = heard(S, foreign, frame, frag, acked, cum, listed)
    if s.live is not TRUE:
        return "the sender stops", 1
    if any(subterms_have(v, "undef") for v in now):
        return "fragments sent before frame %d are looked up, %d frames were sent" % (frame, len(cum)), 4
    if frame >= len(cum):
        # never sent: nothing to learn from it
        return (None if now == was else "an acknowledgement of a frame never sent is believed"), 4
    seq = (cum[frame - 1] if frame else 0) + frag
    old = acked != BIG64 and seq < acked
    if foreign or old:
        return (None if now == was else "an acknowledgement %s is believed" % ("of another connection" if foreign else "older than the last")), 4
    for what, v, w in zip(("the state acknowledged", "the states held by the receiver", "the last fragment acknowledged", "the delay"), now, [mk("some", K(60)), dq([K(61 + i) for i in range(listed)]), K(seq), K(888)]):
        if v is not w and not (what == "the state acknowledged" and v is K(60)):
            return "%s is recorded as %s, not %s" % (what, show(v)[:80], show(w)), 4
    return None, 4


def subterms_have(v, op):
    return any(x.op == op for x in subterms(v))


def heard_all(run, f, U):
    S = Sender(U, f, "UDPSocket::recv")
    cases = [(foreign, fr, g, a, c, n) for n in (2, 0, 1) for foreign in (0, 1) for c in ([], [4], [4, 9, 10]) for fr in range(0, len(c) + 3) for g in (0, 2) for a in (BIG64, 0, 3, 5, 11)]
    run.attempt("acknowledgements", sender_family, run, "acknowledgements", S, heard_case, cases,
                lambda foreign, fr, g, a, c, n: "frame %d, fragment %d; fragments sent up to each frame %s; last acknowledged %s" % (fr, g, c, a if a != BIG64 else "none"))


def leaving(S, due, waiting, interest):
    """the socket takes packets; the first `due` of the queued packets are due"""
    ev = S.start()
    sent, left = [], [mk("packet", i) for i in range(due + waiting)]
    total = len(left)

    def first(ev, g, this, xs):
        if not left:
            ev.live = FALSE
            return mk("dead")
        return left[0]

    def pop(ev, g, this, xs):
        if not left:
            ev.live = FALSE
            return mk("dead")
        left.pop(0)
        return mk("void")
    m = S.methods
    m["Pacer::ms_until_due"] = lambda ev, g, this, xs: K(1000) if not left else K(0 if total - len(left) < due else 5)
    m["Pacer::empty"] = lambda ev, g, this, xs: K(int(not left))
    m["Pacer::size"] = lambda ev, g, this, xs: K(len(left))
    m["Pacer::front"], m["Pacer::pop"] = first, pop

    def send(ev, g, this, xs):
        sent.append(xs[0])
        return mk("void")
    m["UDPSocket::send"] = send
    s = run_lambda(ev, interest or S.f["handler"], S.f)
    return s, sent, left


def leaving_case(S, due, waiting):
    n = 3
    if S.interest is not None:
        s, sent, left = leaving(S, due, waiting, S.interest)
        c = c_not(eq(s.retv, K(0)))
        if s.live is not TRUE or c not in (TRUE, FALSE) or sent or len(left) != due + waiting:
            raise Unsupported("test for packets that are due")
        if (c is TRUE) != (due > 0):
            return "%s" % ("writing is waited for without a packet due" if due == 0 else "writing is not waited for although a packet is due"), n
    if due == 0:
        return None, n      # not called then
    s, sent, left = leaving(S, due, waiting, None)
    if s.live is not TRUE:
        return "the sender stops", n
    want = [mk("packet", i) for i in range(due)]
    if not sent:
        return "nothing is sent although a packet is due", n
    if sent != [mk("packet", i) for i in range(len(sent))] or len(sent) > due:
        return "packets %s are sent, the first %d are due" % ([x.args[0] if x.op == "packet" else "?" for x in sent], due), n
    if left != [mk("packet", i) for i in range(len(sent), due + waiting)]:
        return "%d packets are sent, %d are left" % (len(sent), len(left)), n
    return None, n


def leaving_all(run, f, U):
    S = Sender(U, f, "Pacer::pop")
    S.interest = None
    for n in walk(f["body"]):
        if n["k"] == "ctor" and n.get("q") == "Poller::Action::Action" and len(n.get("a", [])) == 4:
            if any(y["k"] == "lambda" and any(g is S.f["handler"] for g in y["fs"]) for y in walk(n["a"][2])):
                fs = [g for y in walk(n["a"][3]) if y["k"] == "lambda" for g in y["fs"]]
                S.interest = fs[0] if len(fs) == 1 else None
    cases = [(d, w) for d in range(4) for w in range(3)]
    run.attempt("packets leaving", sender_family, run, "packets leaving", S, leaving_case, cases, lambda d, w: "%d packets due, %d waiting" % (d, w))


def encoded(run, name, f, U):
    """one encoding: from which state, of which picture, how, and what is handed back"""
    out, n = [], 0
    for mode in (0, 1, 2):
        ev = Ev(U, gate=20)
        said = []
        job = {"name": mk("str", "a"), "raster": mk("in", "picture"), "encoder": coder(K(1)), "mode": None, "y_ac_qi": atom("in", "quantizer", lo=0, hi=127), "target_size": mk("in", "target size")}
        modes = {k.rsplit("::", 1)[-1]: v for k, v in enumerators(U).items() if k.rsplit("::", 1)[-1] in ("CONSTANT_QUANTIZER", "TARGET_FRAME_SIZE")}
        if len(modes) != 2:
            raise Unsupported("encoding modes")
        want = "encode_with_quantizer" if mode == 0 else "encode_with_target_size"
        job["mode"] = K(modes["CONSTANT_QUANTIZER"] if mode == 0 else modes["TARGET_FRAME_SIZE"] if mode == 1 else 77)

        def ihook(ev, g, this, binds, e):
            q = g["q"]
            if q == "Encoder::minihash":
                return minihash(ev.load(this))
            if q.startswith("Encoder::encode_with"):
                said.append((ev.guard(), q.rsplit("::", 1)[-1], ev.load(this), [b[1] if isinstance(b, tuple) else ev.load(b) for b in binds]))
                ev.store(this, coder(K(2)))
                return mk("in", "frame")
            if "RasterHandle" in (g.get("cls") or "") and q.endswith("::get"):
                return ev.temp(ev.load(this))
            return NotImplemented
        ev.ihook = ihook
        ev.hooks["EncodeOutput::EncodeOutput"] = lambda ev, e: mk("output", *[ev.rv(x) for x in e["a"]]) if len(e["a"]) == 6 else NotImplemented
        root = ("arg", 0)
        ev.env[root] = mk_rec(mk("obj", "EncodeJob"), job)
        s = summarize(ev, f)
        n += 4
        if mode == 2:
            if s.live is not FALSE:
                out.append(("an unknown mode is encoded", K(0), K(1), {}))
            continue
        if len(said) != 1 or said[0][1] != want or said[0][2] is not coder(K(1)) or said[0][3][0] is not mk("in", "picture"):
            out.append(("encoding started", mk("str", str([x[1] for x in said])), mk("str", want), {}))
            continue
        n += leafcmp(said[0][3][1], job["y_ac_qi"] if mode == 0 else job["target_size"], "what is asked of the encoder", TRUE, out)
        r = s.retv
        if r.op == "rec" and r.args[0].op == "output":
            r = r.args[0]
        if r.op != "output":
            raise Unsupported("result of an encoding")
        if minihash(r.args[0]) is not K(2):
            out.append(("state of the encoder handed back", minihash(r.args[0]), K(2), {}))
        if r.args[1] is not mk("in", "frame"):
            out.append(("frame handed back", r.args[1], mk("in", "frame"), {}))
        n += leafcmp(r.args[2], K(1), "state it was encoded from", TRUE, out)
        if mode == 0:
            n += leafcmp(r.args[5], job["y_ac_qi"], "quantizer reported", TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def enumerators(U):
    out = {}
    for e in U.enums.values():
        for n, v in e["c"]:
            out[n] = v
    return out


def check(run):
    receiver_check(run)


def check_sender(run):
    U, f = program(run.prog, "src/salsify/salsify-sender.cc")
    for what, part in (("pictures", asked_all), ("encodings", finished_all), ("acknowledgements from the receiver", heard_all), ("packets leaving", leaving_all)):
        try:
            part(run, f, U)
        except Unsupported as e:
            run.undecided(what, f["file"], str(e))
    for g in U.fns.values():
        if g["file"] == f["file"] and g.get("body") is not None and g["kind"] == "fn" and "EncodeOutput" in g["ret"] and any(strip(p["t"]).endswith("EncodeJob") for p in g["ps"]):
            run.attempt("one encoding", encoded, run, "one encoding", g, U)
    run.floor("scenarios", 400)


def receiver_check(run):
    P = run.prog
    U, f = program(P, "src/salsify/salsify-receiver.cc")
    hs = handlers(U, f, "UDPSocket::recv")
    if len(hs) != 1:
        raise Unsupported("%d handlers of datagrams" % len(hs))
    f = dict(f)
    f["handler"], caught = hs[0]
    vs = [v for v in variables(f) if v["id"] in caught]
    few = [(0, 1, 2, 3, 4, 5), (0, 1, 1, 2, 2, 1), (0, 0, 0, 1, 1, 2)]
    sets = lambda d: [tuple(o for o in range(0, d + 2) if b >> o & 1) for b in range(1 << (d + 2))]
    old = [(d, h, p, w, 1, 1) for d in (-1, -3) for h in ((), (0,)) for p in few for w in (0, 1)]
    jobs = [("datagrams of earlier frames", old)]
    for d in (0, 1, 2):
        jobs.append(("fragments that do not complete a frame, %d ahead" % d, [(d, h, p, 0, b, v) for h in sets(d) for p in few for b, v in ((1, 1), (1, 0), (0, 1))]))
        jobs.append(("frame completed, %d ahead" % d, [(d, h, p, 1, b, v) for h in sets(d) for p in few for b, v in ((1, 1), (1, 0), (0, 1))]))
    for n in range(4):
        ps = list(partitions(5 + n, apart(n)))
        step = 250
        for i in range(0, len(ps), step):
            jobs.append(("states when a frame is completed, %d saved%s" % (n, " (%d)" % (i // step + 1) if len(ps) > step else ""), [(0, (0,), p, 1, 1, 1) for p in ps[i:i + step]]))
    for name, cases in jobs:
        run.attempt(name, family, run, name, f, U, vs, cases)
    run.floor("scenarios", 500)
