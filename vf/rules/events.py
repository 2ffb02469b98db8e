"""The event loop, the pacer and datagram sockets: one round of the loop over any set of registered actions, any
readiness and any outcome of the callbacks; pacing over queues of any times; datagrams of any size."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.encframe import tail
from rules.lints import walk
from rules.state import verdict, tobv
from rules import lints

IN, OUT_ = 1, 4
CONTINUE, EXIT, CANCEL = 0, 1, 2
T = "src/net/poller"
FLAG = lambda name: b2v(c_not(eq(atom("in", name, lo=0, hi=3), K(0))))
yes = lambda v: c_not(eq(v, K(0)))


def vec(n, xs):
    return mk_rec(mk("obj", "vec"), {"#n": K(n), "#d": mk_arr(mk("obj", "arr"), dict(enumerate(xs)), ())})


def fnobjects(ev, P, files, table):
    """calls of std::function objects that stand for parts given by the user"""
    def h(ev, e):
        o = ev.load(ev.lvl(e["obj"]))
        if o.op in table:
            return table[o.op](ev, o.args[0])
        return NotImplemented
    for f in P.fns.values():
        if f["file"] not in files:
            continue
        for x in walk([f.get("body"), f.get("inits")]):
            q = str(x.get("q", ""))
            if x["k"] == "call" and q.endswith("operator()") and "std::function" in str(x.get("cls", "")):
                ev.hooks[q] = h


class Round:
    """one call of Poller::poll; dirs: direction of each action, fds: descriptor each belongs to"""

    def __init__(self, run, dirs, fds):
        self.run, self.dirs, self.fds = run, dirs, fds
        self.n = n = len(dirs)
        P = run.prog
        self.ev = ev = Ev(P, gate=30)
        self.calls, self.polled = [], []
        self.active = [FLAG("action %d active" % i) for i in range(n)]
        self.inter = [FLAG("action %d interested" % i) for i in range(n)]
        self.eof = [FLAG("descriptor %d at end" % j) for j in range(max(fds, default=-1) + 1)]
        self.err = [FLAG("descriptor of action %d in error" % i) for i in range(n)]
        self.hup = [FLAG("descriptor of action %d hung up" % i) for i in range(n)]
        self.bad = [FLAG("descriptor of action %d closed" % i) for i in range(n)]
        self.rdy = [FLAG("action %d ready" % i) for i in range(n)]
        self.res = [atom("in", "outcome %d" % i, lo=0, hi=2) for i in range(n)]
        self.status = [atom("in", "status %d" % i, lo=0, hi=255) for i in range(n)]
        self.served = [FLAG("callback %d serves" % i) for i in range(n)]
        self.other = [FLAG("callback %d uses the other direction" % i) for i in range(n)]
        self.ret = atom("in", "poll returns", lo=-1, hi=max(n, 1))
        fd = []
        for j in range(len(self.eof)):
            r = ("fd", j)
            ev.env[r] = mk_rec(mk("obj", "FileDescriptor"), {"fd_": K(10 + j), "eof_": self.eof[j], "read_count_": K(7), "write_count_": K(7)})
            fd.append(ev.addr(r))
        acts = [mk_rec(mk("obj", "Poller::Action"), {"fd": fd[fds[i]], "direction": K(dirs[i]), "callback": mk("callback", i), "when_interested": mk("interest", i), "active": self.active[i]}) for i in range(n)]
        pfd = [mk_rec(mk("obj", "pollfd"), {"fd": K(10 + fds[i]), "events": atom("in", "stale events %d" % i, lo=0, hi=7), "revents": atom("in", "stale revents %d" % i, lo=0, hi=63)}) for i in range(n)]
        ev.env[("this",)] = mk_rec(mk("obj", "Poller"), {"actions_": vec(n, acts), "pollfds_": vec(n, pfd)})
        ev.env[("timeout",)] = self.timeout = atom("in", "timeout", lo=-1, hi=2 ** 31 - 1)
        ev.hooks["poll"] = ev.hooks["::poll"] = self.poll
        fnobjects(ev, P, FILES, {"callback": self.callback, "interest": lambda ev, i: self.inter[i]})
        for q in ("std::accumulate", "std::any_of", "std::all_of", "std::none_of"):
            ev.hooks[q] = self.algorithm

    def at(self, ev, i, f):
        a = ev.addr(("this",), (("f", "pollfds_"), ("f", "#d"), ("i", K(i)), ("f", f)))
        return a

    def algorithm(self, ev, e):
        q, a = tail(e["q"]), e["a"]
        b, c = ev.rv(a[0]), ev.rv(a[1])
        lam = ev.rv(a[3] if q == "accumulate" else a[2])
        if b.op != "addr" or lam.op != "lam" or q == "accumulate" and len(a) != 4:
            return NotImplemented
        base, off = ev.split(b)
        n = sub(ev.split(c)[1], off)
        if n.op != "k" or off is not K(0):
            raise Unsupported("range of " + q)
        acc = ev.rv(a[2]) if q == "accumulate" else FALSE if q == "any_of" else TRUE
        node, fr, caps = ev.lams[lam.args[0]]
        f = dict([x for x in node["fs"]][0])
        f.setdefault("file", fr.fn["file"])
        for i in range(n.args[0]):
            x = ev.padd(b, K(i))
            arg = lambda p, v, ad: (ad if p.get("ref") else ("v", v))
            ps = f["ps"]
            xs = []
            if q == "accumulate":
                xs.append(ev.temp(acc) if ps[0].get("ref") else ("v", acc))
            xs.append(x if ps[-1].get("ref") else ("v", ev.load(x)))
            r = ev.invoke(f, fr.this, None, e, addrs=xs, parent=fr, caps=caps)
            if q == "accumulate":
                acc = r
            else:
                acc = c_or(acc, yes(r)) if q == "any_of" else c_and(acc, yes(r) if q == "all_of" else c_not(yes(r)))
        return acc if q == "accumulate" else b2v(acc)

    def want(self, i):
        c = c_and(yes(self.active[i]), yes(self.inter[i]))
        if self.dirs[i] == IN:
            c = c_and(c, c_not(yes(self.eof[self.fds[i]])))
        return c

    def poll(self, ev, e):
        p, n, t = [ev.rv(x) for x in e["a"]]
        events = [ev.load(self.at(ev, i, "events"), "short") for i in range(self.n)]
        self.polled.append((ev.guard(), p, n, t, events))
        if len(self.polled) > 1:
            raise Unsupported("several calls of poll")
        got = c_and(ge(self.ret, K(1)), TRUE)
        for i in range(self.n):
            r = mk_or(ite(yes(self.err[i]), K(8), K(0)), ite(yes(self.hup[i]), K(16), K(0)), ite(yes(self.bad[i]), K(32), K(0)), ite(yes(self.rdy[i]), events[i], K(0)))
            ev.store(self.at(ev, i, "revents"), ite(got, r, K(0)))
        return self.ret

    def callback(self, ev, i):
        self.calls.append((ev.guard(), i))
        r = ("fd", self.fds[i])
        for f, c in (("read_count_", self.served if self.dirs[i] == IN else self.other), ("write_count_", self.other if self.dirs[i] == IN else self.served)):
            a = ev.addr(r, (("f", f),))
            ev.store(a, add(ev.load(a), c[i]))
        return mk_rec(mk("obj", "Poller::Action::Result"), {"result": self.res[i], "exit_status": self.status[i]})


def mk_or(*xs):
    v = K(0)
    for x in xs:
        v = lift2("evor", lambda a, b: K(a.args[0] | b.args[0]) if a.op == b.op == "k" else unsup(a, b), v, x)
    return v


def unsup(a, b):
    raise Unsupported("bits of an unknown event: %s %s" % (show(a)[:80], show(b)[:80]))


FILES = {"src/net/poller.cc", "src/net/poller.hh", "src/net/pacer.hh", "src/net/socket.cc", "src/net/socket.hh", "src/util/file_descriptor.hh", "src/util/exception.hh"}


def one_round(run, name, f, dirs, fds):
    t = Round(run, dirs, fds)
    ev = t.ev
    s = summarize(ev, f, arg_roots=[("timeout",)]) if f["ps"][0].get("ref") else None
    if s is None:
        ev.env[("argv", 0)] = t.timeout
        s = summarize(ev, f)
    out, n = [], 0
    any_ = FALSE
    for i in range(t.n):
        any_ = c_or(any_, t.want(i))
    # what is waited for
    if len(t.polled) > 1:
        raise Unsupported("several calls of poll")
    if t.polled:
        g, p, cnt, to, events = t.polled[0]
        n += leafcmp(b2v(g), b2v(any_), "waiting for events", TRUE, out)
        n += leafcmp(cnt, K(t.n), "descriptors waited for", g, out)
        n += leafcmp(to, t.timeout, "time waited", g, out)
        n += leafcmp(p, ev.addr(("this",), (("f", "pollfds_"), ("f", "#d"), ("i", K(0)))), "list of descriptors", g, out)
        for i in range(t.n):
            n += leafcmp(events[i], ite(t.want(i), K(dirs[i]), K(0)), "events action %d waits for" % i, g, out)
    elif any_ is not FALSE:
        out.append(("waiting for events", K(0), K(1), {}))
    # the actions
    fail = c_and(any_, lt(t.ret, K(0)))
    time = c_and(any_, eq(t.ret, K(0)))
    live = c_and(any_, ge(t.ret, K(1)))
    ends, status, threw = c_not(any_), K(0), fail
    end_at = [(c_not(any_), EXIT_R, K(0)), (time, TIMEOUT_R, K(0))]
    order = [i for g, i in t.calls if g is not FALSE]
    if order != sorted(set(order)):
        out.append(("order of the callbacks run", mk("in", repr(order)), mk("in", repr(sorted(set(order)))), {}))
    for i in range(t.n):
        e = c_or(yes(t.err[i]), c_or(yes(t.hup[i]), yes(t.bad[i])))
        end_at.append((c_and(live, e), EXIT_R, K(1)))
        live = c_and(live, c_not(e))
        call = c_and(live, c_and(t.want(i), yes(t.rdy[i])))
        got = [g for g, j in t.calls if j == i]
        n += leafcmp(b2v(got[0]) if got else K(0), b2v(call), "callback %d run" % i, TRUE, out)
        x = c_and(call, eq(t.res[i], K(EXIT)))
        end_at.append((x, EXIT_R, t.status[i]))
        cancel = c_and(call, eq(t.res[i], K(CANCEL)))
        after = ite(cancel, K(0), t.active[i])
        live = c_and(live, c_not(x))
        idle = c_and(c_and(call, c_not(x)), c_not(yes(t.served[i])))
        threw = c_or(threw, idle)
        live = c_and(live, c_not(idle))
        if s.live is not FALSE:
            now = ev_field(ev, s.env[("this",)], "actions_", i, "active")
            pre = c_and(s.live, c_not(threw))
            n += leafcmp(tobv(now), tobv(after), "action %d active afterwards" % i, pre, out)
    end_at.append((live, SUCCESS_R, K(0)))
    n += leafcmp(b2v(s.live), b2v(c_not(threw)), "round ends without error", TRUE, out)
    if s.retv is not None and s.live is not FALSE:
        r, st = field(s.retv, "result"), field(s.retv, "exit_status")
        for g, want, wst in end_at:
            if g is FALSE:
                continue
            n += leafcmp(r, K(want), "result of the round", g, out)
            if want == EXIT_R:
                n += leafcmp(st, wst, "status of the round", g, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


SUCCESS_R, TIMEOUT_R, EXIT_R = 0, 1, 2


def ev_field(ev, v, name, i, f):
    """a member of an element of a member vector"""
    r = ev.newroot("seen")
    ev.env[r] = v
    return ev.load(ev.addr(r, (("f", name), ("f", "#d"), ("i", K(i)), ("f", f))))


def adding(run, name, f, k):
    """the new action is last, with its own descriptor"""
    ev = Ev(run.prog, gate=30)
    ev.env[("fd", 0)] = mk_rec(mk("obj", "FileDescriptor"), {"fd_": atom("in", "fd", lo=0, hi=1000), "eof_": K(0), "read_count_": K(0), "write_count_": K(0)})
    old = lambda w: [mk_rec(mk("obj", w), {"%s %d" % (w, i): K(i)}) for i in range(k)]
    ev.env[("this",)] = mk_rec(mk("obj", "Poller"), {"actions_": vec(k, old("action")), "pollfds_": vec(k, old("pollfd"))})
    a = {"fd": ev.addr(("fd", 0)), "direction": atom("in", "direction", lo=1, hi=4), "callback": mk("callback", 0), "when_interested": mk("interest", 0), "active": FLAG("active")}
    ev.env[("argv", 0)] = mk_rec(mk("obj", "Poller::Action"), a)
    s = summarize(ev, f)
    out = []
    p = s.env[("this",)]
    n = leafcmp(b2v(s.live), K(1), "action accepted", TRUE, out)
    for w in ("actions_", "pollfds_"):
        n += leafcmp(field(field(p, w), "#n"), K(k + 1), "entries of " + w, TRUE, out)
        for i in range(k):
            n += 1
            o = old("action" if w == "actions_" else "pollfd")[i]
            nm = o.args[1][0][0]
            if ev_field(ev, p, w, i, nm) is not K(i):
                out.append(("entry %d of %s" % (i, w), ev_field(ev, p, w, i, nm), K(i), {}))
    for m in ("fd", "direction", "callback", "when_interested", "active"):
        n += 1
        v = ev_field(ev, p, "actions_", k, m)
        if v is not a[m]:
            out.append((m + " of the new action", v, a[m], {}))
    n += leafcmp(ev_field(ev, p, "pollfds_", k, "fd"), atom("in", "fd", lo=0, hi=1000), "descriptor of the new entry", TRUE, out)
    verdict(run, name, f, out, n)


def fresh(run, name, f):
    """a new action is active"""
    ev = Ev(run.prog, gate=30)
    ev.env[("fd", 0)] = mk("obj", "FileDescriptor")
    ev.env[("arg", 1)] = K(IN)
    ev.env[("arg", 2)] = mk("callback", 0)
    ev.env[("arg", 3)] = mk("interest", 0)
    ev.env[("this",)] = mk("obj", "Poller::Action")
    s = summarize(ev, f, arg_roots=[("fd", 0), ("arg", 1), ("arg", 2), ("arg", 3)])
    v = s.env[("this",)]
    out = []
    n = leafcmp(tobv(field(v, "active")), K(1), "a new action is active", TRUE, out)
    for m, w in (("fd", ev.addr(("fd", 0))), ("direction", K(IN)), ("callback", mk("callback", 0)), ("when_interested", mk("interest", 0))):
        n += 1
        if field(v, m) is not w:
            out.append((m, field(v, m), w, {}))
    verdict(run, name, f, out, n)


# ------------------------------------------------------------ pacer
NS = {"std::ratio<1, 1000000000>": 1, "std::ratio<1, 1000000>": 1000, "std::ratio<1, 1000>": 10 ** 6, "std::ratio<1>": 10 ** 9, "std::ratio<1, 1>": 10 ** 9}


def unit(t):
    """nanoseconds in one tick of a duration or time point type"""
    t = strip(t)
    for a, b in (("std::chrono::nanoseconds", 1), ("std::chrono::microseconds", 1000), ("std::chrono::milliseconds", 10 ** 6), ("std::chrono::seconds", 10 ** 9)):
        if t == a:
            return b
    m = re.search(r"std::ratio<1(, *(\d+))?>", t)
    if m:
        return 10 ** 9 // int(m.group(2) or 1)
    if t.startswith("std::chrono::duration<") and "ratio" not in t:
        return 10 ** 9
    raise Unsupported("time unit " + t)


def chrono(ev, P, files, now):
    def get(ev, x):
        return ev.load(ev.lvl(x)) if x.get("lv") else ev.rv(x)

    def h(ev, e):
        q, n = str(e.get("q", "")), tail(str(e.get("q", "")))
        if n == "now":
            return now(ev)
        a = ([e["obj"]] if e.get("obj") is not None and not n.startswith("operator") else []) + e.get("a", [])
        if n == "duration_cast":
            u, w = unit(a[0]["t"]), unit(e["t"])
            v = get(ev, a[0])
            return v if u == w else tdiv(v, w // u) if w > u else mul(v, K(u // w))
        if n == "count":
            return get(ev, a[0])
        if n == "time_since_epoch":
            return get(ev, a[0])
        if n in ("operator+", "operator-"):
            if len(a) == 1 and e.get("obj") is not None:
                a = [e["obj"]] + a
            u = [unit(x["t"]) for x in a]
            w = unit(e["t"])
            if any(x % w for x in u):
                raise Unsupported("time units")
            v = [mul(get(ev, x), K(y // w)) for x, y in zip(a, u)]
            return add(v[0], v[1]) if n == "operator+" else sub(v[0], v[1])
        if n in ("operator<", "operator>", "operator<=", "operator>=", "operator==", "operator!="):
            if len(a) == 1 and e.get("obj") is not None:
                a = [e["obj"]] + a
            v = [mul(get(ev, x), K(unit(x["t"]))) for x in a]
            return b2v({"<": lt, ">": lambda a, b: lt(b, a), "<=": lambda a, b: ge(b, a), ">=": ge, "==": eq, "!=": lambda a, b: c_not(eq(a, b))}[n[8:]](*v))
        if n == "operator=" and e.get("obj") is not None and len(e["a"]) == 1:
            o = ev.deref(ev.rv(e["obj"])) if e.get("arrow") else ev.lvl(e["obj"])
            if unit(e["obj"].get("t", "")) != unit(e["a"][0].get("t", "")):
                raise Unsupported("time units")
            ev.store(o, get(ev, e["a"][0]))
            return o
        if n in ("zero",):
            return K(0)
        return NotImplemented
    for f in P.fns.values():
        if f["file"] not in files:
            continue
        for x in walk([f.get("body"), f.get("inits")]):
            q = str(x.get("q", ""))
            if x["k"] == "call" and q.startswith("std::chrono::"):
                ev.hooks[q] = h
    old = ev.stdctor

    def stdctor(e, cls):
        c = strip(cls)
        if re.match(r"std::chrono::(duration|time_point|\w+seconds)\b", c):
            a = [x for x in e.get("a", []) if not x.get("dflt")]
            if not a:
                return K(0)
            if len(a) == 1:
                t = strip(a[0].get("t", ""))
                v = get(ev, a[0])
                if "std::chrono::" in t:
                    u, w = unit(t), unit(c)
                    if u % w:
                        raise Unsupported("time units")
                    return mul(v, K(u // w))
                return v
        return old(e, cls)
    ev.stdctor = stdctor


def tdiv(v, d):
    """division toward zero"""
    return ite(ge(v, K(0)), div_(v, d), sub(K(0), div_(sub(K(0), v), d)))


def div_(v, d):
    return atom("div", v, d, lo=0)


T0 = 10 ** 18
HOUR = 3600 * 10 ** 9


def due(run, name, f, k, span):
    ev = Ev(run.prog, gate=30)
    now = atom("in", "now", lo=T0, hi=T0 + span)
    when = [atom("in", "time %d" % i, lo=T0, hi=T0 + span) for i in range(k)]
    chrono(ev, run.prog, FILES, lambda ev: now)
    ev.env[("this",)] = mk_rec(mk("obj", "Pacer"), {"queue_": vec(k, [mk_rec(mk("obj", "Pacer::ScheduledPacket"), {"when": w, "what": mk("in", "payload %d" % i)}) for i, w in enumerate(when)])})
    s = summarize(ev, f)
    out = []
    n = leafcmp(b2v(s.live), K(1), "time until due known", TRUE, out)
    if k == 0:
        n += leafcmp(b2v(ge(s.retv, K(1))), K(1), "nothing is due in an empty queue", TRUE, out)
    else:
        d = sub(when[0], now)
        want = ite(ge(d, K(0)), div_(d, 10 ** 6), K(0))
        n += leafcmp(s.retv, want, "milliseconds until the first payload is due", TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def pacing(run, name, f, k):
    ev = Ev(run.prog, gate=30)
    now = atom("in", "now", lo=T0, hi=T0 + HOUR)
    when = [atom("in", "time %d" % i, lo=T0, hi=T0 + HOUR) for i in range(k)]
    delay = atom("in", "delay", lo=0, hi=10 ** 6)
    chrono(ev, run.prog, FILES, lambda ev: now)
    ev.env[("this",)] = mk_rec(mk("obj", "Pacer"), {"queue_": vec(k, [mk_rec(mk("obj", "Pacer::ScheduledPacket"), {"when": w, "what": mk("in", "payload %d" % i)}) for i, w in enumerate(when)])})
    ev.env[("arg", 0)] = new = mk("in", "new payload")
    ev.env[("argv", 1)] = delay
    s = summarize(ev, f)
    out = []
    q = s.env[("this",)]
    n = leafcmp(field(field(q, "queue_"), "#n"), K(k + 1), "payloads queued", TRUE, out)
    for i in range(k + 1):
        w, p = ev_field(ev, q, "queue_", i, "when"), ev_field(ev, q, "queue_", i, "what")
        want = when[i] if i < k else add(when[-1], mul(delay, K(1000))) if k else now
        n += leafcmp(w, want, "time of payload %d" % i, TRUE, out)
        n += 1
        if p is not (mk("in", "payload %d" % i) if i < k else new):
            out.append(("payload %d" % i, p, new, {}))
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def popping(ev, P, files):
    """removal of the first element of a queue of known length"""
    def h(ev, e):
        if tail(e["q"]) == "erase" and len(e["a"]) != 1:
            return NotImplemented
        o = ev.deref(ev.rv(e["obj"])) if e.get("arrow") else ev.lvl(e["obj"])
        if tail(e["q"]) == "erase":
            at = ev.rv(e["a"][0])
            if at is not ev.ext(ev.ext(o, ("f", "#d")), ("i", K(0))):
                raise Unsupported("element erased " + show(at)[:100])
        n = ev.load(ev.ext(o, ("f", "#n")))
        if n.op != "k":
            raise Unsupported("length of a queue")
        if n.args[0] == 0:
            ev.live = FALSE
            return mk("dead")
        xs = [ev.load(ev.ext(ev.ext(o, ("f", "#d")), ("i", K(i)))) for i in range(n.args[0])]
        ev.store(o, vec(len(xs) - 1, xs[1:]))
        return mk("void")
    for f in P.fns.values():
        if f["file"] in files:
            for x in walk([f.get("body")]):
                if x["k"] == "call" and str(x.get("cls", "")).startswith("std::deque<") and tail(str(x.get("q"))) in ("pop_front", "erase"):
                    ev.hooks[x["q"]] = h


def taking(run, name, f, k, which):
    ev = Ev(run.prog, gate=30)
    items = [mk_rec(mk("obj", "Pacer::ScheduledPacket"), {"when": atom("in", "time %d" % i, lo=T0, hi=T0 + HOUR), "what": mk("in", "payload %d" % i)}) for i in range(k)]
    ev.env[("this",)] = mk_rec(mk("obj", "Pacer"), {"queue_": vec(k, items)})
    popping(ev, run.prog, FILES)
    s = summarize(ev, f)
    out, n = [], 1
    if which == "front":
        v = ev.load(s.retv) if s.retv.op == "addr" else s.retv
        if v is not mk("in", "payload 0"):
            out.append(("first payload", v, mk("in", "payload 0"), {}))
    elif which == "pop":
        q = s.env[("this",)]
        n += leafcmp(field(field(q, "queue_"), "#n"), K(k - 1), "payloads left", TRUE, out)
        for i in range(k - 1):
            n += 1
            v = ev_field(ev, q, "queue_", i, "what")
            if v is not mk("in", "payload %d" % (i + 1)):
                out.append(("payload %d" % i, v, mk("in", "payload %d" % (i + 1)), {}))
    else:
        n += leafcmp(s.retv, K(k) if which == "size" else K(int(k == 0)), which, TRUE, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


# ------------------------------------------------------------ datagrams
def sending(run, name, f, to):
    ev = Ev(run.prog, gate=30)
    size = atom("in", "size", lo=0, hi=1 << 20)
    sent = atom("in", "sent", lo=-1, hi=1 << 20)
    calls = []

    def h(ev, e):
        calls.append((ev.guard(),) + tuple(ev.rv(x) for x in e["a"]))
        return sent
    for q in ("send", "sendto", "::send", "::sendto"):
        ev.hooks[q] = h

    def ih(ev, g, this, binds, e):
        if g.get("cls") == "Address":
            return mk("in", "address " + tail(g["q"])) if not g["ret"].rstrip().endswith("&") else ev.addr(("addr", 0))
        return NotImplemented
    ev.ihook = ih
    B = ("payload",)
    ev.env[B] = mk_rec(mk("obj", "vec"), {"#n": size, "#d": mk("root", B)})
    ev.env[("dest",)] = mk("obj", "Address")
    ev.env[("addr", 0)] = mk("obj", "sockaddr")
    ev.env[("this",)] = mk_rec(mk("obj", "UDPSocket"), {"fd_": K(10), "eof_": K(0), "read_count_": K(5), "write_count_": K(5)})
    s = summarize(ev, f, arg_roots=[("dest",), B] if to else [B])
    out, n = [], 0
    if len(calls) != 1:
        if not calls:
            return run.bad(name, loc(f), "nothing is sent")
        raise Unsupported("%d transfers" % len(calls))
    g, fd, p, m, fl = calls[0][:5]
    n += leafcmp(b2v(g), K(1), "the datagram is sent", TRUE, out)
    n += leafcmp(fd, K(10), "descriptor", TRUE, out)
    n += leafcmp(p, mk("addr", B, (("f", "#d"), ("i", K(0)))), "start of the bytes sent", TRUE, out)
    n += leafcmp(m, size, "bytes sent", TRUE, out)
    if to:
        n += 1
        if calls[0][5] is not ev.addr(("addr", 0)) and calls[0][5] is not mk("addr", ("addr", 0), ()):
            out.append(("destination", calls[0][5], mk("in", "the address given"), {}))
    n += leafcmp(b2v(s.live), b2v(eq(sent, size)), "success only for the whole datagram", TRUE, out)
    if s.live is not FALSE:
        t = s.env[("this",)]
        n += leafcmp(field(t, "write_count_"), K(6), "writes counted", s.live, out)
        n += leafcmp(field(t, "read_count_"), K(5), "reads counted", s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


def receiving(run, name, f):
    ev = Ev(run.prog, gate=30)
    flags = atom("in", "flags", lo=0, hi=0x7f)
    size = atom("in", "received", lo=-1, hi=65536)
    calls = []

    def h(ev, e):
        a = [ev.rv(x) for x in e["a"]]
        hd = a[1]
        g = lambda m: ev.load(ev.ext(hd, ("f", m)))
        iov = g("msg_iov")
        calls.append((ev.guard(), a[0], g("msg_iovlen"), ev.load(ev.ext(iov, ("f", "iov_base"))), ev.load(ev.ext(iov, ("f", "iov_len"))), g("msg_name"), g("msg_namelen")))
        ev.store(ev.ext(hd, ("f", "msg_flags")), flags)
        ev.store(ev.ext(hd, ("f", "msg_controllen")), K(0))
        return size
    ev.hooks["recvmsg"] = ev.hooks["::recvmsg"] = h
    built = []

    def ih(ev, g, this, binds, e):
        if g.get("cls") == "Address" and g["kind"] == "ctor":
            v = [ev.load(b) if not isinstance(b, tuple) else b[1] for b in binds]
            built.append((binds, v))
            ev.store(this, mk("in", "address received"))
            return mk("void")
        if (g.get("cls") or "").startswith("Address") and g["kind"] == "ctor":
            return mk("void")
        return NotImplemented
    ev.ihook = ih
    ev.env[("this",)] = mk_rec(mk("obj", "UDPSocket"), {"fd_": K(10), "eof_": K(0), "read_count_": K(5), "write_count_": K(5)})
    s = summarize(ev, f)
    out, n = [], 0
    if len(calls) != 1:
        raise Unsupported("%d receptions" % len(calls))
    g, fd, cnt, base, ln, nm, nl = calls[0]
    n += leafcmp(fd, K(10), "descriptor", TRUE, out)
    n += leafcmp(cnt, K(1), "buffers", TRUE, out)
    n += leafcmp(b2v(ge(ln, K(65507))), K(1), "room for any datagram", TRUE, out)
    n += leafcmp(b2v(s.live), b2v(c_and(ge(size, K(0)), eq(flags, K(0)))), "success only for a whole datagram", TRUE, out)
    if s.live is not FALSE:
        pl = field(s.retv, "payload")
        n += leafcmp(field(pl, "#n"), size, "bytes of the payload", s.live, out)
        d = field(pl, "#d")
        if d.op == "slice":
            n += leafcmp(d.args[1], K(0), "start of the payload", s.live, out)
        t = s.env[("this",)]
        n += leafcmp(field(t, "read_count_"), K(6), "reads counted", s.live, out)
        n += leafcmp(field(t, "write_count_"), K(5), "writes counted", s.live, out)
    run.count("values_compared", n)
    verdict(run, name, f, out, n)


SETS = [((), ()), ((IN,), (0,)), ((OUT_,), (0,)), ((IN, IN), (0, 1)), ((IN, OUT_), (0, 0)), ((OUT_, IN), (0, 0)), ((IN, OUT_, IN), (0, 1, 2))]
DEEP = [((IN, IN, IN), (0, 1, 2)), ((OUT_, OUT_, IN), (0, 1, 1)), ((IN, IN, IN, OUT_), (0, 1, 2, 2))]


def check(run):
    P = run.prog
    f = one(run, "Poller::poll", fns_named(P, "Poller::poll"))
    if f:
        for dirs, fds in SETS + (DEEP if run.tier == "thorough" else []):
            nm = "one round with actions %s" % (", ".join("%s of descriptor %d" % ("reading" if d == IN else "writing", j) for d, j in zip(dirs, fds)) or "none")
            run.attempt(nm, one_round, run, nm, f, dirs, fds)
    f = one(run, "Poller::add_action", fns_named(P, "Poller::add_action"))
    if f:
        for k in (0, 1, 2):
            run.attempt("action added to %d" % k, adding, run, "action added to %d" % k, f, k)
    f = one(run, "Action", [g for g in fns(P) if g["q"].endswith("Poller::Action::Action") and g["kind"] == "ctor" and len(g["ps"]) == 4])
    if f:
        run.attempt("new action", fresh, run, "new action", f)
    for m, g in (("ms_until_due", due), ("push", pacing)):
        f = one(run, "Pacer::" + m, fns_named(P, "Pacer::" + m))
        if f:
            for k in (0, 1, 2, 3):
                nm = "Pacer::%s with %d payloads" % (m, k)
                run.attempt(nm, g, run, nm, f, k, *([HOUR] if m == "ms_until_due" else []))
                if m == "ms_until_due" and k:
                    run.attempt(nm + ", times within 4 ms", g, run, nm + ", times within 4 ms", f, k, 4 * 10 ** 6)
    for m in ("front", "pop", "size", "empty"):
        f = one(run, "Pacer::" + m, fns_named(P, "Pacer::" + m))
        if f:
            for k in (0, 1, 2, 3):
                if k or m in ("size", "empty"):
                    nm = "Pacer::%s with %d payloads" % (m, k)
                    run.attempt(nm, taking, run, nm, f, k, m)
    for m in ("send", "sendto"):
        f = one(run, "UDPSocket::" + m, fns_named(P, "UDPSocket::" + m))
        if f:
            run.attempt("UDPSocket::" + m, sending, run, "UDPSocket::" + m, f, m == "sendto")
    f = one(run, "UDPSocket::recv", fns_named(P, "UDPSocket::recv"))
    if f:
        run.attempt("UDPSocket::recv", receiving, run, "UDPSocket::recv", f)
    lints.counters(run, "events", [f for f in fns(P) if f["file"] in FILES])
    run.floor("values_compared", 20)
