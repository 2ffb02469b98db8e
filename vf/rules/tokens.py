"""Coefficient token syntax: writer, parser, statistics and the reference."""
import re
from evalx import *
from chan import *
from rules.common import *
from rules.mbsyntax import ctx, zero_of, rebuild_arr

KINDS = {"Y2": [1], "Y_after_Y2": [0, 3], "UV": [2]}


def block_classes(P):
    """(class, parser, writer, admissible type_ values)"""
    out = []
    for f in fns(P):
        cls = f.get("cls") or ""
        if cls.startswith("Block<") and f["q"] == cls + "::parse_tokens":
            w = [g for g in fns(P) if g["q"] == cls + "::serialize_tokens"]
            m = re.search(r"Block<\(?(?:BlockType\)?)?'?(\w+)", cls)
            out.append((cls, f, w[0] if w else None))
    return out


def types_of(P, cls):
    a = splitargs(re.match(r"Block<(.*)>$", cls).group(1))[0]
    a = a.rsplit("::", 1)[-1].strip()
    if a in KINDS:
        return KINDS[a]
    m = re.search(r"(\d+)$", a)
    n = int(m.group(1)) if m else None
    return {0: [0, 3], 1: [1], 2: [2]}.get(n, [])


def neighbour_ctx(ev, cls, name):
    return ctx(ev, cls, name)


def coef_block(ev, cls, typ, coefs, name):
    v = sym(ev, cls, name)
    d = dict(v.args[1])
    d["context_"] = ctx(ev, cls, name + ".ctx")
    d["type_"] = K(typ)
    co = field(v, "coefficients_")
    d["coefficients_"] = mk_rec(co.args[0], {"coefficients_": shape(ev, co, coefs)})
    return mk_rec(v.args[0], d)


def shape(ev, co, coefs):
    c = field(co, "coefficients_")
    f, arr = c.args[1][0]
    if arr.op == "rec":
        return mk_rec(c.args[0], {f: mk_rec(arr.args[0], {"#d": mk_arr(mk("obj", "arr"), dict(enumerate(coefs)), ())})})
    return mk_rec(c.args[0], {f: mk_arr(mk("obj", "arr"), dict(enumerate(coefs)), ())})


def coef(v, i):
    c = field(field(v, "coefficients_"), "coefficients_")
    a = field(c, "storage_")
    return elem(a, K(i), -32768, 32767)


def ptab(ev, t):
    return sym(ev, t, "pt")


def setup(ev, f, pt):
    ev.env[("arg", 1)] = pt


def parser_block(ev, cls, typ):
    b = coef_block(ev, cls, typ, [K(0)] * 16, "b")
    d = dict(b.args[1])
    d["has_nonzero_"] = K(0)
    return mk_rec(b.args[0], d)


def leaves_of(t):
    if t.op == "br":
        return leaves_of(t.args[2]) | leaves_of(t.args[3])
    return {t}


def canonical(tape, blk):
    """streams that end with an explicit end-of-block symbol (the one coded with node 0 of a
    coefficient probability vector) or with a nonzero sixteenth coefficient: the others denote
    the same coefficients as a shorter stream"""
    c = c_not(eq(coef(blk, 15), K(0)))
    for it in tape.items:
        if any(x.op == "in" and re.search(r"\[0\]$", str(x.args[0])) for x in leaves_of(it.probs[0])):
            c = c_or(c, c_and(it.g, eq(it.vals[0], K(0))))
    return c


def parse(run, tape, cls, typ, r, pt=None):
    ev = Ev(run.prog, gate=20)
    tape.attach(ev)
    ev.env[("this",)] = parser_block(ev, cls, typ)
    pt = sym(ev, "ProbabilityTables", "pt")
    ev.env[("arg", 1)] = pt
    s = summarize(ev, r)
    run.count("symbols_parsed", tape.reads)
    return s, pt


def roundtrip(run, name, cls, typ, w, r):
    tape = FreeTape(run.prog)
    s, pt = parse(run, tape, cls, typ, r)
    blk = s.env[("this",)]
    can = c_and(s.live, canonical(tape, blk))
    for it in tape.items:
        it.left = c_and(it.left, can)
    ev2 = Ev(run.prog, gate=20)
    tape.attach(ev2)
    ev2.env[("this",)] = blk
    ev2.env[("arg", 1)] = pt
    ev2.base = can
    try:
        s2 = summarize(ev2, w)
        if c_and(can, c_not(s2.live)) is not FALSE and feasible(c_and(can, c_not(s2.live))):
            run.bad(name, loc(w), "coefficients that the parser can produce are rejected by the writer when %s" % show(c_and(can, c_not(s2.live)))[:300])
        tape.finish(c_and(can, s2.live))
    except Misaligned:
        pass
    run.count("symbols_written", tape.writes)
    if tape.problems:
        for p in tape.problems[:2]:
            run.bad(name, p.loc or loc(w), repr(p))
    else:
        run.ok(name, loc(w), "%d symbols" % tape.reads, tape.reads)


def conform(run, name, cls, typ, r, sp):
    tape = FreeTape(run.prog)
    s, pt = parse(run, tape, cls, typ, r)
    tape.rewind()
    ev2 = Ev(run.prog, extra=sp, gate=20)
    tape.attach(ev2)
    ev2.env[("arg", 0)] = parser_block(ev2, cls, typ)
    ev2.env[("arg", 2)] = pt
    f = [g for g in sp.fns.values() if re.match(r"spec::block_\w+$", g["q"]) and strip(g["ps"][0]["t"]) == cls][0]
    try:
        s2 = summarize(ev2, f)
        tape.finish2(c_and(s.live, s2.live))
    except Misaligned:
        pass
    if tape.problems:
        for p in tape.problems[:2]:
            run.bad(name, p.loc or loc(r), repr(p))
        return
    out = []
    a, b = s.env[("this",)], s2.env[("arg", 0)]
    live = c_and(s.live, s2.live)
    for i in range(16):
        leafcmp(coef(a, i), coef(b, i), "coefficient %d" % i, live, out, samples=60)
    leafcmp(field(a, "has_nonzero_", None, 0, 1), field(b, "has_nonzero_", None, 0, 1), "nonzero flag", live, out)
    if out:
        for path, x, z, d in out[:3]:
            run.bad(name, loc(r), "%s: %s, the format gives %s (for example %s / %s)" % (path, show(x)[:120], show(z)[:120], d["a"], d["b"]))
    else:
        run.ok(name, loc(r), "%d symbols, 17 values" % tape.reads, tape.reads + 17)


def stats(run, name, cls, typ, w, acc):
    """the statistics used to choose probabilities count exactly the decisions written"""
    ev = Ev(run.prog, gate=20)
    puts = []

    def put(ev, e):
        a = e.get("a", [])
        bit = b2v(ev.cond(a[0]))
        prob = ev.rv(a[1]) if len(a) > 1 else K(128)
        g = ev.guard()
        if g is not FALSE:
            puts.append((g, bit, prob))
        return mk("void")
    ev.hooks["BoolEncoder::put"] = put
    tape = FreeTape(run.prog)
    r = [x for x in block_classes(run.prog) if x[0] == cls][0][1]
    s, pt = parse(run, tape, cls, typ, r)
    blk = s.env[("this",)]
    can = c_and(s.live, canonical(tape, blk))
    ev.env[("this",)] = blk
    ev.env[("arg", 1)] = pt
    ev.base = can
    s1 = summarize(ev, w)
    ev2 = Ev(run.prog, gate=20)
    ev2.env[("arg", 0)] = blk
    ct = strip(acc["ps"][1]["t"])
    ev2.env[("arg", 1)] = sym(ev2, ct, "count")
    ev2.base = can
    counted = []

    memo = {}

    def leafconds(p):
        if p.op != "br":
            return {p: TRUE}
        r = memo.get(p)
        if r is None:
            t, k, h, l = p.args
            cc = mk("c", t, k, TRUE, FALSE)
            a, b = leafconds(h), leafconds(l)
            r = {x: c_or(c_and(cc, a.get(x, FALSE)), c_and(c_not(cc), b.get(x, FALSE))) for x in list(a) + [y for y in b if y not in a]}
            memo[p] = r
        return r

    def pieces(c, p):
        return [(c_and(c, g), x) for x, g in leafconds(p).items() if c_and(c, g) is not FALSE]

    def cellof(addr):
        if addr.op != "addr" or addr.args[0] != ("arg", 1):
            return None
        ix = tuple(s[1].args[0] for s in addr.args[1] if s[0] == "i" and s[1].op == "k")
        fl = [s[1] for s in addr.args[1] if s[0] == "f"]
        return ix, fl[-1]

    def sthook(ev, a, val):
        ps = pieces(TRUE, a)
        if not ps or cellof(ps[0][1]) is None:
            return False
        step = sub(val, ev.load(a))
        if constrain(step, ev.guard()) is not K(1):
            raise Cap("counter changed by other than one")
        for c, x in pieces(ev.guard(), a):
            opts = [(c, ())]
            for q in x.args[1]:
                if q[0] != "i":
                    continue
                nx = []
                for cc, ix in opts:
                    if q[1].op == "k":
                        nx.append((cc, ix + (q[1].args[0],)))
                        continue
                    lo, hi = rng(q[1])
                    if hi - lo > 16:
                        raise Cap("counter index")
                    for v in range(lo, hi + 1):
                        c3 = c_and(cc, eq(q[1], K(v)))
                        if c3 is not FALSE:
                            nx.append((c3, ix + (v,)))
                opts = nx
            fl = [q[1] for q in x.args[1] if q[0] == "f"][-1]
            counted.extend((cc, (ix, fl)) for cc, ix in opts)
        return True
    ev2.sthook = sthook
    s2 = summarize(ev2, acc)
    live = c_and(can, c_and(s1.live, s2.live))
    cells = {}
    ncoded = 0
    for g, bit, prob in puts:
        for c, p in pieces(g, prob):
            m = re.search(r"((?:\[\d+\]){4})$", str(p.args[0])) if p.op == "in" else None
            if m:
                key = tuple(int(x) for x in re.findall(r"\d+", m.group(1)))
                ncoded += 1
                for fl, cc in (("first", c_not(tobool(bit))), ("second", tobool(bit))):
                    cc = c_and(c_and(c, cc), live)
                    if cc is not FALSE:
                        cells.setdefault((key, fl), [[], []])[0].append(cc)
    for c, key in counted:
        c = c_and(c, live)
        if c is not FALSE:
            cells.setdefault(key, [[], []])[1].append(c)
    bad = []
    for key in sorted(cells):
        a, b = cells[key]
        b = list(b)
        for x in a:
            for i in range(len(b)):
                t = c_and(x, b[i])
                if t is not FALSE:
                    b[i] = c_and(b[i], c_not(t))
                    x = c_and(x, c_not(t))
            if x is not FALSE and feasible(x):
                bad.append("a decision coded with node %s (branch %s) is not counted when %s" % (list(key[0]), key[1], show(x)[:200]))
                break
        for x in b:
            if x is not FALSE and feasible(x):
                bad.append("branch %s of node %s is counted without being coded when %s" % (key[1], list(key[0]), show(x)[:200]))
                break
    run.count("statistics_cells", len(cells))
    if bad:
        for d in bad[:3]:
            run.bad(name, loc(acc), d)
    else:
        run.ok(name, loc(acc), "%d counters, %d coded decisions" % (len(cells), ncoded), len(cells))


def block_order(run, name, MB, f, g, sp):
    """the blocks visited by the macroblock token parser (writer), in order, against the format"""
    from rules.mbsyntax import block_cls, plane, FW
    P = run.prog

    def state(ev):
        y2, y, uv = block_cls(run, MB)
        m = sym(ev, MB, "m")
        d = dict(m.args[1])
        env = ev.env
        plane(ev, env, "mY", y, "Y", 4, 0, FW), plane(ev, env, "mU", uv, "U", 2, 2, FW), plane(ev, env, "mV", uv, "V", 2, 2, FW)
        b = sym(ev, y2, "y2")
        env[("mY2",)] = b
        d["Y2_"] = mk("addr", ("mY2",), ())
        for r, n in (("Y", 4), ("U", 2), ("V", 2)):
            d[r + "_"] = mk_rec(mk("obj", "sub"), {"master_": mk("addr", ("m" + r,), ()), "column_": K(2 * n), "row_": K(n)})
        d["has_nonzero_"] = K(0)
        return mk_rec(m.args[0], d)

    def watch(ev, fn, this, binds, e):
        n = fn["q"].rsplit("::", 1)[-1]
        if n in ("parse_tokens", "serialize_tokens") and (fn.get("cls") or "").startswith("Block<"):
            def eff(vals):
                if n == "parse_tokens":
                    ev.store(ev.ext(this, ("f", "has_nonzero_")), vals[0])
            return "block", [this, binds[0], binds[1]], [(0, 1)], eff
        return None
    tape = CallTape(P, watch)
    ev = Ev(P, gate=30)
    tape.attach(ev)
    ev.env[("this",)] = state(ev)
    s = summarize(ev, f)
    tape.rewind()
    ev2 = Ev(P, extra=sp, gate=30)
    tape.attach(ev2)
    m = state(ev2)
    ev2.env[("arg", 0)] = m
    fr = {}
    try:
        s2 = summarize(ev2, g, arg_roots=[("this",), ("arg", 0), ("arg", 1)], pre=lambda ev, fr, args: ev.env.__setitem__(("this",), m))
        tape.finish2(c_and(s.live, s2.live))
    except Misaligned:
        pass
    run.count("block_visits", tape.reads)
    out = []
    if not tape.problems and f["q"].endswith("parse_tokens"):
        leafcmp(field(s.env[("this",)], "has_nonzero_", None, 0, 1), field(s2.env[("this",)], "has_nonzero_", None, 0, 1), "macroblock nonzero flag", c_and(s.live, s2.live), out)
    if tape.problems:
        for p in tape.problems[:2]:
            run.bad(name, p.loc or loc(f), repr(p))
    elif out:
        run.bad(name, loc(f), "%s differs from the format" % out[0][0])
    else:
        run.ok(name, loc(f), "%d block visits" % tape.reads, tape.reads)


def check(run):
    P = run.prog
    sp = spec(run, "tokens.cc")
    bc = block_classes(P)
    run.count("block_classes", len(bc))
    for cls, r, w in bc:
        for typ in types_of(P, cls):
            if w:
                run.attempt("coefficients written then parsed: block type %d" % typ, roundtrip, run, "coefficients written then parsed: block type %d" % typ, cls, typ, w, r)
            if sp:
                run.attempt("coefficient syntax: block type %d" % typ, conform, run, "coefficient syntax: block type %d" % typ, cls, typ, r, sp)
            acc = [f for f in fns(P) if f["kind"] == "fn" and f["q"] == "accumulate_token_branches" and strip(f["ps"][0]["t"]) == cls]
            if w and acc:
                run.attempt("token statistics: block type %d" % typ, stats, run, "token statistics: block type %d" % typ, cls, typ, w, acc[0])
    for H, MH, sn in (("KeyFrameHeader", "KeyFrameMacroblockHeader", "spec::key_mb_tokens"), ("InterFrameHeader", "InterFrameMacroblockHeader", "spec::inter_mb_tokens")):
        MB = "Macroblock<%s, %s>" % (H, MH)
        for n in ("parse_tokens", "serialize_tokens"):
            f = one(run, MB + "::" + n, [x for x in fns(P) if x["q"] == MB + "::" + n])
            if f and sp:
                nm = "block order: %s %s" % (H[:-6], n)
                run.attempt(nm, block_order, run, nm, MB, f, fns_named(sp, sn)[0], sp)
    run.floor("symbols_parsed", 400)
    run.floor("block_classes", 3)
