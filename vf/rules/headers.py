"""Frame header syntax: repo writer -> repo parser, and RFC writer -> repo parser."""
import re
from evalx import *
from chan import *
from rules.common import *


def segmap(ev, t, name):
    r = re.match(r"Optional<(.*)>$", t)
    if not r:
        return None
    return mk_rec(mk("obj", t), {"initialized_": atom("in", name.replace("mb_segmentation_map", "update_mb_segmentation_map.i_"), lo=0, hi=1),
                                 "object_": sym(ev, r.group(1), name + ".object_")})


def copyb(ev, t, name):
    r = re.match(r"Optional<(.*)>$", t)
    if not r:
        return None
    w = name.rsplit("_", 1)[1]
    c = atom("in", name.rsplit(".", 1)[0] + ".refresh_" + w + "_frame.i_", lo=0, hi=1)
    return mk_rec(mk("obj", t), {"initialized_": sub(K(1), c), "object_": sym(ev, r.group(1), name + ".object_")})


OVER = [(r".*\.mb_segmentation_map", segmap), (r".*\.copy_buffer_to_(golden|alternate)", copyb)]


def compose(run, T, name, w, wx, r):
    """w writes a symbolic T, r parses it back"""
    tape = Tape()
    hooks = tape.hooks()
    ev = Ev(run.prog, extra=wx, hooks=hooks, gate=20)
    src = sym(ev, T, "h", OVER)
    ev.env[("arg", 1)] = src
    s = summarize(ev, w)
    run.count("symbols_written", len(tape.items))
    ev2 = Ev(run.prog, hooks=hooks, gate=20)
    try:
        s2 = summarize(ev2, r)
        tape.finish(s2.live)
    except Misaligned:
        pass
    run.count("symbols_read", tape.reads)
    if tape.problems:
        for p in tape.problems[:3]:
            run.bad(name, p.loc or loc(r), repr(p))
        return
    out = []
    n = compare(ev2, src, s2.env[("this",)], T, "", s2.live, out)
    run.count("fields_compared", n)
    if out:
        for path, x, y, d in out[:5]:
            run.bad(name, loc(r), "field %s is written as %s and parsed as %s (for example %s / %s)" % (path, show(x)[:120], show(y)[:160], d["a"], d["b"]))
    else:
        run.ok(name, loc(r), "%d symbols, %d fields" % (tape.reads, n), n + tape.reads)


def check(run):
    P = run.prog
    sp = spec(run, "headers.cc")
    for T, sn in (("KeyFrameHeader", "spec::key_header"), ("InterFrameHeader", "spec::inter_header")):
        r = one(run, T + " parser", [f for f in fns(P) if f["kind"] == "ctor" and f.get("cls") == T and len(f["ps"]) == 1 and "BoolDecoder" in f["ps"][0]["t"]])
        w = one(run, T + " writer", [f for f in fns(P) if f["kind"] == "fn" and len(f["ps"]) == 2 and "BoolEncoder" in f["ps"][0]["t"] and strip(f["ps"][1]["t"]) == T])
        if r and w:
            run.attempt(T + ": writer then parser", compose, run, T, T + ": writer then parser", w, None, r)
        if r and sp:
            run.attempt(T + ": RFC syntax then parser", compose, run, T, T + ": RFC syntax then parser", fns_named(sp, sn)[0], sp, r)
    run.floor("symbols_read", 20000)
    run.floor("fields_compared", 2500)
