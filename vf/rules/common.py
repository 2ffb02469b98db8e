import os
import extract
from extract import AnalysisBroken


def fns(P):
    return [f for f in P.fns.values() if f.get("body") is not None]


def loc(f):
    return "%s:%s" % (f["file"], f["l"])


def one(run, what, cands):
    if len(cands) == 1:
        return cands[0]
    run.undecided(what, "", "%d candidate functions" % len(cands))
    return None


_specs = {}


def spec(run, name):
    if name not in _specs:
        try:
            _specs[name] = extract.load_spec(run.prog, os.path.join(extract.VERIF, "spec", name))
        except AnalysisBroken as e:
            run.undecided("reference " + name, "", str(e)[:500])
            _specs[name] = None
    return _specs[name]
