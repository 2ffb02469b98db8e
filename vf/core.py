"""Obligations, verdicts, evidence."""
import json
import os
import pickle
import resource
import select
import sys
import time
import traceback

import extract
import terms
from extract import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = 780      # seconds after which whatever is left stays undecided


class Ob:
    """one obligation: a construct of the current source and the rule applied to it"""
    __slots__ = ("name", "where", "status", "detail", "facts")

    def __init__(self, name, where, status, detail="", facts=0):
        self.name, self.where, self.status, self.detail, self.facts = name, where, status, detail, facts

    def js(self):
        d = {"obligation": self.name, "where": self.where, "status": self.status}
        if self.detail:
            d["detail"] = self.detail
        if self.facts:
            d["facts"] = self.facts
        return d


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.obs = []
        self.tasks = []
        self.cov = {}
        self.floors = {}
        self.assumptions = []
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            self._prog = extract.load()
        return self._prog

    def ok(self, name, where="", detail="", facts=1):
        import chan
        if chan.UNMODELLED:
            what, chan.UNMODELLED[:] = list(chan.UNMODELLED), []
            return self.undecided(name, where, "a construct without a model reaches " + ", ".join(map(str, what[:3])))
        self.obs.append(Ob(name, where, "discharged", detail, facts))

    def bad(self, name, where, detail):
        self.obs.append(Ob(name, where, "violated", detail))

    def undecided(self, name, where, detail):
        self.obs.append(Ob(name, where, "undecided", detail))

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def floor(self, key, n):
        """fewer than n instances examined means that part of the code is not decided"""
        self.floors[key] = n

    def attempt(self, name, fn, *a, **k):
        """queue one obligation; each is analysed in a process of its own, constructs
        outside the analysis (or over the time limit) leave it undecided"""
        self.tasks.append((name, fn, a, k))

    def guarded(self, name, fn, a, k):
        try:
            return fn(*a, **k)
        except (AnalysisBroken, terms.Cap, RecursionError) as e:
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc(limit=-12)
            self.undecided(name, "", "%s: %s" % (type(e).__name__, str(e)[:300]))
        except Exception as e:
            if type(e).__name__ in ("Unsupported", "Cap"):
                self.undecided(name, "", "outside the analysed fragment: %s" % str(e)[:300])
            elif os.environ.get("VF_DEBUG"):
                traceback.print_exc()
                self.undecided(name, "", repr(e))
            else:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.undecided(name, "", "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))

    def settle(self, width=8, limit=400):
        """analyse the queued obligations, `width` at a time"""
        only = os.environ.get("VF_ONLY")
        todo = [t for t in self.tasks if not only or only in t[0]]
        self.tasks = []
        if todo:
            self.prog
        busy, results = {}, {}
        nxt = 0
        while nxt < len(todo) or busy:
            if time.time() - self.t0 > BUDGET:
                nxt = len(todo)
            while nxt < len(todo) and len(busy) < width:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
                        self.obs, self.cov, self.assumptions = [], {}, []
                        t1 = time.time()
                        self.guarded(*todo[nxt])
                        if os.environ.get("VF_TIME"):
                            print("%6.1fs %s" % (time.time() - t1, todo[nxt][0]), flush=True)
                        with os.fdopen(w, "wb") as f:
                            pickle.dump(([[getattr(o, s) for s in Ob.__slots__] for o in self.obs], self.cov, self.assumptions), f)
                        code = 0
                    except MemoryError:
                        pass
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
                os.close(w)
                busy[r] = (pid, nxt, time.time(), [])
                nxt += 1
            rd, _, _ = select.select(list(busy), [], [], 1)
            for r in rd:
                pid, i, t, buf = busy[r]
                b = os.read(r, 1 << 16)
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del busy[r]
                results[i] = b"".join(buf)
            for r in list(busy):
                pid, i, t, buf = busy[r]
                if time.time() - t > limit or time.time() - self.t0 > BUDGET:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    os.close(r)
                    del busy[r]
                    results[i] = None
        for i in range(len(todo)):
            d = results.get(i)
            if not d:
                self.undecided(todo[i][0], "", "the analysis of this obligation exceeded its time or memory limit")
                continue
            obs, cov, ass = pickle.loads(d)
            self.obs += [Ob(*o) for o in obs]
            for k, n in cov.items():
                self.cov[k] = self.cov.get(k, 0) + n if isinstance(n, (int, float)) else n
            for x in ass:
                if x not in self.assumptions:
                    self.assumptions.append(x)


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                key, _, txt = l[len("finding: property=%s " % prop):].partition(" | ")
                out.append((key.strip(), txt.strip()))
    return out


def finish(run, t0, rule):
    """write evidence, print verdict, return the exit status"""
    kf = known(run.prop)
    viol, kfs = [], []
    for o in run.obs:
        if o.status != "violated":
            continue
        hit = [k for k in kf if k[0] == o.name]
        if hit:
            o.status = "known-finding"
            kfs.append((o, hit[0]))
        else:
            viol.append(o)
    for k, m in run.floors.items():
        if run.cov.get(k, 0) < m:
            run.undecided("coverage of " + k, "", "%d examined, at least %d expected" % (run.cov.get(k, 0), m))
    n = len(run.obs)
    done = sum(o.status == "discharged" for o in run.obs)
    und = [o for o in run.obs if o.status == "undecided"]
    cov = {
        "explanation": "static analysis of the type-checked source: every obligation below is a construct of the current /repo tree together with the rule applied to it",
        "rule": rule,
        "obligations": n,
        "discharged": done,
        "undecided": len(und),
        "facts": sum(o.facts for o in run.obs),
        "samples": [o.js() for o in run.obs][:400],
    }
    if run._prog is not None:
        cov["translation_units"] = len(run.prog.units)
        cov["functions_in_program"] = len(run.prog.fns)
    cov.update(run.cov)
    ev = {
        "property": run.prop,
        "tier": run.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "violations": len(viol),
        "assumptions": run.assumptions,
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", run.prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)
    for o, k in kfs:
        print("KNOWN-FINDING: property=%s %s" % (run.prop, k[1]))
    if os.environ.get("VF_VERBOSE"):
        for o in run.obs:
            print(o.status, o.name, o.where, o.detail[:300], o.facts)
    if viol:
        rp = os.path.join(VERIF, "evidence", run.prop + ".violation.txt")
        with open(rp, "w") as f:
            for o in viol:
                f.write("%s: %s: %s\n" % (o.where, o.name, o.detail))
        for o in viol[:20]:
            print("  %s: %s: %s" % (o.where, o.name, o.detail[:600]))
        print("VIOLATION property=%s replay=%s" % (run.prop, rp))
        return 1
    for k, m in run.floors.items():
        if run.cov.get(k, 0) < m:
            print("note: property=%s only %d instances of '%s' examined (at least %d expected): part of the code is no longer reached by the rule" % (run.prop, run.cov.get(k, 0), k, m))
    if done == 0:
        print("analysis error: property=%s no obligation could be decided" % run.prop)
        for o in und[:10]:
            print("  undecided: %s: %s" % (o.name, o.detail[:300]))
        return 2
    print("property=%s held: %d obligations discharged, %d undecided, %d facts (%.1f s)" % (run.prop, done, len(und), cov["facts"], time.time() - t0))
    for o in und[:10]:
        print("  undecided: %s: %s" % (o.name, o.detail[:200]))
    return 0
