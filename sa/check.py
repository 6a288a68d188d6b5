"""Check driver: collects obligations, writes the evidence file, applies the known-findings file, prints verdicts."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "checks")]
import facts
from facts import AnalysisBroken
from engine import short


class Ck:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obligations = []      # (key, ok, where, msg)
        self.functions = {}        # name -> where
        self.rows = 0
        self.steps = 0
        self.callsites = 0
        self.files = set()
        self.notes = []
        self.samples = []
        self.extra = {}

    # -------------------------------------------------------------- recording
    def load(self, *srcs):
        r = facts.load(*srcs)
        self.files.update(srcs)
        return r

    def ob(self, key, ok, where="", msg=""):
        self.obligations.append((key, bool(ok), where, msg))
        return ok

    def need(self, cond, what):
        """An anchor the rules depend on; its absence means the analysis does not apply any more."""
        if not cond:
            raise AnalysisBroken(what)

    def saw(self, fn):
        self.functions["%s" % fn.get("nq", fn.get("q"))] = "%s:%s" % (fn.get("file"), fn.get("l"))

    def table(self, tu, fn, decision, partial=False, **kw):
        kw_partial = partial
        rows = decision.run(tu, fn, **kw)
        self.saw(fn)
        for nq, file, line in decision.engine.analysed:
            if nq != "lambda":
                self.functions[nq] = "%s:%s" % (file, line)
        self.steps += decision.engine.steps
        self.callsites += decision.engine.ncalls
        self.rows += len(rows)
        for w, how in sorted(decision.parts):
            self.ob("all-elements/%s" % fn["nq"].split("::")[-1], False, w, "the loop visits every element in order (%s)" % how)
        if decision.unit is not None and not kw_partial:
            n = sum(1 for o in self.obligations if o[0].startswith("every-element/%s/" % fn["nq"].split("::")[-1]))
            bad = [r for r in rows if r.loop and r.end in ("break", "ret") and not r.where.startswith("include/graphqlservice/internal/Grammar.h")]
            self.ob("every-element/%s/%d" % (fn["nq"].split("::")[-1], n), not bad, bad[0].where if bad else "",
                    "the loop goes on to the next element whatever it found in this one" + ("; offending path: %s" % bad[0] if bad else ""))
        if rows and len(self.samples) < 12:
            self.samples.append("%s: %s" % (fn["nq"], rows[0]))
        return rows

    # -------------------------------------------------------------- obligations over rows
    @staticmethod
    def _m(row, conds):
        for c in conds:
            if callable(c):
                if not c(row):
                    return False
            elif not row.has(*c):
                return False
        return True

    def must(self, key, rows, when, ev, what):
        """every row satisfying all of `when` performed `ev`"""
        bad = [r for r in rows if self._m(r, when) and not (ev(r) if callable(ev) else r.did(ev))]
        self.ob(key, not bad, bad[0].where if bad else "", "%s; offending path: %s" % (what, bad[0]) if bad else what)
        return not bad

    def never(self, key, rows, when, ev, what):
        bad = [r for r in rows if self._m(r, when) and (ev(r) if callable(ev) else r.did(ev))]
        self.ob(key, not bad, bad[0].where if bad else "", "%s; offending path: %s" % (what, bad[0]) if bad else what)
        return not bad

    def evaluated(self, key, rows, atom, unless, what):
        """every row evaluates `atom` unless one of the excuses (condition tuples, event names, predicates) holds"""
        def excused(r):
            for u in unless:
                if callable(u):
                    if u(r):
                        return True
                elif isinstance(u, tuple):
                    if r.has(*u):
                        return True
                elif r.did(u):
                    return True
            return False
        bad = [r for r in rows if not r.seen(atom) and not excused(r)]
        self.ob(key, not bad, bad[0].where if bad else "", "%s; offending path: %s" % (what, bad[0]) if bad else what)
        return not bad

    def only(self, key, rows, ev, causes, what):
        """every row that performed `ev` satisfies one of the causes"""
        bad = [r for r in rows if (ev(r) if callable(ev) else r.did(ev))
               and not any(self._m(r, c if isinstance(c, list) else [c]) for c in causes)]
        self.ob(key, not bad, bad[0].where if bad else "", "%s; offending path: %s" % (what, bad[0]) if bad else what)
        return not bad


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {e["key"]: e for e in d.get("known", []) if e["property"] == pid}


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    ck = Ck(pid, tier)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(ck)
    except AnalysisBroken as x:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, x))
        if "-v" in argv:
            traceback.print_exc()
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    if not ck.obligations:
        print("ANALYSIS-BROKEN property=%s no obligation was generated" % pid)
        return 2
    known = known_findings(pid)
    bad = [o for o in ck.obligations if not o[1]]
    out = os.path.join(VERIF, "out", pid)
    viol, kn = [], []
    seen = set()
    for key, _, where, msg in bad:
        if key in known:
            if key not in seen:
                kn.append((key, where, msg))
        else:
            viol.append((key, where, msg))
        seen.add(key)
    for key, where, msg in kn:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[key]["what"], key))
    for key, e in known.items():
        if key not in seen and any(o[0] == key for o in ck.obligations):
            print("note: listed finding %s no longer occurs" % key)
    if viol:
        os.makedirs(out, exist_ok=True)
        for i, (key, where, msg) in enumerate(viol):
            p = os.path.join(out, "violation-%d.json" % i)
            with open(p, "w") as f:
                json.dump({"property": pid, "rule": key, "where": where, "detail": msg,
                           "reproduce": "cd /verif && python3 sa/check.py %s" % pid}, f, indent=1)
            print("  rule %s at %s" % (key, where))
            print("    %s" % msg)
            print("VIOLATION property=%s replay=%s" % (pid, p))
    meta = getattr(mod, "LEVEL", "other")
    cov = {
        "explanation": getattr(mod, "EXPLAIN", (mod.__doc__ or "").strip()),
        "obligations": len(ck.obligations),
        "discharged": len(ck.obligations) - len(bad),
        "known_findings": len(kn),
        "functions_analysed": len(ck.functions),
        "functions": sorted("%s (%s)" % kv for kv in ck.functions.items())[:400],
        "decision_rows": ck.rows,
        "abstract_steps": ck.steps,
        "call_sites": ck.callsites,
        "translation_units": sorted(ck.files),
        "rules": sorted({o[0] for o in ck.obligations})[:600],
        "samples": ck.samples or [o[0] + ": " + o[3] for o in ck.obligations[:5]],
    }
    cov.update(ck.extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": meta, "coverage": cov,
          "assumptions": getattr(mod, "ASSUME", ["the clang AST of the current sources is the program that is built",
                                                 "the obligations are necessary conditions; values computed at run time are not evaluated"]),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d violated (%d known), %d functions, %d rows, %.1fs" % (
        pid, len(ck.obligations), len(bad), len(kn), len(ck.functions), ck.rows, time.time() - t0))
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
