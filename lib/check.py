"""Common driver: a check collects obligations and violations and reports them in the agreed form.

Exit codes: 0 held, 1 violated, 2 the analysis itself could not be carried out (for example an anchor the rule
needs has disappeared, or a source file no longer parses).
"""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")

from extract import AnalysisBroken  # noqa: E402


class Check:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
            self.tier = sys.argv[2]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {}
        self.viol = {}
        self.assumptions = []
        self.notes = []

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def need(self, k, least=1):
        """A rule that matched nothing has not been checked."""
        v = self.cov.get(k, 0)
        if isinstance(v, (list, set, tuple)):
            v = len(v)
        if v < least and not self.viol:
            raise AnalysisBroken("%s: expected at least %d %s, found %s" % (self.pid, least, k, v))

    def violation(self, key, file, line, msg, path=()):
        """key names the construct (function, call, field), never a line, so that it survives unrelated edits."""
        if key not in self.viol:
            self.viol[key] = {"key": key, "file": file, "line": line, "message": msg, "path": [str(x) for x in path]}

    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for e in json.load(open(KNOWN)).get("findings", []):
                if e["property"] == self.pid:
                    known[e["key"]] = e
        new = [v for k, v in sorted(self.viol.items()) if k not in known]
        old = [v for k, v in sorted(self.viol.items()) if k in known]
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        out = []
        for v in old:
            print("KNOWN-FINDING: property=%s %s (%s:%s)" % (self.pid, known[v["key"]]["what"], v["file"], v["line"]))
        if new:
            rp = os.path.join(EVID, "replay", "%s.txt" % self.pid)
            with open(rp, "w") as fh:
                for v in new:
                    fh.write("%s:%s: [%s] %s\n  construct: %s\n" % (v["file"], v["line"], self.rule, v["message"], v["key"]))
                    for p in v["path"]:
                        fh.write("    via %s\n" % p)
            for v in new:
                print("%s:%s: %s" % (v["file"], v["line"], v["message"]))
                if v["path"]:
                    print("    path: %s" % " -> ".join(v["path"]))
                out.append({"what": v["message"], "replay": "%s:%s" % (v["file"], v["line"])})
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        cov = {}
        for k, v in self.cov.items():
            cov[k] = sorted(v) if isinstance(v, (set, frozenset)) else v
        cov.setdefault("explanation", self.rule)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 3), "assumptions": self.assumptions}
        if new:
            ev["violations"] = len(out)
            ev["coverage"]["violation_details"] = out
        json.dump(ev, open(os.path.join(EVID, "%s.json" % self.pid), "w"), indent=1)
        if not new:
            c = ", ".join("%s=%s" % (k, len(v) if isinstance(v, (list, set)) else v) for k, v in cov.items() if k != "explanation" and not isinstance(v, (dict, str)))
            print("%s: held (%s) in %.1fs" % (self.pid, c, time.time() - self.t0))
        return 1 if new else 0


def main(table):
    pid = sys.argv[1]
    if pid not in table:
        print("unknown property", pid)
        sys.exit(3)
    try:
        sys.setrecursionlimit(20000)
        c = table[pid]()
        sys.exit(c.finish())
    except AnalysisBroken as e:
        print("ANALYSIS BROKEN: %s" % e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
