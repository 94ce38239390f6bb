"""Check framework: obligations, known findings, evidence, verdict lines."""
import importlib, json, os, subprocess, sys, time, traceback
from front import load, AnalysisError, VERIF, BUILD

KNOWN = os.path.join(VERIF, "known-findings.json")
TOOL = os.path.join(BUILD, "tool", "libo-sa")


def ensure_tool():
    d = os.path.join(VERIF, "tool")
    p = subprocess.run(["make", "-s", "-j8", "-C", d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(TOOL):
        raise AnalysisError("cannot build the analyser:\n" + p.stdout[-2000:])


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.violations = []      # dicts: key, where, rule, detail
        self.samples = []
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.level = "other"
        self.prog = None
        self.scratch = None

    # -- recording ---------------------------------------------------------------------------
    def ok(self, sample=None, n=1):
        self.obligations += n
        self.discharged += n
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, where, rule, detail=""):
        """An obligation that fails.  `key` identifies the construct (never a line number)."""
        self.obligations += 1
        self.violations.append({"key": key, "where": where, "rule": rule, "detail": detail})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, what, got, floor):
        """Instance floor: fewer rule instances than were confirmed by hand is a broken analysis."""
        self.counts[what] = got
        if got < floor:
            raise AnalysisError("%s: %d instances, expected at least %d" % (what, got, floor))

    # -- verdict -----------------------------------------------------------------------------
    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == self.prop]
        kk = {k["key"]: k for k in known}
        new, seen = [], {}
        for v in self.violations:
            if v["key"] in kk:
                seen.setdefault(v["key"], v)
            elif v["key"] not in [n["key"] for n in new]:
                new.append(v)
        for k in kk:
            if k in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, kk[k]["what"]))
        cov = {
            "explanation": "Static analysis of the current tree (%d translation units of the Makefile's linux target, "
                           "plus generated parsers/scanners). %s" % (len(self.prog.units) if self.prog else 0, " ".join(self.rules)),
            "obligations": self.obligations,
            "discharged": self.discharged,
            "known_findings": len(seen),
            "counts": self.counts,
            "samples": self.samples,
            "exhaustive": True,
        }
        if self.level == "proof":
            cov["checker_cmd"] = "./check " + self.prop
            cov["trusted_base"] = self.assumptions or ["clang 18 / LLVM 18"]
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, sort_keys=True)
        rp = os.path.join(VERIF, "evidence", self.prop + ".report.txt")
        with open(rp, "w") as fh:
            for v in self.violations:
                fh.write("[%s] %s\n  at %s\n  rule: %s\n%s\n\n" % ("known" if v["key"] in kk else "NEW", v["key"], v["where"], v["rule"],
                                                                     "\n".join("  | " + l for l in v["detail"].splitlines())))
        for v in new[:40]:
            print("%s: %s\n    %s" % (v["where"], v["rule"], v["key"]))
            for l in v["detail"].splitlines()[:12]:
                print("      " + l)
        print("%s: %d obligations, %d discharged, %d known, %d new violations, %s, %.1fs" %
              (self.prop, self.obligations, self.discharged, len(seen), len(new),
               " ".join("%s=%s" % kv for kv in sorted(self.counts.items())), time.time() - self.t0))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def main(argv):
    if len(argv) != 1:
        print("usage: check <PROPERTY>")
        return 3
    prop = argv[0]
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    try:
        mod = importlib.import_module(prop.lower())
        c = Check(prop)
        ensure_tool()
        c.prog = load()
        mod.run(c)
        if c.obligations == 0:
            raise AnalysisError("no obligation was generated")
        return c.finish()
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 3
