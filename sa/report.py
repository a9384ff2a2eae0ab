"""Common result handling: evidence file, known findings, exit status."""
import json, os, sys, time
import contextlib
from .prog import VERIF, AnalysisBroken

class Result:
    def __init__(self, prop): self.prop = prop; self.viol = []; self.cov = {}; self.assume = []; self.notes = []; self.rules = []
    def violation(self, key, msg): self.viol.append((key.replace(" ", "_"), msg))
    def count(self, name, n=1): self.cov[name] = self.cov.get(name, 0) + n
    def sample(self, name, item):
        l = self.cov.setdefault(name, [])
        if len(l) < 400: l.append(item)

    @contextlib.contextmanager
    def guard(self, label):
        """an obligation the analysis may lose track of: noted in the evidence, the others are still decided"""
        try:
            yield
            self.okc = getattr(self, "okc", 0) + 1
        except AnalysisBroken as e:
            self.bad = getattr(self, "bad", 0) + 1; self.lastbroken = e
            self.cov["obligations_not_analysed"] = self.cov.get("obligations_not_analysed", 0) + 1
            self.sample("not_analysed", "%s: %s" % (label, e))
    def require(self):
        if getattr(self, "bad", 0) and not getattr(self, "okc", 0): raise self.lastbroken

def known():
    p = os.path.join(VERIF, "known_findings.txt"); out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                parts = dict(x.split("=", 1) for x in line[7:].split(" ")[:2])
                out.setdefault(parts["property"], {})[parts["key"]] = line.split(" ", 3)[3] if line.count(" ") >= 3 else ""
    return out

def finish(res, tier, seed, t0, explanation):
    ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
    kn = known().get(res.prop, {})
    unk = []; seen = set()
    for key, msg in res.viol:
        if key in seen: continue
        seen.add(key)
        if key in kn: print("KNOWN-FINDING: property=%s %s" % (res.prop, msg))
        else: unk.append((key, msg))
    cov = {"explanation": explanation, "rules": res.rules}
    cov.update(res.cov)
    d = {"property": res.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
         "wall_s": round(time.time() - t0, 2), "violations": [{"key": k, "detail": m} for k, m in unk], "assumptions": res.assume}
    d["violations"] = len(unk)
    d["coverage"]["violation_details"] = [{"key": k, "detail": m} for k, m in unk]
    json.dump(d, open(os.path.join(ev, res.prop + ".json"), "w"), indent=1, sort_keys=True, default=str)
    for k, v in sorted(res.cov.items()):
        if not isinstance(v, (list, dict)): print("%s: %s = %s" % (res.prop, k, v))
    if unk:
        rp = os.path.join(ev, res.prop + ".violation.txt")
        with open(rp, "w") as f:
            for k, m in unk: f.write("%s\n  key=%s\n" % (m, k))
        for k, m in unk: print("  %s [key=%s]" % (m, k))
        print("VIOLATION property=%s replay=%s" % (res.prop, rp))
        return 1
    rp = os.path.join(ev, res.prop + ".violation.txt")
    if os.path.exists(rp): os.unlink(rp)
    return 0
