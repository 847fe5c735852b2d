"""Verdicts, evidence files, known findings."""
import json, os, time, sys
import vp

class Check:
    def __init__(s, pid, level):
        s.pid, s.level, s.t0 = pid, level, time.time()
        s.viol = []          # (signature, description, replay dict)
        s.cov = {}; s.samples = []; s.assume = []; s.notes = []
    def violation(s, sig, text, data):
        s.viol.append((sig, text, data))
    def count(s, k, n=1):
        s.cov[k] = s.cov.get(k, 0) + n
    def sample(s, x, cap=6):
        if len(s.samples) < cap: s.samples.append(x)
    def finish(s):
        known = []
        kp = os.path.join(vp.VERIF, "known-findings.json")
        if os.path.exists(kp):
            known = [k for k in json.load(open(kp)) if k.get("status") == "known" and k["property"] == s.pid]
        new = []; seen = {}
        for sig, text, data in s.viol:
            k = next((k for k in known if k["signature"] == sig), None)
            if k: seen.setdefault(k["signature"], k)
            else: new.append((sig, text, data))
        for k in seen.values():
            print("KNOWN-FINDING: property=%s %s" % (s.pid, k["what"]))
        cov = dict(s.cov); cov["samples"] = s.samples or ["none"]
        if s.notes: cov["notes"] = s.notes[:50]
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
        ev = dict(property=s.pid, tier=vp.TIER if vp.TIER in ("quick", "thorough") else "quick", seed=vp.SEED, level=s.level, coverage=cov,
                  assumptions=s.assume, wall_s=round(time.time() - s.t0, 2), violations=len(new))
        os.makedirs(os.path.join(vp.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(vp.VERIF, "evidence", s.pid + ".json"), "w"), indent=1)
        if new:
            rd = os.path.join(vp.VERIF, "replays"); os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, "%s-%s.json" % (s.pid, vp.sha(*[x[0] for x in new])[:10]))
            json.dump(dict(property=s.pid, repo=vp.repo_hash(), violations=[dict(signature=a, text=b, data=c) for a, b, c in new[:200]]), open(p, "w"), indent=1)
            for a, b, c in new[:5]: print("  " + b)
            if len(new) > 5: print("  ... %d in all" % len(new))
            print("VIOLATION property=%s replay=%s" % (s.pid, p))
            return 1
        print("OK property=%s %s" % (s.pid, " ".join("%s=%s" % (k, v) for k, v in s.cov.items() if isinstance(v, int))))
        return 0
