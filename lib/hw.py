"""Ordering under the processors' own memory models: the events of every compiled operation
(specs/Skel.tla) are put into litmus programs, which specs/Hw.tla judges."""
import json, random, re
from collections import defaultdict
import vp, machine

ALL = ("RR", "RW", "WR", "WW")
def model(c):
    a = c.arch
    if a in ("arm", "aarch64", "arm64ec"): return "armv8"
    if a.startswith("riscv"): return "rvwmo"
    if a.startswith("powerpc"): return "power"
    if a.startswith("mips") or a.startswith("loongarch"): return "weak"
    if a == "s390x": return "tso"
    if a == "sparc64" or (a == "sparc" and "v9" in c.tfeats): return "rmo"
    if a == "sparc": return "pso"
    return None

def pairs(f):
    """the pairs of accesses that a barrier keeps in order"""
    if f in ("dmb ish", "dmb sy", "dsb ish", "dsb sy", "sync", "bcr", "ldstub", "serial", "mcr") or f.startswith("mcr"): return ALL
    if f in ("dmb ishld", "dmb ld", "dsb ishld"): return ("RR", "RW")
    if f in ("dmb ishst", "dmb st", "stbar"): return ("WW",)
    m = re.match(r"fence (\w+), ?(\w+)$", f)
    if m: return tuple(a.upper() + b.upper() for a in m.group(1) for b in m.group(2) if a in "rw" and b in "rw")
    if f == "fence.tso": return ("RR", "RW", "WW")
    m = re.match(r"dbar (\d+)$", f)
    if m:
        h = int(m.group(1))
        if h == 0x700: return ()
        if h >= 0x20 or h & 0x10 == 0 and False: return None
        # hint bits: 3 = earlier reads, 2 = earlier writes, 1 = later reads, 0 = later writes (a set bit lifts the constraint)
        return tuple(a + b for a, x in (("R", 8), ("W", 4)) for b, y in (("R", 2), ("W", 1)) if not h & x and not h & y)
    m = re.match(r"membar (\d+)$", f)
    if m:
        k = int(m.group(1)); return tuple(p for b, p in ((1, "RR"), (2, "WR"), (4, "RW"), (8, "WW")) if k & b) if not k & 0x70 else ALL
    return None

def acq(o): return o >= 2
def rel(o): return o in (1, 3, 4)
def le(a, b): return a == b or a == 0 or b == 4 or (b == 3 and a in (1, 2))

class Classes:
    """per configuration: the distinct event sequences with the strongest orderings they serve"""
    def __init__(s): s.skels = []; s.ix = {}; s.by = defaultdict(lambda: defaultdict(set)); s.ex = {}; s.cas = set()
    def add(s, cfg, mdl, ev, o, what):
        k = json.dumps(ev, sort_keys=True)
        if k not in s.ix:
            s.ix[k] = len(s.skels)
            rd = max([i for i, e in enumerate(ev, 1) if e["k"] == "R"] or [0]); wr = max([i for i, e in enumerate(ev, 1) if e["k"] == "W" and not e["wb"]] or [0])
            s.skels.append(dict(ev=ev, rd=rd, wr=wr))
        i = s.ix[k]; s.by[cfg][i].add(o); s.ex.setdefault((cfg, i, o), what)
        if what.split(":")[1][:2] in ("ce", "cw", "fu"): s.cas.add((cfg, i, o))

def conv(ev, mdl):
    out = []
    for e in ev:
        if e["k"] == "F":
            if mdl == "power": f, o = [], e["o"]
            else:
                p = pairs(e["o"])
                if p is None: return None, e["o"]
                f, o = list(p), ""
                if not f: f = []
        else: f, o = [], e["o"]
        out.append(dict(k=e["k"], o=o, f=f, x=e["x"], ll=e["ll"], c=sorted(e["c"]), wb=e["wb"]))
    return out, None

def build(c, R):
    """-> ({config: model}, Classes)"""
    notes = set(); P = []; home = {}
    for cfg, PP in R:
        m = model(cfg)
        if m is None: notes.add("%s: no relaxed memory model is documented (single core or sequential): only the assembly's declared effects are checked" % cfg.name)
        home[cfg.name] = m
        P += [dict(p) for p in PP]
    D = machine.dedupe(P)
    names = {p["name"]: list(zip(p["names"], p["ords"])) for p in D}
    for p in D: p["ordered"] = int(any(o or f for o, f in p.pop("ords"))); p["names"] = []
    rs = vp.pmap(lambda b: machine.run_tlc("Skel", b, {}, "SkelOut"), machine.split(D, vp.NCPU, lambda p: len(p["code"])))
    c.count("states", sum(r.distinct for r in rs)); c.count("transitions", sum(r.generated for r in rs))
    C = Classes()
    for r in rs:
        for x in vp.tlc_json(r.out, "NOTE"):
            if x["w"].startswith(("order", "effect")):
                for nm, _ in names[x["p"]][:1]: c.violation("hw:%s:contract" % nm, "%s: %s" % (nm, x["w"]), x)
                continue
            notes.add("%s: %s" % (x["p"].split(":")[0], x["w"]))
        for x in vp.tlc_json(r.out, "SKEL"):
            for nm, (o, f) in names[x["p"]]:
                cfg = nm.split(":")[0]
                if home[cfg] is None: continue
                ev, bad = conv(x["ev"], home[cfg])
                if ev is None: notes.add("%s: barrier %s is unknown" % (cfg, bad)); continue
                C.add(cfg, home[cfg], ev, o if x["c"] == "ok" else f, nm + "/" + x["c"])
    for n in sorted(notes)[:40]: c.notes.append(n)
    c.count("programs_lifted_from_compiled_code", sum(len(PP) for _, PP in R)); c.count("distinct_programs", len(D)); c.count("event_skeletons", len(C.skels))
    return home, C

# role (R, W, U update), cell, demand
SHAPES = {
    "MP":   [["W0*", "W1r"], ["R1a", "R0*"]],
    "S":    [["W0*", "W1r"], ["R1a", "W0*"]],
    "LB":   [["R0*", "W1r"], ["R1a", "W0*"]],
    "LBa":  [["R0a", "W1*"], ["R1a", "W0*"]],
    "WRC":  [["W0*"], ["R0*", "W1r"], ["R1a", "R0*"]],
    "WRCa": [["W0r"], ["R0a", "W1r"], ["R1a", "R0*"]],
    "WWC":  [["W0*"], ["R0*", "W1r"], ["R1a", "W0*"]],
    "ISA2": [["W0*", "W1r"], ["R1a", "W2r"], ["R2a", "R0*"]],
    "MPU":  [["W0*", "W1r"], ["U1*"], ["R1a", "R0*"]],
    "Z6":   [["W0*", "W1r"], ["R1a", "W2r"], ["W2s", "R0s"]],
    "SB":   [["W0s", "R1s"], ["W1s", "R0s"]],
    "R":    [["W0s", "W1s"], ["W1s", "R0s"]],
    "2+2W": [["W0s", "W1s"], ["W1s", "W0s"]],
    "RWC":  [["W0s"], ["R0s", "R1s"], ["W1s", "R0s"]],
    "IRIW": [["W0s"], ["W1s"], ["R0s", "R1s"], ["R1s", "R0s"]],
    "WRCs": [["W0s"], ["R0*", "W1s"], ["R1s", "R0s"]],
}
MEET = {"*": lambda o: True, "r": rel, "a": acq, "s": lambda o: o == 4}

def scenarios(home, C, rnd, budget, n2, shapes=None, cas=False, near=2):
    """budget(shape): scenarios per configuration; n2: extra partners per focus thread; cas: a compare-exchange in every focus thread"""
    out = {}; cov = defaultdict(set)
    for cfg in sorted(C.by):
        K = []
        for i, os_ in sorted(C.by[cfg].items()):
            top = [o for o in os_ if not any(p != o and le(o, p) for p in os_)]
            K += [(i, o, min(os_)) for o in sorted(top)]
        def cand(slot):
            r, m = slot[0], MEET[slot[2]]
            L = [k for k in K if (r != "R" or C.skels[k[0]]["rd"]) and (r != "W" or C.skels[k[0]]["wr"]) and (r != "U" or (C.skels[k[0]]["rd"] and C.skels[k[0]]["wr"])) and m(k[1])]
            if slot[2] == "*":                       # the cheapest event sequences
                L = [(k[0], k[2], k[2]) for k in L if k[2] == 0] or L
            return L
        cost = lambda k: (len(C.skels[k[0]]["ev"]), k[0])
        for sh, T in SHAPES.items():
            if shapes and sh not in shapes: continue
            cc = [[cand(x) for x in t] for t in T]
            if not all(all(t) for t in cc): continue
            dflt = [[min(x, key=cost) for x in t] for t in cc]
            S = []
            seen_thr = set()
            for ti, t in enumerate(cc):
                combos = [(a,) for a in t[0]] if len(t) == 1 else [(a, b) for a in t[0] for b in t[1]]
                for co in combos:
                    if cas and not any((cfg, k[0], k[1]) in C.cas for k in co): continue
                    th = [list(d) for d in dflt]; th[ti] = list(co); S.append(th)
                    for _ in range(n2):
                        th = [[rnd.choice(x) for x in u] for u in cc]; th[ti] = list(co); S.append(th)
            # every event sequence in every slot next to the cheapest (weakest) partners, then the rest in random order
            few = [[{k[:2] for k in sorted(x, key=cost)[:near]} for x in t] for t in cc]; first = []; rest = []; got = set()
            rnd.shuffle(S)
            for th in S:
                plain = [i for i in range(len(T)) if th[i] != dflt[i]]
                ks = set()
                if len(plain) <= 1:
                    for i in plain or range(len(T)):
                        t = th[i]
                        ks |= {(i, j, t[j][:2], t[1 - j][:2]) for j in range(len(t)) if t[1 - j][:2] in few[i][1 - j]} if len(t) == 2 else {(i, 0, t[0][:2])}
                (rest if ks <= got else first).append(th); got |= ks
            for th in first + rest[:max(0, budget(sh) - len(first))]:
                key = (home[cfg], sh, json.dumps([[k[:2] for k in t] for t in th]))
                if key in out: continue
                out[key] = dict(name="%s %s: %s" % (cfg, sh, " | ".join("; ".join("%s=%s%s" % (T[i][j][:2], C.ex.get((cfg, k[0], k[1]), "?").split(":")[1], "") for j, k in enumerate(t)) for i, t in enumerate(th))),
                                model=home[cfg], lvl=2, nc=1 + max(int(x[1]) for t in T for x in t),
                                threads=[[dict(s=k[0], l=int(T[i][j][1]) + 1, o=k[1]) for j, k in enumerate(t)] for i, t in enumerate(th)])
    return list(out.values())

def run_batch(C, S):
    used = sorted({e["s"] for s in S for t in s["threads"] for e in t}); ix = {u: i + 1 for i, u in enumerate(used)}
    data = dict(skels=[C.skels[u] for u in used], scens=[dict(s, threads=[[dict(e, s=ix[e["s"]]) for e in t] for t in s["threads"]]) for s in S])
    cfg = "CONSTANTS ScenFile = \"scens.json\"\nSPECIFICATION Spec\nINVARIANTS Verdict\nCHECK_DEADLOCK FALSE\n"
    return vp.tlc("Hw", cfg, workers=1, files={"scens.json": json.dumps(data)}, timeout=850, heap="3g")

def weight(C, s):
    n = [0] * s["nc"]
    for t in s["threads"]:
        for e in t:
            k = C.skels[e["s"]]; n[e["l"] - 1] += sum(1 for x in k["ev"] if x["k"] != "F")
    w = 1
    for x in n: w *= 2 ** min(x, 8)
    return w

def engine(budget, n2, shapes=None, cas=False, few=False):
    def eng(c):
        th = vp.TIER == "thorough"; i = 1 if th else 0
        R, notes = machine.cross_progs("few" if few and not th else th)
        from engines import pool_notes
        pool_notes(c, notes)
        home, C = build(c, R)
        rnd = random.Random(vp.SEED * 1000 + 13)
        S = scenarios(home, C, rnd, lambda sh: budget[i], n2[i], shapes, cas, (1 if few else 2) + (2 if th else 0))
        if not S: c.notes.append("no litmus program"); return
        rs = vp.pmap(lambda b: run_batch(C, b), machine.split(S, 4 * vp.NCPU, lambda s: weight(C, s)))
        c.count("states", sum(r.distinct for r in rs)); c.count("transitions", sum(r.generated for r in rs)); c.count("litmus_programs", len(S)); c.count("configurations_modelled", len(home))
        if any(r.partial for r in rs): c.notes.append("INCOMPLETE: %d of %d TLC runs ran out of time" % (sum(r.partial for r in rs), len(rs)))
        by = {s["name"]: s for s in S}; seen = set()
        for r in rs:
            for x in vp.tlc_json(r.out, "BAD"):
                if x["s"] in seen: continue
                seen.add(x["s"]); s = by[x["s"]]
                c.violation("hw:" + x["s"], "%s (%s): the processor may let reads %s see writes in the order %s, which the orderings forbid" % (x["s"], s["model"], x["rf"], x["co"]),
                            dict(x, scenario=s, skeletons={e["s"]: C.skels[e["s"]] for t in s["threads"] for e in t}))
        for s in S[:: max(1, len(S) // 4)][:4]: c.sample(s["name"])
    return eng
