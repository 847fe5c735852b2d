"""The engines behind the checks; PLAN maps each property to the engines that decide it."""
import json, os
import vp
thorough = lambda: vp.TIER == "thorough"

# ---------------------------------------------------------------- specification -> code replay
VALUE_KINDS = {"ok", "res", "post", "outbuf", "args", "panic", "crash", "hang"}
def sel_c01(f): return f["what"] in ("transition", "history") and f["op"] in ("ld", "st", "sw", "ce", "cw") and f["kind"] in VALUE_KINDS
def sel_c03(f): return f["what"] in ("transition", "history") and f["op"] in ("ce", "cw") and f["kind"] in VALUE_KINDS
def sel_c05(f): return f["op"] == "fu" and f["what"] == "fetch_update" and f["kind"] not in ("neighbour", "regs")
def sel_c08(f): return f["kind"] in ("neighbour", "outbuf", "args") or f["what"] == "read-only" or f["kind"] == "crash"
def sel_c09(f): return f["what"] == "ordering" or f["kind"] == "panic"
def sel_c10(f): return f["what"] in ("layout",) or f["op"] in ("new", "cnew", "from", "fromv", "gmr", "gmw", "apr", "apw", "into", "fpld", "fpst")
def sel_c11(f): return f["kind"] in ("regs", "fpu")
def sel_c14(f): return f["kind"] in ("hang", "spurious")

def replay_engine(kinds, sel, walks=(60, 1500), full=(True, True), fu=(3, 4), opstat=None):
    def eng(c):
        i = 1 if thorough() else 0
        vec, st = vp.vectors(kinds, walks=walks[i] if "W" in kinds else 0, fu_rounds=fu[i] if "F" in kinds else 0)
        cfgs = vp.x86_configs()
        def one(cfg):
            try: exe = vp.build_driver(cfg)
            except vp.ToolError as e: return cfg, None, str(e)
            return cfg, vp.replay(cfg, vec, full=full[i], maxfail=2000), None
        ran = 0; tot = 0
        for cfg, r, err in vp.pmap(one, cfgs):
            if r is None:
                c.notes.append("configuration %s does not build (judged by C13): %s" % (cfg.name, err.strip().splitlines()[-1][:200])); continue
            fails, stat = r; ran += 1
            tot += sum(v for k, v in stat.items() if k not in ("vectors", "failures", "histories"))
            for f in fails:
                if sel(f):
                    sig = "replay:%s:%s:%s:%s:%d%d:%s" % (f["cfg"], f["op"], f["type"], f["kind"], f["o"], f["f"], f["what"])
                    c.violation(sig, "%s: %s on %s (orderings %d,%d; %s): %s; cell %s a %s b %s" % (f["cfg"], f["op"], f["type"], f["o"], f["f"], f["what"], f["detail"], f["pre"], f["a"], f["b"]), f)
        if not ran: raise vp.ToolError("no configuration could be built: " + (c.notes[-1] if c.notes else ""))
        c.count("states", st["states"]); c.count("transitions", st["transitions"])
        c.count("traces_validated_against_impl", tot); c.count("configurations", ran)
        c.count("spec_transitions_replayed", st["edges"]); c.count("spec_histories_replayed", st["histories"]); c.count("spec_fetch_update_paths_replayed", st["fu_paths"])
        with open(vec) as fh:
            ls = [l.strip() for l in fh if l[0] in "EWF"]
        for l in ls[:: max(1, len(ls) // 3)][:3]: c.sample("replayed behaviour: " + l)
    return eng

# ---------------------------------------------------------------- the compiled operations on the machine
import random, re
import machine, scen

def pool_notes(c, notes):
    agg = {}
    for n in notes:
        k = re.sub(r": \S+ not modelled", ": operations not modelled", n); agg[k] = agg.get(k, 0) + 1
    for k, v in list(agg.items())[:20]: c.notes.append("%s (%d)" % (k, v))

def split_conf(name): return name.split(":")[0]

def get_pool(c, cross):
    if not cross: pool, notes = machine.x86_pool()
    else: pool, notes = machine.cross_pool((False if thorough() else cross) if isinstance(cross, str) else thorough())
    pool_notes(c, notes); return pool

def mseq_engine(modes, sel, ops=None, cross=False):
    """every compiled operation alone on the machine"""
    def eng(c):
        pool = get_pool(c, cross)
        D = [dict(p) for p in pool.progs if not ops or p["op"] in ops]
        for p in D: p.pop("arch", None)
        if not D: c.notes.append("no operation could be modelled"); return
        for mode in modes:
            # values x neighbourhood; every register allocation; uninitialised bytes
            wt = lambda p: len(p["code"]) * (1 + 4 * (p["op"] in ("ce", "cw"))) * (1 + 6 * (mode == "alloc" and len(p["blocks"]) == 1 and len([o for o in p["blocks"][0]["ops"] if not o["fix"]]) ** 2))
            rs = vp.pmap(lambda b: machine.run_tlc("MSeq", b, {"Mode": '"%s"' % mode, "Wide": "TRUE" if thorough() else "FALSE"}, "Verdict", constraint="Stop"), machine.split(D, vp.NCPU, wt))
            c.count("states", sum(r.distinct for r in rs)); c.count("transitions", sum(r.generated for r in rs))
            if any(r.partial for r in rs): c.notes.append("INCOMPLETE: %d of %d TLC runs of mode %s ran out of time" % (sum(r.partial for r in rs), len(rs), mode))
            for r in rs:
                for x in vp.tlc_json(r.out, "BAD"):
                    if x["w"].startswith("unsup"): c.notes.append("%s: %s" % (x["i"]["p"], x["w"])); continue
                    if sel(x["w"], x["i"]):
                        cls = x["w"].split(":")[0]
                        c.violation("mseq:%s:%s:%s" % (mode, x["i"]["p"], cls), "%s [%s]: %s; cell %s a %s b %s registers %s" % (x["i"]["p"], mode, x["w"], x["i"]["m"], x["i"]["a"], x["i"]["b"], x["i"]["al"]),
                                    dict(x, mode=mode, program=next((p for p in D if p["name"] == x["i"]["p"]), None)))
        c.count("programs_lifted_from_compiled_code", pool.nlifted); c.count("distinct_programs", len(D)); c.count("configurations_modelled", pool.nconf)
        c.sample("program %s: %d micro-operations, blocks %d" % (D[0]["name"], len(D[0]["code"]), len(D[0]["blocks"])))
    return eng

def conc_run(c, pool, S, sel, what, buffers=True):
    if not S: c.notes.append("no scenario for " + what); return
    def one(b):
        P, SS = scen.renumber(pool, b)
        for p in P: p.pop("arch", None)
        return machine.run_tlc("MConc", P, {"Buffers": "TRUE" if buffers else "FALSE", "Track": "FALSE"}, "Verdict", scens=SS, constraint="Stop")
    wt = lambda s: 4 ** len(s["threads"]) * sum(len(t) for t in s["threads"]) ** 2
    rs = vp.pmap(one, sorted(machine.split(S, vp.NCPU if len(S) < 400 else 4 * vp.NCPU, wt), key=lambda b: -sum(map(wt, b))))
    c.count("states", sum(r.distinct for r in rs)); c.count("transitions", sum(r.generated for r in rs)); c.count("scenarios_" + what, len(S))
    if any(r.partial for r in rs): c.notes.append("INCOMPLETE: %d of %d TLC runs of %s ran out of time" % (sum(r.partial for r in rs), len(rs), what))
    by = {s["name"]: s for s in S}
    for r in rs:
        for x in vp.tlc_json(r.out, "BAD"):
            if x["w"].startswith("unsup"): c.notes.append("%s: %s" % (x["s"], x["w"])); continue
            s = by[x["s"]]; ops = {pool.progs[k["p"]]["op"] for t in s["threads"] for k in t}
            if sel(x["w"], ops):
                c.violation("conc:%s:%s" % (x["s"], x["w"].split(":")[0]), "%s: %s; results %s final %s" % (x["s"], x["w"], x["h"], x["m"]), dict(x, scenario=s))
    c.sample("scenario: " + S[0]["name"]); c.sample("scenario: " + S[-1]["name"])

def one_cell_engine(n, sel, only=None, cross=False, cap=None):
    def eng(c):
        pool = get_pool(c, cross)
        rnd = random.Random(vp.SEED * 1000 + 7)
        S = scen.one_cell(pool, rnd, n[1 if thorough() else 0])
        if only: S = [s for s in S if any(pool.progs[k["p"]]["op"] in only for t in s["threads"] for k in t)]
        if cap:
            hassc = lambda t: any(x["k"] == "sc" for k in t for x in pool.progs[k["p"]]["code"])
            S = [s for s in S if thorough() or not cross or sum(map(hassc, s["threads"])) < 3]
            rnd.shuffle(S); seen = set(); first = []; rest = []          # every program at least once
            for s in S:
                ps = {k["p"] for t in s["threads"] for k in t}
                (rest if ps <= seen else first).append(s); seen |= ps
            S = (first + rest)[:max(cap[1 if thorough() else 0], len(first))]
        for s in S: s["order"] = 0
        conc_run(c, pool, S, sel, "one_cell", buffers=not cross)
    return eng

def litmus_engine(shapes, n, sel, order, cas_only=False):
    def eng(c):
        pool = get_pool(c, False)
        rnd = random.Random(vp.SEED * 1000 + 11)
        i = 1 if thorough() else 0
        A = []
        for sh, k in shapes.items():
            S = scen.litmus(pool, rnd, [sh], max(1, int(n[i] * k)), cas_only=cas_only)
            c.count("scenarios_" + sh, len(S)); A += S
        for s in A: s["order"] = order
        conc_run(c, pool, A, sel, "litmus")
    return eng

pre = lambda *ps: (lambda w, *_: any(w.startswith(p) for p in ps))
def pre_ops(ops, *ps): return lambda w, i: any(w.startswith(p) for p in ps) and (i["p"].split(":")[1][:2] in ops)

def hw(*a, **k): return lambda c: __import__("hw").engine(*a, **k)(c)

PLAN = {
    "C01": [replay_engine("EW", sel_c01), mseq_engine(["values"], pre_ops(("ld", "st", "sw", "ce", "cw"), "value")), mseq_engine(["values"], pre_ops(("ld", "st", "sw", "ce", "cw"), "value"), ops=("ld", "st", "sw", "ce"), cross="mini")],
    "C02": [one_cell_engine((25, 400), pre("cell", "race", "wild")), one_cell_engine((0, 100), pre("cell", "race", "wild"), cross="mini", cap=(250, 4000))],
    "C03": [replay_engine("EW", sel_c03), mseq_engine(["values"], pre_ops(("ce", "cw"), "value")), one_cell_engine((20, 300), lambda w, ops: w.startswith("cell"), only=("ce", "cw"), cap=(1000, 10**6)), mseq_engine(["values"], pre_ops(("ce", "cw"), "value"), ops=("ce", "cw"), cross="mini")],
    "C04": [mseq_engine(["undef"], pre("ub", "value", "panic")), mseq_engine(["undef"], pre("ub", "value", "panic"), cross="mini")],
    "C05": [replay_engine("FP", sel_c05), mseq_engine(["values"], pre_ops(("fu",), "value", "panic", "hang"), ops=("fu",)), one_cell_engine((20, 300), lambda w, ops: w.startswith("cell") or w.startswith("retry"), only=("fu",), cap=(1000, 10**6)), mseq_engine(["values"], pre_ops(("fu",), "value", "panic", "hang"), ops=("fu",), cross="mini")],
    "C06": [mseq_engine(["values"], pre("order", "effect")), litmus_engine({"MP": 1, "S": .5, "LB": .5, "WRC": .2, "WWC": .2}, (8, 120), pre("order"), 1),
            hw((6, 30), (0, 1), shapes=("MP", "S", "LB", "LBa", "WRC", "WRCa", "WWC", "ISA2", "MPU"), few=True)],
    "C07": [mseq_engine(["values"], pre("order", "effect")), litmus_engine({"SB": 2.5, "R": .5, "2+2W": .5, "RWC": .1, "IRIW": .1}, (6, 160), pre("order"), 2),
            hw((10, 40), (0, 1), shapes=("SB", "R", "2+2W", "RWC", "IRIW", "WRCs", "Z6"), few=True)],
    "C08": [replay_engine("E", sel_c08), mseq_engine(["values"], pre("foot", "wild", "neighbour")), one_cell_engine((0, 100), pre("neighbour", "wild"), cap=(900, 20000)), mseq_engine(["values"], pre("foot", "wild", "neighbour"), cross="mini")],
    "C09": [replay_engine("EFP", sel_c09), mseq_engine(["values"], pre("panic"))],
    "C10": [replay_engine("EWL", sel_c10)],
    "C11": [replay_engine("EW", sel_c11), mseq_engine(["alloc"], lambda w, i: True), mseq_engine(["alloc"], lambda w, i: True, cross="mini")],
    "C12": [litmus_engine({"MP": 1, "SB": 1, "S": .5, "R": .5, "2+2W": .5, "WRC": .1, "RWC": .1}, (7, 160), pre("order"), 2, cas_only=True),
            hw((8, 40), (0, 1), shapes=("MP", "S", "LB", "LBa", "WRCa", "MPU", "SB", "R", "2+2W", "IRIW"), cas=True, few=True)],
    "C13": [lambda c: __import__("cfgs").engine(c)],
    "C14": [replay_engine("EF", sel_c14), mseq_engine(["values"], pre("hang")), one_cell_engine((10, 200), pre("retry", "hang"), cap=(1500, 10**6)), mseq_engine(["values"], pre("hang"), cross="mini"), one_cell_engine((0, 100), pre("retry", "hang"), cross="mini", cap=(120, 2000))],
    "C15": [mseq_engine(["values", "undef", "alloc"], lambda w, *_: True, cross=True), one_cell_engine((0, 100), lambda w, *_: True, cross=True, cap=(1200, 20000))],
    "C16": [hw((10, 60), (0, 2))],
}
LEVEL = {}
