"""Scenarios for the concurrent machine specification (specs/MConc.tla): which compiled
operations run in which thread on which cell.  A scenario carries no expected outcome; the
specification decides every history."""
import itertools, random
from collections import defaultdict
import machine

def vis(p):
    """upper bound on the visible micro-operations of one attempt of a program"""
    priv = lambda c: c["k"] in ("ld", "st") and c["a"][0] == "c" and c["a"][1][1] >= 32 and not any(c["a"][1][2:])
    return max(1, sum(1 for c in p["code"] if c["k"] in ("at", "fn", "irq", "ld", "st", "ll", "sc") and not priv(c)))

def strongest(ords, cas):
    """maximal elements of a set of (success, failure) orderings"""
    def le(a, b): return a == b or a == 0 or b == 4 or (b == 3 and a in (1, 2))
    S = set(ords)
    return sorted(x for x in S if not any(y != x and le(x[0], y[0]) and le(x[1], y[1]) for y in S))

class Pool:
    """distinct programs over all configurations; groups of programs that occur together"""
    def __init__(s, per_cfg):
        s.progs = []; s.ix = {}; s.groups = {}; s.cfgs = {}
        for cfg, P in per_cfg:
            g = defaultdict(set); ords = defaultdict(set)
            for p in P:
                k = machine.canon(p)
                if k not in s.ix:
                    q = {x: p[x] for x in ("name", "op", "w", "ptr", "be", "gran", "code", "blocks")}; q["arch"] = cfg.arch; q["ordered"] = 0
                    s.ix[k] = len(s.progs); s.progs.append(q)
                if p.get("ordd", p["o"] or p["f"]): s.progs[s.ix[k]]["ordered"] = 1
                g[p["w"]].add(s.ix[k]); ords[s.ix[k]].add((p["o"], p["f"]))
            for w in g:
                kinds = []
                for i in sorted(g[w]):
                    for o, f in strongest(ords[i], s.progs[i]["op"] in ("ce", "cw", "fu")): kinds.append((s.progs[i]["op"], i, o, f))
                key = (w, tuple(sorted(kinds)))
                if key not in s.groups: s.groups[key] = dict(w=w, kinds=sorted(kinds), cfg=cfg.name, ptr=cfg.ptr, arch=cfg.arch)
                s.cfgs.setdefault(cfg.name, {})[w] = s.groups[key]
        s.groups = list(s.groups.values())

def val(k, w):
    return [(k * 29 + i * 7 + 11) % 256 if k else (i * 5 + 3) % 256 for i in range(w)]
def xor(a, b): return [x ^ y for x, y in zip(a, b)]

class Builder:
    def __init__(s, pool): s.pool = pool; s.out = []; s.seen = set()
    def call(s, kind, cell, w, k, init, match=True, old=None):
        """kind (op, prog, o, f); k: number of the value it writes"""
        op, p, o, f = kind; v = val(k, w); z = [0] * w
        a, b = {"ld": (z, z), "st": (v, z), "sw": (v, z), "ce": (None, v), "cw": (None, v), "fu": (v, None)}[op]
        if op in ("ce", "cw"): a = old if old is not None else (init if match else val(90, w))
        if op == "fu": b = val(91, w) if match else (old if old is not None else init)
        return dict(p=p, c=cell, a=a, b=b, o=o, f=f, k=vis(s.pool.progs[p]))
    def add(s, name, order, cells, threads, size=None):
        used = sorted({c["p"] for t in threads for c in t})
        key = repr((cells, threads, order))
        if key in s.seen: return
        s.seen.add(key)
        s.out.append(dict(name=name, order=order, cells=cells, threads=threads, size=size or max(c["at"] + c["w"] for c in cells) - 4096 + 4))

def cellrec(k, w, v=0): return dict(at=4096 + 16 * k, w=w, m=val(v, w))

def one_cell(pool, rnd, per_group, three=True):
    """2 and 3 threads on one cell"""
    B = Builder(pool)
    for g in pool.groups:
        w, K = g["w"], g["kinds"]; init = val(0, w); lds = [k for k in K if k[0] == "ld"]
        # 1-byte cells: values may collide; keep the value numbers apart
        def C(kind, k, **kw): return B.call(kind, 1, w, k, init, **kw)
        pick = lambda: rnd.choice(K)
        nm = lambda ts: "%s/%d: " % (g["cfg"], 8 * w) + " || ".join(";".join(x[0] for x in t) for t in ts)
        todo = []
        if three:
            for X, Y in itertools.combinations_with_replacement(K, 2):
                if X[0] == "ld" and Y[0] == "ld": continue
                todo.append([[X], [Y], [lds[0], lds[0]]])
        for X in K:
            for Y in K:
                todo.append([[X, lds[0]], [Y, rnd.choice(lds)]]); todo.append([[X, Y], [lds[0], lds[0]]])
        for _ in range(per_group):
            todo.append([[pick(), pick()], [pick(), pick()]])
        rnd.shuffle(todo)
        if per_group >= 0: todo = todo[:max(per_group, 1) + 40] if per_group < 200 else todo
        for ts in todo:
            n = 0; th = []
            vals = [init] + [val(i + 1, w) for i in range(sum(map(len, ts)))]
            for t in ts:
                cs = []
                for x in t:
                    n += 1
                    old = None
                    if x[0] in ("ce", "cw"): old = init if rnd.random() < .6 else rnd.choice(vals)
                    cs.append(C(x, n, match=(rnd.random() < .7), old=old if x[0] in ("ce", "cw") else (rnd.choice(vals))))
                th.append(cs)
            B.add(nm(ts), 1, [cellrec(0, w)], th)
        if w < 2: continue
        # a writer that brings one half of the cell back (A, B, A') while another operation runs
        h = w // 2; sts = [k for k in K if k[0] == "st"]; v1, v2 = val(1, w), val(2, w)
        for X in K:
            for back in (init[:h] + v2[h:], v2[:h] + init[h:]):
                wr = [dict(B.call(rnd.choice(sts), 1, w, 1, init), a=v1), dict(B.call(rnd.choice(sts), 1, w, 2, init), a=back)]
                B.add(nm([[X], [sts[0], sts[0]]]) + " half back", 1, [cellrec(0, w)], [[B.call(X, 1, w, 3, init, match=rnd.random() < .7)], wr])
    return B.out

R_OPS = ("ld", "ce", "cw", "fu", "sw"); W_OPS = ("st", "sw", "ce", "cw", "fu")
SHAPES = {
    # name: threads of (role, cell); W writes, R reads, F = compare-exchange that fails
    "SB": [[("W", 0), ("R", 1)], [("W", 1), ("R", 0)]],
    "MP": [[("W", 0), ("W", 1)], [("R", 1), ("R", 0)]],
    "LB": [[("R", 0), ("W", 1)], [("R", 1), ("W", 0)]],
    "S": [[("W", 0), ("W", 1)], [("R", 1), ("W", 0)]],
    "R": [[("W", 0), ("W", 1)], [("W", 1), ("R", 0)]],
    "2+2W": [[("W", 0), ("W", 1)], [("W", 1), ("W", 0)]],
    "IRIW": [[("W", 0)], [("W", 1)], [("R", 0), ("R", 1)], [("R", 1), ("R", 0)]],
    "WRC": [[("W", 0)], [("R", 0), ("W", 1)], [("R", 1), ("R", 0)]],
    "RWC": [[("W", 0)], [("R", 0), ("R", 1)], [("W", 1), ("R", 0)]],
    "WWC": [[("W", 0)], [("R", 0), ("W", 1)], [("R", 1), ("W", 0)]],
    "MPQ": [[("W", 0), ("W", 1)], [("W", 1), ("R", 0)]],
}

def litmus(pool, rnd, shapes, budget, cas_only=False, groups=None, sc_only=False):
    """budget: scenarios per (group, shape)"""
    B = Builder(pool)
    for g in (groups or pool.groups):
        same = [x for n, x in pool.cfgs.get(g["cfg"], {}).items()]
        for sh in shapes:
            T = SHAPES[sh]; ncell = 1 + max(c for t in T for _, c in t)
            full = []
            slots = [x for t in T for x in t]
            def cands(role, gg):
                return [k for k in gg["kinds"] if k[0] in (W_OPS if role == "W" else R_OPS)]
            combos = 1
            for role, c in slots: combos *= len(cands(role, g))
            if combos == 0: continue
            for n in range(min(budget, combos)):
                if combos <= budget:
                    i = n; ch = []
                    for role, c in slots:
                        L = cands(role, g); ch.append(L[i % len(L)]); i //= len(L)
                    gs = [g] * ncell
                else:
                    gs = [g] + [g if rnd.random() < .6 else rnd.choice(same) for _ in range(ncell - 1)]
                    ch = [rnd.choice(cands(role, gs[c]) or [None]) for role, c in slots]
                    if None in ch: continue
                if sc_only: ch2 = [k for k in ch if k[2] == 4]
                if cas_only and not any(k[0] in ("ce", "cw", "fu") for k in ch): continue
                it = iter(ch); k = 0; th = []
                for t in T:
                    cs = []
                    for role, c in t:
                        kd = next(it); w = gs[c]["w"]; init = val(0, w); k += 1
                        if role == "R": cs.append(B.call(kd, c + 1, w, k, init, match=False))
                        else:
                            other = None
                            if kd[0] in ("ce", "cw") and sum(1 for tt in T for r2, c2 in tt if c2 == c and r2 == "W") > 1 and rnd.random() < .5: other = val(rnd.randrange(1, 5), w)
                            cs.append(B.call(kd, c + 1, w, k, init, match=True, old=other if kd[0] in ("ce", "cw") else None))
                    th.append(cs)
                B.add("%s/%s %s: " % (g["cfg"], "+".join(str(8 * x["w"]) for x in gs), sh) + " ".join("%s%d%d" % (x[0], x[2], x[3]) for x in ch), 1,
                      [cellrec(c, gs[c]["w"]) for c in range(ncell)], th)
    return B.out

def renumber(pool, scens):
    """restrict the program table to what the scenarios use"""
    used = sorted({c["p"] for s in scens for t in s["threads"] for c in t}); ix = {p: i + 1 for i, p in enumerate(used)}
    P = [pool.progs[p] for p in used]
    S = [dict(s, threads=[[dict(c, p=ix[c["p"]]) for c in t] for t in s["threads"]]) for s in scens]
    return P, S
