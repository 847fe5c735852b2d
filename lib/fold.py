"""Meaning-preserving reduction of a lifted program: constant and copy propagation through
registers and through the private memory of stack variables, branches on constants, dead stores
to stack variables that nothing reads.  It makes the many operations that differ only in the way
an ordering constant reaches them the same program, and keeps the state spaces small."""
from llir import C, isc, cval, PRIV

NCODE = 60
def walk(e, f):
    if isinstance(e, list):
        if e and e[0] in ("c", "r", "m", "o", "o0"): f(e); return
        for x in e[1:]: walk(x, f)

def exprs(c):
    for k in ("e", "c", "a"):
        if isinstance(c.get(k), list): yield c[k]
    for b in c.get("body", ()):
        yield from exprs(b)

def defs(c):
    out = [c["d"]] if "d" in c else []
    for b in c.get("body", ()): out += defs(b)
    return out

def ev(e):
    """fold an expression bottom-up; returns an equivalent expression"""
    k = e[0]
    if k in ("c", "r", "m", "o", "o0"): return e
    a = [ev(x) if isinstance(x, list) else x for x in e[1:]]
    ok = all(not isinstance(x, list) or isc(x) for x in a)
    if k == "ext":
        x, off, n = a
        if x[0] == "c": return ["c", x[1][off:off + n]]
        if x[0] == "ext": return ["ext", x[1], x[2] + off, n]
    if k == "cat" and a[0][0] == "c" and a[1][0] == "c": return ["c", a[0][1] + a[1][1]]
    if k == "zext" and a[0][0] == "c": return ["c", (a[0][1] + [0] * a[1])[:a[1]]]
    if ok:
        V = [cval(x) if isinstance(x, list) else x for x in a]
        if k in ("add", "sub", "and", "or", "xor"):
            n = len(a[0][1]); x, y = V
            return C({"add": x + y, "sub": x - y, "and": x & y, "or": x | y, "xor": x ^ y}[k] & ((1 << 8 * n) - 1), n)
        if k == "not": n = len(a[0][1]); return C(~V[0] & ((1 << 8 * n) - 1), n)
        if k in ("shl", "lshr"):
            n = len(a[0][1]); return C(0 if V[1] >= 8 * n else (V[0] << V[1] if k == "shl" else V[0] >> V[1]) & ((1 << 8 * n) - 1), n)
        if k == "eq": return C(int(a[0][1] == a[1][1]), 1)
        if k == "ult": return C(int(V[0] < V[1]), 1)
        if k == "bit0": return C(V[0] & 1, 1)
        if k == "not1" and V[0] in (0, 1): return C(1 - V[0], 1)
        if k == "ite": return a[1] if V[0] & 1 else a[2]
    if k == "ite" and isc(a[0]): return a[1] if cval(a[0]) & 1 else a[2]
    return [k] + a

def subst(e, R):
    if e[0] == "r": return R.get(e[1], e)
    if e[0] in ("c", "m", "o", "o0"): return e
    return [e[0]] + [subst(x, R) if isinstance(x, list) else x for x in e[1:]]

def succ(c, i):
    if c["k"] == "jp": return [c["t"]]
    if c["k"] == "br": return [c["t"], c["f"]]
    if c["k"] in ("ret", "panic", "dead"): return []
    return [i + 1]

def propagate(L):
    code = L.code; be = L.m.be; ptr = L.m.ptr
    cnt = {}
    for c in code:
        for d in defs(c): cnt[d] = cnt.get(d, 0) + 1
    ssa = lambda r: cnt.get(r, 0) <= 1
    # ---- forward data flow: (registers, private bytes); None where not reached
    inn = {1: ({}, {})}; work = [1]; out = {}
    npred = {}
    for i, c in enumerate(code, 1):
        for t in succ(c, i): npred[t] = npred.get(t, 0) + 1
    def step(c, R, M):
        """-> (new micro-operation, R, M)"""
        c = dict(c)
        for k in ("e", "c", "a"):
            if isinstance(c.get(k), list): c[k] = ev(subst(c[k], R))
        if "body" in c: c["body"] = [dict(b, **{k: ev(subst(b[k], R)) for k in ("e", "c", "a") if isinstance(b.get(k), list)}) for b in c["body"]]
        if c["k"] == "asm": c["opx"] = [ev(subst(o["e"], R)) if o["dir"] == "in" else o["e"] for o in L.blocks[c["b"] - 1]["ops"]]
        ds = defs(c)
        if c["k"] == "end":
            ds = ["O%d_%d" % (c["b"], k + 1) for k in range(len(L.blocks[c["b"] - 1]["ops"]))]
        R2, M2 = R, M
        if c["k"] == "ld" and c["x"] == "ir" and isc(c["a"]):
            a = cval(c["a"]); bs = [M.get(a + j) for j in range(c["n"])]
            if be: bs.reverse()
            if all(b is not None for b in bs):
                e = None
                if all(b[0] == "c" for b in bs): e = ["c", [b[1] for b in bs]]
                elif all(b[0] == "r" and b[1] == bs[0][1] and b[2] == bs[0][2] + j for j, b in enumerate(bs)):
                    e = ["r", bs[0][1]] if bs[0][2] == 0 and L.len.get(bs[0][1]) == c["n"] else ["ext", ["r", bs[0][1]], bs[0][2], c["n"]]
                if e is not None: c = dict(k="let", d=c["d"], e=e)
        if ds:
            R2 = {k: v for k, v in R.items() if k not in ds}
            if c["k"] == "let" and (c["e"][0] == "c" or (c["e"][0] == "r" and ssa(c["e"][1])) or (c["e"][0] == "ext" and c["e"][1][0] == "r" and ssa(c["e"][1][1]))) and ssa(c["d"]): R2[c["d"]] = c["e"]
            elif c["k"] == "let" and c["e"][0] == "c": R2[c["d"]] = c["e"]
        if c["k"] == "st":
            if isc(c["a"]):
                a = cval(c["a"]); e = c["e"]; n = c["n"]; M2 = dict(M)
                for j in range(n):
                    at = a + (n - 1 - j if be else j)
                    if c["x"] != "ir": M2.pop(at, None)
                    elif e[0] == "c": M2[at] = ("c", e[1][j])
                    elif e[0] == "r" and ssa(e[1]): M2[at] = ("r", e[1], j)
                    elif e[0] == "ext" and e[1][0] == "r" and ssa(e[1][1]): M2[at] = ("r", e[1][1], e[2] + j)
                    else: M2.pop(at, None)
            else: M2 = {}
        elif c["k"] in ("at", "sc", "asm"): M2 = {}
        return c, R2, M2
    def join(t, R, M):
        if t not in inn: inn[t] = (R, M); work.append(t); return
        R0, M0 = inn[t]
        R1 = R0 if R0 is R else {k: v for k, v in R0.items() if R.get(k) == v}; M1 = M0 if M0 is M else {k: v for k, v in M0.items() if M.get(k) == v}
        if len(R1) != len(R0) or len(M1) != len(M0): inn[t] = (R1, M1); work.append(t)
    while work:
        i = work.pop(); R, M = inn[i]
        c, R2, M2 = step(code[i - 1], R, M)
        if c["k"] == "br" and isc(c["c"]): tg = [c["t"] if cval(c["c"]) & 1 else c["f"]]
        else: tg = succ(c, i)
        for t in tg: join(t, R2, M2)
    new = []; opx = {}
    for i, c in enumerate(code, 1):
        if i not in inn: new.append(dict(k="dead", w="not reached")); continue
        c, _, _ = step(c, *inn[i])
        if c["k"] == "br" and isc(c["c"]): c = dict(k="jp", t=c["t"] if cval(c["c"]) & 1 else c["f"])
        if c["k"] == "nu" and c["e"][0] == "c" and 256 not in c["e"][1]: c = dict(k="jp", t=i + 1)
        if c["k"] == "ub" and isc(c["c"]) and cval(c["c"]) & 1: c = dict(k="jp", t=i + 1)
        if c["k"] == "asm":
            opx[c["b"]] = c.pop("opx")
        new.append(c)
    for b, x in opx.items():
        for o, e in zip(L.blocks[b - 1]["ops"], x): o["e"] = e
    L.code = new

def dead(L):
    """remove values nothing uses and stores to stack variables that nothing reads"""
    used = set(); consts = set(); loads = []; anyload = False
    live = [c for c in L.code]
    def note(e):
        if e[0] == "r": used.add(e[1])
        elif e[0] == "c" and 256 not in e[1] and len(e[1]) >= L.m.ptr:
            for k in range(len(e[1]) - L.m.ptr + 1): consts.add(cval(["c", e[1][k:k + L.m.ptr]]))
    for c in live:
        for k in ("e", "c"):
            if isinstance(c.get(k), list): walk(c[k], note)
        for b in c.get("body", ()):
            for x in exprs(b): walk(x, note)
        if "a" in c:
            if isc(c["a"]):
                if c["k"] != "st": loads.append((cval(c["a"]), c["n"]))
            else: walk(c["a"], note)
        if c["k"] == "asm":
            for o in L.blocks[c["b"] - 1]["ops"]: walk(o["e"], note)
    esc = [(a, n) for a, n in L.allocas if any(a <= v <= a + n for v in consts)]
    inal = lambda a, n: any(x <= a and a + n <= x + m for x, m in L.allocas)
    kept = lambda a, n: any(x < a + n and a < x + m for x, m in loads) or any(x < a + n and a < x + m for x, m in esc)
    out = []; ch = False; inasm = False
    for i, c in enumerate(L.code, 1):
        drop = False
        if c["k"] == "let" and c["d"] not in used: drop = True
        if c["k"] in ("ld", "st") and c["x"] == "ir" and isc(c["a"]):
            a = cval(c["a"])
            if c["k"] == "ld" and c["d"] not in used and a >= PRIV["a"]: drop = True
            if c["k"] == "st" and inal(a, c["n"]) and not kept(a, c["n"]): drop = True
        if drop: c = dict(k="jp", t=i + 1); ch = True
        out.append(c)
    L.code = out; return ch

def rename(L):
    """canonical names of registers and numbers of blocks, in order of appearance"""
    bl = {}; nb = []
    for c in L.code:
        if c["k"] == "asm" and c["b"] not in bl: bl[c["b"]] = len(bl) + 1; nb.append(L.blocks[c["b"] - 1])
    M = {"Pc": "Pc"}
    def nm(r):
        if r in M: return M[r]
        if r.startswith("O") and "_" in r:
            b, k = r[1:].split("_"); M[r] = "O%d_%s" % (bl[int(b)], k)
        else: M[r] = "V%d" % len(M)
        return M[r]
    def fe(e):
        if e[0] == "r": return ["r", nm(e[1])]
        if e[0] in ("c", "m", "o", "o0"): return e
        return [e[0]] + [fe(x) if isinstance(x, list) else x for x in e[1:]]
    def fc(c):
        c = dict(c)
        for k in ("e", "c", "a"):
            if isinstance(c.get(k), list): c[k] = fe(c[k])
        if "body" in c: c["body"] = [fc(b) for b in c["body"]]
        if "d" in c: c["d"] = nm(c["d"])
        if c["k"] == "asm":
            for o in L.blocks[c["b"] - 1]["ops"]: o["e"] = fe(o["e"])
        if c["k"] in ("asm", "end"): c["b"] = bl[c["b"]]
        return c
    L.code = [fc(c) for c in L.code]; L.blocks = nb

def reduce(L):
    from llir import compress
    compress(L)
    for _ in range(6):
        propagate(L); compress(L)
        n = len(L.code)
        while dead(L): compress(L)
        if len(L.code) == n: break
    # blocks shared by nobody: the same asm statement is translated once per inlining, so block records are not shared
    rename(L)
