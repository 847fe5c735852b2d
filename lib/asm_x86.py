"""x86 inline-assembly templates (Intel syntax) -> micro-operations of specs/Machine.tla."""
import re
from llir import Unsupported, C

R64 = {}
for b in ("ax", "bx", "cx", "dx"):
    R64["r" + b] = (b, 0, 8); R64["e" + b] = (b, 0, 4); R64[b] = (b, 0, 2); R64[b[0] + "l"] = (b, 0, 1); R64[b[0] + "h"] = (b, 1, 1)
for b in ("si", "di", "bp", "sp"):
    R64["r" + b] = (b, 0, 8); R64["e" + b] = (b, 0, 4); R64[b] = (b, 0, 2); R64[b + "l"] = (b, 0, 1)
for i in range(8, 16):
    R64["r%d" % i] = ("r%d" % i, 0, 8); R64["r%dd" % i] = ("r%d" % i, 0, 4); R64["r%dw" % i] = ("r%d" % i, 0, 2); R64["r%db" % i] = ("r%d" % i, 0, 1)
for i in range(16): R64["xmm%d" % i] = ("xmm%d" % i, 0, 16)
SZ = {"byte": 1, "word": 2, "dword": 4, "qword": 8, "xmmword": 16, "tbyte": 10}
CC = {"e": (["m", "zf"], 0), "z": (["m", "zf"], 0), "ne": (["m", "zf"], 1), "nz": (["m", "zf"], 1), "c": (["m", "cf"], 0), "b": (["m", "cf"], 0), "nae": (["m", "cf"], 0),
      "nc": (["m", "cf"], 1), "ae": (["m", "cf"], 1), "nb": (["m", "cf"], 1), "s": (["m", "sf"], 0), "ns": (["m", "sf"], 1),
      "be": (["or", ["m", "cf"], ["m", "zf"]], 0), "na": (["or", ["m", "cf"], ["m", "zf"]], 0), "a": (["or", ["m", "cf"], ["m", "zf"]], 1), "nbe": (["or", ["m", "cf"], ["m", "zf"]], 1)}

class X86:
    def __init__(s, ptr): s.ptr = ptr; s.be = False
    # ---------------------------------------------------------------- IR atomics on x86
    def ir_load(s, L, r, a, n, o):
        if n > (8 if s.ptr == 8 else 8): raise Unsupported("IR atomic load of %d bytes" % n)
        L.emit(k="ld", d=r, a=a, n=n, x="m")
    def ir_store(s, L, a, n, v, o):
        if n > 8: raise Unsupported("IR atomic store")
        if o == "seq_cst":
            L.emit(k="at", body=[dict(k="st", a=a, n=n, e=v, x="m")])
        else: L.emit(k="st", a=a, n=n, e=v, x="m")
    def ir_rmw(s, L, l, dst, env):
        m = re.match(r"cmpxchg\s+(weak\s+)?(volatile\s+)?ptr\s+(\S+), (.*)$", l)
        from llir import split_top
        if m:
            _, a = L.tv("ptr " + m.group(3), env); ps = split_top(m.group(4)); t, old = L.tv(ps[0], env)
            new = re.sub(r"\s+(monotonic|acquire|release|acq_rel|seq_cst)\s+(monotonic|acquire|seq_cst)$", "", ps[1]); _, new = L.tv(new, env); n = L.m.size(t)
            L.emit(k="nu", e=old, w="ub: IR compare-exchange on an uninitialised value")
            r, q = L.fresh(n), L.fresh(1)
            L.emit(k="at", body=[dict(k="ld", d=r, a=a, n=n, x="m"), dict(k="let", d=q, e=["eq", ["r", r], old]), dict(k="st", a=a, n=n, e=["ite", ["r", q], new, ["r", r]], x="m")])
            env[dst] = ["cat", ["r", r], ["r", q]]; return
        m = re.match(r"atomicrmw\s+(volatile\s+)?(\w+)\s+ptr\s+(\S+), (.*)$", l)
        if m and m.group(2) in ("xchg", "or", "and", "add", "sub", "xor"):
            _, a = L.tv("ptr " + m.group(3), env); ps = split_top(m.group(4)); t, v = L.tv(re.sub(r"\s+(monotonic|acquire|release|acq_rel|seq_cst)$", "", ps[0]), env); n = L.m.size(t); r = L.fresh(n)
            e = v if m.group(2) == "xchg" else [m.group(2), ["r", r], v]
            L.emit(k="at", body=[dict(k="ld", d=r, a=a, n=n, x="m"), dict(k="st", a=a, n=n, e=e, x="m")]); env[dst] = ["r", r]; return
        raise Unsupported(l[:60])
    # ---------------------------------------------------------------- one block
    def asm(s, L, bi, blk, text):
        if not blk["intel"] and text.strip(): raise Unsupported("AT&T syntax")
        s.L, s.blk, s.bi = L, blk, bi
        mentioned = set(); s.out = []; s.fp = []; s.usedfp = False
        ops = blk["ops"]
        for o in ops:
            c = o["cls"]; o["fix"] = ""; o["pool"] = []
            m = re.match(r"^\{(\w+)\}$", c)
            if m:
                if m.group(1) not in R64: raise Unsupported("register class " + c)
                o["fix"] = R64[m.group(1)][0]; mentioned.add(o["fix"])
        stmts = [x.strip() for ln in text.split("\n") for x in ln.split(";")]
        labels = []; code = []
        for st in stmts:
            while True:
                m = re.match(r"^(\d+|[.\w$]+):\s*(.*)$", st)
                if not m: break
                labels.append((m.group(1), len(code))); st = m.group(2)
            if st and not st.startswith("#") and not st.startswith("//"): code.append(st)
        for st in code:
            for t in re.findall(r"\b[a-z][a-z0-9]+\b", re.sub(r"\$\{[^}]*\}", " ", st)):
                if t in R64: mentioned.add(R64[t][0])
        # candidate registers for operands the compiler is free to place
        gen = [o for o in ops if not o["fix"] and o["tie"] < 0]
        base = ["bx", "si", "di", "cx", "ax", "dx"]
        extra = ["r8", "r9", "r14", "r15"] if s.ptr == 8 else ["bp"]
        pool = [r for r in base if r in mentioned or r in ("bx", "si")]
        if len(gen) + 1 > len(extra): extra = extra + (["r10", "r11", "bp"] if s.ptr == 8 else [])
        pool += extra[:max(2, len(gen))]
        if s.ptr == 4: pool = [r for r in base] + ["bp"]
        xp = ["xmm0", "xmm1", "xmm2"]
        for o in gen:
            c = o["cls"].strip("&=")
            if c == "r": o["pool"] = list(pool)
            elif c == "q": o["pool"] = list(pool) if s.ptr == 8 else ["ax", "bx", "cx", "dx"]
            elif c == "x": o["pool"] = xp
            else: raise Unsupported("constraint " + c)
        blk["clobregs"] = [R64[c][0] for c in blk["clob"] if c in R64]
        blk["flags"] = int("flags" in blk["clob"] or "cc" in blk["clob"])
        regs = list(dict.fromkeys(sorted(mentioned) + pool + [r for o in ops for r in o["pool"]] + blk["clobregs"] + ["sp"]))
        blk["all"] = [[r, 16 if r.startswith("xmm") else s.ptr] for r in regs]; blk["sp"] = "sp"
        # a default allocation
        import itertools
        used = [o["fix"] for o in ops if o["fix"]] + blk["clobregs"]; d = []
        for o in ops:
            if o["fix"]: r = o["fix"]
            elif o["tie"] >= 0: r = d[o["tie"]]
            else:
                r = next((x for x in reversed(o["pool"]) if x not in used), None)
                if r is None: r = o["pool"][0]
            used.append(r); d.append(r)
        blk["def"] = d
        # a block may use the x87 stack only if all eight registers are declared clobbered (the stack is empty at entry only then)
        s.stclob = all(x in blk["clob"] for x in ["st"] + ["st(%d)" % i for i in range(1, 8)])
        # translate
        L.emit(k="asm", b=bi)
        pos = {}; fix = []
        for i, st in enumerate(code + [None]):
            for n, at in labels:
                if at == i: pos.setdefault((n, i), len(L.code) + 1)
            if st is None: break
            st = re.sub(r"\s+", " ", st).strip()
            s.ins(st, i, fix)
        if s.fp: L.emit(k="err", w="clobber: x87 stack not empty at the end of the block")
        if s.usedfp and not s.stclob: L.emit(k="err", w="clobber: x87 stack registers used but not declared clobbered")
        if s.usedfp and "fpsr" not in blk["clob"]: L.emit(k="err", w="clobber: x87 status flags change in a block that promises to preserve them")
        L.emit(k="end", b=bi)
        labs = sorted(((n, at) for n, at in labels), key=lambda x: x[1])
        for ci, fld, ref, at in fix:
            m = re.match(r"^(\d+)([bf])$", ref)
            if m:
                c = [a for n, a in labs if n == m.group(1)]
                c = [a for a in c if a <= at][-1:] if m.group(2) == "b" else [a for a in c if a > at][:1]
            else: c = [a for n, a in labs if n == ref]
            if not c: raise Unsupported("label " + ref)
            k = m.group(1) if m else ref
            L.code[ci - 1][fld] = pos[(k, c[0])]
        # the regs/widths in TLA are looked up by name
    # ---------------------------------------------------------------- operands
    def opref(s, t):
        """register operand -> (ref, off, n) or None"""
        m = re.match(r"^\$\{?(\d+)(?::(\w))?\}?$", t)
        if m:
            k = int(m.group(1)); o = s.blk["ops"][k]; n = o["n"]; md = m.group(2)
            off = 0
            if o["cls"].strip("=&") == "x": return ["o", k + 1], 0, 16
            if o["tie"] >= 0: pass
            if md: n, off = {"b": (1, 0), "h": (1, 1), "w": (2, 0), "k": (4, 0), "q": (8, 0), "x": (16, 0)}[md]
            return ["o", k + 1], off, n
        if t in R64:
            r, off, n = R64[t]
            if s.ptr == 4 and (n == 8 or re.match(r"r\d", r)): raise Unsupported("64-bit register in 32-bit code")
            return ["m", r], off, n
        return None
    def imm(s, t):
        if re.match(r"^-?(0x[0-9a-fA-F]+|\d+)$", t): return int(t, 0)
        return None
    def addr(s, t):
        m = re.match(r"^(?:(\w+) ptr )?(?:ds:|ss:)?\[(.*)\]$", t)
        if not m:
            m = re.match(r"^(?:(\w+) ptr )?\$\{?(\d+)\}?$", t)
            if not m or not m.group(1): return None
            raise Unsupported("memory operand " + t)
        n = SZ[m.group(1)] if m.group(1) else None
        e = None
        for sg, term in re.findall(r"([+-]?)\s*([^+\-\s][^+\-]*)", m.group(2)):
            term = term.strip(); v = s.imm(term)
            if v is not None: x = C((-v if sg == "-" else v) & ((1 << 8 * s.ptr) - 1), s.ptr)
            else:
                p = [q.strip() for q in term.split("*")]
                r = next((s.opref(q) for q in p if s.opref(q)), None)
                if r is None or sg == "-": raise Unsupported("address " + t)
                if r[2] != s.ptr:
                    if r[2] == 4 and s.ptr == 8: x = ["zext", ["ext", r[0], 0, 4], 8]
                    else: raise Unsupported("address register size " + t)
                else: x = ["ext", r[0], r[1], r[2]]
                if len(p) == 2:
                    k = next(s.imm(q) for q in p if s.imm(q) is not None); x = ["shl", x, C({1: 0, 2: 1, 4: 2, 8: 3}[k], 1)]
            e = x if e is None else ["add", e, x]
        return e, n
    def rd(s, t, n):
        """value of a register/immediate operand of size n"""
        r = s.opref(t)
        if r: return ["ext", r[0], r[1], n if n < r[2] else r[2]]
        v = s.imm(t)
        if v is not None: return C(v & ((1 << 8 * n) - 1), n)
        raise Unsupported("operand " + t)
    def wr(s, r, e, body=None, cond=None):
        ref, off, n = r
        zx = 1 if (n == 4 and s.ptr == 8 and off == 0 and not (ref[0] == "m" and ref[1].startswith("xmm"))) else 0
        d = dict(k="wr", r=ref, off=off, n=n, e=e, zx=zx)
        if body is not None: body.append(d)
        else: s.L.emit(**d)
    def seq(s, ms, locked):
        if locked: s.L.emit(k="at", body=ms)
        else:
            for m in ms: s.L.emit(**m)
    def size(s, *ts):
        for t in ts:
            r = s.opref(t)
            if r: return r[2]
        for t in ts:
            a = s.addr(t)
            if a and a[1]: return a[1]
        raise Unsupported("operand size")
    def let(s, body, e, n):
        r = s.L.fresh(n); body.append(dict(k="let", d=r, e=e)); return ["r", r]
    def setf(s, body, **f):
        def put(nm, e): body.append(dict(k="wr", r=["m", nm], off=0, n=1, e=e, zx=0))
        for nm in ("zf", "cf", "sf", "of"):
            if f.get(nm) is not False: put(nm, f.get(nm) or ["c", [256]])
        put("FL", ["c", [1]])
    def top(s, e, n): return ["bit0", ["lshr", ["ext", e, n - 1, 1], ["c", [7]]]]
    # ---------------------------------------------------------------- instructions
    def ins(s, st, i, fix):
        L = s.L; lock = False
        if st.startswith("lock "): lock = True; st = st[5:].strip()
        m = re.match(r"^([a-z][a-z0-9]*)\s*(.*)$", st)
        if not m: raise Unsupported("asm " + st)
        op = m.group(1); a = []
        d = 0; cur = ""
        for ch in m.group(2):
            if ch in "[{": d += 1
            if ch in "]}": d -= 1
            if ch == "," and d == 0: a.append(cur.strip()); cur = ""
            else: cur += ch
        if cur.strip(): a.append(cur.strip())
        a = [re.sub(r"\$\{?(\d+)(:\w)?\}?", lambda m: "${%s%s}" % (m.group(1), m.group(2) or ""), x) for x in a]
        mem = [s.addr(x) for x in a]
        body = []
        V = op.startswith("v") and op not in ("verr", "verw")
        if op in ("nop", "pause", "lfence", "sfence", "endbr64", "endbr32", "prefetchw"): return
        if op == "mfence": L.emit(k="fn"); return
        if op in ("mov", "movabs", "movzx", "movsx", "movsxd", "movq", "movd", "vmovq", "movlps", "vmovlps", "movlpd", "movsd", "movss", "movaps", "movapd", "movdqa", "movdqu", "movups", "vmovaps", "vmovdqa", "vmovdqu", "vmovups"):
            if lock: raise Unsupported("lock mov")
            sse = op not in ("mov", "movabs", "movzx", "movsx", "movsxd")
            if len(a) != 2: raise Unsupported(st)
            if not sse:
                n = s.size(a[0], a[1]) if op in ("mov", "movabs") else None
                if mem[0]:
                    if mem[0][1]: n = mem[0][1]
                    L.emit(k="st", a=mem[0][0], n=n, e=s.rd(a[1], n), x="m"); return
                dst = s.opref(a[0])
                if op in ("mov", "movabs"):
                    if mem[1]:
                        r = L.fresh(dst[2]); L.emit(k="ld", d=r, a=mem[1][0], n=dst[2], x="m"); s.wr(dst, ["r", r])
                    else: s.wr(dst, s.rd(a[1], dst[2]))
                    return
                if mem[1]:
                    n = mem[1][1]; r = L.fresh(n); L.emit(k="ld", d=r, a=mem[1][0], n=n, x="m"); e = ["r", r]
                else: q = s.opref(a[1]); n = q[2]; e = ["ext", q[0], q[1], n]
                s.wr(dst, ["zext" if op == "movzx" else "sext", e, dst[2]]); return
            n = {"movq": 8, "vmovq": 8, "movd": 4, "movlps": 8, "vmovlps": 8, "movlpd": 8, "movsd": 8, "movss": 4}.get(op, 16)
            isx = lambda t: (s.opref(t) or [None, 0, 0])[2] == 16
            if mem[0]:
                if not isx(a[1]): raise Unsupported(st)
                src = s.opref(a[1])
                if n == 16 and not V:
                    for h in (0, 8): L.emit(k="st", a=["add", mem[0][0], C(h, s.ptr)], n=8, e=["ext", src[0], h, 8], x="m")
                else: L.emit(k="st", a=mem[0][0], n=n, e=["ext", src[0], 0, n], x="m")
                return
            dst = s.opref(a[0])
            if mem[1]:
                keep = op in ("movlps", "movlpd")
                if n == 16 and not V:
                    for h in (0, 8):
                        r = L.fresh(8); L.emit(k="ld", d=r, a=["add", mem[1][0], C(h, s.ptr)], n=8, x="m"); s.wr((dst[0], h, 8), ["r", r])
                    return
                r = L.fresh(n); L.emit(k="ld", d=r, a=mem[1][0], n=n, x="m")
                if keep or n == 16: s.wr((dst[0], 0, n), ["r", r])
                else: s.wr((dst[0], 0, 16), ["zext", ["r", r], 16])
                return
            src = s.opref(a[1]) if len(a) == 2 else None
            if src is None: raise Unsupported(st)
            e = ["ext", src[0], src[1], min(n, src[2])]
            if dst[2] == 16:
                if op in ("movlps", "movlpd"): raise Unsupported(st)
                if op in ("movsd", "movss"): s.wr((dst[0], 0, n), e)
                else: s.wr((dst[0], 0, 16), ["zext", e, 16])
            else: s.wr((dst[0], 0, n) if n == dst[2] else dst, e if n == dst[2] else ["ext", e, 0, dst[2]])
            return
        if op == "xchg":
            if mem[0] or mem[1]:
                k = 0 if mem[0] else 1; r = s.opref(a[1 - k]); n = r[2]; t = L.fresh(n)
                body.append(dict(k="ld", d=t, a=mem[k][0], n=n, x="m")); body.append(dict(k="st", a=mem[k][0], n=n, e=["ext", r[0], r[1], n], x="m"))
                s.wr(r, ["r", t], body); s.seq(body, True); return
            r, q = s.opref(a[0]), s.opref(a[1]); n = r[2]
            t1 = s.let(body, ["ext", r[0], r[1], n], n); t2 = s.let(body, ["ext", q[0], q[1], n], n)
            s.wr(r, t2, body); s.wr(q, t1, body); s.seq(body, False); return
        if op == "cmpxchg":
            acc = ("ax",); n = s.size(a[1]); new = s.rd(a[1], n); t = L.fresh(n); A = (["m", "ax"], 0, n)
            if not mem[0]: raise Unsupported(st)
            body.append(dict(k="ld", d=t, a=mem[0][0], n=n, x="m"))
            z = s.let(body, ["eq", ["r", t], ["ext", A[0], 0, n]], 1)
            body.append(dict(k="st", a=mem[0][0], n=n, e=["ite", z, new, ["r", t]], x="m"))
            s.setf(body, zf=z)
            s.wr(A, ["r", t], body)          # equal: same value
            s.seq(body, lock); return
        if op in ("cmpxchg8b", "cmpxchg16b"):
            h = 4 if op == "cmpxchg8b" else 8; n = 2 * h; t = L.fresh(n); f = lambda r: ["ext", ["m", r], 0, h]
            if not mem[0]: raise Unsupported(st)
            if lock: body.append(dict(k="ld", d=t, a=mem[0][0], n=n, x="m"))
            else:
                t1, t2 = L.fresh(h), L.fresh(h)
                body += [dict(k="ld", d=t1, a=mem[0][0], n=h, x="m"), dict(k="ld", d=t2, a=["add", mem[0][0], C(h, s.ptr)], n=h, x="m"), dict(k="let", d=t, e=["cat", ["r", t1], ["r", t2]])]
            z = s.let(body, ["eq", ["r", t], ["cat", f("ax"), f("dx")]], 1)
            v = ["ite", z, ["cat", f("bx"), f("cx")], ["r", t]]
            if lock: body.append(dict(k="st", a=mem[0][0], n=n, e=v, x="m"))
            else: body += [dict(k="st", a=mem[0][0], n=h, e=["ext", v, 0, h], x="m"), dict(k="st", a=["add", mem[0][0], C(h, s.ptr)], n=h, e=["ext", v, h, h], x="m")]
            s.setf(body, zf=z, cf=False, sf=False, of=False)
            s.wr((["m", "ax"], 0, h), ["ext", ["r", t], 0, h], body); s.wr((["m", "dx"], 0, h), ["ext", ["r", t], h, h], body)
            s.seq(body, lock); return
        if op == "xadd":
            n = s.size(a[1]); q = s.opref(a[1]); t = L.fresh(n)
            if mem[0]:
                body.append(dict(k="ld", d=t, a=mem[0][0], n=n, x="m")); body.append(dict(k="st", a=mem[0][0], n=n, e=["add", ["r", t], ["ext", q[0], q[1], n]], x="m")); s.setf(body); s.wr(q, ["r", t], body); s.seq(body, lock); return
            raise Unsupported(st)
        if op in ("add", "sub", "and", "or", "xor", "cmp", "test", "adc", "sbb"):
            if op in ("adc", "sbb"): raise Unsupported(st)
            n = (mem[0] and mem[0][1]) or s.size(a[0], a[1])
            if mem[0]:
                t = L.fresh(n); body.append(dict(k="ld", d=t, a=mem[0][0], n=n, x="m")); x = ["r", t]
            else: x = s.rd(a[0], n)
            if mem[1]:
                t2 = L.fresh(n); body.append(dict(k="ld", d=t2, a=mem[1][0], n=n, x="m")); y = ["r", t2]
            else: y = s.rd(a[1], n)
            same = a[0] == a[1] and op in ("xor", "sub")
            e = C(0, n) if same else {"add": ["add", x, y], "sub": ["sub", x, y], "cmp": ["sub", x, y], "and": ["and", x, y], "test": ["and", x, y], "or": ["or", x, y], "xor": ["xor", x, y]}[op]
            r = s.let(body, e, n)
            cf = C(0, 1) if op in ("and", "or", "xor", "test") or same else ["ult", x, y] if op in ("sub", "cmp") else ["ult", r, x]
            s_cf = s.let(body, cf, 1)
            if op not in ("cmp", "test"):
                if mem[0]: body.append(dict(k="st", a=mem[0][0], n=n, e=r, x="m"))
                else: s.wr(s.opref(a[0]), r, body)
            s.setf(body, zf=["eq", r, C(0, n)], cf=s_cf, sf=s.top(r, n), of=C(0, 1) if op in ("and", "or", "xor", "test") else None)
            s.seq(body, lock); return
        if op in ("inc", "dec", "neg", "not"):
            n = (mem[0] and mem[0][1]) or s.size(a[0])
            if mem[0]:
                t = L.fresh(n); body.append(dict(k="ld", d=t, a=mem[0][0], n=n, x="m")); x = ["r", t]
            else: x = s.rd(a[0], n)
            e = {"inc": ["add", x, C(1, n)], "dec": ["sub", x, C(1, n)], "neg": ["sub", C(0, n), x], "not": ["not", x]}[op]
            r = s.let(body, e, n)
            if mem[0]: body.append(dict(k="st", a=mem[0][0], n=n, e=r, x="m"))
            else: s.wr(s.opref(a[0]), r, body)
            if op != "not": s.setf(body, zf=["eq", r, C(0, n)], sf=s.top(r, n), cf=False if op != "neg" else None)
            s.seq(body, lock); return
        if op in ("shl", "shr", "sar", "sal"):
            n = s.size(a[0]); r = s.opref(a[0]); v = s.imm(a[1])
            if mem[0] or v is None: raise Unsupported(st)
            e = [{"shl": "shl", "sal": "shl", "shr": "lshr", "sar": "ashr"}[op], s.rd(a[0], n), C(v, 1)]; x = s.let(body, e, n); s.wr(r, x, body); s.setf(body, zf=["eq", x, C(0, n)], sf=s.top(x, n)); s.seq(body, False); return
        if op == "lea":
            r = s.opref(a[0]); s.wr(r, ["ext", mem[1][0], 0, r[2]] if r[2] < s.ptr else mem[1][0]); return
        m = re.match(r"^set(\w+)$", op)
        if m and m.group(1) in CC:
            e, ng = CC[m.group(1)]; e = ["not1", e] if ng else e
            if mem[0]: L.emit(k="st", a=mem[0][0], n=1, e=e, x="m")
            else: s.wr(s.opref(a[0]), e)
            return
        m = re.match(r"^cmov(\w+)$", op)
        if m and m.group(1) in CC:
            e, ng = CC[m.group(1)]; r = s.opref(a[0]); n = r[2]
            if mem[1]: t = L.fresh(n); L.emit(k="ld", d=t, a=mem[1][0], n=n, x="m"); y = ["r", t]
            else: y = s.rd(a[1], n)
            x = ["ext", r[0], r[1], n]; s.wr(r, ["ite", e, x, y] if ng else ["ite", e, y, x]); return
        if op == "jmp": fix.append((L.emit(k="jp", t=0), "t", a[0], i)); return
        m = re.match(r"^j(\w+)$", op)
        if m and m.group(1) in CC:
            e, ng = CC[m.group(1)]; c = L.emit(k="br", c=["not1", e] if ng else e, t=0, f=0); fix.append((c, "t", a[0], i)); L.code[c - 1]["f"] = len(L.code) + 1; return
        if op in ("push", "pop"):
            r = s.opref(a[0])
            if not r or r[2] != s.ptr: raise Unsupported(st)
            sp = (["m", "sp"], 0, s.ptr)
            if op == "push":
                t = s.let(body, ["ext", r[0], 0, s.ptr], s.ptr); s.wr(sp, ["sub", ["m", "sp"], C(s.ptr, s.ptr)], body); body.append(dict(k="st", a=["m", "sp"], n=s.ptr, e=t, x="m"))
            else:
                t = L.fresh(s.ptr); body.append(dict(k="ld", d=t, a=["m", "sp"], n=s.ptr, x="m")); s.wr(sp, ["add", ["m", "sp"], C(s.ptr, s.ptr)], body); s.wr(r, ["r", t], body)
            s.seq(body, False); return
        if op in ("fild", "fld", "fistp", "fstp"):
            s.usedfp = True
            if not mem or not mem[0]: raise Unsupported(st)
            n = mem[0][1]
            if op == "fild":
                if n not in (4, 8): raise Unsupported(st)
                t = L.fresh(n); L.emit(k="ld", d=t, a=mem[0][0], n=n, x="m"); s.fp.append(("i", t, n))
            elif op == "fld":
                if n not in (4, 8): raise Unsupported(st)
                t = L.fresh(n); u = L.fresh(n); L.emit(k="ld", d=t, a=mem[0][0], n=n, x="m"); L.emit(k="let", d=u, e=["q64" if n == 8 else "q32", ["r", t]]); s.fp.append(("f", u, n))
            else:
                if not s.fp: L.emit(k="err", w="clobber: pops an x87 register it did not push"); return
                kd, t, m_ = s.fp.pop()
                if kd != ("i" if op == "fistp" else "f") or m_ != n: raise Unsupported("x87 conversion")
                L.emit(k="st", a=mem[0][0], n=n, e=["r", t], x="m")
            return
        if op in ("pshufd", "vpshufd", "shufps") and not any(mem):
            k = s.imm(a[2]); d, x = s.opref(a[0]), s.opref(a[1])
            if k is None: raise Unsupported(st)
            src = [x[0]] * 4 if op != "shufps" else [d[0], d[0], x[0], x[0]]
            e = None
            for j in range(4):
                y = ["ext", src[j], 4 * ((k >> (2 * j)) & 3), 4]; e = y if e is None else ["cat", e, y]
            s.wr((d[0], 0, 16), e); return
        if op in ("punpckldq", "unpcklps") and not any(mem):
            d, x = s.opref(a[0]), s.opref(a[1])
            s.wr((d[0], 0, 16), ["cat", ["cat", ["ext", d[0], 0, 4], ["ext", x[0], 0, 4]], ["cat", ["ext", d[0], 4, 4], ["ext", x[0], 4, 4]]]); return
        if op in ("xorps", "pxor", "xorpd", "vpxor") and len(set(a)) == 1:
            r = s.opref(a[0]); s.wr(r, C(0, 16)); return
        raise Unsupported("instruction " + st)
