"""Inline-assembly templates of the architectures other than x86 -> micro-operations of
specs/Machine.tla.  One class per instruction set; nothing is decided here."""
import re
from llir import Unsupported, C, isc, cval

CAS = ("ld", "let", "st")

class Base:
    gran = 1; kregs = None; consts = {}; zero = (); spname = "sp"; flagclob = ("cc", "flags"); excl0 = False
    def __init__(s, cfg):
        s.cfg = cfg; s.ptr = cfg.ptr; s.be = bool(cfg.be); s.feats = set(getattr(cfg, "tfeats", ())) | {m.group(1) for c in cfg.cfgs for m in [re.match(r'atomic_maybe_uninit_target_feature="(.*)"', c)] if m}
        s.setup()
    def setup(s): pass
    # ------------------------------------------------------------ IR-level atomics
    def ir_load(s, L, r, a, n, o): L.emit(k="ld", d=r, a=a, n=n, x="m", o="ir:" + o)
    def ir_store(s, L, a, n, v, o): L.emit(k="st", a=a, n=n, e=v, x="m", o="ir:" + o)
    def ir_rmw(s, L, l, dst, env):
        import asm_x86; asm_x86.X86.ir_rmw(s, L, l, dst, env)
        for c in L.code[-1:]:
            if c["k"] == "at": c["o"] = "ir:seq_cst"
    # ------------------------------------------------------------ one block
    def split(s, text): return [x.strip() for ln in text.split("\n") for x in ln.split(";")]
    def comment(s, st): return st.startswith(("#", "//"))
    def asm(s, L, bi, blk, text):
        s.L, s.blk, s.bi = L, blk, bi
        ops = blk["ops"]; mentioned = set(); s.fix = []
        text = text.replace("$$", "\x01")                      # a literal dollar sign
        text = re.sub(r"\$\((.*?)(\$\|.*?)?\$\)", lambda m: m.group(1), text, flags=re.S) if "$(" in text and "$|" in text else text.replace("$(", "{").replace("$)", "}").replace("$|", "|")
        for o in ops:
            c = o["cls"]; o["fix"] = ""; o["pool"] = []; o["x"] = s.opext(o)
            m = re.match(r"^\{([$\x01]?\w+)\}$", c)
            if m:
                r = s.named(m.group(1).replace("$", "\x01"))
                if r is None: raise Unsupported("register " + c)
                o["fix"] = r; mentioned.add(r)
        labels = []; code = []
        for st in s.split(text):
            while True:
                m = re.match(r"^(\d+|[.\w]+):\s*(.*)$", st)
                if not m: break
                labels.append((m.group(1), len(code))); st = m.group(2)
            st = re.sub(r"\s+", " ", st).strip()
            if st and not s.comment(st) and not st.startswith((".set", ".p2align", ".cfi", ".option", ".arch", ".inst_nop")): code.append(st)
        for st in code:
            for t in re.findall(r"[%\x01]?\b[a-z]+\d*\b(?::\d+)?", re.sub(r"\$\{?\d+(:\w)?\}?", " ", st)):
                for r in s.regs_in(t): mentioned.add(r)
        gen = [o for o in ops if not o["fix"] and o["tie"] < 0]
        blk["clobregs"] = [r for c in blk["clob"] for r in [s.named(c)] if r]
        blk["flags"] = int(any(c in s.flagclob for c in blk["clob"]))
        mentioned |= set(blk["clobregs"])
        mentioned -= {s.spname} | set(s.zero)
        pools = {}; sym = []
        for o in gen:
            c = o["cls"].strip("&=")
            if c not in pools:
                full = s.regclass(c, o["n"]); k = len(gen)
                fresh = [r for r in full if r not in mentioned][:k]
                pools[c] = [r for r in full if r in mentioned] + fresh; 
                if s.excl0 and "r0" in full and "r0" not in pools[c]: pools[c] = ["r0"] + pools[c]; fresh = [r for r in fresh if r != "r0"]
                if fresh: sym.append(fresh)
            o["pool"] = list(pools[c])
        def place(i, d):
            if i == len(ops): return d
            o = ops[i]
            if o["fix"]: return place(i + 1, d + [o["fix"]])
            if o["tie"] >= 0: return place(i + 1, d + [d[o["tie"]]])
            taken = set(d) | set(blk["clobregs"]) | {x["fix"] for x in ops}
            for r in reversed(o["pool"]):
                if r not in taken:
                    x = place(i + 1, d + [r])
                    if x: return x
            return None
        d = place(0, [])
        if d is None: raise Unsupported("no register allocation")
        blk["def"] = d
        # two classes share registers: interchangeable only if the lists do not overlap
        seen = set(); blk["sym"] = []
        for f in sym:
            f = [r for r in f if r not in seen]; seen |= set(f)
            if len(f) > 1: blk["sym"].append(f)
        regs = list(dict.fromkeys(sorted(mentioned) + [r for o in ops for r in o["pool"]] + [r for r in d] + blk["clobregs"] + [s.spname]))
        blk["all"] = [[r, s.width(r)] for r in regs]; blk["sp"] = s.spname
        L.emit(k="asm", b=bi)
        pos = {}; s.code = code; s.skip = -1; labs_at = {}
        for n, at in labels: labs_at.setdefault(at, []).append(n)
        for i, st in enumerate(code + [None]):
            for n in labs_at.get(i, ()): pos.setdefault((n, i), len(L.code) + 1)
            if st is None: break
            if i == s.skip:
                if i in labs_at: raise Unsupported("label in a delay slot")
                continue
            s.i = i; s.stmt(st)
        L.emit(k="end", b=bi)
        labs = sorted(labels, key=lambda x: x[1])
        for ci, fld, ref, at in s.fix:
            m = re.match(r"^(\d+)([bf])$", ref)
            if m:
                c = [a for n, a in labs if n == m.group(1)]
                c = [a for a in c if a <= at][-1:] if m.group(2) == "b" else [a for a in c if a > at][:1]
            else: c = [a for n, a in labs if n == ref]
            if not c: raise Unsupported("label " + ref)
            L.code[ci - 1][fld] = pos[(m.group(1) if m else ref, c[0])]
    def opext(s, o): return 0
    def regs_in(s, t):
        r = s.named(t); return [r] if r else []
    def stmt(s, st):
        m = re.match(r"^(\S+)\s*(.*)$", st); s.ins(m.group(1), s.args(m.group(2)), st)
    def args(s, t):
        a = []; d = 0; cur = ""
        for ch in t:
            if ch in "[({": d += 1
            if ch in "])}": d -= 1
            if ch == "," and d == 0: a.append(cur.strip()); cur = ""
            else: cur += ch
        if cur.strip(): a.append(cur.strip())
        return a
    # ------------------------------------------------------------ operands
    def op(s, t):
        m = re.match(r"^\$\{?(\d+)(?::(\w))?\}?$", t)
        return (int(m.group(1)), m.group(2)) if m else None
    def ref(s, t):
        """register operand -> (ref, size) ; ('zero', size) ; None"""
        p = s.op(t)
        if p: return ["o", p[0] + 1], s.modsize(p[1], p[0])
        z = s.iszero(t)
        if z: return "zero", z
        r = s.named(t)
        return (["m", r], s.namesize(t)) if r else None
    def modsize(s, md, k): return s.rw
    def namesize(s, t): return s.rw
    def width(s, r): return s.rw
    def iszero(s, t): return s.rw if t in s.zero else None
    def imm(s, t):
        t = t.lstrip("#")
        return int(t, 0) if re.match(r"^[-+]?(0x[0-9a-fA-F]+|\d+)$", t) else None
    def get(s, t, n=None):
        r = s.ref(t)
        if r is None:
            v = s.imm(t)
            if v is None: raise Unsupported("operand " + t)
            n = n or s.rw; return C(v & ((1 << 8 * n) - 1), n)
        n = n or r[1]
        return C(0, n) if r[0] == "zero" else ["ext", r[0], 0, n]
    def put(s, t, e, n=None, zx=1, body=None):
        r = s.ref(t)
        if r is None: raise Unsupported("destination " + t)
        if r[0] == "zero": return
        n = n or r[1]
        m = dict(k="wr", r=r[0], off=0, n=n, e=e, zx=zx)
        if body is not None: body.append(m)
        else: s.L.emit(**m)
    def let(s, e, n, body=None):
        r = s.L.fresh(n); m = dict(k="let", d=r, e=e)
        if body is not None: body.append(m)
        else: s.L.emit(**m)
        return ["r", r]
    def freshr(s, n): return ["r", s.L.fresh(n)]
    def flags(s, body=None, **f):
        put = (lambda m: body.append(m)) if body is not None else (lambda m: s.L.emit(**m))
        for nm in ("zf", "cf", "sf", "of"):
            if f.get(nm) is not False: put(dict(k="wr", r=["m", nm], off=0, n=1, e=f.get(nm) or ["c", [256]], zx=0))
        put(dict(k="wr", r=["m", "FL"], off=0, n=1, e=C(1, 1), zx=0))
    def ld(s, a, n, o="", k="ld", **kw):
        r = s.freshr(n); s.L.emit(k=k, d=r[1], a=a, n=n, x="m", o=o, **({"q": kw.get("q", n)} if k == "ll" else {})); return r
    def st(s, a, n, e, o=""): s.L.emit(k="st", a=a, n=n, e=e, x="m", o=o)
    def sc(s, a, n, e, o=""):
        r = s.freshr(1); s.L.emit(k="sc", d=r[1], a=a, n=n, e=e, x="m", o=o); return r
    def at(s, body, o=""): s.L.emit(k="at", body=body, o=o)
    def xchg(s, a, n, e, o=""):
        t = s.freshr(n); s.at([dict(k="ld", d=t[1], a=a, n=n, x="m"), dict(k="st", a=a, n=n, e=e, x="m")], o); return t
    def cas(s, a, n, old, new, o="", extra=None):
        """compare and swap; returns (old value, matched)"""
        t, z = s.freshr(n), s.freshr(1)
        s.at([dict(k="ld", d=t[1], a=a, n=n, x="m"), dict(k="let", d=z[1], e=["eq", t, old]), dict(k="st", a=a, n=n, e=["ite", z, new, t], x="m")], o); return t, z
    def fence(s, f): s.L.emit(k="fn", f=f)
    def jmp(s, l): s.fix.append((s.L.emit(k="jp", t=0), "t", l, s.i))
    def br(s, c, l):
        ci = s.L.emit(k="br", c=c, t=0, f=0); s.fix.append((ci, "t", l, s.i)); s.L.code[ci - 1]["f"] = len(s.L.code) + 1
    def bits(s, e, n, off=0): return ["ext", e, off, n]
    def top(s, e, n): return ["bit0", ["lshr", ["ext", e, n - 1, 1], C(7, 1)]]
    def bad(s, st): raise Unsupported("instruction " + st.replace("\x01", "$"))

# ---------------------------------------------------------------- RISC-V
class Riscv(Base):
    NAMES = "zero ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6".split()
    zero = ("zero", "x0")
    def setup(s): s.rw = 8 if s.cfg.arch == "riscv64" else 4; s.gran = 4
    def named(s, t):
        m = re.match(r"^x(\d+)$", t)
        if m and int(m.group(1)) < 32: t = s.NAMES[int(m.group(1))]
        if t == "fp": t = "s0"
        return t if t in s.NAMES and t != "zero" else None
    def regclass(s, c, n):
        if c != "r": raise Unsupported("class " + c)
        return ["a0", "a1", "a2", "a3", "a4", "a5", "t0", "t1", "t2", "s2", "s3", "ra"]
    def addr(s, t):
        m = re.match(r"^(-?\d*)\((.*)\)$", t)
        if not m: raise Unsupported("address " + t)
        b = s.get(m.group(2)); v = int(m.group(1) or 0)
        return b if v == 0 else ["add", b, C(v & ((1 << 8 * s.rw) - 1), s.rw)]
    def ins(s, op, a, st):
        W = s.rw; m = re.match(r"^(amoswap|amoadd|amoor|amoand|amoxor|amocas|lr|sc)\.([bhwd])((?:\.aq|\.rl|\.aqrl)?)$", op)
        if m:
            k, n, o = m.group(1), {"b": 1, "h": 2, "w": 4, "d": 8}[m.group(2)], m.group(3).strip(".")
            if k == "lr": s.put(a[0], s.ld(s.addr(a[1]), n, o, "ll"), n, 2)
            elif k == "sc":
                z = s.sc(s.addr(a[2]), n, s.get(a[1], n), o); s.put(a[0], ["zext", ["not1", z], W])
            elif k == "amoswap": s.put(a[0], s.xchg(s.addr(a[2]), n, s.get(a[1], n), o), n, 2)
            elif k == "amocas": t, z = s.cas(s.addr(a[2]), n, s.get(a[0], n), s.get(a[1], n), o); s.put(a[0], t, n, 2)
            else:
                t = s.freshr(n); s.at([dict(k="ld", d=t[1], a=s.addr(a[2]), n=n, x="m"), dict(k="st", a=s.addr(a[2]), n=n, e=[k[3:], t, s.get(a[1], n)], x="m")], o); s.put(a[0], t, n, 2)
            return
        m = re.match(r"^l([bhwd])(u?)$", op)
        if m: n = {"b": 1, "h": 2, "w": 4, "d": 8}[m.group(1)]; s.put(a[0], s.ld(s.addr(a[1]), n), n, 1 if m.group(2) else 2); return
        m = re.match(r"^s([bhwd])$", op)
        if m: n = {"b": 1, "h": 2, "w": 4, "d": 8}[m.group(1)]; s.st(s.addr(a[1]), n, s.get(a[0], n)); return
        if op == "fence": s.fence("fence " + ",".join(x for x in a) if a else "fence rw,rw"); return
        if op == "fence.tso": s.fence("fence.tso"); return
        if op in ("nop", "pause"): return
        e = s.alu(op, a)
        if e is not None: s.put(a[0], e[0], e[1], e[2]); return
        if op in ("j", "b"): s.jmp(a[0]); return
        m = re.match(r"^b(eq|ne|lt|ge|ltu|geu)(z?)$", op)
        if m:
            x = s.get(a[0]); y = C(0, W) if m.group(2) else s.get(a[1]); c = m.group(1)
            e = {"eq": ["eq", x, y], "ne": ["not1", ["eq", x, y]], "lt": ["slt", x, y], "ge": ["not1", ["slt", x, y]], "ltu": ["ult", x, y], "geu": ["not1", ["ult", x, y]]}[c]
            s.br(e, a[-1]); return
        s.bad(st)
    def alu(s, op, a):
        W = s.rw; R = lambda e: (e, W, 1); w = op.endswith("w") and W == 8
        g = lambda i, n=None: s.get(a[i], n)
        if op in ("mv", "li"): return R(g(1))
        if op in ("and", "or", "xor", "add", "sub", "andi", "ori", "xori", "addi"): return R([op.rstrip("i"), g(1), g(2)])
        if op in ("addw", "addiw", "subw") and W == 8: return ([op.replace("iw", "").replace("w", ""), g(1, 4), g(2, 4)], 4, 2)
        if op == "sext.w": return (g(1, 4), 4, 2) if W == 8 else R(g(1))
        if op == "zext.b": return (g(1, 1), 1, 1)
        if op in ("sext.b", "sext.h", "zext.h", "zext.w"): return (g(1, {"b": 1, "h": 2, "w": 4}[op[-1]]), {"b": 1, "h": 2, "w": 4}[op[-1]], 2 if op[0] == "s" else 1)
        if op == "not": return R(["not", g(1)])
        if op == "neg": return R(["sub", C(0, W), g(1)])
        if op == "seqz": return R(["zext", ["eq", g(1), C(0, W)], W])
        if op == "snez": return R(["zext", ["not1", ["eq", g(1), C(0, W)]], W])
        if op in ("sltu", "slt"): return R(["zext", [{"sltu": "ult", "slt": "slt"}[op], g(1), g(2)], W])
        m = re.match(r"^(sll|srl|sra)(i?)(w?)$", op)
        if m:
            n = 4 if m.group(3) and W == 8 else W
            e = [{"sll": "shl", "srl": "lshr", "sra": "ashr"}[m.group(1)], g(1, n), ["and", g(2, 1), C(8 * n - 1, 1)]]
            return (e, n, 2 if n < W else 1)
        if op == "andn": return R(["and", g(1), ["not", g(2)]])
        return None

# ---------------------------------------------------------------- LoongArch
class LoongArch(Base):
    zero = ("\x01zero", "\x01r0")
    NAMES = ["zero", "ra", "tp", "sp"] + ["a%d" % i for i in range(8)] + ["t%d" % i for i in range(9)] + ["u0", "fp"] + ["s%d" % i for i in range(9)]
    def setup(s): s.rw = 8 if s.cfg.arch == "loongarch64" else 4; s.gran = 4
    def named(s, t):
        t = t.lstrip("\x01"); m = re.match(r"^r(\d+)$", t)
        if m and int(m.group(1)) < 32: t = s.NAMES[int(m.group(1))]
        return t if t in s.NAMES and t != "zero" else None
    def regclass(s, c, n):
        if c != "r": raise Unsupported("class " + c)
        return ["a0", "a1", "a2", "a3", "a4", "a5", "t0", "t1", "t2", "t3", "ra"]
    def adr(s, b, off=None):
        v = 0 if off is None else s.imm(off)
        if v is None: raise Unsupported("address")
        return s.get(b) if v == 0 else ["add", s.get(b), C(v & ((1 << 8 * s.rw) - 1), s.rw)]
    def ins(s, op, a, st):
        W = s.rw; N = {"b": 1, "h": 2, "w": 4, "d": 8}
        m = re.match(r"^(ld|st|ll|sc|llacq|screl)\.([bhwd])(u?)$", op)
        if m:
            k, n = m.group(1), N[m.group(2)]; ad = s.adr(a[1], a[2] if len(a) > 2 else None)
            if k == "ld": s.put(a[0], s.ld(ad, n), n, 1 if m.group(3) else 2)
            elif k == "st": s.st(ad, n, s.get(a[0], n))
            elif k in ("ll", "llacq"): s.put(a[0], s.ld(ad, n, k, "ll"), n, 2)
            else: z = s.sc(ad, n, s.get(a[0], n), k); s.put(a[0], ["zext", z, W])
            return
        m = re.match(r"^(amswap|amcas)((?:_db)?)\.([bhwd])$", op)
        if m:
            n = N[m.group(3)]; o = m.group(2).strip("_")
            if m.group(1) == "amswap": s.put(a[0], s.xchg(s.adr(a[2]), n, s.get(a[1], n), o), n, 2)
            else: t, z = s.cas(s.adr(a[2]), n, s.get(a[0], n), s.get(a[1], n), o); s.put(a[0], t, n, 2)
            return
        if op == "dbar": s.fence("dbar %d" % s.imm(a[0])); return
        if op == "nop": return
        g = lambda i, n=None: s.get(a[i], n)
        if op in ("move", "or") and len(a) == 2: s.put(a[0], g(1)); return
        if op in ("li.w", "li.d"): s.put(a[0], g(1)); return
        if op in ("and", "or", "xor", "andi", "ori", "xori"): s.put(a[0], [op.rstrip("i"), g(1), g(2)]); return
        if op in ("andn", "orn"): s.put(a[0], [op[:-1], g(1), ["not", g(2)]]); return
        if op == "nor": s.put(a[0], ["not", ["or", g(1), g(2)]]); return
        m = re.match(r"^(add|addi|sub|sll|srl|sra|slli|srli|srai)\.([wd])$", op)
        if m:
            n = N[m.group(2)]; k = m.group(1)
            if k in ("add", "addi", "sub"): e = [k.rstrip("i") if k != "sub" else k, g(1, n), g(2, n)]
            else: e = [{"sll": "shl", "srl": "lshr", "sra": "ashr"}[k[:3]], g(1, n), ["and", g(2, 1), C(8 * n - 1, 1)]]
            s.put(a[0], e, n, 2); return
        if op in ("sltui", "sltu", "slt", "slti"): s.put(a[0], ["zext", ["ult" if "u" in op else "slt", g(1), g(2)], W]); return
        if op in ("ext.w.b", "ext.w.h"): s.put(a[0], g(1, N[op[-1]]), N[op[-1]], 2); return
        if op == "b": s.jmp(a[0]); return
        m = re.match(r"^b(eq|ne|lt|ge|ltu|geu)(z?)$", op)
        if m:
            x = g(0); y = C(0, W) if m.group(2) else g(1); c = m.group(1)
            s.br({"eq": ["eq", x, y], "ne": ["not1", ["eq", x, y]], "lt": ["slt", x, y], "ge": ["not1", ["slt", x, y]], "ltu": ["ult", x, y], "geu": ["not1", ["ult", x, y]]}[c], a[-1]); return
        s.bad(st)

# ---------------------------------------------------------------- flags of the Arm family
def cmpflags(s, x, y, n, body=None, of=True):
    d = s.let(["sub", x, y], n, body); z = s.let(["eq", x, y], 1, body); c = s.let(["not1", ["ult", x, y]], 1, body)
    s.flags(body, zf=z, cf=c, sf=s.top(d, n))
def cond(c):
    m = lambda r: ["m", r]
    T = {"eq": m("zf"), "ne": ["not1", m("zf")], "cs": m("cf"), "hs": m("cf"), "cc": ["not1", m("cf")], "lo": ["not1", m("cf")], "mi": m("sf"), "pl": ["not1", m("sf")],
         "hi": ["and", m("cf"), ["not1", m("zf")]], "ls": ["or", ["not1", m("cf")], m("zf")]}
    if c not in T: raise Unsupported("condition " + c)
    return T[c]

# ---------------------------------------------------------------- AArch64
class AArch64(Base):
    zero = ("xzr", "wzr")
    def setup(s): s.rw = 8; s.gran = 1
    def named(s, t):
        m = re.match(r"^[xw](\d+)$", t)
        if m and int(m.group(1)) < 31: return "x" + m.group(1)
        return {"lr": "x30", "sp": "sp", "fp": "x29"}.get(t)
    def namesize(s, t): return 4 if t.startswith("w") else 8
    def iszero(s, t): return {"xzr": 8, "wzr": 4}.get(t)
    def modsize(s, md, k): return {"w": 4, "x": 8, None: 8}[md]
    def regclass(s, c, n):
        if c != "r": raise Unsupported("class " + c)
        return ["x0", "x1", "x2", "x3", "x4", "x5", "x8", "x9"] + ["x%d" % i for i in range(10, 16)] + ["x30"]
    def addr(s, t):
        m = re.match(r"^\[([^,\]]+)(?:,\s*#?(-?\d+))?\]$", t)
        if not m: raise Unsupported("address " + t)
        b = s.get(m.group(1).strip(), 8); v = int(m.group(2) or 0)
        return b if v == 0 else ["add", b, C(v & (2**64 - 1), 8)]
    def pair(s, v): return (["ext", v, 8, 8], ["ext", v, 0, 8]) if s.be else (["ext", v, 0, 8], ["ext", v, 8, 8])
    def join(s, lo, hi): return ["cat", hi, lo] if s.be else ["cat", lo, hi]
    def ins(s, op, a, st):
        SZ = lambda sfx, t: {"b": 1, "h": 2}.get(sfx) or s.ref(t)[1]
        m = re.match(r"^(ldr|ldar|ldapr|ldlar|ldur|ldxr|ldaxr)([bh]?)$", op)
        if m:
            n = SZ(m.group(2), a[0]); k = m.group(1); o = {"ldr": "", "ldur": "", "ldxr": "", "ldapr": "Q"}.get(k, "A")
            s.put(a[0], s.ld(s.addr(a[1]), n, o, "ll" if k.endswith("xr") else "ld"), n, 1); return
        m = re.match(r"^(str|stlr|stur)([bh]?)$", op)
        if m: n = SZ(m.group(2), a[0]); s.st(s.addr(a[1]), n, s.get(a[0], n), "L" if m.group(1) == "stlr" else ""); return
        m = re.match(r"^(stxr|stlxr)([bh]?)$", op)
        if m:
            n = SZ(m.group(2), a[1])
            z = s.sc(s.addr(a[2]), n, s.get(a[1], n), "L" if "l" in op else ""); s.put(a[0], ["zext", ["not1", z], 4], 4, 1); return
        if op in ("ldxp", "ldaxp"):
            ad = s.addr(a[2]); h = s.ref(a[0])[1]; o = "A" if op == "ldaxp" else ""
            x = s.ld(ad, h, o, "ll", q=2 * h); y = s.ld(["add", ad, C(h, 8)], h, o); s.put(a[0], x, h); s.put(a[1], y, h); return
        if op in ("stxp", "stlxp"):
            h = s.ref(a[1])[1]
            if h != 8: s.bad(st)
            z = s.sc(s.addr(a[3]), 16, s.join(s.get(a[1], 8), s.get(a[2], 8)), "L" if op == "stlxp" else ""); s.put(a[0], ["zext", ["not1", z], 4], 4, 1); return
        if op in ("ldp", "ldiapp", "stp", "stilp"):
            if s.ref(a[0])[1] != 8: s.bad(st)
            one = "lse2" in s.feats; ad = s.addr(a[2])
            if op in ("ldp", "ldiapp"):
                if one: v = s.ld(ad, 16, "Q" if op == "ldiapp" else ""); x, y = s.pair(v)
                else: x = s.ld(ad, 8); y = s.ld(["add", ad, C(8, 8)], 8)
                s.put(a[0], x, 8); s.put(a[1], y, 8)
            else:
                if one: s.st(ad, 16, s.join(s.get(a[0], 8), s.get(a[1], 8)), "L" if op == "stilp" else "")
                else: s.st(ad, 8, s.get(a[0], 8)); s.st(["add", ad, C(8, 8)], 8, s.get(a[1], 8))
            return
        m = re.match(r"^cas(a?)(l?)([bh]?)$", op)
        if m:
            n = SZ(m.group(3), a[0]); t, z = s.cas(s.addr(a[2]), n, s.get(a[0], n), s.get(a[1], n), m.group(1).upper() + m.group(2).upper()); s.put(a[0], t, n, 1); return
        m = re.match(r"^casp(a?)(l?)$", op)
        if m:
            r = [s.named(x) for x in a[:4]]
            if None in r or [int(r[1][1:]) - int(r[0][1:]), int(r[3][1:]) - int(r[2][1:])] != [1, 1] or int(r[0][1:]) % 2 or int(r[2][1:]) % 2: s.bad(st)
            t, z = s.cas(s.addr(a[4]), 16, s.join(s.get(a[0], 8), s.get(a[1], 8)), s.join(s.get(a[2], 8), s.get(a[3], 8)), m.group(1).upper() + m.group(2).upper())
            x, y = s.pair(t); s.put(a[0], x, 8); s.put(a[1], y, 8); return
        m = re.match(r"^swp(a?)(l?)([bh]?)$", op)
        if m and op not in ("swpp",):
            n = SZ(m.group(3), a[0]); t = s.xchg(s.addr(a[2]), n, s.get(a[0], n), m.group(1).upper() + m.group(2).upper()); s.put(a[1], t, n, 1); return
        m = re.match(r"^swpp(a?)(l?)$", op)
        if m:
            t = s.xchg(s.addr(a[2]), 16, s.join(s.get(a[0], 8), s.get(a[1], 8)), m.group(1).upper() + m.group(2).upper()); x, y = s.pair(t); s.put(a[0], x, 8); s.put(a[1], y, 8); return
        if op in ("dmb", "dsb"): s.fence("dmb " + a[0]); return
        if op == "isb": s.fence("isb"); return
        if op in ("nop", "prfm", "yield", "bti"): return
        if op == "clrex": s.L.emit(k="clx"); return
        if op == "mov": n = s.ref(a[0])[1]; s.put(a[0], s.get(a[1], n), n, 1); return
        if op in ("and", "orr", "eor", "add", "sub", "bic", "orn") and len(a) == 3:
            n = s.ref(a[0])[1]; y = s.get(a[2], n); y = ["not", y] if op in ("bic", "orn") else y
            s.put(a[0], [{"orr": "or", "eor": "xor", "bic": "and", "orn": "or"}.get(op, op), s.get(a[1], n), y], n, 1); return
        if op in ("lsl", "lsr", "asr"):
            n = s.ref(a[0])[1]; s.put(a[0], [{"lsl": "shl", "lsr": "lshr", "asr": "ashr"}[op], s.get(a[1], n), ["and", s.get(a[2], 1), C(8 * n - 1, 1)]], n, 1); return
        if op in ("uxtb", "uxth"): n = 1 if op == "uxtb" else 2; s.put(a[0], s.get(a[1], n), n, 1); return
        if op == "cmp":
            n = s.ref(a[0])[1]; y = s.get(a[1], n)
            if len(a) == 3:
                k = {"uxtb": 1, "uxth": 2, "uxtw": 4}.get(a[2])
                if not k: s.bad(st)
                y = ["zext", s.get(a[1], k), n]
            cmpflags(s, s.get(a[0], n), y, n); return
        if op == "ccmp":
            n = s.ref(a[0])[1]; c = s.let(cond(a[3]), 1); x, y = s.let(s.get(a[0], n), n), s.let(s.get(a[1], n), n); f = s.imm(a[2]); d = s.let(["sub", x, y], n)
            s.flags(zf=["ite", c, ["eq", x, y], C((f >> 2) & 1, 1)], cf=["ite", c, ["not1", ["ult", x, y]], C((f >> 1) & 1, 1)], sf=["ite", c, s.top(d, n), C((f >> 3) & 1, 1)]); return
        if op == "cset": n = s.ref(a[0])[1]; s.put(a[0], ["zext", cond(a[1]), n], n, 1); return
        if op == "cinc": n = s.ref(a[0])[1]; x = s.get(a[1], n); s.put(a[0], ["ite", cond(a[2]), ["add", x, C(1, n)], x], n, 1); return
        if op == "csel": n = s.ref(a[0])[1]; s.put(a[0], ["ite", cond(a[3]), s.get(a[1], n), s.get(a[2], n)], n, 1); return
        if op in ("cbz", "cbnz"): n = s.ref(a[0])[1]; z = ["eq", s.get(a[0], n), C(0, n)]; s.br(z if op == "cbz" else ["not1", z], a[1]); return
        if op == "b": s.jmp(a[0]); return
        m = re.match(r"^b\.(\w\w)$", op)
        if m: s.br(cond(m.group(1)), a[0]); return
        s.bad(st)

# ---------------------------------------------------------------- Arm (A32/T32)
class Arm(Base):
    consts = {0xFFFF0FFC: 5}          # the version of the kernel user helpers (Linux 3.1 and later)
    spname = "sp"
    def setup(s): s.rw = 4; s.gran = 4 if not ({"v6k", "v7", "v8"} & s.feats) else 1
    def comment(s, st): return st.startswith(("@", "//"))
    def named(s, t):
        m = re.match(r"^r(\d+)$", t)
        if m and int(m.group(1)) < 13: return t
        return {"ip": "r12", "lr": "lr", "r14": "lr", "sp": "sp", "r13": "sp", "fp": "r11"}.get(t)
    def regclass(s, c, n):
        if c not in ("r", "l", "h"): raise Unsupported("class " + c)
        return ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7"] + ([] if c == "l" else ["r8", "r9", "r10", "r12", "lr"])
    def addr(s, t):
        m = re.match(r"^\[([^,\]]+)(?:,\s*#?(-?\d+))?\]$", t)
        if not m: raise Unsupported("address " + t)
        b = s.get(m.group(1).strip()); v = int(m.group(2) or 0)
        return b if v == 0 else ["add", b, C(v & (2**32 - 1), 4)]
    def pair(s, v): return (["ext", v, 4, 4], ["ext", v, 0, 4]) if s.be else (["ext", v, 0, 4], ["ext", v, 4, 4])
    def join(s, lo, hi): return ["cat", hi, lo] if s.be else ["cat", lo, hi]
    def dpair(s, x, y):
        p, q = s.named(x), s.named(y)
        if p and q and (int(p[1:]) % 2 or int(q[1:]) != int(p[1:]) + 1): raise Unsupported("register pair")
    CC = ("eq", "ne", "cs", "hs", "cc", "lo", "mi", "pl", "hi", "ls")
    def ins(s, op, a, st):
        SZ = {"": 4, "b": 1, "h": 2}
        if op in ("nop", "yield"): return
        op = op[:-2] if op.endswith(".w") else op
        m = re.match(r"^(ldr|lda|ldrex|ldaex)([bh]?)$", op)
        if m:
            n = SZ[m.group(2)]; k = m.group(1); s.put(a[0], s.ld(s.addr(a[1]), n, "A" if k in ("lda", "ldaex") else "", "ll" if k.endswith("ex") else "ld"), n, 1); return
        m = re.match(r"^(str|stl)([bh]?)$", op)
        if m: n = SZ[m.group(2)]; s.st(s.addr(a[1]), n, s.get(a[0], n), "L" if m.group(1) == "stl" else ""); return
        m = re.match(r"^(strex|stlex)([bh]?)$", op)
        if m: n = SZ[m.group(2)]; z = s.sc(s.addr(a[2]), n, s.get(a[1], n), "L" if op.startswith("stl") else ""); s.put(a[0], ["zext", ["not1", z], 4]); return
        if op in ("ldrexd", "ldaexd"):
            s.dpair(a[0], a[1]); v = s.ld(s.addr(a[2]), 8, "A" if op == "ldaexd" else "", "ll"); x, y = s.pair(v); s.put(a[0], x); s.put(a[1], y); return
        if op in ("strexd", "stlexd"):
            s.dpair(a[1], a[2]); z = s.sc(s.addr(a[3]), 8, s.join(s.get(a[1]), s.get(a[2])), "L" if op == "stlexd" else ""); s.put(a[0], ["zext", ["not1", z], 4]); return
        if op in ("ldrd", "strd"):          # two word accesses (a single one only with the Large Physical Address Extension)
            s.dpair(a[0], a[1]); ad = s.addr(a[2]); hi = ["add", ad, C(4, 4)]
            if op == "ldrd":
                u, v = s.ld(ad, 4), s.ld(hi, 4); s.put(a[0], u); s.put(a[1], v)
            else: s.st(ad, 4, s.get(a[0])); s.st(hi, 4, s.get(a[1]))
            return
        if op in ("dmb", "dsb"): s.fence("dmb " + (a[0] if a else "sy")); return
        if op == "isb": s.fence("isb"); return
        if op == "mcr": s.fence("mcr " + " ".join(a)); return
        if op == "clrex": s.L.emit(k="clx"); return
        if op == "mov" and a == ["lr", "pc"]: s.put("lr", ["frz", ["c", [256] * 4]]); s.setlr = True; return
        if op in ("blx", "bx", "bl"):
            s.helper(a[0], op, st); return
        if op == "cmp": cmpflags(s, s.get(a[0]), s.get(a[1]), 4); return
        if op in ("cmn", "tst", "teq"):
            r = s.let([{"tst": "and", "teq": "xor", "cmn": "add"}[op], s.get(a[0]), s.get(a[1])], 4); s.flags(zf=["eq", r, C(0, 4)], sf=s.top(r, 4)); return
        if op == "b": s.jmp(a[0]); return
        m = re.match(r"^b(\w\w)$", op)
        if m and m.group(1) in s.CC: s.br(cond(m.group(1)), a[0]); return
        m = re.match(r"^(mov|movw|mvn|and|orr|eor|add|sub|rsb|bic|lsl|lsr|asr|uxtb|uxth)(s?)(eq|ne|cs|hs|cc|lo|mi|pl|hi|ls)?$", op)
        if m:
            k = m.group(1); g = lambda i, n=4: s.get(a[i], n); b = a if len(a) == 3 or k in ("mov", "movw", "mvn", "uxtb", "uxth") else [a[0]] + a
            if len(b) > 3: s.bad(st)
            g = lambda i, n=4: s.get(b[i], n)
            sh = lambda o: [o, g(1), g(2, 1)]
            e = {"mov": lambda: g(1), "movw": lambda: g(1), "mvn": lambda: ["not", g(1)], "and": lambda: ["and", g(1), g(2)], "orr": lambda: ["or", g(1), g(2)], "eor": lambda: ["xor", g(1), g(2)],
                 "add": lambda: ["add", g(1), g(2)], "sub": lambda: ["sub", g(1), g(2)], "rsb": lambda: ["sub", g(2), g(1)], "bic": lambda: ["and", g(1), ["not", g(2)]],
                 "lsl": lambda: sh("shl"), "lsr": lambda: sh("lshr"), "asr": lambda: sh("ashr"), "uxtb": lambda: ["zext", g(1, 1), 4], "uxth": lambda: ["zext", g(1, 2), 4]}[k]()
            if m.group(3): e = ["ite", cond(m.group(3)), e, s.get(a[0])]
            r = s.let(e, 4)
            if m.group(2):
                if m.group(3): s.bad(st)
                if k in ("sub", "rsb", "add"): s.flags(zf=["eq", r, C(0, 4)], sf=s.top(r, 4), cf=["not1", ["ult", g(1), g(2)]] if k == "sub" else None)
                else: s.flags(zf=["eq", r, C(0, 4)], sf=s.top(r, 4), of=False)
            s.put(a[0], r); return
        s.bad(st)
    # the kernel's user helpers (Documentation/arch/arm/kernel_user_helpers)
    def constof(s, t):
        p = s.op(t)
        if not p: raise Unsupported("call through " + t)
        o = s.blk["ops"][p[0]]
        for q in s.blk["ops"]:
            if q["dir"] == "in" and (q is o or q["tie"] == p[0]) and isc(q["e"]): return cval(q["e"])
        raise Unsupported("call target")
    def helper(s, t, op, st):
        ad = s.constof(t) & 0xffffffff; junk = ["frz", ["c", [256] * 4]]; r = lambda n: ["m", n]
        if op == "bx" and not getattr(s, "setlr", False): s.bad(st)
        s.setlr = False; s.put("lr", junk)
        if ad == 0xffff0fa0: s.fence("dmb ish"); return
        if ad == 0xffff0fc0:
            s.fence("dmb ish"); t, z = s.cas(r("r2"), 4, r("r0"), r("r1")); s.fence("dmb ish")
            s.put("r0", ["zext", ["not1", z], 4]); s.put("r3", junk); s.put("r12", junk); s.flags(cf=z); return
        if ad == 0xffff0f60:
            s.fence("dmb ish"); x = s.ld(r("r0"), 8); y = s.ld(r("r1"), 8); t, z = s.cas(r("r2"), 8, x, y); s.fence("dmb ish")
            s.put("r0", ["zext", ["not1", z], 4]); s.put("r3", junk); s.flags(cf=z); return
        raise Unsupported("call to %#x" % ad)

# ---------------------------------------------------------------- MIPS
class Mips(Base):
    NAMES = "zero at v0 v1 a0 a1 a2 a3 t0 t1 t2 t3 t4 t5 t6 t7 s0 s1 s2 s3 s4 s5 s6 s7 t8 t9 k0 k1 gp sp fp ra".split()
    zero = ("\x01zero", "\x010")
    def setup(s): s.rw = 8 if s.cfg.arch.startswith("mips64") else 4; s.gran = 4
    def opext(s, o): return 1 if s.rw == 8 and o["n"] == 4 else 0     # a 32-bit value is kept sign-extended (the ISA requires it)
    def named(s, t):
        m = re.match(r"^\x01(\w+)$", t)
        if not m:
            return None if not re.match(r"^\x01?\d+$", t) else None
        t = m.group(1)
        if t.isdigit() and int(t) < 32: t = s.NAMES[int(t)]
        return t if t in s.NAMES and t != "zero" else None
    def regclass(s, c, n):
        if c != "r": raise Unsupported("class " + c)
        return ["v0", "v1", "a0", "a1", "a2", "a3", "t0", "t1", "t2", "t3", "t4", "ra"]
    def addr(s, t):
        m = re.match(r"^(-?\d*)\((.*)\)$", t)
        if not m: raise Unsupported("address " + t)
        b = s.get(m.group(2)); v = int(m.group(1) or 0)
        return b if v == 0 else ["add", b, C(v & ((1 << 8 * s.rw) - 1), s.rw)]
    def ins(s, op, a, st):
        W = s.rw; N = {"b": 1, "h": 2, "w": 4, "d": 8}; g = lambda i, n=None: s.get(a[i], n)
        m = re.match(r"^l([bhwd])(u?)$", op)
        if m: n = N[m.group(1)]; s.put(a[0], s.ld(s.addr(a[1]), n), n, 1 if m.group(2) else 2); return
        m = re.match(r"^s([bhwd])$", op)
        if m: n = N[m.group(1)]; s.st(s.addr(a[1]), n, g(0, n)); return
        if op in ("ll", "lld"): n = 4 if op == "ll" else 8; s.put(a[0], s.ld(s.addr(a[1]), n, "", "ll"), n, 2); return
        if op in ("sc", "scd"): n = 4 if op == "sc" else 8; z = s.sc(s.addr(a[1]), n, g(0, n)); s.put(a[0], ["zext", z, W]); return
        if op == "sync": s.fence("sync"); return
        if op in ("nop", "ssnop"): return
        if op in ("move", "li"): s.put(a[0], g(1)); return
        if op in ("and", "or", "xor", "andi", "ori", "xori"): s.put(a[0], [op.rstrip("i"), g(1), g(2)]); return
        if op == "nor": s.put(a[0], ["not", ["or", g(1), g(2)]]); return
        if op == "not": s.put(a[0], ["not", g(1)]); return
        if op in ("addu", "addiu", "subu"): s.put(a[0], [op[:3], g(1, 4), g(2, 4)], 4, 2); return
        if op in ("daddu", "daddiu"): s.put(a[0], ["add", g(1), g(2)]); return
        m = re.match(r"^(sll|srl|sra)(v?)$", op)
        if m: s.put(a[0], [{"sll": "shl", "srl": "lshr", "sra": "ashr"}[m.group(1)], g(1, 4), ["and", g(2, 1), C(31, 1)]], 4, 2); return
        if op == "sltu": s.put(a[0], ["zext", ["ult", g(1), g(2)], W]); return
        if op == "sltiu": s.put(a[0], ["zext", ["ult", g(1), g(2)], W]); return
        if op == "b": s.jmp(a[0]); return
        m = re.match(r"^b(eq|ne)(z?)$", op)
        if m:
            z = ["eq", g(0), C(0, W) if m.group(2) else g(1)]; s.br(z if m.group(1) == "eq" else ["not1", z], a[-1]); return
        s.bad(st)

# ---------------------------------------------------------------- PowerPC
class Ppc(Base):
    flagclob = ("cr0",); spname = "r1"; excl0 = True
    def setup(s): s.rw = 8 if s.cfg.arch == "powerpc64" else 4; s.gran = 1 if {"partword-atomics"} & s.feats else 4
    def named(s, t):
        t = t.lstrip("%"); m = re.match(r"^r(\d+)$", t)
        return t if m and int(m.group(1)) < 32 else None
    def regclass(s, c, n):
        R = ["r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "r14"]
        if c == "r": return ["r0"] + R
        if c == "b": return R
        raise Unsupported("class " + c)
    def ref(s, t):
        if re.match(r"^\d+$", t): return None
        return super().ref(t)
    def base(s, t):
        p = s.op(t)
        if p: return ["o0", p[0] + 1]
        r = s.named(t)
        if r is None: raise Unsupported("base " + t)
        return C(0, s.rw) if r == "r0" else ["m", r]
    def addr(s, t):
        m = re.match(r"^(-?\d*)\((.*)\)$", t)
        if not m: raise Unsupported("address " + t)
        b = s.base(m.group(2)); v = int(m.group(1) or 0)
        return b if v == 0 else ["add", b, C(v & ((1 << 8 * s.rw) - 1), s.rw)]
    def xaddr(s, ra, rb): return s.get(rb) if ra == "0" else ["add", s.base(ra), s.get(rb)]
    def cr0(s, eq=None, lt=None, gt=None): s.flags(zf=eq, sf=lt, cf=gt, of=False)
    def iscr0(s, t): return t.lstrip("%") == "cr0"
    def ins(s, op, a, st):
        W = s.rw; N = {"b": 1, "h": 2, "w": 4, "d": 8}; g = lambda i, n=None: s.get(a[i], n)
        m = re.match(r"^l(bz|hz|wz|d|wa|ha)$", op)
        if m: n = N[m.group(1)[0]]; s.put(a[0], s.ld(s.addr(a[1]), n), n, 2 if m.group(1)[-1] == "a" else 1); return
        m = re.match(r"^st([bhwd])$", op)
        if m: n = N[m.group(1)]; s.st(s.addr(a[1]), n, g(0, n)); return
        m = re.match(r"^l([bhwd])arx$", op)
        if m: n = N[m.group(1)]; s.put(a[0], s.ld(s.xaddr(a[1], a[2]), n, "", "ll"), n, 1); return
        m = re.match(r"^st([bhwd])cx\.$", op)
        if m: n = N[m.group(1)]; z = s.sc(s.xaddr(a[1], a[2]), n, g(0, n)); s.cr0(z, C(0, 1), C(0, 1)); return
        q = lambda r: "r%d" % (int(s.named(r)[1:]) + 1)
        def even(r):
            if s.named(r) is None or int(s.named(r)[1:]) % 2: raise Unsupported("quadword register pair")
        if op in ("lq", "lqarx"):
            even(a[0]); v = s.ld(s.addr(a[1]) if op == "lq" else s.xaddr(a[1], a[2]), 16, "", "ld" if op == "lq" else "ll")
            s.put(a[0], ["ext", v, 8, 8]); s.put(q(a[0]), ["ext", v, 0, 8]); return
        if op == "stq": even(a[0]); s.st(s.addr(a[1]), 16, ["cat", s.get(q(a[0])), g(0)]); return
        if op == "stqcx.": even(a[0]); z = s.sc(s.xaddr(a[1], a[2]), 16, ["cat", s.get(q(a[0])), g(0)]); s.cr0(z, C(0, 1), C(0, 1)); return
        if op in ("sync", "hwsync", "lwsync", "isync", "ptesync", "eieio"): s.fence("sync" if op == "hwsync" else op); return
        if op == "nop": return
        if op in ("cmpw", "cmpd", "cmplw", "cmpld", "cmpwi"):
            if len(a) == 3:
                if not s.iscr0(a[0]): s.bad(st)
                a = a[1:]
            n = 8 if "d" in op else 4; x, y = s.let(s.get(a[0], n), n), s.let(s.get(a[1], n), n); lt = "ult" if "l" in op else "slt"; s.cr0(["eq", x, y], [lt, x, y], [lt, y, x]); return
        if op == "mfcr":
            # eq of cr0 is bit 29 (from the least significant); lt 31, gt 30
            b = ["or", ["shl", ["m", "zf"], C(5, 1)], ["or", ["shl", ["m", "cf"], C(6, 1)], ["shl", ["m", "sf"], C(7, 1)]]]
            junk = ["frz", ["c", [256]]]; hi = ["or", b, ["and", junk, C(31, 1)]]
            s.put(a[0], ["cat", ["frz", ["c", [256] * 3]], hi], 4, 1); return
        m = re.match(r"^(and|or|xor|andc|orc|nor|nand|add)(\.?)$", op)
        if m:
            k = m.group(1); x, y = g(1), g(2); e = {"andc": ["and", x, ["not", y]], "orc": ["or", x, ["not", y]], "nor": ["not", ["or", x, y]], "nand": ["not", ["and", x, y]]}.get(k) or [k, x, y]
            r = s.let(e, W); s.put(a[0], r)
            if m.group(2): z = s.let(["eq", r, C(0, W)], 1); s.cr0(z, s.top(r, W), ["and", ["not1", z], ["not1", s.top(r, W)]])
            return
        if op in ("slw", "srw"):
            sh = ["and", g(2, 1), C(63, 1)]; s.put(a[0], [{"slw": "shl", "srw": "lshr"}[op], g(1, 4), sh], 4, 1); return
        if op in ("mr",): s.put(a[0], g(1)); return
        if op == "li": s.put(a[0], g(1)); return
        if op == "b": s.jmp(a[0]); return
        m = re.match(r"^b(eq|ne)([-+]?)$", op)
        if m:
            if len(a) == 2 and not s.iscr0(a[0]): s.bad(st)
            s.br(["m", "zf"] if m.group(1) == "eq" else ["not1", ["m", "zf"]], a[-1]); return
        s.bad(st)

# ---------------------------------------------------------------- s390x
class S390x(Base):
    flagclob = ("cc",); spname = "r15"; excl0 = True
    def setup(s): s.rw = 8; s.gran = 4
    def named(s, t):
        t = t.lstrip("%"); m = re.match(r"^r(\d+)$", t)
        return t if m and int(m.group(1)) < 16 else None
    def regclass(s, c, n):
        R = ["r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r12", "r13", "r14"]
        if c in ("r", "d"): return ["r0"] + R
        if c == "a": return R
        raise Unsupported("class " + c)
    def base(s, t):
        p = s.op(t)
        if p: return ["o0", p[0] + 1]
        r = s.named(t)
        if r is None: raise Unsupported("base " + t)
        return C(0, 8) if r == "r0" else ["m", r]
    def addr(s, t):
        m = re.match(r"^(-?\d*)\(([^,]*)\)$", t)
        if not m: raise Unsupported("address " + t)
        b = s.base(m.group(2)); v = int(m.group(1) or 0)
        return b if v == 0 else ["add", b, C(v & (2**64 - 1), 8)]
    def cc(s, z, one=None, two=None): s.flags(zf=z, sf=one, cf=two)
    def pr(s, t):
        r = s.named(t)
        if r is None or int(r[1:]) % 2: raise Unsupported("register pair")
        return ["m", r], ["m", "r%d" % (int(r[1:]) + 1)]
    def ins(s, op, a, st):
        g = lambda i, n=8: s.get(a[i], n)
        if op in ("l", "ly"): s.put(a[0], s.ld(s.addr(a[1]), 4), 4, 0); return
        if op == "lg": s.put(a[0], s.ld(s.addr(a[1]), 8), 8, 0); return
        if op in ("lb", "lh"): n = 1 if op == "lb" else 2; s.put(a[0], ["sext", s.ld(s.addr(a[1]), n), 4], 4, 0); return
        if op in ("llc", "llh"): n = 1 if op == "llc" else 2; s.put(a[0], ["zext", s.ld(s.addr(a[1]), n), 4], 4, 0); return
        if op in ("llgc", "llgh", "llgf"): n = {"c": 1, "h": 2, "f": 4}[op[-1]]; s.put(a[0], s.ld(s.addr(a[1]), n), n, 1); return
        if op in ("stc", "sth", "st", "stg"): n = {"stc": 1, "sth": 2, "st": 4, "stg": 8}[op]; s.st(s.addr(a[1]), n, g(0, n)); return
        if op == "lpq": h, l = s.pr(a[0]); v = s.ld(s.addr(a[1]), 16); s.wrm(h, ["ext", v, 8, 8]); s.wrm(l, ["ext", v, 0, 8]); return
        if op == "stpq": h, l = s.pr(a[0]); s.st(s.addr(a[1]), 16, ["cat", l, h]); return
        if op in ("cs", "csg", "csy"):
            n = 8 if op == "csg" else 4; t, z = s.cas(s.addr(a[2]), n, g(0, n), g(1, n)); s.cc(z, ["not1", z], C(0, 1)); s.put(a[0], t, n, 0); return
        if op == "cdsg":
            h, l = s.pr(a[0]); h2, l2 = s.pr(a[1]); t, z = s.cas(s.addr(a[2]), 16, ["cat", l, h], ["cat", l2, h2]); s.cc(z, ["not1", z], C(0, 1))
            s.wrm(h, ["ext", t, 8, 8]); s.wrm(l, ["ext", t, 0, 8]); return
        if op == "ipm":
            junk = ["frz", ["c", [256]]]
            b = ["or", ["shl", ["m", "sf"], C(4, 1)], ["shl", ["m", "cf"], C(5, 1)]]
            s.put(a[0], ["cat", ["ext", s.get(a[0], 3), 0, 3], ["or", b, ["and", junk, C(15, 1)]]], 4, 0); return
        if op in ("cr", "clr"):
            x, y = s.let(g(0, 4), 4), s.let(g(1, 4), 4); lt = "slt" if op == "cr" else "ult"; s.cc(["eq", x, y], [lt, x, y], [lt, y, x]); return
        if op in ("llcr", "llhr"): n = 1 if op == "llcr" else 2; s.put(a[0], ["zext", g(1, n), 4], 4, 0); return
        if op in ("lr", "lgr"): n = 4 if op == "lr" else 8; s.put(a[0], g(1, n), n, 0); return
        if op in ("nr", "or", "xr"): r = s.let([{"nr": "and", "or": "or", "xr": "xor"}[op], g(0, 4), g(1, 4)], 4); s.put(a[0], r, 4, 0); z = s.let(["eq", r, C(0, 4)], 1); s.cc(z, ["not1", z], C(0, 1)); return
        if op in ("risbg", "risbgn"):
            i3, i4, rot = s.imm(a[2]) & 63, s.imm(a[3]), s.imm(a[4]) & 63; zero = i4 & 128; i4 &= 63
            mask = 0; k = i3
            while True:
                mask |= 1 << (63 - k)
                if k == i4: break
                k = (k + 1) & 63
            x = g(1); v = x if rot == 0 else ["or", ["shl", x, C(rot, 1)], ["lshr", x, C(64 - rot, 1)]]
            e = ["and", v, C(mask, 8)]
            if not zero: e = ["or", e, ["and", g(0), C(~mask & (2**64 - 1), 8)]]
            r = s.let(e, 8); s.put(a[0], r, 8, 0)
            if op == "risbg": z = s.let(["eq", r, C(0, 8)], 1); s.cc(z, s.top(r, 8), ["and", ["not1", z], ["not1", s.top(r, 8)]])
            return
        if op == "rll":
            m = re.match(r"^(-?\d*)\((.*)\)$", a[2])
            if not m: s.bad(st)
            k = s.let(["and", ["add", ["ext", s.base(m.group(2)), 0, 1], C(int(m.group(1) or 0) & 255, 1)], C(31, 1)], 1); x = s.let(g(1, 4), 4)
            s.put(a[0], ["or", ["shl", x, k], ["lshr", x, ["sub", C(32, 1), k]]], 4, 0); return
        if op == "bcr" and s.imm(a[0]) in (14, 15) and a[1] in ("0", "%r0"): s.fence("bcr"); return
        if op in ("j",): s.jmp(a[0]); return
        C3 = {"je": ["m", "zf"], "jne": ["not1", ["m", "zf"]], "jlh": ["not1", ["m", "zf"]], "jl": ["m", "sf"], "jh": ["m", "cf"], "jnl": ["not1", ["m", "sf"]]}
        if op in C3: s.br(C3[op], a[0]); return
        if op in ("lhi", "lghi"): n = 4 if op == "lhi" else 8; s.put(a[0], g(1, n), n, 0); return
        s.bad(st)
    def wrm(s, r, e): s.L.emit(k="wr", r=r, off=0, n=8, e=e, zx=0)

# ---------------------------------------------------------------- SPARC
class Sparc(Base):
    flagclob = ("icc", "xcc"); zero = ("%g0",)
    def setup(s): s.rw = 8 if s.cfg.arch == "sparc64" else 4; s.gran = 4
    def comment(s, st): return st.startswith(("!", "#"))
    def named(s, t):
        t = t.lstrip("%")
        return t if re.match(r"^([goli][0-7]|sp|fp)$", t) and t != "g0" else None
    def regclass(s, c, n):
        if c != "r": raise Unsupported("class " + c)
        return ["o0", "o1", "o2", "o3", "o4", "o5", "l0", "l1", "l2", "l3", "i0", "g2"]
    def addr(s, t):
        m = re.match(r"^\[([^+\-\]]+)(?:([+-])\s*(\d+))?\]$", t.replace(" ", ""))
        if not m: raise Unsupported("address " + t)
        b = s.get(m.group(1)); v = int((m.group(2) or "") + (m.group(3) or "0"))
        return b if v == 0 else ["add", b, C(v & ((1 << 8 * s.rw) - 1), s.rw)]
    def delay(s):
        i = s.i
        if i + 1 >= len(s.code): raise Unsupported("delay slot")
        s.i = i + 1; st = s.code[i + 1]
        if re.match(r"^(b|ba|bn|be|call|jmp)\w*\b", st): raise Unsupported("branch in a delay slot")
        s.stmt(st); s.i = i; s.skip = i + 1
    def ins(s, op, a, st):
        W = s.rw; g = lambda i, n=None: s.get(a[i], n)
        LD = {"ld": (4, 1), "lduw": (4, 1), "ldub": (1, 1), "lduh": (2, 1), "ldx": (8, 1), "ldsb": (1, 2), "ldsh": (2, 2), "ldsw": (4, 2)}
        if op in LD: n, z = LD[op]; s.put(a[1], s.ld(s.addr(a[0]), n), n, z); return
        ST = {"st": 4, "stw": 4, "stb": 1, "sth": 2, "stx": 8}
        if op in ST: n = ST[op]; s.st(s.addr(a[1]), n, g(0, n)); return
        m = re.match(r"^\[([^\]]*)\]\s*(\d+)?$", a[0]) if a else None
        if op in ("cas", "casa", "casx", "casxa"):
            n = 8 if "x" in op else 4; t, z = s.cas(s.get(m.group(1).strip()), n, g(1, n), g(2, n)); s.put(a[2], t, n, 1); return
        if op == "swap": t = s.xchg(s.addr(a[0]), 4, g(1, 4)); s.put(a[1], t, 4, 1); return
        if op == "ldstub" and re.match(r"^\[%sp\s*-\s*1\]$", a[0]) and a[1] == "%g0": s.fence("ldstub"); return
        if op == "membar": s.fence("membar %d" % s.imm(a[0])); return
        if op == "stbar": s.fence("stbar"); return
        if op == "nop": return
        if op == "cmp":
            x, y = s.let(g(0, W), W), s.let(g(1, W), W); s.flags(zf=["eq", ["ext", x, 0, 4], ["ext", y, 0, 4]], of=["eq", x, y]); return
        if op == "mov": s.put(a[0] if False else a[1], g(0)); return
        m = re.match(r"^mov(e|ne)$", op)
        if m and a[0] in ("%icc", "%xcc"):
            f = ["m", "zf" if a[0] == "%icc" else "of"]; f = f if m.group(1) == "e" else ["not1", f]; s.put(a[2], ["ite", f, s.get(a[1], W), s.get(a[2], W)]); return
        if op in ("and", "or", "xor", "andn", "orn", "xnor", "add", "sub"):
            x, y = g(0), g(1); y = ["not", y] if op in ("andn", "orn") else y; e = [op.rstrip("n") if op in ("andn", "orn") else op, x, y]
            s.put(a[2], ["not", ["xor", x, y]] if op == "xnor" else e); return
        if op in ("sll", "srl", "sra"):
            sh = ["and", g(1, 1), C(31, 1)]
            if op == "sll": s.put(a[2], ["shl", g(0), sh])
            else: s.put(a[2], ["lshr" if op == "srl" else "ashr", g(0, 4), sh], 4, 1 if op == "srl" else 2)
            return
        m = re.match(r"^b(ne|e|a|nz|z)?$", op)
        if m:
            k = m.group(1) or "a"
            if k == "a": s.delay(); s.jmp(a[-1]); return
            cc = a[0] if len(a) == 2 else "%icc"
            f = ["m", {"%icc": "zf", "%xcc": "of"}[cc]]; c = s.let(f if k in ("e", "z") else ["not1", f], 1); s.delay(); s.br(c, a[-1]); return
        s.bad(st)

# ---------------------------------------------------------------- Hexagon
class Hexagon(Base):
    def setup(s): s.rw = 4; s.gran = 4
    def named(s, t):
        m = re.match(r"^r(\d+)$", t)
        if m and int(m.group(1)) < 32: return {"r29": "sp"}.get(t, t)
        return {"p0": "p0", "p1": "p1", "sp": "sp", "lr": "r31"}.get(t)
    def regs_in(s, t):
        m = re.match(r"^r(\d+):(\d+)$", t)
        if m: return ["r" + m.group(1), "r" + m.group(2)]
        return super().regs_in(t)
    def width(s, r): return 1 if r in ("p0", "p1") else 4
    def namesize(s, t): return 1 if t in ("p0", "p1") else 4
    def regclass(s, c, n):
        if c != "r": raise Unsupported("class " + c)
        return ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r16", "r31"]
    def pr(s, t):
        m = re.match(r"^r(\d+):(\d+)$", t)
        if not m or int(m.group(1)) != int(m.group(2)) + 1 or int(m.group(2)) % 2: raise Unsupported("pair " + t)
        return "r" + m.group(1), "r" + m.group(2)
    def stmt(s, st):
        st = st.strip("{} ").strip()
        # inside a packet, later statements must not read what earlier ones write (except .new)
        N = {"b": 1, "h": 2, "w": 4, "d": 8}
        m = re.match(r"^if \((!?)(p\d)(\.new)?\) jump(?::\w+)? (\S+)$", st)
        if m: c = ["eq", ["m", m.group(2)], C(0, 1)]; s.br(c if m.group(1) else ["not1", c], m.group(4)); return
        m = re.match(r"^jump (\S+)$", st)
        if m: s.jmp(m.group(1)); return
        if st in ("nop", ""): return
        if st in ("barrier", "syncht", "isync"): s.fence(st); return
        m = re.match(r"^mem(w|d)_locked\(([^,]*),\s*(p\d)\) = (\S+)$", st)
        if m:
            n = N[m.group(1)]
            v = s.get(m.group(4)) if n == 4 else ["cat"] + [s.get(r) for r in reversed(s.pr(m.group(4)))]
            z = s.sc(s.get(m.group(2)), n, v); s.put(m.group(3), ["sub", C(0, 1), z], 1, 0); return
        m = re.match(r"^mem([bhwd])\(([^)]*)\) = (\S+)$", st)
        if m:
            n = N[m.group(1)]; v = s.get(m.group(3), n) if n < 8 else ["cat"] + [s.get(r) for r in reversed(s.pr(m.group(3)))]; s.st(s.get(m.group(2)), n, v); return
        m = re.match(r"^(\S+) = (.*)$", st)
        if not m: s.bad(st)
        d, e = m.groups(); e = e.strip()
        m = re.match(r"^mem(u?)([bhwd])\(([^)]*)\)$", e)
        if m:
            n = N[m.group(2)]; v = s.ld(s.get(m.group(3)), n)
            if n == 8: h, l = s.pr(d); s.put(l, ["ext", v, 0, 4]); s.put(h, ["ext", v, 4, 4])
            else: s.put(d, v, n, 1 if m.group(1) else 2)
            return
        m = re.match(r"^mem(w|d)_locked\(([^)]*)\)$", e)
        if m:
            n = N[m.group(1)]; v = s.ld(s.get(m.group(2)), n, "", "ll")
            if n == 8: h, l = s.pr(d); s.put(l, ["ext", v, 0, 4]); s.put(h, ["ext", v, 4, 4])
            else: s.put(d, v)
            return
        m = re.match(r"^cmp\.eq\(([^,]*),\s*([^)]*)\)$", e)
        if m: s.put(d, ["sub", C(0, 1), ["eq", s.get(m.group(1)), s.get(m.group(2))]], 1, 0); return
        m = re.match(r"^(and|or|xor|add|sub)\(([^,]*),\s*(~?)([^)]*)\)$", e)
        if m: y = s.get(m.group(4)); s.put(d, [m.group(1), s.get(m.group(2)), ["not", y] if m.group(3) else y]); return
        m = re.match(r"^(asl|asr|lsr|lsl)\(([^,]*),\s*([^)]*)\)$", e)
        if m:
            sh = ["and", s.get(m.group(3), 1), C(127, 1)]   # a negative amount shifts the other way; amounts here are 0..31
            s.put(d, [{"asl": "shl", "lsl": "shl", "asr": "ashr", "lsr": "lshr"}[m.group(1)], s.get(m.group(2)), sh]); return
        s.put(d, s.get(e)) if s.ref(e) or s.imm(e) is not None else s.bad(st)
    def flagsdummy(s): pass

# ---------------------------------------------------------------- m68k
class M68k(Base):
    flagclob = ("ccr",)
    def setup(s): s.rw = 4; s.gran = 1
    def named(s, t):
        t = t.lstrip("%"); return t if re.match(r"^[ad][0-7]$", t) and t != "a7" else {"sp": "sp", "a7": "sp"}.get(t)
    def regclass(s, c, n):
        D, A = ["d%d" % i for i in range(8)], ["a%d" % i for i in range(6)]
        if c == "d": return D
        if c == "a": return A
        if c == "r": return D + A
        raise Unsupported("class " + c)
    def addr(s, t):
        m = re.match(r"^\((.*)\)$", t); return s.get(m.group(1)) if m else None
    def ins(s, op, a, st):
        m = re.match(r"^(move|cas|cmp|eor|or|and|clr|tst)\.([bwl])$", op)
        if m:
            k, n = m.group(1), {"b": 1, "w": 2, "l": 4}[m.group(2)]
            if k == "move":
                src = s.addr(a[0]); dst = s.addr(a[1]); v = s.ld(src, n) if src else s.let(s.get(a[0], n), n)
                s.flags(zf=["eq", v, C(0, n)], sf=s.top(v, n), cf=C(0, 1), of=C(0, 1))
                if dst: s.st(dst, n, v)
                else: s.put(a[1], v, n, 0)
                return
            if k == "cas":
                t, z = s.cas(s.addr(a[2]), n, s.get(a[0], n), s.get(a[1], n)); s.flags(zf=z)
                s.put(a[0], ["ite", z, s.get(a[0], n), t], n, 0); return
            if k == "cmp": x, y = s.get(a[1], n), s.get(a[0], n); s.flags(zf=["eq", x, y], cf=["ult", x, y]); return
        if op in ("seq", "sne"): z = ["m", "zf"]; z = z if op == "seq" else ["not1", z]; s.put(a[0], ["sub", C(0, 1), z], 1, 0); return
        if op in ("bne", "beq"): z = ["m", "zf"]; s.br(["not1", z] if op == "bne" else z, a[0]); return
        if op == "bra": s.jmp(a[0]); return
        if op == "nop": return
        s.bad(st)

# ---------------------------------------------------------------- MSP430
class Msp430(Base):
    flagclob = ("sr",); spname = "r1"
    def setup(s): s.rw = 2; s.gran = 1
    def split(s, text): return [x.strip() for ln in text.split("\n") for x in re.split(r"(?<!\$)\{", ln)]
    def named(s, t):
        m = re.match(r"^r(\d+)$", t); return t if m and 0 < int(m.group(1)) < 16 and t not in ("r2", "r3") else {"sp": "r1"}.get(t)
    def regclass(s, c, n):
        if c != "r": raise Unsupported("class " + c)
        return ["r12", "r13", "r14", "r15", "r4", "r5"]
    def addr(s, t):
        m = re.match(r"^@(.*)$", t) or re.match(r"^0\((.*)\)$", t)
        return s.get(m.group(1)) if m else None
    def ins(s, op, a, st):
        if op == "nop": return
        if op in ("dint", "eint"): s.L.emit(k="irq", e=C(0 if op == "dint" else 1, 1)); s.flags(zf=False, cf=False, sf=False, of=False); return
        m = re.match(r"^(mov|xor|and|bis|bic)(?:\.([bw]))?$", op)
        if m:
            k, n = m.group(1), 1 if m.group(2) == "b" else 2
            if k == "mov" and a[0] == "r2":
                j = ["frz", ["c", [256]]]; s.put(a[1], ["cat", ["or", ["shl", ["m", "IF"], C(3, 1)], ["and", j, C(0xf7, 1)]], j]); return
            if k == "mov" and a[1] == "r2":
                s.L.emit(k="irq", e=["bit0", ["lshr", s.get(a[0], 1), C(3, 1)]]); s.flags(); return
            src, dst = s.addr(a[0]), s.addr(a[1]); x = s.ld(src, n) if src else s.get(a[0], n)
            if k == "mov":
                if dst: s.st(dst, n, x)
                else: s.put(a[1], x, n, 1)
                return
            if dst or src: s.bad(st)
            y = s.get(a[1], n); r = s.let({"xor": ["xor", y, x], "and": ["and", y, x], "bis": ["or", y, x], "bic": ["and", y, ["not", x]]}[k], n)
            s.put(a[1], r, n, 1)
            if k in ("xor", "and"): s.flags(zf=["eq", r, C(0, n)])
            return
        s.bad(st)

# ---------------------------------------------------------------- AVR
class Avr(Base):
    flagclob = ("sreg",)
    def setup(s): s.rw = 1; s.gran = 1
    def width(s, r): return 2 if r in ("r31r30", "sp") else 1
    def named(s, t):
        if t in ("r31r30", "Z"): return "r31r30"
        m = re.match(r"^r(\d+)$", t); return t if m and int(m.group(1)) < 30 else None
    def namesize(s, t): return s.width(s.named(t))
    def regclass(s, c, n):
        if c not in ("r", "d") or n != 1: raise Unsupported("class %s of %d bytes" % (c, n))
        return ["r18", "r19", "r20", "r21", "r22", "r23", "r24", "r25"]
    def ins(s, op, a, st):
        Z = ["m", "r31r30"]
        if op == "nop": return
        if op in ("cli", "sei"): s.L.emit(k="irq", e=C(0 if op == "cli" else 1, 1)); s.flags(zf=False, cf=False, sf=False, of=False); return
        if op == "in" and s.imm(a[1]) == 0x3f: s.put(a[0], ["or", ["shl", ["m", "IF"], C(7, 1)], ["and", ["frz", ["c", [256]]], C(127, 1)]]); return
        if op == "out" and s.imm(a[0]) == 0x3f: s.L.emit(k="irq", e=["bit0", ["lshr", s.get(a[1], 1), C(7, 1)]]); s.flags(); return
        if op == "ld" and a[1] == "Z": s.put(a[0], s.ld(Z, 1)); return
        if op == "st" and a[0] == "Z": s.st(Z, 1, s.get(a[1], 1)); return
        if op in ("eor", "and", "or"): r = s.let([{"eor": "xor"}.get(op, op), s.get(a[0]), s.get(a[1])], 1); s.put(a[0], r); s.flags(zf=["eq", r, C(0, 1)], cf=False); return
        if op == "mov": s.put(a[0], s.get(a[1])); return
        s.bad(st)

MAKE = {"riscv32": Riscv, "riscv64": Riscv, "loongarch32": LoongArch, "loongarch64": LoongArch, "aarch64": AArch64, "arm64ec": AArch64, "arm": Arm, "mips": Mips, "mips32r6": Mips, "mips64": Mips, "mips64r6": Mips,
        "powerpc": Ppc, "powerpc64": Ppc, "s390x": S390x, "sparc": Sparc, "sparc64": Sparc, "hexagon": Hexagon, "m68k": M68k, "msp430": Msp430, "avr": Avr}
def make(cfg):
    if cfg.arch not in MAKE: raise Unsupported("architecture " + cfg.arch)
    return MAKE[cfg.arch](cfg)
