"""Parser for the subset of textual LLVM IR that rustc emits for the wrappers, and the
translation ("lifting") of a wrapper into the micro-operations of specs/Machine.tla.

Nothing is decided here: the output is the compiled program itself, written in the vocabulary
of the specification.  Anything not understood raises Unsupported; callers report it as not
covered and never as a violation."""
import re, json

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ types
def parse_type(s):
    """returns (type, rest). types: ('i',bits) ('p',) ('v',n,t) ('s',[t]) ('a',n,t) ('f',bits) ('void',)"""
    s = s.lstrip()
    m = re.match(r"i(\d+)\b", s)
    if m: return ("i", int(m.group(1))), s[m.end():]
    m = re.match(r"ptr(\s+addrspace\(\d+\))?", s)
    if m: return ("p",), s[m.end():]
    if s.startswith("void"): return ("void",), s[4:]
    if s.startswith("half"): return ("f", 16), s[4:]
    if s.startswith("float"): return ("f", 32), s[5:]
    if s.startswith("double"): return ("f", 64), s[6:]
    if s.startswith("metadata"): return ("meta",), s[8:]
    if s.startswith("<{"):
        t, r = parse_type(s[1:]); r = r.lstrip()
        if not r.startswith(">"): raise Unsupported("type " + s[:40])
        return t, r[1:]
    if s[0] in "<[":
        m = re.match(r"[<\[]\s*(\d+)\s+x\s+", s)
        if not m: raise Unsupported("type " + s[:40])
        t, r = parse_type(s[m.end():]); r = r.lstrip()
        return ("v" if s[0] == "<" else "a", int(m.group(1)), t), r[1:]
    if s[0] == "{":
        r = s[1:].lstrip(); ts = []
        while not r.startswith("}"):
            t, r = parse_type(r); ts.append(t); r = r.lstrip()
            if r.startswith(","): r = r[1:].lstrip()
        return ("s", ts), r[1:]
    raise Unsupported("type " + s[:60])

def split_top(s, sep=","):
    out = []; d = 0; cur = ""; q = False
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in "([{<": d += 1
            elif ch in ")]}>": d -= 1
            elif ch == sep and d == 0:
                out.append(cur); cur = ""; continue
        cur += ch
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]

class Func:
    pass

class Module:
    def __init__(s, text, ptr, be=False):
        s.ptr, s.be = ptr, be; s.funcs = {}; s.const = {}; s.alias = {}; s.attrs = {}; s.decl = {}
        cur = None
        for l in text.splitlines():
            if cur is not None:
                if l.startswith("}"): cur = None; continue
                l = strip_comment(l)
                if not l.strip(): continue
                m = re.match(r'^("?[\w.$-]+"?):', l)
                if m and not l.startswith(" "):
                    cur.blocks[m.group(1).strip('"')] = []; cur.lab = m.group(1).strip('"'); continue
                if cur.join is not None:
                    cur.join += " " + l.strip()
                    if "]" in l: cur.blocks[cur.lab].append(cur.join); cur.join = None
                    continue
                if l.strip().startswith("switch ") and "]" not in l: cur.join = l.strip(); continue
                cur.blocks[cur.lab].append(l.strip()); continue
            if l.startswith("define "):
                f = Func(); m = re.search(r'@("[^"]+"|[\w.$-]+)\(', l)
                f.name = m.group(1).strip('"'); i = m.end(); d = 1; j = i
                while d: d += {"(": 1, ")": -1}.get(l[j], 0); j += 1
                f.params = []
                for k, p in enumerate(split_top(l[i:j - 1])):
                    t, r = parse_type(p); nm = re.search(r"%([\w.$-]+|\"[^\"]+\")\s*$", r)
                    f.params.append((nm.group(1) if nm else str(k), t, "noundef" in r))
                f.retundef = "noundef" not in l[:m.start()]
                f.blocks = {"start": []}; f.lab = "start"; f.join = None; f.first = True
                s.funcs[f.name] = f; cur = f
            elif l.startswith("declare "):
                m = re.search(r'@("[^"]+"|[\w.$-]+)\(', l)
                s.decl[m.group(1).strip('"')] = l
            elif l.startswith("@"):
                m = re.match(r'@("[^"]+"|[\w.$-]+)\s*=.*\balias\b.*@("[^"]+"|[\w.$-]+)\s*$', l)
                if m: s.alias[m.group(1).strip('"')] = m.group(2).strip('"')
                m = re.match(r'@("[^"]+"|[\w.$-]+)\s*=.*\bconstant (.*?)(, (align|section|comdat).*)?$', l)
                if m: s.const[m.group(1).strip('"')] = m.group(2)
            elif l.startswith("attributes #"):
                m = re.match(r"attributes #(\d+) = \{(.*)\}", l); s.attrs[m.group(1)] = m.group(2)
        for f in s.funcs.values():
            if not f.blocks["start"] and len(f.blocks) > 1:
                del f.blocks["start"]
            f.entry = next(iter(f.blocks))
    def constbytes(s, txt):
        """bytes of a constant initialiser, in memory order; None if it has relocations or is not understood"""
        try: t, r = parse_type(txt)
        except (Unsupported, IndexError): return None
        r = r.strip(); n = s.size(t)
        if r == "zeroinitializer": return [0] * n
        if r in ("undef", "poison"): return [256] * n
        if r.startswith('c"'):
            b = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), r[2:r.rindex('"')]); return [ord(c) for c in b]
        if t[0] == "i" and re.match(r"-?\d+$", r):
            b = list((int(r) & ((1 << 8 * n) - 1)).to_bytes(n, "little")); return b[::-1] if s.be else b
        if r[:1] in "<[{":
            r = r.strip("<>").strip(); r = r[1:-1] if r[0] in "[{" else r
            o = []
            for x in split_top(r):
                b = s.constbytes(x)
                if b is None: return None
                o += b
            return o
        return None
    def size(s, t):
        k = t[0]
        if k == "i": return (t[1] + 7) // 8
        if k == "f": return t[1] // 8
        if k == "p": return s.ptr
        if k in "va": return t[1] * s.size(t[2])
        if k == "s": return sum(s.size(x) for x in t[1])
        raise Unsupported("size of %r" % (t,))

def strip_comment(l):
    if ";" not in l: return l
    q = False; o = ""
    for ch in l:
        if ch == '"': q = not q
        if ch == ";" and not q: break
        o += ch
    return o

# ------------------------------------------------------------------ expressions
def C(v, n): return ["c", [(v >> (8 * i)) & 255 for i in range(n)]]
def isc(e): return e[0] == "c" and 256 not in e[1]
def cval(e): return sum(b << (8 * i) for i, b in enumerate(e[1]))
def elen(e, L):
    k = e[0]
    return L[e[1]] if k == "r" else len(e[1])
def fold(op, *a):
    """constant folding of integer expressions (only when every operand is a known constant)"""
    if all(isinstance(x, int) or isc(x) for x in a):
        if op in ("add", "sub", "and", "or", "xor", "mul"):
            n = len(a[0][1]); x, y = cval(a[0]), cval(a[1])
            return C({"add": x + y, "sub": x - y, "and": x & y, "or": x | y, "xor": x ^ y, "mul": x * y}[op] & ((1 << 8 * n) - 1), n)
        if op == "zext": return C(cval(a[0]), a[1])
        if op == "ext": return ["c", a[0][1][a[1]:a[1] + a[2]]]
        if op == "eq": return C(int(a[0][1] == a[1][1]), 1)
        if op == "ult": return C(int(cval(a[0]) < cval(a[1])), 1)
        if op == "cat": return ["c", a[0][1] + a[1][1]]
        if op == "bit0": return C(cval(a[0]) & 1, 1)
        if op == "not1": return C(1 - cval(a[0]), 1)
        if op == "ite": return a[1] if cval(a[0]) else a[2]
    if op == "ext" and a[1] == 0 and isinstance(a[0], list) and a[0][0] == "zext" and False: pass
    return [op] + list(a)

ATTR = re.compile(r"^((noundef|nonnull|signext|zeroext|inreg|noalias|nofree|readonly|allocptr|immarg|returned|writeonly|readnone|nocapture|dead_on_unwind|dead_on_return|writable|swiftself|align \d+|(?:captures|dereferenceable|dereferenceable_or_null|range|nofpclass|byval|sret|initializes|align|elementtype)\((?:[^()]|\([^()]*\))*\))\s+)*")

PRIV = {"a": 8192, "b": 8224, "out": 8256, "alloca": 8448, "sp": 12032}

class Lift:
    """lift one wrapper; asm blocks are translated by `asm(block_descriptor, template)`"""
    def __init__(s, mod, archmod, lib=None, w=0):
        s.m, s.arch, s.lib, s.w = mod, archmod, lib, w
        s.code = []; s.blocks = []; s.nreg = 0; s.alloca = PRIV["alloca"]; s.len = {}; s.notes = []; s.allocas = []
        s.depth = 0
    def fresh(s, n, pre="v"):
        s.nreg += 1; r = "%s%d" % (pre, s.nreg); s.len[r] = n; return r
    def emit(s, **k):
        s.code.append(k); return len(s.code)
    def let(s, e, n):
        if e[0] in ("c", "r"): return e
        r = s.fresh(n); s.emit(k="let", d=r, e=e); return ["r", r]
    # ---- values
    def val(s, t, tok, env):
        tok = tok.strip(); n = s.m.size(t)
        tok = ATTR.sub("", tok)
        if tok.startswith("%"):
            nm = tok[1:].strip('"')
            if nm not in env: raise Unsupported("value %" + nm)
            return env[nm]
        if tok in ("true", "false"): return C(int(tok == "true"), 1)
        if tok in ("undef", "poison"): return ["c", [256] * n]
        if tok in ("null", "zeroinitializer"): return C(0, n)
        if re.match(r"^-?\d+$", tok): return C(int(tok) & ((1 << 8 * n) - 1), n)
        if tok.startswith("<") or tok.startswith("{"):
            e = None
            for p in split_top(tok[1:-1]):
                tt, r = parse_type(p); x = s.val(tt, r, env)
                e = x if e is None else fold("cat", e, x)
            return e
        m = re.match(r"inttoptr \(i\d+ (-?\d+) to ptr\)", tok)
        if m: return C(int(m.group(1)), n)
        m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*\((.*)\)$", tok)
        if m:
            ps = split_top(m.group(1)); et, _ = parse_type(ps[0]); _, base = s.tv(ps[1], env)
            if len(ps) != 3 or not isc(base): raise Unsupported("constant expression " + tok[:60])
            return C(cval(base) + int(ps[2].split()[-1]) * s.m.size(et), n)
        if tok.startswith("@") and tok[1:].strip('"') in s.m.const:
            by = s.m.constbytes(s.m.const[tok[1:].strip('"')])
            if by is not None and len(by) <= 64:
                s.alloca = (s.alloca + 15) // 16 * 16; ad = C(s.alloca, s.m.ptr); s.alloca += len(by) + 8
                if s.m.be: by = by[::-1]
                s.emit(k="st", a=ad, n=len(by), e=["c", by], x="ir"); return ad
        if tok.startswith("@"): return ["c", [1] + [0] * (n - 1)]      # address of some static: only passed to panics
        if tok.startswith("splat"):
            raise Unsupported("splat")
        raise Unsupported("value " + tok[:60])
    def tv(s, txt, env):
        t, r = parse_type(txt)
        return t, s.val(t, r, env)
    # ---- functions
    def run(s, fname, args, toplevel=True):
        """emit the body of a function; returns ('reg', n) of the result"""
        s.depth += 1
        if s.depth > 12: raise Unsupported("call depth")
        while fname in s.m.alias: fname = s.m.alias[fname]
        f = s.m.funcs[fname]
        env = {}
        for (nm, t, nu), e in zip(f.params, args):
            env[nm] = e
            if nu and not isc(e): s.emit(k="nu", e=e, w="ub: uninitialised value passed as an initialised parameter")
        ret = None
        lab = {}; pend = []      # label -> code index ; fixups (code idx, field, label, from)
        done = {}; order = [f.entry]; retfix = []; retreg = s.fresh(16, "ret")
        phis = {}
        for b, ins in f.blocks.items():
            ph = []
            for l in ins:
                m = re.match(r"%(\S+) = phi (.*)$", l)
                if m:
                    t, r = parse_type(m.group(2)); d = s.fresh(s.m.size(t)); env[m.group(1)] = ["r", d]
                    ph.append((d, t, {x.split(",")[1].strip()[1:]: x.split(",")[0].strip() for x in re.findall(r"\[([^\]]*)\]", r)}))
            phis[b] = ph
        work = [f.entry]; seen = {f.entry}
        def goto(frm, to):
            """emit phi copies then a jump to block `to` (fixup)"""
            ph = phis[to]
            if ph:
                tmp = []
                for d, t, src in ph:
                    x = s.val(t, src[frm], env); r = s.fresh(s.m.size(t)); s.emit(k="let", d=r, e=x); tmp.append((d, r))
                for d, r in tmp: s.emit(k="let", d=d, e=["r", r])
            i = s.emit(k="jp", t=0); pend.append((i, "t", to))
            if to not in seen: seen.add(to); work.append(to)
        def branch(frm, c, t, fl):
            if isc(c): return goto(frm, t if cval(c) & 1 else fl)
            i = s.emit(k="br", c=c, t=0, f=0)
            s.code[i - 1]["t"] = len(s.code) + 1; goto(frm, t)
            s.code[i - 1]["f"] = len(s.code) + 1; goto(frm, fl)
        while work:
            b = work.pop(0)
            lab[b] = len(s.code) + 1
            for l in f.blocks[b]:
                if s.instr(l, env, b, goto, branch, retreg, retfix): break
        for i, fld, to in pend: s.code[i - 1][fld] = lab[to]
        end = len(s.code) + 1
        for i in retfix: s.code[i - 1]["t"] = end
        s.depth -= 1
        if not retfix: s.emit(k="dead", w="end of a function that does not return")
        return ["r", retreg]
    def intop(s, op, a, b, n):
        if isc(a) and isc(b) and op in ("add", "sub", "and", "or", "xor", "mul"): return fold(op, a, b)
        if op == "mul":
            if isc(a): a, b = b, a
            if not isc(b) or cval(b) & (cval(b) - 1) or not cval(b): raise Unsupported("multiplication")
            return ["shl", a, C(cval(b).bit_length() - 1, 1)]
        return [op, a, b]
    def instr(s, l, env, b, goto, branch, retreg, retfix):
        m = re.match(r"%(\"[^\"]+\"|[\w.$-]+) = (.*)$", l)
        dst = None
        if m: dst, l = m.group(1).strip('"'), m.group(2)
        md = ""
        while True:
            mm = re.search(r",\s*!([\w.]+) (?:![\w.]+|!\{[^}]*\})\s*$", l)
            if not mm: break
            md += " " + mm.group(1); l = l[:mm.start()]
        l = l.strip(); w = l.split()
        op = w[0]
        if op in ("tail", "notail", "musttail"): l = l[len(op):].strip(); w = l.split(); op = w[0]
        S = s.m.size
        def setv(e, n):
            env[dst] = s.let(e, n)
        if op == "phi": return False
        if op == "alloca":
            t, _ = parse_type(l[6:]); n = S(t); al = re.search(r"align (\d+)", l); al = int(al.group(1)) if al else 1
            al = max(al, 1); s.alloca = (s.alloca + al - 1) // al * al
            env[dst] = C(s.alloca, s.m.ptr); s.allocas.append((s.alloca, n)); s.alloca += n + 8
            if s.alloca > 11000: raise Unsupported("too much stack")
        elif op == "load":
            x = "ir"; body = l[4:].strip(); o = ""
            if body.startswith("atomic"): x = "at"; body = body[6:].strip()
            if body.startswith("volatile"): x = "vol" if x == "ir" else x; body = body[8:].strip()
            ps = split_top(body); t, _ = parse_type(ps[0]); _, a = s.tv(re.sub(r"\s+(syncscope\(.*?\)\s*)?(unordered|monotonic|acquire|seq_cst)$", "", ps[1]), env)
            if x == "at": o = re.search(r"(unordered|monotonic|acquire|seq_cst)\s*$", ps[1]).group(1)
            r = s.fresh(S(t))
            if x == "at": s.irld(r, a, S(t), o)
            elif isc(a) and cval(a) in getattr(s.arch, "consts", {}): s.emit(k="let", d=r, e=C(s.arch.consts[cval(a)], S(t)))
            else: s.emit(k="ld", d=r, a=a, n=S(t), x=x)
            if t == ("i", 1): pass
            if "noundef" in md: s.emit(k="nu", e=["r", r], w="ub: uninitialised value loaded as an initialised one")
            env[dst] = ["r", r]
        elif op == "store":
            x = "ir"; body = l[5:].strip(); o = ""
            if body.startswith("atomic"): x = "at"; body = body[6:].strip()
            if body.startswith("volatile"): x = "vol" if x == "ir" else x; body = body[8:].strip()
            ps = split_top(body); t, v = s.tv(ps[0], env); _, a = s.tv(re.sub(r"\s+(syncscope\(.*?\)\s*)?(unordered|monotonic|release|seq_cst)$", "", ps[1]), env)
            if x == "at": s.irst(a, S(t), v, re.search(r"(unordered|monotonic|release|seq_cst)\s*$", ps[1]).group(1))
            else: s.emit(k="st", a=a, n=S(t), e=v, x=x)
        elif op == "getelementptr":
            body = re.sub(r"^getelementptr\s+((inbounds|nuw|nusw|nneg|inrange\([^)]*\))\s+)*", "", l)
            ps = split_top(body); t, _ = parse_type(ps[0]); _, base = s.tv(ps[1], env)
            e = base; cur = t; first = True
            for p in ps[2:]:
                it, iv = s.tv(p, env)
                if first: n = S(cur); first = False
                elif cur[0] in "av": cur = cur[2]; n = S(cur)
                elif cur[0] == "s":
                    k = cval(iv); off = sum(S(x) for x in cur[1][:k]); e = s.intop("add", e, C(off, s.m.ptr), s.m.ptr); cur = cur[1][k]; continue
                else: raise Unsupported("gep")
                if isc(iv):
                    v = cval(iv); bits = 8 * len(iv[1])
                    if v >> (bits - 1): v -= 1 << bits
                    e = s.intop("add", e, C((v * n) & ((1 << 8 * s.m.ptr) - 1), s.m.ptr), s.m.ptr)
                else:
                    if S(it) != s.m.ptr: iv = ["sext", iv, s.m.ptr]
                    for _ in range(n) if n <= 16 else []: e = ["add", e, iv]
                    if n > 16: raise Unsupported("gep scale")
            setv(e, s.m.ptr)
        elif op == "extractvalue":
            ps = split_top(l[12:]); t, v = s.tv(ps[0], env); off = 0; cur = t
            for k in ps[1:]:
                k = int(k)
                if cur[0] == "s": off += sum(S(x) for x in cur[1][:k]); cur = cur[1][k]
                else: off += k * S(cur[2]); cur = cur[2]
            setv(fold("ext", v, off, S(cur)), S(cur))
        elif op == "insertvalue":
            ps = split_top(l[11:]); t, v = s.tv(ps[0], env); t2, v2 = s.tv(ps[1], env); off = 0; cur = t
            for k in ps[2:]:
                k = int(k)
                if cur[0] == "s": off += sum(S(x) for x in cur[1][:k]); cur = cur[1][k]
                else: off += k * S(cur[2]); cur = cur[2]
            setv(s.patch(v, S(t), off, v2, S(t2)), S(t))
        elif op == "extractelement":
            ps = split_top(l[14:]); t, v = s.tv(ps[0], env); _, i = s.tv(ps[1], env)
            if not isc(i): raise Unsupported("extractelement index")
            n = S(t[2]); setv(fold("ext", v, cval(i) * n, n), n)
        elif op == "insertelement":
            ps = split_top(l[13:]); t, v = s.tv(ps[0], env); t2, v2 = s.tv(ps[1], env); _, i = s.tv(ps[2], env)
            if not isc(i): raise Unsupported("insertelement index")
            setv(s.patch(v, S(t), cval(i) * S(t2), v2, S(t2)), S(t))
        elif op in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast", "zext", "sext", "trunc"):
            body = re.sub(r"^\w+\s+((nneg|nuw|nsw)\s+)*", "", l); src, _, to = body.rpartition(" to ")
            t, v = s.tv(src, env); t2, _ = parse_type(to); n, n2 = S(t), S(t2)
            if op == "sext": e = ["sext", v, n2] if t != ("i", 1) else ["sext1", v, n2]
            elif op == "trunc" and t2 == ("i", 1): e = fold("bit0", v) if not isc(v) else C(cval(v) & 1, 1)
            elif n2 > n: e = fold("zext", v, n2)
            elif n2 < n: e = fold("ext", v, 0, n2)
            else: e = v
            setv(e, n2)
        elif op in ("and", "or", "xor", "add", "sub", "mul"):
            body = re.sub(r"^\w+\s+((nuw|nsw|disjoint)\s+)*", "", l); ps = split_top(body); t, a = s.tv(ps[0], env); bb = s.val(t, ps[1], env)
            if t == ("i", 1) and op in ("add", "sub"): op = "xor"
            setv(s.intop(op, a, bb, S(t)), S(t))
        elif op in ("urem", "udiv"):
            ps = split_top(l[4:].strip()); t, a = s.tv(re.sub(r"^exact ", "", ps[0]), env); bb = s.val(t, ps[1], env); n = S(t)
            if not isc(bb) or cval(bb) == 0 or cval(bb) & (cval(bb) - 1): raise Unsupported("division")
            v = cval(bb)
            setv(s.intop("and", a, C(v - 1, n), n) if op == "urem" else ["lshr", a, C(v.bit_length() - 1, 1)], n)
        elif op in ("shl", "lshr", "ashr"):
            body = re.sub(r"^\w+\s+((nuw|nsw|exact)\s+)*", "", l); ps = split_top(body); t, a = s.tv(ps[0], env); bb = s.val(t, ps[1], env)
            setv([op, a, bb], S(t))
        elif op == "icmp":
            m = re.match(r"icmp\s+(samesign\s+)?(\w+)\s+(.*)$", l); ps = split_top(m.group(3)); t, a = s.tv(ps[0], env); bb = s.val(t, ps[1], env)
            c = m.group(2)
            e = {"eq": lambda: fold("eq", a, bb), "ne": lambda: fold("not1", fold("eq", a, bb)), "ult": lambda: fold("ult", a, bb), "ugt": lambda: fold("ult", bb, a),
                 "uge": lambda: fold("not1", fold("ult", a, bb)), "ule": lambda: fold("not1", fold("ult", bb, a)),
                 "slt": lambda: ["slt", a, bb], "sgt": lambda: ["slt", bb, a], "sge": lambda: ["not1", ["slt", a, bb]], "sle": lambda: ["not1", ["slt", bb, a]]}[c]()
            setv(e, 1)
        elif op == "select":
            ps = split_top(l[6:]); _, c = s.tv(ps[0], env); t, a = s.tv(ps[1], env); _, bb = s.tv(ps[2], env)
            setv(fold("ite", c, a, bb) if isc(c) else ["ite", c, a, bb], S(t))
        elif op == "freeze":
            t, v = s.tv(l[6:], env); setv(["frz", v], S(t))
        elif op == "fence":
            o = l.split()[-1]
            if o == "seq_cst": s.emit(k="fn", x="ir")
            else: s.emit(k="cfn")
        elif op == "br":
            if w[1] == "label": goto(b, w[2][1:].strip('"')); return True
            m = re.match(r"br i1 (\S+), label %(\S+), label %(\S+)", l)
            c = s.val(("i", 1), m.group(1), env)
            if not isc(c): s.emit(k="nu", e=c, w="ub: branch depends on an uninitialised value")
            branch(b, c, m.group(2).strip('"'), m.group(3).strip('"')); return True
        elif op == "switch":
            m = re.match(r"switch (.*), label %(\S+) \[(.*)\]", l); t, v = s.tv(m.group(1), env)
            cs = re.findall(r"i\d+ (-?\d+), label %(\S+)", m.group(3))
            if isc(v):
                for k, to in cs:
                    if int(k) & ((1 << 8 * S(t)) - 1) == cval(v): goto(b, to); return True
                goto(b, m.group(2)); return True
            s.emit(k="nu", e=v, w="ub: switch depends on an uninitialised value")
            for k, to in cs:
                i = s.emit(k="br", c=["eq", v, C(int(k) & ((1 << 8 * S(t)) - 1), S(t))], t=0, f=0)
                s.code[i - 1]["t"] = len(s.code) + 1; goto(b, to); s.code[i - 1]["f"] = len(s.code) + 1
            goto(b, m.group(2)); return True
        elif op == "ret":
            if w[1] != "void":
                t, v = s.tv(l[3:], env); s.len[retreg] = S(t); s.emit(k="let", d=retreg, e=v)
            retfix.append(s.emit(k="jp", t=0)); return True
        elif op == "unreachable":
            s.emit(k="dead", w="ub: reached unreachable code"); return True
        elif op == "call":
            return s.call(l, dst, env, md)
        elif op == "cmpxchg" or op == "atomicrmw":
            s.irrmw(l, dst, env)
        else:
            raise Unsupported("instruction " + l[:80])
        return False
    def patch(s, v, n, off, v2, n2):
        e = None
        for part in ([fold("ext", v, 0, off)] if off else []) + [v2] + ([fold("ext", v, off + n2, n - off - n2)] if off + n2 < n else []):
            e = part if e is None else fold("cat", e, part)
        return e
    def call(s, l, dst, env, md):
        l = re.sub(r"^call\s+((fastcc|ccc|coldcc|nnan|cc \d+)\s+)*", "", l)
        pre = re.match(r"((noundef|nonnull|zeroext|signext|inreg|noalias|addrspace\(\d+\)|range\([^)]*\)|align \d+|dereferenceable\(\d+\))\s+)*", l)
        nu = "noundef" in pre.group(0); l = l[pre.end():]
        rt, rest = parse_type(l); rest = rest.strip()
        if rest.startswith("asm "): return s.asmcall(rest, rt, dst, env)
        m = re.match(r'@("[^"]+"|[\w.$-]+)\(', rest)
        if not m: raise Unsupported("indirect call")
        name = m.group(1).strip('"'); d = 1; j = m.end()
        while d: d += {"(": 1, ")": -1}.get(rest[j], 0); j += 1
        argt = split_top(rest[m.end():j - 1])
        S = s.m.size
        if name.startswith("llvm."):
            if re.match(r"llvm\.(lifetime|dbg|invariant|experimental\.noalias)", name): return False
            a = [s.tv(x, env) for x in argt]
            if name == "llvm.assume":
                if not isc(a[0][1]): s.emit(k="ub", c=a[0][1], w="ub: false assumption")
                elif not cval(a[0][1]): s.emit(k="dead", w="ub: false assumption"); return True
                return False
            if re.match(r"llvm\.memcpy|llvm\.memmove", name):
                if not isc(a[2][1]): raise Unsupported("memcpy of variable length")
                n = cval(a[2][1]); r = s.fresh(n)
                if n == 0: return False
                s.emit(k="ld", d=r, a=a[1][1], n=n, x="ir"); s.emit(k="st", a=a[0][1], n=n, e=["r", r], x="ir"); return False
            if name.startswith("llvm.memset"):
                if not isc(a[2][1]): raise Unsupported("memset")
                n = cval(a[2][1]); e = a[1][1]
                for _ in range(n - 1): e = fold("cat", e, a[1][1])
                s.emit(k="st", a=a[0][1], n=n, e=e, x="ir"); return False
            if re.match(r"llvm\.(expect|ssa\.copy|launder|strip)", name): env[dst] = a[0][1]; return False
            if name.startswith("llvm.bswap"):
                n = S(a[0][0]); e = fold("ext", a[0][1], n - 1, 1)
                for i in range(n - 2, -1, -1): e = ["cat", e, ["ext", a[0][1], i, 1]]
                env[dst] = s.let(e, n); return False
            if name.startswith("llvm.ctpop"):
                n = S(a[0][0]); env[dst] = s.let(C(bin(cval(a[0][1])).count("1"), n) if isc(a[0][1]) else ["pop", a[0][1], n], n); return False
            if name.startswith("llvm.ptrmask"):
                env[dst] = s.let(s.intop("and", a[0][1], a[1][1], S(a[0][0])), S(a[0][0])); return False
            if name in ("llvm.trap",): s.emit(k="panic", w="trap"); return True
            raise Unsupported("intrinsic " + name)
        n = name
        while n in s.m.alias: n = s.m.alias[n]
        if n in s.m.funcs:
            a = [s.tv(x, env)[1] for x in argt]
            r = s.run(n, a, False)
            if dst is not None:
                if rt[0] == "void": raise Unsupported("void result")
                env[dst] = ["r", r[1]]
                s.len[r[1]] = S(rt)
                q = s.fresh(S(rt)); s.emit(k="let", d=q, e=["r", r[1]]); env[dst] = ["r", q]
            return False
        if n == "vp_cb":
            # the function passed to fetch_update: declines the value b, otherwise next = prev xor a
            A = [s.tv(x, env)[1] for x in argt]; k = s.w; pa, pb, pv, pn, r = [s.fresh(k) for _ in range(5)]
            z = s.fresh(1); q = s.fresh(4)
            for d, ad in ((pa, A[0]), (pb, A[1]), (pv, A[2])): s.emit(k="ld", d=d, a=ad, n=k, x="ir")
            s.emit(k="let", d=z, e=["eq", ["frz", ["r", pv]], ["frz", ["r", pb]]])
            s.emit(k="st", a=A[3], n=k, e=["xor", ["r", pv], ["r", pa]], x="ir")
            s.emit(k="let", d=q, e=["ite", ["r", z], C(0, 4), C(1, 4)])
            if dst is not None: env[dst] = ["r", q]
            return False
        if "panic" in n or "rust_begin_unwind" in n or "unwrap_failed" in n or "expect_failed" in n: s.emit(k="panic", w="panic: " + n[:60]); return True
        if n in ("memcpy", "memmove"):
            a = [s.tv(x, env) for x in argt]
            if isc(a[2][1]):
                k = cval(a[2][1]); r = s.fresh(k); s.emit(k="ld", d=r, a=a[1][1], n=k, x="ir"); s.emit(k="st", a=a[0][1], n=k, e=["r", r], x="ir")
                if dst: env[dst] = a[0][1]
                return False
        lm = s.lib() if s.lib else None
        if lm is not None and lm is not s.m and (n in lm.funcs or n in lm.alias):
            a = [s.tv(x, env)[1] for x in argt]; keep, s.m = s.m, lm
            try: r = s.run(n, a, False)
            finally: s.m = keep
            if dst is not None:
                q = s.fresh(S(rt)); s.len[r[1]] = S(rt); s.emit(k="let", d=q, e=["r", r[1]]); env[dst] = ["r", q]
            return False
        raise Unsupported("call to " + n)
    # ---- IR-level atomics (none in the original code; a change may introduce them)
    def irld(s, r, a, n, o): s.arch.ir_load(s, r, a, n, o)
    def irst(s, a, n, v, o): s.arch.ir_store(s, a, n, v, o)
    def irrmw(s, l, dst, env): s.arch.ir_rmw(s, l, dst, env)
    # ---- inline assembly
    def asmcall(s, rest, rt, dst, env):
        m = re.match(r'asm\s+((?:sideeffect|alignstack|inteldialect|unwind)\s+)*"((?:[^"\\]|\\.)*)",\s*"([^"]*)"\((.*)$', rest)
        if not m: raise Unsupported("asm " + rest[:80])
        flags = rest[:rest.index('"')]
        tmpl, cons, tail = m.group(2), m.group(3), m.group(4)
        d = 1; j = 0; q = False
        while d:
            ch = tail[j]
            if ch == '"': q = not q
            if not q: d += {"(": 1, ")": -1}.get(ch, 0)
            j += 1
        args = [s.tv(x, env) for x in split_top(tail[:j - 1])]
        attrs = tail[j:]
        for k in re.findall(r"#(\d+)", attrs): attrs += " " + s.m.attrs.get(k, "")
        outs, ins, clob = [], [], []
        outts = [] if rt[0] == "void" else rt[1] if rt[0] == "s" else [rt]
        oi = 0; ai = 0; ops = []
        for c in cons.split(","):
            if c.startswith("~"): clob.append(c[2:-1]); continue
            if c.startswith("="):
                t = outts[oi]; oi += 1; cc = c[1:]; early = cc.startswith("&"); cc = cc.lstrip("&")
                if cc.startswith("*"): raise Unsupported("memory constraint")
                ops.append(dict(dir="out", cls=cc, early=early, n=s.m.size(t), tie=-1, e=["c", [0]]))
            else:
                t, v = args[ai]; ai += 1
                if c.startswith("*"): raise Unsupported("memory constraint")
                o = dict(dir="in", cls=c, early=False, n=s.m.size(t), tie=-1, e=v, p=int(t[0] == "p"))
                if c.isdigit(): o["tie"] = int(c)
                ops.append(o)
        eff = "full"
        mm = re.findall(r"memory\(([^)]*)\)", attrs)
        if mm or "memory" not in clob:
            if mm:
                x = mm[-1]
                if x.strip() == "none": eff = "none"
                elif "argmem" in x and not re.match(r"\s*(read|write|readwrite)\s*(,|$)", x): eff = "none"
                else:
                    dflt = re.match(r"\s*(read|write|readwrite|none)\s*(,|$)", x)
                    eff = {"read": "read", "write": "write", "readwrite": "full", "none": "none"}[dflt.group(1)] if dflt else "none"
        blk = dict(ops=ops, clob=clob, mem=eff, side=int("sideeffect" in flags), stack=int("alignstack" in flags), intel="inteldialect" in flags)
        text = tmpl.replace("\\0A", "\n").replace("\\09", " ").replace("\\22", '"').replace("\\5C", "\\")
        blk["text"] = text
        bi = len(s.blocks) + 1; s.blocks.append(blk)
        s.arch.asm(s, bi, blk, text)       # emits asm / end micro-operations; describes registers in blk
        if outts and dst is not None:
            n = sum(s.m.size(t) for t in outts); r = s.fresh(n)
            e = None
            for k in range(len(outts)):
                x = ["r", "O%d_%d" % (bi, k + 1)]; e = x if e is None else ["cat", e, x]
            s.emit(k="let", d=r, e=e); env[dst] = ["r", r]
        return False

def lift(mod, fname, archmod, lib=None, w=0):
    """lib: function returning the module of the crate itself (for calls that are not inlined);
    w: size of the type the wrapper is about"""
    L = Lift(mod, archmod, lib, w)
    f = fname
    while f in mod.alias: f = mod.alias[f]
    np_ = len(mod.funcs[f].params)
    args = [["r", "Pc"], C(PRIV["a"], mod.ptr), C(PRIV["b"], mod.ptr), C(PRIV["out"], mod.ptr)][:np_]
    L.len["Pc"] = mod.ptr
    r = L.run(f, args)
    L.emit(k="ret", e=["ext", r, 0, 4] if L.len[r[1]] > 4 else r)
    import fold
    fold.reduce(L)
    return dict(code=L.code, blocks=L.blocks)

def compress(L):
    """drop jumps to the next instruction and unreachable micro-operations (layout only)"""
    code = L.code
    # thread jump chains
    def tgt(i):
        seen = set()
        while code[i - 1]["k"] == "jp" and i not in seen: seen.add(i); i = code[i - 1]["t"]
        return i
    for c in code:
        for f in ("t", "f"):
            if f in c and isinstance(c[f], int) and c["k"] in ("jp", "br"): c[f] = tgt(c[f])
    reach = set(); st = [1]
    while st:
        i = st.pop()
        if i in reach: continue
        reach.add(i); c = code[i - 1]
        if c["k"] == "jp": st.append(c["t"])
        elif c["k"] == "br": st += [c["t"], c["f"]]
        elif c["k"] in ("ret", "panic", "dead"): pass
        else: st.append(i + 1)
    keep = [i for i in range(1, len(code) + 1) if i in reach]
    # remove jumps to the following kept instruction
    changed = True
    while changed:
        changed = False
        nxt = {a: b for a, b in zip(keep, keep[1:])}
        for i in keep:
            if code[i - 1]["k"] == "jp" and nxt.get(i) == code[i - 1]["t"]:
                keep.remove(i)
                for c in code:
                    for f in ("t", "f"):
                        if c.get(f) == i and c["k"] in ("jp", "br"): c[f] = nxt[i]
                changed = True; break
    num = {i: k + 1 for k, i in enumerate(keep)}
    out = []
    for i in keep:
        c = dict(code[i - 1])
        for f in ("t", "f"):
            if f in c and c["k"] in ("jp", "br"): c[f] = num[c[f]]
        out.append(c)
    L.code = out
