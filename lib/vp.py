"""Shared build/run machinery of the checks.

Builds the crate of /repo (working tree) plus harness/wrappers.rs for many configurations,
caches by content hash under a scratch directory, runs TLC."""
import hashlib, json, os, re, shutil, subprocess, sys, time, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VP_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4

class ToolError(Exception):
    pass

T0 = time.time()
def left():
    """seconds left for exploration: a quick check answers within its 900 s"""
    return (800 if TIER == "quick" else 6 * 3600) - (time.time() - T0)

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def run(cmd, timeout=600, env=None, cwd=None, check=True, input=None, partial=False):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "RUSTC_BOOTSTRAP", "RUSTC_STAGE"):
        e.pop(k, None)
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, input=input)
    except subprocess.TimeoutExpired as x:
        if partial:
            p = subprocess.CompletedProcess(cmd, None, x.stdout or b"", x.stderr or b"")
            p.out = p.stdout.decode("utf-8", "replace"); p.err = p.stderr.decode("utf-8", "replace"); return p
        raise ToolError("timeout: " + " ".join(map(str, cmd))[:300])
    p.out = p.stdout.decode("utf-8", "replace"); p.err = p.stderr.decode("utf-8", "replace")
    if check and p.returncode != 0:
        raise ToolError("command failed (%d): %s\n%s\n%s" % (p.returncode, " ".join(map(str, cmd))[:600], p.out[-2000:], p.err[-4000:]))
    return p

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

_repo_hash = None
def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        _repo_hash = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "build.rs"), os.path.join(REPO, "Cargo.toml")])
    return _repo_hash

STABLE, NIGHTLY = "1.97.0", "nightly"

class lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True); self.p = os.path.join(WORK, name + ".lock")
    def __enter__(self):
        self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def prune_cache():
    """keep .work small: drop build outputs that belong to other states of /repo"""
    d = os.path.join(WORK, "build")
    if not os.path.isdir(d): return
    keep = repo_hash()
    ents = sorted((os.path.getmtime(os.path.join(d, x)), x) for x in os.listdir(d))
    for _, x in ents[:-3]:
        if x != keep:
            shutil.rmtree(os.path.join(d, x), ignore_errors=True)

# ---------------------------------------------------------------- configurations
INT = [("i8", 1), ("u8", 1), ("i16", 2), ("u16", 2), ("i32", 4), ("u32", 4), ("i64", 8), ("u64", 8), ("i128", 16), ("u128", 16)]

class Config:
    def __init__(s, name, target, tc=STABLE, feats="", cpu="", cfgs=(), opt="3", dbg=False, maxw=8, minw=1, cas=True, swap=True,
                 ptr=8, runnable=False, arch=None, flags=(), ldst=True, overflow=None, spec=None):
        s.name, s.target, s.tc, s.feats, s.cpu, s.cfgs, s.opt, s.dbg = name, target, tc, feats, cpu, tuple(cfgs), opt, dbg
        s.maxw, s.minw, s.cas, s.swap, s.ptr, s.runnable, s.arch, s.flags, s.ldst = maxw, minw, cas, swap, ptr, runnable, arch, tuple(flags), ldst
        s.spec = spec
    def types(s):
        ts = [(n, w) for n, w in INT if w <= s.maxw]
        if s.ptr <= s.maxw: ts += [("isize", s.ptr), ("usize", s.ptr)]
        return ts
    def rustflags(s):
        f = ["-Ccodegen-units=4", "-Copt-level=" + s.opt, "-Cdebug-assertions=" + ("on" if s.dbg else "off"), "-Cpanic=abort"]
        if s.cpu: f += ["-Ctarget-cpu=" + s.cpu]
        if s.feats: f += ["-Ctarget-feature=" + s.feats]
        return f + list(s.flags)
    def key(s):
        return sha(s.target, s.tc, s.rustflags(), s.cfgs, s.maxw, s.cas, s.swap, s.ptr)

LEG = "atomic_maybe_uninit_no_asm_maybe_uninit"
X87 = 'atomic_maybe_uninit_target_feature="x87"'
X64, I686 = "x86_64-unknown-linux-gnu", "i686-unknown-linux-gnu"
def x86_configs():
    C = []
    def add(*a, **k): C.append(Config(*a, runnable=True, **k))
    add("x64-dbg", X64, opt="0", dbg=True, maxw=8, arch="x86_64")
    add("x64-rel", X64, maxw=8, arch="x86_64")
    add("x64c16-dbg", X64, feats="+cmpxchg16b", opt="0", dbg=True, maxw=16, arch="x86_64")
    add("x64c16-rel", X64, feats="+cmpxchg16b", maxw=16, arch="x86_64")
    add("x64c16-o1dbg", X64, feats="+cmpxchg16b", opt="1", dbg=True, maxw=16, arch="x86_64")
    add("x64c16-leg-dbg", X64, feats="+cmpxchg16b", opt="0", dbg=True, cfgs=[LEG], maxw=16, arch="x86_64")
    add("x64c16-leg-rel", X64, feats="+cmpxchg16b", cfgs=[LEG], maxw=16, arch="x86_64")
    add("x64c16-pre20-rel", X64, feats="+cmpxchg16b", cfgs=["portable_atomic_pre_llvm_20"], maxw=16, arch="x86_64")
    add("x64c16-osize", X64, feats="+cmpxchg16b", opt="s", maxw=16, arch="x86_64")
    I = dict(ptr=4, maxw=8, arch="x86")
    add("i686-dbg", I686, opt="0", dbg=True, **I)
    add("i686-rel", I686, **I)
    add("i686-leg-rel", I686, cfgs=[LEG], **I)
    add("i686-pre20-rel", I686, cfgs=["portable_atomic_pre_llvm_20"], **I)
    add("i686sse-rel", I686, feats="-sse2", cpu="pentium3", cfgs=[X87], **I)
    add("i686sse-dbg", I686, feats="-sse2", cpu="pentium3", cfgs=[X87], opt="0", dbg=True, **I)
    add("i686sse-leg-rel", I686, feats="-sse2", cpu="pentium3", cfgs=[X87, LEG], **I)
    add("i586-rel", I686, feats="-sse2,-sse", cpu="pentium", cfgs=[X87], **I)
    add("i586-dbg", I686, feats="-sse2,-sse", cpu="pentium", cfgs=[X87], opt="0", dbg=True, **I)
    add("i586-leg-rel", I686, feats="-sse2,-sse", cpu="pentium", cfgs=[X87, LEG], **I)
    add("i586nox87-rel", I686, feats="-sse2,-sse", cpu="pentium", **I)
    add("i586nox87-dbg", I686, feats="-sse2,-sse", cpu="pentium", opt="0", dbg=True, **I)
    add("i586nox87-leg-rel", I686, feats="-sse2,-sse", cpu="pentium", cfgs=[LEG], **I)
    J = dict(ptr=4, maxw=4, arch="x86")
    add("i486-rel", I686, feats="-sse2,-sse", cpu="pentium", cfgs=["atomic_maybe_uninit_no_cmpxchg8b"], **J)
    add("i386-rel", I686, feats="-sse2,-sse", cpu="pentium", cfgs=["atomic_maybe_uninit_no_cmpxchg8b", "atomic_maybe_uninit_no_cmpxchg"], cas=False, **J)
    return C

ORD_LD, ORD_ST, ORD_F = (0, 2, 4), (0, 1, 4), (0, 2, 4)
def valid(op, o, f=0):
    if op == "ld": return o in ORD_LD
    if op == "st": return o in ORD_ST
    if op == "sw": return True
    return f in ORD_F

def wrappers_inc(cfg, ir):
    if getattr(cfg, "impl", None) is not None:
        # the operations the type checker found available in this configuration
        L = []
        for t, op in cfg.impl:
            for o in range(5):
                if op != "ce": L += ["f_%s!(%s, %d, %s_%s_%d);" % (op, t, o, op, t, o)] if valid(op, o) else []
                else: L += ["f_%s!(%s, %d, %d, %s_%s_%d%d);" % (q, t, o, f, q, t, o, f) for f in ORD_F for q in ("ce", "cw", "fu")]
        return "\n".join(L) + "\n"
    L = []
    for t, w in cfg.types():
        if w < cfg.minw: continue
        for o in range(5):
            for op in ("ld", "st") + (("sw",) if cfg.swap else ()):
                if ir and not valid(op, o): continue
                L.append("f_%s!(%s, %d, %s_%s_%d);" % (op, t, o, op, t, o))
            if cfg.cas:
                for f in range(5):
                    if ir and f not in ORD_F: continue
                    for op in ("ce", "cw", "fu"):
                        L.append("f_%s!(%s, %d, %d, %s_%s_%d%d);" % (op, t, o, f, op, t, o, f))
        if not ir:
            names = "rld rst uld ust new cnew from fromv gmr gmw apr apw into fpld fpst info stat".split()
            L.append("misc!(misc_%s, %s, %s);" % (t, t, " ".join("%s_%s" % (n, t) for n in names)))
            if cfg.swap: L.append("misc_swap!(misc_sw_%s, %s, rsw_%s usw_%s);" % (t, t, t, t))
            if cfg.cas: L.append("misc_cas!(misc_cas_%s, %s, %s);" % (t, t, " ".join("%s_%s" % (n, t) for n in "rce rcw rfu uce ucw".split())))
    return "\n".join(L) + "\n"

def rustc(tc, args, **k):
    return run(["rustc", "+" + tc] + args, **k)

def build_dir():
    d = os.path.join(WORK, "build", repo_hash()); os.makedirs(d, exist_ok=True); return d

def crate_args(cfg, core=None):
    a = ["--edition", "2021", "--crate-name", "atomic_maybe_uninit", "--crate-type", "rlib", "--cap-lints", "allow", "--target", cfg.target]
    for c in cfg.cfgs: a += ["--cfg", c]
    return a + cfg.rustflags()

def build_crate(cfg, sysroot=None):
    """crate rlib for a configuration; returns its path"""
    ok = os.path.join(sysroot or "", "ok")
    k = cfg.key() if not sysroot else sha(cfg.key(), sysroot, os.stat(ok).st_mtime_ns if os.path.exists(ok) else 0)
    d = os.path.join(build_dir(), "crate-" + k); out = os.path.join(d, "libatomic_maybe_uninit.rlib")
    if os.path.exists(out): return out
    os.makedirs(d, exist_ok=True)
    a = crate_args(cfg) + (["--sysroot", sysroot] if sysroot else [])
    tmp = os.path.join(d, "tmp%d-%d" % (os.getpid(), threading.get_ident())); os.makedirs(tmp, exist_ok=True)
    rustc(cfg.tc, a + ["-o", os.path.join(tmp, "libatomic_maybe_uninit.rlib"), os.path.join(REPO, "src/lib.rs")])
    os.replace(os.path.join(tmp, "libatomic_maybe_uninit.rlib"), out); shutil.rmtree(tmp, ignore_errors=True)
    return out

def crate_ir(cfg, sysroot=None):
    """LLVM IR of the crate itself (for its functions that are not inlined into the callers)"""
    rl = build_crate(cfg, sysroot); out = os.path.join(os.path.dirname(rl), "crate.ll")
    if os.path.exists(out): return out
    tmp = out + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
    a = [x for x in crate_args(cfg) if not x.startswith("-Ccodegen-units")] + ["-Ccodegen-units=1"] + (["--sysroot", sysroot] if sysroot else [])
    rustc(cfg.tc, a + ["--emit=llvm-ir", "-o", tmp, os.path.join(REPO, "src/lib.rs")])
    os.replace(tmp, out); return out

def build_wrappers(cfg, emit, ir, sysroot=None):
    """emit: 'staticlib' | 'llvm-ir' | 'asm' ; returns path"""
    rl = build_crate(cfg, sysroot)
    inc = wrappers_inc(cfg, ir)
    src = os.path.join(VERIF, "harness", "wrappers.rs")
    k = sha(open(src).read(), inc, emit, ir)
    ext = {"staticlib": "a", "llvm-ir": "ll", "asm": "s"}[emit]
    out = os.path.join(os.path.dirname(rl), "w-%s.%s" % (k, ext))
    if os.path.exists(out): return out
    uid = "%d-%d" % (os.getpid(), threading.get_ident()); incp = out + ".inc.%s.rs" % uid; open(incp, "w").write(inc)
    fl = [x for x in cfg.rustflags()]
    if emit != "staticlib": fl = [x for x in fl if not x.startswith("-Ccodegen-units")] + ["-Ccodegen-units=1"]
    a = ["--edition", "2021", "--crate-name", "wrappers", "--cap-lints", "allow", "--target", cfg.target] + fl
    if sysroot: a += ["--sysroot", sysroot]
    a += ["--crate-type", "staticlib"] if emit == "staticlib" else ["--crate-type", "lib", "--emit", emit]
    if ir: a += ["--cfg", "irmode"]
    a += ["--extern", "atomic_maybe_uninit=" + rl, "-o", out + ".tmp" + uid, src]
    rustc(cfg.tc, a, env={"WRAPPERS_INC": incp})
    os.replace(out + ".tmp" + uid, out); os.unlink(incp)
    return out

def pmap(f, xs, n=NCPU):
    with ThreadPoolExecutor(n) as ex: return list(ex.map(f, xs))

# ---------------------------------------------------------------- TLC
TLA_CP = None
def tlc_cp():
    global TLA_CP
    if TLA_CP is None:
        w = shutil.which("tlc"); txt = open(w).read()
        jars = re.findall(r"/[^\s:\"']+\.jar", txt)
        TLA_CP = ":".join(dict.fromkeys(jars)) if jars else "/opt/veriftools/tla/tla2tools.jar"
    return TLA_CP

class TlcResult:
    pass

def tlc(module, cfg_text, workers=1, simulate=None, seed=None, extra=(), timeout=600, heap="3g", depth=None, files=None, dfs=False, keep=False):
    """Run TLC on specs/<module>.tla with a generated config; files: extra name->text next to it.
    Returns TlcResult with .out, .lines(prefix), .states, .distinct, .violated (name or None), .error."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for f in os.listdir(os.path.join(VERIF, "specs")):
        if f.endswith(".tla"): os.symlink(os.path.join(VERIF, "specs", f), os.path.join(d, f))
    for n, t in (files or {}).items():
        p = os.path.join(d, n)
        if os.path.lexists(p): os.unlink(p)
        open(p, "w").write(t)
    open(os.path.join(d, "MC.cfg"), "w").write(cfg_text)
    jopt = ["-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m"]
    if workers == 1: jopt = ["-Xmx" + heap, "-XX:+UseSerialGC", "-Xss16m"]
    if dfs: jopt.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd = ["java"] + jopt + ["-cp", tlc_cp(), "tlc2.TLC", "-workers", str(workers), "-config", "MC.cfg", "-metadir", os.path.join(d, "states"),
           "-noGenerateSpecTE", "-cleanup", "-fp", "1"]
    if simulate: cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
    if seed is not None: cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module + ".tla"]
    t = time.time()
    p = run(cmd, timeout=max(5, min(timeout, left())), cwd=d, check=False, partial=True)
    r = TlcResult(); r.partial = p.returncode is None; r.out = p.out; r.err = p.err; r.rc = p.returncode; r.wall = time.time() - t; r.dir = d
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if simulate:
        m = re.findall(r"(\d+) states checked", p.out.replace(",", "")); r.generated = int(m[-1]) if m else 0
    r.violated = None; r.ok = False
    if r.partial:
        m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct", p.out)
        if m: r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        shutil.rmtree(d, ignore_errors=True); return r
    m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|Assumption .* is false|Deadlock reached|Postcondition (\S+)?", p.out)
    if m: r.violated = next((x for x in m.groups() if x), m.group(0))
    r.ok = "No error has been found" in p.out or (simulate and r.rc == 0)
    if not r.ok and not r.violated:
        shutil.copy(os.path.join(d, "MC.cfg"), os.path.join(scratch(), "last-failed.cfg"))
        raise ToolError("TLC failed on %s (rc %d):\n%s\n%s" % (module, r.rc, p.out[-3500:], p.err[-1500:]))
    if not keep: shutil.rmtree(d, ignore_errors=True)
    return r

def tlc_json(out, tag):
    pre = '"' + tag + " "
    for l in out.splitlines():
        if l.startswith(pre):
            yield json.loads(json.loads(l)[len(tag) + 1:])

import threading, atexit
_scratch = None; _sl = threading.Lock()
def scratch():
    global _scratch
    with _sl:
        if _scratch is None:
            os.makedirs(WORK, exist_ok=True)
            _scratch = tempfile.mkdtemp(prefix="run-", dir=WORK)
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def spec_hash(*names):
    return sha(*[open(os.path.join(VERIF, "specs", n + ".tla")).read() for n in names])

# ---------------------------------------------------------------- replay vectors
def hx(v): return "".join("%02x" % b for b in v) if v else "-"

def _gen_edges(n):
    r = tlc("CellGen", "CONSTANTS N = %d\n Mode = \"edges\"\nSPECIFICATION Spec\nINVARIANTS TypeOK\nPROPERTY StepProp\nACTION_CONSTRAINT Emit\nVIEW View\nCHECK_DEADLOCK FALSE\n" % n)
    if not r.ok: raise ToolError("CellGen violates its own property: %s\n%s" % (r.violated, r.out[-2000:]))
    L = []
    for o in tlc_json(r.out, "ORDERS"):
        for e in sorted(o, key=lambda e: (e["op"], e["o"], e["f"])):
            L.append("O %s %d %d %d %s" % (e["op"], e["o"], e["f"], e["ok"], e["msg"] or "-"))
    E = []
    for e in tlc_json(r.out, "EDGE"):
        E.append("E %d %s %s %s %s %d %s %s" % (n, e["op"], hx(e["pre"]), hx(e["a"]), hx(e["b"]), e["ok"], hx(e["res"]), hx(e["post"])))
    return L, E, r.generated, r.distinct

def _gen_walks(n, num, seed):
    r = tlc("CellGen", "CONSTANTS N = %d\n Mode = \"walks\"\nSPECIFICATION Spec\nINVARIANTS TypeOK EmitWalk\nPROPERTY StepProp\nCONSTRAINT Stop\nCHECK_DEADLOCK FALSE\n" % n,
            simulate=num, seed=seed, depth=26)
    L = []
    for h in tlc_json(r.out, "WALK"):
        L.append("W %d %s %d" % (n, hx(h[0]["pre"]), len(h)))
        for s in h: L.append("%s %d %d %s %s %d %s %s" % (s["op"], s["o"], s["f"], hx(s["a"]), hx(s["b"]), s["ok"], hx(s["res"]), hx(s["post"])))
    return L, r.generated

def _gen_fu(n, rounds):
    r = tlc("FetchUpdate", "CONSTANTS N = %d\n MaxRounds = %d\n Spurious = FALSE\nSPECIFICATION Spec\nINVARIANTS ResultOK FreshOK\nPROPERTY Terminates\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (n, rounds))
    if not r.ok: raise ToolError("FetchUpdate: %s" % r.violated)
    L = []
    for f in tlc_json(r.out, "FU"):
        L.append("F %d %s %d %d %s %s" % (n, hx(f["pre"]), len(f["log"]), f["ok"], hx(f["res"]), hx(f["post"])))
        for s in f["log"]:
            w = s["writes"] + [[], []]
            L.append("%s %d %s %s %s" % (hx(s["arg"]), s["some"], hx(s["next"]), hx(w[0]), hx(w[1])))
    return L, r.generated, r.distinct

def vectors(kinds, walks=60, fu_rounds=3):
    """vectors file for the driver; kinds subset of E W F P L.  Returns (path, stats)"""
    key = sha(spec_hash("AtomicCell", "CellGen", "FetchUpdate"), sorted(kinds), walks, fu_rounds, SEED if "W" in kinds else 0, open(__file__).read())
    p = os.path.join(WORK, "vec-%s.txt" % key); sp = p + ".json"
    if os.path.exists(p) and os.path.exists(sp): return p, json.load(open(sp))
    jobs = [("E", n) for n in (1, 2, 4, 8, 16)] if "E" in kinds else [("E", 1)]
    if "W" in kinds: jobs += [("W", n) for n in (1, 2, 4, 8, 16)]
    if "F" in kinds: jobs += [("F", n) for n in (1, 2, 4, 8, 16)]
    def job(j):
        k, n = j
        return j, (_gen_edges(n) if k == "E" else _gen_walks(n, walks, SEED * 1000 + n) if k == "W" else _gen_fu(n, fu_rounds))
    st = dict(states=0, transitions=0, edges=0, histories=0, fu_paths=0); O = []; body = []
    for (k, n), r in pmap(job, jobs):
        if k == "E":
            O = r[0]
            st["transitions"] += r[2]; st["states"] += r[3]
            if "E" in kinds: body += r[1]; st["edges"] += len(r[1])
        elif k == "W": body += r[0]; st["histories"] += sum(1 for l in r[0] if l[0] == "W" and l[1] == " "); st["transitions"] += r[1]
        else: body += r[0]; st["fu_paths"] += sum(1 for l in r[0] if l.startswith("F ")); st["transitions"] += r[1]; st["states"] += r[2]
    if not O: raise ToolError("no ordering table")
    tail = [k for k in ("P", "L") if k in kinds]
    open(p + ".tmp", "w").write("\n".join(O + body + tail) + "\n"); os.replace(p + ".tmp", p)
    json.dump(st, open(sp, "w"))
    return p, st

# ---------------------------------------------------------------- replay driver
def table_h(cfg):
    L = ['#define CFGNAME "%s"' % cfg.name]; D = []; T = []
    def decl(n): D.append("extern u32 %s();" % n); return "(void*)" + n
    for t, w in cfg.types():
        row = []
        def arr(op, k2):
            names = ["%s_%s_%d" % (op, t, o) for o in range(5)] if not k2 else ["%s_%s_%d%d" % (op, t, o, f) for o in range(5) for f in range(5)]
            have = True if op in ("ld", "st") else cfg.swap if op == "sw" else cfg.cas
            return "{" + ",".join(decl(n) for n in names) + "}" if have else "{0}"
        for op in ("ld", "st", "sw"): row.append(arr(op, False))
        for op in ("ce", "cw", "fu"): row.append(arr(op, True))
        for r in "rld rst rsw rce rcw rfu uld ust usw uce ucw".split():
            k = r[1:]; have = True if k in ("ld", "st") else cfg.swap if k == "sw" else cfg.cas
            row.append(decl("%s_%s" % (r, t)) if have else "0")
        row.append("{" + ",".join(decl("%s_%s" % (v, t)) for v in "new cnew from fromv gmr gmw apr apw into fpld fpst".split()) + "}")
        row.append(decl("info_" + t)); row.append(decl("stat_" + t))
        T.append('{"%s",%d,%s}' % (t, w, ",".join(row)))
    return "\n".join(L) + "\n" + "\n".join(dict.fromkeys(D)) + "\nstatic struct type types[] = {\n" + ",\n".join(T) + "\n};\n#define NTYPES %d\n" % len(T)

def build_driver(cfg):
    lib = build_wrappers(cfg, "staticlib", False)
    h = os.path.join(VERIF, "harness")
    k = sha(open(h + "/driver.c").read(), open(h + "/call.S").read(), lib, table_h(cfg))
    out = os.path.join(os.path.dirname(lib), "drv-" + k)
    if os.path.exists(out): return out
    d = tempfile.mkdtemp(prefix="drv-", dir=scratch())
    open(d + "/table.h", "w").write(table_h(cfg))
    m = "-m64" if cfg.ptr == 8 else "-m32"
    run(["gcc", m, "-O1", "-w", "-no-pie", "-static" if False else "-fno-pie", "-I" + d, "-o", out + ".tmp%d-%d" % (os.getpid(), threading.get_ident()), h + "/driver.c", h + "/call.S", lib])
    os.replace(out + ".tmp%d-%d" % (os.getpid(), threading.get_ident()), out)
    shutil.rmtree(d, ignore_errors=True)
    return out

def replay(cfg, vec, full=False, maxfail=40, timeout=800):
    exe = build_driver(cfg)
    p = run([exe, vec, str(maxfail), "1" if full else "0"], timeout=timeout, check=False)
    if p.returncode != 0: raise ToolError("driver failed on %s: rc %d %s" % (cfg.name, p.returncode, p.err[-500:]))
    fails = [json.loads(l[5:]) for l in p.out.splitlines() if l.startswith("FAIL ")]
    stat = {l.split()[1]: int(l.split()[2]) for l in p.out.splitlines() if l.startswith("STAT ")}
    if "failures" not in stat: raise ToolError("driver gave no statistics on %s" % cfg.name)
    return fails, stat
