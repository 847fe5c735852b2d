"""Lifted programs: build the wrappers to unoptimised LLVM IR, translate, deduplicate, and run
the machine-level specifications on them."""
import json, os, re, copy
import vp
from llir import Module, Unsupported, lift
import asm_x86

IRFLAG = "-Cno-prepopulate-passes"
KEEP_OP = ("dir", "early", "n", "tie", "e", "fix", "pool", "x")
KEEP_BLK = ("ops", "clobregs", "flags", "stack", "mem", "side", "all", "sp", "def", "sym")

def ir_config(cfg):
    c = copy.copy(cfg); c.flags = cfg.flags + (IRFLAG,); c.opt = "3"; c.name = cfg.name
    return c

def arch_for(cfg):
    if cfg.arch in ("x86", "x86_64"): return asm_x86.X86(cfg.ptr)
    import arches
    return arches.make(cfg)

def op_names(cfg):
    if getattr(cfg, "impl", None) is not None:
        W = dict(vp.INT, isize=cfg.ptr, usize=cfg.ptr)
        for t, op in cfg.impl:
            for q in (("ce", "cw", "fu") if op == "ce" else (op,)):
                for o in range(5):
                    if op == "ce":
                        for f in vp.ORD_F: yield t, W[t], q, o, f, "%s_%s_%d%d" % (q, t, o, f)
                    elif vp.valid(op, o): yield t, W[t], op, o, 0, "%s_%s_%d" % (op, t, o)
        return
    for t, w in cfg.types():
        if w < cfg.minw: continue
        for op in ("ld", "st") + (("sw",) if cfg.swap else ()):
            for o in range(5):
                if vp.valid(op, o): yield t, w, op, o, 0, "%s_%s_%d" % (op, t, o)
        if cfg.cas:
            for op in ("ce", "cw", "fu"):
                for o in range(5):
                    for f in vp.ORD_F: yield t, w, op, o, f, "%s_%s_%d%d" % (op, t, o, f)

def clean(p):
    bl = []
    for b in p["blocks"]:
        ops = [{k: o.get(k, 0) for k in KEEP_OP} for o in b["ops"]]; b.setdefault("sym", [])
        bl.append({**{k: b[k] for k in KEEP_BLK if k != "ops"}, "ops": ops})
    return dict(code=p["code"], blocks=bl)

def programs(cfg, sysroot=None, types=None):
    """-> (list of program dicts, notes)"""
    c = ir_config(cfg)
    path = vp.build_wrappers(c, "llvm-ir", True, sysroot)
    mod = Module(open(path).read(), cfg.ptr, bool(getattr(cfg, "be", False)))
    P = []; notes = []; libm = []
    def lib():
        if not libm: libm.append(Module(open(vp.crate_ir(c, sysroot)).read(), cfg.ptr, mod.be))
        return libm[0]
    for t, w, op, o, f, name in op_names(cfg):
        if types and t not in types: continue
        if name not in mod.funcs and name not in mod.alias:
            notes.append("%s: %s has no code" % (cfg.name, name)); continue
        try: L = clean(lift(mod, name, arch_for(cfg), lib, w))
        except Unsupported as e:
            notes.append("%s: %s not modelled: %s" % (cfg.name, name, e)); continue
        a = arch_for(cfg)
        P.append(dict(name=cfg.name + ":" + name, names=[cfg.name + ":" + name], op=op, o=o, f=f, w=w, ptr=cfg.ptr, be=int(bool(getattr(cfg, "be", False))), t=t,
                      gran=max(w, getattr(a, "gran", 1)), **L))
    return P, notes

def canon(p):
    return vp.sha(json.dumps([p["op"], p["w"], p["ptr"], p["be"], p["gran"], p["code"], p["blocks"]], sort_keys=True))

def dedupe(Ps, key=canon):
    D = {}
    for p in Ps:
        k = key(p)
        if k in D: D[k]["names"].append(p["name"]); D[k]["ords"].append((p["o"], p["f"]))
        else: p["ords"] = [(p["o"], p["f"])]; D[k] = p
    return list(D.values())

def plain(p):
    """the program without its ordering attributes (for exploration under sequential consistency)"""
    drop = {}; code = []
    for i, c in enumerate(p["code"], 1):
        if c["k"] != "fn": code.append(c)
        drop[i] = len(code) + (c["k"] == "fn")
    def fix(c):
        c = {k: v for k, v in c.items() if k not in ("o",)}
        for f in ("t", "f"):
            if f in c and c["k"] in ("jp", "br") and isinstance(c[f], int): c[f] = drop[c[f]]
        if "body" in c: c["body"] = [{k: v for k, v in b.items() if k != "o"} if isinstance(b, dict) else b for b in c["body"]]
        return c
    return dict(p, code=[fix(c) for c in code])

def run_tlc(module, progs, consts, inv, scens=None, timeout=850, workers=1, heap="3g", constraint=None, extra_cfg=""):
    pj = json.dumps(progs)
    files = {"progs.json": pj}
    if scens is not None: files["scens.json"] = json.dumps(scens); consts = dict(consts, ScenFile='"scens.json"')
    consts = dict({"Track": "TRUE"}, **consts)
    cfg = "CONSTANTS ProgFile = \"progs.json\"\n" + "".join(" %s = %s\n" % kv for kv in consts.items())
    cfg += "SPECIFICATION Spec\nINVARIANTS %s\n" % inv + ("CONSTRAINT %s\n" % constraint if constraint else "") + extra_cfg + "CHECK_DEADLOCK FALSE\n"
    return vp.tlc(module, cfg, workers=workers, files=files, timeout=timeout, heap=heap)

def split(xs, n, weight=lambda x: 1):
    B = [[] for _ in range(n)]; W = [0] * n
    for x in sorted(xs, key=weight, reverse=True):
        i = W.index(min(W)); B[i].append(x); W[i] += weight(x)
    return [b for b in B if b]

# ---------------------------------------------------------------- program pools
import pickle
from concurrent.futures import ProcessPoolExecutor

def _one(cfg):
    try: return programs(cfg)
    except vp.ToolError as e: return [], ["%s does not build (judged by C13): %s" % (cfg.name, e.args[0].strip().splitlines()[-1][:200])]

def lib_hash():
    d = os.path.dirname(os.path.abspath(__file__))
    return vp.sha(*[open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.endswith(".py")], open(os.path.join(vp.VERIF, "harness", "wrappers.rs")).read())

def x86_ir_configs():
    out = []; seen = set()
    for c in vp.x86_configs():
        k = ir_config(c).key()
        if k not in seen: seen.add(k); out.append(c)
    return out

def x86_pool():
    """-> (scen.Pool, notes)"""
    import scen
    p = os.path.join(vp.build_dir(), "pool-x86-%s.pkl" % lib_hash())
    if os.path.exists(p): return pickle.load(open(p, "rb"))
    cfgs = x86_ir_configs()
    with ProcessPoolExecutor(vp.NCPU) as ex: res = list(ex.map(_one, cfgs))
    pool = scen.Pool([(c, P) for c, (P, n) in zip(cfgs, res) if P]); notes = [x for _, (P, n) in zip(cfgs, res) for x in n]
    pool.nlifted = sum(len(P) for P, _ in res); pool.nconf = sum(1 for P, _ in res if P)
    pickle.dump((pool, notes), open(p + ".tmp%d" % os.getpid(), "wb")); os.replace(p + ".tmp%d" % os.getpid(), p)
    return pool, notes

# ---------------------------------------------------------------- architectures other than x86
FEW = [("aarch64-unknown-linux-gnu", ""), ("aarch64-unknown-linux-gnu", "+lse"), ("aarch64-unknown-linux-gnu", "+lse2,+lse128,+rcpc3"), ("armv7-unknown-linux-gnueabi", ""), ("armv8r-none-eabihf", ""), ("armv4t-unknown-linux-gnueabi", ""),
       ("riscv64im-unknown-none-elf", "+a"), ("riscv64im-unknown-none-elf", "+a,+zabha"), ("powerpc64-unknown-linux-gnu", ""), ("mips-unknown-linux-gnu", ""), ("loongarch64-unknown-none", ""), ("s390x-unknown-linux-gnu", ""), ("sparc64-unknown-linux-gnu", "")]
MINI = [("aarch64-unknown-linux-gnu", ""), ("aarch64-unknown-linux-gnu", "+lse2,+lse128,+rcpc3"), ("armv7-unknown-linux-gnueabi", ""), ("riscv64im-unknown-none-elf", "+a"), ("powerpc64-unknown-linux-gnu", ""), ("s390x-unknown-linux-gnu", "")]
def cross_list(thorough=False):
    """(target, toolchain, features, cpu, extra cfgs); thorough: False, True, or "few"/"mini" for one or two per family"""
    import cfgs
    if isinstance(thorough, str):
        L = [e for e in cross_list() if (e[0], e[2]) in dict(few=FEW, mini=MINI)[thorough] and not e[4]]
        return list({(e[0], e[2]): e for e in reversed(L)}.values())
    L = "atomic_maybe_uninit_no_asm_maybe_uninit"
    R = [e + ((),) for e in cfgs.REAL if not e[0].startswith(("x86", "i686", "i586"))]
    legacy = [("aarch64-unknown-linux-gnu", cfgs.NX, "", "", (L,)), ("aarch64-unknown-linux-gnu", cfgs.NX, "+lse2,+lse128,+rcpc3", "", (L,)), ("thumbv7m-none-eabi", cfgs.NX, "", "", (L,)), ("armv7-unknown-linux-gnueabi", cfgs.NX, "", "", (L,)),
              ("thumbv6m-none-eabi", cfgs.NX, "", "", (L,)), ("thumbv8m.base-none-eabi", cfgs.NX, "", "", (L,)), ("armv8r-none-eabihf", cfgs.NX, "", "", (L,)), ("armv4t-unknown-linux-gnueabi", cfgs.NX, "", "", (L,)), ("loongarch64-unknown-none", cfgs.NX, "", "", (L,)),
              ("riscv32i-unknown-none-elf", cfgs.NX, "+a", "", (L,)), ("riscv64im-unknown-none-elf", cfgs.NX, "+a", "", (L,)), ("riscv64im-unknown-none-elf", cfgs.NX, "+a,+zabha", "", (L,)), ("riscv32i-unknown-none-elf", cfgs.NX, "+zaamo", "", (L,))]
    # the other byte order of the families that have both
    both = [("aarch64_be-unknown-linux-gnu", cfgs.NX, f, "", ()) for f in ("", "+lse", "+lse2,+lse128")] + [(t, cfgs.NX, "", "", ()) for t in ("armebv7r-none-eabi", "mipsel-unknown-linux-gnu", "powerpc64le-unknown-linux-gnu")]
    R += legacy + both
    if thorough: R += [e + ((),) for e in cfgs.REAL_MORE if not e[0].startswith(("x86", "i686", "i586")) and e + ((),) not in R]
    return R

def cross_one(ent):
    import cross
    t, tc, f, cpu, x = ent
    name = "%s%s%s%s%s" % (t, f, "+" + cpu if cpu else "", "+legacy" if x else "", "" if tc == "nightly" else "@" + tc)
    try:
        c = cross.config(name.replace(":", "_"), t, tc, f, cpu, extra=x); cross.prepare(c); cross.impl(c)
        P, n = programs(c, c.sysroot); return c, P, n
    except vp.ToolError as e: return None, [], ["%s does not build (judged by C13): %s" % (name, e.args[0].strip().splitlines()[-1][:200])]
    except Unsupported as e: return None, [], ["%s not modelled: %s" % (name, e)]

def cross_progs(thorough=False):
    """-> ([(config, programs)], notes)"""
    p = os.path.join(vp.build_dir(), "cross-%s-%s.pkl" % (thorough if isinstance(thorough, str) else int(thorough), lib_hash()))
    if os.path.exists(p): return pickle.load(open(p, "rb"))
    with ProcessPoolExecutor(vp.NCPU) as ex: res = list(ex.map(cross_one, cross_list(thorough)))
    out = ([(c, P) for c, P, n in res if P], [x for _, _, n in res for x in n])
    pickle.dump(out, open(p + ".tmp%d" % os.getpid(), "wb")); os.replace(p + ".tmp%d" % os.getpid(), p)
    return out

def cross_pool(thorough=False):
    """-> (scen.Pool of the programs without ordering attributes, notes, [(config, programs)])"""
    import scen
    R, notes = cross_progs(thorough)
    pool = scen.Pool([(c, [dict(plain(p), o=0, f=0, ordd=int(bool(p["o"] or p["f"]))) for p in P]) for c, P in R])
    pool.nlifted = sum(len(P) for _, P in R); pool.nconf = len(R); pool.raw = R
    return pool, notes
