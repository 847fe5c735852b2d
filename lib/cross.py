"""Building the crate for targets without an installed standard library: core's metadata is
produced from the toolchain's own sources (rust-src), the crate's build script is run the way
cargo runs it, and nothing is linked."""
import json, os, re, shutil, threading
import vp

CB = """#![feature(compiler_builtins, staged_api)]
#![allow(internal_features)]
#![compiler_builtins]
#![no_std]
#![stable(feature = "x", since = "1.0.0")]
"""
_tcinfo = {}; _tl = threading.Lock()
def tcinfo(tc):
    """(path of rustc, verbose version, sysroot)"""
    with _tl:
        if tc not in _tcinfo:
            sr = vp.rustc(tc, ["--print", "sysroot"]).out.strip()
            _tcinfo[tc] = (os.path.join(sr, "bin", "rustc"), vp.rustc(tc, ["-vV"]).out, sr)
        return _tcinfo[tc]

def has_std(tc, target):
    return os.path.isdir(os.path.join(tcinfo(tc)[2], "lib/rustlib", target, "lib"))

def target_cfg(tc, target, flags=()):
    """rustc --print cfg (nightly: including unstable target features) -> {key: set}"""
    d = {}
    for l in vp.rustc(tc, ["--print", "cfg", "--target", target] + list(flags), env={"RUSTC_BOOTSTRAP": "1"}).out.splitlines():
        k, _, v = l.partition("="); d.setdefault(k, set()).add(v.strip('"'))
    return d

def sysroot(tc, target, flags=()):
    """a sysroot that holds core (metadata only) for the target; None when the toolchain has its own"""
    if has_std(tc, target): return None
    rc, vv, sr = tcinfo(tc)
    src = os.path.join(sr, "lib/rustlib/src/rust/library/core/src/lib.rs")
    if not os.path.exists(src): raise vp.ToolError("toolchain %s has no rust-src" % tc)
    flags = [f for f in flags if f.startswith(("-Ctarget-cpu", "-Zunst"))]
    d = os.path.join(vp.WORK, "sysroot", vp.sha(vv, target, flags)); lib = os.path.join(d, "lib/rustlib", target, "lib")
    if os.path.exists(os.path.join(d, "ok")): return d
    with vp.lock("sysroot-" + os.path.basename(d)):
        if os.path.exists(os.path.join(d, "ok")): return d
        os.makedirs(lib, exist_ok=True)
        a = ["--crate-type", "rlib", "--target", target, "-Cpanic=abort", "--emit=metadata", "-Zalways-encode-mir", "--cap-lints", "allow"] + flags
        env = {"RUSTC_BOOTSTRAP": "1"}
        vp.run([rc, "--edition", "2024", "--crate-name", "core", src, "-o", os.path.join(lib, "libcore.rmeta")] + a, env=env)
        cb = os.path.join(d, "cb.rs"); open(cb, "w").write(CB)
        vp.run([rc, "--edition", "2021", "--crate-name", "compiler_builtins", "--sysroot", d, "-o", os.path.join(lib, "libcompiler_builtins.rmeta"), cb] + a, env=env)
        open(os.path.join(d, "ok"), "w").close()
    return d

_bs = {}; _bl = threading.Lock()
def build_script(tc):
    """the crate's build script, compiled for the host with the same toolchain"""
    with _bl:
        if tc in _bs: return _bs[tc]
        d = os.path.join(vp.build_dir(), "bs-" + vp.sha(tcinfo(tc)[1])); out = os.path.join(d, "build-script")
        if not os.path.exists(out):
            td = os.path.join(d, "tmp%d" % os.getpid()); os.makedirs(td, exist_ok=True); tmp = os.path.join(td, "build-script")
            vp.rustc(tc, ["--edition", "2021", "--crate-name", "build_script", "--cap-lints", "allow", "-o", tmp, os.path.join(vp.REPO, "build.rs")], env={"CARGO_PKG_NAME": "atomic-maybe-uninit"})
            os.replace(tmp, out); shutil.rmtree(td, ignore_errors=True)
        _bs[tc] = out; return out

def build_cfgs(tc, target, flags=()):
    """the --cfg flags that the build script prints for this configuration"""
    c = target_cfg(tc, target, flags); one = lambda k: next(iter(c.get(k, {""})))
    env = dict(TARGET=target, HOST=vp.X64, RUSTC=tcinfo(tc)[0], CARGO_CFG_TARGET_ARCH=one("target_arch"), CARGO_CFG_TARGET_OS=one("target_os"), CARGO_CFG_TARGET_VENDOR=one("target_vendor"),
               CARGO_CFG_TARGET_ENDIAN=one("target_endian"), CARGO_CFG_TARGET_POINTER_WIDTH=one("target_pointer_width"), CARGO_PKG_NAME="atomic-maybe-uninit", CARGO_ENCODED_RUSTFLAGS="\x1f".join(flags))
    p = vp.run([build_script(tc)], env=env, check=False)
    if p.returncode: raise vp.ToolError("build script fails for %s: %s" % (target, p.err[-500:]))
    return [l.split("=", 1)[1] for l in p.out.splitlines() if l.startswith(("cargo:rustc-cfg=", "cargo::rustc-cfg="))]

def config(name, target, tc="nightly", feats="", cpu="", extra=(), opt="3", dbg=False, flags=(), **k):
    """a vp.Config whose cfgs are what the build script says, plus extra ones"""
    fl = (["-Ctarget-cpu=" + cpu] if cpu else []) + (["-Ctarget-feature=" + feats] if feats else []) + list(flags)
    tcf = target_cfg(tc, target, fl)
    ptr = int(next(iter(tcf["target_pointer_width"]))) // 8
    c = vp.Config(name, target, tc=tc, feats=feats, cpu=cpu, cfgs=[], opt=opt, dbg=dbg, ptr=ptr, flags=flags, arch=next(iter(tcf["target_arch"])), **k)
    c.be = next(iter(tcf["target_endian"])) == "big"; c.os = next(iter(tcf["target_os"])); c.tfeats = sorted(tcf.get("target_feature", ())); c.abi = next(iter(tcf.get("target_abi", {""})))
    c.xflags = fl; c.extra = tuple(extra); return c

def prepare(c):
    """run the build script and build core; returns the sysroot (or None)"""
    if not hasattr(c, "prepared"):
        c.cfgs = tuple(dict.fromkeys(list(c.extra) + build_cfgs(c.tc, c.target, c.xflags))); c.prepared = True
    c.sysroot = sysroot(c.tc, c.target, c.xflags)
    return c.sysroot

def run_rustc_json(tc, args, env=None):
    """-> (ok, list of diagnostics)"""
    p = vp.run([tcinfo(tc)[0]] + args + ["--error-format=json"], env=env, check=False)
    D = []
    for l in p.err.splitlines():
        try: D.append(json.loads(l))
        except ValueError: D.append(dict(level="error", message=l, spans=[], code=None))
    return p.returncode == 0, D

# ---------------------------------------------------------------- which operations a configuration has
TYPES = [t for t, _ in vp.INT] + ["isize", "usize"]
def trait_probe(d):
    """one line per (type, operation); a type error on the line means: not available"""
    L = ["#![no_std]", "#![allow(dead_code, unused_imports)]", "use atomic_maybe_uninit::{*, raw::*};", "use core::{mem::MaybeUninit as U, sync::atomic::Ordering::*};"]
    at = {}
    for t in TYPES:
        for op, e in (("ld", "let _ = x.load(Relaxed);"), ("st", "x.store(U::uninit(), Relaxed);"), ("sw", "let _ = x.swap(U::uninit(), Relaxed);"), ("ce", "let _ = x.compare_exchange(U::uninit(), U::uninit(), Relaxed, Relaxed); let _ = x.compare_exchange_weak(U::uninit(), U::uninit(), Relaxed, Relaxed); let _ = x.fetch_update(Relaxed, Relaxed, |v| Some(v));")):
            L.append("fn f_%s_%s(x: &AtomicMaybeUninit<%s>) { %s }" % (t, op, t, e)); at[len(L)] = (t, op)
    open(os.path.join(d, "p2.rs"), "w").write("\n".join(L) + "\n")
    return at

def impl(c):
    """[(type, operation)] that type-check in configuration c; also sets c.impl"""
    cache = os.path.join(vp.build_dir(), "impl-%s.json" % vp.sha(c.key(), c.flags, c.cpu, c.feats))
    if os.path.exists(cache): c.impl = [tuple(x) for x in json.load(open(cache))]; return c.impl
    rl = vp.build_crate(c, c.sysroot); S = ["--sysroot", c.sysroot] if c.sysroot else []
    d = os.path.join(vp.scratch(), "impl-" + os.path.basename(cache)); os.makedirs(d, exist_ok=True); at = trait_probe(d)
    ok, D = run_rustc_json(c.tc, ["--edition", "2021", "--target", c.target, "--crate-type", "lib", "--emit=metadata", "--extern", "atomic_maybe_uninit=" + rl] + S + c.rustflags() + ["--crate-name", "p2", "-o", os.path.join(d, "p2.rmeta"), os.path.join(d, "p2.rs")])
    bad = set()
    for x in D:
        if x["level"] != "error": continue
        ls = {s["line_start"] for s in x["spans"] if s["is_primary"] and s["file_name"].endswith("p2.rs")} & set(at)
        if not ls and not x["message"].startswith("aborting"): raise vp.ToolError("probe fails in %s: %s" % (c.name, x["message"]))
        bad |= ls
    c.impl = [at[l] for l in sorted(at) if l not in bad]
    shutil.rmtree(d, ignore_errors=True)
    json.dump(c.impl, open(cache + ".tmp%d" % os.getpid(), "w")); os.replace(cache + ".tmp%d" % os.getpid(), cache); return c.impl
