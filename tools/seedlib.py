#!/usr/bin/env python3
"""seedlib.py make FILE.py  - write /verif/seeded/<id> from the definitions in FILE (SEEDS list)
   seedlib.py verify ID...  - apply in /repo: builds, stable tests pass, demo fails; undo; demo passes
   seedlib.py catch ID [PROP...] - apply, run quick checks, undo"""
import os, sys, json, subprocess, shutil, tempfile
REPO, SEED = "/repo", "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0: behaves as promised; nonzero: the property is broken
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
%s
set -e
F="--edition 2021 --cap-lints allow %s"
rustc +1.97.0 $F --crate-name atomic_maybe_uninit --crate-type rlib --out-dir "$D" src/lib.rs
rustc +1.97.0 $F --crate-name demo --extern atomic_maybe_uninit="$D/libatomic_maybe_uninit.rlib" -o "$D/demo" "$H/demo.rs"
timeout 120 "$D/demo"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(path):
    ns = {}; exec(open(path).read(), ns)
    for s in ns["SEEDS"]:
        d = tempfile.mkdtemp(); sh("cp -a /repo/src %s/src; cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm b" % (d, d))
        for f, old, new, *n in s["edits"]:
            p = os.path.join(d, f); t = open(p).read()
            n = n[0] if n else 0
            parts = t.split(old)
            if n == "all":
                assert len(parts) > 1, (s["id"], f, old); t = new.join(parts)
            else:
                assert len(parts) > n + 1, (s["id"], f, old, len(parts))
                if not n and len(parts) > 2: print("note", s["id"], "old text occurs", len(parts) - 1)
                t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w").write(t)
        diff = sh("cd %s && git diff" % d).stdout
        o = os.path.join(SEED, s["id"]); os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        if "sh" in s: open(o + "/demo.sh", "w").write(s["sh"])
        else: open(o + "/demo.sh", "w").write(DEMO % (s.get("pre", ""), s.get("flags", "-O")))
        os.chmod(o + "/demo.sh", 0o755)
        if "rs" in s: open(o + "/demo.rs", "w").write(s["rs"])
        for k, v in s.get("files", {}).items(): open(o + "/" + k, "w").write(v)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
        shutil.rmtree(d); print("made", s["id"], len(diff))
def apply(i): r = sh("git -C /repo apply %s/%s/patch.diff" % (SEED, i)); assert r.returncode == 0, r.stdout
def undo(): sh("git -C /repo checkout -- .")
def demo(i):
    d = tempfile.mkdtemp(); 
    for f in os.listdir(SEED + "/" + i):
        if not f.endswith((".diff", ".json")): shutil.copy(SEED + "/" + i + "/" + f, d)
    r = sh("cd /repo && timeout 300 bash %s/demo.sh" % d); shutil.rmtree(d); return r
def verify(ids):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        msg = []
        r0 = demo(i)
        if r0.returncode: msg.append("demo fails on base: " + r0.stdout[-600:])
        apply(i)
        try:
            b = sh("bash /opt/vp/build.sh")
            if b.returncode: msg.append("build: " + b.stdout[-1500:])
            else:
                t = sh("bash /opt/vp/test.sh /tmp/seedout.json"); res = json.load(open("/tmp/seedout.json"))
                ok = set(res.get("passed", []))
                miss = base - ok
                if miss: msg.append("tests fail: %s" % sorted(miss)[:5])
                r1 = demo(i)
                if not r1.returncode: msg.append("demo passes with patch: " + r1.stdout[-300:])
                else: print("   ", i, "demo:", r1.returncode, r1.stdout.strip()[-160:].replace("\n", " | "))
        finally: undo()
        print(i, "OK" if not msg else "BAD " + " ;; ".join(msg), flush=True)
    sh("bash /opt/vp/build.sh")
def catch(ids, props):
    for i in ids:
        m = json.load(open(SEED + "/" + i + "/meta.json")); ps = props or [m["property"]]
        apply(i)
        try:
            for p in ps:
                r = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/run.py %s quick" % p)
                print(i, p, "rc=%d" % r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "missed", "|", r.stdout.strip()[-400:].replace("\n", " / ")[:400], flush=True)
        finally: undo()
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make": make(a[1])
    elif a[0] == "verify": verify(a[1:] or sorted(os.listdir(SEED)))
    elif a[0] == "catch":
        ids = [x for x in a[1:] if os.path.isdir(SEED + "/" + x)]; catch(ids or sorted(os.listdir(SEED)), [x for x in a[1:] if x not in ids])
