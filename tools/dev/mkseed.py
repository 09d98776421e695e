#!/usr/bin/env python3
"""Development aid: turn an edit + demonstration into /verif/seeded/<id>/, after
confirming in a scratch copy that it builds, passes the stable tests, and that
the demonstration tells the two trees apart.  usage: mkseed.py FILE [id ...]"""
import json, os, subprocess, sys, shutil, runpy
V = "/verif"
DEMO = r'''#!/bin/bash
# Runs a small program against the fixed-map in the current directory.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/fmdemo.XXXXXX)
trap 'rm -rf -- "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
fixed-map = { path = "$R"%s }
%s
[workspace]
TOML
cd "$T"
CARGO_TARGET_DIR="$T/target" cargo run --offline -q
'''
HEAD = r'''#!/bin/bash
# Asks the compiler about small programs using the fixed-map in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/fmdemo.XXXXXX)
trap 'rm -rf -- "$T"' EXIT
mkdir "$T/src"
export CARGO_TARGET_DIR="$T/target"
# tell FILE DEPENDENCY-OPTIONS CARGO-COMMAND...
tell() {
    cp "$D/$1" "$T/src/main.rs"
    printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nfixed-map = { path = "%s"%s }\n[workspace]\n' "$R" "$2" > "$T/Cargo.toml"
    shift 2
    (cd "$T" && cargo "$@" --offline -q)
}
'''
def run(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")
def main():
    ns = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    for s in ns["SEEDS"]:
        if want and s["id"] not in want: continue
        if not want and os.path.exists(V + "/seeded/" + s["id"]): continue
        W = "/tmp/seed." + s["id"]
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs(W)
        run(["cp", "-a", "/repo", W + "/repo"])
        ok = True
        for f, old, new in s["edits"]:
            t = open(W + "/repo/" + f).read()
            if t.count(old) != 1 and not s.get("multi"):
                print(s["id"], "edit matches", t.count(old), "times:", f, old[:50]); ok = False; break
            open(W + "/repo/" + f, "w").write(t.replace(old, new))
        if not ok: shutil.rmtree(W); continue
        rc, diff = run(["git", "diff"], W + "/repo")
        d = W + "/s"; os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        feats = s.get("features", "")
        open(d + "/demo.sh", "w").write(DEMO % (feats, s.get("deps", "")))
        os.chmod(d + "/demo.sh", 0o755)
        if "demo" in s: open(d + "/demo.sh", "w").write(HEAD + s["demo"])
        for n, c in s.get("files", {}).items(): open(d + "/" + n, "w").write(c)
        if "main" in s: open(d + "/main.rs", "w").write(s["main"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ns_cmd = "mount --bind %s/repo /repo && bash /opt/vp/build.sh >/dev/null 2>%s/blog; echo build=$?; bash /opt/vp/test.sh %s/o.json >%s/tlog 2>&1; cd /repo; bash %s/demo.sh > %s/dlog 2>&1; echo demo=$?" % (W, W, W, W, d, W)
        rc, out = run(["unshare", "-rm", "bash", "-c", ns_cmd])
        o = json.load(open(W + "/o.json")) if os.path.exists(W + "/o.json") else {}
        base = json.load(open("/opt/vp/BASELINE.json"))
        missing = [t for t in base["stable"] if t not in o.get("passed", [])] if "passed" in o else ["no result"]
        rc0, out0 = run(["bash", d + "/demo.sh"], "/repo")
        good = "build=0" in out and not missing and rc0 == 0 and "demo=0" not in out
        print(s["id"], "OK" if good else "BAD", out.replace("\n", " "), "failing tests:", len(missing), missing[:2], "clean demo:", rc0)
        if good:
            shutil.rmtree(V + "/seeded/" + s["id"], ignore_errors=True)
            shutil.copytree(d, V + "/seeded/" + s["id"])
        else:
            for l in ("dlog", "blog"):
                if os.path.exists(W + "/" + l): print(open(W + "/" + l).read()[-600:])
            if rc0: print(out0[-800:])
        shutil.rmtree(W)
main()
