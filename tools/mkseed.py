#!/usr/bin/env python3
"""mkseed.py SPEC.py: plant a bug in a scratch copy, confirm it, and keep it.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO.
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
DEMO_SH = """#!/bin/bash
# Run in the repository. Exit 0 if the demonstrated behaviour is right.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
pdf-writer = { path = "$repo" }
[workspace]
EOF
cd "$d"
CARGO_TARGET_DIR="$d/target" cargo run --offline --quiet
"""


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          env={**os.environ, **(env or {})})


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = os.path.join(SEEDED, ns["ID"])
    scratch = tempfile.mkdtemp(prefix="seed")
    repo = os.path.join(scratch, "repo")
    try:
        sh(f"git clone -q /repo {repo}", "/")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.rs"), "w").write(ns["DEMO"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh(f"bash {d}/demo.sh", repo)
        if r.returncode != 0:
            print("DEMO FAILS ON THE CLEAN TREE\n" + r.stdout[-3000:])
            return 1
        for f, old, new in ns["EDITS"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(f"EDIT matches {t.count(old)} times in {f}: {old!r}")
                return 1
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", repo).stdout
        # Only original lines may be changed.
        r = sh(f"bash {d}/demo.sh", repo)
        if r.returncode == 0:
            print("DEMO PASSES WITH THE CHANGE")
            return 1
        demo = r.stdout[-400:]
        os.makedirs(os.path.join(repo, "target"), exist_ok=True)
        r = sh("cargo test --offline --quiet 2>&1 | tail -40", repo,
               {"CARGO_TARGET_DIR": os.path.join(scratch, "target")})
        if "test result: FAILED" in r.stdout or "error" in r.stdout:
            print("TESTS FAIL\n" + r.stdout[-2000:])
            return 1
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        print("kept", ns["ID"], "| demo says:", demo.strip().splitlines()[-3:])
        return 0
    finally:
        shutil.rmtree(scratch)


rc = main()
if rc:
    exec(open(sys.argv[1]).read())
    p = os.path.join(SEEDED, ID)
    if not os.path.exists(os.path.join(p, "patch.diff")):
        shutil.rmtree(p, ignore_errors=True)
sys.exit(rc)
