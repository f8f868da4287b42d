"""Makes /verif/seeded/<id>/ from an edit of /repo and a demonstration, after confirming both in a scratch copy.

usage: python3 dev/seed.py dev/seeds/*.py [-k]
Each file defines SEEDS = [(id, property, file, old, new, crate, demo, needs, breaks)].
"""
import json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/w/seed"
DEMO = '''#!/bin/bash
# Runs demo.rs against the crate in the current directory (/repo); all output stays in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
@DEP@
[workspace]
T
export CARGO_TARGET_DIR="$d/target"
cargo build --quiet --offline --manifest-path "$d/Cargo.toml" || exit 3
timeout 100 "$d/target/debug/demo"
'''
DEP = {"lrp": 'lrp = { path = "\'"$repo"\'" }', "wop": ""}


def sh(cmd, cwd=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True)


def main():
    ids = sys.argv[2:]
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["SEEDS"]:
        sid, prop, edits, crate, demo, needs, breaks = s
        if ids and sid not in ids:
            continue
        if os.path.isdir(SCR):
            shutil.rmtree(SCR)
        os.makedirs(os.path.dirname(SCR), exist_ok=True)
        sh("git -C /repo worktree prune; cp -a /repo %s; git -C %s checkout -q -- ." % (SCR, SCR))
        ok = True
        for f, old, new in edits:
            p = os.path.join(SCR, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(sid, "ERROR %d matches in %s" % (t.count(old), f))
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        out = os.path.join(HERE, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        diff = sh("git diff -- src wop/src", SCR).stdout
        open(out + "/patch.diff", "w").write(diff)
        dep = 'lrp = { path = "$repo" }' if crate == "lrp" else 'wop = { path = "$repo/wop" }\nlrp = "0.1.0"'
        if crate == "bin":
            open(out + "/demo.sh", "w").write(ns["BIN"].replace("@INPUT@", demo[0]).replace("@CHECK@", demo[1]))
        else:
            open(out + "/demo.sh", "w").write(DEMO.replace("@DEP@", dep))
            open(out + "/demo.rs", "w").write(demo.lstrip())
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        t = sh("CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/w/seedtarget timeout 300 cargo test --workspace --no-fail-fast --offline 2>&1", SCR)
        passed = sum(int(l.split("ok. ")[1].split()[0]) for l in t.stdout.splitlines() if l.startswith("test result: ok."))
        failed = "test result: FAILED" in t.stdout or "error[E" in t.stdout or "could not compile" in t.stdout
        sh("git checkout -q -- Cargo.lock", SCR)
        d1 = sh("bash %s/demo.sh" % out, SCR)
        d0 = sh("bash %s/demo.sh" % out, "/repo")
        good = not failed and passed >= 27 and d1.returncode not in (0, 3) and d0.returncode == 0
        print(sid, "OK" if good else "BAD", "tests", passed, "failed" if failed else "", "patched", d1.returncode, "clean", d0.returncode)
        if not good:
            print("\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error")) if failed else "", d0.stderr[-300:] if d0.returncode else "", d1.stderr[-600:])
        if sh("git status --short", "/repo").stdout.strip():
            print("REPO DIRTY")


main()
