#!/usr/bin/env python3
"""Make a seeded bug from an edit list, and confirm it.
usage: seed.py FILE.py [id...]   (FILE defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=rust)})
Each bug is applied in a scratch copy of /repo, must build, pass the tests, and its demo must
fail with it and pass without it."""
import json, os, re, shutil, subprocess, sys, tempfile, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="")
DEMO = '''#!/bin/bash
# Builds a small program against the library in the current directory.
# Exit 0: the property held.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cddl-cat = { path = "$repo"%FEATURES% }
%DEPS%[profile.dev]
debug = false
EOF
export CARGO_TARGET_DIR="$t/target"
cd "$t" || exit 2
cargo build --offline -q 2>"$t/log" || { cat "$t/log" >&2; exit 2; }
timeout 60 "$t/target/debug/demo"
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    base = json.load(open("/opt/vp/BASELINE.json"))
    wt = "/tmp/seedwt"
    if not os.path.exists(wt):
        subprocess.check_call(["cp", "-a", "/repo", wt])
    ok = []
    for id in ids:
        b = bugs[id]
        sh(["git", "checkout", "-q", "--", "."], wt)
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = f"edit matches {s.count(old)} times: {old[:60]!r}"
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(id, "SKIP", bad); continue
        d = os.path.join(ROOT, "seeded", id)
        tmp = tempfile.mkdtemp()
        open(f"{tmp}/patch.diff", "w").write(sh(["git", "diff"], wt).stdout)
        feats, deps = b.get("features", ""), b.get("deps", "")
        if feats: feats = ", " + feats
        demo = DEMO.replace("%FEATURES%", feats).replace("%DEPS%", deps)
        open(f"{tmp}/demo.sh", "w").write(demo); os.chmod(f"{tmp}/demo.sh", 0o755)
        open(f"{tmp}/demo.rs", "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{tmp}/meta.json", "w"), indent=1)
        t = sh(["cargo", "test", "--workspace", "--offline", "--target-dir", "/tmp/seedtarget"], wt, timeout=600)
        if t.returncode:
            fails = re.findall(r"^test (.*) \.\.\. FAILED", t.stdout, re.M)
            print(id, "TESTS FAIL", fails[:6] or t.stdout[-1500:]); continue
        w = sh(["bash", f"{tmp}/demo.sh"], wt, timeout=300)
        sh(["git", "checkout", "-q", "--", "."], wt)
        wo = sh(["bash", f"{tmp}/demo.sh"], wt, timeout=300)
        if wo.returncode != 0 or w.returncode in (0, 2):
            print(id, "DEMO", "with:", w.returncode, "without:", wo.returncode, w.stdout[-600:], wo.stdout[-600:]); continue
        if os.path.exists(d): shutil.rmtree(d)
        shutil.move(tmp, d)
        print(id, "ok; with the bug:", w.stdout.strip()[-160:])
        ok.append(id)
main()
