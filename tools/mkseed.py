#!/usr/bin/env python3
"""Development tool: plants a bug. mkseed.py SPEC.py where SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], MAIN (demo program) or DEMO (script).
Builds and tests it in a scratch copy of /repo and writes seeded/ID when everything is as required."""
import json, os, re, shutil, subprocess, sys
sp = {}
exec(open(sys.argv[1]).read(), sp)
W = "/tmp/seedwt"
if not os.path.exists(W):
    subprocess.check_call(["cp", "-a", "/repo", W])
env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
def git(*a): return subprocess.run(["git", "-C", W] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
git("checkout", "-q", "--", "."); git("fetch", "-q", "/repo", "HEAD"); git("reset", "-q", "--hard", "FETCH_HEAD")
out = f"/verif/seeded/{sp['ID']}"
os.makedirs(out, exist_ok=True)
DEMO = sp.get("DEMO") or '''#!/bin/bash
# run with cwd = the repository: builds the program beside this file against it and runs it
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d /tmp/gifdemo.XXXXXX)
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"; cp "$H/main.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<E
[package]
name = "gifdemo"
version = "0.1.0"
edition = "2021"
[dependencies]
gif = { path = "$PWD"%s }
[workspace]
E
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
timeout 250 cargo +stable run --offline -q --manifest-path "$D/Cargo.toml"
''' % sp.get("FEATURES", "")
open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
if "MAIN" in sp: open(out + "/main.rs", "w").write(sp["MAIN"])
json.dump({"property": sp["PROP"], "needs": sp["NEEDS"], "what_it_breaks": sp["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
def demo():
    r = subprocess.run(["bash", out + "/demo.sh"], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout[-600:]
rc0, o0 = demo()
for f, a, b in sp["EDITS"]:
    p = f"{W}/{f}"; s = open(p).read()
    assert s.count(a) == 1, (f, a, s.count(a))
    open(p, "w").write(s.replace(a, b))
d = git("diff").stdout
open(out + "/patch.diff", "w").write(d)
rc1, o1 = demo()
t = subprocess.run("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test |^error|test result'", shell=True, cwd=W, env=env, stdout=subprocess.PIPE, text=True).stdout
fails = [l for l in t.splitlines() if l.endswith("FAILED") or l.startswith("error")]
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ok = len(re.findall(r"^test .* ok$", t, re.M))
git("checkout", "-q", "--", ".")
print("clean demo", rc0, "patched demo", rc1, "tests ok", ok, "of", len(stable), "fails", fails[:5])
if rc0 != 0: print(o0)
if rc1 == 0: print("NOT BROKEN", o1)
good = rc0 == 0 and rc1 != 0 and ok >= len(stable) and not fails
print("GOOD" if good else "BAD", out)
if rc1 != 0: print(o1[-300:])
if not good:
    shutil.rmtree(out)
