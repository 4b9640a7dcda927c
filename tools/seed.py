"""Development tool: builds /verif/seeded/<id>/ from tools/seeds.py and confirms each planted bug in a scratch copy.

usage: seed.py [id-substring ...]      (only ids which do not exist yet unless named)
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/seedwork"
DEMO = r'''#!/bin/bash
# builds a small program against /repo's crate and runs it: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=-Ctarget-cpu=x86-64
unset CARGO_TARGET_DIR
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
walky = { path = "$repo"@FEATURES@ }
nalgebra = "0.32"@DEPS@
[workspace]
X
cd "$w" && cargo build --quiet --offline 2> "$w/log" || { tail -20 "$w/log"; exit 3; }
@RUN@
'''
RUN = 'timeout 60 ./target/debug/demo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def fresh():
    os.makedirs(SC, exist_ok=True)
    if not os.path.exists(SC + "/repo"):
        sh("cp -a /repo %s/repo" % SC)
    sh("cd %s/repo && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null; git reset -q --hard $(git -C /repo rev-parse HEAD)" % SC)


def main():
    seeds = runpy.run_path(VERIF + "/tools/seeds.py")["SEEDS"]
    pats = sys.argv[1:]
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    for s in seeds:
        d = VERIF + "/seeded/" + s["id"]
        if pats and not any(p in s["id"] for p in pats):
            continue
        if not pats and os.path.exists(d):
            continue
        fresh()
        # the changed lines must be lines of the original repository
        bl = sh("git -C /repo blame --line-porcelain HEAD -- %s | grep -E '^[0-9a-f]{40} '" % s["edits"][0][0]).stdout
        ok = True
        for f, old, new in s["edits"]:
            p = SC + "/repo/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT matches", t.count(old), old[:60])
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        diff = sh("cd %s/repo && git diff" % SC).stdout
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO.replace("@DEPS@", s.get("deps", "")).replace("@FEATURES@", s.get("features", "")).replace("@RUN@", s.get("run", RUN)) if "demo" in s else s["script"])
        os.chmod(d + "/demo.sh", 0o755)
        if "demo" in s:
            open(d + "/main.rs", "w").write(s["demo"])
        for k, v in s.get("files", {}).items():
            open(d + "/" + k, "w").write(v)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        # blame of removed lines
        fix = []
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            m = re.match(r"@@ -(\d+)", l)
            if m:
                ln = int(m.group(1))
                continue
            if l.startswith("-") and not l.startswith("---"):
                b = sh("git -C /repo blame -l -s -L %d,%d HEAD -- %s" % (ln, ln, cur)).stdout
                if not (b.startswith(base) or b.startswith("^" + base[:39])):
                    fix.append(ln)
                ln += 1
            elif l.startswith(" "):
                ln += 1
        # demo on the unchanged tree, then patched: build, tests, demo
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
        e = dict(os.environ)
        bs = open("/opt/vp/env.sh").read().replace("cd /repo", "cd %s/repo" % SC)
        open(SC + "/env.sh", "w").write(bs)
        b = sh(". %s/env.sh; cargo test --workspace --no-run --offline && cargo build --workspace --offline && cargo check --workspace --all-features --all-targets --offline --target-dir %s/repo/target/all-features" % (SC, SC))
        t = sh(". %s/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8" % SC)
        passed = set(re.findall(r"^test (\S+) \.\.\. ok", t.stdout, re.M))
        failed = set(re.findall(r"^test (\S+) \.\.\. FAILED", t.stdout, re.M))
        r1 = sh("bash %s/demo.sh" % d, cwd=SC + "/repo")
        good = r0.returncode == 0 and r1.returncode not in (0, 3) and b.returncode == 0 and not failed and not fix
        print("%s %-32s clean=%s patched=%s build=%s passed=%d failed=%s fixlines=%s" % ("ok " if good else "BAD", s["id"], r0.returncode, r1.returncode, b.returncode, len(passed), sorted(failed), fix))
        if not good:
            print((r0.stdout + r0.stderr)[-600:], "\n--\n", (r1.stdout + r1.stderr)[-400:], b.stderr[-800:] if b.returncode else "")
            if not s.get("keep"):
                shutil.rmtree(d, ignore_errors=True)
        sys.stdout.flush()


main()
