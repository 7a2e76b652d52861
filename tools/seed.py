#!/usr/bin/env python3
"""makes planted bugs from definition files and confirms each one in a scratch copy of /repo
   seed.py DEFS.py [ids...]     (run outside checks only)
a definition: dict(id, prop, needs, what, edits=[(file, old, new)], rs=<main body> | sh=<script body>, also=[checks])"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CK = os.environ.get("SEED_CHECK", V)  # where the checks are taken from (a copy, while /verif is edited)
SC = os.environ.get("SEED_SCRATCH", "/tmp/seedsc")
HEAD_SH = '''#!/bin/bash
# run in the repository's root, after its build; exit 0: the property holds here, 1: it is broken
set -u
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
'''
RS_SH = HEAD_SH + '''mkdir -p "$tmp/demo/src"
cp "$here/main.rs" "$tmp/demo/src/main.rs"
cp "$here/macho.rs" "$tmp/demo/src/macho.rs"
cp "$repo/Cargo.lock" "$tmp/demo/Cargo.lock"
cat > "$tmp/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
at-asm = { path = "$repo/at-asm" }
at-x64 = { path = "$repo/at-x64" }
at-obj = { path = "$repo/at-obj" }
at-mac = { path = "$repo/at-mac" }
[profile.dev]
debug = false
[workspace]
EOF
CARGO_TARGET_DIR="$tmp/target" cargo build --offline --quiet --manifest-path "$tmp/demo/Cargo.toml" || exit 2
cd "$tmp" && timeout 120 "$tmp/target/debug/demo"
'''
# the same on a big-endian machine
BE_SH = RS_SH.split("CARGO_TARGET_DIR")[0] + '''T=s390x-unknown-linux-gnu
export MIRI_SYSROOT="$tmp/sysroot" CARGO_TARGET_DIR="$tmp/target" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
unset RUSTFLAGS
cd "$tmp"
cargo +nightly miri setup -q --target $T >setup.log 2>&1 || { cat setup.log; exit 2; }
timeout 200 cargo +nightly miri run -q --offline --target $T --manifest-path "$tmp/demo/Cargo.toml"
'''
# the same, optimised
REL_SH = RS_SH.replace("cargo build", "cargo build --release").replace("debug/demo", "release/demo")
CLI_SH = HEAD_SH + '''CARGO_TARGET_DIR="$tmp/target" cargo build --offline --quiet --manifest-path "$repo/at-asm/Cargo.toml" --bin at-asm || exit 2
AT="$tmp/target/debug/at-asm"
mkdir "$tmp/w" && cd "$tmp/w"
fail() { echo "broken: $*"; exit 1; }
'''
MACHO_RS = open(os.path.join(V, "tools", "demo_macho.rs")).read()
STABLE = set(x.split("::", 1)[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    if not os.path.exists(SC):
        subprocess.check_call(["cp", "-a", "/repo", SC])
    h = run(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    if run(["git", "-C", SC, "rev-parse", "HEAD"]).stdout.strip() != h:
        subprocess.check_call(["git", "-C", SC, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", SC, "checkout", "-qf", h])


def tests():
    p = run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], cwd=SC,
            env=dict(os.environ, RUSTFLAGS=os.environ.get("RUSTFLAGS", "")))
    ok = set(m.group(1) for m in re.finditer(r"^test (\S+)(?: - .*)? \.\.\. ok", p.stdout, re.M))
    return STABLE - ok, p.stdout


def demo(d):
    tmp = tempfile.mkdtemp(prefix="/tmp/demodir.")
    for f in os.listdir(d):
        if f not in ("patch.diff", "meta.json"):
            shutil.copy(os.path.join(d, f), tmp)
    p = run(["bash", os.path.join(tmp, "demo.sh")], cwd=SC, timeout=300)
    shutil.rmtree(tmp)
    return p.returncode, p.stdout[-1500:]


def make(s):
    scratch()
    d = os.path.join(V, "seeded", s["id"])
    for f, old, new in s["edits"]:
        p = os.path.join(SC, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "edit does not apply (%d times) in %s: %s" % (t.count(old), f, old)
        open(p, "w").write(t.replace(old, new))
    diff = run(["git", "-C", SC, "diff"]).stdout
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "rs" in s:
        open(os.path.join(d, "demo.sh"), "w").write(BE_SH if s.get("be") else REL_SH if s.get("rel") else RS_SH)
        open(os.path.join(d, "main.rs"), "w").write("#[macro_use]\nmod macho;\n#[allow(unused_imports)]\nuse macho::*;\n" + s["rs"])
        open(os.path.join(d, "macho.rs"), "w").write(MACHO_RS)
    else:
        open(os.path.join(d, "demo.sh"), "w").write(CLI_SH + s["sh"] + "\nexit 0\n")
    miss, out = tests()
    if miss:
        return "tests fail: %s\n%s" % (sorted(miss)[:5], out[-1500:] if len(miss) > 10 else "")
    rc1, o1 = demo(d)
    subprocess.check_call(["git", "-C", SC, "checkout", "-q", "--", "."])
    rc0, o0 = demo(d)
    if rc0 != 0 or rc1 in (0, 2):
        return "demo: clean %d, patched %d\n%s\n%s" % (rc0, rc1, o0, o1)
    return None


def detect(s):
    subprocess.check_call(["git", "-C", SC, "checkout", "-q", "--", "."])
    d = os.path.join(V, "seeded", s["id"])
    subprocess.check_call(["git", "-C", SC, "apply", os.path.join(d, "patch.diff")])
    res = {}
    for c in [s["prop"]] + list(s.get("also", ())):
        p = run([sys.executable, os.path.join(CK, "check.py"), c], cwd=CK,
                env=dict(os.environ, VH_REPO=SC, VERIF_SEED="1", VERIF_TIER="quick"))
        caught = p.returncode == 1 and "VIOLATION property=%s" % c in p.stdout
        why = [l for l in p.stdout.split("\n") if l.startswith("rejected")]
        res[c] = "caught: " + why[0][:150] if caught else "rc %d" % p.returncode + (p.stdout[-400:] if p.returncode else "")
    subprocess.check_call(["git", "-C", SC, "checkout", "-q", "--", "."])
    return res


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    out = {}
    rf = os.path.join("/root/seeds", "results.json")
    for s in ns["SEEDS"]:
        if want and s["id"] not in want:
            continue
        if "--detect-only" not in sys.argv:
            e = make(s)
            if e:
                print("XX", s["id"], e, flush=True)
                subprocess.call(["git", "-C", SC, "checkout", "-q", "--", "."])
                shutil.rmtree(os.path.join(V, "seeded", s["id"]), ignore_errors=True)
                continue
        r = detect(s)
        all_ = json.load(open(rf)) if os.path.exists(rf) else {}
        all_[s["id"]] = {"prop": s["prop"], "res": r}
        json.dump(all_, open(rf, "w"), indent=1)
        print("OK" if any(v.startswith("caught") for k, v in r.items() if k == s["prop"]) else "MISSED", s["id"], r, flush=True)
