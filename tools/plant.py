#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and writes them to /verif/seeded.

Definitions are tools/seeds/*.py, each with a list SEEDS of
  dict(id, property, edits=[(file, old, new)], needs, breaks, demo=<Rust>, features=[...], deps=<toml>)
A bug is kept if it builds, passes the stable tests, and its demo passes
without and fails with it.
"""
import glob, json, os, runpy, shutil, subprocess, sys

SCRATCH = "/tmp/plant/repo"
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Builds main.rs against the repository in the current directory and runs it:
# exit 0 when the expected behaviour is observed.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$work/Cargo.lock"; else cp /opt/vp/Cargo.lock "$work/Cargo.lock"; fi
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
m-bus-parser = { path = "$repo", features = [FEATURES] }
wired-mbus-link-layer = { path = "$repo/crates/wired-mbus-link-layer" }
wireless-mbus-link-layer = { path = "$repo/crates/wireless-mbus-link-layer" }
m-bus-core = { path = "$repo/crates/m-bus-core" }
m-bus-application-layer = { path = "$repo/crates/m-bus-application-layer" }
serde_json = "1"
DEPENDENCIES
TOML
for d in /root/.cargo/bin /usr/local/cargo/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export RUST_BACKTRACE=0 PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
cd "$work" && timeout 280 cargo run --quiet --offline
'''
PRELUDE = '''#![allow(dead_code, unused_imports)]
use m_bus_parser::{decode_bytes, decode_hex, render_bytes, render_hex, DecodeOptions, OutputFormat, RenderOptions};
use serde_json::Value;

fn unhex(s: &str) -> Vec<u8> {
    let s: String = s.split_whitespace().collect();
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect()
}

/// Wired long frame with a short transport header around `records`.
fn wired(records: &str) -> Vec<u8> {
    let mut b = vec![0x08, 0x01, 0x7A, 0x01, 0x00, 0x00, 0x00];
    b.extend(unhex(records));
    let n = b.len() as u8;
    let sum = b.iter().fold(0u8, |a, x| a.wrapping_add(*x));
    let mut f = vec![0x68, n, n, 0x68];
    f.extend(b);
    f.extend([sum, 0x16]);
    f
}

fn doc(b: &[u8]) -> Value {
    serde_json::to_value(decode_bytes(b, &DecodeOptions::default()).expect("decodes")).unwrap()
}

fn crc16(data: &[u8]) -> u16 {
    let mut crc = 0u16;
    for b in data {
        crc ^= (*b as u16) << 8;
        for _ in 0..8 {
            crc = if crc & 0x8000 != 0 { (crc << 1) ^ 0x3D65 } else { crc << 1 };
        }
    }
    !crc
}

fn render(b: &[u8], f: &str, width: usize) -> String {
    let o = RenderOptions { table_width: Some(width), ..RenderOptions::default() };
    render_bytes(b, f.parse().unwrap(), &o).expect("renders")
}

'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), text=True, capture_output=True, **k)


def scripts():
    os.makedirs("/tmp/plant/vp", exist_ok=True)
    for f in ["common.sh", "build.sh", "test.sh"]:
        s = open("/opt/vp/" + f).read().replace("/repo", SCRATCH).replace(". /opt/vp/common.sh", ". /tmp/plant/vp/common.sh")
        open("/tmp/plant/vp/" + f, "w").write(s)


def copy():
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.isdir(SCRATCH):
        sh(["cp", "-a", "/repo", SCRATCH])
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    sh(["git", "-C", SCRATCH, "checkout", "-q", "--", "."])
    sh(["git", "-C", SCRATCH, "fetch", "-q", "/repo"])
    r = sh(["git", "-C", SCRATCH, "checkout", "-q", head])
    assert sh(["git", "-C", SCRATCH, "rev-parse", "HEAD"]).stdout.strip() == head, r.stderr
    scripts()


def demo(d):
    env = dict(os.environ, DEMO_TARGET="/tmp/plant/demo-target")
    return sh(["bash", d + "/demo.sh"], cwd=SCRATCH, env=env)


def main():
    want = set(sys.argv[1:])
    seeds = []
    for f in sorted(glob.glob("/verif/tools/seeds/*.py")):
        seeds += runpy.run_path(f)["SEEDS"]
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    stable = set(stable)
    base = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[0]
    copy()
    for s in seeds:
        final = f"{OUT}/{s['id']}"
        if want and s["id"] not in want or not want and os.path.isdir(final):
            continue
        sh(["git", "-C", SCRATCH, "checkout", "-q", "--", "."])
        d = f"/tmp/plant/out/{s['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        feats = s.get("features", ["std", "decryption"])
        script = DEMO.replace("FEATURES", ", ".join(f'"{f}"' for f in feats)).replace("DEPENDENCIES\n", s["deps"] + "\n" if "deps" in s else "")
        open(d + "/demo.sh", "w").write(s.get("script") or script)
        os.chmod(d + "/demo.sh", 0o755)
        if s.get("demo"):
            open(d + "/main.rs", "w").write(PRELUDE + s["demo"])
        for n, t in s.get("files", {}).items():
            open(f"{d}/{n}", "w").write(t)
        if s.get("build_first"):
            sh("bash /tmp/plant/vp/build.sh")
        r = demo(d)
        if r.returncode:
            print(s["id"], "REFUSED: demo fails on the unchanged tree\n" + r.stderr[-1500:] + r.stdout[-500:])
            continue
        ok = True
        for f, old, new in s["edits"]:
            p = f"{SCRATCH}/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], f"REFUSED: {t.count(old)} matches of {old!r} in {f}")
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        diff = sh(["git", "-C", SCRATCH, "diff"]).stdout
        # changed lines belong to the original repository
        for line in diff.splitlines():
            if line.startswith("-") and not line.startswith("---") and line[1:].strip():
                g = sh(["git", "-C", "/repo", "grep", "-qF", "-e", line[1:], base])
                if g.returncode:
                    print(s["id"], "REFUSED: line is not in the original:", line)
                    ok = False
        if not ok:
            continue
        b = sh("bash /tmp/plant/vp/build.sh")
        if b.returncode:
            print(s["id"], "REFUSED: does not build\n" + b.stderr[-1500:])
            continue
        t = sh("bash /tmp/plant/vp/test.sh /tmp/plant/out.json")
        o = json.load(open("/tmp/plant/out.json"))
        bad = stable - set(o["passed"])
        if bad:
            print(s["id"], "REFUSED: tests fail", sorted(bad)[:5])
            continue
        r = demo(d)
        if r.returncode == 0:
            print(s["id"], "REFUSED: demo passes with the change")
            continue
        if "could not compile" in r.stderr:
            print(s["id"], "REFUSED: demo does not compile\n" + r.stderr[-800:])
            continue
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(d, final)
        print(s["id"], s["property"], "kept:", r.stderr.strip()[-150:].replace("\n", " | "), flush=True)
    sh(["git", "-C", SCRATCH, "checkout", "-q", "--", "."])


main()
