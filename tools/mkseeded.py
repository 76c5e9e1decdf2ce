#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, main.rs, meta.json) from the list in seedlist.py.
The patches are made against /repo's HEAD in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from seedlist import BUGS

PRELUDE = r'''// Demonstration; see meta.json. Exits 0 when the property holds for the inputs below.
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use nmea_parser::*;
use nmea_parser::ais::*;
use nmea_parser::gnss::*;

/// The payload of a message of n bits with the given (offset, width, value) fields.
fn pay(n: usize, f: &[(usize, usize, i64)]) -> String {
    let mut b = vec![false; (n + 5) / 6 * 6];
    for (o, w, v) in f {
        for i in 0..*w {
            b[o + i] = (v >> (w - 1 - i)) & 1 == 1;
        }
    }
    b.chunks(6).map(|c| {
        let v = c.iter().fold(0u8, |a, x| a * 2 + *x as u8);
        (if v < 40 { v + 48 } else { v + 56 }) as char
    }).collect()
}
/// Six-bit text as fields.
fn txt(o: usize, s: &str) -> Vec<(usize, usize, i64)> {
    s.bytes().enumerate().map(|(i, c)| (o + 6 * i, 6, (if c >= 64 { c - 64 } else { c }) as i64)).collect()
}
fn cat(a: &[(usize, usize, i64)], b: Vec<(usize, usize, i64)>) -> Vec<(usize, usize, i64)> {
    let mut v = a.to_vec();
    v.extend(b);
    v
}
fn seal(s: &str) -> String {
    format!("{}*{:02X}", s, s.bytes().skip(1).fold(0, |a, b| a ^ b))
}
fn aivdm(p: &str) -> String {
    seal(&format!("!AIVDM,1,1,,A,{},0", p))
}
fn once(s: &str) -> Result<ParsedSentence, ParseError> {
    NmeaParser::new().parse_sentence(s)
}
fn dyn_(s: &str) -> VesselDynamicData {
    match once(s) { Ok(ParsedSentence::VesselDynamicData(v)) => v, r => panic!("{} -> {:?}", s, r) }
}
fn stat(r: Result<ParsedSentence, ParseError>) -> VesselStaticData {
    match r { Ok(ParsedSentence::VesselStaticData(v)) => v, r => panic!("{:?}", r) }
}
fn inc(r: Result<ParsedSentence, ParseError>) {
    match r { Ok(ParsedSentence::Incomplete) => {}, r => panic!("expected incomplete, got {:?}", r) }
}
fn gsv(r: Result<ParsedSentence, ParseError>) -> Vec<GsvData> {
    match r { Ok(ParsedSentence::Gsv(v)) => v, r => panic!("expected satellites, got {:?}", r) }
}
'''
DEMO = r'''#!/bin/bash
# Run with cwd = the repository: builds a small program against it in a scratch directory.
src="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)" || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$src/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
nmea-parser = { path = "$repo" }
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w" || exit 3
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true
cargo build --offline -q 2> "$w/log" || { cat "$w/log"; exit 4; }
timeout 120 "$w/target/debug/demo"
'''

def main():
    only = set(sys.argv[1:])
    w = tempfile.mkdtemp(prefix="seed")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for b in BUGS:
        if only and b["id"] not in only:
            continue
        for f, old, new in b["edits"]:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            n = b.get("count", {}).get(old, 1)
            assert s.count(old) == n, (b["id"], f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(here, "..", "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
        assert diff
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/main.rs", "w").write(PRELUDE + "\n" + b["demo"].strip("\n") + "\n")
        demo = DEMO
        if "log::" in b["demo"]:
            demo = demo.replace('path = "$repo" }\n', 'path = "$repo" }\nlog = "0.4"\n')
        open(d + "/demo.sh", "w").write(demo)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
        subprocess.check_call(["git", "-C", w + "/r", "checkout", "-q", "--", "."])
    shutil.rmtree(w)
main()
