#!/usr/bin/env python3
"""mkseed.py FILE.py  -- makes and confirms planted bugs in a scratch copy (/tmp/seed/repo).
FILE.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], main=rust main.rs text)]"""
import json, os, re, subprocess, sys, shutil
S = "/tmp/seed/repo"
OUT = "/verif/seeded"
LIB = open("/verif/tools/demo_lib.rs").read()
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
i18n_utility = { package = "i18n_utility-rizzen-yazston", path = "@REPO@/crates/utility" }
i18n_lexer = { package = "i18n_lexer-rizzen-yazston", path = "@REPO@/crates/lexer" }
i18n_provider = { package = "i18n_provider-rizzen-yazston", path = "@REPO@/crates/provider/core" }
i18n_provider_sqlite3 = { package = "i18n_provider_sqlite3-rizzen-yazston", path = "@REPO@/crates/provider/sqlite3" }
i18n_localiser = { package = "i18n_localiser-rizzen-yazston", path = "@REPO@/crates/localiser", features = ["icu_compiled_data"] }
icu_provider = { version = "1.5.0", default-features = false, features = ["serde"] }
icu_calendar = { version = "1.5.0", default-features = false }
rusqlite = { version = "0.32.1", default-features = false }
[profile.dev]
debug = 0
incremental = false
'''
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
work=$(mktemp -d) || exit 0
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cp "$here/Cargo.lock.in" "$work/Cargo.lock"
cp "$here/main.rs" "$work/src/main.rs"
export CARGO_TARGET_DIR="$repo/target/vp-demo" CARGO_NET_OFFLINE=true
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/i18n* "$CARGO_TARGET_DIR"/debug/.fingerprint/demo*
cargo build --offline -q --manifest-path "$work/Cargo.toml" || { echo "demo does not build"; exit 0; }
cp "$CARGO_TARGET_DIR/debug/demo" "$work/demo"
cd "$work" && timeout 100 ./demo
'''
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=S + "/target")
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def reset():
    sh(f"git -C {S} checkout -q -- . && git -C {S} clean -fdq crates")
def tests():
    sh(f"rm -rf {S}/target/debug/.fingerprint/i18n*")
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=S, env=ENV)
    open("/tmp/seed/log", "w").write(r.stdout + r.stderr)
    n = len(re.findall(r"^test .* \.\.\. ok$", r.stdout, re.M)); f = re.findall(r"^test (.*) \.\.\. FAILED$", r.stdout, re.M)
    return n, f, "could not compile" in r.stderr
def threads(t):
    """the demo with the feature `sync` of the crates"""
    t = re.sub(r'(path = "@REPO@[^"]*")(, features = \[([^\]]*)\])?', lambda m: m.group(1) + ', features = [' + ((m.group(3) + ', ') if m.group(3) else '') + '"sync"]', t)
    for a, b in (("use std::cell::RefCell;", "use std::sync::Mutex as RefCell;"), ("use std::rc::Rc;", "use std::sync::Arc as Rc;"), (".borrow_mut()", ".lock().unwrap()"), (".borrow()", ".lock().unwrap()")):
        t = t.replace(a, b)
    return t
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"git -C {S} fetch -q /repo && git -C {S} checkout -q {head}")
    for s in g["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
        reset()
        d = f"{OUT}/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/Cargo.toml.in", "w").write(threads(TOML) if s.get("sync") else TOML)
        shutil.copy("/verif/harness/Cargo.lock", d + "/Cargo.lock.in")
        t = open(d + "/Cargo.lock.in").read().replace('name = "vp-harness"', 'name = "demo"')
        open(d + "/Cargo.lock.in", "w").write(t)
        open(d + "/main.rs", "w").write((threads(LIB) if s.get("sync") else LIB) + s["main"])
        clean = sh(f"bash {d}/demo.sh", cwd=S)
        bad = False
        for f, a, b in s["edits"]:
            p = f"{S}/{f}"; x = open(p).read()
            if x.count(a) != 1: print(s["id"], "edit matches", x.count(a), repr(a[:60])); bad = True; break
            open(p, "w").write(x.replace(a, b))
        if bad: shutil.rmtree(d); continue
        n, fails, nc = tests()
        diff = sh(f"git -C {S} diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        br = sh(f"bash {d}/demo.sh", cwd=S)
        ok = clean.returncode == 0 and br.returncode != 0 and not fails and not nc and n >= 62 and "does not build" not in clean.stdout + br.stdout
        print(s["id"], s["property"], "OK" if ok else "BAD", "clean", clean.returncode, "patched", br.returncode, "tests", n, fails, "nocompile" if nc else "", (br.stdout + br.stderr)[-300:].strip() if ok else (clean.stdout + clean.stderr + br.stdout + br.stderr)[-500:])
        reset()
        if not ok: shutil.rmtree(d)
main()
