#!/usr/bin/env python3
"""Development tool: turns the definitions in tools/seeds/*.py into /verif/seeded/<id>/
and confirms each of them in a scratch copy of /repo (build, stable tests, demonstration
without and with the change). No check uses it.

  mkseed.py [id ...]        write and confirm (all of them without arguments)
"""
import json, os, re, subprocess, sys, shutil, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/seed/repo"
BUGS = {}


def bug(id, prop, needs, breaks, edits, rust=None, ts=None, hashed=False):
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, rust=rust, ts=ts)


HEAD = '''#!/bin/bash
# Run in the repository. Exit 0: the property holds for the case shown in main.rs.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/out"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/common.rs" "$d/src/common.rs"
if [ -e Cargo.lock ]; then cp Cargo.lock "$d/Cargo.lock"; fi
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
typelalr = { path = "$repo" }
bumpalo = { version = "3.11.0", features = ["collections"] }
regex-syntax = "0.6.27"
[workspace]
T
export CARGO_TARGET_DIR="$d/target"
if [ -d "$repo/target/debug/deps" ]; then
  # the dependencies are built already
  mkdir -p "$CARGO_TARGET_DIR/debug"
  cp -r "$repo/target/debug/deps" "$repo/target/debug/.fingerprint" "$repo/target/debug/build" "$CARGO_TARGET_DIR/debug/" 2>/dev/null
fi
(cd "$d" && cargo build --offline -q 2>"$d/log") || { tail -20 "$d/log" >&2; exit 3; }
ulimit -v 6000000
(cd "$d" && timeout 120 "$CARGO_TARGET_DIR/debug/demo" "$d/out" >/dev/null 2>"$d/err")
rc=$?
grep -a '^demo:' "$d/err" | head -5 >&2
[ $rc -eq 0 ] || { echo "demo: exit code $rc" >&2; exit 1; }
'''
TAIL = '''
cp "$repo"/ts/lex.ts "$repo"/ts/parse.ts "$repo"/ts/util.ts "$repo"/ts/chars.ts "$d/out/"
echo 'export type ParseTokens<T extends L.Token[]> = Parse<T>;' >> "$d/out/parse.ts"
cp "$here/main.ts" "$d/out/main.ts"
tsc=/opt/veriftools/node/node_modules/.bin/tsc
[ -x "$tsc" ] || tsc=tsc
(cd "$d/out" && timeout 200 "$tsc" --strict --noEmit --target es2020 --module commonjs main.ts > "$d/tsc" 2>&1)
if grep -E "$(cat "$here/files")" "$d/tsc" | head -5 >&2 && grep -qE "$(cat "$here/files")" "$d/tsc"; then exit 1; fi
exit 0
'''
COMMON = r'''#![allow(dead_code)]
use bumpalo::Bump;
use std::panic::{catch_unwind, AssertUnwindSafe};
use typelalr::{lalr::Lalr, parse_grammar, parser::Grammar};

pub fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn fail(msg: String) -> ! {
    eprintln!("\ndemo: {}", msg);
    std::process::exit(1)
}

pub fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        fail(format!("{}: got {:?}, should be {:?}", what, got, want))
    }
}

/// None: the grammar is refused
pub fn accepts(grammar: &str, input: &str) -> Option<bool> {
    let bump = Bump::new();
    let ast = parse_grammar(&bump, grammar);
    let lalr = attempt(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast)))?;
    Some(attempt(|| lalr.parse(input)).is_some())
}

pub fn modules(grammar: &str) -> (String, String) {
    let bump = Bump::new();
    let ast = parse_grammar(&bump, grammar);
    let lalr = Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast));
    typelalr::codegen::parse_gen::generate(&bump, &ast, &lalr).unwrap()
}

/// Write the generated modules to the directory given as argument
pub fn emit(grammar: &str) {
    let dir = std::env::args().nth(1).unwrap();
    let (lex, parse) = modules(grammar);
    std::fs::write(format!("{}/lex_state.gen.ts", dir), lex).unwrap();
    std::fs::write(format!("{}/parse_state2.gen.ts", dir), parse).unwrap();
    let mut arith = String::new();
    typelalr::codegen::lex_gen::gen_arithmetic(&mut arith, 600);
    std::fs::write(format!("{}/arith_table.gen.ts", dir), arith).unwrap();
}

pub fn nfa(pattern: &str) -> typelalr::lex::nfa::NFA {
    typelalr::lex::nfa::NFA::from_regex(&regex_syntax::Parser::new().parse(pattern).unwrap())
}

pub fn dfa(pattern: &str) -> typelalr::lex::dfa::DFA {
    typelalr::lex::dfa::DFA::from_nfa(nfa(pattern))
}

pub fn token(name: &str, pattern: &str) -> (typelalr::lex::lex::TokenDef, regex_syntax::hir::Hir) {
    (
        typelalr::lex::lex::TokenDef { name: name.into(), with_val: true, token_idx: None },
        regex_syntax::Parser::new().parse(pattern).unwrap(),
    )
}

pub fn lexer(defs: &[(&str, &str)]) -> typelalr::lex::lex::Lex {
    typelalr::lex::lex::Lex::from_tokens(defs.iter().map(|(n, p)| token(n, p)).collect())
}

pub fn tok(name: &str, val: &str) -> typelalr::lex::lex::Token {
    typelalr::lex::lex::Token::new_with_val(name.to_string(), val)
}
'''
TSHEAD = '''type Same<A, B> = (<T>() => T extends A ? 1 : 2) extends <T>() => T extends B ? 1 : 2 ? true : false;
'''


def sh(cmd, cwd=None, timeout=400):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace")


def write(b):
    d = os.path.join(ROOT, "seeded", b["id"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    with open(d + "/demo.sh", "w") as f:
        f.write(HEAD + (TAIL if b["ts"] else "exit 0\n"))
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/common.rs", "w") as f:
        f.write(COMMON)
    with open(d + "/main.rs", "w") as f:
        f.write("mod common;\n#[allow(unused_imports)]\nuse common::*;\n\n" + b["rust"].strip() + "\n")
    if b["ts"]:
        files, text = b["ts"]
        with open(d + "/main.ts", "w") as f:
            f.write(text.strip() + "\n")
        with open(d + "/files", "w") as f:
            f.write(files + "\n")
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        f.write("\n")
    return d


def confirm(b):
    d = write(b)
    sh("git checkout -q -- . && git clean -fdq", SCRATCH)
    for file, old, new in b["edits"]:
        p = os.path.join(SCRATCH, file)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit in %s matches %d times: %r" % (file, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh("git diff -a", SCRATCH)
    open(d + "/patch.diff", "w").write(diff)
    # removed lines have to be lines of the original repository
    for file in set(e[0] for e in b["edits"]):
        orig = set(l.strip() for l in sh("git show e35ab7e:" + file, SCRATCH)[1].splitlines())
        rem = [l[1:].strip() for l in sh("git diff -a -U0 -- " + file, SCRATCH)[1].splitlines() if l.startswith("-") and not l.startswith("---")]
        if not any(l in orig and l for l in rem):
            print("  note: no original line changed in", file)
    rc, out = sh("git apply --check %s/patch.diff" % d, "/repo")
    if rc:
        return "patch does not apply: " + out[:300]
    env = "export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUST_BACKTRACE=0 CARGO_TARGET_DIR=%s/target; " % SCRATCH
    rc, out = sh(env + "cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 2>&1", SCRATCH)
    m = re.search(r"(\d+) tests? run: (\d+) passed", out)
    if not m or m.group(1) != m.group(2) or m.group(2) != "46":
        fails = re.findall(r"FAIL.*", out)
        return "tests: %s %s" % (m and m.group(0), fails[:4] or out[-600:])
    sh("git checkout -q -- src/ ts/ && git apply %s/patch.diff" % d, SCRATCH)  # a test rewrites ts/chars.ts
    rc, out = sh("bash %s/demo.sh" % d, SCRATCH)
    if rc == 0 or rc == 3:
        return "demo with the change: rc=%d %s" % (rc, out[-600:])
    why = out.strip().splitlines()
    sh("git checkout -q -- . && git clean -fdq", SCRATCH)
    rc, out2 = sh(env + "cargo build --offline -q; bash %s/demo.sh" % d, SCRATCH)
    if rc != 0:
        return "demo without the change: rc=%d %s" % (rc, out2[-900:])
    print("  ", (why or [""])[0][:200])
    return None


def main():
    for f in sorted(glob.glob(ROOT + "/tools/seeds/*.py")):
        exec(compile(open(f).read(), f, "exec"), globals())
    ids = sys.argv[1:] or list(BUGS)
    head = sh("git rev-parse HEAD", "/repo")[1].strip()
    if not os.path.isdir(SCRATCH) or sh("git rev-parse HEAD", SCRATCH)[1].strip() != head:
        sh("rm -rf %s; mkdir -p /tmp/seed; cp -a /repo %s" % (SCRATCH, SCRATCH))
    bad = 0
    for i in ids:
        r = confirm(BUGS[i])
        print(i, "OK" if r is None else "FAILED " + r, flush=True)
        if r is not None:
            bad += 1
            shutil.rmtree(os.path.join(ROOT, "seeded", i), ignore_errors=True)
    return bad


if __name__ == "__main__":
    sys.exit(main())
