#!/usr/bin/env python3
"""make_seed.py <id> <property> <patch> <demo.rs> <needs> <what>   -> /verif/seeded/<id>/
Packs a planted bug: the patch, a self-contained demonstration crate and meta.json.
kind: 'sim' demos use the in-process runtime, 'lib' demos only call public functions."""
import sys, os, shutil, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = V + '/harness'
K = V + '/tools/demokit'
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "demo"
path = "src/main.rs"

[dependencies]
cyclos-core = { path = "@CORE@" }
solana-program = "=1.8.16"
spl-token = { version = "=3.2.0", features = ["no-entrypoint"] }
spl-associated-token-account = { version = "=1.0.3", features = ["no-entrypoint"] }
metaplex-token-metadata = { version = "=0.0.1", features = ["no-entrypoint"] }
anchor-lang = "=0.22.1"
uint = "=0.9.1"
bincode = "=1.3.3"
libc = "=0.2.119"

[features]
lib = []

[profile.dev]
opt-level = 0
debug = false
overflow-checks = false
debug-assertions = false
incremental = false
[profile.dev.package.curve25519-dalek]
opt-level = 3
[profile.dev.package.sha2]
opt-level = 3
'''
SH = '''#!/bin/bash
# Builds the demonstration against the program in the current directory and runs it.
# Exit 0: the property holds in this case. Anything else: it is broken.
set -uo pipefail
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/src" "$here/Cargo.lock" "$work/"
sed "s#@CORE@#$repo/programs/core#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cd "$work" || exit 9
cargo build --offline --locked -q > "$work/log" 2>&1 || { tail -20 "$work/log"; exit 8; }
"$work/target/debug/demo"
'''
def txs():
    s = open(H + '/src/explore.rs').read()
    a = s.index('// ------------------------------------------------------------------ client: op -> transaction')
    b = s.index('// ------------------------------------------------------------------ independent views')
    bw = s[s.index("pub struct BankWorld"):s.index('#[derive(Clone, Debug)]\npub struct Viol ')]
    return ('//! operations as transactions\nuse crate::model::*;\nuse crate::svm::*;\nuse crate::world::*;\n'
            'use solana_program::instruction::{AccountMeta, Instruction};\nuse solana_program::pubkey::Pubkey;\n\n' + bw + s[a:b])
def make(id, prop, patch, demo, needs, what):
    d = f'{V}/seeded/{id}'
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d + '/src')
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/meta.json', 'w').write(json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': what}, indent=1) + '\n')
    open(d + '/Cargo.toml.in', 'w').write(CARGO)
    shutil.copy(H + '/Cargo.lock', d + '/Cargo.lock')
    lk = open(d + '/Cargo.lock').read().replace('name = "cyk-mc"', 'name = "demo"')
    # cargo keeps packages sorted by name
    head, *pk = lk.split('[[package]]\n')
    pk.sort(key=lambda p: re.search(r'name = "([^"]+)"\nversion = "([^"]+)"', p).groups())
    pk = [p.rstrip('\n') for p in pk]
    open(d + '/Cargo.lock', 'w').write(head + '\n\n'.join('[[package]]\n' + p for p in pk) + '\n')
    sh = d + '/demo.sh'
    open(sh, 'w').write(SH); os.chmod(sh, 0o755)
    sim = 'crate::sim' in demo or 'sim::' in demo
    mods = ''
    if sim:
        for f in ['svm', 'world', 'refmath', 'model']:
            shutil.copy(f'{H}/src/{f}.rs', f'{d}/src/{f}.rs')
        open(d + '/src/txs.rs', 'w').write(txs())
        shutil.copy(K + '/sim.rs', d + '/src/sim.rs')
        mods = ''.join(f'mod {m};\n' for m in ['model', 'refmath', 'sim', 'svm', 'txs', 'world'])
    open(d + '/src/main.rs', 'w').write('#![allow(dead_code, unused_imports)]\n' + mods + demo)
if __name__ == '__main__':
    make(sys.argv[1], sys.argv[2], open(sys.argv[3]).read(), open(sys.argv[4]).read(), sys.argv[5], sys.argv[6])
