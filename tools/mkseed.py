#!/usr/bin/env python3
"""mkseed.py SPEC.py: turns a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN) into
/verif/seeded/<ID>/ and checks the demonstration on a scratch copy of /repo without and with the change."""
import os, shutil, subprocess, sys, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, **k)
def main(spec, run=True):
    s = {}
    exec(open(spec).read(), s)
    d = f"{V}/seeded/{s['ID']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f'{d}/kit/ecc'); os.makedirs(f'{d}/kit/macros')
    for x in ['stubs']:
        shutil.copytree(f'{V}/{x}', f'{d}/kit/{x}', ignore=shutil.ignore_patterns('target'))
    shutil.copy(f'{V}/ecc/Cargo.toml', f'{d}/kit/ecc/'); shutil.copy(f'{V}/ecc/build.rs', f'{d}/kit/ecc/')
    shutil.copy(f'{V}/macros/Cargo.toml', f'{d}/kit/macros/'); shutil.copy(f'{V}/Cargo.lock', f'{d}/kit/')
    shutil.copy(f'{V}/rust-toolchain.toml', f'{d}/kit/')
    os.makedirs(f'{d}/kit/demo/src')
    open(f'{d}/kit/Cargo.toml', 'w').write('[workspace]\nresolver = "2"\nmembers = ["ecc", "macros", "demo"]\n')
    open(f'{d}/kit/demo/Cargo.toml', 'w').write('''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
expander_compiler = { path = "../ecc" }
arith = { path = "../stubs/arith" }
gf2 = { path = "../stubs/gf2" }
goldilocks = { path = "../stubs/goldilocks" }
mersenne31 = { path = "../stubs/mersenne31" }
babybear = { path = "../stubs/babybear" }
serdes = { path = "../stubs/serdes" }
gkr_engine = { path = "../stubs/gkr_engine" }
gkr = { path = "../stubs/gkr" }
expander_circuit = { path = "../stubs/expander_circuit" }
crosslayer_prototype = { path = "../stubs/crosslayer_prototype" }
rand = { package = "ctlrand", path = "../stubs/ctlrand" }
''')
    open(f'{d}/kit/demo/src/main.rs', 'w').write(s['MAIN'])
    open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository; exit 0: behaves, nonzero: broken
REPO=$PWD
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
cp -r "$HERE/kit/." "$W/"
sed -i "s#\\.\\./\\.\\./repo/#$REPO/#" "$W/ecc/Cargo.toml" "$W/macros/Cargo.toml"
cd "$W" && CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true cargo build -q --offline -p demo 2>"$W/log" || { tail -20 "$W/log"; exit 2; }
timeout 120 "$W/target/debug/demo"
''')
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({"property": s['PROPERTY'], "needs": s['NEEDS'], "what_it_breaks": s['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
    w = tempfile.mkdtemp(prefix='sw.', dir='/tmp')
    try:
        sh(f'git -C /repo worktree prune; git clone -q /repo {w}/r')
        for f, a, b in s['EDITS']:
            p = f'{w}/r/{f}'; t = open(p).read()
            assert t.count(a) == 1, (f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        diff = sh(f'git -C {w}/r diff', capture_output=True).stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        if run:
            r1 = sh(f'cd {w}/r && {d}/demo.sh', capture_output=True)
            sh(f'git -C {w}/r checkout -q -- .')
            r0 = sh(f'cd {w}/r && {d}/demo.sh', capture_output=True)
            print(s['ID'], 'changed:', r1.returncode, (r1.stdout + r1.stderr)[-300:].strip(), '| unchanged:', r0.returncode, (r0.stdout + r0.stderr)[-600:].strip())
    finally:
        shutil.rmtree(w)
for x in sys.argv[1:]: main(x)
