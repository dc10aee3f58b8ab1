#!/usr/bin/env python3
"""plant.py SPEC.py: builds planted bugs under /verif/seeded from a spec (a development aid).

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo=rust main body)].
For each: applies the edits in a scratch worktree, builds, runs the stable tests, runs the demo with and
without the change, and writes seeded/<id>/ only when all of that is as it should be."""
import sys,os,subprocess,json,shutil,tempfile,runpy
V='/verif/seeded'
BUGS=runpy.run_path(sys.argv[1])['BUGS']
only=sys.argv[2:]
DEMO='''#!/bin/bash
# Builds a small program against the working tree of /repo (the current directory) and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.98.1 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
repo="$(pwd)"
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rustc_apfloat = { path = "$repo" }
[workspace]
[profile.dev]
opt-level = 1
EOF
export CARGO_TARGET_DIR="$d/target"
cd "$d" && cargo build --offline -q 2>"$d/err" || { cat "$d/err" >&2; exit 3; }
timeout 60 "$d/target/debug/demo"
'''
HEAD='''#![allow(unused_imports, unused_must_use, unused_macros)]
use rustc_apfloat::ieee::*;
use rustc_apfloat::ppc::DoubleDouble;
use rustc_apfloat::*;
fn h<F: Float>(b: u128) -> F { F::from_bits(b) }
fn d(x: f64) -> Double { Double::from_bits(x.to_bits() as u128) }
fn s(x: f32) -> Single { Single::from_bits(x.to_bits() as u128) }
fn f(x: Double) -> f64 { f64::from_bits(x.to_bits() as u64) }
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
base=json.load(open('/opt/vp/BASELINE.json'))
W='/tmp/plant/w'
shutil.rmtree(W,ignore_errors=True)
sh(f'git -C /repo worktree prune; mkdir -p /tmp/plant; cp -a /repo {W}')
env=dict(os.environ,RUSTUP_TOOLCHAIN='1.98.1',CARGO_NET_OFFLINE='true')
for b in BUGS:
    if only and b['id'] not in only: continue
    if not only and os.path.exists(f"{V}/{b['id']}/meta.json"): continue
    sh(f'git -C {W} checkout -q -- .')
    bad=False
    for (fn,old,new) in b['edits']:
        t=open(f'{W}/{fn}').read()
        if t.count(old)!=1: print(b['id'],'EDIT matches',t.count(old),'times:',old[:60]); bad=True; break
        open(f'{W}/{fn}','w').write(t.replace(old,new))
    if bad: continue
    diff=sh(f'git -C {W} diff').stdout
    tmp=tempfile.mkdtemp(dir='/tmp/plant')
    open(f'{tmp}/demo.sh','w').write(DEMO); os.chmod(f'{tmp}/demo.sh',0o755)
    open(f'{tmp}/main.rs','w').write(HEAD+b.get('items','')+'fn main() {\n'+b['demo'].strip('\n')+'\n}\n')
    # demo on the unchanged tree
    r0=sh(f'bash {tmp}/demo.sh',cwd='/repo')
    r1=sh(f'bash {tmp}/demo.sh',cwd=W)
    t=sh(f'timeout 120 cargo test --offline --no-fail-fast 2>&1',cwd=W,env=env)
    fails=[l for l in t.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('FAILED')]
    passed=sum(1 for l in t.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok'))
    ok=r0.returncode==0 and r1.returncode not in (0,3) and not fails and passed>=100
    print(b['id'],b['prop'],'KEPT' if ok else 'REJECTED',f'clean={r0.returncode} patched={r1.returncode} passed={passed} fails={fails[:3]}')
    if not ok: print((r0.stderr+r0.stdout)[-600:] if r0.returncode else '',(r1.stderr)[-600:] if r1.returncode in(0,3) else '', t.stdout[-500:] if passed<100 and not fails else '')
    if ok:
        o=f"{V}/{b['id']}"; shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
        open(f'{o}/patch.diff','w').write(diff)
        shutil.copy(f'{tmp}/demo.sh',o); shutil.copy(f'{tmp}/main.rs',o)
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(f'{o}/meta.json','w'),indent=1)
    shutil.rmtree(tmp)
shutil.rmtree(W,ignore_errors=True)
