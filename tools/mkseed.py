#!/usr/bin/env python3
"""Make and confirm planted bugs from tools/seeds/<id>.py descriptions.

A description defines PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)] and DEMO
(the body of a Rust program). For each id: edits a scratch copy of /repo, checks
that it builds and passes the tests, that the demo passes before and fails after,
writes seeded/<id>/, then (with --check) applies the patch to /repo, runs the
property's check and undoes it.
usage: mkseed.py [--check] [--only-check] ID...
"""
import json, os, shutil, subprocess, sys, runpy
V = '/verif'; SC = '/tmp/vp_seed_scratch'
DEMO_SH = '''#!/bin/bash
# Runs demo.rs against the crate in the current directory; exit 0 = the property holds in it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rusty_network = { path = "$repo" }
EOF
cd "$work" || exit 2
CARGO_TARGET_DIR="$work/target" cargo build --offline -q 2> "$work/log" || { cat "$work/log"; exit 2; }
mkdir "$work/scratch" && cd "$work/scratch" || exit 2
timeout 120 "$work/target/debug/demo"
rc=$?
[ $rc -eq 0 ] && echo "demo: property holds" || echo "demo: property broken"
exit $rc
'''
PRE = '''#![allow(unused_imports, dead_code)]
use rusty_network::layer::convolutional::ConvolutionalLayer;
use rusty_network::layer::fully_connected::FullyConnectedLayer;
use rusty_network::layer::max_pool::MaxPoolLayer;
use rusty_network::layer::softmax::SoftmaxLayer;
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::helper::{TensorIndex, TensorShape};
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

fn sh(i: u32, j: u32, k: u32) -> TensorShape {
    TensorShape::new(i, j, k)
}
fn at(i: u32, j: u32, k: u32) -> TensorIndex {
    TensorIndex { i, j, k }
}
fn t(s: TensorShape, v: &[f32]) -> Tensor {
    let mut t = Tensor::new(s);
    t.fill_with_vec(v.to_vec()).unwrap();
    t
}
fn all(t: &Tensor) -> Vec<f32> {
    let (a, b, c) = t.get_shape().get();
    let mut r = vec![];
    for k in 0..c {
        for j in 0..b {
            for i in 0..a {
                r.push(t.get_item(&at(i, j, k)));
            }
        }
    }
    r
}
fn name() -> String {
    String::from("layer")
}
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy():
    subprocess.run(['rm', '-rf', SC]); shutil.copytree('/repo', SC, symlinks=True, ignore=shutil.ignore_patterns('target'))
    sh(['git', 'checkout', '-q', '--', '.'], SC)
env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR='/tmp/vp_seed_target')
def make(i):
    d = runpy.run_path(f'{V}/tools/seeds/{i}.py')
    copy()
    for f, old, new in d['EDITS']:
        p = f'{SC}/{f}'; s = open(p).read()
        if s.count(old) != 1: return f'edit does not match once ({s.count(old)}): {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new))
    out = f'{V}/seeded/{i}'; os.makedirs(out, exist_ok=True)
    diff = subprocess.run(['git', 'diff'], cwd=SC, stdout=subprocess.PIPE, text=True).stdout
    open(f'{out}/patch.diff', 'w').write(diff)
    open(f'{out}/demo.rs', 'w').write(PRE + d['DEMO'])
    open(f'{out}/demo.sh', 'w').write(DEMO_SH.replace('RUSTC_WRAPPER=\n', 'RUSTC_WRAPPER=\n' + ('# the guarded accessors show the accumulated gradients\nexport RUSTFLAGS="--cfg verif_hooks"\n' if d.get('HOOKS') else ''))); os.chmod(f'{out}/demo.sh', 0o755)
    json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(f'{out}/meta.json', 'w'), indent=1)
    # original lines?
    bl = sh(['git', 'blame', '-s', '--line-porcelain', 'HEAD', '--'] + [], SC)
    removed = orig = 0
    for f in {e[0] for e in d['EDITS']}:
        b = sh(['git', 'blame', '-s', 'HEAD', '--', f], SC).stdout.splitlines()
        u = subprocess.run(['git', 'diff', '-U0', '--', f], cwd=SC, stdout=subprocess.PIPE, text=True).stdout
        for l in u.splitlines():
            if l.startswith('@@'):
                a = l.split()[1][1:].split(','); n = int(a[1]) if len(a) > 1 else 1
                for x in range(int(a[0]), int(a[0]) + n):
                    removed += 1
                    if b[x-1].startswith('^') or b[x-1].startswith('c5854bd'): orig += 1
    r = sh(['cargo', 'test', '--workspace', '--offline', '-q'], SC, env=env)
    if r.returncode: return 'build/tests fail:\n' + r.stdout[-1500:]
    b = sh(['bash', f'{out}/demo.sh'], SC)
    if b.returncode == 0: return 'demo passes on the patched tree'
    if b.returncode == 2: return 'demo does not build: ' + b.stdout[-1500:]
    g = sh(['bash', f'{out}/demo.sh'], '/repo')
    if g.returncode: return 'demo fails on the clean tree: ' + g.stdout[-800:]
    return f'ok (removed lines {removed}, original {orig})'
def check(i):
    p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    sh(['git', 'apply', f'{V}/seeded/{i}/patch.diff'], '/repo', check=True)
    try: r = sh(['./check.sh', p], V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally: sh(['git', 'checkout', '--', '.'], '/repo')
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return f"{'CAUGHT' if r.returncode == 1 and any('property=' + p in l for l in v) else 'MISSED rc=%d' % r.returncode} {p} {v[:1]}\n" + ('' if v else r.stdout[-600:])
a = [x for x in sys.argv[1:] if not x.startswith('-')]
for i in a:
    if '--only-check' not in sys.argv:
        r = make(i); print(i, r, flush=True)
        if not r.startswith('ok'): continue
    if '--check' in sys.argv or '--only-check' in sys.argv: print(i, check(i).strip(), flush=True)
