"""mkseed.py <file>...: makes planted bugs from descriptions (see the ones in /tmp) and confirms them
in a scratch copy: the patch applies, the tests of the repository pass, the demonstration
passes on the unchanged tree and fails with the patch. A description is a Python file that sets
ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO = body of main (Rust)."""
import json, os, subprocess, sys, shutil
ROOT = '/verif/seeded'
SH = r'''#!/bin/bash
# Runs the demonstration against the crates in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
httlib-protos = { path = "$repo/protos" }
httlib-huffman = { path = "$repo/huffman" }
httlib-hpack = { path = "$repo/hpack" }
[patch.crates-io]
httlib-huffman = { path = "$repo/huffman" }
[workspace]
EOF
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet || exit 3
timeout 100 "$d/target/debug/demo"
'''
def sh(cmd, cwd): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        for s in g['SEEDS']: make(s)
def make(s):
    d = '/tmp/mkseed'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    sh('git checkout -q -- .', d)
    for f, old, new in s['edits']:
        t = open(os.path.join(d, f)).read()
        if t.count(old) != 1: print(s['id'], 'EDIT DOES NOT FIT', f, t.count(old), repr(old[:60])); return
        open(os.path.join(d, f), 'w').write(t.replace(old, new))
    out = os.path.join(ROOT, s['id'])
    os.makedirs(out, exist_ok=True)
    diff = subprocess.run(['git', 'diff'], cwd=d, stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    open(os.path.join(out, 'demo.rs'), 'w').write(s['demo'].strip() + '\n')
    open(os.path.join(out, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    t = sh('cargo test --workspace --offline -- --test-threads 8', d)
    tests = t.returncode == 0
    a = sh(os.path.join(out, 'demo.sh'), '/repo')
    b = sh(os.path.join(out, 'demo.sh'), d)
    ok = tests and a.returncode == 0 and b.returncode not in (0, 3)
    print(s['id'], 'OK' if ok else 'NOT GOOD', 'tests', tests, 'clean', a.returncode, 'patched', b.returncode, flush=True)
    if not tests: print('\n'.join(l for l in t.stdout.split('\n') if 'FAILED' in l or l.startswith('error['))[:300])
    if a.returncode: print(a.stdout[-500:])
    if b.returncode in (0, 3): print(b.stdout[-300:])
    if not ok: shutil.rmtree(out)
    shutil.rmtree(d, ignore_errors=True)
main()
