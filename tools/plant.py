#!/usr/bin/env python3
"""plant.py ID PROPERTY < spec: keep a planted bug after confirming it.
spec: '%% needs' text, '%% breaks' text, '%% patch' sections "@@ file" OLD ==== NEW (#### between), '%% demo' Rust source."""
import os, re, subprocess, sys, json, shutil, tempfile
pid, prop = sys.argv[1:3]
sec = {}
for s in ('\n' + sys.stdin.read()).split('\n%% ')[1:]:
    n, b = s.split('\n', 1)
    sec[n.strip()] = b.strip('\n')
out = '/verif/seeded/' + pid
w = tempfile.mkdtemp(prefix='plant')
r = w + '/repo'
subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
f = None
for part in sec['patch'].split('\n####\n'):
    part = part.lstrip('\n')
    if part.startswith('@@ '):
        l, part = part.split('\n', 1)
        f = r + '/' + l[3:].strip()
    old, new = part.split('\n====\n') if '\n====\n' in part else (part.split('\n====')[0], '')
    old, new = old.strip('\n'), new.strip('\n')
    s = open(f).read()
    assert s.count(old) == 1, (s.count(old), old)
    open(f, 'w').write(s.replace(old, new, 1))
patch = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True, check=True).stdout
shutil.rmtree(w)
os.makedirs(out, exist_ok=True)
open(out + '/patch.diff', 'w').write(patch)
open(out + '/demo.rs', 'w').write(sec['demo'] + '\n')
json.dump({"property": prop, "needs": sec['needs'], "what_it_breaks": sec['breaks']}, open(out + '/meta.json', 'w'), indent=1)
open(out + '/demo.sh', 'w').write(r'''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/tmp"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/" 2>/dev/null || cp /opt/vp/Cargo.lock "$w/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
sevenz-rust = { path = "$repo", features = ["compress", "aes256", "bzip2", "zstd"] }
lzma-rust = { path = "$repo/lzma-rust" }
[profile.dev]
debug = false
[workspace]
T
export REPO="$repo" TMPDIR="$w/tmp" CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
cd "$w" && cargo build -q --offline 2>"$w/log" || { tail -40 "$w/log"; exit 3; }
timeout 200 "$w/target/debug/demo"
''')
os.chmod(out + '/demo.sh', 0o755)
def sh(c, **k):
    return subprocess.run(c, shell=True, cwd='/repo', capture_output=True, text=True, **k)
assert not sh('git status --porcelain').stdout.strip(), 'repo dirty'
a = sh('bash %s/demo.sh' % out)
print('clean demo', a.returncode, (a.stdout + a.stderr)[-300:])
try:
    x = sh('git apply %s/patch.diff' % out); assert x.returncode == 0, x.stderr
    b = sh('bash /opt/vp/build.sh')
    if b.returncode: print('BUILD FAILS', b.stderr[-1500:])
    d = sh('bash %s/demo.sh' % out)
    print('patched demo', d.returncode, (d.stdout + d.stderr)[-300:])
    sh('bash /opt/vp/test.sh /tmp/plant.json')
    j = json.load(open('/tmp/plant.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or [v for v in base.values() if isinstance(v, list)][0]
    print('tests broken:', [t for t in stable if t not in j.get('passed', [])])
    for c in sys.argv[3:] or [prop]:
        if os.path.exists('/verif/checks/%s.py' % c.lower()):
            e = dict(os.environ, SA_EVID=tempfile.gettempdir())
            k = subprocess.run(['python3', '/verif/check.py', c], capture_output=True, text=True, env=e)
            print(c, k.returncode, k.stdout[:500])
finally:
    sh('git checkout -- .')
    sh('bash /opt/vp/build.sh')
