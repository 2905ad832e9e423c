"""dev tool: python3 seed.py [id...]: writes /verif/seeded/<id>/ from seeds_def.py and confirms each one in a scratch copy of /repo:
builds and passes the stable tests with the patch, demo passes without and fails with it"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import seeds_def
OUT = os.path.join(os.path.dirname(H), 'seeded')
FULLHEAD = '''
#[derive(Clone)]
struct NoHook;
impl Hook for NoHook {}
'''
DEMO = r'''#!/bin/bash
# cwd: the repository. Builds the demonstration in a scratch directory around the repository's own source.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTC_WRAPPER RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 1
trap 'rm -rf "$d"' EXIT
cp -r "$here/demo/." "$d/"
for f in Cargo.toml src/main.rs; do sed -i "s#@REPO@#$repo#g" "$d/$f"; done
cd "$d" && timeout 280 cargo run --offline -q
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[profile.dev]
debug = false
[dependencies]
base64 = { version = "0.22" }
crc32c = { version = "0.6" }
log = { version = "0.4" }
rand = { version = "0.10", features = ["thread_rng"] }
ring = { version = "0.17" }
thiserror = { version = "2" }
tokio = { version = "1", features = ["io-util", "rt", "macros"] }
'''
HEAD = '''#![allow(dead_code, unused_imports)]
#[path = "@REPO@/akasa-core/src/protocols/scram/mod.rs"]
mod scram;
#[path = "@REPO@/akasa-core/src/server/proxy.rs"]
mod proxy;
'''


def write(s):
    d = os.path.join(OUT, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'demo', 'src'))
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if s.get('full'):
        full = os.path.join(H, 'seed_full')
        shutil.copytree(full, os.path.join(d, 'demo'), dirs_exist_ok=True)
        shutil.copytree(os.path.join(os.path.dirname(H), 'stubs', 'mqtt-proto'), os.path.join(d, 'demo', 'mqtt-proto'),
                        ignore=shutil.ignore_patterns('target'))
        main = open(os.path.join(full, 'src', 'main.rs')).read().replace('/*DEMO*/', FULLHEAD + s['main'])
        open(os.path.join(d, 'demo', 'src', 'main.rs'), 'w').write(main)
    else:
        open(os.path.join(d, 'demo', 'Cargo.toml'), 'w').write(TOML)
        shutil.copyfile(os.path.join(H, 'seed_small.lock'), os.path.join(d, 'demo', 'Cargo.lock'))
        open(os.path.join(d, 'demo', 'src', 'main.rs'), 'w').write(HEAD + s['main'])
    w = '/tmp/seedw'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for p, o, n in s['edits']:
        f = os.path.join(w, p)
        t = open(f).read()
        assert t.count(o) == 1, (s['id'], p, o, t.count(o))
        open(f, 'w').write(t.replace(o, n))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    a = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=w, capture_output=True, text=True)
    ok = a.returncode == 0 and b.returncode != 0 and 'error[' not in b.stderr and 'could not compile' not in b.stderr
    print('%s %s clean=%d patched=%d %s' % ('ok' if ok else '!!', s['id'], a.returncode, b.returncode, ''), flush=True)
    if not ok:
        print(a.stdout[-800:], a.stderr[-2500:], '-----', b.stdout[-500:], b.stderr[-1500:])
    # the stable tests, with the patch in place in /repo for the time of the run
    if os.environ.get('NOTEST'):
        return
    try:
        subprocess.run(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')], check=True)
        r = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
        t = subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seed.json'], capture_output=True, text=True)
        res = [l for l in t.stdout.splitlines() if l.startswith('test result')]
        print('   build rc=%d %s' % (r.returncode, res[:1]), flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)


only = sys.argv[1:]
for s in seeds_def.SEEDS:
    if not only or s['id'] in only:
        write(s)
subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True)
