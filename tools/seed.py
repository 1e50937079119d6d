#!/usr/bin/env python3
"""Creates planted bugs (seeded/<id>) from seeds written as Python modules: seed.py FILE.py [id...]
Each module has SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, main=<rust program>, feats=''[, sh=<script>])].
--try: apply each to /repo, run demo (before/after) and the property's check, undo."""
import json, os, subprocess, sys, textwrap, importlib.util, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO = r'''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
set -eu
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
tmi = { path = "$R", default-features = false, features = [%(feats)s] }
%(deps)s
EOF
cp Cargo.lock "$T/Cargo.lock" 2>/dev/null || true
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${DEMO_TARGET:-$T/target} RUSTC_WRAPPER=
export RUSTFLAGS="-C target-cpu=x86-64%(flags)s --cap-lints allow"
cd "$T" && cargo run --offline --quiet
'''
KITDEMO = r'''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it against a stand-in server on the loopback network
set -eu
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D"/*.rs "$D"/*.pem "$T/src/"
gcc -shared -fPIC -o "$T/shim.so" "$D/shim.c" -ldl
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
tmi = { path = "$R" }
tokio = { version = "1.28.2", features = ["full"] }
tokio-rustls = "0.24.1"
tracing = "0.1.37"
EOF
cp Cargo.lock "$T/Cargo.lock" 2>/dev/null || true
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${DEMO_TARGET:-$T/target} RUSTC_WRAPPER=
export RUSTFLAGS="-C target-cpu=x86-64 -C target-feature=+avx2 --cap-lints allow"
cd "$T" && cargo build --offline --quiet
SSL_CERT_FILE="$T/src/ca.pem" LD_PRELOAD="$T/shim.so" timeout 60 "$CARGO_TARGET_DIR/debug/demo"
'''
KITMAIN = '''#![allow(unused)]
mod server;
use server::*;
use std::time::Duration;
use tmi::client::*;
use tmi::*;
'''
KIT = os.path.join(V, 'tools', 'seeds', 'kit')
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh('git', '-C', R, 'checkout', '--', '.')
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    spec = importlib.util.spec_from_file_location('seeds', args[0]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    for s in mod.SEEDS:
        if args[1:] and s['id'] not in args[1:]: continue
        clean()
        for f, old, new in s['edits']:
            p = os.path.join(R, f); t = open(p).read()
            assert t.count(old) >= 1, (s['id'], f, 'not found')
            assert t.count(old) == 1 or s.get('multi'), (s['id'], f, 'ambiguous', t.count(old))
            open(p, 'w').write(t.replace(old, new, 1))
        diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        clean()
        d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        if 'sh' in s:
            open(os.path.join(d, 'demo.sh'), 'w').write(s['sh'])
            for n, c in s.get('files', {}).items(): open(os.path.join(d, n), 'w').write(c)
        elif s.get('kit'):
            for n in os.listdir(KIT): shutil.copy(os.path.join(KIT, n), d)
            open(os.path.join(d, 'main.rs'), 'w').write(KITMAIN + textwrap.dedent(s['main']).lstrip())
            open(os.path.join(d, 'demo.sh'), 'w').write(KITDEMO)
        else:
            open(os.path.join(d, 'main.rs'), 'w').write(s.get('pre', '') + textwrap.dedent(s['main']).lstrip())
            fe = s.get('feats', 'message-types')
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'feats': ', '.join(f'"{x}"' for x in fe.split(',') if x), 'flags': s.get('flags', ' -C target-feature=+avx2'), 'deps': s.get('deps', '')})
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(s['id'], 'written')
        if '--try' in sys.argv:
            env = dict(os.environ, DEMO_TARGET='/tmp/demo-target')
            a = sh('bash', os.path.join(d, 'demo.sh'), cwd=R, env=env)
            try:
                x = sh('git', '-C', R, 'apply', os.path.join(d, 'patch.diff')); assert x.returncode == 0, x.stdout
                b = sh('bash', os.path.join(d, 'demo.sh'), cwd=R, env=env)
                c = sh(sys.executable, os.path.join(V, 'check.py'), s['prop'], cwd=V)
                t = None
                if '--tests' in sys.argv:
                    sh('bash', '/opt/vp/build.sh'); sh('bash', '/opt/vp/test.sh', '/tmp/seed-test.json')
                    t = json.load(open('/tmp/seed-test.json')); t = (len(t.get('passed', [])), t.get('failed'))
            finally: clean()
            print(f'   demo unchanged {a.returncode}, patched {b.returncode}; check rc {c.returncode}' + (f'; tests {t}' if t else ''))
            if a.returncode: print(textwrap.indent(a.stdout[-1500:], '   A| '))
            if b.returncode == 0 or 'panicked' not in b.stdout: print(textwrap.indent(b.stdout[-800:], '   B| '))
            print(textwrap.indent('\n'.join(c.stdout.splitlines()[:8]) if c.returncode else c.stdout[-1200:], '   C| '))
main()
