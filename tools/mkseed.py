#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description and confirms it in a scratch copy of /repo.
usage: mkseed.py FILE.py   (FILE defines id, prop, needs, breaks, edits=[(path, old, new)], main=rust source)"""
import json, os, shutil, subprocess, sys, tempfile
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
knuffel = { path = "$repo", features = [%(feats)s] }
miette = "5.1.1"
%(deps)s
[workspace]
EOF
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cd "$d" && timeout 280 cargo run -q --offline
'''
def sh(cmd, cwd=None): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for f in sys.argv[1:]:
    g = {'feats': '', 'deps': ''}
    exec(open(f).read(), g)
    d = '/verif/seeded/' + g['id']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/main.rs', 'w').write(g['main'])
    open(d + '/demo.sh', 'w').write(DEMO % g)
    json.dump(dict(property=g['prop'], needs=g['needs'], what_it_breaks=g['breaks']), open(d + '/meta.json', 'w'), indent=1)
    t = '/tmp/seedcopy'
    if os.path.exists(t):
        sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', t)
    else:
        sh('git clone -q /repo %s && cp -a /repo/target %s/target && cp /opt/vp/Cargo.lock %s/' % (t, t, t))
    for p, a, b in g['edits']:
        s = open(t + '/' + p).read()
        assert s.count(a) == 1, (g['id'], p, a, s.count(a))
        open(t + '/' + p, 'w').write(s.replace(a, b))
    open(d + '/patch.diff', 'w').write(sh('git diff', t).stdout)
    r = sh('export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=%s/target; cargo test --workspace --all-features --no-fail-fast --offline 2>&1 | grep -E "^test |^error" ' % t, t).stdout
    bad = [l for l in r.split('\n') if 'FAILED' in l or l.startswith('error')]
    n = len([l for l in r.split('\n') if l.endswith('... ok')])
    x = sh('bash %s/demo.sh' % d, t)
    y = sh('bash %s/demo.sh' % d, '/repo')
    ok = not bad and n >= 93 and x.returncode != 0 and y.returncode == 0
    print(g['id'], 'OK' if ok else 'BAD', 'tests', n, bad[:3], 'demo patched', x.returncode, 'demo clean', y.returncode)
    if not ok: print(x.stdout[-1500:], y.stdout[-1500:])
    sh('git checkout -q -- .', t)
