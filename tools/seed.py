#!/usr/bin/env python3
"""Plant one change: seed.py SPEC.py.  The spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new), ...], MAIN (rust source of
the demonstration), DEPS (Cargo.toml dependency lines; REPO stands for the repository).  Works in /tmp/scratch, a copy of /repo."""
import json, os, subprocess, sys

S = '/tmp/scratch'
ENVV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
            CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CI='true')
DEMO = '''#!/bin/bash
# builds main.rs against the repository in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d /tmp/hopdemo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
%s
EOF
@SH@cd "$w"
export CARGO_TARGET_DIR=${HOPDEMO_TARGET:-$w/target}
cargo build --offline -q
exec timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''


def sh(cmd, cwd=S, env=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENVV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def sync():
    if not os.path.isdir(S):
        subprocess.run(['cp', '-a', '/repo', S])
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')


def passed():
    base = json.load(open('/opt/vp/BASELINE.json'))
    env = dict(ENVV, CARGO_TARGET_DIR=S + '/target')
    r = sh('cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 > /tmp/seedtest.log 2>&1; python3 /opt/vp/results.py /tmp/seedtest.json cargo:/tmp/seedtest.log', env=env)
    j = json.load(open('/tmp/seedtest.json'))
    return base, j


def names(j):
    for k in ('passed', 'pass', 'stable', 'tests'):
        if isinstance(j, dict) and k in j:
            return set(j[k])
    return set(j) if isinstance(j, list) else {k for k, v in j.items() if v in ('pass', 'passed', True)}


def demo(d):
    env = dict(ENVV, HOPDEMO_TARGET='/tmp/demotarget')
    r = sh('bash %s/demo.sh' % d, env=env, timeout=400)
    return r.returncode, r.stdout[-700:]


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    d = '/verif/seeded/' + g['ID']
    os.makedirs(d, exist_ok=True)
    sync()
    deps = g.get('DEPS', 'hop-engine = { path = "REPO/engine" }').replace('REPO', '$repo')
    open(d + '/demo.sh', 'w').write((DEMO % deps).replace('@SH@', g.get('SH', '')))
    open(d + '/main.rs', 'w').write(g['MAIN'])
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    rc, out = demo(d)
    if rc != 0:
        print(g['ID'], 'DEMO FAILS ON CLEAN', out)
        return 1
    for f, old, new in g['EDITS']:
        s = open(S + '/' + f).read()
        n = s.count(old)
        if n < 1 or n > 1 and not g.get('FIRST'):
            print(g['ID'], 'EDIT does not apply', f, n, old[:80])
            return 1
        open(S + '/' + f, 'w').write(s.replace(old, new, 1))
    diff = subprocess.run('git diff', shell=True, cwd=S, stdout=subprocess.PIPE, text=True).stdout
    base, j = passed()
    miss = names(base) - names(j)
    rc, out = demo(d)
    print(g['ID'], g['PROP'], 'missing tests:', sorted(miss)[:5], len(names(base)), 'demo rc', rc, '' if rc else 'DEMO PASSES WITH THE BUG', out[-200:].replace('\n', ' | '))
    ok = not miss and rc != 0 and len(names(base)) > 100
    if not ok:
        print(open('/tmp/seedtest.log').read()[-1500:])
    if ok:
        open(d + '/patch.diff', 'w').write(diff)
    sh('git checkout -q -- .')
    return 0 if ok else 1


if __name__ == '__main__':
    rc = 0
    for a in sys.argv[1:]:
        rc |= main(a)
    sys.exit(rc)
