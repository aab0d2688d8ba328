#!/usr/bin/env python3
"""Development tool: write and confirm the planted bugs defined in dev/seeds/*.py.
usage: seed.py [name-regex] [--norun]
Each seed: dict(id, prop, file, edits=[(old,new)..] (or [(file,old,new)]), host (source file the demo test module is
appended to), crate, demo (body of the test module), needs, breaks).
Confirms in a scratch copy: builds, stable tests pass, demo fails with the change and passes without."""
import sys, os, re, json, subprocess, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []
for f in sorted(glob.glob(V + '/dev/seeds/*.py')):
    ns = {}
    exec(open(f).read(), ns)
    S += ns['S']
args = [a for a in sys.argv[1:] if not a.startswith('--')]
if args:
    S = [s for s in S if re.search(args[0], s['id'])]
W = '/tmp/seedw'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='1.73', RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
# Runs a test module against a scratch copy of the working tree in the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=1.73 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/r"
tar -C "$repo" --exclude=./target --exclude=./.git -cf - . | tar -C "$d/r" -xf -
cat "$here/demo.rs" >> "$d/r/%(host)s"
cd "$d/r"
export TMPDIR="$d"
CARGO_TARGET_DIR="$repo/target" timeout 280 cargo test --offline --locked -p %(crate)s --lib seeded_demo 2>&1 | tee "$d/log"
grep -q 'test result: ok. [1-9]' "$d/log"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)


def write(s):
    d = '%s/seeded/%s' % (V, s['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.rs', 'w').write('\n#[cfg(test)]\nmod seeded_demo {\n' + s['demo'].strip('\n') + '\n}\n')
    open(d + '/demo.sh', 'w').write(DEMO % s)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    sh('git -C %s/repo checkout -q -- . && git -C %s/repo fetch -q /repo HEAD && git -C %s/repo checkout -q FETCH_HEAD' % (W, W, W))
    for e in s['edits']:
        f, o, n = e if len(e) == 3 else (s['file'],) + tuple(e)
        p = W + '/repo/' + f
        t = open(p).read()
        assert t.count(o) == 1, (s['id'], f, t.count(o), o)
        open(p, 'w').write(t.replace(o, n, 1))
    diff = subprocess.run('git -C %s/repo diff' % W, shell=True, stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    return d


def main():
    if not os.path.exists(W + '/repo'):
        os.makedirs(W)
        subprocess.run(['cp', '-a', '/repo', W + '/repo'], check=True)
    for s in S:
        d = write(s)
        if '--norun' in sys.argv:
            continue
        r = sh('cd %s/repo && cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 > /tmp/seedw/log 2>&1; python3 /opt/vp/results.py /tmp/seedw/o.json cargo:/tmp/seedw/log' % W)
        o = json.load(open('/tmp/seedw/o.json'))
        ps = set(o.get('passed', []))
        base = BASE.get('stable') or BASE.get('passed') or BASE
        lost = [t for t in base if t not in ps] if isinstance(base, list) else []
        r1 = sh('cd %s/repo && bash %s/demo.sh' % (W, d))
        sh('git -C %s/repo checkout -q -- .' % W)
        r0 = sh('cd %s/repo && bash %s/demo.sh' % (W, d))
        ok = not lost and r1.returncode != 0 and r0.returncode == 0 and 'could not compile' not in r1.stdout
        print('%-28s %s tests-lost=%d demo-with=%d demo-without=%d' % (s['id'], 'OK' if ok else 'BAD', len(lost), r1.returncode, r0.returncode), flush=True)
        if not ok:
            print(lost[:5], r1.stdout[-2500:] if 'could not compile' in r1.stdout or r1.returncode == 0 else '', r0.stdout[-2500:] if r0.returncode else '')
    sh("rm -rf %s/repo/target/debug/incremental" % W)


main()
