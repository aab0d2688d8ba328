#!/usr/bin/env python3
"""nkcheck <PROPERTY> [--tier quick|thorough] : decide one property on /repo's current source."""
import sys, os, json, time, hashlib, subprocess, importlib, glob, fcntl, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
os.environ.setdefault('HOME', '/root')
os.environ['PATH'] = '/root/.cargo/bin:' + os.environ.get('PATH', '/usr/local/bin:/usr/bin:/bin')
REPO = os.environ.get('NK_REPO', '/repo')
CACHE = os.environ.get('NK_CACHE', os.path.join(VERIF, '.cache'))
EVID = os.environ.get('NK_EVIDENCE', os.path.join(VERIF, 'evidence'))
DRIVER = os.path.join(CACHE, 'driver', 'release', 'nkdump')


def sh(cmd, env=None, cwd=None):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock', '.json', '.hex', '.sql')) or f.startswith('rust-toolchain'):
                files.append(os.path.join(root, f))
    for f in files + sorted(glob.glob(os.path.join(VERIF, 'driver', 'src', '*.rs'))):
        h.update(os.path.relpath(f, '/').encode() + b'\0')
        try:
            h.update(open(f, 'rb').read())
        except OSError:
            pass
        h.update(b'\0')
    return h.hexdigest()[:24]


def build_driver():
    src = os.path.join(VERIF, 'driver', 'src', 'main.rs')
    stamp = os.path.join(CACHE, 'driver', 'stamp')
    want = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(CACHE, 'driver'))
    for k in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(k, None)
    r = sh(['cargo', '+nightly', 'build', '--release', '--offline'], env=env, cwd=os.path.join(VERIF, 'driver'))
    if r.returncode != 0:
        print(r.stdout[-4000:])
        raise SystemExit('nkcheck: cannot build the extraction driver')
    open(stamp, 'w').write(want)


def toolchain17():
    t = '1.73'
    try:
        import re
        s = open('/opt/vp/build.sh').read()
        m = re.search(r'cargo \+([\w.\-]+)', s) or re.search(r'RUSTUP_TOOLCHAIN=([\w.\-]+)', s)
        if m:
            t = m.group(1)
    except OSError:
        pass
    return t


def dump():
    """Type-check /repo with the extraction driver; returns the directory with the IR of every workspace crate."""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    h = tree_hash()
    out = os.path.join(CACHE, 'dump-' + h)
    if os.path.exists(os.path.join(out, 'DONE')):
        return out
    build_driver()
    for d in glob.glob(os.path.join(CACHE, 'dump-*')):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(out)
    tgt = os.path.join(CACHE, 'tgt')
    nightly = sh(['rustup', 'which', '--toolchain', 'nightly', 'rustc']).stdout.strip()
    sysroot = sh([nightly, '--print', 'sysroot']).stdout.strip()
    for d in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', 'nakamoto*')):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, NKDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=DRIVER, RUSTC=nightly,
               RUSTFLAGS='-Zallow-features= --cap-lints=allow', CARGO_TARGET_DIR=tgt,
               LD_LIBRARY_PATH=sysroot + '/lib')
    for k in ('RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_INCREMENTAL', 'RUSTUP_TOOLCHAIN'):
        env.pop(k, None)
    r = sh(['cargo', '+' + toolchain17(), 'check', '--workspace', '--offline', '--locked'], env=env, cwd=REPO)
    n = len(glob.glob(os.path.join(out, '*.json')))
    if r.returncode != 0 or n < 12:
        print(r.stdout[-4000:])
        shutil.rmtree(out, ignore_errors=True)
        raise SystemExit('nkcheck: the source does not type-check (%d crates extracted)' % n)
    open(os.path.join(out, 'DONE'), 'w').write(str(n))
    return out


def specs():
    """property id -> (module, function)"""
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'specs', '*.py'))):
        m = importlib.import_module('specs.' + os.path.basename(f)[:-3])
        for k in dir(m):
            if len(k) in (3, 4) and k[0].isupper() and k[1:].isdigit():
                out[k] = (m, getattr(m, k))
    return out


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def check(pid, fn, prog, tier):
    from ck import Ck
    t0 = time.time()
    c = Ck(prog, pid, tier)
    c.guard('rules', lambda: fn(c))
    return c, time.time() - t0


def changed(prog, todo):
    """Development: leave out checks whose functions are the same as in the dump NK_SAME."""
    from engine import Prog
    base = Prog(os.environ['NK_SAME'])

    def norm(x):
        if isinstance(x, list):
            if x and x[0] in ('=', 'c', 'a', 'd', 's', 'x'):
                return [norm(y) for y in x if not (isinstance(y, int) and y > 20)]
            return [norm(y) for y in x]
        if isinstance(x, dict):
            return {k: norm(v) for k, v in x.items()}
        return x
    diff = {k for k in set(base.F) | set(prog.F) if (k in base.F) != (k in prog.F) or
            json.dumps(norm(base.F[k]['b'])) != json.dumps(norm(prog.F[k]['b'])) or base.F[k]['loc'] != prog.F[k]['loc']}
    out = []
    for pid in todo:
        try:
            fns = set(json.load(open(os.path.join(VERIF, 'evidence', pid + '.json')))['coverage']['functions_analysed'])
        except Exception:
            fns = None
        if fns is None or pid[0] == 'M' or fns & diff:
            out.append(pid)
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
        args = [a for a in args if a != tier]
    if '--setup' in sys.argv:
        dump()
        print('setup done')
        return 0
    t0 = time.time()
    d = dump()
    from engine import Prog
    prog = Prog(d)
    sp = specs()
    todo = sorted(sp) if args == ['all'] else args
    rc = 0
    kf = known()
    if os.environ.get('NK_SAME'):
        todo = changed(prog, todo)
    for pid in todo:
        c, dt = check(pid, sp[pid][1], prog, tier)
        if len(todo) == 1:
            dt = time.time() - t0
        vio = []
        seen_known = []
        for v in c.viol:
            hit = None
            for k in kf['findings']:
                if k['property'] == pid and k['rule'] == v['rule'] and k.get('where', '') in v['where'] and k.get('what', '') in v['what']:
                    hit = k
            if hit:
                if hit not in seen_known:
                    seen_known.append(hit)
            else:
                vio.append(v)
        ev = {
            'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
            'coverage': {
                'explanation': 'static analysis of the type-checked MIR of /repo (%d crates, %d bodies): %s' % (
                    len(prog.crates), len(prog.F), (sp[pid][1].__doc__ or '').strip()),
                'rules': len(c.rules), 'obligations': [r for r in c.rules],
                'functions_analysed': sorted(c.fns), 'functions': len(c.fns), 'dataflow_steps': c.steps,
                'analysis_runs': c.nruns, 'sites': c.sites,
            },
            'renamed_since_baseline': prog.renamed,
            'assumptions': getattr(sp[pid][0], 'ASSUMPTIONS', []),
            'wall_s': round(dt, 3), 'violations': len(vio),
        }
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
        print('%s: %d rules, %d functions, %d sites, %d dataflow steps, %.1fs' % (
            pid, len(c.rules), len(c.fns), c.sites, c.steps, dt))
        for k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
        if not c.rules:
            vio.append({'rule': '-', 'where': '-', 'what': 'no rule was evaluated'})
        if vio:
            rp = os.path.join(EVID, pid + '.violation.txt')
            with open(rp, 'w') as f:
                for v in vio:
                    f.write('[%s] %s\n    %s\n' % (v['rule'], v['where'], v['what']))
            for v in vio[:12]:
                print('  [%s] %s\n      %s' % (v['rule'], v['where'], v['what']))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            rc = 1
    return rc


if __name__ == '__main__':
    sys.exit(main())
