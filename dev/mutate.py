#!/usr/bin/env python3
"""Development tool: run checks against textual changes of a scratch copy of /repo.
usage: mutate.py FILE.py [filter]   (FILE.py defines M: list of (name, file, old, new, props|'ok'))
Bugs must be reported by one of their properties, 'ok' refactorings by none."""
import sys, os, subprocess, shutil, re, concurrent.futures as cf, threading, queue
W = int(os.environ.get('MW_W', 6))
ROOT = os.environ.get('MW', '/tmp/mw')
# NK_SAME speeds up refactorings: checks none of whose functions changed are left out
import glob
shutil.rmtree(ROOT + '-base', ignore_errors=True)
shutil.copytree(max(glob.glob('/verif/.cache/dump-*'), key=os.path.getmtime), ROOT + '-base')
ns = {}
exec(open(sys.argv[1]).read(), ns)
M = [m for m in ns['M'] if len(sys.argv) < 3 or re.search(sys.argv[2], m[0])]
slots = queue.Queue()


def slot(i):
    d = '%s/%d' % (ROOT, i)
    if not os.path.exists(d + '/cache/driver'):
        os.makedirs(d, exist_ok=True)
        subprocess.run(['cp', '-a', '/verif/.cache', d + '/cache'], check=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', d + '/repo/'], check=True) if shutil.which('rsync') else (
        shutil.rmtree(d + '/repo', ignore_errors=True), shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('target', '.git')))
    return d


def one(m):
    name, f, old, new, props = m
    i = slots.get()
    try:
        d = slot(i)
        edits = [(f, old, new)] if isinstance(old, str) else [(f, o, n) for o, n in zip(old, new)]
        for f_, o, n in edits:
            p = d + '/repo/' + f_
            s = open(p).read()
            if o.startswith('re:'):
                s2 = re.sub(o[3:], n, s)
            else:
                s2 = s.replace(o, n, 1)
            if s2 == s:
                return name, 'NOANCHOR', o[:60]
            open(p, 'w').write(s2)
        env = dict(os.environ, NK_REPO=d + '/repo', NK_CACHE=d + '/cache', NK_EVIDENCE=d + '/ev')
        if os.path.isdir(ROOT + '-base'):
            env['NK_SAME'] = ROOT + '-base'
        out = []
        if not (props == 'ok' or props == '?'):
            env.pop('NK_SAME', None)
        ids = ['all'] if props == 'ok' or props == '?' else props.split(',')
        for pid in ids:
            r = subprocess.run([sys.executable, '/verif/nkcheck/main.py', pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append((pid, r.returncode, r.stdout))
        if any("does not type-check" in o for _, _, o in out):
            return name, "NOCOMPILE", out[0][2][-800:]
        hit = [p for p, rc, o in out if 'VIOLATION property' in o]
        err = [p for p, rc, o in out if rc not in (0, 1) or 'Traceback' in o]
        if err:
            return name, 'ERROR', out[0][2][-1500:]
        if props == 'ok':
            v = re.findall(r'VIOLATION property=(\w+)', out[0][2])
            return name, 'ok' if not v else 'FALSE-ALARM ' + ','.join(v), '' if not v else '\n'.join(l[:260] for l in out[0][2].splitlines() if l.startswith('  ') and not l.startswith('   '))[:2500]
        if props == '?':
            return name, 'hits ' + ','.join(re.findall(r'VIOLATION property=(\w+)', out[0][2])), ''
        rules = sorted(set(re.findall(r'^  \[([\w\-.]+)\]', '\n'.join(o for _, _, o in out), re.M)))
        return name, ('caught ' + ','.join(hit) + ' ' + ' '.join(rules)[:120]) if hit else 'MISSED', ''
    finally:
        slots.put(i)


for i in range(W):
    slots.put(i)
bad = 0
with cf.ThreadPoolExecutor(W) as ex:
    for r in ex.map(one, M):
        print('%-34s %s' % r[:2], flush=True)
        if r[2]:
            print(r[2])
        if r[1].split()[0] in ('MISSED', 'ERROR', 'NOANCHOR', 'FALSE-ALARM'):
            bad += 1
print(len(M), 'mutations,', bad, 'to look at')
