#!/usr/bin/env python3
"""Fills the generated blocks of DESIGN.md and writes RULES.md (from the evidence of the last `main.py all`)."""
import sys, os, re, json, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'nkcheck'))
doc = {}
for f in sorted(glob.glob(V + '/nkcheck/specs/[a-z]*.py')):
    m = importlib.import_module('specs.' + os.path.basename(f)[:-3])
    for n in dir(m):
        if re.fullmatch(r'[A-Z]\d\d', n):
            doc[n] = ' '.join((getattr(m, n).__doc__ or '').split())
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
T = ['| id | property | decided by | anchored in | rules / functions / sites |', '|---|---|---|---|---|']
R = ['# Rules', '', 'Generated by dev/design.py from the evidence of a run on the unchanged tree.', '']
for p in P:
    i = p['id']
    if i in na:
        continue
    e = json.load(open('%s/evidence/%s.json' % (V, i)))['coverage']
    T.append('| %s | %s | %s | %s | %d / %d / %d |' % (i, p['title'], doc.get(i, ''), ', '.join(p['anchors']['files']), e['rules'], e['functions'], e['sites']))
    R += ['## %s %s' % (i, p['title']), '', p['statement'], '']
    seen = set()
    for o in e['obligations']:
        k = (o['rule'], o['why'])
        if k not in seen:
            seen.add(k)
            R.append('* `%s` %s (%d)' % (o['rule'], o['why'], o['sites']))
    R.append('')
open(V + '/RULES.md', 'w').write('\n'.join(R))
kf = json.load(open(V + '/known_findings.json'))
fixed = ['* %s' % re.sub(r'^fixed: property=(\S+) (\S+) ', r'**\1** (`\2`) ', x) for x in kf['fixed']]
N = ['* **%s %s** — %s' % (p['id'], p['title'], na[p['id']]) for p in P if p['id'] in na] or ['(none)']
res = open(V + '/dev/results.md').read().strip() if os.path.exists(V + '/dev/results.md') else ''
s = open(V + '/DESIGN.md').read()
for k, v in (('TABLE', T), ('NA', N), ('FIXED', fixed), ('RESULTS', [res])):
    b = '<!-- %s -->\n%s\n<!-- /%s -->' % (k, '\n'.join(v), k)
    s = s.replace('@@%s@@' % k, b)
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (k, k), lambda _: b, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
