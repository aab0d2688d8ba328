#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'nkcheck'))
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, na=None):
    assert len(title) <= 80, (pid, len(title))
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
    if na:
        NA.append({'property': pid, 'reason': na})
    else:
        CHECKS.append((pid, technique, note))


CHECKS = []
DF = 'interprocedural predicate-sensitive dataflow over type-checked MIR'
exec(open(os.path.join(V, 'nkcheck', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'cd /verif && python3 nkcheck/main.py --setup',
    'checks': [{
        'property': pid,
        'quick_cmd': 'cd /verif && python3 nkcheck/main.py %s --tier quick' % pid,
        'thorough_cmd': 'cd /verif && python3 nkcheck/main.py %s --tier thorough' % pid,
        'technique': t, 'level': 'other', 'level_note': n} for pid, t, n in CHECKS],
    'not_applicable': NA,
    'notes': 'Static analysis only: /repo is type-checked by a rustc driver (driver/) that dumps MIR; nkcheck/ decides '
             'every property from that dump. Nothing of /repo is executed.',
}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(CHECKS), 'checks,', len(NA), 'n/a')
