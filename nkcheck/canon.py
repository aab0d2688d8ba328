"""Names are not behaviour: private types, fields and functions that were merely renamed since the rules
were written are given the names the rules use, before anything is analysed.

The reference (baseline.json) lists, for the tree the rules were written against, the types with their
fields and the functions with their signature and a summary of their body.  A name of the reference that
no longer exists is matched with a name that did not exist then, in the same place and with the same
type (functions: signature and body summary).  Nothing else is taken from the reference; without a match
a missing name stays missing, and the rules anchored there fail."""
import json, os, re, sys, glob

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline.json')


def walk(x):
    if isinstance(x, list):
        for y in x:
            yield from walk(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from walk(y)
    elif isinstance(x, str):
        yield x


def places(x):
    """All places (lists that start with a local and go through projections)."""
    if isinstance(x, list):
        if x and isinstance(x[0], int) and any(y == '*' or (isinstance(y, list) and y and y[0] in ('f', 'v', 'i', 'k', 's')) for y in x[1:]):
            yield x
        for y in x:
            yield from places(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from places(y)


def aggs(x):
    if isinstance(x, list):
        if len(x) > 5 and x[0] == 'A' and x[1] == 'adt':
            yield x
        for y in x:
            yield from aggs(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from aggs(y)


def features(fn):
    """Summary of a body: what it calls and which constants it uses."""
    out = set()
    for s in walk(fn['b']):
        if '::' in s and not s.startswith('fndef:') and len(s) < 200 and '<' not in s[1:] and ' ' not in s:
            out.add(s)
    for pl in places(fn['b']):
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == 'f':
                out.add('.' + str(e[2]))
    return out


def sig(fn):
    return [fn['loc'][0][0]] + [fn['loc'][i][0] for i in range(1, fn['n'] + 1)]


def load(dumpdir):
    return {os.path.basename(f): open(f).read() for f in sorted(glob.glob(os.path.join(dumpdir, '*.json')))}


def make(dumpdir):
    fns, adts, fields = {}, {}, {}
    for nm, t in load(dumpdir).items():
        d = json.loads(t)
        for x in d['fns']:
            if x['k'] == 'fn' and d['crate'] != 'nakamoto_test':
                fns[x['p']] = {'f': x['f'], 's': sig(x), 'a': [x['loc'][i][2] for i in range(1, x['n'] + 1)], 'x': sorted(features(x))}
        for k, v in d['adts'].items():
            if k.startswith('nakamoto') and not k.startswith('nakamoto_test'):
                adts[k] = v
        for k, v in d['fields'].items():
            if not k.startswith('nakamoto_test'):
                fields[k] = v
    json.dump({'fns': fns, 'adts': adts, 'fields': fields}, open(BASE, 'w'), separators=(',', ':'), sort_keys=True)


def head(t):
    while True:
        m = re.match(r'&(?:mut )?|(?:alloc::boxed::Box|alloc::sync::Arc|alloc::rc::Rc)<', t)
        if not m:
            break
        t = t[m.end():]
    return re.split(r'[<,> ]', t, 1)[0]


def parent(p):
    d = 0
    for i in range(len(p) - 1, 0, -1):
        if p[i] in '>)]':
            d += 1 if not (p[i] == '>' and p[i - 1] == '-') else 0
        if p[i] in '<([':
            d -= 1
        if d == 0 and p[i - 1:i + 1] == '::':
            return p[:i - 1], p[i + 1:]
    return '', p


def canonical(dumpdir):
    """[parsed dumps] with renamed types, fields and functions given their old names; list of notes."""
    texts = load(dumpdir)
    notes = []
    if not os.path.exists(BASE):
        return [(n, json.loads(t)) for n, t in texts.items()], notes
    base = json.load(open(BASE))
    ds = {n: json.loads(t) for n, t in texts.items()}
    # types
    cur, curf = {}, {}
    for d in ds.values():
        cur.update({k: v for k, v in d['adts'].items() if k.startswith('nakamoto')})
        curf.update(d['fields'])
    gone = [k for k in base['adts'] if k not in cur and k in base['fields']]
    new = [k for k in cur if k not in base['adts'] and k in curf]
    ren = {}
    shape = lambda fs, k: [(x[1] if not x[1].isdigit() else '', x[2].replace(k, '@')) for x in fs]
    for k in gone:
        c = [n for n in new if parent(n)[0] == parent(k)[0] and n not in ren and cur[n][0] == base['adts'][k][0] and
             (shape(curf[n], n) == shape(base['fields'][k], k) or
              (len(curf[n]) == len(base['fields'][k]) > 1 and [x[1] for x in curf[n]] == [x[1] for x in base['fields'][k]]))]
        if len(c) == 1:
            ren[c[0]] = k
    if ren:
        for n in texts:
            for a, b in ren.items():
                texts[n] = re.sub(re.escape(a) + r'(?!\w)', b, texts[n])
                sa, sb = parent(a)[1], parent(b)[1]
                texts[n] = texts[n].replace('"%s"' % sa, '"%s"' % sb)
        ds = {n: json.loads(t) for n, t in texts.items()}
        notes += ['type %s is now called %s' % (b, a) for a, b in ren.items()]
        curf = {}
        for d in ds.values():
            curf.update(d['fields'])
    # fields
    fren = {}
    for k, bf in base['fields'].items():
        cf = curf.get(k)
        if not cf:
            continue
        bn = {(x[0], x[1]) for x in bf}
        cn = {(x[0], x[1]) for x in cf}
        lost = [(i, x) for i, x in enumerate(bf) if (x[0], x[1]) not in cn]
        add = [(i, x) for i, x in enumerate(cf) if (x[0], x[1]) not in bn]
        for i, x in lost:
            c = [(j, y) for j, y in add if y[0] == x[0] and y[2] == x[2] and (k, y[0], y[1]) not in fren]
            if len(c) > 1:
                c = [(j, y) for j, y in c if j == i] if len(bf) == len(cf) else []
            if len(c) == 1 and sum(1 for _, z in lost if z[0] == x[0] and z[2] == x[2]) <= (1 if len(bf) != len(cf) else 99):
                fren[(k, x[0], c[0][1][1])] = x[1]
    if fren:
        notes += ['field %s of %s is now called %s' % (o, k, n) for (k, v, n), o in fren.items()]
        known = {x[1] for f in base['fields'].values() for x in f} | {n for a in base['adts'].values() for v in a[1:] for n in v[2]}
        by = {}
        for (k, v, n), o in fren.items():
            by.setdefault(n, {})[k] = o
        ftype = {(k, x[1]): x[2] for k, fs in curf.items() for x in fs}
        for d in ds.values():
            for k in list(d['fields']):
                for x in d['fields'][k]:
                    x[1] = fren.get((k, x[0], x[1]), x[1])
            for k, a in d['adts'].items():
                for v in a[1:]:
                    v[2] = [fren.get((k, v[0], n), n) for n in v[2]]
            for x in d['fns']:
                for g in aggs(x['b']):
                    g[4] = [fren.get((g[2], g[3], n), n) for n in g[4]]
                for pl in places(x['b']):
                    t = x['loc'][pl[0]][0] if pl[0] < len(x['loc']) else ''
                    for e in pl[1:]:
                        if e == '*':
                            continue
                        if e[0] == 'f':
                            n = e[2]
                            h = head(t) if t else ''
                            if n in by:
                                if h in by[n]:
                                    e[2] = by[n][h]
                                elif (not h or h not in curf) and n not in known and len(set(by[n].values())) == 1:
                                    e[2] = next(iter(by[n].values()))
                            t = ftype.get((h, n), '')
                        elif e[0] in ('i', 'k'):
                            m = re.match(r'(?:&(?:mut )?)*(?:\[|alloc::vec::Vec<)([\w:]+)', t or '')
                            t = m.group(1) if m else ''
    # functions
    F = {}
    for d in ds.values():
        if d['crate'] == 'nakamoto_test':
            continue
        for x in d['fns']:
            if x['k'] == 'fn':
                F.setdefault(x['p'], x)
    B = base['fns']
    gone = [p for p in B if p not in F]
    new = [p for p in F if p not in B]
    cand = []
    for b in gone:
        fb = set(B[b]['x'])
        for n in new:
            if F[n]['f'] != B[b]['f'] and parent(n)[0] != parent(b)[0]:
                continue
            if n.startswith('<') or b.startswith('<'):
                continue
            fn_ = features(F[n])
            drop = set(gone) | set(new)
            x, y = fb - drop, fn_ - drop
            sim = len(x & y) / max(1, len(x | y)) if (x or y) else 1.0
            same = sig(F[n]) == B[b]['s']
            home = parent(n)[0] == parent(b)[0]
            sc = sim + (0.5 if same else 0) + (0.2 if home else 0)
            if (same and home and sim >= 0.3) or sim >= 0.6:
                cand.append((sc, b, n))
    cand.sort(reverse=True)
    mp = {}
    for sc, b, n in cand:
        if b not in mp.values() and n not in mp:
            mp[n] = b
    if mp:
        notes += ['function %s is now called %s' % (b, n) for n, b in mp.items()]
        pre = tuple(n + '::{' for n in mp)

        def sub(x):
            if isinstance(x, list):
                for i, y in enumerate(x):
                    if isinstance(y, str):
                        x[i] = name(y)
                    else:
                        sub(y)
            elif isinstance(x, dict):
                for k, y in x.items():
                    if isinstance(y, str):
                        x[k] = name(y)
                    else:
                        sub(y)

        def name(s):
            if s in mp:
                return mp[s]
            if s.startswith('fndef:') and s[6:] in mp:
                return 'fndef:' + mp[s[6:]]
            if s.startswith(pre):
                for n, b in mp.items():
                    if s.startswith(n + '::{'):
                        return b + s[len(n):]
            return s
        for d in ds.values():
            for x in d['fns']:
                x['p'] = name(x['p'])
                sub(x['b'])
                if 'loc' in x:
                    for l in x['loc']:
                        for n, b in mp.items():
                            if n in l[0]:
                                l[0] = l[0].replace(n + '::{', b + '::{')
            for k in list(d['consts']):
                if name(k) != k:
                    d['consts'][name(k)] = d['consts'].pop(k)
    # parameters: given in the order the rules know
    for d in ds.values():
        for x in d['fns']:
            b = B.get(x['p'])
            if b and x['k'] == 'fn':
                now = [x['loc'][i][2] for i in range(1, x['n'] + 1)]
                old = b['a']
                if now != old and len(now) == len(old) and sorted(map(str, now)) != sorted(map(str, old)) and sig(x) == b['s']:
                    continue  # renamed parameters
                if now != old and (sig(x) != b['s']):
                    x['perm'] = [old.index(n) if n in old and n is not None else None for n in now]
                    x['nold'] = len(old)
    return [(n, ds[n]) for n in ds], notes


if __name__ == '__main__':
    make(sys.argv[1])
    print(os.path.getsize(BASE))
