"""Rule library: obligations over analysis runs, with fail-closed anchors."""
import re, json, os, time
from engine import Prog, Run, Budget
from terms import *


def _rx(r):
    if r is None:
        return lambda s: True
    if callable(r):
        return r
    c = re.compile(r, re.S)
    return lambda t: c.fullmatch(str(t)) is not None


def call(name, *args, pred=None, kind='call'):
    """Predicate on call events: callee (last two path segments), then each argument's value."""
    nm = re.compile(name)
    ms = [_rx(a) for a in args]

    def f(e):
        if e.kind != kind:
            return False
        if not (nm.fullmatch(e.short) or (e.res and nm.fullmatch(short(e.res))) or nm.fullmatch(e.name)):
            return False
        if len(e.args) < len(ms):
            return False
        for m, a in zip(ms, e.args):
            if not m(a):
                return False
        return pred(e) if pred else True
    return f


def at(name, i, loc, *args):
    """Call event whose i-th argument *location* matches."""
    b = call(name, *args)
    m = _rx(loc)
    return lambda e: b(e) and len(e.locs) > i and m(e.locs[i])


def write(loc, val=None):
    ml, mv = _rx(loc), _rx(val)
    return lambda e: e.kind == 'write' and ml(e.args[0]) and mv(e.args[1])


def panic(name='.*', *args):
    nm = re.compile(name)
    ms = [_rx(a) for a in args]

    def f(e):
        return e.kind == 'panic' and nm.search(e.name) is not None and \
            len(e.args) >= len(ms) and all(m(a) for m, a in zip(ms, e.args))
    return f


def ret(val):
    m = _rx(val)
    return lambda e: e.kind == 'exit' and m(e.args[0])


def got(el):
    """An iteration produced an element."""
    m = _rx(el)
    return lambda e: e.kind == 'iter' and m(e.args[1])


def item(src=None, el=None, kind='iter_item'):
    ms, me = _rx(src), _rx(el)
    return lambda e: e.kind == kind and ms(e.args[0]) and me(e.args[1])


def keep(src=None, el=None, name='keep'):
    """Element kept (or name='drop': dropped) by a retain."""
    ms, me = _rx(src), _rx(el)
    return lambda e: e.kind == 'retain' and e.name == name and ms(e.args[0]) and me(e.args[1])


def anyof(*ps):
    return lambda e: any(p(e) for p in ps)


def inside(fnre, p):
    r = re.compile(fnre)
    return lambda e: p(e) and any(r.search(c) for c in e.ctx.chain())


def V(s):
    """Literal term text in which every place may also be a later version of itself (primed)."""
    out = re.sub(r"([A-Za-z_]\w*)(?!\w|::|\\\(|\\\{)", r"\1'?", re.escape(s).replace('::', '::'))
    return out.replace("\\)", "\\)'?")


def out(rx):
    """An output is queued in an outbox."""
    return call('VecDeque::push_back', r".*outbound'?", rx)


def sends(to, msg):
    """A message is queued for a peer; msg: regex on the message value after `NetworkMessage::`."""
    return out(r'Io::Write\{0=' + to + r',1=NetworkMessage::' + msg + r'\}')


def emits(ev):
    return out(r'Io::Event\{0=Event::' + ev + r'\}')


def disconnects(addr='.*', why='.*'):
    return out(r'Io::Disconnect\{0=' + addr + r',1=' + (r'DisconnectReason::' + why if why != '.*' else why) + r'\}')


def dials(addr='.*'):
    return out(r'Io::Connect\{0=' + addr + r'\}')


def wakes(d='.*'):
    return out(r'Io::SetTimer\{0=' + d + r'\}')


def sub(t, *path):
    """Project a term: sub(rv, 'Ok.0', 'TipChanged.header', 'field')."""
    for p in path:
        if '.' in p:
            var, f = p.split('.')
            t = mk_pv(t, var, f)
        else:
            t = mk_field(t, p, int(p) if p.isdigit() else None)
    return t


def lin(t, k=1, acc=None):
    """Linear normal form of an integer term: {atom text: coefficient}, constant under ''."""
    acc = {} if acc is None else acc
    if t.op == 'k' and t.a[0] == 'i':
        acc[''] = acc.get('', 0) + k * t.a[1]
    elif t.op in ('add', 'add2'):
        lin(t.a[0], k, acc), lin(t.a[1], k, acc)
    elif t.op == 'sub':
        lin(t.a[0], k, acc), lin(t.a[1], -k, acc)
    else:
        acc[str(t)] = acc.get(str(t), 0) + k
    return {a: c for a, c in acc.items() if c} if k == 1 else acc


class Missing(Exception):
    pass


class Ck:
    def __init__(self, prog, pid, tier='quick', quiet=False):
        self.p = prog
        self.pid = pid
        self.tier = tier
        self.viol = []
        self.rules = []
        self.fns = set()
        self.steps = 0
        self.nruns = 0
        self.sites = 0
        self.cache = {}

    # ---------------------------------------------------------------- anchors
    def find(self, pat, kinds=('fn',), test=False):
        c = re.compile(r'(?:.*(?:::|[^\w:]))?' + pat)
        out = []
        for k, f in self.p.F.items():
            if f['k'] in kinds and c.fullmatch(k) and (test or f['crate'] != 'nakamoto_test'):
                out.append(k)
        return out

    def fn(self, pat):
        if pat in self.p.F:
            return pat
        c = self.find(pat)
        if len(c) != 1:
            raise Missing('anchor %s resolves to %d functions%s' % (pat, len(c), (' ' + ', '.join(c[:4])) if c else ''))
        return c[0]

    def bad(self, rid, where, what):
        self.viol.append({'rule': rid, 'where': where, 'what': what})

    def rule(self, rid, why, n=1, detail=None):
        self.rules.append({'rule': rid, 'why': why, 'sites': n, **({'detail': detail} if detail else {})})

    # ---------------------------------------------------------------- runs
    def run(self, entry, params, assume=(), watch=(), opaque=(), **kw):
        path = self.fn(entry)
        if os.environ.get('NK_CAP'):
            kw['cap'] = int(os.environ['NK_CAP'])
        if self.tier == 'thorough':
            kw.setdefault('cap', 32)
            kw.setdefault('budget', 900000)
        else:
            kw.setdefault('cap', 22)
            kw.setdefault('budget', 350000)
        r = Run(self.p, path, params, assume, watch, opaque, **kw).run()
        self.nruns += 1
        self.steps += r.nsteps
        self.fns |= r.fns_seen
        return r

    def guard(self, rid, f):
        try:
            f()
        except Missing as e:
            self.bad(rid, str(e), 'the construct this rule is about no longer exists under any known name')
        except Budget as e:
            self.bad(rid, str(e), 'analysis budget exceeded')
        except (AttributeError, IndexError, KeyError, TypeError, ValueError, AssertionError) as e:
            self.bad(rid, '-', 'the rule could not be evaluated: %r' % (e,))

    def never(self, rid, why, entry, params, ev, assume=(), **kw):
        """No path on which every assumption holds reaches the event."""
        def go():
            r = self.run(entry, params, assume, [('E', ev)], **kw)
            self.rule(rid, why, r.nsteps)
            seen = set()
            if os.environ.get('NK_VACUITY') and assume:
                if not self.run(entry, params, (), [('E', ev)], **kw).hits.get('E'):
                    self.bad(rid, '-', 'VACUOUS never rule')
            for e, facts, _ in r.hits.get('E', []):
                k = (e.ctx.path, e.line, e.short)
                if k in seen:
                    continue
                seen.add(k)
                self.sites += 1
                self.bad(rid, e.where(), '%s: reaches `%s` although %s' % (
                    why, trunc(repr(e)), ' and '.join('%s%s' % ('' if v else 'not ', pat(a)) for a, v in assume) or 'never allowed'))
        self.guard(rid, go)

    def possible(self, rid, why, entry, params, ev, assume=(), **kw):
        """Some path satisfying the assumptions reaches the event (the rule is not vacuous / the behaviour exists)."""
        def go():
            r = self.run(entry, params, assume, [('E', ev)], **kw)
            n = len(r.hits.get('E', []))
            self.rule(rid, why, n)
            self.sites += n
            if not n:
                self.bad(rid, self.p.F[self.fn(entry)]['f'] + ' (' + self.fn(entry) + ')', '%s: no path reaches it%s' % (
                    why, (' when ' + ' and '.join('%s%s' % ('' if v else 'not ', pat(a)) for a, v in assume)) if assume else ''))
        self.guard(rid, go)

    def always(self, rid, why, entry, params, ev, assume=(), exits=None, **kw):
        """Every normal return (whose value matches `exits`) has passed the event."""
        ex = _rx(exits)
        evs = ev if isinstance(ev, (list, tuple)) else [ev]

        def go():
            r = self.run(entry, params, assume, [('E%d' % i, e) for i, e in enumerate(evs)], **kw)
            n = 0
            seen = set()
            for rv, mon, facts, store in r.exits:
                if not ex(rv):
                    continue
                n += 1
                for i in range(len(evs)):
                    if 'E%d' % i not in mon:
                        k = (i, str(rv))
                        if k in seen:
                            continue
                        seen.add(k)
                        self.bad(rid, '%s (%s)' % (self.p.F[self.fn(entry)]['f'], self.fn(entry)),
                                 '%s: returns %s without it [clause %d] on the path where %s' % (
                                     why, trunc(str(rv), 80), i, trunc(showfacts(facts), 400)))
            self.rule(rid, why, n)
            self.sites += n
            if not n:
                self.bad(rid, self.fn(entry), '%s: no normal return matches (vacuous)' % why)
        self.guard(rid, go)

    def each(self, rid, why, entry, params, ev, check, assume=(), least=1, **kw):
        """At every occurrence of the event, check(ev, facts, mon) holds."""
        def go():
            r = self.run(entry, params, assume, [('E', ev)] + list(kw.pop('also', ())), **kw)
            hits = r.hits.get('E', [])
            self.rule(rid, why, len(hits))
            self.sites += len(hits)
            sites = set((e.ctx.path, e.line) for e, _, _ in hits)
            if len(sites) < least:
                self.bad(rid, self.fn(entry), '%s: found %d occurrence(s), expected at least %d' % (why, len(sites), least))
            seen = set()
            for e, facts, mon in hits:
                if not check(e, facts, mon):
                    k = (e.ctx.path, e.line, repr(e))
                    if k in seen:
                        continue
                    seen.add(k)
                    self.bad(rid, e.where(), '%s: `%s`' % (why, trunc(repr(e))))
        kw2 = dict(kw)
        self.guard(rid, go)

    def before(self, rid, why, entry, params, first, then, assume=(), **kw):
        """`then` never happens on a path that has not passed `first`."""
        self.each(rid, why, entry, params, then, lambda e, f, m: 'first' in m, assume,
                  also=[('first', first)], **kw)

    def never_after(self, rid, why, entry, params, first, then, assume=(), **kw):
        """On paths where the assumptions hold, `then` never follows `first`."""
        self.each(rid, why, entry, params, anyof(first, then),
                  lambda e, f, m: not (then(e) and 'first' in m), assume, also=[('first', first)], **kw)

    def after(self, rid, why, entry, params, a, b, assume=(), exits=None, least=1, **kw):
        """Once `a` happened, `b` happens before the function returns normally (panics excluded)."""
        ex = _rx(exits)

        def step(mon, nm, e, st):
            if nm == 'a':
                return mon | {'pend'}
            if nm == 'b':
                return mon - {'pend'}
            return mon

        def go():
            r = self.run(entry, params, assume, [('a', a), ('b', b)], step=step, **kw)
            n = len(set((e.ctx.path, e.line) for e, _, _ in r.hits.get('a', [])))
            self.rule(rid, why, n)
            self.sites += n
            if n < least:
                self.bad(rid, self.fn(entry), '%s: found %d occurrence(s), expected at least %d' % (why, n, least))
            seen = set()
            for rv, mon, facts, store in r.exits:
                if ex(rv) and 'pend' in mon and str(rv) not in seen:
                    seen.add(str(rv))
                    self.bad(rid, '%s (%s)' % (self.p.F[self.fn(entry)]['f'], self.fn(entry)),
                             '%s: returns %s with it outstanding, where %s' % (why, trunc(str(rv), 80), trunc(showfacts(facts), 300)))
        self.guard(rid, go)

    def along(self, rid, why, entry, params, a, b, assume=(), least=1, **kw):
        """Every path that returns normally having passed `a` has also passed `b`, in either order."""
        def go():
            r = self.run(entry, params, assume, [('a', a), ('b', b)], **kw)
            n = len(set((e.ctx.path, e.line) for e, _, _ in r.hits.get('a', [])))
            self.rule(rid, why, n)
            self.sites += n
            if n < least:
                self.bad(rid, self.fn(entry), '%s: found %d occurrence(s), expected at least %d' % (why, n, least))
            seen = set()
            for rv, mon, facts, store in r.exits:
                if 'a' in mon and 'b' not in mon and str(rv) not in seen:
                    seen.add(str(rv))
                    self.bad(rid, '%s (%s)' % (self.p.F[self.fn(entry)]['f'], self.fn(entry)),
                             '%s: returns %s without it, where %s' % (why, trunc(str(rv), 80), trunc(showfacts(facts), 300)))
        self.guard(rid, go)

    def foreach(self, rid, why, entry, params, el, evs, assume=(), least=1, stop=None, whole=True, src=None, must=True, **kw):
        """For every element `el` produced by an iteration, all the events happen before the next
        element is produced or the function returns normally.  `stop` cancels the obligation.
        whole: the iteration is neither restricted (take, skip, ...) nor left before its end, except by an error."""
        me, ms = _rx(el), _rx(src)
        want = frozenset('E%d' % i for i in range(len(evs)))
        missed = []
        sites = set()
        part = {}

        its = set()
        srcs = set()

        def base(t):
            while t.op in ('map', 'rev', 'enumerate', 'filter', 'cloned', 'zip', 'skip', 'take', 'chain') and t.a and hasattr(t.a[0], 'op'):
                t = t.a[0]
            return str(t)

        def step(mon, nm, e, st):
            if nm == 'iter':
                its.update(z for z in e.args[1].sites if z.k[-1] == 'it')
                sites.add((e.ctx.id, e.line))
                if re.search(r'(^|[(,])(take|skip|step_by|take_while|skip_while)\(', str(e.args[0])):
                    part.setdefault(e.where(), str(e.args[0]))
                mon = settle(mon, e)
                left = frozenset(m for m in mon if m in want)
                if left:
                    missed.append((e, left, dict(st.facts)))
                srcs.add(base(e.args[0]))
                return want | {'open', 'Z'} | frozenset(m for m in mon if m not in want and m[0] != 'Z')
            if nm == 'end':
                own = (e.ctx.id, e.line) in sites
                mon = settle(mon, e, own)
                if must and 'Z' not in mon:
                    mon = mon | {'Z' if own else 'Z%s:%s' % (e.ctx.id, e.line)}
                return mon - {'open'} if own else mon
            if nm == 'stop':
                return frozenset()
            if nm == 'defer':
                if mon & want and carries(e.args[1], its):
                    return mon | {'defer'}
                return mon
            return mon - {nm}

        def settle(mon, e, own=True):
            """An element put aside in a local collection is owed until that collection is iterated over."""
            if 'defer' in mon and own:
                mon = (mon - want - {'defer'}) | ({'deferred'} if mon & want else frozenset())
            if re.search(r'collect\(|::new\(\)', str(e.args[0])):
                mon = mon - {'deferred'}
            return mon

        fresh = re.compile(r"(Vec|VecDeque)::new\(\)'*")

        def defers(e):
            if e.kind == 'iter_item':
                return e.name == 'collect' or fresh.fullmatch(str(e.args[0])) is not None
            return e.kind == 'call' and len(e.args) > 1 and re.search(r'::(push|push_back|insert)$', e.name) is not None and fresh.fullmatch(str(e.args[0])) is not None

        def go():
            w = [('iter', lambda e: e.kind == 'iter' and me(e.args[1]) and ms(e.args[0]))]
            w += [('E%d' % i, ev) for i, ev in enumerate(evs)]
            w += [('end', lambda e: e.kind == 'iter_end'), ('defer', defers)]
            if stop:
                w.append(('stop', stop))
            def reset():
                missed.clear(), sites.clear(), part.clear()
            r = self.run(entry, params, assume, w, step=step, reset=reset, **kw)
            n = len(set((e.ctx.path, e.line) for e, _, _ in r.hits.get('iter', [])))
            self.rule(rid, why, n)
            self.sites += n
            if n < least:
                self.bad(rid, self.fn(entry), '%s: found %d such iteration(s), expected at least %d' % (why, n, least))
            if whole:
                for wh, t in part.items():
                    self.bad(rid, wh, '%s: only part of the elements are visited (%s)' % (why, trunc(t)))
            seen = set()
            for e, mon, facts in missed:
                for m in sorted(mon):
                    if m not in seen:
                        seen.add(m)
                        self.bad(rid, e.where(), '%s: an element is left without clause %s where %s' % (why, m[1:], trunc(showfacts(facts), 300)))
            own = set('%s:%s' % x for x in sites)
            empty = set('eq(len(%s),0)' % x for x in srcs)
            for rv, mon, facts, store in r.exits:
                err = str(rv).startswith('Result::Err')
                if 'defer' in mon:
                    mon = (mon - want - {'defer'}) | ({'deferred'} if mon & want else frozenset())
                if must and not err and 'Z' not in mon and not any(m[0] == 'Z' and m[1:] in own for m in mon) and \
                        not any(v and str(a) in empty for a, v in facts.items()) and 'skipped' not in seen:
                    seen.add('skipped')
                    self.bad(rid, self.fn(entry), '%s: the elements are not visited where %s' % (why, trunc(showfacts(facts), 300)))
                for m in sorted(mon):
                    if m[0] == 'Z':
                        continue
                    if m in seen or (m in ('open', 'deferred') and (err or not whole)):
                        continue
                    seen.add(m)
                    what = 'the iteration is left early' if m == 'open' else 'collected elements are not processed' if m == 'deferred' else 'returns with an element left without clause %s' % m[1:]
                    self.bad(rid, '%s (%s)' % (self.p.F[self.fn(entry)]['f'], self.fn(entry)),
                             '%s: %s where %s' % (why, what, trunc(showfacts(facts), 300)))
        self.guard(rid, go)

    def cycle(self, rid, why, entry, params, head, evs, assume=(), least=1, first=False, **kw):
        """Between two occurrences of `head` (and, with `first`, before the first one) all the events happen."""
        want = frozenset('E%d' % i for i in range(len(evs)))
        missed = []

        def step(mon, nm, e, st):
            if nm == 'head':
                left = frozenset(m for m in mon if m in want)
                if left:
                    missed.append((e, left, dict(st.facts)))
                return want | (mon - want)
            return mon - {nm}

        def go():
            w = [('E%d' % i, ev) for i, ev in enumerate(evs)] + [('head', head)]
            r = self.run(entry, params, assume, w, step=step, reset=missed.clear, **dict(kw, mon0=want if first else None))
            n = len(set((e.ctx.path, e.line) for e, _, _ in r.hits.get('head', [])))
            self.rule(rid, why, n)
            self.sites += n
            if n < least:
                self.bad(rid, self.fn(entry), '%s: found %d occurrence(s), expected at least %d' % (why, n, least))
            seen = set()
            for e, left, facts in missed:
                for m in sorted(left):
                    if m not in seen:
                        seen.add(m)
                        self.bad(rid, e.where(), '%s: reached again without clause %s where %s' % (why, m[1:], trunc(showfacts(facts), 300)))
        self.guard(rid, go)

    def atmost(self, rid, why, entry, params, head, ev, assume=(), **kw):
        """The event happens at most once between two occurrences of `head`."""
        again = []

        def step(mon, nm, e, st):
            if nm == 'head':
                return mon - {'E'}
            if 'E' in mon:
                again.append(e)
            return mon | {'E'}

        def go():
            r = self.run(entry, params, assume, [('head', head), ('E', ev)], step=step, reset=again.clear, **kw)
            n = len(set((e.ctx.path, e.line) for e, _, _ in r.hits.get('E', [])))
            self.rule(rid, why, n)
            self.sites += n
            if not n or not r.hits.get('head'):
                self.bad(rid, self.fn(entry), '%s: found no occurrence' % why)
            for e in again[:1]:
                self.bad(rid, e.where(), '%s: `%s` happens again' % (why, trunc(repr(e))))
        self.guard(rid, go)

    def results(self, rid, why, entry, params, want, assume=(), least=1, **kw):
        """Every returned value matches `want`."""
        w = _rx(want)

        def go():
            if want in ('true', 'false'):
                kw['split'] = True
            r = self.run(entry, params, assume, [], **kw)
            self.rule(rid, why, len(r.exits))
            self.sites += len(r.exits)
            if len(r.exits) < least:
                self.bad(rid, self.fn(entry), '%s: no normal return' % why)
            seen = set()
            for rv, mon, facts, store in r.exits:
                if not w(rv) and str(rv) not in seen:
                    seen.add(str(rv))
                    self.bad(rid, '%s (%s)' % (self.p.F[self.fn(entry)]['f'], self.fn(entry)),
                             '%s: may return `%s` where %s' % (why, trunc(str(rv), 300), trunc(showfacts(facts), 300)))
        self.guard(rid, go)

    def custom(self, rid, why, f):
        """f() -> (n sites, [(where, what)])"""
        def go():
            n, bads = f()
            self.rule(rid, why, n)
            self.sites += n
            for w, m in bads:
                self.bad(rid, w, '%s: %s' % (why, m))
            if n == 0:
                self.bad(rid, '-', '%s: nothing to analyse (vacuous)' % why)
        self.guard(rid, go)

    def either(self, *alts):
        """Holds if one of the alternative rule groups holds (different ways of writing the same behaviour)."""
        first = None
        for f in alts:
            k = len(self.viol)
            f()
            new = self.viol[k:]
            if not new:
                return
            del self.viol[k:]
            first = first or new
        if first is None:
            raise Missing('none of the alternative forms of this rule applies')
        self.viol.extend(first)

    def const(self, rid, why, path, val):
        def go():
            c = [k for k in self.p.consts if k == path or k.endswith('::' + path)]
            if len(c) != 1:
                raise Missing('constant %s resolves to %d items' % (path, len(c)))
            v = self.p.const(c[0])
            self.rule(rid, why, 1, '%s = %s' % (c[0], v))
            self.sites += 1
            if not _rx(val)(v):
                self.bad(rid, c[0], '%s: value is %s, expected %s' % (why, v, val))
        self.guard(rid, go)


def carries(v, its, d=0):
    """Is the element of an iteration at one of these sites, or a part of it, (part of) this value?"""
    if d > 6 or not hasattr(v, 'op'):
        return False
    if v.op in ('elem', 'key'):
        return len(v.a) > 1 and v.a[1] in its
    if v.op in ('f', 'pv'):
        return carries(v.a[0], its, d + 1)
    if v.op == 'get':
        return carries(v.a[1], its, d + 1)
    if v.op in ('tup', 'agg', 'add'):
        return any(carries(x, its, d + 1) for x in v.a)
    return False


def trunc(s, n=220):
    return s if len(s) <= n else s[:n] + '...'


def pat(a):
    return a if isinstance(a, str) else getattr(a, '__name__', 'predicate')


def showfacts(facts):
    return ' and '.join('%s%s' % ('' if v else 'not ', k) for k, v in facts.items()
                        if not k.op == 'k')
