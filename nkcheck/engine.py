"""Predicate-sensitive interprocedural dataflow over the dumped MIR.

The program is never executed: every body is abstracted to a flow graph whose states carry
(1) provenance terms of live locations, (2) the truth of branch predicates already decided on
the way, (3) a finite monitor state.  States meeting at a join are merged (after a small
partition budget), so the analysis is a fixpoint over a finite domain, in the style of
property simulation (ESP).  Calls to workspace functions and closures are analysed in
context, so a helper that is extracted or inlined does not change the result.
"""
import json, os, re, glob, sys
from terms import *

sys.setrecursionlimit(10000)


class Prog:
    def __init__(self, dumpdir):
        self.F = {}
        self.adts = {}
        self.consts = {}
        self.fields = {}
        self.unsafe = []
        self.crates = []
        import canon
        dumps, self.renamed = canon.canonical(dumpdir)
        for f, d in dumps:
            self.crates.append(os.path.basename(f)[:-5])
            for x in d['fns']:
                p = x['p']
                n = 2
                while p in self.F:
                    p = '%s#%d' % (x['p'], n)
                    n += 1
                x['crate'] = d['crate']
                self.F[p] = x
            self.adts.update(d['adts'])
            self.consts.update(d['consts'])
            self.fields.update(d['fields'])
            self.unsafe += d['unsafe']
        self._live = {}
        self._pm = {}

    def variant_of(self, adt, discr):
        a = self.adts.get(adt)
        if a:
            for v in a[1:]:
                if v[1] == discr:
                    return v[0]
        return '#%d' % discr

    def variant_names(self, adt):
        return [v[0] for v in self.adts.get(adt, ())[1:]]

    def const(self, path):
        c = self.consts.get(path)
        return const_term(c[1]) if c else None

    # ---- liveness / join points
    def info(self, fn):
        p = id(fn)
        r = self._live.get(p)
        if r:
            return r
        blocks = fn['b']
        n = len(blocks)
        preds = [0] * n
        succ = []
        use = []
        deff = []
        taken = set()

        def pl_use(pl, u):
            u.add(pl[0])
            for e in pl[1:]:
                if isinstance(e, list) and e[0] == 'i':
                    u.add(e[1])

        def op_use(o, u):
            if o[0] in 'cm':
                pl_use(o[1], u)

        def rv_use(r, u):
            k = r[0]
            if k == 'U':
                op_use(r[1], u)
            elif k == 'R':
                op_use(r[1], u)
            elif k == '&':
                pl_use(r[2], u)
                if '*' not in r[2]:
                    taken.add(r[2][0])
            elif k == 'C':
                op_use(r[2], u)
            elif k == 'B':
                op_use(r[2], u)
                op_use(r[3], u)
            elif k == 'N':
                op_use(r[2], u)
            elif k == 'D':
                pl_use(r[1], u)
            elif k == 'A':
                for o in r[5]:
                    op_use(o, u)

        for b in blocks:
            u, d = set(), set()
            s = []
            if b is None:
                succ.append(s)
                use.append(u)
                deff.append(d)
                continue
            for st in b[0]:
                if st[0] == '=':
                    uu = set()
                    rv_use(st[2], uu)
                    if len(st[1]) > 1:
                        pl_use(st[1], uu)
                    u |= (uu - d)
                    if len(st[1]) == 1:
                        d.add(st[1][0])
                elif st[0] == 'sd':
                    u |= ({st[1][0]} - d)
            t = b[1]
            uu = set()
            if t[0] == 'g':
                s = [t[1]]
            elif t[0] == 's':
                op_use(t[1], uu)
                s = [x[1] for x in t[3]] + [t[4]]
            elif t[0] == 'c':
                op_use(t[1], uu)
                for o in t[2]:
                    op_use(o, uu)
                if len(t[4]) > 1:
                    pl_use(t[4], uu)
                if t[5] is not None:
                    s = [t[5]]
            elif t[0] == 'a':
                op_use(t[1], uu)
                s = [t[4]]
            elif t[0] == 'r':
                uu.add(0)
            u |= (uu - d)
            if t[0] == 'c' and len(t[4]) == 1:
                d.add(t[4][0])
            succ.append(s)
            use.append(u)
            deff.append(d)
        for s in succ:
            for x in s:
                preds[x] += 1
        live = [set(u) for u in use]
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                o = set()
                for x in succ[i]:
                    o |= live[x]
                nl = use[i] | (o - deff[i])
                if nl != live[i]:
                    live[i] = nl
                    changed = True
        # A reference local may point to a taken local: keep taken locals while in frame.
        r = {'live': [frozenset(l | taken) for l in live], 'preds': preds, 'succ': succ}
        self._live[p] = r
        return r


def const_term(v):
    if v is None:
        return None
    if isinstance(v, bool) or isinstance(v, int):
        return K(v)
    if 's' in v:
        return K(v['s'])
    if 'a' in v:
        fs = [(n, const_term(x)) for n, x in v['f']]
        fs = [(n, x if x is not None else T('unk', n)) for n, x in fs]
        return agg(v['a'], v['v'], fs)
    if 't' in v:
        xs = [const_term(x) for x in v['t']]
        return T('tup', *[x if x is not None else T('unk', '?') for x in xs])
    return None


class St:
    __slots__ = ('store', 'facts', 'mon')

    def __init__(self, store, facts, mon):
        self.store = store
        self.facts = facts
        self.mon = mon

    def copy(self):
        return St(dict(self.store), dict(self.facts), self.mon)


class Ctx:
    __slots__ = ('id', 'parent', 'fn', 'path', 'cont', 'depth', 'closure', 'callline', 'tmap')

    def chain(self):
        c = self
        out = []
        while c:
            out.append(c.path)
            c = c.parent
        return out


class Ev:
    __slots__ = ('kind', 'name', 'res', 'args', 'locs', 'ctx', 'line', 'extra', 'short')

    def where(self):
        fn = self.ctx.fn
        return '%s:%s (%s)' % (fn['f'], self.line, self.ctx.path)

    def __repr__(self):
        return '%s %s(%s)%s' % (self.kind, self.short, ', '.join(map(str, self.args)),
                                '' if self.extra is None else ' = %s' % (self.extra,))


class Budget(Exception):
    pass


COLL = {'HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'Vec', 'VecDeque', 'NonEmpty', '[T]',
        'BinaryHeap', 'String', 'str', 'IndexMap', '[T; N]'}
MAPS = {'HashMap', 'BTreeMap'}
SETS = {'HashSet', 'BTreeSet'}

IMPURE = re.compile(r'fastrand|crossbeam|::recv|::send|std::fs|std::io|::io::|SystemTime|Instant|'
                    r'Mutex|RwLock|Cell|thread|popol|poll|sqlite|net::tcp')
IDENT_LOC = {  # return the argument itself (reference stays a reference)
    'Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow',
    'BorrowMut::borrow_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str',
    'Iterator::by_ref', 'RefCell::borrow', 'RefCell::borrow_mut', 'Pin::new', 'Rc::as_ref',
    'hint::must_use', 'convert::identity', 'Box::leak', 'Path::new', 'String::as_bytes', 'str::as_bytes',
    'Box::as_ref', 'NonEmpty::as_ref', 'RefMut::map', 'Rc::get_mut',
}
IDENT_VAL = {
    'Clone::clone', 'ToOwned::to_owned', 'Option::as_ref', 'Option::as_mut', 'Option::cloned',
    'Option::copied', 'Option::as_deref', 'Option::as_deref_mut', 'Result::as_ref', 'Result::as_mut',
    'Result::copied', 'Result::cloned',
    '[T]::to_vec', '[T]::into_vec', 'Box::new', 'Arc::new', 'Rc::new', 'RefCell::new', 'Cow::into_owned',
    'Cell::new', 'Mutex::new',
    'Vec::into_boxed_slice', 'TryInto::try_into', 'NonEmpty::into',
    'Bound::cloned', 'Box::write',
}
BINTRAIT = {'Add::add': 'add', 'Sub::sub': 'sub', 'Mul::mul': 'mul', 'Div::div': 'div',
            'Rem::rem': 'rem', 'BitAnd::bitand': 'band', 'BitOr::bitor': 'bor', 'BitXor::bitxor': 'bxor',
            'Shl::shl': 'shl', 'Shr::shr': 'shr'}
ASGTRAIT = {'AddAssign::add_assign': 'add', 'SubAssign::sub_assign': 'sub', 'MulAssign::mul_assign': 'mul',
            'DivAssign::div_assign': 'div', 'BitOrAssign::bitor_assign': 'bor',
            'BitAndAssign::bitand_assign': 'band', 'ShlAssign::shl_assign': 'shl',
            'ShrAssign::shr_assign': 'shr', 'BitXorAssign::bitxor_assign': 'bxor'}
PERM = ('sorted', 'reversed', 'shuffled')
LAZY = {'map', 'filter', 'filter_map', 'take', 'skip', 'enumerate', 'zip', 'chain', 'rev',
        'peekable', 'cloned', 'copied', 'take_while', 'skip_while', 'map_while', 'flat_map', 'scan',
        'flatten', 'inspect', 'cycle', 'step_by', 'fuse'}
UNSIGNED = {'u8', 'u16', 'u32', 'u64', 'usize', 'u128'}
DEBUG = bool(os.environ.get('NK_DEBUG'))
STRUCT = {'not', 'is', 'eq', 'lt', 'f', 'pv', 'elem', 'key', 'get', 'call', 'it'}
CHOOSY = {'filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'flat_map', 'scan'}
EAGER = {'for_each', 'any', 'all', 'find', 'position', 'fold', 'count', 'sum', 'last', 'max', 'min',
         'max_by_key', 'min_by_key', 'max_by', 'min_by', 'collect', 'find_map', 'nth', 'try_for_each',
         'product', 'partition', 'unzip', 'try_fold', 'reduce'}
NOMUT = {'get_mut', 'iter_mut', 'values_mut', 'last_mut', 'first_mut', 'front_mut', 'back_mut',
         'as_mut', 'peek', 'peek_mut', 'capacity', 'range_mut'}


BITS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64,
        'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}


# narrowing conversions known to be harmless (heights, positions and times are below 2^32)
NARROW = {('cache.rs', 'u64', 'u32'), ('time.rs', 'u64', 'u32'), ('time.rs', 'i64', 'u32'), ('tree.rs', 'u64', 'u32'),
          ('peer.rs', 'u64', 'u32'), ('time.rs', 'u128', 'u64'), ('fees.rs', 'usize', 'u32'), ('output.rs', 'u64', 'u32'),
          ('peermgr.rs', 'usize', 'u32'), ('peermgr.rs', 'u64', 'i32'), ('pingmgr.rs', 'usize', 'u32'),
          ('cbfmgr.rs', 'u64', 'u32'), ('wallet.rs', 'usize', 'u32')}


def mk_bin(op, a, b):
    if op == 'add':
        return mk_add(a, b)
    if op == 'sub':
        return mk_sub(a, b)
    if op == 'mul':
        if is_int(a) and is_int(b):
            return K(a.a[1] * b.a[1])
        x, y = (a, b) if str(a) <= str(b) else (b, a)
        return T('mul', x, y)
    if op == 'div' and is_int(a) and is_int(b) and b.a[1] != 0:
        return K(a.a[1] // b.a[1])
    if op == 'rem' and is_int(a) and is_int(b) and b.a[1] != 0:
        return K(a.a[1] % b.a[1])
    if op in ('band', 'bor', 'bxor'):
        x, y = (a, b) if str(a) <= str(b) else (b, a)
        if is_int(a) and is_int(b):
            return K({'band': a.a[1] & b.a[1], 'bor': a.a[1] | b.a[1], 'bxor': a.a[1] ^ b.a[1]}[op])
        return T(op, x, y)
    return T(op, a, b)


def mk_len(v):
    if v.op == 'arr':
        return K(len(v.a))
    if v.op == 'call' and v.a[0] in ('Vec::new', 'VecDeque::new'):
        return K(0)
    if v.op == 'elem' and v.a[0].op == 'call' and v.a[0].a[0] in ('windows', 'chunks_exact') and is_int(v.a[0].a[1][1]):
        return v.a[0].a[1][1]
    return T('call', 'len', (v,), None)


def random_index(b, i):
    """Is `i` drawn from all the indexes of the sequence `b`?"""
    s = str(i)
    return 'Rng::usize(' in s and ('RangeTo{end=len(%s)}' % b in s or 'Range{start=0,end=len(%s)}' % b in s)


def mk_idx(b, i):
    """Element i of b; the element itself if i is the position of an element of b."""
    if i.op == 'unk' and i.a[0] == 'i' and i.a[1].op == 'elem' and i.a[1].a[0] is b:
        return i.a[1]
    return T('idx', b, i)


def mk_isx(t, v):
    if t.op == 'call' and t.a[0] == 'cmp':
        a, b = t.a[1]
        if v == 'Less':
            return mk_lt(a, b)
        if v == 'Greater':
            return mk_lt(b, a)
        if v == 'Equal':
            return mk_eq(a, b)
    if t.op == 'get' and t.a[0].op == 'upd' and False:
        pass
    return mk_is(t, v)


class Run:
    """One analysis: an entry point, assumptions on predicates, and watched events."""

    def __init__(self, prog, entry, params, assume=(), watch=(), opaque=(), inline_only=None,
                 cap=16, decide=None, maxdepth=16, budget=60000, step=None, mon0=None, on_exit=None, binds=None,
                 trace=False, reset=None, split=False):
        self.p = prog
        self.split = split
        self.reset = reset
        self.items = {}
        self.queried = {}
        self.entry = entry
        self.params = params
        self.assume = [(re.compile(k, re.S) if isinstance(k, str) else k, v) for k, v in assume]
        self._as = {}
        self.watch = watch
        self.opaque = [re.compile(o) for o in opaque]
        self._opq = {}
        self.cap = cap
        self.decide = decide
        self.maxdepth = maxdepth
        self.budget = budget
        self.step = step
        self.mon0 = mon0 if mon0 is not None else frozenset()
        self.on_exit = on_exit
        self.binds = binds or {}
        self.ctxs = {}
        self.ctx_of = {}
        self._bv = {}
        self.visited = {}
        self.work = []
        self.hits = {}
        self.exits = []
        self.panics = []
        self.nsteps = 0
        self.trace = trace
        self.assume_used = set()
        self.fns_seen = set()
        self.branch_atoms = set()

    def order(self, clo, key):
        """Direction of a sort by comparator or key: both sides must project the elements alike."""
        if clo.op != 'clo' or clo.a[0] not in self.p.F:
            return None
        sigs = self.p.__dict__.setdefault('_orders', {})
        k = (clo.a[0], key)
        if k not in sigs:
            try:
                r = Run(self.p, clo.a[0], ['env', 'x'] if key else ['env', 'x', 'y']).run()
                out = set(str(e[0]) for e in r.exits)
            except Budget:
                out = set()
            way = None
            if len(out) == 1:
                t = out.pop()
                if key:
                    m = re.fullmatch(r'(Reverse\{0=)?x[.\w]*\}?', t)
                    way = m and ('desc' if m.group(1) else 'asc')
                else:
                    m = re.fullmatch(r'cmp\(([xy])([.\w]*),([xy])([.\w]*)\)', t)
                    if m and m.group(2) == m.group(4) and m.group(1) != m.group(3):
                        way = 'asc' if m.group(1) == 'x' else 'desc'
            sigs[k] = way
        return sigs[k]

    def member(self, it, fin):
        """Is this pipeline a test for membership (any of the elements equal to / all different from a value)?"""
        if fin[0] not in ('any', 'all') or it.op != 'it' or it.a[0] not in ('elem', 'key') or it.a[1].op in ('arr', 'agg'):
            return False
        clo = fin[1]
        if clo.op != 'clo' or clo.a[0] not in self.p.F or self.items_of(it.a[1]) is not None:
            return False
        sigs = self.p.__dict__.setdefault('_members', {})
        k = clo.a[0]
        if k not in sigs:
            try:
                r = Run(self.p, k, ['env', 'x']).run()
                out = set(str(e[0]) for e in r.exits)
            except Budget:
                out = set()
            t = out.pop() if len(out) == 1 else ''
            m = re.fullmatch(r'(not\()?eq\((?:x,(env[.\w]*)|(env[.\w]*),x)\)\)?', t)
            sigs[k] = ('all' if m.group(1) else 'any') if m else None
        return sigs[k] == fin[0]

    # ------------------------------------------------------------ contexts
    def ctx(self, parent, path, cont, tag=None):
        k = (parent.id if parent else None, path, cont, tag)
        c = self.ctxs.get(k)
        if c is None:
            c = Ctx()
            c.id = len(self.ctxs) + 1
            c.parent = parent
            c.path = path
            c.fn = self.p.F[path]
            c.cont = cont
            c.depth = parent.depth + 1 if parent else 0
            c.closure = c.fn['k'] == 'closure'
            self.ctxs[k] = c
            self.ctx_of[c.id] = c
            self.fns_seen.add(path)
        return c

    # ------------------------------------------------------------ store
    def read(self, st, loc):
        v = st.store.get(loc)
        if v is not None:
            return v
        op = loc.op
        if op == 'f':
            b = self.read(st, loc.a[0])
            if b is loc.a[0] and b.op not in ('clo', 'agg', 'tup', 'arr'):
                return loc
            n = loc.a[1]
            return mk_field(b, n, int(n) if n.isdigit() else None)
        if op == 'pv':
            b = self.read(st, loc.a[0])
            if b is loc.a[0] and b.op != 'agg':
                return loc
            return mk_pv(b, loc.a[1], loc.a[2])
        if op == 'idx':
            b = self.read(st, loc.a[0])
            if b is loc.a[0] and b.op != 'arr':
                return loc
            if b.op == 'arr' and is_int(loc.a[1]) and loc.a[1].a[1] < len(b.a):
                return b.a[loc.a[1].a[1]]
            return mk_idx(b, loc.a[1])
        return loc

    def rd(self, st, t):
        """Value behind a reference (possibly nested)."""
        for _ in range(4):
            v = self.read(st, t)
            if v is t or (t.op == 'L' and v.op != 'L' and self.by_value(t)):
                return v
            t = v
            if t.op != 'L' and t not in st.store:
                return t
        return t

    def by_value(self, l):
        """Whether a local holds a value (not a reference to a place)."""
        r = self._bv.get(l)
        if r is None:
            c = self.ctx_of.get(l.a[0])
            r = False
            if c is not None and isinstance(l.a[1], int) and l.a[1] < len(c.fn['loc']):
                ty, kind, _ = c.fn['loc'][l.a[1]]
                r = kind == 'v' and '&' not in ty and '*' not in ty and 'dyn ' not in ty and ('::' in ty or ty in INTS or ty == 'bool')
            self._bv[l] = r
        return r

    def deep(self, st, t, n=0):
        """`t` with references to frame locations replaced by what they hold."""
        if not t.hl or n > 8:
            return t
        if t.op == 'L' or (t.op in ('f', 'pv', 'idx') and t in st.store):
            v = self.rd(st, t)
            return v if v is t else self.deep(st, v, n + 1)
        if t.op in ('it', 'ad', 'clo', 'entry', 'prev', 'upd'):
            return t
        if t.op in ('f', 'pv', 'idx'):
            v = self.read(st, t)
            if v is not t:
                return self.deep(st, v, n + 1)
        args = []
        for x in t.a:
            if isinstance(x, Term):
                args.append(self.deep(st, x, n + 1))
            elif isinstance(x, tuple):
                args.append(tuple(self.deep(st, y, n + 1) if isinstance(y, Term) else y for y in x))
            else:
                args.append(x)
        return T(t.op, *args)

    def write(self, st, loc, v, ctx=None, line=None):
        store = st.store
        dead = [k for k in store if loc in k.subs]
        for k in dead:
            del store[k]
        if loc.op in ('f', 'pv'):
            bv = self.read(st, loc.a[0])
            if bv.op == 'agg':
                nm = loc.a[1] if loc.op == 'f' else loc.a[2]
                if loc.op == 'f' or bv.a[1] == loc.a[1]:
                    nv = set_field(bv, nm, v)
                    if nv is not None and (loc.a[0] in store or loc.a[0].op != 'par'):
                        self.write(st, loc.a[0], nv)
                        return
        store[loc] = v

    def mutate(self, st, loc, site):
        old = self.read(st, loc)
        root = old.a[0] if old.op == 'upd' else old
        self.kill(st, site)
        self.write(st, loc, T('upd', root, site))

    def kill(self, st, site):
        """The evaluation at `site` happens again: earlier results of it are now 'previous'."""
        fs = [k for k in st.facts if site in k.sites]
        for k in fs:
            del st.facts[k]
        for k, v in list(st.store.items()):
            if site in v.sites:
                if v.op != 'prev':
                    st.store[k] = T('prev', strip_site(v, site))
            if site in k.sites:
                st.store.pop(k, None)

    # ------------------------------------------------------------ what a locally built sequence holds
    def picked(self, st, b, its):
        if b in self.items:
            self.queried[b] = self.items[b]
        for x, fs in list(its.items()):
            s2 = st.copy()
            for k, v in fs:
                s2.facts[k] = v
            yield x, s2

    def items_of(self, t):
        """{item: facts about it} if every element of the sequence t is known, else None."""
        while t.op == 'call' and t.a[0] in PERM:
            t = t.a[1][0]
        if t.op == 'call' and t.a[0] in ('Vec::new', 'VecDeque::new', 'HashSet::new', 'BTreeSet::new'):
            return {}
        if t.op == 'upd' or (t.op == 'call' and t.a[0] == 'collect'):
            return self.items.get(t)
        return None

    def more_items(self, t, its):
        if t in self.items and self.items[t] is None:
            return
        if its is None:
            self.items[t] = None
            return
        old = self.items.get(t)
        if old is None:
            self.items[t] = dict(its)
            return
        new = dict(old)
        for x, f in its.items():
            if x not in new:
                new[x] = f
            elif new[x] != f:
                new[x] = frozenset(new[x] & f)
        if len(new) > 4:
            new = None
        if new != old:
            self.items[t] = new

    def item(self, st, x):
        """The item entry for value x in state st (None if it cannot be tracked)."""
        if x.hl:
            x = self.deep(st, x)
        if x.hl or any(y.op in ('prev', 'phi', '_') for y in x.subs) or x.op in ('prev', 'phi'):
            return None
        ss = [z for z in x.sites if z.k[-1] == 'it']
        return {x: frozenset((k, v) for k, v in st.facts.items() if any(z in k.sites for z in ss))}

    # ------------------------------------------------------------ places and operands
    def loc(self, ctx, st, pl):
        l = T('L', ctx.id, pl[0])
        n = len(pl)
        i = 1
        while i < n:
            e = pl[i]
            if e == '*':
                l = self.read(st, l)
            elif e[0] == 'f':
                name = e[2]
                if ctx.closure and pl[0] == 1 and (i == 1 or (i == 2 and pl[1] == '*')):
                    name = str(e[1])
                l = T('f', l, name)
            elif e[0] == 'v':
                if i + 1 < n and isinstance(pl[i + 1], list) and pl[i + 1][0] == 'f':
                    l = T('pv', l, e[1], pl[i + 1][2])
                    i += 1
            elif e[0] == 'i':
                l = mk_idx(l, self.read(st, T('L', ctx.id, e[1])))
            elif e[0] == 'k':
                l = T('idx', l, K(-e[1] if e[2] else e[1]))
            elif e[0] == 's':
                l = T('call', 'subslice', (l, K(e[1]), K(e[2])), None)
            i += 1
        return self.canon(st, l)

    def canon(self, st, l):
        """Resolve a location of the form f(pv(..)) whose base holds a reference value."""
        return l

    def operand(self, ctx, st, o):
        if o[0] == 'k':
            return self.const(ctx, o[1])
        return self.read(st, self.loc(ctx, st, o[1]))

    def const(self, ctx, c):
        if 'fn' in c:
            f = c['fn']
            return T('fn', f[0] if f[1] in ('', '?') else f[1], c['ctor'][0] if 'ctor' in c else '',
                     c['ctor'][1] if 'ctor' in c else '')
        if 'pm' in c:
            return self.promoted(c['pm'])
        if 'v' in c:
            v = const_term(c['v'])
            if v is not None:
                return v
        if 'd' in c:
            return T('kc', c['d'])
        if 'st' in c:
            return T('kc', c['st'])
        return T('kc', c['ty'])

    def promoted(self, path):
        r = self.p._pm.get(path)
        if r is not None:
            return r
        fn = self.p.F.get(path)
        if fn is None:
            r = T('kc', path)
        else:
            st = St({}, {}, None)
            c = Ctx()
            c.id = -1
            c.fn = fn
            c.closure = False
            c.path = path
            bb = 0
            okk = False
            for _ in range(50):
                b = fn['b'][bb]
                for s in b[0]:
                    if s[0] == '=':
                        l = self.loc(c, st, s[1])
                        st.store[l] = self.rvalue(c, st, s[2], s[1])
                t = b[1]
                if t[0] == 'r':
                    okk = True
                    break
                elif t[0] == 'g':
                    bb = t[1]
                elif t[0] == 'a':
                    bb = t[4]
                elif t[0] == 'c':
                    nm = t[1][1]['fn'][0] if 'fn' in t[1][1] else '?'
                    args = tuple(self.rd(st, self.operand(c, st, a)) for a in t[2])
                    v = T('call', nm, args, None)
                    if short(nm) == 'RangeInclusive::new':
                        v = agg('core::ops::range::RangeInclusive', 'RangeInclusive', [('start', args[0]), ('end', args[1])])
                    st.store[self.loc(c, st, t[4])] = v
                    bb = t[5]
                else:
                    break
            r = self.rd(st, st.store.get(T('L', -1, 0), T('kc', path))) if okk else T('kc', path)
        self.p._pm[path] = r
        return r

    def rvalue(self, ctx, st, r, dst=None):
        k = r[0]
        if k == 'U':
            return self.operand(ctx, st, r[1])
        if k == '&':
            return self.loc(ctx, st, r[2])
        if k == 'D':
            v = self.read(st, self.loc(ctx, st, r[1]))
            return T('discr', v, r[2])
        if k == 'B':
            a = self.operand(ctx, st, r[2])
            b = self.operand(ctx, st, r[3])
            v = self.binop(r[1], a, b)
            if r[1] in ('Lt', 'Le', 'Gt', 'Ge') and self.opty(ctx, r[2], r[3]) in UNSIGNED:
                v = unsigned(v)
            return v
        if k == 'A':
            ops = [self.operand(ctx, st, o) for o in r[5]]
            if r[1] == 'adt':
                return agg(r[2], r[3], list(zip(r[4], ops)))
            if r[1] == 'tup':
                return T('tup', *ops)
            if r[1] == 'arr':
                return T('arr', *ops)
            if r[1] == 'clo':
                return T('clo', r[2], *ops)
            return T('unk', r[2], *ops)
        if k == 'C':
            v = self.operand(ctx, st, r[2])
            if r[1] == 'int':
                if not is_int(v) and (r[3] in ('u8', 'u16', 'i8', 'i16') or
                                      (BITS.get(self.opty(ctx, r[2]), 0) > BITS.get(r[3], 128) and
                                       (os.path.basename(ctx.fn['f']), self.opty(ctx, r[2]), r[3]) not in NARROW)):
                    return T('cast', r[3], v)
                if v is TRUE or v is FALSE:
                    return K(1 if v is TRUE else 0)
                return v
            return v
        if k == 'N':
            v = self.operand(ctx, st, r[2])
            if r[1] == 'Not':
                ty = ctx.fn['loc'][dst[0]][0] if dst and len(dst) == 1 else 'bool'
                return neg(v) if ty == 'bool' else T('bnot', v)
            if r[1] == 'Neg':
                return mk_sub(K(0), v)
            if r[1] == 'PtrMetadata':
                return mk_len(self.rd(st, v))
            return T(r[1], v)
        if k == 'R':
            return T('rep', self.operand(ctx, st, r[1]), r[2])
        return T('unk', str(r[1])[:60])

    def opty(self, ctx, *os):
        for o in os:
            if o[0] == 'k':
                if 'ty' in o[1]:
                    return o[1]['ty']
            elif len(o[1]) == 1:
                return ctx.fn['loc'][o[1][0]][0]
        return ''

    def binop(self, op, a, b):
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            return T('tup', mk_bin(op[:3].lower(), a, b), FALSE)
        m = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'band',
             'BitOr': 'bor', 'BitXor': 'bxor', 'Shl': 'shl', 'Shr': 'shr', 'AddUnchecked': 'add',
             'SubUnchecked': 'sub', 'MulUnchecked': 'mul'}.get(op)
        if m:
            return mk_bin(m, a, b)
        if op == 'Eq':
            return mk_eq(a, b)
        if op == 'Ne':
            return neg(mk_eq(a, b))
        if op == 'Lt':
            return mk_lt(a, b)
        if op == 'Gt':
            return mk_lt(b, a)
        if op == 'Le':
            return neg(mk_lt(b, a))
        if op == 'Ge':
            return neg(mk_lt(a, b))
        if op == 'Cmp':
            return T('call', 'cmp', (a, b), None)
        return T(op, a, b)

    # ------------------------------------------------------------ predicates
    def assumed(self, atom):
        r = self._as.get(atom, 0)
        if r != 0:
            return r
        s = str(atom)
        r = None
        if 'max_level' in s or 'LevelFilter' in s or 'Level::' in s:
            r = False
        else:
            for i, (m, v) in enumerate(self.assume):
                hit = m(atom) if callable(m) else m.fullmatch(s)
                if hit is not None and hit is not False:
                    r = v
                    self.assume_used.add(i)
                    break
        self._as[atom] = r
        return r

    def fact(self, st, t):
        r = st.facts.get(t)
        return self.assumed(t) if r is None else r

    def in_range(self, st, b, i):
        """Is `i` known to be an index of the sequence `b`?"""
        n = mk_len(b)
        sb, si, sn = str(b), str(i), str(n)
        some = self.truth(st, mk_lt(K(0), n)) is True or re.match(r'NonEmpty::', sb) is not None
        if i is K(0) or si == '0':
            return some
        if 'Rng::usize(' in si and re.search(r'Range(To)?\{(start=0,)?end=' + re.escape(sn) + r'\}\)$', si):
            return True
        m = re.fullmatch(r'div\(' + re.escape(sn) + r',(\d+)\)', si)
        if m and int(m.group(1)) > 1:
            return some
        m = re.fullmatch(r'add\(' + re.escape(sn) + r',-(\d+)\)', si)
        if m:
            k = int(m.group(1))
            return some if k == 1 else self.truth(st, mk_lt(n, K(k))) is False
        m = re.fullmatch(r'add\(div\(' + re.escape(sn) + r',2\),-1\)', si)
        if m:
            odd = 'rem(%s,2)' % sn
            return some and any((str(k) == 'eq(%s,1)' % odd and v is False) or (str(k) == 'eq(%s,0)' % odd and v is True) for k, v in st.facts.items())
        m = re.fullmatch(r'(?:elem|phi|it)\(Range\{start=.*,end=(.*)\}\)', si)
        if m and m.group(1) == sn:
            return True
        if i.op == 'unk' and i.a[0] in ('i', 'pos') and i.a[1].op == 'elem' and i.a[1].a[0] is b:
            return True
        if b.op == 'elem' and b.a[0].op == 'call' and b.a[0].a[0] in ('windows', 'chunks_exact', 'chunks'):
            w = b.a[0].a[1][1]
            return is_int(w) and is_int(i) and i.a[1] < (w.a[1] if b.a[0].a[0] != 'chunks' else 1)
        return self.truth(st, mk_lt(i, n)) is True

    def in_slice(self, st, b, r):
        """Is the range `r` known to lie within the sequence `b`?"""
        n = mk_len(b)
        s = str(r)
        if s.startswith('RangeFull'):
            return True
        if r.op != 'agg':
            return False
        lo = mk_field(r, 'start') if 'start' in r.a[2] else None
        hi = mk_field(r, 'end') if 'end' in r.a[2] else None
        if 'Inclusive' in s and hi is not None:
            hi = mk_add(hi, K(1))
        return (hi is None or self.upto(st, b, hi, n)) and (lo is None or self.upto(st, b, lo, n if hi is None else hi))

    def upto(self, st, b, x, hi):
        """Is `x` known to be at most `hi`, a bound within the sequence `b`?"""
        if x is hi or str(x) == '0':
            return True
        if x.op == 'call' and x.a[0].endswith('min') and any(y is hi for y in x.a[1]):
            return True
        if hi is mk_len(b) and self.in_range(st, b, x):
            return True
        return self.truth(st, mk_lt(hi, x)) is False

    def truth(self, st, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == 'not':
            r = self.truth(st, t.a[0])
            return None if r is None else (not r)
        r = self.assumed(t)
        if r is not None:
            return r
        r = st.facts.get(t)
        if r is not None:
            return r
        op = t.op
        if op == 'is':
            s = t.a[0]
            for k, v in st.facts.items():
                if v and k.op == 'is' and k.a[0] is s and k.a[1] != t.a[1]:
                    return False
            return None
        if op == 'lt':
            a, b = t.a
            if is_int(b):
                c = b.a[1]
                for k, v in st.facts.items():
                    if k.op == 'lt' and k.a[0] is a and is_int(k.a[1]):
                        c1 = k.a[1].a[1]
                        if v and c1 <= c:
                            return True
                        if not v and c1 >= c:
                            return False
                    elif k.op == 'eq' and v and k.a[0] is a and is_int(k.a[1]):
                        return k.a[1].a[1] < c
                if c <= 0 and a.op == 'call' and a.a[0] == 'len':
                    return False
                if 0 < c <= 8 and a.op == 'call' and a.a[0] == 'len' and all(st.facts.get(mk_eq(a, K(j))) is False or
                                                                             st.facts.get(mk_lt(a, K(j + 1))) is False for j in range(c)):
                    return False
                if c <= 0 and a.op == 'sub' and st.facts.get(T('lt', a.a[0], a.a[1])) is False:
                    return False
                return None
            g = self.fact(st, T('lt', b, a))
            if g:
                return False
            x, y = (a, b) if str(a) <= str(b) else (b, a)
            e = self.fact(st, T('eq', x, y))
            if e:
                return False
            return True if g is False and e is False else None
        if op == 'eq':
            a, b = t.a
            if is_int(b):
                c = b.a[1]
                for k, v in st.facts.items():
                    if k.op == 'lt' and k.a[0] is a and is_int(k.a[1]):
                        c1 = k.a[1].a[1]
                        if v and c >= c1:
                            return False
                        if not v and c < c1:
                            return False
                    elif k.op == 'eq' and v and k.a[0] is a and is_int(k.a[1]):
                        return k.a[1].a[1] == c
                return None
            l, g = self.fact(st, T('lt', a, b)), self.fact(st, T('lt', b, a))
            if l or g:
                return False
            return True if l is False and g is False else None
        if op == 'and':
            x, y = self.truth(st, t.a[0]), self.truth(st, t.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
        if op == 'or':
            x, y = self.truth(st, t.a[0]), self.truth(st, t.a[1])
            if x or y:
                return True
            if x is False and y is False:
                return False
        return None

    def branch(self, st, t):
        """-> [(state, bool)]"""
        pol = True
        while t.op == 'not':
            t = t.a[0]
            pol = not pol
        if t.op == 'and':
            out = []
            for s, v in self.branch(st, t.a[0]):
                if v:
                    out += [(s2, v2 == pol) for s2, v2 in self.branch(s, t.a[1])]
                else:
                    out.append((s, not pol))
            return out
        if t.op == 'or':
            out = []
            for s, v in self.branch(st, t.a[0]):
                if not v:
                    out += [(s2, v2 == pol) for s2, v2 in self.branch(s, t.a[1])]
                else:
                    out.append((s, pol))
            return out
        if t.op not in ('k',):
            self.branch_atoms.add(t)
        v = self.truth(st, t)
        if v is not None:
            if t.op != 'k' and t not in st.facts and 'max_level' not in str(t):
                st = st.copy()
                st.facts[t] = v
            if self.decide and t.op != 'k':
                st = st.copy()
                st.mon = self.decide(st.mon, t, v)
            return [(st, v == pol)]
        a = st.copy()
        a.facts[t] = True
        b = st.copy()
        b.facts[t] = False
        if self.decide:
            a.mon = self.decide(a.mon, t, True)
            b.mon = self.decide(b.mon, t, False)
        return [(a, pol), (b, not pol)]

    # ------------------------------------------------------------ events
    def event(self, kind, name, res, args, locs, ctx, line, st, extra=None):
        if not self.watch:
            return
        if any(x.hl for x in args):
            args = tuple(self.deep(st, x) for x in args)
        if kind == 'call' and res in self.p.F and self.p.F[res].get('perm') and len(args) == self.p.F[res]['n']:
            pm = self.p.F[res]['perm']
            old = [T('unk', '-') for _ in range(self.p.F[res]['nold'])]
            for x, i in zip(args, pm):
                if i is not None:
                    old[i] = x
            args = tuple(old)
        e = Ev()
        e.kind = kind
        e.name = name
        e.res = res
        e.args = args
        e.locs = locs
        e.ctx = ctx
        e.line = line
        e.extra = extra
        e.short = short(name)
        for nm, pred in self.watch:
            if pred(e):
                before = st.mon
                if self.step:
                    st.mon = self.step(st.mon, nm, e, st)
                else:
                    st.mon = st.mon | {nm}
                self.hits.setdefault(nm, []).append((e, dict(st.facts), before))

    # ------------------------------------------------------------ scheduling
    def goto(self, ctx, bb, st):
        info = self.p.info(ctx.fn)
        live = info['live'][bb]
        cid = ctx.id
        store = st.store
        for k in list(store):
            r = k
            while r.op in ('f', 'pv', 'idx'):
                r = r.a[0]
            if r.op == 'L' and r.a[0] == cid and r.a[1] not in live:
                del store[k]
        if info['preds'][bb] > 1:
            if not self.join((cid, bb), st):
                return
            st = self._joined
        self.work.append((ctx, bb, st))

    def join(self, node, st):
        lst = self.visited.setdefault(node, [])
        for o in lst:
            if o.mon == st.mon and o.store == st.store and o.facts.items() <= st.facts.items():
                return False
        if len(lst) >= 2:
            self.count(node, lst, st)
            w = self.widen(node, lst, st)
            if w is not None:
                st = w
                for o in lst:
                    if o.mon == st.mon and o.store == st.store and o.facts.items() <= st.facts.items():
                        return False
        if len(lst) >= self.cap // 2:
            for i, o in enumerate(lst):
                if o.mon == st.mon and o.store == st.store:
                    m = St(st.store, {k: v for k, v in o.facts.items() if st.facts.get(k) == v}, st.mon)
                    lst[i] = m.copy()
                    self._joined = m
                    return True
        if len(lst) < self.cap:
            c = st.copy()
            lst.append(c)
            self._joined = st
            return True
        key = self.shape(st)
        for i, o in enumerate(lst):
            if o.mon == st.mon and self.shape(o) == key:
                m = self.merge(node, o, st)
                if DEBUG: print('MERGE', node, [(k, o.store.get(k), v) for k, v in m.store.items() if v.op == 'phi'])
                if m.store == o.store and m.facts == o.facts:
                    return False
                lst[i] = m.copy()
                self._joined = m
                return True
        if len(lst) > 60:
            for i, o in enumerate(lst):
                if o.mon == st.mon:
                    if DEBUG: print('BIGMERGE', node, len(lst))
                    m = self.merge(node, o, st)
                    if m.store == o.store and m.facts == o.facts:
                        return False
                    lst[i] = m.copy()
                    self._joined = m
                    return True
        lst.append(st.copy())
        self._joined = st
        return True

    def count(self, node, lst, st):
        """Counters: a local that went through b+n, b+n+1, ... is widened to ctr(b), renewed in each iteration."""
        for k, v in list(st.store.items()):
            if k.op not in ('L', 'f') or v.op == 'k':
                continue
            b, c = split_const(v)
            if b is None or c <= 0:
                continue
            if b.op == 'ctr' and b.a[1] == Site(node, k, 'ctr'):
                self.kill(st, b.a[1])
                st.store[k] = b
            elif c >= 2:
                prev = mk_bin('add', b, K(c - 1))
                if any(o.store.get(k) is prev for o in lst):
                    st.store[k] = T('ctr', b, Site(node, k, 'ctr'))

    def widen(self, node, lst, st):
        """A counter: the same store was seen at least twice with only constant offsets differing."""
        hits = []
        for o in lst:
            if o.mon != st.mon or len(o.store) != len(st.store):
                continue
            diff = []
            for k, v in st.store.items():
                w = o.store.get(k)
                if w is v:
                    continue
                if w is None:
                    diff = None
                    break
                bv, cv = split_const(v)
                bw, cw = split_const(w)
                if bv is not bw or k.op not in ('L', 'f') or (bv is None and abs(cv - cw) > 8):
                    diff = None
                    break
                diff.append(k)
            if diff:
                hits.append((o, diff))
        if len(hits) < 2:
            return None
        ks = set(k for _, d in hits for k in d)
        store = dict(st.store)
        for k in ks:
            b, _ = split_const(st.store[k])
            if b is not None and b.op == 'ctr':
                store[k] = b
            elif b is not None:
                store[k] = T('ctr', b, Site(node, k, 'ctr'))
            else:
                store[k] = T('phi', '%s' % (node,), k, 'phi')
        facts = {k: v for k, v in st.facts.items() if all(o.facts.get(k) == v for o, _ in hits)}
        return St(store, facts, st.mon)

    def shape(self, st):
        out = []
        for k, v in st.store.items():
            if k.op == 'L':
                if v.op == 'agg' and len(self.p.adts.get(v.a[0], ())) > 2:
                    out.append((k, variants(v)))
                elif v is TRUE or v is FALSE:
                    out.append((k, v))
                elif v.op in ('not', 'is', 'eq', 'lt'):
                    out.append((k, 'cond'))
        return frozenset(out)

    def merge(self, node, a, b):
        store = {}
        for k, v in a.store.items():
            w = b.store.get(k)
            if w is v:
                store[k] = v
            elif k.op == 'L' and w is None:
                continue
            else:
                if w is None:
                    w = self.read(b, k)
                    if w is k and k.op != 'L' and k.hl:
                        w = None
                store[k] = v if v is w else self.phi(node, k, v, w)
        for k, w in b.store.items():
            if k not in a.store and k.op != 'L':
                v = self.read(a, k)
                if v is k and k.hl:
                    v = None
                store[k] = v if v is w else self.phi(node, k, v, w)
        facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        return St(store, facts, a.mon)

    def phi(self, node, k, v, w, d=0):
        if v is not None and w is not None and v.op == 'agg' and w.op == 'agg' and v.a[:3] == w.a[:3]:
            fs = []
            for n, x, y in zip(v.a[2], v.a[3:], w.a[3:]):
                fs.append((n, x if x is y else self.phi(node, T('f', k, n), x, y, d + 1)))
            return agg(v.a[0], v.a[1], fs)
        if v is not None and w is not None and v.op == 'tup' and w.op == 'tup' and len(v.a) == len(w.a):
            return T('tup', *[x if x is y else self.phi(node, T('f', k, str(i)), x, y, d + 1)
                              for i, (x, y) in enumerate(zip(v.a, w.a))])
        if v is not None and w is not None and k.op in ('L', 'f'):
            b1, b2 = root_ctr(v), root_ctr(w)
            if b1 is b2 and b1 is not None and (b1 is not v or b1 is not w):
                return T('ctr', b1, Site(node, k, 'ctr'))
        # keep the common root of a mutated container
        rv = v.a[0] if v is not None and v.op == 'upd' else v
        rw = w.a[0] if w is not None and w.op == 'upd' else w
        if rv is None:
            rv = k
        if rw is None:
            rw = k
        if rv is rw and rv.op != 'phi':
            nt = T('upd', rv, Site('phi', node, k))
            for x in (v, w):
                self.more_items(nt, self.items_of(x) if x is not None else None)
            return nt
        if v is not None and w is not None and v.op == w.op and v.op in STRUCT and len(v.a) == len(w.a) and d < 8 \
                and v.n != w.n:
            out = []
            for i, (x, y) in enumerate(zip(v.a, w.a)):
                if x is y or x == y:
                    out.append(x)
                elif isinstance(x, Term) and isinstance(y, Term):
                    out.append(self.phi(node, T('f', k, '#%d' % i), x, y, d + 1))
                elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and \
                        all(isinstance(p, Term) and isinstance(q, Term) for p, q in zip(x, y)):
                    out.append(tuple(p if p is q else self.phi(node, T('f', k, '#%d.%d' % (i, j)), p, q, d + 1)
                                     for j, (p, q) in enumerate(zip(x, y))))
                else:
                    out = None
                    break
            if out is not None:
                return T(v.op, *out)
        return T('phi', '%s' % (node,), k, 'phi')

    def run(self):
        fn = self.p.F.get(self.entry)
        if fn is None:
            raise KeyError(self.entry)
        for i in range(6):
            self.once(fn)
            if all(self.items.get(k) == v for k, v in self.queried.items()):
                break
            if i == 4:
                self.items = {k: None for k in self.items}
            if self.reset:
                self.reset()
            self.visited, self.hits, self.exits, self.panics, self.queried = {}, {}, [], [], {}
        return self

    def param(self, fn, i):
        """Name the rules give to parameter i of the entry point."""
        pm = fn.get('perm')
        if pm:
            if pm[i] is None:
                return fn['loc'][i + 1][2]
            i = pm[i]
        return self.params[i] if i < len(self.params) else None

    def once(self, fn):
        c = self.ctx(None, self.entry, None)
        st = St({}, {}, self.mon0)
        for i in range(fn['n']):
            nm = self.param(fn, i) or '$%d' % (i + 1)
            v = nm if isinstance(nm, Term) else T('par', nm)
            st.store[T('L', c.id, i + 1)] = v
        for k, v in self.binds.items():
            st.store[k] = v
        self.work.append((c, 0, st))
        while self.work:
            ctx, bb, st = self.work.pop()
            self.nsteps += 1
            if self.nsteps > self.budget:
                raise Budget('%s: budget exceeded' % self.entry)
            if isinstance(bb, tuple):
                self.exec_pipe(ctx, bb, st)
            else:
                self.exec_block(ctx, bb, st)

    # ------------------------------------------------------------ blocks
    def exec_block(self, ctx, bb, st):
        b = ctx.fn['b'][bb]
        if b is None:
            return
        for s in b[0]:
            if s[0] == '=':
                v = self.rvalue(ctx, st, s[2], s[1])
                l = self.loc(ctx, st, s[1])
                if v.op == 'call' and v.a[0] == '@same' and v.a[1][0] is l:
                    continue
                r = l
                while r.op in ('f', 'pv', 'idx'):
                    r = r.a[0]
                self.write(st, l, v)
                if len(s[1]) > 1 and ctx.parent is None and 0 < s[1][0] <= ctx.fn['n'] and '*' not in s[1]:
                    nm = self.param(ctx.fn, s[1][0] - 1)
                    if isinstance(nm, str):
                        self.event('write', 'write', None, (reroot(l, T('par', nm)), v), (l,), ctx, s[3], st)
                elif len(s[1]) > 1 and '*' in s[1]:
                    self.event('write', 'write', None, (l, v), (l,), ctx, s[3], st)
            elif s[0] == 'sd':
                pass
        t = b[1]
        k = t[0]
        if k == 'g':
            self.goto(ctx, t[1], st)
        elif k == 's':
            self.do_switch(ctx, t, st)
        elif k == 'r':
            self.do_return(ctx, st)
        elif k == 'a':
            c = self.operand(ctx, st, t[1])
            cond = c if t[2] else neg(c)
            for s2, v in self.branch(st, cond):
                if v:
                    self.goto(ctx, t[4], s2)
                else:
                    self.event('panic', 'assert:' + t[3], None, (c,), (), ctx, t[5], s2)
        elif k == 'c':
            self.do_call(ctx, bb, t, st)

    def do_switch(self, ctx, t, st):
        d = self.operand(ctx, st, t[1])
        ty = t[2]
        if ty == 'bool':
            tg = {v: b for v, b in t[3]}
            for s2, v in self.branch(st, d):
                n = tg.get(1 if v else 0, t[4])
                self.goto(ctx, n, s2)
            return
        cur = st
        if d.op == 'discr':
            yes = [c for c in (mk_isx(d.a[0], vn) for vn in self.p.variant_names(d.a[1])) if c.op == 'is' and self.assumed(c) is True]
            if len(yes) == 1 and yes[0] not in cur.facts:
                cur = cur.copy()
                cur.facts[yes[0]] = True
        for v, bb in t[3]:
            if d.op == 'discr':
                vn = self.p.variant_of(d.a[1], v)
                if d.a[0].op == 'entry' and vn in ('Occupied', 'Vacant'):
                    c = mk_isx(T('get', self.rd(cur, d.a[0].a[0]), d.a[0].a[1]), 'Some' if vn == 'Occupied' else 'None')
                else:
                    c = mk_isx(d.a[0], vn)
            else:
                if v >= 1 << 63 and ty.startswith('i'):
                    bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}.get(ty, 128)
                    v = v - (1 << bits)
                c = mk_eq(d, K(v))
            nxt = None
            for s2, val in self.branch(cur, c):
                if val:
                    self.goto(ctx, bb, s2)
                else:
                    nxt = s2
            if nxt is None:
                return
            cur = nxt
        ob = ctx.fn['b'][t[4]]
        if ob is not None and ob[1][0] == 'u':
            return
        # exhaustive two-variant pruning
        self.goto(ctx, t[4], cur)

    def do_return(self, ctx, st):
        r = self.read(st, T('L', ctx.id, 0))
        if r.op == 'L':
            r = UNIT
        cid = ctx.id
        for k in list(st.store):
            q = k
            while q.op in ('f', 'pv', 'idx'):
                q = q.a[0]
            if q.op == 'L' and q.a[0] == cid:
                del st.store[k]
        if ctx.parent is None:
            if self.split and r.op != 'k':
                # a returned condition: one exit per outcome
                for s2, v in self.branch(st, self.deep(st, r) if r.hl else r):
                    s2.store[T('L', cid, 0)] = K(v)
                    self.do_return(ctx, s2)
                return
            if r.op not in ('agg', 'k', 'phi', 'unk') and ctx.fn['loc'][0][0].startswith('core::result::Result<'):
                # the result of a call passed on: one exit per outcome
                r = self.deep(st, r) if r.hl else r
                if r.op not in ('agg', 'k', 'phi', 'unk'):
                    for s2, v in self.branch(st, mk_is(r, 'Ok')):
                        s2.store[T('L', cid, 0)] = ok(mk_pv(r, 'Ok', '0')) if v else err(mk_pv(r, 'Err', '0'))
                        self.do_return(ctx, s2)
                    return
            if self.watch:
                self.event('exit', 'exit', None, (r,), (), ctx, ctx.fn['l'], st)
            self.exits.append((self.deep(st, r) if r.hl else r, st.mon, dict(st.facts), dict(st.store)))
            if self.on_exit:
                self.on_exit(r, st)
            return
        self.resume(ctx.parent, ctx.cont, r, st)

    def assign(self, ctx, dest, target, v, st):
        """Write the result of a call and continue."""
        if target is None:
            return
        l = self.loc(ctx, st, dest)
        self.write(st, l, v)
        if len(dest) > 1 and '*' in dest:
            self.event('write', 'write', None, (l, v), (l,), ctx, 0, st)
        self.goto(ctx, target, st)

    def resume(self, ctx, cont, r, st):
        k = cont[0]
        if k == 'ret':
            _, dest, target, wrap = cont
            dest = untup(dest)
            if wrap is None:
                v = r
            elif wrap == 'Some':
                v = some(r)
            elif wrap == 'Ok':
                v = ok(r)
            elif wrap == 'Err':
                v = err(r)
            elif wrap == 'not':
                v = neg(r)
            elif wrap[0] == 'val':
                v = wrap[1]
            elif wrap[0] == 'filter':
                for s2, b in self.branch(st, r):
                    self.assign(ctx, dest, target, some(wrap[1]) if b else NONE, s2)
                return
            elif wrap[0] == 'loc':          # closure result stored at a location (or_insert_with)
                self.map_insert(ctx, wrap[1], wrap[2], r, st, wrap[3])
                v = T('pv', T('get', wrap[1], wrap[2]), 'Some', '0')
            else:
                v = r
            self.assign(ctx, dest, target, v, st)
        elif k == 'pipe':
            self.pipe_step(ctx, cont[1], r, st)
        else:
            raise Exception('cont')

    # ------------------------------------------------------------ calls
    def is_opaque(self, name, res):
        k = (name, res)
        r = self._opq.get(k)
        if r is None:
            r = any(o.search(name) or (res and o.search(res)) for o in self.opaque)
            self._opq[k] = r
        return r

    def can_inline(self, ctx, path):
        if path not in self.p.F or ctx.depth >= self.maxdepth:
            return False
        n = 0
        c = ctx
        while c:
            if c.path == path:
                n += 1
            c = c.parent
        return n < 1

    def push(self, ctx, path, args, cont, st, tag=None):
        c = self.ctx(ctx, path, cont, tag)
        # A fresh activation: forget stale frame contents of an earlier visit of this context.
        for i, a in enumerate(args):
            st.store[T('L', c.id, i + 1)] = a
        if not self.join((c.id, 'entry'), st):
            return
        self.work.append((c, 0, self._joined))

    def call_value(self, ctx, f, args, cont, st, tag, line):
        f = self.rd(st, f)
        if f.op == 'clo' and self.can_inline(ctx, f.a[0]):
            self.push(ctx, f.a[0], [f] + list(args), cont, st, tag)
            return
        if f.op == 'fn':
            if f.a[2]:
                names = self.ctor_fields(f.a[1], f.a[2])
                self.resume(ctx, cont, agg(f.a[1], f.a[2], list(zip(names, args))), st)
                return
            if self.can_inline(ctx, f.a[0]) and not self.is_opaque(f.a[0], None):
                vals = tuple(self.rd(st, a) for a in args)
                self.event('call', f.a[0], f.a[0], vals, tuple(args), ctx, line, st)
                self.push(ctx, f.a[0], list(args), cont, st, tag)
                return
            vals = tuple(self.rd(st, a) for a in args)
            self.event('call', f.a[0], None, vals, tuple(args), ctx, line, st)
            sh = short(f.a[0])
            if sh in IDENT_VAL or sh in IDENT_LOC or sh in ('Into::into', 'From::from'):
                self.resume(ctx, cont, vals[0], st)
                return
            self.resume(ctx, cont, T('call', f.a[0], vals, None), st)
            return
        vals = tuple(self.rd(st, a) for a in args)
        self.event('call', 'apply', None, (f,) + vals, tuple(args), ctx, line, st)
        self.resume(ctx, cont, T('call', 'apply', (f,) + vals, None), st)

    def ctor_fields(self, adt, var):
        a = self.p.adts.get(adt)
        if a:
            for v in a[1:]:
                if v[0] == var:
                    return v[2]
        return ['0', '1', '2', '3', '4', '5']

    def do_call(self, ctx, bb, t, st):
        _, f, ops, flags, dest, target, line, dty, mac = t
        args = [self.operand(ctx, st, o) for o in ops]
        if f[0] != 'k' or 'fn' not in f[1]:
            fv = self.operand(ctx, st, f)
            self.call_value(ctx, fv, args, ('ret', tup(dest), target, None), st, bb, line)
            return
        name, res, targs = f[1]['fn']
        if 'ctor' in f[1]:
            adt, var = f[1]['ctor']
            names = self.ctor_fields(adt, var)
            self.assign(ctx, dest, target, agg(adt, var, list(zip(names, args))), st)
            return
        tgt = res if res not in ('', '?') else (name if res == '' else None)
        sh = short(name)
        opq = self.is_opaque(name, tgt)
        if not opq:
            m = self.model(ctx, bb, sh, name, tgt, targs, args, flags, dest, target, line, st, dty)
            if m:
                return
        vals = tuple(self.rd(st, a) if fl in 'rmp' else a for a, fl in zip(args, flags))
        if not opq and tgt and self.can_inline(ctx, tgt):
            self.event('call', name, tgt, vals, tuple(args), ctx, line, st)
            self.push(ctx, tgt, args, ('ret', tup(dest), target, None), st, bb)
            return
        self.opaque_call(ctx, bb, name, tgt, vals, args, flags, dest, target, line, st)

    def opaque_call(self, ctx, bb, name, tgt, vals, args, flags, dest, target, line, st):
        sh = short(name)
        self.event('call', name, tgt, vals, tuple(args), ctx, line, st)
        if target is None:
            self.event('panic', name, tgt, vals, (), ctx, line, st)
            return
        site = Site(ctx.id, bb)
        meth = sh.split('::')[-1]
        mut = [a for a, fl in zip(args, flags) if fl == 'm'] if meth not in NOMUT else []
        if mut or IMPURE.search(name):
            r = T('call', name, vals, site)
            self.kill(st, site)
            for a in mut:
                self.mutate(st, a, Site(ctx.id, bb, 'm'))
        else:
            r = T('call', name, vals, None)
        clos = [v for v in vals if v.op == 'clo']
        if clos:
            for cv in clos:
                s2 = st.copy()
                n = self.p.F[cv.a[0]]['n'] - 1 if cv.a[0] in self.p.F else 0
                self.call_value(ctx, cv, [T('unk', 'arg%d' % i, short(name)) for i in range(n)],
                                ('ret', tup(dest), target, ('val', r)), s2, (bb, 'mayclo'), line)
        self.assign(ctx, dest, target, r, st)

    def put_back(self, ctx, st, dest, target, l):
        """The result of a call goes straight to place `l`."""
        if len(dest) != 1:
            return False
        for _ in range(4):
            b = ctx.fn['b'][target] if isinstance(target, int) else None
            if b is None:
                return False
            for s in b[0]:
                if s[0] == '=' and s[2][0] == 'U' and s[2][1][0] in ('m', 'c') and list(s[2][1][1]) == list(dest):
                    return self.loc(ctx, st, s[1]) is l
            t = b[1]
            target = t[1] if t[0] == 'g' else t[2] if t[0] == 'd' else None
        return False

    # ------------------------------------------------------------ models of std
    def by_variant(self, st, o, var):
        """Split on whether option/result `o` is `var`: -> [(state, bool)]"""
        return self.branch(st, mk_isx(o, var))

    def map_insert(self, ctx, m, k, v, st, line):
        self.event('call', 'HashMap::insert', None, (self.rd(st, m), k, v), (m, k, v), ctx, line, st)
        self.mutate(st, m, Site(ctx.id, line, 'ins'))

    def model(self, ctx, bb, sh, name, tgt, targs, args, flags, dest, target, line, st, dty):
        A = lambda v, s=None: (self.assign(ctx, dest, target, v, s or st), True)[1]
        rd = lambda i: self.rd(st, args[i]) if flags[i] in 'rmp' else args[i]
        typ, _, meth = sh.rpartition('::')

        if sh in ('Box::new_uninit', 'boxed::box_new_uninit'):
            return A(T('box', Site(ctx.id, bb)))
        if sh in ('boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init'):
            b = args[0]
            return A(self.rd(st, T('f', T('f', b, 'value'), 'value')) if b.op == 'box' else b)
        if sh in IDENT_LOC:
            if tgt and tgt in self.p.F:
                if not (typ in ('Deref', 'DerefMut') and False):
                    return False
            return A(args[0])
        if sh in IDENT_VAL:
            if sh == 'Clone::clone' and flags[0] in 'rmp':
                v = self.rd(st, args[0])
                if 'fastrand' in (targs[0] if targs else ''):
                    return False
                return A(v)
            return A(rd(0))
        if sh in ('Into::into', 'From::from', 'TryFrom::try_from'):
            if sh == 'Into::into' and len(targs) >= 2:
                u = targs[1].split('<')[0]
                cand = '<%s as core::convert::From<%s>>::from' % (u, targs[0])
                if self.can_inline(ctx, cand):
                    self.event('call', cand, cand, (args[0],), tuple(args), ctx, line, st)
                    self.push(ctx, cand, args, ('ret', tup(dest), target, None), st, bb)
                    return True
                return A(args[0])
            if tgt and tgt in self.p.F:
                return False
            if sh == 'TryFrom::try_from':
                return False
            return A(rd(0))
        if sh == 'Rng::shuffle' and len(args) == 2:
            self.event('call', name, None, (self.rd(st, args[0]), self.rd(st, args[1])), tuple(args), ctx, line, st)
            self.write(st, args[1], T('call', 'shuffled', (self.rd(st, args[1]),), None))
            return A(UNIT)
        if typ == 'PartialEq':
            v = mk_eq(self.deep(st, self.rd(st, args[0])), self.deep(st, self.rd(st, args[1])))
            return A(v if meth == 'eq' else neg(v))
        if typ == 'PartialOrd' and meth in ('lt', 'le', 'gt', 'ge'):
            a, b = self.rd(st, args[0]), self.rd(st, args[1])
            return A({'lt': lambda: mk_lt(a, b), 'gt': lambda: mk_lt(b, a),
                      'le': lambda: neg(mk_lt(b, a)), 'ge': lambda: neg(mk_lt(a, b))}[meth]())
        if sh in ('Ord::cmp',):
            return A(T('call', 'cmp', (self.rd(st, args[0]), self.rd(st, args[1])), None))
        if sh == 'PartialOrd::partial_cmp':
            return A(some(T('call', 'cmp', (self.rd(st, args[0]), self.rd(st, args[1])), None)))
        if sh in ('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min'):
            a, b = args[0], args[1]
            for s2, v in self.branch(st, mk_lt(b, a) if meth == 'min' else mk_lt(a, b)):
                self.assign(ctx, dest, target, b if v else a, s2)
            return True
        if meth in ('checked_sub', 'saturating_sub') and typ in UNSIGNED:
            a, b = rd(0), rd(1)
            for s2, v in self.branch(st, unsigned(mk_lt(a, b))):
                r = mk_sub(a, b)
                if meth == 'checked_sub':
                    self.assign(ctx, dest, target, NONE if v else some(r), s2)
                else:
                    self.assign(ctx, dest, target, K(0) if v else r, s2)
            return True
        if sh == 'Ord::clamp':
            a, lo, hi = args
            for s2, v in self.branch(st, mk_lt(a, lo)):
                if v:
                    self.assign(ctx, dest, target, lo, s2)
                else:
                    for s3, v3 in self.branch(s2, mk_lt(hi, a)):
                        self.assign(ctx, dest, target, hi if v3 else a, s3)
            return True
        if sh in BINTRAIT:
            return A(mk_bin(BINTRAIT[sh], rd(0), rd(1)))
        if sh in ASGTRAIT:
            v = mk_bin(ASGTRAIT[sh], self.rd(st, args[0]), rd(1))
            self.write(st, args[0], v)
            self.event('write', 'write', None, (args[0], v), (args[0],), ctx, line, st)
            return A(UNIT)
        if sh == 'Not::not':
            return A(neg(rd(0)))
        if sh == 'Neg::neg':
            return A(mk_sub(K(0), rd(0)))
        if sh == 'Try::branch':
            o = args[0]
            if re.match(r'(core|std)::option::Option', targs[0] if targs else ''):
                for s2, v in self.by_variant(st, o, 'Some'):
                    self.assign(ctx, dest, target,
                                cf_continue(mk_pv(o, 'Some', '0')) if v else cf_break(NONE), s2)
            else:
                for s2, v in self.by_variant(st, o, 'Ok'):
                    self.assign(ctx, dest, target, cf_continue(mk_pv(o, 'Ok', '0')) if v else
                                cf_break(err(mk_pv(o, 'Err', '0'))), s2)
            return True
        if sh == 'FromResidual::from_residual':
            o = args[0]
            if o.op == 'agg' and o.a[1] == 'Err' and len(targs) >= 2:
                # error conversion through From
                mt = re.match(r'core::result::Result<.*, ([^<>]*(?:<.*>)?)>$', targs[1])
                mf = re.match(r'core::result::Result<.*, ([^<>]*(?:<.*>)?)>$', targs[0])
                return A(o)
            return A(o)
        if typ in ('FnOnce', 'FnMut', 'Fn') and meth in ('call_once', 'call_mut', 'call'):
            tpl = args[1]
            xs = list(tpl.a) if tpl.op == 'tup' else [T('f', tpl, str(i)) for i in range(4)]
            self.call_value(ctx, args[0], xs, ('ret', tup(dest), target, None), st, bb, line)
            return True
        if typ == 'Option':
            return self.m_option(ctx, bb, meth, args, flags, dest, target, line, st, A, rd, dty)
        if typ == 'Result':
            return self.m_result(ctx, bb, meth, args, flags, dest, target, line, st, A, rd, dty)
        if typ == 'bool' and meth in ('then', 'then_some'):
            for s2, v in self.branch(st, args[0]):
                if not v:
                    self.assign(ctx, dest, target, NONE, s2)
                elif meth == 'then_some':
                    self.assign(ctx, dest, target, some(args[1]), s2)
                else:
                    self.call_value(ctx, args[1], [], ('ret', tup(dest), target, 'Some'), s2, bb, line)
            return True
        if typ == 'mem':
            if meth == 'replace':
                old = self.rd(st, args[0])
                self.write(st, args[0], args[1])
                self.event('write', 'write', None, (args[0], args[1]), (args[0],), ctx, line, st)
                return A(old)
            if meth == 'take':
                old = self.rd(st, args[0])
                v = dflt(dty)
                self.write(st, args[0], v)
                self.event('write', 'write', None, (args[0], v), (args[0],), ctx, line, st)
                return A(old)
            if meth == 'drop':
                return A(UNIT)
            if meth == 'swap':
                a, b = self.rd(st, args[0]), self.rd(st, args[1])
                self.write(st, args[0], b)
                self.write(st, args[1], a)
                return A(UNIT)
        if typ in ('Mutex', 'RwLock') and meth in ('lock', 'write', 'read'):
            return A(ok(args[0]))
        if typ in ('RangeInclusive', 'Range'):
            r = self.rd(st, args[0]) if args else None
            if meth == 'new':
                return A(agg('core::ops::range::RangeInclusive', 'RangeInclusive',
                             [('start', args[0]), ('end', args[1])]))
            if meth in ('start', 'end'):
                return A(mk_field(r, meth))
            if meth == 'into_inner':
                return A(T('tup', mk_field(r, 'start'), mk_field(r, 'end')))
            if meth == 'is_empty':
                s, e = mk_field(r, 'start'), mk_field(r, 'end')
                return A(mk_lt(e, s) if typ == 'RangeInclusive' else neg(mk_lt(s, e)))
            if meth == 'contains':
                x = self.rd(st, args[1])
                s, e = mk_field(r, 'start'), mk_field(r, 'end')
                hi = neg(mk_lt(e, x)) if typ == 'RangeInclusive' else mk_lt(x, e)
                return A(T('and', neg(mk_lt(x, s)), hi))
        if name.startswith('nakamoto_common::p2p::peer::Store::') and not (tgt and tgt in self.p.F) and \
                meth in ('get', 'get_mut', 'insert', 'remove', 'iter', 'len', 'is_empty'):
            # the address book, a map that never overwrites (implementations are checked against this)
            return self.m_coll(ctx, bb, 'HashSet' if meth == 'insert' else 'HashMap', meth, name, args, flags, dest, target, line, st, A, rd, targs)
        if typ in COLL:
            return self.m_coll(ctx, bb, typ, meth, name, args, flags, dest, target, line, st, A, rd, targs)
        if typ in ('Entry', 'OccupiedEntry', 'VacantEntry'):
            return self.m_entry(ctx, bb, typ, meth, args, flags, dest, target, line, st, A, rd)
        if sh in ('Index::index', 'IndexMut::index_mut'):
            if tgt and tgt in self.p.F:
                return False
            b = self.rd(st, args[0])
            i = rd(1)
            if 'HashMap' in targs[0] or 'BTreeMap' in targs[0]:
                g = T('get', b, i)
                for s2, v in self.by_variant(st, g, 'Some'):
                    if v:
                        self.assign(ctx, dest, target, T('pv', g, 'Some', '0'), s2)
                    else:
                        self.event('panic', 'index', None, (b, i), (), ctx, line, s2)
                return True
            if 'Range' in (targs[1] if len(targs) > 1 else ''):
                if not self.in_slice(st, b, i):
                    self.event('panic', 'slice', None, (b, i), (), ctx, line, st)
                return A(T('call', 'slice', (b, i), None))
            its = self.items_of(b)
            if its and random_index(b, i):
                # one of the elements, at random
                for x, s2 in self.picked(st, b, its):
                    self.assign(ctx, dest, target, x, s2)
                return True
            if not self.in_range(st, b, i):
                self.event('panic', 'index', None, (b, i), (), ctx, line, st)
            return A(mk_idx(b, i))
        if sh == 'IntoIterator::into_iter':
            if tgt and tgt in self.p.F:
                return False
            v = rd(0)
            ty = targs[0] if targs else ''
            it = self.mk_iter(v, ty)
            src = self.plain(it)
            if src is not None and self.truth(st, mk_lt(mk_len(src), K(1))) is False:
                # the loop over it has at least one round
                st.facts[T('fresh', src)] = True
            return A(it)
        if typ == 'Iterator' or typ == 'DoubleEndedIterator' or typ == 'ExactSizeIterator':
            return self.m_iter(ctx, bb, meth, name, tgt, targs, args, flags, dest, target, line, st, A, rd)
        if sh == 'Extend::extend':
            it = args[1]
            it = self.rd(st, it) if it.op == 'L' else it
            if it.op not in ('it', 'ad'):
                it = self.mk_iter(it, targs[2] if len(targs) > 2 else '')
            vals = (self.rd(st, args[0]), it)
            self.event('call', name, tgt, vals, tuple(args), ctx, line, st)
            self.start_pipe(ctx, bb, it, ('extend', args[0]), dest, target, line, st)
            return True
        if sh in ('iter::once', 'once::once'):
            return A(T('it', 'elem', T('arr', args[0])))
        if sh in ('empty::empty', 'iter::empty'):
            return A(T('it', 'elem', T('arr')))
        if meth == 'is_empty' and len(args) == 1 and tgt is None:
            return False
        if sh in ('Default::default',):
            if tgt and tgt in self.p.F:
                return False
            if dty.startswith('core::option::Option'):
                return A(NONE)
            if dty in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i32', 'i64'):
                return A(K(0))
            if dty == 'bool':
                return A(FALSE)
            if dty.startswith('alloc::vec::Vec'):
                return A(T('call', 'Vec::new', (), None))
            return False
        if name.startswith('core::panicking') or name.startswith('std::panicking') or \
                sh in ('option::expect_failed', 'result::unwrap_failed', 'panicking::begin_panic'):
            dbg = ctx.fn['b'][bb][1][8] == 'debug_assert'
            self.event('panic', 'debug_assert' if dbg else name, tgt, tuple(rd(i) for i in range(len(args))), (), ctx, line, st)
            return True
        return False

    def m_option(self, ctx, bb, meth, args, flags, dest, target, line, st, A, rd, dty=""):
        o = rd(0)
        cont = lambda w: ('ret', tup(dest), target, w)
        pv = mk_pv(o, 'Some', '0')
        if meth in ('is_some', 'is_none'):
            return A(mk_is(o, 'Some' if meth == 'is_some' else 'None'))
        if meth in ('unwrap', 'expect', 'unwrap_unchecked'):
            for s2, v in self.by_variant(st, o, 'Some'):
                if v:
                    self.assign(ctx, dest, target, pv, s2)
                else:
                    self.event('panic', 'Option::' + meth, None, (o,), (), ctx, line, s2)
            return True
        if meth == 'take':
            self.write(st, args[0], NONE)
            self.event('write', 'write', None, (args[0], NONE), (args[0],), ctx, line, st)
            return A(o)
        if meth in ('replace', 'insert'):
            self.write(st, args[0], some(args[1]))
            self.event('write', 'write', None, (args[0], some(args[1])), (args[0],), ctx, line, st)
            return A(o if meth == 'replace' else T('pv', args[0], 'Some', '0'))
        two = {
            'map': (lambda s: self.call_value(ctx, args[1], [pv], cont('Some'), s, bb, line),
                    lambda s: A(NONE, s)),
            'and_then': (lambda s: self.call_value(ctx, args[1], [pv], cont(None), s, bb, line),
                         lambda s: A(NONE, s)),
            'unwrap_or': (lambda s: A(pv, s), lambda s: A(args[1], s)),
            'unwrap_or_default': (lambda s: A(pv, s),
                                  lambda s: A(dflt(dty), s)),
            'unwrap_or_else': (lambda s: A(pv, s),
                               lambda s: self.call_value(ctx, args[1], [], cont(None), s, bb, line)),
            'or_else': (lambda s: A(some(pv), s),
                        lambda s: self.call_value(ctx, args[1], [], cont(None), s, bb, line)),
            'or': (lambda s: A(some(pv), s), lambda s: A(args[1], s)),
            'and': (lambda s: A(args[1], s), lambda s: A(NONE, s)),
            'ok_or': (lambda s: A(ok(pv), s), lambda s: A(err(args[1]), s)),
            'ok_or_else': (lambda s: A(ok(pv), s),
                           lambda s: self.call_value(ctx, args[1], [], cont('Err'), s, bb, line)),
            'map_or': (lambda s: self.call_value(ctx, args[2], [pv], cont(None), s, bb, line),
                       lambda s: A(args[1], s)),
            'map_or_else': (lambda s: self.call_value(ctx, args[2], [pv], cont(None), s, bb, line),
                            lambda s: self.call_value(ctx, args[1], [], cont(None), s, bb, line)),
            'is_some_and': (lambda s: self.call_value(ctx, args[1], [pv], cont(None), s, bb, line),
                            lambda s: A(FALSE, s)),
            'is_none_or': (lambda s: self.call_value(ctx, args[1], [pv], cont(None), s, bb, line),
                           lambda s: A(TRUE, s)),
            'filter': (lambda s: self.call_value(ctx, args[1], [pv], cont(('filter', pv)), s, bb, line),
                       lambda s: A(NONE, s)),
            'inspect': (lambda s: self.call_value(ctx, args[1], [pv], cont(('val', some(pv))), s, bb, line),
                        lambda s: A(NONE, s)),
            'flatten': (lambda s: A(pv, s), lambda s: A(NONE, s)),
            'get_or_insert_with': (lambda s: A(T('pv', args[0], 'Some', '0'), s),
                                   lambda s: self.call_value(ctx, args[1], [], cont(None), s, bb, line)),
        }
        if meth in two:
            for s2, v in self.by_variant(st, o, 'Some'):
                two[meth][0 if v else 1](s2)
            return True
        if meth in ('iter', 'iter_mut', 'into_iter'):
            return A(T('it', 'elem', o))
        return False

    def m_result(self, ctx, bb, meth, args, flags, dest, target, line, st, A, rd, dty=""):
        o = rd(0)
        cont = lambda w: ('ret', tup(dest), target, w)
        pv = mk_pv(o, 'Ok', '0')
        pe = mk_pv(o, 'Err', '0')
        if meth in ('is_ok', 'is_err'):
            return A(mk_is(o, 'Ok' if meth == 'is_ok' else 'Err'))
        if meth in ('unwrap', 'expect'):
            for s2, v in self.by_variant(st, o, 'Ok'):
                if v:
                    self.assign(ctx, dest, target, pv, s2)
                else:
                    self.event('panic', 'Result::' + meth, None, (o,), (), ctx, line, s2)
            return True
        if meth == 'ok' or meth == 'err':
            self.event('call', 'core::result::Result::' + meth, None, (o,), tuple(args), ctx, line, st)
        two = {
            'map': (lambda s: self.call_value(ctx, args[1], [pv], cont('Ok'), s, bb, line),
                    lambda s: A(err(pe), s)),
            'map_err': (lambda s: A(ok(pv), s),
                        lambda s: self.call_value(ctx, args[1], [pe], cont('Err'), s, bb, line)),
            'and_then': (lambda s: self.call_value(ctx, args[1], [pv], cont(None), s, bb, line),
                         lambda s: A(err(pe), s)),
            'or_else': (lambda s: A(ok(pv), s),
                        lambda s: self.call_value(ctx, args[1], [pe], cont(None), s, bb, line)),
            'unwrap_or': (lambda s: A(pv, s), lambda s: A(args[1], s)),
            'unwrap_or_default': (lambda s: A(pv, s),
                                  lambda s: A(dflt(dty), s)),
            'unwrap_or_else': (lambda s: A(pv, s),
                               lambda s: self.call_value(ctx, args[1], [pe], cont(None), s, bb, line)),
            'ok': (lambda s: A(some(pv), s), lambda s: A(NONE, s)),
            'err': (lambda s: A(NONE, s), lambda s: A(some(pe), s)),
            'map_or': (lambda s: self.call_value(ctx, args[2], [pv], cont(None), s, bb, line),
                       lambda s: A(args[1], s)),
            'map_or_else': (lambda s: self.call_value(ctx, args[2], [pv], cont(None), s, bb, line),
                            lambda s: self.call_value(ctx, args[1], [pe], cont(None), s, bb, line)),
            'is_ok_and': (lambda s: self.call_value(ctx, args[1], [pv], cont(None), s, bb, line),
                          lambda s: A(FALSE, s)),
            'and': (lambda s: A(args[1], s), lambda s: A(err(pe), s)),
            'or': (lambda s: A(ok(pv), s), lambda s: A(args[1], s)),
            'inspect_err': (lambda s: A(o, s),
                            lambda s: self.call_value(ctx, args[1], [pe], cont(('val', o)), s, bb, line)),
        }
        if meth in two:
            for s2, v in self.by_variant(st, o, 'Ok'):
                two[meth][0 if v else 1](s2)
            return True
        return False

    def m_coll(self, ctx, bb, typ, meth, name, args, flags, dest, target, line, st, A, rd, targs):
        if not args:
            if meth in ('new', 'with_capacity', 'with_hasher', 'default'):
                return A(T('call', '%s::new' % typ, (), None))
            return False
        if meth in ('with_capacity', 'with_hasher', 'with_capacity_and_hasher'):
            return A(T('call', '%s::new' % typ, (), None))
        v = rd(0)
        if typ in ('Vec', '[T]', '[T; N]', 'VecDeque'):
            # methods that panic when out of range
            bad = (meth in ('remove', 'swap_remove') and typ == 'Vec' and not self.in_range(st, v, rd(1))) or \
                  (meth in ('insert', 'split_off', 'split_at', 'split_at_mut') and len(args) > 1 and not self.upto(st, v, rd(1), mk_len(v))) or \
                  (meth == 'drain' and len(args) > 1 and not self.in_slice(st, v, rd(1)))
            if bad:
                self.event('panic', meth, None, (v, rd(1)), (), ctx, line, st)
        keyed = typ in MAPS or typ in SETS
        if (meth.endswith('_mut') or meth == 'append') and v in self.items:
            self.items[v] = None
        if meth == 'len':
            return A(mk_len(v))
        if meth == 'is_empty':
            return A(mk_lt(mk_len(v), K(1)))
        if meth in ('get', 'get_mut') and typ in ('Vec', '[T]', '[T; N]', 'NonEmpty', 'VecDeque') and len(args) == 2 and random_index(v, rd(1)):
            its = self.items_of(v)
            if its:
                for x, s2 in self.picked(st, v, its):
                    self.assign(ctx, dest, target, some(x), s2)
                return True
        if meth in ('get', 'get_mut') and typ not in ('str', 'String') and len(args) == 2:
            return A(T('get', v, self.deep(st, rd(1))))
        if meth in ('contains_key',) or (meth == 'contains' and typ in SETS):
            return A(mk_is(T('get', v, self.deep(st, rd(1))), 'Some'))
        if meth == 'contains':
            x = rd(1)
            if v.op == 'arr':
                t = FALSE
                for y in v.a:
                    e = mk_eq(x, y)
                    t = e if t is FALSE else T('or', t, e)
                return A(t)
            return A(T('call', 'contains', (v, x), None))
        if keyed and meth == 'insert':
            vals = tuple(rd(i) for i in range(len(args)))
            k = self.deep(st, vals[1])
            g = T('get', v, k)
            self.event('call', name, None, vals, tuple(args), ctx, line, st)
            had = st.facts.get(mk_is(g, 'Some'))
            site = Site(ctx.id, bb, 'm')
            self.mutate(st, args[0], site)
            g, k = stale(g, site), stale(k, site)
            if had is not None:
                st.facts[mk_is(g, 'Some')] = had
            nv = self.read(st, args[0])
            st.facts[mk_is(T('get', nv, k), 'Some')] = True
            return A(neg(mk_is(g, 'Some')) if typ in SETS else g)
        if keyed and meth in ('remove', 'remove_entry', 'take'):
            vals = tuple(rd(i) for i in range(len(args)))
            k = self.deep(st, vals[1])
            g = T('get', v, k)
            self.event('call', name, None, vals, tuple(args), ctx, line, st)
            outs = self.branch(st, mk_is(g, 'Some'))
            site = Site(ctx.id, bb, 'm')
            for s2, had in outs:
                self.mutate(s2, args[0], site)
                if site in g.sites:
                    g, k = stale(g, site), stale(k, site)
                s2.facts[mk_is(g, 'Some')] = had
                nv = self.read(s2, args[0])
                s2.facts[mk_is(T('get', nv, k), 'Some')] = False
                if typ in SETS and meth == 'remove':
                    r = K(had)
                else:
                    r = g if meth != 'remove_entry' else (some(T('tup', k, mk_pv(g, 'Some', '0'))) if had else NONE)
                self.assign(ctx, dest, target, r, s2)
            return True
        if meth == 'entry' and typ in MAPS:
            return A(T('entry', args[0], self.deep(st, rd(1))))
        if typ in MAPS and meth in ('iter', 'iter_mut', 'drain', 'into_iter', 'range', 'range_mut'):
            if meth == 'range' or meth == 'range_mut':
                return A(T('ad', 'range', T('it', 'kv', v), rd(1)))
            if meth == 'drain':
                self.event('call', name, None, (v,), tuple(args), ctx, line, st)
                self.mutate(st, args[0], Site(ctx.id, bb, 'm'))
            return A(T('it', 'kv', v))
        if typ in MAPS and meth in ('keys', 'into_keys'):
            return A(T('it', 'key', v))
        if typ in MAPS and meth in ('values', 'values_mut', 'into_values'):
            return A(T('it', 'val', v))
        if typ in SETS and meth in ('iter', 'drain', 'into_iter'):
            if meth == 'drain':
                self.event('call', name, None, (v,), tuple(args), ctx, line, st)
                self.mutate(st, args[0], Site(ctx.id, bb, 'm'))
            return A(T('it', 'key', v))
        if meth in ('iter', 'iter_mut', 'into_iter', 'chars', 'bytes'):
            return A(T('it', 'elem', v))
        if meth in ('chunks', 'windows', 'chunks_exact'):
            if self.truth(st, mk_lt(K(0), rd(1))) is not True:
                self.event('panic', meth, None, (v, rd(1)), (), ctx, line, st)
            return A(T('it', 'elem', T('call', meth, (v, rd(1)), None)))
        if meth == 'drain':
            self.event('call', name, None, (v, rd(1)), tuple(args), ctx, line, st)
            self.mutate(st, args[0], Site(ctx.id, bb, 'm'))
            return A(T('it', 'elem', v))
        if meth in ('first', 'last', 'front', 'back', 'first_mut', 'last_mut', 'front_mut', 'back_mut',
                    'first_key_value', 'last_key_value', 'tail', 'peek'):
            if typ == 'NonEmpty':
                return A(T('call', meth.replace('_mut', ''), (v,), None))
            return A(T('call', meth.replace('_mut', ''), (v,), None))
        if meth in ('push', 'push_back', 'push_front', 'extend_from_slice', 'append', 'clear', 'truncate',
                    'resize', 'insert', 'sort', 'sort_unstable', 'dedup', 'reverse', 'retain', 'push_str',
                    'sort_by', 'sort_by_key', 'sort_unstable_by_key', 'retain_mut', 'sort_unstable_by',
                    'swap', 'copy_from_slice', 'fill', 'reserve', 'shrink_to_fit', 'rotate_left'):
            vals = tuple(rd(i) for i in range(len(args)))
            self.event('call', name, None, vals, tuple(args), ctx, line, st)
            if meth in ('sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'reserve', 'shrink_to_fit',
                        'sort_unstable_by_key', 'sort_unstable_by'):
                if meth in ('reserve', 'shrink_to_fit'):
                    return A(UNIT)
                if v.op == 'upd' and v.a[0].op == 'call' and v.a[0].a[0] in ('sorted', 'reversed', 'sorted_by'):
                    # sorting again after an update: the earlier order does not matter
                    x = v.a[0].a[1][0]
                    while x.op == 'call' and x.a[0] in ('sorted', 'reversed', 'sorted_by'):
                        x = x.a[1][0]
                    w = T('upd', x.a[0] if x.op == 'upd' else x, v.a[1])
                    if v in self.items:
                        self.items[w] = self.items[v]
                    v = w
                nv = T('call', 'sorted', (v,), None)
                if meth not in ('sort', 'sort_unstable'):
                    way = self.order(vals[1], 'key' in meth)
                    nv = nv if way == 'asc' else T('call', 'reversed', (nv,), None) if way == 'desc' else T('call', 'sorted_by', (v,), None)
                self.write(st, args[0], nv)
                return A(UNIT)
            if meth == 'reverse':
                self.write(st, args[0], T('call', 'reversed', (v,), None))
                return A(UNIT)
            clo = [x for x in vals if x.op == 'clo']
            its = self.items_of(v)
            if its is not None:
                new = self.item(st, vals[1]) if meth in ('push', 'push_back', 'push_front') else (its if meth in ('retain', 'truncate', 'clear', 'dedup') else None)
            self.mutate(st, args[0], Site(ctx.id, bb, 'm'))
            nv = self.read(st, args[0])
            if nv.op == 'upd':
                self.more_items(nv, its if its is None else (None if new is None else its))
                if its is not None and new is not None:
                    self.more_items(nv, new)
            if meth == 'append':
                self.mutate(st, args[1], Site(ctx.id, bb, 'm2'))
            if meth == 'clear':
                pass
            if meth in ('retain', 'retain_mut') and clo:
                kind = 'kv' if typ in MAPS else ('key' if typ in SETS else 'elem')
                self.start_pipe(ctx, bb, T('it', kind, v), ('retain', args[1], args[0]), dest, target, line, st)
                return True
            return A(UNIT)
        if meth in ('pop', 'pop_front', 'pop_back', 'remove', 'swap_remove', 'pop_first', 'pop_last', 'split_off'):
            vals = tuple(rd(i) for i in range(len(args)))
            if meth == 'split_off' and typ == 'Vec' and self.put_back(ctx, st, dest, target, args[0]):
                # v = v.split_off(n) is v.drain(..n)
                self.event('call', name.replace('split_off', 'drain'), None, (vals[0], agg('core::ops::range::RangeTo', 'RangeTo', [('end', vals[1])])),
                           tuple(args), ctx, line, st)
                self.mutate(st, args[0], Site(ctx.id, bb, 'm'))
                return A(T('call', '@same', (args[0],), None))
            self.event('call', name, None, vals, tuple(args), ctx, line, st)
            site = Site(ctx.id, bb)
            self.kill(st, site)
            self.mutate(st, args[0], Site(ctx.id, bb, 'm'))
            return A(T('call', meth, vals, site))
        if meth == 'join' or meth == 'concat':
            return A(T('call', meth, tuple(rd(i) for i in range(len(args))), None))
        return False

    def m_entry(self, ctx, bb, typ, meth, args, flags, dest, target, line, st, A, rd):
        e = rd(0)
        if e.op == 'pv':
            e = e.a[0]
        if e.op != 'entry':
            return False
        m, k = e.a
        mv = self.rd(st, m)
        g = T('get', mv, k)
        slot = T('pv', g, 'Some', '0')
        if typ == 'Entry' and meth in ('or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key'):
            for s2, v in self.branch(st, mk_is(g, 'Some')):
                if v:
                    self.assign(ctx, dest, target, slot, s2)
                elif meth == 'or_insert_with':
                    self.call_value(ctx, args[1], [], ('ret', tup(dest), target, ('loc', m, k, line)), s2, bb, line)
                else:
                    val = args[1] if meth == 'or_insert' else T('call', 'Default::default', (), None)
                    self.map_insert(ctx, m, k, val, s2, line)
                    self.assign(ctx, dest, target, T('pv', T('get', self.rd(s2, m), k), 'Some', '0'), s2)
            return True
        if typ == 'VacantEntry' and meth == 'insert':
            self.map_insert(ctx, m, k, args[1], st, line)
            return A(T('pv', T('get', self.rd(st, m), k), 'Some', '0'))
        if typ == 'OccupiedEntry':
            if meth in ('get', 'get_mut', 'into_mut'):
                return A(slot)
            if meth in ('remove', 'remove_entry'):
                self.event('call', 'HashMap::remove', None, (mv, k), (m, k), ctx, line, st)
                self.mutate(st, m, Site(ctx.id, bb, 'm'))
                return A(slot)
            if meth == 'insert':
                self.map_insert(ctx, m, k, args[1], st, line)
                return A(slot)
        if meth == 'key':
            return A(k)
        if typ == 'Entry' and meth == 'and_modify':
            for s2, v in self.branch(st, mk_is(g, 'Some')):
                if v:
                    self.call_value(ctx, args[1], [slot], ('ret', tup(dest), target, ('val', e)), s2, bb, line)
                else:
                    self.assign(ctx, dest, target, e, s2)
            return True
        return False

    # ------------------------------------------------------------ iterators
    def mk_iter(self, v, ty):
        if v.op in ('it', 'ad'):
            return v
        t = ty
        while t.startswith('&'):
            t = t[1:]
            if t.startswith('mut '):
                t = t[4:]
        h = t.split('<')[0].split('::')[-1]
        if h in MAPS:
            return T('it', 'kv', v)
        if h in SETS:
            return T('it', 'key', v)
        if h in COLL or h in ('Range', 'RangeInclusive', 'RangeFrom', 'Option') or t.startswith('['):
            return T('it', 'elem', v)
        return T('it', 'elem', v)

    def m_iter(self, ctx, bb, meth, name, tgt, targs, args, flags, dest, target, line, st, A, rd):
        if tgt and tgt in self.p.F and meth == 'next':
            return False
        if meth == 'next' or meth == 'next_back':
            it = self.rd(st, args[0])
            if it.op not in ('it', 'ad'):
                it = T('it', 'elem', it)
            if meth == 'next_back':
                it = it.a[1] if it.op == 'ad' and it.a[0] == 'rev' else T('ad', 'rev', it)
            self.start_pipe(ctx, bb, it, ('next',), dest, target, line, st)
            return True
        if meth in LAZY:
            it = rd(0)
            if it.op not in ('it', 'ad'):
                it = T('it', 'elem', it)
            x = args[1] if len(args) > 1 else None
            if meth in ('cloned', 'copied', 'rev', 'fuse', 'peekable'):
                if meth == 'rev':
                    return A(T('ad', 'rev', it))
                return A(it)
            if meth == 'scan':
                return A(T('ad', 'scan', it, T('tup', args[2], args[1])))
            if meth in ('zip', 'chain') and x.op not in ('it', 'ad'):
                x = self.mk_iter(self.rd(st, x) if x.op == 'L' else x, targs[1] if len(targs) > 1 else '')
            if meth == 'zip':
                l, r_ = upwards(it), upwards(x)
                if r_ is not None:
                    return A(T('ad', 'zipr', it, r_))
                if l is not None:
                    return A(T('ad', 'zipl', x, l))
            return A(T('ad', meth, it, x) if x is not None else T('ad', meth, it))
        if meth in EAGER:
            it = self.rd(st, args[0]) if flags[0] in 'rm' else args[0]
            if it.op not in ('it', 'ad'):
                it = T('it', 'elem', it)
            fin = (meth,) + tuple(args[1:]) + ((dty_key(targs),) if meth in ('collect',) else ())
            if meth in ('collect', 'sum', 'count'):
                fin = (meth,)
            self.start_pipe(ctx, bb, it, fin, dest, target, line, st)
            return True
        if meth in ('len', 'size_hint'):
            return A(mk_len(rd(0)))
        return False

    def plain(self, it):
        """The container all of whose elements an iterator looks at."""
        cur, stages = self.flatten(it)
        if all(n in ('map', 'filter', 'filter_map', 'enumerate', 'rev', 'cloned', 'copied', 'inspect') for n, _ in stages) \
                and cur.op == 'it' and cur.a[0] in ('kv', 'key', 'val', 'elem') and cur.a[1].op not in ('agg', 'arr'):
            return cur.a[1]

    def start_pipe(self, ctx, bb, it, fin, dest, target, line, st):
        it = positions(it)
        for i, (n, x) in enumerate(self.flatten(it)[1]):
            if n == 'scan':
                at = self.acc(ctx, (bb, i))
                if fin[0] != 'next' or at not in st.store:
                    st.store[at] = x.a[1]
        if fin[0] in ('fold', 'try_fold') and len(fin) > 2:
            st.store[self.acc(ctx, bb)] = fin[1]
        elif fin[0] in ('max', 'min', 'last'):
            if any(n in CHOOSY for n, _ in self.flatten(it)[1]):
                fin = ('pick', fin[0])
                st.store[self.acc(ctx, bb)] = FALSE
        node = ('P', bb, it, fin, tup(dest), target, line)
        self.pipe_head(ctx, node, st)

    def acc(self, ctx, bb):
        """Location of the accumulator of a fold."""
        return T('L', ctx.id, 'acc%s' % (bb,))

    def good(self, clo):
        """The variant with which a closure lets a try_fold go on."""
        ty = self.p.F[clo.a[0]]['loc'][0][0] if clo.op in ('clo', 'fn') and clo.a[0] in self.p.F else ''
        return 'Some' if ty.startswith('core::option::Option') else 'Continue' if ty.startswith('core::ops::control_flow') else 'Ok'

    def pipe_head(self, ctx, node, st):
        if not self.join((ctx.id, node), st):
            return
        self.work.append((ctx, node, self._joined))

    def flatten(self, it):
        stages = []
        cur = it
        while cur.op == 'ad':
            nm = cur.a[0]
            stages.append((nm, cur.a[2] if len(cur.a) > 2 else None))
            cur = cur.a[1]
        stages.reverse()
        return cur, stages

    def exec_pipe(self, ctx, node, st):
        _, bb, it, fin, dest, target, line = node
        # exhaustion
        bases = self.bases(it)
        bounded = fin[0] == 'next' or True
        s_end = st.copy()
        if self.member(it, fin):
            # decided as one question when the closure returns
            el = T('elem' if it.a[0] == 'elem' else 'key', it.a[1], Site(ctx.id, bb, 'it'))
            self.kill(s_end, Site(ctx.id, bb, 'it'))
            self.pipe_run(ctx, (node, (), 0, el, el), s_end)
            return
        fresh = self.plain(it)
        fresh = T('fresh', fresh) if fresh is not None else None
        if fresh is not None and fresh in st.facts:
            st = st.copy()
            del st.facts[fresh]
            s_end = None
        if s_end is not None:
            if self.watch:
                self.event('iter_end', 'iter_end', None, (it,), (), ctx, line, s_end)
            self.pipe_end(ctx, node, s_end)
        for base, stages in bases:
            s2 = st.copy()
            site = Site(ctx.id, bb, 'it')
            self.kill(s2, site)
            dead = False
            if base.op != 'it':
                base = T('it', 'elem', base)
            kind, src = base.a
            its = self.items_of(src) if kind in ('elem', 'key') else None
            root = src
            while root.op == 'call' and root.a[0] in PERM:
                root = root.a[1][0]
            if root in self.items:
                self.queried[root] = self.items[root]
            if its is not None:
                for x, fs in its.items():
                    s3 = st.copy()
                    for z in x.sites:
                        if z.k[-1] == 'it' and z not in src.sites:
                            self.kill(s3, z)
                    self.kill(s3, site)
                    for k, v in fs:
                        s3.facts[k] = v
                    self.setfact(s3, mk_lt(mk_len(src), K(1)), False)
                    self.event('iter', 'iter', None, (it, x), (), ctx, line, s3)
                    self.pipe_run(ctx, (node, tuple(stages), 0, x, x), s3)
                continue
            if kind in ('kv', 'key', 'val'):
                key = T('key', src, site)
                g = T('get', src, key)
                s2.facts[mk_is(g, 'Some')] = True
                pvv = T('pv', g, 'Some', '0')
                el = {'kv': T('tup', key, pvv), 'key': key, 'val': pvv}[kind]
            else:
                if src.op == 'arr' and len(src.a) == 0:
                    continue
                if src.op == 'arr' and len(src.a) == 1:
                    el = src.a[0]
                elif src.op == 'agg' and src.a[1] == 'None':
                    continue
                elif src.op == 'agg' and src.a[1] == 'Some':
                    el = src.a[3]
                else:
                    el = T('elem', src, site)
                    if src.op == 'agg' and src.a[0].endswith('range::RangeInclusive'):
                        if self.truth(s2, mk_lt(src.a[4], src.a[3])) is True:
                            continue
                        self.setfact(s2, mk_lt(el, src.a[3]), False)
                        self.setfact(s2, mk_lt(src.a[4], el), False)
                    elif src.op == 'agg' and src.a[0].endswith('range::Range'):
                        if self.truth(s2, mk_lt(src.a[3], src.a[4])) is False:
                            continue
                        self.setfact(s2, mk_lt(el, src.a[3]), False)
                        self.setfact(s2, mk_lt(el, src.a[4]), True)
                    else:
                        # producing an element refutes emptiness
                        z = mk_lt(mk_len(src), K(1))
                        if self.truth(s2, z) is True and not src.sites:
                            continue
                        self.setfact(s2, z, False)
            self.event('iter', 'iter', None, (it, el), (), ctx, line, s2)
            self.pipe_run(ctx, (node, tuple(stages), 0, el, el), s2)

    def setfact(self, st, t, v):
        while t.op == 'not':
            t = t.a[0]
            v = not v
        if t.op != 'k':
            st.facts[t] = v

    def bases(self, it):
        cur, stages = self.flatten(it)
        # split at chain: elements of either side go through the remaining stages
        for i, (nm, x) in enumerate(stages):
            if nm == 'chain':
                left = cur
                for (n2, x2) in stages[:i]:
                    left = T('ad', n2, left, x2) if x2 is not None else T('ad', n2, left)
                out = []
                for side in (left, x):
                    for b, s in self.bases(side):
                        out.append((b, s + stages[i + 1:]))
                return out
        return [(cur, stages)]

    def pipe_run(self, ctx, p, st):
        node, stages, i, cur, raw = p
        _, bb, it, fin, dest, target, line = node
        while i < len(stages):
            nm, x = stages[i]
            if nm in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'map_while',
                      'inspect', 'flat_map'):
                cont = ('pipe', (node, stages, i, cur, raw))
                self.call_value(ctx, x, [cur], cont, st, ('pp', bb, i), line)
                return
            if nm == 'scan':
                self.call_value(ctx, x.a[0], [self.acc(ctx, (bb, i)), cur], ('pipe', (node, stages, i, cur, raw)), st, ('pp', bb, i), line)
                return
            if nm == 'enumerate':
                if any(n not in ('map', 'inspect', 'cloned', 'copied', 'by_ref', 'enumerate') for n, _ in stages[:i]):
                    cur = T('tup', T('unk', 'n', cur), cur)
                else:
                    cur = T('tup', T('unk', 'i', raw), cur)
            elif nm in ('zipl', 'zipr'):
                plain = all(n in ('map', 'inspect', 'cloned', 'copied', 'by_ref', 'enumerate', 'zipl', 'zipr', 'drain') for n, _ in stages[:i])
                k = mk_add(x, T('unk', 'i', raw) if plain else T('unk', 'n', cur))
                cur = T('tup', k, cur) if nm == 'zipl' else T('tup', cur, k)
            elif nm == 'position':
                cur = T('unk', 'i', cur)
                self.setfact(st, mk_lt(cur, mk_len(raw.a[0])) if raw.op == 'elem' else K(True), True)
            elif nm == 'zip':
                oth = x.a[1] if x.op == 'it' else x
                cur = T('tup', cur, T('elem', oth, Site(ctx.id, bb, 'it')))
            elif nm == 'range' and cur.op == 'tup' and x is not None:
                if not self.within(st, cur.a[0], x):
                    return
            elif nm in ('take', 'skip', 'step_by', 'range'):
                cur = self.tagged(cur, nm, x)
            elif nm == 'flatten':
                cur = T('elem', cur, Site(ctx.id, bb, 'it'))
            i += 1
        self.pipe_fin(ctx, (node, stages, i, cur, raw), st)

    def within(self, st, k, r):
        """A key found in a range lies in it."""
        want = []
        if r.op == 'agg':
            f = dict(zip(r.a[2], r.a[3:])) if isinstance(r.a[2], tuple) else {}
            n = r.a[0].split('::')[-1]
            if 'start' in f:
                want.append((mk_lt(k, f['start']), False))
            if 'end' in f:
                want.append((mk_lt(f['end'], k), False) if n in ('RangeInclusive', 'RangeToInclusive') else (mk_lt(k, f['end']), True))
        for t, v in want:
            if self.truth(st, t) is (not v):
                return False
            self.setfact(st, t, v)
        return True

    def tagged(self, cur, nm, x):
        return cur

    def pipe_step(self, ctx, p, r, st):
        """A closure of the pipeline returned r."""
        node, stages, i, cur, raw = p
        _, bb, it, fin, dest, target, line = node
        if i < len(stages):
            nm, x = stages[i]
            if nm == 'map':
                self.pipe_run(ctx, (node, stages, i + 1, r, raw), st)
            elif nm == 'inspect':
                self.pipe_run(ctx, (node, stages, i + 1, cur, raw), st)
            elif nm == 'flat_map':
                self.pipe_run(ctx, (node, stages, i + 1, T('elem', r, Site(ctx.id, bb, 'it')), raw), st)
            elif nm in ('filter', 'take_while', 'skip_while'):
                for s2, v in self.branch(st, r):
                    if nm == 'skip_while':
                        v = True
                    if v:
                        self.pipe_run(ctx, (node, stages, i + 1, cur, raw), s2)
                    elif nm == 'filter':
                        self.pipe_head(ctx, node, s2)
                    else:
                        self.pipe_end(ctx, node, s2)
            elif nm in ('filter_map', 'map_while', 'scan'):
                for s2, v in self.by_variant(st, r, 'Some'):
                    if v:
                        self.pipe_run(ctx, (node, stages, i + 1, mk_pv(r, 'Some', '0'), raw), s2)
                    elif nm == 'filter_map':
                        self.pipe_head(ctx, node, s2)
                    else:
                        self.pipe_end(ctx, node, s2)
            return
        k = fin[0]
        d = untup(dest)
        if k == 'retain':
            for s2, v in self.branch(st, r):
                self.event('retain', 'keep' if v else 'drop', None, (it.a[1] if it.op == 'it' else it, cur), (fin[2],), ctx, line, s2)
                self.pipe_head(ctx, node, s2)
        elif k == 'fold':
            st.store[self.acc(ctx, bb)] = r
            self.pipe_head(ctx, node, st)
        elif k in ('for_each', 'reduce', 'partition', 'max_by_key', 'min_by_key', 'max_by', 'min_by'):
            self.pipe_head(ctx, node, st)
        elif k in ('any', 'all') and self.member(it, fin):
            b = r.a[0] if r.op == 'not' else r
            y = b.a[1] if b.op == 'eq' and b.a[0] is cur else b.a[0] if b.op == 'eq' and b.a[1] is cur else None
            if y is None and b.op == 'is' and b.a[0] is cur:
                # compared with a variant without fields, which the closure captured
                for x in fin[1].a[1:]:
                    x = self.deep(st, self.rd(st, x)) if x.op == 'L' else x
                    if x.op == 'agg' and x.a[1] == b.a[1]:
                        y = x
            if y is None:
                v = r
            elif it.a[0] == 'key':
                v = mk_is(T('get', it.a[1], y), 'Some')
            else:
                v = T('call', 'contains', (it.a[1], y), None)
            self.assign(ctx, d, target, neg(v) if k == 'all' and y is not None else v, st)
        elif k in ('any', 'position'):
            for s2, v in self.branch(st, r):
                if v:
                    self.assign(ctx, d, target, TRUE if k == 'any' else some(T('unk', 'pos', raw)), s2)
                else:
                    self.pipe_head(ctx, node, s2)
        elif k == 'all':
            for s2, v in self.branch(st, r):
                if not v:
                    self.assign(ctx, d, target, FALSE, s2)
                else:
                    self.pipe_head(ctx, node, s2)
        elif k == 'find':
            for s2, v in self.branch(st, r):
                if v:
                    self.assign(ctx, d, target, some(cur), s2)
                else:
                    self.pipe_head(ctx, node, s2)
        elif k == 'find_map':
            for s2, v in self.by_variant(st, r, 'Some'):
                if v:
                    self.assign(ctx, d, target, some(mk_pv(r, 'Some', '0')), s2)
                else:
                    self.pipe_head(ctx, node, s2)
        elif k in ('try_for_each', 'try_fold'):
            g = self.good(fin[-1])
            for s2, v in self.by_variant(st, r, g):
                if v:
                    if k == 'try_fold':
                        s2.store[self.acc(ctx, bb)] = mk_pv(r, g, '0')
                    self.pipe_head(ctx, node, s2)
                else:
                    self.assign(ctx, d, target, r, s2)
        else:
            self.pipe_head(ctx, node, st)

    def pipe_fin(self, ctx, p, st):
        node, stages, i, cur, raw = p
        _, bb, it, fin, dest, target, line = node
        k = fin[0]
        d = untup(dest)
        if k == 'next' or k == 'nth':
            self.assign(ctx, d, target, some(cur), st)
        elif k in ('for_each', 'any', 'all', 'find', 'position', 'find_map', 'try_for_each', 'max_by_key',
                   'min_by_key', 'retain', 'partition'):
            self.call_value(ctx, fin[1], [cur] if k != 'retain' or cur.op != 'tup' else list(cur.a),
                            ('pipe', p), st, ('pf', bb), line)
        elif k in ('fold', 'try_fold'):
            self.call_value(ctx, fin[2], [self.read(st, self.acc(ctx, bb)), cur], ('pipe', p), st, ('pf', bb), line)
        elif k == 'pick':
            # any element may be the one picked; if there are any, one of them is
            if self.watch:
                self.event('iter_fold', fin[1], None, (it, cur), (), ctx, line, st)
            self.assign(ctx, untup(dest), target, some(cur), st.copy())
            st.store[self.acc(ctx, bb)] = TRUE
            self.pipe_head(ctx, node, st)
        elif k in ('max_by', 'min_by', 'reduce'):
            self.call_value(ctx, fin[1], [T('unk', 'acc', raw), cur], ('pipe', p), st, ('pf', bb), line)
        else:
            if k == 'collect':
                self.more_items(T('call', 'collect', (it,), None), self.item(st, cur))
            if k == 'extend':
                old = self.read(st, fin[1])
                if self.items_of(old) is not None:
                    root = old.a[0] if old.op == 'upd' else old
                    self.more_items(T('upd', root, Site(ctx.id, bb, 'm')), self.item(st, cur))
            if k in ('extend', 'collect'):
                self.event('iter_item', k, None, (fin[1] if len(fin) > 1 else it, cur), (), ctx, line, st)
            elif self.watch:
                self.event('iter_fold', k, None, (it, cur), (), ctx, line, st)
            self.pipe_head(ctx, node, st)

    def pipe_end(self, ctx, node, st):
        _, bb, it, fin, dest, target, line = node
        k = fin[0]
        d = untup(dest)
        if k == 'nth' and len(fin) > 1 and random_index(it, fin[1]):
            return  # a random index below the length
        if k in ('next', 'find', 'position', 'find_map', 'nth'):
            v = NONE
        elif k == 'any':
            v = FALSE
        elif k == 'all':
            v = TRUE
        elif k in ('for_each', 'retain'):
            v = UNIT
        elif k == 'extend':
            its = self.items_of(self.read(st, fin[1]))
            self.mutate(st, fin[1], Site(ctx.id, bb, 'm'))
            nv = self.read(st, fin[1])
            if nv.op == 'upd':
                self.more_items(nv, its)
            v = UNIT
        elif k == 'collect':
            v = T('call', 'collect', (it,), None)
            if v not in self.items:
                self.items[v] = {}
        elif k in ('try_for_each', 'try_fold'):
            v = UNIT if k == 'try_for_each' else self.read(st, self.acc(ctx, bb))
            g = self.good(fin[-1])
            v = some(v) if g == 'Some' else ok(v) if g == 'Ok' else cf_continue(v)
        elif k == 'fold':
            v = self.read(st, self.acc(ctx, bb))
        elif k == 'pick':
            if st.store.get(self.acc(ctx, bb)) is TRUE:
                return
            v = NONE
        else:
            v = T('call', k, (it,), None)
        self.assign(ctx, d, target, v, st)


def upwards(it):
    """Start of an unbounded range."""
    r = it.a[1] if it.op == 'it' and it.a[0] == 'elem' else it
    if r.op == 'agg' and r.a[0].endswith('range::RangeFrom'):
        return r.a[3]
    return None


def positions(it):
    """Counting up to the length of a sequence is going through its positions."""
    if it.op == 'ad':
        b = positions(it.a[1])
        return it if b is it.a[1] else T('ad', it.a[0], b, *it.a[2:])
    if it.op == 'it' and it.a[0] == 'elem':
        r = it.a[1]
        if r.op == 'agg' and r.a[0].endswith('range::Range') and r.a[3] == K(0) and \
                r.a[4].op == 'call' and r.a[4].a[0] == 'len' and r.a[4].a[1][0].op not in ('it', 'ad'):
            return T('ad', 'position', T('it', 'elem', r.a[4].a[1][0]))
    return it


def root_ctr(v):
    b, _ = split_const(v)
    if b is not None and b.op == 'ctr':
        return b.a[0]
    return b


def reroot(l, base):
    if l.op in ('f', 'pv', 'idx'):
        return T(l.op, reroot(l.a[0], base), *l.a[1:])
    return base


def variants(v, d=0):
    if v.op != 'agg' or d > 2:
        return None
    return (v.a[1],) + tuple(variants(x, d + 1) for x in v.a[3:])


INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def dflt(ty):
    """Default value of a type, by its printed name; tuples field by field."""
    ty = ty.strip()
    if ty.startswith('core::option::Option') or ty.startswith('std::option::Option'):
        return NONE
    if ty in INTS:
        return K(0)
    if ty == 'bool':
        return FALSE
    if ty.startswith('alloc::vec::Vec<'):
        return T('call', 'Vec::new', (), None)
    return T('call', 'Default::default', (), None)


def dty_key(targs):
    return None


def tup(x):
    return tuple(tuple(e) if isinstance(e, list) else e for e in x)


def untup(x):
    return [list(e) if isinstance(e, tuple) else e for e in x]


def strip_site(v, site):
    return strip_prev(v)


def stale(v, site):
    return T('at', strip_site(v, site)) if site in v.sites else v


_SP = {}


def strip_prev(v):
    """Widening: what a value carried over more than one iteration was built from is forgotten."""
    r = _SP.get(v)
    if r is not None:
        return r
    if v.op == 'prev':
        r = T('_')
    elif not any(x.op == 'prev' for x in v.subs):
        r = v
    else:
        args = []
        for x in v.a:
            if isinstance(x, Term):
                args.append(strip_prev(x))
            elif isinstance(x, tuple):
                args.append(tuple(strip_prev(y) if isinstance(y, Term) else y for y in x))
            else:
                args.append(x)
        r = T(v.op, *args)
    _SP[v] = r
    return r
