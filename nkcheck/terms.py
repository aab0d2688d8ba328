"""Hash-consed value terms: the provenance domain of the dataflow analysis."""


class Term:
    __slots__ = ('op', 'a', 's', 'subs', 'n', 'sites', 'hl')
    _tab = {}
    _cnt = 0

    def __repr__(self):
        return str(self)

    def __str__(self):
        if self.s is None:
            self.s = render(self)
        return self.s


def T(op, *a):
    k = (op,) + a
    t = Term._tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.s = None
        subs = set()
        sites = set()
        for x in a:
            if isinstance(x, Term):
                subs.add(x)
                subs |= x.subs
                sites |= x.sites
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        subs.add(y)
                        subs |= y.subs
                        sites |= y.sites
        if op in ('elem', 'call', 'upd', 'key', 'box') and isinstance(a[-1], Site):
            sites.add(a[-1])
        t.subs = frozenset(subs)
        t.sites = frozenset(sites)
        t.hl = op == 'L' or (op != 'phi' and any(x.hl for y in a for x in (y if isinstance(y, tuple) else (y,)) if isinstance(x, Term)))
        Term._cnt += 1
        t.n = Term._cnt
        Term._tab[k] = t
    return t


class Site:
    """Identity of an impure evaluation site (context + block)."""
    __slots__ = ('k',)
    _tab = {}

    def __new__(cls, *k):
        s = cls._tab.get(k)
        if s is None:
            s = object.__new__(cls)
            s.k = k
            cls._tab[k] = s
        return s


def K(v, ty=None):
    # Note: bools and ints are distinguished by the tag.
    if isinstance(v, bool):
        return T('k', 'b', v)
    if isinstance(v, int):
        return T('k', 'i', v)
    return T('k', 's', v)


TRUE = K(True)
FALSE = K(False)
UNIT = T('tup')


def is_k(t):
    return t.op == 'k'


def is_int(t):
    return t.op == 'k' and t.a[0] == 'i'


def short(path):
    """Last two path segments, generics removed."""
    p = path
    if p.startswith('<') and ' as ' in p:
        # <X as Trait<..>>::m -> Trait::m
        depth = 0
        i = p.find(' as ')
        body = p[i + 4:]
        out = []
        depth = 0
        for ch in body:
            if ch == '<':
                depth += 1
                continue
            if ch == '>':
                depth -= 1
                continue
            if depth <= 0:
                out.append(ch)
        p = ''.join(out)
    segs = p.split('::')
    return '::'.join(segs[-2:]) if len(segs) > 1 else p


def agg(adt, var, fields):
    return T('agg', adt, var, tuple(n for n, _ in fields), *[v for _, v in fields])


def some(x):
    return T('agg', 'core::option::Option', 'Some', ('0',), x)


NONE = T('agg', 'core::option::Option', 'None', ())


def ok(x):
    return T('agg', 'core::result::Result', 'Ok', ('0',), x)


def err(x):
    return T('agg', 'core::result::Result', 'Err', ('0',), x)


def cf_continue(x):
    return T('agg', 'core::ops::control_flow::ControlFlow', 'Continue', ('0',), x)


def cf_break(x):
    return T('agg', 'core::ops::control_flow::ControlFlow', 'Break', ('0',), x)


def render(t):
    o, a = t.op, t.a
    if o == 'k':
        if a[0] == 'b':
            return 'true' if a[1] else 'false'
        if a[0] == 's':
            return '"%s"' % a[1]
        return str(a[1])
    if o == 'par':
        return a[0]
    if o == 'f':
        return '%s.%s' % (a[0], a[1])
    if o == 'pv':
        b = str(a[0])
        return '%s.%s' % (b, a[1]) if a[2] == '0' else '%s.%s.%s' % (b, a[1], a[2])
    if o == 'idx':
        return '%s[%s]' % (a[0], a[1])
    if o == 'agg':
        adt = a[0].split('::')[-1]
        nm = adt if a[1] == adt else '%s::%s' % (adt, a[1])
        if not a[2]:
            return nm
        return '%s{%s}' % (nm, ','.join('%s=%s' % (n, v) for n, v in zip(a[2], a[3:])))
    if o == 'tup':
        return '(%s)' % ','.join(map(str, a))
    if o == 'arr':
        return '[%s]' % ','.join(map(str, a))
    if o == 'call':
        return '%s(%s)' % (short(a[0]), ','.join(map(str, a[1])))
    if o == 'get':
        return 'get(%s,%s)' % (a[0], a[1])
    if o == 'elem':
        return 'elem(%s)' % a[0]
    if o == 'key':
        return 'key(%s)' % a[0]
    if o == 'upd':
        return "%s'" % a[0]
    if o == 'phi':
        return 'phi(%s)' % a[1]
    if o == 'at':
        return str(a[0])
    if o == 'ctr':
        return 'ctr(%s)' % a[0]
    if o == '_':
        return '_'
    if o == 'box':
        return 'box'
    if o == 'L':
        return '%%%s.%s' % (a[2] if len(a) > 2 else '', a[1])
    if o == 'fn':
        return 'fn:%s' % short(a[0])
    if o == 'clo':
        return 'closure'
    if o == 'it':
        return str(a[1])
    if o == 'ad':
        return '%s(%s)' % (a[0], ','.join(str(x) for x in a[1:] if x is not None))
    if o == 'is':
        return 'is(%s,%s)' % (a[0], a[1])
    if o == 'kc':
        return short(a[0])
    return '%s(%s)' % (o, ','.join(map(str, a)))


# ---------------------------------------------------------------- smart constructors

def neg(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.a[0]
    return T('not', t)


def split_const(t):
    """t = base + c ; base None when constant."""
    if is_int(t):
        return None, t.a[1]
    if t.op == 'add' and is_int(t.a[1]):
        return t.a[0], t.a[1].a[1]
    return t, 0


def mk_add(a, b):
    ba, ca = split_const(a)
    bb, cb = split_const(b)
    c = ca + cb
    if ba is None and bb is None:
        return K(c)
    if ba is None:
        base = bb
    elif bb is None:
        base = ba
    else:
        x, y = (ba, bb) if str(ba) <= str(bb) else (bb, ba)
        # cancel (x - y) + y
        if x.op == 'sub' and x.a[1] is y:
            base = x.a[0]
        elif y.op == 'sub' and y.a[1] is x:
            base = y.a[0]
        else:
            base = T('add2', x, y)
    if c == 0:
        return base
    return T('add', base, K(c))


def mk_sub(a, b):
    ba, ca = split_const(a)
    bb, cb = split_const(b)
    c = ca - cb
    if bb is None:
        if ba is None:
            return K(c)
        return ba if c == 0 else T('add', ba, K(c))
    if ba is bb:
        return K(c)
    if ba is not None and ba.op == 'add2' and bb in ba.a:
        base = ba.a[0] if ba.a[1] is bb else ba.a[1]
        return base if c == 0 else T('add', base, K(c))
    if ba is None:
        return T('sub', K(c), bb)
    base = T('sub', ba, bb)
    return base if c == 0 else T('add', base, K(c))


def mk_lt(a, b):
    """a < b over totally ordered values, canonical form."""
    if a is b:
        return FALSE
    if a.op == 'k' and b.op == 'k' and a.a[0] == b.a[0]:
        return K(a.a[1] < b.a[1])
    ba, ca = split_const(a)
    bb, cb = split_const(b)
    if ba is None:                      # c < b   ==  !(b < c+1)  == !(base < c+1-cb)
        return neg(mk_lt(bb, K(ca - cb + 1)))
    if bb is None:                      # base + ca < cb == base < cb-ca
        if cb - ca == 1 and ba.op == 'call' and ba.a[0] == 'len':
            return T('eq', ba, K(0))
        return T('lt', ba, K(cb - ca))
    d = cb - ca                         # ba < bb + d
    if ba is bb:
        return K(0 < d)
    if d == 0:
        return T('lt', ba, bb)
    if d == 1:
        return neg(T('lt', bb, ba))
    if d > 1:
        return T('lt', ba, T('add', bb, K(d)))
    return T('lt', T('add', ba, K(-d)), bb) if d < 0 else T('lt', ba, T('add', bb, K(d)))


def unsigned(t):
    """x < 1 over unsigned values is x == 0."""
    if t.op == 'not':
        return neg(unsigned(t.a[0]))
    if t.op == 'lt' and t.a[1] is K(1):
        return T('eq', t.a[0], K(0))
    return t


def mk_eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'k' and b.op == 'k':
        return K(a.a == b.a)
    if b.op == 'k' and b.a[0] == 'b':
        return a if b.a[1] else neg(a)
    if a.op == 'k' and a.a[0] == 'b':
        return b if a.a[1] else neg(b)
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a) == 4 and len(b.a) == 4:
            return mk_eq(a.a[3], b.a[3])
    for x, y in ((a, b), (b, a)):
        if x.op == 'agg' and not x.a[2] and y.op != 'agg':
            return mk_is(y, x.a[1])
    ba, ca = split_const(a)
    bb, cb = split_const(b)
    if ba is not None and bb is None:
        return T('eq', ba, K(cb - ca))
    if bb is not None and ba is None:
        return T('eq', bb, K(ca - cb))
    if ba is not None and bb is not None and ba is bb:
        return K(ca == cb)
    x, y = (a, b) if str(a) <= str(b) else (b, a)
    return T('eq', x, y)


def mk_is(t, v):
    if t.op == 'agg':
        return K(t.a[1] == v)
    if v == 'None':
        return neg(mk_is(t, 'Some'))
    if v == 'Err':
        return neg(mk_is(t, 'Ok'))
    return T('is', t, v)


def mk_field(b, name, i=None):
    if b.op == 'agg':
        if name in b.a[2]:
            return b.a[3 + b.a[2].index(name)]
    elif b.op in ('tup', 'arr', 'clo'):
        args = b.a if b.op != 'clo' else b.a[1:]
        if i is not None and i < len(args):
            return args[i]
    elif b.op == 'with' and b.a[1] == name:
        return b.a[2]
    elif b.op == 'with':
        return mk_field(b.a[0], name, i)
    return T('f', b, name)


def mk_pv(b, var, name, i=0):
    if b.op == 'agg' and b.a[1] == var and name in b.a[2]:
        return b.a[3 + b.a[2].index(name)]
    return T('pv', b, var, name)


def set_field(b, name, v):
    if b.op == 'agg' and name in b.a[2]:
        j = 3 + b.a[2].index(name)
        return T('agg', *(b.a[:j] + (v,) + b.a[j + 1:]))
    return None
