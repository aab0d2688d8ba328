"""Header chain: validation, selection, bookkeeping, storage."""
import os
import re
from ck import *
E = re.escape
BC = 'BlockCache::'
TREE = r'BlockCache as nakamoto_common::block::tree::BlockTree>::'
READER = r'BlockCache as nakamoto_common::block::tree::BlockReader>::'
VP = ['self', 'tip', 'header', 'clock']
OPQ_T = ['next_difficulty_target', 'next_min_difficulty_target']
OKV = r'Result::Ok\{.*'
HH = E('BlockHeader::block_hash(header)')
TIPH = E('BlockHeader::block_hash(last(self.chain).header)')



def mtp(n, lo):
    """The middle one of the sorted timestamps: of a buffer of n, or of those collected from the window."""
    x = r'(?:slice\(rep\(0,11\),Range(?:To)?\{(?:start=0,)?end=%s\}\)|collect\(map\(take\(%s,%s\),closure\)\))' % (n, lo, n)
    return lambda rv: (lambda m: m is not None and re.fullmatch(x, m.group(1)) is not None)(
        re.fullmatch(r'sorted\((.*)\)\[(?:div|shr)\(len\((?:sorted\()?\1\)?\),[12]\)\]', str(rv)))


def C01(c):
    """validate() is explored under each violated header rule (PoW, required target, checkpoint, median time,
    future time): no path may return Ok; and the target, the median window and the limits are the exact
    values of the rule."""
    V = BC + 'validate'
    ok = ret(OKV)
    c.possible('accepts', 'a header that satisfies every rule is accepted', V, VP, ok)
    pow_ok = r'is\(BlockHeader::validate_pow\(header,.*\),Ok\)'
    c.never('pow', 'a header that fails proof-of-work or target validation is accepted', V, VP, ok, [(pow_ok, False)])
    c.never('checkpoint', 'a header that contradicts a checkpoint is accepted', V, VP, ok,
            [(E('is(get(self.checkpoints,add(tip.height,1)),Some)'), True),
             (r'eq\(' + HH + r',.*checkpoints.*\)', False)])
    c.never('time-past', 'a header not later than the median of the past is accepted', V, VP, ok,
            [(r'lt\((BlockCache|BlockReader)::median_time_past\(self,add\(tip\.height,1\)\),header\.time\)', False)],
            opaque=['median_time_past'])
    c.never('time-future', 'a header more than two hours ahead of adjusted time is accepted', V, VP, ok,
            [(E('lt(add(Clock::block_time(clock),7200),header.time)'), True)])
    c.possible('time-limit-not-tighter', 'a header within two hours of adjusted time is accepted', V, VP, ok,
               [(E('lt(add(Clock::block_time(clock),7200),header.time)'), False),
                (r'lt\((BlockCache|BlockReader)::median_time_past\(self,add\(tip\.height,1\)\),header\.time\)', True),
                (pow_ok, True), (r'is\(get\(self\.checkpoints,.*\),Some\)', False)], opaque=['median_time_past'] + OPQ_T)
    # required target
    tgt = call('BlockHeader::validate_pow')
    ND = E('BlockHeader::u256_from_compact_target(BlockReader::next_difficulty_target(self,tip.height,tip.header.time,'
           'BlockHeader::target(tip.header),self.params))')
    aminb = E('self.params.allow_min_difficulty_blocks')
    edge = E('eq(rem(add(tip.height,1),Params::difficulty_adjustment_interval(self.params)),0)')
    late = E('lt(add2(mul(2,self.params.pow_target_spacing),tip.header.time),header.time)')

    def tg(rx):
        m = re.compile(rx)
        return lambda e, f, mon: str(e.args[0]) == 'header' and m.fullmatch(str(e.args[1])) is not None
    c.each('target-normal', 'proof-of-work is checked against the retarget rule', V, VP, tgt, tg(ND), [(aminb, False)], opaque=OPQ_T)
    c.each('target-edge', 'the retarget rule applies at interval boundaries on every network', V, VP, tgt, tg(ND),
           [(aminb, True), (edge, True)], opaque=OPQ_T)
    c.each('target-late', 'a late block may use the minimum difficulty only where the network allows it', V, VP, tgt,
           tg(E('BlockHeader::u256_from_compact_target(') + r'(486604799|545259519|503543726)\)'),
           [(aminb, True), (edge, False), (late, True)], opaque=OPQ_T)
    c.each('target-min', 'otherwise the last non-minimum difficulty is required', V, VP, tgt,
           tg(E('BlockHeader::u256_from_compact_target(BlockCache::next_min_difficulty_target(self,self.params))')),
           [(aminb, True), (edge, False), (late, False)], opaque=OPQ_T)
    NM = BC + 'next_min_difficulty_target'
    ITH = r'elem\(.*self\.chain.*\)(\.1|\.0)?(\.header)?'
    c.results('min-last', 'the last block that is on a boundary or not at minimum difficulty decides', NM, ['self', 'params'],
              r'elem\(.*chain.*\)\S*\.bits|486604799|545259519|503543726|phi\(.*\)')
    c.never('min-skip', 'a minimum-difficulty block off the boundary does not decide', NM, ['self', 'params'],
            ret(r'elem\(.*\.bits'), [(r'eq\(elem\(.*bits,\d+\)', True), (r'eq\(rem\(.*difficulty_adjustment_interval\(self\.params\)\),0\)', False)])
    c.possible('min-decides', 'a block not at minimum difficulty decides', NM, ['self', 'params'],
               ret(r'elem\(.*\.bits'), [(r'eq\(elem\(.*bits,\d+\)', False)])
    c.possible('min-decides-edge', 'a block on the boundary decides', NM, ['self', 'params'],
               ret(r'elem\(.*\.bits'), [(r'eq\(elem\(.*bits,\d+\)', True), (r'eq\(rem\(.*difficulty_adjustment_interval\(self\.params\)\),0\)', True)])

    def newest_first():
        r = c.run(NM, ['self', 'params'], [], [('it', lambda e: e.kind == 'iter')])
        h = r.hits.get('it', [])
        return len(h), [(e.where(), 'blocks are not visited newest first: %s' % e.args[0]) for e, _, _ in h if not str(e.args[0]).startswith('rev(')]
    c.custom('min-order', 'the search for the last non-minimum difficulty goes from the tip backwards', newest_first)
    # ancestors: what the rules look up below a header of a branch is on that branch
    AN = r'(BlockCache|BlockReader)::(median_time_past|next_difficulty_target|next_min_difficulty_target)'

    def ancestors(what, least):
        def f():
            r = c.run(BC + 'validate_branch', ['self', 'candidate', 'clock'], [], [('a', call(AN, r'self'))],
                      opaque=['median_time_past$', 'next_difficulty_target$', 'next_min_difficulty_target$'])
            hs = [e for e, _, _ in r.hits.get('a', []) if re.search(what, e.short)]
            off = [e for e in hs if str(e.args[1]) != least]
            return len(hs) + 1, [(off[0].where(), 'the active chain is consulted above the fork for `%s`' % off[0])] if off else []
        return f
    c.custom('branch-time', 'the median time of a header of a competing branch is that of another chain', ancestors('median_time_past', 'add(candidate.fork_height,1)'))
    c.custom('branch-target', 'the target of a header of a competing branch is that of another chain', ancestors('difficulty_target', 'candidate.fork_height'))
    # median time past
    M = BC + 'median_time_past'
    few = r'lt\(height,11\)'
    WN, WF = r'skip\(self\.chain,add\(height,-11\)\)', r'(?:skip\(self\.chain,0\)|self\.chain)'
    c.results('median', 'the median of the eleven preceding timestamps', M, ['self', 'height'], mtp('11', WN), [(few, False)])
    c.results('median-few', 'the median of all timestamps when there are fewer than eleven', M, ['self', 'height'], mtp('height', WF), [(few, True)])

    def window(asm, lo, n):
        def f():
            r = c.run(M, ['self', 'height'], asm, [('it', lambda e: e.kind == 'iter')])
            h = r.hits.get('it', [])
            return len(h), [(e.where(), 'window is %s' % e.args[0]) for e, _, _ in h
                            if not re.fullmatch(r'(?:enumerate\(|map\(|map\(enumerate\()?take\(%s,%s\)\)?(?:,closure\))?' % (lo, n), str(e.args[0]))]
        return f
    c.custom('median-window', 'the median covers the eleven blocks right below the height', window([(few, False)], WN, '11'))
    c.custom('median-window-few', 'the median covers all blocks below the height', window([(few, True)], WF, 'height'))
    c.custom('median-times', 'timestamps are compared', lambda: (1, [(e.where(), 'collects %s' % e.args[1]) for e, _, _ in c.run(M, ['self', 'height'], [], [('i', lambda e: e.kind == 'iter_item')]).hits.get('i', []) if not re.fullmatch(r'elem\(self\.chain\)(\.header)?\.time', str(e.args[1]))]))
    # Nothing reaches the active chain without validate()
    push = call('(NonEmpty|Vec)::push', r"self'?\.chain'?(\.tail)?.*", r'CachedBlock.*')
    okv = r'is\(BlockCache::validate\(self,.*\),Ok\)'
    c.never('extend-tip', 'extend_tip adds a header that failed validation', TREE + 'extend_tip', ['self', 'header', 'clock'],
            push, [(okv, False)], opaque=['BlockCache::validate$'])
    c.before('extend-tip-order', 'extend_tip validates before it extends', TREE + 'extend_tip', ['self', 'header', 'clock'],
             call('BlockCache::validate', 'self', r'last\(self\.chain\)', 'header', 'clock'), push, opaque=['BlockCache::validate$'])
    cand = anyof(call('Vec::push', r'.*', r'BlockCache::fork\(.*\)\.Some'), item(None, r'BlockCache::fork\(.*\)\.Some'))
    CC = BC + 'chain_candidates'
    c.foreach('branch-each', 'every header of a candidate branch is validated on top of its predecessor', BC + 'validate_branch',
              ['self', 'candidate', 'clock'], r'elem\(candidate\.headers\)',
              [call('BlockCache::validate', 'self', r'.*', r'elem\(candidate\.headers\)', 'clock')], opaque=['BlockCache::validate$'])
    def branch_err():
        r = c.run(BC + 'validate_branch', ['self', 'candidate', 'clock'], [(okv, False)],
                  [('v', call('BlockCache::validate'))], opaque=['BlockCache::validate$'])
        bad = []
        n = 0
        for rv, mon, facts, store in r.exits:
            n += 1
            if str(rv).startswith('Result::Ok') and 'v' in mon:
                bad.append((c.fn(BC + 'validate_branch'), 'returns Ok after a failed validation'))
        return n, bad
    c.custom('branch-fails', 'a branch with an invalid header is rejected', branch_err)

    def branch_parent():
        """The parent handed to validate: the fork block first, then the preceding header one height up."""
        r = c.run(BC + 'validate_branch', ['self', 'candidate', 'clock'], [], [('v', call('BlockCache::validate'))],
                  opaque=['BlockCache::validate$'])
        h = r.hits.get('v', [])
        bad = []
        forms = [r'CachedBlock\{height=candidate\.fork_height,header=candidate\.fork_header\}',
                 r'prev\(CachedBlock\{height=add\((candidate\.fork_height|_\.height|phi\(.*\)),1\),header=elem\(candidate\.headers\)\}\)',
                 r'CachedBlock\{height=(ctr\(candidate\.fork_height\)|add\(candidate\.fork_height,\d+\)|(add\()?phi\(.*\)(,\d+\))?),header=(phi\(.*\)|prev\(elem\(candidate\.headers\)\))\}', r'phi\(.*\)']
        for e, _, _ in h:
            if not any(re.fullmatch(f, str(e.args[1])) for f in forms):
                bad.append((e.where(), 'header validated on top of %s' % e.args[1]))
        if not any(re.fullmatch(forms[0], str(e.args[1])) for e, _, _ in h):
            bad.append((c.fn(BC + 'validate_branch'), 'the first header is not validated on top of the fork block'))
        if not any(re.fullmatch(forms[1], str(e.args[1])) or re.fullmatch(forms[2], str(e.args[1])) for e, _, _ in h):
            bad.append((c.fn(BC + 'validate_branch'), 'later headers are not validated on top of their predecessor'))
        return len(h), bad
    c.custom('branch-parent', 'each branch header is validated on top of its predecessor', branch_parent)
    c.never('candidates', 'a branch that fails validation becomes a candidate', CC, ['self', 'clock'], cand,
            [(r'is\(BlockCache::validate_branch\(.*\),Ok\)', False)], opaque=['BlockCache::validate_branch$', 'BlockCache::fork$'])
    c.possible('candidates-ok', 'a branch that passes validation becomes a candidate', CC, ['self', 'clock'], cand,
               [(r'is\(BlockCache::validate_branch\(.*\),Ok\)', True)], opaque=['BlockCache::validate_branch$', 'BlockCache::fork$'])
    # what switches the chain is a validated candidate
    def only_candidates():
        r = c.run(BC + 'import_block', ['self', 'header', 'clock'], [], [('s', call('BlockCache::switch_to_fork'))],
                  opaque=['BlockCache::validate$', 'chain_candidates', 'switch_to_fork'])
        h = r.hits.get('s', [])
        bad = [(e.where(), 'switches to %s' % e.args[1]) for e, _, _ in h
               if not re.search(r'elem\(BlockCache::chain_candidates\(self,clock\)\)|phi\(', str(e.args[1]))]
        return len(h), bad
    c.custom('only-candidates', 'the chain is only ever switched to a validated candidate', only_candidates)

    c.never('no-side-door', 'import adds to the active chain outside the switch to a validated candidate', BC + 'import_block',
            ['self', 'header', 'clock'], push, opaque=['BlockCache::validate$', 'switch_to_fork'])


def C02(c):
    """next_difficulty_target(): the returned compact target is compared, case by case, with the retarget rule
    (interval boundary, no-retarget networks, clamp to a quarter and four times the timespan, limit)."""
    F = r'BlockReader::next_difficulty_target'
    P = ['self', 'h', 't', 'target', 'params']
    edge = E('eq(rem(add(h,1),Params::difficulty_adjustment_interval(params)),0)')
    nore = E('params.no_pow_retargeting')
    back = r'BlockReader::get_block_by_height\(self,add\(sub\(h,Params::difficulty_adjustment_interval\(params\)\),1\)\)\.Some'
    first = r'(' + back + r'|BlockReader::get_block_by_height\(self,0\)\.Some|BlockReader::genesis\(self\))'
    span = r'sub\(t,' + first + r'\.time\)'
    lo = E('div(params.pow_target_timespan,4)')
    hi = E('mul(4,params.pow_target_timespan)')
    below = r'lt\(' + span + ',' + lo + r'\)'
    above = r'lt\(' + hi + ',' + span + r'\)'
    lim = r'lt\(params\.pow_limit,.*\)'

    def res(x):
        return r'BlockHeader::compact_target_from_u256\(div\(Uint256::mul_u32\(target,' + x + r'\),Uint256::from_u64\(params\.pow_target_timespan\)\.Some\)\)'
    c.results('keep', 'between boundaries the target does not change', F, P, E('BlockHeader::compact_target_from_u256(target)'), [(edge, False)])
    c.results('no-retarget', 'networks without retargeting keep the bits of the period start', F, P, first + r'\.bits', [(edge, True), (nore, True)])
    c.results('period-start', 'the period starts one interval before the next height', F, P, r'(' + back + r'|BlockReader::genesis\(self\))\.bits',
              [(edge, True), (nore, True), (r'lt\(add\(h,1\),Params::difficulty_adjustment_interval\(params\)\)', False)])
    base = [(edge, True), (nore, False)]
    c.results('middle', 'the target is scaled by the actual timespan', F, P, res(span), base + [(below, False), (above, False), (lim, False)])
    c.results('clamp-low', 'the timespan is clamped to a quarter', F, P, res(lo), base + [(below, True), (above, False), (lim, False)])
    c.results('clamp-high', 'the timespan is clamped to four times', F, P, res(hi), base + [(below, False), (above, True), (lim, False)])
    c.results('limit', 'the target never exceeds the network limit', F, P, E('BlockHeader::compact_target_from_u256(params.pow_limit)'), base + [(lim, True)])

    def limit_on_result():
        r = c.run(F, P, base)
        ats = [a for a in r.branch_atoms if re.fullmatch(lim, str(a))]
        bad = [(c.fn(F), 'the limit is compared with %s' % a) for a in ats
               if not re.match(r'lt\(params\.pow_limit,div\(Uint256::mul_u32\(target,', str(a))]
        return len(ats), bad
    c.custom('limit-on-result', 'the limit applies to the scaled target', limit_on_result)

    def one_impl():
        n = [k for k in c.p.F if k.endswith('::next_difficulty_target') and c.p.F[k]['crate'] != 'nakamoto_test']
        return len(n), [(k, 'a second retarget rule') for k in n if 'BlockReader::next' not in k]
    c.custom('one-rule', 'the retarget rule has one implementation', one_impl)
    c.results('limit-bits', 'the minimum difficulty of each network', 'block::pow_limit_bits', ['network'], '486604799', [(r'is\(network,(Bitcoin|Testnet)\)', True)])
    c.results('limit-bits-regtest', 'the minimum difficulty of each network', 'block::pow_limit_bits', ['network'], '545259519',
              [(r'is\(network,Regtest\)', True), (r'is\(network,(Bitcoin|Testnet|Signet)\)', False)])
    c.results('limit-bits-signet', 'the minimum difficulty of each network', 'block::pow_limit_bits', ['network'], '503543726',
              [(r'is\(network,(Bitcoin|Testnet|Regtest)\)', False)])


def forget(c, F, P, opq):
    c.never('forget', 'headers known off the active chain are forgotten', F, P, lambda e: e.kind == 'call' and re.fullmatch(r'HashMap::(clear|drain)|mem::(take|replace)', e.short) is not None and re.match(r"self'*\.orphans", str(e.args[0])) is not None, opaque=opq)


# block hashes of the Bitcoin networks at the checkpoint heights (as in Bitcoin Core)
CHECKPOINTS = {
    11111: '0000000069e244f73d78e8fd29ba2fd2ed618bd6fa2ee92559f542fdb26e7c1d',
    33333: '000000002dd5588a74784eaa7ab0507a18ad16a236e7b1ce69f00d7ddfb5d0a6',
    74000: '0000000000573993a3c9e41ce34471c079dcf5f52a0e824a81e7f953b8661a20',
    105000: '00000000000291ce28027faea320c8d2b054b2e0fe44a773f3eefb151d6bdc97',
    134444: '00000000000005b12ffd4cd315cd34ffd4a594f430ac814c91184a0d42d2b0fe',
    168000: '000000000000099e61ea72015e79632f216fe6cb33d7899acb35b75c8303b763',
    193000: '000000000000059f452a5f7340de6682a977387c17010ff6e6c3bd83ca8b1317',
    210000: '000000000000048b95347e83192f69cf0366076336c639f9b7228e9ba171342e',
    216116: '00000000000001b4f4b433e81ee46494af945cf96014816a4e2370f11b23df4e',
    225430: '00000000000001c108384350f74090433e7fcf79a606b8e797f065b130575932',
    250000: '000000000000003887df1f29024b06fc2200b55f8af8f35453d7be294df2d214',
    279000: '0000000000000001ae8c72a0b0c301f67e3afca10e819efa9041e458e9bd7e40',
    295000: '00000000000000004d9b4ef50f0f9d686fd69db2e03af35a100370c64632a983',
    546: '000000002a936ca763904c3c35fce2f3556c559c0214345d31b1bcebf76acb70',
}


def C03(c):
    """import_block(): no path retains a header (orphan pool or chain) when it is a duplicate, fails its own
    proof-of-work, exceeds the limit, or forks below the last checkpoint; unknown parents never move the tip."""
    F = BC + 'import_block'
    P = ['self', 'header', 'clock']
    opq = ['BlockCache::validate$', 'chain_candidates', 'switch_to_fork']
    keep = call('HashMap::insert', r"self\.orphans'?", HH, 'header')
    swi = call('BlockCache::switch_to_fork')
    c.possible('retain', 'a fresh header is retained', F, P, keep, opaque=opq)
    c.possible('switch', 'a better branch is activated', F, P, swi, opaque=opq)
    for nm, at_ in (('dup-active', 'is(get(self.headers,BlockHeader::block_hash(header)),Some)'),
                    ('dup-orphan', 'is(get(self.orphans,BlockHeader::block_hash(header)),Some)')):
        c.never(nm, 'a header already known is processed again', F, P, anyof(keep, swi), [(E(at_), True)], opaque=opq)
        c.results(nm + '-err', 'a known header is reported as a duplicate', F, P,
                  r'Result::Err\{0=Error::DuplicateBlock\{0=' + HH + r'\}\}', [(E(at_), True)], opaque=opq)
    c.never('pow', 'a header that fails its own proof-of-work is retained', F, P, anyof(keep, swi),
            [(E('is(BlockHeader::validate_pow(header,BlockHeader::target(header)),Ok)'), False)], opaque=opq)
    c.never('limit', 'a header whose target exceeds the network limit is retained', F, P, anyof(keep, swi),
            [(E('lt(self.params.pow_limit,BlockHeader::target(header))'), True)], opaque=opq)
    c.never('tip-invalid', 'a header that extends the tip but is invalid is retained', F, P, anyof(keep, swi),
            [(E('eq(') + TIPH + E(',header.prev_blockhash)'), True), (r'is\(BlockCache::validate\(self,last\(self\.chain\),header,clock\),Ok\)', False)], opaque=opq)
    known = E('is(get(self.headers,header.prev_blockhash),Some)')
    LC = r'BlockReader::last_checkpoint\(self\)'
    c.never('checkpoint', 'a fork from below the last checkpoint is retained', F, P, anyof(keep, swi),
            [(known, True), (r'lt\(get\(self\.headers,header\.prev_blockhash\)\.Some,' + LC + r'\)', True)], opaque=opq + ['last_checkpoint'])
    c.possible('checkpoint-edge', 'a fork at or above the last checkpoint is considered', F, P, keep,
               [(known, True), (r'lt\(get\(self\.headers,header\.prev_blockhash\)\.Some,' + LC + r'\)', False)], opaque=opq + ['last_checkpoint'])
    c.results('missing', 'a header with unknown parent is reported as missing its parent', F, P, r'Result::Err\{.*',
              [(known, False), (r"is\(get\(self\.orphans'?,header\.prev_blockhash\),Some\)", False)], opaque=opq)
    c.never('missing-tip', 'a header with unknown parent changes the tip', F, P, swi,
            [(known, False), (r"is\(get\(self\.orphans'?,header\.prev_blockhash\),Some\)", False)], opaque=opq)
    forget(c, F, P, opq)
    # last checkpoint: greatest checkpoint height not above the tip
    L = READER + 'last_checkpoint'
    hgt = r'last\(self\.chain\)\.height'
    c.results('last-checkpoint', 'the last checkpoint is one of the configured heights', L, ['self'], r'key\(self\.checkpoints\)|0|phi\(.*\)')
    c.never('last-checkpoint-reached', 'a checkpoint above the tip counts as reached', L, ['self'], ret(r'key\(self\.checkpoints\)'),
            [(r'lt\(' + hgt + r',key\(self\.checkpoints\)\)', True)])
    c.possible('last-checkpoint-any', 'a checkpoint at or below the tip counts', L, ['self'], ret(r'key\(self\.checkpoints\)'),
               [(r'lt\(' + hgt + r',key\(self\.checkpoints\)\)', False)])

    def greatest():
        r = c.run(L, ['self'], [], [('it', lambda e: e.kind == 'iter'), ('mx', lambda e: e.kind == 'iter_fold' and e.name == 'max' and re.search(r'key\(self\.checkpoints\)$', str(e.args[1])))])
        h = r.hits.get('it', [])
        if r.hits.get('mx'):
            return len(h), []
        return len(h), [(e.where(), 'visits %s' % e.args[0]) for e, _, _ in h if 'rev(' not in str(e.args[0]) and 'max' not in str(e.args[0])]
    def reached():
        r = c.run(L, ['self'], [(r'lt\(' + hgt + r',key\(self\.checkpoints\)\)', False)],
                  [('it', lambda e: e.kind == 'iter' and re.fullmatch(r'(\()?key\(self\.checkpoints\).*', str(e.args[1])) is not None)])
        n, bad = 1, []
        for rv, mon, facts, _ in r.exits:
            if 'it' in mon:
                n += 1
                if str(rv) == '0':
                    bad.append((c.fn(L), 'returns 0'))
        return n, bad[:1]
    c.custom('last-checkpoint-tip', 'a checkpoint at the height of the tip counts as reached', reached)
    c.custom('last-checkpoint-greatest', 'the highest reached checkpoint is chosen', greatest)
    # checkpoints are those configured

    def table():
        f = os.path.join(os.environ.get('NK_REPO', '/repo'), 'common/src/block/checkpoints.rs')
        if not os.path.exists(f):
            return 1, []
        n, v = 0, []
        for i, l in enumerate(re.sub(r'//.*', '', open(f).read()).split('\n'), 1):
            for h, x in re.findall(r'\(\s*([\d_]+)\s*,\s*"([0-9a-fA-F]{64})"', l):
                n += 1
                if CHECKPOINTS.get(int(h.replace('_', ''))) != x.lower():
                    v.append(('common/src/block/checkpoints.rs:%d' % i, 'checkpoint %s is not a block of the network: %s' % (h, x)))
        return max(n, 1), v
    c.custom('ckpt-table', 'every checkpoint is a block of the network', table)
    NC = 'nakamoto_common::network::Network::checkpoints'
    for n in ('Mainnet', 'Testnet', 'Regtest', 'Signet'):
        c.results('ckpt-' + n.lower(), 'the checkpoints are those of the network', NC, ['self'], r'(?:\w+\()*checkpoints::' + n.upper() + r'(?:,closure)?\)*',
                  [(r'is\(self,' + n + r'\)', True)] + [(r'is\(self,' + m + r'\)', False) for m in ('Mainnet', 'Testnet', 'Regtest', 'Signet') if m != n])
    c.possible('ckpt-load', 'configured checkpoints are kept', BC + 'new', ['store', 'params', 'checkpoints'],
               ret(r'Result::Ok\{.*checkpoints=.*checkpoints.*'))
    # locators never point below the last checkpoint
    c.never('locators', 'locators reveal heights below the last checkpoint', READER + 'locator_hashes', ['self', 'from'],
            call('Vec::push', None, r'BlockHeader::block_hash.*'),
            [(r'lt\(elem\(.*\),BlockReader::last_checkpoint\(self\)\)', True)], opaque=['last_checkpoint', 'locators_indexes'])


def C04(c):
    """import_block(): the branch handed to the switch is tracked through the selection loop; a candidate is only
    selected with strictly more added work (ties only off mainnet, by lowest hash)."""
    F = BC + 'import_block'
    P = ['self', 'header', 'clock']
    opq = ['BlockCache::validate$', 'chain_candidates', 'switch_to_fork', 'Branch.*::work']
    EL = E('elem(BlockCache::chain_candidates(self,clock))')
    BW, hw = 'nakamoto_common::block::tree::Branch::work', r'Header::work\(elem\(self\.0\)\)'
    c.foreach('work-all', 'the work of a branch is that of all its headers', BW, ['self'], r'elem\(self\.0\)', [call('Header::work', r'elem\(self\.0\)')])
    c.results('work-sum', 'the work of a branch is the sum of that of its headers', BW, ['self'], r'(?:add2\(|phi\(|prev\(|sum\(|fold\(|map\(self\.0,closure\)|Default::default\(\)|' + hw + r'|self\.0|closure|_|,|\))+')
    W = r'Branch::work\(Branch\{0=' + EL + r'\.headers\}\)'
    L = r'Branch::work\(Branch\{0=slice\(self\.chain\.tail,RangeFrom\{start=' + EL + r'\.fork_height\}\)\}\)'
    swi = call('BlockCache::switch_to_fork')
    less = r'lt\(' + W + ',' + L + r'\)'
    added = r'sub\(' + W + ',' + L + r'\)'
    zero = r'(BitArray::zero\(\)|phi\(.*?\)|prev\(.*\))'
    more = r'lt\(' + zero + ',' + added + r'\)'
    same = r'eq\((' + zero + ',' + added + '|' + added + ',' + zero + r')\)'
    main = E('is(self.params.network,Bitcoin)')
    c.possible('selects', 'a branch with more work is activated', F, P, swi, [(less, False), (more, True)], opaque=opq)
    c.never('less', 'a branch that lowers total work is activated', F, P, swi, [(less, True)], opaque=opq)
    c.never('mainnet-strict', 'on mainnet a branch is activated without strictly more work', F, P, swi, [(main, True), (more, False)], opaque=opq)
    c.never('strict', 'a branch without at least as much work is activated', F, P, swi, [(main, False), (more, False), (same, False)], opaque=opq)
    c.never('tie', 'an equal-work branch is activated although its hash is not lower', F, P, swi,
            [(main, False), (more, False), (r'lt\(' + EL + r'\.tip,.*\)', False)], opaque=opq)

    def moves():
        it = lambda e: e.kind == 'iter' and re.fullmatch(EL, str(e.args[1])) is not None
        r = c.run(F, P, [(less, False), (more, True)], [('it', it), ('s', swi)], opaque=opq)
        n, bad = 0, []
        for rv, mon, facts, _ in r.exits:
            if 'it' in mon:
                n += 1
                if 's' not in mon and not bad:
                    bad.append((c.fn(F), 'returns %s after seeing a branch with more work' % trunc(str(rv), 80)))
        return n, bad
    c.custom('moves', 'a valid branch with more work is always activated', moves)

    def ties():
        it = lambda e: e.kind == 'iter' and re.fullmatch(EL, str(e.args[1])) is not None
        r = c.run(F, P, [(main, False), (less, False), (more, False), (same, True), (r'lt\(' + EL + r'\.tip,.*\)', True)], [('it', it), ('s', swi)], opaque=opq)
        n, bad = 0, []
        for rv, mon, facts, _ in r.exits:
            if 'it' in mon:
                n += 1
                if 's' not in mon and not bad:
                    bad.append((c.fn(F), 'returns %s after seeing a branch with the same work and a lower hash' % trunc(str(rv), 80)))
        return n, bad
    forget(c, F, P, opq)
    c.custom('moves-tie', 'off mainnet, a branch of equal work with a lower hash is activated', ties)
    c.foreach('compare-all', 'every candidate is compared', F, P, EL, [], opaque=opq)

    def best():
        """The best-so-far trio moves together: after adopting a branch, its work is the new bar."""
        r = c.run(F, P, [(less, False)], [('s', swi)], opaque=opq)
        ats = [str(a) for a in r.branch_atoms]
        init = [a for a in ats if re.fullmatch(r'lt\(BitArray::zero\(\),' + added + r'\)', a)]
        nxt = [a for a in ats if re.fullmatch(r'lt\((prev\(sub\(.*work.*\)\)|phi\(.*\)),' + added + r'\)', a)]
        bad = []
        if not init:
            bad.append((c.fn(F), 'the first branch is not compared with zero added work'))
        if not nxt:
            bad.append((c.fn(F), 'later branches are not compared with the best added work so far'))
        return len(ats), bad
    c.custom('bar', 'each candidate is compared with the best one so far', best)
    # Work of a branch is the sum over all its headers
    WK = [k for k in c.find(r'Branch.*::work')]

    def work():
        bad = []
        for k in WK:
            r = c.run(k, ['self'], [], [('it', lambda e: e.kind == 'iter')])
            h = r.hits.get('it', [])
            if not h or any(re.search(r'skip|take|filter', str(e.args[0])) for e, _, _ in h):
                bad.append((k, 'not every header is counted'))
            for rv, _, _, _ in r.exits:
                if not re.fullmatch(r"Default::default\(\)|BitArray::zero\(\)|add2\(.*Header::work\(elem\(self\.0\)\).*\)|phi\(.*\)|prev\(add2\(.*\)\)|fold\(.*\)|sum\(.*\)", str(rv)):
                    bad.append((k, 'returns %s' % rv))
        return len(WK), bad
    c.custom('work-sum', 'the work of a branch is the sum over its headers', work)
    # Fork discovery: a branch connects to the active chain
    FK = BC + 'fork'
    c.never('fork-connects', 'a branch that does not reach the active chain is a candidate', FK, ['self', 'tip'], ret(r'Option::Some.*'),
            [(r'is\(BlockReader::get_block\(self,.*\),Some\)', False)], opaque=['get_block$'])
    c.results('fork-found', 'a branch that reaches the active chain is not found', FK, ['self', 'tip'], r'Option::Some\{.*\}',
              [(r'is\(BlockReader::get_block\(self,.*\),Some\)', True)], opaque=['get_block$'])
    c.foreach('each-orphan', 'every known off-chain header is considered as a branch tip', BC + 'chain_candidates', ['self', 'clock'],
              r'key\(self\.orphans\)', [call('BlockCache::fork', 'self', r'key\(self\.orphans\)')], opaque=['BlockCache::validate_branch$', 'BlockCache::fork$'])


STALE = r"elem\(self\.chain'?\.tail'?\)"


def C05(c):
    """Every path that extends or rolls back the active chain performs all of its bookkeeping (index, orphan pool,
    accumulated work, store) for every header, and a store failure is reported."""
    X = TREE + 'extend_tip'
    P = ['self', 'header', 'clock']
    o = ['BlockCache::validate$']
    H1 = E('add(last(self.chain).height,1)')
    okc = r'Result::Ok\{0=ImportResult::TipChanged.*'
    forget(c, BC + 'import_block', P, o)
    c.always('extend', 'extending the tip updates index, orphans, chain, work and store', X, P, [
        call('HashMap::insert', V('self.headers'), HH, H1),
        call('HashMap::remove', V('self.orphans'), HH),
        call('(NonEmpty|Vec)::push', V('self.chain') + r'(\.tail)?', r'CachedBlock\{height=' + H1 + r',header=header\}'),
        write(r'self\.chainwork', E('add2(BlockHeader::work(header),self.chainwork)')),
        call('Store::put', V('self.store'), r'\[header\]'),
    ], exits=okc, opaque=o)
    c.results('extend-result', 'the new tip is reported as it is', X, P,
              r'Result::Ok\{0=ImportResult::TipChanged\{header=header,hash=' + HH + ',height=' + H1 +
              r',reverted=(Vec::new\(\)|\[\]),connected=NonEmpty::new\(\(' + H1 + r',header\)\)\}\}',
              [(r'eq\(' + TIPH + r',header\.prev_blockhash\)', True), (r'is\(.*,Ok\)', True)], opaque=o)
    c.results('extend-gap', 'a header that does not build on the tip leaves it unchanged', X, P, r'Result::Ok\{0=ImportResult::TipUnchanged\}',
              [(r'eq\(' + TIPH + r',header\.prev_blockhash\)', False)], opaque=o)
    c.never('extend-gap-quiet', 'a header that does not build on the tip changes state', X, P,
            anyof(write(r'self\..*'), call('(HashMap|NonEmpty|Vec)::(insert|remove|push)'), call('Store::.*')),
            [(r'eq\(' + TIPH + r',header\.prev_blockhash\)', False)], opaque=o)
    c.never('extend-store-err', 'a store failure is reported as success', X, P, ret(okc), [(r'is\(Store::put\(.*\),Ok\)', False)], opaque=o)
    # switching
    S = BC + 'switch_to_fork'
    ro = ['BlockCache::rollback$']
    BH = r'elem\(branch\.headers\)'
    HB = r'BlockHeader::block_hash\(' + BH + r'\)'
    HGT = r'add\(add2\(branch\.fork_height,unk\(i,elem\(branch\.headers\)\)\),1\)'
    c.foreach('fork-each', 'every header of the activated branch is indexed, chained and counted', S, ['self', 'branch'], BH, [
        call('HashMap::insert', V('self.headers'), HB, r'.*'),
        call('HashMap::remove', V('self.orphans'), HB),
        call('(NonEmpty|Vec)::push', V('self.chain') + r'(\.tail)?', r'CachedBlock\{height=.*,header=' + BH + r'\}'),
        write(r'self\.chainwork', r'add2\(BlockHeader::work\(' + BH + r'\),.*\)'),
    ], opaque=ro)

    def heights(e, f, m):
        t = str(e.args[1])
        h = re.search(r'height=(.*),header=', t)
        h = h.group(1)
        return re.fullmatch(HGT + r"|add\(last\(self'?\.chain'?\)\.height,1\)|add\(branch\.fork_height,\d+\)|add\((phi|prev|ctr)\(.*\),\d+\)|(phi|prev|ctr)\(.*\)", h) is not None
    c.each('fork-height', 'activated headers get consecutive heights above the fork', S, ['self', 'branch'],
           call('(NonEmpty|Vec)::push', V('self.chain') + r'(\.tail)?', r'CachedBlock\{.*'), heights, opaque=ro)

    def first():
        r = c.run(S, ['self', 'branch'], [], [('p', call('(NonEmpty|Vec)::push', r"self'?\.chain(\.tail)?", r'CachedBlock\{.*'))], opaque=ro)
        h = r.hits.get('p', [])
        return len(h), [(e.where(), 'first height is %s' % sub(e.args[1], 'height')) for e, _, _ in h
                        if not re.fullmatch(HGT + r"|add\(last\(self'?\.chain\)\.height,1\)|add\(branch\.fork_height,1\)", str(sub(e.args[1], 'height')))]
    c.custom('fork-first-height', 'the first activated header sits right above the fork', first)

    def idx(e, f, m):
        return re.fullmatch(HGT + r"|add\(last\(self'?\.chain'?\)\.height,1\)|add\(branch\.fork_height,\d+\)|add\((phi|prev|ctr)\(.*\),\d+\)|(phi|prev|ctr)\(.*\)", str(e.args[2])) is not None
    c.each('fork-index', 'activated headers are indexed at their height', S, ['self', 'branch'],
           call('HashMap::insert', V('self.headers'), HB), idx, opaque=ro)
    c.always('fork-store', 'the whole branch is stored', S, ['self', 'branch'], [call('Store::put', V('self.store'), r'branch\.headers')],
             exits=r'Result::Ok.*', opaque=ro)
    rb = call('BlockCache::rollback', 'self', r'branch\.fork_height')
    c.before('fork-order', 'the old branch is rolled back before the new one is connected', S, ['self', 'branch'], rb,
             anyof(call('(NonEmpty|Vec)::push'), call('Store::put')), opaque=ro)
    c.never('fork-store-err', 'a failed rollback or write is reported as success', S, ['self', 'branch'], ret(r'Result::Ok.*'),
            [(r'is\((Store::put|BlockCache::rollback)\(.*\),Ok\)', False)], opaque=ro)
    c.results('fork-stale', 'the reverted blocks are reported', S, ['self', 'branch'],
              r'Result::Ok\{0=BlockCache::rollback\(self,branch\.fork_height\)\.Ok\}|Result::Err.*', opaque=ro)
    # rollback
    R = BC + 'rollback'
    RP = ['self', 'height']
    HS = r'BlockHeader::block_hash\(' + STALE + r'\.header\)'
    c.foreach('rollback-each', 'every reverted header leaves index and work and is kept for later', R, RP, STALE, [
        call('HashMap::remove', V('self.headers'), HS),
        call('HashMap::insert', V('self.orphans'), HS, STALE + r'\.header'),
        write(r'self\.chainwork', r'sub\(.*,BlockHeader::work\(' + STALE + r'\.header\)\)'),
        call('Vec::push', r"Vec::(new|with_capacity)\(.*\)'?", r'\(.*,' + STALE + r'\.header\)'),
    ])
    c.each('rollback-heights', 'reverted headers are reported with their heights', R, RP,
           call('Vec::push', r"Vec::(new|with_capacity)\(.*\)'?", r'\(.*,' + STALE + r'\.header\)'),
           lambda e, f, m: re.match(r'\((elem\(RangeFrom\{start=add\(height,1\)\}\)|' + STALE + r'\.height|add\(add2\(height,unk\(i,.*\)\),1\)),', str(e.args[1])) is not None)
    c.always('rollback-cut', 'chain and store are cut at the given height', R, RP, [
        call(r'Vec::(drain|split_off)', V('self.chain.tail'), r'(RangeFrom\{start=height\}|height)'),
        call('Store::rollback', V('self.store'), 'height')], exits=r'Result::Ok.*')
    c.never('rollback-err', 'a failed store rollback is reported as success', R, RP, ret(r'Result::Ok.*'), [(r'is\(Store::rollback\(.*\),Ok\)', False)])
    # queries reflect the bookkeeping
    RD = READER
    c.results('height', 'the height is that of the last block', RD + 'height', ['self'], E('last(self.chain).height'))
    c.results('work', 'the reported work is the accumulated one', RD + 'chain_work', ['self'], r'self\.chainwork')
    c.results('tip', 'the tip is the last block', RD + 'tip', ['self'], r'\(' + TIPH + r',last\(self\.chain\)\.header\)')
    c.results('by-height', 'lookup by height reads the active chain', RD + 'get_block_by_height', ['self', 'h'],
              r'Option::Some\{0=get\(self\.chain,h\)\.Some\.header\}|Option::None')
    c.results('by-hash', 'lookup by hash reads the index, then the active chain', RD + 'get_block', ['self', 'h'],
              r'Option::Some\{0=\(get\(self\.chain,get\(self\.headers,h\)\.Some\)\.Some\.height,get\(self\.chain,get\(self\.headers,h\)\.Some\)\.Some\.header\)\}|Option::None')
    c.never('by-hash-none', 'an indexed block is not found', RD + 'get_block', ['self', 'h'], ret('Option::None'), [(r'is\(get\(.*\),Some\)', True)])
    c.results('contains', 'active-chain membership is index membership', RD + 'contains', ['self', 'h'],
              r'is\(get\(self\.headers,h\),Some\)|true|false')
    c.never('contains-no', 'a block outside the index is reported active', RD + 'contains', ['self', 'h'], ret('true'), [(r'is\(get\(self\.headers,h\),Some\)', False)])
    c.never('contains-yes', 'an indexed block is reported inactive', RD + 'contains', ['self', 'h'], ret('false'), [(r'is\(get\(self\.headers,h\),Some\)', True)])


def C06(c):
    """import_blocks()/import_block(): what the caller is told (tip, connected, reverted, errors) is traced back to
    the per-header results and filtered against the final active chain."""
    F = TREE + 'import_blocks'
    P = ['self', 'chain', 'context']
    o = ['BlockCache::import_block$']
    IB = r"BlockCache::import_block\(self'?,elem\(chain\),context\)"
    c.foreach('each', 'every header given is imported', F, P, r'elem\(chain\)', [call('BlockCache::import_block', r"self'?", r'elem\(chain\)', 'context')], opaque=o)

    def kind(e):
        t = ' '.join(map(str, e.args[1:]))
        if '.TipChanged.reverted' in t:
            return 'R'
        if '.TipChanged.connected' in t:
            return 'S' if 'BTreeSet' in str(e.args[0]) or 'HashSet' in str(e.args[0]) else 'C'
    sink = lambda k: (lambda e: e.kind == 'call' and re.fullmatch(r'Extend::extend|(BTree|Hash)(Map|Set)::insert|Vec::push', e.short) is not None and kind(e) == k)
    loc = {}
    def locs():
        r = c.run(F, P, [], [(k, sink(k)) for k in 'RSC'], opaque=o)
        for k in 'RSC':
            for e, _, _ in r.hits.get(k, []):
                loc.setdefault(k, set()).add(str(e.locs[0]))
        return len(loc), [(c.fn(F), 'nothing accumulates the %s blocks' % n) for k, n in (('R', 'reverted'), ('C', 'connected')) if k not in loc]
    c.custom('accumulate', 'connected and reverted blocks of every header are accumulated', locs)
    changed = (r'is\(' + IB + r'(\.Ok)?,(Ok|TipChanged)\)', True)
    for k, n in (('R', 'reverted'), ('C', 'connected'), ('S', 'connected')):
        def whole(k=k, n=n):
            c.foreach('accumulate-' + n, 'every tip change contributes its %s blocks' % n, F, P, r'elem\(chain\)', [sink(k)], [changed], opaque=o)

        def singly(k=k, n=n):
            src = r'.*\.TipChanged\.' + n
            c.foreach('accumulate-' + n, 'every tip change contributes its %s blocks' % n, F, P, r'elem\(chain\)',
                      [lambda e: e.kind == 'iter_end' and re.fullmatch(src, str(e.args[0]))], [changed], opaque=o)
            at = {}
            r = c.run(F, P, [], [('it', lambda e: e.kind == 'iter' and re.fullmatch(src, str(e.args[0])))], opaque=o)
            for e, _, _ in r.hits.get('it', []):
                at[e.args[1].a[1].k] = 1
            c.either(*[(lambda q=q: c.foreach('accumulate-' + n, 'every tip change contributes all its %s blocks' % n, F, P,
                                              lambda t: t.op == 'elem' and t.a[1].k == q, [sink(k)], [changed], must=False, opaque=o)) for q in sorted(at, key=str)])
        c.either(whole, singly)
    on = lambda k, nm: (lambda e: e.kind == 'retain' and e.name == nm and str(e.locs[0]) in loc.get(k, ()))
    K1 = r"key\(BTreeMap::new\(\)'?\)\.1"
    seen = r"is\(get\((BTree|Hash)Set::new\(\)'?," + K1 + r"\),Some\)"
    act = r"is\(get\(self'?\.headers'?,.*\),Some\)"
    c.never('reverted-seen', 'a block connected by this very import is reported as reverted', F, P, on('R', 'keep'), [(seen, True)], opaque=o)
    c.never('reverted-active', 'a block on the active chain is reported as reverted', F, P, on('R', 'keep'), [(act, True)], opaque=o)
    c.never('reverted-lost', 'a block reverted from the original chain is not reported', F, P, on('R', 'drop'), [(act, False), (seen, False)], opaque=o)
    c.never('connected-stale', 'a block not on the active chain is reported as connected', F, P, on('C', 'keep'), [(act, False)], opaque=o)
    c.never('connected-lost', 'a connected block on the active chain is not reported', F, P, on('C', 'drop'), [(act, True)], opaque=o)
    c.possible('reverted-filter', 'reverted blocks are filtered', F, P, on('R', 'keep'), opaque=o)
    c.possible('connected-filter', 'connected blocks are filtered', F, P, on('C', 'keep'), opaque=o)
    okc = r'Result::Ok\{0=ImportResult::TipChanged.*'

    def fields():
        r = c.run(F, P, [changed], [('i', call('BlockCache::import_block'))], opaque=o)
        n, bad = 0, []
        base = {'header': r"last\(self'\.chain\)\.header", 'hash': r"BlockHeader::block_hash\(last\(self'\.chain\)\.header\)", 'height': r"last\(self'\.chain\)\.height"}
        for rv, mon, _, _ in r.exits:
            if not re.match(okc, str(rv)) or 'i' not in mon:
                continue
            n += 1
            for fld in base:
                v = str(sub(rv, 'Ok.0', 'TipChanged.' + fld))
                if not re.fullmatch(r'(prev\()?' + IB + r'\.Ok\.TipChanged\.%s\)?|phi\(.*\)|' % fld + base[fld], v):
                    bad.append((c.fn(F), '%s=%s' % (fld, v)))
        return n, bad
    c.custom('tip-fields', 'the reported tip is that of the last change', fields)

    def order():
        r = c.run(F, P, [], [('it', lambda e: e.kind == 'iter' and 'BTreeMap::new()' in str(e.args[0]) and 'rev(' in str(e.args[0]))], opaque=o)
        h = r.hits.get('it', [])
        return max(len(h), 1), [] if h else [(c.fn(F), 'no newest-first traversal of the reverted blocks')]
    c.custom('reverted-order', 'reverted blocks are reported newest first', order)
    bad = [(r'is\(' + IB + r',Ok\)', False), (r'is\(' + IB + r'\.Err,(DuplicateBlock|BlockMissing)\)', False)]

    def abort():
        r = c.run(F, P, bad, [('i', call('BlockCache::import_block'))], opaque=o)
        n, v = 0, []
        for rv, mon, facts, _ in r.exits:
            n += 1
            if 'i' in mon and not re.fullmatch(r'Result::Err\{0=Error::BlockImportAborted\{0=(' + IB + r"\.Err|phi\(.*\)),1=.*,2=last\(self'?\.chain'?\)\.height\}\}", str(rv)):
                v.append((c.fn(F), 'returns %s' % str(rv)[:200]))
        return n, v
    c.custom('abort', 'an invalid header aborts the import and is reported', abort)
    for x, y in (('DuplicateBlock', 'BlockMissing'), ('BlockMissing', 'DuplicateBlock')):
        c.never('tolerate-' + x, 'a duplicate or unconnected header aborts the import', F, P, ret(r'Result::Err.*'),
                [(r'is\(' + IB + r',Ok\)', False), (r'is\(' + IB + r'\.Err,' + x + r'\)', True), (r'is\(' + IB + r'\.Err,' + y + r'\)', False)], opaque=o)
    c.never('unchanged', 'a tip change is reported although nothing was connected', F, P, ret(okc), [(r"eq\(len\(BTreeMap::new\(\)'?\),0\)", True)], opaque=o)
    c.never('changed', 'connected blocks are hidden behind an unchanged tip', F, P, ret(r'Result::Ok\{0=ImportResult::TipUnchanged\}'),
            [(r"eq\(len\(BTreeMap::new\(\)'?\),0\)", False)], opaque=o)
    # one header
    G = BC + 'import_block'
    GP = ['self', 'header', 'clock']
    go = ['BlockCache::validate$', 'chain_candidates', 'switch_to_fork']
    BR = r'(prev\(Option::Some\{0=elem\(BlockCache::chain_candidates\(self,clock\)\)\}\)\.Some|elem\(BlockCache::chain_candidates\(self,clock\)\)|phi\([^()]*\))'

    def one():
        r = c.run(G, GP, [], opaque=go)
        n, v = 0, []
        want = (r'Result::Ok\{0=ImportResult::TipChanged\{header=(last\(' + BR + r'\.headers\)\.Some|phi\(.*?\)|last\(self\'\.chain\)\.header),'
                r'hash=(' + BR + r'\.tip|phi\(.*?\)),height=last\(self\'\.chain\)\.height,reverted=(BlockCache::switch_to_fork\(self,' + BR + r'\)\.Ok|phi\(.*?\)),connected=.*')
        for rv, _, _, _ in r.exits:
            s = str(rv)
            if re.match(okc, s):
                n += 1
                if not re.fullmatch(want, s):
                    v.append((c.fn(G), 'returns %s' % s[:300]))
        return n, v
    c.custom('one-fields', 'tip, height and reverted blocks are those of the activated branch', one)
    part = lambda t: re.search(r"skip\(self'\.chain,(add\(" + BR + r"\.fork_height,1\)|phi\(.*?\))\)", t) is not None and re.search(
        r"take\(skip\(self'\.chain,(?:.*)\),(sub\(last\(self'\.chain\)\.height," + BR + r"\.fork_height\)|add\(sub\(last\(self'\.chain\)\.height,phi\(.*?\)\),1\)|phi\(.*?\))\)", t) is not None
    WC = 'the connected blocks are the whole activated branch'

    def collected():
        c.each('one-connected', WC, G, GP, call('NonEmpty::from_vec'), lambda e, f, m: part(str(e.args[0])), opaque=go)

    def pushed():
        new = r"Vec::(new|with_capacity)\(.*\)'*"
        c.each('one-connected', WC, G, GP, lambda e: e.kind == 'iter' and "self'.chain" in str(e.args[0]) and 'skip(' in str(e.args[0]),
               lambda e, f, m: part(str(e.args[0])), opaque=go)
        c.foreach('one-connected', WC, G, GP, r"(tagged\()?elem\(self'\.chain\).*", [call('Vec::push', new, r"\(.*elem\(self'\.chain\).*\.height,.*elem\(self'\.chain\).*\.header\)")], whole=False, must=False, opaque=go)
        c.each('one-connected', WC, G, GP, call('NonEmpty::from_vec'), lambda e, f, m: re.fullmatch(new, str(e.args[0])) is not None, opaque=go)
    c.either(collected, pushed)
    c.after('one-report', 'a switch of chain is reported', G, GP, call('BlockCache::switch_to_fork'), ret(okc + r'|Result::Err.*'), opaque=go)


def C07(c):
    """BlockCache::new / load_with: loading replays every stored header after genesis, rejects a foreign genesis and
    store errors, and rebuilds index and accumulated work."""
    N = BC + 'new'
    NP = ['store', 'params', 'checkpoints']
    G = r'Store::genesis\(store\)'
    c.results('empty', 'a fresh cache holds exactly the genesis block of its store', N, NP,
              r'Result::Err\{0=Store::len\(store\)\.Err\}|Result::Ok\{0=BlockCache\{chain=(\(|NonEmpty\{head=|NonEmpty::new\()CachedBlock\{height=0,header=' + G +
              r'\}.*,orphans=HashMap::new\(\),checkpoints=collect\(checkpoints\),params=params,chainwork=BlockHeader::work\(' + G + r'\),store=store\}\}')
    c.always('genesis-index', 'genesis is indexed at height zero', N, NP, [call('HashMap::insert', r'HashMap::new\(\)', r'BlockHeader::block_hash\(.*' + G + r'.*\)', '0')], exits=r'Result::Ok.*')
    L = BC + 'load_with'
    LP = ['self', 'progress']
    IT = r'elem\(Store::iter\(self\.store\)\)'
    okr = r'Result::Ok.*'
    c.foreach('replay', 'every stored header is chained and its work counted', L, LP, IT, [
        call('(NonEmpty|Vec)::push', V('self.chain') + r'(\.tail)?', r'CachedBlock\{height=' + IT + r'\.Ok\.0,header=' + IT + r'\.Ok\.1\}'),
        write(r'self\.chainwork', r'add2\(BlockHeader::work\(' + IT + r'\.Ok\.1\),.*\)|add2\(.*,BlockHeader::work\(' + IT + r'\.Ok\.1\)\)'),
    ], stop=ret(r'Result::Err.*'), whole=False)

    def skip1():
        r = c.run(L, LP, [], [('it', lambda e: e.kind == 'iter' and 'Store::iter(self.store)' in str(e.args[0]))])
        h = r.hits.get('it', [])
        return len(h), [(e.where(), 'iterates %s' % e.args[0]) for e, _, _ in h if not re.search(r'skip\(Store::iter\(self\.store\),1\)', str(e.args[0])) or 'take' in str(e.args[0])]
    c.never_after('interrupted', 'an interrupted load is reported complete', L, LP, call('apply', 'progress'), ret(okr), [(r'(ControlFlow::is_break\(apply\(.*\)\)|is\(apply\(.*\),Break\))', True)])
    c.custom('replay-all', 'replay starts right after genesis and covers the whole store', skip1)
    c.never_after('store-err', 'a header that cannot be read is skipped', L, LP, got(IT), anyof(ret(okr), call('(NonEmpty|Vec)::push')), [(r'is\(' + IT + r',Ok\)', False)])
    first = r"first\(self'?\.chain'?\.tail'?\)\.Some\.header\.prev_blockhash"
    SG = r'BlockHeader::block_hash\(Store::genesis\(self\.store\)\)'
    hasm = [(r"is\(first\(self'?\.chain'?\.tail'?\),Some\)", True), (r"eq\(len\(self'?\.chain'?\.tail'?\),0\)", False)]
    c.never('foreign-first', 'a store whose first header does not build on genesis is accepted', L, LP, ret(okr),
            hasm + [(r'eq\((' + SG + ',' + first + '|' + first + ',' + SG + r')\)', False)])
    c.never('foreign-network', 'a store for another network is accepted', L, LP, ret(okr),
            hasm + [(r'eq\((.*genesis.*,' + SG + '|' + SG + r',.*genesis.*)\)', False)])
    c.possible('accepts', 'a matching store is loaded', L, LP, ret(okr), hasm)
    TL = r"elem\(self'?\.chain'?\.tail'?\)"

    def index():
        r = c.run(L, LP, [], [('i', call('HashMap::insert', V('self.headers')))])
        h = r.hits.get('i', [])
        forms = {'prev': r'\(' + TL + r'\.header\.prev_blockhash,add\(' + TL + r'\.height,-1\)\)',
                 'own': r'\(BlockHeader::block_hash\(' + TL + r'\.header\),' + TL + r'\.height\)',
                 'tip': r"\(BlockHeader::block_hash\(last\(self'?\.chain'?\)\.header\),last\(self'?\.chain'?\)\.height\)",
                 'load': r'\(BlockHeader::block_hash\(' + IT + r'\.Ok\.1\),' + IT + r'\.Ok\.0\)'}
        got, bad = set(), []
        for e, _, _ in h:
            t = '(%s,%s)' % (e.args[1], e.args[2])
            k = [n for n, f in forms.items() if re.fullmatch(f, t)]
            if not k:
                bad.append((e.where(), 'indexes %s' % t))
            got |= set(k)
        if not ({'own'} <= got or {'prev', 'tip'} <= got or {'load'} <= got):
            bad.append((c.fn(L), 'not every block is indexed (%s)' % sorted(got)))
        return len(h), bad
    c.custom('index', 'every loaded block is indexed at its height', index)
    c.always('index-tip', 'the index is complete before the cache is handed out', L, LP,
             [call('HashMap::insert', V('self.headers'))], exits=okr)
    c.never('len-chain', 'a cache whose length differs from the store is handed out', L, LP, ret(okr),
            [(r"eq\((Store::len\(self\.store\)\.Ok,len\(self'?\.chain'?\)|len\(self'?\.chain'?\),Store::len\(self\.store\)\.Ok)\)", False)])
    c.results('from', 'opening a cache loads the store', BC + 'from', NP, r'.*load.*|.*Err.*', opaque=['BlockCache::new$', 'BlockCache::load'])
    c.results('load', 'load is never interrupted', BC + 'load', ['self'], r'Result::(?:Ok|Err)\{0=BlockCache::load_with\(self,.*\)\.(?:Ok|Err)\}', opaque=['BlockCache::load_with$'])


STO = 'io::File as nakamoto_common::block::store::Store>::'
SZ = r'mem::size_of\(\)'
FLEN = E('Metadata::len(File::metadata(self.file).Ok)')


def C08(c):
    """File store: position, length and truncation arithmetic of every operation, I/O errors, and the reader that
    replays the file, all against the fixed-size record layout."""
    okr = r'Result::Ok.*'
    c.before('append-at-end', 'headers are written at the end of the file', STO + 'put', ['self', 'headers'],
             call('Seek::seek', V('self.file'), E('SeekFrom::End{0=0}')), call('Encodable::consensus_encode'))
    c.foreach('append-each', 'every header is written, in order', STO + 'put', ['self', 'headers'], r'elem\(headers\)',
              [call('Encodable::consensus_encode', r'elem\(headers\)', V('self.file'))])
    c.never('append-err', 'a failed write is reported as success', STO + 'put', ['self', 'headers'], ret(okr),
            [(r'is\(Seek::seek\(.*\),Ok\)', False)])
    c.never('append-err2', 'a failed write is reported as success', STO + 'put', ['self', 'headers'], ret(r'.*consensus_encode.*Ok.*'),
            [(r'is\(Encodable::consensus_encode\(.*\),Ok\)', False)])
    c.each('append-height', 'the height after the write is returned', STO + 'put', ['self', 'headers'], ret(okr),
           lambda e, f, m: re.fullmatch(r'Result::Ok\{0=div\(.*Seek::seek\(self\.file,SeekFrom::End\{0=0\}\)\.Ok.*,' + SZ + r'\)\}|Result::Ok\{0=div\(.*consensus_encode.*,' + SZ + r'\)\}', str(e.args[0])) is not None)
    zero = r'eq\(height,0\)'
    c.results('get-genesis', 'height zero is genesis, which is not in the file', STO + 'get', ['self', 'height'], r'Result::Ok\{0=self\.genesis\}', [(zero, True)])
    c.never('get-genesis-only', 'genesis is returned for another height', STO + 'get', ['self', 'height'], ret(r'Result::Ok\{0=self\.genesis\}'), [(zero, False)])
    c.each('get-pos', 'the record of a height is read from its place', STO + 'get', ['self', 'height'], call('Seek::seek'),
           lambda e, f, m: re.fullmatch(r'SeekFrom::Start\{0=mul\((add\(height,-1\),' + SZ + '|' + SZ + r',add\(height,-1\))\)\}', str(e.args[1])) is not None)
    c.before('get-seek', 'the file is positioned before reading', STO + 'get', ['self', 'height'], call('Seek::seek'), call('Read::read.*'))
    c.always('get-read', 'a whole record is read and decoded', STO + 'get', ['self', 'height'],
             [call('Read::read_exact', r'.*', r'vec::from_elem\(0,' + SZ + r'\)|rep\(0,.*\)'), call('Decodable::consensus_decode')], [(zero, False)], exits=okr)
    for nm, a in (('seek', 'Seek::seek'), ('read', 'Read::read_exact'), ('decode', 'Decodable::consensus_decode'), ('clone', 'File::try_clone')):
        c.never('get-err-' + nm, 'a failed read is reported as success', STO + 'get', ['self', 'height'], ret(okr), [(zero, False), (r'is\(' + a + r'\(.*\),Ok\)', False)])
    c.always('rollback', 'rollback keeps exactly the records up to the height', STO + 'rollback', ['self', 'height'],
             [call('File::set_len', r'self\.file', r'mul\((height,' + SZ + '|' + SZ + r',height)\)')], exits=okr)
    c.never('rollback-err', 'a failed rollback is reported as success', STO + 'rollback', ['self', 'height'], ret(okr), [(r'is\(File::set_len\(.*\),Ok\)', False)])
    c.always('sync', 'sync flushes the file', STO + 'sync', ['self'], [call('File::sync_(data|all)', r'self\.file')], exits=okr)
    c.never('sync-err', 'a failed sync is reported as success', STO + 'sync', ['self'], ret(okr), [(r'is\(File::sync_.*,Ok\)', False)])
    part = r'eq\(rem\(' + FLEN + ',' + SZ + r'\),0\)'
    whole = r'div\(' + FLEN + ',' + SZ + r'\)'
    for m, v in (('len', r'add\(' + whole + r',1\)'), ('height', whole), ('check', r'\(\)')):
        c.results(m, '%s counts whole records plus genesis' % m, STO + m, ['self'], r'Result::Ok\{0=' + v + r'\}',
                  [(part, True), (r'is\(File::metadata\(.*\),Ok\)', True)])
        c.results(m + '-torn', 'a torn record is reported as corruption', STO + m, ['self'], r'Result::Err\{0=Error::Corruption\}',
                  [(part, False), (r'is\(File::metadata\(.*\),Ok\)', True)])
        c.never(m + '-err', 'a failed stat is reported as success', STO + m, ['self'], ret(okr), [(r'is\(File::metadata\(.*\),Ok\)', False)])
    cut = call('File::set_len', r'self\.file')
    c.always('heal', 'healing cuts the torn record off', STO + 'heal', ['self'], [call('File::set_len', r'self\.file',
             r'sub\(' + FLEN + r',rem\(' + FLEN + ',' + SZ + r'\)\)|mul\((' + whole + ',' + SZ + '|' + SZ + ',' + whole + r')\)')], [(part, False)], exits=okr)
    c.each('heal-only-torn', 'healing never cuts more', STO + 'heal', ['self'], cut,
           lambda e, f, m: re.fullmatch(r'sub\(' + FLEN + r',rem\(' + FLEN + ',' + SZ + r'\)\)|mul\((' + whole + ',' + SZ + '|' + SZ + ',' + whole + r')\)', str(e.args[1])) is not None)
    c.never('heal-err', 'a failed heal is reported as success', STO + 'heal', ['self'], ret(okr), [(r'is\(File::(set_len|metadata)\(.*\),Ok\)', False), (part, False)])
    c.results('iter', 'iteration starts with genesis at zero, then the file from height one', STO + 'iter', ['self'],
              r'chain\(\[Result::Ok\{0=\(0,self\.genesis\)\}\],Iter\{height=1,file=FileReader\{file=File::try_clone\(self\.file\)\.Ok,queue=VecDeque::new\(\),index=0\}\}\)|'
              r'\[Result::Err\{0=Error::Io\{0=File::try_clone\(self\.file\)\.Err\}\}\]')
    NX = 'store::io::Iter as core::iter::traits::iterator::Iterator>::next'
    RN = r'FileReader::next\(self\.file\)'
    no = ['FileReader::next']
    eof = r'is\(Error::kind\(' + RN + r'\.Err\.Io\),UnexpectedEof\)'
    c.results('next-item', 'headers come with consecutive heights', NX, ['self'], r'Option::Some\{0=Result::Ok\{0=\(self\.height,' + RN + r'\.Ok\.Some\)\}\}',
              [(r'is\(' + RN + r',Ok\)', True), (r'is\(' + RN + r'\.Ok,Some\)', True)], opaque=no)
    c.always('next-step', 'the height advances by one per header', NX, ['self'], [write(r'self\.height', r'add\(self\.height,1\)')],
             exits=r'Option::Some\{0=Result::Ok.*', opaque=no)
    c.results('next-end', 'the end of the file ends the iteration', NX, ['self'], r'Option::None', [(r'is\(' + RN + r',Ok\)', True), (r'is\(' + RN + r'\.Ok,Some\)', False)], opaque=no)
    c.results('next-err', 'a read error other than end-of-file is passed on', NX, ['self'], r'Option::Some\{0=Result::Err\{0=' + RN + r'\.Err\}\}',
              [(r'is\(' + RN + r',Ok\)', False), (eof, False)], opaque=no)
    FR = 'io::FileReader::next'
    BUF = r"vec::from_elem\(0,mul\((16,mem::size_of\(\)|mem::size_of\(\),16)\)\)'?"
    c.each('reader-pos', 'the reader continues where it stopped', FR, ['self'], call('Seek::seek'),
           lambda e, f, m: re.fullmatch(r'SeekFrom::Start\{0=(self\.index|Seek::seek\(self\.file,SeekFrom::Start\{0=self\.index\}\)\.Ok)\}', str(e.args[1])) is not None)
    c.each('reader-advance', 'the reader advances by what it read', FR, ['self'], write(r'self\.index'),
           lambda e, f, m: re.fullmatch(r'add2\((len\(' + BUF + r'\),self\.index|self\.index,len\(' + BUF + r'\)|Read::.*\.Ok,self\.index)\)', str(e.args[1])) is not None)
    c.before('reader-advance-first', 'nothing is queued without advancing', FR, ['self'], write(r'self\.index'), call('VecDeque::push_back', V('self.queue')))
    c.never('reader-queue', 'buffered headers are dropped by a new read', FR, ['self'], call('Read::.*'), [(r'eq\(len\(self\.queue\),0\)', False)])
    c.results('reader-buffered', 'buffered headers are served first', FR, ['self'], r'Result::Ok\{0=pop_front\(self\.queue\)\}', [(r'eq\(len\(self\.queue\),0\)', False)])
    WE = 'every whole record read is decoded and queued'
    chunk = r'elem\(chunks_exact\(' + BUF + r',mem::size_of\(\)\)\)'
    c.either(
        lambda: c.foreach('reader-each', WE, FR, ['self'], r'elem\(Range\{start=0,end=div\(len\(' + BUF + r'\),mem::size_of\(\)\)\}\)',
                          [call('Read::read_exact'), call('Decodable::consensus_decode'), call('VecDeque::push_back', V('self.queue'), r'Decodable::consensus_decode\(.*\)\.Ok')], [(r'eq\(len\(self\.queue\),0\)', True)], stop=ret(r'Result::Err.*')),
        lambda: c.foreach('reader-each', WE, FR, ['self'], chunk,
                          [call('Decodable::consensus_decode', chunk), call('VecDeque::push_back', V('self.queue'), r'Decodable::consensus_decode\(' + chunk + r'\)\.Ok')], [(r'eq\(len\(self\.queue\),0\)', True)], stop=ret(r'Result::Err.*')))
    c.each('reader-count', 'another number of records is decoded than were read', FR, ['self'], lambda e: e.kind == 'iter' and 'Range{' in str(e.args[0]),
           lambda e, f, m: re.fullmatch(r'Range\{start=0,end=div\(len\(' + BUF + r'\),mem::size_of\(\)\)\}', str(e.args[0])) is not None, least=0)
    c.after('reader-short', 'a short read keeps only what was read', FR, ['self'], call('Read::read_to_end'),
            anyof(call('Vec::truncate', r'.*', r'Read::read_to_end\(.*\)\.Ok'), ret(r'Result::Err.*')))
    c.never('reader-err', 'an I/O error other than end-of-file is swallowed', FR, ['self'], ret(okr),
            [(r'eq\(len\(self\.queue\),0\)', True), (r"is\(Read::read_exact\(self\.file'?,.*\),Ok\)", False), (r'is\(Error::kind\(.*\),UnexpectedEof\)', False)])
    OP = r"OpenOptions::open\(%s,path\)"
    for m, mk in (('open', 'create'), ('create', 'create_new')):
        def opts(m=m, mk=mk):
            r = c.run('io::File::' + m, ['path', 'genesis'], [], [('o', call('OpenOptions::open'))])
            h = r.hits.get('o', [])
            bad = []
            for e, _, _ in h:
                t = str(e.args[0])
                for w in (mk, 'read', 'append'):
                    if not re.search(r'OpenOptions::%s\(.*,true\)' % w, t):
                        bad.append((e.where(), 'not opened with %s' % w))
                if re.search(r'truncate\(.*,true\)', t):
                    bad.append((e.where(), 'opening truncates'))
            return len(h), bad
        c.custom('open-' + m, '%s opens the file for reading and appending without losing data' % m, opts)


def C09(c):
    """locate_headers / locator_hashes / find_branch / range: which slice of the active chain is served."""
    F = READER + 'locate_headers'
    P = ['self', 'locators', 'stop_hash', 'max']
    none = r'eq\(len\(locators\),0\)'
    gb = r'is\(get\(.*stop_hash.*\),Some\)'
    c.results('stop-only', 'without locators only the stop header is served', F, P,
              r'(\[|Vec::\w+\(|box\().*get\(self\.chain,get\(self\.headers,stop_hash\)\.Some\)\.Some\.header.*|Vec::new\(\)|\[\]|NonEmpty.*', [(none, True)])
    loc = r'is\(get\(self\.headers,elem\(locators\)\),Some\)'

    def starts(asm, lo):
        def f():
            r = c.run(F, P, [(none, False)] + asm, [('it', lambda e: e.kind == 'iter' and 'self.chain' in str(e.args[0]))])
            h = r.hits.get('it', [])
            return len(h), [(e.where(), 'serves %s' % e.args[0]) for e, _, _ in h if not re.search(r'skip\(self\.chain,(' + lo + r')\)', str(e.args[0]))]
        return f
    HL = r'get\(self\.chain,get\(self\.headers,elem\(locators\)\)\.Some\)\.Some\.height'
    c.custom('start-unknown', 'with no known locator, service starts after genesis', starts([(loc, False)], '1'))
    c.custom('start-known', 'service starts right after the first known locator', starts([(loc, True), (r'eq\(len\(locators\),0\)', False)], r'add\(' + HL + r',1\)|1'))
    c.possible('start-locator', 'a known locator is used', F, P, lambda e: e.kind == 'iter' and re.search(r'skip\(self\.chain,add\(' + HL + r',1\)\)', str(e.args[0])) is not None,
               [(none, False), (loc, True)])

    STOP = r'(?:last\(self\.chain\)|get\(self\.chain,get\(self\.headers,stop_hash\)\.Some\)\.Some)\.height'
    c.never('first-locator', 'the locators are not tried in the order given', F, P, lambda e: e.kind == 'iter' and 'rev(locators' in str(e.args[0]))

    def cap():
        r = c.run(F, P, [(none, False)], [('it', lambda e: e.kind == 'iter' and 'self.chain' in str(e.args[0]))])
        h = r.hits.get('it', [])
        bad = []
        ends = set()
        for e, f, _ in h:
            m = re.search(r'take\(.*,(.*)\)$', str(e.args[0]).rstrip(')') + ')')
            n = str(e.args[0])
            if n.startswith('map('):
                n = n[4:].rsplit(',', 1)[0]
            m = re.fullmatch(r'take\((.*)\)', n)
            t = m.group(1) if m else '?'
            # split last top-level comma
            d = 0
            for i in range(len(t) - 1, -1, -1):
                if t[i] in ')}]':
                    d += 1
                elif t[i] in '({[':
                    d -= 1
                elif t[i] == ',' and d == 0:
                    t = t[i + 1:]
                    break
            ends.add('max' if t == 'max' else 'stop' if re.fullmatch(r'sub\(' + STOP + ',' + HL + r'\)', t) or re.fullmatch(STOP, t) and 'skip(self.chain,1)' in n or 'phi' in t else '?' + t)
        bad = [(c.fn(F), 'serves %s headers' % x[1:]) for x in ends if x[0] == '?']
        if 'max' not in ends:
            bad.append((c.fn(F), 'the number of headers is not capped'))
        if 'stop' not in ends:
            bad.append((c.fn(F), 'the stop hash or tip does not bound the headers'))
        return len(h), bad
    c.custom('cap', 'never more than the maximum, never past the stop hash or tip', cap)
    L = READER + 'locator_hashes'
    c.each('locators', 'locators are hashes of the active chain', L, ['self', 'from'], call('Vec::push'),
           lambda e, f, m: re.match(r'BlockHeader::block_hash\(get\(self\.chain,elem\(', str(e.args[1])) is not None, opaque=['locators_indexes'])
    c.never('locators-checkpoint', 'a locator below the last checkpoint is produced', L, ['self', 'from'], call('Vec::push'),
            [(r'lt\(elem\(.*\),.*last_checkpoint\(self\)\)', True)], opaque=['last_checkpoint', 'locators_indexes'])
    c.possible('locators-some', 'locators are produced', L, ['self', 'from'], call('Vec::push'), [(r'lt\(elem\(.*\),.*last_checkpoint\(self\)\)', False)], opaque=['last_checkpoint', 'locators_indexes'])
    c.foreach('locators-all', 'a height is left out of the locators', L, ['self', 'from'], r'elem\(.*locators_indexes\(from\)\)', [call('Vec::push', None, r'BlockHeader::block_hash\(.*')],
              [(r'lt\(elem\(.*\),.*last_checkpoint\(self\)\)', False), (r'is\(get\(self\.chain,elem\(.*\)\),Some\)', True)], opaque=['last_checkpoint', 'locators_indexes'])
    FB = READER + 'find_branch'
    fo = ['BlockCache::fork$']
    act = r'is\(get\(.*\),Some\)'
    c.results('branch-active', 'an active block is its own branch', FB, ['self', 'to'],
              r'Option::Some\{0=\(get\(self\.chain,get\(self\.headers,to\)\.Some\)\.Some\.height,NonEmpty::new\(get\(self\.chain,get\(self\.headers,to\)\.Some\)\.Some\.header\)\)\}', [(act, True)], opaque=fo)
    c.results('branch-stale', 'a stale block is reported with its fork point', FB, ['self', 'to'],
              r'Option::Some\{0=\(BlockCache::fork\(self,to\)\.Some\.fork_height,.*\(BlockCache::fork\(self,to\)\.Some\.fork_header,BlockCache::fork\(self,to\)\.Some\.headers\).*\)\}',
              [(act, False), (r'is\(BlockCache::fork\(.*\),Some\)', True)], opaque=fo)
    c.results('branch-none', 'an unknown block has no branch', FB, ['self', 'to'], r'Option::None', [(act, False), (r'is\(BlockCache::fork\(.*\),Some\)', False)], opaque=fo)
    R = READER + 'range'
    c.results('range', 'a range of the active chain is served in order', R, ['self', 'range'],
              r'.*(take\((map\()?skip\((map\()?self\.chain(,closure\))?,range\.start\)(,closure\))?,sub\(range\.end,range\.start\)\)).*')
    for i, (w1, w2) in enumerate(((True, True), (True, False), (False, True))):
        c.results('known%d' % i, 'a block is known iff it is active or kept as an orphan', READER + 'is_known', ['self', 'h'], r'true|is\(get\(self\.(headers|orphans),h\),Some\)',
                  [(r'is\(get\(self\.headers,h\),Some\)', w1), (r'is\(get\(self\.orphans,h\),Some\)', w2)])
    c.results('unknown', 'a block is known iff it is active or kept as an orphan', READER + 'is_known', ['self', 'h'], r'false|is\(get\(self\.orphans,h\),Some\)',
              [(r'is\(get\(self\.headers,h\),Some\)', False), (r'is\(get\(self\.orphans,h\),Some\)', False)])
    LI = 'block::locators_indexes'
    c.each('locators-first', 'locators start at the given height', LI, ['from'], call('Vec::push', r'Vec::(new|with_capacity)\(.*\)'),
           lambda e, f, m: str(e.args[1]) in ('from', '0'))
    c.always('locators-genesis', 'locators end at genesis', LI, ['from'], [call('Vec::push', r'.*', '0')])
    c.never_after('locators-last', 'a locator follows genesis', LI, ['from'], call('Vec::push', r'.*', '0'), call('Vec::push', r'.*', r'.*[a-z].*'))
