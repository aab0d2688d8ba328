"""Header synchronisation (p2p/src/fsm/syncmgr.rs)."""
import re
from ck import *
SM = 'syncmgr::SyncManager::'
RH, RHP = SM + 'received_headers', ['self', 'from', 'headers', 'tree']
HS = r'(NonEmpty::from_vec\(headers\)\.Some|headers)'
HL = r'len\(' + HS + r'\)'
SELF = r"self'*"
PEER = SELF + r"\.peers\.inner'*"
IMP = r"BlockTree::import_blocks\(tree'*,.*?," + SELF + r"\.clock'*\)"
NOW = r"Clock::local_time\(" + SELF + r"\.clock'*\)"
LOCS = r"BlockReader::locator_hashes\(tree'*,BlockReader::height\(tree'*\)\)"
imp = call('BlockTree::import_blocks')
headers_req = sends('.*', r'GetHeaders\{.*')


def neg(facts):
    return [(a, not v) for a, v in facts]


def S01(c):
    """received_headers: DoS limits, misbehaviour decision table, no processing of unknown peers."""
    nonempty = [(r'is\(NonEmpty::from_vec\(headers\),Some\)', True), (r'eq\(' + HL + r',0\)', False)]
    big = [(r'lt\(' + HL + r',2001\)', False), (r'lt\(2000,' + HL + r'\)', True)]
    many = [(r'lt\(' + HL + r',25\)', False), (r'lt\(24,' + HL + r'\)', True)]
    asked = [(r"is\(get\(self'*\.inflight'*,from\),Some\)", True)]
    known = [(r"is\(get\(self'*\.peers\.inner'*,from\),Some\)", True)]
    have = [(r"BlockReader::contains\(tree'*,BlockHeader::block_hash\(last\(" + HS + r'\)(\.Some)?\)\)', True)]
    c.never('oversized', 'more headers than a message may hold are imported', RH, RHP, imp, big)
    c.never('unsolicited', 'many headers nobody asked for are imported', RH, RHP, imp, many + neg(asked))
    c.never('stranger', 'headers of an unknown peer are imported', RH, RHP, imp, neg(known))
    c.never('empty', 'an empty message is imported', RH, RHP, imp, neg(nonempty))
    c.never('known', 'headers already on the active chain are imported again', RH, RHP, imp, have)
    c.always('import', 'acceptable headers are imported', RH, RHP, call('BlockTree::import_blocks', "tree'*", HS), nonempty + neg(big) + asked + known + neg(have))
    c.always('import-few', 'a few announced headers are imported', RH, RHP, call('BlockTree::import_blocks', "tree'*", HS), nonempty + neg(big) + neg(many) + known + neg(have))
    c.always('answered', 'an answered request is no longer outstanding', RH, RHP, call('HashMap::remove', r"self\.inflight", 'from'))
    mis = emits(r'PeerMisbehaved\{addr=from,reason=.*\}')
    c.always('blame-oversized', 'an oversized message is misbehaviour', RH, RHP, mis, nonempty + big)
    c.never('no-blame', 'an acceptable message is misbehaviour', RH, RHP, emits('PeerMisbehaved.*'), neg(big) + [(r'is\(' + IMP + r',Ok\)', True)])
    go = nonempty + neg(big) + asked + known + neg(have)
    V_ = ['InvalidBlockPoW', 'InvalidBlockTarget', 'InvalidBlockHash', 'InvalidBlockHeight', 'InvalidBlockTime', 'DuplicateBlock', 'BlockMissing', 'BlockImportAborted', 'Interrupted',
          'GenesisMismatch', 'Store']
    ab = IMP + r'\.Err\.BlockImportAborted(\.0)?'

    def err(v, wrapped):
        base = [(r'is\(' + IMP + r',Ok\)', False), (r'is\(' + IMP + r',Err\)', True)]
        if wrapped:
            return base + [(r'is\(' + IMP + r'\.Err,%s\)' % x, x == 'BlockImportAborted') for x in V_] + [(r'is\(' + ab + r',%s\)' % x, x == v) for x in V_]
        return base + [(r'is\(' + IMP + r'\.Err,%s\)' % x, x == v) for x in V_]
    for w in (False, True):
        for v in V_:
            if v == 'BlockImportAborted':
                continue
            tag = v + ('-aborted' if w else '')
            if v.startswith('InvalidBlock'):
                c.always('blame-' + tag, 'an invalid header is misbehaviour of the sender', RH, RHP, mis, go + err(v, w))
            else:
                c.never('spare-' + tag, 'a harmless import outcome is misbehaviour', RH, RHP, emits('PeerMisbehaved.*'), neg(big) + err(v, w))
        c.always('store-error' + ('-aborted' if w else ''), 'a store failure is reported', RH, RHP, emits(r'Error\{.*Store.*\}'), go + err('Store', w))
    c.never('error-other', 'something else is reported as a store failure', RH, RHP, emits('Error.*'), err('InvalidBlockPoW', False))
    R, RP = SM + 'received_event', ['self', 'event', 'tree']
    is_ = [(r'is\(event,MessageReceived\)', True)]
    m = r'event\.MessageReceived\.message.*'
    c.always('dispatch', 'headers messages are handled', R, RP, call('SyncManager::received_headers', 'self', r'event\.MessageReceived\.from', m + 'Headers.*', 'tree'),
             is_ + [(r'is\(' + m + r',Headers\)', True)], opaque=['received_headers$'])
    c.const('max-headers', 'headers per message', 'syncmgr::MAX_MESSAGE_HEADERS', '2000')


def ghs(to, loc, stop):
    return sends(to, r'GetHeaders\{0=GetHeadersMessage\{version=.*,locator_hashes=' + loc + r',stop_hash=' + stop + r'\}\}')


def S02(c):
    """Header requests: one outstanding per peer, tracked, armed with a timer; expiry handled by kind; sync asks when behind."""
    R, RP = SM + 'request', ['self', 'addr', 'locators', 'timeout', 'on']
    c.always('answered', 'an answered request is no longer outstanding', SM + 'received_headers', ['self', 'from', 'headers', 'tree'], call('HashMap::remove', r"self\.inflight", 'from'))
    fl = [(r'is\(get\(self\.inflight,addr\),Some\)', True)]
    kn = [(r'is\(get\(self\.peers\.inner,addr\),Some\)', True)]

    def direct():
        c.never('once', 'a peer with an outstanding request is asked again', R, RP, anyof(headers_req, call('HashMap::insert', r"self\.inflight'*")), fl)
        c.never('known', 'an unknown peer is asked', R, RP, headers_req, neg(kn))
        c.always('ask', 'an idle peer is asked with the given locators; the request is tracked and armed with a timer', R, RP,
                 [ghs('addr', r'locators\.0', r'locators\.1'), wakes('timeout'), write(r'get\(self\.peers\.inner,addr\)\.Some\.last_asked', r'Option::Some\{0=locators\}'),
                  call('HashMap::insert', r'self\.inflight', 'addr', r'GetHeaders\{locators=locators,sent_at=Clock::local_time\(self\.clock\),on_timeout=on\}')], neg(fl) + kn)
    direct()
    # every request made anywhere is tracked and armed
    T_, TP = SM + 'timer_expired', ['self', 'tree']
    for nm, f, p in (('headers', RH, RHP), ('inv', SM + 'received_inv', ['self', 'addr', 'inv', 'tree']), ('timer', T_, TP), ('sync', SM + 'sync', ['self', 'tree']), ('sample', SM + 'sample_peers', ['self', 'tree'])):
        kw = dict(opaque=[] if nm == 'sync' else ['SyncManager::sync$'])
        c.along('track-' + nm, 'a request is armed with a timer', f, p, headers_req, wakes(r".*request_timeout"), **kw)
        c.along('note-' + nm, 'a request is tracked until answered', f, p, headers_req, call('HashMap::insert', r"self'*\.inflight'*"), **kw)
    # expiry
    K_ = r"key\(self\.inflight\)"
    ent = r"get\(self\.inflight,key\(self\.inflight\)\)\.Some"
    tm = r"self'*\.config\.request_timeout"
    exp = [(r"lt\(sub\(" + NOW + r"," + ent + r"\.sent_at\)," + tm + r"\)", False)]
    op = ['SyncManager::sync$', 'SyncManager::idle$']
    c.never('early', 'a request that has not expired is dropped', T_, TP, anyof(item(None, r'.*key\(self\.inflight\).*'), call('HashMap::remove', r"self'*\.inflight'*", r'key\(.*')), neg(exp), opaque=op)
    c.possible('expire', 'an expired request is dropped', T_, TP, call('HashMap::remove', r"self'*\.inflight'*", r'.*'), exp, opaque=op)
    el = r'\(' + K_ + r',.*\)|' + ent
    c.foreach('expire-each', 'every expired request is dropped', T_, TP, el, [call('HashMap::remove', r"self'*\.inflight'*", K_)], exp, opaque=op)
    kind = lambda k: [(r'is\(' + ent + r'\.on_timeout,%s\)' % k, True)] + [(r'is\(' + ent + r'\.on_timeout,%s\)' % x, False) for x in ('Ignore', 'Disconnect', 'Retry') if x != k]
    z = r'eq\(' + ent + r'\.on_timeout\.Retry(\.0)?,0\)'
    c.foreach('drop', 'a peer that owes us the next batch is disconnected', T_, TP, el, [disconnects(K_, 'PeerTimeout.*')], exp + kind('Disconnect'), opaque=op)
    c.foreach('drop-retries', 'a peer is disconnected after the last retry', T_, TP, el, [disconnects(K_, 'PeerTimeout.*')], exp + kind('Retry') + [(z, True)], opaque=op)
    c.never('spare', 'a peer is disconnected for an optional request', T_, TP, disconnects(), kind('Ignore'), opaque=op)
    c.never('spare-retry', 'a peer is disconnected although retries are left', T_, TP, disconnects(), kind('Retry') + [(z, False)], opaque=op)
    got_ = [(r"is\(NonEmpty::from_vec\(.*\),Some\)", True), (r"eq\(len\(collect\(filter\(self'*\.peers\.inner'*,closure\)\)\),0\)", False)]
    c.foreach('retry', 'otherwise the same headers are requested from another peer', T_, TP, el, [ghs('.*', ent + r'\.locators\.0', ent + r'\.locators\.1')],
              exp + kind('Retry') + [(z, False)] + got_ + [(r"is\(get\(self'*\.inflight'*,(NonEmpty.*|key\(self'*\.peers.*)\),Some\)", False), (r"is\(get\(self'*\.peers\.inner,NonEmpty.*\),Some\)", True)], opaque=op)
    c.each('retry-count', 'the number of retries goes down', T_, TP, call('HashMap::insert', r"self'*\.inflight'*"),
           lambda e, f, m: re.search(r'on_timeout=OnTimeout::Retry\{0=add\(' + ent + r'\.on_timeout\.Retry(\.0)?,-1\)\}', str(e.args[2])) is not None, opaque=op)
    c.each('retry-other', 'the silent peer is not asked again', T_, TP, item(r'filter\(self.*peers.*', None),
           lambda e, f, m: any(re.fullmatch(r"eq\(" + K_ + r",key\(self'*\.peers\.inner\)\)", str(k)) and v is False for k, v in f.items()), opaque=op)
    c.always('resync', 'dropping a peer restarts the sync', T_, TP, anyof(call('SyncManager::sync'), call('SyncManager::idle')), opaque=op)
    c.after('resync-drop', 'dropping a peer restarts the sync', T_, TP, disconnects(), call('SyncManager::sync'), opaque=op)
    # sync
    S, SP = SM + 'sync', ['self', 'tree']
    ph = r"get\(self\.peers\.inner,key\(self\.peers\.inner\)\)\.Some\.height"
    bh = r"(max\(map\(self\.peers\.inner,closure\)\)|prev\(Option::Some\{0=" + ph + r"\}\)|Option::Some\{0=prev\(" + ph + r"\)\})"
    stale = [(r"lt\(self\.last_tip_update\.Some,sub\(" + NOW + r",.*\)\)", True)]
    time_ = r"LocalTime\{millis=mul\(1000,BlockReader::tip\(tree\)\.1\.time\)\}"
    staleb = [(r"lt\(sub\(" + NOW + r",LocalDuration\{0=7200000\}\)," + time_ + r"\)", False)]
    lastup = [(r"is\(self\.last_tip_update,Some\)", True)]
    behind = [(r"lt\(BlockReader::height\(tree\),(" + bh + r"\.Some|(prev\()?" + ph + r"\)?)\)", True)]
    somep = [(r'eq\(len\(self\.peers\.inner\),0\)', False)]
    synced = emits('BlockHeadersSynced.*')
    c.never('synced-stale', 'we claim to be in sync although our tip has not changed for three block intervals', S, SP, synced, lastup + stale)
    c.never('synced-old', 'we claim to be in sync although our tip is hours old', S, SP, synced, neg(lastup) + staleb)
    c.never('synced-behind', 'we claim to be in sync below the best height of our peers', S, SP, synced, behind)
    c.never('synced-alone', 'we claim to be in sync without peers', S, SP, synced, neg(somep))
    c.always('synced', 'being in sync is announced with our tip', S, SP, emits(r'BlockHeadersSynced\{height=BlockReader::height\(tree\),hash=BlockReader::tip\(tree\)\.0\}'),
             somep + neg(stale) + neg(staleb) + neg(behind) + [(r'is\(' + bh + r',Some\)', True)])
    dup = [(r'eq\(\(' + LOCS + r',Hash::all_zeros\(\)\),get\(self\.inflight,key\(self\.inflight\)\)\.Some\.locators\)', True)]
    c.never_after('sync-dup', 'headers already requested are requested again', S, SP, lambda e: e.kind == 'iter' and str(e.args[0]).startswith('self.inflight'), headers_req, dup)
    c.before('sync-dup-scan', 'outstanding requests are compared first', S, SP, lambda e: e.kind in ('iter', 'iter_end') and re.match(r"self'*\.inflight", str(e.args[0])) is not None, headers_req)
    c.each('sync-what', 'what follows our chain is requested', S, SP, headers_req, lambda e, f, m: re.search(r'locator_hashes=' + LOCS + r',stop_hash=Hash::all_zeros\(\)', str(e.args[1])) is not None)
    c.never('sync-ahead', 'headers are requested although no peer is ahead', S, SP, headers_req, neg(behind))
    px = r"elem\(collect\(collect\(self\.peers\.inner\)'\)\)"
    c.possible('sync', 'a preferred peer ahead of us is asked', S, SP, ghs('.*', LOCS, r'Hash::all_zeros\(\)'), behind + neg(dup) + somep)
    c.results('sync-true', 'asking is reported', S, SP, 'true|false')
    I = SM + 'idle'
    due = [(r"lt\(sub\(" + NOW + r",.*\),.*600000.*\)", False)]
    o2 = ['SyncManager::sync$', 'sample_peers$']
    c.always('idle', 'the sync is retried every block interval', I, SP, [call('SyncManager::sync'), write(r"self'*\.last_idle", r'Option::Some\{0=' + NOW + r'\}'), wakes(r'LocalDuration\{0=600000\}')], due, opaque=o2)
    c.always('idle-sample', 'when there is nothing to sync, peers are sampled', I, SP, call('SyncManager::sample_peers'), due + [(r'SyncManager::sync\(self.*\)', False)], opaque=o2)
    N_, NP = SM + 'peer_negotiated', ['self', 'addr', 'height', 'services', 'link', 'tree']
    reg = call('(HashMap|AddressBook)::insert', r"self\.peers.*", 'addr', r'Peer\{height=height,.*link=link,.*\}')
    svc = [(r'is\(link,Outbound\)', True), (r'ServiceFlags::has\(services,ServiceFlags\{0=1\}\)', False)]
    c.never('peer-services', 'an outbound peer without block data is used', N_, NP, reg, svc, opaque=op)
    c.always('peer', 'other peers are used at once', N_, NP, [reg, call('SyncManager::sync')], [(svc[1][0], True)], opaque=op)
    E_, EP = SM + 'received_event', ['self', 'event', 'tree']
    c.always('peer-gone', 'a disconnected peer and its request are forgotten', E_, EP,
             [call('HashMap::remove', r"self'*\.inflight", r'event\.PeerDisconnected\.addr'), call('(HashMap|AddressBook)::remove', r"self'*\.peers.*", r'event\.PeerDisconnected\.addr')], [(r'is\(event,PeerDisconnected\)', True)])
    c.always('peer-new', 'negotiated peers are registered', E_, EP, call('SyncManager::peer_negotiated', 'self', r'event\.PeerNegotiated\.addr', r'event\.PeerNegotiated\.height', r'event\.PeerNegotiated\.services', r'event\.PeerNegotiated\.link'),
             [(r'is\(event,PeerNegotiated\)', True)], opaque=['SyncManager::peer_negotiated$'])
    # after an import
    kw = dict(opaque=['SyncManager::sync$'])
    ok = [(r'is\(' + IMP + r',Ok\)', True)]
    chg = ok + [(r'is\(' + IMP + r'\.Ok,TipChanged\)', True)]
    full = [(r'lt\(' + HL + r',2000\)', False), (r'lt\(1999,' + HL + r'\)', True), (r'eq\(' + HL + r',2000\)', True)]
    h = IMP + r'\.Ok\.TipChanged\.hash'
    fre = [(r"is\(get\(self'*\.inflight'*,from\),Some\)", False), (r"is\(get\(self'*\.peers\.inner'*,from\),Some\)", True)]
    c.after('next-batch', 'a full message is followed by a request for what comes next', RH, RHP, write(r"self'*\.last_tip_update"), ghs('from', r'(collect\()?\[?' + h + r'\]?\)?', r'Hash::all_zeros\(\)'),
            chg + full + [(r"is\(get\(self'*\.inflight'+,from\),Some\)", False), fre[1]], **kw)
    c.after('last-batch', 'a partial message that extends our chain is followed by a sync', RH, RHP, write(r"self'*\.last_tip_update"), call('SyncManager::sync'), chg + neg(full), **kw)
    c.each('next-owed', 'the next batch is owed by the peer', RH, RHP, call('HashMap::insert', r"self'*\.inflight'*"),
           lambda e, f, m: re.search(r'OnTimeout::(Disconnect|Ignore)\}', str(e.args[2])) is not None and (('Disconnect' in str(e.args[2])) == ('TipChanged' in str(e.args[2]))), **kw)
    unch = ok + [(r'is\(' + IMP + r'\.Ok,TipChanged\)', False), (r'is\(' + IMP + r'\.Ok,TipUnchanged\)', True)]
    c.after('ancestor', 'headers that do not connect lead to a request for what lies between', RH, RHP, imp, ghs('from', LOCS, r'BlockHeader::block_hash\(first\(' + HS + r'\)(\.Some)?\)'),
            unch + [(r"is\(get\(self'*\.inflight'+,from\),Some\)", False), fre[1]], **kw)
    hi = IMP + r'\.Ok\.TipChanged\.height'
    upd = [(r"lt\(get\(self'*\.peers\.inner'*,from\)\.Some\.height," + hi + r"\)", True)]
    c.each('peer-height', 'a peer is known to have what it sent', RH, RHP, write(r"get\(self'*\.peers\.inner'*,from\)\.Some\.height"), lambda e, f, m: re.fullmatch(hi, str(e.args[1])) is not None, **kw)
    c.never('peer-height-down', 'the known height of a peer goes down', RH, RHP, write(r"get\(self'*\.peers\.inner'*,from\)\.Some\.height"), neg(upd), **kw)


def S03(c):
    """import_blocks: exactly the reported changes become chain events, in order."""
    F, P = SM + 'import_blocks', ['self', 'blocks', 'tree']
    r = r"BlockTree::import_blocks\(tree,blocks,self\.clock\)"
    chg = [(r'is\(' + r + r',Ok\)', True), (r'is\(' + r + r'\.Ok,TipChanged\)', True), (r'is\(' + r + r'\.Ok,TipUnchanged\)', False)]
    rev, con = r + r'\.Ok\.TipChanged\.reverted', r + r'\.Ok\.TipChanged\.connected'
    E1 = r'elem\(' + rev + r'\)'
    E2 = r'elem\(' + con + r'\)'
    dis = emits(r'BlockDisconnected\{header=' + E1 + r'\.1,height=' + E1 + r'\.0\}')
    cn = emits(r'BlockConnected\{header=' + E2 + r'\.1,height=' + E2 + r'\.0\}')
    imp_ = emits(r'BlockHeadersImported\{.*\}')
    kw = dict(opaque=['broadcast_tip$'])
    c.always('import', 'blocks are imported with our clock', F, P, call('BlockTree::import_blocks', 'tree', 'blocks', r'self\.clock'), **kw)
    c.foreach('reverted', 'every reverted block is announced, in the order reported', F, P, E1, [dis], chg, **kw)
    c.foreach('connected', 'every connected block is announced, in the order reported', F, P, E2, [cn], chg, **kw)

    def order():
        x = c.run(F, P, [], [('i', lambda e: e.kind == 'iter')], **kw)
        h = x.hits.get('i', [])
        return len(h), [(e.where(), 'blocks are announced in reverse: %s' % e.args[0]) for e, _, _ in h if 'rev(' in str(e.args[0])]
    c.custom('order', 'blocks are announced in the order reported', order)
    c.never_after('first-reverted', 'a block is disconnected after others were connected', F, P, emits('BlockConnected.*'), emits('BlockDisconnected.*'), **kw)
    c.never_after('then-imported', 'block events follow the import event', F, P, imp_, anyof(emits('BlockConnected.*'), emits('BlockDisconnected.*')), **kw)
    c.always('imported', 'the import is announced with the new tip and what changed', F, P,
             emits(r'BlockHeadersImported\{hash=' + r + r'\.Ok\.TipChanged\.hash,height=' + r + r'\.Ok\.TipChanged\.height,connected=' + con + r',reverted=' + rev + r',reorg=.*\}'), chg, **kw)
    c.each('reorg', 'a reorganisation is flagged exactly when blocks were reverted', F, P, imp_,
           lambda e, f, m: re.search(r'reorg=(not\(eq\(len\(' + rev + r'\),0\)\)|lt\(0,len\(' + rev + r'\)\)|true|false)\}', str(e.args[1])) is not None, **kw)
    c.never('silent', 'chain events without a change of the chain', F, P, anyof(emits('Block.*'), call('SyncManager::broadcast_tip')), neg(chg[:1]), **kw)
    c.never('silent2', 'chain events although the tip did not change', F, P, anyof(emits('Block.*'), call('SyncManager::broadcast_tip')), neg(chg[1:2]), **kw)
    c.results('result', 'the import result is returned', F, P, r + r'|Result::(?:Ok|Err)\{0=' + r + r'\.(?:Ok|Err)\}', **kw)
    c.always('broadcast', 'a new tip is broadcast', F, P, call('SyncManager::broadcast_tip', SELF, r + r'\.Ok\.TipChanged\.hash'), chg, **kw)
    B, BP = SM + 'broadcast_tip', ['self', 'hash', 'tree']
    g = r'BlockReader::get_block\(tree,hash\)'
    pe = r"get\(self\.peers\.inner,key\(self\.peers\.inner\)\)\.Some"
    inb = [(r'is\(' + pe + r'\.link,Inbound\)', True), (r'is\(' + pe + r'\.link,Outbound\)', False)]
    low = [(r'lt\(' + pe + r'\.height,' + g + r'\.Some\.0\)', True)]
    snd = sends(r"key\(self\.peers\.inner\)", r'Headers\{0=\[' + g + r'\.Some\.1\]\}')
    c.foreach('announce', 'inbound peers behind our tip get its header', B, BP, r"\(key\(self\.peers\.inner\),.*\)", [snd], inb + low + [(r'is\(' + g + r',Some\)', True)])
    c.never('announce-out', 'an outbound peer gets our tip', B, BP, sends('.*', '.*'), neg(inb))
    c.never('announce-has', 'a peer at our height gets our tip', B, BP, sends('.*', '.*'), neg(low))
    # a failed import leaves the active chain unannounced only if it is unchanged
    K = 'BlockCache as .*BlockTree>::import_blocks'
    KP = ['self', 'chain', 'ctx']
    ib = r"BlockCache::import_block\(.*\)"
    one = [(r'is\(' + ib + r',Ok\)', True)]

    def partial():
        def step(mon, nm, e, st):
            if nm == 'x' and any(v and re.fullmatch(r'is\(.*import_block\(.*\)\.Ok,TipChanged\)', str(k)) for k, v in st.facts.items()):
                return mon | {'chg'}
            return mon
        x = c.run(K, KP, [], [('x', lambda e: e.kind in ('call', 'iter', 'iter_item', 'write'))], opaque=['BlockCache::import_block$'], step=step)
        ex = [(rv, mon) for rv, mon, _, _ in x.exits if str(rv).startswith('Result::Err')]
        return len(x.exits), [('chain/src/block/cache.rs (%s)' % c.fn(K), 'returns an error after the active chain changed; what changed is lost')] if any('chg' in m for _, m in ex) else []
    c.custom('partial', 'an aborted import does not change the active chain silently', partial)


def S04(c):
    """Serving headers and handling block announcements."""
    F, P = SM + 'received_getheaders', ['self', 'addr', 'loc', 'tree']
    syn = [(r'eq\(len\(self\.inflight\),0\)', False)]
    mx = r'self\.config\.max_message_headers'
    lh = r'BlockReader::locate_headers\(tree,loc\.0,loc\.1,' + mx + r'\)'
    zero = [(r'eq\(' + mx + r',0\)', True)]
    none = [(r'eq\(len\(' + lh + r'\),0\)', True)]
    snd = sends('.*', '.*')
    c.never('syncing', 'headers are served while syncing', F, P, snd, syn)
    c.never('off', 'headers are served although serving is off', F, P, snd, zero)
    c.never('nothing', 'an empty answer is sent', F, P, snd, none)
    c.each('what', 'what is served follows the locators, up to the limit', F, P, snd, lambda e, f, m: re.fullmatch(r'Io::Write\{0=addr,1=NetworkMessage::Headers\{0=' + lh + r'\}\}', str(e.args[1])) is not None)
    c.always('serve', 'known headers are served', F, P, snd, neg(syn) + neg(zero) + neg(none))
    R, RP = SM + 'received_event', ['self', 'event', 'tree']
    is_ = [(r'is\(event,MessageReceived\)', True)]
    m = r'event\.MessageReceived\.message.*'
    fr = r'event\.MessageReceived\.from'
    c.always('dispatch', 'header requests are handled', R, RP, call('SyncManager::received_getheaders', 'self', fr, r'\(.*GetHeaders.*locator_hashes.*,.*GetHeaders.*stop_hash\)'),
             is_ + [(r'is\(' + m + r',GetHeaders\)', True)], opaque=['received_getheaders$'])
    c.always('dispatch-inv', 'announcements are handled', R, RP, call('SyncManager::received_inv', 'self', fr, m + r'Inv.*'), is_ + [(r'is\(' + m + r',Inv\)', True)], opaque=['received_inv$'])
    I, IP = SM + 'received_inv', ['self', 'addr', 'inv', 'tree']
    big = [(r'lt\(len\(inv\),50001\)', False), (r'lt\(50000,len\(inv\)\)', True)]
    kn = [(r'is\(get\(self\.peers\.inner,addr\),Some\)', True)]
    blk = [(r'is\(elem\((rev\()?inv\)?\),Block\)', True)]
    have = [(r'BlockReader::is_known\(tree,elem\((rev\()?inv\)?\)\.Block\)', True)]
    c.never('inv-syncing', 'announcements are acted on while syncing', I, IP, anyof(headers_req, write('.*peers.*')), syn)
    c.never('inv-big', 'an oversized announcement is acted on', I, IP, anyof(headers_req, write('.*peers.*')), big)
    c.never('inv-stranger', 'an announcement of an unknown peer is acted on', I, IP, headers_req, neg(kn))
    c.never('inv-known', 'known blocks are requested', I, IP, headers_req, have)
    c.never('inv-other', 'something that is not a block is requested', I, IP, headers_req, neg(blk))
    req = ghs('addr', LOCS, r'(prev\()?(Option::Some\{0=)?elem\((rev\()?inv\)?\)\.Block.*')
    c.each('inv-what', 'the headers up to the last unknown announced block are requested', I, IP, headers_req, lambda e, f, m: req(e))
    early = []

    def last(mon, nm, e, st=None):
        if nm == 'x':
            if 'in' in mon:
                early.append((e, 'before all entries were looked at'))
            elif any(str(t) == 'BlockReader::is_known(tree,elem(inv).Block)' and v is False for t, v in st.facts.items()) and re.search(r'prev\(Option::Some\{0=elem\(inv\)\.Block', str(e.args[2])):
                early.append((e, 'although a later block is unknown too'))
            return mon
        return mon | {'in'} if e.kind == 'iter' else mon - {'in'}

    def last_unknown():
        o = ['SyncManager::request$']
        r = c.run(I, IP, [], [('x', call('SyncManager::request')), ('i', lambda e: e.kind in ('iter', 'iter_end') and re.search(r'\binv\b', str(e.args[0])) is not None and 'rev(' not in str(e.args[0]))],
                  step=last, reset=early.clear, opaque=o)
        return len(r.hits.get('x', [])), [(e.where(), 'headers up to a block are requested %s: `%s`' % (w, e)) for e, w in early[:2]]
    c.custom('inv-last', 'the headers up to the last unknown block are requested', last_unknown)
    c.foreach('inv-scan', 'all entries are looked at', I, IP, r'elem\(inv\)', [write(r"get\(self\.peers\.inner,addr\)\.Some\.tip", r'elem\(inv\)\.Block')], neg(syn) + neg(big) + kn + blk + [(r'is\(elem\(inv\),Block\)', True)])
    c.after('inv-ask', 'an unknown block leads to a request', I, IP, lambda e: e.kind == 'iter', headers_req,
            neg(syn) + neg(big) + kn + blk + neg(have) + [(r"is\(get\(self\.inflight,addr\),Some\)", False), (r"is\(prev\(.*\),Some\)", True)])
