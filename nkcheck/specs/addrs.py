"""The address book (p2p/src/fsm/addrmgr.rs, common/src/p2p/peer.rs)."""
import re
from ck import *
AM = 'addrmgr::AddressManager::'
PS = r"(self'*|phi\(self\)|phi\(.*?\))\.peers'*|phi\(self\.peers\)"
EL = r"elem\(addrs\)"
SOCK = r"Address::socket_addr\(" + EL + r"\.1\)"
IP = r"SocketAddr::ip\(" + SOCK + r"\.Ok\)"
NOW = r"Clock::local_time\(self'*\.clock'*\)"
OP = ['addrmgr::is_local$', 'addrmgr::is_routable$', 'addr_key$']
EV, EVP = AM + 'received_event', ['self', 'event']
IN, INP = AM + 'insert', ['self', 'addrs', 'source']
KN = r"is\((at\()?get\((" + PS + r")," + IP + r"\)\)?,Some\)"
stored = call('Store::insert')
S = r"self'*"


def neg(facts):
    return [(a, not v) for a, v in facts]


def A01(c):
    """Which addresses enter the book, with what, and which must not."""
    kw = dict(opaque=OP)
    rules = [
        ('services', 'an address without the required services', [(r'ServiceFlags::has\(' + EL + r'\.1\.services,' + S + r'\.cfg\.required_services\)', False)]),
        ('getutxo', 'an address of an antiquated node (getutxo)', [(r'ServiceFlags::has\(' + EL + r'\.1\.services,ServiceFlags\{0=2\}\)', True)]),
        ('bloom', 'an address of an antiquated node (bloom)', [(r'ServiceFlags::has\(' + EL + r'\.1\.services,ServiceFlags\{0=4\}\)', True)]),
        ('inactive', 'an address never seen active', [(r'eq\(' + EL + r'\.0,0\)', True), (r'is\(source,Imported\)', False)]),
        ('future', 'an address last active in the future', [(r'lt\(add2\(.*' + S + r'\.last_idle\.Some.*\),LocalTime\{millis=mul\(1000,' + EL + r'\.0\)\}\)', True)]),
        ('onion', 'an address that is no socket address', [(r'is\(' + SOCK + r',Ok\)', False)]),
        ('domain', 'an address of an unsupported kind', [(r'contains\(' + S + r'\.cfg\.domains,Domain::\w+\)', False)]),
        ('self', 'our own address', [(r'is\(get\(' + S + r'\.local_addrs,' + SOCK + r'\.Ok\),Some\)', True)]),
        ('banned', 'a banned address', [(r'is\(get\(' + S + r'\.bans,' + IP + r'\),Some\)', True)]),
        ('routable', 'an address that is not routable', [(r'addrmgr::is_routable\(' + IP + r'\)', False)]),
        ('local', 'a local address', [(r'addrmgr::is_local\(' + IP + r'\)', True)]),
    ]
    for rid, what, a in rules:
        c.never(rid, what + ' is added to the book', IN, INP, stored, a, **kw)
    def unneg(a):
        return neg(a[:1])
    good = [x for _, _, a in rules for x in unneg(a)]
    c.foreach('added', 'every other address is offered to the book', IN, INP, EL, [call('Store::insert', PS, IP, '.*')], good, opaque=OP + ['populate_address_ranges$'])
    c.foreach('added-import', 'imported addresses need no activity time', IN, INP, EL, [call('Store::insert', PS, IP, r'.*last_active=Option::None\}')],
              [x for x in good if 'eq\\(' not in x[0]] + [(r'eq\(' + EL + r'\.0,0\)', True), (r'is\(source,Imported\)', True)], opaque=OP + ['populate_address_ranges$'])
    c.each('what', 'an address is recorded as received, without history', IN, INP, stored,
           lambda e, f, m: re.fullmatch(r'KnownAddress\{addr=' + EL + r'\.1,source=source,last_success=Option::None,last_sampled=Option::None,last_attempt=Option::None,last_active=(Option::None|Option::Some\{0=LocalTime\{millis=mul\(1000,'
                                        + EL + r'\.0\)\}\})\}', str(e.args[2])) is not None and re.fullmatch(IP, str(e.args[1])) is not None, **kw)
    c.each('when', 'the activity time is kept', IN, INP, call('Store::insert', '.*', '.*', r'.*last_active=Option::None\}'),
           lambda e, f, m: any(v for k, v in f.items() if re.fullmatch(r'eq\(' + EL + r'\.0,0\)', str(k))), least=0, **kw)
    R, RP = AM + 'received_addr', ['self', 'peer', 'addrs']
    c.never('too-many', 'more than a thousand addresses of one message are looked at', R, RP, got(EL), [(r'lt\(len\(addrs\),1001\)', False)], **kw)
    c.always('message', 'the addresses of a message are looked at', R, RP, (lambda e: e.kind in ('iter', 'iter_end') and re.match(r'addrs', str(e.args[0]))),
             [(r'lt\(len\(addrs\),1001\)', True), (r'eq\(len\(addrs\),0\)', False), (r'lt\(len\(addrs\),1\)', False)], **kw)
    c.each('message-source', 'addresses from a message are attributed to its sender', R, RP, stored,
           lambda e, f, m: re.search(r'source=Source::Peer\{0=peer\}', str(e.args[2])) is not None, **kw)
    M_ = r'event\.MessageReceived\.message.*\.Addr'
    c.possible('from-peers', 'addr messages are taken', EV, EVP, call('Store::insert', '.*', r'.*' + M_ + r'.*', r'.*source=Source::Peer\{0=event\.MessageReceived\.from\}.*'),
               [(r'is\(event,MessageReceived\)', True)], **kw)
    # our own addresses, as seen by others
    c.always('local-addrs', 'the address under which a peer sees us is remembered', EV, EVP, call('HashSet::insert', S + r'\.local_addrs', r'Address::socket_addr\(event\.PeerNegotiated\.receiver\)\.Ok'),
             [(r'is\(event,PeerNegotiated\)', True), (r'is\(Address::socket_addr\(event\.PeerNegotiated\.receiver\),Ok\)', True)], **kw)
    # address classes
    fl = lambda n, v: (r'Ipv4Addr::is_%s\(addr(\.V4)?\)' % n, v)
    cls = ['private', 'loopback', 'link_local']
    v4 = [(r'is\(addr,V4\)', True), (r'is\(addr,V6\)', False)]
    special = [(r'eq\(\w*::from\(addr\.V4\),\d+\)|eq\(addr(\.V4)?,\d+\)|eq\(\d+,addr(\.V4)?\)|eq\(Ipv4Addr::octets\(addr(\.V4)?\)\[3\],(9|10)\)', False)]
    for n in cls + ['unspecified']:
        c.results('is-local-' + n, n + ' addresses are local', 'addrmgr::is_local', ['addr'], 'true', v4 + [fl(n, True)])
    c.results('is-local-not', 'other addresses are not local', 'addrmgr::is_local', ['addr'], 'false', v4 + [fl(n, False) for n in cls + ['unspecified']])
    for n in cls + ['broadcast', 'documentation']:
        c.results('unroutable-' + n, n + ' addresses are not routable', 'addrmgr::is_routable', ['addr'], 'false', v4 + special + [fl(n, True)])
    zero = lambda v: (r'eq\((Ipv4Addr::octets\(addr(\.V4)?\)\[0\]),0\)|eq\(0,(Ipv4Addr::octets\(addr(\.V4)?\)\[0\])\)', v)
    c.results('unroutable-zero', 'addresses of the zero network are not routable', 'addrmgr::is_routable', ['addr'], 'false', v4 + special + [zero(True)])
    c.results('routable-rest', 'other addresses are routable', 'addrmgr::is_routable', ['addr'], 'true', v4 + special + [zero(False)] + [fl(n, False) for n in cls + ['broadcast', 'documentation']])
    # the book itself never overwrites
    maps = [k for k in c.p.F if re.fullmatch(r'<std::collections::hash::map::HashMap as .*p2p::peer::Store>::insert(#\d+)?', k)]
    for impl, slot in [(m, r'self') for m in sorted(maps)] + [('<.*peer::Cache as .*Store>::insert', r'self\.addrs')]:
        slot_ = r"get\(" + slot + r",ip\)"
        c.never('keep', 'a known address is overwritten', impl, ['self', 'ip', 'ka'], anyof(call(r'(HashMap|VacantEntry|OccupiedEntry)::insert(_entry)?'), write(slot_ + '.*')), [(r'is\(' + slot_ + r',Some\)', True)])
        c.always('new', 'a new address is recorded', impl, ['self', 'ip', 'ka'], call(r'(HashMap|VacantEntry)::insert', '.*', 'ip', 'ka'), [(r'is\(' + slot_ + r',Some\)', False)])
        c.results('new-result', 'the caller learns that the address is new', impl, ['self', 'ip', 'ka'], 'true', [(r'is\(' + slot_ + r',Some\)', False)])
        c.results('keep-result', 'the caller learns that the address was known', impl, ['self', 'ip', 'ka'], 'false', [(r'is\(' + slot_ + r',Some\)', True)])


RNG = r"get\((self'*\.address_ranges'*|phi\(.*?\)),addrmgr::addr_key\(ip\)\)\.Some'*"


def A02(c):
    """Address ranges hold exactly the known addresses, at most 256 each; one per range is shared."""
    kw = dict(opaque=OP)
    P, PP = AM + 'populate_address_ranges', ['self', 'ip']
    f = [(r'eq\(len\(' + RNG + r'\),256\)', True), (r'lt\(len\(' + RNG + r'\),256\)', False), (r'is\(get\(self\.address_ranges,.*\),Some\)', True)]
    room = [(r'eq\(len\(' + RNG + r'\),256\)', False), (r'lt\(len\(' + RNG + r'\),256\)', True)]
    K_ = r'key\(' + RNG + r'\)|.*Rng::.*'
    ins = call('HashSet::insert', RNG, 'ip')
    rm = call('HashSet::(remove|take)', RNG, K_)
    c.always('ranged', 'an address is added to its range', P, PP, ins, **kw)
    c.always('bounded', 'a full range makes room', P, PP, [rm, call('Store::remove', r"self'*\.peers'*", K_)], f, **kw)
    c.before('bounded-first', 'a full range makes room before it grows', P, PP, rm, ins, f, **kw)
    c.never('spare', 'an address is dropped from a range that has room', P, PP, anyof(rm, call('Store::remove')), room, **kw)
    c.custom('same', 'the address evicted from the range is the one dropped from the book', lambda: same(c, P, PP, kw))
    c.foreach('loaded', 'every loaded address is put in a range', AM + 'new', ['cfg', 'rng', 'peers', 'clock'], r'key\(peers\)|\(key\(peers\),.*\)',
              [call('HashSet::insert', r'.*(addrmgr::addr_key\(key\(peers\)\)|,phi\([^()]*\))\)\.Some\'*|phi\([^()]*\)', r'key\(peers\)')], stop=None, src=r'(?!.*addr_key).*', **kw)
    c.after('inserted', 'an address new to the book is put in its range', IN, INP, lambda e: stored(e), anyof(
        call('HashSet::insert', r'.*addrmgr::addr_key\(' + IP + r'\)\)\.Some\'*', IP)), [(KN, False)], **kw)
    c.never('known', 'an address already in the book is put in a range again', IN, INP, call('HashSet::insert', r'.*addr_key.*', IP), [(KN, True)], **kw)
    # key: the /16 of an IPv4 address, the /32 of an IPv6 address
    k4 = [(r'is\(ip,V4\)', True), (r'is\(ip,V6\)', False)]
    for rid, fam, a in (('key4', 'IPv4', k4), ('key6', 'IPv6', neg(k4))):
        c.custom(rid, '%s addresses are grouped by their leading network bits' % fam, lambda a=a, fam=fam: keyed(c, a, fam))
    # sharing
    m = [(r'is\(event,MessageReceived\)', True), (r'is\(event\.MessageReceived\.message.*,GetAddr\)', True)]
    ra = r"get\(self\.address_ranges,key\(self\.address_ranges\)\)\.Some"
    c.always('share', 'a request for addresses is answered', EV, EVP, sends(r'event\.MessageReceived\.from', r'Addr\{.*'), m, **kw)
    c.foreach('share-each', 'one address of each range is shared', EV, EVP, r'(key\(self\.address_ranges\)|' + ra + r'|\(key\(self\.address_ranges\),' + ra + r'\))',
              [anyof(call('Vec::push', r".*", r"\(.*,get\(self\.peers,key\(" + ra + r"\)\)\.Some\.addr\)"), item(r'.*', r"\(.*,get\(self\.peers,key\(" + ra + r"\)\)\.Some\.addr\)"))], m, **kw)
    c.each('share-time', 'a shared address carries the time it was last active', EV, EVP, anyof(call('Vec::push', '.*', r'\(.*\.addr\)'), item(None, r'\(.*\.addr\)')),
           lambda e, fa, mm: re.match(r"\((0|Default::default\(\)|(get\(self\.peers,key\(" + ra + r"\)\)\.Some)\.last_active\.Some.*|.*div\((get\(self\.peers,key\(" + ra + r"\)\)\.Some)\.last_active\.Some\.millis,1000\).*),get\(self\.peers", str(e.args[1])) is not None, m, least=0, **kw)


def same(c, P, PP, kw):
    r = c.run(P, PP, (), [('R', call('HashSet::(remove|take)', RNG)), ('P', call('Store::remove'))], **kw)
    a = set(str(e.args[1]) for e, _, _ in r.hits.get('R', []))
    b = set(str(e.args[1]) for e, _, _ in r.hits.get('P', []))
    return len(a) + len(b), [] if a == b else [(c.fn(P), 'range drops %s, book drops %s' % (sorted(a), sorted(b)))]


def keyed(c, a, fam):
    r = c.run('addrmgr::addr_key', ['ip'], a)
    bad = []
    for rv, mon, facts, store in r.exits:
        s = str(rv)
        src = set(re.findall(r'(?:octets|segments)\(ip\.V[46]\)\[(\d+)\]', s))
        if src != {'0', '1'}:
            bad.append((c.fn('addrmgr::addr_key'), 'the key of an %s address is made of components %s' % (fam, sorted(src) or s)))
    return len(r.exits), bad


def A03(c):
    """Bans: peers dropped for lasting reasons leave the book for good; others stay."""
    kw = dict(opaque=OP)
    a = r'event\.PeerDisconnected\.addr'
    ip = r'SocketAddr::ip\(' + a + r'\)'
    why = r'event\.PeerDisconnected\.reason'
    d = [(r'is\(event,PeerDisconnected\)', True)]
    on = [(r'is\(get\(self\.connected,' + ip + r'\),Some\)', True)]
    sm = [(r'is\(' + why + r',StateMachine\)', True), (r'is\(' + why + r',(DialError|ConnectionError)\)', False)]
    tr = lambda n, v: (r'is\(' + why + r'\.StateMachine,' + n + r'\)', v)
    TR = ['ConnectionLimit', 'PeerTimeout', 'PeerHeight']
    banned = call('HashSet::insert', S + r'\.bans', ip)
    gone = call('Store::remove', S + r'\.peers', ip)
    rng = r"get\(self'*\.address_ranges'*,addrmgr::addr_key\(" + ip + r"\)\)\.Some'*"
    c.always('ban', 'a peer dropped for a lasting reason is banned and forgotten', EV, EVP, [banned, gone], d + on + sm + [tr(n, False) for n in TR], **kw)
    c.always('ban-range', 'a banned peer leaves its range', EV, EVP, call('HashSet::remove', rng, ip), d + on + sm + [tr(n, False) for n in TR] + [(r'is\(get\(self\.address_ranges,.*\),Some\)', True)], **kw)
    c.always('ban-empty', 'an empty range is dropped', EV, EVP, call('HashMap::remove', S + r'\.address_ranges', r'addrmgr::addr_key\(' + ip + r'\)'),
             d + on + sm + [tr(n, False) for n in TR] + [(r'is\(get\(self\.address_ranges,.*\),Some\)', True), (r'eq\(len\(' + rng + r'\),0\)', True)], **kw)
    c.never('keep-range', 'a range still in use is dropped', EV, EVP, call('HashMap::remove', S + r'\.address_ranges'), d + [(r'eq\(len\(' + rng + r'\),0\)', False)], **kw)
    for n in TR:
        c.never('transient-' + n, 'a peer dropped for a passing reason (%s) is banned or forgotten' % n, EV, EVP, anyof(call('HashSet::insert', S + r'\.bans'), call('Store::remove')), d + sm + [tr(n, True)], **kw)
    c.never('closed', 'a peer that closed its connection is banned or forgotten', EV, EVP, anyof(call('HashSet::insert', S + r'\.bans'), call('Store::remove')), d + [(r'is\(' + why + r',StateMachine\)', False), (r'is\(' + why + r',DialError\)', False)], **kw)
    c.never('other-events', 'an event other than a disconnection bans', EV, EVP, call('HashSet::insert', S + r'\.bans'), neg(d), **kw)
    c.custom('unbanned', 'bans are never lifted', lambda: unbanned(c))
    c.always('disconnected', 'a disconnected peer is no longer connected nor asked for addresses', EV, EVP, [call('HashSet::remove', S + r'\.connected', ip), call('HashSet::remove', S + r'\.sources', a)], d + on, **kw)
    # connection bookkeeping
    pc = [(r'is\(event,PeerConnected\)', True)]
    ic = r'SocketAddr::ip\(event\.PeerConnected\.addr\)'
    c.always('connected', 'a connected peer is marked connected', EV, EVP, call('HashSet::insert', S + r'\.connected', ic), pc + [(r'addrmgr::is_routable\(.*\)', True), (r'addrmgr::is_local\(.*\)', False)], **kw)
    n = [(r'is\(event,PeerNegotiated\)', True)]
    an = r'event\.PeerNegotiated\.addr'
    iN = r'SocketAddr::ip\(' + an + r'\)'
    ka = r"get\(self'*\.peers'*," + iN + r"\)\.Some"
    onN = [(r'is\(get\(self\.connected,' + iN + r'\),Some\)', True)]
    c.always('source', 'an outbound peer becomes a source of addresses', EV, EVP, call('HashSet::insert', S + r'\.sources', an), n + onN + [(r'is\(event\.PeerNegotiated\.link,Outbound\)', True), (r'is\(event\.PeerNegotiated\.link,Inbound\)', False)], **kw)
    c.never('source-inbound', 'an inbound peer becomes a source of addresses', EV, EVP, call('HashSet::insert', S + r'\.sources'), [(r'is\(event\.PeerNegotiated\.link,Outbound\)', False), (r'is\(event\.PeerNegotiated\.link,Inbound\)', True)], **kw)
    kn = [(r'is\(get\(self\.peers,' + iN + r'\),Some\)', True)]
    t = r'Option::Some\{0=' + NOW + r'\}'
    c.always('success', 'a completed handshake is recorded', EV, EVP, [write(ka + r'\.last_success', t), write(ka + r'\.last_active', t), write(ka + r'\.addr\.services', r'event\.PeerNegotiated\.services')], n + onN + kn, **kw)
    c.always('first-ask', 'a peer connected for the first time is asked for addresses', EV, EVP, sends(an, 'GetAddr'), n + onN + kn + [(r'is\(' + ka + r'\.last_success,Some\)', False)], **kw)
    c.never('ask-once', 'a peer is asked again on every connection', EV, EVP, sends('.*', 'GetAddr'), n + [(r'is\(' + ka + r'\.last_success,Some\)', True)], **kw)
    ck = r"get\(self'*\.peers'*,SocketAddr::ip\(event\.PeerConnecting\.addr\)\)\.Some"
    c.always('attempt', 'a connection attempt is recorded', EV, EVP, write(ck + r'\.last_attempt', t), [(r'is\(event,PeerConnecting\)', True), (r'is\(get\(self\.peers,.*\),Some\)', True)], **kw)
    cm = r"get\(self'*\.peers'*,SocketAddr::ip\(event\.MessageReceived\.from\)\)\.Some"
    c.always('active', 'a message marks its sender active', EV, EVP, write(cm + r'\.last_active', t), [(r'is\(event,MessageReceived\)', True), (r'is\(get\(self\.peers,SocketAddr::ip\(event\.MessageReceived\.from\)\),Some\)', True)],
             opaque=OP + ['::insert$', 'received_getaddr$'])
    c.custom('history', 'nothing else makes an address look used', lambda: history(c))


def unbanned(c):
    bad, n = [], 0
    for path in sorted(c.p.F):
        if '::addrmgr::AddressManager' not in path or '{closure' in path or '::tests::' in path or c.p.F[path]['k'] != 'fn':
            continue
        f = c.p.F[path]
        r = c.run(path, ['self', 'x1', 'x2', 'x3'][:f['n']], (), [('B', call('(HashSet)::(remove|clear|retain|drain|take)', r".*\.bans'*"))], opaque=OP)
        n += 1
        for e, _, _ in r.hits.get('B', []):
            bad.append((e.where(), 'a ban is lifted: %r' % e))
    return n, bad


def history(c):
    bad, n = [], 0
    ok = {'last_success': ['peer_negotiated', 'received_event'], 'last_attempt': ['peer_attempted', 'received_event'], 'last_sampled': ['sample', 'sample_with', 'iter']}
    for path in sorted(c.p.F):
        if '::addrmgr::AddressManager' not in path or '{closure' in path or c.p.F[path]['k'] != 'fn':
            continue
        f = c.p.F[path]
        r = c.run(path, ['self', 'x1', 'x2', 'x3'][:f['n']], (), [('W', write(r'.*\.(last_success|last_attempt|last_sampled)'))], opaque=OP)
        for e, facts, _ in r.hits.get('W', []):
            n += 1
            fld = str(e.args[0]).rsplit('.', 1)[1]
            if fld == 'last_success' and not any(v and re.fullmatch(r'is\(\w+,PeerNegotiated\)', str(k)) for k, v in facts.items()) and 'received_event' in path:
                bad.append((e.where(), 'a handshake is recorded that did not happen'))
            if fld == 'last_attempt' and not any(v and re.fullmatch(r'is\(\w+,PeerConnecting\)', str(k)) for k, v in facts.items()) and 'received_event' in path:
                bad.append((e.where(), 'an attempt is recorded that did not happen'))
    return n, bad


def A04(c):
    """Sampling: which addresses may be handed out, that some is if possible, and what happens when none is left."""
    SW, SP = AM + 'sample_with', ['self', 'pred']
    ra = r"get\(self'*\.address_ranges'*,key\(self'*\.address_ranges'*\)\)\.Some"
    ip = r"key\((self'*\.peers'*|" + ra + r")\)"
    ka = r"get\(self'*\.peers'*," + ip + r"\)\.Some"
    some = ret(r'Option::Some\{.*')
    sock = r'Address::socket_addr\(' + ka + r'\.addr\)'
    A = [
        ('domain', 'an address of an unsupported kind', [(r'contains\(' + S + r'\.cfg\.domains,Domain::\w+\)', False)]),
        ('onion', 'an address that is no socket address', [(r'is\(' + sock + r',Ok\)', False)]),
        ('failed', 'an address we never managed to connect to', [(r'is\(' + ka + r'\.last_attempt,Some\)', True), (r'is\(' + ka + r'\.last_success,Some\)', False)]),
        ('recent', 'an address sampled recently', [(r'lt\(sub\(self\.last_idle\.Some,(' + ka + r'\.last_sampled\.Some|Default::default\(\))\),LocalDuration\{0=180000\}\)', True)]),
        ('in-use', 'an address in use', [(r'is\(get\(self\.connected,' + ip + r'\),Some\)', True)]),
        ('filter', 'an address refused by the caller', [(r'apply\(pred,' + ka + r'\)', False)]),
    ]
    for rid, what, a in A:
        c.never(rid, what + ' is handed out', SW, SP, some, a)
    c.results('what', 'what is handed out is a known address with its source', SW, SP, r'Option::None|Option::Some\{0=\(' + ka + r'\.addr,' + ka + r'\.source\)\}')
    c.always('mark', 'an address handed out is marked as sampled', SW, SP, write(ka + r'\.last_sampled', r'Option::Some\{0=(self\.last_idle\.Some|' + NOW + r')\}'), exits=r'Option::Some.*')
    # none only if there is none: with nothing against an address it is returned
    ok = [x for _, _, a in A for x in neg(a[:1])] + [(r'eq\(len\(' + ra + r'\),0\)', False)]
    c.custom('found', 'None is returned only after every address was refused', lambda: found(c, SW, SP, ip, ok))
    c.never('all-ranges', 'ranges or addresses are left out of the sampling', SW, SP, call('.*Vec::(truncate|pop|remove|swap_remove|split_off|dedup|retain|clear|resize)'))
    # the services asked for
    c.never('services', 'an address without the services asked for is handed out', 'addrmgr::AddressManager::sample', ['self', 'services'], some, [(r'ServiceFlags::has\(' + ka + r'\.addr\.services,services\)', False)])
    c.possible('services-ok', 'an address with the services asked for is handed out', 'addrmgr::AddressManager::sample', ['self', 'services'], some, [(r'ServiceFlags::has\(' + ka + r'\.addr\.services,services\)', True)])
    # exhaustion
    X, XP = AM + 'is_exhausted', ['self']
    c.custom('exhausted', 'the book is exhausted exactly when no address could be used', lambda: exhausted(c, X, XP, A))
    T_, TP = AM + 'timer_expired', ['self']
    due = [(r'lt\(sub\(' + NOW + r',(self\.last_request\.Some|Default::default\(\))\),LocalDuration\{0=60000\}\)', False)]
    ex = [(r'AddressManager::is_exhausted\(.*\)', True)]
    kw = dict(opaque=['is_exhausted$'])
    c.always('ask', 'an exhausted book is announced, noted, and looked at again', T_, TP, [emits('AddressBookExhausted'), write(r'self\.last_request', r'Option::Some\{0=' + NOW + r'\}'), wakes(r'LocalDuration\{0=60000\}')], due + ex, **kw)
    c.foreach('ask-all', 'every source is asked for addresses', T_, TP, r'key\(self\.sources\)', [sends(r'key\(self\.sources\)', 'GetAddr')], due + ex, **kw)
    c.never('ask-often', 'peers are asked for addresses more than once a minute', T_, TP, sends('.*', 'GetAddr'), neg(due), **kw)
    c.never('ask-needless', 'peers are asked for addresses though some are left', T_, TP, sends('.*', 'GetAddr'), neg(ex), **kw)
    idle = [(r'lt\(sub\(' + NOW + r',(self\.last_idle\.Some|Default::default\(\))\),LocalDuration\{0=60000\}\)', False)]
    c.always('flush', 'the book is saved every minute', T_, TP, [call('Store::flush', r"self'*\.peers'*"), write(r"self'*\.last_idle", r'Option::Some\{0=' + NOW + r'\}'), wakes(r'LocalDuration\{0=60000\}')], idle, **kw)
    c.always('flush-init', 'the book is usable from the start', AM + 'initialize', ['self'], [write(r"self'*\.last_idle", r'Option::Some\{0=' + NOW + r'\}'), wakes(r'LocalDuration\{0=60000\}')])
    c.always('flush-error', 'a failure to save the book is reported', AM + 'initialize', ['self'], emits(r'Error\{.*Store::flush.*'), [(r'is\(Store::flush\(.*\),Ok\)', False)])


def found(c, SW, SP, ip, ok):
    """Under the assumption that nothing speaks against any address, no path returns None after having looked at one."""
    it = lambda e: e.kind == 'iter' and re.fullmatch(ip + r"|\(" + ip + r",.*\)", str(e.args[1])) is not None
    def step(mon, nm, e, st):
        return mon | {'look'} if nm == 'look' else mon - {'look'}
    r = c.run(SW, SP, ok, [('look', it), ('aside', lambda e: e.kind == 'iter_item')], step=step)
    n = len(r.hits.get('look', []))
    bad = []
    for rv, mon, facts, store in r.exits:
        if 'look' in mon and str(rv).startswith('Option::None'):
            bad.append((c.fn(SW), 'an eligible address is passed over where %s' % trunc(showfacts(facts), 300)))
            break
    # and the search covers all ranges and all their addresses: it gives up only once they are exhausted
    def step(mon, nm, e, st):
        src = 'in:' + str(e.args[0])
        if nm == 'aside':
            return frozenset(m for m in mon if not m.startswith('in:'))
        if nm == 'next':
            # going on with an outer loop, or another pass over it, while an inner one is not exhausted
            inner = [m for m in mon if m.startswith('in:') and m != src and any(len(m) > len(o) for o in mon if o.startswith('in:') and o == src)]
            return mon | {src} | ({'left'} if inner else set())
        if src in mon:
            return mon - {src}
        return mon
    r = c.run(SW, SP, (), [('next', lambda e: e.kind == 'iter'), ('aside', lambda e: e.kind == 'iter_item'), ('done', lambda e: e.kind == 'iter_end')], step=step)
    for rv, mon, facts, store in r.exits:
        if str(rv).startswith('Option::None') and ('left' in mon or any(m.startswith('in:') for m in mon)):
            bad.append((c.fn(SW), 'the search is given up early where %s' % trunc(showfacts(facts), 300)))
            break
    r = c.run(SW, SP, (), [('I', lambda e: e.kind == 'iter')])
    for e, f, m in r.hits.get('I', []):
        if re.search(r'(^|[(,])(take|skip|step_by|take_while|skip_while)\(', str(e.args[0])):
            bad.append((e.where(), 'only part of the addresses are considered: %s' % trunc(str(e.args[0]))))
            break
    return n, bad


def exhausted(c, X, XP, A):
    kp = r"key\(self'*\.peers'*\)"
    it = lambda e: e.kind == 'iter' and re.fullmatch(r'\(?' + kp + r'(,.*)?', str(e.args[1])) is not None
    k = lambda s: s
    ka = r"get\(self'*\.peers'*," + kp + r"\)\.Some"
    att, suc = r'is\(' + ka + r'\.last_attempt,Some\)', r'is\(' + ka + r'\.last_success,Some\)'
    rec = r'lt\(sub\(self\.last_idle\.Some,(' + ka + r'\.last_sampled\.Some|Default::default\(\))\),LocalDuration\{0=180000\}\)'
    con = r'is\(get\(self\.connected,' + kp + r'\),Some\)'
    bad, n = [], 0
    for what, a in (('tried never', [(att, False), (rec, False), (con, False)]), ('tried successfully', [(suc, True), (rec, False), (con, False)])):
        r = c.run(X, XP, a, [('look', it)])
        n += len(r.hits.get('look', []))
        for rv, mon, facts, store in r.exits:
            if 'look' in mon and str(rv) != 'false':
                bad.append((c.fn(X), 'exhausted although an address %s is usable' % what))
                break
    for what, a in (('failed', [(att, True), (suc, False)]), ('sampled recently', [(rec, True)]), ('connected', [(con, True)])):
        r = c.run(X, XP, a, [('look', it)])
        n += len(r.hits.get('look', []))
        for rv, mon, facts, store in r.exits:
            if str(rv) != 'true':
                bad.append((c.fn(X), 'not exhausted although every address is %s' % what))
                break
    return n, bad
