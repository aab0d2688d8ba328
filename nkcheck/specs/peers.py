"""Peer connections and handshake (p2p/src/fsm/peermgr.rs) and pings (pingmgr.rs)."""
import re
from ck import *
PM = 'peermgr::PeerManager::'
SELF = r"self'*"
PS = r"self'*\.peers'*"
SLOT = r"get\(" + PS + r",addr\)"
CONN = SLOT + r"\.Some\.Connected\.conn"
INFO = SLOT + r"\.Some\.Connected\.peer\.Some"
ADDR = r"(addr|" + CONN + r"\.addr)"
NOW = r"Clock::local_time\(self'*\.clock'*\)"
KP = r"key\(" + PS + r"\)"
KSLOT = r"get\(" + PS + r"," + KP + r"\)\.Some"
connected = [(r'is\(' + SLOT + r',Some\)', True), (r'is\(' + SLOT + r'\.Some,Connected\)', True), (r'is\(' + SLOT + r'\.Some,Connecting\)', False), (r'is\(' + SLOT + r'\.Some,Disconnecting\)', False)]
versioned = [(r'is\(' + CONN.replace('conn', 'peer') + r',Some\)', True)]
st_v = [(r'is\(' + INFO + r'\.state,ReceivedVersion\)', True), (r'is\(' + INFO + r'\.state,ReceivedVerack\)', False)]
outb = [(r'is\(' + CONN + r'\.link,Outbound\)', True), (r'is\(' + CONN + r'\.link,Inbound\)', False)]
RV, RVP = PM + 'received_version', ['self', 'addr', 'msg', 'height']
EV, EVP = PM + 'received_event', ['self', 'event', 'tree']
MSG = r'event\.MessageReceived\.message.*'
is_msg = [(r'is\(event,MessageReceived\)', True)]


def neg(facts):
    return [(a, not v) for a, v in facts]


def dbg_off():
    """Debug assertions state intentions, not behaviour: assume they pass."""
    return []


negotiated = emits('PeerNegotiated.*')
accept = call('HashMap::insert', PS, ADDR, r'Peer::Connected\{.*peer=Option::Some\{.*')


def P01(c):
    """Handshake state: negotiated only through version then verack, once, with what the version said."""
    A, AP = PM + 'received_verack', ['self', 'addr']
    c.never('verack-stranger', 'a peer that is not connected is negotiated', A, AP, negotiated, neg(connected[:2]))
    c.never('verack-unconnected', 'a peer that is not connected is negotiated', A, AP, negotiated, connected[:1] + neg(connected[1:2]))
    c.never('verack-first', 'a peer is negotiated before it sent its version', A, AP, negotiated, connected + neg(versioned))
    c.never('verack-again', 'a negotiated peer is negotiated again', A, AP, negotiated, connected + versioned + neg(st_v))
    c.always('verack-misbehaves', 'an unexpected verack drops the peer', A, AP, disconnects(ADDR, 'PeerMisbehaving.*'), connected + versioned + neg(st_v))
    c.always('verack', 'verack after version completes the handshake', A, AP,
             [emits(r'PeerNegotiated\{addr=' + ADDR + r',link=' + CONN + r'\.link,services=' + INFO + r'\.services,persistent=' + INFO + r'\.persistent,height=' + INFO
                    + r'\.height,receiver=' + INFO + r'\.receiver,user_agent=' + INFO + r'\.user_agent,version=' + INFO + r'\.version,relay=' + INFO + r'\.relay,wtxid_relay=' + INFO + r'\.wtxidrelay\}'),
              call('AdjustedClock::record_offset', r"self'*\.clock'*", 'addr', INFO + r'\.time_offset'),
              write(INFO + r'\.state', r'HandshakeState::ReceivedVerack\{since=' + NOW + r'\}')], connected + versioned + st_v)
    off = call('AdjustedClock::record_offset')
    c.never('offset-once', 'a clock offset is recorded without completing a handshake', A, AP, off, neg(st_v))
    W, WP = PM + 'received_wtxidrelay', ['self', 'addr']
    c.always('wtxid', 'wtxidrelay between version and verack is noted', W, WP, write(INFO + r'\.wtxidrelay', 'true'), connected + versioned + st_v)
    c.never('wtxid-late-noted', 'wtxidrelay after verack is noted', W, WP, write(INFO + r'\.wtxidrelay'), neg(st_v))
    c.always('wtxid-late', 'wtxidrelay after verack drops the peer', W, WP, disconnects(ADDR, 'PeerMisbehaving.*'), connected + versioned + neg(st_v))
    c.never('wtxid-early', 'a peer is blamed for wtxidrelay in time', W, WP, disconnects(), st_v)
    # the version message
    c.never('version-stranger', 'the version of an unconnected peer is accepted', RV, RVP, anyof(accept, sends('.*', '.*')), neg(connected[:2]))
    c.never('version-unconnected', 'the version of an unconnected peer is accepted', RV, RVP, anyof(accept, sends('.*', '.*')), connected[:1] + neg(connected[1:2]))
    c.never('version-again', 'a second version message restarts the handshake', RV, RVP, anyof(accept, sends('.*', '.*')), connected + versioned)
    h = r"(TryFrom::try_from\(msg\.start_height\)\.Ok|0|phi\(.*?\))"
    c.each('version-kept', 'what the version message said is kept for the peer', RV, RVP, accept, lambda e, f, m: re.fullmatch(
        r'Peer::Connected\{conn=' + CONN + r',peer=Option::Some\{0=PeerInfo\{height=' + h + r',services=msg\.services,user_agent=msg\.user_agent,time_offset=i64::saturating_sub\(msg\.timestamp,.*?\),receiver=msg\.receiver,'
        r'relay=msg\.relay,wtxidrelay=false,version=(msg\.version|self\.config\.protocol_version|.*min.*),persistent=contains\(self\.config\.persistent,' + ADDR + r'\),state=HandshakeState::ReceivedVersion\{since=' + NOW + r'\}.*\}\}\}', str(e.args[2])) is not None)
    old = [(r'lt\(msg\.version,self\.config\.protocol_version\)', True)]
    ver = lambda v: call('HashMap::insert', PS, ADDR, r'.*,version=(' + v + r'|min\(.*\)),persistent.*')
    c.each('version-min', 'the lower of both protocol versions is used', RV, RVP, accept, lambda e, f, m: ver(r'msg\.version')(e), old)
    c.each('version-min2', 'the lower of both protocol versions is used', RV, RVP, accept, lambda e, f, m: ver(r'self\.config\.protocol_version')(e), neg(old) + [(r'lt\(self\.config\.protocol_version,msg\.version\)', True)])
    # nothing else completes a handshake
    for nm, f, p in (('connected', PM + 'peer_connected', ['self', 'addr', 'local', 'link', 'height']), ('version', RV, RVP), ('wtxid', W, WP)):
        c.never('only-' + nm, 'a peer is negotiated without verack', f, p, anyof(negotiated, off, write(r'.*\.state', r'HandshakeState::ReceivedVerack.*')))
    c.never('only-event', 'a peer is negotiated without verack', EV, EVP, anyof(negotiated, off), [(r'is\(' + MSG + r',Verack\)', False)])
    new = call('HashMap::insert', PS, 'addr', r'Peer::Connected\{.*\}')
    c.each('fresh', 'a new connection starts without handshake', PM + 'peer_connected', ['self', 'addr', 'local', 'link', 'height'], new,
           lambda e, f, m: re.fullmatch(r'Peer::Connected\{conn=Connection\{addr=addr,local_addr=local,link=link,since=' + NOW + r'.*\},peer=Option::None\}', str(e.args[2])) is not None)
    c.always('event-version', 'version messages are handled with our height', EV, EVP, call('PeerManager::received_version', 'self', r'event\.MessageReceived\.from', r'.*Version', r'BlockReader::height\(tree\)'),
             is_msg + [(r'is\(' + MSG + r',Version\)', True)], opaque=['received_version$'])
    c.always('event-verack', 'verack messages are handled', EV, EVP, call('PeerManager::received_verack', 'self', r'event\.MessageReceived\.from'), is_msg + [(r'is\(' + MSG + r',Verack\)', True)], opaque=['received_verack$'])
    c.always('event-wtxid', 'wtxidrelay messages are handled', EV, EVP, call('PeerManager::received_wtxidrelay', 'self', r'event\.MessageReceived\.from'), is_msg + [(r'is\(' + MSG + r',WtxidRelay\)', True)], opaque=['received_wtxidrelay$'])


def P02(c):
    """Which peers are refused at the version message, and which must not be."""
    first = connected + neg(versioned)
    old = [(r'lt\(msg\.version,70012\)', True)]
    svc = [(r'ServiceFlags::has\(msg\.services,self\.config\.required_services\)', False)]
    pref = [(r'ServiceFlags::has\(msg\.services,self\.config\.preferred_services\)', False)]
    H = r'(TryFrom::try_from\(msg\.start_height\)\.Ok|phi\(.*?\))'
    low = [(r'lt\((sub\(height,' + H + r'\)|height),2017\)', False), (r'lt\(height,(0|' + H + r')\)', False)]
    tr = [(r'is\(get\(self\.config\.whitelist\.addr,SocketAddr::ip\(addr\)\),Some\)', True), (r'is\(get\(self\.config\.whitelist\.user_agent,msg\.user_agent\),Some\)', True),
          (r'Ipv4Addr::is_\w+\(SocketAddr::ip\(addr\)\.V4\)', True), (r'addrmgr::is_local\(.*\)', True)]
    hook = [(r'is\(apply\(self\.hooks\.on_version,addr,msg\),Ok\)', False)]
    me = [(r'eq\(Option::Some\{0=msg\.nonce\},' + KSLOT + r'\.Connected\.conn\.nonce\)', True)]
    full = [(r'lt\(count\(.*\),self\.config\.target_outbound_peers\)', False), (r'lt\(ctr\(.*\),self\.config\.target_outbound_peers\)', False)]
    bad = anyof(accept, sends('.*', '.*'))
    op = ['addrmgr::is_local$']
    kw = dict(opaque=op)
    c.never('old', 'a peer with an old protocol is accepted', RV, RVP, bad, old, **kw)
    c.never('services', 'an outbound peer without the required services is accepted', RV, RVP, bad, outb + svc + neg(tr), **kw)
    c.never('stale', 'an outbound peer far behind us is accepted', RV, RVP, bad, outb + low + neg(tr), **kw)
    c.never('hook', 'a peer refused by the user is accepted', RV, RVP, bad, hook, **kw)
    c.never('limit', 'an outbound peer without the preferred services is accepted beyond the target', RV, RVP, bad, outb + pref + full, **kw)
    c.each('hook-asked', 'the user is asked about every peer accepted', RV, RVP, accept, lambda e, f, m: 'h' in m, also=[('h', call('apply', r'self\.hooks\.on_version', ADDR, 'msg'))], **kw)

    # connections to ourselves: our own nonce comes back on an inbound link
    inb = [(r'is\(' + CONN + r'\.link,Inbound\)', True), (r'is\(' + CONN + r'\.link,Outbound\)', False)]
    scan = lambda e: e.kind in ('iter', 'iter_end') and re.search(r'self\.peers', str(e.args[0])) is not None
    c.before('self-scan', 'inbound peers are compared with our own connections', RV, RVP, scan, accept, inb, **kw)
    c.never_after('self', 'a connection to ourselves is accepted', RV, RVP, lambda e: e.kind == 'iter', accept, inb + me + [(r'is\(' + KSLOT + r',Connected\)', True)], **kw)
    c.never('self-false', 'a peer is taken for ourselves although its nonce is not ours', RV, RVP, disconnects('.*', 'SelfConnection.*'), neg(me), **kw)

    def nonce():
        PC, PP = PM + 'peer_connected', ['self', 'addr', 'local', 'link', 'height']
        r = c.run(PC, PP, [(r'is\(link,Outbound\)', True)], [('i', call('HashMap::insert', PS, 'addr', r'Peer::Connected.*')), ('v', sends('addr', r'Version\{.*'))])
        kept = set(m.group(1) for e, _, _ in r.hits.get('i', []) for m in [re.search(r'nonce=Option::Some\{0=(.*?\))\}', str(e.args[2]))] if m)
        sent = [re.search(r'nonce=([^,]*\([^()]*\))', str(e.args[1])) for e, _, _ in r.hits.get('v', [])]
        bads = [] if kept else [(c.fn(PC), 'the nonce sent is not remembered')]
        bads += [(c.fn(PC), 'the nonce sent is not the one remembered (%s)' % (m.group(1) if m else '?')) for m in sent if not m or m.group(1) not in kept]
        return len(sent), bads
    c.custom('self-nonce', 'the nonce we send to outbound peers is remembered', nonce)
    for nm, fs, why in (('old', old, r'PeerProtocolVersion\{0=msg\.version\}'), ('services', neg(old) + outb + svc + neg(tr), r'PeerServices\{0=msg\.services\}')):
        c.always('reason-' + nm, 'a refused peer is disconnected for that reason', RV, RVP, disconnects('addr', why), first + fs, **kw)
    fine = first + neg(old) + neg(hook) + neg(me)
    c.always('fine', 'a suitable outbound peer is accepted', RV, RVP, accept, fine + outb + neg(svc) + [(low[0][0], True)] + neg(pref), **kw)
    c.always('fine-in', 'inbound peers need no services, height or free slot', RV, RVP, accept, fine + inb, **kw)
    c.always('fine-trusted', 'trusted peers need no services or height', RV, RVP, accept, fine + outb + tr[:1] + neg(pref), **kw)
    c.always('fine-room', 'below the target, peers without the preferred services are accepted', RV, RVP, accept, fine + outb + neg(svc) + [(low[0][0], True)] + neg(full), **kw)
    cnt = lambda e: e.kind == 'iter_fold' and e.name == 'count'
    c.each('limit-count', 'the limit counts negotiated outbound peers', RV, RVP, cnt, lambda e, f, m:
           any(re.fullmatch(r'is\(' + KSLOT + r'\.Connected\.peer\.Some\.state,ReceivedVerack\)', str(k)) and v for k, v in f.items())
           and any(re.fullmatch(r'is\(' + KSLOT + r'\.Connected\.conn\.link,Outbound\)', str(k)) and v for k, v in f.items()) and only(f, r'state|link|peer'), outb, **kw)
    c.const('min-version', 'oldest protocol version accepted', 'fsm::MIN_PROTOCOL_VERSION', '70012')


def P03(c):
    """Handshake messages: who speaks first, in which order, with what."""
    PC, PP = PM + 'peer_connected', ['self', 'addr', 'local', 'link', 'height']
    out = [(r'is\(link,Outbound\)', True), (r'is\(link,Inbound\)', False)]
    vm = lambda to, loc, h: r'Version\{0=VersionMessage\{version=self\.config\.protocol_version,services=self\.config\.services,timestamp=.*' + NOW + r'.*,receiver=Address::new\(' + to + r',ServiceFlags\{0=0\}\),' \
        r'sender=Address::new\(' + loc + r',self\.config\.services\),nonce=.*,user_agent=self\.config\.user_agent,start_height=' + h + r',relay=false\}\}'
    c.always('dial', 'we speak first on connections we made', PC, PP, sends('addr', vm('addr', 'local', 'height')), out)
    c.never('wait', 'we speak first on connections made to us', PC, PP, sends('.*', '.*'), neg(out))
    c.always('dial-timer', 'every new connection is given a deadline', PC, PP, wakes(r'LocalDuration\{0=12000\}'))
    c.always('event', 'every new connection is announced', PC, PP, emits(r'PeerConnected\{addr=addr,local_addr=local,link=link\}'))
    kw = dict(opaque=['addrmgr::is_local$'])
    inb = neg(outb)
    v, w, k, s = sends(ADDR, vm(ADDR, CONN + r'\.local_addr', 'height')), sends(ADDR, 'WtxidRelay'), sends(ADDR, 'Verack'), sends(ADDR, 'SendHeaders')
    done = connected + neg(versioned)
    c.along('reply', 'an accepted version is acknowledged', RV, RVP, accept, k, **kw)
    c.along('reply-timer', 'the rest of the handshake is given a deadline', RV, RVP, accept, wakes(r'LocalDuration\{0=12000\}'), **kw)
    c.along('reply-headers', 'headers announcements are asked for', RV, RVP, accept, s, **kw)
    c.along('reply-kept', 'whoever is acknowledged is registered', RV, RVP, k, accept, **kw)
    c.along('reply-version', 'inbound peers get our version', RV, RVP, accept, v, inb, **kw)
    c.never('reply-twice', 'outbound peers get our version twice', RV, RVP, sends('.*', r'Version\{.*'), outb, **kw)
    c.before('order-version', 'our version precedes everything else we send', RV, RVP, v, anyof(w, k, s), inb, **kw)
    c.before('order-wtxid', 'wtxidrelay is offered before verack', RV, RVP, w, k, **kw)
    c.before('order-headers', 'sendheaders follows verack', RV, RVP, k, s, **kw)
    c.each('to', 'handshake messages go to the peer they answer', RV, RVP, sends('.*', '.*'), lambda e, f, m: sends(ADDR, '.*')(e), **kw)


def about(e, f):
    """What is known about the element at hand (and not about one of another iteration)."""
    z = {s for s in e.args[1].sites if s.k[-1] == 'it'}
    return {k: v for k, v in f.items() if not z or z & set(k.sites)}


def cond(e, f, *want):
    f = about(e, f)
    return all(any(re.fullmatch(a, str(k)) and bool(v) == b for k, v in f.items()) for a, b in want)


def only(f, what):
    """What is known about the element at hand concerns nothing but these fields."""
    return not any(re.search(KSLOT + r'\.\w+\.', str(k)) and not re.search(r'\.(' + what + r'),|\.(' + what + r')\)|^is\(' + KSLOT + r',', str(k)) for k in f)


def P04(c):
    """Connection limits: inbound cap, outbound target, no duplicate dials, supported domains only."""
    PC, PP = PM + 'peer_connected', ['self', 'addr', 'local', 'link', 'height']
    out = [(r'is\(link,Outbound\)', True), (r'is\(link,Inbound\)', False)]
    # the new connection is counted when the peers are counted after it was recorded (peers'), and is not before
    MAXI = r'self\.config\.max_inbound_peers'
    def cnt(v):
        return r'(?:count|ctr)\([^\']*self\.peers' + v + r'(?!\').*\)'
    full = [(r'lt\(' + MAXI + ',' + cnt("'") + r'\)', True), (r'lt\(' + cnt("'") + r',add\((?:1,)?' + MAXI + r'(?:,1)?\)\)', False), (r'lt\(' + cnt('') + ',' + MAXI + r'\)', False), (r'lt\(' + MAXI + r',\d+\)', True)]
    c.always('inbound-full', 'inbound connections beyond the limit are closed', PC, PP, disconnects('addr', 'ConnectionLimit'), neg(out) + full)
    c.never('inbound-room', 'an inbound connection below the limit is closed', PC, PP, disconnects(), neg(out) + neg(full))
    c.never('outbound-closed', 'a connection we made is closed at once', PC, PP, disconnects(), out)
    c.each('inbound-count', 'the limit counts connected inbound peers', PC, PP, lambda e: e.kind == 'iter_fold' and e.name == 'count',
           lambda e, f, m: cond(e, f, (r'is\(' + KSLOT + r'\.Connected\.conn\.link,Inbound\)', True), (r'is\(' + KSLOT + r',Connected\)', True)) and only(about(e, f), 'link'), neg(out), least=0)
    C, CP = PM + 'connect', ['self', 'addr']
    dom = [(r'contains\(self\.config\.domains,.*\)', False)]
    ing = [(r'is\(' + SLOT + r'\.Some,Connecting\)', True)]
    ed = [(r'is\(' + SLOT + r'\.Some,Connected\)', True)]
    some_ = [(r'is\(' + SLOT + r',Some\)', True)]
    c.never('domain', 'an address of an unsupported network is dialled', C, CP, dials(), dom)
    c.never('dup-connected', 'a connected peer is dialled', C, CP, dials(), some_ + ed)
    c.never('dup-connecting', 'a peer is dialled twice', C, CP, dials(), some_ + ing)
    c.always('dial', 'a new peer is dialled, tracked and given a deadline', C, CP, [dials('addr'), call('HashMap::insert', PS, 'addr', r'Peer::Connecting\{time=' + NOW + r'\}'), wakes(r'LocalDuration\{0=6000\}')], neg(some_) + neg(dom))
    c.results('dial-result', 'dialling is reported', C, CP, 'true', neg(some_) + neg(dom))
    c.results('dup-result', 'a peer already connected counts as dialled', C, CP, 'true', some_ + ed + neg(ing))
    c.results('dup-result2', 'a peer already being dialled counts as dialled', C, CP, 'true', some_ + ing + neg(ed))
    c.results('domain-result', 'not dialling is reported', C, CP, 'false', neg(some_) + dom)
    M, MP = PM + 'maintain_connections', ['self', 'addrs']
    pers = [(r'eq\(len\(self\.config\.persistent\),0\)', False)]
    c.never('persistent-only', 'other peers are dialled although persistent peers are configured', M, MP, dials(), pers, opaque=['delta$'])
    more = [(r'lt\(.*,PeerManager::delta\(self.*\)\)', False)]
    c.never('enough', 'more peers are dialled than needed', M, MP, dials(), more, opaque=['delta$'])
    c.possible('dial-more', 'missing peers are dialled', M, MP, dials(r'Address::socket_addr\(AddressSource::sample\(.*\).*\).*'), neg(more) + neg(pers), opaque=['delta$'])
    below = [(r'lt\(count\(.*\),self\.config\.target_outbound_peers\)', True), (r'lt\(ctr\(.*\),self\.config\.target_outbound_peers\)', True)]
    c.never('only-preferred', 'at the target, peers without the preferred services are looked for', M, MP, call('AddressSource::sample', '.*', r"(?!self'*\.config\.preferred_services).*"), neg(below), opaque=['delta$'])
    c.before('preferred-first', 'peers with the preferred services are tried first', M, MP, call('AddressSource::sample', '.*', r"self'*\.config\.preferred_services"),
             call('AddressSource::sample', '.*', r"(?!self'*\.config\.preferred_services).*"), opaque=['delta$'])
    c.along('dial-event', 'dialling is announced', M, MP, dials(), emits('PeerConnecting.*'), opaque=['delta$'])

    def delta():
        r = c.run(PM + 'delta', ['self'], [], [('n', lambda e: e.kind == 'iter_fold' and e.name == 'count')])
        kinds = {}
        for e, f, _ in r.hits.get('n', []):
            t = 'count(%s)' % str(e.args[0]) if not str(e.args[0]).startswith('count') else str(e.args[0])
            is_ = lambda a: cond(e, f, (r'is\(' + KSLOT + a, True))
            if is_(r',Connecting\)'):
                k = 'connecting'
            elif is_(r'\.Connected\.peer\.Some\.state,ReceivedVerack\)') and is_(r'\.Connected\.conn\.link,Outbound\)'):
                k = 'primary' if any(re.fullmatch(r'ServiceFlags::has\(' + KSLOT + r'\.Connected\.peer\.Some\.services,self\.config\.preferred_services\)', str(a)) and v for a, v in about(e, f).items()) else 'negotiated'
            elif is_(r',Connected\)'):
                k = 'connected'
            else:
                k = '?'
            kinds.setdefault(t, set()).add(k)

        def norm(t):
            out = {}
            for a, k in lin(t).items():
                n = kinds.get(a)
                b = a if n is None else '/'.join(sorted(n))
                b = {'self.config.target_outbound_peers': 'target', 'div(self.config.target_outbound_peers,2)': 'half'}.get(b, b)
                out[b] = out.get(b, 0) + k
            return {a: k for a, k in out.items() if k}
        tot = {'connected': 1, 'connecting': 1}
        pri = {'connected': 1, 'connecting': 1, 'negotiated': -1, 'primary': 1}
        sub_ = lambda a, b: {k: a.get(k, 0) - b.get(k, 0) for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)}
        room1 = sub_({'target': 1, 'half': 1}, tot)
        room2 = sub_({'target': 1}, pri)
        bads = []
        for rv, mon, facts, store in r.exits:
            n = norm(rv)
            if n == {}:
                continue
            if any(a.op == 'lt' and v and str(a.a[1]) == '1' and norm(a.a[0]) == n for a, v in facts.items()):
                # nothing is left
                continue
            if re.search(r'phi\(|ctr\(', str(list(n)) + ' '.join(str(a) for a in facts)):
                # counted in a loop: which peers were counted is not known
                continue
            ok = {}
            for a, v in facts.items():
                if a.op == 'lt':
                    d = sub_(norm(a.a[1]), norm(a.a[0]))
                    ok[tuple(sorted(d.items()))] = v
            le = lambda x: ok.get(tuple(sorted(sub_({}, x).items()))) is False or ok.get(tuple(sorted(x.items()))) is True
            if n not in (room1, room2):
                bads.append((c.fn(PM + 'delta'), 'may return %s' % n))
            elif not le(room1) or not le(room2):
                bads.append((c.fn(PM + 'delta'), 'the number of missing peers is computed without checking that there is room'))
            else:
                o = room2 if n == room1 else room1
                less = lambda x, y: ok.get(tuple(sorted(sub_(y, x).items())))
                if less(n, o) is not True and less(o, n) is not False:
                    bads.append((c.fn(PM + 'delta'), 'not the smaller of both limits'))
        return len(r.exits), bads
    c.custom('target', 'we dial up to the target of preferred peers, and never beyond one and a half times the target', delta)


def P05(c):
    """Peers that do not connect or complete the handshake in time are dropped."""
    T_, TP = PM + 'timer_expired', ['self', 'addrs']
    kw = dict(opaque=['maintain_connections$', 'maintain_persistent$'])
    ks = KSLOT
    K_ = r'(' + KP + r'|' + ks + r'\.Connected\.conn\.addr)'
    con = [(r'is\(' + ks + r',Connecting\)', True), (r'is\(' + ks + r',Connected\)', False), (r'is\(' + ks + r',Disconnecting\)', False)]
    cd = [(r'is\(' + ks + r',Connected\)', True), (r'is\(' + ks + r',Connecting\)', False), (r'is\(' + ks + r',Disconnecting\)', False)]
    inf = [(r'is\(' + ks + r'\.Connected\.peer,Some\)', True)]
    rv = [(r'is\(' + ks + r'\.Connected\.peer\.Some\.state,ReceivedVersion\)', True), (r'is\(' + ks + r'\.Connected\.peer\.Some\.state,ReceivedVerack\)', False)]
    old = lambda t, ms: [(r'lt\(sub\(' + NOW + r',' + ks + t + r'\),LocalDuration\{0=%d\}\)' % ms, False)]
    t1, t2, t3 = old(r'\.Connecting\.time', 6000), old(r'\.Connected\.peer\.Some\.state\.ReceivedVersion\.since', 12000), old(r'\.Connected\.conn\.since', 12000)
    d = disconnects(K_, r'PeerTimeout.*')
    off = call('HashMap::insert', PS, K_, r'Peer::Disconnecting')
    el = r'\(?' + KP + r'(,.*)?|' + ks + r'(\.Connected.*)?'
    for nm, fs in (('connecting', con + t1), ('verack', cd + inf + rv + t2), ('version', cd + neg(inf) + t3)):
        c.possible(nm, 'a peer that took too long is dropped', T_, TP, d, fs, **kw)
        c.never(nm + '-early', 'a peer is dropped before its time is up', T_, TP, disconnects(), fs[:-1] + neg(fs[-1:]), **kw)
    c.never('negotiated', 'a negotiated peer is dropped', T_, TP, disconnects(), cd + inf + neg(rv), **kw)
    c.along('state', 'a dropped peer is marked as such', T_, TP, d, off, **kw)
    # every expired peer is queued by one of the scans, and every queued peer dropped
    def keep_(e):
        return d(e) or (e.kind == 'call' and re.search(r'::(push|push_back|insert)$', e.name) is not None and local(e) and re.search(K_, str(e.args[1])) is not None) \
            or (e.kind == 'iter_item' and re.search(K_, str(e.args[1])) is not None)

    def local(e):
        return re.search(r'Vec|collect|::new', str(e.args[0])) is not None

    def all_():
        bads = []
        n = 0
        for nm, fs in (('connection', con + t1), ('verack', cd + inf + rv + t2), ('version', cd + neg(inf) + t3)):
            seen, missed = {}, {}

            def settle(mon):
                for m in mon:
                    missed[m] = 1
                return frozenset()

            def step(mon, k, e, st):
                if k == 'it':
                    mon = settle(mon)
                    z = ('L' if local(e) else 'S', e.ctx.id, e.line)
                    seen[z] = e
                    return mon | {z}
                if k == 'end':
                    return settle(mon)
                return frozenset()
            r = c.run(T_, TP, fs, [('it', lambda e: e.kind == 'iter' and re.search(K_, str(e.args[1])) is not None), ('end', lambda e: e.kind == 'iter_end'), ('put', keep_)], step=step,
                      reset=lambda: (seen.clear(), missed.clear()), **kw)
            for _, m, _, _ in r.exits:
                settle(m)
            n += len(seen)
            if not [z for z in seen if z[0] == 'S' and z not in missed]:
                bads.append((c.fn(T_), 'a peer whose %s took too long is passed over' % nm))
            for z in seen:
                if z[0] == 'L' and z in missed:
                    bads.append((seen[z].where(), 'a peer whose %s took too long is set aside and then forgotten' % nm))
        return n, bads
    c.custom('expired', 'every expired peer is dropped', all_)
    c.foreach('drop-all', 'every expired peer is dropped', T_, TP, r'\(' + K_ + r',".*"\)|phi.*', [disconnects('.*', 'PeerTimeout.*')], **kw)
    due = [(r'lt\(sub\(' + NOW + r",self'*\.last_idle\.Some\),LocalDuration\{0=60000\}\)", False), (r'lt\(sub\(' + NOW + r",.*\),LocalDuration\{0=60000\}\)", False)]
    c.always('idle', 'every minute, missing connections are made up for', T_, TP, [call('PeerManager::maintain_connections', SELF + r'|prev.*', r"addrs'*"), wakes(r'LocalDuration\{0=60000\}'), write(r"self'*\.last_idle", r'Option::Some\{0=' + NOW + r'\}')], due, **kw)
    c.always('persistent', 'disconnected persistent peers are looked at', T_, TP, call('PeerManager::maintain_persistent'), **kw)
    c.const('connection-timeout', 'time allowed for a connection', 'peermgr::CONNECTION_TIMEOUT', r'LocalDuration\{0=6000\}')
    c.const('handshake-timeout', 'time allowed for each handshake step', 'peermgr::HANDSHAKE_TIMEOUT', r'LocalDuration\{0=12000\}')


def P06(c):
    """Persistent peers: connected at start, retried with exponential backoff for ever."""
    I, IP = PM + 'initialize', ['self', 'addrs']
    kw = dict(opaque=['maintain_connections$', 'PeerManager::connect$'])
    c.foreach('start', 'every persistent peer is dialled at start', I, IP, r'elem\(self\.config\.persistent\)', [call('PeerManager::connect', SELF, r'elem\(self\.config\.persistent\)')], **kw)
    c.always('start-others', 'other peers are dialled at start', I, IP, [call('PeerManager::maintain_connections'), wakes(r'LocalDuration\{0=60000\}')], **kw)
    D, DP = PM + 'peer_disconnected', ['self', 'addr', 'addrs', 'reason']
    per = [(r'contains\(self\.config\.persistent,addr\)', True)]
    ko = dict(opaque=['maintain_connections$'])
    slot = r"get\(self\.disconnected'*,addr\)\.Some"
    n = r"(" + slot + r"\.1|0|Default::default\(\)\.1)"
    pw = r"LocalDuration\{0=mul\(1000,u64::saturating_pow\(2," + n + r"\)\)\}"
    dl = r"(" + pw + r"|self\.config\.retry_(min|max)_wait|phi\(.*?\)|LocalDuration\{0=phi\([^()]*\)\}|.*clamp.*)"
    DISC = r"self\.disconnected'*"
    puts = call('HashMap::insert', DISC, '.*', r'(?!Default::default\(\)$|\(Option::None,0\)$).*')
    put = call('HashMap::insert', DISC, 'addr', r'\(Option::Some\{0=add2\(' + NOW + r',' + dl + r'\)\},.*\)')
    c.always('retry', 'a disconnected persistent peer is scheduled for a retry', D, DP,
             [anyof(write(slot + r'\.0', r'Option::Some\{0=add2\(' + NOW + r',' + dl + r'\)\}'), put), wakes(dl), anyof(write(slot + r'\.1', r'add\(' + slot + r'\.1,1\)'), put)], per, **ko)
    c.each('retry-count', 'every failed attempt is counted', D, DP, anyof(write(slot + r'\.1'), puts),
           lambda e, f, m: e.kind == 'write' or re.fullmatch(r'\(.*,add\(' + slot + r'\.1,1\)\)', str(e.args[2])) is not None
           or (str(e.args[2]).endswith(',1)') and any(v is False and re.fullmatch(r"is\(get\(self\.disconnected'*,addr\),Some\)", str(k)) for k, v in f.items())), per, **ko)
    sane = [(r'lt\(self\.config\.retry_max_wait,self\.config\.retry_min_wait\)', False), (r'lt\(self\.config\.retry_min_wait,self\.config\.retry_max_wait\)', True)]
    lo, hi = [(r'lt\(' + pw + r',self\.config\.retry_min_wait\)', True), (r'lt\(self\.config\.retry_min_wait,' + pw + r'\)', False)], [(r'lt\(self\.config\.retry_max_wait,' + pw + r'\)', True), (r'lt\(' + pw + r',self\.config\.retry_max_wait\)', False)]
    for nm, fs, v in (('min', sane + lo + neg(hi), r'self\.config\.retry_min_wait'), ('max', sane + neg(lo) + hi, r'self\.config\.retry_max_wait'), ('exp', sane + neg(lo) + neg(hi), pw)):
        c.each('delay-' + nm, 'the delay doubles with each attempt, within the configured bounds', D, DP, anyof(write(slot + r'\.0'), puts),
               lambda e, f, m, v=v: re.fullmatch(r'\(?Option::Some\{0=add2\(' + NOW + r',(' + v + r'|phi\(.*\)|.*clamp.*)\)\}(,.*\))?', str(e.args[1 if e.kind == 'write' else 2])) is not None, per + fs, **ko)
        c.each('timer-' + nm, 'the timer matches the delay', D, DP, wakes(), lambda e, f, m, v=v: wakes('(' + v + r'|phi\(.*\)|.*clamp.*)')(e), per + fs, **ko)
    c.never('retry-others', 'peers that are not persistent are retried', D, DP, anyof(write(slot + '.*'), call('HashMap::insert', r"self\.disconnected'*")), neg(per), **ko)
    c.always('replace', 'other peers are replaced', D, DP, call('PeerManager::maintain_connections'), neg(per), **ko)
    M, MP = PM + 'maintain_persistent', ['self']
    kc = dict(opaque=['PeerManager::connect$'])
    kd = r"key\(self\.disconnected\)"
    dslot = r"get\(self\.disconnected," + kd + r"\)\.Some"
    due = [(r'lt\(' + NOW + r',' + dslot + r'\.0\.Some\)', False), (r'is\(' + dslot + r'\.0,Some\)', True)]
    c.foreach('due', 'every peer whose retry is due is dialled', M, MP, r'\(' + kd + r',.*\)', [call('PeerManager::connect', '.*', kd)], due, **kc)
    c.never('early', 'a peer is dialled before its retry is due', M, MP, call('PeerManager::connect'), neg(due[:1]), **kc)
    c.never('unscheduled', 'a peer without a scheduled retry is dialled', M, MP, call('PeerManager::connect'), neg(due[1:]), **kc)
    c.along('once', 'a retry is not repeated until it failed', M, MP, call('PeerManager::connect'), write(dslot + r'\.0', 'Option::None'), **kc)
    c.never('keep-count', 'the number of attempts is forgotten before a connection is made', M, MP, anyof(write(dslot + r'\.1'), call('HashMap::(remove|clear)', r"self\.disconnected.*"), keep(r'self\.disconnected.*', None, 'drop')), **kc)
    PC, PP = PM + 'peer_connected', ['self', 'addr', 'local', 'link', 'height']
    c.always('reset', 'a connection resets the retries', PC, PP, call('HashMap::remove', r"self\.disconnected", 'addr'))


def P07(c):
    """Disconnections: misbehaving and silent peers are closed once; closed peers are forgotten and announced."""
    T_ = [(r'is\(event,PeerTimedOut\)', True)]
    X_ = [(r'is\(event,PeerMisbehaved\)', True)]
    a = r'event\.PeerTimedOut\.addr'
    b = r'event\.PeerMisbehaved\.addr'
    sl = lambda x: r'get\(self\.peers,' + x + r'\)'
    on = lambda x: [(r'is\(' + sl(x) + r',Some\)', True), (r'is\(' + sl(x) + r'\.Some,Connected\)', True)]
    c.always('timed-out', 'a peer reported silent is closed', EV, EVP, [disconnects(a, r'PeerTimeout.*'), call('HashMap::insert', PS, a, 'Peer::Disconnecting')], T_ + on(a))
    c.always('misbehaved', 'a peer reported misbehaving is closed for that reason', EV, EVP, [disconnects(b, r'PeerMisbehaving\{0=event\.PeerMisbehaved\.reason\}'), call('HashMap::insert', PS, b, 'Peer::Disconnecting')], X_ + on(b))
    D0, D0P = PM + 'disconnect', ['self', 'addr', 'reason']
    c.never('not-connected', 'a peer that is not connected is closed', D0, D0P, disconnects(), neg(connected[1:2]))
    c.never('unknown', 'an unknown peer is closed', D0, D0P, disconnects(), neg(connected[:1]))
    c.always('asked', 'a connected peer is closed on request', D0, D0P, [disconnects('addr', '.*') if False else out(r'Io::Disconnect\{0=addr,1=reason\}'), call('HashMap::insert', PS, 'addr', 'Peer::Disconnecting')], connected)
    D, DP = PM + 'peer_disconnected', ['self', 'addr', 'addrs', 'reason']
    ko = dict(opaque=['maintain_connections$'])
    ing = [(r'is\(' + SLOT + r'\.Some,Connecting\)', True), (r'is\(' + SLOT + r'\.Some,Connected\)', False), (r'is\(' + SLOT + r'\.Some,Disconnecting\)', False)]
    known = [(r'is\(' + SLOT + r',Some\)', True)]
    ev = emits(r'PeerDisconnected\{addr=addr,reason=reason\}')
    c.always('forget', 'a closed peer is forgotten', D, DP, call('HashMap::remove', PS, 'addr'), **ko)
    c.always('event', 'the end of a connection is announced', D, DP, ev, known + connected, **ko)
    c.always('event2', 'the end of a connection is announced', D, DP, ev, known + neg(ing[:1]) + neg(connected[1:2]) + [(r'is\(' + SLOT + r'\.Some,Disconnecting\)', True)], **ko)
    c.never('event-dial', 'a failed dial is announced as the end of a connection', D, DP, emits('PeerDisconnected.*'), known + ing, **ko)
    c.always('event-failed', 'a failed dial is announced', D, DP, emits(r'PeerConnectionFailed\{addr=addr,error=reason\.ConnectionError.*\}'), known + ing + [(r'is\(reason,ConnectionError\)', True)], **ko)
    # every closing decision is recorded in the peer's state
    for nm, f, p in (('version', RV, RVP), ('verack', PM + 'received_verack', ['self', 'addr']), ('wtxid', PM + 'received_wtxidrelay', ['self', 'addr']), ('connected', PM + 'peer_connected', ['self', 'addr', 'local', 'link', 'height'])):
        c.along('state-' + nm, 'a peer being closed takes no further part', f, p, disconnects(), call('HashMap::insert', PS, ADDR, 'Peer::Disconnecting'))
        c.never_after('last-' + nm, 'a message is sent to a peer being closed', f, p, disconnects(), sends('.*', '.*'))


def P08(c):
    """Pings: answered for known peers; ours are timed; only the matching pong counts; latencies are bounded."""
    G = 'pingmgr::PingManager::'
    E_ = G + 'received_event'
    fr = r'event\.MessageReceived\.from'
    sl = r"get\(self\.peers," + fr + r"\)"
    isp = is_msg + [(r'is\(' + MSG + r',Ping\)', True)]
    iso = is_msg + [(r'is\(' + MSG + r',Pong\)', True)]
    kn = [(r'is\(' + sl + r',Some\)', True)]
    aw = [(r'is\(' + sl + r'\.Some\.state,AwaitingPong\)', True), (r'is\(' + sl + r'\.Some\.state,Idle\)', False)]
    eq = [(r'eq\(' + MSG + r'Pong,' + sl + r'\.Some\.state\.AwaitingPong\.nonce\)', True)]
    pong = sends(fr, r'Pong\{0=' + MSG + r'Ping\}')
    c.always('answer', 'a ping of a negotiated peer is answered with its nonce', E_, EVP, pong, isp + kn)
    c.never('answer-stranger', 'a ping of an unknown peer is answered', E_, EVP, sends('.*', 'Pong.*'), neg(kn))
    c.never('answer-other', 'a pong is sent without a ping', E_, EVP, sends('.*', 'Pong.*'), [(r'is\(' + MSG + r',Ping\)', False)])
    idle = write(sl + r'\.Some\.state', r'State::Idle\{since=' + NOW + r'\}')
    c.always('pong', 'the expected pong proves the peer alive', E_, EVP, [idle, call('VecDeque::push_(front|back)', sl + r'\.Some\.latencies.*', r'sub\(' + NOW + r',' + sl + r'\.Some\.state\.AwaitingPong\.since\)'),
                                                                     call('VecDeque::truncate', sl + r".*latencies'*", '64')], iso + kn + aw + eq)
    c.never('pong-wrong', 'a pong with another nonce proves the peer alive', E_, EVP, anyof(write(sl + '.*state.*'), call('VecDeque::push_.*')), iso + neg(eq))
    c.never('pong-unasked', 'an unsolicited pong counts', E_, EVP, anyof(write(sl + '.*state.*'), call('VecDeque::push_.*', '.*latencies.*')), iso + neg(aw))
    chg = anyof(write(r"get\(self'*\.peers'*,.*\)\.Some.*"), call('HashMap::(insert|remove|clear|retain)', r"self'*\.peers'*"))
    c.never('other', 'a message other than a pong changes what a peer owes us', E_, EVP, chg, is_msg + neg(iso))
    c.never('other-event', 'an event other than a message, a new peer or a lost one changes what a peer owes us', E_, EVP, chg,
            [(r'is\(event,(MessageReceived|PeerNegotiated|PeerDisconnected)\)', False)])
    n = [(r'is\(event,PeerNegotiated\)', True)]
    a = r'event\.PeerNegotiated\.addr'
    c.always('first', 'a negotiated peer is pinged at once', E_, EVP, [sends(a, r'Ping\{0=Rng::u64\(self\.rng.*\)\}'),
             call('HashMap::insert', r'self\.peers', a, r'Peer\{address=' + a + r',state=State::AwaitingPong\{nonce=Rng::u64\(self\.rng.*?\),since=' + NOW + r'\},latencies=.*\}')], n)
    c.always('gone', 'a disconnected peer is forgotten', E_, EVP, call('HashMap::remove', r'self\.peers', r'event\.PeerDisconnected\.addr'), [(r'is\(event,PeerDisconnected\)', True)])
    T_, TP = G + 'timer_expired', ['self']
    ks = r"get\(self'*\.peers'*,key\(self'*\.peers'*\)\)\.Some"
    adr = r"(key\(self'*\.peers'*\)|" + ks + r"\.address)"
    el = r"(\(key.*,)?" + ks + r"\)?"
    ka = [(r'is\(' + ks + r'\.state,AwaitingPong\)', True), (r'is\(' + ks + r'\.state,Idle\)', False)]
    late = [(r'lt\(sub\(' + NOW + r',' + ks + r"\.state\.AwaitingPong\.since\),self'*\.ping_timeout\)", False)]
    due = [(r'lt\(sub\(' + NOW + r',' + ks + r'\.state\.Idle\.since\),LocalDuration\{0=120000\}\)', False)]
    c.foreach('dead', 'a peer that owes a pong for too long is dropped', T_, TP, el, [disconnects(adr, r'PeerTimeout.*')], ka + late)
    c.never('dead-early', 'a peer is dropped before the ping timeout', T_, TP, disconnects(), neg(late))
    c.never('dead-idle', 'a peer that owes no pong is dropped', T_, TP, disconnects(), neg(ka))
    ping = sends(adr, r"Ping\{0=Rng::u64\(self'*\.rng.*\)\}")
    c.foreach('ping', 'a peer idle for two minutes is pinged, with timers', T_, TP, el, [ping, wakes(r"self'*\.ping_timeout"), wakes(r'LocalDuration\{0=120000\}'),
              write(ks + r'\.state', r"State::AwaitingPong\{nonce=Rng::u64\(self'*\.rng.*\),since=" + NOW + r'\}')], neg(ka) + due)
    c.never('ping-early', 'a peer is pinged too early', T_, TP, sends('.*', '.*'), neg(due))
    c.never('ping-twice', 'a peer that owes a pong is pinged again', T_, TP, sends('.*', '.*'), ka)
