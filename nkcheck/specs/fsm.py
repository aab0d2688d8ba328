"""The protocol state machine as a whole (p2p/src/fsm.rs, p2p/src/fsm/output.rs)."""
import re
from ck import *
SM = '<nakamoto_p2p::fsm::StateMachine as nakamoto_net::StateMachine<core::net::socket_addr::SocketAddr>>::'
NEXT = '<nakamoto_p2p::fsm::StateMachine as core::iter::traits::iterator::Iterator>::next'
CMD = 'fsm::StateMachine::command'
RX = r'[\w:]*::received_event'
MGRS = [('FilterManager', 'cbfmgr'), ('PingManager', 'pingmgr'), ('InventoryManager', 'invmgr'), ('SyncManager', 'syncmgr'), ('AddressManager', 'addrmgr'), ('PeerManager', 'peermgr')]
EVOP = [r'Manager::received_event$']
PS = r"(prev\()?self'*\.peermgr'*\)?\.peers'*"
SLOT = r"get\(" + PS + r",addr\)"
KSLOT = r"get\(" + PS + r",key\(" + PS + r"\)\)\.Some"


def neg(facts):
    return [(a, not v) for a, v in facts]


def upto(*names):
    """Calls that another property decides: kept as calls."""
    return [r'%s$' % n for n in names]


def received(mgr, ev):
    return call(mgr + '::received_event', r".*", ev)


NETS = {'Mainnet': 'Bitcoin', 'Testnet': 'Testnet', 'Regtest': 'Regtest', 'Signet': 'Signet'}
known = [(r'is\(' + SLOT + r',Some\)', True), (r'is\(' + SLOT + r'\.Some,Connected\)', True)]
magic = [(r'eq\(Network::magic\(.*\),msg\.magic\)|eq\(msg\.magic,Network::magic\(.*\)\)', True)]
hook = [(r'is\(apply\(self\.hooks\.on_message,addr,msg\.payload,self\.outbox\),Ok\)', True)]
delivered = lambda e: any(received(m, '.*')(e) for m, _ in MGRS)


def M01(c):
    """Which messages reach the protocol, and with what."""
    E, P = SM + 'message_received', ['self', 'addr', 'msg']
    kw = dict(opaque=EVOP)
    for net, b in NETS.items():
        other = [(r'is\(self\.network,%s\)' % x, x == net) for x in NETS] + [(r'eq\(Network::magic\(Network::%s\),msg\.magic\)|eq\(msg\.magic,Network::magic\(Network::%s\)\)' % (b, b), False)]
        c.never('magic-' + net, 'a message for another network is processed', E, P, delivered, other, **kw)
        c.never('magic-hook-' + net, 'the user sees a message for another network', E, P, call('apply', r'self\.hooks\.on_message.*'), other, **kw)
        c.always('magic-drop-' + net, 'a peer speaking for another network is dropped', E, P, disconnects('addr', r'PeerMagic\{0=msg\.magic\}'), other + known, **kw)
    c.never('magic-ok', 'a peer is dropped for a message of the right network', E, P, disconnects(), magic, **kw)
    for i in (0, 1):
        c.never('stranger%d' % i, 'a message from an unknown peer is processed', E, P, delivered, known[:i] + neg(known[i:i + 1]), **kw)
        c.never('stranger-hook%d' % i, 'the user sees a message from an unknown peer', E, P, call('apply', r'self\.hooks\.on_message.*'), known[:i] + neg(known[i:i + 1]), **kw)
    c.never('hook', 'a message the user refused is processed', E, P, delivered, neg(hook), **kw)
    c.before('hook-first', 'the user sees every message before it is processed', E, P, call('apply', r'self\.hooks\.on_message', 'addr', r'msg\.payload', r'self\.outbox'), delivered, **kw)
    for m, f in MGRS:
        c.always('to-' + f, 'a message for us from a connected peer reaches every part of the protocol, with its sender', E, P,
                 received(m, r'Event::MessageReceived\{from=addr,message=msg\.payload\}'), magic + known + hook, **kw)
    c.never('quiet', 'received messages are published', E, P, out('.*'), magic, **kw)
    tables(c)


def tables(c):
    """Each network speaks with its own magic."""
    want = NETS

    def go():
        bads, n = [], 0
        for v, b in want.items():
            fs = [(r'is\(self,%s\)' % v, True)] + [(r'is\(self,%s\)' % w, False) for w in want if w != v]
            r = c.run('network::Network::magic', ['self'], fs)
            for rv, mon, facts, store in r.exits:
                n += 1
                if str(rv) != 'Network::magic(Network::%s)' % b:
                    bads.append((c.fn('network::Network::magic'), '%s speaks with %s' % (v, rv)))
        return n, bads
    c.custom('magic-table', 'each network has its own magic', go)


def M02(c):
    """Everything the parts produce comes out once, in order; events reach all the parts."""
    kw = dict(opaque=EVOP)
    Q = [('', 'outbox')] + [(f + r"'*\.", f) for f in ('peermgr', 'syncmgr', 'invmgr', 'pingmgr', 'addrmgr', 'cbfmgr')]
    POP = lambda pre: r"pop_front\(self'*\." + pre + r"outbox'*\.outbound'*\)"
    one = r"(pop_front\(self[\w.']*\)|phi\([^()]*\))"
    pop = lambda pre: call('VecDeque::pop_front', r"self'*\." + pre + r"outbox'*\.outbound'*")
    for pre, nm in Q:
        got = [(r'is\(' + POP(pre) + r',Some\)', True)]
        rest = [(r'is\(' + POP(q) + r',Some\)', False) for q, n2 in Q if n2 != nm]
        c.results('out-' + nm, 'what the %s queue holds comes out as it is' % nm, NEXT, ['self'],
                  lambda t: out_ok(t, one), got + rest, **kw)
        c.never('lost-' + nm, 'an output is taken from a second queue and lost', NEXT, ['self'],
                anyof(*[pop(q) for q, n2 in Q if Q.index((q, n2)) > Q.index((pre, nm))]), got, **kw)
        ev = got + rest + [(r'is\(' + POP(pre) + r'\.Some,Event\)', True)]
        for m, f in MGRS:
            c.always('event-%s-%s' % (nm, f), 'every published event reaches every part of the protocol', NEXT, ['self'], received(m, r'.*\.Some\.Event'), ev, **kw)
        c.never('quiet-' + nm, 'something other than an event is handled as one', NEXT, ['self'], delivered, got + rest + [(r'is\(' + POP(pre) + r'\.Some,Event\)', False)], **kw)
        c.always('asked-' + nm, 'nothing is left behind when outputs run out', NEXT, ['self'], pop(pre), exits=r'Option::None', **kw)
    c.results('none', 'outputs run out only when all queues are empty', NEXT, ['self'], 'Option::None', [(r'is\(pop_front\(.*\),Some\)', False)], **kw)
    own = [(r'is\(self\.network,%s\)', 'Network::magic\\(Network::%s\\)', a, b) for a, b in (('Mainnet', 'Bitcoin'), ('Testnet', 'Testnet'), ('Regtest', 'Regtest'), ('Signet', 'Signet'))]
    for f, g, a, b in own:
        def go(f=f, g=g, a=a, b=b):
            fs = [(f % x, x == a) for _, _, x, _ in own] + [(r'is\(pop_front\(.*\),Some\)', True), (r'is\(pop_front\(.*\)\.Some,Write\)', True)]
            r = c.run(NEXT, ['self'], fs, **kw)
            bad = [str(rv) for rv, _, _, _ in r.exits if not re.search(r'magic=' + g % b, str(rv))]
            return len(r.exits), [(c.fn(NEXT), 'sends %s on %s' % (trunc(x), a)) for x in bad]
        c.custom('magic-' + a, 'messages are sent with the magic of our network', go)
    # the queues themselves: first in, first out
    OB = 'fsm::output::Outbox::'
    NX = '<nakamoto_p2p::fsm::output::Outbox as core::iter::traits::iterator::Iterator>::next'
    c.results('fifo-out', 'outputs come out oldest first', NX, ['self'], r'pop_front\(self\.outbound\)')
    c.always('fifo-in', 'outputs are queued last', OB + 'push', ['self', 'output'], call('VecDeque::push_back', r'self\.outbound', 'output'))

    def muts():
        """Queues are only appended to and popped from."""
        n, bads = 0, []
        for k, f in c.p.F.items():
            if f['crate'] != 'nakamoto_p2p' or f['k'] == 'promoted':
                continue
            for b in filter(None, f['b']):
                t = b[1]
                if t and t[0] == 'c' and t[1][0] == 'k' and 'fn' in t[1][1]:
                    nm, res, targs = t[1][1]['fn'][:3]
                    m = re.match(r'alloc::collections::vec_deque::VecDeque::(\w+)$', nm)
                    if m and any('nakamoto_net::Io<' in str(x) for x in targs):
                        n += 1
                        if m.group(1) not in ('push_back', 'pop_front', 'new', 'drain', 'iter', 'len', 'is_empty', 'with_capacity', 'extend', 'front', 'reserve'):
                            bads.append(('%s:%d (%s)' % (f['f'], t[6], k), 'VecDeque::%s on an output queue' % m.group(1)))
        return n, bads
    c.custom('queues', 'output queues are only appended to and popped from the front', muts)
    W, WP = OB + 'message', ['self', 'addr', 'payload']
    c.always('message', 'a message is queued for its peer', W, WP, call('VecDeque::push_back', r'self\.outbound', r'Io::Write\{0=addr,1=payload\}'))
    c.always('connect', 'a dial is queued', OB + 'connect', ['self', 'addr', 'timeout'], [call('VecDeque::push_back', r"self\.outbound'*", r'Io::Connect\{0=addr\}'), call('VecDeque::push_back', r"self\.outbound'*", r'Io::SetTimer\{0=timeout\}')])
    c.always('disconnect', 'a disconnection is queued', OB + 'disconnect', ['self', 'addr', 'reason'], call('VecDeque::push_back', r'self\.outbound', r'Io::Disconnect\{0=addr,1=reason\}'))
    c.always('timer', 'a timer is queued', OB + 'set_timer', ['self', 'duration'], call('VecDeque::push_back', r'self\.outbound', r'Io::SetTimer\{0=duration\}'))


def out_ok(t, one):
    s = str(t)
    if s == 'Option::None':
        return False
    q = one
    pats = [r'Io::Write\{0=' + q + r'\.Some\.Write,1=RawNetworkMessage\{magic=Network::magic\((.*?)\),payload=' + q + r'\.Some\.Write\.1\}\}',
            r'Io::Connect\{0=' + q + r'\.Some\.Connect\}', r'Io::Disconnect\{0=' + q + r'\.Some\.Disconnect,1=' + q + r'\.Some\.Disconnect\.1\}',
            r'Io::SetTimer\{0=' + q + r'\.Some\.SetTimer\}', r'Io::Event\{0=' + q + r'\.Some\.Event\}']
    return any(re.fullmatch(r'Option::Some\{0=' + x + r'\}', s) for x in pats) or re.fullmatch(q, s) is not None


def M03(c):
    """Inputs from the reactor reach the parts that need them."""
    I, IP = SM + 'initialize', ['self', 'time']
    iop = dict(opaque=upto('Manager::initialize'))
    clk = call('AdjustedClock::set', r'self\.clock', 'time')
    inits = [call(m + '::initialize') for m in ('AddressManager', 'SyncManager', 'PeerManager', 'FilterManager')]
    c.always('init', 'starting up sets the clock, starts every part and says so', I, IP, [clk] + inits + [emits('Initializing'),
             emits(r"Ready\{tip=BlockReader::height\(self'*\.tree'*\),filter_tip=Filters::height\(self'*\.cbfmgr'*\.filters'*\),time=time\}")], **iop)
    c.before('init-clock', 'no part starts before the clock is set', I, IP, clk, anyof(*inits), **iop)
    c.before('init-ready', 'readiness is announced after all parts started', I, IP, inits[-1], emits('Ready.*'), **iop)
    c.before('init-addrs', 'the address book is ready before peers are dialled', I, IP, inits[0], inits[2], **iop)
    T = SM + 'timer_expired'
    for m, f in MGRS:
        if 1:
            c.always('wake-' + f, 'a timer wakes every part', T, ['self'], call(m + '::timer_expired'), opaque=upto('Manager::timer_expired'))
    c.always('tick', 'the reactor drives the clock', SM + 'tick', ['self', 'time'], clk)
    c.always('attempted', 'dialling is forwarded', SM + 'attempted', ['self', 'addr'], call('PeerManager::peer_attempted', r'self\.peermgr', 'addr'), opaque=upto('peer_attempted'))
    c.always('connected', 'connections are forwarded with our height', SM + 'connected', ['self', 'addr', 'local', 'link'],
             call('PeerManager::peer_connected', r'self\.peermgr', 'addr', 'local', 'link', r'BlockReader::height\(self\.tree\)'), opaque=upto('peer_connected'))
    c.always('disconnected', 'disconnections are forwarded', SM + 'disconnected', ['self', 'addr', 'reason'],
             call('PeerManager::peer_disconnected', r'self\.peermgr', 'addr', r'self\.addrmgr', 'reason'), opaque=upto('peer_disconnected'))
    E, EP = 'fsm::StateMachine::event', ['self', 'e']
    for m, f in MGRS:
        c.always('event-' + f, 'events reach every part', E, EP, received(m, 'e'), opaque=EVOP)
    # configuration
    N, NP = 'fsm::StateMachine::new', ['tree', 'filters', 'peers', 'clock', 'rng', 'config']

    def wiring():
        r = c.run(N, NP, opaque=upto('AddressManager::new'))
        want = {'network': r'config\.network', 'tree': 'tree', 'hooks': r'config\.hooks', 'outbox.version': r'config\.protocol_version', 'clock': 'clock',
                'peermgr.config.protocol_version': r'config\.protocol_version',
                'peermgr.config.whitelist': r'config\.whitelist', 'peermgr.config.services': r'config\.services', 'peermgr.config.persistent': r'config\.connect',
                'peermgr.config.domains': r'config\.domains', 'peermgr.config.required_services': r'config\.required_services',
                'peermgr.config.preferred_services': r'(bor\(ServiceFlags\{0=1\},ServiceFlags\{0=64\}\)|ServiceFlags\{0=65\})',
                'peermgr.config.target_outbound_peers': r'config\.limits\.max_outbound_peers', 'peermgr.config.max_inbound_peers': r'config\.limits\.max_inbound_peers',
                'peermgr.config.user_agent': r'config\.user_agent', 'peermgr.hooks': r'config\.hooks', 'peermgr.clock': 'clock', 'syncmgr.clock': 'clock', 'cbfmgr.clock': 'clock', 'invmgr.clock': 'clock', 'pingmgr.clock': 'clock',
                'cbfmgr.filters': 'filters', 'cbfmgr.rescan.cache.capacity': r'config\.limits\.filter_cache_size', 'pingmgr.ping_timeout': r'config\.ping_timeout', 'syncmgr.config.params': r'config\.params',
                'syncmgr.config.max_message_headers': '2000'}
        n, bads = 0, []
        for rv, _, _, _ in r.exits:
            for k, v in want.items():
                n += 1
                got = str(sub(rv, *k.split('.')) if '.' in k else sub(rv, k))
                if not re.fullmatch(v, got):
                    bads.append((c.fn(N), '%s is %s' % (k, trunc(got, 80))))
            a = str(sub(rv, 'addrmgr'))
            if not re.fullmatch(r"AddressManager::new\(Config\{(?=.*required_services=config\.required_services)(?=.*domains=config\.domains).*\},.*,peers,clock\)", a):
                bads.append((c.fn(N), 'the address manager is made from %s' % trunc(a)))
        return n, bads
    c.custom('config', 'every configured value is handed to the part that honours it', wiring)


def M04(c):
    """User commands: the effect asked for and exactly one reply with the right value."""
    op = upto('SyncManager::import_blocks', 'AddressManager::insert', 'FilterManager::get_cfilters', 'InventoryManager::get_block', 'InventoryManager::announce', 'FilterManager::watch_transaction',
              'FilterManager::rescan', 'FilterManager::watch', 'PeerManager::connect', 'PeerManager::whitelist', 'InventoryManager::get_submitted_tx')
    kw = dict(opaque=op)
    VARS = ['QueryTree', 'GetBlockByHash', 'GetBlockByHeight', 'GetPeers', 'Connect', 'Disconnect', 'Broadcast', 'ImportHeaders', 'ImportAddresses', 'GetTip', 'RequestFilters', 'RequestBlock', 'SubmitTransaction', 'Rescan', 'Watch', 'GetSubmittedTransaction']
    T = r"self'*\.tree'*"
    peer = r'Peer\{addr=' + KSLOT + r'\.Connected\.conn\.addr,local_addr=' + KSLOT + r'\.Connected\.conn\.local_addr,link=' + KSLOT + r'\.Connected\.conn\.link,since=' + KSLOT + r'\.Connected\.conn\.since,height=' + KSLOT \
        + r'\.Connected\.peer\.Some\.height,services=' + KSLOT + r'\.Connected\.peer\.Some\.services,user_agent=' + KSLOT + r'\.Connected\.peer\.Some\.user_agent,relay=' + KSLOT + r'\.Connected\.peer\.Some\.relay\}'
    gb = r'BlockReader::get_block\(' + T + r',cmd\.GetBlockByHash\)'
    imp = r"SyncManager::import_blocks\(self'*\.syncmgr'*,cmd\.ImportHeaders,self'*\.tree'*\)"
    ann = r"InventoryManager::announce\(self'*\.invmgr'*,cmd\.SubmitTransaction\)"
    reply = {
        'GetBlockByHash': ('1', [([(r'is\(' + gb + r',Some\)', True)], r'Option::Some\{0=(\(' + gb + r'\.Some\.0,' + gb + r'\.Some\.1\)|' + gb + r'\.Some)\}|' + gb), ([(r'is\(' + gb + r',Some\)', False)], r'Option::None|' + gb)]),
        'GetBlockByHeight': ('1', [([], r'BlockReader::get_block_by_height\(' + T + r',cmd\.GetBlockByHeight\)(\.Some)?|Option::Some\{0=BlockReader::get_block_by_height\(' + T + r',cmd\.GetBlockByHeight\)\.Some\}|Option::None')]),
        'GetPeers': ('1', [([], r"(collect\(.*|(Vec::new\(\)|Vec::with_capacity\(.*\))'*)")]),
        'Broadcast': ('2', [([], r"(collect\(.*|(Vec::new\(\)|Vec::with_capacity\(.*\))'*)")]),
        'ImportHeaders': ('1', [([(r'is\(' + imp + r',Ok\)', True)], r'Result::Ok\{0=' + imp + r'\.Ok\}|' + imp), ([(r'is\(' + imp + r',Ok\)', False)], r'Result::Err\{0=' + imp + r'\.Err\}|' + imp)]),
        'GetTip': (None, [([], r'\(BlockReader::height\(' + T + r'\),BlockReader::tip\(' + T + r'\)\.1,BlockReader::chain_work\(' + T + r'\)\)')]),
        'RequestFilters': ('1', [([], r"FilterManager::get_cfilters\(self'*\.cbfmgr'*,cmd\.RequestFilters," + T + r'\)')]),
        'SubmitTransaction': ('1', [([(r'is\(NonEmpty::from_vec\(' + ann + r'\),Some\)', True)], r'Result::Ok\{0=NonEmpty::from_vec\(' + ann + r'\)\.Some\}|.*ok_or.*'),
                                    ([(r'is\(NonEmpty::from_vec\(' + ann + r'\),Some\)', False)], r'Result::Err\{0=CommandError::NotConnected\}')]),
        'GetSubmittedTransaction': ('1', [([], r"InventoryManager::get_submitted_tx\(self'*\.invmgr'*,cmd\.GetSubmittedTransaction\)")]),
    }
    send = call('Sender::(send|try_send)')
    for v in VARS:
        fs = [(r'is\(cmd,%s\)' % w, w == v) for w in VARS]
        if v in reply:
            ch, cases = reply[v]
            ch = r'cmd\.' + v + (r'\.' + ch if ch else '')
            for i, (f, val) in enumerate(cases):
                c.always('reply-%s%s' % (v, i or ''), '%s is answered with the right value' % v, CMD, ['self', 'cmd'], call('Sender::(send|try_send)', ch, val), fs + f, **kw)
                c.each('reply-only-%s%s' % (v, i or ''), '%s gets no other answer' % v, CMD, ['self', 'cmd'], send, lambda e, fa, m, ch=ch, val=val: call('Sender::(send|try_send)', ch, val)(e) and 'sent' not in m, fs + f, also=[('sent', send)], **kw)
        else:
            c.never('reply-' + v, '%s has no reply' % v, CMD, ['self', 'cmd'], send, fs, **kw)
    is_ = lambda v: [(r'is\(cmd,%s\)' % w, w == v) for w in VARS]
    A = (CMD, ['self', 'cmd'])
    c.always('query', 'queries run against the block tree', *A, call('apply', r'cmd\.QueryTree', T), is_('QueryTree'), **kw)
    wl = call('PeerManager::whitelist', r"self'*\.peermgr'*", r'cmd\.Connect')
    co = call('PeerManager::connect', r"self'*\.peermgr'*", r'cmd\.Connect')
    c.always('connect', 'connecting trusts and dials the peer', *A, [wl, co], is_('Connect'), **kw)
    dk = r"get\(self\.peermgr\.peers,cmd\.Disconnect\)"
    c.always('disconnect', 'disconnecting a connected peer closes it', *A, disconnects(r'cmd\.Disconnect', 'Command'), is_('Disconnect') + [(r'is\(' + dk + r',Some\)', True), (r'is\(' + dk + r'\.Some,Connected\)', True)], **kw)
    c.always('addresses', 'imported addresses enter the book', *A, call('AddressManager::insert', r'self\.addrmgr', r'(map\()?cmd\.ImportAddresses.*', r'Source::Imported'), is_('ImportAddresses'), **kw)
    c.always('request-block', 'requested blocks are fetched', *A, call('InventoryManager::get_block', r'self\.invmgr', r'cmd\.RequestBlock'), is_('RequestBlock'), **kw)
    wt = call('FilterManager::watch_transaction', r'self\.cbfmgr', r'cmd\.SubmitTransaction')
    an = call('InventoryManager::announce', r'self\.invmgr', r'cmd\.SubmitTransaction')
    c.always('submit', 'submitted transactions are watched and announced', *A, [wt, an], is_('SubmitTransaction'), **kw)
    rs = r"FilterManager::rescan\(self\.cbfmgr,cmd\.Rescan\.from,cmd\.Rescan\.to,cmd\.Rescan\.watch,self\.tree\)"
    c.always('rescan', 'rescans start with what was asked for', *A, call('FilterManager::rescan', r'self\.cbfmgr', r'cmd\.Rescan\.from', r'cmd\.Rescan\.to', r'cmd\.Rescan\.watch', T), is_('Rescan'), **kw)
    c.foreach('rescan-blocks', 'blocks already known to match are fetched', *A, r'elem\(' + rs + r'\).*', [call('InventoryManager::get_block', r"self'*\.invmgr'*", r'elem\(' + rs + r'\)\.1')], is_('Rescan'), **kw)
    c.always('watch', 'watched scripts are added', *A, call('FilterManager::watch', r'self\.cbfmgr', r'cmd\.Watch\.watch'), is_('Watch'), **kw)
    # peers
    got = [(r'is\(' + KSLOT + r',Connected\)', True), (r'is\(' + KSLOT + r'\.Connected\.peer,Some\)', True), (r'is\(' + KSLOT + r'\.Connected\.peer\.Some\.state,ReceivedVerack\)', True), (r'ServiceFlags::has\(' + KSLOT + r'\.Connected\.peer\.Some\.services,cmd\.GetPeers\)', True)]
    listed = anyof(item(r'.*', peer), call('Vec::push', '.*', peer))
    anyp = anyof(item(r'.*', r'Peer\{.*'), call('Vec::push', '.*', r'Peer\{.*'))
    c.each('peers', 'peers are listed as they are', *A, anyp, lambda e, f, m: listed(e), is_('GetPeers'), **kw)
    for i in range(len(got)):
        c.never('peers-only%d' % i, 'a peer that is not negotiated, or lacks the services, is listed', *A, anyp, is_('GetPeers') + got[:i] + neg(got[i:i + 1]), **kw)
    c.foreach('peers-all', 'every negotiated peer with the services is listed', *A, KSLOT + r'|\(key\(.*', [listed], is_('GetPeers') + got, **kw)
    pred = [(r'apply\(cmd\.Broadcast\.1,' + peer + r'\)', True)]
    to = KSLOT + r'\.Connected\.conn\.addr'
    sent = out(r'Io::Write\{0=' + to + r',1=cmd\.Broadcast\}')
    c.never('broadcast-only', 'a peer the predicate refuses is sent the message', *A, out('.*'), is_('Broadcast') + neg(pred), **kw)
    c.foreach('broadcast-all', 'every peer the predicate accepts is sent the message and listed', *A, KSLOT + r'|\(key\(.*', [sent, anyof(call('Vec::push', '.*', to), item('.*', to))], is_('Broadcast') + got[:2] + pred, **kw)
    c.each('broadcast', 'only the message given is sent', *A, out('.*'), lambda e, f, m: sent(e), is_('Broadcast'), **kw)
    # submitted transactions
    G, GP = 'InventoryManager::get_submitted_tx', ['self', 'txid']
    eq = r'eq\(Transaction::txid\(get\(self\.mempool,key\(self\.mempool\)\)\.Some\),txid\)|eq\(txid,Transaction::txid\(get\(self\.mempool,key\(self\.mempool\)\)\.Some\)\)'
    c.results('submitted-no', 'a transaction never submitted is not found', G, GP, 'Option::None', [(eq, False)])
    c.possible('submitted', 'a submitted transaction is found by its id', G, GP, ret(r'Option::Some\{0=get\(self\.mempool,key\(self\.mempool\)\)\.Some\}'), [(eq, True)])


FORBID = [r'std::net::(tcp|udp|socket_addr::ToSocketAddrs)', r'(std|core)::net::.*ToSocketAddrs', r'std::fs::', r'std::thread::', r'std::process::', r'std::env::', r'std::os::', r'std::time::(SystemTime|Instant)',
          r'std::io::(stdio|Std)', r'nakamoto_net::time::LocalTime::now', r'fastrand::(?!Rng)', r'fastrand::Rng::(new|default)\b', r'<fastrand::Rng as core::default::Default>', r'(rand|getrandom|rand_core)::', r'std::hash::random::', r'crossbeam_channel::.*::(recv|recv_timeout|iter)$', r'std::sync::mpsc', r'libc::', r'(core|std)::sync::atomic::Atomic', r'once_cell::']
ORDERED = r'(iter|keys|values|values_mut|iter_mut|into_iter|into_keys|into_values|drain|retain|union|difference|intersection|extract_if)$'


def fnrefs(x):
    if isinstance(x, dict):
        if 'fn' in x:
            yield x['fn']
        for v in x.values():
            yield from fnrefs(v)
    elif isinstance(x, list):
        for v in x:
            yield from fnrefs(v)


def M05(c):
    """The protocol core does no I/O, reads no clock and draws no randomness of its own."""
    F = c.p.F
    rx = [re.compile(x) for x in FORBID]

    def scan():
        n, bads = 0, []
        seen, work = set(), [k for k, f in F.items() if f['crate'] == 'nakamoto_p2p' and '/tests' not in f['f']]
        roots = len(work)
        # methods reached through a trait the user implements are inputs; library traits resolve to their impls
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            f = F[k]
            c.fns.add(k)
            for b in filter(None, f['b']):
                ln = b[1][6] if b[1] and b[1][0] == 'c' else f['l']
                for r in fnrefs(b):
                    nm, res = r[0], r[1]
                    n += 1
                    for t in (nm, res):
                        if t and any(x.match(t) for x in rx):
                            bads.append(('%s:%s (%s)' % (f['f'], ln, k), 'uses %s' % t))
                            break
                    for t in (res, nm):
                        if t in F and F[t]['crate'] in ('nakamoto_common', 'nakamoto_net', 'nakamoto_p2p', 'nakamoto_chain'):
                            work.append(t)
                if b[1] and b[1][0] == 'c' and b[1][1][0] == 'k' and 'fn' in b[1][1][1]:
                    nm, res, targs = b[1][1][1]['fn'][:3]
                    if re.search(ORDERED, nm) and (re.search(r'Hash(Map|Set)', nm + (res or '')) or 'IntoIterator' in nm) and f['crate'] == 'nakamoto_p2p':
                        if any('std::hash::random::RandomState' in str(x) for x in targs):
                            bads.append(('%s:%s (%s)' % (f['f'], b[1][6], k), 'iterates over a collection in an order that changes from run to run'))
        if roots < 300:
            bads.append(('-', 'only %d protocol functions found' % roots))
        return n, bads
    c.custom('pure', 'the protocol core reaches the outside world only through its inputs and outputs', scan)

    # random choices come from the generator given at construction
    N, NP = 'fsm::StateMachine::new', ['tree', 'filters', 'peers', 'clock', 'rng', 'config']

    def rngs():
        r = c.run(N, NP, opaque=upto('AddressManager::new'))
        n, bads = 0, []
        for rv, _, _, _ in r.exits:
            for k in ('peermgr.rng', 'pingmgr.rng', 'invmgr.rng', 'syncmgr.peers.rng', 'cbfmgr.peers.rng', 'invmgr.peers.rng'):
                n += 1
                g = str(sub(rv, *k.split('.')))
                if not re.fullmatch(r"(Clone::clone\()*rng'*\)*", g):
                    bads.append((c.fn(N), '%s is %s' % (k, trunc(g, 80))))
        return n, bads
    c.custom('seeded', 'every part draws its randomness from the generator given', rngs)


# Panics that cannot happen, and why: (function it occurs in or None, what it looks like, facts that must be known there, reason)
RULED_OUT = [
    (None, r'panic Option::(expect|unwrap)\(Filters::get_prev_header\(self\.(?:cbfmgr\.)?filters,(.*)\)\)', lambda m: [(r'is\(Filters::get_header\(self\.(cbfmgr\.)?filters,' + re.escape(m.group(2)) + r'\),Some\)', True)],
     'a stored filter header has a predecessor (F01, F02)'),
    (None, r'panic Option::(expect|unwrap)\(Filters::get_prev_header\(self\.(?:cbfmgr\.)?filters,(.*)\)\)', lambda m: [(r'eq\(len\(Filters::get_headers\(self\.(cbfmgr\.)?filters,RangeInclusive\{start=' + re.escape(m.group(2)) + r',end=.*\}\)\),0\)', False)],
     'a non-empty range of stored filter headers has a predecessor (F01, F02)'),
    (r'FilterManager::received_cfheaders', r'panic panicking::panic\("assertion.*', None, 'filter headers are only imported for known blocks (F03)'),
    (r'FilterManager::send_getcfheaders', r'panic .*', None, 'the requested range ends at the chain tip (F06)'),
    (r'FilterManager::rescan$', r'panic panicking::panic_fmt.*', None, 'the rescanned range is cut to both chains (F05)'),
    (r'FilterCache::push', r'panic .*', None, 'the cache evicts before it returns (F05)'),
    (None, r'panic Option::(expect|unwrap)\(self\.(addrmgr\.)?last_idle\)', None, 'set when the address manager starts, before any input (M03)'),
    (r'AddressManager::received_getaddr', r'panic Option::(expect|unwrap)\(get\(self\.peers,key\(get\(self\.address_ranges,.*', None, 'address ranges hold known addresses only (A02)'),
    (r'LocalTime::as_secs', r'panic Result::unwrap.*', None, 'holds until the year 2106'),
    (None, r'panic index\(self\.mempool, key\(get\(self\.peers.*\)\.Some\.outbox\)\)', None, 'a transaction leaves every peer\'s outbox with the mempool (I03)'),
    (r'FeeEstimator::rollback', r'panic panicking::panic\("assertion.*', None, 'later snapshots are dropped first (I05)'),
]


def excused(e, facts):
    s = repr(e)
    for fn, rx, need, why in RULED_OUT:
        m = re.match(rx, s, re.S)
        if not m or (fn and not any(re.search(fn, x) for x in e.ctx.chain())):
            continue
        if need and not all(any(re.fullmatch(a, str(k)) and bool(v) == b for k, v in facts.items()) for a, b in need(m)):
            continue
        return True
    return False


def M06(c):
    """No message, connection event or timer makes the protocol panic."""
    msg = [(r'is\(event,MessageReceived\)', True)]
    ent = []
    for m, ps in (('cbfmgr::FilterManager', ['self', 'event', 'tree', 'blocks']), ('pingmgr::PingManager', ['self', 'event', 'tree']), ('invmgr::InventoryManager', ['self', 'event', 'tree']),
                  ('syncmgr::SyncManager', ['self', 'event', 'tree']), ('addrmgr::AddressManager', ['self', 'event']), ('peermgr::PeerManager', ['self', 'event', 'tree'])):
        ent.append(('message-' + m.split('::')[0], 'a message makes the node panic', m + '::received_event', ps, msg))
        ent.append(('event-' + m.split('::')[0], 'a protocol event makes the node panic', m + '::received_event', ps, neg(msg)))
    for m, ps in (('cbfmgr::FilterManager', ['self', 'tree']), ('pingmgr::PingManager', ['self']), ('invmgr::InventoryManager', ['self', 'tree']), ('syncmgr::SyncManager', ['self', 'tree']),
                  ('addrmgr::AddressManager', ['self']), ('peermgr::PeerManager', ['self', 'addrs'])):
        ent.append(('timer-' + m.split('::')[0], 'a timer makes the node panic', m + '::timer_expired', ps, []))
    PM = 'peermgr::PeerManager::'
    ent += [('connected', 'a connection makes the node panic', PM + 'peer_connected', ['self', 'addr', 'local', 'link', 'height'], []),
            ('disconnected', 'a disconnection makes the node panic', PM + 'peer_disconnected', ['self', 'addr', 'addrs', 'reason'], []),
            ('attempted', 'a dial makes the node panic', PM + 'peer_attempted', ['self', 'addr'], []),
            ('received', 'a message makes the node panic', SM + 'message_received', ['self', 'addr', 'msg'], []),
            ('command', 'a command makes the node panic', CMD, ['self', 'cmd'], [])]
    for rid, why, fn, ps, asm in ent:
        def go(fn=fn, ps=ps, asm=asm):
            kw = dict(opaque=EVOP) if fn.startswith('<') else {}
            r = c.run(fn, ps, asm, [('P', panic())], **dict(kw, budget=900000))
            n, bads, seen = r.nsteps, [], set()
            for e, facts, _ in r.hits.get('P', []):
                if e.name == 'debug_assert' or excused(e, facts):
                    continue
                k = (e.ctx.path, e.line, repr(e))
                if k not in seen:
                    seen.add(k)
                    bads.append((e.where(), trunc(repr(e), 200)))
            return n, bads
        c.custom(rid, why, go)
    # the block tree and the filter store behind it: a lookup that may fail is never taken for granted
    BT = '<nakamoto_chain::block::cache::BlockCache as nakamoto_common::block::tree::'
    FC = '<nakamoto_chain::filter::cache::FilterCache as nakamoto_common::block::filter::Filters>::'
    lookup = r"panic (Option|Result)::(unwrap|expect)\((get\(self'*\.(?!chain'*,get\(self'*\.headers).*|BTreeMap::.*|HashMap::.*|Store::.*|phi\(Store::.*|Option::None\))|panic index\((?!self'*\.chain'*, get\(self'*\.headers)self'*\..*"
    known = [(r"is\(get\(self'*\.chain'*,get\(self'*\.headers'*,.*\)\.Some\),Some\)", True)]  # the index of the active chain (C05)
    for nm, fn, ps in [('import', BT + 'BlockTree>::import_blocks', ['self', 'chain', 'context']), ('extend', BT + 'BlockTree>::extend_tip', ['self', 'header', 'context'])] + \
            [(k, BT + 'BlockReader>::' + k, ps) for k, ps in (('get_block', ['self', 'hash']), ('get_block_by_height', ['self', 'height']), ('locate_headers', ['self', 'locators', 'stop', 'max']), ('locator_hashes', ['self', 'from']),
                                                              ('is_known', ['self', 'hash']), ('contains', ['self', 'hash']), ('find_branch', ['self', 'to']), ('last_checkpoint', ['self']), ('range', ['self', 'range']))] + \
            [('filters-' + k, FC + k, ps) for k, ps in (('get_header', ['self', 'height']), ('get_headers', ['self', 'range']), ('import_headers', ['self', 'headers']), ('rollback', ['self', 'height']), ('tip', ['self']))]:
        def tree(fn=fn, ps=ps):
            r = c.run(fn, ps, known, [('P', panic())], budget=900000)
            bads = {}
            for e, facts, _ in r.hits.get('P', []):
                if re.match(lookup, repr(e), re.S):
                    bads[(e.where(), trunc(repr(e), 200))] = 1
            return r.nsteps, list(bads)
        c.custom('tree-' + nm, 'a lookup that may fail makes the node panic', tree)
