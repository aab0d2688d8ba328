"""Client handle, start-up, peer cache (client/, common/src/p2p/peer.rs)."""
import re
from ck import *
H = '<nakamoto_client::client::Handle as nakamoto_client::handle::Handle>::'
HH = 'nakamoto_client::client::Handle::'
TX, RXC = r'channel::(?:bounded\([1-9]\d*\)|unbounded\(\))\.0', r'channel::(?:bounded\([1-9]\d*\)|unbounded\(\))\.1'
RV = r'Receiver::recv\(' + RXC + r'\)'
SENT = r'Sender::send\(self\.commands,.*\)'
EV = r'Receiver::recv_(?:timeout|deadline)\(channel::unbounded\(\)\.1,.*\)'
fine = [(r'is\(Sender::send\(self\.commands,.*\),Ok\)', True), (r'is\(Waker::wake\(.*\),Ok\)', True)]


def neg(facts):
    return [(a, not v) for a, v in facts]


# method, parameters, the command, the answer
COMMANDS = [
    (H + 'get_tip', [], r'GetTip\{0=TX\}', ''),
    (H + 'get_block', ['hash'], r'GetBlockByHash\{0=hash,1=TX\}', ''),
    (H + 'get_block_by_height', ['height'], r'GetBlockByHeight\{0=height,1=TX\}', ''),
    (HH + 'get_peers', ['services'], r'GetPeers\{0=services,1=TX\}', ''),
    (H + 'query_tree', ['query'], r'QueryTree\{0=query\}', None),
    (H + 'find_branch', ['to'], r'QueryTree\{0=closure\}', ''),
    (H + 'request_block', ['hash'], r'RequestBlock\{0=hash\}', None),
    (H + 'request_filters', ['range'], r'RequestFilters\{0=range,1=TX\}', 'GetFilters'),
    (H + 'command', ['cmd'], None, None),
    (H + 'broadcast', ['msg', 'predicate'], r'Broadcast\{0=msg,1=predicate,2=TX\}', ''),
    (H + 'import_headers', ['headers'], r'ImportHeaders\{0=headers,1=TX\}', ''),
    (H + 'import_addresses', ['addrs'], r'ImportAddresses\{0=addrs\}', None),
    (H + 'submit_transaction', ['tx'], r'SubmitTransaction\{0=tx,1=TX\}', 'Command'),
    (H + 'get_submitted_transaction', ['txid'], r'GetSubmittedTransaction\{0=txid,1=TX\}', ''),
    (H + 'connect', ['addr'], r'Connect\{0=addr\}', 'event'),
    (H + 'disconnect', ['addr'], r'Disconnect\{0=addr\}', 'event'),
]


def H01(c):
    """Every method of the handle sends the command it stands for, wakes the node and returns the answer."""
    anysend = call('Sender::(send|try_send|send_timeout)', r'self\.commands')
    wake = call('Waker::wake', r'self\.waker')
    for fn, ps, cmd, ans in COMMANDS:
        m = fn.rsplit(':', 1)[1]
        par = ['self'] + ps
        want = 'cmd' if cmd is None else 'Command::' + cmd.replace('TX', TX)
        snd = call('Sender::send', r'self\.commands', want)
        asm = [(r'RangeInclusive::is_empty\(range\)|lt\(range\.end,range\.start\)', False)] if m == 'request_filters' else []
        c.always(m + '-send', 'the command is not sent', fn, par, snd, asm)
        c.each(m + '-only', 'another command is sent', fn, par, anysend, lambda e, f, mm, snd=snd: snd(e), asm)
        c.after(m + '-wake', 'the node is not woken up after sending the command', fn, par, snd, wake, asm + fine[:1])
        if ans in ('', 'GetFilters', 'Command'):
            ok = RV + r'\.Ok' + ('' if ans == '' else r'\.Ok')
            err = r'(?:Error::\w+\{0=)?' + RV + r'\.Err\}?|' + r'(?:Error::\w+\{0=)?(?:' + SENT + r'|Waker::wake\(self\.waker\))\.Err\}?|Error::Disconnected' + ('' if ans == '' else r'|Error::%s\{0=' % ans + RV + r'\.Ok\.Err\}')
            val = (r'Result::Ok\{0=' + ok + r'\}|Result::Err\{0=(' + err + r')\}') if ans == '' else (r'Result::Ok\{0=(' + ok + r'|\(\))\}|Result::Err\{0=(' + err + r')\}')
            c.results(m + '-answer', 'the answer is returned', fn, par, val, asm)
            c.never(m + '-lost', 'an answer is reported as a failure', fn, par, ret(r'Result::Err.*'), asm + fine + [(r'is\(' + RV + r',Ok\)', True)] + ([] if ans == '' else [(r'is\(' + RV + r'\.Ok,Ok\)', True)]))
            if ans:
                c.never(m + '-failed', 'a failure is reported as success', fn, par, ret(r'Result::Ok.*'), asm + fine + [(r'is\(' + RV + r',Ok\)', True), (r'is\(' + RV + r'\.Ok,Ok\)', False)])
            c.before(m + '-order', 'waiting for an answer before asking', fn, par, snd, call('Receiver::recv'), asm)
        for a, nm in zip(fine, ('unsent', 'unwoken')):
            c.never(m + '-' + nm, 'a command that could not be sent is reported as done', fn, par, ret(r'Result::Ok.*'), asm + [(a[0], False)])

    c.always('timeout-set', 'the timeout asked for is not used', 'nakamoto_client::client::Handle::set_timeout', ['self', 'timeout'], write(r'self\.timeout', 'timeout'))
    CL = '<nakamoto_client::client::Handle as core::clone::Clone>::clone'
    for f in ('blocks', 'commands', 'events', 'filters', 'subscriber', 'timeout', 'waker', 'shutdown', 'listening'):
        c.results('clone-' + f, 'a cloned handle is not the same handle', CL, ['self'], r'Handle\{(?:.*,)?' + f + r'=(?:\w+::clone\()?self\.' + f + r'\)?(?:,.*)?\}')
    def branch():
        r = c.run(H + 'find_branch', ['self', 'to'], (), [('s', anysend)])
        n, bad = 0, []
        for e, _, _ in r.hits.get('s', []):
            for t in e.args[1].subs:
                if t.op == 'clo':
                    n += 1
                    s = Ck(c.p, c.pid, c.tier)
                    s.always('x', '', t.a[0], ['env', 't'], call('Sender::(send|try_send)', r'env\.\w+', r'BlockReader::find_branch\(t,env\.\w+\)'))
                    bad += [(v['where'], v['what']) for v in s.viol]
        return n, bad
    c.custom('find_branch-query', 'the branch to the block asked for is looked up', branch)
    # derived commands
    D = 'nakamoto_client::handle::Handle::'
    b = r'RangeBounds::start_bound\(range\)'
    e_ = r'RangeBounds::end_bound\(range\)'
    c.always('rescan', 'a rescan of the given range and scripts is started', D + 'rescan', ['self', 'range', 'watch'], call('Handle::command', 'self', r'Command::Rescan\{from=(?:Bound::cloned\()?' + b + r'\)?,to=(?:Bound::cloned\()?' + e_ + r'\)?,watch=collect\((?:map\()?watch.*\)\}'))
    c.always('watch', 'the given scripts are watched', D + 'watch', ['self', 'watch'], call('Handle::command', 'self', r'Command::Watch\{watch=collect\((?:map\()?watch.*\)\}'))
    # feeds
    for f, fld in (('blocks', 'blocks'), ('filters', 'filters'), ('events', 'subscriber|self.events')):
        fl = r'self\.(?:' + fld.replace('self.', '') + r')'
        c.always(f + '-sub', 'the feed is subscribed to', H + f, ['self'], call('Vec::(push|insert)', fl + r"\.subscribers'*", r'channel::unbounded\(\)\.0'))
        c.results(f + '-feed', 'the feed is returned', H + f, ['self'], r'channel::unbounded\(\)\.1')
    # waiting
    sub_ = call('Vec::push', r"self\.(?:events|subscriber)\.subscribers'*", r'channel::unbounded\(\)\.0')
    for m, ps in (('connect', ['addr']), ('disconnect', ['addr']), ('wait_for_peers', ['count', 'req']), ('wait_for_height', ['h'])):
        c.before(m + '-subscribe', 'what is waited for can be missed', H + m, ['self'] + ps, sub_, anysend)
    for m, ps in (('connect', ['addr']), ('disconnect', ['addr']), ('wait_for_peers', ['count', 'req']), ('wait_for_height', ['h']), ('wait', ['f'])):
        c.each(m + '-timeout', 'waiting ignores the configured timeout', H + m, ['self'] + ps, call('Receiver::recv_(timeout|deadline)'), lambda e, f, mm: 'self.timeout' in str(e.args[1]))
        c.never(m + '-forever', 'waiting ignores the configured timeout', H + m, ['self'] + ps, call('Receiver::recv', r'channel::unbounded.*'))
    got_ = [(r'is\(' + EV + r',Ok\)', True), (r'is\(Duration::checked_sub\(.*\),Some\)', True)] + fine
    port = r'eq\(SocketAddr::port\(.*\),SocketAddr::port\(.*\)\)'
    unsp = r'IpAddr::is_unspecified\(SocketAddr::ip\(addr\)\)'
    for m, var, val in (('connect', 'PeerConnected', EV + r'\.Ok\.PeerConnected\.link'), ('disconnect', 'PeerDisconnected', r'\(\)')):
        same = r'eq\((addr,' + EV + r'\.Ok\.' + var + r'\.addr|' + EV + r'\.Ok\.' + var + r'\.addr,addr)\)'
        isv = [(r'is\(' + EV + r'\.Ok,' + var + r'\)', True)]
        okv = r'Result::Ok\{0=' + val + r'\}'
        hit = lambda e, okv=okv: e.kind == 'exit' and re.fullmatch(okv, str(e.args[0])) is not None
        c.possible(m + '-hit', 'the event waited for does not end the wait', H + m, ['self', 'addr'], hit, got_ + isv + [(same, True)])
        c.never(m + '-other', 'another event ends the wait', H + m, ['self', 'addr'], ret('Result::Ok.*'), got_ + neg(isv))
        c.never(m + '-addr', 'the event of another peer ends the wait', H + m, ['self', 'addr'], ret('Result::Ok.*'), got_ + isv + [(same, False), (unsp, False)])
        c.never(m + '-port', 'the event of another peer ends the wait', H + m, ['self', 'addr'], ret('Result::Ok.*'), got_ + isv + [(same, False), (port, False)])
        c.atmost(m + '-miss', 'the event waited for is passed over', H + m, ['self', 'addr'], call('Sender::send', r'self\.commands'), call('Receiver::recv_(timeout|deadline)'), got_ + isv + [(same, True)])
        c.results(m + '-result', 'the event waited for is returned', H + m, ['self', 'addr'], okv + r'|Result::Err\{.*\}')
    # peers
    W, WP = H + 'wait_for_peers', ['self', 'count', 'req']
    MAP = r"(?:prev\()*collect\(map\(" + RV + r"\.Ok,closure\)\)'*\)*'*"
    N_ = EV + r'\.Ok\.PeerNegotiated'
    en = [(r'lt\(len\(' + RV + r'\.Ok\),count\)', False)]
    c.always('peers-ask', 'peers with the services asked for are looked up', W, WP, call('Sender::send', r'self\.commands', r'Command::GetPeers\{0=(?:Into::into\()?req\)?,1=' + TX + r'\}'))
    c.never('peers-enough', 'waiting although there are enough peers', W, WP, call('Receiver::recv_(timeout|deadline)'), fine + en)
    c.never('peers-few', 'returning although there are too few peers', W, WP, ret('Result::Ok.*'), fine + neg(en) + [(r'lt\(len\(' + MAP + r'\),count\)', True)])
    tup = lambda x: r'\(' + x + r'\.addr,' + x + r'\.height,' + x + r'\.services\)'
    el = r'elem\(' + RV + r'\.Ok\)'
    c.foreach('peers-known', 'the peers found are returned', W, WP, el, [anyof(item(None, tup(el)), call('Vec::push', None, tup(el)))], fine + en)
    c.foreach('peers-seed', 'peers already connected count', W, WP, el, [item(None, r'\(' + el + r'\.addr,\(' + el + r'\.height,' + el + r'\.services\)\)')], fine + neg(en))
    neg_ = [(r'is\(' + EV + r'\.Ok,PeerNegotiated\)', True), (r'is\(' + EV + r'\.Ok,PeerDisconnected\)', False)]
    has = [(r'ServiceFlags::has\(' + N_ + r'\.services,req\)', True)]
    put = call('HashMap::insert', MAP, N_ + r'\.addr', r'\(' + N_ + r'\.height,' + N_ + r'\.services\)')
    rcv = call('Receiver::recv_(timeout|deadline)')
    c.cycle('peers-new', 'a peer that connected does not count', W, WP, rcv, [put], got_ + neg(en) + neg_ + has)
    c.never('peers-services', 'a peer without the services asked for counts', W, WP, call('HashMap::insert', MAP), got_ + neg(en) + neg_ + neg(has))
    c.each('peers-right', 'a peer is recorded wrongly', W, WP, call('HashMap::insert', MAP), lambda e, f, mm: put(e))
    c.possible('peers-done', 'enough peers connected but waiting goes on', W, WP, ret('Result::Ok.*'), got_ + neg(en) + neg_ + [(r'lt\(len\(' + MAP + r'\),count\)', False)])
    c.never('peers-over', 'enough peers connected but waiting goes on', W, WP, lambda e: e.kind == 'exit' and 'Timeout' in str(e.args[0]), got_ + neg(en) + neg_ + [(r'lt\(len\(' + MAP + r'\),count\)', False)])
    gone = [(r'is\(' + EV + r'\.Ok,PeerDisconnected\)', True), (r'is\(' + EV + r'\.Ok,PeerNegotiated\)', False)]
    c.cycle('peers-gone', 'a peer that disconnected still counts', W, WP, rcv, [call('HashMap::remove', MAP, EV + r'\.Ok\.PeerDisconnected\.addr')], got_ + neg(en) + gone)
    c.never('peers-gone-end', 'a disconnection ends the wait', W, WP, ret('Result::Ok.*'), got_ + neg(en) + gone)
    k = r'key\(' + MAP + r'\)'
    g = r'get\(' + MAP + r',' + k + r'\)\.Some'
    c.each('peers-list', 'the peers connected are returned', W, WP, item(r'map\(' + MAP + r',closure\)|' + MAP, None), lambda e, f, mm: re.fullmatch(r'\(' + k + r',' + g + r'\.0,' + g + r'\.1\)', str(e.args[1])) is not None)
    # height
    G, GP = H + 'wait_for_height', ['self', 'h']
    known = [(r'is\(' + RV + r'\.Ok,Some\)', True)]
    c.always('height-ask', 'the block at that height is looked up', G, GP, call('Sender::send', r'self\.commands', r'Command::GetBlockByHeight\{0=h,1=' + TX + r'\}'))
    c.results('height-known', 'the block at that height is returned', G, GP, r'Result::Ok\{0=BlockHeader::block_hash\(' + RV + r'\.Ok\.Some\)\}|Result::Err\{.*\}', known)
    c.never('height-known-wait', 'waiting for a height already reached', G, GP, rcv, fine + known)
    CON = EV + r'\.Ok\.BlockHeadersImported\.connected'
    ce = r'elem\(' + CON + r'\)'
    imp = [(r'is\(' + EV + r'\.Ok,BlockHeadersImported\)', True)]
    ath = [(r'eq\((?:' + ce + r'\.0,h|h,' + ce + r'\.0)\)', True)]
    c.results('height-new', 'the block at that height is returned', G, GP, r'Result::Ok\{0=BlockHeader::block_hash\(' + ce + r'\.1\)\}|Result::Err\{.*\}', fine + neg(known))
    c.never('height-wrong', 'another block is returned', G, GP, ret('Result::Ok.*'), fine + neg(known) + neg(ath))
    c.never('height-event', 'another event ends the wait', G, GP, ret('Result::Ok.*'), fine + neg(known) + neg(imp))

    def heights():
        seen = set()

        def dec(mon, t, v):
            s = str(t)
            if re.fullmatch(ath[0][0], s):
                seen.add(v)
            return mon
        r = c.run(G, GP, got_ + neg(known) + imp, [('i', lambda e: e.kind == 'iter' and re.search(CON, str(e.args)) is not None), ('idx', lambda e: e.kind == 'call' and re.search(r'::(last|first|nth|next_back|get|max|min|rev|skip|take)', e.short) is not None and re.search(CON, str(e.args[0])) is not None)], decide=dec)
        bad = []
        if seen != {True, False} or not r.hits.get('i'):
            bad.append((c.fn(G), 'the blocks imported are not all compared with the height'))
        for e, _, _ in r.hits.get('i', []):
            if re.search(r'(?:^|\()(take|skip|step_by|take_while|skip_while|filter|filter_map)\(', str(e.args[0])):
                bad.append((e.where(), 'only some of the blocks imported are compared with the height: %s' % e.args[0]))
        for e, _, _ in r.hits.get('idx', []):
            bad.append((e.where(), 'only some of the blocks imported are compared with the height'))
        return len(r.hits.get('i', [])), bad
    c.custom('height-every', 'every block imported is compared with the height', heights)
    # shutting down
    sh = call('Sender::send', r'self\.shutdown', r'\(\)')
    c.always('shutdown', 'the node is told to shut down', H + 'shutdown', ['self'], sh)
    c.after('shutdown-wake', 'the node is not woken up to shut down', H + 'shutdown', ['self'], sh, wake, [(r'is\(Sender::send\(self\.shutdown,.*\),Ok\)', True)])
    c.never('shutdown-failed', 'a failed shutdown is reported as done', H + 'shutdown', ['self'], ret('Result::Ok.*'), [(r'is\(Sender::send\(self\.shutdown,.*\),Ok\)', False)])
    c.never('shutdown-unwoken', 'a failed shutdown is reported as done', H + 'shutdown', ['self'], ret('Result::Ok.*'), [(r'is\(Waker::wake\(.*\),Ok\)', False)])
    c.results('listening', 'the address listened on is returned', HH + 'listening', ['self'], r'Result::Ok\{0=Receiver::recv_timeout\(self\.listening,self\.timeout\)\.Ok\}|Result::Err\{.*\}')
    # the handle's ends are the reactor's
    CN = 'nakamoto_client::client::Client::new'

    def ends():
        r = c.run(CN, [], (), [('chan', call('channel::(bounded|unbounded)')), ('new', call('Reactor::new'))])
        bad, n = [], 0
        for rv, mon, facts, store in r.exits:
            if not str(rv).startswith('Result::Ok'):
                continue
            n += 1
            cl = sub(rv, 'Ok.0')
            h = sub(cl, 'handle')
            for a, b_, nm in ((sub(h, 'commands'), sub(cl, 'commands'), 'commands'),):
                m1, m2 = re.fullmatch(r'(.*)\.0', str(a)), re.fullmatch(r'(.*)\.1', str(b_))
                if not (m1 and m2 and m1.group(1) == m2.group(1)):
                    bad.append((c.fn(CN), 'the %s sent are not the ones received: %s, %s' % (nm, a, b_)))
            if not re.fullmatch(r"Reactor::waker\((?:.*Reactor::new\(.*\)\.Ok.*)\)", str(sub(h, 'waker'))):
                bad.append((c.fn(CN), 'the handle wakes up another reactor: %s' % sub(h, 'waker')))
        for e, _, _ in r.hits.get('new', []):
            n += 1
            for rv, mon, facts, store in r.exits:
                if str(rv).startswith('Result::Ok'):
                    h = sub(rv, 'Ok.0', 'handle')
                    for fld, arg, x, y in (('shutdown', 0, '.0', '.1'), ('listening', 1, '.1', '.0')):
                        if not (str(sub(h, fld)).endswith(x) and str(e.args[arg]).endswith(y)):
                            bad.append((e.where(), 'the %s channel is not shared with the reactor' % fld))
        return n, bad
    c.custom('ends', 'the handle and the reactor share their channels', ends)


DIR = r'Path::join\(Path::join\(config\.root,"\.nakamoto"\),Network::as_str\(config\.network\)\)'
LO, LOP = 'nakamoto_client::client::Client::load', ['self', 'config', 'loading']
OPL = dict(opaque=['BlockCache', 'FilterCache', 'nakamoto_chain::block::store::io', 'nakamoto_client::peer::Cache::', 'Service::new', 'AdjustedTime', 'StoredHeader', 'Network::', 'as nakamoto_common::block::store',
                   'Cache as nakamoto_common::p2p::peer::Store', 'peer::Store::seed'])


def H02(c):
    """Start-up opens, repairs and loads the stored state of the right network, or fails."""
    okr = ret(r'Result::Ok.*')
    dirp = lambda f: r'Path::join\(' + DIR + r',"' + f.replace('.', r'\.') + r'"\)'
    HG, FG = r'Network::genesis\(config\.network\)', r'Genesis::genesis\(config\.network\)|StoredHeader::genesis\(config\.network\)'
    HD = r'File::(?:create|open)\(' + dirp('headers.db') + r',(?:' + HG + r')\)'
    FD = r'File::(?:create|open)\(' + dirp('filters.db') + r',(?:' + FG + r')\)'
    cp = r'(?:collect\()?Network::checkpoints\(config\.network\)\)?'
    BC = r'BlockCache::load_with\(BlockCache::new\((?:' + HD + r')\.Ok,Network::params\(config\.network\),' + cp + r'\)\.Ok,closure\)'
    FC = r'FilterCache::load_with\((?:' + FD + r')\.Ok,closure\)'
    PJ = dirp('peers.json')
    c.before('dir', 'the data directory may not exist', LO, LOP, call('fs::create_dir_all', DIR), call('File::(create|open)|Cache::(create|open)'), **OPL)
    for nm, X, f, g in (('headers', HD, 'headers.db', HG), ('filters', FD, 'filters.db', FG)):
        cr = r'File::create\(' + dirp(f) + r',(?:' + g + r')\)'
        op = r'File::open\(' + dirp(f) + r',(?:' + g + r')\)'
        new = [(r'is\(' + cr + r',Ok\)', True)]
        old = [(r'is\(' + cr + r',Ok\)', False), (r'is\(' + cr + r'\.Err,Io\)', True), (r'is\(Error::kind\(' + cr + r'\.Err\.Io\),AlreadyExists\)', True)]
        c.each(nm + '-file', 'another file is used', LO, LOP, call('File::(create|open)', r'.*' + f.replace('.', r'\.') + r'.*'), lambda e, ff, m, f=f, g=g: call('File::(create|open)', dirp(f), g)(e), **OPL)
        c.never(nm + '-fail', 'a store that cannot be created is ignored', LO, LOP, okr, [(r'is\(' + cr + r',Ok\)', False), (r'is\(' + cr + r'\.Err,Io\)', False)], **OPL)
        c.never(nm + '-fail2', 'a store that cannot be created is ignored', LO, LOP, okr, [(r'is\(' + cr + r',Ok\)', False), (r'is\(' + cr + r'\.Err,Io\)', True), (r'is\(Error::kind\(' + cr + r'\.Err\.Io\),AlreadyExists\)', False)], **OPL)
        c.never(nm + '-open-fail', 'a store that cannot be opened is ignored', LO, LOP, okr, old + [(r'is\(' + op + r',Ok\)', False)], **OPL)
        chk = r'Store::check\(' + op + r"\.Ok'*\)"
        hl = call('Store::heal', op + r"\.Ok'*")
        use = call('BlockCache::new|FilterCache::load_with', op + r"\.Ok'*")
        c.possible(nm + '-reuse', 'stored state is not used', LO, LOP, use, old + [(r'is\(' + op + r',Ok\)', True)], **OPL)
        c.before(nm + '-check', 'stored state is used without being checked', LO, LOP, call('Store::check', op + r"\.Ok'*"), use, old, **OPL)
        c.before(nm + '-heal', 'damaged stored state is used without being repaired', LO, LOP, hl, use, old + [(r'is\(' + chk + r',Ok\)', False)], **OPL)
        c.never(nm + '-healed', 'stored state is rolled back although it is intact', LO, LOP, hl, old + [(r'is\(' + chk + r',Ok\)', True)], **OPL)
        c.never(nm + '-heal-fail', 'damaged state that could not be repaired is used', LO, LOP, anyof(use, okr), old + [(r'is\(' + chk + r',Ok\)', False), (r'is\(Store::heal\(' + op + r"\.Ok'*\),Ok\)", False)], **OPL)
        c.never(nm + '-wipe', 'stored state is deleted', LO, LOP, anyof(call('fs::(remove_file|remove_dir|remove_dir_all|rename|write)', lambda t, f=f: 'peers.json' not in str(t)), call('File::(set_len|truncate)|Store::rollback|Store::clear')), **OPL)
    c.each('chain', 'the chain is loaded from something else', LO, LOP, call('BlockCache::new'), lambda e, f, m: call('BlockCache::new', r'(?:' + HD + r")\.Ok'*", r'Network::params\(config\.network\)', cp)(e), **OPL)
    c.each('cfheaders', 'filter headers are loaded from something else', LO, LOP, call('FilterCache::load_with'), lambda e, f, m: call('FilterCache::load_with', r'(?:' + FD + r")\.Ok'*")(e), **OPL)
    for nm, t in (('chain', BC), ('cfheaders', FC)):
        c.never(nm + '-fail', 'stored state that could not be loaded is ignored', LO, LOP, okr, [(r'is\(' + t + r',Ok\)', False)], **OPL)
    vf = r'FilterCache::(?:verify_with\(' + FC + r'\.Ok,config\.network,closure\)|verify\(' + FC + r'\.Ok,config\.network\))'
    c.before('verify', 'filter headers are not verified although asked to', LO, LOP, lambda e: e.kind == 'call' and re.fullmatch('FilterCache::verify(_with)?', e.short) is not None and re.fullmatch(FC + r'\.Ok', str(e.args[0])) is not None and str(e.args[1]) == 'config.network', okr, [(r'config\.verify', True)], **OPL)
    c.never('verify-fail', 'filter headers that do not verify are used', LO, LOP, okr, [(r'config\.verify', True), (r'is\(' + vf + r',Ok\)', False)], **OPL)
    # peers
    PC, PO = r'Cache::create\(' + PJ + r'\)', r'Cache::open\(' + PJ + r'\)'
    isold = [(r'is\(' + PC + r',Ok\)', False), (r'is\(Error::kind\(' + PC + r'\.Err\),AlreadyExists\)', True)]
    c.each('peers-file', 'another peer file is used', LO, LOP, call('Cache::(create|open)'), lambda e, f, m: call('Cache::(create|open)', PJ)(e), **OPL)
    c.never('peers-fail', 'a peer file that cannot be created is ignored', LO, LOP, okr, [(r'is\(' + PC + r',Ok\)', False), (r'is\(Error::kind\(' + PC + r'\.Err\),AlreadyExists\)', False)], **OPL)
    bad = isold + [(r'is\(' + PO + r',Ok\)', False), (r'is\(Error::kind\(' + PO + r'\.Err\),InvalidData\)', True)]
    rm = call('fs::remove_file', PJ)
    rmok = [(r'is\(fs::remove_file\(' + PJ + r'\),Ok\)', True)]
    c.before('peers-reset', 'a damaged peer file keeps the client from starting', LO, LOP, rm, anyof(okr, ret(r'Result::Err\{0=Error::PeerStore.*')), bad, **OPL)
    c.after('peers-renew', 'a damaged peer file is not replaced', LO, LOP, rm, call('Cache::create', PJ), bad + rmok, **OPL)
    c.never('peers-reset-exit', 'a damaged peer file keeps the client from starting', LO, LOP, ret(r'Result::Err\{0=(?:Error::PeerStore\{0=)?' + PO + r'\.Err\}?\}'), bad, **OPL)
    c.never('peers-wipe', 'the peer file is deleted although it is intact', LO, LOP, call('fs::(remove_file|rename|write)'), isold + [(r'is\(' + PO + r',Ok\)', True)], **OPL)
    c.never('peers-wipe2', 'the peer file is deleted although it is intact', LO, LOP, call('fs::(remove_file|rename|write)'), isold + [(r'is\(' + PO + r',Ok\)', False), (r'is\(Error::kind\(' + PO + r'\.Err\),InvalidData\)', False)], **OPL)
    c.never('peers-open-fail', 'a peer file that cannot be read is ignored', LO, LOP, okr, isold + [(r'is\(' + PO + r',Ok\)', False), (r'is\(Error::kind\(' + PO + r'\.Err\),InvalidData\)', False)], **OPL)
    # seeds
    seed = call('Store::seed')
    empty = [(r'eq\(len\((?:Cache::(?:create|open)\(' + PJ + r"\)|phi\([^()]*\))(?:\.Ok)?'*\),0\)|Store::is_empty\(.*\)", True)]
    noc = [(r'eq\(len\(config\.connect\),0\)', True)]
    c.before('seed', 'there is nobody to connect to', LO, LOP, seed, okr, noc + empty + neg(isold[:1]), **OPL)
    c.never('seed-connect', 'seeds are contacted although peers are configured', LO, LOP, seed, neg(noc), **OPL)
    c.never('seed-known', 'seeds are contacted although peers are known', LO, LOP, seed, neg(empty), **OPL)
    c.each('seed-dns', 'other seeds are used', LO, LOP, seed, lambda e, f, m: re.fullmatch(r'(?:map\()?Network::seeds\(config\.network\).*', str(e.args[1])) is not None and str(e.args[2]) == 'Source::Dns', **OPL)
    c.after('seed-flush', 'seeds are not stored', LO, LOP, seed, call('Store::flush'), noc + empty + [(r'is\(Store::seed\(.*\),Ok\)', True)], **OPL)

    def wire():
        r = c.run(LO, LOP, neg(isold[:1]) + noc + neg(empty), [], **OPL)
        n, badl = 0, []
        for rv, mon, facts, store in r.exits:
            if not str(rv).startswith('Result::Ok'):
                continue
            n += 1
            R = sub(rv, 'Ok.0')
            for f, want in (('commands', r'self\.commands'), ('publisher', r'self\.publisher'), ('reactor', r'self\.reactor'), ('listen', r'config\.listen')):
                if not re.fullmatch(want, str(sub(R, f))):
                    badl.append((c.fn(LO), '%s is %s' % (f, sub(R, f))))
            s = sub(R, 'service')
            if not re.match(r'Service::new\(', str(s)):
                badl.append((c.fn(LO), 'the service is %s' % s))
        return n, badl
    c.custom('runner', 'the node that is run has the given channels and addresses', wire)
    up = lambda t, v: re.fullmatch(r"(?:prev\()*(?:" + t + r")\)*'*|phi\(.*", v) is not None
    c.each('service', 'the node is started with other state', LO, LOP, call('Service::new'), lambda e, f, m: up(BC + r'\.Ok', str(e.args[0])) and up(FC + r'\.Ok', str(e.args[1])) and 'peers.json' in str(e.args[2]) and str(e.args[5]) == 'config',
           neg(isold[:1]) + [(r'is\(File::create\(' + dirp('headers.db') + r',(?:' + HG + r')\),Ok\)', True), (r'is\(File::create\(' + dirp('filters.db') + r',(?:' + FG + r')\),Ok\)', True)], **OPL)
    # running
    c.always('run', 'the node is run with what was loaded', 'nakamoto_client::client::ClientRunner::run', ['self'], call('Reactor::run', r'self\.reactor', r'self\.listen', r'self\.service', r'self\.publisher', r'self\.commands'))
    c.never('run-failed', 'a failure of the node is ignored', 'nakamoto_client::client::ClientRunner::run', ['self'], ret('Result::Ok.*'), [(r'is\(Reactor::run\(.*\),Ok\)', False)])
    c.always('run-service', 'the given service is run', 'nakamoto_client::client::Client::run_service', ['self', 'listen', 'service'], call('Reactor::run', r'self\.reactor', 'listen', 'service', r'self\.publisher', r'self\.commands'))
    c.always('run-load', 'the node is run with what was loaded', 'nakamoto_client::client::Client::run', ['self', 'config'], call('Client::load', 'self', 'config'), opaque=['Client::load$', 'ClientRunner::run$'])
    c.always('run-run', 'the node is run with what was loaded', 'nakamoto_client::client::Client::run', ['self', 'config'], call('ClientRunner::run'), [(r'is\(Client::load\(.*\),Ok\)', True)], opaque=['Client::load$', 'ClientRunner::run$'])

    # configuration
    SN = 'nakamoto_client::service::Service::new'
    ok = {'network': 'network', 'domains': 'domains', 'connect': 'connect', 'user_agent': 'user_agent', 'hooks': 'hooks', 'limits': 'limits', 'services': 'services'}

    def conf():
        bad, n = [], 0
        r = c.run(SN, ['tree', 'filters', 'peers', 'clock', 'rng', 'config'], (), [('n', call('StateMachine::new'))], opaque=['nakamoto_p2p::fsm::StateMachine::new$'])
        for e, _, _ in r.hits.get('n', []):
            for i, w in enumerate(('tree', 'filters', 'peers', 'clock', 'rng')):
                n += 1
                if str(e.args[i]) != w:
                    bad.append((e.where(), 'the %s used is %s' % (w, e.args[i])))
            for f in ok:
                n += 1
                v = sub(e.args[5], f)
                if str(v) != 'config.' + f:
                    bad.append((e.where(), 'the configured %s is ignored: %s' % (f, v)))
        return n, bad
    c.custom('config', 'the configuration reaches the protocol', conf)


CA = '<nakamoto_client::peer::Cache as nakamoto_common::p2p::peer::Store>::'
CC = 'nakamoto_client::peer::Cache::'
KA = 'nakamoto_common::p2p::peer::KnownAddress::'
TIMES = ('last_success', 'last_attempt', 'last_sampled', 'last_active')


def H03(c):
    """Known peers survive restarts as they were, and a damaged file cannot crash the client."""
    FL, FLP = CA + 'flush', ['self']
    OPJ = dict(opaque=['KnownAddress::to_json$', 'KnownAddress::from_json$'])
    k = r'key\(self\.addrs\)'
    pair = r'\(ToString::to_string\(' + k + r'\),KnownAddress::to_json\(get\(self\.addrs,' + k + r'\)\.Some\)\)'
    el = r'\(' + k + r',get\(self\.addrs,' + k + r'\)\.Some\)'
    text = r'ser::to_string\(Value::Object\{0=(?:collect\(map\(self\.addrs,closure\)\)|\w+::new\(\)\'*)\}\)'
    c.foreach('flush-all', 'every known address is written', FL, FLP, el, [anyof(item(None, pair), call('BTreeMap::insert', r'.*', r'ToString::to_string\(' + k + r'\)', r'KnownAddress::to_json\(get\(self\.addrs,' + k + r'\)\.Some\)'))], **OPJ)
    F = r"(?:prev\()*self'*\.file'*\)*'*"
    cut = call('File::set_len', F, '0')
    zero = anyof(call('Seek::seek', F, r'SeekFrom::Start\{0=0\}'), call('Seek::rewind', F))
    wr = call('Write::write_all', F, text + r'.*')
    c.before('flush-cut', 'the old contents are left behind', FL, FLP, cut, wr, **OPJ)
    c.before('flush-start', 'the file is not written from the start', FL, FLP, zero, wr, **OPJ)
    good = ret('Result::Ok.*')
    c.before('flush-write', 'the addresses are not written', FL, FLP, wr, good, **OPJ)
    c.atmost('flush-once', 'the addresses are written twice', FL, FLP, cut, wr, **OPJ)
    c.each('flush-other', 'something else is written', FL, FLP, call('Write::(write_all|write)'), lambda e, f, m: anyof(wr, call('Write::write_all', F, r'\[10\]|"\\n"|.*\b10\b.*'))(e), **OPJ)
    sync = call('File::(sync_data|sync_all)', F)
    c.before('flush-sync', 'the addresses are not made durable', FL, FLP, sync, good, **OPJ)
    c.never_after('flush-sync-last', 'something is written after making the file durable', FL, FLP, sync, anyof(call('Write::write_all'), cut), **OPJ)
    for a in (r'File::set_len', r'Seek::\w+', r'Write::write_all', r'File::sync_\w+'):
        c.never('flush-fail-' + a[-6:].strip('+\\'), 'a failure to write is reported as success', FL, FLP, good, [(r'is\(' + a + r'\(' + F + r'.*\),Ok\)', False)], **OPJ)
    # opening
    FR, FRP = CC + 'from', ['file']
    S = r"String::new\(\)'*"
    J = r'de::from_str\(' + S + r'\)'
    empty = [(r'eq\(len\(' + S + r'\),0\)', True)]
    isobj = [(r'is\(' + J + r',Ok\)', True), (r'is\(' + J + r'\.Ok,Object\)', True)]
    E = r'elem\(' + J + r'\.Ok\.Object\)'
    ip = r'(?:FromStr::from_str|str::parse)\(' + E + r'\.0\)'
    kj = r'KnownAddress::from_json\(' + E + r'\.1\)'
    c.never('load-crash', 'the contents of the file make the client panic', FR, FRP, panic(), **OPJ)
    c.never('load-crash-json', 'the contents of the file make the client panic', KA + 'from_json', ['v'], panic())
    ins = call('HashMap::insert', r"HashMap::new\(\)'*", ip + r'\.Ok', kj + r'\.Ok')
    c.foreach('load-all', 'every stored address is loaded', FR, FRP, E, [ins], neg(empty) + isobj + [(r'is\(' + ip + r',Ok\)', True), (r'is\(' + kj + r',Ok\)', True)], **OPJ)
    c.each('load-only', 'another address is loaded', FR, FRP, call('HashMap::insert'), lambda e, f, m: ins(e), **OPJ)
    c.results('load-result', 'the file and its addresses are used', FR, FRP, r"Result::Ok\{0=Cache\{addrs=HashMap::new\(\)'*,file=(?:prev\()?file'*\)?\}\}|Result::Err\{.*\}", **OPJ)
    inval = r"Result::Err\{0=(?:Error::from\()?(?:Error::new\()?ErrorKind::InvalidData.*\}"
    for nm, a in (('json', neg(isobj[:1])), ('kind', isobj[:1] + neg(isobj[1:])), ):
        c.results('load-bad-' + nm, 'damage is not reported as such', FR, FRP, inval, [(r'is\(Read::read_to_string\(.*\),Ok\)', True)] + neg(empty) + a, **OPJ)
    for nm, t in (('addr', ip), ('value', kj)):
        c.never('load-bad-' + nm, 'a damaged entry is skipped or reported wrongly', FR, FRP, lambda e: e.kind == 'exit' and not re.fullmatch(inval + r'|Result::Err\{0=Read::.*', str(e.args[0])) and not re.search(r'addrs=HashMap::new\(\)[,}]', str(e.args[0])),
                neg(empty) + isobj + [(r'is\(' + t + r',Ok\)', False)], **OPJ)
    for nm, t, cl in (('addr', ip, call('FromStr::from_str|str::parse', E + r'\.0')), ('value', kj, call('KnownAddress::from_json', E + r'\.1'))):
        c.never_after('load-skip-' + nm, 'a damaged entry is skipped', FR, FRP, cl, ret('Result::Ok.*'), neg(empty) + isobj + [(r'is\(' + t + r',Ok\)', False)], **OPJ)
    c.never('load-empty', 'a file that was never written is an error', FR, FRP, ret(r'Result::Err\{0=ErrorKind.*'), empty, **OPJ)
    c.always('open', 'the file is opened for reading and writing', CC + 'open', ['path'], call('OpenOptions::open', r'OpenOptions.*', 'path'), **OPJ)
    for f in ('read', 'write'):
        c.always('open-' + f, 'the file is opened for reading and writing', CC + 'open', ['path'], call('OpenOptions::' + f, r'.*', 'true'), **OPJ)
    c.never('open-cut', 'stored addresses are dropped', CC + 'open', ['path'], call('OpenOptions::(truncate|append|create_new)', r'.*', 'true'), **OPJ)
    c.always('create-new', 'an existing file is overwritten', CC + 'create', ['path'], call('OpenOptions::create_new', r'.*', 'true'))
    c.always('create-write', 'the file is opened for writing', CC + 'create', ['path'], call('OpenOptions::write', r'.*', 'true'))
    # each address
    TJ, TJP = KA + 'to_json', ['self']
    O = r"\w+::new\(\)'*"
    T = r'(?:prev\()*self\.'
    secs = lambda f: r'(?:LocalTime::as_secs\(self\.F\.Some\)|div\(self\.F\.Some\.millis,1000\)(?:\.Ok)?|Clock::block_time\(self\.F\.Some\))'.replace('F', f)
    num = lambda v: r'Value::Number\{0=Number::U64\{0=' + v + r'\}\}'
    for f in TIMES:
        some = [(r'is\(self\.' + f + r',Some\)', True)]
        c.always('save-' + f, 'when a peer was last seen is not stored', TJ, TJP, call('BTreeMap::insert', O, '"%s"' % f, num(secs(f))), some)
        c.always('save-no-' + f, 'a time is stored that never was', TJ, TJP, call('BTreeMap::insert', O, '"%s"' % f, r'Value::Null'), neg(some))
        g = r'get\(v\.Object,"%s"\)' % f
        one = [(r'is\(v,Object\)', True), (r'is\(' + g + r',Some\)', True)]
        numb = one + [(r'is\(' + g + r'\.Some,Number\)', True), (r'is\(' + g + r'\.Some\.Number,U64\)', True), (r'is\(' + g + r'\.Some,Null\)', False)]
        want = r'Option::Some\{0=LocalTime\{millis=mul\((?:' + g + r'\.Some\.Number\.U64,1000|1000,' + g + r'\.Some\.Number\.U64)\)\}\}'
        c.results('restore-' + f, 'when a peer was last seen is not restored', KA + 'from_json', ['v'], lambda rv, f=f, want=want: str(rv).startswith('Result::Err') or re.fullmatch(want, str(sub(rv, 'Ok.0', f))) is not None, numb + others(f))
        null = one + [(r'is\(' + g + r'\.Some,Null\)', True), (r'is\(' + g + r'\.Some,Number\)', False)]
        c.results('restore-no-' + f, 'a time is restored that never was', KA + 'from_json', ['v'], lambda rv, f=f: str(rv).startswith('Result::Err') or str(sub(rv, 'Ok.0', f)) == 'Option::None', null + others(f))
    addr = r'ToString::to_string\((?:SocketAddr::new\()?\(?self\.addr\.address,self\.addr\.port\)+'
    c.always('save-address', 'the address is not stored', TJ, TJP, call('BTreeMap::insert', O, '"address"', r'Value::String\{0=' + addr + r'\}'))
    c.always('save-services', 'the services are not stored', TJ, TJP, call('BTreeMap::insert', O, '"services"', num(r'(?:ServiceFlags::(?:to_u64|as_u64)\(self\.addr\.services\)|self\.addr\.services)')))
    for v, val in (('Dns', r'"dns"'), ('Imported', r'"imported"'), ('Peer', r'ToString::to_string\(self\.source\.Peer\)')):
        c.always('save-source-' + v, 'where an address came from is not stored', TJ, TJP, call('BTreeMap::insert', O, '"source"', r'Value::String\{0=' + val + r'\}'), [(r'is\(self\.source,' + x + r'\)', x == v) for x in ('Dns', 'Imported', 'Peer')])
    c.results('save', 'what is stored', TJ, TJP, r"Value::Object\{0=" + O + r"\}")
    keys = {'address', 'services', 'source'} | set(TIMES)
    c.each('save-keys', 'something else is stored', TJ, TJP, call('BTreeMap::(insert|remove|clear|retain)', O), lambda e, f, m: e.short == 'BTreeMap::insert' and str(e.args[1]).strip('"') in keys)
    A_ = r'str::parse\(get\(v\.Object,"address"\)\.Some\.String\)\.Ok'
    SV_ = r'get\(v\.Object,"services"\)\.Some\.Number\.U64'
    ad = r'Address::new\(' + A_ + r',(?:' + SV_ + r'|ServiceFlags::from\(' + SV_ + r'\)|ServiceFlags\{0=' + SV_ + r'\})\)'
    c.results('restore-addr', 'the address or its services are not restored', KA + 'from_json', ['v'], lambda rv: str(rv).startswith('Result::Err') or re.fullmatch(ad, str(sub(rv, 'Ok.0', 'addr'))) is not None, others(None))
    src = r'get\(v\.Object,"source"\)\.Some\.String'
    dns, impd = [(r'eq\((?:"dns",' + src + r'|' + src + r',"dns")\)', True)], [(r'eq\((?:"imported",' + src + r'|' + src + r',"imported")\)', True)]
    for nm, asm, val in (('dns', dns, r'Source::Dns'), ('imported', neg(dns) + impd, 'Source::Imported'), ('peer', neg(dns) + neg(impd), r'Source::Peer\{0=str::parse\(' + src + r'\)\.Ok\}')):
        c.results('restore-source-' + nm, 'where an address came from is not restored', KA + 'from_json', ['v'], lambda rv, val=val: str(rv).startswith('Result::Err') or re.fullmatch(val, str(sub(rv, 'Ok.0', 'source'))) is not None, asm + others(None))
    whole = others(None) + [(r'is\(get\(v\.Object,"address"\),Some\)', True), (r'is\(get\(v\.Object,"address"\)\.Some,String\)', True), (r'is\(str::parse\(.*\),Ok\)', True), (r'is\(get\(v\.Object,"services"\),Some\)', True), (r'is\(get\(v\.Object,"services"\)\.Some,Number\)', True),
                            (r'is\(get\(v\.Object,"services"\)\.Some\.Number,U64\)', True), (r'is\(get\(v\.Object,"source"\),Some\)', True), (r'is\(get\(v\.Object,"source"\)\.Some,String\)', True), (r'is\(v,Object\)', True)]
    c.never('restore-ok', 'a stored address is refused', KA + 'from_json', ['v'], ret('Result::Err.*'), whole)
    for f in TIMES:
        g = r'get\(v\.Object,"%s"\)' % f
        c.never('restore-ok-' + f, 'a stored address is refused', KA + 'from_json', ['v'], ret('Result::Err.*'), [a for a in whole if f not in a[0]] + [(r'is\(' + g + r',Some\)', True), (r'is\(' + g + r'\.Some,Number\)', True), (r'is\(' + g + r'\.Some\.Number,U64\)', True), (r'is\(' + g + r'\.Some,Null\)', False)])
        c.never('restore-ok-no-' + f, 'a stored address is refused', KA + 'from_json', ['v'], ret('Result::Err.*'), [a for a in whole if f not in a[0]] + [(r'is\(' + g + r',Some\)', True), (r'is\(' + g + r'\.Some,Number\)', False), (r'is\(' + g + r'\.Some,Null\)', True)])
    # the store itself
    IP = r'self\.addrs'
    for nm, fn, ps, rx in (('get', 'get', ['ip'], r'get\(self\.addrs,ip\)'), ('get_mut', 'get_mut', ['ip'], r'get\(self\.addrs,ip\)'), ('len', 'len', [], r'len\(self\.addrs\)')):
        c.results('store-' + nm, 'the address asked for', CA + fn, ['self'] + ps, rx)
    c.always('store-remove', 'an address is removed', CA + 'remove', ['self', 'ip'], call('HashMap::remove', IP, 'ip'))
    c.results('store-removed', 'the removed address is returned', CA + 'remove', ['self', 'ip'], r'get\(self\.addrs,ip\)|HashMap::remove\(self\.addrs,ip\)')
    knw = [(r'is\(get\(self\.addrs,ip\),Some\)', True)]
    anyput = anyof(call('HashMap::insert', r"self\.addrs'*"), call(r'(VacantEntry|OccupiedEntry|Entry)::(insert|or_insert).*'), write(r'get\(self\.addrs,ip\)\.Some.*'))
    c.always('store-insert', 'a new address is added', CA + 'insert', ['self', 'ip', 'ka'], anyof(call('HashMap::insert', r"self\.addrs'*", 'ip', 'ka'), call(r'VacantEntry::insert.*', r'.*', 'ka')), neg(knw))
    c.never('store-keep', 'a known address is overwritten', CA + 'insert', ['self', 'ip', 'ka'], anyput, knw)
    c.results('store-inserted', 'a new address is reported as added', CA + 'insert', ['self', 'ip', 'ka'], 'true', neg(knw))
    c.results('store-known', 'a known address is not reported as added', CA + 'insert', ['self', 'ip', 'ka'], 'false', knw)
    c.always('store-clear', 'all addresses are removed', CA + 'clear', ['self'], call('HashMap::clear', IP))
    # seeds
    SD, SDP = 'nakamoto_common::p2p::peer::Store::seed', ['self', 'seeds', 'source']
    se = r'elem\(seeds\)'
    res = r'ToSocketAddrs::to_socket_addrs\(' + se + r'\)'
    ok1 = [(r'is\(' + res + r',Ok\)', True)]
    ra = r'elem\(' + res + r'\.Ok\)'
    c.foreach('seeds', 'every seed is resolved', SD, SDP, se, [call('ToSocketAddrs::to_socket_addrs', se)])
    put = call('Store::insert', r"self'*", r'SocketAddr::ip\(' + ra + r'\)', r'KnownAddress\{addr=Address::new\(' + ra + r',ServiceFlags\{0=0\}\),source=source,last_success=Option::None,last_sampled=Option::None,last_attempt=Option::None,last_active=Option::None\}')
    c.foreach('seeds-addr', 'every address of a seed is added', SD, SDP, ra, [put], ok1, must=False)
    c.each('seeds-only', 'other addresses are added', SD, SDP, call('Store::insert'), lambda e, f, m: put(e))


def others(f):
    """All times but one are absent."""
    return [(r'is\(get\(v\.Object,"%s"\),Some\)' % t, False) for t in TIMES if t != f]
