"""Network reactor, timers, byte streams and event delivery (net/, net/poll/, p2p/src/stream.rs, client/src/service.rs)."""
import re
from ck import *
RE = 'nakamoto_net_poll::reactor::Reactor::'
PR, PRP = RE + 'process', ['self', 'service', 'publisher', 'local_time']
HW, HWP = RE + 'handle_writable', ['self', 'addr', 'source', 'service']
HR, HRP = RE + 'handle_readable', ['self', 'addr', 'service']
DI, DIP = 'nakamoto_net_poll::reactor::dial', ['addr']
RUN, RUNP = '<nakamoto_net_poll::reactor::Reactor as nakamoto_net::Reactor<Id>>::run', ['self', 'listen_addrs', 'service', 'publisher', 'commands']
FL = 'nakamoto_net_poll::socket::Socket::flush'
TM = 'nakamoto_net_poll::time::TimeoutManager::'
SV = '<nakamoto_client::service::Service as nakamoto_net::StateMachine<core::net::socket_addr::SocketAddr>>::'
SN = '<nakamoto_client::service::Service as core::iter::traits::iterator::Iterator>::next'
SC = '<nakamoto_client::service::Service as nakamoto_net::Service<core::net::socket_addr::SocketAddr>>::command_received'
PEERS, CONN, SRC, BUF, RAW = [r"self'*\." + f + "'*" for f in ('peers', 'connecting', 'sources')] + [r"\.buffer'*", r"\.raw'*"]
S, SX = r"service'*", r"(?:prev\()*(?:service'*|phi\([^()]*\)|_'*)\)*'*"
IT = r"elem\(service'*\)"


def of(v):
    return [(r"is\(elem\(service'*\)," + v + r"\)", True)]


SOCK = r"get\(" + PEERS + r",addr\)\.Some"
known = [(r"is\(get\(" + PEERS + r",addr\),Some\)", True)]
OPD = dict(opaque=['reactor::dial$'])
OPT = dict(opaque=['reactor::dial$', 'TimeoutManager::register$'])
shut = lambda who: call('TcpStream::shutdown', r"(?:prev\()*" + who + RAW + r"\)*'*", r'Shutdown::Both')
gone = lambda a, why: [call('HashSet::remove', CONN, a), call('HashMap::remove', PEERS, a), call('Sources::unregister', SRC, r'Source::Peer\{0=' + a + r'\}'),
                       call('StateMachine::disconnected', SX, a, why)]
left = call('StateMachine::disconnected')
made = call('StateMachine::connected')
drop = anyof(left, call('HashMap::(remove|clear|retain|drain)', PEERS), call('Sources::unregister'), call('TcpStream::shutdown'))
# the run loop
OPR = dict(opaque=['Reactor::process$', 'Reactor::handle_readable$', 'Reactor::handle_writable$', 'reactor::listen$', 'TimeoutManager::(next|wake)$'], cap=4, budget=900000)
wait = call('Sources::(wait_timeout|wait|poll)')
proc = call('Reactor::process')
EV = r"elem\(.*\)"
ACC = r"TcpListener::accept\(reactor::listen\(listen_addrs\)\.Ok\)"
listens = [(r'eq\(len\(listen_addrs\),0\)', False), (r'is\(reactor::listen\(listen_addrs\),Ok\)', True)]
nolisten = [(r'eq\(len\(listen_addrs\),0\)', True)]
woken_ok = [(r'is\(Sources::wait_timeout\(.*\),Ok\)', True)]
DEADLINE = r'LocalTime\{millis=Duration::as_millis\(SystemTime::duration_since\(SystemTime::now\(\),.*'


def kind(k):
    return woken_ok + [(r"is\(elem\(.*\)\.key," + k + r"\)", True)]


def neg(facts):
    return [(a, not v) for a, v in facts]


def N01(c):
    """The connection life cycle reported to the protocol is the one that happened on the sockets."""
    D = r"(?:reactor::dial\(PeerId::to_socket_addr\(" + IT + r"\.Connect\)\))"
    X = IT + r"\.Connect"
    dialed, failed = [(r'is\(' + D + r',Ok\)', True)], [(r'is\(' + D + r',Ok\)', False)]
    exists = [(r'is\(Error::kind\(' + D + r'\.Err\),AlreadyExists\)', True)]
    c.foreach('dial', 'a connection is attempted to the address asked for', PR, PRP, IT, [call('reactor::dial', r'PeerId::to_socket_addr\(' + X + r'\)')], of('Connect'), **OPD)
    c.foreach('dialed', 'an attempt under way is registered and reported', PR, PRP, IT, [
        call('Sources::register', SRC, r'Source::Peer\{0=' + X + r'\}', D + r'\.Ok', '519|3'),
        call('HashMap::insert', PEERS, X, r'Socket\{.*link=Link::Outbound,buffer=Vec::new\(\),raw=' + D + r'\.Ok\}'),
        call('HashSet::insert', CONN, X), call('StateMachine::attempted', S, X)], of('Connect') + dialed, **OPD)
    c.never('dialed-left', 'an attempt under way is reported as failed or finished', PR, PRP, anyof(left, made), of('Connect') + dialed, **OPD)
    c.foreach('dial-failed', 'a failed attempt is reported', PR, PRP, IT, [call('StateMachine::disconnected', S, X, r'Disconnect::DialError\{0=' + D + r'\.Err\}')], of('Connect') + failed + neg(exists), **OPD)
    reg = anyof(call('Sources::register'), call('HashMap::insert', PEERS), call('HashSet::insert', CONN), call('StateMachine::attempted'), made)
    c.never('dial-failed-kept', 'a failed attempt is registered or reported as under way', PR, PRP, reg, of('Connect') + failed, **OPD)
    c.never('dial-twice', 'an address already being connected to is reported as failed', PR, PRP, anyof(left, drop), of('Connect') + failed + exists, **OPD)
    # dial itself
    sk = r"Socket::new\(.*\)\.Ok"
    cn = r"Socket::connect\(" + sk + r",addr\)"
    os_ = lambda n, v: [(r'eq\(Error::raw_os_error\(' + cn + r'\.Err\),Option::Some\{0=%d\}\)' % n, v), (r'eq\(Error::raw_os_error\(' + cn + r'\.Err\)\.Some,%d\)' % n, v)]
    wb = lambda v: [(r'is\(Error::kind\(' + cn + r'\.Err\),WouldBlock\)', v)]
    cerr = [(r'is\(' + cn + r',Ok\)', False)]
    c.before('dial-nonblocking', 'connecting blocks the reactor', DI, DIP, call('Socket::set_nonblocking', sk, 'true'), call('Socket::connect'))
    c.each('dial-target', 'a connection is made to another address', DI, DIP, call('Socket::connect'), lambda e, f, m: call('Socket::connect', sk, 'addr')(e))
    for nm, dom, v4 in (('4', '2', True), ('6', '10', False)):
        c.each('dial-ipv' + nm, 'sockets are opened for the address family', DI, DIP, call('Socket::new'), lambda e, f, m: call('Socket::new', r'Domain\{0=%s\}|Domain::for_address\(addr\)' % dom, r'Type\{0=1\}')(e),
               [(r'SocketAddr::is_ipv4\(addr\)', v4), (r'SocketAddr::is_ipv6\(addr\)', not v4), (r'is\(addr,V4\)', v4), (r'is\(addr,V6\)', not v4)])
    done = lambda e: e.kind == 'exit' and str(e.args[0]).startswith('Result::Ok')
    c.never('dial-error', 'a connection attempt that failed at once is reported as under way', DI, DIP, done, cerr + os_(115, False) + wb(False))
    c.never('dial-progress', 'an attempt under way is reported as failed', DI, DIP, lambda e: e.kind == 'exit' and re.search(r'Socket::connect|AlreadyExists', str(e.args[0])) is not None and str(e.args[0]).startswith('Result::Err'),
            cerr + os_(115, True) + os_(114, False) + [(r'is\(Error::raw_os_error\(' + cn + r'\.Err\),Some\)', True)])
    c.results('dial-same', 'the socket that was connected is the one returned', DI, DIP, r'Result::Ok\{0=Socket::new\(.*\)\.Ok\}|Result::Err\{.*\}')
    # connections that come about
    was = [(r'is\(get\(' + CONN + r',addr\),Some\)', True), (r'HashSet::(remove|contains)\(' + CONN + r',addr\)', True)]
    te = r"TcpStream::take_error\(" + SOCK + RAW + r"\)"
    fine = [(r'is\(' + te + r',Ok\)', True), (r'is\(' + te + r'\.Ok,Some\)', False)]
    broken = [(r'is\(' + te + r',Ok\)', True), (r'is\(' + te + r'\.Ok,Some\)', True)]
    la = r"TcpStream::local_addr\(" + SOCK + RAW + r"\)"
    c.always('connected', 'an established connection is reported', HW, HWP, call('StateMachine::connected', S, 'addr', la + r'\.Ok', SOCK + r'\.link'), known + was + fine + [(r'is\(' + la + r',Ok\)', True)])
    c.never('connected-twice', 'a connection is reported although none was being made', HW, HWP, made, known + neg(was))
    c.never_after('connected-once', 'a connection is reported twice', HW, HWP, made, made, known)
    c.never('refused', 'a failed connection attempt is reported as a connection', HW, HWP, anyof(made, call('Write::write')), known + was + broken)
    for i, g in enumerate(gone('addr', r'Disconnect::ConnectionError\{0=' + te + r'\.Ok\.Some\}')):
        c.always('refused-left-%d' % i, 'a failed connection attempt is cleaned up and reported', HW, HWP, g, known + was + broken)
    c.never('unknown-state', 'a connection is reported without checking that it was made', HW, HWP, made, known + was + [(r'is\(' + te + r',Ok\)', False)])
    c.before('checked', 'a connection is reported without checking that it was made', HW, HWP, call('TcpStream::take_error', SOCK + RAW), made, known + was)
    c.always('settled', 'an attempt stays pending', HW, HWP, call('HashSet::remove', CONN, 'addr'), known + was)
    # connections that end
    w = r"Write::write\(" + SOCK + RAW + r"," + SOCK + BUF + r"\)"
    fl = r"Write::flush\(" + SOCK + RAW + r"\)"
    ek = lambda t, v: [(r'is\(Error::kind\(' + t + r'\.Err\),(WouldBlock|WriteZero)\)', v)]
    up = known + neg(was)
    nonempty = [(r'eq\(len\(' + SOCK + BUF + r'\),0\)', False)]
    for i, g in enumerate(gone('addr', r'Disconnect::ConnectionError\{0=' + w + r'\.Err\}') + [shut(SOCK)]):
        c.always('write-failed-%d' % i, 'a connection that can no longer be written to is closed and reported', HW, HWP, g, up + nonempty + [(r'is\(' + w + r',Ok\)', False)] + ek(w, False))
    for a, b in (('WouldBlock', 'WriteZero'), ('WriteZero', 'WouldBlock')):
        c.never('write-' + a, 'a connection that is merely busy is closed', HW, HWP, drop, up + nonempty + [(r'is\(' + w + r',Ok\)', False), (r'is\(Error::kind\(' + w + r'\.Err\),%s\)' % a, True), (r'is\(Error::kind\(' + w + r'\.Err\),%s\)' % b, False)])
    c.never('write-fine', 'a working connection is closed', HW, HWP, drop, up + [(r'is\(' + w + r',Ok\)', True), (r'eq\(' + w + r'\.Ok,0\)', False), (r'is\(' + fl + r',Ok\)', True)])
    rd = r"Read::read\(" + SOCK + RAW + r",rep\(0,\d+\)\)"
    rok, zero = [(r'is\(' + rd + r',Ok\)', True)], [(r'eq\(' + rd + r'\.Ok,0\)', True)]
    rwb = [(r'is\(Error::kind\(' + rd + r'\.Err\),WouldBlock\)', True)]
    for i, g in enumerate(gone('addr', r'Disconnect::ConnectionError\{0=.*\}') + [shut(SOCK)]):
        c.always('eof-%d' % i, 'a connection closed by the peer is cleaned up and reported', HR, HRP, g, known + rok + zero)
        c.always('read-failed-%d' % i, 'a connection that can no longer be read is closed and reported', HR, HRP, g, known + neg(rok) + neg(rwb))
    c.never('read-blocked', 'a connection that is merely idle is closed', HR, HRP, drop, known + neg(rok) + rwb)
    c.never('read-fine', 'a working connection is closed', HR, HRP, drop, known + rok + neg(zero))
    c.never('read-unknown', 'something is done for a peer that is gone', HR, HRP, anyof(drop, call('StateMachine::message_received')), neg(known))
    for nm, f, pp in (('readable', HR, HRP), ('writable', HW, HWP)):
        for i, g in enumerate(gone('addr', '.*')[:3]):
            c.along('gone-%s-%d' % (nm, i), 'a peer reported as disconnected stays registered', f, pp, left, g, known)
        c.never_after('left-once-' + nm, 'a disconnection is reported twice', f, pp, left, left, known)
    Y = IT + r"\.Disconnect"
    have = [(r'is\(get\(' + PEERS + r',' + Y + r'\),Some\)', True)]
    c.foreach('disconnect', 'a peer to be disconnected is disconnected and reported with the reason given', PR, PRP, IT,
              gone(Y, Y + r'\.1') + [shut(r"get\(" + PEERS + r"," + Y + r"\)\.Some")], of('Disconnect') + have, **OPD)
    c.never('disconnect-unknown', 'a disconnection is reported for a peer that is not connected', PR, PRP, left, of('Disconnect') + neg(have), **OPD)
    for v in ('Write', 'SetTimer', 'Event'):
        c.never('other-' + v, 'connections come or go without being asked to', PR, PRP, anyof(reg, drop), of(v), **OPT)
    c.never('disconnect-reg', 'connections come without being asked to', PR, PRP, reg, of('Disconnect'), **OPT)
    # incoming connections
    PA = ACC + r"\.Ok\.1"
    ST = ACC + r"\.Ok\.0"
    acc = listens + kind('Listener') + [(r'is\(' + ACC + r',Ok\)', True), (r'is\(TcpStream::local_addr\(' + ST + r'\),Ok\)', True), (r'is\(TcpStream::set_nonblocking\(.*\),Ok\)', True)]
    SELF = r"(?:prev\()*(?:self|phi\([^()]*\)|_)'*\)*'*"
    c.cycle('accepted', 'an incoming connection is registered and reported', RUN, RUNP, call('TcpListener::accept'), [
        call('TcpStream::set_nonblocking', ST, 'true'), call('Sources::register', r'.*', r'Source::Peer\{0=' + PA + r'\}', ST, '519|3'),
        call('HashMap::insert', r'.*', PA, r'Socket\{.*link=Link::Inbound,buffer=Vec::new\(\),raw=' + ST + r'\}'),
        call('StateMachine::connected', r'.*', PA, r'TcpStream::local_addr\(' + ST + r'\)\.Ok', 'Link::Inbound')], acc, **OPR)
    c.each('accepted-only', 'only accepted connections are reported as connected', RUN, RUNP, made, lambda e, f, m: call('StateMachine::connected', r'.*', PA, r'.*', 'Link::Inbound')(e), listens + kind('Listener'), **OPR)
    c.never('accept-failed', 'a failed accept is reported as a connection', RUN, RUNP, anyof(made, call('HashMap::insert', r'.*\.peers.*')), listens + kind('Listener') + [(r'is\(' + ACC + r',Ok\)', False)], **OPR)
    for k in ('Peer', 'Waker'):
        c.never('accept-' + k, 'connections are reported out of nowhere', RUN, RUNP, anyof(made, call('Sources::register', r'.*', r'Source::Peer.*')), nolisten + kind(k), **OPR)
    c.always('listen-nonblocking', 'accepting blocks the reactor', 'nakamoto_net_poll::reactor::listen', ['addr'], call('TcpListener::set_nonblocking', r'TcpListener::bind\(addr\)\.Ok', 'true'), exits=r'Result::Ok.*')
    # the service layer passes it on
    m = r"self'*\.machine'*"
    OPM = dict(opaque=['nakamoto_p2p::fsm::StateMachine'])
    c.always('pass-connected', 'the protocol learns of connections', SV + 'connected', ['self', 'addr', 'local_addr', 'link'], call('StateMachine::connected', m, 'addr', 'local_addr', 'link'), **OPM)
    c.always('pass-disconnected', 'the protocol learns of disconnections', SV + 'disconnected', ['self', 'addr', 'reason'], call('StateMachine::disconnected', m, 'addr', 'reason'), **OPM)
    c.always('pass-attempted', 'the protocol learns of attempts', SV + 'attempted', ['self', 'addr'], call('StateMachine::attempted', m, 'addr'), **OPM)
    nx = r"Iterator::next\(" + m + r"\)"
    for v, rx in (('Connect', r'Option::Some\{0=Io::Connect\{0=' + nx + r'\.Some\.Connect\}\}|' + nx), ('Disconnect', r'Option::Some\{0=Io::Disconnect\{0=' + nx + r'\.Some\.Disconnect,1=' + nx + r'\.Some\.Disconnect\.1\}\}|' + nx)):
        c.results('pass-' + v, 'what the protocol asks for reaches the reactor', SN, ['self'], rx, [(r'is\(' + nx + r',Some\)', True), (r'is\(' + nx + r'\.Some,' + v + r'\)', True)], **OPM)


def N02(c):
    """Bytes are delivered in order, each exactly once, in both directions."""
    W = IT + r"\.Write"
    P = r"get\(" + PEERS + r"," + W + r"\)\.Some"
    sr = r"Sources::get_mut\(" + SRC + r",Source::Peer\{0=" + W + r"\}\)"
    have = [(r'is\(get\(' + PEERS + r',' + W + r'\),Some\)', True), (r'is\(' + sr + r',Some\)', True)]
    append = call(r'Vec::(extend_from_slice|extend|append)|Extend::extend', P + BUF, W + r'\.1')
    c.foreach('queue', 'data for a peer is queued and its socket watched', PR, PRP, IT, [append, call('Source::set', sr + r"\.Some'*", r'516|519')], of('Write') + have, **OPD)
    anybuf = lambda e: e.kind in ('call', 'write') and e.args and re.search(r"\.buffer'*$", str(e.args[0])) is not None and (e.kind == 'write' or re.search(r'(Vec|Extend|\[T\]|VecDeque)::(?!is_empty|len|as_slice|iter|deref)', e.short) is not None)
    c.each('queue-only', 'queued data is changed', PR, PRP, anybuf, lambda e, f, m: append(e), of('Write'), **OPD)
    for v in ('Connect', 'Disconnect', 'SetTimer', 'Event'):
        c.never('queue-' + v, 'queued data is changed', PR, PRP, anybuf, of(v), **OPT)
    item_ = got(IT)
    c.atmost('queue-once', 'data is queued twice', PR, PRP, item_, append, of('Write') + have, **OPD)
    # writing
    B, R = r"self'*\.buffer'*", r"self'*\.raw'*"
    w = r"Write::write\(" + R + r"," + B + r"\)"
    c.each('write-head', 'data is written from the start of the queue', FL, ['self'], call('Write::write'), lambda e, f, m: call('Write::write', R, B)(e))
    ok = [(r'is\(' + w + r',Ok\)', True), (r'eq\(' + w + r'\.Ok,0\)', False)]
    c.cycle('write-drain', 'what was written is removed from the queue before writing on', FL, ['self'], call('Write::write'), [call('Vec::drain', B, r'RangeTo\{end=' + w + r'\.Ok\}|Range\{start=0,end=' + w + r'\.Ok\}')], ok)
    c.each('write-exact', 'data that was not written is removed from the queue', FL, ['self'], anybuf, lambda e, f, m: call('Vec::drain', B, r'RangeTo\{end=' + w + r'\.Ok\}|Range\{start=0,end=' + w + r'\.Ok\}')(e))
    c.never('write-error-drain', 'data that was not written is removed from the queue', FL, ['self'], anybuf, [(r'is\(' + w + r',Ok\)', False)])
    wrote = ('w', call('Write::write'))
    drained = ('d', anybuf)

    def once(mon, nm, e, st):
        if nm == 'w':
            return (mon - {'used'}) | {'w'}
        if nm == 'd':
            return mon | ({'twice'} if 'used' in mon or 'w' not in mon else {'used'})
        return mon
    def go():
        r = c.run(FL, ['self'], (), [wrote, drained], step=once)
        return len(r.hits.get('d', [])), [(c.fn(FL), 'data is removed from the queue more than once per write')] if any('twice' in m for _, m, _, _ in r.exits) else []
    c.custom('write-once', 'data that was not written is removed from the queue', go)

    def empty(mon, t, v):
        return (mon | {'empty'}) if re.fullmatch(r'eq\(len\(' + B + r'\),0\)', str(t)) and v else mon
    def go():
        r = c.run(FL, ['self'], (), [], decide=empty)
        oks = [x for x in r.exits if not str(x[0]).startswith('Result::Err')]
        return len(oks), [(c.fn(FL), 'returns %s with data left' % trunc(str(x[0]), 80)) for x in oks if 'empty' not in x[1]]
    c.custom('write-all', 'success is reported with data left to write', go)
    c.never('write-zero', 'a write that made no progress is reported as success', FL, ['self'], lambda e: e.kind == 'exit' and not str(e.args[0]).startswith('Result::Err'),
            [(r'eq\(len\(' + B + r'\),0\)', False), (r'is\(' + w + r',Ok\)', True), (r'eq\(' + w + r'\.Ok,0\)', True)])
    # interest
    w2 = r"Write::write\(" + SOCK + RAW + r"," + SOCK + BUF + r"\)"
    un = call('Source::unset', r'.*', r'516|519')
    nonempty = [(r'eq\(len\(' + SOCK + BUF + r'\),0\)', False)]
    c.never('interest-failed', 'a socket is no longer watched although data is left to write', HW, HWP, un, known + nonempty + [(r'is\(' + w2 + r',Ok\)', False)])
    c.never('interest-partial', 'a socket is no longer watched although data is left to write', HW, HWP, un, known + nonempty + [(r'is\(' + w2 + r',Ok\)', True), (r'eq\(' + w2 + r'\.Ok,0\)', True)])
    c.before('flush', 'data is not written although the socket is ready', HW, HWP, anyof(call('Write::flush', SOCK + RAW), call('Write::write', SOCK + RAW)), un, known)
    c.possible('flush-writes', 'queued data is written when the socket is ready', HW, HWP, call('Write::write', SOCK + RAW, SOCK + BUF), known)
    c.never('buffer-read', 'reading changes the queue of data to write', HR, HRP, anybuf)
    # reading
    rd = r"Read::read\(" + SOCK + RAW + r",rep\(0,\d+\)\)"
    rok, zero = [(r'is\(' + rd + r',Ok\)', True)], [(r'eq\(' + rd + r'\.Ok,0\)', True)]
    exact = call('StateMachine::message_received', S, 'addr', r"Cow::(Borrowed|Owned)\{0=(?:collect\()?slice\(rep\(0,\d+\)'*,(RangeTo\{|Range\{start=0,)end=" + rd + r"\.Ok\}\)\)?\}")
    c.always('read', 'exactly the bytes that were read are delivered', HR, HRP, exact, known + rok + neg(zero))
    got_ = call('StateMachine::message_received')
    c.each('read-only', 'exactly the bytes that were read are delivered', HR, HRP, got_, lambda e, f, m: exact(e))
    c.never_after('read-once', 'bytes are delivered twice', HR, HRP, got_, got_)
    c.never('read-none', 'bytes are delivered that were not read', HR, HRP, got_, known + neg(rok))
    c.never_after('read-again', 'bytes are read over bytes that were not delivered', HR, HRP, call('Read::read'), call('Read::read'))
    # decoding
    D = 'nakamoto_p2p::stream::Decoder::'
    U = r"self'*\.unparsed'*"
    app = call(r'Vec::(extend_from_slice|extend|append)|Extend::extend', U, 'bytes')
    anyu = lambda e: e.kind in ('call', 'write') and e.args and re.search(r"\.unparsed'*$", str(e.args[0])) is not None and (e.kind == 'write' or re.search(r'(Vec|Extend|\[T\]|VecDeque)::(?!is_empty|len|as_slice|iter|deref)', e.short) is not None)
    c.always('input', 'received bytes are appended to those not yet decoded', D + 'input', ['self', 'bytes'], app)
    c.each('input-only', 'received bytes are appended to those not yet decoded', D + 'input', ['self', 'bytes'], anyu, lambda e, f, m: app(e))
    c.never_after('input-once', 'received bytes are taken twice', D + 'input', ['self', 'bytes'], app, app)
    dp = r"encode::deserialize_partial\(" + U + r"\)"
    cut = anyof(call('Vec::drain', U, r'RangeTo\{end=' + dp + r'\.Ok\.1\}|Range\{start=0,end=' + dp + r'\.Ok\.1\}'),
                write(U, r'(slice\(' + U + r',RangeFrom\{start=' + dp + r'\.Ok\.1\}\)|(?:Vec::)?split_off\(' + U + r',' + dp + r'\.Ok\.1\).*)'))
    off = call('Vec::split_off', U, dp + r'\.Ok\.1')
    okd = [(r'is\(' + dp + r',Ok\)', True)]
    eof = [(r'is\(' + dp + r'\.Err,Io\)', True), (r'is\(Error::kind\(' + dp + r'\.Err\.Io\),UnexpectedEof\)', True)]
    c.always('decode', 'a decoded message is removed from the input', D + 'decode_next', ['self'], cut, okd)
    c.results('decoded', 'the decoded message is returned', D + 'decode_next', ['self'], r'Result::Ok\{0=Option::Some\{0=' + dp + r'\.Ok\.0\}\}', okd)
    c.each('decode-exact', 'exactly the decoded bytes are removed', D + 'decode_next', ['self'], anyu, lambda e, f, m: cut(e) or off(e))
    c.never_after('decode-once', 'more than the decoded bytes are removed', D + 'decode_next', ['self'], cut, cut)
    c.never('decode-partial', 'an incomplete message is dropped', D + 'decode_next', ['self'], anyu, neg(okd))
    c.results('partial', 'an incomplete message is not an error', D + 'decode_next', ['self'], r'Result::Ok\{0=Option::None\}', neg(okd) + eof)
    c.results('invalid', 'an invalid message is an error', D + 'decode_next', ['self'], r'Result::Err\{0=' + dp + r'\.Err\}', neg(okd) + [(r'is\(Error::kind\(' + dp + r'\.Err\.Io\),UnexpectedEof\)', False)])
    # the service layer
    m = r"self'*\.machine'*"
    OPM = dict(opaque=['nakamoto_p2p::fsm::StateMachine', 'fsm::StateMachine::(message_received|disconnect)$', 'Decoder::decode_next$'])
    box = r"get\(self'*\.inboxes'*,addr\)\.Some"
    MR, MRP = SV + 'message_received', ['self', 'addr', 'bytes']
    has = [(r"is\(get\(self'*\.inboxes'*,addr\),Some\)", True)]
    nx = r"(?:prev\()*Decoder::decode_next\(" + box + r"'*\)\)*"
    c.always('inbox', 'received bytes reach the decoder of their peer', MR, MRP, call(r'Vec::(extend_from_slice|extend|append)|Extend::extend', box + r"\.unparsed'*", 'bytes'), has, **OPM)
    c.never('inbox-kept', 'data received is dropped before it is decoded', MR, MRP, anyof(write(box), write(box + r"\.unparsed'*"), call('HashMap::(insert|remove|clear|retain)', r"self'*\.inboxes'*")), **OPM)
    c.cycle('message', 'every decoded message is handed to the protocol', MR, MRP, call('Decoder::decode_next'),
            [call('StateMachine::message_received', m, 'addr', r"Cow::Owned\{0=(?:prev\()*" + nx + r"\.Ok\.Some\)*\}")], has + [(r'is\(' + nx + r',Ok\)', True), (r'is\(' + nx + r'\.Ok,Some\)', True)], **OPM)
    c.each('message-only', 'only decoded messages of the peer are handed to the protocol', MR, MRP, call('StateMachine::message_received', m), lambda e, f, mon: call('StateMachine::message_received', m, 'addr', r"Cow::Owned\{0=(?:prev\()*" + nx + r"\.Ok\.Some\)*\}")(e), **OPM)

    c.atmost('message-once', 'a message is handed to the protocol twice', MR, MRP, call('Decoder::decode_next'), call('StateMachine::message_received', m), has, **OPM)

    def done(mon, t, v):
        s = str(t)
        if re.fullmatch(r'is\(' + nx + r',Ok\)', s):
            return (mon - {'end'}) | (frozenset() if v else {'end'})
        if re.fullmatch(r'is\(' + nx + r'\.Ok,Some\)', s):
            return (mon - {'end'}) | (frozenset() if v else {'end'})
        return mon
    def go():
        r = c.run(MR, MRP, has, [], decide=done, **OPM)
        return len(r.exits), [(c.fn(MR), 'returns without having decoded all messages received')] if any('end' not in x[1] for x in r.exits) else []
    c.custom('message-all', 'all complete messages are handed over', go)
    c.always('message-invalid', 'a peer that sends an invalid message is disconnected', MR, MRP, call('StateMachine::disconnect', m, 'addr', r'DisconnectReason::DecodeError\{0=' + nx + r'\.Err\}'), has + [(r'is\(' + nx + r',Ok\)', False)], **OPM)
    c.never('message-valid', 'a peer is disconnected although its messages are valid', MR, MRP, call('StateMachine::disconnect'), [(r'is\(' + nx + r',Ok\)', True)], **OPM)
    c.never_after('message-after', 'messages are decoded after an invalid one', MR, MRP, call('StateMachine::disconnect', m), call('StateMachine::message_received', m), **OPM)
    c.always('inbox-new', 'a new connection starts with an empty inbox', SV + 'connected', ['self', 'addr', 'local_addr', 'link'], call('HashMap::insert', r"self'*\.inboxes'*", 'addr', r'Decoder\{unparsed=Vec::new\(\)\}'), **OPM)
    c.always('inbox-gone', 'the inbox of a connection that ended is dropped', SV + 'disconnected', ['self', 'addr', 'reason'], call('HashMap::remove', r"self'*\.inboxes'*", 'addr'), **OPM)
    n2 = r"Iterator::next\(" + m + r"\)"
    isw = [(r'is\(' + n2 + r',Some\)', True), (r'is\(' + n2 + r'\.Some,Write\)', True)]
    c.always('encode', 'messages are encoded into the data to write', SN, ['self'], call('Encodable::consensus_encode|encode::serialize', n2 + r'\.Some\.Write\.1'), isw, **OPM)
    c.results('encoded', 'the encoded message goes to the peer it is for', SN, ['self'], r"Option::Some\{0=Io::Write\{0=" + n2 + r"\.Some\.Write,1=(Vec::new\(\)'|encode::serialize\(.*\))\}\}", isw, **OPM)


def N03(c):
    """Commands, timers, readiness and outputs are all served, whatever else goes on."""
    for nm, asm in (('', nolisten), ('-listening', listens + [(r'is\(TcpListener::local_addr\(.*\),Ok\)', True)])):
        first = call('StateMachine::initialize', 'service', DEADLINE)
        c.before('initialize' + nm, 'the protocol is used before it is initialized', RUN, RUNP, first, anyof(wait, proc, call('StateMachine::(tick|timer_expired|connected)'), call('Service::command_received')), asm + neg(woken_ok), **OPR)
        c.cycle('outputs' + nm, 'outputs are not processed before going to sleep', RUN, RUNP, wait, [proc], asm + neg(woken_ok), first=True, **OPR)
    c.before('listen', 'sleeping without listening for connections', RUN, RUNP, call('Sources::register', r'.*', 'Source::Listener', r'reactor::listen\(listen_addrs\)\.Ok', '3|519'), wait, listens, **OPR)
    c.before('listen-report', 'the address listened on is not reported', RUN, RUNP, call('Sender::(send|try_send)', r".*\.listening'*", r'TcpListener::local_addr\(reactor::listen\(listen_addrs\)\.Ok\)\.Ok'), wait, listens, **OPR)
    c.results('listen-failed', 'listening failed but the reactor runs', RUN, RUNP, r'Result::Err\{0=reactor::listen\(listen_addrs\)\.Err\}', [(r'eq\(len\(listen_addrs\),0\)', False), (r'is\(reactor::listen\(listen_addrs\),Ok\)', False)], **OPR)
    NX = r'TimeoutManager::next\(.*\)'
    c.each('sleep', 'sleeping past the next timer', RUN, RUNP, wait, lambda e, f, m: re.fullmatch(r'Duration::from_millis\((' + NX + r'\.Some(\.0)?)\)|Duration\{.*|(From::from|Into::into)\(' + NX + r'\.Some\)', str(e.args[2])) is not None,
           nolisten + neg(woken_ok) + [(r'is\(' + NX + r',Some\)', True)], **OPR)
    c.each('sleep-long', 'sleeping for ever', RUN, RUNP, wait, lambda e, f, m: re.fullmatch(r'Duration::from_millis\(\d+\)', str(e.args[2])) is not None and int(re.findall(r'\d+', str(e.args[2]))[0]) <= 3600000,
           nolisten + neg(woken_ok) + [(r'is\(' + NX + r',Some\)', False)], **OPR)
    c.each('next-now', 'the next timer is looked up with the current time', RUN, RUNP, call('TimeoutManager::next'), lambda e, f, m: call('TimeoutManager::next', r".*\.timeouts'*", r'SystemTime::now\(\)|LocalTime::now\(\)|' + DEADLINE)(e), nolisten + neg(woken_ok), **OPR)
    ttick = call('StateMachine::tick', r'.*', DEADLINE)
    wake = call('TimeoutManager::wake', r".*\.timeouts'*", DEADLINE)
    expired = call('StateMachine::timer_expired')
    TW = r"(?:prev\()*(?:Vec::new\(\)|phi\([^()]*\)|_)'*\)*'*"
    due = [(r'eq\(len\(' + TW + r'\),0\)', False), (r'lt\(0,len\(' + TW + r'\)\)', True), (r'eq\((?:prev\()*TimeoutManager::wake\(.*\),0\)', False)]
    inter = neg(woken_ok) + [(r'is\(Error::kind\(.*\),(Interrupted)\)', True)]
    timed = neg(woken_ok) + [(r'is\(Error::kind\(.*\),(TimedOut)\)', True)]
    ways = [('timeout', nolisten + timed), ('interrupted', nolisten + inter), ('peer', nolisten + kind('Peer')), ('waker', nolisten + kind('Waker')), ('listener', listens + kind('Listener'))]
    for nm, asm in ways:
        c.cycle('tick-' + nm, 'the clock, timers or outputs are not served after waking up', RUN, RUNP, wait, [ttick, wake, proc], asm, **OPR)
        c.cycle('timers-' + nm, 'due timers are not reported', RUN, RUNP, wait, [expired], asm + due, **OPR)
        c.never('timers-none-' + nm, 'timers are reported that are not due', RUN, RUNP, expired, asm + neg(due), **OPR)
    clear = anyof(call('Vec::(clear|drain|truncate)', TW), call('mem::take', TW))
    c.cycle('timers-clear', 'timers are reported again and again', RUN, RUNP, expired, [clear], nolisten + timed, **OPR)

    def fresh(mon, nm, e, st):
        if nm == 'wait':
            return mon | {'stale'}
        if nm == 'now':
            return mon - {'stale'}
        if nm == 'use' and 'stale' in mon:
            old.append(e)
        return mon
    old = []
    def go():
        r = c.run(RUN, RUNP, nolisten + kind('Peer'), [('wait', wait), ('now', call('SystemTime::now|LocalTime::now')), ('use', anyof(call('StateMachine::tick'), call('TimeoutManager::wake'), proc))], step=fresh, reset=old.clear, **OPR)
        return len(r.hits.get('use', [])), [(e.where(), 'uses a time from before sleeping') for e in old[:3]]
    c.custom('time', 'the current time is used after waking up', go)
    c.never('timeout', 'running out of time to sleep is an error', RUN, RUNP, lambda e: e.kind == 'exit', nolisten + timed, **OPR)
    c.never('interrupted', 'being interrupted is an error', RUN, RUNP, lambda e: e.kind == 'exit', nolisten + inter, **OPR)
    c.never_after('failed', 'polling failed but the reactor goes on', RUN, RUNP, wait, wait, nolisten + neg(woken_ok) + [(r'is\(Error::kind\(.*\),(Interrupted|TimedOut)\)', False)], **OPR)
    c.never('accept-error', 'a failing accept ends the node', RUN, RUNP, lambda e: e.kind == 'exit', listens + kind('Listener') + [(r'is\(TcpListener::local_addr\(.*\),Ok\)', True), (r'is\(' + ACC + r',Ok\)', False)], **OPR)
    c.possible('failed-error', 'an error of polling is returned', RUN, RUNP, lambda e: e.kind == 'exit' and re.match(r'Result::Err\{0=.*(wait_timeout|phi).*\.Err\}', str(e.args[0])) is not None, nolisten + neg(woken_ok), **OPR)
    # readiness
    peer = nolisten + kind('Peer') + [(r'Source::is_invalid\(.*\)', False)]
    ready = lambda k, v: [(r'Source::is_%s\(.*\)' % k, v)]
    K = r"elem\(.*\)\.key\.Peer"
    c.foreach('writable', 'a socket ready for writing is served', RUN, RUNP, EV, [call('Reactor::handle_writable', r'.*', K, r'elem\(.*\)\.key')], peer + ready('writable', True) + [(r'is\(Reactor::handle_writable\(.*\),Ok\)', True)], **OPR)
    c.foreach('readable', 'a socket ready for reading is served', RUN, RUNP, EV, [call('Reactor::handle_readable', r'.*', K)], peer + ready('readable', True) + [(r'is\(Reactor::handle_writable\(.*\),Ok\)', True)], **OPR)
    c.never('not-writable', 'a socket that is not ready is written', RUN, RUNP, call('Reactor::handle_writable'), peer + ready('writable', False), **OPR)
    c.never('not-readable', 'a socket that is not ready is read', RUN, RUNP, call('Reactor::handle_readable'), peer + ready('readable', False), **OPR)
    c.cycle('drained', 'readiness reports are used again', RUN, RUNP, wait, [anyof(call('Vec::(drain|clear)', r'.*'), call('mem::take'))], peer, **OPR)
    # commands
    wk = nolisten + kind('Waker')
    shut_ = r'is\(Receiver::try_recv\(.*\.shutdown\'*\),Ok\)'
    run_ = wk + [(shut_, False)]
    reset = call('Waker::reset')
    drain = anyof(call('Receiver::(try_iter|try_recv|recv|recv_timeout|iter)', r'commands'))
    c.before('wake-reset', 'commands sent while others are handled are not noticed: the waker is reset too late', RUN, RUNP, reset, drain, run_, **OPR)
    c.foreach('wake-served', 'being woken up leads to commands being handled', RUN, RUNP, r'elem\((?!Receiver).*\)', [reset, drain], run_, **OPR)
    def iters():
        c.foreach('commands', 'every command is handed to the protocol', RUN, RUNP, r'elem\(Receiver::try_iter\(commands\)\)', [call('Service::command_received', r'.*', r'elem\(Receiver::try_iter\(commands\)\)')], run_, **OPR)
    def recvs():
        t = r"(?:prev\()*Receiver::try_recv\(commands\)\)*"
        c.cycle('commands', 'every command is handed to the protocol', RUN, RUNP, call('Receiver::try_recv', 'commands'), [call('Service::command_received', r'.*', t + r'\.Ok\)*')], run_ + [(r'is\(' + t + r',Ok\)', True)], **OPR)
        c.never_after('commands-all', 'commands are left unhandled', RUN, RUNP, call('Receiver::try_recv', 'commands'), wait, run_ + [(r'is\(' + t + r',Ok\)', True)], **OPR)
    c.either(iters, recvs)
    c.each('commands-only', 'only commands are handed to the protocol', RUN, RUNP, call('Service::command_received'), lambda e, f, m: call('Service::command_received', r'.*', r'.*Receiver::\w+\(commands\).*')(e), run_, **OPR)
    c.never('shutdown-only', 'the reactor stops without being asked to', RUN, RUNP, lambda e: e.kind == 'exit' and str(e.args[0]).startswith('Result::Ok'), nolisten + [(shut_, False)], **OPR)
    c.never_after('shutdown', 'the reactor goes on after being asked to stop', RUN, RUNP, call('Receiver::try_recv', r".*\.shutdown'*"), anyof(wait, call('Service::command_received')), wk + [(shut_, True)], **OPR)
    c.foreach('shutdown-look', 'being woken up leads to the reactor stopping when asked to', RUN, RUNP, r'elem\((?!Receiver).*\)', [call('Receiver::(try_recv|is_empty|len)', r".*\.shutdown'*")], wk + [(shut_, False)], **OPR)
    # outputs
    c.foreach('timer', 'a timer that was asked for is set', PR, PRP, IT, [call('TimeoutManager::register', r"self'*\.timeouts'*", r'\(\)', r"add2?\((local_time," + IT + r"\.SetTimer|" + IT + r"\.SetTimer,local_time)\)")], of('SetTimer'), **OPT)
    c.foreach('event', 'an event is published', PR, PRP, IT, [call('Publisher::publish', r"publisher'*", IT + r'\.Event')], of('Event'), **OPT)
    c.atmost('event-once', 'an event is published twice', PR, PRP, got(IT), call('Publisher::publish'), of('Event'), **OPT)
    for v in ('Write', 'Connect', 'Disconnect', 'SetTimer'):
        c.never('event-' + v, 'events are made up', PR, PRP, call('Publisher::publish'), of(v), **OPT)
    # the service layer
    m = r"self'*\.machine'*"
    OPM = dict(opaque=['nakamoto_p2p::fsm::StateMachine'])
    for f, a in (('tick', ['t']), ('timer_expired', []), ('initialize', ['t'])):
        c.always('pass-' + f, 'the protocol is told', SV + f, ['self'] + a, call('StateMachine::' + f, m, *a), **OPM)
    c.always('pass-command', 'the protocol is told', SC, ['self', 'cmd'], call('StateMachine::command', m, 'cmd'), **OPM)
    nx = r"Iterator::next\(" + m + r"\)"
    for v in ('SetTimer', 'Event'):
        c.results('pass-' + v, 'what the protocol asks for reaches the reactor', SN, ['self'], r'Option::Some\{0=Io::%s\{0=' % v + nx + r'\.Some\.%s\}\}|' % v + nx, [(r'is\(' + nx + r',Some\)', True), (r'is\(' + nx + r'\.Some,' + v + r'\)', True)], **OPM)
    c.never('pass-all', 'outputs are dropped', SN, ['self'], ret(r'Option::None'), [(r'is\(' + nx + r',Some\)', True)], **OPM)


def N04(c):
    """Timers fire when they are due, all of them and not before."""
    c.foreach('asked', 'a timer that was asked for is set', PR, PRP, IT, [call('TimeoutManager::register', r"self'*\.timeouts'*", r'\(\)', r"add2?\((local_time," + IT + r"\.SetTimer|" + IT + r"\.SetTimer,local_time)\)")], of('SetTimer'), **OPT)
    RG, RGP = TM + 'register', ['self', 'key', 'time']
    T_ = r"self'*\.timeouts'*"
    E = r"elem\(" + T_ + r"\)\.1"
    near = [(r"lt\(LocalDuration\{0=sub\((" + E + r"\.millis,time\.millis|time\.millis," + E + r"\.millis)\)\},self\.threshold\)", True)]
    put = call('Vec::push', T_, r'\(key,time\)')
    c.always('register', 'a timer that is not near another one is set', RG, RGP, put, neg(near))
    c.results('registered', 'setting a timer is reported', RG, RGP, 'true', neg(near))
    anyt = lambda e: e.kind in ('call', 'write') and e.args and re.search(r"\.timeouts'*\)*$", str(e.args[0])) is not None and (e.kind == 'write' or re.search(r'(Vec|Extend|\[T\])::(?!is_empty|len|as_slice|iter|deref|last|first|sort)', e.short) is not None)
    c.each('register-only', 'other timers are changed', RG, RGP, anyt, lambda e, f, m: put(e))

    def order():
        r = c.run(RG, RGP, neg(near))
        bad = []
        for rv, mon, facts, store in r.exits:
            v = [str(t) for k, t in store.items() if re.fullmatch(r'self\.timeouts', str(k))]
            if not any(re.fullmatch(r"reversed\(sorted\(" + T_ + r"\)\)", t) for t in v):
                bad.append((c.fn(RG), 'timers are left as %s, not latest first' % (v or 'they were')))
        return len(r.exits), bad
    c.custom('order', 'timers are kept latest first', order)
    # the next one
    NX, NXP = TM + 'next', ['self', 'now']
    L = r"last\(" + T_ + r"\)"
    have = [(r'is\(' + L + r',Some\)', True), (r'eq\(len\(' + T_ + r'\),0\)', False)]
    past = [(r'lt\(' + L + r'\.Some\.1,now\)', True)]
    zero = r'LocalDuration\{0=0\}'
    c.results('next', 'the time to the earliest timer is returned', NX, NXP, r'Option::Some\{0=sub\(' + L + r'\.Some\.1,now\)\}', have + neg(past))
    c.results('next-past', 'a timer that is due is not waited for', NX, NXP, r'Option::Some\{0=' + zero + r'\}', have + past)
    c.results('next-none', 'there is nothing to wait for without timers', NX, NXP, r'Option::None', neg(have))
    # waking
    WK, WKP = TM + 'wake', ['self', 'now', 'woken']
    Q = r"(?:pop|last)\(" + T_ + r"\)"
    due = r"lt\(now," + Q + r"\.Some\.1\)"
    c.each('wake-due', 'a timer fires before it is due', WK, WKP, call('Vec::push', r"woken'*"), lambda e, f, m: any(re.fullmatch(due, str(t)) and v is False for t, v in f.items()))
    back = call('Vec::push', T_, r'\((pop\(' + T_ + r'\)\.Some\.0),(pop\(' + T_ + r'\)\.Some\.1)\)|pop\(' + T_ + r'\)\.Some')
    c.each('wake-back', 'a timer that is due does not fire', WK, WKP, call('Vec::push', T_), lambda e, f, m: back(e) and any(re.fullmatch(due, str(t)) and v is True for t, v in f.items()), least=0)
    fire = call('Vec::push', r"woken'*", r'(pop|last)\(' + T_ + r'\)\.Some(\.0)?')
    lost = []

    def step(mon, nm, e, st):
        if nm == 'pop':
            if 'pend' in mon:
                lost.append(e)
            return (mon | {'pend'}) - {'end'}
        return mon - {'pend'}

    def dec(mon, t, v):
        s = str(t)
        if re.fullmatch(r'is\(pop\(' + T_ + r'\),Some\)', s) and not v:
            return (mon - {'pend'}) | {'end'}
        if re.fullmatch(r'is\(last\(' + T_ + r'\),Some\)', s) and not v:
            return mon | {'end'}
        if re.fullmatch(due, s):
            return mon | {'end'} if v else mon - {'end'}
        return mon

    def go():
        r = c.run(WK, WKP, (), [('pop', call('Vec::pop', T_)), ('fire', fire), ('back', back)], step=step, decide=dec, reset=lost.clear)
        bad = [(e.where(), 'a timer that was taken off the list neither fires nor is put back') for e in lost[:1]]
        for rv, mon, facts, store in r.exits:
            if 'pend' in mon:
                bad.append((c.fn(WK), 'returns with a timer that was taken off the list neither fired nor put back'))
            if 'end' not in mon:
                bad.append((c.fn(WK), 'returns although more timers may be due'))
        return len(r.exits), bad[:3]
    c.custom('wake-all', 'all timers that are due fire, and the others stay', go)
    c.each('wake-only', 'timers are dropped', WK, WKP, anyt, lambda e, f, m: anyof(call('Vec::pop', T_), call('Vec::push', T_))(e))
    c.each('wake-key', 'the timers that fire are the ones that were due', WK, WKP, call('Vec::push', r"woken'*"), lambda e, f, m: fire(e))
    c.never('threshold', 'nearby timers are only merged within a second', 'nakamoto_net_poll::reactor::Reactor as nakamoto_net::Reactor<Id>>::new', ['shutdown', 'listening'],
            call('TimeoutManager::new', lambda t: not re.fullmatch(r'LocalDuration\{0=(\d{1,3}|1000)\}', str(t))))


def restart(mon, nm, e):
    """The time from which waiting is measured is not taken again while waiting."""
    if nm == 'recv':
        return mon | {'recv'}
    if nm == 'now' and 'recv' in mon:
        return mon | {'renew'}
    if nm == 'E' and 'renew' in mon and e.short == 'Instant::elapsed':
        return mon | {'again'}
    return mon


def N05(c):
    """Every subscriber gets every event, in order."""
    EM, EMP = 'nakamoto_net::event::Emitter::emit', ['self', 'event']
    SUBS = r"self\.subscribers'*"
    E = r"elem\(" + SUBS + r"\)"
    send = call('Sender::(try_send|send)', E, 'event')
    c.foreach('emit', 'an event is sent to every subscriber', EM, EMP, E, [send])
    c.atmost('emit-once', 'an event is sent twice', EM, EMP, got(E), send)
    c.each('emit-only', 'only that event is sent', EM, EMP, call('Sender::(try_send|send)'), lambda e, f, m: send(e))
    sent = lambda f: [v for t, v in f.items() if re.fullmatch(r'is\(Sender::(try_send|send)\(' + E + r',event\),Ok\)', str(t))]
    c.each('unsubscribe', 'a subscriber that is still there is dropped', EM, EMP, keep(SUBS, E, name='drop'), lambda e, f, m: sent(f) == [False], least=0)
    c.never('subs', 'subscribers are dropped', EM, EMP, call('Vec::(clear|drain|truncate|pop|remove|swap_remove)', SUBS))
    SU = 'nakamoto_net::event::Subscriber::subscribe'
    c.always('subscribe', 'a subscriber is added', SU, ['self'], call('Vec::(push|insert)', SUBS, r'.*channel::unbounded\(\)\.0.*|0'))
    c.results('receiver', 'a subscriber gets the other end', SU, ['self'], r'channel::unbounded\(\)\.1')
    c.never('subscribe-keep', 'other subscribers are dropped', SU, ['self'], call('Vec::(clear|drain|truncate|pop|remove|swap_remove|retain)', SUBS))
    c.never('queue', 'a subscriber that is slow misses events', SU, ['self'], call('channel::bounded'))
    c.results('broadcast', 'publisher and subscriber share their list', 'nakamoto_net::event::broadcast', ['forward'], r'\(Broadcast\{emitter=Emitter\{subscribers=(.*)\},forward=forward\},Subscriber\{subscribers=\1\}\)')
    c.always('forward', 'an event is forwarded', 'nakamoto_net::event::Broadcast::broadcast', ['self', 'event'], call('apply', r'self\.forward', 'event', r'self\.emitter'))
    PB, PBP = '<nakamoto_client::client::Publisher as nakamoto_net::event::Publisher<E>>::publish', ['self', 'e']
    c.foreach('publish', 'an event is passed to every publisher', PB, PBP, r"elem\(self'*\.publishers'*\)", [call('Publisher::publish', r"elem\(self'*\.publishers'*\)'*", 'e')])
    c.atmost('publish-once', 'an event is published twice', PB, PBP, got(r"elem\(self'*\.publishers'*\)"), call('Publisher::publish'))
    c.always('publisher', 'a publisher broadcasts', '<nakamoto_net::event::Broadcast as nakamoto_net::event::Publisher<E>>::publish', ['self', 'event'], call('apply', r'self\.forward', 'event', r'self\.emitter'))
    # waiting
    WT, WTP = 'nakamoto_net::event::wait', ['events', 'f', 'timeout']
    el = r"Instant::elapsed\(Instant::now\(\)\)"
    end = r"(?:add2?\((?:Instant::now\(\),timeout|timeout,Instant::now\(\))\)|Instant::checked_add\(Instant::now\(\),timeout\)\.Some)"
    leftover = r"(?:Duration::checked_sub\(timeout," + el + r"\)|Instant::checked_duration_since\(" + end + r",Instant::now\(\)\))"
    left_ = r"(?:" + leftover + r"\.Some|sub\(timeout," + el + r"\)|Duration::saturating_sub\(timeout," + el + r"\)|Instant::(?:saturating_)?duration_since\(" + end + r",Instant::now\(\)\))"
    rx = r"Receiver::recv_(?:timeout|deadline)\(events,.*\)"
    c.each('wait', 'waiting takes longer than asked for', WT, WTP, call('Receiver::(recv_timeout|recv|recv_deadline)'), lambda e, f, m: anyof(call('Receiver::recv_timeout', 'events', left_), call('Receiver::recv_deadline', 'events', end))(e))
    c.each('wait-start', 'waiting takes longer than asked for', WT, WTP, anyof(call('Instant::elapsed'), call('Receiver::recv_deadline'), call(r'Instant::\w*duration_since')), lambda e, f, m: 'again' not in m, step=lambda mon, nm, e, st: restart(mon, nm, e), also=[('now', call('Instant::now')), ('recv', call('Receiver::recv_timeout'))])
    c.results('wait-result', 'what is waited for is returned', WT, WTP, r'Result::Ok\{0=apply\(f,' + rx + r'\.Ok\)\.Some\}|Result::Err\{0=(RecvTimeoutError::Timeout|' + rx + r'\.Err)\}')
    c.cycle('wait-every', 'every event is looked at', WT, WTP, call('Receiver::recv_(timeout|deadline)'), [call('apply', 'f', rx + r'\.Ok')], [(r'is\(' + rx + r',Ok\)', True)])
    some = [(r'is\(' + leftover + r',Some\)', True), (r'lt\(' + el + r',timeout\)', True), (r'lt\(timeout,' + el + r'\)', False), (r'lt\(Instant::now\(\),' + end + r'\)', True), (r'lt\(' + end + r',Instant::now\(\)\)', False)]
    c.never('wait-hit', 'what was waited for is missed', WT, WTP, lambda e: e.kind == 'exit' and str(e.args[0]).startswith('Result::Err'), some + [(r'is\(' + rx + r',Ok\)', True), (r'is\(apply\(f,.*\),Some\)', True)])
    c.never('wait-only', 'events are taken without being looked at', WT, WTP, item(r'.*Receiver::(try_iter|iter)\(events\).*', None))
    c.cycle('wait-taken', 'every event is looked at', WT, WTP, call('Receiver::try_recv', 'events'), [call('apply', 'f', r'(?:prev\()*Receiver::try_recv\(events\)\)*\.Ok\)*')], [(r'is\((?:prev\()*Receiver::try_recv\(events\)\)*,Ok\)', True)], least=0)
    c.never('wait-early', 'waiting ends before the time is up', WT, WTP, ret(r'Result::Err.*'), some + [(r'is\(' + rx + r',Ok\)', True)])
    # what the client publishes
    def wiring():
        CN = 'nakamoto_client::client::Client::new'
        r = c.run(CN, [], (), [('reg', call('Vec::push')), ('bc', call('event::broadcast'))], opaque=['event::broadcast$'])
        bad, n = [], 0
        pushed = set()
        for e, _, _ in r.hits.get('reg', []):
            for t in e.args[1].subs:
                if t.op == 'clo':
                    pushed.add(t.a[0])
        want = {'events': ('e', None), 'subscriber': ('e', None), 'blocks': (r'\(e\.BlockProcessed\.block,e\.BlockProcessed\.height\)', 'BlockProcessed'),
                'filters': (r'\(e\.FilterReceived\.filter,e\.FilterReceived\.block,e\.FilterReceived\.height\)', 'FilterReceived')}
        for rv, mon, facts, store in r.exits:
            if not str(rv).startswith('Result::Ok'):
                continue
            h = sub(rv, 'Ok.0', 'handle')
            for fld, (what, var) in want.items():
                t = sub(h, fld)
                n += 1
                cl = [x for x in t.subs if x.op == 'clo']
                if len(cl) != 1 or not re.fullmatch(r'event::broadcast\(closure\)\.1', str(t)):
                    bad.append((c.fn(CN), 'the %s feed is %s' % (fld, t)))
                    continue
                path = cl[0].a[0]
                if path not in pushed:
                    bad.append((c.fn(CN), 'the %s feed has no publisher' % fld))
                snd = call('Sender::(try_send|send)', r"elem\(p\.subscribers'*\)")
                sub_ = Ck(c.p, c.pid, c.tier)
                asm = [(r'is\(e,%s\)' % var, True)] if var else []
                sub_.foreach('x', '', path, ['env', 'e', 'p'], r"elem\(p\.subscribers'*\)", [call('Sender::(try_send|send)', r"elem\(p\.subscribers'*\)", what)], asm)
                sub_.always('x', '', path, ['env', 'e', 'p'], call('Emitter::emit', 'p', what), asm)
                sub_.each('x', '', path, ['env', 'e', 'p'], snd, lambda e, f, m: re.fullmatch(what, str(e.args[1])) is not None)
                if var:
                    sub_.never('x', '', path, ['env', 'e', 'p'], snd, neg(asm))
                    sub_.possible('x', '', path, ['env', 'e', 'p'], snd, asm)
                c.steps += sub_.steps
                if sub_.viol:
                    bad.append((sub_.viol[0]['where'], 'the %s feed does not forward the right events: %s' % (fld, sub_.viol[0]['what'])))
            if str(sub(h, 'commands')) != 'channel::unbounded().0' or str(sub(rv, 'Ok.0', 'commands')) != 'channel::unbounded().1':
                bad.append((c.fn(CN), 'commands do not reach the reactor'))
        return n, bad
    c.custom('feeds', 'the event, block and filter feeds carry what they say', wiring)
