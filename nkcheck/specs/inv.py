"""Blocks, transactions and fees (p2p/src/fsm/invmgr.rs, fees.rs)."""
import re
from ck import *
IM = 'invmgr::InventoryManager::'
RB, RBP = IM + 'received_block', ['self', 'from', 'block', 'tree']
TE, TEP = IM + 'timer_expired', ['self', 'tree']
GD, GDP = IM + 'received_getdata', ['self', 'addr', 'invs']
AN, ANP = IM + 'announce', ['self', 'tx']
BR, BRP = IM + 'block_reverted', ['self', 'height']
GB, GBP = IM + 'get_block', ['self', 'hash']
EV, EVP = IM + 'received_event', ['self', 'event', 'tree']
NOW = r"Clock::local_time\(self'*\.clock'*\)"
REM, REC, MEM, CONF, EST = [r"self'*\." + f + r"'*" for f in ('remaining', 'received', 'mempool', 'confirmed', 'estimator')]
HB = r"Block::block_hash\(block\)"
PHI = r"phi\([^()]*\)"
PS = r"self'*\.peers'*\.inner'*"
PK = r"key\(" + PS + r"\)"
PEER = r"get\(" + PS + r"," + PK + r"\)\.Some"
BOX = PEER + r"\.outbox'*"
good = [(r'Block::check_merkle_root\(block\)', True)]
asked = [(r'is\(get\(' + REM + r',' + HB + r'\),Some\)', True)]
active = [(r'is\(BlockReader::get_block\(tree,' + HB + r'\),Some\)', True)]
alone = [(r'eq\(len\(' + REM + r'\),0\)', True)]
# a block taken off the queue, its height, and its transactions
K = r"(?:(?:prev\()*(?:min\((?:" + REC + r"|" + PHI + r")\)\.Some|key\(" + REC + r"\)|elem\(sorted\((?:collect\()?" + REC + r"\)*)\)*|" + PHI + r")"
B = r"(?:(?:prev\()*get\(" + REC + r"," + K + r"\)\.Some\)*|" + PHI + r"\.Some|" + PHI + r")"
TX = r"elem\(" + B + r"\.txdata\)"
W = r"Transaction::wtxid\(" + TX + r"\)"
MTX = r"(?:get\(" + MEM + r"," + W + r"\)\.Some|" + TX + r"|" + PHI + r"\.Some)"
qactive = [(r'is\(BlockReader::get_block\(tree,Block::block_hash\((get\(|phi|prev).*\)\),Some\)', True)]
inpool = [(r'is\(get\(' + MEM + r',' + W + r'\),Some\)', True)]
OP = dict(opaque=['FeeEstimator::process$'])
queue = call('HashMap::insert', REC)
processed = emits(r'BlockProcessed\{.*\}')
status = emits(r'TxStatusChanged\{.*\}')


def neg(facts):
    return [(a, not v) for a, v in facts]


def I01(c):
    """Only blocks that were asked for, are authentic and on the active chain are taken."""
    change = anyof(queue, processed, status, call('HashMap::remove', REC), call('HashMap::remove', REM), call('HashMap::insert', REM), call('BTreeMap::remove', MEM))
    c.never('forged', 'a block whose transactions do not match its header is used', RB, RBP, change, neg(good), **OP)
    c.always('forged-blame', 'the sender of a forged block is reported', RB, RBP, emits(r'PeerMisbehaved\{addr=from,.*\}'), neg(good), **OP)
    c.never('blame', 'the sender of an authentic block is blamed', RB, RBP, emits(r'PeerMisbehaved.*'), good, **OP)
    c.never('unsolicited', 'a block that was not asked for is used', RB, RBP, anyof(queue, processed, status, call('HashMap::remove', REC), call('HashMap::insert', REM)), good + neg(asked), **OP)
    c.never('inactive', 'a block that is not on the active chain is queued', RB, RBP, queue, neg(active), **OP)
    c.always('queued', 'a block that was asked for is queued at its height', RB, RBP, call('HashMap::insert', REC, r'BlockReader::get_block\(tree,' + HB + r'\)\.Some\.0', 'block'), good + asked + active, **OP)
    c.always('answered', 'a block that arrived is no longer outstanding', RB, RBP, call('HashMap::remove', REM, HB), good, **OP)
    c.each('answered-only', 'only the block that arrived is no longer outstanding', RB, RBP, call(r'Hash(Map|Set)::(remove|clear|retain|drain)', REM), lambda e, f, m: call('HashMap::remove', REM, HB)(e), **OP)
    c.each('queued-only', 'only the block that arrived is queued', RB, RBP, queue, lambda e, f, m: call('HashMap::insert', REC, r'BlockReader::get_block\(tree,' + HB + r'\)\.Some\.0', 'block')(e), **OP)
    c.always('event', 'block messages are handled', EV, EVP, call('InventoryManager::received_block', 'self', r'event\.MessageReceived\.from', r'event\.MessageReceived\.message.*\.Block', 'tree'),
             [(r'is\(event,MessageReceived\)', True), (r'is\(event\.MessageReceived\.message.*,Block\)', True)], opaque=['InventoryManager::received_block$'])
    other = anyof(queue, call(r'Hash(Map|Set)::(remove|clear|retain|drain|insert)', REC), processed)
    c.each('only-revert', 'queued blocks are lost in a re-org', BR, BRP, anyof(queue, call(r'HashMap::(remove|clear|retain|drain)', REC)), lambda e, f, m: call('HashMap::remove', REC, 'height')(e), least=0)
    for nm, f, p in (('timer', TE, TEP), ('getdata', GD, GDP), ('announce', AN, ANP), ('request', GB, GBP)):
        c.never('only-' + nm, 'blocks are queued or processed other than on arrival', f, p, other)
    c.never('only-event', 'blocks are queued or processed other than on arrival', EV, EVP, anyof(queue, processed), [(r'is\(event\.MessageReceived\.message.*,Block\)', False)])


def I02(c):
    """Blocks come out in order of height, each once, and only when none is outstanding."""
    take = call('HashMap::remove', REC)
    c.never('wait', 'a block is processed although earlier ones may still arrive', RB, RBP, anyof(take, processed, status, call('FeeEstimator::process')), neg(alone), **OP)
    asc = ('asc', lambda e: e.kind == 'iter' and re.match(r'sorted\(.*received', str(e.args[0])) is not None)
    c.each('lowest', 'the lowest queued block is taken first', RB, RBP, take, lambda e, f, m: re.fullmatch(K, str(e.args[1])) is not None and (not re.search(r'key\(', str(e.args[1])) or 'asc' in m), good + asked + alone, also=[asc], **OP)
    c.each('processed', 'what is reported is the block taken from the queue, with its height and fees', RB, RBP, processed, lambda e, f, m: emits(
        r'BlockProcessed\{block=' + B + r',height=' + K + r',fees=FeeEstimator::process\(' + EST + r',' + B + r',' + K + r'\)\}')(e), good + asked + alone, **OP)
    c.possible('lowest-first', 'the lowest queued block is taken first', RB, RBP, emits(
        r"BlockProcessed\{block=get\(" + REC + r",(min\(" + REC + r"\)\.Some|key\(" + REC + r"\))\)\.Some,height=(prev\()?(min\(" + REC + r"\)\.Some|key\(" + REC + r"\)).*\}"), good + asked + active + alone, **OP)
    c.before('once', 'a processed block leaves the queue', RB, RBP, take, processed, **OP)
    c.never('reverted', 'a block that was reverted while queued is processed', RB, RBP, anyof(processed, status, call('FeeEstimator::process')), good + asked + neg(qactive), **OP)

    def owed():
        """Between taking a block off the queue and taking the next one (or returning), it is reported."""
        bad = []
        got = [(r'is\(get\(' + REC + r',' + K + r'\),Some\)', True)]
        r = c.run(RB, RBP, good + asked + qactive + got, [('take', take), ('done', processed)], step=lambda mon, nm, e, st: mon - {'own'} if nm == 'done' else (bad.append((e.where(), 'the next block is taken although the last one was not reported')) if 'own' in mon else None, mon | {'own'})[1], **OP)
        bad += [(c.fn(RB), 'returns without reporting the block taken off the queue')] if any('own' in mon for rv, mon, f, s in r.exits) else []
        return len(r.hits.get('take', [])), bad[:3]
    c.custom('reported', 'every block taken off the queue is reported', owed)

    none = re.compile(r'is\(min\(' + REC + r'\),Some\)|is\(get\(' + REC + r',min\(' + REC + r'\)\.Some\),Some\)')
    zero = re.compile(r'eq\(len\(' + REC + r'\),0\)')

    def drained(fs):
        """Returns only after finding the queue empty."""
        end = lambda e: e.kind == 'iter_end' and re.match(r'sorted\(.*received', str(e.args[0])) is not None
        seen = lambda mon, t, v: mon | {'empty'} if not v and none.fullmatch(str(t)) or v and zero.fullmatch(str(t)) else mon
        r = c.run(RB, RBP, good + asked + alone + fs, [('empty', end), ('put', queue)], step=lambda mon, nm, e, st: mon - {'empty'} if nm == 'put' else mon | {nm}, decide=seen, **OP)
        bad = [(c.fn(RB), 'returns with blocks left in the queue although none is outstanding')] if any('empty' not in mon for rv, mon, f, s in r.exits) else []
        return len(r.exits), bad
    for nm, fs in (('', active + qactive + neg(inpool)), ('-stale', neg(active) + qactive + neg(inpool)), ('-reverted', active + neg(qactive)), ('-confirm', active + qactive + inpool)):
        c.custom('drained' + nm, 'when no block is outstanding the queue is emptied', lambda: drained(fs))


def I03(c):
    """Transactions are confirmed by blocks and un-confirmed by re-orgs, exactly."""
    fine = good + asked + active + alone + qactive
    conf = r'TxStatusChanged\{txid=Transaction::txid\(' + MTX + r'\),status=TxStatus::Confirmed\{height=' + K + r',block=Block::block_hash\(' + B + r'\)\}\}'
    kept = call('Vec::push', r"get\(" + CONF + r"," + K + r"\)\.Some'*", MTX)
    c.foreach('confirm', 'a submitted transaction found in a block is confirmed by it and leaves the mempool', RB, RBP, TX, [
        call('BTreeMap::remove', MEM, W), emits(conf), kept], fine + inpool, must=False, **OP)
    c.each('confirm-exact', 'confirmations name the transaction, block and height', RB, RBP, emits(r'TxStatusChanged\{.*Confirmed.*\}'), lambda e, f, m: emits(conf)(e) or emits(
        r'TxStatusChanged\{txid=Transaction::txid\(' + PHI + r'\.Some\),status=TxStatus::Confirmed\{height=' + PHI + r',block=Block::block_hash\(' + PHI + r'\.Some\)\}\}')(e), fine, **OP)
    c.never('confirm-foreign', 'a transaction that was not submitted is confirmed', RB, RBP, status, fine + neg(inpool), **OP)
    c.each('confirm-only', 'blocks only confirm transactions', RB, RBP, status, lambda e, f, m: 'TxStatus::Confirmed' in str(e.args[1]), fine, **OP)
    c.foreach('unannounce', 'a confirmed transaction is no longer announced to any peer', RB, RBP, r'(\(.*,)?' + PEER + r'\)?', [call('HashMap::remove', BOX, W)], fine + inpool,
              stop=call('HashMap::remove', PEER + r"\.requests'*"), **OP)
    c.each('txs', 'the transactions of the block taken from the queue are looked up', RB, RBP, call('BTreeMap::remove', MEM), lambda e, f, m: re.fullmatch(W, str(e.args[1])) is not None, fine, **OP)
    # re-orgs
    T = r"elem\(get\(" + CONF + r",height\)\.Some\)"
    kw = dict(opaque=['FeeEstimator::rollback$'])
    has = [(r'is\(get\(' + CONF + r',height\),Some\)', True)]
    c.foreach('revert', 'a transaction whose block is reverted is back in the mempool and reported', BR, BRP, T, [
        call('BTreeMap::insert', MEM, r'Transaction::wtxid\(' + T + r'\)', T), emits(r'TxStatusChanged\{txid=Transaction::txid\(' + T + r'\),status=TxStatus::Reverted\{transaction=' + T + r'\}\}')], has, **kw)
    c.foreach('revert-announce', 'a transaction whose block is reverted is announced again', BR, BRP, r'\(' + PK + r',' + PEER + r'\)', [call('HashMap::insert', BOX, r'Transaction::wtxid\(' + T + r'\)', r'Transaction::txid\(' + T + r'\)')],
              has + [(PEER + r'\.relay', True)], must=False, **kw)
    c.always('revert-forget', 'a reverted block no longer confirms anything', BR, BRP, call('HashMap::remove', CONF, 'height'), **kw)
    c.each('revert-only', 'only the reverted block is forgotten', BR, BRP, call(r'HashMap::(remove|clear|retain|drain)', CONF), lambda e, f, m: call('HashMap::remove', CONF, 'height')(e), **kw)
    c.never('revert-none', 'a transaction is reverted that was not confirmed at that height', BR, BRP, status, neg(has), **kw)
    c.always('revert-fees', 'fee estimation goes back to before the reverted block', BR, BRP, call('FeeEstimator::rollback', EST, r'add\(height,-1\)|sub\(height,1\)'), **kw)
    c.foreach('event', 'every reverted block is handled', EV, EVP, r'elem\(event\.BlockHeadersImported\.reverted\)', [call('InventoryManager::block_reverted', "self'*", r'elem\(event\.BlockHeadersImported\.reverted\)\.0')],
              [(r'is\(event,BlockHeadersImported\)', True)], opaque=['block_reverted$'])
    c.never('event-other', 'transactions are reverted without a re-org', EV, EVP, call('HashMap::remove', CONF), [(r'is\(event,BlockHeadersImported\)', False)])
    # pruning
    KC = r"key\(" + CONF + r"\)"
    deep = [(r'lt\(sub\(BlockReader::height\(tree\),' + KC + r'\),13\)', False), (r'lt\(add\(' + KC + r',12\),BlockReader::height\(tree\)\)', True)]
    above = [(r'lt\(BlockReader::height\(tree\),' + KC + r'\)', True)]
    c.never('prune', 'confirmed transactions are forgotten before their block is 12 deep', TE, TEP, keep(CONF, name='drop'), neg(deep) + neg(above))
    c.never('prune-above', 'confirmed transactions of a block above the tip are forgotten', TE, TEP, keep(CONF, name='drop'), above + [(deep[1][0], False)])
    c.never('prune-late', 'confirmed transactions are kept forever', TE, TEP, keep(CONF, name='keep'), deep + neg(above))
    c.possible('prune-does', 'confirmed transactions are forgotten once their block is deep', TE, TEP, keep(CONF, name='drop'))
    for nm, f, p in (('announce', AN, ANP), ('getdata', GD, GDP), ('request', GB, GBP)):
        c.never('only-' + nm, 'confirmed transactions are forgotten or added', f, p, call(r'HashMap::(remove|clear|retain|drain|insert|entry)', CONF))
    c.never('mem-timer', 'transactions leave the mempool unconfirmed', TE, TEP, call(r'BTreeMap::(remove|clear|retain)', MEM))
    c.never('mem-getdata', 'transactions leave the mempool unconfirmed', GD, GDP, call(r'BTreeMap::(remove|clear|retain)', MEM))
    c.never('mem-event', 'transactions leave the mempool unconfirmed', EV, EVP, call(r'BTreeMap::(remove|clear|retain)', MEM), [(r'is\(event\.MessageReceived\.message.*,Block\)', False)])


def I04(c):
    """Submitted transactions are announced to every relaying peer until it asks for them."""
    el = r'\(' + PK + r',' + PEER + r'\)'
    relay = [(PEER + r'\.relay', True)]
    ins = call('HashMap::insert', BOX)
    c.always('submit', 'a submitted transaction is kept and a tick is scheduled', AN, ANP, [call('BTreeMap::insert', MEM, r'Transaction::wtxid\(tx\)', 'tx'), wakes(r'LocalDuration\{0=\d+\}')])
    c.foreach('submit-peers', 'a submitted transaction is announced to every relaying peer', AN, ANP, el, [
        call('HashMap::insert', BOX, r'Transaction::wtxid\(tx\)', r'Transaction::txid\(tx\)'), anyof(call('Vec::push', r"Vec::new\(\)'*", PK), item(None, PK))], relay)
    c.never('submit-norelay', 'a transaction is announced to a peer that does not relay', AN, ANP, anyof(ins, call('Vec::push', None, PK)), neg(relay))
    # new peers
    nego = [(r'is\(event,PeerNegotiated\)', True)]
    er = [(r'event\.PeerNegotiated\.relay', True)]
    new = call('HashMap::insert', PS, r'event\.PeerNegotiated\.addr')
    c.always('peer', 'a negotiated peer is known with what it announced', EV, EVP, call('HashMap::insert', PS, r'event\.PeerNegotiated\.addr',
             r'Peer\{relay=event\.PeerNegotiated\.relay,services=event\.PeerNegotiated\.services,wtxidrelay=event\.PeerNegotiated\.wtxid_relay,outbox=.*,attempts=0,last_attempt=Option::None.*\}'), nego)
    fresh = r"HashMap::new\(\)"
    c.foreach('peer-pool', 'submitted transactions are announced to a new relaying peer', EV, EVP, r'\(key\(' + MEM + r'\),get\(' + MEM + r',key\(' + MEM + r'\)\)\.Some\)', [
        anyof(call('HashMap::insert', fresh + r"'*", r'key\(' + MEM + r'\)', r'Transaction::txid\(get\(' + MEM + r',key\(' + MEM + r'\)\)\.Some\)'),
              item(None, r'\(key\(' + MEM + r'\),Transaction::txid\(get\(' + MEM + r',key\(' + MEM + r'\)\)\.Some\)\)'))], nego + er)
    c.each('peer-box', 'submitted transactions are announced to a new relaying peer', EV, EVP, new, lambda e, f, m: re.search(r"outbox=(" + fresh + r"'?|(collect|extend)\(.*mempool.*\)),", str(e.args[2])) is not None, nego + er)
    c.each('peer-norelay', 'nothing is announced to a new peer that does not relay', EV, EVP, new, lambda e, f, m: re.search(r"outbox=" + fresh + r",", str(e.args[2])) is not None and 'fill' not in m, nego + neg(er),
           also=[('fill', call('HashMap::insert', fresh + r"'*"))])
    c.always('gone', 'a disconnected peer is forgotten', EV, EVP, call('HashMap::remove', PS, r'event\.PeerDisconnected\.addr'), [(r'is\(event,PeerDisconnected\)', True)])
    # announcing and re-announcing
    some = [(r'eq\(len\(' + BOX + r'\),0\)', False)]
    tried = [(r'is\(' + PEER + r'\.last_attempt,Some\)', True)]
    due = [(r'lt\(sub\(' + NOW + r',(' + PEER + r'\.last_attempt\.Some|Default::default\(\))\),self\.timeout\)', False)]
    room = [(r'lt\(' + PEER + r'\.attempts,3\)', True)]
    inv = sends(PK, r'Inv\{.*\}')
    anyinv = sends('.*', r'Inv\{.*\}')
    gone = emits(r'PeerTimedOut\{.*\}')
    for nm, tr in (('first', neg(tried)), ('again', tried)):
        c.foreach('announce-' + nm, 'waiting transactions are announced when due, and the attempt recorded', TE, TEP, el, [
            inv, write(PEER + r'\.attempts', r'add\(' + PEER + r'\.attempts,1\)'), write(PEER + r'\.last_attempt', r'Option::Some\{0=' + NOW + r'\}'), wakes(r'(self\.timeout|LocalDuration\{0=\d+\})')],
            some + tr + due + room, opaque=['AddressBook::sample_with$'])
    c.never('announce-none', 'an announcement is sent although nothing is waiting', TE, TEP, anyof(anyinv, gone), neg(some))
    c.never('announce-soon', 'an announcement is repeated before its time', TE, TEP, anyof(anyinv, gone), neg(due))
    c.never('announce-limit', 'a peer is sent more than three announcements', TE, TEP, anyinv, neg(room))
    KB = r"key\(" + BOX + r"\)"
    M1 = r"get\(" + MEM + r"," + KB + r"\)\.Some"
    wt = [(PEER + r'\.wtxidrelay', True)]
    for nm, fs, val in (('wtx', wt, r'Inventory::WTx\{0=(Transaction::wtxid\(' + M1 + r'\)|' + KB + r')\}'), ('tx', neg(wt), r'Inventory::(Witness)?Transaction\{0=(Transaction::txid\(' + M1 + r'\)|get\(' + BOX + r',' + KB + r'\)\.Some)\}')):
        add = anyof(call('Vec::push', r"Vec::new\(\)'*", val), item(None, val))
        c.foreach('content-' + nm, 'every waiting transaction is announced, by the identifier the peer asked for', TE, TEP, r"(\(" + KB + r",.*\)|" + KB + r"|get\(" + BOX + r"," + KB + r"\)\.Some)", [add], some + due + room + fs, must=False)
        c.each('only-' + nm, 'only waiting transactions are announced, by the identifier the peer asked for', TE, TEP, call('Vec::push', None, r'Inventory::(WTx|Transaction|WitnessTransaction).*'), lambda e, f, m: re.fullmatch(val, str(e.args[1])) is not None, fs, least=0)
    c.each('content', 'the announcement carries the transactions collected', TE, TEP, anyinv, lambda e, f, m: re.search(r"Inv\{0=(Vec::new\(\)'*|collect\(.*\))\}", str(e.args[1])) is not None)
    c.foreach('give-up', 'a peer that ignored three announcements is dropped', TE, TEP, '(' + el + '|' + PK + ')', [emits(r'PeerTimedOut\{addr=' + PK + r'\}'), call('HashMap::remove', PS, PK)], some + due + neg(room), opaque=['AddressBook::sample_with$'])
    c.never('give-up-early', 'a peer is dropped before three announcements', TE, TEP, anyof(gone, call('HashMap::remove', PS)), room)
    for nm, f, p in (('getdata', GD, GDP), ('block', RB, RBP), ('announce', AN, ANP)):
        c.never('give-up-' + nm, 'a peer is dropped other than for ignoring announcements', f, p, anyof(gone, call('HashMap::remove', PS)), **OP)
    # answering requests
    EL = r'elem\(invs\)'
    Q = r"get\(" + MEM + r",key\(" + MEM + r"\)\)\.Some"
    bytx = [(r'eq\(Transaction::txid\(' + Q + r'\),' + EL + r'\.\w+\)', True), (r'eq\(Transaction::txid\(' + Q + r'\),' + PHI + r'\)', True)]
    # the txid of an inventory is one of two variants' payload
    ABOX = r"get\(" + PS + r",addr\)\.Some\.outbox'*"
    known = [(r'is\(get\(' + PS + r',addr\),Some\)', True)]
    ack = emits(r'TxStatusChanged\{txid=.*,status=TxStatus::Acknowledged\{peer=addr\}\}')
    reset = [write(r"get\(" + PS + r",addr\)\.Some\.attempts", '0'), write(r"get\(" + PS + r",addr\)\.Some\.last_attempt", r'Option::None')]
    c.foreach('asked', 'every requested item is looked at', GD, GDP, EL, [])
    for v in ('Transaction', 'WitnessTransaction'):
        kind = [(r'is\(' + EL + r',' + v + r'\)', True)]
        mine = [(r'is\(get\(' + ABOX + r',Transaction::wtxid\(' + Q + r'\)\),Some\)', True)]
        c.foreach('serve-' + v.lower(), 'a requested transaction is sent', GD, GDP, Q, [sends('addr', r'Tx\{0=' + Q + r'\}')], kind + bytx, whole=False, must=False)
        c.foreach('done-' + v.lower(), 'a requested transaction is acknowledged and no longer announced to that peer', GD, GDP, Q, [
            call('HashMap::remove', ABOX, r'Transaction::wtxid\(' + Q + r'\)'), ack] + reset, kind + bytx + known + mine, whole=False, must=False)
        c.never('ack-' + v.lower(), 'a transaction is acknowledged that was not announced to the peer', GD, GDP, anyof(ack, *reset), kind + neg(mine))
        c.never('serve-other-' + v.lower(), 'a transaction is sent that was not requested', GD, GDP, sends('.*', r'Tx\{.*\}'), kind + neg(bytx))
    kind = [(r'is\(' + EL + r',WTx\)', True), (r'is\(' + EL + r',\w*Transaction\)', False)]
    mine = [(r'is\(get\(' + ABOX + r',' + EL + r'\.WTx\),Some\)', True)]
    pool = [(r'is\(get\(' + MEM + r',' + EL + r'\.WTx\),Some\)', True)]
    c.foreach('serve-wtx', 'a requested transaction is sent', GD, GDP, EL, [sends('addr', r'Tx\{0=get\(' + MEM + r',' + EL + r'\.WTx\)\.Some\}')], kind + pool)
    c.foreach('done-wtx', 'a requested transaction is acknowledged and no longer announced to that peer', GD, GDP, EL, [call('HashMap::remove', ABOX, EL + r'\.WTx'), ack] + reset, kind + pool + known + mine)
    c.never('ack-wtx', 'a transaction is acknowledged that was not announced to the peer', GD, GDP, anyof(ack, *reset), kind + neg(mine))
    c.each('ack-what', 'the acknowledgement names the requested transaction', GD, GDP, status, lambda e, f, m: re.search(
        r'TxStatusChanged\{txid=(' + EL + r'\.(Witness)?Transaction|get\(' + ABOX + r',.*\)\.Some|Transaction::txid\(.*\)|' + PHI + r'(\.Some)?),status=TxStatus::Acknowledged\{peer=addr\}\}', str(e.args[1])) is not None)
    c.each('serve-to', 'transactions are sent to the peer that asked', GD, GDP, sends('.*', r'.*'), lambda e, f, m: sends('addr', r'Tx\{0=get\(' + MEM + r',.*\)\.Some\}')(e))
    c.always('event-getdata', 'requests are handled', EV, EVP, call('InventoryManager::received_getdata', 'self', r'event\.MessageReceived\.from', r'event\.MessageReceived\.message.*\.GetData'),
             [(r'is\(event,MessageReceived\)', True), (r'is\(event\.MessageReceived\.message.*,GetData\)', True)], opaque=['received_getdata$'])
    # confirmed transactions do not count as ignored announcements
    fine = good + asked + active + alone + qactive + inpool
    last = [(r'is\(get\(' + BOX + r',' + W + r'\),Some\)', True), (r'eq\(len\(' + BOX + r'\),0\)', True)]
    c.foreach('confirm-reset', 'attempts are not held against the next transaction', RB, RBP, r'(\(.*,)?' + PEER + r'\)?', [write(PEER + r'\.attempts', '0'), write(PEER + r'\.last_attempt', 'Option::None')], fine + last,
              stop=call('HashMap::remove', PEER + r"\.requests'*"), **OP)
    c.never('confirm-reset-wait', 'attempts are forgotten while announcements are ignored', RB, RBP, write(PEER + r'\.attempts'), last[:1] + neg(last[1:]), **OP)
    c.results('timeouts', 'a minute between announcements', IM + 'new', ['rng', 'clock'], lambda rv: re.search(r'timeout=LocalDuration\{0=60000\}', str(rv)) is not None)


def I05(c):
    """Blocks asked for are requested until they arrive."""
    has = [(r'is\(get\(' + REM + r',hash\),Some\)', True)]
    c.always('request', 'a block asked for becomes outstanding', GB, GBP, call('HashMap::insert', REM, 'hash', 'Option::None'), neg(has))
    c.never('request-again', 'asking again restarts the clock of an outstanding request', GB, GBP, call('HashMap::(insert|remove)', REM), has)
    c.always('request-tick', 'a block asked for is requested soon', GB, GBP, wakes(r'LocalDuration\{0=\d+\}'))
    KR = r"key\(" + REM + r"\)"
    VR = r"get\(" + REM + r"," + KR + r"\)\.Some"
    once = [(r'is\(' + VR + r',Some\)', True)]
    due = [(r'lt\(sub\(' + NOW + r',(' + VR + r'\.Some|Default::default\(\))\),LocalDuration\{0=15000\}\)', False)]
    peer = [(r'is\(NonEmpty::from_vec\(collect\(filter\(self.*peers.*\)\)\),Some\)', True), (r"eq\(len\(collect\(filter\(" + PS + r",closure\)\)\),0\)", False)]
    net = [(r"ServiceFlags::has\(get\(" + PS + r"," + PK + r"\)\.Some\.services,ServiceFlags\{0=1\}\)", True)]
    ask = sends('.*', r'GetData\{0=\[Inventory::(Witness)?Block\{0=' + KR + r'\}\]\}')
    anyask = sends('.*', r'GetData\{.*\}')
    el = r'\(' + KR + r',' + VR + r'\)'
    for nm, o in (('first', neg(once)), ('again', once)):
        c.foreach('ask-' + nm, 'an outstanding block is requested when due', TE, TEP, el, [ask, write(VR, r'Option::Some\{0=' + NOW + r'\}'), wakes(r'LocalDuration\{0=15000\}')], o + due + peer)
    c.never('ask-soon', 'a block is requested again before its time', TE, TEP, anyof(anyask, write(VR)), neg(due))
    c.never('ask-nobody', 'a request is recorded although there is nobody to ask', TE, TEP, anyof(anyask, write(VR)), neg(peer))
    c.each('ask-what', 'only outstanding blocks are requested', TE, TEP, anyask, lambda e, f, m: ask(e))
    sel = item(r'(filter\()?' + PS + r'.*', None)
    c.never('ask-whom', 'a block is requested from a peer that does not serve blocks', TE, TEP, sel, neg(net))
    c.possible('ask-some', 'peers that serve blocks are asked', TE, TEP, sel, net)
    c.foreach('ask-any', 'every peer that serves blocks may be asked', TE, TEP, r'(\(.*,)?' + PEER + r'\)?', [sel], net, src=r'filter\(' + PS + r'.*', must=False)
    c.each('ask-to', 'the peer asked is one of those selected', TE, TEP, anyask, lambda e, f, m: re.search(r'Io::Write\{0=(NonEmpty::from_vec\(collect\(filter\(' + PS + r',closure\)\)\)\.Some\[.*\]\.0|' + PK + r'|' + PHI + r'\.0),', str(e.args[1])) is not None)
    for nm, f, p, kw in (('timer', TE, TEP, {}), ('getdata', GD, GDP, {}), ('announce', AN, ANP, {}), ('revert', BR, BRP, {}), ('request', GB, GBP, {})):
        c.never('keep-' + nm, 'an outstanding block is given up', f, p, call(r'HashMap::(remove|clear|retain|drain)', REM), **kw)
    c.never('keep-event', 'an outstanding block is given up', EV, EVP, call(r'HashMap::(remove|clear|retain|drain)', REM), [(r'is\(event\.MessageReceived\.message.*,Block\)', False)])
    tick = [(r'is\(self\.last_tick,Some\)', True)]
    for nm, t, fs in (('first', neg(tick), []), ('again', tick, [(r'lt\(sub\(' + NOW + r',self\.last_tick\.Some\),LocalDuration\{0=30000\}\)', False)])):
        c.always('idle-' + nm, 'the next tick is scheduled', TE, TEP, [wakes(r'LocalDuration\{0=30000\}'), write(r'self\.last_tick', r'Option::Some\{0=' + NOW + r'\}')], t + fs + [(r'lt\(sub\(' + NOW + r',Default::default\(\)\),LocalDuration\{0=30000\}\)', False)])
    for nm, f, p in (('submit', AN, ANP), ('request', GB, GBP)):
        c.always('nudge-' + nm, 'new work does not wait for the idle interval', f, p, write(r'self\.last_tick', r'Option::None'))


def I06(c):
    """Fee estimates: exact over the transactions whose inputs are known, and undone by re-orgs."""
    FE = 'fees::FeeEstimator::'
    PR, PRP = FE + 'process', ['self', 'block', 'height']
    AP, APP = FE + 'apply', ['self', 'tx']
    RO, ROP = FE + 'rollback', ['self', 'height']
    U = r"self'*\.utxos'*"
    SN = r"self'*\.snapshots'*"
    kw = dict(opaque=['FeeEstimator::apply$', 'FeeEstimate::from$'])
    newer = [(r"lt\(self'*\.height,height\)", True)]
    touch = anyof(call('VecDeque::(push_back|pop_front|pop_back|clear)', SN), write(r"self'*\.(height|utxos)"), call('FeeEstimator::apply'))
    c.never('old', 'a block at or below the current height changes the estimator', PR, PRP, touch, neg(newer), **kw)
    c.results('old-none', 'a block at or below the current height has no estimate', PR, PRP, lambda rv: str(rv) == 'Option::None', neg(newer), **kw)
    T = r'elem\(block\.txdata\)'
    A = r"FeeEstimator::apply\(self'*," + T + r"\)"
    c.foreach('txs', 'every transaction of the block is applied', PR, PRP, T, [call('FeeEstimator::apply', "self'*", T)], newer, **kw)
    c.foreach('rates', 'every known fee rate counts', PR, PRP, T, [anyof(call('Vec::push', r"Vec::new\(\)'*", A + r'\.Some'), item(None, A + r'\.Some'))], newer + [(r'is\(' + A + r',Some\)', True)], **kw)
    c.each('rates-only', 'only fee rates of the block count', PR, PRP, call('Vec::push', r"Vec::new\(\)'*"), lambda e, f, m: re.fullmatch(A + r'\.Some', str(e.args[1])) is not None, least=0, **kw)
    c.results('estimate', 'the estimate is made of the fee rates of the block', PR, PRP, lambda rv: re.fullmatch(r"FeeEstimate::from\((Vec::new\(\)'*|collect\(.*\))\)", str(rv)) is not None, newer, **kw)
    snap = call('VecDeque::push_back', SN, r"\(self'*\.height,self\.utxos\)")
    c.always('snapshot', 'the state before the block is kept with its height', PR, PRP, [snap, write(r"self'*\.height", 'height')], newer, **kw)
    c.always('revert-fees', 'a reverted block is rolled back here too', BR, BRP, call('FeeEstimator::rollback', EST, r'add\(height,-1\)|sub\(height,1\)'), opaque=['FeeEstimator::rollback$'])
    c.never_after('snapshot-height', 'the kept state is labelled with the height of the new block', PR, PRP, write(r"self'*\.height"), call('VecDeque::push_back', SN), newer, **kw)
    many = [(r'lt\(len\(' + SN + r'\),13\)', False)]
    full_ = [(r'lt\(len\(' + SN + r'\),12\)', False)]
    less = call('VecDeque::(pop_front|pop_back|clear|truncate|drain)', SN)

    def bound_after():
        c.always('bound', 'at most twelve states are kept', PR, PRP, call('VecDeque::pop_front', SN), newer + many, **kw)
        c.never('bound-early', 'a state is dropped although there is room', PR, PRP, less, newer + neg(many), **kw)

    def bound_before():
        c.always('bound', 'at most twelve states are kept', PR, PRP, call('VecDeque::pop_front', SN), newer + full_, **kw)
        c.never('bound-early', 'a state is dropped although there is room', PR, PRP, less, newer + neg(full_), **kw)
        c.never_after('bound-order', 'room is made after it was needed', PR, PRP, call('VecDeque::push_back', SN), call('VecDeque::pop_front', SN), newer, **kw)

    def bound_loop():
        def go():
            r = c.run(PR, PRP, newer, [('p', call('VecDeque::push_back', SN))], **kw)
            bad = [(c.fn(PR), 'returns without having checked how many states are kept') for rv, mon, facts, store in r.exits
                   if not any(re.fullmatch(many[0][0], str(t)) and v is True for t, v in facts.items())]
            return len(r.exits), bad[:1]
        c.custom('bound', 'at most twelve states are kept', go)
        c.never('bound-early', 'a state is dropped although there is room', PR, PRP, less, newer + neg(many), **kw)
        c.each('bound-oldest', 'the oldest state is dropped', PR, PRP, less, lambda e, f, m: call('VecDeque::pop_front', SN)(e), newer, **kw)
    c.either(bound_after, bound_before, bound_loop)
    # one transaction
    O, N = r'elem\(tx\.output\)', r'elem\(tx\.input\)'
    c.foreach('outputs', 'every output becomes spendable', AP, APP, O, [call('HashMap::insert', U, r'OutPoint\{txid=Transaction::txid\(tx\),vout=(unk\(i,' + O + r'\)|.*\.0)\}', O)])
    c.foreach('inputs', 'every input is spent', AP, APP, N, [call('HashMap::remove', U, N + r'\.previous_output')], [(r'is\(get\(' + U + r',' + N + r'\.previous_output\),Some\)', True), (r'Transaction::is_coin_base\(tx\)', False)])
    val = [(r'is\(get\(' + U + r',' + N + r'\.previous_output\),Some\)', False)]
    c.never_after('unknown', 'a rate is given although an input is unknown', AP, APP, got(N), ret(r'Option::Some.*'), val)
    c.results('coinbase', 'no rate for coinbase transactions', AP, APP, lambda rv: str(rv) == 'Option::None', [(r'Transaction::is_coin_base\(tx\)', True)])
    IN1 = r"get\(" + U + r"," + N + r"\.previous_output\)\.Some\.value"
    OUT1 = O + r"\.value"
    acc = lambda x: r"(?:0|" + x + r"|add2\(" + x + r",prev\((?:" + x + r"|add2\(" + x + r",_\))\)\))"
    rate = r"f64::round\(div\((?:sub\(" + acc(IN1) + r"," + acc(OUT1) + r"\)|" + acc(IN1) + r"),div\(Transaction::weight\(tx\),4\)\)\)"
    c.results('rate', 'the rate is the fee over the virtual size', AP, APP, lambda rv: str(rv) == 'Option::None' or re.fullmatch(r'Option::Some\{0=(' + rate + r'|f64::round\(' + PHI + r'\)|' + PHI + r')\}', str(rv)) is not None)
    c.never('overspend', 'a rate is given to a transaction that spends more than its inputs', AP, APP, ret(r'Option::Some\{(?!0=f64::round\(div\(0,).*'),
            [(r'lt\(' + acc(IN1) + r',' + acc(OUT1) + r'\)', True), (r'eq\(' + acc(IN1) + r',(?:' + acc(OUT1) + r')\)', False), (r'eq\(' + acc(OUT1) + r',0\)', False)])
    c.possible('rate-some', 'known inputs give a rate', AP, APP, call('f64::round', r"div\(sub\(" + IN1 + "," + OUT1 + r"\),div\(Transaction::weight\(tx\),4\)\)"))
    c.each('rate-exact', 'the rate is the fee over the virtual size', AP, APP, call('f64::round'), lambda e, f, m: re.fullmatch(rate, 'f64::round(%s)' % e.args[0]) is not None)
    # re-orgs
    low = [(r"lt\(height,self'*\.height\)", False)]
    c.never('rollback-none', 'a rollback above the current height changes something', RO, ROP, anyof(call('VecDeque::(retain|pop_back|pop_front|clear|truncate)', SN), write(r"self'*\.(height|utxos)")), low)
    H = r"elem\(" + SN + r"\)\.0"
    P = r"pop_back\(" + SN + r"\)"
    some = [(r'is\(' + P + r',Some\)', True)]
    put = [write(r"self'*\.utxos", P + r'\.Some\.1'), write(r"self'*\.height", P + r'\.Some\.0')]

    def by_retain():
        c.never('rollback-drop', 'a state at or below the target is dropped', RO, ROP, keep(SN, name='drop'), [(r'lt\(height,' + H + r'\)', False)])
        c.never('rollback-keep', 'a state above the target is kept', RO, ROP, keep(SN, name='keep'), [(r'lt\(height,' + H + r'\)', True)])
        c.always('rollback', 'the last state at or below the target is restored', RO, ROP, [call('VecDeque::retain', SN)] + put, neg(low) + some)
        c.before('rollback-order', 'states above the target are dropped first', RO, ROP, call('VecDeque::retain', SN), call('VecDeque::pop_back', SN))

    def by_pop():
        above = [(r'lt\(height,' + P + r'\.Some\.0\)', True)]
        c.never('rollback-keep', 'a state above the target is restored', RO, ROP, write(r"self'*\.(height|utxos)"), neg(low) + above)
        c.always('rollback', 'the last state at or below the target is restored', RO, ROP, put, neg(low) + some + neg(above))
        c.never('rollback-drop', 'the search ends at a state above the target', RO, ROP, ret('.*'), neg(low) + some + above)
        c.never_after('rollback-order', 'a state at or below the target is dropped', RO, ROP, write(r"self'*\.utxos"), call('VecDeque::(pop_back|pop_front|clear|truncate|retain)', SN), neg(low))
        c.never('rollback-other', 'other states are dropped', RO, ROP, call('VecDeque::(pop_front|clear|truncate|retain)', SN), neg(low))
    c.either(by_retain, by_pop)
    # the estimate
    S = r"(?:NonEmpty::from_vec\(sorted\(fees\)\)\.Some|sorted\(fees\))"
    L = r"len\(" + S + r"\)"
    first, last = r"(?:first\(" + S + r"\)|" + S + r"\[0\])", r"(?:last\(" + S + r"\)|" + S + r"\[add\(" + L + r",-1\)\])"
    mid = r"(?:" + S + r"\[div\(" + L + r",2\)\])"
    two = r"f64::round\(div\(add2?\(" + S + r"\[add\(div\(" + L + r",2\),-1\)\]," + S + r"\[div\(" + L + r",2\)\]\),2\)\)"
    odd = [(r'eq\(rem\(' + L + r',2\),1\)', True), (r'eq\(rem\(' + L + r',2\),0\)', False)]
    full = [(r'is\(NonEmpty::from_vec\(sorted\(fees\)\),Some\)', True)]
    est = lambda m: lambda rv: re.fullmatch(r'Option::Some\{0=FeeEstimate\{low=' + first + r',median=' + m + r',high=' + last + r'\}\}', str(rv)) is not None
    c.results('median-odd', 'lowest, middle and highest rate', 'fees::FeeEstimate::from', ['fees'], est(mid), full + odd)
    c.results('median-even', 'the median of an even number of rates is between the middle ones', 'fees::FeeEstimate::from', ['fees'], est(two), full + neg(odd))
    c.results('empty', 'no estimate without rates', 'fees::FeeEstimate::from', ['fees'], lambda rv: str(rv) == 'Option::None', neg(full))
