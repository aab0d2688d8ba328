"""Compact filter manager: header sync, filters, rescans (p2p/src/fsm/cbfmgr)."""
import re
from ck import *
E = re.escape
FM = 'cbfmgr::FilterManager::'
RS = 'cbfmgr::rescan::Rescan::'
PC = r'cbfmgr::FilterCache::'
PEERS = r"self\.peers.*"
anyret = ret('.*')
# a sequence taken as a whole and in order
PLAIN = r'(?!.*\b(?:rev|take|skip|step_by|filter|filter_map|take_while|skip_while|chain)\()'


def neg(facts):
    return [(a, not v) for a, v in facts]


def prev_header(c):
    """Filters::get_prev_header is the header below, or the zero hash."""
    G, GP = 'nakamoto_common::block::filter::Filters::get_prev_header', ['self', 'height']
    lo = r'Filters::get_header\(self,add\(height,-1\)\)'
    gen = [(r'eq\(height,0\)', True)]
    c.results('prev-genesis', 'the genesis filter header follows the zero hash', G, GP, r'Option::Some\{0=Hash::all_zeros\(\)\}', gen)
    c.results('prev-below', 'a filter header follows the one at the height below', G, GP, r'Option::None|Option::Some\{0=' + lo + r'\.Some\.1\}', [(gen[0][0], False), (r'lt\(0,height\)', True), (r'lt\(height,1\)', False)])
    c.never('prev-found', 'the filter header below is not found', G, GP, ret('Option::None'), [(gen[0][0], False), (r'lt\(height,1\)', False), (r'is\(' + lo + r',Some\)', True)])


def F03(c):
    """received_cfheaders: every precondition guards the import; imported chain computed link by link from the tip."""
    F, P = FM + 'received_cfheaders', ['self', 'from', 'msg', 'tree']
    op = ['get_cfilters$', 'FilterManager::sync$']
    kw = dict(opaque=op)
    imp = call('Filters::import_headers')
    gb = r'BlockReader::get_block\(tree,msg\.stop_hash\)'
    n = r'len\(msg\.filter_hashes\)'
    asked = [(r'is\(get\(self\.inflight,msg\.stop_hash\),Some\)', True)]
    typ = [(r'eq\(msg\.filter_type,0\)', True)]
    stop = [(r'is\(' + gb + r',Some\)', True)]
    new = [(r'lt\(Filters::height\(self\.filters\),' + gb + r'\.Some\.0\)', True), (r'lt\(' + gb + r'\.Some\.0,add\(Filters::height\(self\.filters\),1\)\)', False)]
    tip = [(r'eq\(Filters::tip\(self\.filters\)\.1,msg\.previous_filter_header\)|eq\(msg\.previous_filter_header,Filters::tip\(self\.filters\)\.1\)', True)]
    cap = [(r'lt\(' + n + r',2001\)', True), (r'lt\(2000,' + n + r'\)', False)]
    some = [(r'eq\(' + n + r',0\)', False), (r'lt\(' + n + r',1\)', False), (r'lt\(0,' + n + r'\)', True)]
    cnt = [(r'eq\((' + n + r',sub\(' + gb + r'\.Some\.0,Filters::height\(self\.filters\)\)|sub\(' + gb + r'\.Some\.0,Filters::height\(self\.filters\)\),' + n +
            r'|add2\(Filters::height\(self\.filters\),' + n + r'\),' + gb + r'\.Some\.0|' + gb + r'\.Some\.0,add2\(Filters::height\(self\.filters\),' + n + r'\))\)', True)]
    for nm, what, f in (('unsolicited', 'filter headers nobody asked for are imported', asked), ('type', 'headers of another filter type are imported', typ),
                        ('stop', 'headers up to an unknown block are imported', stop), ('stale', 'headers that add nothing are imported', new),
                        ('link', 'headers that do not continue our filter header chain are imported', tip),
                        ('count', 'a number of headers other than the missing one is imported', cnt)):
        c.never(nm, what, F, P, imp, neg(f), **kw)
    c.never('cap', 'more headers than a message may hold are imported', F, P, imp, neg(cap), **kw)
    c.never('empty', 'an empty header list is imported', F, P, imp, neg(some), **kw)
    good = asked + typ + stop + new + tip + cap + some + cnt
    c.always('import', 'a valid reply is imported', F, P, imp, good, **kw)
    fh = r'FilterHash::filter_header\(elem\(msg\.filter_hashes\),.*\)'
    c.foreach('chain-each', 'every received hash becomes a header', F, P, r'elem\(msg\.filter_hashes\)',
              [anyof(call('Vec::push', r"Vec::new\(\)'?", r'\(elem\(msg\.filter_hashes\),' + fh + r'\)'), item('.*', r'\(elem\(msg\.filter_hashes\),' + fh + r'\)'))], good, **kw)
    c.each('chain-link', 'each header commits to the one before it, the first to our tip', F, P, call('FilterHash::filter_header'),
           lambda e, f, m: re.fullmatch(r'msg\.previous_filter_header|Filters::tip\(self\.filters\)\.1|prev\(FilterHash::filter_header\(.*\)\)|phi\(.*\)|prev\(.*', str(e.args[1])) is not None
           and str(e.args[0]) == 'elem(msg.filter_hashes)', **kw)
    c.possible('chain-prev', 'later headers commit to their predecessor', F, P, call('FilterHash::filter_header', r'elem\(msg\.filter_hashes\)', r'.*prev\(FilterHash::filter_header\(.*'), **kw)
    bad = []

    def second(mon, nm, e, st=None):
        if nm in mon and re.fullmatch(r'msg\.previous_filter_header|Filters::tip\(self\.filters\)\.1', str(e.args[1])):
            bad.append(e)
        return mon | {nm}

    def linked():
        c.run(F, P, good, [('x', call('FilterHash::filter_header'))], step=second, reset=bad.clear, **kw)
        return 1, [(e.where(), 'commits to our tip although it is not the first: `%s`' % e) for e in bad[:2]]
    c.custom('chain-next', 'only the first header commits to our tip', linked)
    c.each('import-what', 'what is imported is the computed chain', F, P, imp,
           lambda e, f, m: re.fullmatch(r"Vec::new\(\)'?|collect\(.*msg\.filter_hashes.*\)", str(e.args[1])) is not None, **kw)
    for nm, f in (('type', typ), ('stop', stop)):
        c.results('blame-' + nm, 'the invalid reply is blamed on its sender', F, P, r'Result::Err\{0=Error::InvalidMessage\{from=from,.*\}\}', asked + neg(f), **kw)
    base = asked + typ + stop + new + tip
    for nm, f in (('empty', neg(some) + cap), ('count', neg(cnt) + some + cap)):
        c.results('blame-' + nm, 'the invalid reply is blamed on its sender', F, P, r'Result::Err\{0=Error::InvalidMessage\{from=from,.*\}\}', base + f, **kw)
    c.never('no-blame', 'a peer is blamed for headers that no longer fit our chain', F, P, ret(r'.*InvalidMessage.*'), asked + typ + stop + neg(tip), **kw)
    c.always('retry', 'a reply that does not fit our tip schedules a new sync', F, P, wakes(), asked + typ + stop + new + neg(tip), **kw)
    c.always('forget', 'the answered request is no longer outstanding', F, P, call('HashMap::remove', r"self\.inflight'?", r'msg\.stop_hash'), asked, **kw)
    h = r"Filters::import_headers\(.*\)\.Ok"
    done = [(r'eq\((BlockReader::height\(tree\),' + h + r'|' + h + r',BlockReader::height\(tree\))\)', True)]
    ok = [(r'is\(Filters::import_headers\(.*\),Ok\)', True)]
    c.always('synced', 'reaching the block height is announced', F, P, emits(r'FilterHeadersSynced\{height=' + h + r'\}'), good + ok + done, exits='Result::Ok.*', **kw)
    c.never('synced-early', 'completion is announced below the block height', F, P, emits('FilterHeadersSynced.*'), neg(done), **kw)
    c.always('more', 'below the block height the sync goes on', F, P, call('FilterManager::sync'), good + ok + neg(done), exits='Result::Ok.*', **kw)
    c.results('store-error', 'a failed import is reported', F, P, r'Result::Err\{0=Error::Filters\{.*\}\}', good + neg(ok), **kw)
    act = [(r'self\.rescan\.active', True)]
    cur = r'lt\(.*self\.rescan\.current.*\)'
    c.each('then-filters', 'an active rescan requests the new filters from where it stands', F, P, call('FilterManager::get_cfilters'),
           lambda e, f, m: re.fullmatch(r'RangeInclusive\{start=(Filters::height\(self\.filters\)|add\(Filters::height\(self\.filters\),1\)|self\.rescan\.current|max\(.*\)),end=(' + h + r'|self\.rescan\.end\.Some|min\(.*\))\}', str(e.args[1])) is not None, **kw)
    c.never('inactive', 'filters are requested without a rescan', F, P, call('FilterManager::get_cfilters'), neg(act), **kw)
    R, RP = FM + 'received_event', ['self', 'event', 'tree', 'blocks']
    msg = r'event\.MessageReceived\.message'
    is_ = [(r'is\(event,MessageReceived\)', True), (r'is\(' + msg + r'.*,CFHeaders\)', True)]
    o2 = ['received_cfheaders$']
    rr = r'FilterManager::received_cfheaders\(.*\)'
    c.always('dispatch', 'filter headers are handled', R, RP, call('FilterManager::received_cfheaders', 'self', r'event\.MessageReceived\.from', r'.*CFHeaders.*', 'tree'), is_, opaque=o2)
    c.always('misbehaved', 'an invalid reply is reported as misbehaviour', R, RP, emits(r'PeerMisbehaved\{addr=' + rr + r'\.Err\.InvalidMessage\.from,.*\}'),
             is_ + [(r'is\(' + rr + r',Err\)', True), (r'is\(' + rr + r',Ok\)', False), (r'is\(' + rr + r'\.Err,InvalidMessage\)', True)], opaque=o2)
    c.never('misbehaved-only', 'an ignored or accepted reply is reported as misbehaviour', R, RP, emits('PeerMisbehaved.*'),
            is_ + [(r'is\(' + rr + r'\.Err,InvalidMessage\)', False)], opaque=o2)


def F04(c):
    """received_cfilter: only filters matching the filter header chain are reported, cached or queued."""
    prev_header(c)
    F, P = FM + 'received_cfilter', ['self', 'from', 'msg', 'tree']
    op = ['Rescan::process$']
    kw = dict(opaque=op)
    gb = r'BlockReader::get_block\(tree,msg\.block_hash\)'
    h = gb + r'\.Some\.0'
    hd = r'Filters::get_header\(self\.filters,' + h + r'\)'
    pv = r'Filters::get_prev_header\(self\.filters,' + h + r'\)\.Some'
    calc = r'BlockFilter::filter_header\(BlockFilter::new\(msg\.filter\),' + pv + r'\)'
    typ = [(r'eq\(msg\.filter_type,0\)', True)]
    blk = [(r'is\(' + gb + r',Some\)', True)]
    has = [(r'is\(' + hd + r',Some\)', True)]
    okh = [(r'eq\((' + calc + r',' + hd + r'\.Some\.1|' + hd + r'\.Some\.1,' + calc + r')\)', True)]
    use = anyof(emits('FilterReceived.*'), call('FilterCache::push'), call('HashMap::insert', r"self\.rescan\.received'?"), call('BTreeSet::remove', r"self\.rescan\.requested'?"),
                call('Rescan::process'), write(r'self\.rescan\..*'))
    for nm, what, f in (('type', 'a filter of another type is used', typ), ('block', 'a filter of an unknown block is used', blk),
                        ('header', 'a filter whose header we do not have is used', has), ('hash', 'a filter that does not hash to our filter header is used', okh)):
        c.never(nm, what, F, P, use, neg(f), **kw)
    c.results('blame', 'a filter that does not match is blamed on its sender', F, P, r'Result::Err\{0=Error::InvalidMessage\{from=from,.*\}\}', typ + blk + has + neg(okh), **kw)
    for nm, f in (('type', typ), ('block', blk)):
        c.never('noblame-' + nm, 'a filter we cannot judge is blamed on its sender', F, P, ret('.*InvalidMessage.*'), neg(f), **kw)
    c.never('noblame-header', 'a filter we cannot judge is blamed on its sender', F, P, ret('.*InvalidMessage.*'), typ + blk + neg(has), **kw)
    good = typ + blk + has + okh
    flt = r'BlockFilter::new\(msg\.filter\)'
    c.always('report', 'a verified filter is reported', F, P, emits(r'FilterReceived\{from=from,filter=' + flt + r',height=' + h + r',block=msg\.block_hash\}'), good, **kw)
    req = [(r'is\(get\(self\.rescan\.requested,' + h + r'\),Some\)|get\(self\.rescan\.requested,' + h + r'\)', True)]
    c.always('queue', 'a requested filter is cached, queued under its height, and the queue is processed', F, P,
             [call('BTreeSet::remove', r'self\.rescan\.requested', h), call('FilterCache::push', r"self\.rescan\.cache'?", h, '.*' + flt + '.*'),
              call('HashMap::insert', r"self\.rescan\.received'?", h, r'\(.*' + flt + r'.*,msg\.block_hash,false\)'), call('Rescan::process')], good + req, **kw)
    c.never('unrequested', 'a filter nobody asked for is queued or cached', F, P, anyof(call('FilterCache::push'), call('HashMap::insert', r"self\.rescan\.received'?"), call('Rescan::process')), neg(req), **kw)
    pr = r"Rescan::process\(.*\)"
    c.results('matches', 'the matches found are returned', F, P, r'Result::Ok\{0=' + pr + r'\.0\}', good + req, **kw)
    c.always('progress-time', 'progress postpones re-requests', F, P, write(r"self'?\.last_processed", r'Option::Some\{0=Clock::local_time\(.*\)\}'),
             good + req + [(r'lt\(0,' + pr + r'\.2\)', True), (r'eq\(' + pr + r'\.2,0\)', False), (r'lt\(' + pr + r'\.2,1\)', False)], **kw)
    c.never('progress-time-none', 'no progress postpones re-requests', F, P, write(r"self'?\.last_processed"),
            [(r'lt\(0,' + pr + r'\.2\)', False), (r'eq\(' + pr + r'\.2,0\)', True), (r'lt\(' + pr + r'\.2,1\)', True)], **kw)
    c.foreach('events', 'every event of processing is emitted', F, P, r'elem\(' + pr + r'\.1\)', [out(r'Io::Event\{0=elem\(' + pr + r'\.1\)\}')], must=False, **kw)
    R, RP = FM + 'received_event', ['self', 'event', 'tree', 'blocks']
    is_ = [(r'is\(event,MessageReceived\)', True), (r'is\(event\.MessageReceived\.message.*,CFilter\)', True)]
    o2 = ['received_cfilter$']
    rr = r'FilterManager::received_cfilter\(.*\)'
    ok = [(r'is\(' + rr + r',Ok\)', True), (r'is\(' + rr + r',Err\)', False)]
    c.always('dispatch', 'filters are handled', R, RP, call('FilterManager::received_cfilter', 'self', r'event\.MessageReceived\.from', r'.*CFilter.*', 'tree'), is_, opaque=o2)
    c.always('misbehaved', 'an invalid filter is reported as misbehaviour', R, RP, emits(r'PeerMisbehaved\{addr=' + rr + r'\.Err\.InvalidMessage\.from,.*\}'),
             is_ + neg(ok) + [(r'is\(' + rr + r'\.Err,InvalidMessage\)', True)], opaque=o2)
    c.never('misbehaved-only', 'an ignored or accepted filter is reported as misbehaviour', R, RP, emits('PeerMisbehaved.*'),
            is_ + [(r'is\(' + rr + r'\.Err,InvalidMessage\)', False)], opaque=o2)


def F05(c):
    """Rescan::process / match_filter / pending blocks: in-order matching, each match fetched and reported once."""
    F, P = RS + 'process', ['self']
    cur = r"(self\.current|add\((ctr\()?self\.current\)?,\d+\)|ctr\(self\.current\))"
    take = call('HashMap::remove', r"self\.received'*", '.*')
    ent = r"(prev\()?(get\(self\.received'*,.*\)|prev.*)\.Some"
    c.each('order', 'filters leave the queue by ascending height from the current one', F, P, anyof(take, call('HashMap::get', r"self\.received'*")),
           lambda e, f, m: re.fullmatch(cur, str(e.args[1])) is not None)
    c.possible('order-first', 'the current height comes first', F, P, call('HashMap::remove', r'self\.received', r'self\.current'))
    c.possible('order-next', 'then the next', F, P, call('HashMap::remove', r"self\.received'", r'add\(self\.current,1\)'))
    fp = r'Event::FilterProcessed\{.*\}'
    push_ev = call('Vec::push', r"Vec::new\(\)'*", fp)
    has0 = [(r'is\(get\(self\.received,self\.current\),Some\)', True)]
    c.always('announce', 'a processed filter is announced with its height and block', F, P,
             call('Vec::push', r"Vec::new\(\)'*", r'Event::FilterProcessed\{block=.*get\(self\.received,self\.current\)\.Some\.1,height=self\.current,.*cached=.*get\(self\.received,self\.current\)\.Some\.2\}'), has0)
    mf = r'Rescan::match_filter\(self.*\)'
    o2 = ['match_filter$']
    okm = [(r'is\(' + mf + r',Ok\)', True)]
    hit = okm + [(mf + r'\.Ok', True)]
    mpush = call('Vec::push', r"Vec::new\(\)'*", r'\(.*\)')
    c.always('match', 'a matching filter yields its height and block', F, P, call('Vec::push', r"Vec::new\(\)'*", r'\(self\.current,.*get\(self\.received,self\.current\)\.Some\.1\)'), has0 + hit, opaque=o2)

    def paired(t):
        x = re.fullmatch(r"\(" + cur + r",get\(self\.received'*,(.*?)\)\.Some\.1\)", str(t))
        return x is not None and x.group(1) == x.group(3)
    c.never('no-match', 'a filter that does not match yields a block', F, P, mpush, [(mf + r'\.Ok', False)], opaque=o2)
    c.never('bad-match', 'an undecodable filter yields a block', F, P, mpush, neg(okm), opaque=o2)
    c.each('match-what', 'matches pair the height with the block of the same queue entry', F, P, mpush,
           lambda e, f, m: paired(e.args[1]), opaque=o2)
    c.each('match-args', 'the queued filter is matched with its own block', F, P, call('Rescan::match_filter'),
           lambda e, f, m: str(e.args[1]).endswith('.Some.0') and str(e.args[2]) == str(e.args[1])[:-1] + '1', opaque=o2)
    c.each('announce-flags', 'validity and match are as found', F, P, push_ev,
           lambda e, f, m: re.search(r'matched=(false|' + mf + r'\.Ok|unwrap_or\(' + mf + r',false\)),valid=is\(' + mf + r',Ok\)', str(e.args[1])) or re.search(r'matched=' + mf + r'\.Ok,valid=true', str(e.args[1])) or re.search(r'matched=false,valid=false', str(e.args[1])) or re.search(r'matched=(true|false),valid=true', str(e.args[1])), opaque=o2)

    wrong = []

    def looked(mon, t, v):
        if t.op == 'is' and t.a[0].op == 'get' and re.fullmatch(r"self\.received'*", str(t.a[0].a[0])):
            return frozenset(x for x in mon if x[0] != '@') | {('@', t.a[0].a[1], v)}
        return mon

    def moved(mon, nm, e, st=None):
        for x in mon:
            if x[0] == '@' and (x[1] if x[2] else mk_add(x[1], K(1))) is e.args[1]:
                wrong.append((e, 'processed' if x[2] else 'left out'))
        if not re.fullmatch(cur, str(e.args[1])):
            wrong.append((e, 'unrelated'))
        return mon | {'w'}

    def advance():
        c.run(F, P, (), [('w', write(r'self\.current'))], step=moved, decide=looked, reset=wrong.clear, opaque=o2)
        return 1, [(e.where(), 'advances to a height that is wrong because one is %s: `%s`' % (w, e)) for e, w in wrong[:3]]
    c.custom('advance', 'the current height becomes the first one not processed', advance)
    c.possible('advance-does', 'the current height advances', F, P, write(r'self\.current'), opaque=o2)
    stop = [(r'is\(self\.end,Some\)', True)]
    past0 = [(r'is\(get\(self\.received,self\.current\),Some\)', False)]
    lt = [(r'lt\(self\.end\.Some,self\.current\)', True), (r'lt\(self\.current,add\(self\.end\.Some,1\)\)', False)]
    fin = call('Vec::push', r"Vec::new\(\)'*", r'Event::FilterRescanStopped\{height=self\.end\.Some\}')
    act = [(r'self\.active', True)]
    c.always('finish', 'a rescan that passed its last height ends and says so', F, P, [fin, write(r'self\.active', 'false')], stop + past0 + lt + act)
    pastn = [(r'lt\(self\.end\.Some,.*\)', True), (r'lt\((add\()?self\.current(,\d+\))?,self\.end\.Some\)', False), (r'lt\(.*,add\(self\.end\.Some,\d\)\)', False)]
    c.always('finish-any', 'a rescan that passed its last height ends and says so, however far it advanced', F, P, [fin, write(r'self\.active', 'false')], stop + pastn + act, opaque=o2)
    c.never('finish-early', 'a rescan ends before its last height was processed', F, P, anyof(fin, write(r'self\.active', 'false')), [(r'lt\(self\.end\.Some,.*\)', False), (r'lt\((add\()?self\.current(,\d+\))?,self\.end\.Some\)', True), (r'lt\(.*,add\(self\.end\.Some,1\)\)', True)], opaque=o2)
    c.never('finish-open', 'a rescan without an end ends', F, P, anyof(call('Vec::push', '.*', r'Event::FilterRescanStopped.*'), write(r'self\.active')), neg(stop), opaque=o2)
    c.results('return', 'matches, events and progress are returned', F, P, r"\(Vec::new\(\)'*,Vec::new\(\)'*,.*\)", opaque=o2)
    # matching
    G, GP = RS + 'match_filter', ['self', 'filter', 'hash']
    w = [(r'eq\(len\(self\.watch\),0\)', False)]
    ma = r'BlockFilter::match_any\(filter,hash,.*\)'
    c.always('any', 'watched scripts are matched against the filter', G, GP, call('BlockFilter::match_any', 'filter', 'hash', PLAIN + r'.*self\.watch.*'), w)
    c.never('any-false', 'a filter matching a watched script is not a match', G, GP, ret(r'Result::Ok\{0=(false|any\(.*|Iterator::any.*)\}'), w + [(r'is\(' + ma + r',Ok\)', True), (ma + r'\.Ok', True)])
    c.results('any-err', 'a decoding error is reported', G, GP, r'Result::Err\{.*', w + [(r'is\(' + ma + r',Ok\)', False)])
    t = [(r'eq\(len\(self\.transactions\),0\)', False)]
    mall = call('BlockFilter::match_all', 'filter', 'hash', r'.*(elem\((values\()?self\.transactions\)?\)|get\(self\.transactions,key\(self\.transactions\)\)).*')
    c.foreach('tx', 'otherwise watched transactions are matched', G, GP, r'.*self\.transactions.*', [mall], t + [(ma + r'\.Ok', False), (r'is\(' + ma + r',Ok\)', True)], whole=False)
    looked = lambda e: e.kind in ('iter', 'iter_end') and 'self.transactions' in str(e.args[0])
    c.always('tx-looked', 'watched transactions are considered whenever no script matched', G, GP, looked, t + [(ma + r'\.Ok', False)], exits=r'Result::Ok.*')
    c.possible('tx-all', 'a transaction matches if all of its outputs do', G, GP, mall, t)
    c.never('tx-any', 'one output suffices to match a transaction', G, GP, call('BlockFilter::match_any', 'filter', 'hash', r'.*self\.transactions.*'))
    # matched blocks
    R, RP = FM + 'received_event', ['self', 'event', 'tree', 'blocks']
    is_ = [(r'is\(event,MessageReceived\)', True), (r'is\(event\.MessageReceived\.message.*,CFilter\)', True)]
    o3 = ['received_cfilter$']
    rr = r'FilterManager::received_cfilter\(.*\)'
    el = r'elem\(' + rr + r'\.Ok\)'
    isnew = [(r"is\(get\(self'*\.pending_blocks'*," + el + r'\.0\),Some\)', False)]
    c.foreach('fetch', 'every new match is remembered and its block fetched', R, RP, el,
              [call('BTreeSet::insert', r"self'*\.pending_blocks'*", el + r'\.0'), call('BlockSource::get_block', r"blocks'*", el + r'\.1')], is_ + isnew, must=False, opaque=o3)
    c.never('fetch-dup', 'a block already awaited is fetched again', R, RP, call('BlockSource::get_block'), is_ + neg(isnew), opaque=o3)
    empty = r"eq\(len\(self'*\.pending_blocks'*\),0\)"
    c.never('scanned-early', 'scanning progress is announced although matched blocks are outstanding', R, RP, emits('Scanned.*'), is_ + [(empty, False)], opaque=o3)
    c.always('scanned', 'scanning progress is announced', R, RP, emits(r"Scanned\{height=self'*\.rescan\.current\}"), is_ + [(r'is\(' + rr + r',Ok\)', True), (empty, True)], opaque=o3)
    bp = [(r'is\(event,BlockProcessed\)', True)]
    h = r'event\.BlockProcessed\.height'
    pend = [(r'is\(get\(self\.pending_blocks,' + h + r'\),Some\)|get\(self\.pending_blocks,' + h + r'\)', True)]
    c.always('matched', 'an awaited block is reported once it was processed', R, RP, [emits(r'BlockMatched\{height=' + h + r',block=event\.BlockProcessed\.block\}'), emits(r'Scanned\{.*'),
             call('BTreeSet::remove', r'self\.pending_blocks', h)], bp + pend)
    c.never('matched-other', 'a block nobody matched is reported as matching', R, RP, anyof(emits('BlockMatched.*'), emits('Scanned.*')), bp + neg(pend))
    c.each('scanned-height', 'progress is the matched height, or the scan height when nothing is awaited', R, RP, emits('Scanned.*'),
           lambda e, f, m: re.fullmatch(r".*Scanned\{height=(" + h + r"|self\.rescan\.current|max\(.*\))\}.*", str(e.args[1])) is not None, bp)
    c.never('scanned-jump', 'progress jumps ahead although matched blocks are outstanding', R, RP, emits(r"Scanned\{height=.*rescan.*\}"), bp + [(empty, False)])
    c.always('reorg', 'a disconnected block is no longer awaited', R, RP, call('BTreeSet::remove', r'self\.pending_blocks', r'event\.BlockDisconnected\.height'), [(r'is\(event,BlockDisconnected\)', True)])
    lose = anyof(write(r"self'*\.pending_blocks'*"), call('.*::(clear|retain|split_off|pop_first|pop_last|drain|append)', r"self'*\.pending_blocks'*"))
    c.never('pending-lost', 'a new rescan forgets blocks still awaited', FM + 'rescan', ['self', 'start', 'end', 'watch', 'tree'], lose, opaque=['get_cfilters$', 'Rescan::process$'])
    cf = [(r'is\(event,TxStatusChanged\)', True), (r'is\(event\.TxStatusChanged\.status,Confirmed\)', True)]
    rv = [(r'is\(event,TxStatusChanged\)', True), (r'is\(event\.TxStatusChanged\.status,Reverted\)', True), (r'is\(event\.TxStatusChanged\.status,Confirmed\)', False)]
    c.always('unwatch', 'a confirmed transaction is no longer watched', R, RP, call('HashMap::remove', r'self\.rescan\.transactions', r'event\.TxStatusChanged\.txid'), cf)
    tx = r'event\.TxStatusChanged\.status\.Reverted\.transaction'
    c.always('rewatch', 'a reverted transaction is watched again', R, RP, call('HashMap::insert', r'self\.rescan\.transactions', r'Transaction::txid\(' + tx + r'\)', r'.*' + tx + r'\.output.*'), rv)
    c.never('unwatch-other', 'a transaction is unwatched before it confirms', R, RP, call('HashMap::(remove|clear)', r'self\.rescan\.transactions'),
            [(r'is\(event\.TxStatusChanged\.status,Confirmed\)', False)])
    c.always('watch', 'scripts are added to the watch list', FM + 'watch', ['self', 's'], anyof(call('.*extend', r'self\.rescan\.watch', 's'), call('HashSet::insert', r"self\.rescan\.watch'*", r'elem\(s\)')))
    c.always('watch-tx', 'all outputs of a transaction are watched', FM + 'watch_transaction', ['self', 'tx'],
             call('HashMap::insert', r'self\.rescan\.transactions', r'Transaction::txid\(tx\)', r'collect\(map\(tx\.output,.*\)\)|HashSet.*'))
    c.each('watch-tx-item', 'outputs are watched by script', FM + 'watch_transaction', ['self', 'tx'], anyof(item(r'.*', r'.*'), call('HashSet::insert')),
           lambda e, f, m: re.search(r'elem\(tx\.output\)\.script_pubkey', str(e.args[1])) is not None)


def F06(c):
    """Requests: bounded, not repeated while outstanding, armed with a timer, retried on expiry."""
    H = r'HeightIterator as .*Iterator>::next'
    endc = [(r'lt\(self\.stop,add2\((self\.start,self\.step|self\.step,self\.start)\)\)', True), (r'lt\(add\(add2\((self\.start,self\.step|self\.step,self\.start)\),-1\),self\.stop\)', False)]
    left = [(r'lt\(self\.stop,self\.start\)', False), (r'lt\(self\.start,add\(self\.stop,1\)\)', True)]
    full = r'add\(add2\((self\.start,self\.step|self\.step,self\.start)\),-1\)'
    c.results('chunk-none', 'an exhausted range yields nothing', H, ['self'], 'Option::None', neg(left))
    c.results('chunk', 'a chunk spans at most the step', H, ['self'], r'Option::Some\{0=RangeInclusive\{start=self\.start,end=(' + full + r'|min\(.*)\}\}', left + neg(endc))
    c.results('chunk-last', 'the last chunk ends with the range', H, ['self'], r'Option::Some\{0=RangeInclusive\{start=self\.start,end=(self\.stop|min\(.*|' + full + r')\}\}', left + endc)
    c.always('chunk-next', 'the next chunk starts after this one', H, ['self'], write(r'self\.start', r'add2\((self\.start,self\.step|self\.step,self\.start)\)|add\(min\(.*'), left + neg(endc))
    c.always('chunk-done', 'after the last chunk nothing is left', H, ['self'], write(r'self\.start', r'add\(self\.stop,1\)|add2\(.*|add\(min\(.*'), left + endc)
    G, GP = FM + 'get_cfilters', ['self', 'range', 'tree']
    op = ['Rescan::requests$']
    rq = r"Rescan::requests\(self\.rescan,range,tree\)"
    snd = sends('.*', 'GetCFilters.*')
    okr = [(r'lt\(range\.end,range\.start\)', False), (r'lt\(Filters::height\(self\.filters\),range\.end\)', False)]
    con = [(r'eq\(len\(self\.peers\.inner\),0\)', False)]
    blk = [(r'is\(BlockReader::get_block_by_height\(tree,.*\),Some\)', True)]
    c.never('no-peer', 'filters are requested or marked requested without a peer', G, GP, anyof(snd, call('Rescan::requests')), neg(con), opaque=op)
    c.never('range', 'filters beyond the filter header chain are requested', G, GP, anyof(snd, call('Rescan::requests')), [(okr[1][0], True)], opaque=op)
    el = r'elem\(' + rq + r'\)'
    bh = r'BlockHeader::block_hash\(BlockReader::get_block_by_height\(tree,' + el + r'\.end\)\.Some\)'
    c.foreach('send', 'each missing range is requested once, with a timer', G, GP, el,
              [sends('.*', r'GetCFilters\{0=GetCFilters\{filter_type=0,start_height=' + el + r'\.start,stop_hash=' + bh + r'\}\}'), wakes(r"self'?\.config\.request_timeout")], con + okr + blk, opaque=op, whole=False)
    c.always('send-any', 'the missing ranges are determined', G, GP, call('Rescan::requests', r'self\.rescan', 'range', 'tree'), con + okr, opaque=op)
    c.each('send-peer', 'requests go to connected peers', G, GP, snd, lambda e, f, m: re.search(r'Io::Write\{0=(?:[^{]*self\.peers|elem\(cycle\(map\(shuffled\(Vec::new)', str(e.args[1])) is not None, opaque=op)
    def whole():
        r = c.run(G, GP, con + okr, [('x', lambda e: e.kind in ('iter', 'iter_end') and 'Rescan::requests(' in str(e.args[0]))], opaque=op)
        bad = []
        for e, f, m in r.hits.get('x', []):
            t = str(e.args[0])
            if re.search(r'\b(take|skip|step_by|filter|take_while|skip_while|filter_map)\(', t.split('cycle(')[0]) or ('zip(' in t and 'cycle(' not in t):
                bad.append((e.where(), 'not all ranges are requested: `%s`' % t))
        return len(r.hits.get('x', [])), bad[:2]
    c.custom('send-whole', 'all missing ranges are requested, however few peers there are', whole)
    Q, QP = RS + 'requests', ['self', 'range', 'tree']
    ne = [(r'lt\(range\.end,range\.start\)', False)]
    hit = [(r'is\((FilterCache::get\(.*\)|get\(self\.cache\.cache,elem\(range\)\)),Some\)', True), (r'is\(BlockReader::get_block_by_height\(tree,elem\(range\)\),Some\)', True)]
    cached = r"(get\(self\.cache\.cache,elem\(range\)\)|FilterCache::get\(.*\))\.Some"
    c.always('cached', 'cached filters of the range are queued', Q, QP, anyof(call('HashMap::insert', r"self\.received'?", r'elem\(range\)', r'\(.*' + cached + r'.*,BlockHeader::block_hash\(BlockReader::get_block_by_height\(tree,elem\(range\)\)\.Some\),true\)'),
             lambda e: e.kind == 'iter_end'), ne + hit)
    c.foreach('cached-each', 'every cached filter of the range is queued with its block', Q, QP, r'elem\(range\)',
              [call('HashMap::insert', r"self\.received'?", r'elem\(range\)', r'\(.*' + cached + r'.*,BlockHeader::block_hash\(BlockReader::get_block_by_height\(tree,elem\(range\)\)\.Some\),true\)')], ne + hit,
              stop=item('.*', r'elem\(range\)'))
    sk = r"BTreeSet::new\(\)'*"
    dif = call('BTreeSet::difference', '.*', sk)
    dif2 = anyof(dif, call('(BTreeSet|HashSet|HashMap)::(contains|contains_key)'))
    c.before('skip-queued', 'queued filters are not requested again', Q, QP, anyof(call('Extend::extend', sk, r"(keys\()?self\.received'?\)?"), call('(HashMap|BTreeMap)::contains_key', r"self\.received'?")), dif2)
    c.before('skip-requested', 'outstanding filters are not requested again', Q, QP, anyof(call('Extend::extend', sk, r'self\.requested'), call('BTreeSet::contains', r"self\.requested'?"), call('BTreeSet::(insert|clone)')), dif2)
    dh = r'elem\(BTreeSet::difference\(.*\)\)'

    def joins(e, f, m):
        x = re.search(r'end=(.*)\}$', str(e.args[1]))
        new = x.group(1) if x else str(e.args[1])
        eqs = [re.fullmatch(r'eq\((add\(.*\)),(' + dh + r')\)', str(t)) for t, v in f.items() if v is True]
        return any(q and new in (q.group(1), q.group(2)) for q in eqs)
    c.each('merge', 'a range is extended only by the height right after it', Q, QP, write(r"last\(Vec::new\(\)'*\)\.Some(\.end)?"), joins, ne, least=0)
    c.each('step', 'no request exceeds a thousand filters', Q, QP, anyof(item('.*', r'.*HeightIterator\{.*'), call('Vec::push', '.*', r'.*HeightIterator.*')),
           lambda e, f, m: re.search(r'step=1000\}', str(e.args[1])) is not None)
    c.results('step-all', 'all requests go through that limit', Q, QP, r"Vec::new\(\)'*|collect\((flat_map|phi)\(.*\)\)|\[\]", ne)
    done = r"elem\((collect\((flat_map|phi)\(.*\)\)|Vec::new\(\)'*|HeightIterator.*)\)"
    lim = anyof(item('.*', '.*HeightIterator.*'), call('Extend::extend', '.*', '.*HeightIterator.*'))
    md = 'requested heights are marked outstanding'

    def by_range():
        ext = anyof(call('Extend::extend', r"self\.requested'*", done), call('BTreeSet::insert', r"self\.requested'*", r'elem\(' + done + r'\)'))
        c.foreach('mark', md, Q, QP, done, [ext], ne, stop=lim)
        c.each('mark-what', md, Q, QP, call('(Extend::extend|BTreeSet::insert)', r"self\.requested'*"), lambda e, f, m: ext(e), ne)

    def by_height():
        d = r"elem\(BTreeSet::difference\(.*\)\)"
        c.foreach('mark', md, Q, QP, d, [call('BTreeSet::insert', r"self\.requested'*", d)], ne)
    c.either(by_range, by_height)
    c.const('max-filters', 'filters per request', 'cbfmgr::MAX_MESSAGE_CFILTERS', '1000')
    c.const('max-headers', 'headers per request', 'cbfmgr::MAX_MESSAGE_CFHEADERS', '2000')
    # headers
    S, SP = FM + 'send_getcfheaders', ['self', 'range', 'tree']
    o2 = ['FilterManager::get_cfheaders$']
    n = r'sub\(range\.end,range\.start\)'
    small = [(r'lt\(' + n + r',(1999|2000)\)', True), (r'lt\(1999,' + n + r'\)', False), (r'lt\(add\(' + n + r',1\),2000\)', True), (r'lt\(range\.end,add\(range\.start,\d+\)\)', True), (r'lt\(add\(range\.start,1999\),range\.end\)', False)]
    pos = [(r'lt\(range\.end,range\.start\)', False)]
    st = lambda h: r'BlockHeader::block_hash\(BlockReader::get_block_by_height\(tree,' + h + r'\)\.Some\)'
    c.each('hdr-request', 'header requests start with the first missing header and span at most two thousand', S, SP, call('FilterManager::get_cfheaders'),
           lambda e, f, m: str(e.args[1]) == 'range.start' and re.fullmatch(st(r'(add\(range\.start,1999\)|range\.end|add2.*|min.*)'), str(e.args[2])) is not None, opaque=o2)
    c.never('hdr-small', 'a short range is not requested whole', S, SP, call('FilterManager::get_cfheaders', '.*', '.*', st(r'add\(range\.start,1999\)')), small, opaque=o2)
    c.never('hdr-large', 'more than two thousand headers are requested', S, SP, call('FilterManager::get_cfheaders', '.*', '.*', st(r'range\.end')), neg(small), opaque=o2)
    c.always('hdr-send', 'a non-empty range is requested', S, SP, call('FilterManager::get_cfheaders'), pos, opaque=o2)
    R, RP = FM + 'get_cfheaders', ['self', 'start', 'stop']
    infl = [(r'is\(get\(self\.inflight,stop\),Some\)', True)]
    hs = sends('.*', 'GetCFHeaders.*')
    c.never('hdr-dup', 'an outstanding header request is repeated', R, RP, anyof(hs, call('HashMap::insert', r"self\.inflight'?")), infl)
    c.along('hdr-track', 'a header request is tracked until answered', R, RP, hs, call('HashMap::insert', r"self\.inflight'?", 'stop', r'\(start,.*,add2\((Clock::local_time\(self\.clock\),self\.config\.request_timeout|self\.config\.request_timeout,Clock::local_time\(self\.clock\))\)\)'))
    c.along('hdr-timer', 'a header request is armed with a timer', R, RP, hs, wakes(r'self\.config\.request_timeout'))
    c.each('hdr-same', 'the tracked peer is the one asked', R, RP, call('HashMap::insert', r"self\.inflight'?"),
           lambda e, f, m: re.search(r'^\(start,(.*),add2', str(e.args[2])) is not None and 'self.peers' in str(e.args[2]))
    c.each('hdr-msg', 'the request carries the given range', R, RP, hs, lambda e, f, m: re.search(r'GetCFHeaders\{0=GetCFHeaders\{filter_type=0,start_height=start,stop_hash=stop\}\}', str(e.args[1])) is not None)
    T_, TP = FM + 'timer_expired', ['self', 'tree']
    lose = anyof(write(r"self'*\.inflight'*"), call('.*::(clear|retain|drain)', r"self'*\.inflight'*"))
    c.never('hdr-kept', 'outstanding header requests are forgotten when another one is made', R, RP, lose)
    o3 = ['get_cfilters$', 'FilterManager::sync$', 'FilterManager::idle$']
    en = r"get\(self'*\.inflight'*,key\(self'*\.inflight'*\)\)\.Some"
    exp = [(r"lt\(Clock::local_time\(self'*\.clock\)," + en + r'\.2\)', False), (r"lt\(" + en + r"\.2,add\(.*\)\)", True)]
    smp = [(r"is\(NonEmpty::from_vec\(.*\),Some\)", True), (r"eq\(len\(collect\(filter\(self'*\.peers\.inner'*,closure\)\)\),0\)", False)]
    kv = r"\(key\(self'*\.inflight'*\)," + en + r'\)|' + en
    c.foreach('retry', 'every expired header request is sent again with a new deadline', T_, TP, kv,
              [sends(r".*", r"GetCFHeaders\{0=GetCFHeaders\{filter_type=0,start_height=" + en + r"\.0,stop_hash=key\(self'*\.inflight'*\)\}\}"),
               wakes(r"self'*\.config\.request_timeout"),
               write(en + r'\.2', r"add2\((Clock::local_time\(self'*\.clock\),self'*\.config\.request_timeout|self'*\.config\.request_timeout,Clock::local_time\(self'*\.clock\))\)"),
               write(en + r'\.1')], exp + smp, opaque=o3)
    c.never('retry-early', 'a request that has not expired is repeated or its peer dropped', T_, TP, anyof(hs, disconnects(), write(en + r'\.[12]')), neg(exp), opaque=o3)
    pers = [(r"is\(get\(self'*\.peers\.inner'*," + en + r'\.1\),Some\)', True), (r"get\(self'*\.peers\.inner'*," + en + r'\.1\)\.Some\.persistent', True)]
    c.never('spare-persistent', 'an unresponsive persistent peer is disconnected', T_, TP, disconnects(), pers, opaque=o3)
    same = [(r"eq\(.*(NonEmpty::from_vec|key\(self'*\.peers).*\)", True)]
    c.never('spare-only', 'the peer asked again is disconnected', T_, TP, disconnects(), same, opaque=o3)
    c.each('drop', 'only the unresponsive peer is disconnected', T_, TP, disconnects(), lambda e, f, m: re.search(r'Io::Disconnect\{0=' + en + r'\.1,1=DisconnectReason::PeerTimeout', str(e.args[1])) is not None, opaque=o3)
    c.foreach('drop-does', 'an unresponsive peer is disconnected when another one takes over', T_, TP, kv, [disconnects(en + r'\.1', 'PeerTimeout.*')],
              exp + smp + neg(same) + [(pers[0][0], True), (pers[1][0], False)], opaque=o3)
    act = [(r"self'*\.rescan\.active", True)]
    late = [(r"lt\(sub\(Clock::local_time\(self'*\.clock\),.*\),.*6000.*\)", False), (r'lt\(.*last_processed.*', False)]
    c.always('refilter', 'when filters stay away the outstanding marks are cleared and they are requested again', T_, TP,
             [call('BTreeSet::clear', r"self'*\.rescan\.requested"), call('FilterManager::get_cfilters', r"self'*", r"RangeInclusive\{start=self'*\.rescan\.current,end=Filters::height\(self'*\.filters\)\}")], act + late, opaque=o3)
    c.never('refilter-early', 'outstanding marks are cleared early', T_, TP, call('BTreeSet::clear', r"self'*\.rescan\.requested"), neg(late), opaque=o3)
    c.never('refilter-idle', 'filters are requested without a rescan', T_, TP, call('FilterManager::get_cfilters'), neg(act), opaque=o3)
    c.always('tick', 'the idle check runs on every tick', T_, TP, call('FilterManager::idle'), opaque=o3)
    I = FM + 'idle'
    due = [(r"lt\(sub\(Clock::local_time\(self\.clock\),.*\),.*60000.*\)", False)]
    c.always('idle', 'the sync is retried every minute', I, TP, [call('FilterManager::sync'), write(r"self'*\.last_idle", r"Option::Some\{0=Clock::local_time\(.*\)\}"), wakes(r'LocalDuration\{0=60000\}')], due, opaque=['FilterManager::sync$'])
    Y = FM + 'sync'
    o4 = ['get_cfilters$', 'send_getcfheaders$']
    beh = [(r'lt\(Filters::height\(self\.filters\),BlockReader::height\(tree\)\)', True)]
    chk = [(r'is\(.*checkpoints.*,Some\)', False)]
    below = r'lt\(BlockReader::height\(tree\),.*checkpoints.*\)'
    sh = call('FilterManager::send_getcfheaders', 'self', r'RangeInclusive\{start=add\(Filters::height\(self\.filters\),1\),end=BlockReader::height\(tree\)\}', 'tree')
    c.always('sync', 'missing filter headers are requested', Y, TP, sh, beh + [(below, False)], opaque=o4)
    c.never('sync-none', 'filter headers are requested although none is missing', Y, TP, call('FilterManager::send_getcfheaders'), neg(beh), opaque=o4)
    def checkpoint():
        cp = lambda e: 'checkpoints' in str(e.args[0])
        r = c.run(Y, TP, [], [('it', lambda e: e.kind == 'iter' and cp(e)), ('end', lambda e: e.kind == 'iter_end' and cp(e)),
                              ('x', call('FilterManager::(send_getcfheaders|get_cfilters)'))], opaque=o4)
        bad, n = [], 0
        for e, f, m in r.hits.get('x', []):
            fs = {str(t): v for t, v in f.items()}
            if any(re.fullmatch(below, t) and v is False for t, v in fs.items()):
                n += 1
            elif any(re.fullmatch(chk[0][0], t) and v is False for t, v in fs.items()):
                pass
            elif 'it' in m or 'end' not in m:
                bad.append((e.where(), 'filter headers or filters are requested: `%s`' % (e,)))
        return n, bad or ([] if n else [(c.fn(Y), 'the last checkpoint is not compared with our height')])
    c.custom('sync-checkpoint', 'nothing is requested before the last checkpoint is reached', checkpoint)
    c.always('sync-filters', 'an active rescan requests its missing filters', Y, TP, call('FilterManager::get_cfilters', r"self'*", r"RangeInclusive\{start=self'*\.rescan\.current,end=Filters::height\(self'*\.filters\)\}"),
             [(below, False), (r'lt\(BlockReader::height\(tree\),Filters::height\(self\.filters\)\)', False)] + act, opaque=o4)
    N_, NP = FM + 'peer_negotiated', ['self', 'addr', 'height', 'services', 'link', 'persistent', 'tree']
    ob = [(r'(Link::is_outbound\(link\)|is\(link,Outbound\))', True), (r'is\(link,Inbound\)', False)]
    sv = [(r'ServiceFlags::has\(services,.*\)|eq\(.*services.*\)', True)]
    ins = call('(HashMap|AddressBook)::insert', r"self\.peers.*", 'addr', r'Peer\{.*persistent=persistent.*\}')
    o5 = ['FilterManager::sync$', 'ServiceFlags::has$']
    c.never('peer-out', 'an inbound peer is asked for filters', N_, NP, ins, neg(ob), opaque=o5)
    c.never('peer-services', 'a peer without filters is asked for filters', N_, NP, ins, neg(sv), opaque=o5)
    c.always('peer', 'a filter peer is used at once', N_, NP, [ins, call('FilterManager::sync')], ob + sv, opaque=o5)
    c.always('peer-gone', 'a disconnected peer is not asked any more', FM + 'received_event', ['self', 'event', 'tree', 'blocks'],
             call('(HashMap|AddressBook)::remove', r"self\.peers.*", r'event\.PeerDisconnected\.addr'), [(r'is\(event,PeerDisconnected\)', True)])
    A, AP = FM + 'rescan', ['self', 'start', 'end', 'watch', 'tree']
    o6 = ['get_cfilters$', 'Rescan::process$']
    for nm, want in (('Unbounded', r'add\(BlockReader::height\(tree\),1\)'), ('Included', r'start\.Included'), ('Excluded', r'add\(start\.Excluded,1\)')):
        c.always('start-' + nm, 'the rescan starts where asked', A, AP, [write(r'self\.rescan\.start', want), write(r'self\.rescan\.current', want), write(r'self\.rescan\.active', 'true')], [(r'is\(start,%s\)' % nm, True)], opaque=o6)
    for nm, want in (('Unbounded', r'Option::None'), ('Included', r'Option::Some\{0=end\.Included\}'), ('Excluded', r'Option::Some\{0=add\(end\.Excluded,-1\)\}')):
        c.always('end-' + nm, 'the rescan ends where asked', A, AP, write(r'self\.rescan\.end', want), [(r'is\(end,%s\)' % nm, True)], opaque=o6)
    def bounds():
        r = c.run(A, AP, [], [('x', call('FilterManager::get_cfilters'))], opaque=o6)
        bad = []
        for e, f, m in r.hits.get('x', []):
            end = sub(e.args[1], 'end')
            if end is None:
                continue
            E_ = lin(end)
            for L in ({'Filters::height(self.filters)': 1}, {'end.Included': 1}, {'end.Excluded': 1, '': -1}):
                d = {k: E_.get(k, 0) - L.get(k, 0) for k in set(E_) | set(L)}
                d = {k: v for k, v in d.items() if v}
                for t, v in f.items():
                    if t.op == 'lt' and v is True:
                        a, b = lin(t.a[0]), lin(t.a[1])
                        g = {k: b.get(k, 0) - a.get(k, 0) for k in set(a) | set(b)}
                        if d and {k: v for k, v in g.items() if v} == d:
                            bad.append((e.where(), 'filters beyond %s are requested: `%s`' % ('the known ones' if 'height' in str(L) else 'the end asked for', e)))
        return len(r.hits.get('x', [])), bad[:2]
    c.custom('rescan-range', 'a rescan requests filters up to the known ones and its end', bounds)
    c.always('fresh', 'a new rescan forgets outstanding marks and takes the new scripts', A, AP, [call('BTreeSet::clear', r'self\.rescan\.requested'), write(r'self\.rescan\.watch', r'collect\(watch\).*'), emits('FilterRescanStarted.*')], opaque=o6)
    c.foreach('cached-matches', 'blocks matched by cached filters are awaited', A, AP, r"elem\(Rescan::process\(.*\)\.0\)",
              [anyof(item(r"self'*\.pending_blocks'*", r"elem\(Rescan::process\(.*\)\.0\)\.0"), call('BTreeSet::insert', r"self'*\.pending_blocks'*", r"elem\(Rescan::process\(.*\)\.0\)\.0"))], must=False, opaque=o6)
    c.never_after('cached-returned', 'matches of cached filters are lost', A, AP, call('Rescan::process'), ret(r"Vec::new\(\)"), opaque=o6)
    c.foreach('cached-events', 'events of processing cached filters are emitted', A, AP, r"elem\(Rescan::process\(.*\)\.1\)", [out(r"Io::Event\{0=elem\(Rescan::process\(.*\)\.1\)\}")], must=False, opaque=o6)


def F07(c):
    """filter_cache: size accounting, capacity, eviction order, rollback."""
    F, P = 'filter_cache::FilterCache::push', ['self', 'h', 'f']
    big = [(r'lt\(self\.capacity,Filter::len\(f\)\)', True)]
    sane = [(r'lt\(self\.capacity,self\.size\)', False)]
    ins = call('BTreeMap::insert', r'self\.cache', 'h', 'f')
    c.never('too-big', 'a filter larger than the cache is cached', F, P, ins, big)
    c.results('too-big-false', 'it is refused', F, P, 'false', big + sane)
    c.always('insert', 'other filters are cached', F, P, ins, neg(big) + sane)
    rep = [(r'is\(get\(self\.cache,h\),Some\)', True)]
    old = r'Filter::len\(get\(self\.cache,h\)\.Some\)'
    add = lambda x: r'add2\((Filter::len\(f\),%s|%s,Filter::len\(f\))\)' % (x, x)
    c.always('account-new', 'a new filter adds its length', F, P, write(r'self\.size', add(r'self\.size')), neg(big) + sane + neg(rep))
    c.always('account-replaced', 'a replaced filter gives its length back', F, P, write(r'self\.size', add(r'sub\(self\.size,' + old + r'\)') + r'|sub\(' + add(r'self\.size') + r',' + old + r'\)'), neg(big) + sane + rep)
    rm = call('BTreeMap::(remove|pop_first|pop_last)', r"self\.cache'*")
    gone = r"Filter::len\((get\(self\.cache'*,.*\)|first\(.*\)|last\(.*\)|BTreeMap::pop_\w+\(.*\))\.Some.*\)"
    c.after('account-evict', 'an evicted filter gives its length back', F, P, rm, write(r'self\.size', r'sub\(.*,' + gone + r'\)'), [(r"is\(get\(self\.cache'*,key\(.*\)\),Some\)", True)])
    c.never('capacity', 'more than the capacity stays cached', F, P, ret('true'), neg(big) + sane + [(r'lt\(self\.capacity,(?!self\.size\)|Filter::len\(f\)\)).*\)', True)])

    def lowest():
        r = c.run(F, P, [], [('i', lambda e: e.kind == 'iter'), ('p', call('BTreeMap::(pop_last|last_key_value|last_entry)')), ('q', call('BTreeMap::(pop_first|first_key_value|first_entry)'))])
        bad = [(e.where(), 'picks from %s' % e.args[0]) for e, _, _ in r.hits.get('i', []) if str(e.args[0]).startswith('rev(')]
        bad += [(e.where(), 'picks the last') for e, _, _ in r.hits.get('p', [])]
        return len(r.hits.get('i', [])) + len(r.hits.get('q', [])) + len(bad), bad
    c.custom('lowest', 'the lowest height is evicted first', lowest)
    R, RP = 'filter_cache::FilterCache::rollback', ['self', 'h']
    above = r"lt\(h,key\(self\.cache'*\)\)"
    c.never('keep', 'a filter at or below the height is dropped', R, RP, call('BTreeMap::(remove|clear|pop_last|pop_first)'), [(above, False)])
    c.after('drop', 'every filter above the height is dropped', R, RP, lambda e: e.kind == 'iter', lambda e: e.kind == 'iter_end', [(above, True), (r"is\(get\(self\.cache'*,.*\),Some\)", True)])
    c.after('account-drop', 'a dropped filter gives its length back', R, RP, rm, write(r'self\.size', r'sub\(.*,' + gone + r'\)'), [(r"is\(get\(self\.cache'*,key\(.*\)\),Some\)", True)])

    def highest():
        r = c.run(R, RP, [], [('i', lambda e: e.kind == 'iter')])
        h = r.hits.get('i', [])
        return len(h), [(e.where(), 'looks at %s' % e.args[0]) for e, _, _ in h if not re.match(r'rev\(', str(e.args[0]))]
    c.custom('highest', 'filters are dropped from the highest height down', highest)
    c.results('get', 'a lookup returns the filter of that height', 'filter_cache::FilterCache::get', ['self', 'h'], r'get\(self\.cache,h\)|Option::None|Option::Some\{0=get\(self\.cache,h\)\.Some\}')
    c.results('new', 'a cache starts empty', 'filter_cache::FilterCache::new', ['n'], r'FilterCache\{cache=BTreeMap::new\(\),size=0,capacity=n\}')


def F08(c):
    """BlockHeadersImported -> rollback of filters, queue and scan height."""
    E_, EP = FM + 'received_event', ['self', 'event', 'tree', 'blocks']
    is_ = [(r'is\(event,BlockHeadersImported\)', True)]
    rev = r'event\.BlockHeadersImported\.reverted'
    some = [(r'is\(last\(' + rev + r'\),Some\)', True), (r'eq\(len\(' + rev + r'\),0\)', False)]
    op = ['FilterManager::rollback$', 'FilterManager::sync$']
    c.always('reorg', 'reverted blocks roll the filters back below the oldest one', E_, EP, call('FilterManager::rollback', 'self', r'add\(last\(' + rev + r'\)\.Some\.0,-1\)'), is_ + some, opaque=op)
    c.always('reorg-sync', 'new headers trigger a filter sync', E_, EP, call('FilterManager::sync'), is_, opaque=op)
    c.never_after('reorg-order', 'the sync happens before the rollback', E_, EP, call('FilterManager::sync'), call('FilterManager::rollback'), is_, opaque=op)
    c.never('no-reorg', 'filters are rolled back without a reorganisation', E_, EP, call('FilterManager::rollback'), is_ + neg(some), opaque=op)
    c.always('reorg-err', 'a failed rollback is reported', E_, EP, emits('Error.*'), is_ + some + [(r'is\(FilterManager::rollback\(.*\),(Err)\)', True), (r'is\(FilterManager::rollback\(.*\),(Ok)\)', False)], opaque=op)
    R, RP = FM + 'rollback', ['self', 'h']
    fh = r'Filters::height\(self\.filters\)'
    deep = [(r'lt\(h,' + fh + r'\)', True), (r'lt\(' + fh + r',add\(h,1\)\)', False)]
    c.always('cut', 'filter headers, cached and queued filters above the height are dropped', R, RP,
             [call('Filters::rollback', r'self\.filters', 'h'), call('FilterCache::rollback', r'self\.rescan\.cache', 'h')], deep, exits='Result::Ok.*')
    c.always('cut-queue', 'queued filters of reverted blocks are dropped', R, RP, [lambda e: e.kind == 'retain' or e.short.endswith('::retain')], deep, exits='Result::Ok.*')
    c.each('cut-queue-what', 'exactly the queued filters at or below the height are kept', R, RP, keep(r"self\.rescan\.received.*", '.*'),
           lambda e, f, m: any(str(k) in ('lt(h,%s)' % x, 'lt(%s,add(h,1))' % x) and v == (str(k).startswith('lt(key')) for k, v in f.items() for x in ('key(self.rescan.received)',)))
    c.never('shallow', 'filters are dropped although the reorganisation did not reach them', R, RP, anyof(call('Filters::rollback'), call('FilterCache::rollback'), write(r'self\.rescan\..*')), neg(deep))
    c.never('err', 'a failed rollback is reported as done', R, RP, ret('Result::Ok.*'), deep + [(r'is\(Filters::rollback\(.*\),Ok\)', False)])
    act = [(r'self\.rescan\.active', True)]
    cur = r'self\.rescan\.current'
    ahead = [(r'lt\(add\(h,1\),' + cur + r'\)', True), (r'lt\(' + cur + r',add\(h,2\)\)', False)]
    st = [(r'lt\(add\(h,1\),self\.rescan\.start\)', True), (r'lt\(h,self\.rescan\.start\)', True), (r'lt\(self\.rescan\.start,add\(h,[12]\)\)', False), (r'lt\(self\.rescan\.start,add\(h,1\)\)', False)]
    okf = [(r'is\(Filters::rollback\(.*\),Ok\)', True)]
    c.always('rescan-again', 'an active scan resumes above the fork', R, RP, write(cur, r'add\(h,1\)|max\(.*'), deep + act + ahead + okf + [(r'lt\(add\(h,1\),self\.rescan\.start\)', False), (r'lt\(h,self\.rescan\.start\)', False), (r'lt\(self\.rescan\.start,add\(h,[12]\)\)', True)])
    c.always('rescan-start', 'but not below its start', R, RP, write(cur, r'self\.rescan\.start|max\(.*'), deep + act + ahead + okf + [(r'lt\(add\(h,1\),self\.rescan\.start\)', True), (r'lt\(h,self\.rescan\.start\)', True), (r'lt\(self\.rescan\.start,add\(h,[12]\)\)', False)])
    c.never('rescan-skip', 'the scan skips ahead', R, RP, write(cur), neg(ahead))
    c.never('rescan-inactive', 'an inactive scan is moved', R, RP, write(cur), neg(act))


def F09(c):
    """received_getcfheaders: what is served."""
    prev_header(c)
    F, P = FM + 'received_getcfheaders', ['self', 'from', 'msg', 'tree']
    gb = r'BlockReader::get_block\(tree,msg\.stop_hash\)'
    h = gb + r'\.Some\.0'
    s = sends('.*', 'CFHeaders.*')
    typ = [(r'eq\(msg\.filter_type,0\)', True)]
    stop = [(r'is\(' + gb + r',Some\)', True)]
    order = [(r'lt\(' + h + r',msg\.start_height\)', False)]
    d = r'sub\(' + h + r',msg\.start_height\)'
    size = [(r'lt\(' + d + r',2000\)', True), (r'lt\(1999,' + d + r'\)', False)]
    hs = r'Filters::get_headers\(self\.filters,RangeInclusive\{start=msg\.start_height,end=' + h + r'\}\)'
    has = [(r'eq\(len\(' + hs + r'\),0\)', False)]
    for nm, what, f in (('type', 'headers of another filter type are served', typ), ('stop', 'headers up to an unknown block are served', stop), ('order', 'an inverted range is served', order),
                        ('size', 'more than two thousand headers are served', size), ('empty', 'an empty reply is sent', has)):
        c.never(nm, what, F, P, s, neg(f))
    good = typ + stop + order + size + has
    pv = r'Filters::get_prev_header\(self\.filters,msg\.start_height\)\.Some'
    c.always('serve', 'the requested headers are served with the header before them', F, P,
             sends('from', r'CFHeaders\{0=CFHeaders\{filter_type=(msg\.filter_type|0),stop_hash=msg\.stop_hash,previous_filter_header=' + pv + r',filter_hashes=collect\(' + PLAIN + r'.*' + hs + r'.*\)\}\}'), good)
    c.each('serve-what', 'hashes in order', F, P, item('.*', '.*'), lambda e, f, m: str(e.args[1]).endswith('.0') and 'get_headers' in str(e.args[1]), good)
    for nm, f in (('type', neg(typ)), ('order', typ + stop + neg(order)), ('size', typ + stop + order + neg(size))):
        c.results('blame-' + nm, 'an invalid request is blamed on its sender', F, P, r'Result::Err\{0=Error::InvalidMessage\{from=from,.*\}\}', f)
    c.never('no-blame', 'a peer is blamed for asking about blocks we do not have', F, P, ret('.*InvalidMessage.*'), typ + neg(stop))
    c.never('no-blame2', 'a peer is blamed for asking about filters we do not have', F, P, ret('.*InvalidMessage.*'), typ + stop + order + size + neg(has))
    R, RP = FM + 'received_event', ['self', 'event', 'tree', 'blocks']
    is_ = [(r'is\(event,MessageReceived\)', True), (r'is\(event\.MessageReceived\.message.*,GetCFHeaders\)', True)]
    rr = r'FilterManager::received_getcfheaders\(.*\)'
    o = ['received_getcfheaders$']
    c.always('dispatch', 'requests are handled', R, RP, call('FilterManager::received_getcfheaders', 'self', r'event\.MessageReceived\.from', r'.*GetCFHeaders.*', 'tree'), is_, opaque=o)
    c.always('misbehaved', 'an invalid request is reported as misbehaviour', R, RP, emits(r'PeerMisbehaved\{addr=' + rr + r'\.Err\.InvalidMessage\.from,.*\}'),
             is_ + [(r'is\(' + rr + r',Ok\)', False), (r'is\(' + rr + r'\.Err,InvalidMessage\)', True)], opaque=o)
