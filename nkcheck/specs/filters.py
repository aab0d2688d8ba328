"""Adjusted time; compact filter header chain and its storage."""
import re
from ck import *
E = re.escape
AT = 'block::time::AdjustedTime::'
FC = r'FilterCache as nakamoto_common::block::filter::Filters>::'


def T01(c):
    """record_offset / from / get: which samples count, when the offset may change and to what."""
    F = AT + 'record_offset'
    P = ['self', 'source', 'sample']
    SM = r"self\.samples'?"
    full = [(r'eq\(len\(self\.sources\),200\)', True), (r'lt\(len\(self\.sources\),200\)', False), (r'lt\(len\(self\.sources\),201\)', True)]
    room = [(a, not v) if a != r'lt\(len\(self\.sources\),201\)' else (a, True) for a, v in full]
    seen = r'is\(get\(self\.sources,source\),Some\)'
    rec = anyof(call('Vec::push', SM, '.*'), call('Vec::insert', SM, '.*'), call('HashSet::insert', r"self\.sources'?", '.*'), write(r'self\.(samples|sources).*'))
    push = anyof(call('Vec::push', SM, 'sample'), call('Vec::insert', SM, '.*', 'sample'))
    ins = call('HashSet::insert', r'self\.sources', 'source')
    woff = write(r'self\.offset')
    c.never('full', 'a sample is recorded although 200 sources were sampled', F, P, push, full)
    c.never('once', 'a second sample of the same source is recorded', F, P, push, [(seen, True)])
    c.never('full-offset', 'the offset changes although the sample is refused', F, P, woff, full)
    c.never('once-offset', 'the offset changes although the sample is refused', F, P, woff, [(seen, True)])
    c.always('recorded', 'a first sample of a source is recorded with its source', F, P, [push, ins], room + [(seen, False)])
    few = r'lt\(len\(' + SM + r'\),5\)'
    n4 = r'lt\(len\(' + SM + r'\),4\)'
    odd = [(r'eq\(rem\(len\(' + SM + r'\),2\),1\)', True), (r'eq\(rem\(len\(' + SM + r'\),2\),0\)', False)]
    even = [(a, not v) for a, v in odd]
    c.never('few', 'the offset changes with fewer than five samples', F, P, woff, [(few, True)])
    c.never('even', 'the offset changes on an even number of samples', F, P, woff, even)
    med = r'sorted\(' + SM + r'\)\[div\((?:add\()?len\((sorted\()?' + SM + r'\)?\)(?:,-1\))?,2\)\]'
    lim = [(r'lt\(i64::(saturating_abs|unsigned_abs)\(' + med + r'\),4201\)', True), (r'lt\(4200,i64::(saturating_abs|unsigned_abs)\(' + med + r'\)\)', False)]
    beyond = [(a, not v) for a, v in lim]
    ok = room + [(seen, False), (few, False), (n4, False)] + odd
    c.always('median', 'with enough samples and an odd count the offset becomes the median', F, P, [write(r'self\.offset', med)], ok + lim)
    c.always('limit', 'a median beyond the limit resets the offset', F, P, [write(r'self\.offset', '0')], ok + beyond)
    c.never('limit-other', 'a median beyond the limit is used', F, P, write(r'self\.offset', r'(?!0$).*'), ok + beyond)
    c.each('values', 'the offset is zero or the median of all samples', F, P, woff,
           lambda e, f, m: re.fullmatch(r'0|' + med, str(e.args[1])) is not None)
    G = AT + 'from'
    pos = [(r'lt\(self\.offset,1\)', False), (r'lt\(0,self\.offset\)', True)]
    neg = [(a, not v) for a, v in pos]
    c.results('ahead', 'a positive offset is added', G, ['self', 'time'], r'add2\((self\.offset,time|time,self\.offset)\)', pos + [(r'lt\(self\.offset,0\)', False)])
    c.results('behind', 'a negative offset is subtracted', G, ['self', 'time'], r'sub\(time,i64::(unsigned_abs|abs)\(self\.offset\)\)|sub\(time,neg\(self\.offset\)\)|add2\((self\.offset,time|time,self\.offset)\)',
              neg + [(r'lt\(self\.offset,0\)', True)])
    c.results('get', 'adjusted time is local time with the offset applied', AT + 'get', ['self'],
              r'AdjustedTime::from\(self,div\(self\.local_time\.millis,1000\)(\.Ok)?\)', opaque=['AdjustedTime::from$'])
    c.results('new', 'adjusted time starts at local time', AT + 'new', ['t'], r"AdjustedTime\{sources=HashSet::new\(\),samples=(Vec::new\(\)'|\[0\]),offset=0,local_time=t\}")
    c.always('set-always', 'local time is set as given', AT + 'set_local_time', ['self', 't'], write(r'self\.local_time', 't'))
    c.each('set', 'local time is set as given', AT + 'set_local_time', ['self', 't'], write(r'self\..*'),
           lambda e, f, m: str(e.args[0]) == 'self.local_time' and str(e.args[1]) == 't')
    c.const('max-adj', 'limit of the adjustment', 'block::time::MAX_TIME_ADJUSTMENT', '4200')

    def deleg():
        out = []
        n = 0
        for pat, prm, want in ((r'RefClock as [\w:]*::Clock>::block_time', ['self'], r'Clock::block_time\(self\.inner.*\)'),
                               (r'RefClock as [\w:]*::Clock>::local_time', ['self'], r'Clock::local_time\(self\.inner.*\)'),
                               (r'time::AdjustedTime as [\w:]*::Clock>::block_time', ['self'], r'AdjustedTime::get\(self\)')):
            f = c.fn(pat)
            r = c.run(f, prm, opaque=['AdjustedTime::get$'])
            for rv, mon, facts, st in r.exits:
                n += 1
                if not re.fullmatch(want, str(rv)):
                    out.append((f, 'returns %s' % rv))
        return n, out
    c.custom('views', 'every view of the clock is the adjusted clock', deleg)
    for pat, want in ((r'RefClock as [\w:]*::AdjustedClock.*>::record_offset', r"AdjustedTime::record_offset"),
                      (r'time::AdjustedTime as [\w:]*::AdjustedClock.*>::record_offset', r'AdjustedTime::record_offset')):
        c.always('record-deleg', 'samples reach the adjusted clock', pat, ['self', 'source', 'sample'],
                 [call(want, '.*', 'source', 'sample')], opaque=['AdjustedTime::record_offset$'])


def F01(c):
    """FilterCache: memory and store are changed together, with the same headers, in order; queries match."""
    I = FC + 'import_headers'
    put = r'is\(Store::put\(.*\),Ok\)'
    hd = r'StoredHeader\{hash=elem\(hs\)\.0,header=elem\(hs\)\.1\}'
    c.always('import-both', 'imported headers reach the store', I, ['self', 'hs'], [call('Store::put', r'self\.header_store', r'.*')])
    c.foreach('import-mem', 'every imported header is kept in memory', I, ['self', 'hs'], r'elem\(hs\)',
              [anyof(item(r'self\.headers(\.tail)?', hd), call('(NonEmpty|Vec)::push', r"self\.headers'?(\.tail)?'?", hd))])
    c.each('import-store', 'exactly the imported headers are stored', I, ['self', 'hs'], call('Store::put'),
           lambda e, f, m: re.fullmatch(r'(clone\(|collect\()?(map\((hs),closure\)|self\.headers.*skip.*|hs)\)?', str(e.args[1])) is not None and str(e.locs[0]) == 'self.header_store')
    c.results('import-ok', 'the new height is the store height', I, ['self', 'hs'], r'Result::Ok\{0=Store::put\(.*\)\.Ok\}', [(put, True)])
    c.results('import-err', 'a store error is reported', I, ['self', 'hs'], r'Result::Err\{0=.*Store::put\(.*\)\.Err.*\}', [(put, False)])
    R = FC + 'rollback'
    rb = r'is\(Store::rollback\(.*\),Ok\)'
    c.always('rollback', 'rollback cuts memory and store at the same height', R, ['self', 'h'],
             [call('Store::rollback', r'self\.header_store', 'h'), call('Vec::(truncate|split_off|drain)', r'self\.headers\.tail', r'h|RangeFrom\{start=h\}')], exits=r'Result::Ok.*')
    c.never('rollback-err', 'a failed rollback is reported as done', R, ['self', 'h'], ret(r'Result::Ok.*'), [(rb, False)])
    c.never('rollback-mem', 'memory is cut although the store was not', R, ['self', 'h'], call('Vec::(truncate|clear|drain)'), [(rb, False)])
    K = FC + 'clear'
    c.always('clear', 'clear keeps only the first header in both', K, ['self'],
             [call('Store::rollback', r'self\.header_store', '0'), anyof(call('Vec::clear', r'self\.headers\.tail'), call('Vec::truncate', r'self\.headers\.tail', '0'))], exits=r'Result::Ok.*')
    c.never('clear-err', 'a failed clear is reported as done', K, ['self'], ret(r'Result::Ok.*'), [(rb, False)])
    c.results('height', 'the height is that of the last header', FC + 'height', ['self'], r'len\(self\.headers\.tail\)|add\(len\(self\.headers\),-1\)')
    c.results('tip', 'the tip is the last header', FC + 'tip', ['self'], r'\(last\(self\.headers\)\.hash,last\(self\.headers\)\.header\)')
    g = r'is\(get\(self\.headers,h\),Some\)'
    c.results('get', 'the header at a height', FC + 'get_header', ['self', 'h'], E('Option::Some{0=(get(self.headers,h).Some.hash,get(self.headers,h).Some.header)}'), [(g, True)])
    c.results('get-none', 'no header above the tip', FC + 'get_header', ['self', 'h'], 'Option::None', [(g, False)])
    c.results('range', 'a range of headers', FC + 'get_headers', ['self', 'range'],
              r'collect\(map\(take\(skip\(self\.headers,range\.start\),(add\(sub\(range\.end,range\.start\),1\)|sub\(add\(range\.end,1\),range\.start\)|add2.*)\),closure\)\)|'
              r'collect\(.*self\.headers.*\)|Vec::new\(\).?')
    c.each('range-item', 'hash then header', FC + 'get_headers', ['self', 'range'], anyof(item('.*', r'\(.*'), call('Vec::push')),
           lambda e, f, m: re.fullmatch(r'\(elem\(self\.headers\)\.hash,elem\(self\.headers\)\.header\)', str(e.args[1])) is not None)

    G = 'block::filter::Filters::get_prev_header'
    z = [(r'eq\(h,0\)', True), (r'lt\(h,1\)', True), (r'lt\(0,h\)', False)]
    gh = r'Filters::get_header\(self,add\(h,-1\)\)'
    c.results('prev-zero', 'before the first header comes the zero header', G, ['self', 'h'], r'Option::Some\{0=Hash::all_zeros\(\)\}', z)
    c.results('prev', 'the header before a height is the one below it', G, ['self', 'h'], r'Option::Some\{0=' + gh + r'\.Some\.1\}|Option::None', [(a, not v) for a, v in z])

    def rng():
        r = c.run(FC + 'get_headers', ['self', 'range'], [], [('i', lambda e: e.kind == 'iter')])
        h = r.hits.get('i', [])
        return len(h), [(e.where(), 'serves %s' % e.args[0]) for e, _, _ in h if not re.fullmatch(
            r'(map\()?take\(skip\(self\.headers,range\.start\),(add\(sub\(range\.end,range\.start\),1\)|sub\(add\(range\.end,1\),range\.start\))\)(,closure\))?', str(e.args[0]))]
    c.custom('range-window', 'exactly the requested heights, both ends included', rng)


def F02(c):
    """load_with / verify_with / StoredHeader codec / genesis."""
    L = 'filter::cache::FilterCache::load_with'
    P = ['store', 'progress']
    it = r'is\(elem\(Store::iter\(store\)\),Ok\)'
    c.foreach('load-each', 'every stored header after the first is loaded, in order', L, P, r'elem\(Store::iter\(store\)\)',
              [call('(NonEmpty|Vec)::push', r"(NonEmpty::new\(Store::genesis\(store\)\)|Vec::new\(\))'*(\.tail)?'*", r'elem\(Store::iter\(store\)\)\.Ok\.1')], stop=ret(r'Result::Err.*'), whole=False)

    def skip1():
        r = c.run(L, P, [], [('i', lambda e: e.kind == 'iter')])
        h = r.hits.get('i', [])
        return len(h), [(e.where(), 'loads %s' % e.args[0]) for e, _, _ in h if not re.fullmatch(
            r'skip\((enumerate\()?Store::iter\(store\)\)?,1\)|enumerate\(skip\(Store::iter\(store\),1\)\)', str(e.args[0]))]
    c.custom('load-order', 'the first stored header is the genesis one, the rest follow', skip1)
    c.never_after('load-error', 'loading goes on after a read error', L, P, lambda e: e.kind == 'iter', ret(r'Result::Ok.*'), [(it, False)])
    c.never_after('load-break', 'an interrupted load is reported complete', L, P, call('apply', 'progress'), ret(r'Result::Ok.*'), [(r'(ControlFlow::is_break\(apply\(.*\)\)|is\(apply\(.*\),Break\))', True), (r'(ControlFlow::is_continue\(apply\(.*\)\)|is\(apply\(.*\),Continue\))', False)])
    c.results('load-result', 'the cache holds the loaded headers and the same store', L, P,
              r"Result::Ok\{0=FilterCache\{headers=NonEmpty.*Store::genesis\(store\).*,header_store=store\}\}|Result::Err\{0=(elem\(Store::iter\(store\)\)\.Err|Error::Interrupted)\}")
    W = 'filter::cache::FilterCache::verify_with'
    Q = ['self', 'network', 'progress']
    op = ['Genesis>?::genesis$']
    ok = ret(r'Result::Ok.*')
    gen = r'eq\((Genesis::genesis\(network\),FIRST\.header|FIRST\.header,Genesis::genesis\(network\))\)'.replace('FIRST', r'(?:first\(self\.headers\)|self\.headers\.head)')
    c.never('verify-genesis', 'a chain with a foreign genesis passes', W, Q, ok, [(gen, False)], opaque=op)
    lk = r'eq\(.*FilterHash::filter_header\(.*\).*\)'
    c.never_after('verify-link', 'a header that does not commit to its predecessor passes', W, Q, call('FilterHash::filter_header'), ok, [(lk, False)], opaque=op)
    c.foreach('verify-each', 'every header is checked', W, Q, r'elem\(self\.headers\)', [call('FilterHash::filter_header', r'elem\(self\.headers\)\.hash', '.*')],
              stop=ret(r'Result::Err.*'), opaque=op)
    c.each('verify-prev', 'each header is checked against the preceding header', W, Q, call('FilterHash::filter_header'),
           lambda e, f, m: re.fullmatch(r'Hash::all_zeros\(\)|prev\(elem\(self\.headers\)\.header\)|phi\(.*\)', str(e.args[1])) is not None, opaque=op)
    c.possible('verify-chain', 'the preceding header is what a header is checked against', W, Q,
               call('FilterHash::filter_header', r'elem\(self\.headers\)\.hash', r'.*prev\(elem\(self\.headers\)\.header\).*'), opaque=op)

    def cmp():
        r = c.run(W, Q, opaque=op)
        a = [x for x in r.branch_atoms if re.search(r'FilterHash::filter_header', str(x))]
        return len(a), [(c.fn(W), 'compares %s' % x) for x in a if not re.fullmatch(
            r'eq\(FilterHash::filter_header\(elem\(self\.headers\)\.hash,.*\),elem\(self\.headers\)\.header\)|eq\(elem\(self\.headers\)\.header,FilterHash::filter_header\(elem\(self\.headers\)\.hash,.*\)\)', str(x))]
    c.custom('verify-compare', 'the stored header is compared with the computed one', cmp)
    c.possible('verify-ok', 'a good chain passes', W, Q, ok, [(gen, True), (lk, True)], opaque=op)
    V_ = 'filter::cache::FilterCache::'
    c.results('verify-all', 'verify runs the whole verification', V_ + 'verify', ['self', 'network'], r'Result::(?:Ok|Err)\{0=FilterCache::verify_with\(self,network,.*\)\.(?:Ok|Err)\}', opaque=['verify_with$'])
    EN = 'StoredHeader as [\\w:]*Encodable>::consensus_encode'
    DE = 'StoredHeader as [\\w:]*Decodable>::consensus_decode'
    c.before('encode-order', 'the hash is written before the header', EN, ['self', 'e'], call('Encodable::consensus_encode', r'self\.hash', 'e'), call('Encodable::consensus_encode', r'self\.header', "e'"))
    c.always('encode-both', 'both fields are written', EN, ['self', 'e'], [call('Encodable::consensus_encode', r'self\.hash', '.*'), call('Encodable::consensus_encode', r'self\.header', '.*')], exits=r'Result::Ok.*')
    c.results('decode', 'the fields are read in the order they are written', DE, ['d'],
              E("Result::Ok{0=StoredHeader{hash=Decodable::consensus_decode(d).Ok,header=Decodable::consensus_decode(d').Ok}}") + r'|Result::Err\{.*')
    c.possible('decode-ok', 'decoding succeeds', DE, ['d'], ret(r'Result::Ok.*'))
    G = 'StoredHeader as [\\w:]*Genesis>::genesis'
    c.results('genesis', 'the first filter header is the one of the genesis block', G, ['network'],
              r'StoredHeader\{hash=Genesis::genesis\(network\),header=Genesis::genesis\(network\)\}', opaque=op)
    gb = r'BlockFilter::new_script_filter\(Network::genesis_block\(network\),closure\)\.Ok'
    c.results('genesis-hash', 'hash of the genesis filter', 'newtypes::FilterHash as [\\w:]*Genesis>::genesis', ['network'], r'Hash::hash\(' + gb + r'\.content\)', opaque=['genesis_block$'])
    c.results('genesis-header', 'header of the genesis filter', 'newtypes::FilterHeader as [\\w:]*Genesis>::genesis', ['network'],
              r'BlockFilter::filter_header\(' + gb + r',Hash::all_zeros\(\)\)', opaque=['genesis_block$'])
