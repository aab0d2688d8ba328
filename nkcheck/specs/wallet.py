"""Wallet: balance and unspent outputs (wallet/)."""
import re
from ck import *
W = 'nakamoto_wallet::wallet::Wallet::'
DR = '<nakamoto_wallet::wallet::db::Db as nakamoto_wallet::wallet::db::Read>::'
DW = '<nakamoto_wallet::wallet::db::Db as nakamoto_wallet::wallet::db::Write>::'


def sql(t):
    """Statement text of a `prepare` call, normalised."""
    s = str(t).strip('"').replace('\\n', ' ').replace('`', '').replace('"', '')
    return re.sub(r'\s+', ' ', s).strip().rstrip(';').lower()


def split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            d += 1
        if ch in ')]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]


def places(st, insert):
    """Columns in the order of their placeholders."""
    if insert:
        m = re.match(r'insert (?:or ignore )?into utxos ?\(([^)]*)\) values ?\(([^)]*)\)', st)
        if not m:
            return None
        return [c.strip() for c, v in zip(m.group(1).split(','), m.group(2).split(',')) if v.strip().startswith('?')]
    m = re.search(r' where (.*)$', st)
    if not m:
        return None
    cond = [x.strip() for x in m.group(1).split(' and ')]
    ms = [re.fullmatch(r'(\w+) ?= ?\?\d*', x) for x in cond]
    return [x.group(1) for x in ms] if all(ms) else None


def W01(c):
    """The wallet's balance is the sum of the unspent outputs paid to its addresses in the blocks it was given."""
    AP, APP = W + 'apply', ['self', 'tx', 'scripts']
    DB = dict(opaque=['wallet::db::'])
    O, I = r'elem\(tx\.output\)', r'elem\(tx\.input\)'
    ours = [(r'(?:\[T\]|Vec|slice|HashSet|BTreeSet)::contains\(scripts,' + O + r'\.script_pubkey\)|(?:any|contains)\(scripts.*' + r'|eq\((?:elem\(scripts\),' + O + r'\.script_pubkey|' + O + r'\.script_pubkey,elem\(scripts\))\)', True)]
    dbs = r"self'*\.db'*"
    add = call('Write::add_utxo|Db::add_utxo', dbs, r'Transaction::txid\(tx\)', r'unk\(i,' + O + r'\)|i\(' + O + r'\)|.*', r'.*' + O + r'\.script_pubkey.*', O + r'\.value')
    c.foreach('receive', 'an output paid to us is not recorded', AP, APP, O, [add], ours, **DB)
    anyadd = call('(Write|Db)::add_utxo')
    c.never('receive-ours', 'an output that is not ours is recorded', AP, APP, anyadd, neg(ours), **DB)
    c.each('receive-right', 'an output is recorded wrongly', AP, APP, anyadd, lambda e, f, m: add(e), **DB)

    def index():
        r = c.run(AP, APP, ours, [('a', anyadd)], **DB)
        bad = []
        for e, _, _ in r.hits.get('a', []):
            if not re.fullmatch(r'unk\(i,' + O + r'\)', str(e.args[2])):
                bad.append((e.where(), 'the output is recorded under index %s' % e.args[2]))
        return len(r.hits.get('a', [])), bad
    c.custom('receive-index', 'an output is recorded under its own index', index)
    rem = call('(Write|Db)::remove_utxo', dbs, I + r'\.previous_output')
    c.foreach('spend', 'a spent output is not removed', AP, APP, I, [rem], **DB)
    c.each('spend-right', 'another output is removed', AP, APP, call('(Write|Db)::remove_utxo'), lambda e, f, m: rem(e), **DB)
    # blocks
    HE, HEP = W + 'handle_client_event', ['self', 'event', 'watch', 'offline', 'term']
    DA = dict(opaque=['wallet::db::', 'Wallet::apply$', 'wallet::ui::'])
    T = r'elem\(event\.BlockMatched\.block\.txdata\)'
    bm = [(r'is\(event,BlockMatched\)', True)]
    app = call('Wallet::apply', r"self'*", T, 'watch')
    c.foreach('block', 'a transaction of a matching block is not applied', HE, HEP, T, [app], bm, **DA)
    c.atmost('block-once', 'a transaction of a matching block is applied twice', HE, HEP, got(T), app, bm, **DA)
    c.each('block-order', 'transactions are applied out of order', HE, HEP, got(r'.*' + T + r'.*'), lambda e, f, m: 'rev(' not in str(e.args[0]), bm, **DA)
    c.never('block-only', 'transactions are applied without a block', HE, HEP, anyof(call('Wallet::apply'), call('Write::(add_utxo|remove_utxo)')), neg(bm), **DA)
    c.after('block-balance', 'the balance shown is not brought up to date', HE, HEP, app, call('Read::balance|Db::balance', dbs), bm, **DA)
    bal = r'(?:Read|Db)::balance\(' + dbs + r'\)'
    c.after('block-show', 'the new balance is not shown', HE, HEP, app, call('Ui::set_balance'), bm + [(r'is\(' + bal + r',Ok\)', True)], **DA)
    c.each('block-shown', 'another balance is shown', HE, HEP, call('Ui::set_balance'), lambda e, f, m: re.fullmatch(r'.*' + bal + r'\.Ok', str(e.args[1])) is not None, bm, **DA)
    c.never('block-failed', 'a failure to compute the balance is ignored', HE, HEP, ret('Result::Ok.*'), bm + [(r'is\(' + bal + r',Ok\)', False)], **DA)
    c.results('balance', 'the balance is the one of the database', W + 'balance', ['self'], r'Result::Ok\{0=' + bal + r'\.Ok\}|Result::Err\{.*' + bal + r'\.Err.*\}', **DB)
    # statements

    def stmt(entry, ps, insert, want, name, cols=None):
        def go():
            hits = []
            r = c.run(entry, ps, (), [('p', call('Connection::(prepare|execute)', r'self\.raw')), ('b', call('Cursor::bind|Statement::bind|Statement::bind_\\w+')), ('n', call('Statement::next'))])
            bad, n = [], 0
            texts = {sql(e.args[1]) for e, _, _ in r.hits.get('p', [])}
            ts = [t for t in texts if re.match(want, t)]
            if len(ts) != 1:
                return len(texts), [(c.fn(entry), '%s: statements are %s' % (name, sorted(texts)))]
            if cols is None:
                return 1, []
            pl = places(ts[0], insert)
            if pl is None:
                return 1, [(c.fn(entry), '%s: cannot tell what `%s` refers to' % (name, ts[0]))]
            got_ = {}
            for e, _, _ in r.hits.get('b', []):
                if sql_of(e.args[0]) != ts[0]:
                    continue
                if len(e.args) == 2:
                    vals = split(str(e.args[1])[1:-1])
                    for k, v in zip(pl, vals):
                        got_.setdefault(k, set()).add(re.sub(r'^Value::\w+\{0=(.*)\}$', r'\1', v))
                else:
                    i = int(str(e.args[1])) - 1
                    if 0 <= i < len(pl):
                        got_.setdefault(pl[i], set()).add(str(e.args[2]))
            for k, rx in cols.items():
                n += 1
                vs = got_.get(k, set())
                if not vs or not all(re.fullmatch(rx, v) for v in vs):
                    bad.append((c.fn(entry), '%s: column %s is %s' % (name, k, sorted(vs))))
            if set(pl) - {'date'} != set(cols):
                bad.append((c.fn(entry), '%s: refers to columns %s' % (name, pl)))
            return n, bad
        return go

    def sql_of(t):
        m = [x for x in t.subs if x.op == 'k' and isinstance(x.a[1], str)] if hasattr(t, 'subs') else []
        for x in m:
            s = sql(x)
            if re.match(r'(select|insert|delete|update) ', s):
                return s
        m = re.search(r'prepare\(self\.raw,"(.*?)"\)', str(t), re.S)
        return sql(m.group(1)) if m else ''
    to = lambda x: r'(?:ToString::to_string\(' + x + r'\)|' + x + r')'
    key = {'txid': to(r'o\.txid'), 'vout': r'o\.vout'}
    c.custom('sql-add', 'an output is stored as it is', stmt(DW + 'add_utxo', ['self', 'txid', 'vout', 'address', 'value'], True, r'insert (or ignore )?into utxos ?\(', 'adding an output', {'txid': to('txid'), 'vout': 'vout', 'address': to('address'), 'value': 'value'}))
    c.custom('sql-add-once', 'an output is counted twice or changes', stmt(DW + 'add_utxo', ['self', 'txid', 'vout', 'address', 'value'], True, r'insert or ignore into utxos.*|insert into utxos .* on conflict( ?\(txid, ?vout\))? do nothing$', 'adding an output'))
    c.custom('sql-remove', 'exactly the spent output is removed', stmt(DW + 'remove_utxo', ['self', 'o'], False, r'delete from utxos where', 'removing an output', key))
    c.custom('sql-get', 'exactly the output asked for is read', stmt(DR + 'utxo', ['self', 'o'], False, r'select .* from utxos where', 'looking up an output', key))
    c.custom('sql-balance', 'the balance is the sum of all outputs', stmt(DR + 'balance', ['self'], False, r'select (?:sum|total)\(value\)(?: as \w+)? from utxos$|select (?:coalesce|ifnull)\(sum\(value\), ?0\) from utxos$', 'balance'))
    c.custom('sql-all', 'all outputs are listed', stmt(DR + 'utxos', ['self'], False, r'select txid, ?vout, ?address, ?value from utxos$', 'listing outputs'))
    # execution
    c.before('exec-remove', 'the removal is not executed', DW + 'remove_utxo', ['self', 'o'], call('Statement::next|Iterator::next|Connection::execute', lambda t: 'delete' in str(t).lower()), ret('Result::Ok.*'))
    c.before('exec-balance', 'the balance is not read', DR + 'balance', ['self'], call('Statement::next'), call('Statement::read'))
    c.results('exec-balance-value', 'the balance is returned', DR + 'balance', ['self'], r'Result::Ok\{0=Statement::read\(.*,0\)\.Ok\}|Result::Err\{.*\}')

    def added():
        r = c.run(DW + 'add_utxo', ['self', 'txid', 'vout', 'address', 'value'], (), [('x', lambda e: e.kind in ('iter', 'iter_end', 'iter_item') or call('Iterator::next|Statement::next|Cursor::next|Connection::execute')(e))], step=lambda mon, nm, e, st: mon | {'x'})
        bad = [(c.fn(DW + 'add_utxo'), 'returns without having executed the statement') for rv, mon, f, s in r.exits if str(rv).startswith('Result::Ok') and 'x' not in mon]
        return len(r.exits), bad[:1]
    c.custom('exec-add', 'the addition is executed', added)
    c.never('exec-remove-failed', 'a removal that failed is reported as done', DW + 'remove_utxo', ['self', 'o'], ret('Result::Ok.*'), [(r'is\(Statement::next\(.*\),Ok\)', False)])
    row = r'elem\(.*\)\.Ok'
    c.results('get-value', 'the output is returned as stored', DR + 'utxo', ['self', 'o'], lambda rv: not str(rv).startswith('Result::Ok{0=Option::Some') or (str(sub(rv, 'Ok.0', 'Some.0', '0')) == 'o' and re.fullmatch(r'Row::(?:get|read)\(.*,"value"\)|Row::\w+\(.*,1\)', str(sub(rv, 'Ok.0', 'Some.0', '1', 'value')), re.S) is not None))
    def rows(fn, el, want, name):
        ok = [(r'is\(elem\(.*into_cursor.*\),Ok\)', True), (r"is\(elem\(.*\)\.Ok(?:\.\w+)?,Ok\)", True), (r'is\((?:str::parse|Address::\w+|TryFrom::try_from|Record::try_from)\(.*\),Ok\)', True)]
        c.foreach(name, 'a stored row is left out', DR + fn, ['self'], r'elem\(.*into_cursor.*\)', [anyof(call('Vec::push', r"Vec::(?:new|with_capacity)\(.*\)'*", want), item('.*', want))], ok)
    q = lambda n: r'(?:elem\(.*\)\.Ok\.Ok\.0\.%d(?:\.0)?|Row::\w+\(elem\(.*\)\.Ok,%d\))' % (n, n)
    rows('utxos', None, lambda t: re.fullmatch(r'str::parse\(' + q(0) + r'\)\.Ok', str(sub(t, '0', 'txid')), re.S) is not None and re.fullmatch(r'(?:cast\(u32,)?' + q(1) + r'\)?', str(sub(t, '0', 'vout')), re.S) is not None and re.fullmatch(q(3), str(sub(t, '1', 'value')), re.S) is not None, 'list-utxos')
    rows('addresses', None, lambda t: re.fullmatch(r'str::parse\(Row::\w+\(elem\(.*\)\.Ok,0\)\)\.Ok', str(sub(t, 'address')), re.S) is not None, 'list-addresses')
    # start
    RN = W + 'run'
    RNP = ['self', 'birth', 'inputs', 'signals', 'loading', 'events', 'offline', 'term']
    DO = dict(opaque=['wallet::db::', 'wallet::ui::', 'wallet::hw::', 'Wallet::handle_'], cap=4)
    known = [(r'eq\(len\((?:Read|Db)::addresses\(.*\)\.Ok\),0\)', False)]
    A_ = r'elem\((?:Read|Db)::addresses\(' + dbs + r'\)\.Ok\)'
    wat = r"self'*\.watch'*"
    ins = lambda x: anyof(call('HashSet::insert', wat, x), item(wat, x))
    c.foreach('watch', 'an address of ours is not watched', RN, RNP, A_, [ins(A_ + r'\.address')], known, **DO)
    hwa = r'Hw::request_addresses\(.*\)'
    new = [(r'eq\(len\((?:Read|Db)::addresses\(.*\)\.Ok\),0\)', True), (r'is\(' + hwa + r',Ok\)', True), (r'is\((?:Write|Db)::add_address\(.*\),Ok\)', True)]
    HA = r'elem\(' + hwa + r'\.Ok\)'
    c.foreach('watch-new', 'an address of the device is not watched', RN, RNP, HA, [ins(HA + r'\.1')], new, **DO)
    c.foreach('store-new', 'an address of the device is forgotten', RN, RNP, HA, [call('(Write|Db)::add_address', dbs, HA + r'\.1', HA + r'\.0')], new, **DO)
    on = [(r'offline', False)]
    clean = known + on + [(r'is\((?:Read|Db|Ui|ui|\w+)::\w+\(.*\),Ok\)', True)]
    rs = lambda w: call('Handle::rescan', r"self'*\.client'*", r'RangeFrom\{start=birth\}|\(Bound::Included\{0=birth\},Bound::Unbounded\)', w)

    def collected():
        c.always('rescan', 'blocks are not scanned from the birth height', RN, RNP, rs(lambda t: re.search(r"self'*\.watch", str(t)) is not None and re.search(r'\b(take|skip|filter|step_by|take_while|filter_map)\(', str(t)) is None), clean, **DO)

    def pushed():
        new = r"(?:clone\()?Vec::(?:new|with_capacity)\(.*\)'*\)?"
        c.always('rescan', 'blocks are not scanned from the birth height', RN, RNP, rs(lambda t: re.search(new, str(t)) is not None), clean, **DO)
        c.foreach('rescan', 'every address is scanned for', RN, RNP, r"key\(self'*\.watch'*\)", [call('Vec::push', new, r"Address::script_pubkey\(key\(self'*\.watch'*\)\)")], clean, **DO)
    c.either(collected, pushed)


def neg(facts):
    return [(a, not v) for a, v in facts]
