LN = 'sound over the modelled control flow up to the stated models of std and third-party calls; see DESIGN.md'
CH = 'chain/src/block/cache.rs'
prop('C01', 'Only fully validated headers enter the active chain',
     'Every header added to the active chain meets the proof-of-work target the network requires after its parent (including the '
     'minimum-difficulty exception where allowed), agrees with any checkpoint at its height, is later than the median of the up to '
     'eleven blocks before it, and is at most two hours ahead of network-adjusted time. A header breaking any of these is rejected, '
     'however it arrives (extending the tip or as part of a competing branch).',
     ['inputs', 'histories'], 'every header, every chain state, every way a header reaches the chain',
     'tests import a handful of headers and random walks of a simple model; they never enumerate the rejection rules on all paths',
     [CH, 'common/src/block/tree.rs'],
     [('header validation', CH + ' validate'), ('branch validation', CH + ' validate_branch'), ('median time', CH + ' median_time_past')],
     DF + ' (guarded-reachability of acceptance, decision tables)', LN)
prop('C02', 'Difficulty retargeting follows the network rule exactly',
     'At each retarget boundary the required target is the previous target scaled by the time the last period took, with that time '
     'clamped between a quarter and four times the nominal timespan and the result capped at the network limit; between boundaries '
     'it does not change. Networks without retargeting keep the bits of the start of the period.',
     ['inputs', 'configurations'], 'all heights, timestamps, targets and network parameters',
     'tests use regtest, where retargeting is disabled', ['common/src/block/tree.rs', 'common/src/block.rs'],
     [('retarget', 'common/src/block/tree.rs next_difficulty_target')],
     DF + ' (case-by-case result provenance)', LN)
prop('C03', 'Bad, duplicate or too-old-fork headers are never retained',
     'A header already known is reported as a duplicate and changes nothing; a header failing its own proof-of-work or exceeding the '
     'network target limit is not kept at all; a fork from below the last reached checkpoint is refused. A header whose parent is '
     'unknown never changes the tip, and locators never go below the last checkpoint.',
     ['inputs', 'histories'], 'every header in every chain state', 'each guard needs a hostile header in a particular chain state',
     [CH], [('import guards', CH + ' import_block'), ('checkpoint', CH + ' last_checkpoint')],
     DF + ' (guarded reachability of retention)', LN)
prop('C04', 'The active chain is the valid branch with the most work',
     'The tip only moves to a branch that adds strictly more accumulated work than it removes; on equal work mainnet keeps the current '
     'chain while other networks deterministically prefer the lowest tip hash. When some valid known branch adds work, the branch '
     'adding the most is activated.',
     ['inputs', 'histories'], 'all sets of competing branches', 'fork choice depends on combinations of branches no test enumerates',
     [CH], [('selection loop', CH + ' import_block'), ('candidates', CH + ' chain_candidates')],
     DF + ' (loop-carried selection state)', LN)
IO = 'chain/src/block/store/io.rs'
prop('C05', 'Switching or extending the chain keeps memory, index and store in step',
     'Whenever the active chain is extended or reorganised, the in-memory chain, the hash-to-height index, the accumulated work and '
     'the persistent store all describe the same chain afterwards, and headers of the abandoned branch stay known as stale ones. A '
     'failure of the store is reported to the caller, never swallowed.',
     ['inputs', 'histories', 'fault_sequences'], 'every extension, rollback and branch switch, with every store outcome',
     'tests use an in-memory store that cannot fail and compare only tips', [CH],
     [('extend', CH + ' extend_chain'), ('switch', CH + ' switch_to_fork'), ('rollback', CH + ' rollback')],
     DF + ' (joint-update obligations on every path)', LN)
prop('C06', 'Header import reports exactly what changed on the active chain',
     'After importing a batch of headers the reported connected blocks are exactly those newly on the active chain, keyed by their '
     'heights, and the reported reverted blocks are those that left it, highest first, never including a block the batch itself '
     'introduced. An invalid header aborts the batch with its cause; duplicate, missing-parent and inactive headers do not.',
     ['inputs', 'histories'], 'all batches, including ones that reorganise several times',
     'the tests import batches with at most one reorganisation', [CH],
     [('batch import', CH + ' import_blocks'), ('result', CH + ' import_block')],
     DF + ' (event provenance, error decision table)', LN)
prop('C07', 'Loading a stored header chain reproduces it or fails loudly',
     'Opening a store replays every stored header in order into the in-memory chain, the index and the accumulated work. A store of '
     'another network, one whose first header does not follow its genesis, an unreadable record, or an interrupted load is an error, '
     'never a silently shorter or different chain.',
     ['inputs', 'crash_points', 'configurations'], 'every store content and read fault', 'tests load well-formed stores only', [CH],
     [('load', CH + ' load_with'), ('construction', CH + ' new')], DF + ' (per-record obligations, guarded success)', LN)
prop('C08', 'The header file is an append-only array of whole fixed-size records',
     'In the header file, record n is the header at height n+1, read and written at the same fixed offset; appending never overwrites, '
     'rolling back to a height keeps exactly the records up to it, and reading beyond the end or a torn record is an error. Repair '
     'after a crash removes only an incomplete trailing record.',
     ['crash_points', 'inputs', 'fault_sequences'], 'every file length, height and interrupted write', 'tests do not interrupt writes or probe every offset',
     [IO], [('offsets', IO + ' get/put'), ('rollback', IO + ' rollback'), ('repair', IO + ' heal/check')],
     DF + ' (symbolic offset arithmetic, guarded effects)', LN)
prop('C09', 'Locators and header lookups describe the active chain and respect limits',
     'Looking up a block by hash or height returns the header at that place of the active chain; header requests are answered with '
     'consecutive active headers following the first known locator, at most as many as allowed and not beyond the stop block. Block '
     'locators start at the given height, thin out towards genesis, and never descend below the last checkpoint.',
     ['inputs', 'histories'], 'all locators, stop hashes, limits and chain states', 'tests check a few fixed locators', [CH, 'common/src/block/tree.rs'],
     [('locate', CH + ' locate_headers'), ('locators', CH + ' locator_hashes')], DF + ' (range provenance)', LN)
TI = 'common/src/block/time.rs'
prop('T01', 'Network-adjusted time moves only by the bounded median of peer samples',
     'Each source contributes at most one time sample and at most two hundred sources are sampled; the offset changes only with at '
     'least five samples and an odd count, and is then the median of all samples, or zero when that exceeds seventy minutes. Adjusted '
     'time is local time plus that offset, and every view of the clock agrees.',
     ['inputs', 'histories'], 'every sequence of samples from any sources', 'tests sample a few sequences', [TI],
     [('sampling', TI + ' record_offset'), ('reading', TI + ' from/get')], DF + ' (guarded updates, value provenance)', LN)
FCA = 'chain/src/filter/cache.rs'
prop('F01', 'Filter header chain in memory and in the store always agree',
     'Importing, rolling back or clearing filter headers changes memory and the persistent store alike, with the same headers in the '
     'same order; a store failure is reported and does not shorten memory. Height, tip and lookups by height or range return exactly '
     'the headers imported at those heights.',
     ['inputs', 'histories', 'fault_sequences'], 'every sequence of imports, rollbacks and store failures', 'tests use an in-memory store that never fails', [FCA],
     [('import', FCA + ' import_headers'), ('rollback', FCA + ' rollback/clear')], DF + ' (joint-update obligations)', LN)
prop('F02', 'A stored filter header chain is accepted only if every link verifies',
     'Loading filter headers replays every stored record in order or fails; verification passes only when the first header is that of '
     'the genesis block of the configured network and every header commits to its filter hash and its predecessor. What is written '
     'for a record is read back as the same pair.',
     ['inputs', 'crash_points', 'configurations'], 'every stored chain, at every length', 'a test verifies one good and one bad chain', [FCA, 'common/src/block/filter.rs'],
     [('load', FCA + ' load_with'), ('verify', FCA + ' verify_with'), ('codec', FCA + ' StoredHeader')], DF + ' (link obligation per element)', LN)
CB = 'p2p/src/fsm/cbfmgr.rs'
RSC = 'p2p/src/fsm/cbfmgr/rescan.rs'
prop('F03', 'Filter headers from peers are imported only if asked for and linking to ours',
     'A filter header message is imported only when its stop block was requested and is known, its type is basic, it continues our '
     'filter header chain, and it holds exactly the missing headers, at most two thousand; each imported header commits to the '
     'received hash and the header before it. Malformed replies are reported as misbehaviour of the sender, replies that merely became '
     'stale are not and lead to a new sync. Completion is announced exactly when the block height is reached, otherwise syncing continues.',
     ['inputs', 'histories', 'schedules'], 'every message in every sync state', 'tests feed well-formed replies and a few bad ones', [CB],
     [('import', CB + ' received_cfheaders'), ('dispatch', CB + ' received_event')], DF + ' (guarded reachability of import, error decision table)', LN)
prop('F04', 'Only filters matching the filter header chain are reported or scanned',
     'A received filter is reported, cached or queued for scanning only if its block is on the active chain, its header is known, and it '
     'hashes to that header; one that does not is reported as misbehaviour of its sender. Only requested filters are queued and cached, '
     'under their own height and block, and every result of processing them is passed on.',
     ['inputs', 'histories'], 'every filter message in every state', 'tests send matching filters and one bad one', [CB, RSC],
     [('verification', CB + ' received_cfilter'), ('queue', RSC + ' received')], DF + ' (guarded effects)', LN)
prop('F05', 'A rescan processes filters in height order and reports every match once',
     'Filters are matched in strictly ascending height from the scan position, each at most once; a filter matching any watched script, or '
     'all outputs of a watched transaction, has its block fetched once and reported as matched once that block was processed. Scan '
     'progress never passes a matched block still awaited, and a bounded rescan ends exactly when its last height was processed. Confirmed '
     'transactions stop being watched, reverted ones are watched again.',
     ['inputs', 'histories', 'schedules'], 'every order of filters, blocks and reorganisations', 'tests deliver filters in a few orders', [RSC, CB],
     [('processing', RSC + ' process'), ('matching', RSC + ' match_filter'), ('pending blocks', CB + ' received_event')], DF + ' (loop-carried order, per-element obligations)', LN)
prop('F06', 'Filter requests are bounded, never duplicated while outstanding, and retried',
     'Requests for filters and filter headers go only to connected outbound peers that serve them, span at most a thousand filters or two '
     'thousand headers, stay within the known chains, and skip what is outstanding, queued or cached. Every request arms a timer; on expiry '
     'it is sent again with a new deadline and the silent peer is dropped in favour of another unless it is persistent. A rescan starts and '
     'ends at the bounds asked for.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every peer set, range and timeout pattern', 'tests have responsive peers and small ranges', [CB, RSC],
     [('filters', CB + ' get_cfilters'), ('headers', CB + ' get_cfheaders'), ('retry', CB + ' timer_expired'), ('ranges', RSC + ' requests')],
     DF + ' (typestate of outstanding requests, bounds provenance)', LN)
prop('F07', 'The filter cache stays within capacity and accounts every byte',
     'After any insertion the cache holds no more bytes than its capacity, evicting the lowest heights first; its size always equals the sum '
     'of the cached filters, also when a height is replaced or evicted. Rolling back drops exactly the filters above the height; a filter '
     'larger than the cache is refused.',
     ['inputs', 'histories'], 'every sequence of insertions and rollbacks', 'tests insert distinct heights of equal size', ['p2p/src/fsm/filter_cache.rs'],
     [('push', 'p2p/src/fsm/filter_cache.rs push'), ('rollback', 'p2p/src/fsm/filter_cache.rs rollback')], DF + ' (paired updates)', LN)
prop('F08', 'A reorganisation rolls filters and scan back to the fork',
     'When blocks are reverted, filter headers, cached filters and queued filters above the fork are dropped before syncing again, and an '
     'active scan that was past the fork resumes right above it, but never below its start and never ahead of where it was. A '
     'reorganisation that does not reach the filter chain drops nothing; a failed rollback is reported.',
     ['inputs', 'histories'], 'every reorganisation at every scan position', 'tests reorganise at a few fixed heights', [CB, RSC],
     [('rollback', CB + ' rollback'), ('event', CB + ' received_event')], DF + ' (guarded effects, value provenance)', LN)
prop('F09', 'Filter headers are served consistently and bad requests are refused',
     'A filter header request is answered with the requested consecutive filter hashes, ending at the stop block and preceded by the header '
     'before the first one. Requests of another type, with inverted ranges or more than two thousand headers are treated as misbehaviour; '
     'requests about blocks or filters we do not have are ignored without blame.',
     ['inputs', 'histories'], 'every request in every state of both chains', 'a test requests one valid range', [CB],
     [('serving', CB + ' received_getcfheaders')], DF + ' (guarded reply, error decision table)', LN)
SY = 'p2p/src/fsm/syncmgr.rs'
prop('S01', 'Header messages are bounded and hostile ones are blamed on the sender',
     'Headers from unknown peers, empty messages, more than two thousand headers, and many headers nobody asked for are never imported; '
     'all others are. A peer is reported as misbehaving exactly when it sent too many headers or headers that can never be valid (also as '
     'the cause of an aborted import); a storage failure is reported as an error and blamed on nobody.',
     ['inputs', 'histories'], 'every headers message from every peer in every state', 'tests send valid headers or one invalid kind', [SY],
     [('headers', SY + ' received_headers')], DF + ' (guarded reachability, error decision table)', LN)
prop('S02', 'Header sync has one tracked request per peer and never stalls',
     'A peer is never asked for headers while it owes an answer; every request is recorded with its time and arms a timer. An expired '
     'request is dropped: the peer is disconnected, another peer is asked, or it is ignored, according to how it was made, and the sync '
     'is retried. When a peer is ahead of us headers are requested, a full batch is followed by the next request, and being in sync is '
     'announced only when no peer is ahead and our tip is recent.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every interleaving of answers, timeouts and disconnections', 'tests have responsive peers or a single timeout', [SY],
     [('request', SY + ' request'), ('timeouts', SY + ' timer_expired'), ('sync', SY + ' sync')], DF + ' (typestate of outstanding requests)', LN)
prop('S03', 'Chain events report exactly what changed, in order',
     'Each time the active chain changes, every reverted block is announced as disconnected from the tip downwards, then every newly '
     'connected block in ascending order, then one import event with the new tip and exactly these blocks. When the chain does not change '
     'no such event is emitted, and a new tip is announced only to inbound peers that are behind it.',
     ['inputs', 'histories'], 'every header batch and chain state', 'tests check event sequences of a few short chains', [SY, CH],
     [('events', SY + ' import_blocks'), ('announce', SY + ' broadcast_tip')], DF + ' (per-element obligations, event order)', LN)
prop('S04', 'Headers are served and block announcements followed only when appropriate',
     'A header request is answered with at most the configured number of headers following the locators, and not at all while we are '
     'syncing or when there is nothing to send. A block announcement of a known peer leads to a header request up to the last unknown '
     'block; announcements of known blocks, oversized ones, and any made while we are syncing are ignored.',
     ['inputs', 'histories'], 'every request and announcement in every state', 'tests cover one request of each kind', [SY],
     [('serving', SY + ' received_getheaders'), ('announcements', SY + ' received_inv')], DF + ' (guarded effects)', LN)
PE = 'p2p/src/fsm/peermgr.rs'
prop('P01', 'A peer is negotiated only by version then verack, exactly once',
     'A connection becomes negotiated only when it is connected, has sent its first version message and then its verack; what is announced '
     'about it is exactly what that version said. A repeated version is ignored and an unexpected verack drops the peer; a clock offset is '
     'counted once per completed handshake, and no message sequence of a stranger or an unconnected peer has any of these effects.',
     ['inputs', 'histories', 'schedules'], 'every order of version, verack and other messages on every connection', 'tests run the handshake in its proper order', [PE],
     [('version', PE + ' received_version'), ('verack', PE + ' received_verack')], DF + ' (typestate of the handshake)', LN)
prop('P02', 'Unsuitable peers are refused at their version message, suitable ones are not',
     'When its version arrives, a peer is dropped, with nothing sent to it, if its protocol version is too old, it is us, or the version hook '
     'refuses it; an outbound peer also if it lacks required services or is over 2016 blocks behind us, unless whitelisted or local, or if it lacks '
     'preferred services while the outbound target is already reached. A peer to which none of this applies is never refused.',
     ['inputs', 'histories', 'configurations'], 'every version message, chain height and configuration', 'tests send acceptable versions', [PE],
     [('refusals', PE + ' received_version')], DF + ' (decision table of refusals)', LN)
prop('P03', 'Handshake messages go out in protocol order with our own parameters',
     'We send our version first on connections we made and only after receiving theirs on connections made to us, carrying our protocol '
     'version, services, user agent and height; feature negotiation precedes the verack, and every version we accept is acknowledged. '
     'Each stage of the handshake arms a timer.',
     ['inputs', 'histories'], 'every connection and link direction', 'tests inspect a few messages of one exchange', [PE],
     [('dial', PE + ' peer_connected'), ('reply', PE + ' received_version'), ('version message', PE + ' version')], DF + ' (event order, message provenance)', LN)
prop('P04', 'Connection limits hold and no peer is dialled twice',
     'An inbound connection beyond the configured maximum is closed, others are not; outbound connections are opened only up to the target, '
     'counting those being established, only to addresses of supported kinds, and never to a peer already connected or being connected. '
     'When below target and addresses are available, new connections are opened.',
     ['inputs', 'histories', 'configurations', 'schedules'], 'every peer set, configuration and connection pattern', 'tests use fixed numbers of peers', [PE],
     [('inbound', PE + ' peer_connected'), ('dialling', PE + ' connect'), ('upkeep', PE + ' maintain_connections')], DF + ' (guarded effects, count provenance)', LN)
prop('P05', 'Peers that do not connect or finish the handshake in time are dropped',
     'A connection attempt not completed within its timeout, and a connection whose handshake has not reached verack within its timeout, is '
     'closed at the next timer; a negotiated peer or one still within its time is not. Periodic connection upkeep always re-arms its own timer.',
     ['schedules', 'histories', 'fault_sequences'], 'every set of peers and every time', 'tests let one handshake time out', [PE],
     [('timeouts', PE + ' timer_expired')], DF + ' (per-element obligations, threshold provenance)', LN)
prop('P06', 'Persistent peers are retried with exponential backoff forever',
     'Every configured persistent peer is dialled at start and, whenever it disconnects, scheduled for another attempt after a delay that '
     'doubles per attempt within the configured bounds; a due retry is performed once and a timer guarantees it is looked at. Other peers are never retried '
     'this way.',
     ['schedules', 'histories', 'fault_sequences', 'configurations'], 'every pattern of disconnections', 'a test covers a few retries of one peer', [PE],
     [('backoff', PE + ' peer_disconnected'), ('retry', PE + ' maintain_persistent')], DF + ' (typestate of retries, value provenance)', LN)
prop('P07', 'Misbehaving and silent peers are closed once, closed peers are forgotten',
     'A connected peer reported as misbehaving or timed out is closed for that reason exactly once; unknown or not connected peers never are. '
     'When a connection ends the peer is forgotten, its end is announced with the reason, and outbound connections are topped up.',
     ['histories', 'schedules'], 'every order of reports and disconnections', 'tests disconnect one peer at a time', [PE],
     [('reports', PE + ' received_event'), ('close', PE + ' disconnect'), ('closed', PE + ' peer_disconnected')], DF + ' (typestate of connections)', LN)
PI = 'p2p/src/fsm/pingmgr.rs'
prop('P08', 'Pings are answered and unresponsive peers detected',
     'A ping of a negotiated peer is answered with the same nonce; we ping each peer periodically with a fresh nonce, accept only the '
     'matching pong, and disconnect the peer as timed out when none came in time. The record of latencies stays bounded.',
     ['inputs', 'histories', 'schedules'], 'every order of pings, pongs and timers', 'tests exchange a single ping', [PI],
     [('messages', PI + ' received_event'), ('timer', PI + ' timer_expired')], DF + ' (typestate of pings)', LN)
AD = 'p2p/src/fsm/addrmgr.rs'
PK = 'common/src/p2p/peer.rs'
prop('A01', 'Only suitable, routable, unbanned addresses enter the address book',
     'However it arrives, an address is recorded only if it offers the required services and none of the antiquated ones, was active at a known '
     'time not over an hour in the future (imported addresses may lack the time), is of a supported kind, routable and not local, banned or our own; '
     'every other address is recorded with its source and a clean history. Addresses already known are never overwritten, and a message with '
     'none or over a thousand addresses is ignored.',
     ['inputs', 'histories', 'configurations'], 'every address from every source in every state', 'tests insert a few good and a few bad addresses', [AD, PK, 'client/src/peer.rs'],
     [('filters', AD + ' insert'), ('classes', AD + ' is_routable, is_local'), ('book', PK + ' Store')], DF + ' (guarded effects, decision tables)', LN)
prop('A02', 'Address ranges match the book, stay bounded, and are shared fairly',
     'Every address in the book is in exactly the range of its network prefix, from loading onwards; a range never exceeds 256 addresses, and '
     'an address evicted from its range leaves the book with it. A request for addresses is answered with one known address of each range '
     'and the time it was last active.',
     ['inputs', 'histories'], 'every sequence of insertions, evictions and loads', 'tests fill one range', [AD],
     [('ranges', AD + ' populate_address_ranges'), ('sharing', AD + ' received_getaddr')], DF + ' (joint updates, value provenance)', LN)
prop('A03', 'Peers dropped for lasting reasons are banned for good, others are kept',
     'A connected peer that was dropped for a reason that will not pass leaves the book and its range and is banned, and bans are never lifted; one that '
     'timed out, was behind, exceeded a limit or closed the connection itself stays. Attempts, handshakes and activity are recorded when and only '
     'when they happen, and only connected outbound peers are asked for addresses.',
     ['histories', 'inputs'], 'every order of connection events and disconnection reasons', 'tests disconnect for one or two reasons', [AD, 'p2p/src/fsm.rs'],
     [('disconnection', AD + ' peer_disconnected'), ('ban', AD + ' ban'), ('reasons', 'p2p/src/fsm.rs is_transient')], DF + ' (decision table, joint updates)', LN)
prop('A04', 'Sampling never repeats, never picks unusable addresses, and finds usable ones',
     'A sampled address is of a supported kind, offers the services asked for, is not in use, was not sampled within three minutes, and is not '
     'one whose only attempts failed; sampling marks it. Nothing is returned only if no address qualifies; once none is left to try the book counts as exhausted, which '
     'is announced and every source is asked for more, at most once a minute. The book is saved every minute and failures are reported.',
     ['inputs', 'histories', 'schedules'], 'every content of the book and every time', 'tests sample from small books', [AD],
     [('sampling', AD + ' sample_with'), ('exhaustion', AD + ' is_exhausted'), ('upkeep', AD + ' timer_expired')], DF + ' (guarded results, exhaustive-search obligation)', LN)
SMF = 'p2p/src/fsm.rs'
OUF = 'p2p/src/fsm/output.rs'
prop('M01', 'Only messages of our network from connected peers are processed',
     'A message carrying another network\'s magic is never processed and disconnects its sender for that reason; a message from an address that is not a connected peer, or '
     'that the user\'s message hook refuses, is dropped without effect. Every other message is delivered unchanged, with its sender, to every part of the '
     'protocol exactly after the hook saw it, and is not itself published.',
     ['inputs', 'configurations'], 'every message, sender, network and hook', 'tests use one network and well-behaved peers', [SMF, 'common/src/network.rs'],
     [('gate', SMF + ' message_received'), ('magic', 'common/src/network.rs magic')], DF + ' (guarded delivery)', LN)
prop('M02', 'Every output comes out once, in order, for our network; events reach all parts',
     'Outputs queued by any part of the protocol come out oldest first, unchanged and exactly once, and the outputs end only when every queue is empty; '
     'messages carry the magic of the configured network. Every event that comes out is first handed to every part of the protocol, and nothing else is.',
     ['histories', 'schedules', 'configurations'], 'every content of the output queues', 'tests drain outputs of simple exchanges', [SMF, OUF],
     [('draining', SMF + ' next'), ('queues', OUF + ' Outbox')], DF + ' (exhaustive case analysis of queue states)', LN)
prop('M03', 'Clock, timers, connections and configuration reach every part',
     'Starting up sets the clock before anything else, starts the address book before peers are dialled, and announces readiness with both chain heights last; '
     'every tick sets the clock, every timer wakes all parts, and connection events are forwarded with our height. Each configured value (versions, services, '
     'limits, timeouts, trusted peers, hooks, consensus parameters) is the one the responsible part uses.',
     ['configurations', 'schedules'], 'every configuration and input', 'tests run with defaults', [SMF],
     [('inputs', SMF + ' initialize, timer_expired, tick, connected, disconnected'), ('wiring', SMF + ' new')], DF + ' (must-call, value provenance)', LN)
prop('M04', 'Every user command has its effect and exactly one right answer',
     'Queries answer with the block, tip (height, header, work) or negotiated peers with the asked services as they are, once; headers, addresses, transactions, rescans and '
     'watched scripts are handed on as given and failures are reported, not dropped. A broadcast reaches all and only the peers the predicate accepts, who are '
     'listed in the answer, and disconnecting affects the named peer.',
     ['inputs', 'histories'], 'every command in every state', 'tests issue a few commands in one state each', [SMF, 'p2p/src/fsm/invmgr.rs'],
     [('commands', SMF + ' command'), ('broadcast', SMF + ' broadcast')], DF + ' (per-command reply typestate and provenance)', LN)
prop('M05', 'The protocol core is deterministic and does no I/O',
     'Nothing in the protocol state machine touches sockets, files, threads, the process environment or the system clock, keeps hidden global state, or draws randomness other '
     'than from the generator it was given; nor does it depend on an iteration order that changes between runs. Given the same inputs, time and seed it produces the same outputs.',
     ['programs', 'schedules'], 'every function of the protocol crate and what it calls in this repository', 'nondeterminism shows only across runs and platforms', ['p2p/src', 'common/src'],
     [('call graph', 'p2p/src'), ('generator', SMF + ' new')], 'effect analysis over the resolved call graph of the compiler\'s intermediate representation', LN)
prop('M06', 'No peer, timer or command can crash the protocol',
     'No message whatever its content, connection event, timer or user command makes the protocol state machine panic: no failed unwrap, assertion or out-of-range access is '
     'reachable. Debug assertions aside, every remaining panic is one an invariant decided by another property rules out.',
     ['inputs', 'histories', 'fault_sequences'], 'every message, event, timer and command in every state', 'a crash needs the one unusual input', ['p2p/src/fsm', SMF],
     [('handlers', 'p2p/src/fsm/*.rs received_event, timer_expired'), ('commands', SMF + ' command')], 'interprocedural panic-reachability analysis with path-sensitive guards', LN)

IM = 'p2p/src/fsm/invmgr.rs'
FE = 'p2p/src/fsm/fees.rs'
prop('I01', 'Only requested, authentic blocks of the active chain are taken',
     'A block is taken only if it was asked for, its transactions match its header, and it is on the active chain; anything else has no effect on blocks or transactions. '
     'The sender of a block whose transactions do not match its header is reported, no other sender is. A block that was asked for is taken at its height on the active chain '
     'whoever sends it, and only its arrival ends the request.',
     ['inputs', 'histories'], 'every block, sender and set of outstanding requests', 'tests deliver the requested blocks', [IM],
     [('arrival', IM + ' received_block')], DF + ' (guarded effects, must-call)', LN)
prop('I02', 'Blocks come out in order of height, once, and only when none is outstanding',
     'While a requested block is outstanding none is processed; once the last one arrives, even if it turns out stale, all received blocks are processed, lowest first, until '
     'none is left. Each is reported exactly once with its own height and fees, except those reverted in the meantime, which are never reported or counted.',
     ['histories', 'schedules', 'inputs'], 'every order of requests, arrivals and re-orgs', 'tests use two orders of arrival', [IM],
     [('queue', IM + ' received_block'), ('re-org', IM + ' block_reverted')], DF + ' (typestate of the queue, exit obligations)', LN)
prop('I03', 'Submitted transactions are confirmed by blocks and un-confirmed by re-orgs',
     'A submitted transaction found in a processed block is reported confirmed with that block and height, leaves the pool and is no longer announced to anyone; '
     'other transactions are never reported. When that block is reverted, all of its transactions return to the pool, are reported reverted and announced again. '
     'Confirmations are remembered until their block is more than twelve deep, and nothing leaves the pool unconfirmed.',
     ['histories', 'inputs'], 'every block content and sequence of blocks and re-orgs', 'tests confirm and revert one transaction', [IM],
     [('confirmation', IM + ' received_block'), ('reversal', IM + ' block_reverted'), ('pruning', IM + ' timer_expired')], DF + ' (for-each obligations, value provenance)', LN)
prop('I04', 'Transactions are announced to every relaying peer until it asks for them',
     'Every relaying peer, whether connected before or after the submission, is sent every submitted transaction it has not yet asked for, by the identifier it negotiated, '
     'once a minute and at most three times in a row, then dropped; peers that do not relay get nothing. A peer that asks for a submitted transaction is sent exactly it, which is reported '
     'acknowledged if it had been announced to that peer, and the count starts over.',
     ['histories', 'schedules', 'inputs'], 'every order of submissions, connections, requests and ticks', 'tests use one transaction and two peers', [IM],
     [('submission', IM + ' announce'), ('announcing', IM + ' timer_expired'), ('answering', IM + ' received_getdata')], DF + ' (for-each obligations, guarded effects)', LN)
prop('I05', 'Blocks asked for are requested every 15 s until they arrive',
     'Every outstanding block is requested from some connected peer that serves blocks, at once and again whenever fifteen seconds passed without it arriving; never sooner, and '
     'a request counts only if there was a peer to ask. Asking for a block twice does not reset it, and nothing but its arrival ends it.',
     ['histories', 'schedules'], 'every set of requests, peers and times', 'tests use a single request', [IM],
     [('request', IM + ' get_block'), ('retries', IM + ' timer_expired')], DF + ' (for-each obligations, guarded effects)', LN)
prop('I06', 'Fee estimates cover exactly the known transactions and survive re-orgs',
     'The estimate of a block is the lowest, median and highest of the fee rates (fee over virtual size) of its non-coinbase transactions whose inputs are all known; the inputs of these are spent '
     'and every output becomes spendable. Blocks at or below the current height change nothing. After a re-org the state is the last one at or below the new height, for up to twelve blocks.',
     ['inputs', 'histories'], 'every block and sequence of blocks and rollbacks', 'tests use random small blocks without re-orgs', [FE],
     [('processing', FE + ' process, apply'), ('rollback', FE + ' rollback'), ('estimate', FE + ' from')], DF + ' (value provenance, joint updates)', LN)

RX = 'net/poll/src/reactor.rs'
ST = 'p2p/src/stream.rs'
CSV = 'client/src/service.rs'
prop('N01', 'The protocol is told of exactly the connections that exist',
     'A connection is reported to the protocol once, when it is established, with the right direction and addresses; a refused, failed or timed-out attempt is reported as a failure and never as a connection. '
     'Every connection that ends, for whatever reason and on whichever side, is reported as ended with that reason, once, and its socket, buffers and registration are gone. '
     'Nothing is reported or sent for addresses that are not connected.',
     ['schedules', 'fault_sequences', 'histories'], 'every order of socket readiness, error and protocol request', 'tests cannot schedule the operating system', [RX, CSV],
     [('outputs', RX + ' process'), ('readiness', RX + ' handle_writable, handle_readable'), ('accepting', RX + ' handle_events'), ('adapter', CSV)], DF + ' (typestate of connections, joint updates)', LN)
prop('N02', 'Bytes and messages are delivered in order, once and whole, both ways',
     'What the protocol sends to a peer is queued behind what was queued before and written out in order, each byte exactly once however the socket splits the writes, and the socket is watched while anything is left. '
     'What a peer sends is read in order and decoded into the same messages however it arrives split or joined; only undecodable data ends the connection, and one peer\'s data never reaches another\'s decoder.',
     ['schedules', 'inputs', 'fault_sequences'], 'every partial write, split and joined read', 'tests use whole messages over loopback', [RX, 'net/poll/src/socket.rs', ST, CSV],
     [('queueing', RX + ' process'), ('writing', 'net/poll/src/socket.rs flush'), ('reading', RX + ' handle_readable'), ('decoding', ST + ' Decoder')], DF + ' (value provenance of buffers, loop obligations)', LN)
prop('N03', 'The node keeps serving commands, timers, peers and outputs until shut down',
     'Between any two waits the reactor updates the clock, processes everything the protocol put out, fires due timers, serves every ready socket and, when woken, runs every queued command and shuts down if asked to. '
     'It never sleeps past the next timer, and no signal, failing peer, failing accept or busy network ends or starves it.',
     ['schedules', 'fault_sequences'], 'every interleaving of readiness, timers, commands and faults', 'tests run the reactor briefly without faults', [RX, CSV],
     [('event loop', RX + ' run'), ('readiness', RX + ' handle_events'), ('adapter', CSV)], DF + ' (per-iteration obligations of the event loop)', LN)
prop('N04', 'Timers fire when due: all of them, and none early',
     'A timer set by the protocol fires at its time or, if it is within a second of one already set, with that one; none fires early or is lost, and every timer that is due fires at the next wake-up. '
     'The time to the next timer is the distance to the earliest one, zero if it has passed.',
     ['histories', 'inputs'], 'every set of timers and wake-up time', 'tests register a few timers', ['net/poll/src/time.rs'],
     [('setting', 'net/poll/src/time.rs register'), ('next', 'net/poll/src/time.rs next'), ('waking', 'net/poll/src/time.rs wake')], DF + ' (typestate of the timer list)', LN)
prop('N05', 'Every subscriber gets every event, in order, once, and waits are bounded',
     'An event is sent to every subscriber that is still listening, once, without blocking on slow ones, and only subscribers that went away are dropped; the block, filter and event feeds carry exactly what their events hold. '
     'Waiting for an event looks at every event, returns the one waited for, and takes no longer than the time given.',
     ['schedules', 'histories'], 'every set of subscribers and sequence of events', 'tests use one subscriber', ['net/src/event.rs', 'client/src/client.rs'],
     [('emitting', 'net/src/event.rs Emitter'), ('waiting', 'net/src/event.rs wait'), ('feeds', 'client/src/client.rs Client::new')], DF + ' (for-each obligations, value provenance)', LN)

CC = 'client/src/client.rs'
prop('H01', 'A client call does what it says, and its answer is the node\'s answer',
     'Every call a user makes on the client reaches the running node as exactly one request with the arguments given, the node is woken to serve it, and the caller gets the node\'s answer or an error within the time set; a failure is never reported as success. '
     'Waiting for peers returns once as many connected peers with the wanted services exist at the same time, counting those already connected and no longer those that left; waiting for a height returns the block at that height as soon as it is or becomes part of the chain. '
     'Waiting for a connection or disconnection looks at every event that follows the request.',
     ['inputs', 'schedules', 'histories'], 'every call, argument, and order of events around it', 'tests call a few of them against a simulated network', [CC, 'client/src/handle.rs', 'p2p/src/fsm.rs'],
     [('requests', CC + ' Handle::command'), ('waits', CC + ' wait_for_peers, wait_for_height, connect, disconnect'), ('shutdown', CC + ' shutdown')], DF + ' (must-call, value provenance, per-event obligations)', LN)
prop('H02', 'Start-up uses the stored state of the right network, or fails cleanly',
     'The client opens or creates, repairs and loads the block headers, filter headers and peers stored for the configured network under the configured directory, verifies filter headers if asked to, and runs the node with what it loaded and with every configured option. '
     'Unusable headers or filters stop the start-up with an error; an incompletely written peer file is replaced, an intact one is never deleted. DNS seeds are asked only when no peers are known or configured.',
     ['configurations', 'crash_points', 'inputs'], 'every configuration and state of the stored files', 'tests start from empty directories', [CC, 'client/src/service.rs'],
     [('loading', CC + ' Client::load'), ('running', CC + ' Client::run, run_with'), ('configuration', 'client/src/service.rs Service::new')], DF + ' (guarded effects, value provenance)', LN)
prop('H03', 'Known peers survive a restart unchanged, and a bad peer file cannot crash',
     'Saving writes every known address, with its services, origin and times, replaces the previous contents and is durable when it returns. Loading gives back exactly what was saved; any other contents, at whatever byte they were cut or damaged, give an error and never a panic. '
     'Adding an address never overwrites a known one, and every address of every seed is added.',
     ['inputs', 'crash_points', 'histories'], 'every set of known addresses and every contents of the file', 'tests save and load a few addresses', ['client/src/peer.rs', 'common/src/p2p/peer.rs'],
     [('file', 'client/src/peer.rs Cache'), ('encoding', 'common/src/p2p/peer.rs to_json, from_json'), ('seeds', 'common/src/p2p/peer.rs Store::load_seeds')], DF + ' (for-each obligations, inverse-pair agreement, panic reachability)', LN)
WL = 'wallet/src/wallet.rs'
prop('W01', 'The wallet balance is the sum of its unspent outputs in the blocks it saw',
     'For every matching block, all transactions are applied in order: every output paid to a watched script is recorded once with its transaction, index, address and value, every spent output is removed, and nothing else changes; the balance shown afterwards is the sum of what is recorded. '
     'All stored addresses, and those obtained from the device, are watched, and scanning starts at the wallet\'s birth height with all of them.',
     ['inputs', 'histories'], 'every block, transaction and set of addresses', 'tests use a few generated transactions', [WL, 'wallet/src/wallet/db.rs'],
     [('applying', WL + ' apply'), ('blocks', WL + ' handle_client_event'), ('database', 'wallet/src/wallet/db.rs'), ('watching', WL + ' run')], DF + ' (for-each obligations, value provenance, agreement of statements with bound values)', LN)
# -- properties this family cannot decide here ---------------------------------------------------------------------------
prop('L01', 'With one honest peer the node ends up on the honest chain',
     'As long as one connected peer is honest and keeps answering, the node finally reaches that peer\'s header chain and filter '
     'header chain, and every started rescan finishes, whatever the other peers send or withhold.',
     ['schedules', 'fault_sequences'], 'every fair schedule of messages, timers and hostile peers',
     'a simulation samples schedules; it cannot show that none of them starves the honest peer',
     ['p2p/src/fsm/syncmgr.rs', 'p2p/src/fsm/cbfmgr.rs', 'p2p/src/fsm/peermgr.rs'],
     [('sync', 'p2p/src/fsm/syncmgr.rs sync'), ('filter sync', 'p2p/src/fsm/cbfmgr.rs sync'), ('rescan', 'p2p/src/fsm/cbfmgr/rescan.rs')],
     '', '',
     na='Global liveness under fairness: it needs a ranking argument over unbounded message histories of several peers. A static '
        'rule can only decide the local steps (every request is tracked, timed out and asked again elsewhere), which S02, F03, F05 '
        'and F06 do; that these add up to convergence is not decided.')
prop('L02', 'Memory use stays bounded whatever peers send',
     'No sequence of messages makes the node keep an amount of memory that grows without bound: stale headers, addresses, queued '
     'messages, cached filters and remembered inventories all stay below fixed limits.',
     ['inputs', 'histories'], 'every history of peer messages', 'tests run for seconds with a few well-behaved peers',
     ['chain/src/block/cache.rs', 'p2p/src/fsm/addrmgr.rs', 'p2p/src/fsm/invmgr.rs', 'p2p/src/stream.rs'],
     [('stale headers', CH + ' orphans'), ('address book', 'p2p/src/fsm/addrmgr.rs address_ranges'),
      ('mempool', 'p2p/src/fsm/invmgr.rs mempool')],
     '', '',
     na='The sizes are runtime quantities, and several of them have no bound in the code by design (stale headers cost the sender '
        'proof-of-work, the mempool holds the user\'s own transactions), so there is no invariant to prove. The bounds the code does '
        'state are decided: filter cache capacity (F07), address ranges (A02), messages per request (S01, F06), fee window (I06).')
prop('L03', 'A matching compact filter never misses a relevant block',
     'If a block spends or pays one of the watched scripts, then the filter of that block, once accepted, reports a match.',
     ['inputs'], 'every block and every set of watched scripts', 'the tests decode a few published vectors',
     ['p2p/src/fsm/cbfmgr/rescan.rs', 'common/src/block/filter.rs'],
     [('match', 'p2p/src/fsm/cbfmgr/rescan.rs match_filter')],
     '', '',
     na='This is arithmetic about Golomb-coded sets (SipHash, division by a modulus, bit streams) inside the bitcoin crate, not in '
        'this repository. What the repository does with the answer (which scripts, which hash key, what is done on a match or an '
        'undecodable filter) is decided by F04 and F05.')
prop('L04', 'Stored headers survive a power cut in the middle of a write',
     'After losing power at any moment, reopening the store finds every header whose synchronisation had been confirmed, and no '
     'header that was never written.',
     ['crash_points'], 'every crash point and every order in which the disk persists writes',
     'a test cannot cut the power between two sectors',
     [IO], [('append', IO + ' put'), ('sync', IO + ' sync'), ('repair', IO + ' heal')],
     '', '',
     na='Which of the issued writes are on disk after a crash is decided by the file system and the device, outside the source. The '
        'part the source decides (synchronisation really reaches sync_data, appending never overwrites, opening cuts torn records) '
        'is in C08.')
