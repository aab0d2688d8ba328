FC='p2p/src/fsm/filter_cache.rs'
TM='common/src/block/time.rs'
NT='net/poll/src/time.rs'
EV='net/src/event.rs'
IO='chain/src/block/store/io.rs'
FE='p2p/src/fsm/fees.rs'
AM='p2p/src/fsm/addrmgr.rs'
PM='p2p/src/fsm/peermgr.rs'
IM='p2p/src/fsm/invmgr.rs'
PG='p2p/src/fsm/pingmgr.rs'
S=[
dict(id='f07-rollback-size',prop='F07',file=FC,host=FC,crate='nakamoto-p2p',
 edits=[("                if let Some(k) = self.cache.keys().cloned().next_back() {\n                    if let Some(filter) = self.cache.remove(&k) {\n                        self.size -= filter.len();\n                    }\n                }","                self.cache.remove(&h);")],
 demo='''
    use super::*;
    #[test]
    fn size_after_rollback() {
        let mut c = FilterCache::new(4);
        assert!(c.push(1, BlockFilter::new(&[1, 2])));
        assert!(c.push(2, BlockFilter::new(&[3, 4])));
        c.rollback(1);
        assert_eq!(c.size(), 2);
        assert!(c.push(2, BlockFilter::new(&[5, 6])));
        assert_eq!(c.start(), Some(1), "a filter was evicted although there was room");
    }
''',needs='a rollback of cached filters that are not empty',breaks='bytes of dropped filters stay accounted, so the cache evicts filters it has room for'),
dict(id='t01-repeated-source',prop='T01',file=TM,host=TM,crate='nakamoto-common',
 edits=[("        if !self.sources.insert(source) {\n            return;\n        }\n        self.samples.push(sample);\n","        self.samples.push(sample);\n        if !self.sources.insert(source) {\n            return;\n        }\n")],
 demo='''
    use super::*;
    #[test]
    fn one_source_counts_once() {
        let mut t: AdjustedTime<u8> = AdjustedTime::new(LocalTime::from_secs(1_600_000_000));
        for _ in 0..9 { t.record_offset(1, 600); }
        for s in 2..6 { t.record_offset(s, 0); }
        for s in 6..8 { t.record_offset(s, 0); }
        assert_eq!(t.offset(), 0, "a single peer moved our clock");
    }
''',needs='the same peer reporting its time several times, followed by others',breaks='one peer can move the network-adjusted time by reconnecting'),
dict(id='n05-dead-subscriber',prop='N05',file=EV,host=EV,crate='nakamoto-net',
 edits=[("        self.subscribers\n            .lock()\n            .unwrap()\n            .retain(|s| s.try_send(event.clone()).is_ok());","        let mut subs = self.subscribers.lock().unwrap();\n        if let Some(ix) = subs\n            .iter()\n            .position(|s| s.try_send(event.clone()).is_err())\n        {\n            subs.remove(ix);\n        }")],
 demo='''
    use super::*;
    #[test]
    fn events_reach_later_subscribers() {
        let e = Emitter::<u8>::default();
        let s = e.subscriber();
        let a = s.subscribe();
        let b = s.subscribe();
        e.emit(1);
        drop(a);
        e.emit(2);
        e.emit(3);
        assert_eq!(b.try_iter().collect::<Vec<_>>(), vec![1, 2, 3]);
    }
''',needs='a subscriber that has gone away while a later one is listening',breaks='subscribers registered after a dead one miss an event'),
dict(id='c08-heal-first',prop='C08',file=IO,host=IO,crate='nakamoto-chain',
 edits=[("        if extraneous != 0 {","        if extraneous != 0 && len as usize > size {")],
 demo='''
    use super::*;
    use std::io::Write as _;
    use nakamoto_common::bitcoin::TxMerkleNode;
    use nakamoto_common::bitcoin_hashes::Hash;
    use nakamoto_common::block::{BlockHash, BlockHeader};
    #[test]
    fn torn_first_record() {
        let d = tempfile::tempdir().unwrap();
        let p = d.path().join("h.db");
        let g = BlockHeader { version: 1, prev_blockhash: BlockHash::all_zeros(), merkle_root: TxMerkleNode::all_zeros(), bits: 0x2ffffff, time: 1, nonce: 0 };
        fs::File::create(&p).unwrap().write_all(&[7; 17]).unwrap();
        let s = File::open(&p, g).unwrap();
        assert!(s.check().is_err());
        s.heal().unwrap();
        s.check().expect("the store can be repaired");
    }
''',needs='a crash while the very first record is written',breaks='a torn first record is never repaired, so the node cannot start'),
dict(id='i06-snapshots',prop='I06',file=FE,host=FE,crate='nakamoto-p2p',
 edits=[("            self.snapshots.pop_front();","            self.snapshots.pop_back();")],
 demo='''
    use super::*;
    use nakamoto_common::bitcoin::{BlockHeader, BlockHash, TxMerkleNode, PackedLockTime, Script};
    use nakamoto_common::bitcoin_hashes::Hash as _;
    fn block(n: u32) -> Block {
        Block {
            header: BlockHeader { version: 1, prev_blockhash: BlockHash::all_zeros(), merkle_root: TxMerkleNode::all_zeros(), time: n, bits: 0, nonce: n },
            txdata: vec![Transaction { version: n as i32, lock_time: PackedLockTime(0), input: vec![], output: vec![TxOut { value: n as u64, script_pubkey: Script::new() }] }],
        }
    }
    #[test]
    fn rollback_of_one() {
        let mut f = FeeEstimator::default();
        for h in 1..=15u32 { f.process(block(h), h as Height); }
        f.rollback(14);
        assert_eq!(f.height, 14);
        assert_eq!(f.utxos.len(), 14);
    }
''',needs='a re-org after more than twelve blocks',breaks='rolling back one block takes the estimator back several'),
dict(id='a02-evicted-kept',prop='A02',file=AM,host=AM,crate='nakamoto-p2p',
 edits=[("            range.remove(&addr);\n            self.peers.remove(&addr);","            if range.remove(&addr) && !self.connected.is_empty() {\n                self.peers.remove(&addr);\n            }")],
 demo='''
    use super::*;
    #[test]
    fn book_is_bounded() {
        let time = LocalTime::from_secs(1_600_000_000);
        let mut a = AddressManager::new(Config::default(), fastrand::Rng::with_seed(1), std::collections::HashMap::new(), time);
        a.initialize();
        for i in 0..300u16 {
            let ip = [111, 8, (i >> 8) as u8, i as u8];
            a.insert(std::iter::once((time.block_time(), Address::new(&(ip, 8333).into(), ServiceFlags::NETWORK))), Source::Dns);
        }
        let n: usize = a.address_ranges.values().map(|r| r.len()).sum();
        assert_eq!(n, a.peers.len(), "the book and the ranges differ");
    }
''',needs='more than 256 addresses of one range while no peer is connected',breaks='addresses dropped from a full range stay in the book, which grows without bound'),
dict(id='p04-inbound-limit',prop='P04',file=PM,host=PM,crate='nakamoto-p2p',
 edits=[],demo='',needs='',breaks=''),
dict(id='p06-no-backoff',prop='P06',file=PM,host=PM,crate='nakamoto-p2p',
 edits=[("2u64.saturating_pow(*attempts as u32)","2u64.saturating_pow(*attempts as u32 % 16)")],
 demo='''
    use super::*;
    use nakamoto_common::block::time::{AdjustedTime, RefClock};
    #[test]
    fn delay_never_shrinks() {
        let remote: net::SocketAddr = ([124, 43, 110, 1], 8333).into();
        let time = RefClock::from(AdjustedTime::<net::SocketAddr>::new(LocalTime::from_secs(1_600_000_000)));
        let cfg = Config {
            protocol_version: crate::fsm::PROTOCOL_VERSION, target_outbound_peers: 8, max_inbound_peers: 16, domains: Domain::all(),
            user_agent: crate::fsm::USER_AGENT, persistent: vec![remote], retry_max_wait: LocalDuration::from_mins(60),
            retry_min_wait: LocalDuration::from_secs(1), services: ServiceFlags::NONE, preferred_services: ServiceFlags::NETWORK,
            required_services: ServiceFlags::NETWORK, whitelist: Whitelist::default(),
        };
        let mut p = PeerManager::new(cfg, fastrand::Rng::with_seed(1), Hooks::default(), time.clone());
        let mut last = LocalTime::from_secs(0);
        let now = time.local_time();
        for _ in 0..40 {
            p.persistent_disconnected(&remote, now);
            let at = p.disconnected.get(&remote).unwrap().0.unwrap();
            assert!(at >= last, "the delay shrinks");
            last = at;
        }
    }
''',needs='a persistent peer that stays away for sixteen attempts',breaks='the delay between attempts falls back to one second'),
dict(id='i02-stale-queue',prop='I03',file=IM,host=IM,crate='nakamoto-p2p',
 edits=[("                    self.confirmed\n                        .entry(height)\n                        .or_default()\n                        .push(transaction.clone());","                    self.confirmed.insert(height, vec![transaction.clone()]);")],
 demo='''
    use super::*;
    use crate::fsm::network::Network;
    use nakamoto_common::nonempty::NonEmpty;
    use nakamoto_common::block::time::RefClock;
    use nakamoto_test::block::{cache::model, gen};
    use nakamoto_common::bitcoin::util::hash::bitcoin_merkle_root;
    use nakamoto_common::bitcoin_hashes::Hash as _;
    #[test]
    fn both_transactions_are_reverted() {
        let mut rng = fastrand::Rng::with_seed(7);
        let genesis = Network::Regtest.genesis_block();
        let mut chain = gen::blockchain(genesis, 3, &mut rng);
        let t1 = gen::transaction(&mut rng);
        let t2 = gen::transaction(&mut rng);
        {
            let b = chain.last_mut();
            b.txdata.push(t1.clone());
            b.txdata.push(t2.clone());
            b.header.merkle_root = bitcoin_merkle_root(b.txdata.iter().map(|t| t.txid().as_hash())).unwrap().into();
        }
        let block = chain.last().clone();
        let headers = NonEmpty::from_vec(chain.iter().map(|b| b.header).collect()).unwrap();
        let tree = model::Cache::from(headers);
        let mut m = InventoryManager::new(rng.clone(), RefClock::from(LocalTime::now()));
        m.peer_negotiated(([66, 66, 66, 66], 8333).into(), ServiceFlags::NETWORK, true, true);
        m.announce(t1);
        m.announce(t2);
        m.get_block(block.block_hash());
        let confirmed = m.received_block(&([66, 66, 66, 66], 8333).into(), block.clone(), &tree);
        assert_eq!(confirmed.len(), 2);
        let h = tree.get_block(&block.block_hash()).unwrap().0;
        m.block_reverted(h);
        assert_eq!(m.mempool.len(), 2, "a reverted transaction is lost");
    }
''',needs='two submitted transactions confirmed by the same block, which is then reverted',breaks='only one of the transactions of a reverted block is announced again'),
dict(id='i05-once',prop='I05',file=IM,host=IM,crate='nakamoto-p2p',
 edits=[("                *last_request = Some(now);\n            } else {","                *last_request = Some(now + REQUEST_TIMEOUT);\n            } else {")],
 demo='''
    use super::*;
    use crate::fsm::network::Network;
    use nakamoto_common::nonempty::NonEmpty;
    use nakamoto_common::block::time::RefClock;
    use nakamoto_test::block::{cache::model, gen};
    #[test]
    fn requested_again() {
        let mut rng = fastrand::Rng::with_seed(7);
        let clock = RefClock::from(LocalTime::from_secs(1_600_000_000));
        let chain = gen::blockchain(Network::Regtest.genesis_block(), 3, &mut rng);
        let headers = NonEmpty::from_vec(chain.iter().map(|b| b.header).collect()).unwrap();
        let tree = model::Cache::from(headers);
        let mut m = InventoryManager::new(rng.clone(), clock.clone());
        m.peer_negotiated(([66, 66, 66, 66], 8333).into(), ServiceFlags::NETWORK, true, true);
        m.get_block(chain.last().block_hash());
        let n = |m: &mut InventoryManager<_>| m.outbox.drain().filter(|o| matches!(o, crate::fsm::output::Io::Write(_, _))).count();
        m.timer_expired(&tree);
        assert_eq!(n(&mut m), 1);
        clock.elapse(REQUEST_TIMEOUT);
        m.timer_expired(&tree);
        assert_eq!(n(&mut m), 1, "not requested again after the timeout");
    }
''',needs='a block request left unanswered for 15 seconds',breaks='unanswered block requests are repeated only after 30 seconds'),
]
BAD=('f07-rollback-size','n05-dead-subscriber','i06-snapshots','a02-evicted-kept')  # found by the existing tests
S=[s for s in S if s['edits'] and s['id'] not in BAD]
