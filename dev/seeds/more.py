NT='net/poll/src/time.rs'
EV='net/src/event.rs'
AM='p2p/src/fsm/addrmgr.rs'
PG='p2p/src/fsm/pingmgr.rs'
SM='p2p/src/fsm/syncmgr.rs'
RS='p2p/src/fsm/cbfmgr/rescan.rs'
PC='client/src/peer.rs'
S=[
dict(id='n04-many-timers',prop='N04',file=NT,host=NT,crate='nakamoto-net-poll',
 edits=[("        while let Some((k, t)) = self.timeouts.pop() {\n            if now >= t {\n                woken.push(k);","        while let Some((k, t)) = self.timeouts.pop() {\n            if now >= t && woken.len() < before + 8 {\n                woken.push(k);")],
 demo='''
    use super::*;
    #[test]
    fn all_due_timers_fire() {
        let mut tm = TimeoutManager::new(LocalDuration::from_secs(1));
        let now = LocalTime::from_secs(1_600_000_000);
        for i in 0..12u64 { assert!(tm.register(i, now + LocalDuration::from_secs(2 * i))); }
        let mut woken = vec![];
        tm.wake(now + LocalDuration::from_secs(100), &mut woken);
        assert_eq!(woken, (0..12).collect::<Vec<_>>());
    }
''',needs='more than eight timers due at once (after a suspended laptop wakes up, say)',breaks='some of the timers that are due do not fire'),
dict(id='n05-wait-extended',prop='N05',file=EV,host=EV,crate='nakamoto-net',
 edits=[("    let start = time::Instant::now();\n\n    loop {","    let mut start = time::Instant::now();\n\n    loop {"),
        ("                    if let Some(t) = f(event) {\n                        return Ok(t);\n                    }","                    if let Some(t) = f(event) {\n                        return Ok(t);\n                    }\n                    start = time::Instant::now();")],
 demo='''
    use super::*;
    #[test]
    fn wait_is_bounded() {
        let (tx, rx) = chan::unbounded::<u8>();
        let h = std::thread::spawn(move || {
            let t = time::Instant::now();
            while t.elapsed() < time::Duration::from_secs(4) {
                if tx.send(1).is_err() { break; }
                std::thread::sleep(time::Duration::from_millis(20));
            }
        });
        let t = time::Instant::now();
        let r = wait(&rx, |_| None::<()>, time::Duration::from_millis(300));
        assert!(r.is_err());
        assert!(t.elapsed() < time::Duration::from_secs(2), "waited {:?}", t.elapsed());
        drop(rx);
        h.join().unwrap();
    }
''',needs='a steady stream of other events while waiting',breaks='a wait with a timeout does not end'),
dict(id='p08-ping-keeps-alive',prop='P08',file=PG,host=PG,crate='nakamoto-p2p',
 edits=[("        if self.peers.contains_key(&addr) {\n            self.outbox.pong(addr, nonce);\n","        if let Some(peer) = self.peers.get_mut(&addr) {\n            if let State::AwaitingPong { ref mut since, .. } = peer.state {\n                *since = self.clock.local_time();\n            }\n            self.outbox.pong(addr, nonce);\n")],
 demo='''
    use super::*;
    use nakamoto_common::block::time::RefClock;
    #[test]
    fn peer_that_never_pongs_is_dropped() {
        let clock = RefClock::from(LocalTime::from_secs(1_600_000_000));
        let addr: PeerId = ([66, 66, 66, 66], 8333).into();
        let mut m = PingManager::new(LocalDuration::from_secs(30), fastrand::Rng::with_seed(1), clock.clone());
        m.peer_negotiated(addr);
        let mut dropped = false;
        for i in 0..10 {
            clock.elapse(LocalDuration::from_secs(20));
            m.received_ping(addr, i);
            m.timer_expired();
            dropped |= m.by_ref().any(|o| matches!(o, Io::Disconnect(_, _)));
        }
        assert!(dropped);
    }
''',needs='a peer that keeps pinging but never answers our ping',breaks='an unresponsive peer is never dropped'),
dict(id='a04-connected-range',prop='A04',file=AM,host=AM,crate='nakamoto-p2p',
 edits=[("                if self.connected.contains(ip) {\n                    continue;\n                }\n                // If the provided","                if self.connected.contains(ip) {\n                    break;\n                }\n                // If the provided")],
 demo='''
    use super::*;
    #[test]
    fn usable_address_is_found() {
        for seed in 0..32 {
            let time = LocalTime::from_secs(1_600_000_000);
            let mut a = AddressManager::new(Config::default(), fastrand::Rng::with_seed(seed), std::collections::HashMap::new(), time);
            a.initialize();
            for d in [1, 2] {
                a.insert(std::iter::once((time.block_time(), Address::new(&([111, 8, 1, d], 8333).into(), ServiceFlags::NETWORK))), Source::Dns);
            }
            a.peer_connected(&([111, 8, 1, 1], 8333).into());
            assert!(a.sample(ServiceFlags::NETWORK).is_some(), "seed {seed}: a usable address is not found");
        }
    }
''',needs='a connected peer in the same address range as the only usable address, and an unlucky shuffle',breaks='usable addresses are not found'),
dict(id='s02-empty-answer',prop='S02',file=SM,host=SM,crate='nakamoto-p2p',
 edits=[("        let request = self.inflight.remove(from);\n        let Some(headers) = NonEmpty::from_vec(headers.to_vec()) else {\n            return;\n        };\n","        let Some(headers) = NonEmpty::from_vec(headers.to_vec()) else {\n            return;\n        };\n        let request = self.inflight.remove(from);\n")],
 demo='''
    use super::*;
    use nakamoto_common::block::time::{AdjustedTime, RefClock};
    use nakamoto_common::bitcoin::Network as N;
    use nakamoto_common::network::Network;
    use nakamoto_test::block::cache::model;
    #[test]
    fn empty_answer_is_an_answer() {
        let addr: PeerId = ([66, 66, 66, 66], 8333).into();
        let clock = RefClock::from(AdjustedTime::<std::net::SocketAddr>::new(LocalTime::from_secs(1_600_000_000)));
        let cfg = Config { max_message_headers: 2000, request_timeout: LocalDuration::from_secs(30), params: Params::new(N::Regtest) };
        let mut tree = model::Cache::new(Network::Regtest.genesis());
        let mut m = SyncManager::new(cfg, fastrand::Rng::with_seed(1), clock.clone());
        m.initialize(&tree);
        m.peer_negotiated(addr, 10, ServiceFlags::NETWORK, Link::Outbound, &tree);
        assert!(m.inflight.contains_key(&addr));
        m.received_headers(&addr, &[], &mut tree);
        assert!(!m.inflight.contains_key(&addr), "the request is still considered outstanding");
    }
''',needs='a peer answering a header request with an empty message',breaks='the answered request stays outstanding, so the peer is not asked again and gets dropped as unresponsive'),
dict(id='f05-tx-only',prop='F05',file=RS,host=RS,crate='nakamoto-p2p',
 edits=[("            matched = filter.match_any(block_hash, &mut self.watch.iter().map(|k| k.as_bytes()))?;\n        }\n        if !matched && !self.transactions.is_empty() {","            matched = filter.match_any(block_hash, &mut self.watch.iter().map(|k| k.as_bytes()))?;\n        } else if !self.transactions.is_empty() {")],
 demo='''
    use super::*;
    use nakamoto_common::network::Network;
    use nakamoto_test::block::gen;
    #[test]
    fn both_watch_lists_count() {
        let mut rng = fastrand::Rng::with_seed(3);
        let chain = gen::blockchain(Network::Regtest.genesis_block(), 3, &mut rng);
        let b = chain.last();
        let f = gen::cfilter(b);
        let mut r = Rescan::new(0);
        let tx = b.txdata.iter().find(|t| t.output.iter().any(|o| !o.script_pubkey.is_empty())).unwrap();
        r.transactions.insert(tx.txid(), tx.output.iter().map(|o| o.script_pubkey.clone()).collect());
        assert!(r.match_filter(&f, &b.block_hash()).unwrap());
        r.watch.insert(gen::script(&mut rng));
        assert!(r.match_filter(&f, &b.block_hash()).unwrap(), "the transaction is missed");
    }
''',needs='watching both scripts and transactions',breaks='watched transactions are missed as soon as some script is watched'),
dict(id='h03-shrinking-file',prop='H03',file=PC,host=PC,crate='nakamoto-client',
 edits=[("        self.file.set_len(0)?;\n        self.file.seek(io::SeekFrom::Start(0))?;\n","        self.file.seek(io::SeekFrom::Start(0))?;\n")],
 demo='''
    use super::*;
    use nakamoto_common::bitcoin::network::address::Address;
    use nakamoto_common::bitcoin::network::constants::ServiceFlags;
    #[test]
    fn removed_peers_stay_removed() {
        let d = tempfile::tempdir().unwrap();
        let p = d.path().join("peers");
        let mut c = Cache::create(&p).unwrap();
        for i in 1..4u8 {
            let a: net::SocketAddr = ([33, 33, 33, i], 8333).into();
            c.insert(a.ip(), KnownAddress::new(Address::new(&a, ServiceFlags::NETWORK), Source::Dns, None));
        }
        c.flush().unwrap();
        c.remove(&net::IpAddr::from([33, 33, 33, 1]));
        c.remove(&net::IpAddr::from([33, 33, 33, 2]));
        c.flush().unwrap();
        let c = Cache::open(&p).expect("the file is readable");
        assert_eq!(c.len(), 1);
    }
''',needs='a peer file that gets shorter (peers removed or banned) before a restart',breaks='the peer file becomes unreadable'),
]
