C = 'chain/src/block/cache.rs'
PRE = '''
    use super::*;
    use crate::block::store::{self, Store as _};
    use nakamoto_common::bitcoin::blockdata::constants::genesis_block;
    use nakamoto_common::bitcoin::hash_types::TxMerkleNode;
    use nakamoto_common::bitcoin_hashes::Hash as _;
    use nakamoto_common::block::time::{AdjustedTime, LocalTime};
    use nakamoto_common::block::tree::{BlockReader, BlockTree};
    use nakamoto_common::nonempty::NonEmpty;
    use std::net;
    type C = BlockCache<store::Memory<BlockHeader>>;
    fn net() -> bitcoin::Network { bitcoin::Network::Regtest }
    fn cache() -> C {
        let g = genesis_block(net()).header;
        BlockCache::new(store::Memory::new(NonEmpty::new(g)), Params::new(net()), &[]).unwrap()
    }
    fn clock(t: u32) -> AdjustedTime<net::SocketAddr> { AdjustedTime::new(LocalTime::from_secs(t as u64)) }
    fn mine(prev: &BlockHeader, time: u32, salt: u8) -> BlockHeader {
        let mut h = BlockHeader { version: 1, prev_blockhash: prev.block_hash(), merkle_root: TxMerkleNode::hash(&[salt]), time, bits: prev.bits, nonce: 0 };
        let t = h.target();
        while h.validate_pow(&t).is_err() { h.nonce += 1; }
        h
    }
'''
S = [
dict(id='c01-mtp-window', prop='C01', file=C, host=C, crate='nakamoto-chain',
  edits=[("if header.time <= self.median_time_past(height)", "if header.time < self.median_time_past(height)")],
  demo=PRE + '''
    #[test]
    fn equal_to_median_is_rejected() {
        let mut c = cache();
        let mut tip = c.tip().1;
        let ck = clock(tip.time + 100_000);
        for i in 0..12u32 { let h = mine(&tip, tip.time + 60, i as u8); c.import_block(h, &ck).unwrap(); tip = h; }
        let m = c.median_time_past(c.height() + 1);
        let h = mine(&tip, m, 99);
        assert!(c.import_block(h, &ck).is_err(), "header at the median time accepted");
        assert_eq!(c.height(), 12);
    }
''', needs='a header whose time equals exactly the median time past', breaks='a header not later than the median of its predecessors enters the active chain'),
dict(id='c05-fork-store', prop='C05', file=C, host=C, crate='nakamoto-chain',
  edits=[("self.store.put(branch.headers.iter().cloned())?;", "self.store.put(branch.headers.iter().rev().cloned())?;")],
  demo=PRE + '''
    #[test]
    fn store_follows_the_active_chain() {
        let mut c = cache();
        let g = c.tip().1;
        let ck = clock(g.time + 100_000);
        let a1 = mine(&g, g.time + 60, 1); let a2 = mine(&a1, g.time + 120, 1);
        let b1 = mine(&g, g.time + 61, 2); let b2 = mine(&b1, g.time + 121, 2); let b3 = mine(&b2, g.time + 181, 2);
        for h in [a1, a2, b1, b2, b3] { c.import_block(h, &ck).unwrap(); }
        assert_eq!(c.tip().0, b3.block_hash());
        let mem: Vec<_> = c.iter().collect();
        let disk: Vec<_> = c.store.iter().map(|r| r.unwrap()).collect();
        assert_eq!(mem, disk);
    }
''', needs='a reorganisation to a branch of at least two headers', breaks='the stored chain is not the active chain: it no longer links after a restart'),
dict(id='c06-reverted-unseen', prop='C06', file=C, host=C, crate='nakamoto-chain',
  edits=[("!seen.contains(h) && !self.contains(h)", "!self.contains(h)")],
  demo=PRE + '''
    #[test]
    fn reverted_blocks_were_reported_before() {
        let mut c = cache();
        let g = c.tip().1;
        let ck = clock(g.time + 100_000);
        let a1 = mine(&g, g.time + 60, 1); let a2 = mine(&a1, g.time + 120, 1); let a3 = mine(&a2, g.time + 180, 1);
        let b1 = mine(&g, g.time + 61, 2); let b2 = mine(&b1, g.time + 121, 2);
        let b3 = mine(&b2, g.time + 181, 2); let b4 = mine(&b3, g.time + 241, 2);
        let a4 = mine(&a3, g.time + 240, 1); let a5 = mine(&a4, g.time + 300, 1);
        for h in [a1, a2, a3] { c.import_block(h, &ck).unwrap(); }
        match c.import_blocks(vec![b1, b2, b3, b4, a4, a5].into_iter(), &ck).unwrap() {
            ImportResult::TipChanged { reverted, .. } => {
                for (_, b) in reverted.iter() {
                    assert!(![b1, b2, b3, b4].contains(b), "reverts a block nobody was told about");
                }
            }
            _ => panic!("tip must change"),
        }
    }
''', needs='one batch of headers that reorganises away from and back to the previous chain', breaks='a block is reported as reverted that was never reported as connected'),
]
