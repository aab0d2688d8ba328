I='p2p/src/fsm/invmgr.rs'; F='p2p/src/fsm/fees.rs'
M=[
# I01
('merkle-off',I,"if !block.check_merkle_root() {","if block.txdata.is_empty() {",'I01'),
('merkle-keep',I,"""                reason: "block transactions do not match the block header",
            });
            return vec![];""","""                reason: "block transactions do not match the block header",
            });
            self.remaining.remove(&hash);
            return vec![];""",'I01'),
('merkle-silent',I,"""            self.outbox.event(Event::PeerMisbehaved {
                addr: *from,
                reason: "block transactions do not match the block header",
            });
            return vec![];""","            return vec![];",'I01'),
('unsolicited',I,"""            // have already received this block once.
            return vec![];""","""            // have already received this block once.
            log::debug!(target: "p2p", "Unexpected block {hash}");""",'I01'),
('unsolicited-get',I,"if self.remaining.remove(&hash).is_none() {","if !self.remaining.contains_key(&hash) {",'I01'),
('height-wrong',I,"self.received.insert(height, block);","self.received.insert(height + 1, block);",'I01'),
('inactive',I,"""        if let Some((height, _)) = tree.get_block(&hash) {
            // Add to""","""        let height = tree.get_block(&hash).map(|(h, _)| h).unwrap_or_else(|| tree.height());
        {
            // Add to""",'I01'),
('revert-clears-queue',I,"        self.estimator.rollback(height - 1);\n","        self.estimator.rollback(height - 1);\n        self.received.clear();\n",'I01'),
# I02
('no-wait',I,"if !self.remaining.is_empty() {\n            return vec![];","if self.remaining.len() > 1 {\n            return vec![];",'I02'),
('max',I,"            .keys()\n            .min()","            .keys()\n            .max()",'I02'),
('one-only',I,"                block,\n                height,\n                fees,\n            });","                block,\n                height,\n                fees,\n            });\n            break;",'I02'),
('reverted',I,"if tree.get_block(&hash).is_none() {\n                continue;","if block.txdata.is_empty() {\n                continue;",'I02'),
('reverted-stop',I,"if tree.get_block(&hash).is_none() {\n                continue;","if tree.get_block(&hash).is_none() {\n                break;",'I02'),
('stale-return',I,"            self.received.insert(height, block);\n        }","            self.received.insert(height, block);\n        } else {\n            return vec![];\n        }",'I02'),
('fees-height',I,"self.estimator.process(block.clone(), height);","self.estimator.process(block.clone(), tree.height());",'I02'),
('no-fees',I,"let fees = self.estimator.process(block.clone(), height);","let fees = None;",'I02'),
('tip-height',I,"""                block,
                height,
                fees,
            });""","""                block,
                height: tree.height(),
                fees,
            });""",'I02'),
('processed-match-only',I,"""            self.outbox.event(Event::BlockProcessed {
                block,
                height,
                fees,
            });""","""            if fees.is_some() || !confirmed.is_empty() { self.outbox.event(Event::BlockProcessed {
                block,
                height,
                fees,
            }); }""",'I02'),
# I03
('confirm-txid',I,"self.mempool.remove(&wtxid) {\n                    confirmed","self.mempool.get(&wtxid).cloned() {\n                    confirmed",'I03'),
('confirm-first-tx',I,"for tx in &block.txdata {\n                let wtxid","for tx in block.txdata.iter().skip(1) {\n                let wtxid",'I03'),
('confirm-no-outbox',I,"if peer.outbox.remove(&wtxid).is_some() && peer.outbox.is_empty() {","if !peer.outbox.contains_key(&wtxid) && peer.outbox.is_empty() {",'I03,M06'),
('confirm-relay-only',I,"                    for peer in self.peers.values_mut() {\n                        if peer","                    for peer in self.peers.values_mut().filter(|p| p.wtxidrelay) {\n                        if peer",'I03'),
('confirm-noconf',I,"""                    self.confirmed
                        .entry(height)
                        .or_default()
                        .push(transaction.clone());
""","""                    if confirmed.len() == 1 { self.confirmed
                        .entry(height)
                        .or_default()
                        .push(transaction.clone()); }
""",'I03'),
('confirm-height',I,"                            block: hash,\n                            height,","                            block: hash,\n                            height: tree.height(),",'I03'),
('confirm-entry',I,"                        .entry(height)\n","                        .entry(tree.height())\n",'I03'),
('revert-no-announce',I,"                self.announce(transaction.clone());\n","                self.mempool.insert(transaction.wtxid(), transaction.clone());\n",'I03'),
('revert-get',I,"if let Some(transactions) = self.confirmed.remove(&height) {","if let Some(transactions) = self.confirmed.get(&height).cloned() {",'I03'),
('revert-fees',I,"self.estimator.rollback(height - 1);","self.estimator.rollback(height);",'I03'),
('revert-last-only',I,"for (height, _) in reverted {\n                    self.block_reverted(height);","if let Some((height, _)) = reverted.into_iter().last() {\n                    self.block_reverted(height);",'I03'),
('prune-early',I,"<= TRANSACTION_PRUNE_DEPTH)","< TRANSACTION_PRUNE_DEPTH)",'I03'),
('prune-depth',I,"TRANSACTION_PRUNE_DEPTH: Height = 12","TRANSACTION_PRUNE_DEPTH: Height = 6",'I03'),
('prune-abs',I,"height.saturating_sub(*h)","height.abs_diff(*h)",'?'),
('prune-wrap',I,"height.saturating_sub(*h)","height.wrapping_sub(*h)",'I03'),
('mempool-expire',I,"        for addr in disconnect {\n","        if self.peers.is_empty() { self.mempool.clear(); }\n        for addr in disconnect {\n",'I03,M06'),
# I04
('norelay',I,"self.peers.iter_mut().filter(|(_, p)| p.relay) {","self.peers.iter_mut() {",'I04'),
('norelay-new',I,"        if relay {\n            for (wtxid, tx)","        if relay || wtxidrelay {\n            for (wtxid, tx)",'I04'),
('new-nopool',I,"        if relay {\n            for (wtxid, tx) in self.mempool.iter() {","        if relay {\n            for (wtxid, tx) in self.mempool.iter().take(16) {",'I04'),
('new-wtx',I,"                relay,\n                wtxidrelay,\n","                relay,\n                wtxidrelay: wtxidrelay && relay,\n",'I04'),
('attempts-no-inc',I,"        self.attempts += 1;","        self.attempts = 1;",'I04'),
('no-last-attempt',I,"        self.last_attempt = Some(time);\n","",'I04'),
('limit',I,"if peer.attempts >= MAX_ATTEMPTS {","if peer.attempts > MAX_ATTEMPTS {",'I04'),
('wrong-inv',I,"if peer.wtxidrelay {\n                    for wtxid","if !peer.wtxidrelay {\n                    for wtxid",'I04'),
('inv-one',I,"                    for wtxid in peer.outbox.keys() {\n                        invs.push(Inventory::WTx","                    for wtxid in peer.outbox.keys().take(1) {\n                        invs.push(Inventory::WTx",'I04'),
('no-remove',I,"            self.peers.remove(&addr);\n            self.outbox.event(Event::PeerTimedOut","            self.outbox.event(Event::PeerTimedOut",'I04'),
('no-timedout',I,"            self.outbox.event(Event::PeerTimedOut { addr });\n","",'I04'),
('serve-noack',I,"""                        if let Some(txid) = peer.outbox.remove(wtxid) {
                            // Reset retry state.
                            peer.reset();
""","""                        if let Some(txid) = peer.outbox.remove(wtxid) {
                            // Reset retry state.
""",'I04'),
('serve-only-known',I,"                        self.outbox.tx(addr, tx.clone());\n\n","",'I04'),
('serve-break',I,"                _ => {}\n            }\n        }\n    }\n\n    /// Called when a block is received","                _ => break,\n            }\n        }\n    }\n\n    /// Called when a block is received",'I04'),
('ack-always',I,"                            if peer.outbox.remove(&wtxid).is_some() {\n                                // Reset","                            peer.outbox.remove(&wtxid);\n                            {\n                                // Reset",'I04'),
('timeout-const',I,"REBROADCAST_TIMEOUT: LocalDuration = LocalDuration::from_mins(1)","REBROADCAST_TIMEOUT: LocalDuration = LocalDuration::from_mins(10)",'I04'),
('reset-half',I,"        self.last_attempt = None;\n        self.attempts = 0;","        self.last_attempt = None;",'I04'),
('confirm-noreset',I,".is_some() && peer.outbox.is_empty() {\n                            peer.reset();",".is_some() && peer.outbox.is_empty() {\n                            peer.last_attempt = None;",'I04'),
('announce-nomem',I,"        self.mempool.insert(wtxid, tx);\n\n        for","        if !self.peers.is_empty() { self.mempool.insert(wtxid, tx); }\n\n        for",'I04'),
('gone',I,"            Event::PeerDisconnected { addr, .. } => {\n                self.peers.remove(&addr);","            Event::PeerDisconnected { addr, .. } => {\n                if self.mempool.is_empty() { self.peers.remove(&addr); }",'I04'),
('announce-now',I,"                if elapsed < self.timeout {\n                    continue;","                if elapsed < self.timeout && peer.attempts > 1 {\n                    continue;",'I04'),
# I05
('get-block-reset',I,"self.remaining.entry(hash).or_insert(None);","self.remaining.insert(hash, None);",'I05'),
('get-block-notick',I,"self.remaining.entry(hash).or_insert(None);\n        self.schedule_tick();","if self.remaining.insert(hash, None).is_none() { self.schedule_tick(); }",'I05'),
('req-nostamp',I,"                *last_request = Some(now);\n","                last_request.get_or_insert(now);\n",'I05'),
('req-anyone',I,".sample_with(|_, p| p.services.has(ServiceFlags::NETWORK))",".sample_with(|_, p| p.relay)",'I05'),
('req-notimer',I,"                self.outbox.set_timer(REQUEST_TIMEOUT);\n\n","",'I05'),
('req-stamp-nobody',I,"            } else {\n                log::debug!(\n                    target: \"p2p\",\n                    \"No peers with","            } else {\n                *last_request = Some(now);\n                log::debug!(\n                    target: \"p2p\",\n                    \"No peers with",'I05'),
('req-timeout',I,"REQUEST_TIMEOUT: LocalDuration = LocalDuration::from_secs(15)","REQUEST_TIMEOUT: LocalDuration = LocalDuration::from_mins(15)",'I05'),
('req-one',I,".filter(|(_, t)| now - t.unwrap_or_default() >= REQUEST_TIMEOUT);",".filter(|(_, t)| now - t.unwrap_or_default() >= REQUEST_TIMEOUT)\n            .take(1);",'I05'),
('idle',I,"            self.last_tick = Some(now);\n            self.outbox.set_timer(IDLE_TIMEOUT);","            self.last_tick = Some(now);",'I05'),
('forget-late',I,"        // Handle block request queue.\n","        let tip = tree.height();\n        if tip == 0 { self.remaining.clear(); }\n        // Handle block request queue.\n",'I05'),
('tick-noreset',I,"        self.last_tick = None; // Disable rate-limiting for the next tick.\n","",'I05'),
# I06
('fee-old',F,"if height <= self.height {","if height < self.height {",'I06'),
('fee-snap-after',F,["        let snapshot = self.utxos.clone();\n\n","        self.snapshots.push_back((self.height, snapshot));"],["","        let snapshot = self.utxos.clone();\n        self.snapshots.push_back((self.height, snapshot));"],'I06'),
('fee-snap-height',F,"self.snapshots.push_back((self.height, snapshot));","self.snapshots.push_back((height, snapshot));",'I06'),
('fee-pop',F,"if self.snapshots.len() > MAX_UTXO_SNAPSHOTS {","if self.snapshots.len() >= MAX_UTXO_SNAPSHOTS {",'I06'),
('fee-popback',F,"self.snapshots.pop_front();","self.snapshots.pop_back();",'I06'),
('fee-roll',F,"self.snapshots.retain(|(h, _)| h <= &height);","self.snapshots.retain(|(h, _)| h < &height);",'I06'),
('fee-roll-guard',F,"        if self.height <= height {\n            return;\n        }\n        self.snap","        self.snap",'I06'),
('fee-roll-height',F,"            self.height = h;","            self.height = height;",'I06'),
('fee-get',F,"self.utxos.remove(&input.previous_output) {\n                received","self.utxos.get(&input.previous_output) {\n                received",'I06'),
('fee-skip',F,"            } else {\n                return None;\n            }\n        }\n        // Nb.","            } else {\n                continue;\n            }\n        }\n        // Nb.",'I06'),
('fee-weight',F,"let weight = tx.weight();","let weight = tx.strippedsize();",'I06'),
('fee-vout',F,"                vout: vout as u32,","                vout: vout as u32 + 1,",'I06'),
('fee-median',F,"fees[count / 2 - 1] as f64","fees[count / 2] as f64",'I06'),
('fee-unsorted',F,"        fees.sort_unstable();\n\n","",'I06'),
('fee-median2',F,"((left + right) / 2.).round()","((left + right) / 3.).round()",'I06'),
('fee-coinbase',F,"if tx.is_coin_base() {\n            return None;","if tx.is_coin_base() && tx.output.is_empty() {\n            return None;",'I06'),
('fee-sub',F,"received.checked_sub(sent)?","received.checked_sub(sent).unwrap_or(received)",'I06'),
('fee-scale',F,"/ WITNESS_SCALE_FACTOR as f64","/ (WITNESS_SCALE_FACTOR - 1) as f64",'I06'),
# behaviour-preserving
('ok-sorted',I,"""        while let Some((height, block)) = self
            .received
            .keys()
            .min()
            .cloned()
            .and_then(|h| self.received.remove(&h).map(|b| (h, b)))
        {
""","""        let mut heights: Vec<Height> = self.received.keys().copied().collect();
        heights.sort_unstable();

        for height in heights {
            let Some(block) = self.received.remove(&height) else {
                continue;
            };
""",'ok'),
('ok-helper',I,["        self.outbox.inv(*addr, invs);\n                self.outbox.set_timer(self.timeout);"],["        let outbox = &mut self.outbox;\n                outbox.inv(*addr, invs);\n                outbox.set_timer(self.timeout);"],'ok'),
('ok-retain',I,"height.saturating_sub(*h) <= TRANSACTION_PRUNE_DEPTH","*h > height || height - *h <= TRANSACTION_PRUNE_DEPTH",'ok'),
('ok-announce-loop',I,"""        for (addr, peer) in self.peers.iter_mut().filter(|(_, p)| p.relay) {
            peer.outbox.insert(wtxid, txid);
            addrs.push(*addr);
        }""","""        for (addr, peer) in self.peers.iter_mut() {
            if !peer.relay {
                continue;
            }
            addrs.push(*addr);
            peer.outbox.insert(wtxid, txid);
        }""",'ok'),
('ok-match-block',I,"""        if let Some((height, _)) = tree.get_block(&hash) {
            // Add to processing queue. Blocks are processed in-order only.
            self.received.insert(height, block);
        }""","""        match tree.get_block(&hash) {
            Some((height, _)) => {
                self.received.insert(height, block);
            }
            None => {
                log::debug!(target: "p2p", "Ignoring stale block {hash}");
            }
        }""",'ok'),
('ok-active-helper',I,["            if tree.get_block(&hash).is_none() {\n                continue;\n            }\n","    fn schedule_tick(&mut self) {"],["            if !Self::is_active(&hash, tree) {\n                continue;\n            }\n","    fn is_active<T: BlockReader>(hash: &BlockHash, tree: &T) -> bool {\n        tree.get_block(hash).is_some()\n    }\n\n    fn schedule_tick(&mut self) {"],'ok'),
('ok-inv-map',I,"""                let mut invs = Vec::with_capacity(peer.outbox.len());
                if peer.wtxidrelay {
                    for wtxid in peer.outbox.keys() {
                        invs.push(Inventory::WTx(self.mempool[wtxid].wtxid()));
                    }
                } else {
                    // TODO: Should we send a WitnessTransaction?
                    for wtxid in peer.outbox.keys() {
                        invs.push(Inventory::Transaction(self.mempool[wtxid].txid()));
                    }
                }
""","""                let invs: Vec<_> = if peer.wtxidrelay {
                    peer.outbox.keys().map(|wtxid| Inventory::WTx(*wtxid)).collect()
                } else {
                    peer.outbox.values().map(|txid| Inventory::Transaction(*txid)).collect()
                };
""",'ok'),
('ok-pool-collect',I,"""        let mut outbox = HashMap::with_hasher(self.rng.clone().into());
        if relay {
            for (wtxid, tx) in self.mempool.iter() {
                outbox.insert(*wtxid, tx.txid());
            }
        }
""","""        let mut outbox = HashMap::with_hasher(self.rng.clone().into());
        if relay {
            outbox.extend(self.mempool.iter().map(|(wtxid, tx)| (*wtxid, tx.txid())));
        }
""",'ok'),
('ok-fees-chain',F,"""        for tx in &block.txdata {
            if let Some(rate) = self.apply(tx) {
                fees.push(rate);
            }
        }
""","""        for tx in block.txdata.iter() {
            let Some(rate) = self.apply(tx) else { continue };
            fees.push(rate);
        }
""",'ok'),
('ok-fees-filter',F,"""        for tx in &block.txdata {
            if let Some(rate) = self.apply(tx) {
                fees.push(rate);
            }
        }
""","""        fees.extend(block.txdata.iter().filter_map(|tx| self.apply(tx)));
""",'ok'),
('ok-fees-order',F,["        let mut fees = Vec::new();\n        let snapshot = self.utxos.clone();\n\n        if height <= self.height {\n            return None;\n        }\n"],["        if self.height >= height {\n            return None;\n        }\n        let mut fees = Vec::new();\n        let snapshot = self.utxos.clone();\n"],'ok'),
('ok-fee-match',F,"""            if let Some(out) = self.utxos.remove(&input.previous_output) {
                received += out.value;
            } else {
                return None;
            }
""","""            let out = self.utxos.remove(&input.previous_output)?;
            received += out.value;
""",'ok'),
('ok-find-helper',I,["if let Some(tx) = self.mempool.values().find(|tx| tx.txid() == *txid) {\n"],["let found = self.mempool.values().find(|tx| tx.txid() == *txid);\n                    if let Some(tx) = found {\n"],'ok'),
('ok-reset-inline',I,["                            // Reset retry state.\n                            peer.reset();\n"],["                            // Reset retry state.\n                            peer.attempts = 0;\n                            peer.last_attempt = None;\n"],'ok'),
('ok-req-collect',I,["""        let queue = self
            .remaining
            .iter_mut()
            .filter(|(_, t)| now - t.unwrap_or_default() >= REQUEST_TIMEOUT);

        for (block_hash, last_request) in queue {
"""],["""        for (block_hash, last_request) in self.remaining.iter_mut() {
            if now - last_request.unwrap_or_default() < REQUEST_TIMEOUT {
                continue;
            }
"""],'ok'),
('ok-disconnect',I,"""        for addr in disconnect {
            self.peers.remove(&addr);
            self.outbox.event(Event::PeerTimedOut { addr });
        }
""","""        for addr in &disconnect {
            self.outbox.event(Event::PeerTimedOut { addr: *addr });
            self.peers.remove(addr);
        }
""",'ok'),
]
