V='p2p/src/fsm/invmgr.rs'; F='p2p/src/fsm/fees.rs'
M=[
('a1',V,"        if self.remaining.remove(&hash).is_none() {","        if self.remaining.remove(&hash).is_none() && !self.peers.contains_key(from) {",'I01'),
('a2',V,"        if !block.check_merkle_root() {","        if block.txdata.len() > 1 && !block.check_merkle_root() {",'I01'),
('a3',V,"        // The block hash only commits to the transactions through the merkle root.\n        if !block.check_merkle_root() {","        self.remaining.remove(&hash);\n        if !block.check_merkle_root() {",'I01,I05'),
('a4',V,"            self.received.insert(height, block);\n        }","            self.received.entry(height).or_insert(block);\n        }",'I01'),
('a5',V,"        if let Some((height, _)) = tree.get_block(&hash) {\n            // Add","        if let Some((height, _)) = tree.get_block(&block.header.prev_blockhash) {\n            let height = height + 1;\n            // Add",'I01'),
('b1',V,"        if !self.remaining.is_empty() {\n            return vec![];","        if self.remaining.values().any(|t| t.is_some()) {\n            return vec![];",'I02'),
('b2',V,"            .keys()\n            .min()\n            .cloned()","            .keys()\n            .next()\n            .cloned()",'I02'),
('b3',V,"            if tree.get_block(&hash).is_none() {\n                continue;","            if tree.get_block(&hash).is_none() {\n                break;",'I02'),
('b4',V,"            if tree.get_block(&hash).is_none() {\n                continue;","            if height > tree.height() {\n                continue;",'I02'),
('b5',V,"            let fees = self.estimator.process(block.clone(), height);\n\n            self.outbox.event(Event::BlockProcessed {\n                block,\n                height,\n                fees,\n            });","            let fees = self.estimator.process(block.clone(), height);\n\n            if fees.is_some() || confirmed.is_empty() {\n                self.outbox.event(Event::BlockProcessed {\n                    block,\n                    height,\n                    fees,\n                });\n            }",'I02'),
('c1',V,"                        if peer.outbox.remove(&wtxid).is_some() && peer.outbox.is_empty() {","                        if peer.relay && peer.outbox.is_empty() {",'I03'),
('c2',V,"                self.announce(transaction.clone());\n                self.outbox.event","                if self.get_submitted_tx(&transaction.txid()).is_none() {\n                    self.announce(transaction.clone());\n                }\n                self.outbox.event",'?'),
('c3',V,"height.saturating_sub(*h) <= TRANSACTION_PRUNE_DEPTH","height.saturating_sub(*h) < TRANSACTION_PRUNE_DEPTH",'I03'),
('c4',V,"                for (height, _) in reverted {\n                    self.block_reverted(height);","                for (height, _) in reverted.into_iter().take(1) {\n                    self.block_reverted(height);",'I03'),
('c5',V,"                    self.confirmed\n                        .entry(height)\n                        .or_default()\n                        .push(transaction.clone());","                    self.confirmed.insert(height, vec![transaction.clone()]);",'I03'),
('c6',V,"                            block: hash,\n                            height,\n                        },","                            block: hash,\n                            height: tree.height(),\n                        },",'I03'),
('c7',V,"            for tx in &block.txdata {\n                let wtxid","            for tx in block.txdata.iter().filter(|tx| !tx.is_coin_base()).take(4000) {\n                let wtxid",'I03'),
('d1',V,"                if elapsed < self.timeout {\n                    continue;","                if elapsed <= self.timeout {\n                    continue;",'I04'),
('d2',V,"                if peer.attempts >= MAX_ATTEMPTS {","                if peer.attempts > MAX_ATTEMPTS {",'I04'),
('d3',V,"                    disconnect.push(*addr);\n                    continue;","                    disconnect.push(*addr);\n                    break;",'I04'),
('d4',V,"                for wtxid in peer.outbox.keys() {\n                        invs.push(Inventory::Transaction","                for wtxid in peer.outbox.keys().take(1) {\n                        invs.push(Inventory::Transaction",'I04'),
('d5',V,"                            // Reset retry state.\n                            peer.reset();\n\n                            if peer.outbox.is_empty() {\n                                log::debug!(target: \"p2p\", \"Peer {} transaction outbox is empty\", &addr);\n                            }","                            // Reset retry state.\n                            if peer.outbox.is_empty() {\n                                peer.reset();\n                                log::debug!(target: \"p2p\", \"Peer {} transaction outbox is empty\", &addr);\n                            }",'I04'),
('d6',V,"        if relay {\n            for","        if relay && wtxidrelay {\n            for",'I04'),
('d7',V,"        for (addr, peer) in self.peers.iter_mut().filter(|(_, p)| p.relay) {\n            peer.outbox","        for (addr, peer) in self.peers.iter_mut().filter(|(_, p)| p.relay && p.attempts == 0) {\n            peer.outbox",'I04'),
('d8',V,"                self.outbox.inv(*addr, invs);\n                self.outbox.set_timer(self.timeout);","                self.outbox.inv(*addr, invs);\n                if peer.attempts == 1 {\n                    self.outbox.set_timer(self.timeout);\n                }",'I04'),
('d9',V,"                            if peer.outbox.remove(&wtxid).is_some() {\n","                            if peer.outbox.remove(&wtxid).is_some() && !peer.wtxidrelay {\n",'I04'),
('d10',V,"                                self.outbox.event(Event::TxStatusChanged {\n                                    txid: *txid,\n                                    status: TxStatus::Acknowledged { peer: addr },\n                                });\n                            }","                            }\n                            self.outbox.event(Event::TxStatusChanged {\n                                txid: *txid,\n                                status: TxStatus::Acknowledged { peer: addr },\n                            });",'I04'),
('e1',V,"        self.remaining.entry(hash).or_insert(None);","        self.remaining.insert(hash, None);",'I05'),
('e2',V,"now - t.unwrap_or_default() >= REQUEST_TIMEOUT);","t.map_or(true, |t| now - t >= self.timeout));",'I05'),
('e3',V,"                *last_request = Some(now);\n","                last_request.get_or_insert(now);\n",'I05'),
('e4',V,"            } else {\n                log::debug!(\n                    target: \"p2p\",\n                    \"No peers with required services","            } else {\n                *last_request = Some(now);\n                log::debug!(\n                    target: \"p2p\",\n                    \"No peers with required services",'I05'),
('e5',V,".sample_with(|_, p| p.services.has(ServiceFlags::NETWORK))",".sample_with(|_, p| p.services.has(ServiceFlags::NETWORK) && p.outbox.is_empty())",'I05'),
('e6',V,"                self.outbox.set_timer(REQUEST_TIMEOUT);\n\n                *last_request","                if last_request.is_none() {\n                    self.outbox.set_timer(REQUEST_TIMEOUT);\n                }\n\n                *last_request",'I05'),
('e7',V,"            Event::PeerDisconnected { addr, .. } => {\n                self.peers.remove(&addr);","            Event::PeerDisconnected { addr, .. } => {\n                self.peers.remove(&addr);\n                if self.peers.is_empty() {\n                    self.remaining.clear();\n                }",'I05'),
('f1',F,"            let median = if count % 2 == 1 {","            let median = if count % 2 == 1 || count > 1000 {",'I06'),
('f2',F,"        if height <= self.height {\n            return None;","        if height <= self.height && !self.snapshots.is_empty() {\n            return None;",'I06'),
('f3',F,"        self.snapshots.retain(|(h, _)| h <= &height);","        self.snapshots.retain(|(h, _)| h < &height);",'I06'),
('f4',F,"        let rate = fee as f64 / (weight as f64 / WITNESS_SCALE_FACTOR as f64);","        let rate = fee as f64 / tx.size() as f64;",'I06'),
('f5',F,"            self.utxos.insert(outpoint, output.clone());\n","            if !output.script_pubkey.is_provably_unspendable() {\n                self.utxos.insert(outpoint, output.clone());\n            }\n",'I06'),
('f6',F,"        let fee = received.checked_sub(sent)?;","        let fee = received.saturating_sub(sent);",'?'),
('f7',F,"            self.utxos = snapshot;\n            self.height = h;","            self.utxos = snapshot;\n            self.height = height;",'I06'),
('f8',F,"        self.snapshots.push_back((self.height, snapshot));\n        if","        if !fees.is_empty() {\n            self.snapshots.push_back((self.height, snapshot));\n        }\n        if",'I06'),
('f9',V,"        self.estimator.rollback(height - 1);\n\n        if let Some(transactions)","        if self.confirmed.contains_key(&height) {\n            self.estimator.rollback(height - 1);\n        }\n\n        if let Some(transactions)",'I06'),
('f10',F,"                low: *fees.first(),","                low: fees.iter().copied().find(|f| *f > 0).unwrap_or_default(),",'I06'),
]
