F='p2p/src/fsm/syncmgr.rs'; I='p2p/src/fsm/invmgr.rs'; G='p2p/src/fsm/pingmgr.rs'
def R(name,f,*ed): return (name,f,[e[0] for e in ed],[e[1] for e in ed],'ok')
def body(f,a,b,new):
    s=open('/repo/'+f).read(); i=s.index(a); j=s.index(b,i); return (s[i:j],new)
M=[
# --- syncmgr
R('neg-helper',F,("        self.register(\n            addr,\n            height,\n            // We prefer if the peer doesn't have compact filters support,\n            // leaving those peers free for fetching filters.\n            !services.has(ServiceFlags::COMPACT_FILTERS),\n            link,\n        );","        let preferred = !services.has(ServiceFlags::COMPACT_FILTERS);\n\n        self.peers.insert(\n            addr,\n            Peer {\n                height,\n                tip: BlockHash::all_zeros(),\n                link,\n                preferred,\n                last_active: None,\n                last_asked: None,\n            },\n        );"),
  body(F,"    /// Register a new peer.","    /// Unregister a peer.","")),
R('neg-best',F,("        if height > self.best_height().unwrap_or_else(|| tree.height()) {","        let best = match self.best_height() {\n            Some(h) => h,\n            None => tree.height(),\n        };\n        if best < height {")),
R('neg-nest',F,("        if link.is_outbound() && !services.has(REQUIRED_SERVICES) {\n            return;\n        }\n","        if let Link::Outbound = link {\n            if !services.has(REQUIRED_SERVICES) {\n                return;\n            }\n        }\n")),
R('getheaders',F,("        if self.is_syncing() || max == 0 {\n            return;\n        }\n        let headers = tree.locate_headers(&locator_hashes, stop_hash, max);\n\n        if headers.is_empty() {\n            return;\n        }\n        self.outbox.headers(*addr, headers);","        if max > 0 && self.inflight.is_empty() {\n            let found = tree.locate_headers(locator_hashes.as_slice(), stop_hash, max);\n            if !found.is_empty() {\n                self.outbox.headers(*addr, found);\n            }\n        }")),
R('import-match',F,body(F,"        let result = tree.import_blocks(blocks, &self.clock);","    /// Called when we receive headers from a peer.","""        let result = tree.import_blocks(blocks, &self.clock)?;

        if let ImportResult::TipChanged {
            hash,
            height,
            ref reverted,
            ref connected,
            ..
        } = result
        {
            self.tip_changed(hash, height, reverted.clone(), connected.clone());
            self.broadcast_tip(&hash, tree);
        }
        Ok(result)
    }

    /// Tell everyone about the tip.
    fn tip_changed(
        &mut self,
        hash: BlockHash,
        height: Height,
        reverted: Vec<(Height, BlockHeader)>,
        connected: NonEmpty<(Height, BlockHeader)>,
    ) {
        reverted.iter().for_each(|(height, header)| {
            self.outbox.event(Event::BlockDisconnected {
                height: *height,
                header: *header,
            });
        });
        for (height, header) in connected.iter() {
            self.outbox.event(Event::BlockConnected {
                height: *height,
                header: *header,
            });
        }
        self.outbox.event(Event::BlockHeadersImported {
            reorg: !reverted.is_empty(),
            hash,
            height,
            connected,
            reverted,
        });
    }

""")),
R('headers-order',F,("        let length = headers.len();\n\n        if length > MAX","        let length = headers.len();\n        let solicited = request.is_some();\n\n        if length > MAX"),("        if length > MAX_UNSOLICITED_HEADERS && request.is_none() {","        if !solicited && length > MAX_UNSOLICITED_HEADERS {"),
  ("        if let Some(peer) = self.peers.get_mut(from) {\n            peer.last_active = Some(self.clock.local_time());\n        } else {\n            return;\n        }","        let now = self.clock.local_time();\n        match self.peers.get_mut(from) {\n            Some(peer) => peer.last_active = Some(now),\n            None => return,\n        }")),
R('headers-split',F,body(F,"        match result {\n            Ok(ImportResult::TipUnchanged) => {","            // If this is an error with the underlying store","""        match result {
            Ok(ImportResult::TipUnchanged) => {
                self.find_ancestor(*from, root, tree);
            }
            Ok(ImportResult::TipChanged { hash, height, .. }) => {
                self.tip_advanced(from, hash, height, length, tree);
            }
"""),("    fn request(\n        &mut self,","""    fn find_ancestor<T: BlockReader>(&mut self, from: PeerId, root: BlockHash, tree: &T) {
        let timeout = self.config.request_timeout;

        self.request(
            from,
            (tree.locator_hashes(tree.height()), root),
            timeout,
            OnTimeout::Ignore,
        );
    }

    fn tip_advanced<T: BlockReader>(
        &mut self,
        from: &PeerId,
        hash: BlockHash,
        height: Height,
        length: usize,
        tree: &T,
    ) {
        self.last_tip_update = Some(self.clock.local_time());

        match self.peers.get_mut(from) {
            Some(peer) if peer.height < height => {
                peer.height = height;
                peer.tip = hash;
            }
            _ => {}
        }

        if length >= MAX_MESSAGE_HEADERS {
            let timeout = self.config.request_timeout;

            self.request(
                *from,
                (vec![hash], BlockHash::all_zeros()),
                timeout,
                OnTimeout::Disconnect,
            );
            return;
        }
        self.broadcast_tip(&hash, tree);
        self.sync(tree);
    }

    fn request(
        &mut self,""")),
R('headers-errs',F,body(F,"            // Harmless errors can be ignored.","    fn request(\n","            // Anything else is harmless, or can't happen here.\n            Err(_) => {}\n        }\n    }\n\n")),
R('request-early',F,body(F,"        if let Some(peer) = self.peers.get_mut(&addr) {\n            debug_assert!","    /// Called when we received an `inv` message.","""        let sent_at = self.clock.local_time();
        let Some(peer) = self.peers.get_mut(&addr) else {
            return;
        };
        peer.last_asked = Some(locators.clone());

        self.outbox.get_headers(addr, locators.clone());
        self.outbox.set_timer(timeout);
        self.inflight.insert(
            addr,
            GetHeaders {
                locators,
                sent_at,
                on_timeout,
            },
        );
    }

""")),
R('request-entry',F,("        if self.inflight.contains_key(&addr) {\n            return;\n        }\n        if let Some(peer)","        if self.inflight.get(&addr).is_some() {\n            return;\n        }\n        if let Some(peer)")),
R('inv-iter',F,body(F,"        let mut best_block = None;\n\n        for i in inv {","        if let Some(stop_hash) = best_block {","""        let mut best_block = None;
        let hashes = inv.iter().filter_map(|i| match i {
            Inventory::Block(hash) => Some(hash),
            _ => None,
        });

        for hash in hashes {
            peer.tip = *hash;

            if tree.is_known(hash) {
                continue;
            }
            best_block = Some(hash);
        }

""")),
R('inv-guards',F,("        if self.is_syncing() {\n            return;\n        }\n        // Ignore and disconnect peers misbehaving.\n        if inv.len() > MAX_MESSAGE_INVS {\n            return;\n        }\n\n        let peer = if let Some(peer) = self.peers.get_mut(&addr) {\n            peer\n        } else {\n            return;\n        };","        if inv.len() > MAX_MESSAGE_INVS || self.is_syncing() {\n            return;\n        }\n\n        let Some(peer) = self.peers.get_mut(&addr) else {\n            return;\n        };")),
R('timer-loop',F,body(F,"        let timed_out = self\n","        let mut sync = false;","""        let mut timed_out = Vec::new();

        for (peer, req) in self.inflight.iter() {
            if local_time - req.sent_at < timeout {
                continue;
            }
            timed_out.push((*peer, req.on_timeout, req.clone()));
        }

""")),
R('timer-filter',F,body(F,"            .filter_map(|(peer, req)| {\n                if local_time","            .collect::<Vec<_>>();\n\n        let mut sync","""            .filter(|(_, req)| local_time - req.sent_at >= timeout)
            .map(|(peer, req)| (*peer, req.on_timeout, req.clone()))
""")),
R('timer-arms',F,body(F,"                OnTimeout::Ignore => {\n","        // If some of the requests timed out","""                OnTimeout::Ignore => continue,
                OnTimeout::Retry(n) if n > 0 => {
                    let candidate = self
                        .peers
                        .sample_with(|a, p| {
                            *a != peer && self.is_request_candidate(a, p, &req.locators.0)
                        })
                        .map(|(addr, _)| *addr);

                    if let Some(addr) = candidate {
                        self.request(addr, req.locators, timeout, OnTimeout::Retry(n - 1));
                    }
                }
                _ => {
                    sync = true;
                    self.outbox
                        .disconnect(peer, DisconnectReason::PeerTimeout("getheaders"));
                }
            }
        }

""")),
R('stale-names',F,body(F,"        let now = self.clock.local_time();\n\n        if let Some(last_update) = self.last_tip_update {","    /// Register a new peer.","""        let now = self.clock.local_time();
        let spacing = self.config.params.pow_target_spacing;
        let max_age = LocalDuration::from_secs(3 * spacing);

        match self.last_tip_update {
            Some(last_update) if last_update < now - max_age => return Some(last_update),
            _ => {}
        }
        let (_, tip) = tree.tip();
        let time = LocalTime::from_block_time(tip.time);

        if now - TIP_STALE_DURATION >= time {
            Some(time)
        } else {
            None
        }
    }

""")),
R('best-fold',F,("        self.peers.iter().map(|(_, p)| p.height).max()","        let mut best = None;\n        for (_, p) in self.peers.iter() {\n            if best.map_or(true, |h| p.height > h) {\n                best = Some(p.height);\n            }\n        }\n        best")),
R('best-values',F,("        self.peers.iter().map(|(_, p)| p.height).max()","        self.peers.values().map(|p| p.height).max()")),
R('preferred-loop',F,body(F,"        let peers: Vec<_> = self.peers.shuffled().collect();","    /// Check whether a peer is a good request candidate","""        let height = tree.height();
        let locators = &locators.0;
        let mut fallback = None;

        for (a, p) in self.peers.shuffled() {
            if !p.preferred {
                continue;
            }
            if p.height > height && self.is_request_candidate(a, p, locators) {
                return Some(*a);
            }
            if fallback.is_none() {
                fallback = Some(*a);
            }
        }
        fallback
    }

""")),
R('candidate-ifs',F,body(F,"        !self.inflight.contains_key(addr)\n","    /// Check whether or not we are in sync","""        if self.inflight.contains_key(addr) || !peer.link.is_outbound() {
            return false;
        }
        match &peer.last_asked {
            Some((asked, _)) => asked != locators,
            None => true,
        }
    }

""")),
R('synced-expr',F,body(F,"        if self.stale_tip(tree).is_some() {\n            return false;\n        }\n        let height","    /// Check if we're currently syncing with these","""        self.stale_tip(tree).is_none()
            && self
                .best_height()
                .map_or(false, |peer_height| peer_height <= tree.height())
    }

""")),
R('sync-nest',F,body(F,"        if let Some(addr) = self.preferred_peer(&locators, tree) {\n            let timeout","    /// Broadcast our best block","""        let current = tree.height();
        let best = self.best_height().unwrap_or(current);
        if best <= current {
            return false;
        }
        match self.preferred_peer(&locators, tree) {
            Some(addr) => {
                let timeout = self.config.request_timeout;
                self.request(addr, locators, timeout, OnTimeout::Ignore);
                true
            }
            None => false,
        }
    }

""")),
R('syncing-loop',F,("        self.inflight.values().any(|r| &r.locators == locators)","        for req in self.inflight.values() {\n            if req.locators == *locators {\n                return true;\n            }\n        }\n        false")),
R('bcast-filter',F,body(F,"        if let Some((height, best)) = tree.get_block(hash) {\n            for","    /// Ask all our outbound peers","""        let (height, best) = match tree.get_block(hash) {
            Some(found) => found,
            None => return,
        };
        for (addr, peer) in self.peers.iter().filter(|(_, p)| p.link == Link::Inbound) {
            if peer.height < height {
                self.outbox.headers(*addr, vec![*best]);
            }
        }
    }

""")),
R('sample-loop',F,body(F,"        let locators = tree.locator_hashes(tree.height());\n        let addrs","}\n","""        let locators = tree.locator_hashes(tree.height());
        let timeout = self.config.request_timeout;
        let mut addrs = Vec::new();
        for (a, p) in self.peers.iter() {
            if self.is_request_candidate(a, p, &locators) {
                addrs.push(*a);
            }
        }
        while let Some(addr) = addrs.pop() {
            self.request(
                addr,
                (locators.clone(), BlockHash::all_zeros()),
                timeout,
                OnTimeout::Ignore,
            );
        }
    }
"""),("timeout,\n                OnTimeout::Ignore,\n            );\n        }\n    }\n}","timeout,\n                OnTimeout::Ignore,\n            );\n        }\n    }\n}")) if 0 else
R('sample-guard',F,("        if now - self.last_peer_sample.unwrap_or_default() < PEER_SAMPLE_INTERVAL {\n            return;\n        }\n        if self.stale_tip(tree).is_none() {\n            return;\n        }","        let sampled = self.last_peer_sample.unwrap_or_default();\n        if now - sampled < PEER_SAMPLE_INTERVAL || self.stale_tip(tree).is_none() {\n            return;\n        }"),
  ("        let addrs = self\n            .peers\n            .iter()\n            .filter(|(a, p)| self.is_request_candidate(a, p, &locators))\n            .map(|(a, _)| *a)\n            .collect::<Vec<_>>();\n","        let mut addrs = Vec::new();\n        for (a, p) in self.peers.iter() {\n            if self.is_request_candidate(a, p, &locators) {\n                addrs.push(*a);\n            }\n        }\n")),
R('idle-early',F,("        if now - self.last_idle.unwrap_or_default() >= IDLE_TIMEOUT {\n            if !self.sync(tree) {\n                self.sample_peers(tree);\n            }\n            self.last_idle = Some(now);\n            self.outbox.set_timer(IDLE_TIMEOUT);\n        }","        let elapsed = now - self.last_idle.unwrap_or_default();\n        if elapsed < IDLE_TIMEOUT {\n            return;\n        }\n        self.last_idle = Some(now);\n        let started = self.sync(tree);\n        if !started {\n            self.sample_peers(tree);\n        }\n        self.outbox.set_timer(IDLE_TIMEOUT);")),
R('rename-sync',F,(r're:\bstale_tip\b','tip_staleness'),(r're:\bis_request_candidate\b','can_ask'),(r're:\bbroadcast_tip\b','relay_tip'),(r're:\bsample_peers\b','poll_peers'),(r're:\bpreferred_peer\b','pick_peer')),
R('rename-sync2',F,(r're:\blast_tip_update\b','tip_updated_at'),(r're:\blast_asked\b','asked'),(r're:\bon_timeout\b','expiry'),(r're:\bsent_at\b','at')),
R('event-split',F,("            Event::MessageReceived { from, message } => match message.as_ref() {\n                NetworkMessage::Headers","            Event::MessageReceived { from, message } => self.received_message(from, &message, tree),\n            _ => {}\n        }\n    }\n\n    fn received_message<T: BlockTree>(&mut self, from: PeerId, message: &NetworkMessage, tree: &mut T) {\n            match message {\n                NetworkMessage::Headers"),("                    // TODO: invmgr: Update block availability for this peer.\n                }\n                _ => {}\n            },\n            _ => {}\n        }","                    // TODO: invmgr: Update block availability for this peer.\n                }\n                _ => {}\n            }")),
# --- invmgr
R('i-attempt-free',I,("                peer.attempted(now);\n","                peer.last_attempt = Some(now);\n                peer.attempts += 1;\n"),("    fn attempted(&mut self, time: LocalTime) {\n        self.last_attempt = Some(time);\n        self.attempts += 1;\n    }\n\n","")),
R('i-prune',I,("                .retain(|h, _| height.saturating_sub(*h) <= TRANSACTION_PRUNE_DEPTH);","                .retain(|h, _| *h + TRANSACTION_PRUNE_DEPTH >= height);")),
R('i-split-timer',I,("        {\n            // Prune confirmed transactions burried passed a certain depth.\n            let height = tree.height();\n            self.confirmed\n                .retain(|h, _| height.saturating_sub(*h) <= TRANSACTION_PRUNE_DEPTH);\n        }\n","        self.prune(tree.height());\n"),("    /// Called when a `getdata` is received from a peer.","    fn prune(&mut self, height: Height) {\n        self.confirmed\n            .retain(|h, _| height.saturating_sub(*h) <= TRANSACTION_PRUNE_DEPTH);\n    }\n\n    /// Called when a `getdata` is received from a peer.")),
R('i-split-announce',I,body(I,"        // Handle retries annd disconnects.","        // Handle block request queue.","        self.reannounce(now);\n\n"),("    /// Called when a `getdata` is received from a peer.","""    /// Announce what peers have not asked for.
    fn reannounce(&mut self, now: LocalTime) {
        let mut disconnect = Vec::new();

        for (addr, peer) in self.peers.iter_mut() {
            if peer.outbox.is_empty() {
                continue;
            }
            if now - peer.last_attempt.unwrap_or_default() < self.timeout {
                continue;
            }
            if peer.attempts >= MAX_ATTEMPTS {
                disconnect.push(*addr);
                continue;
            }
            peer.attempted(now);

            let wtxidrelay = peer.wtxidrelay;
            let invs = peer
                .outbox
                .keys()
                .map(|wtxid| {
                    if wtxidrelay {
                        Inventory::WTx(self.mempool[wtxid].wtxid())
                    } else {
                        Inventory::Transaction(self.mempool[wtxid].txid())
                    }
                })
                .collect();

            self.outbox.inv(*addr, invs);
            self.outbox.set_timer(self.timeout);
        }

        for addr in disconnect.iter() {
            self.peers.remove(addr);
            self.outbox.event(Event::PeerTimedOut { addr: *addr });
        }
    }

    /// Called when a `getdata` is received from a peer.""")),
R('i-queue',I,body(I,"        let queue = self\n            .remaining","    /// Called when a `getdata` is received","""        for (block_hash, last_request) in self.remaining.iter_mut() {
            let elapsed = now - last_request.unwrap_or_default();
            if elapsed < REQUEST_TIMEOUT {
                continue;
            }
            let peer = self
                .peers
                .sample_with(|_, p| p.services.has(ServiceFlags::NETWORK));

            match peer {
                Some((addr, _)) => {
                    *last_request = Some(now);

                    self.outbox
                        .get_data(*addr, vec![Inventory::Block(*block_hash)]);
                    self.outbox.set_timer(REQUEST_TIMEOUT);
                }
                None => {
                    log::debug!(target: "p2p", "No peers to request block {} from", block_hash);
                }
            }
        }
    }

""")),
R('i-queue2',I,body(I,"        let queue = self\n            .remaining","    /// Called when a `getdata` is received","""        let due: Vec<BlockHash> = self
            .remaining
            .iter()
            .filter(|(_, t)| now - t.unwrap_or_default() >= REQUEST_TIMEOUT)
            .map(|(h, _)| *h)
            .collect();

        for block_hash in due {
            if let Some((addr, _)) = self
                .peers
                .sample_with(|_, p| p.services.has(ServiceFlags::NETWORK))
            {
                self.outbox
                    .get_data(*addr, vec![Inventory::Block(block_hash)]);
                self.outbox.set_timer(REQUEST_TIMEOUT);
                self.remaining.insert(block_hash, Some(now));
            }
        }
    }

""")),
R('i-getdata-helper',I,body(I,"                        // Since we received a `getdata` from the peer, it means it received our\n                        // inventory","                Inventory::WTx(wtxid) => {","""                        self.acknowledged(addr, &wtxid);
                    }
                }
"""),body(I,"                    // Since we received a `getdata` from the peer, it means it received our\n                    // inventory","    /// Called when a block is received from a peer.","""                    self.acknowledged(addr, wtxid);
                }
                _ => {}
            }
        }
    }

    /// The peer got our announcement.
    fn acknowledged(&mut self, addr: PeerId, wtxid: &Wtxid) {
        let Some(peer) = self.peers.get_mut(&addr) else {
            return;
        };
        if let Some(txid) = peer.outbox.remove(wtxid) {
            peer.reset();

            self.outbox.event(Event::TxStatusChanged {
                txid,
                status: TxStatus::Acknowledged { peer: addr },
            });
        }
    }

""")),
R('i-block-guards',I,("        if let Some((height, _)) = tree.get_block(&hash) {\n            // Add to processing queue. Blocks are processed in-order only.\n            self.received.insert(height, block);\n        }","        match tree.get_block(&hash) {\n            Some((height, _)) => {\n                self.received.insert(height, block);\n            }\n            None => log::debug!(target: \"p2p\", \"Block {} is not on the chain\", hash),\n        }"),("        if !self.remaining.is_empty() {\n            return vec![];\n        }\n\n        // Now","        if self.remaining.len() > 0 {\n            return Vec::new();\n        }\n\n        // Now")),
R('i-process-helper',I,body(I,"        let mut confirmed = Vec::new();\n\n        while let","    /// Announce inventories to all","""        self.process_received(tree)
    }

    fn process_received<T: BlockReader>(&mut self, tree: &T) -> Vec<Txid> {
        let mut confirmed = Vec::new();
        let mut heights: Vec<Height> = self.received.keys().copied().collect();
        heights.sort_unstable();

        for height in heights {
            let block = match self.received.remove(&height) {
                Some(block) => block,
                None => continue,
            };
            let hash = block.block_hash();

            if tree.get_block(&hash).is_none() {
                continue;
            }
            for tx in &block.txdata {
                if let Some(txid) = self.confirm(tx, hash, height) {
                    confirmed.push(txid);
                }
            }
            let fees = self.estimator.process(block.clone(), height);

            self.outbox.event(Event::BlockProcessed {
                block,
                height,
                fees,
            });
        }
        confirmed
    }

    fn confirm(&mut self, tx: &Transaction, block: BlockHash, height: Height) -> Option<Txid> {
        let wtxid = tx.wtxid();
        let transaction = self.mempool.remove(&wtxid)?;
        let txid = transaction.txid();

        for peer in self.peers.values_mut() {
            if peer.outbox.remove(&wtxid).is_some() && peer.outbox.is_empty() {
                peer.reset();
            }
        }
        self.confirmed.entry(height).or_default().push(transaction);
        self.outbox.event(Event::TxStatusChanged {
            txid,
            status: TxStatus::Confirmed { block, height },
        });
        Some(txid)
    }

""")),
R('i-confirm-order',I,("""                    self.confirmed
                        .entry(height)
                        .or_default()
                        .push(transaction.clone());

                    self.outbox.event(Event::TxStatusChanged {
                        txid: transaction.txid(),
                        status: TxStatus::Confirmed {
                            block: hash,
                            height,
                        },
                    });
""","""                    self.outbox.event(Event::TxStatusChanged {
                        txid: transaction.txid(),
                        status: TxStatus::Confirmed {
                            block: hash,
                            height,
                        },
                    });
                    self.confirmed
                        .entry(height)
                        .or_insert_with(Vec::new)
                        .push(transaction);
""")),
R('i-announce-loop',I,("        for (addr, peer) in self.peers.iter_mut().filter(|(_, p)| p.relay) {\n            peer.outbox.insert(wtxid, txid);\n            addrs.push(*addr);\n        }","        for (addr, peer) in self.peers.iter_mut() {\n            if !peer.relay {\n                continue;\n            }\n            addrs.push(*addr);\n            peer.outbox.insert(wtxid, txid);\n        }")),
R('i-neg-collect',I,("        if relay {\n            for (wtxid, tx) in self.mempool.iter() {\n                outbox.insert(*wtxid, tx.txid());\n            }\n        }\n        self.schedule_tick();","        if relay {\n            outbox.extend(self.mempool.iter().map(|(wtxid, tx)| (*wtxid, tx.txid())));\n        }\n        self.schedule_tick();")),
R('i-revert',I,("        if let Some(transactions) = self.confirmed.remove(&height) {\n            for transaction in transactions {\n                self.announce(transaction.clone());\n                self.outbox.event","        for transaction in self.confirmed.remove(&height).unwrap_or_default() {\n            {\n                self.announce(transaction.clone());\n                self.outbox.event")),
R('i-getblock-contains',I,("        self.remaining.entry(hash).or_insert(None);","        if !self.remaining.contains_key(&hash) {\n            self.remaining.insert(hash, None);\n        }")),
R('i-submitted',I,("        self.mempool.values().find(|tx| tx.txid() == *txid).cloned()","        for tx in self.mempool.values() {\n            if tx.txid() == *txid {\n                return Some(tx.clone());\n            }\n        }\n        None")),
R('i-rename',I,(r're:\bremaining\b','wanted'),(r're:\breceived\b(?=[:.,;])','arrived'),(r're:\bconfirmed\b','mined')) if 0 else
R('i-rename',I,(r're:\bself\.confirmed\b','self.mined'),("    confirmed: HashMap<Height, Vec<Transaction>>,","    mined: HashMap<Height, Vec<Transaction>>,"),("            confirmed: HashMap::with_hasher","            mined: HashMap::with_hasher"),(r're:\battempts\b','tries'),(r're:\blast_attempt\b','tried_at')),
# --- pingmgr
R('g-early',G,body(G,"        if let Some(peer) = self.peers.get_mut(&addr) {\n            let now","}\n","") if 0 else body(G,"        if let Some(peer) = self.peers.get_mut(&addr) {\n            let now","X","") if 0 else ("        if self.peers.contains_key(&addr) {\n            self.outbox.pong(addr, nonce);\n\n            return true;\n        }\n        false","        let known = self.peers.contains_key(&addr);\n        if known {\n            self.outbox.pong(addr, nonce);\n        }\n        known")),
R('g-pong-guard',G,("                } => {\n                    if nonce == last_nonce {\n                        peer.record_latency(now - since);\n                        peer.state = State::Idle { since: now };\n\n                        return true;\n                    }\n                }\n                // Unsolicited or redundant `pong`. Ignore.\n                State::Idle { .. } => {}","                } if nonce == last_nonce => {\n                    peer.record_latency(now - since);\n                    peer.state = State::Idle { since: now };\n\n                    return true;\n                }\n                // Unsolicited, redundant or wrong `pong`. Ignore.\n                _ => {}")),
R('g-iter',G,("        for peer in self.peers.values_mut() {\n            match peer.state","        let timeout = self.ping_timeout;\n        for (_, peer) in self.peers.iter_mut() {\n            match peer.state"),("                    if now - since >= self.ping_timeout {","                    let waited = now - since;\n                    if waited >= timeout {"),("                    if now - since >= PING_INTERVAL {\n                        let nonce","                    if now - since < PING_INTERVAL {\n                        continue;\n                    } else {\n                        let nonce")),
R('g-timers',G,("                        self.outbox\n                            .ping(peer.address, nonce)\n                            .set_timer(self.ping_timeout)\n                            .set_timer(PING_INTERVAL);\n\n                        peer.state = State::AwaitingPong { nonce, since: now };","                        peer.state = State::AwaitingPong { nonce, since: now };\n                        self.outbox.set_timer(PING_INTERVAL);\n                        self.outbox.set_timer(self.ping_timeout);\n                        self.outbox.ping(peer.address, nonce);")),
]
