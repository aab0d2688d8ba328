F='p2p/src/fsm/cbfmgr.rs'; S='p2p/src/fsm/cbfmgr/rescan.rs'; K='p2p/src/fsm/filter_cache.rs'
def R(name,f,*ed): return (name,f,[e[0] for e in ed],[e[1] for e in ed],'ok')
def body(f,a,b,new):
    s=open('/repo/'+f).read(); i=s.index(a); j=s.index(b,i); return (s[i:j],new)
M=[
R('bp-helper',F,body(F,"                if self.pending_blocks.remove(&height) {\n","            Event::BlockDisconnected { height, .. } => {","                self.block_processed(block, height);\n            }\n"),("    /// A tick was received.","""    fn block_processed(&mut self, block: Block, height: Height) {
        if !self.pending_blocks.remove(&height) {
            return;
        }
        self.outbox.event(Event::BlockMatched { block, height });

        let scanned = match self.pending_blocks.is_empty() {
            true => Height::max(self.rescan.current, height),
            false => height,
        };
        self.outbox.event(Event::Scanned { height: scanned });
    }

    /// A tick was received."""),("use nakamoto_common::bitcoin::network::message::NetworkMessage;","use nakamoto_common::bitcoin::network::message::NetworkMessage;\nuse nakamoto_common::bitcoin::Block;")),
R('imported',F,("                if let Some((height, _)) = reverted.last() {\n                    // The height we need to rollback to, ie. the tip of our new chain\n                    // and the tallest block we are keeping.\n                    let fork_height = height - 1;\n\n                    if let Err(e) = self.rollback(fork_height) {\n                        self.outbox.error(e);\n                    }\n                }","                match reverted.last().map(|(h, _)| h - 1) {\n                    Some(fork_height) => {\n                        self.rollback(fork_height).unwrap_or_else(|e| {\n                            self.outbox.error(e);\n                        });\n                    }\n                    None => {}\n                }") if 0 else ("                if let Some((height, _)) = reverted.last() {\n                    // The height we need to rollback to, ie. the tip of our new chain\n                    // and the tallest block we are keeping.\n                    let fork_height = height - 1;\n\n                    if let Err(e) = self.rollback(fork_height) {\n                        self.outbox.error(e);\n                    }\n                }","                let fork_height = reverted.last().map(|(h, _)| h - 1);\n                if let Some(fork_height) = fork_height {\n                    match self.rollback(fork_height) {\n                        Ok(()) => {}\n                        Err(e) => self.outbox.error(e),\n                    }\n                }")),
R('errs-helper',F,body(F,"                    match self.received_cfheaders(&from, msg.clone(), tree) {","                NetworkMessage::GetCFHeaders(msg) => {","""                    let result = self.received_cfheaders(&from, msg.clone(), tree);
                    self.handle_result(result.map(|_| ()), "invalid `cfheaders` message");
                }
"""),body(F,"                    match self.received_getcfheaders(&from, msg.clone(), tree) {","                NetworkMessage::CFilter(msg) => {","""                    let result = self.received_getcfheaders(&from, msg.clone(), tree);
                    self.handle_result(result, "invalid `getcfheaders` message");
                }
"""),("    /// A tick was received.","""    fn handle_result(&mut self, result: Result<(), Error>, reason: &'static str) {
        match result {
            Ok(()) => {}
            Err(Error::InvalidMessage { from, .. }) => {
                self.outbox
                    .event(Event::PeerMisbehaved { addr: from, reason });
            }
            Err(e @ Error::Filters { .. }) => {
                self.outbox.error(e);
            }
            Err(e @ Error::Ignored { .. }) => {
                log::warn!(target: "p2p", "Dropped message: {e}");
            }
        }
    }

    /// A tick was received.""")),
R('matches-fn',F,body(F,"                            for (height, hash) in matches {\n                                if self.pending","                        Err(Error::InvalidMessage { from, .. }) => {\n                            self.outbox.event(Event::PeerMisbehaved {\n                                addr: from,\n                                reason: \"invalid `cfilter`","                            self.filters_processed(matches, blocks);\n                        }\n"),("    /// A tick was received.","""    fn filters_processed<B: BlockSource>(
        &mut self,
        matches: Vec<(Height, BlockHash)>,
        blocks: &mut B,
    ) {
        for (height, hash) in matches.into_iter() {
            let is_new = self.pending_blocks.insert(height);
            if !is_new {
                continue;
            }
            blocks.get_block(hash);
        }
        if !self.pending_blocks.is_empty() {
            return;
        }
        let height = self.rescan.current;
        self.outbox.event(Event::Scanned { height });
    }

    /// A tick was received.""")),
R('timer-cont',F,body(F,"            if now >= *expiry {\n                let (start","        // If we've waited too long since","""            if now < *expiry {
                continue;
            }
            let (start_height, stop_hash) = (*start_height, *stop_hash);
            let a = match self.peers.sample() {
                Some((a, _)) => *a,
                None => continue,
            };
            let persistent = match self.peers.get(addr) {
                Some(p) => p.persistent,
                None => false,
            };
            if a != *addr && !persistent {
                self.outbox
                    .disconnect(*addr, DisconnectReason::PeerTimeout("getcfheaders"));
                self.peers.remove(addr);
            }
            *expiry = now + timeout;
            *addr = a;

            self.outbox
                .get_cfheaders(a, start_height, stop_hash, timeout);
        }

""")),
R('timer-and',F,("        if now - self.last_processed.unwrap_or_default() >= DEFAULT_REQUEST_TIMEOUT {\n            if self.rescan.active {\n                self.rescan.reset(); // Clear pending request queue.\n                self.get_cfilters(self.rescan.current..=self.filters.height(), tree)\n                    .ok();\n            }\n        }","        let waited = now - self.last_processed.unwrap_or_default();\n        if self.rescan.active && waited >= DEFAULT_REQUEST_TIMEOUT {\n            let range = self.rescan.current..=self.filters.height();\n\n            self.rescan.reset();\n            let _ = self.get_cfilters(range, tree);\n        }")),
R('watchtx',F,("        self.rescan.transactions.insert(\n            tx.txid(),\n            tx.output.iter().map(|o| o.script_pubkey.clone()).collect(),\n        );","        let scripts = tx.output.iter().map(|o| o.script_pubkey.clone()).collect();\n\n        self.rescan.transactions.insert(tx.txid(), scripts);")),
R('rescan-lets',F,("        self.rescan.restart(\n            match start {\n                Bound::Unbounded => tree.height() + 1,\n                Bound::Included(h) => h,\n                Bound::Excluded(h) => h + 1,\n            },\n            match end {\n                Bound::Unbounded => None,\n                Bound::Included(h) => Some(h),\n                Bound::Excluded(h) => Some(h - 1),\n            },\n            watch,\n        );","        let first = match start {\n            Bound::Included(h) => h,\n            Bound::Excluded(h) => h + 1,\n            Bound::Unbounded => tree.height() + 1,\n        };\n        let last = match end {\n            Bound::Included(h) => Some(h),\n            Bound::Excluded(h) => Some(h - 1),\n            Bound::Unbounded => None,\n        };\n        self.rescan.restart(first, last, watch);"),
  ("        let stop = self\n            .rescan\n            .end\n            // Don't request further than the filter chain height.\n            .map(|h| Height::min(h, height))\n            .unwrap_or(height);","        let stop = match self.rescan.end {\n            Some(h) if h < height => h,\n            _ => height,\n        };")),
R('rescan-tail',F,body(F,"        match self.get_cfilters(range, tree) {\n            Ok(()) => {}","    /// Send one or more `getcfilters` messages","""        if let Err(err) = self.get_cfilters(range, tree) {
            match err {
                GetFiltersError::NotConnected => {}
                err => panic!("{}: Error fetching filters: {}", source!(), err),
            }
        }
        self.process_filters()
    }

    fn process_filters(&mut self) -> Vec<(Height, BlockHash)> {
        let (matches, events, _) = self.rescan.process();

        events.into_iter().for_each(|e| self.outbox.event(e));
        for (height, _) in &matches {
            self.pending_blocks.insert(*height);
        }
        matches
    }

""")),
R('getcf-loop',F,body(F,"        for (range, peer) in self\n            .rescan\n            .requests(range, tree)","    // PRIVATE METHODS","""        let timeout = self.config.request_timeout;
        let requests = self.rescan.requests(range, tree);

        for (range, peer) in requests.into_iter().zip(self.peers.cycle()) {
            let stop_hash = match tree.get_block_by_height(*range.end()) {
                Some(header) => header.block_hash(),
                None => return Err(GetFiltersError::InvalidRange),
            };
            self.outbox
                .get_cfilters(*peer, *range.start(), stop_hash, timeout);
        }
        Ok(())
    }

""")),
R('rollback-if',F,body(F,"            let start = self.rescan.start;\n            let current = self.rescan.current;\n\n            if current","    /// Called when a new peer was negotiated.","""            let Rescan { start, current, .. } = self.rescan;
            let next = height + 1;

            if next < current {
                self.rescan.current = if next > start { next } else { start };
            }
        }

        Ok(())
    }

""")),
R('rollback-order',F,("        // Purge stale block filters.\n        self.rescan.rollback(height);\n        // Rollback filter header chain.\n        self.filters.rollback(height)?;","        // Rollback filter header chain.\n        let result = self.filters.rollback(height);\n        // Purge stale block filters.\n        self.rescan.rollback(height);\n        result?;")),
R('neg',F,("        if !link.is_outbound() {\n            return;\n        }\n        if !services.has(REQUIRED_SERVICES) {\n            return;\n        }\n        let time","        if link != Link::Outbound || !services.has(REQUIRED_SERVICES) {\n            return;\n        }\n        let time")),
R('sync-early',F,body(F,"        if filter_height < block_height {\n            log::debug","    /// Remove transaction from list","""        if filter_height != block_height {
            self.send_getcfheaders(filter_height + 1..=block_height, tree);
        }
        if !self.rescan.active {
            return;
        }
        let range = self.rescan.current..=self.filters.height();
        self.get_cfilters(range, tree).ok();
    }

""")),
R('sync-ckpt',F,("        if let Some(checkpoint) = tree.checkpoints().keys().next_back() {\n            if &block_height < checkpoint {\n                return;\n            }\n        }","        let checkpoint = tree.checkpoints().keys().next_back().copied();\n        if checkpoint.map_or(false, |h| block_height < h) {\n            return;\n        }")),
R('sync-ckpt2',F,("        if let Some(checkpoint) = tree.checkpoints().keys().next_back() {\n            if &block_height < checkpoint {\n                return;\n            }\n        }","        match tree.checkpoints().iter().last() {\n            Some((checkpoint, _)) if block_height < *checkpoint => return,\n            _ => {}\n        }")),
R('cfh-letelse',F,("        let start_height = self.filters.height();\n        let stop_height = if let Some((height, _)) = tree.get_block(&stop_hash) {\n            height\n        } else {\n            return Err(Error::InvalidMessage {\n                from,\n                reason: \"unknown `cfheaders` stop hash\",\n            });\n        };","        let start_height = self.filters.height();\n        let Some((stop_height, _)) = tree.get_block(&stop_hash) else {\n            return Err(Error::InvalidMessage {\n                from,\n                reason: \"unknown `cfheaders` stop hash\",\n            });\n        };"),
  ("        if stop_height <= self.filters.height() {\n            return Ok(self.filters.height());\n        }","        if start_height >= stop_height {\n            return Ok(start_height);\n        }")),
R('cfh-invalid-fn',F,body(F,"        if count > MAX_MESSAGE_CFHEADERS {","        // Ok, looks like everything's valid..","""        if count == 0 || count > MAX_MESSAGE_CFHEADERS {
            return Err(Error::InvalidMessage {
                from,
                reason: "`cfheaders` header count is out of range",
            });
        }
        let expected = (stop_height - start_height) as usize;
        if count != expected {
            return Err(Error::InvalidMessage {
                from,
                reason: "`cfheaders` header count does not match height range",
            });
        }

""")),
R('cfh-scan',F,body(F,"        let mut last_header = prev_header;\n","        self.filters\n            .import_headers(headers)","""        let headers: Vec<_> = hashes
            .into_iter()
            .scan(prev_header, |last, hash| {
                *last = hash.filter_header(last);
                Some((hash, *last))
            })
            .collect();
""")),
R('cfh-fold',F,body(F,"        for filter_hash in hashes {\n            last_header","        self.filters\n            .import_headers(headers)","""        for hash in hashes.iter() {
            let header = hash.filter_header(&last_header);
            headers.push((*hash, header));
            last_header = header;
        }
""")),
R('cfh-match',F,body(F,"        self.filters\n            .import_headers(headers)","    /// Handle a `getcfheaders` message","""        let height = match self.filters.import_headers(headers) {
            Ok(height) => height,
            Err(error) => {
                return Err(Error::Filters {
                    message: "error importing filter headers",
                    error,
                })
            }
        };
        if let Err(err) = self.headers_imported(start_height, height, tree) {
            log::debug!(target: "p2p", "Filters not requested: {err}");
        }
        let tip = tree.height();
        assert!(height <= tip);

        if height < tip {
            self.sync(tree);
        } else {
            self.outbox.event(Event::FilterHeadersSynced { height });
        }
        Ok(height)
    }

""")),
R('gcfh',F,body(F,"        let headers = self.filters.get_headers(start_height..=stop_height);","    /// Handle a `cfilter` message.","""        let headers = self.filters.get_headers(start_height..=stop_height);
        if headers.is_empty() {
            return Err(Error::Ignored {
                reason: "cfheaders not found",
                from,
            });
        }
        let previous_filter_header = self
            .filters
            .get_prev_header(start_height)
            .expect("FilterManager::received_getcfheaders: all headers up to the tip must exist");
        let filter_hashes = headers.into_iter().map(|(hash, _)| hash).collect();

        self.outbox.cfheaders(
            from,
            CFHeaders {
                filter_type: msg.filter_type,
                stop_hash: msg.stop_hash,
                previous_filter_header,
                filter_hashes,
            },
        );
        Ok(())
    }

""")),
R('cf-match',F,("        let height = if let Some((height, _)) = tree.get_block(&msg.block_hash) {\n            height\n        } else {\n            // Can't handle this message, we don't have the block header.\n            return Err(Error::Ignored {\n                reason: \"block header not found\",\n                from,\n            });\n        };","        let (height, _) = tree.get_block(&msg.block_hash).ok_or(Error::Ignored {\n            reason: \"block header not found\",\n            from,\n        })?;"),
 ("        let header = if let Some((_, header)) = self.filters.get_header(height) {\n            header\n        } else {","        let header = if let Some(found) = self.filters.get_header(height) {\n            found.1\n        } else {")),
R('cf-tail',F,body(F,"        if self.rescan.received(height, filter, block_hash) {","    /// Called periodically. Triggers","""        if !self.rescan.received(height, filter, block_hash) {
            // Unsolicited filter.
            return Ok(Vec::new());
        }
        let (matches, events, processed) = self.rescan.process();

        if processed != 0 {
            self.last_processed = Some(self.clock.local_time());
        }
        for event in events.into_iter() {
            self.outbox.event(event);
        }
        Ok(matches)
    }

""")),
R('cf-verify-fn',F,("        if filter.filter_header(&prev_header) != header {\n            return","        let expected = filter.filter_header(&prev_header);\n        if header != expected {\n            return")),
R('sgcfh',F,body(F,"        // Cap requested header count.","    /// Lower level function that takes","""        let stop_height = Height::min(end, start + MAX_MESSAGE_CFHEADERS as Height - 1);
        let stop_hash = match tree.get_block_by_height(stop_height) {
            Some(header) => header.block_hash(),
            None => panic!("{}: Stop height is out of bounds", source!()),
        };

        self.get_cfheaders(start, stop_hash)
    }

""")),
R('gcfh2',F,body(F,"        if let Some((peer, _)) = self.peers.sample() {\n            let time","    /// Called when filter headers were successfully imported.","""        let peer = match self.peers.sample() {
            Some((peer, _)) => *peer,
            None => return None,
        };
        let timeout = self.config.request_timeout;
        let expiry = self.clock.local_time() + timeout;

        self.inflight.insert(stop_hash, (start_height, peer, expiry));
        self.outbox
            .get_cfheaders(peer, start_height, stop_hash, timeout);

        Some((peer, start_height, stop_hash))
    }

""")),
R('himp',F,body(F,"        let start = Height::max(start, self.rescan.current);","    fn schedule_wake","""        let start = start.max(self.rescan.current);
        let stop = match self.rescan.end {
            Some(end) => stop.min(end),
            None => stop,
        };

        if start <= stop {
            self.get_cfilters(start..=stop, tree)
        } else {
            Ok(())
        }
    }

""")),
R('rename-f',F,(r're:\bpending_blocks\b','awaited'),(r're:\blast_processed\b','progress_at'),(r're:\bsend_getcfheaders\b','request_headers'),(r're:\bheaders_imported\b','on_headers')),
# rescan
R('s-proc',S,body(S,"            let (matched, valid) = if let Ok","            if matched {","""            let result = self.match_filter(&filter, &block_hash);
            let valid = result.is_ok();
            let matched = result.unwrap_or(false);

""")),
R('s-proc2',S,body(S,"        while let Some((filter, block_hash, cached)) = self.received.remove(&current) {","        if let Some(stop) = self.end {","""        loop {
            let (filter, block_hash, cached) = match self.received.remove(&current) {
                Some(next) => next,
                None => break,
            };
            let (matched, valid) = match self.match_filter(&filter, &block_hash) {
                Ok(matched) => (matched, true),
                Err(_) => (false, false),
            };
            events.push(Event::FilterProcessed {
                block: block_hash,
                height: current,
                valid,
                matched,
                cached,
            });
            if matched {
                matches.push((current, block_hash));
            }
            current += 1;
        }
        self.current = current;

""")),
R('s-end',S,("        if let Some(stop) = self.end {\n            // Nb. `current` is the next height to process, and may advance by more than one.\n            if self.active && self.current > stop {\n                self.active = false;\n                events.push(Event::FilterRescanStopped { height: stop });\n            }\n        }","        match self.end {\n            Some(stop) if self.active && current > stop => {\n                events.push(Event::FilterRescanStopped { height: stop });\n                self.active = false;\n            }\n            _ => {}\n        }")),
R('s-match',S,body(S,"        let mut matched = false;\n\n        // Match scripts first","    /// Given a range of filter heights","""        if !self.watch.is_empty() {
            let mut scripts = self.watch.iter().map(|k| k.as_bytes());
            if filter.match_any(block_hash, &mut scripts)? {
                return Ok(true);
            }
        }
        for outs in self.transactions.values() {
            let mut outs = outs.iter().map(|k| k.as_bytes());
            if filter.match_all(block_hash, &mut outs).unwrap_or(false) {
                return Ok(true);
            }
        }
        Ok(false)
    }

""")),
R('s-recv',S,body(S,"        let requested = self.requested.remove(&height);","    /// Process the next filters","""        if !self.requested.remove(&height) {
            return false;
        }
        let filter = Rc::new(filter);

        self.received
            .insert(height, (filter.clone(), block_hash, false));
        self.cache.push(height, filter);

        true
    }

""")),
R('s-req-cache',S,body(S,"        for height in range.clone() {\n            if let Some(filter)","        // Heights to skip.","""        for height in range.clone() {
            let filter = match self.cache.get(&height) {
                Some(filter) => filter.clone(),
                None => continue,
            };
            if let Some(header) = tree.get_block_by_height(height) {
                self.received
                    .insert(height, (filter, header.block_hash(), true));
            }
        }

""")),
R('s-req-filter',S,body(S,"        // Heights to skip.\n","        // Limit the requested ranges","""        let mut ranges: Vec<RangeInclusive<Height>> = Vec::new();
        for height in range {
            if self.received.contains_key(&height) || self.requested.contains(&height) {
                continue;
            }
            match ranges.last_mut() {
                Some(r) if height == r.end() + 1 => {
                    *r = *r.start()..=height;
                }
                _ => ranges.push(height..=height),
            }
        }

""")),
R('s-req-limit',S,body(S,"        let ranges: Vec<RangeInclusive<Height>> = ranges\n            .into_iter()","    }\n}\n\n#[cfg(test)]","""        let mut limited = Vec::new();
        for r in ranges {
            limited.extend(HeightIterator {
                start: *r.start(),
                stop: *r.end(),
                step: MAX_MESSAGE_CFILTERS as Height,
            });
        }
        for range in limited.iter() {
            for height in range.clone() {
                self.requested.insert(height);
            }
        }
        limited
""")),
R('s-rollback',S,("        self.cache.rollback(to);\n        // Filters of blocks that are no longer on the active chain must not be processed.\n        self.received.retain(|height, _| *height <= to);","        self.received.retain(|height, _| !(*height > to));\n        self.cache.rollback(to);")),
R('s-rollback-split',S,("        self.received.retain(|height, _| *height <= to);","        let stale: Vec<Height> = self.received.keys().copied().filter(|h| *h > to).collect();\n        for height in stale {\n            self.received.remove(&height);\n        }")),
R('s-rename',S,(r're:\bmatch_filter\b','matches'),)if 0 else R('s-rename',S,(r're:\bmatch_filter\b','is_match')),
R('hi-iter',F,("        if self.start <= self.stop {\n            let start = self.start;\n            let stop = self.stop.min(start + self.step - 1);\n\n            self.start = stop + 1;\n\n            Some(start..=stop)\n        } else {\n            None\n        }","        if self.start > self.stop {\n            return None;\n        }\n        let first = self.start;\n        let last = Height::min(first + self.step - 1, self.stop);\n        self.start = last + 1;\n\n        Some(first..=last)")),
]
M.append(R('s-inplace',S,body(S,"        let mut current = self.current;\n        let old","        if let Some(stop) = self.end","""        let old = self.current;

        while let Some((filter, block_hash, cached)) = self.received.remove(&self.current) {
            let height = self.current;
            let result = self.match_filter(&filter, &block_hash);
            let valid = result.is_ok();
            let matched = result.unwrap_or(false);

            if matched {
                matches.push((height, block_hash));
            }
            events.push(Event::FilterProcessed {
                block: block_hash,
                height,
                valid,
                matched,
                cached,
            });
            self.current += 1;
        }

"""),("(matches, events, current - old)","(matches, events, self.current - old)")))
