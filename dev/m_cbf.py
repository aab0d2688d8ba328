B='p2p/src/fsm/cbfmgr.rs'; R='p2p/src/fsm/cbfmgr/rescan.rs'; K='p2p/src/fsm/filter_cache.rs'; F='chain/src/filter/cache.rs'; CF='common/src/block/filter.rs'; T='common/src/block/time.rs'
M=[

('f-prev',CF,'self.get_header(height - 1)','self.get_header(height)','F01'),
('f-rb',F,'self.header_store.rollback(height)?;','self.header_store.rollback(height).ok();','F01'),
('u-unsol',B,'if self.inflight.remove(&stop_hash).is_none() {','if self.inflight.remove(&stop_hash).is_none() && self.inflight.is_empty() {','F03'),
('u-count',B,'if (stop_height - start_height) as usize != count {','if ((stop_height - start_height) as usize) < count {','F03'),
('u-link',B,'last_header = filter_hash.filter_header(&last_header);\n            headers.push((filter_hash, last_header));','let h = filter_hash.filter_header(&last_header);\n            headers.push((filter_hash, h));','F03'),
('u-synced',B,'if height == tree.height() {\n                    self.outbox.event(Event::FilterHeadersSynced','if height <= tree.height() {\n                    self.outbox.event(Event::FilterHeadersSynced','F03'),
('u-wake',B,'            self.schedule_wake();\n\n            return Err(Error::Ignored {\n                reason: "previous','            return Err(Error::Ignored {\n                reason: "previous','F03'),
('u-blame',B,'        if count == 0 {\n            return Err(Error::InvalidMessage {','        if count == 0 {\n            return Err(Error::Ignored {','F03'),
('c-hash',B,'if filter.filter_header(&prev_header) != header {','if filter.filter_header(&prev_header) != header && self.rescan.active {','F04'),
('c-type',B,'        if msg.filter_type != 0x0 {\n            return Err(Error::Ignored {','        if msg.filter_type > 0x1 {\n            return Err(Error::Ignored {','F04'),
('c-req',R,'        if requested {\n            // We use','        if requested || self.active {\n            // We use','F04'),
('c-procd',B,'if processed > 0 {','if processed > 1 {','F04'),
('r-off',R,'            current += 1;\n        }\n        self.current = current;','            current += 1;\n        }\n        self.current = current.max(old + 1);','F05'),
('r-match',R,'matches.push((current, block_hash));','matches.push((old, block_hash));','F05'),
('r-stop',R,'if self.active && self.current > stop {','if self.active && self.current >= stop {','F05'),
('r-stopeq',R,'if self.active && self.current > stop {','if self.active && self.current == stop + 1 {','F05'),
('r-any',R,'filter.match_all(block_hash, &mut outs).unwrap_or(false)','filter.match_any(block_hash, &mut outs).unwrap_or(false)','F05'),
('r-err',R,'                (false, false)\n            };','                (true, false)\n            };','F05'),
('r-and',R,'if !matched && !self.transactions.is_empty() {','if self.watch.is_empty() && !self.transactions.is_empty() {','F05'),
('p-scan',B,'if self.pending_blocks.is_empty() {\n                                self.outbox.event(Event::Scanned {','if self.pending_blocks.len() <= 1 {\n                                self.outbox.event(Event::Scanned {','F05'),
('p-jump',B,'let height = if self.pending_blocks.is_empty() {','let height = if self.pending_blocks.len() <= 1 {','F05'),
('p-disc',B,'                self.pending_blocks.remove(&height);\n            }\n            Event::BlockHeadersImported','                let _ = height;\n            }\n            Event::BlockHeadersImported','F05'),
('p-dup',B,'if self.pending_blocks.insert(height) {\n                                    blocks.get_block(hash);\n                                }','self.pending_blocks.insert(height);\n                                blocks.get_block(hash);','F05'),
('p-rev',B,'                TxStatus::Reverted { transaction } => {\n                    self.watch_transaction(&transaction);\n                }\n','','F05'),
('q-chunk',B,'let stop = self.stop.min(start + self.step - 1);','let stop = self.stop.min(start + self.step);','F06'),
('q-next',B,'self.start = stop + 1;','self.start = stop;','F06'),
('q-skip',R,'        skip.extend(&self.requested);\n','','F06'),
('q-skip2',R,'        skip.extend(self.received.keys().cloned());\n','','F06'),
('q-mark',R,'        for range in &ranges {\n            self.requested.extend(range.clone());\n        }\n','        if let Some(range) = ranges.first() {\n            self.requested.extend(range.clone());\n        }\n','F06'),
('q-cap2',B,'let count = usize::min(MAX_MESSAGE_CFHEADERS, (end - start + 1) as usize);','let count = usize::min(MAX_MESSAGE_CFHEADERS + 1, (end - start + 1) as usize);','F06'),
('q-dup',B,'        if self.inflight.contains_key(&stop_hash) {\n            // Don','        if self.inflight.len() > 8 {\n            // Don','F06'),
('q-exp',B,'*expiry = now + timeout;','*expiry = *expiry + timeout;','F06'),
('q-expno',B,'                    *addr = a;\n','','F06'),
('q-pers',B,'let persistent = self.peers.get(addr)','let persistent = self.peers.get(&a)','F06'),
('q-samep',B,'if a != *addr && !persistent {','if !persistent {','F06'),
('q-reset',B,'                self.rescan.reset(); // Clear pending request queue.\n','','F06'),
('q-chk',B,'if &block_height < checkpoint {','if &filter_height < checkpoint && block_height == 0 {','F06'),
('q-svc',B,'        if !services.has(REQUIRED_SERVICES) {\n            return;\n        }\n','','F06'),
('q-cachematch',B,'        self.pending_blocks.extend(matches.iter().map(|(h, _)| *h));\n','','F06'),
('q-excl',B,'Bound::Excluded(h) => h + 1,','Bound::Excluded(h) => h,','F06'),
('q-range',B,'*range.end() > self.filters.height()','*range.end() > tree.height()','F06'),
('k-cap',K,'while self.size > self.capacity {','if self.size > self.capacity {','F07'),
('k-cap1',K,'while self.size > self.capacity {','while self.size > self.capacity + size {','F07'),
('k-rep',K,'            self.size -= replaced.len();\n','            let _ = replaced;\n','F07'),
('k-rb',K,'if h > height {','if h > height + 1 {','F07'),
('k-evict',K,'if let Some(height) = self.cache.keys().cloned().next() {','if let Some(height) = self.cache.keys().cloned().next_back() {','F07'),
('k-acc',K,'                    if let Some(filter) = self.cache.remove(&k) {\n                        self.size -= filter.len();\n                    }','                    self.cache.remove(&k);','F07'),
('g-fork',B,'let fork_height = height - 1;','let fork_height = *height;','F08'),
('g-ret',R,'        self.received.retain(|height, _| *height <= to);\n','','F08'),
('g-ret2',R,'self.received.retain(|height, _| *height <= to);','self.received.retain(|height, _| *height <= to + 1);','F08'),
('g-cur',B,'if current > height + 1 {','if current > height + 2 {','F08'),
('g-start',B,'self.rescan.current = Height::max(height + 1, start);','self.rescan.current = height + 1;','F08'),
('g-ge',B,'if height >= self.filters.height() {\n            return Ok(());','if height + 1 >= self.filters.height() {\n            return Ok(());','F08'),
('g-first',B,'if let Some((height, _)) = reverted.last() {','if let Some((height, _)) = reverted.first() {','F08'),
('s-size',B,'if stop_height - start_height >= MAX_MESSAGE_CFHEADERS as Height {','if stop_height - start_height > MAX_MESSAGE_CFHEADERS as Height {','F09'),
('s-prev',B,'let prev_header = self.filters.get_prev_header(start_height)','let prev_header = self.filters.get_prev_header(stop_height)','F09'),
('s-from',B,'                Err(Error::InvalidMessage { from, .. }) => {\n                            self.outbox.event(Event::PeerMisbehaved {\n                                addr: from,\n                                reason: "invalid `getcfheaders` message",\n                            });\n                        }','                Err(Error::InvalidMessage { .. }) => {}','F09'),
# behaviour-preserving
('ok-process',R,'''            let (matched, valid) = if let Ok(matched) = self.match_filter(&filter, &block_hash) {
                (matched, true)
            } else {
                (false, false)
            };
''','''            let result = self.match_filter(&filter, &block_hash);
            let valid = result.is_ok();
            let matched = result.unwrap_or(false);
''','ok'),
('ok-process2',R,['while let Some((filter, block_hash, cached)) = self.received.remove(&current) {','            current += 1;\n        }\n        self.current = current;'],['''loop {
            let (filter, block_hash, cached) = match self.received.remove(&current) {
                Some(entry) => entry,
                None => break,
            };''','            current += 1;\n        }\n        self.current = current;'],'ok'),
('ok-push',K,'''        while self.size > self.capacity {
            if let Some(height) = self.cache.keys().cloned().next() {
                if let Some(filter) = self.cache.remove(&height) {
                    self.size -= filter.len();
                }
            }
        }''','''        while self.size > self.capacity {
            let lowest = self.start();
            if let Some(filter) = lowest.and_then(|h| self.cache.remove(&h)) {
                self.size -= filter.len();
            }
        }''','ok'),
('ok-rb',K,'''        while let Some(h) = self.end() {
            if h > height {
                if let Some(k) = self.cache.keys().cloned().next_back() {
                    if let Some(filter) = self.cache.remove(&k) {
                        self.size -= filter.len();
                    }
                }
            } else {
                break;
            }
        }''','''        while let Some(h) = self.end() {
            if h <= height {
                break;
            }
            if let Some(filter) = self.cache.remove(&h) {
                self.size -= filter.len();
            }
        }''','ok'),
('ok-cfh-order',B,'''        if count > MAX_MESSAGE_CFHEADERS {
            return Err(Error::InvalidMessage {
                from,
                reason: "`cfheaders` header count exceeds maximum",
            });
        }

        if count == 0 {
            return Err(Error::InvalidMessage {
                from,
                reason: "`cfheaders` has an empty header list",
            });
        }
''','''        if hashes.is_empty() {
            return Err(Error::InvalidMessage {
                from,
                reason: "`cfheaders` has an empty header list",
            });
        }
        if !(count <= MAX_MESSAGE_CFHEADERS) {
            return Err(Error::InvalidMessage {
                from,
                reason: "`cfheaders` header count exceeds maximum",
            });
        }
''','ok'),
('ok-cfh-map',B,'''        let mut headers = Vec::with_capacity(count);

        // Create headers out of the hashes.
        for filter_hash in hashes {
            last_header = filter_hash.filter_header(&last_header);
            headers.push((filter_hash, last_header));
        }
''','''        let headers = hashes
            .into_iter()
            .map(|filter_hash| {
                last_header = filter_hash.filter_header(&last_header);
                (filter_hash, last_header)
            })
            .collect::<Vec<_>>();
''','ok'),
('ok-cfh-match',B,'''        let stop_height = if let Some((height, _)) = tree.get_block(&stop_hash) {
            height
        } else {
            return Err(Error::InvalidMessage {
                from,
                reason: "unknown `cfheaders` stop hash",
            });
        };
''','''        let (stop_height, _) = tree.get_block(&stop_hash).ok_or(Error::InvalidMessage {
            from,
            reason: "unknown `cfheaders` stop hash",
        })?;
''','ok'),
('ok-rescan-match',R,'''        if !self.watch.is_empty() {
            matched = filter.match_any(block_hash, &mut self.watch.iter().map(|k| k.as_bytes()))?;
        }
        if !matched && !self.transactions.is_empty() {
            matched = self.transactions.values().any(|outs| {
                let mut outs = outs.iter().map(|k| k.as_bytes());
                filter.match_all(block_hash, &mut outs).unwrap_or(false)
            })
        }
        Ok(matched)''','''        if !self.watch.is_empty() {
            matched = filter.match_any(block_hash, &mut self.watch.iter().map(|k| k.as_bytes()))?;
        }
        if matched {
            return Ok(true);
        }
        for outs in self.transactions.values() {
            let mut outs = outs.iter().map(|k| k.as_bytes());
            if filter.match_all(block_hash, &mut outs).unwrap_or(false) {
                matched = true;
                break;
            }
        }
        Ok(matched)''','ok'),
('ok-timer',B,'''                if let Some((a, _)) = self.peers.sample() {
                    let a = *a;''','''                if let Some(a) = self.peers.sample().map(|(a, _)| *a) {''','ok'),
('ok-timer2',B,'            if now >= *expiry {\n','            if now < *expiry {\n                continue;\n            }\n            {\n','ok'),
('ok-rollback',B,'''            if current > height + 1 {
                self.rescan.current = Height::max(height + 1, start);
            }''','''            let next = height + 1;
            if next < current {
                self.rescan.current = if start > next { start } else { next };
            }''','ok'),
('ok-requests',R,'''            if let Some(r) = ranges.last_mut() {
                if *height == r.end() + 1 {
                    *r = *r.start()..=r.end() + 1;
                    continue;
                }
            }
            // Either this is the first range request, or there is a gap between the previous
            // range and this height. Start a new range.
            let range = *height..=*height;

            ranges.push(range);''','''            match ranges.last_mut() {
                Some(r) if *height == r.end() + 1 => {
                    *r = *r.start()..=*height;
                }
                _ => ranges.push(*height..=*height),
            }''','ok'),
('ok-requests2',R,'''        let ranges: Vec<RangeInclusive<Height>> = ranges
            .into_iter()
            .flat_map(|r| HeightIterator {
                start: *r.start(),
                stop: *r.end(),
                step: MAX_MESSAGE_CFILTERS as Height,
            })
            .collect();
''','''        let mut limited: Vec<RangeInclusive<Height>> = Vec::new();
        for r in ranges {
            limited.extend(HeightIterator {
                start: *r.start(),
                stop: *r.end(),
                step: MAX_MESSAGE_CFILTERS as Height,
            });
        }
        let ranges = limited;
''','ok'),
('ok-get-prev',CF,'''        if height == 0 {
            // If the start height is `0` (genesis), we return the zero hash as the parent.
            Some(FilterHeader::all_zeros())
        } else {
            self.get_header(height - 1).map(|(_, h)| h)
        }''','''        match height.checked_sub(1) {
            // If the start height is `0` (genesis), we return the zero hash as the parent.
            None => Some(FilterHeader::all_zeros()),
            Some(h) => self.get_header(h).map(|(_, h)| h),
        }''','ok'),
('ok-dispatch',B,'''                        Ok(matches) => {
                            for (height, hash) in matches {
                                if self.pending_blocks.insert(height) {
                                    blocks.get_block(hash);
                                }
                            }''','''                        Ok(matches) => {
                            for (height, hash) in matches {
                                if self.pending_blocks.contains(&height) {
                                    continue;
                                }
                                self.pending_blocks.insert(height);
                                blocks.get_block(hash);
                            }''','ok'),
('ok-scanned',B,'''                    let height = if self.pending_blocks.is_empty() {
                        self.rescan.current.max(height)
                    } else {
                        height
                    };
                    self.outbox.event(Event::Scanned { height });''','''                    let mut scanned = height;
                    if self.pending_blocks.is_empty() && self.rescan.current > scanned {
                        scanned = self.rescan.current;
                    }
                    self.outbox.event(Event::Scanned { height: scanned });''','ok'),
]
