B='p2p/src/fsm/cbfmgr.rs'; R='p2p/src/fsm/cbfmgr/rescan.rs'; K='p2p/src/fsm/filter_cache.rs'; C='chain/src/filter/cache.rs'
M=[
# F01/F02 filter header store and memory
('f1',C,'.take(end as usize - start as usize + 1)','.take(end as usize - start as usize)','F01'),
('f2',C,'        self.headers.tail.extend(iter.clone());\n        self.header_store.put(iter).map_err(Error::from)','        let height = self.header_store.put(iter.clone()).map_err(Error::from)?;\n        if height > self.height() {\n            self.headers.tail.extend(iter.skip(1));\n        }\n        Ok(height)','F01'),
('f3',C,'        self.header_store.rollback(height)?;\n        self.headers.tail.truncate(height as usize);','        if (height as usize) < self.headers.tail.len() / 2 {\n            self.headers.tail.truncate(height as usize);\n            return Ok(());\n        }\n        self.header_store.rollback(height)?;\n        self.headers.tail.truncate(height as usize);','F01'),
('f4',C,'        self.header_store.rollback(height)?;\n        self.headers.tail.truncate(height as usize);','        self.headers.tail.truncate(height as usize);\n        self.header_store.rollback(height)?;','F01'),
('f5',C,'            let (_, header) = result?;\n            headers.push(header);','            let (_, header) = match result {\n                Ok(r) => r,\n                Err(_) if height > 1 => break,\n                Err(e) => return Err(e),\n            };\n            headers.push(header);','F02'),
('f6',C,'            if actual != expected {','            if actual != expected && height > 0 && stored_header.hash != FilterHash::all_zeros() {','F02'),
('f7',C,'for (height, stored_header) in self.headers.iter().enumerate() {','for (height, stored_header) in self.headers.iter().enumerate().step_by(1).take(500_000) {','F02'),
('f8',C,'            prev_header = actual;\n\n            if progress(height as Height).is_break() {\n                return Err(store::Error::Interrupted);','            prev_header = actual;\n\n            if progress(height as Height).is_break() {\n                break;','?'),
('f9',C,'        let hash = FilterHash::consensus_decode(d)?;\n        let header = FilterHeader::consensus_decode(d)?;','        let header = FilterHeader::consensus_decode(d)?;\n        let hash = FilterHash::consensus_decode(d)?;','F02'),
('f10',C,'        self.header_store.rollback(0)?;\n        self.headers.tail.clear();','        self.headers.tail.clear();\n        self.header_store.rollback(1)?;','F01'),
# F03
('g1',B,'        if self.inflight.remove(&stop_hash).is_none() {','        if self.inflight.remove(&stop_hash).is_none() && !self.peers.contains_key(&from) {','F03'),
('g2',B,'        if (stop_height - start_height) as usize != count {','        if ((stop_height - start_height) as usize) < count {','F03'),
('g3',B,'        if count > MAX_MESSAGE_CFHEADERS {','        if count > 2 * MAX_MESSAGE_CFHEADERS {','F03'),
('g4',B,'            last_header = filter_hash.filter_header(&last_header);\n            headers.push((filter_hash, last_header));','            let header = filter_hash.filter_header(&last_header);\n            headers.push((filter_hash, header));\n            if headers.len() > 1 {\n                last_header = header;\n            }','F03'),
('g5',B,'                if height == tree.height() {\n                    self.outbox.event','                if height + 1 >= tree.height() {\n                    self.outbox.event','F03'),
('g6',B,'            self.schedule_wake();\n\n            return Err(Error::Ignored {','            if start_height > 0 {\n                self.schedule_wake();\n            }\n\n            return Err(Error::Ignored {','F03'),
('g7',B,'        if stop_height <= self.filters.height() {\n            return Ok(self.filters.height());','        if stop_height < self.filters.height() {\n            return Ok(self.filters.height());','?'),
('g8',B,'                        Err(Error::InvalidMessage { from, .. }) => {\n                            self.outbox.event(Event::PeerMisbehaved {\n                                addr: from,\n                                reason: "invalid `cfheaders` message",\n                            });\n                        }','                        Err(Error::InvalidMessage { from, .. }) => {\n                            if self.peers.get(&from).map_or(true, |p| !p.persistent) {\n                                self.outbox.event(Event::PeerMisbehaved {\n                                    addr: from,\n                                    reason: "invalid `cfheaders` message",\n                                });\n                            }\n                        }','F03'),
# F04
('h1',B,'        if filter.filter_header(&prev_header) != header {','        if height > 1 && filter.filter_header(&prev_header) != header {','F04'),
('h2',B,'            for event in events {\n                self.outbox.event(event);\n            }\n            // If','            for event in events.into_iter().take(1000) {\n                self.outbox.event(event);\n            }\n            // If','F04,F05'),
('h3',R,'            self.cache.push(height, filter.clone());\n            self.received.insert(height, (filter, block_hash, false));','            if self.cache.push(height, filter.clone()) {\n                self.received.insert(height, (filter, block_hash, false));\n            }','F04,F05'),
('h4',R,'        let requested = self.requested.remove(&height);','        let requested = self.requested.remove(&height) || height == self.current;','F04'),
('h5',R,'        let requested = self.requested.remove(&height);','        let requested = self.requested.contains(&height);','F04,F05,F06'),
('h6',B,'        if self.rescan.received(height, filter, block_hash) {','        if self.rescan.active && self.rescan.received(height, filter, block_hash) {','?'),
# F05
('i1',R,'            if matched {\n                matches.push((current, block_hash));','            if matched && !cached {\n                matches.push((current, block_hash));','F05'),
('i2',R,'        self.current = current;\n\n        if let','        self.current = Height::max(self.current, current.min(self.end.unwrap_or(current)));\n\n        if let','F05'),
('i3',R,'if self.active && self.current > stop {','if self.active && self.current > stop && !events.is_empty() {','?'),
('i4',R,'if self.active && self.current > stop {','if self.active && self.current > stop && self.received.is_empty() {','F05'),
('i5',R,'        if !matched && !self.transactions.is_empty() {','        if !matched && self.watch.is_empty() {','F05'),
('i6',R,'            matched = filter.match_any(block_hash, &mut self.watch.iter().map(|k| k.as_bytes()))?;','            matched = filter.match_any(\n                block_hash,\n                &mut self.watch.iter().filter(|k| k.len() > 22).map(|k| k.as_bytes()),\n            )?;','F05'),
('i7',B,'                                if self.pending_blocks.insert(height) {\n                                    blocks.get_block(hash);','                                if self.pending_blocks.insert(height) && height <= tree.height() {\n                                    blocks.get_block(hash);','?'),
('i8',B,'                            if self.pending_blocks.is_empty() {\n                                self.outbox.event(Event::Scanned {','                            if self.pending_blocks.len() <= 1 {\n                                self.outbox.event(Event::Scanned {','F05'),
('i9',B,'                        self.rescan.current.max(height)\n                    } else {\n                        height\n                    };','                        self.rescan.current.max(height)\n                    } else {\n                        self.pending_blocks.iter().next().copied().unwrap_or(height)\n                    };','F05'),
('i10',B,'                if self.pending_blocks.remove(&height) {\n                    self.outbox.event(Event::BlockMatched','                if self.pending_blocks.contains(&height) {\n                    self.outbox.event(Event::BlockMatched','F05'),
('i11',B,'                self.pending_blocks.remove(&height);\n            }\n            Event::BlockHeadersImported','                if height > self.rescan.current {\n                    self.pending_blocks.remove(&height);\n                }\n            }\n            Event::BlockHeadersImported','F05,F08'),
('i12',B,'                TxStatus::Reverted { transaction } => {\n                    self.watch_transaction(&transaction);','                TxStatus::Reverted { transaction } => {\n                    if self.rescan.active {\n                        self.watch_transaction(&transaction);\n                    }','F05'),
('i13',B,'tx.output.iter().map(|o| o.script_pubkey.clone()).collect(),','tx.output\n                .iter()\n                .take(1)\n                .map(|o| o.script_pubkey.clone())\n                .collect(),','F05'),
('i14',B,'        self.pending_blocks.extend(matches.iter().map(|(h, _)| *h));\n','        self.pending_blocks = matches.iter().map(|(h, _)| *h).collect();\n','F05'),
('i15',R,'        self.watch = watch.into_iter().collect();','        self.watch.extend(watch);','?'),
('i16',R,'        while let Some((filter, block_hash, cached)) = self.received.remove(&current) {','        while let Some((filter, block_hash, cached)) = self.received.get(&current).cloned() {','F05'),
('i17',R,'                filter.match_all(block_hash, &mut outs).unwrap_or(false)','                filter.match_any(block_hash, &mut outs).unwrap_or(false)','F05'),
# F06
('j1',B,'                Bound::Excluded(h) => Some(h - 1),','                Bound::Excluded(h) => Some(h),','F06'),
('j2',B,'            .map(|h| Height::min(h, height))\n            .unwrap_or(height);','            .map(|h| Height::max(h, height))\n            .unwrap_or(height);','F06'),
('j3',B,'        let height = Height::min(self.filters.height(), tree.height());','        let height = self.filters.height();','?'),
('j4',B,'if range.is_empty() || *range.end() > self.filters.height() {','if range.is_empty() || *range.end() > tree.height() {','F06'),
('j5',B,'                    *addr = a;\n                    *expiry = now + timeout;','                    *expiry = now + timeout;','F06'),
('j6',B,'                    *addr = a;\n                    *expiry = now + timeout;','                    if a != *addr {\n                        *addr = a;\n                        *expiry = now + timeout;\n                    }','F06'),
('j7',B,'            self.outbox\n                .get_cfheaders(*peer, start_height, stop_hash, timeout);\n            self.inflight','            self.inflight.clear();\n            self.outbox\n                .get_cfheaders(*peer, start_height, stop_hash, timeout);\n            self.inflight','F06'),
('j8',B,'        if now - self.last_processed.unwrap_or_default() >= DEFAULT_REQUEST_TIMEOUT {\n            if self.rescan.active {','        if now - self.last_processed.unwrap_or(now) >= DEFAULT_REQUEST_TIMEOUT {\n            if self.rescan.active {','F06'),
('j9',B,'        let start = Height::max(start, self.rescan.current);\n        let stop = Height::min(stop, self.rescan.end.unwrap_or(stop));','        let start = Height::max(start + 1, self.rescan.current);\n        let stop = Height::min(stop, self.rescan.end.unwrap_or(stop));','?'),
('j10',B,'        let stop = Height::min(stop, self.rescan.end.unwrap_or(stop));\n        let range = start..=stop; //','        let range = start..=stop; //','?'),
('j11',B,'            self.last_idle = Some(now);\n            self.outbox.set_timer(IDLE_TIMEOUT);','            if self.last_idle.replace(now).is_none() {\n                self.outbox.set_timer(IDLE_TIMEOUT);\n            }','F06'),
('j12',B,'            Event::PeerDisconnected { addr, .. } => {\n                self.peers.remove(&addr);','            Event::PeerDisconnected { addr, .. } => {\n                if self.inflight.values().all(|(_, a, _)| *a != addr) {\n                    self.peers.remove(&addr);\n                }','F06'),
('j13',R,'        skip.extend(&self.requested);','        skip.extend(self.requested.iter().filter(|h| **h > self.current));','F06'),
('j14',R,'        for height in range.clone() {\n            if let Some(filter) = self.cache.get(&height) {','        for height in range.clone().skip(1) {\n            if let Some(filter) = self.cache.get(&height) {','F06'),
('j15',R,'    pub fn reset(&mut self) {\n        self.requested.clear();','    pub fn reset(&mut self) {\n        self.requested.pop_first();','F06'),
('j16',R,'                if *height == r.end() + 1 {','                if *height <= r.end() + 2 {','F06'),
('j17',B,'        if !link.is_outbound() {\n            return;\n        }\n        if !services','        if !link.is_outbound() && !persistent {\n            return;\n        }\n        if !services','F06'),
('j18',B,'            .zip(self.peers.cycle())','            .zip(self.peers.keys())','F06'),
('j19',B,'        let count = usize::min(MAX_MESSAGE_CFHEADERS, (end - start + 1) as usize);','        let count = usize::min(MAX_MESSAGE_CFHEADERS, (end - start) as usize).max(1);','?'),
# F07
('k1',K,'        if size > self.capacity {\n            return false;','        if size > self.capacity - self.size {\n            return false;','F07'),
('k2',K,'            if h > height {','            if h > height && h != height + 1 {','F07,F08'),
('k3',K,'        while self.size > self.capacity {','        while self.size >= self.capacity && self.cache.len() > 1 {','F07'),
('k4',K,'        if size > self.capacity {\n            return false;','        if size > self.capacity {\n            self.cache.remove(&height);\n            return false;','F07'),
# F08
('l1',B,'        self.rescan.rollback(height);\n        // Rollback filter header chain.\n        self.filters.rollback(height)?;','        self.filters.rollback(height)?;\n        if self.rescan.active {\n            self.rescan.rollback(height);\n        }','F08'),
('l2',B,'                self.rescan.current = Height::max(height + 1, start);','                self.rescan.current = Height::max(height + 1, start + 1);','F08'),
('l3',B,'                    if let Err(e) = self.rollback(fork_height) {\n                        self.outbox.error(e);\n                    }\n                }','                    if let Err(e) = self.rollback(fork_height) {\n                        self.outbox.error(e);\n                        return;\n                    }\n                }','?'),
('l4',B,'reverted.last() {','reverted.iter().rev().find(|(h, _)| *h <= self.filters.height()) {','?'),
('l5',B,'            if current > height + 1 {','            if current > height + 1 && self.rescan.end.is_none() {','F08'),
('l6',R,'        self.received.retain(|height, _| *height <= to);','        self.received.retain(|height, _| *height <= to || *height < self.current);','?'),
('l7',B,'        if height >= self.filters.height() {\n            return Ok(());','        if height >= self.rescan.current {\n            return Ok(());','F08'),
# F09
('m1',B,'        if stop_height - start_height >= MAX_MESSAGE_CFHEADERS as Height {','        if stop_height - start_height > MAX_MESSAGE_CFHEADERS as Height {','F09'),
('m2',B,'            let hashes = headers.iter().map(|(hash, _)| *hash);','            let hashes = headers.iter().rev().map(|(hash, _)| *hash);','F09'),
('m3',B,'        if !headers.is_empty() {\n            let hashes','        if headers.len() > 1 {\n            let hashes','F09'),
('m4',B,'        let headers = self.filters.get_headers(start_height..=stop_height);','        let headers = self\n            .filters\n            .get_headers(start_height..=stop_height.min(self.filters.height().max(start_height)));','?'),
('m5',B,'                    stop_hash: msg.stop_hash,\n                    previous_filter_header','                    stop_hash: tree.tip().0,\n                    previous_filter_header','F09'),
('m6',B,'            return Err(Error::Ignored {\n                reason: "stop block missing",\n                from,\n            });','            return Err(Error::InvalidMessage {\n                reason: "stop block missing",\n                from,\n            });','F09'),
]
