S='p2p/src/fsm/syncmgr.rs'
M=[
('h-big',S,'if length > MAX_MESSAGE_HEADERS {','if length > MAX_MESSAGE_HEADERS && request.is_none() {','S01'),
('h-unsol',S,'if length > MAX_UNSOLICITED_HEADERS && request.is_none() {','if length > MAX_UNSOLICITED_HEADERS && request.is_none() && !self.is_syncing() {','S01'),
('h-stranger',S,'        if let Some(peer) = self.peers.get_mut(from) {\n            peer.last_active = Some(self.clock.local_time());\n        } else {\n            return;\n        }','        if let Some(peer) = self.peers.get_mut(from) {\n            peer.last_active = Some(self.clock.local_time());\n        }','S01'),
('h-root',S,'if tree.contains(&best) {','if tree.contains(&root) {','S01'),
('h-infl',S,'let request = self.inflight.remove(from);','let request = self.inflight.get(from).cloned();\n        if headers.len() > 0 { self.inflight.remove(from); }','S01'),
('h-dup',S,'            Err(Error::DuplicateBlock(_) | Error::BlockMissing(_)) => {}','            Err(Error::DuplicateBlock(_) | Error::BlockMissing(_)) => {\n                self.record_misbehavior(from, "x");\n            }','S01'),
('h-next',S,'if length < MAX_MESSAGE_HEADERS {','if length <= MAX_MESSAGE_HEADERS {','S02'),
('h-owed',S,'self.request(*from, locators, timeout, OnTimeout::Disconnect);','self.request(*from, locators, timeout, OnTimeout::Ignore);','S02'),
('h-locs',S,'let locators = (vec![hash], BlockHash::all_zeros());','let locators = (vec![root], BlockHash::all_zeros());','S02'),
('h-stop',S,'let locators = (tree.locator_hashes(tree.height()), root);','let locators = (tree.locator_hashes(tree.height()), best);','S02'),
('h-pheight',S,'                    if height > peer.height {\n                        peer.tip = hash;\n                        peer.height = height;\n                    }','                    peer.tip = hash;\n                    peer.height = height;','S02'),
('r-dup',S,'        if self.inflight.contains_key(&addr) {\n            return;\n        }\n        if let Some(peer) = self.peers.get_mut(&addr) {','        if let Some(peer) = self.peers.get_mut(&addr) {','S02'),
('r-timer',S,'            self.outbox.get_headers(addr, req.locators);\n            self.outbox.set_timer(timeout);','            self.outbox.get_headers(addr, req.locators);\n            if on_timeout != OnTimeout::Ignore {\n                self.outbox.set_timer(timeout);\n            }','S02'),
('t-gt',S,'if local_time - req.sent_at >= timeout {','if local_time - req.sent_at > timeout {','S02'),
('t-remove',S,'            self.inflight.remove(&peer);\n\n            match on_timeout {\n                OnTimeout::Ignore => {','            if on_timeout != OnTimeout::Ignore { self.inflight.remove(&peer); }\n\n            match on_timeout {\n                OnTimeout::Ignore => {','S02'),
('t-zero',S,'OnTimeout::Retry(0) | OnTimeout::Disconnect => {','OnTimeout::Disconnect => {','S02'),
('t-same',S,'*a != peer && self.is_request_candidate(a, p, &req.locators.0)','self.is_request_candidate(a, p, &req.locators.0)','S02'),
('t-count',S,'OnTimeout::Retry(n - 1)','OnTimeout::Retry(n)','S02'),
('t-nosync',S,'                    sync = true;\n','','S02'),
('y-best',S,'return height >= peer_height;','return height + 1 >= peer_height;','S02'),
('y-stale',S,'if self.stale_tip(tree).is_some() {\n            return false;','if self.stale_tip(tree).is_some() && !self.is_syncing() {\n            return false;','S02'),
('y-stale3',S,'if time <= now - TIP_STALE_DURATION {','if time <= now - TIP_STALE_DURATION - TIP_STALE_DURATION {','S02'),
('y-dup',S,'        if self.syncing(&locators) {\n            return false;\n        }\n','','S02'),
('p-svc',S,'if link.is_outbound() && !services.has(REQUIRED_SERVICES) {','if link.is_outbound() && services == ServiceFlags::NONE {','S02'),
('p-unreg',S,'        self.inflight.remove(id);\n        self.peers.remove(id);','        self.peers.remove(id);','S02'),
('i-order',S,'reverted.iter().cloned() {','reverted.iter().rev().cloned() {','S03'),
('i-take',S,'for (height, header) in connected.iter().cloned() {','for (height, header) in connected.iter().skip(reverted.len()).cloned() {','S03'),
('i-reorg',S,'let reorg = !reverted.is_empty();','let reorg = reverted.len() > 1;','S03'),
('i-conn',S,'                connected: connected.clone(),\n                reverted: reverted.clone(),','                connected: connected.clone(),\n                reverted: Vec::new(),','S03'),
('i-height',S,'self.outbox.event(Event::BlockConnected { height, header });','self.outbox.event(Event::BlockConnected { height: height.max(1), header });','?'),
('b-link',S,'if peer.link == Link::Inbound && height > peer.height {','if height > peer.height {','S03'),
('g-sync',S,'if self.is_syncing() || max == 0 {','if max == 0 {','S04'),
('g-max',S,'tree.locate_headers(&locator_hashes, stop_hash, max);','tree.locate_headers(&locator_hashes, stop_hash, max + 1);','S04'),
('v-known',S,'if !tree.is_known(hash) {','if !tree.contains(hash) {','S04'),
('v-first',S,'                if !tree.is_known(hash) {\n                    best_block = Some(hash);\n                }','                if !tree.is_known(hash) {\n                    best_block = Some(hash);\n                    break;\n                }','S04'),
('v-max',S,'        if inv.len() > MAX_MESSAGE_INVS {\n            return;\n        }\n','','S04'),
('v-sync',S,'        if self.is_syncing() {\n            return;\n        }\n        // Ignore and','        // Ignore and','S04'),
('ok-let',S,'        let Some(headers) = NonEmpty::from_vec(headers.to_vec()) else {\n            return;\n        };','        if headers.is_empty() {\n            return;\n        }\n        let headers = match NonEmpty::from_vec(headers.to_vec()) {\n            Some(h) => h,\n            None => return,\n        };','ok'),
('ok-len',S,'        let length = headers.len();\n\n        if length > MAX_MESSAGE_HEADERS {','        let length = headers.len();\n        let unsolicited = request.is_none();\n        let too_many = length > MAX_MESSAGE_HEADERS;\n\n        if too_many {','ok'),
('ok-match',S,'        if let Some(peer) = self.peers.get_mut(from) {\n            peer.last_active = Some(self.clock.local_time());\n        } else {\n            return;\n        }','        match self.peers.get_mut(from) {\n            Some(peer) => peer.last_active = Some(self.clock.local_time()),\n            None => return,\n        }','ok'),
('ok-helper',S,['''                    let locators = (vec![hash], BlockHash::all_zeros());
                    let timeout = self.config.request_timeout;

                    self.request(*from, locators, timeout, OnTimeout::Disconnect);''','    fn request(\n'],['''                    self.request_next(*from, hash);''','''    fn request_next(&mut self, addr: PeerId, tip: BlockHash) {
        let locators = (vec![tip], BlockHash::all_zeros());

        self.request(addr, locators, self.config.request_timeout, OnTimeout::Disconnect);
    }

    fn request(
'''],'ok'),
('ok-import',S,'''        if let Ok(ImportResult::TipChanged {
            hash,
            height,
            reverted,
            connected,
            ..
        }) = &result
        {
            let reorg = !reverted.is_empty();
''','''        if let Ok(ImportResult::TipChanged {
            hash,
            height,
            reverted,
            connected,
            ..
        }) = &result
        {
            let reorg = reverted.len() > 0;
''','ok'),
('ok-import2',S,'''            for (height, header) in connected.iter().cloned() {
                self.outbox.event(Event::BlockConnected { height, header });
            }''','''            connected.iter().for_each(|(h, hdr)| {
                self.outbox.event(Event::BlockConnected { height: *h, header: *hdr });
            });''','ok'),
('ok-inv',S,'''        for i in inv {
            if let Inventory::Block(hash) = i {
                peer.tip = *hash;
''','''        for entry in inv.iter() {
            let hash = match entry {
                Inventory::Block(hash) => hash,
                _ => continue,
            };
            {
                peer.tip = *hash;
''','ok'),
('ok-timer',S,'''        let timed_out = self
            .inflight
            .iter()
            .filter_map(|(peer, req)| {
                if local_time - req.sent_at >= timeout {
                    Some((*peer, req.on_timeout, req.clone()))
                } else {
                    None
                }
            })
            .collect::<Vec<_>>();
''','''        let mut timed_out = Vec::new();
        for (peer, req) in self.inflight.iter() {
            let elapsed = local_time - req.sent_at;
            if elapsed >= timeout {
                timed_out.push((*peer, req.on_timeout, req.clone()));
            }
        }
''','ok'),
('ok-timer2',S,'''            .filter_map(|(peer, req)| {
                if local_time - req.sent_at >= timeout {
                    Some((*peer, req.on_timeout, req.clone()))
                } else {
                    None
                }
            })
''','''            .filter(|(_, req)| local_time - req.sent_at >= timeout)
            .map(|(peer, req)| (*peer, req.on_timeout, req.clone()))
''','ok'),
('ok-synced',S,'''        let height = tree.height();

        // Find the peer with the longest chain and compare our height to it.
        if let Some(peer_height) = self.best_height() {
            return height >= peer_height;
        }

        // Assume we're out of sync.
        false
''','''        // Find the peer with the longest chain and compare our height to it.
        match self.best_height() {
            Some(best) => best <= tree.height(),
            None => false,
        }
''','ok'),
('ok-best',S,'        self.peers.iter().map(|(_, p)| p.height).max()','        let mut best = None;\n        for (_, p) in self.peers.iter() {\n            if best.map_or(true, |b| p.height > b) {\n                best = Some(p.height);\n            }\n        }\n        best','?'),
('ok-bcast',S,'''        if let Some((height, best)) = tree.get_block(hash) {
            for (addr, peer) in &*self.peers {
                // TODO: Don't broadcast to peer that is currently syncing?
                if peer.link == Link::Inbound && height > peer.height {
                    self.outbox.headers(*addr, vec![*best]);
                }
            }
        }''','''        let Some((height, best)) = tree.get_block(hash) else {
            return;
        };
        for (addr, peer) in self.peers.iter() {
            if peer.link != Link::Inbound || peer.height >= height {
                continue;
            }
            self.outbox.headers(*addr, vec![*best]);
        }''','ok'),
('ok-pref',S,'''        peers
            .iter()
            .filter(|(a, p)| self.is_request_candidate(a, p, locators))
            .find(|(_, p)| p.preferred && p.height > height)
            .or_else(|| peers.iter().find(|(_, p)| p.preferred))
            .map(|(a, _)| **a)''','''        for (a, p) in peers.iter() {
            if self.is_request_candidate(a, p, locators) && p.preferred && p.height > height {
                return Some(**a);
            }
        }
        peers
            .iter()
            .find(|(_, p)| p.preferred)
            .map(|(a, _)| **a)''','ok'),
('ok-getheaders',S,'''        let headers = tree.locate_headers(&locator_hashes, stop_hash, max);

        if headers.is_empty() {
            return;
        }
        self.outbox.headers(*addr, headers);''','''        let headers = tree.locate_headers(&locator_hashes, stop_hash, max);

        if !headers.is_empty() {
            self.outbox.headers(*addr, headers);
        }''','ok'),
('ok-order',S,'''            self.inflight.insert(addr, req.clone());
            self.outbox.get_headers(addr, req.locators);
            self.outbox.set_timer(timeout);''','''            let msg = req.locators.clone();
            self.inflight.insert(addr, req);
            self.outbox.set_timer(timeout);
            self.outbox.get_headers(addr, msg);''','ok'),
('ok-sample',S,'''        let addrs = self
            .peers
            .iter()
            .filter(|(a, p)| self.is_request_candidate(a, p, &locators))
            .map(|(a, _)| *a)
            .collect::<Vec<_>>();
''','''        let mut addrs = Vec::new();
        for (a, p) in self.peers.iter() {
            if self.is_request_candidate(a, p, &locators) {
                addrs.push(*a);
            }
        }
''','ok'),
]
