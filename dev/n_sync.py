Y='p2p/src/fsm/syncmgr.rs'
M=[
('a1',Y,'        if length > MAX_UNSOLICITED_HEADERS && request.is_none() {','        if length > MAX_UNSOLICITED_HEADERS && request.is_none() && !self.is_syncing() {','S01'),
('a2',Y,'            Err(Error::BlockImportAborted(err, _, _)) => Err(*err),\n            result => result,','            Err(Error::BlockImportAborted(err, 0, _)) => Err(*err),\n            result => result,','S01'),
('a3',Y,'                | e @ Error::InvalidBlockTime(_, _),\n            ) => {','                | e @ Error::InvalidBlockTime(_, _),\n            ) if request.is_some() => {','S01?'),
('a4',Y,'            self.record_misbehavior(from, "invalid `headers` message");\n\n            return;','            if request.is_none() {\n                self.record_misbehavior(from, "invalid `headers` message");\n            }\n\n            return;','S01'),
('a5',Y,'        if tree.contains(&best) {\n            return;','        if tree.contains(&root) {\n            return;','S01'),
('a6',Y,'        if tree.contains(&best) {\n            return;','        if tree.is_known(&best) {\n            return;','?'),
('a7',Y,'            Err(Error::DuplicateBlock(_) | Error::BlockMissing(_)) => {}','            Err(Error::DuplicateBlock(_)) => {}\n            Err(Error::BlockMissing(_)) => {\n                self.record_misbehavior(from, "unknown headers in `headers` message");\n            }','S01'),
('a8',Y,'            Err(Error::Store(e)) => self.outbox.error(e),','            Err(Error::Store(e)) => {\n                if request.is_none() {\n                    self.outbox.error(e)\n                }\n            }','S01'),
('b1',Y,'                if length < MAX_MESSAGE_HEADERS {','                if length < MAX_MESSAGE_HEADERS || request.is_none() {','S02'),
('b2',Y,'            self.inflight.insert(addr, req.clone());\n            self.outbox.get_headers(addr, req.locators);\n            self.outbox.set_timer(timeout);','            self.inflight.insert(addr, req.clone());\n            self.outbox.get_headers(addr, req.locators);\n            if self.inflight.len() == 1 {\n                self.outbox.set_timer(timeout);\n            }','S02'),
('b3',Y,'                if local_time - req.sent_at >= timeout {','                if local_time - req.sent_at > timeout {','S02'),
('b4',Y,'            self.inflight.remove(&peer);\n\n            match on_timeout {','            if on_timeout != OnTimeout::Ignore {\n                self.inflight.remove(&peer);\n            }\n\n            match on_timeout {','S02'),
('b5',Y,'*a != peer && self.is_request_candidate','self.is_request_candidate','?'),
('b6',Y,'self.request(addr, req.locators, timeout, OnTimeout::Retry(n - 1));','self.request(addr, req.locators, timeout, OnTimeout::Retry(n));','S02?'),
('b7',Y,'OnTimeout::Retry(0) | OnTimeout::Disconnect => {','OnTimeout::Retry(0 | 1) | OnTimeout::Disconnect => {','?'),
('b8',Y,'                        .disconnect(peer, DisconnectReason::PeerTimeout("getheaders"));\n                    sync = true;','                        .disconnect(peer, DisconnectReason::PeerTimeout("getheaders"));\n                    sync = self.peers.len() > 1;','?'),
('b9',Y,'            return height >= peer_height;','            return height + 1 >= peer_height;','S02'),
('b10',Y,'        if self.stale_tip(tree).is_some() {\n            return false;\n        }\n        let height','        if self.last_tip_update.is_none() && self.stale_tip(tree).is_some() {\n            return false;\n        }\n        let height','S02'),
('b11',Y,'            .or_else(|| peers.iter().find(|(_, p)| p.preferred))','            .or_else(|| peers.iter().find(|(_, p)| p.preferred && p.height > height))','?'),
('b12',Y,'        self.inflight.remove(id);\n        self.peers.remove(id);','        if self.peers.remove(id).map_or(false, |p| p.link.is_outbound()) {\n            self.inflight.remove(id);\n        }','S02'),
('b13',Y,'        if self.syncing(&locators) {\n            return false;','        if self.is_syncing() {\n            return false;','?'),
('b14',Y,'            if best > current {\n                self.request','            if best > current + 1 {\n                self.request','S02'),
('b15',Y,'        self.peers.iter().map(|(_, p)| p.height).max()','        self.peers\n            .iter()\n            .filter(|(_, p)| p.preferred)\n            .map(|(_, p)| p.height)\n            .max()','S02'),
('b16',Y,'        let request = self.inflight.remove(from);','        let request = if headers.is_empty() {\n            None\n        } else {\n            self.inflight.remove(from)\n        };','S02'),
('b17',Y,'                self.last_tip_update = Some(self.clock.local_time());','                self.last_tip_update\n                    .get_or_insert(self.clock.local_time());','S02'),
('b18',Y,'                    let locators = (vec![hash], BlockHash::all_zeros());','                    let locators = (vec![root], BlockHash::all_zeros());','S02'),
('b19',Y,'                self.request(*from, locators, timeout, OnTimeout::Ignore);\n            }\n            Ok(ImportResult::TipChanged','                self.request(*from, locators, timeout, OnTimeout::Disconnect);\n            }\n            Ok(ImportResult::TipChanged','?'),
('b20',Y,'        if sync {\n            self.sync(tree);\n        } else {\n            self.idle(tree);\n        }','        if sync {\n            self.sync(tree);\n        } else if self.inflight.is_empty() {\n            self.idle(tree);\n        }','S02'),
('c1',Y,'            let reorg = !reverted.is_empty();','            let reorg = reverted.len() > 1;','S03'),
('c2',Y,'            for (height, header) in connected.iter().cloned() {\n                self.outbox.event(Event::BlockConnected','            for (height, header) in connected.iter().cloned().filter(|(h, _)| *h <= *height) {\n                self.outbox.event(Event::BlockConnected','?'),
('c3',Y,'            for (height, header) in connected.iter().cloned() {\n                self.outbox.event(Event::BlockConnected','            let fork = reverted.last().map_or(0, |(h, _)| *h);\n            for (height, header) in connected.iter().cloned().filter(|(h, _)| *h >= fork) {\n                self.outbox.event(Event::BlockConnected','S03'),
('c4',Y,'            self.broadcast_tip(hash, tree);\n        }\n        result','            self.broadcast_tip(hash, tree);\n        } else if let Err(Error::BlockImportAborted(..)) = &result {\n            let (hash, header) = tree.tip();\n            self.outbox.event(Event::BlockConnected {\n                height: tree.height(),\n                header,\n            });\n            self.broadcast_tip(&hash, tree);\n        }\n        result','?'),
('c5',Y,'if peer.link == Link::Inbound && height > peer.height {','if peer.link == Link::Inbound && height >= peer.height {','S03'),
('c6',Y,'if peer.link == Link::Inbound && height > peer.height {','if peer.link == Link::Inbound && height == peer.height + 1 {','S03'),
('c7',Y,'                connected: connected.clone(),','                connected: if reorg {\n                    connected.clone()\n                } else {\n                    NonEmpty::new(connected.last().clone())\n                },','S03'),
('d1',Y,'        if self.is_syncing() || max == 0 {\n            return;','        if self.inflight.len() > 1 || max == 0 {\n            return;','S04'),
('d2',Y,'        let headers = tree.locate_headers(&locator_hashes, stop_hash, max);','        let headers = tree.locate_headers(&locator_hashes, stop_hash, MAX_MESSAGE_HEADERS);','S04'),
('d3',Y,'                if !tree.is_known(hash) {\n                    best_block = Some(hash);','                if !tree.is_known(hash) && best_block.is_none() {\n                    best_block = Some(hash);','S04'),
('d4',Y,'                if !tree.is_known(hash) {','                if !tree.contains(hash) {','S04'),
('d5',Y,'        for i in inv {\n            if let Inventory::Block(hash) = i {','        for i in inv {\n            if let Inventory::Block(hash) | Inventory::WitnessBlock(hash) = i {','?'),
('d6',Y,'            let locators = (tree.locator_hashes(tree.height()), *stop_hash);\n            let timeout','            let locators = (vec![tree.tip().0], *stop_hash);\n            let timeout','?'),
('d7',Y,'        if inv.len() > MAX_MESSAGE_INVS {\n            return;','        if inv.len() >= MAX_MESSAGE_INVS {\n            return;','S04'),
]
M=[(a,b,c,d,e.replace('S01?','S01').replace('S02?','S02')) for a,b,c,d,e in M]
