F='p2p/src/fsm.rs'; O='p2p/src/fsm/output.rs'; S='p2p/src/stream.rs'; B='p2p/src/fsm/cbfmgr.rs'; Y='p2p/src/fsm/syncmgr.rs'; P='p2p/src/fsm/peermgr.rs'; A='p2p/src/fsm/addrmgr.rs'; V='p2p/src/fsm/invmgr.rs'; C='p2p/src/fsm/filter_cache.rs'
K='common/src/collections.rs'; G='p2p/src/fsm/pingmgr.rs'
M=[
# M01
('a1',F,"        if msg.magic != self.network.magic() {","        if msg.magic != self.network.magic() && !matches!(msg.payload, NetworkMessage::Ping(_) | NetworkMessage::Pong(_)) {",'M01'),
('a2',F,"        if !self.peermgr.is_connected(&addr) {\n            debug!(target","        if !self.peermgr.is_connected(&addr) && !matches!(msg.payload, NetworkMessage::Addr(_)) {\n            debug!(target",'M01'),
('a3',F,"                cmd, addr, err\n            );\n            return;","                cmd, addr, err\n            );\n            if !matches!(msg.payload, NetworkMessage::Block(_)) {\n                return;\n            }",'M01'),
('a4',F,"        if let Err(err) = (self.hooks.on_message)(addr, &msg.payload, &self.outbox) {","        if matches!(msg.payload, NetworkMessage::Verack) {\n            self.peermgr.received_event(\n                Event::MessageReceived {\n                    from: addr,\n                    message: Arc::new(msg.payload.clone()),\n                },\n                &self.tree,\n            );\n        }\n        if let Err(err) = (self.hooks.on_message)(addr, &msg.payload, &self.outbox) {",'M01'),
('a5',F,"        self.event(Event::MessageReceived {\n            from: addr,","        self.event(Event::MessageReceived {\n            from: net::SocketAddr::new(addr.ip().to_canonical(), addr.port()),",'?'),
('a6',F,"        self.pingmgr.received_event(e.clone(), &self.tree);","        if !matches!(e, Event::PeerNegotiated { services, .. } if services == ServiceFlags::NONE) {\n            self.pingmgr.received_event(e.clone(), &self.tree);\n        }",'M01,M02'),
('a7',F,"            return self\n                .peermgr\n                .disconnect(addr, DisconnectReason::PeerMagic(msg.magic));","            return self\n                .peermgr\n                .disconnect(addr, DisconnectReason::PeerMagic(self.network.magic()));",'M01'),
('a8',F,"        if msg.magic != self.network.magic() {\n            return self\n","        if msg.magic != self.network.magic() {\n            if !self.peermgr.is_connected(&addr) || self.addrmgr.is_empty() {\n                return;\n            }\n            return self\n",'M01'),
# M02
('b1',O,"    fn next(&mut self) -> Option<Io> {\n        self.outbound.pop_front()","    fn next(&mut self) -> Option<Io> {\n        if self.outbound.len() > 4096 {\n            return self.outbound.pop_back();\n        }\n        self.outbound.pop_front()",'M02'),
('b2',O,"        self.outbound.push_back(output);","        if let (Some(Io::SetTimer(a)), Io::SetTimer(b)) = (self.outbound.back(), &output) {\n            if a == b {\n                return;\n            }\n        }\n        self.outbound.push_back(output);",'M02'),
('b3',O,"        self.push(Io::Disconnect(addr, reason));","        self.outbound.push_front(Io::Disconnect(addr, reason));",'M02'),
('b4',F,"            .or_else(|| self.addrmgr.next())\n            .or_else(|| self.cbfmgr.next())","            .or_else(|| self.cbfmgr.next())\n            .or_else(|| self.addrmgr.next().filter(|io| !matches!(io, output::Io::SetTimer(_))))",'M02'),
('b5',F,"            Some(Io::Event(e)) => {\n                self.event(e.clone());","            Some(Io::Event(e)) => {\n                if !matches!(e, Event::Error { .. }) {\n                    self.event(e.clone());\n                }",'M02'),
('b6',O,"    pub fn cfilter(&mut self, addr: PeerId, cfilter: CFilter) {\n        self.message(addr, NetworkMessage::CFilter(cfilter));","    pub fn cfilter(&mut self, addr: PeerId, cfilter: CFilter) {\n        if cfilter.filter.is_empty() {\n            return;\n        }\n        self.message(addr, NetworkMessage::CFilter(cfilter));",'?'),
('b7',O,"                filter_type: 0x0,\n                start_height: start_height as u32,\n                stop_hash,\n            }),\n        );\n        self.set_timer(timeout);\n    }\n\n    /// Send compact filter headers","                filter_type: 0x0,\n                start_height: start_height as u16 as u32,\n                stop_hash,\n            }),\n        );\n        self.set_timer(timeout);\n    }\n\n    /// Send compact filter headers",'M02,F06'),
('b8',F,"                output::Io::SetTimer(t) => Io::SetTimer(t),","                output::Io::SetTimer(t) => Io::SetTimer(t.max(LocalDuration::from_secs(1))),",'M02'),
('b9',F,"                        magic: self.network.magic(),\n                        payload,","                        magic: if matches!(payload, NetworkMessage::Version(_)) { network::Network::default().magic() } else { self.network.magic() },\n                        payload,",'M02'),
('b10',F,"        self.addrmgr.received_event(e.clone());\n        self.peermgr.received_event(e, &self.tree);","        self.addrmgr.received_event(e.clone());\n        if self.peermgr.peers().next().is_some() {\n            self.peermgr.received_event(e, &self.tree);\n        }",'M02'),
# M03
('c1',F,"        self.addrmgr.initialize();\n        self.syncmgr.initialize(&self.tree);\n        self.peermgr.initialize(&mut self.addrmgr);","        self.syncmgr.initialize(&self.tree);\n        self.peermgr.initialize(&mut self.addrmgr);\n        self.addrmgr.initialize();",'M03'),
('c2',F,"        self.clock.set(local_time);\n    }","        if local_time > self.clock.local_time() + LocalDuration::from_secs(1) {\n            self.clock.set(local_time);\n        }\n    }",'M03'),
('c3',F,"            .peer_connected(addr, *local_addr, link, self.tree.height());","            .peer_connected(addr, *local_addr, link, self.cbfmgr.filters.height());",'M03'),
('c4',F,"            filter_tip: self.cbfmgr.filters.height(),\n            time,","            filter_tip: self.cbfmgr.filters.height().min(self.tree.height()),\n            time,",'M03'),
('c5',F,"                target_outbound_peers: limits.max_outbound_peers,","                target_outbound_peers: limits.max_outbound_peers.min(peermgr::TARGET_OUTBOUND_PEERS),",'M03'),
('c6',F,"        self.pingmgr.timer_expired();\n        self.addrmgr.timer_expired();","        if self.peermgr.negotiated(Link::Outbound).next().is_some() {\n            self.pingmgr.timer_expired();\n        }\n        self.addrmgr.timer_expired();",'M03'),
('c7',F,"                filter_cache_size: limits.filter_cache_size,\n                ..cbfmgr","                filter_cache_size: limits.filter_cache_size.max(cbfmgr::DEFAULT_FILTER_CACHE_SIZE),\n                ..cbfmgr",'M03'),
('c8',F,"                domains: domains.clone(),\n","                domains: if domains.is_empty() { Domain::all() } else { domains.clone() },\n",'M03'),
('c9',F,"            params,\n            ..Self::default()","            params,\n            required_services: if network == network::Network::Regtest { ServiceFlags::NONE } else { ServiceFlags::NETWORK },\n            ..Self::default()",'?'),
('c10',F,"        self.addr.contains(addr) || self.user_agent.contains(user_agent)","        self.addr.contains(addr) || (!user_agent.is_empty() && self.user_agent.iter().any(|ua| ua.starts_with(user_agent)))",'M03,P02,P05'),
('c11',F,"        self.peermgr\n            .peer_disconnected(addr, &mut self.addrmgr, reason);","        if self.peermgr.is_connected(addr) {\n            self.peermgr\n                .peer_disconnected(addr, &mut self.addrmgr, reason);\n        }",'M03'),
# M04
('d1',F,"                    .filter(|(p, _)| p.services.has(services))\n                    .map(Peer::from)","                    .filter(|(p, _)| services == ServiceFlags::NONE || p.services & services != ServiceFlags::NONE)\n                    .map(Peer::from)",'?'),
('d2',F,"            if predicate(&peer) {\n                peers.push(peer.addr);","            if predicate(&peer) && !peers.contains(&peer.addr) && peers.len() < 8 {\n                peers.push(peer.addr);",'M04'),
('d3',F,"                let (_, header) = self.tree.tip();\n                let height = self.tree.height();\n                let chainwork = self.tree.chain_work();","                let (_, header) = self.tree.tip();\n                let height = self.tree.height().min(self.cbfmgr.filters.height());\n                let chainwork = self.tree.chain_work();",'M04'),
('d4',F,"                let header = self.tree.get_block_by_height(height).copied();","                let header = self.tree.get_block_by_height(height.min(self.tree.height())).copied();",'M04'),
('d5',F,"                    Err(err) => {\n                        reply.send(Err(err)).ok();","                    Err(err) => {\n                        if self.peermgr.peers().next().is_some() {\n                            reply.send(Err(err)).ok();\n                        }",'M04'),
('d6',F,"                self.peermgr.whitelist(addr);\n                self.peermgr.connect(&addr);","                if self.peermgr.connect(&addr) {\n                    self.peermgr.whitelist(addr);\n                }",'?'),
('d7',F,"                for (_, hash) in self.cbfmgr.rescan(from, to, watch, &self.tree) {","                for (_, hash) in self.cbfmgr.rescan(from, to, watch, &self.tree).into_iter().take(16) {",'M04'),
('d8',F,"                if let Some(peers) = NonEmpty::from_vec(peers) {\n                    reply","                if let (Some(peers), true) = (NonEmpty::from_vec(peers), self.syncmgr.best_height().is_some()) {\n                    reply",'M04'),
('d9',F,"                    addrs.into_iter().map(|a| (BlockTime::default(), a)),","                    addrs.into_iter().filter(|a| a.services != ServiceFlags::NONE).map(|a| (BlockTime::default(), a)),",'M04'),
('d10',F,"                let header = self.tree.get_block(&hash).map(|(k, v)| (k, *v));","                let header = self.tree.get_block(&hash).filter(|(k, _)| *k > 0).map(|(k, v)| (k, *v));",'M04'),
('d11',F,"                self.cbfmgr.watch_transaction(&tx);\n","                if self.cbfmgr.rescan.active {\n                    self.cbfmgr.watch_transaction(&tx);\n                }\n",'M04,F05'),
('d12',F,"                let result = self.cbfmgr.get_cfilters(range, &self.tree);\n                reply.send(result).ok();","                let result = self.cbfmgr.get_cfilters(range, &self.tree);\n                if result.is_ok() {\n                    reply.send(result).ok();\n                }",'M04'),
('d13',F,"                self.peermgr.disconnect(addr, DisconnectReason::Command);","                if self.peermgr.negotiated(Link::Outbound).any(|(p, _)| p.is_negotiated() && addr.port() > 1024) {\n                    self.peermgr.disconnect(addr, DisconnectReason::Command);\n                }",'M04'),
('d14',F,"                let tx = self.invmgr.get_submitted_tx(txid);","                let tx = self.invmgr.get_submitted_tx(txid).filter(|t| !t.is_coin_base());",'M04'),
# M05
('e1',K,"    pub fn sample_with(&self, predicate: impl Fn(&K, &V) -> bool) -> Option<(&K, &V)> {","    pub fn sample_with(&self, predicate: impl Fn(&K, &V) -> bool) -> Option<(&K, &V)> {\n        if std::env::var_os(\"NK_X\").is_some() {\n            return self.inner.iter().find(|(k, v)| predicate(k, v));\n        }",'M05'),
('e2',Y,"        self.outbox.set_timer(REQUEST_TIMEOUT)","        self.outbox.set_timer(REQUEST_TIMEOUT)",'ok'),
('e3',G,"        let nonce = self.rng.u64(..);","        let nonce = fastrand::u64(..);",'M05'),
('e4',A,"        let now = self.clock.local_time();","        let now = LocalTime::now();",'M05'),
('e5',V,"    pub fn get_block(&mut self, hash: BlockHash) {","    pub fn get_block(&mut self, hash: BlockHash) {\n        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n        if N.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 100_000 {\n            return;\n        }",'M05,I05'),
# M06
('f1',F,"        let cmd = msg.cmd();\n        let addr = *addr;","        let cmd = msg.cmd();\n        let addr = *addr;\n        if let NetworkMessage::Addr(ref addrs) = msg.payload {\n            debug!(target: \"p2p\", \"First {:?}\", addrs[0]);\n        }",'M06'),
('f2',V,"        self.estimator.rollback(height - 1);","        assert!(self.received.is_empty() || height > 0);\n        self.estimator.rollback(height - 1);",'M06'),
('f3',F,"                let peers = self.broadcast(msg, |p| predicate(p.clone()));\n                reply.send(peers).ok();","                let peers = self.broadcast(msg, |p| predicate(p.clone()));\n                reply.send(peers).unwrap();",'M06'),
('f4',S,"                self.unparsed.drain(..index);","                self.unparsed = self.unparsed[index..].to_vec();",'ok'),
('f4b',S,"                self.unparsed.drain(..index);","                self.unparsed = self.unparsed.split_off(index);",'ok'),
('f4c',S,"                self.unparsed.drain(..index);","                self.unparsed = self.unparsed[index + 1..].to_vec();",'N02'),
('f4d',S,"                self.unparsed.drain(..index);","                self.unparsed.split_off(index);",'N02'),
('f5',S,"            Err(encode::Error::Io(ref err)) if err.kind() == io::ErrorKind::UnexpectedEof => {","            Err(encode::Error::Io(_)) => {",'?'),
('f6',S,"            Err(encode::Error::Io(ref err)) if err.kind() == io::ErrorKind::UnexpectedEof => {\n                Ok(None)","            Err(encode::Error::Io(ref err)) if err.kind() == io::ErrorKind::UnexpectedEof => {\n                if self.unparsed.len() > 4_000_000 {\n                    self.unparsed.clear();\n                }\n                Ok(None)",'N02'),
('f7',S,"        self.unparsed.extend_from_slice(bytes);","        if self.unparsed.is_empty() && bytes.iter().all(|b| *b == 0) {\n            return;\n        }\n        self.unparsed.extend_from_slice(bytes);",'N02'),
('f8',S,"                self.unparsed.drain(..index);\n","                self.unparsed.drain(..index.min(self.unparsed.capacity() / 2));\n",'N02'),
]
