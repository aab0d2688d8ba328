F='p2p/src/fsm.rs'; O='p2p/src/fsm/output.rs'; I='p2p/src/fsm/invmgr.rs'
M=[
('magic-noreturn',F,"            return self\n                .peermgr\n                .disconnect(addr, DisconnectReason::PeerMagic(msg.magic));","            self\n                .peermgr\n                .disconnect(addr, DisconnectReason::PeerMagic(msg.magic));",'M01'),
('magic-nodisc',F,"            return self\n                .peermgr\n                .disconnect(addr, DisconnectReason::PeerMagic(msg.magic));","            return;",'M01'),
('magic-other',F,"if msg.magic != self.network.magic() {","if msg.magic != self.network.magic() && msg.magic != network::Network::Mainnet.magic() {",'M01'),
('ok-magic-eq',F,"        if msg.magic != self.network.magic() {","        let expected = self.network.magic();\n        let valid = expected == msg.magic;\n        if !valid {",'ok'),
('stranger',F,"""            debug!(target: "p2p", "Received {:?} from unknown peer {}", cmd, addr);
            return;""","""            debug!(target: "p2p", "Received {:?} from unknown peer {}", cmd, addr);
            if cmd != "verack" { return; }""",'M01'),
('stranger-order',F,["""        if !self.peermgr.is_connected(&addr) {
            debug!(target: "p2p", "Received {:?} from unknown peer {}", cmd, addr);
            return;
        }
""","""        // Nb. We only send this message internally, hence we don't"""],["","""        if !self.peermgr.is_connected(&addr) {
            debug!(target: "p2p", "Received {:?} from unknown peer {}", cmd, addr);
            return;
        }
        // Nb. We only send this message internally, hence we don't"""],'M01'),
('hook-ignored',F,"""                cmd, addr, err
            );
            return;""","""                cmd, addr, err
            );
            if !matches!(msg.payload, NetworkMessage::Block(_)) { return; }""",'M01'),
('hook-late',F,"(self.hooks.on_message)(addr, &msg.payload, &self.outbox)","Ok::<(), &'static str>(())",'M01'),
('from',F,"            from: addr,\n            message: Arc::new(msg.payload),","            from: net::SocketAddr::new(addr.ip(), self.network.port()),\n            message: Arc::new(msg.payload),",'M01'),
('quiet',F,"""        self.event(Event::MessageReceived {
            from: addr,
            message: Arc::new(msg.payload),
        });""","""        self.outbox.event(Event::MessageReceived {
            from: addr,
            message: Arc::new(msg.payload),
        });""",'M01'),
('event-no-addrmgr',F,"        self.addrmgr.received_event(e.clone());\n","",'M01,M02,M03'),
('event-cond',F,"        self.pingmgr.received_event(e.clone(), &self.tree);","        if !matches!(e, Event::PeerDisconnected { .. }) { self.pingmgr.received_event(e.clone(), &self.tree); }",'M03'),
('ok-event-order',F,"        self.pingmgr.received_event(e.clone(), &self.tree);\n        self.invmgr.received_event(e.clone(), &self.tree);","        self.invmgr.received_event(e.clone(), &self.tree);\n        self.pingmgr.received_event(e.clone(), &self.tree);",'ok'),
('next-nocbf',F,"            .or_else(|| self.cbfmgr.next())\n","",'M02'),
('next-noinv',F,"            .or_else(|| self.invmgr.next())\n","",'M02'),
('next-or',F,".or_else(|| self.pingmgr.next())",".or(self.pingmgr.next())",'M02'),
('next-noevent',F,"                self.event(e.clone());\n\n                Some(Io::Event(e))","                if !matches!(e, Event::PeerTimedOut { .. }) { self.event(e.clone()); }\n                Some(Io::Event(e))",'M02'),
('next-swallow',F,"                self.event(e.clone());\n\n                Some(Io::Event(e))","                self.event(e.clone());\n                self.next()",'M02'),
('next-magic',F,"magic: self.network.magic(),","magic: network::Network::default().magic(),",'M02'),
('next-timer',F,"output::Io::SetTimer(t) => Io::SetTimer(t),","output::Io::SetTimer(t) => Io::SetTimer(t * 2),",'M02'),
('ok-next-loop',F,["        let next = self\n            .outbox\n            .next()","            .map(|io| match io {\n                output::Io::Write(addr, payload)","                output::Io::Event(e) => Io::Event(e),\n            });"],["        let out = self\n            .outbox\n            .next()",";\n        let magic = self.network.magic();\n        let next = out.map(|io| match io {\n                output::Io::Write(addr, payload)","                output::Io::Event(e) => Io::Event(e),\n            });"],'?'),
('ok-next-match',F,["""                self.event(e.clone());

                Some(Io::Event(e))
            }
            other => other,""","        match next {\n            Some(Io::Event(e)) => {"],["""            self.event(e.clone());
        }
        next
        /*
            """,  "        if let Some(Io::Event(e)) = &next {\n"],'?'),
('ok-next-iflet',F,"""        match next {
            Some(Io::Event(e)) => {
                self.event(e.clone());

                Some(Io::Event(e))
            }
            other => other,
        }""","""        if let Some(Io::Event(e)) = &next {
            self.event(e.clone());
        }
        next""",'ok'),
('out-lifo',O,"self.outbound.pop_front()","self.outbound.pop_back()",'M02'),
('out-front',O,"self.outbound.push_back(output);","if matches!(output, Io::Disconnect(..)) { self.outbound.push_front(output); } else { self.outbound.push_back(output); }",'M02'),
('out-bound',O,"self.outbound.push_back(output);","if self.outbound.len() < 4096 { self.outbound.push_back(output); }",'M02'),
('out-clear',O,"""        debug!(target: "p2p", "Disconnecting from {addr}: {reason}");
""","""        debug!(target: "p2p", "Disconnecting from {addr}: {reason}");
        self.outbound.retain(|io| !matches!(io, Io::Write(a, _) if *a == addr));
""",'M02'),
('out-connect',O,"        self.push(Io::Connect(addr));\n        self.push(Io::SetTimer(timeout));","        self.push(Io::Connect(addr));\n        let _ = timeout;",'M02'),
('init-noset',F,"        self.clock.set(time);\n        self.outbox.event(Event::Initializing);\n        self.addrmgr.initialize();","        self.outbox.event(Event::Initializing);\n        self.addrmgr.initialize();\n        self.clock.set(time);",'M03'),
('init-order',F,"        self.addrmgr.initialize();\n        self.syncmgr.initialize(&self.tree);\n        self.peermgr.initialize(&mut self.addrmgr);","        self.syncmgr.initialize(&self.tree);\n        self.peermgr.initialize(&mut self.addrmgr);\n        self.addrmgr.initialize();",'M03'),
('init-nocbf',F,"        self.cbfmgr.initialize(&self.tree);\n","",'M03'),
('ok-init-order',F,"        self.addrmgr.initialize();\n        self.syncmgr.initialize(&self.tree);","        self.syncmgr.initialize(&self.tree);\n        self.addrmgr.initialize();",'ok'),
('ready-height',F,"            filter_tip: self.cbfmgr.filters.height(),\n            time,","            filter_tip: self.tree.height(),\n            time,",'M03'),
('wake-noping',F,"        self.pingmgr.timer_expired();\n","",'M03'),
('wake-late',F,"        self.cbfmgr.timer_expired(&self.tree);\n\n","        if self.syncmgr.best_height().is_some() { self.cbfmgr.timer_expired(&self.tree); }\n\n",'M03'),
('tick-no',F,"        self.clock.set(local_time);","        if local_time > self.clock.local_time() + LocalDuration::from_secs(1) { self.clock.set(local_time); }",'M03'),
('conn-height',F,"link, self.tree.height());","link, 0);",'M03'),
('cfg-limits',F,"target_outbound_peers: limits.max_outbound_peers,\n                max_inbound_peers: limits.max_inbound_peers,","target_outbound_peers: limits.max_inbound_peers,\n                max_inbound_peers: limits.max_inbound_peers,",'M03'),
('cfg-services',F,"                required_services,\n                domains,\n            },","                required_services: ServiceFlags::NETWORK,\n                domains,\n            },",'M03'),
('cfg-domains',F,"domains: domains.clone(),","domains: Domain::all(),",'M03'),
('cfg-ping',F,"PingManager::new(ping_timeout,","PingManager::new(pingmgr::PING_TIMEOUT,",'M03'),
('cfg-cache',F,"                filter_cache_size: limits.filter_cache_size,\n                ..cbfmgr::Config::default()","                ..cbfmgr::Config::default()",'M03'),
('cmd-noreply',F,"                let peers = self.broadcast(msg, |p| predicate(p.clone()));\n                reply.send(peers).ok();","                let peers = self.broadcast(msg, |p| predicate(p.clone()));\n                if !peers.is_empty() { reply.send(peers).ok(); }",'M04'),
('cmd-import-noerr',F,"                    Err(err) => {\n                        reply.send(Err(err)).ok();\n                    }","                    Err(err) => { debug!(\"{err}\"); }",'M04'),
('ok-import',F,"""                match result {
                    Ok(import_result) => {
                        reply.send(Ok(import_result)).ok();
                    }
                    Err(err) => {
                        reply.send(Err(err)).ok();
                    }
                }""","""                reply.send(result).ok();""",'ok'),
('cmd-tip',F,"reply.send((height, header, chainwork)).ok();","reply.send((height + 1, header, chainwork)).ok();",'M04'),
('cmd-peers-neg',F,"                    .filter(|(p, _)| p.is_negotiated())\n","",'M04'),
('cmd-peers-svc',F,"                    .filter(|(p, _)| p.services.has(services))\n","",'M04'),
('ok-cmd-peers',F,"                    .filter(|(p, _)| p.is_negotiated())\n                    .filter(|(p, _)| p.services.has(services))\n","                    .filter(|(p, _)| p.services.has(services) && p.is_negotiated())\n",'ok'),
('cmd-peers-take',F,"                    .map(Peer::from)\n                    .collect::<Vec<Peer>>();","                    .map(Peer::from)\n                    .take(8)\n                    .collect::<Vec<Peer>>();",'M04'),
('cmd-disconnect',F,"self.peermgr.disconnect(addr, DisconnectReason::Command);","self.peermgr.disconnect(addr, DisconnectReason::ConnectionLimit);",'M04'),
('cmd-wl',F,"                self.peermgr.whitelist(addr);\n                self.peermgr.connect(&addr);","                if self.peermgr.connect(&addr) { self.peermgr.whitelist(addr); }",'M04'),
('ok-cmd-wl',F,"                self.peermgr.whitelist(addr);\n                self.peermgr.connect(&addr);","                self.peermgr.whitelist(addr);\n                let _dialed = self.peermgr.connect(&addr);",'ok'),
('cmd-watch-tx',F,"                self.cbfmgr.watch_transaction(&tx);\n\n                // TODO: For BIP 339 support, we can send a `WTx` inventory here.\n                let peers = self.invmgr.announce(tx);\n","                let watched = tx.clone();\n                let peers = self.invmgr.announce(tx);\n                if !peers.is_empty() { self.cbfmgr.watch_transaction(&watched); }\n",'M04'),
('cmd-rescan-blocks',F,"                    self.invmgr.get_block(hash);\n                }\n            }\n            Command::Watch","                    let _ = hash;\n                }\n            }\n            Command::Watch",'M04'),
('cmd-rescan-skip',F,"self.cbfmgr.rescan(from, to, watch, &self.tree) {","self.cbfmgr.rescan(from, to, watch, &self.tree).into_iter().skip(1) {",'M04'),
('cmd-broadcast-once',F,"                self.outbox.message(peer.addr, msg.clone());\n            }","                self.outbox.message(peer.addr, msg.clone());\n                if peers.len() == 8 { break; }\n            }",'M04'),
('cmd-broadcast-inv',F,"            if predicate(&peer) {","            if predicate(&peer) || peer.link.is_inbound() {",'M04'),
('ok-broadcast',F,"""        for peer in self.peermgr.peers().map(Peer::from) {
            if predicate(&peer) {
                peers.push(peer.addr);
                self.outbox.message(peer.addr, msg.clone());
            }
        }""","""        for (info, conn) in self.peermgr.peers() {
            let peer = Peer::from((info, conn));
            if !predicate(&peer) {
                continue;
            }
            self.outbox.message(peer.addr, msg.clone());
            peers.push(peer.addr);
        }""",'ok'),
('cmd-peer-from',F,"            height: peer.height,\n            services: peer.services,","            height: 0,\n            services: peer.services,",'M04'),
('sub-tx',I,"self.mempool.values().find(|tx| tx.txid() == *txid).cloned()","self.mempool.values().find(|tx| tx.ntxid() == tx.ntxid() || tx.txid() == *txid).cloned()",'M04'),
('pure-now',I,"pub fn timer_expired<T: BlockReader>(&mut self, tree: &T) {\n        let now = self.clock.local_time();","pub fn timer_expired<T: BlockReader>(&mut self, tree: &T) {\n        let now = nakamoto_common::block::time::LocalTime::now();",'M05'),
('pure-rng','p2p/src/fsm/peermgr.rs',"self.rng.u64(..)","fastrand::u64(..)",'M05'),
('pure-hash','p2p/src/fsm/pingmgr.rs',"use nakamoto_common::collections::HashMap;","use std::collections::HashMap;",'?'),
('pure-fs',O,'info!(target: "p2p", "{event}");','std::fs::write("/tmp/zz-ev", event.to_string()).ok();','M05'),
('pure-rng-new',F,"let invmgr = InventoryManager::new(rng, clock.clone());","let invmgr = InventoryManager::new(fastrand::Rng::new(), clock.clone());",'M05'),
]
