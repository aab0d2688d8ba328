F='p2p/src/fsm.rs'; O='p2p/src/fsm/output.rs'
def R(name,f,*ed): return (name,f,[e[0] for e in ed],[e[1] for e in ed],'ok')
def body(f,a,b,new):
    s=open('/repo/'+f).read(); i=s.index(a); j=s.index(b,i); return (s[i:j],new)
M=[
R('next-chain',F,body(F,"        let next = self\n            .outbox","        match next {","""        let io = match self.outbox.next() {
            Some(io) => Some(io),
            None => self
                .peermgr
                .next()
                .or_else(|| self.syncmgr.next())
                .or_else(|| self.invmgr.next())
                .or_else(|| self.pingmgr.next())
                .or_else(|| self.addrmgr.next())
                .or_else(|| self.cbfmgr.next()),
        }?;
        let next = Some(match io {
            output::Io::Write(addr, payload) => {
                let magic = self.network.magic();
                Io::Write(addr, RawNetworkMessage { magic, payload })
            }
            output::Io::Connect(addr) => Io::Connect(addr),
            output::Io::Disconnect(addr, reason) => Io::Disconnect(addr, reason),
            output::Io::SetTimer(t) => Io::SetTimer(t),
            output::Io::Event(e) => Io::Event(e),
        });

""")),
R('next-iflet',F,("        match next {\n            Some(Io::Event(e)) => {\n                self.event(e.clone());\n\n                Some(Io::Event(e))\n            }\n            other => other,\n        }","        if let Some(Io::Event(ref e)) = next {\n            self.event(e.clone());\n        }\n        next")),
R('next-helper',F,("            .map(|io| match io {\n                output::Io::Write(addr, payload) => Io::Write(\n                    addr,\n                    RawNetworkMessage {\n                        magic: self.network.magic(),\n                        payload,\n                    },\n                ),\n                output::Io::Connect(addr) => Io::Connect(addr),\n                output::Io::Disconnect(addr, reason) => Io::Disconnect(addr, reason),\n                output::Io::SetTimer(t) => Io::SetTimer(t),\n                output::Io::Event(e) => Io::Event(e),\n            });","            .map(|io| seal(self.network.magic(), io));"),("/// Peer whitelist.\n","fn seal(magic: u32, io: output::Io) -> Io {\n    match io {\n        output::Io::Write(addr, payload) => Io::Write(addr, RawNetworkMessage { magic, payload }),\n        output::Io::Connect(addr) => Io::Connect(addr),\n        output::Io::Disconnect(addr, reason) => Io::Disconnect(addr, reason),\n        output::Io::SetTimer(t) => Io::SetTimer(t),\n        output::Io::Event(e) => Io::Event(e),\n    }\n}\n\n/// Peer whitelist.\n")),
R('broadcast-iter',F,body(F,"        let mut peers = Vec::new();\n\n        for peer in","    }\n}\n\nimpl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> Iterator","""        let peers: Vec<PeerId> = self
            .peermgr
            .peers()
            .map(Peer::from)
            .filter(|p| predicate(p))
            .map(|p| p.addr)
            .collect();

        for addr in &peers {
            self.outbox.message(*addr, msg.clone());
        }
        peers
""")),
R('broadcast-cont',F,("            if predicate(&peer) {\n                peers.push(peer.addr);\n                self.outbox.message(peer.addr, msg.clone());\n            }","            if !predicate(&peer) {\n                continue;\n            }\n            self.outbox.message(peer.addr, msg.clone());\n            peers.push(peer.addr);")),
R('getpeers-and',F,("                    .filter(|(p, _)| p.is_negotiated())\n                    .filter(|(p, _)| p.services.has(services))\n                    .map(Peer::from)","                    .filter(|(p, _)| p.is_negotiated() && p.services.has(services))\n                    .map(Peer::from)")),
R('getpeers-loop',F,body(F,"                let peers = self\n                    .peermgr\n                    .peers()\n                    .filter","                reply.send(peers).ok();","""                let mut peers = Vec::new();
                for (p, conn) in self.peermgr.peers() {
                    if p.services.has(services) && p.is_negotiated() {
                        peers.push(Peer::from((p, conn)));
                    }
                }

""")),
R('import-direct',F,("                match result {\n                    Ok(import_result) => {\n                        reply.send(Ok(import_result)).ok();\n                    }\n                    Err(err) => {\n                        reply.send(Err(err)).ok();\n                    }\n                }","                reply.send(result).ok();")),
R('submit-match',F,("                if let Some(peers) = NonEmpty::from_vec(peers) {\n                    reply.send(Ok(peers)).ok();\n                } else {\n                    reply.send(Err(CommandError::NotConnected)).ok();\n                }","                let result = NonEmpty::from_vec(peers).ok_or(CommandError::NotConnected);\n                reply.send(result).ok();")),
R('rescan-iter',F,("                for (_, hash) in self.cbfmgr.rescan(from, to, watch, &self.tree) {\n                    self.invmgr.get_block(hash);\n                }","                let matches = self.cbfmgr.rescan(from, to, watch, &self.tree);\n                matches\n                    .into_iter()\n                    .for_each(|(_, hash)| self.invmgr.get_block(hash));")),
R('gettip',F,("                let (_, header) = self.tree.tip();\n                let height = self.tree.height();\n                let chainwork = self.tree.chain_work();\n\n                reply.send((height, header, chainwork)).ok();","                let chainwork = self.tree.chain_work();\n                let tip = self.tree.tip();\n\n                reply.send((self.tree.height(), tip.1, chainwork)).ok();")),
R('getblock',F,("                let header = self.tree.get_block(&hash).map(|(k, v)| (k, *v));\n\n                reply.send(header).ok();","                let result = match self.tree.get_block(&hash) {\n                    Some((height, header)) => Some((height, *header)),\n                    None => None,\n                };\n                reply.send(result).ok();")),
R('imp-addrs',F,("                self.addrmgr.insert(\n                    // Nb. For imported addresses, the time last active is not relevant.\n                    addrs.into_iter().map(|a| (BlockTime::default(), a)),\n                    peer::Source::Imported,\n                );","                let source = peer::Source::Imported;\n                let addrs = addrs.into_iter().map(|a| (0 as BlockTime, a));\n                self.addrmgr.insert(addrs, source);")),
R('msg-else',F,body(F,"        if msg.magic != self.network.magic() {","        debug!(target: \"p2p\", \"Received {:?} from {}\", cmd, addr);","""        let magic = self.network.magic();
        if magic != msg.magic {
            self.peermgr
                .disconnect(addr, DisconnectReason::PeerMagic(msg.magic));
            return;
        }
        let known = self.peermgr.is_connected(&addr);
        if !known {
            return;
        }

""")),
R('msg-hook-match',F,body(F,"        if let Err(err) = (self.hooks.on_message)","    fn attempted","""        let verdict = (self.hooks.on_message)(addr, &msg.payload, &self.outbox);
        match verdict {
            Err(err) => {
                debug!(target: "p2p", "Message {:?} from {} dropped by user hook: {}", cmd, addr, err);
            }
            Ok(()) => {
                let message = Arc::new(msg.payload);
                self.event(Event::MessageReceived { from: addr, message });
            }
        }
    }

""")),
R('init-order',F,("        self.outbox.event(Event::Initializing);\n        self.addrmgr.initialize();","        self.addrmgr.initialize();\n        self.outbox.event(Event::Initializing);")),
R('init-let',F,("        self.outbox.event(Event::Ready {\n            tip: self.tree.height(),\n            filter_tip: self.cbfmgr.filters.height(),\n            time,\n        });","        let tip = self.tree.height();\n        let filter_tip = self.cbfmgr.filters.height();\n        self.outbox.event(Event::Ready {\n            tip,\n            filter_tip,\n            time,\n        });")),
R('timer-order',F,("        self.invmgr.timer_expired(&self.tree);\n        self.syncmgr.timer_expired(&self.tree);\n        self.pingmgr.timer_expired();","        self.pingmgr.timer_expired();\n        self.invmgr.timer_expired(&self.tree);\n        self.syncmgr.timer_expired(&self.tree);")),
R('event-helper',F,("        self.addrmgr.received_event(e.clone());\n        self.peermgr.received_event(e, &self.tree);","        self.addrmgr.received_event(e.clone());\n        self.tell_peermgr(e);"),("    /// Process a user command.","    fn tell_peermgr(&mut self, e: Event) {\n        self.peermgr.received_event(e, &self.tree);\n    }\n\n    /// Process a user command.")),
R('new-lets',F,("                preferred_services: syncmgr::REQUIRED_SERVICES | cbfmgr::REQUIRED_SERVICES,","                preferred_services: cbfmgr::REQUIRED_SERVICES | syncmgr::REQUIRED_SERVICES,")),
R('cmd-split',F,body(F,"            Command::Connect(addr) => {","            Command::Disconnect","            Command::Connect(addr) => self.command_connect(addr),\n"),("    /// Process a user command.","    fn command_connect(&mut self, addr: net::SocketAddr) {\n        self.peermgr.whitelist(addr);\n        self.peermgr.connect(&addr);\n    }\n\n    /// Process a user command.")),
R('whitelist-or',F,("        self.addr.contains(addr) || self.user_agent.contains(user_agent)","        if self.user_agent.contains(user_agent) {\n            return true;\n        }\n        self.addr.contains(addr)")),
R('out-connect',O,("        self.push(Io::Connect(addr));\n        self.push(Io::SetTimer(timeout));","        self.push(Io::Connect(addr));\n        self.set_timer(timeout);")),
R('out-extend',O,("        self.push(Io::Connect(addr));\n        self.push(Io::SetTimer(timeout));","        for io in [Io::Connect(addr), Io::SetTimer(timeout)] {\n            self.push(io);\n        }")),
R('out-message',O,("        self.push(Io::Write(addr, payload));\n        self\n    }\n\n    /// Push an event","        let io = Io::Write(addr, payload);\n        self.outbound.push_back(io);\n        self\n    }\n\n    /// Push an event")),
R('out-event',O,("        self.push(Io::Event(event.into()));","        let event: Event = event.into();\n        self.push(Io::from(event));")),
R('out-getcfh',O,("        self.message(\n            addr,\n            NetworkMessage::GetCFHeaders(GetCFHeaders {\n                filter_type: 0x0,\n                start_height: start_height as u32,\n                stop_hash,\n            }),\n        );\n        self.set_timer(timeout);","        let start_height = start_height as u32;\n        let request = GetCFHeaders {\n            filter_type: 0,\n            start_height,\n            stop_hash,\n        };\n        self.set_timer(timeout);\n        self.message(addr, NetworkMessage::GetCFHeaders(request));")),
R('out-getheaders',O,body(O,"        let msg = NetworkMessage::GetHeaders(GetHeadersMessage {","    /// Send headers to a peer.","""        let version = self.version;
        let request = GetHeadersMessage {
            version,
            locator_hashes,
            stop_hash,
        };
        self.push(Io::Write(addr, NetworkMessage::GetHeaders(request)));
    }

""")),
]
