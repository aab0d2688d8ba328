P='p2p/src/fsm/peermgr.rs'; G='p2p/src/fsm/pingmgr.rs'; A='p2p/src/fsm/addrmgr.rs'
M=[
# P01
('a1',P,"                self.clock.record_offset(*addr, peer.time_offset);\n","                if conn.link.is_outbound() {\n                    self.clock.record_offset(*addr, peer.time_offset);\n                }\n",'P01'),
('a2',P,"                    height: peer.height,\n                    version: peer.version,","                    height: peer.height,\n                    version: self.config.protocol_version,",'P01'),
('a3',P,"        if let Some(Peer::Connected { conn, peer: None }) = self.peers.get(addr) {","        if let Some(Peer::Connected { conn, .. }) = self.peers.get(addr) {",'P01'),
('a4',P,"time_offset: timestamp.saturating_sub(now.block_time() as i64),","time_offset: (now.block_time() as i64).saturating_sub(timestamp),",'P01,T01'),
('a5',P,"                        height: start_height,\n                        time_offset","                        height: start_height.max(height),\n                        time_offset",'P01'),
('a6',P,"                peer.state = HandshakeState::ReceivedVerack {\n                    since: self.clock.local_time(),\n                };","                if conn.link.is_outbound() {\n                    peer.state = HandshakeState::ReceivedVerack {\n                        since: self.clock.local_time(),\n                    };\n                }",'P01'),
('a7',P,"HandshakeState::ReceivedVersion { .. } => peer.wtxidrelay = true,","HandshakeState::ReceivedVersion { .. } => {\n                    peer.wtxidrelay = peer.version >= self.config.protocol_version\n                }",'P01'),
# P02
('b1',P,"            if version < super::MIN_PROTOCOL_VERSION {","            if version < super::MIN_PROTOCOL_VERSION && !trusted {",'P02'),
('b2',P,"height.saturating_sub(start_height) > MAX_STALE_HEIGHT_DIFFERENCE","height.saturating_sub(start_height) >= MAX_STALE_HEIGHT_DIFFERENCE",'P02'),
('b3',P,"                && self.negotiated(Link::Outbound).count() >= target\n","                && self.negotiated(Link::Outbound).count() > target\n",'P02'),
('b4',P,"                && self.negotiated(Link::Outbound).count() >= target\n","                && self.connected().count() >= target\n",'P02'),
('b5',P,"                || addrmgr::is_local(&addr.ip());","                && addrmgr::is_local(&addr.ip());",'P02'),
('b6',P,"            if let Err(reason) = (*self.hooks.on_version)(*addr, msg) {\n                return Err","            if let (false, Err(reason)) = (trusted, (*self.hooks.on_version)(*addr, msg)) {\n                return Err",'P02'),
('b7',P,"            let start_height = Height::try_from(start_height).unwrap_or_default();","            let start_height = Height::try_from(start_height).unwrap_or(height);",'P02'),
('b8',P,"conn.link.is_inbound() && self.connected().any(|c| c.nonce == Some(nonce))","conn.link.is_inbound()\n                && self.connected().any(|c| c.link.is_inbound() && c.nonce == Some(nonce))",'P02'),
# P03
('c1',P,"                    self.outbox\n                        .wtxid_relay(conn.addr)\n                        .verack(conn.addr)\n                        .send_headers(conn.addr)\n                        .set_timer(HANDSHAKE_TIMEOUT);\n                }\n            }","                    self.outbox\n                        .verack(conn.addr)\n                        .wtxid_relay(conn.addr)\n                        .send_headers(conn.addr)\n                        .set_timer(HANDSHAKE_TIMEOUT);\n                }\n            }",'P03'),
('c2',P,"self.version(conn.addr, conn.local_addr, nonce, height, now)","self.version(conn.addr, conn.local_addr, nonce, start_height, now)",'P03'),
('c3',P,"            services: self.config.services,\n            // Local time.","            services: self.config.required_services,\n            // Local time.",'P03'),
('c4',P,"        self.outbox.set_timer(HANDSHAKE_TIMEOUT);\n        self.outbox.event(Event::PeerConnected","        if link.is_outbound() {\n            self.outbox.set_timer(HANDSHAKE_TIMEOUT);\n        }\n        self.outbox.event(Event::PeerConnected",'P03'),
# P04
('d1',P,"                    > self.config.max_inbound_peers","                    >= self.config.max_inbound_peers",'P04'),
('d2',P,"        if self.is_connected(addr) || self.is_connecting(addr) {\n            return true;","        if self.is_connected(addr) && !self.is_inbound(addr) || self.is_connecting(addr) {\n            return true;",'P04'),
('d3',P,"        let unknown = connecting + connected;","        let unknown = connected;",'P04'),
('d4',P,"        if !self.config.domains.contains(&Domain::for_address(addr)) {","        if !self.config.domains.contains(&Domain::for_address(addr))\n            && !self.config.persistent.contains(addr)\n        {",'P04'),
('d5',P,"        while connecting.len() < delta {","        while connecting.len() <= delta {",'P04'),
('d6',P,"        while connecting.len() < delta {\n            if let Some","        while connecting.len() < delta.min(1) {\n            if let Some",'P04'),
('d7',P,"                if let Ok(sockaddr) = addr.socket_addr() {","                if let (true, Ok(sockaddr)) = (negotiated < target, addr.socket_addr()) {",'?'),
# P05
('e1',P,"                    if local_time - since >= HANDSHAKE_TIMEOUT {\n                        timed_out.push((conn.addr, \"handshake\"));","                    if conn.link.is_outbound() && local_time - since >= HANDSHAKE_TIMEOUT {\n                        timed_out.push((conn.addr, \"handshake\"));",'P05'),
('e2',P,"            if local_time - connected.since >= HANDSHAKE_TIMEOUT {","            if connected.nonce.is_none() && local_time - connected.since >= HANDSHAKE_TIMEOUT {",'P05'),
('e3',P,"            self.outbox.set_timer(IDLE_TIMEOUT);\n            self.last_idle = Some(local_time);","            if self.delta() > 0 {\n                self.outbox.set_timer(IDLE_TIMEOUT);\n            }\n            self.last_idle = Some(local_time);",'P05'),
('e4',P,"                if now - *time >= CONNECTION_TIMEOUT {","                if now - *time > CONNECTION_TIMEOUT {",'P05'),
('e5',P,"        for (addr, reason) in timed_out {\n            self._disconnect(addr, DisconnectReason::PeerTimeout(reason));","        for (addr, reason) in timed_out {\n            self.disconnect(addr, DisconnectReason::PeerTimeout(reason));",'P05'),
# P06
('f1',P,"        *attempts += 1;\n","        *attempts = (*attempts + 1) % 32;\n",'P06'),
('f2',P,"                if *t <= local_time {\n                    *retry_at = None;","                if *t <= local_time {",'P06'),
('f3',P,"        self.outbox.set_timer(delay);\n    }","        self.outbox.set_timer(self.config.retry_max_wait);\n    }",'P06'),
('f4',P,"            if !self.connect(&addr) {\n                log::error!","            if self.is_disconnected(&addr) && !self.connect(&addr) {\n                log::error!",'?'),
('f5',P,"        self.disconnected.remove(&addr);\n\n        match link {","        if link.is_outbound() {\n            self.disconnected.remove(&addr);\n        }\n\n        match link {",'?'),
('f6',P,"        if self.config.persistent.contains(addr) {\n            self.persistent_disconnected(addr, local_time);","        if self.config.persistent.contains(addr) && self.peers.remove(addr).is_some() {\n            self.persistent_disconnected(addr, local_time);",'P06'),
('f7',P,"LocalDuration::from_secs(2u64.saturating_pow(*attempts as u32))","LocalDuration::from_secs(2u64.saturating_mul(*attempts as u64))",'P06'),
# P07
('g1',P,"        if self.is_connected(&addr) {\n            self._disconnect(addr, reason);","        if !self.is_disconnected(&addr) {\n            self._disconnect(addr, reason);",'P07'),
('g2',P,"        self.peers.insert(addr, Peer::Disconnecting);","        if self.is_connected(&addr) {\n            self.peers.insert(addr, Peer::Disconnecting);\n        }",'P07,P05'),
('g3',P,"        if self.is_disconnecting(addr) || self.is_connected(addr) {\n            self.outbox.event","        if self.is_connected(addr) {\n            self.outbox.event",'P07'),
('g4',P,"        self.peers.remove(addr);\n\n        if self.config.persistent","        if self.is_connected(addr) || self.is_disconnecting(addr) {\n            self.peers.remove(addr);\n        }\n\n        if self.config.persistent",'P07'),
# P08
('h1',G,"            if now - since >= self.ping_timeout {","            if now - since >= self.ping_timeout + PING_INTERVAL {",'P08'),
('h1b',G,"                    if now - since >= self.ping_timeout {\n                        self.outbox","                    if now - since >= self.ping_timeout && !peer.latencies.is_empty() {\n                        self.outbox",'P08'),
('h2',G,"                    if nonce == last_nonce {\n","                    if nonce == last_nonce || peer.latencies.is_empty() {\n",'P08'),
('h3',G,"                        peer.state = State::AwaitingPong { nonce, since: now };","                        peer.state = State::AwaitingPong { nonce, since };",'P08'),
('h4',G,"                        let nonce = self.rng.u64(..);\n\n                        self.outbox","                        let nonce = peer.latencies.len() as u64;\n\n                        self.outbox",'P08'),
('h5',G,"                            .set_timer(self.ping_timeout)\n                            .set_timer(PING_INTERVAL);","                            .set_timer(PING_INTERVAL);",'P08'),
# A01
('i1',A,"            if LocalTime::from_block_time(last_active) > time + LocalDuration::from_mins(60) {","            if source != Source::Imported\n                && LocalTime::from_block_time(last_active) > time + LocalDuration::from_mins(60)\n            {",'A01'),
('i2',A,"            if self.local_addrs.contains(&net_addr) {","            if self.local_addrs.contains(&net_addr) && source != Source::Dns {",'A01'),
('i3',A,"            if self.bans.contains(&ip) {\n                continue;\n            }","            if self.bans.contains(&ip) && !self.connected.contains(&ip) {\n                continue;\n            }",'A01'),
('i4',A,"        if addrs.is_empty() || addrs.len() > MAX_ADDR_ADDRESSES {\n            // Peer misbehaving, got empty message or too many addresses.\n            return;\n        }\n        self.insert(addrs,","        if addrs.is_empty() {\n            return;\n        }\n        self.insert(addrs.into_iter().take(MAX_ADDR_ADDRESSES),",'A01'),
('i5',A,"            if !self::is_routable(&ip) {\n                continue;\n            }\n","            if !self::is_routable(&ip) && source != Source::Imported {\n                continue;\n            }\n",'A01'),
('i6',A,"addr.services.has(ServiceFlags::GETUTXO) || addr.services.has(ServiceFlags::BLOOM)","addr.services.has(ServiceFlags::GETUTXO | ServiceFlags::BLOOM)",'A01'),
('i7',A,"KnownAddress::new(addr.clone(), source, last_active)","KnownAddress::new(addr.clone(), source, last_active.or(Some(time)))",'A01'),
('i8',A,"                if let Ok(addr) = receiver.socket_addr() {\n                    self.local_addrs.insert(addr);\n                }\n","                if let (true, Ok(addr)) = (link.is_outbound(), receiver.socket_addr()) {\n                    self.local_addrs.insert(addr);\n                }\n",'A01'),
# A02
('j1',A,"        if range.len() == MAX_RANGE_SIZE {","        if range.len() > MAX_RANGE_SIZE {",'A02'),
('j2',A,"            range.remove(&addr);\n            self.peers.remove(&addr);\n        }\n        range.insert","            range.remove(&addr);\n            if !self.connected.contains(&addr) {\n                self.peers.remove(&addr);\n            }\n        }\n        range.insert",'A02'),
('j3',A,"        for ip in ips.iter() {\n            addrmgr","        for ip in ips.iter().filter(|ip| !is_local(ip)) {\n            addrmgr",'A02'),
('j4',A,"            if range.is_empty() {\n                self.address_ranges.remove(&key);\n            }\n            return true;","            return true;",'A02,A03'),
('j5',A,"                ka.last_active.map(|t| t.block_time()).unwrap_or_default(),","                ka.last_success.map(|t| t.block_time()).unwrap_or_default(),",'A02'),
# A03
('k1',A,"                if !r.is_transient() {\n                    self.ban(&addr.ip());","                if !r.is_transient() && self.sources.len() > 1 {\n                    self.ban(&addr.ip());",'A03'),
('k2',A,"            } else if reason.is_dial_err() {","            } else {",'A03'),
('k3',A,"        if self.connected.remove(&addr.ip()) {\n","        if self.connected.remove(&addr.ip()) && self.sources.contains(addr) {\n",'A03'),
('k4',A,"        if link.is_outbound() {\n            self.sources.insert(*addr);\n        }","        self.sources.insert(*addr);",'A03'),
('k5',A,"            if ka.last_success.is_none() {\n                self.outbox.get_addr(*addr);\n            }","            if ka.last_success.is_none() && ka.last_attempt.is_none() {\n                self.outbox.get_addr(*addr);\n            }",'?'),
('k6',A,"            ka.last_attempt = Some(time);","            ka.last_attempt.get_or_insert(time);",'A03'),
('k7',A,"            ka.last_success = Some(time);\n            ka.last_active = Some(time);","            if link.is_outbound() {\n                ka.last_success = Some(time);\n            }\n            ka.last_active = Some(time);",'A03'),
# A04
('l1',A,"                if ka.last_attempt.is_some() && ka.last_success.is_none() {","                if ka.last_attempt.is_some() && ka.last_success.is_none() && ka.source != Source::Dns {",'A04'),
('l2',A,"                ka.last_sampled = Some(time);\n\n                return","                if ka.last_success.is_none() {\n                    ka.last_sampled = Some(time);\n                }\n\n                return",'A04'),
('l3',A,"        self.rng.shuffle(&mut ranges);\n","        self.rng.shuffle(&mut ranges);\n        ranges.truncate(16);\n",'A04'),
('l4',A,"                if self.connected.contains(ip) {\n                    continue;","                if self.connected.contains(ip) {\n                    break;",'A04'),
('l5',A,"            self.get_addresses();\n            self.last_request = Some(local_time);","            if !self.sources.is_empty() {\n                self.last_request = Some(local_time);\n            }\n            self.get_addresses();",'A04'),
('l6',A,"        for peer in &self.sources {\n            self.outbox.get_addr(*peer);","        for peer in self.sources.iter().take(8) {\n            self.outbox.get_addr(*peer);",'A04'),
('l7',A,"        if let Err(err) = self.peers.flush() {\n            self.outbox.error(err);\n        }\n        self.last_idle","        if self.last_idle.is_some() {\n            if let Err(err) = self.peers.flush() {\n                self.outbox.error(err);\n            }\n        }\n        self.last_idle",'?'),
]
