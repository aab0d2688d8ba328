P='p2p/src/fsm/peermgr.rs'
G='p2p/src/fsm/pingmgr.rs'
M=[
('v-again',P,'Some(Peer::Connected { conn, peer: None }) = self.peers.get(addr)','Some(Peer::Connected { conn, .. }) = self.peers.get(addr)','P01'),
('a-state',P,'            if let HandshakeState::ReceivedVersion { .. } = peer.state {\n                self.outbox.event(Event::PeerNeg','            if !peer.is_negotiated() || conn.link.is_inbound() {\n                self.outbox.event(Event::PeerNeg','P01'),
('a-off',P,'self.clock.record_offset(*addr, peer.time_offset);','if conn.link.is_outbound() {\n                    self.clock.record_offset(*addr, peer.time_offset);\n                }','P01'),
('w-any',P,'''            match peer.state {
                HandshakeState::ReceivedVersion { .. } => peer.wtxidrelay = true,
                _ => self''','''            peer.wtxidrelay = true;
            match peer.state {
                HandshakeState::ReceivedVersion { .. } => {}
                _ => self''','P01'),
('v-min',P,'version: u32::min(self.config.protocol_version, version)','version','P01'),
('v-relay',P,'                        relay,\n                        wtxidrelay: false','                        relay: relay || persistent,\n                        wtxidrelay: false','P01'),
('v-old',P,'if version < super::MIN_PROTOCOL_VERSION {','if version < super::MIN_PROTOCOL_VERSION && !trusted {','P02'),
('v-svc',P,'if conn.link.is_outbound() && !services.has(self.config.required_services) && !trusted {','if conn.link.is_outbound() && services == ServiceFlags::NONE && !trusted {','P02'),
('v-svc2',P,'if conn.link.is_outbound() && !services.has(self.config.required_services) && !trusted {','if !services.has(self.config.required_services) && !trusted {','P02'),
('v-stale',P,'height.saturating_sub(start_height) > MAX_STALE_HEIGHT_DIFFERENCE','height.saturating_sub(start_height) > MAX_STALE_HEIGHT_DIFFERENCE * 2','P02'),
('v-stale2',P,'height.saturating_sub(start_height) > MAX_STALE_HEIGHT_DIFFERENCE','start_height.saturating_sub(height) > MAX_STALE_HEIGHT_DIFFERENCE','P02'),
('v-self',P,'if conn.link.is_inbound() && self.connected().any(|c| c.nonce == Some(nonce)) {','if conn.link.is_inbound() && self.peers().any(|(_, c)| c.nonce == Some(nonce)) {','?'),
('v-self2',P,'if conn.link.is_inbound() && self.connected().any(|c| c.nonce == Some(nonce)) {','if conn.link.is_inbound() && self.connected().any(|c| c.nonce == Some(nonce) && c.addr == *addr) {','?'),
('v-lim',P,'self.negotiated(Link::Outbound).count() >= target\n','self.negotiated(Link::Outbound).count() > target\n','P02'),
('v-lim2',P,'self.negotiated(Link::Outbound).count() >= target\n','self.negotiated(Link::Inbound).count() >= target\n','P02'),
('v-hook',P,'if let Err(reason) = (*self.hooks.on_version)(*addr, msg) {','if let (Err(reason), false) = ((*self.hooks.on_version)(*addr, msg), trusted) {','P02'),
('v-order',P,'''                    self.outbox
                        .wtxid_relay(conn.addr)
                        .verack(conn.addr)
                        .send_headers(conn.addr)
                        .set_timer(HANDSHAKE_TIMEOUT);''','''                    self.outbox
                        .verack(conn.addr)
                        .wtxid_relay(conn.addr)
                        .send_headers(conn.addr)
                        .set_timer(HANDSHAKE_TIMEOUT);''','P03'),
('v-timer',P,'''                    self.outbox
                        .wtxid_relay(conn.addr)
                        .verack(conn.addr)
                        .send_headers(conn.addr)
                        .set_timer(HANDSHAKE_TIMEOUT);''','''                    self.outbox
                        .wtxid_relay(conn.addr)
                        .verack(conn.addr)
                        .send_headers(conn.addr);''','P03'),
('v-sender',P,'sender: Address::new(&local_addr, self.config.services)','sender: Address::new(&addr, self.config.services)','P03'),
('c-timer',P,'''        // Set a timeout for receiving the `version` message.
        self.outbox.set_timer(HANDSHAKE_TIMEOUT);''','''        if link.is_outbound() {
            self.outbox.set_timer(HANDSHAKE_TIMEOUT);
        }''','P03'),
('c-lim',P,'''                if self.connected().filter(|c| c.link.is_inbound()).count()
                    > self.config.max_inbound_peers''','''                if self.connected().filter(|c| c.link.is_inbound()).count()
                    > self.config.max_inbound_peers + 1''','P04'),
('c-lim2',P,'self.connected().filter(|c| c.link.is_inbound()).count()','self.negotiated(Link::Inbound).count()','P04'),
('d-dom',P,'''        if !self.config.domains.contains(&Domain::for_address(addr)) {
            return false;''','''        if !self.config.domains.contains(&Domain::for_address(addr)) && !self.config.domains.is_empty() {
            return false;''','P04'),
('d-dup',P,'if self.is_connected(addr) || self.is_connecting(addr) {','if self.is_connected(addr) {','P04'),
('d-timer',P,'self.outbox.connect(*addr, CONNECTION_TIMEOUT);','self.outbox.connect(*addr, HANDSHAKE_TIMEOUT);','P04'),
('d-max',P,'let max = target + target / 2;','let max = target + target;','P04'),
('d-max2',P,'if total > max || primary + unknown > target {','if total > max {','P04'),
('d-min',P,'usize::min(max - total, target - (primary + unknown))','usize::max(max - total, target - (primary + unknown))','P04'),
('d-conn',P,'let unknown = connecting + connected;','let unknown = connected;','P04'),
('d-pers',P,'''        if !self.config.persistent.is_empty() {
            return;
        }
''','','P04'),
('d-pref',P,'if negotiated < target {','if negotiated <= target {','P04'),
('t-conn',P,'if now - *time >= CONNECTION_TIMEOUT {','if now - *time >= IDLE_TIMEOUT {','P05'),
('t-ver',P,'if local_time - connected.since >= HANDSHAKE_TIMEOUT {','if local_time - connected.since >= HANDSHAKE_TIMEOUT && connected.link.is_outbound() {','P05'),
('t-vk',P,'''                    if local_time - since >= HANDSHAKE_TIMEOUT {
                        timed_out.push((conn.addr, "handshake"));
                    }''','''                    if local_time - since >= HANDSHAKE_TIMEOUT && !peer.persistent {
                        timed_out.push((conn.addr, "handshake"));
                    }''','P05'),
('t-first',P,'''        for (addr, reason) in timed_out {
            self._disconnect(''','''        for (addr, reason) in timed_out.into_iter().take(4) {
            self._disconnect(''','P05'),
('t-idle',P,'''            self.maintain_connections(addrs);
            self.outbox.set_timer(IDLE_TIMEOUT);
            self.last_idle''','''            self.maintain_connections(addrs);
            self.last_idle''','P05'),
('t-pers',P,'''            self.last_idle = Some(local_time);
        }
        self.maintain_persistent();''','''            self.last_idle = Some(local_time);
            self.maintain_persistent();
        }''','P05'),
('r-pow',P,'2u64.saturating_pow(*attempts as u32)','2u64 * *attempts as u64','P06'),
('r-clamp',P,'.clamp(self.config.retry_min_wait, self.config.retry_max_wait);','.max(self.config.retry_min_wait);','P06'),
('r-timer',P,'        self.outbox.set_timer(delay);\n','        if *attempts == 1 { self.outbox.set_timer(delay); }\n','P06'),
('r-late',P,'if *t <= local_time {','if *t < local_time {','P06'),
('r-only',P,'        if self.config.persistent.contains(addr) {\n            self.persistent','        if self.config.persistent.contains(addr) && self.peers.is_empty() {\n            self.persistent','P06'),
('r-rm',P,'        self.disconnected.remove(&addr);\n','','P06'),
('x-mis',P,'self.disconnect(addr, DisconnectReason::PeerMisbehaving(reason));','if !self.config.persistent.contains(&addr) { self.disconnect(addr, DisconnectReason::PeerMisbehaving(reason)); }','P07'),
('x-state',P,'''        self.outbox.disconnect(addr, reason);
        self.peers.insert(addr, Peer::Disconnecting);''','''        self.outbox.disconnect(addr, reason);''','P07'),
('x-ev',P,'if self.is_disconnecting(addr) || self.is_connected(addr) {','if self.is_connected(addr) {','P07'),
('x-dis',P,'        if self.is_connected(&addr) {\n            self._disconnect','        if !self.is_disconnected(&addr) {\n            self._disconnect','P07'),
('g-nonce',G,'if nonce == last_nonce {','if nonce == last_nonce || nonce == 0 {','P08'),
('g-known',G,'if self.peers.contains_key(&addr) {\n            self.outbox.pong','if !self.peers.is_empty() {\n            self.outbox.pong','P08'),
('g-trunc',G,'        self.latencies.truncate(MAX_RECORDED_LATENCIES);\n','','P08'),
('g-since',G,'if now - since >= self.ping_timeout {','if now - since >= self.ping_timeout && !peer.latencies.is_empty() {','P08'),
('g-timer',G,'                            .set_timer(self.ping_timeout)\n','','P08'),
('g-state',G,'peer.state = State::AwaitingPong { nonce, since: now };','peer.state = State::AwaitingPong { nonce, since };','P08'),
('g-rm',G,'self.peers.remove(&addr);','if self.peers.len() > 1 { self.peers.remove(&addr); }','P08'),
# refactorings
('ok-delta',P,'''        if total > max || primary + unknown > target {
            return 0;
        }

        usize::min(max - total, target - (primary + unknown))''','''        let wanted = primary + unknown;
        if total <= max && wanted <= target {
            (max - total).min(target - wanted)
        } else {
            0
        }''','ok'),
('ok-timeout',P,'''        for connected in self.peers.values().filter_map(|c| match c {
            Peer::Connected { conn, peer: None } => Some(conn),
            _ => None,
        }) {
            if local_time - connected.since >= HANDSHAKE_TIMEOUT {
                timed_out.push((connected.addr, "handshake"));
            }
        }''','''        for c in self.peers.values() {
            if let Peer::Connected { conn, peer: None } = c {
                if local_time - conn.since < HANDSHAKE_TIMEOUT {
                    continue;
                }
                timed_out.push((conn.addr, "handshake"));
            }
        }''','ok'),
('ok-idle',P,'''        for addr in self.idle_peers(local_time).collect::<Vec<_>>() {
            timed_out.push((addr, "connection"));
        }''','''        timed_out.extend(self.idle_peers(local_time).map(|addr| (addr, "connection")));''','ok'),
('ok-version',P,'''            match conn.link {
                Link::Inbound => {
                    self.outbox
                        .version(
                            conn.addr,
                            self.version(conn.addr, conn.local_addr, nonce, height, now),
                        )
                        .wtxid_relay(conn.addr)
                        .verack(conn.addr)
                        .send_headers(conn.addr)
                        .set_timer(HANDSHAKE_TIMEOUT);
                }
                Link::Outbound => {
                    self.outbox
                        .wtxid_relay(conn.addr)
                        .verack(conn.addr)
                        .send_headers(conn.addr)
                        .set_timer(HANDSHAKE_TIMEOUT);
                }
            }''','''            if conn.link.is_inbound() {
                let v = self.version(conn.addr, conn.local_addr, nonce, height, now);
                self.outbox.version(conn.addr, v);
            }
            self.outbox
                .wtxid_relay(*addr)
                .verack(*addr)
                .send_headers(*addr)
                .set_timer(HANDSHAKE_TIMEOUT);''','ok'),
('ok-verack',P,'''            if let HandshakeState::ReceivedVersion { .. } = peer.state {
                self.outbox.event(Event::PeerNegotiated {''','''            let expected = match peer.state {
                HandshakeState::ReceivedVersion { .. } => true,
                HandshakeState::ReceivedVerack { .. } => false,
            };
            if expected {
                self.outbox.event(Event::PeerNegotiated {''','ok'),
('ok-helper',P,'''            // Don't support peers with too old of a protocol version.
            if version < super::MIN_PROTOCOL_VERSION {
                return Err(DisconnectReason::PeerProtocolVersion(version));
            }
''','''            Self::check_version(version)?;
''','ok2'),
('ok-connect',P,'''        if self.is_connected(addr) || self.is_connecting(addr) {
            return true;
        }
        if !self.is_disconnected(addr) && !self.is_disconnecting(addr) {
            return false;
        }''','''        match self.peers.get(addr) {
            Some(Peer::Connected { .. }) | Some(Peer::Connecting { .. }) => return true,
            Some(Peer::Disconnecting) | None => {}
        }''','ok'),
('ok-persist',P,'''        for (addr, (retry_at, _)) in &mut self.disconnected {
            if let Some(t) = retry_at {
                if *t <= local_time {
                    *retry_at = None;
                    reconnect.push(*addr);
                }
            }
        }''','''        for (addr, (retry_at, _)) in self.disconnected.iter_mut() {
            let due = matches!(retry_at, Some(t) if *t <= local_time);
            if due {
                reconnect.push(*addr);
                retry_at.take();
            }
        }''','ok'),
('ok-clamp',P,'''            .clamp(self.config.retry_min_wait, self.config.retry_max_wait);''','''            .min(self.config.retry_max_wait)
            .max(self.config.retry_min_wait);''','ok'),
('ok-ping',G,'''        for peer in self.peers.values_mut() {
            match peer.state {''','''        for (_, peer) in self.peers.iter_mut() {
            match peer.state {''','ok'),
('ok-inlim',P,'''                if self.connected().filter(|c| c.link.is_inbound()).count()
                    >= self.config.max_inbound_peers
                {''','''                let mut n = 0;
                for c in self.connected() {
                    if c.link.is_inbound() {
                        n += 1;
                    }
                }
                if n >= self.config.max_inbound_peers {''','?'),
]
M=[m for m in M if m[4]!='ok2']
