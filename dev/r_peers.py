P='p2p/src/fsm/peermgr.rs'; A='p2p/src/fsm/addrmgr.rs'
def R(name,f,*ed): return (name,f,[e[0] for e in ed],[e[1] for e in ed],'ok')
def body(f,a,b,new):
    s=open('/repo/'+f).read(); i=s.index(a); j=s.index(b,i); return (s[i:j],new)
M=[
R('p-init',P,("        for addr in peers {\n            if !self.connect(&addr) {\n                self.outbox.error(Error::ConnectionFailed { addr });\n            }\n        }\n        self.outbox.set_timer(IDLE_TIMEOUT);","        self.outbox.set_timer(IDLE_TIMEOUT);\n        for addr in peers.iter() {\n            let ok = self.connect(addr);\n            if !ok {\n                self.outbox.error(Error::ConnectionFailed { addr: *addr });\n            }\n        }")),
R('p-pdisc',P,body(P,"        let (retry_at, attempts) = self.disconnected.entry(*addr).or_default();","    /// Maintain persistent peer connections.","""        let attempts = self.disconnected.get(addr).map_or(0, |(_, n)| *n);
        let delay = self.retry_delay(attempts);

        self.disconnected
            .insert(*addr, (Some(local_time + delay), attempts + 1));
        self.outbox.set_timer(delay);
    }

    fn retry_delay(&self, attempts: usize) -> LocalDuration {
        let wait = LocalDuration::from_secs(2u64.saturating_pow(attempts as u32));

        wait.clamp(self.config.retry_min_wait, self.config.retry_max_wait)
    }

""")),
R('p-mpers',P,body(P,"        let mut reconnect = Vec::new();\n\n        for (addr, (retry_at, _))","    /// Called when a peer connected.","""        let due: Vec<net::SocketAddr> = self
            .disconnected
            .iter()
            .filter(|(_, (retry_at, _))| retry_at.map_or(false, |t| t <= local_time))
            .map(|(addr, _)| *addr)
            .collect();

        for addr in due {
            if let Some((retry_at, _)) = self.disconnected.get_mut(&addr) {
                *retry_at = None;
            }
            if !self.connect(&addr) {
                log::error!(target: "p2p", "Couldn't establish connection with {addr}");
            }
        }
    }

""")),
R('p-mpers2',P,("            if let Some(t) = retry_at {\n                if *t <= local_time {\n                    *retry_at = None;\n                    reconnect.push(*addr);\n                }\n            }","            match *retry_at {\n                Some(t) if local_time >= t => {\n                    reconnect.push(*addr);\n                    *retry_at = None;\n                }\n                _ => continue,\n            }")),
R('p-conn-inbound',P,body(P,"        match link {\n            Link::Inbound => {\n                if self.connected()","        // Set a timeout for receiving the `version`","""        if link.is_inbound() {
            let inbound = self.connected().filter(|c| c.link.is_inbound()).count();
            if inbound > self.config.max_inbound_peers {
                self._disconnect(addr, DisconnectReason::ConnectionLimit);
            }
        } else {
            let nonce = nonce.unwrap_or_default();
            let version = self.version(addr, local_addr, nonce, height, local_time);

            self.outbox.version(addr, version);
        }
""")),
R('p-conn-nonce',P,("        let nonce = link.is_outbound().then(|| self.rng.u64(..));","        let nonce = match link {\n            Link::Outbound => Some(self.rng.u64(..)),\n            Link::Inbound => None,\n        };")),
R('p-conn-order',P,("        self.disconnected.remove(&addr);\n\n        match link","        match link"),("        // Set a timeout for receiving the `version` message.\n        self.outbox.set_timer(HANDSHAKE_TIMEOUT);\n        self.outbox.event(Event::PeerConnected {\n            addr,\n            local_addr,\n            link,\n        });","        self.disconnected.remove(&addr);\n        self.outbox.event(Event::PeerConnected {\n            addr,\n            local_addr,\n            link,\n        });\n        // Set a timeout for receiving the `version` message.\n        self.outbox.set_timer(HANDSHAKE_TIMEOUT);")),
R('p-disc-match',P,body(P,"        if self.is_disconnecting(addr) || self.is_connected(addr) {\n            self.outbox.event","        if self.config.persistent.contains(addr) {\n            self.persistent_disconnected","""        match self.peers.remove(addr) {
            Some(Peer::Disconnecting) | Some(Peer::Connected { .. }) => {
                self.outbox.event(Event::PeerDisconnected {
                    addr: *addr,
                    reason,
                });
            }
            Some(Peer::Connecting { .. }) => {
                if let network::Disconnect::ConnectionError(error) = reason {
                    self.outbox
                        .event(Event::PeerConnectionFailed { addr: *addr, error });
                }
            }
            None => {}
        }

""")),
R('p-wtxid',P,body(P,"        if let Some(Peer::Connected {\n            peer: Some(peer),\n            conn: _,","    /// Called when a `version` message was received.","""        let Some(Peer::Connected { peer: Some(peer), .. }) = self.peers.get_mut(addr) else {
            return;
        };
        if let HandshakeState::ReceivedVersion { .. } = peer.state {
            peer.wtxidrelay = true;
        } else {
            self.disconnect(
                *addr,
                DisconnectReason::PeerMisbehaving("`wtxidrelay` must be received before `verack`"),
            );
        }
    }

""")),
R('p-ver-helper',P,body(P,"            // Don't support peers with too old of a protocol version.","            // Call the user-provided version hook","""            let link = conn.link;
            self.check_version(link, version, services, start_height, nonce, height, trusted)?;

            if link.is_outbound()
                && !services.has(preferred)
                && self.negotiated(Link::Outbound).count() >= target
            {
                return Err(DisconnectReason::ConnectionLimit);
            }

"""),("    /// Called when a `verack` message was received.","""    /// Check that we want to talk to this peer.
    #[allow(clippy::too_many_arguments)]
    fn check_version(
        &self,
        link: Link,
        version: u32,
        services: ServiceFlags,
        start_height: Height,
        nonce: u64,
        height: Height,
        trusted: bool,
    ) -> Result<(), DisconnectReason> {
        if version < super::MIN_PROTOCOL_VERSION {
            return Err(DisconnectReason::PeerProtocolVersion(version));
        }
        match link {
            Link::Outbound => {
                if !trusted {
                    if !services.has(self.config.required_services) {
                        return Err(DisconnectReason::PeerServices(services));
                    }
                    if height.saturating_sub(start_height) > MAX_STALE_HEIGHT_DIFFERENCE {
                        return Err(DisconnectReason::PeerHeight(start_height));
                    }
                }
            }
            Link::Inbound => {
                if self.connected().any(|c| c.nonce == Some(nonce)) {
                    return Err(DisconnectReason::SelfConnection);
                }
            }
        }
        Ok(())
    }

    /// Called when a `verack` message was received.""")),
R('p-ver-letelse',P,("        if let Some(Peer::Connected { conn, peer: None }) = self.peers.get(addr) {\n            let VersionMessage {","        let conn = match self.peers.get(addr) {\n            Some(Peer::Connected { conn, peer: None }) => conn,\n            _ => return Ok(()),\n        };\n        {\n            let VersionMessage {")),
R('p-ver-send',P,body(P,"            match conn.link {\n                Link::Inbound => {\n                    self.outbox\n","            let conn = conn.clone();","""            if conn.link == Link::Inbound {
                let reply = self.version(conn.addr, conn.local_addr, nonce, height, now);
                self.outbox.version(conn.addr, reply);
            }
            self.outbox
                .wtxid_relay(conn.addr)
                .verack(conn.addr)
                .send_headers(conn.addr)
                .set_timer(HANDSHAKE_TIMEOUT);

""")),
R('p-ver-bind',P,("        if let Err(reason) = self.handle_version(addr, msg, height) {\n            self._disconnect(*addr, reason);\n        }","        match self.handle_version(addr, msg, height) {\n            Ok(()) => {}\n            Err(reason) => self._disconnect(*addr, reason),\n        }"),("            if let Err(reason) = (*self.hooks.on_version)(*addr, msg) {\n                return Err(DisconnectReason::Other(reason));\n            }","            (*self.hooks.on_version)(*addr, msg).map_err(DisconnectReason::Other)?;")),
R('p-verack-order',P,body(P,"            if let HandshakeState::ReceivedVersion { .. } = peer.state {\n                self.outbox.event(Event::PeerNeg","    /// Called when a tick was received.","""            if !matches!(peer.state, HandshakeState::ReceivedVersion { .. }) {
                self._disconnect(
                    *addr,
                    DisconnectReason::PeerMisbehaving("unexpected `verack` message received"),
                );
                return;
            }
            let since = self.clock.local_time();

            self.clock.record_offset(*addr, peer.time_offset);
            peer.state = HandshakeState::ReceivedVerack { since };

            let event = Event::PeerNegotiated {
                addr: *addr,
                link: conn.link,
                services: peer.services,
                persistent: peer.persistent,
                user_agent: peer.user_agent.clone(),
                receiver: peer.receiver.clone(),
                height: peer.height,
                version: peer.version,
                relay: peer.relay,
                wtxid_relay: peer.wtxidrelay,
            };
            self.outbox.event(event);
        }
    }

""")),
R('p-timer-iter',P,body(P,"        let mut timed_out = Vec::new();\n        let local_time","        // Disconnect all timed out peers.","""        let local_time = self.clock.local_time();
        let mut timed_out = self
            .idle_peers(local_time)
            .map(|addr| (addr, "connection"))
            .collect::<Vec<_>>();

        for peer in self.peers.values() {
            let Peer::Connected { conn, peer } = peer else {
                continue;
            };
            let since = match peer {
                Some(PeerInfo {
                    state: HandshakeState::ReceivedVersion { since },
                    ..
                }) => *since,
                Some(_) => continue,
                None => conn.since,
            };
            if local_time - since >= HANDSHAKE_TIMEOUT {
                timed_out.push((conn.addr, "handshake"));
            }
        }
""")),
R('p-timer-split',P,body(P,"        let mut timed_out = Vec::new();\n        let local_time","        if local_time - self.last_idle","""        let local_time = self.clock.local_time();

        for (addr, reason) in self.timed_out(local_time) {
            self._disconnect(addr, DisconnectReason::PeerTimeout(reason));
        }

"""),("    /// Whitelist a peer.","""    fn timed_out(&self, local_time: LocalTime) -> Vec<(net::SocketAddr, &'static str)> {
        let mut timed_out = Vec::new();
        for addr in self.idle_peers(local_time) {
            timed_out.push((addr, "connection"));
        }
        for (peer, conn) in self.peers() {
            if let HandshakeState::ReceivedVersion { since } = peer.state {
                if local_time - since >= HANDSHAKE_TIMEOUT {
                    timed_out.push((conn.addr, "handshake"));
                }
            }
        }
        for c in self.peers.values() {
            if let Peer::Connected { conn, peer: None } = c {
                if local_time - conn.since >= HANDSHAKE_TIMEOUT {
                    timed_out.push((conn.addr, "handshake"));
                }
            }
        }
        timed_out
    }

    /// Whitelist a peer.""")),
R('p-preds',P,("        self.peers\n            .get(addr)\n            .map_or(false, |c| matches!(c, Peer::Connecting { .. }))","        matches!(self.peers.get(addr), Some(Peer::Connecting { .. }))"),("        self.peers\n            .get(addr)\n            .map_or(false, |c| matches!(c, Peer::Connected { .. }))","        match self.peers.get(addr) {\n            Some(Peer::Connected { .. }) => true,\n            _ => false,\n        }"),("        !self.peers.contains_key(addr)\n    }\n\n    /// Check whether a peer is being","        self.peers.get(addr).is_none()\n    }\n\n    /// Check whether a peer is being")),
R('p-connect-match',P,body(P,"        if self.is_connected(addr) || self.is_connecting(addr) {\n            return true;","        // Don't allow connections to unsupported","""        match self.peers.get(addr) {
            Some(Peer::Connected { .. }) | Some(Peer::Connecting { .. }) => return true,
            Some(Peer::Disconnecting) | None => {}
        }
""")),
R('p-connect-order',P,("        self.peers.insert(*addr, Peer::Connecting { time });\n        self.outbox.connect(*addr, CONNECTION_TIMEOUT);","        self.outbox.connect(*addr, CONNECTION_TIMEOUT);\n        self.peers.insert(*addr, Peer::Connecting { time });"),("        if !self.config.domains.contains(&Domain::for_address(addr)) {\n            return false;\n        }\n        self","        let domain = Domain::for_address(addr);\n        if self.config.domains.iter().all(|d| *d != domain) {\n            return false;\n        }\n        self")),
R('p-delta-loop',P,body(P,"        // Peers with our preferred services.\n        let primary","        // Connected peers that have not yet","""        let mut primary = 0;
        let mut secondary = 0;

        for (p, _) in self.negotiated(Link::Outbound) {
            if p.services.has(self.config.preferred_services) {
                primary += 1;
            } else {
                secondary += 1;
            }
        }
""")),
R('p-delta-sat',P,("        if total > max || primary + unknown > target {\n            return 0;\n        }\n\n        usize::min(max - total, target - (primary + unknown))","        max.saturating_sub(total)\n            .min(target.saturating_sub(primary + unknown))")),
R('p-maint-helper',P,body(P,"            if let Some((addr, source)) =\n                addrs.sample(self.config.preferred","            {\n                if let Ok(sockaddr)","            if let Some((addr, source)) = self.next_address(addrs, negotiated < target)\n"),("    /// Peers that have been idle longer","""    fn next_address<A: AddressSource>(
        &self,
        addrs: &mut A,
        any: bool,
    ) -> Option<(Address, Source)> {
        if let Some(found) = addrs.sample(self.config.preferred_services) {
            return Some(found);
        }
        if !any {
            return None;
        }
        addrs
            .sample(self.config.required_services)
            .or_else(|| addrs.sample(ServiceFlags::NONE))
    }

    /// Peers that have been idle longer"""),("use nakamoto_common::p2p::peer::AddressSource;","use nakamoto_common::p2p::peer::{AddressSource, Source};")),
R('p-maint-loop',P,body(P,"                if let Ok(sockaddr) = addr.socket_addr() {\n                    // TODO: Remove","            } else {\n                // We're completely out","""                let sockaddr = match addr.socket_addr() {
                    Ok(a) => a,
                    Err(_) => continue,
                };
                if !self.connect(&sockaddr) {
                    continue;
                }
                connecting.insert(sockaddr);
                self.outbox.event(Event::PeerConnecting {
                    addr: sockaddr,
                    source,
                    services: addr.services,
                });
""")),
R('p-idle',P,body(P,"        self.peers.iter().filter_map(move |(addr, c)| {\n            if let Peer::Connecting","\n#[cfg(test)]","""        self.peers.iter().filter_map(move |(addr, c)| match c {
            Peer::Connecting { time } if now - *time >= CONNECTION_TIMEOUT => Some(*addr),
            _ => None,
        })
    }
}
""")),
R('p-disconnect-inline',P,("        if self.is_connected(&addr) {\n            self._disconnect(addr, reason);\n        }","        if !self.is_connected(&addr) {\n            return;\n        }\n        self.peers.insert(addr, Peer::Disconnecting);\n        self.outbox.disconnect(addr, reason);")),
R('p-rename',P,(r're:\bpersistent_disconnected\b','schedule_retry'),(r're:\bmaintain_persistent\b','retry_persistent'),(r're:\bidle_peers\b','stuck_peers'),(r're:\b_disconnect\b','force_disconnect'),(r're:\bhandle_version\b','negotiate'),(r're:\bdelta\b','wanted')),
R('p-rename2',P,(r're:\bself\.disconnected\b','self.retries'),("    disconnected: HashMap<net::SocketAddr,","    retries: HashMap<net::SocketAddr,"),("            disconnected,\n            outbox: Outbox","            retries: disconnected,\n            outbox: Outbox")),
# --- addrmgr
R('a-timer',A,("        if local_time - self.last_request.unwrap_or_default() >= REQUEST_TIMEOUT\n            && self.is_exhausted()\n        {\n            self.outbox.event(Event::AddressBookExhausted);\n\n            self.get_addresses();\n            self.last_request = Some(local_time);\n            self.outbox.set_timer(REQUEST_TIMEOUT);\n        }","        let since_request = local_time - self.last_request.unwrap_or_default();\n        if since_request >= REQUEST_TIMEOUT {\n            if self.is_exhausted() {\n                self.last_request = Some(local_time);\n                self.outbox.set_timer(REQUEST_TIMEOUT);\n                self.outbox.event(Event::AddressBookExhausted);\n                self.get_addresses();\n            }\n        }")),
R('a-getaddr',A,body(A,"        let mut addrs = Vec::new();\n\n        // Include one random","    /// Return an iterator over randomly sampled","""        let mut addrs = Vec::with_capacity(self.address_ranges.len());

        for range in self.address_ranges.values() {
            let ips: Vec<_> = range.iter().collect();
            let ip = ips[self.rng.usize(..ips.len())];
            let ka = self.peers.get(ip).expect("address must exist");
            let last_active = match ka.last_active {
                Some(t) => t.block_time(),
                None => BlockTime::default(),
            };
            addrs.push((last_active, ka.addr.clone()));
        }
        self.outbox.addr(*from, addrs);
    }

""")),
R('a-conn',A,("        if !self::is_routable(&addr.ip()) || self::is_local(&addr.ip()) {\n            return;\n        }\n        self.connected.insert(addr.ip());","        let ip = addr.ip();\n        if self::is_routable(&ip) && !self::is_local(&ip) {\n            self.connected.insert(ip);\n        }")),
R('a-neg',A,("        if let Some(ka) = self.peers.get_mut(&addr.ip()) {\n            // Only ask for addresses when connecting for the first time.\n            if ka.last_success.is_none() {\n                self.outbox.get_addr(*addr);\n            }\n            // Keep track of when the last successful handshake was.\n            ka.last_success = Some(time);\n            ka.last_active = Some(time);\n            ka.addr.services = services;\n        }","        let Some(ka) = self.peers.get_mut(&addr.ip()) else {\n            return;\n        };\n        let first = ka.last_success.replace(time).is_none();\n        ka.last_active = Some(time);\n        ka.addr.services = services;\n        if first {\n            self.outbox.get_addr(*addr);\n        }")),
R('a-disc',A,body(A,"        if self.connected.remove(&addr.ip()) {\n            // Disconnected","    fn idle(&mut self) {","""        let ip = addr.ip();
        if !self.connected.remove(&ip) {
            return;
        }
        self.sources.remove(addr);

        let permanent = match &reason {
            Disconnect::StateMachine(r) => !r.is_transient(),
            other => other.is_dial_err(),
        };
        if permanent {
            self.ban(&ip);
        }
    }

""")),
R('a-insert-helper',A,body(A,"            // Ignore addresses that don't have the required services.\n            if","            // Ignore addresses from unsupported domains.","            if !self.is_useful(&addr, last_active, source, time) {\n                continue;\n            }\n"),("    /// Pick an address at random from","""    fn is_useful(
        &self,
        addr: &Address,
        last_active: BlockTime,
        source: Source,
        time: LocalTime,
    ) -> bool {
        if !addr.services.has(self.cfg.required_services) {
            return false;
        }
        if addr.services.has(ServiceFlags::BLOOM) || addr.services.has(ServiceFlags::GETUTXO) {
            return false;
        }
        if last_active == 0 && source != Source::Imported {
            return false;
        }
        LocalTime::from_block_time(last_active) <= time + LocalDuration::from_mins(60)
    }

    /// Pick an address at random from""")),
R('a-insert-combine',A,body(A,"            // Ensure no self-connections.","            let last_active = if last_active == 0","""            if self.bans.contains(&ip) || self.local_addrs.contains(&net_addr) {
                continue;
            }
            if self::is_local(&ip) || !self::is_routable(&ip) {
                continue;
            }
""")),
R('a-insert-last',A,body(A,"            let last_active = if last_active == 0","    /// Pick an address at random from","""            let last_active = (last_active != 0).then(|| LocalTime::from_block_time(last_active));
            let known = KnownAddress::new(addr, source, last_active);

            if self.peers.insert(ip, known) {
                self.populate_address_ranges(&ip);
            }
        }
    }

""")),
R('a-sample-fn',A,body(A,"            if !ka.addr.services.has(services) {\n                match","    /// Sample an address using","            ka.addr.services.has(services)\n        })\n    }\n\n")),
R('a-sample-helper',A,body(A,"                // If the address domain is unsupported, skip it.","                // If the provided filter doesn't","""                let supported = match ka.addr.socket_addr() {
                    Ok(a) => domains.contains(&Domain::for_address(&a)),
                    Err(_) => false,
                };
                let failed = ka.last_attempt.is_some() && ka.last_success.is_none();
                let recent = time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT;

                if !supported || failed || recent || self.connected.contains(ip) {
                    continue;
                }
""")),
R('a-sample-order',A,("                ka.last_sampled = Some(time);\n\n                return Some((ka.addr.clone(), ka.source));","                let found = (ka.addr.clone(), ka.source);\n                ka.last_sampled.replace(time);\n\n                return Some(found);"),("        for range in ranges.drain(..) {\n            assert!(!range.is_empty());","        for range in ranges {\n            assert!(!range.is_empty());")),
R('a-sample-flat',A,body(A,"        // First select a random address range.","    ////////////////////////////////////////////////////////////////////////////\n\n    /// Populate","""        let mut candidates = Vec::new();
        for range in ranges {
            let mut ips: Vec<_> = range.iter().collect();
            self.rng.shuffle(&mut ips);
            candidates.extend(ips);
        }

        for ip in candidates {
            let ka = self.peers.get_mut(ip).expect("address must exist");

            if !ka
                .addr
                .socket_addr()
                .map_or(false, |a| domains.contains(&Domain::for_address(&a)))
            {
                continue;
            }
            if ka.last_attempt.is_some() && ka.last_success.is_none() {
                continue;
            }
            if time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT {
                continue;
            }
            if self.connected.contains(ip) || !predicate(ka) {
                continue;
            }
            ka.last_sampled = Some(time);

            return Some((ka.addr.clone(), ka.source));
        }

        None
    }

""")),
R('a-pop',A,body(A,"        if range.len() == MAX_RANGE_SIZE {","    /// Remove an address from the address book","""        if range.len() >= MAX_RANGE_SIZE {
            let ix = self.rng.usize(..range.len());
            if let Some(evicted) = range.iter().nth(ix).copied() {
                self.peers.remove(&evicted);
                range.remove(&evicted);
            }
        }
        range.insert(*ip);

        key
    }

""")),
R('a-ban',A,("        self.peers.remove(addr);\n        self.bans.insert(*addr);\n\n        if let Some(range) = self.address_ranges.get_mut(&key) {\n            range.remove(addr);\n\n            if range.is_empty() {\n                self.address_ranges.remove(&key);\n            }\n            return true;\n        }\n        false","        self.bans.insert(*addr);\n        self.peers.remove(addr);\n\n        let Some(range) = self.address_ranges.get_mut(&key) else {\n            return false;\n        };\n        range.remove(addr);\n        if range.is_empty() {\n            self.address_ranges.remove(&key);\n        }\n        true")),
R('a-keys',A,("            let octets: [u8; 4] = ip.octets();\n            let bits: u16 = (octets[0] as u16) << 8 | octets[1] as u16;","            let [a, b, _, _] = ip.octets();\n            let bits = u16::from_be_bytes([a, b]);")),
R('a-routable',A,("    if u32::from(*addr) == 0xc0000009 || u32::from(*addr) == 0xc000000a {\n        return true;\n    }","    match addr.octets() {\n        [192, 0, 0, 9] | [192, 0, 0, 10] => return true,\n        _ => {}\n    }")),
R('a-rename',A,(r're:\bpopulate_address_ranges\b','add_to_range'),(r're:\baddress_ranges\b','buckets'),(r're:\blocal_addrs\b','own_addrs'),(r're:\bget_addresses\b','ask_for_addresses')),
R('a-event-split',A,("            Event::MessageReceived { from, message } => {\n","            Event::MessageReceived { from, message } => {\n                let message = &*message;\n"),("                match message.as_ref() {\n                    NetworkMessage::Addr","                match message {\n                    NetworkMessage::Addr")),
]
