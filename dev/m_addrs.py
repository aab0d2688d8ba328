A='p2p/src/fsm/addrmgr.rs'
K='common/src/p2p/peer.rs'
CC='client/src/peer.rs'
M=[
('i-services',A,'            if !addr.services.has(self.cfg.required_services) {\n                continue;\n            }\n','','A01'),
('i-bloom',A,'addr.services.has(ServiceFlags::GETUTXO) || addr.services.has(ServiceFlags::BLOOM)','addr.services.has(ServiceFlags::GETUTXO) && addr.services.has(ServiceFlags::BLOOM)','A01'),
('i-zero',A,'if last_active == 0 && source != Source::Imported {','if last_active == 0 && source == Source::Dns {','A01'),
('i-zero2',A,'if last_active == 0 && source != Source::Imported {','if last_active == 0 {','A01'),
('i-future',A,'> time + LocalDuration::from_mins(60)','< time + LocalDuration::from_mins(60)','A01'),
('i-domain',A,'Ok(a) if self.cfg.domains.contains(&Domain::for_address(&a)) => a,','Ok(a) => a,','A01'),
('i-local',A,'if self.local_addrs.contains(&net_addr) {','if self.local_addrs.contains(&net_addr) && source != Source::Dns {','A01'),
('i-ban',A,'            if self.bans.contains(&ip) {\n                continue;\n            }\n','','A01'),
('i-routable',A,'if !self::is_routable(&ip) {\n                continue;','if !self::is_routable(&ip) && source == Source::Dns {\n                continue;','A01'),
('i-islocal',A,'''            if self::is_local(&ip) {
                continue;
            }

            let''','''            let''','A01'),
('i-active',A,'                Some(LocalTime::from_block_time(last_active))\n            };','                Some(time)\n            };','A01'),
('i-overwrite',K,'            Entry::Occupied(_) => return false,','            Entry::Occupied(mut o) => { o.insert(ka); return false; }','A01'),
('i-norange',A,'            self.populate_address_ranges(&net_addr.ip());\n        }\n','            if last_active.is_some() {\n                self.populate_address_ranges(&net_addr.ip());\n            }\n        }\n','A02'),
('i-break',A,'            if !self\n                .peers\n                .insert(ip, KnownAddress::new(addr.clone(), source, last_active))\n            {\n                continue;','            if !self\n                .peers\n                .insert(ip, KnownAddress::new(addr.clone(), source, last_active))\n            {\n                break;','A01'),
('i-max',A,'addrs.is_empty() || addrs.len() > MAX_ADDR_ADDRESSES','addrs.is_empty()','A01'),
('i-source',A,'self.insert(addrs, Source::Peer(peer));','self.insert(addrs, Source::Dns);','A01'),
('i-localaddr',A,'                    self.local_addrs.insert(addr);\n','                    if link.is_outbound() {\n                        self.local_addrs.insert(addr);\n                    }\n','A01'),
('l-loop',A,'addr.is_private() || addr.is_loopback() || addr.is_link_local() || addr.is_unspecified()','addr.is_private() || addr.is_loopback() || addr.is_unspecified()','A01'),
('l-route',A,'        && !addr.is_documentation()\n','','A01'),
('l-route2',A,'!addr.is_private()\n        && !addr.is_loopback()','(!addr.is_private()\n        || !addr.is_loopback())','A01'),
('r-peers',A,'            range.remove(&addr);\n            self.peers.remove(&addr);\n','            range.remove(&addr);\n','A02'),
('r-range',A,'            range.remove(&addr);\n            self.peers.remove(&addr);\n','            self.peers.remove(&addr);\n','A02'),
('r-ip',A,'            range.remove(&addr);\n            self.peers.remove(&addr);\n','            range.remove(&addr);\n            self.peers.remove(ip);\n','A02'),
('r-size',A,'if range.len() == MAX_RANGE_SIZE {','if range.len() > MAX_RANGE_SIZE {','A02'),
('r-key',A,'let bits: u16 = (octets[0] as u16) << 8 | octets[1] as u16;','let bits: u16 = (octets[2] as u16) << 8 | octets[3] as u16;','A02'),
('r-key2',A,'let bits: u16 = (octets[0] as u16) << 8 | octets[1] as u16;','let bits: u16 = (octets[0] as u16) << 8 | octets[0] as u16;','A02'),
('r-new',A,'        for ip in ips.iter() {\n            addrmgr.populate_address_ranges(ip);\n        }\n','        for ip in ips.iter().take(256) {\n            addrmgr.populate_address_ranges(ip);\n        }\n','A02'),
('b-order',A,'                if !r.is_transient() {','                if r.is_transient() {','A03'),
('b-peers',A,'        self.peers.remove(addr);\n        self.bans.insert(*addr);\n','        self.bans.insert(*addr);\n','A03'),
('b-bans',A,'        self.peers.remove(addr);\n        self.bans.insert(*addr);\n','        self.peers.remove(addr);\n','A03'),
('b-empty',A,'            if range.is_empty() {\n                self.address_ranges.remove(&key);\n            }\n            return true','            return true','A03'),
('b-empty2',A,'            if range.is_empty() {\n                self.address_ranges.remove(&key);\n            }\n            return true','            self.address_ranges.remove(&key);\n            return true','A03'),
('b-trans','p2p/src/fsm.rs','Self::ConnectionLimit | Self::PeerTimeout(_) | Self::PeerHeight(_)','Self::ConnectionLimit | Self::PeerTimeout(_) | Self::PeerHeight(_) | Self::PeerMisbehaving(_)','A03'),
('b-trans2','p2p/src/fsm.rs','Self::ConnectionLimit | Self::PeerTimeout(_) | Self::PeerHeight(_)','Self::ConnectionLimit | Self::PeerTimeout(_)','A03'),
('b-sources',A,'            self.sources.remove(addr);\n','','A03'),
('b-lift',A,'        self.connected.insert(addr.ip());\n','        self.connected.insert(addr.ip());\n        self.bans.remove(&addr.ip());\n','A03'),
('n-success',A,'            ka.last_success = Some(time);\n','            if link.is_outbound() {\n                ka.last_success = Some(time);\n            }\n','A03'),
('n-conn',A,'        if let Some(ka) = self.peers.get_mut(&addr.ip()) {\n            ka.last_attempt = Some(time);','        if let Some(ka) = self.peers.get_mut(&addr.ip()) {\n            ka.last_attempt = Some(time);\n            ka.last_success = Some(time);','A03'),
('n-inb',A,'        if link.is_outbound() {\n            self.sources','        {\n            self.sources','A03'),
('s-failed',A,'''                if ka.last_attempt.is_some() && ka.last_success.is_none() {
                    continue;
                }
''','','A04'),
('s-recent',A,'''                if time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT {
                    continue;
                }
                // If we''','''                // If we''','A04'),
('s-conn',A,'''                if self.connected.contains(ip) {
                    continue;
                }
''','','A04'),
('s-mark',A,'                ka.last_sampled = Some(time);\n\n','','A04'),
('s-return',A,'                if !predicate(ka) {\n                    continue;','                if !predicate(ka) {\n                    return None;','A04'),
('s-break',A,'                if self.connected.contains(ip) {\n                    continue;','                if self.connected.contains(ip) {\n                    break;','A04'),
('s-dns',A,'''                        // so we won't be including these until we know the services.
''','''                        // so we won't be including these until we know the services.
                        return ka.last_success.is_none();
''','A04'),
('x-exh',A,'            if !self.connected.contains(addr) {\n                return false;','            if !self.connected.contains(addr) {\n                return true;','A04'),
('x-exh2',A,'''            if time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT {
                continue;
            }
            if !self''','''            if !self''','A04'),
('x-req',A,'            self.last_request = Some(local_time);\n','','A04'),
('x-one',A,'        for peer in &self.sources {','        for peer in self.sources.iter().take(1) {','A04'),
('x-idle',A,'        self.last_idle = Some(self.clock.local_time());\n        self.outbox.set_timer(IDLE_TIMEOUT);','        self.last_idle = Some(self.clock.local_time());','A04'),
('x-flush',A,'        if let Err(err) = self.peers.flush() {\n            self.outbox.error(err);\n        }\n','        self.peers.flush().ok();\n','A04'),
('x-flush2',A,'        if let Err(err) = self.peers.flush() {\n            self.outbox.error(err);\n        }\n','','A04'),
('g-share',A,'''            addrs.push((
                ka.last_active.map(|t| t.block_time()).unwrap_or_default(),
                ka.addr.clone(),
            ));''','''            if ka.last_success.is_some() {
            addrs.push((
                ka.last_active.map(|t| t.block_time()).unwrap_or_default(),
                ka.addr.clone(),
            )); }''','A02'),
# refactorings
('ok-ins',A,'''            if self.local_addrs.contains(&net_addr) {
                continue;
            }
            // No banned addresses.
            if self.bans.contains(&ip) {
                continue;
            }
''','''            if self.bans.contains(&ip) || self.local_addrs.contains(&net_addr) {
                continue;
            }
''','ok'),
('ok-ins2',A,'''            let last_active = if last_active == 0 {
                None
            } else {
                Some(LocalTime::from_block_time(last_active))
            };
''','''            let last_active = (last_active != 0).then(|| LocalTime::from_block_time(last_active));
''','ok'),
('ok-ins3',A,'''            if !self
                .peers
                .insert(ip, KnownAddress::new(addr.clone(), source, last_active))
            {
                continue;
            }

            self.populate_address_ranges(&net_addr.ip());
''','''            let ka = KnownAddress::new(addr.clone(), source, last_active);
            if self.peers.insert(ip, ka) {
                self.populate_address_ranges(&ip);
            }
''','ok'),
('ok-recv',A,'''        if addrs.is_empty() || addrs.len() > MAX_ADDR_ADDRESSES {
            // Peer misbehaving, got empty message or too many addresses.
            return;
        }
        self.insert(addrs, Source::Peer(peer));
''','''        if (1..=MAX_ADDR_ADDRESSES).contains(&addrs.len()) {
            self.insert(addrs, Source::Peer(peer));
        }
''','ok'),
('ok-pop',A,'''        if range.len() == MAX_RANGE_SIZE {
            let ix''','''        if range.len() >= MAX_RANGE_SIZE {
            let ix''','ok'),
('ok-pop2',A,'''            let addr = range
                .iter()
                .cloned()
                .nth(ix)
                .expect("the range is not empty");

            range.remove(&addr);
            self.peers.remove(&addr);
''','''            let addr = *range.iter().nth(ix).expect("the range is not empty");

            self.peers.remove(&addr);
            range.remove(&addr);
''','ok'),
('ok-new',A,'''        for ip in ips.iter() {
            addrmgr.populate_address_ranges(ip);
        }
''','''        ips.iter().for_each(|ip| {
            addrmgr.populate_address_ranges(ip);
        });
''','ok'),
('ok-disc',A,'''            if let Disconnect::StateMachine(r) = reason {
                if !r.is_transient() {
                    self.ban(&addr.ip());
                }
            } else if reason.is_dial_err() {
                self.ban(&addr.ip());
            }
''','''            let ban = match &reason {
                Disconnect::StateMachine(r) => !r.is_transient(),
                _ => reason.is_dial_err(),
            };
            if ban {
                self.ban(&addr.ip());
            }
''','ok'),
('ok-sample',A,'''        for range in ranges.drain(..) {
            assert!(!range.is_empty());

            let mut ips: Vec<_> = range.iter().collect();
            self.rng.shuffle(&mut ips);

            // Then select a random address in that range.
            for ip in ips.drain(..) {
''','''        for range in ranges {
            assert!(!range.is_empty());

            let mut ips = range.iter().collect::<Vec<_>>();
            self.rng.shuffle(&mut ips);

            // Then select a random address in that range.
            for ip in ips {
''','ok'),
('ok-sample2',A,'''                // If we recently sampled this address, don't return it again.
                if time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT {
                    continue;
                }
                // If we're already connected to this address, skip it.
                if self.connected.contains(ip) {
                    continue;
                }
                // If the provided filter doesn't pass, keep looking.
                if !predicate(ka) {
                    continue;
                }
                // Ok, we've found a worthy address!
                ka.last_sampled = Some(time);

                return Some((ka.addr.clone(), ka.source));
''','''                let recent = time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT;
                if !recent && !self.connected.contains(ip) && predicate(ka) {
                    ka.last_sampled = Some(time);
                    return Some((ka.addr.clone(), ka.source));
                }
''','ok'),
('ok-exh',A,'''        for (addr, ka) in self.peers.iter() {
            // Unsuccessful attempt to connect.
            if ka.last_attempt.is_some() && ka.last_success.is_none() {
                continue;
            }
            if time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT {
                continue;
            }
            if !self.connected.contains(addr) {
                return false;
            }
        }
        true
''','''        !self.peers.iter().any(|(addr, ka)| {
            let failed = ka.last_attempt.is_some() && ka.last_success.is_none();
            !failed
                && time - ka.last_sampled.unwrap_or_default() >= SAMPLE_TIMEOUT
                && !self.connected.contains(addr)
        })
''','ok'),
('ok-getaddr',A,'''        let mut addrs = Vec::new();

        // Include one random address per address range.
        for range in self.address_ranges.values() {
            let ix = self.rng.usize(..range.len());
            let ip = range.iter().nth(ix).expect("index must be present");
            let ka = self.peers.get(ip).expect("address must exist");

            addrs.push((
                ka.last_active.map(|t| t.block_time()).unwrap_or_default(),
                ka.addr.clone(),
            ));
        }
''','''        // Include one random address per address range.
        let addrs = self
            .address_ranges
            .values()
            .map(|range| {
                let ix = self.rng.usize(..range.len());
                let ip = range.iter().nth(ix).expect("index must be present");
                let ka = self.peers.get(ip).expect("address must exist");
                let active = ka.last_active.map(|t| t.block_time()).unwrap_or_default();
                (active, ka.addr.clone())
            })
            .collect::<Vec<_>>();
''','ok'),
('ok-get',A,'''        for peer in &self.sources {
            self.outbox.get_addr(*peer);
        }
''','''        for peer in self.sources.iter().copied().collect::<Vec<_>>() {
            self.outbox.get_addr(peer);
        }
''','ok'),
('ok-islocal',A,'''            addr.is_private() || addr.is_loopback() || addr.is_link_local() || addr.is_unspecified()
''','''            if addr.is_unspecified() {
                return true;
            }
            addr.is_private() || addr.is_loopback() || addr.is_link_local()
''','ok'),
('ok-key',A,'''            let octets: [u8; 4] = ip.octets();
            let bits: u16 = (octets[0] as u16) << 8 | octets[1] as u16;
''','''            let [a, b, _, _] = ip.octets();
            let bits: u16 = u16::from(a) << 8 | u16::from(b);
''','ok'),
('ok-tr','p2p/src/fsm.rs','''        matches!(
            self,
            Self::ConnectionLimit | Self::PeerTimeout(_) | Self::PeerHeight(_)
        )
''','''        match self {
            Self::ConnectionLimit => true,
            Self::PeerTimeout(_) | Self::PeerHeight(_) => true,
            _ => false,
        }
''','ok'),
('ok-neg',A,'''            if ka.last_success.is_none() {
                self.outbox.get_addr(*addr);
            }
            // Keep track of when the last successful handshake was.
            ka.last_success = Some(time);
            ka.last_active = Some(time);
            ka.addr.services = services;
''','''            let first = ka.last_success.replace(time).is_none();
            ka.addr.services = services;
            ka.last_active = Some(time);
            if first {
                self.outbox.get_addr(*addr);
            }
''','ok'),
('ok-store',K,'''        use ::std::collections::hash_map::Entry;

        match self.entry(ip) {
            Entry::Vacant(v) => {
                v.insert(ka);
            }
            Entry::Occupied(_) => return false,
        }
        true''','''        if self.contains_key(&ip) {
            return false;
        }
        std::collections::HashMap::insert(self, ip, ka);
        true''','ok'),
]
