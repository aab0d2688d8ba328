F='client/src/client.rs'; P='client/src/peer.rs'; S='client/src/service.rs'; V='client/src/event.rs'
def R(name,f,*ed): return (name,f,[e[0] for e in ed],[e[1] for e in ed],'ok')
def body(f,a,b,new):
    s=open('/repo/'+f).read(); i=s.index(a); j=s.index(b,i); return (s[i:j],new)
M=[
R('cmd-match',F,("        self.commands.send(cmd)?;\n        self.waker.wake()?;\n\n        Ok(())","        match self.commands.send(cmd) {\n            Ok(()) => {}\n            Err(e) => return Err(e.into()),\n        }\n        self.waker.wake().map_err(handle::Error::from)")),
R('tip-let',F,("        self._command(Command::GetTip(transmit))?;\n\n        Ok(receive.recv()?)","        let cmd = Command::GetTip(transmit);\n        self._command(cmd)?;\n        let tip = receive.recv()?;\n\n        Ok(tip)")),
R('reqf-match',F,("        receive.recv()?.map_err(handle::Error::GetFilters)","        match receive.recv()? {\n            Ok(()) => Ok(()),\n            Err(e) => Err(handle::Error::GetFilters(e)),\n        }")),
R('conn-helper',F,("                fsm::Event::PeerConnected { addr: a, link, .. }\n                    if a == addr || (addr.ip().is_unspecified() && a.port() == addr.port()) =>\n                {\n                    Some(link)\n                }","                fsm::Event::PeerConnected { addr: a, link, .. } if same_peer(&addr, &a) => Some(link),"),("                fsm::Event::PeerDisconnected { addr: a, .. }\n                    if a == addr || (addr.ip().is_unspecified() && a.port() == addr.port()) =>\n                {\n                    Some(())\n                }","                fsm::Event::PeerDisconnected { addr: a, .. } if same_peer(&addr, &a) => Some(()),"),("/// Client traits re-exports.","fn same_peer(wanted: &net::SocketAddr, actual: &net::SocketAddr) -> bool {\n    if wanted == actual {\n        return true;\n    }\n    wanted.ip().is_unspecified() && wanted.port() == actual.port()\n}\n\n/// Client traits re-exports.")),
R('conn-iflet',F,("            |e| match e {\n                fsm::Event::PeerConnected { addr: a, link, .. }\n                    if a == addr || (addr.ip().is_unspecified() && a.port() == addr.port()) =>\n                {\n                    Some(link)\n                }\n                _ => None,\n            },","            |e| {\n                if let fsm::Event::PeerConnected { addr: a, link, .. } = e {\n                    let matches =\n                        a == addr || (addr.ip().is_unspecified() && a.port() == addr.port());\n                    return matches.then(|| link);\n                }\n                None\n            },")),
R('disc-map',F,("            self.timeout,\n        )?;\n\n        Ok(())\n    }\n\n    fn import_headers(","            self.timeout,\n        )\n        .map_err(handle::Error::from)\n    }\n\n    fn import_headers(")),
R('submit-match',F,("        receive.recv()?.map_err(handle::Error::Command)","        let reply = receive.recv()?;\n        reply.map_err(|e| handle::Error::Command(e))")),
R('peers-then',F,("                    if services.has(required_services) {\n                        negotiated.insert(addr, (height, services));\n                    }\n\n                    if negotiated.len() >= count {\n                        Some(negotiated.iter().map(|(a, (h, s))| (*a, *h, *s)).collect())\n                    } else {\n                        None\n                    }","                    if services.has(required_services) {\n                        negotiated.insert(addr, (height, services));\n                    }\n                    if negotiated.len() < count {\n                        return None;\n                    }\n                    let peers = negotiated\n                        .iter()\n                        .map(|(addr, (height, services))| (*addr, *height, *services))\n                        .collect();\n\n                    Some(peers)")),
R('peers-loop',F,("            return Ok(negotiated\n                .into_iter()\n                .map(|p| (p.addr, p.height, p.services))\n                .collect());","            let mut peers = Vec::with_capacity(negotiated.len());\n            for p in negotiated {\n                peers.push((p.addr, p.height, p.services));\n            }\n            return Ok(peers);")),
R('height-iflet',F,body(F,"        match self.get_block_by_height(h)? {","    fn shutdown(self)","""        if let Some(header) = self.get_block_by_height(h)? {
            return Ok(header.block_hash());
        }
        let hash = event::wait(
            &events,
            |e| match e {
                Event::BlockHeadersImported { connected, .. } => connected
                    .iter()
                    .find(|(height, _)| *height == h)
                    .map(|(_, header)| header.block_hash()),
                _ => None,
            },
            self.timeout,
        )?;

        Ok(hash)
    }

""")),
R('height-loop',F,("                    Event::BlockHeadersImported { connected, .. } => connected\n                        .iter()\n                        .find(|(height, _)| *height == h)\n                        .map(|(_, header)| header.block_hash()),","                    Event::BlockHeadersImported { connected, .. } => {\n                        for (height, header) in connected.iter() {\n                            if *height == h {\n                                return Some(header.block_hash());\n                            }\n                        }\n                        None\n                    }")),
R('height-findmap',F,("                    Event::BlockHeadersImported { connected, .. } => connected\n                        .iter()\n                        .find(|(height, _)| *height == h)\n                        .map(|(_, header)| header.block_hash()),","                    Event::BlockHeadersImported { connected, .. } => {\n                        connected.iter().find_map(|(height, header)| {\n                            if *height == h {\n                                Some(header.block_hash())\n                            } else {\n                                None\n                            }\n                        })\n                    }")),
R('wait-direct',F,("        let result = event::wait(&events, f, self.timeout)?;\n\n        Ok(result)","        event::wait(&events, f, self.timeout).map_err(handle::Error::from)")),
R('load-filters',F,("                if store.check().is_err() {\n                    log::warn!(target: \"client\", \"Corruption detected in filter store, healing..\");\n                    store.heal()?; // Rollback store to the last valid header.\n                }","                match store.check() {\n                    Ok(()) => {}\n                    Err(_) => {\n                        log::warn!(target: \"client\", \"Corruption detected in filter store, healing..\");\n                        store.heal()?;\n                    }\n                }")),
R('load-verify',F,body(F,"        if config.verify {\n            log::info!(target: \"client\", \"Verifying filter","        log::info!(target: \"client\", \"Loading peer addresses..\");","""        if !config.verify {
            log::info!(target: "client", "Skipping filter header verification (verify = false)");
        } else {
            filters.verify_with(network, |height| {
                loading.send(Loading::FilterHeaderVerified { height })
            })?;
        }

""")),
R('load-peers',F,body(F,"        let mut peers = match peer::Cache::create(&peers_path) {","        log::trace!(target: \"client\", \"{:#?}\", peers);","""        let mut peers = match peer::Cache::create(&peers_path) {
            Ok(cache) => cache,
            Err(e) if e.kind() != io::ErrorKind::AlreadyExists => {
                return Err(Error::PeerStore(e));
            }
            Err(_) => open_peers(&peers_path).map_err(Error::PeerStore)?,
        };

"""),("/// Client traits re-exports.","""fn open_peers(path: &std::path::Path) -> io::Result<peer::Cache> {
    match peer::Cache::open(path) {
        Ok(cache) => Ok(cache),
        Err(e) if e.kind() == io::ErrorKind::InvalidData => {
            log::warn!(target: "client", "Corruption detected in peer cache, resetting..");
            fs::remove_file(path)?;
            peer::Cache::create(path)
        }
        Err(e) => Err(e),
    }
}

/// Client traits re-exports.""")),
R('load-seed',F,("        if config.connect.is_empty() && peers.is_empty() {","        let offline = !config.connect.is_empty();\n        if !offline && peers.is_empty() {")),
R('svc-guard',S,body(S,"        if let Some(inbox) = self.inboxes.get_mut(addr) {","    fn attempted","""        let inbox = match self.inboxes.get_mut(addr) {
            Some(inbox) => inbox,
            None => {
                log::debug!("Received message from unknown peer {}", addr);
                return;
            }
        };
        inbox.input(bytes.borrow());

        loop {
            let msg = match inbox.decode_next() {
                Ok(Some(msg)) => msg,
                Ok(None) => return,
                Err(err) => {
                    log::error!("Invalid message received from {}: {}", addr, err);
                    let reason = p2p::DisconnectReason::DecodeError(Arc::new(err));
                    self.machine.disconnect(*addr, reason);
                    return;
                }
            };
            self.machine.message_received(addr, Cow::Owned(msg));
        }
    }

""")),
R('svc-while',S,body(S,"            loop {\n                match inbox.decode_next()","        } else {\n            log::debug!(\"Received","""            let error = loop {
                match inbox.decode_next() {
                    Ok(Some(msg)) => self.machine.message_received(addr, Cow::Owned(msg)),
                    Ok(None) => break None,
                    Err(err) => break Some(err),
                }
            };
            if let Some(err) = error {
                self.machine
                    .disconnect(*addr, p2p::DisconnectReason::DecodeError(Arc::new(err)));
            }
""")),
R('svc-next',S,body(S,"        match self.machine.next() {","    }\n}\n","""        let io = match self.machine.next()? {
            Io::Write(addr, msg) => {
                let mut bytes = Vec::new();
                msg.consensus_encode(&mut bytes)
                    .expect("writing to an in-memory buffer doesn't fail");
                Io::Write(addr, bytes)
            }
            Io::Event(e) => Io::Event(e),
            Io::Connect(a) => Io::Connect(a),
            Io::Disconnect(a, r) => Io::Disconnect(a, r),
            Io::SetTimer(d) => Io::SetTimer(d),
        };
        Some(io)
""")),
R('svc-serialize',S,("                let mut buf = Vec::new();\n\n                msg.consensus_encode(&mut buf)\n                    .expect(\"writing to an in-memory buffer doesn't fail\");\n","                let buf = nakamoto_common::bitcoin::consensus::encode::serialize(&msg);\n")),
R('svc-conn',S,("        self.inboxes.insert(addr, p2p::stream::Decoder::new(1024));\n        self.machine.connected(addr, local_addr, link)","        let inbox = p2p::stream::Decoder::new(1024);\n        self.inboxes.insert(addr, inbox);\n        self.machine.connected(addr, local_addr, link);")),
R('peer-flush',P,body(P,"        let peers: microserde::json::Object = self","        self.file.set_len(0)?;","""        let mut peers = microserde::json::Object::new();
        for (ip, ka) in self.addrs.iter() {
            peers.insert(ip.to_string(), ka.to_json());
        }
        let s = microserde::json::to_string(&Value::Object(peers));

""")),
R('peer-flush2',P,("        self.file.write_all(s.as_bytes())?;\n        self.file.write_all(&[b'\\n'])?;\n        self.file.sync_data()?;\n\n        Ok(())","        let mut s = s;\n        s.push('\\n');\n        self.file.write_all(s.as_bytes())?;\n        self.file.sync_data()")),
R('peer-flush3',P,("        self.file.set_len(0)?;\n        self.file.seek(io::SeekFrom::Start(0))?;","        self.file.seek(io::SeekFrom::Start(0))?;\n        self.file.set_len(0)?;")),
R('peer-rewind',P,("        self.file.set_len(0)?;\n        self.file.seek(io::SeekFrom::Start(0))?;","        self.file.set_len(0)?;\n        self.file.rewind()?;")),
R('peer-from',P,body(P,"        if !s.is_empty() {\n            let val","        Ok(Self { file, addrs })\n","""        if s.is_empty() {
            return Ok(Self { file, addrs });
        }
        let invalid = || io::Error::from(io::ErrorKind::InvalidData);
        let val = microserde::json::from_str(&s).map_err(|_| invalid())?;
        let entries = match val {
            Value::Object(entries) => entries,
            _ => return Err(invalid()),
        };
        for (k, v) in entries {
            let ip = net::IpAddr::from_str(&k).map_err(|_| invalid())?;
            let ka = KnownAddress::from_json(v).map_err(|_| invalid())?;
            addrs.insert(ip, ka);
        }

""")),
R('peer-create',P,("        let file = fs::OpenOptions::new()\n            .create_new(true)\n            .write(true)\n            .open(path)?;\n\n        Ok(Self {\n            file,\n            addrs: HashMap::new(),\n        })","        fs::OpenOptions::new()\n            .write(true)\n            .create_new(true)\n            .open(path)\n            .map(|file| Self {\n                file,\n                addrs: HashMap::new(),\n            })")),
]
