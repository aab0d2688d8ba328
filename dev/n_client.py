C='client/src/client.rs'; P='client/src/peer.rs'; W='wallet/src/wallet.rs'; D='wallet/src/wallet/db.rs'; Q='common/src/p2p/peer.rs'; S='client/src/service.rs'; L='wallet/src/lib.rs'
M=[
# H01
('a1',C,"        self.commands.send(cmd)?;\n        self.waker.wake()?;","        self.commands.send(cmd)?;\n        if self.commands.len() < 2 {\n            self.waker.wake()?;\n        }",'H01'),
('a2',C,"        self.commands.send(cmd)?;\n        self.waker.wake()?;","        self.waker.wake()?;\n        self.commands.send(cmd)?;",'H01'),
('a3',C,"                    if a == addr || (addr.ip().is_unspecified() && a.port() == addr.port()) =>\n                {\n                    Some(link)","                    if a.ip() == addr.ip() || (addr.ip().is_unspecified() && a.port() == addr.port()) =>\n                {\n                    Some(link)",'H01'),
('a4',C,"                    if services.has(required_services) {\n                        negotiated","                    if services.has(required_services) && height > 0 {\n                        negotiated",'H01'),
('a5',C,"                fsm::Event::PeerDisconnected { addr, .. } => {\n                    negotiated.remove(&addr);","                fsm::Event::PeerDisconnected { addr, reason } => {\n                    if !matches!(reason, nakamoto_net::Disconnect::DialError(_)) && negotiated.len() > 1 {\n                        negotiated.remove(&addr);\n                    }",'H01'),
('a6',C,"        let events = self.events.subscribe();\n        let required_services = required_services.into();\n\n        let negotiated = self.get_peers(required_services)?;","        let required_services = required_services.into();\n\n        let negotiated = self.get_peers(required_services)?;\n        let events = self.events.subscribe();",'H01'),
('a7',C,"                        .find(|(height, _)| *height == h)","                        .find(|(height, _)| *height >= h)",'H01'),
('a8',C,"        self.shutdown.send(())?;\n        self.waker.wake()?;","        self.shutdown.try_send(()).ok();\n        self.waker.wake()?;",'?'),
('a9',C,"        receive.recv()?.map_err(handle::Error::Command)\n","        receive.recv()?.map_err(handle::Error::Command).or_else(|e| self.get_peers(ServiceFlags::NONE).ok().and_then(|p| NonEmpty::from_vec(p.into_iter().map(|p| p.addr).collect())).ok_or(e))\n",'H01'),
('a10',C,"        Ok(self.listening.recv_timeout(self.timeout)?)","        Ok(self.listening.recv_timeout(self.timeout.max(time::Duration::from_secs(1)))?)",'H01'),
('a11',C,"        self.timeout = timeout;\n","        self.timeout = timeout.min(time::Duration::from_secs(3600));\n",'H01'),
('a12',C,"            timeout: self.timeout,\n            waker","            timeout: time::Duration::from_secs(60),\n            waker",'H01'),
('a13',C,"        self.command(Command::GetSubmittedTransaction(txid.to_owned(), transmit))?;\n        Ok(receive.recv()?)","        self.command(Command::GetSubmittedTransaction(txid.to_owned(), transmit))?;\n        Ok(receive.recv_timeout(time::Duration::from_millis(100)).unwrap_or(None))",'H01'),
# H02
('b1',C,"                let store = store::File::open(path, genesis)?;\n\n                if store.check().is_err() {","                let store = store::File::open(path, genesis)?;\n\n                if config.verify && store.check().is_err() {",'H02'),
('b2',C,"                let store = store::File::open(cfheaders_path, cfheaders_genesis)?;\n\n                if store.check().is_err() {","                let store = store::File::open(cfheaders_path, cfheaders_genesis)?;\n\n                if store.len()? > 1 && store.check().is_err() {",'?'),
('b3',C,"                    Err(e) if e.kind() == io::ErrorKind::InvalidData => {","                    Err(e) if [io::ErrorKind::InvalidData, io::ErrorKind::Interrupted].contains(&e.kind()) => {",'H02'),
('b4',C,"        if config.connect.is_empty() && peers.is_empty() {","        if config.connect.is_empty() && peers.len() < 8 {",'H02'),
('b5',C,"        let dir = home.join(network.as_str());","        let dir = if home.join(\"headers.db\").exists() { home.clone() } else { home.join(network.as_str()) };",'H02'),
('b6',C,"        if config.verify {\n","        if config.verify && config.connect.is_empty() {\n",'H02'),
('b7',S,"                    limits: config.limits,\n","                    limits: p2p::Limits { max_inbound_peers: if config.listen.is_empty() { 0 } else { config.limits.max_inbound_peers }, ..config.limits },\n",'H02'),
('b8',C,"        let checkpoints = network.checkpoints().collect::<Vec<_>>();","        let checkpoints = network.checkpoints().filter(|(h, _)| *h <= store.height().unwrap_or(0)).collect::<Vec<_>>();",'H02'),
('b9',C,"                    store.heal()?; // Rollback store to the last valid header.\n                }\n                log::info!(target: \"client\", \"Store height","                    if store.heal().is_err() {\n                        log::error!(target: \"client\", \"Healing failed\");\n                    }\n                }\n                log::info!(target: \"client\", \"Store height",'H02'),
('b10',C,"            peers.flush()?;\n","            if peers.len() > 16 {\n                peers.flush()?;\n            }\n",'?'),
('b11',C,"                network.seeds().iter().map(|s| (*s, network.port())),","                network.seeds().iter().take(4).map(|s| (*s, network.port())),",'H02,H03'),
('b12',C,"        let listen = config.listen.clone();","        let listen = config.listen.iter().filter(|a| !a.ip().is_loopback()).cloned().collect::<Vec<_>>();",'H02'),
('b13',C,"                if channel.send(event).is_ok() {\n                    ControlFlow::Continue(())\n                } else {\n                    ControlFlow::Break(())","                if channel.try_send(event).is_ok() {\n                    ControlFlow::Continue(())\n                } else {\n                    ControlFlow::Break(())",'?'),
# H03
('c1',P,"        self.file.set_len(0)?;\n        self.file.seek","        if s.len() > 4096 {\n            self.file.set_len(0)?;\n        }\n        self.file.seek",'H03'),
('c2',P,"        self.file.sync_data()?;\n","        if self.addrs.len() < 1024 {\n            self.file.sync_data()?;\n        }\n",'H03'),
('c3',P,"            .map(|(ip, ka)| (ip.to_string(), ka.to_json()))","            .filter(|(_, ka)| ka.last_success.is_some() || ka.last_attempt.is_none())\n            .map(|(ip, ka)| (ip.to_string(), ka.to_json()))",'H03'),
('c4',P,"                        let ip = net::IpAddr::from_str(k.as_str())\n                            .map_err(|_| io::Error::from(io::ErrorKind::InvalidData))?;\n\n                        addrs.insert(ip, ka);","                        let ip = net::IpAddr::from_str(k.as_str())\n                            .map_err(|_| io::Error::from(io::ErrorKind::InvalidData))?;\n\n                        addrs.entry(ip.to_canonical()).or_insert(ka);",'H03'),
('c5',P,"        if !s.is_empty() {\n            let val","        if s.trim().len() > 2 {\n            let val",'H03'),
('c6',P,"                        let ka = KnownAddress::from_json(v)\n                            .map_err(|_| io::Error::from(io::ErrorKind::InvalidData))?;","                        let ka = match KnownAddress::from_json(v) {\n                            Ok(ka) => ka,\n                            Err(_) => continue,\n                        };",'H03'),
('c7',P,"            .create_new(true)\n            .write(true)\n            .open(path)?;","            .create(true)\n            .write(true)\n            .open(path)?;",'H02,H03'),
('c8',P,"        <HashMap<_, _> as Store>::insert(&mut self.addrs, ip, ka)","        if self.addrs.len() >= 4096 {\n            return false;\n        }\n        <HashMap<_, _> as Store>::insert(&mut self.addrs, ip, ka)",'H03'),
# W01
('d1',W,"            if scripts.contains(&output.script_pubkey) {","            if output.value > 546 && scripts.contains(&output.script_pubkey) {",'W01'),
('d2',W,"                for t in &block.txdata {\n                    self.apply(t, watch);","                for t in block.txdata.iter().skip(1) {\n                    self.apply(t, watch);",'W01'),
('d3',W,"        for input in tx.input.iter() {","        for input in tx.input.iter().filter(|i| !i.witness.is_empty()) {",'W01'),
('d4',W,"                    .add_utxo(txid, vout as u32, addr, output.value)","                    .add_utxo(txid, vout as u8 as u32, addr, output.value)",'W01'),
('d5',W,"            self.client.rescan(birth.., watch.iter().cloned())?;","            self.client.rescan(birth + 1.., watch.iter().cloned())?;",'W01'),
('d6',W,"            for addr in addresses {\n                self.watch.insert(addr.address);","            for addr in addresses.into_iter().filter(|a| a.received > 0 || !a.used) {\n                self.watch.insert(addr.address);",'W01'),
('d7',W,"                        self.db.add_address(&addr, ix, None)?;\n                        self.watch.insert(addr);","                        if self.db.add_address(&addr, ix, None)? {\n                            self.watch.insert(addr);\n                        }",'W01'),
('d8',D,"\"SELECT SUM(value) FROM utxos\"","\"SELECT SUM(DISTINCT value) FROM utxos\"",'W01'),
('d9',D,"                 ON CONFLICT DO NOTHING\",","                 ON CONFLICT DO UPDATE SET value = value + excluded.value\",",'W01'),
('d10',D,"\"DELETE FROM utxos WHERE txid = ? AND vout = ?\"","\"DELETE FROM utxos WHERE txid = ? OR vout = ?\"",'W01'),
('d11',D,"        let utxo = self.utxo(prev_out)?;\n        let mut stmt","        let utxo = self.utxo(prev_out)?;\n        if utxo.as_ref().map_or(true, |(_, o)| o.value == 0) {\n            return Ok(utxo);\n        }\n        let mut stmt",'?'),
('d12',W,"                let balance = self.balance()?;\n                self.ui.set_balance(balance);\n                self.ui.redraw","                let balance = self.balance()?;\n                if balance > 0 {\n                    self.ui.set_balance(balance);\n                }\n                self.ui.redraw",'W01'),
('d13',W,"        let watch: Vec<_> = self.watch.iter().map(|a| a.script_pubkey()).collect();","        let watch: Vec<_> = self.watch.iter().take(16).map(|a| a.script_pubkey()).collect();",'W01'),
('d14',W,"        // Look for inputs.\n        for input","        if scripts.len() > 1000 {\n            return;\n        }\n        // Look for inputs.\n        for input",'W01'),
('d15',D,"        while let Some(Ok(row)) = stmt.next() {\n            let addr = AddressRecord::try_from(&row)?;\n            addrs.push(addr);","        while let Some(Ok(row)) = stmt.next() {\n            let addr = AddressRecord::try_from(&row)?;\n            if addr.label.is_some() || addrs.len() < 32 {\n                addrs.push(addr);\n            }",'W01'),
]
