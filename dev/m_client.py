C='client/src/client.rs'; P='client/src/peer.rs'; S='client/src/service.rs'; K='common/src/p2p/peer.rs'; HA='client/src/handle.rs'
M=[
('nowake',C,"        self.waker.wake()?;\n\n        Ok(())\n    }\n}\n\nimpl<W: Waker> handle::Handle","        Ok(())\n    }\n}\n\nimpl<W: Waker> handle::Handle",'H01'),
('wake-first',C,"        self.commands.send(cmd)?;\n        self.waker.wake()?;","        self.waker.wake()?;\n        self.commands.send(cmd)?;",'H01'),
('ignore-send',C,"        self.commands.send(cmd)?;","        self.commands.send(cmd).ok();",'H01'),
('shutdown-nowake',C,"        self.shutdown.send(())?;\n        self.waker.wake()?;","        self.shutdown.send(())?;",'H01'),
('sub-late',C,"        let events = self.events.subscribe();\n        self.command(Command::Connect(addr))?;","        self.command(Command::Connect(addr))?;\n        let events = self.events.subscribe();",'H01'),
('any-peer',C,"if a == addr || (addr.ip().is_unspecified() && a.port() == addr.port()) =>\n                {\n                    Some(link)","if a == addr || addr.ip().is_unspecified() || a.port() == addr.port() =>\n                {\n                    Some(link)",'H01'),
('any-disc',C,"                fsm::Event::PeerDisconnected { addr: a, .. }\n                    if a == addr ||","                fsm::Event::PeerDisconnected { addr: a, .. }\n                    if a != addr ||",'H01'),
('height-last',C,"connected\n                        .iter()\n                        .find(|(height, _)| *height == h)","connected\n                        .iter()\n                        .take(1)\n                        .find(|(height, _)| *height == h)",'H01'),
('height-sub',C,"        let events = self.events.subscribe();\n\n        match self.get_block_by_height(h)? {\n            Some(e) => Ok(e.block_hash()),\n            None => event::wait(","        match self.get_block_by_height(h)? {\n            Some(e) => Ok(e.block_hash()),\n            None => event::wait(",'?'),
('height-sub2',C,["        let events = self.events.subscribe();\n\n        match self.get_block_by_height(h)? {\n            Some(e) => Ok(e.block_hash()),\n            None => event::wait(\n                &events,"],["        match self.get_block_by_height(h)? {\n            Some(e) => Ok(e.block_hash()),\n            None => event::wait(\n                &self.events.subscribe(),"],'H01'),
('peers-svc',C,"                    if services.has(required_services) {","                    if required_services.has(services) {",'H01'),
('peers-gt',C,"        if negotiated.len() >= count {\n            return","        if negotiated.len() > count {\n            return",'H01'),
('peers-norm',C,"                    negotiated.remove(&addr);\n                    None","                    let _ = addr;\n                    None",'H01'),
('getpeers-all',C,"let negotiated = self.get_peers(required_services)?;","let negotiated = self.get_peers(ServiceFlags::NONE)?;",'H01'),
('timeout',C,"                &events,\n                |e| match e {\n                    Event::BlockHeadersImported","                &events,\n                |e| match e {\n                    Event::BlockHeadersImported",'?'),
('timeout2',C,"        let result = event::wait(&events, f, self.timeout)?;","        let result = event::wait(&events, f, time::Duration::from_secs(60))?;",'H01'),
('rescan-swap',HA,"from,\n            to,","from: to,\n            to: from,",'?'),
('feed',C,"        self.blocks.subscribe()","        self.blocks.subscribe();\n        self.blocks.subscribe()",'?'),
('import-dup',C,"        self.command(Command::ImportAddresses(addrs))?;","        self.command(Command::ImportAddresses(addrs.into_iter().take(1000).collect()))?;",'H01'),
('submit-ok',C,"        receive.recv()?.map_err(handle::Error::GetFilters)","        receive.recv()?.ok();\n        Ok(())",'H01'),
# H02
('noheal',C,"                if store.check().is_err() {\n                    log::warn!(target: \"client\", \"Corruption detected in header store, healing..\");\n                    store.heal()?; // Rollback store to the last valid header.\n                }\n","",'H02'),
('heal-ignore',C,"Corruption detected in filter store, healing..\");\n                    store.heal()?;","Corruption detected in filter store, healing..\");\n                    store.heal().ok();",'H02'),
('genesis-net',C,"let genesis = network.genesis();","let genesis = Network::Mainnet.genesis();",'H02'),
('params-net',C,"let params = network.params();","let params = Network::default().params();",'H02'),
('no-netdir',C,"let dir = home.join(network.as_str());","let dir = home.clone();",'H02'),
('verify-inv',C,"        if config.verify {\n","        if !config.verify {\n",'H02'),
('verify-ignore',C,"            })?; // Verify store integrity.","            })\n            .ok(); // Verify store integrity.",'H02'),
('seed-always',C,"if config.connect.is_empty() && peers.is_empty() {","if config.connect.is_empty() || peers.is_empty() {",'H02'),
('seed-noflush',C,"            peers.flush()?;\n","",'H02'),
('seed-src',C,"                Source::Dns,\n            )?;","                Source::Imported,\n            )?;",'H02'),
('checkpoints',C,"let checkpoints = network.checkpoints().collect::<Vec<_>>();","let checkpoints = network.checkpoints().take(1).collect::<Vec<_>>();",'H02'),
('kind-noent',C,"Err(store::Error::Io(e)) if e.kind() == io::ErrorKind::AlreadyExists => {\n                log::info!(target: \"client\", \"Found existing store {:?}\", cfheaders_path);","Err(store::Error::Io(_)) => {\n                log::info!(target: \"client\", \"Found existing store {:?}\", cfheaders_path);",'H02'),
('peers-wipe',C,"Err(e) if e.kind() == io::ErrorKind::InvalidData => {","Err(_) => {",'H02'),
('cfg-services',S,"                    services: config.services,\n","",'H02'),
('cfg-domains',S,"                    domains: config.domains,\n","",'H02'),
('cfg-limits',S,"                    limits: config.limits,\n","",'H02'),
('listen',C,"            .run(&self.listen, self.service","            .run(&[], self.service",'H02'),
('run-ignore',C,"        self.reactor\n            .run(&self.listen, self.service, self.publisher, self.commands)?;","        self.reactor\n            .run(&self.listen, self.service, self.publisher, self.commands)\n            .ok();",'H02'),
('ok-helper',C,["        let path = dir.join(\"headers.db\");\n        let store = match store::File::create(&path, genesis) {"],["        let path = dir.join(\"headers.db\");\n        let created = store::File::create(&path, genesis);\n        let store = match created {"],'ok'),
('ok-check',C,"                if store.check().is_err() {\n                    log::warn!(target: \"client\", \"Corruption detected in header store, healing..\");\n                    store.heal()?; // Rollback store to the last valid header.\n                }","                match store.check() {\n                    Ok(_) => {}\n                    Err(_) => {\n                        log::warn!(target: \"client\", \"Corruption detected in header store, healing..\");\n                        store.heal()?;\n                    }\n                }",'ok'),
('ok-openhelper',C,["        let cfheaders_store = match store::File::create(&cfheaders_path, cfheaders_genesis) {\n            Ok(store) => {\n                log::info!(target: \"client\", \"Initializing new filter header store {:?}\", cfheaders_path);\n                store\n            }\n            Err(store::Error::Io(e)) if e.kind() == io::ErrorKind::AlreadyExists => {\n                log::info!(target: \"client\", \"Found existing store {:?}\", cfheaders_path);\n                let store = store::File::open(cfheaders_path, cfheaders_genesis)?;\n\n                if store.check().is_err() {\n                    log::warn!(target: \"client\", \"Corruption detected in filter store, healing..\");\n                    store.heal()?; // Rollback store to the last valid header.\n                }\n                log::info!(target: \"client\", \"Filters height = {}\", store.height()?);\n\n                store\n            }\n            Err(err) => return Err(err.into()),\n        };","/// An instance of [`handle::Handle`] for [`Client`]."],["        let cfheaders_store = open_store(cfheaders_path, cfheaders_genesis)?;","fn open_store<H: 'static + Copy + nakamoto_common::bitcoin::consensus::Encodable + nakamoto_common::bitcoin::consensus::Decodable>(\n    path: PathBuf,\n    genesis: H,\n) -> Result<store::File<H>, Error>\nwhere\n    store::File<H>: nakamoto_common::block::store::Store<Header = H>,\n{\n    match store::File::create(&path, genesis) {\n        Ok(store) => Ok(store),\n        Err(store::Error::Io(e)) if e.kind() == io::ErrorKind::AlreadyExists => {\n            let store = store::File::open(path, genesis)?;\n            if store.check().is_err() {\n                store.heal()?;\n            }\n            log::info!(target: \"client\", \"Height = {}\", store.height()?);\n            Ok(store)\n        }\n        Err(err) => Err(err.into()),\n    }\n}\n\n/// An instance of [`handle::Handle`] for [`Client`]."],'ok'),
('ok-get',C,"        let (transmit, receive) = chan::bounded(1);\n        self._command(Command::GetBlockByHash(*hash, transmit))?;\n\n        Ok(receive.recv()?)","        let (tx, rx) = chan::bounded(1);\n        let cmd = Command::GetBlockByHash(*hash, tx);\n        self.command(cmd)?;\n        let answer = rx.recv()?;\n        Ok(answer)",'ok'),
('ok-wait',C,"                fsm::Event::PeerDisconnected { addr: a, .. }\n                    if a == addr || (addr.ip().is_unspecified() && a.port() == addr.port()) =>\n                {\n                    Some(())\n                }\n                _ => None,","                fsm::Event::PeerDisconnected { addr: a, .. } => {\n                    let any = addr.ip().is_unspecified() && addr.port() == a.port();\n                    if any || a == addr {\n                        Some(())\n                    } else {\n                        None\n                    }\n                }\n                _ => None,",'ok'),
('ok-height',C,"                    Event::BlockHeadersImported { connected, .. } => connected\n                        .iter()\n                        .find(|(height, _)| *height == h)\n                        .map(|(_, header)| header.block_hash()),","                    Event::BlockHeadersImported { connected, .. } => {\n                        for (height, header) in connected.iter() {\n                            if *height == h {\n                                return Some(header.block_hash());\n                            }\n                        }\n                        None\n                    }",'ok'),
('ok-q',C,"        self.commands.send(cmd)?;\n        self.waker.wake()?;\n\n        Ok(())\n    }\n}","        if let Err(e) = self.commands.send(cmd) {\n            return Err(e.into());\n        }\n        self.waker.wake().map_err(handle::Error::from)\n    }\n}",'ok'),
# H03
('fl-nocut',P,"        self.file.set_len(0)?;\n","",'H03'),
('fl-noseek',P,"        self.file.seek(io::SeekFrom::Start(0))?;\n","        self.file.seek(io::SeekFrom::Current(0))?;\n",'H03'),
('fl-nosync',P,"        self.file.sync_data()?;\n","",'H03'),
('fl-flushinstead',P,"        self.file.sync_data()?;\n","        self.file.flush()?;\n",'H03'),
('fl-filter',P,"            .map(|(ip, ka)| (ip.to_string(), ka.to_json()))","            .filter(|(_, ka)| ka.last_success.is_some())\n            .map(|(ip, ka)| (ip.to_string(), ka.to_json()))",'H03'),
('fr-skip',P,"                        addrs.insert(ip, ka);","                        if ka.addr.port != 0 {\n                            addrs.insert(ip, ka);\n                        }",'H03'),
('fr-unwrap',P,"                        let ip = net::IpAddr::from_str(k.as_str())\n                            .map_err(|_| io::Error::from(io::ErrorKind::InvalidData))?;","                        let ip = net::IpAddr::from_str(k.as_str()).unwrap();",'H03'),
('fr-other',P,"            let val = microserde::json::from_str(&s)\n                .map_err(|_| io::Error::from(io::ErrorKind::InvalidData))?;","            let val = microserde::json::from_str(&s)\n                .map_err(|_| io::Error::from(io::ErrorKind::Other))?;",'H03'),
('cr-create',P,".create_new(true)",".create(true)",'H03'),
('js-swap',K,"            \"last_attempt\".to_owned(),\n            match self.last_attempt {","            \"last_attempt\".to_owned(),\n            match self.last_success {",'H03'),
('js-key',K,"        let last_sampled = match obj.get(\"last_sampled\") {","        let last_sampled = match obj.get(\"last_sample\") {",'H03'),
('js-src',K,"                Source::Imported => Value::String(\"imported\".to_owned()),","                Source::Imported => Value::String(\"dns\".to_owned()),",'H03'),
('js-ms',K,"            \"last_active\".to_owned(),\n            match self.last_active {\n                Some(t) => Value::Number(Number::U64(t.block_time() as u64)),","            \"last_active\".to_owned(),\n            match self.last_active {\n                Some(t) => Value::Number(Number::U64(t.block_time() as u64 * 1000)),",'H03'),
('js-null',K,"        let last_attempt = match obj.get(\"last_attempt\") {\n            Some(Value::Null) => None,","        let last_attempt = match obj.get(\"last_attempt\") {\n            Some(Value::Null) => return Err(serde::Error),",'H03'),
('js-u32',K,"            Some(Value::Number(Number::U64(srv))) => ServiceFlags::from(*srv),","            Some(Value::Number(Number::U64(srv))) => ServiceFlags::from(*srv & 0xff),",'H03'),
('ins-over',P,"        <HashMap<_, _> as Store>::insert(&mut self.addrs, ip, ka)","        HashMap::insert(&mut self.addrs, ip, ka).is_none()",'H03'),
('seed-one',K,"                    for addr in addrs {\n                        self.insert(","                    for addr in addrs.take(1) {\n                        self.insert(",'H03'),
('seed-brk',K,"                Err(err) => error = Some(err),","                Err(err) => {\n                    error = Some(err);\n                    break;\n                }",'H03'),
('ok-json',K,"        obj.insert(\n            \"last_active\".to_owned(),\n            match self.last_active {\n                Some(t) => Value::Number(Number::U64(t.block_time() as u64)),\n                None => Value::Null,\n            },\n        );","        let active = self\n            .last_active\n            .map(|t| Value::Number(Number::U64(t.block_time() as u64)))\n            .unwrap_or(Value::Null);\n        obj.insert(\"last_active\".to_owned(), active);",'ok'),
('ok-jsonh',K,["        let last_active = match obj.get(\"last_active\") {\n            Some(Value::Null) => None,\n            Some(Value::Number(Number::U64(n))) => Some(LocalTime::from_block_time(*n as u32)),\n            None => None,\n            _ => return Err(serde::Error),\n        };","/// Source of peer addresses.\npub trait"],["        let last_active = parse_time(obj.get(\"last_active\"))?;","fn parse_time(v: Option<&serde::json::Value>) -> Result<Option<LocalTime>, serde::Error> {\n    use serde::json::{Number, Value};\n    match v {\n        None | Some(Value::Null) => Ok(None),\n        Some(Value::Number(Number::U64(n))) => Ok(Some(LocalTime::from_block_time(*n as u32))),\n        _ => Err(serde::Error),\n    }\n}\n\n/// Source of peer addresses.\npub trait"],'ok'),
('ok-flush',P,"        let peers: microserde::json::Object = self\n            .addrs\n            .iter()\n            .map(|(ip, ka)| (ip.to_string(), ka.to_json()))\n            .collect();","        let mut peers = microserde::json::Object::new();\n        for (ip, ka) in self.addrs.iter() {\n            peers.insert(ip.to_string(), ka.to_json());\n        }",'ok'),
('ok-flush2',P,"        let s = microserde::json::to_string(&Value::Object(peers));\n\n        self.file.set_len(0)?;\n        self.file.seek(io::SeekFrom::Start(0))?;\n        self.file.write_all(s.as_bytes())?;\n        self.file.write_all(&[b'\\n'])?;\n        self.file.sync_data()?;\n\n        Ok(())","        let mut s = microserde::json::to_string(&Value::Object(peers));\n        s.push('\\n');\n\n        let file = &mut self.file;\n        file.set_len(0)?;\n        file.seek(io::SeekFrom::Start(0))?;\n        file.write_all(s.as_bytes())?;\n        file.sync_data()",'ok'),
('ok-from',P,"                _ => return Err(io::ErrorKind::InvalidData.into()),","                _ => return Err(io::Error::new(io::ErrorKind::InvalidData, \"not an object\")),",'ok'),
('ok-fromlet',P,"        file.read_to_string(&mut s)?;\n\n        if !s.is_empty() {","        file.read_to_string(&mut s)?;\n\n        if s.len() > 0 {",'ok'),
('ok-ins',P,"        <HashMap<_, _> as Store>::insert(&mut self.addrs, ip, ka)","        if self.addrs.contains_key(&ip) {\n            return false;\n        }\n        self.addrs.insert(ip, ka);\n        true",'ok'),
]
