F='net/poll/src/reactor.rs'; S='net/poll/src/socket.rs'; T='net/poll/src/time.rs'; D='p2p/src/stream.rs'; E='p2p/src/fsm/fees.rs'
def R(name,f,*ed): return (name,f,[e[0] for e in ed],[e[1] for e in ed],'ok')
def body(f,a,b,new):
    s=open('/repo/'+f).read(); i=s.index(a); j=s.index(b,i); return (s[i:j],new)
M=[
R('unreg-order',F,("        self.connecting.remove(&addr);\n        self.peers.remove(&addr);\n        self.sources.unregister(&Source::Peer(addr.clone()));","        let key = Source::Peer(addr.clone());\n        self.sources.unregister(&key);\n        self.peers.remove(&addr);\n        self.connecting.remove(&addr);")),
R('reg-order',F,body(F,"        let socket_addr = addr.to_socket_addr();\n        self.sources","    }\n\n    /// Unregister","        let key = Source::Peer(addr.clone());\n        self.sources.register(key, &stream, popol::interest::ALL);\n\n        let socket = Socket::from(stream, addr.to_socket_addr(), link);\n        self.peers.insert(addr, socket);\n")),
R('timeout-match',F,("            let timeout = self\n                .timeouts\n                .next(SystemTime::now())\n                .unwrap_or(WAIT_TIMEOUT)\n                .into();","            let timeout = match self.timeouts.next(SystemTime::now()) {\n                Some(t) => t,\n                None => WAIT_TIMEOUT,\n            }\n            .into();")),
R('err-if',F,("                Err(err) if err.kind() == io::ErrorKind::TimedOut => {}\n                // Nothing happened, we were only interrupted by a signal.\n                Err(err) if err.kind() == io::ErrorKind::Interrupted => {}\n                Err(err) => return Err(err.into()),","                Err(err) => match err.kind() {\n                    io::ErrorKind::TimedOut | io::ErrorKind::Interrupted => {}\n                    _ => return Err(err.into()),\n                },")),
R('err-matches',F,("                Err(err) if err.kind() == io::ErrorKind::TimedOut => {}\n                // Nothing happened, we were only interrupted by a signal.\n                Err(err) if err.kind() == io::ErrorKind::Interrupted => {}\n                Err(err) => return Err(err.into()),","                Err(err) => {\n                    if !matches!(\n                        err.kind(),\n                        io::ErrorKind::TimedOut | io::ErrorKind::Interrupted\n                    ) {\n                        return Err(err.into());\n                    }\n                }")),
R('peer-helper',F,body(F,"                                let socket_addr = addr.to_socket_addr();\n                                if ev.is_error()","                            }\n                            Source::Listener","                                let (invalid, writable, readable) =\n                                    (ev.is_invalid(), ev.is_writable(), ev.is_readable());\n                                if invalid {\n                                    error!(target: \"net\", \"{}: Socket is invalid, removing\", addr.to_socket_addr());\n                                    self.sources.unregister(&ev.key);\n                                } else {\n                                    if writable {\n                                        self.handle_writable(addr.clone(), &ev.key, &mut service)?;\n                                    }\n                                    if readable {\n                                        self.handle_readable(addr.clone(), &mut service);\n                                    }\n                                }\n")),
R('accept-while',F,body(F,"                            Source::Listener => loop {","                            Source::Waker","""                            Source::Listener => {
                                if let Some(ref listener) = listener {
                                    loop {
                                        match listener.accept() {
                                            Ok((conn, socket_addr)) => {
                                                conn.set_nonblocking(true)?;
                                                let local_addr = conn.local_addr()?;
                                                let addr = Id::from(socket_addr);

                                                self.register_peer(
                                                    addr.clone(),
                                                    conn,
                                                    Link::Inbound,
                                                );
                                                service.connected(
                                                    addr,
                                                    &local_addr,
                                                    Link::Inbound,
                                                );
                                            }
                                            Err(e) => {
                                                if e.kind() != io::ErrorKind::WouldBlock {
                                                    error!(target: "net", "Accept error: {}", e);
                                                }
                                                break;
                                            }
                                        }
                                    }
                                }
                            }
""")),
R('accept-helper',F,("                                    conn.set_nonblocking(true)?;\n\n                                    let local_addr = conn.local_addr()?;\n                                    let link = Link::Inbound;\n\n                                    self.register_peer(addr.clone(), conn, link);\n\n                                    service.connected(addr, &local_addr, link);","                                    self.accepted(addr, conn, &mut service)?;"),("    fn handle_readable<S>(","    fn accepted<S: Service<Id>>(&mut self, addr: Id, conn: net::TcpStream, service: &mut S) -> io::Result<()> {\n        conn.set_nonblocking(true)?;\n        let local_addr = conn.local_addr()?;\n        self.register_peer(addr.clone(), conn, Link::Inbound);\n        service.connected(addr, &local_addr, Link::Inbound);\n        Ok(())\n    }\n\n    fn handle_readable<S>(")),
R('cmds-while',F,("                                for cmd in commands.try_iter() {\n                                    service.command_received(cmd);\n                                }","                                while let Ok(cmd) = commands.try_recv() {\n                                    service.command_received(cmd);\n                                }")),
R('cmds-foreach',F,("                                for cmd in commands.try_iter() {\n                                    service.command_received(cmd);\n                                }","                                commands.try_iter().for_each(|cmd| service.command_received(cmd));")),
R('shutdown-isok',F,("                                if let Ok(()) = self.shutdown.try_recv() {\n                                    return Ok(());\n                                }","                                if self.shutdown.try_recv().is_ok() {\n                                    return Ok(());\n                                }")),
R('shutdown-after-reset',F,("                                if let Ok(()) = self.shutdown.try_recv() {\n                                    return Ok(());\n                                }\n                                popol::Waker::reset(ev.source).ok();","                                popol::Waker::reset(ev.source).ok();\n                                if let Ok(()) = self.shutdown.try_recv() {\n                                    return Ok(());\n                                }")),
R('timers-count',F,("            self.timeouts.wake(local_time, &mut timeouts);\n\n            if !timeouts.is_empty() {\n                timeouts.clear();\n                service.timer_expired();\n            }","            let expired = self.timeouts.wake(local_time, &mut timeouts);\n\n            timeouts.clear();\n            if expired > 0 {\n                service.timer_expired();\n            }")),
R('timers-len',F,("            if !timeouts.is_empty() {\n                timeouts.clear();\n                service.timer_expired();\n            }","            if timeouts.len() > 0 {\n                service.timer_expired();\n                timeouts.clear();\n            }")),
R('timers-helper',F,("            self.timeouts.wake(local_time, &mut timeouts);\n\n            if !timeouts.is_empty() {\n                timeouts.clear();\n                service.timer_expired();\n            }\n","            self.wake_service(local_time, &mut timeouts, &mut service);\n"),("    fn handle_readable<S>(","    fn wake_service<S: Service<Id>>(&mut self, now: LocalTime, keys: &mut Vec<()>, service: &mut S) {\n        self.timeouts.wake(now, keys);\n        if keys.is_empty() {\n            return;\n        }\n        keys.clear();\n        service.timer_expired();\n    }\n\n    fn handle_readable<S>(")),
R('events-for',F,("                    for ev in events.drain(..) {","                    let ready: Vec<_> = events.drain(..).collect();\n                    for ev in ready {")),
R('process-loop',F,("        while let Some(out) = service.next() {\n            match out {","        loop {\n            let out = match service.next() {\n                Some(out) => out,\n                None => break,\n            };\n            match out {")),
R('process-iter',F,("        while let Some(out) = service.next() {\n            match out {","        while let Some(out) = service.next() {\n            self.process_one(out, service, publisher, local_time);\n        }\n    }\n\n    fn process_one<S, E>(\n        &mut self,\n        out: Io<<S as nakamoto_net::StateMachine>::X, S::Event, S::DisconnectReason, Id>,\n        service: &mut S,\n        publisher: &mut E,\n        local_time: LocalTime,\n    ) {\n        {\n            match out {") if 0 else ("                Io::Connect(addr) => {\n                    let socket_addr = addr.to_socket_addr();","                Io::Connect(addr) => {\n                    let socket_addr: net::SocketAddr = addr.to_socket_addr();")),
R('connect-helper',F,body(F,"                    let socket_addr = addr.to_socket_addr();\n                    trace!(\"Connecting","                Io::Disconnect","                    self.connect_peer(addr, service);\n                }\n"),("    fn handle_readable<S>(","""    fn connect_peer<S: Service<Id>>(&mut self, addr: Id, service: &mut S) {
        let socket_addr = addr.to_socket_addr();
        let stream = match self::dial(&socket_addr) {
            Ok(stream) => stream,
            Err(e) => {
                if e.kind() != io::ErrorKind::AlreadyExists {
                    error!(target: "net", "{}: Dial error: {}", socket_addr, e);
                    service.disconnected(&addr, Disconnect::DialError(Arc::new(e)));
                }
                return;
            }
        };
        self.connecting.insert(addr.clone());
        self.register_peer(addr.clone(), stream, Link::Outbound);
        service.attempted(&addr);
    }

    fn handle_readable<S>(""")),
R('write-and',F,("                    if let Some(socket) = self.peers.get_mut(&addr) {\n                        if let Some(source) = self.sources.get_mut(&Source::Peer(addr)) {\n                            socket.push(&bytes);\n                            source.set(popol::interest::WRITE);\n                        }\n                    }","                    if let (Some(socket), Some(source)) = (\n                        self.peers.get_mut(&addr),\n                        self.sources.get_mut(&Source::Peer(addr)),\n                    ) {\n                        source.set(popol::interest::WRITE);\n                        socket.push(&bytes);\n                    }")),
R('write-helper',F,("                    if let Some(socket) = self.peers.get_mut(&addr) {\n                        if let Some(source) = self.sources.get_mut(&Source::Peer(addr)) {\n                            socket.push(&bytes);\n                            source.set(popol::interest::WRITE);\n                        }\n                    }","                    self.queue_write(addr, &bytes);"),("    fn handle_readable<S>(","    fn queue_write(&mut self, addr: Id, bytes: &[u8]) -> Option<()> {\n        let socket = self.peers.get_mut(&addr)?;\n        let source = self.sources.get_mut(&Source::Peer(addr))?;\n        socket.push(bytes);\n        source.set(popol::interest::WRITE);\n        Some(())\n    }\n\n    fn handle_readable<S>(")),
R('disc-match',F,("                    if let Some(peer) = self.peers.get(&addr) {\n                        trace!(\"{}: Disconnecting: {}\", addr.to_socket_addr(), reason);\n","                    let Some(peer) = self.peers.get(&addr) else {\n                        continue;\n                    };\n                    {\n                        trace!(\"{}: Disconnecting: {}\", addr.to_socket_addr(), reason);\n")),
R('settimer-let',F,("                    self.timeouts.register((), local_time + timeout);","                    let expiry = local_time + timeout;\n                    self.timeouts.register((), expiry);")),
R('read-guard',F,body(F,"                Ok(count) => {\n                    if count > 0 {","                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {\n                    // This","""                Ok(0) => {
                    socket.disconnect().ok();
                    let err = io::Error::from(io::ErrorKind::ConnectionReset);
                    self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);
                }
                Ok(count) => {
                    let bytes = &buffer[..count];
                    service.message_received(&addr, Cow::Borrowed(bytes));
                }
""")),
R('read-early',F,("        if let Some(socket) = self.peers.get_mut(&addr) {\n            let mut buffer","        let socket = match self.peers.get_mut(&addr) {\n            Some(socket) => socket,\n            None => return,\n        };\n        {\n            let mut buffer")),
R('read-fail-helper',F,("                    trace!(\"{}: Read error: {}\", socket_addr, err.to_string());\n\n                    socket.disconnect().ok();\n                    self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);","                    self.fail_peer(addr, err, service);"),("                error!(target: \"net\", \"{}: Write error: {}\", socket_addr, err.to_string());\n\n                socket.disconnect().ok();\n                self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);","                self.fail_peer(addr, err, service);"),("    fn handle_readable<S>(","    fn fail_peer<S: Service<Id>>(&mut self, addr: Id, err: io::Error, service: &mut S) {\n        if let Some(socket) = self.peers.get(&addr) {\n            socket.disconnect().ok();\n        }\n        self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);\n    }\n\n    fn handle_readable<S>(")),
R('conn-match',F,("            if let Some(err) = socket.take_error()? {\n                trace!(\"{}: Connection error: {}\", socket_addr, err.to_string());\n\n                self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);\n                return Ok(());\n            }\n            let local_addr = socket.local_address()?;\n\n            service.connected(addr.clone(), &local_addr, socket.link);","            match socket.take_error()? {\n                Some(err) => {\n                    let reason = Disconnect::ConnectionError(Arc::new(err));\n                    self.unregister_peer(addr, reason, service);\n                    return Ok(());\n                }\n                None => {\n                    let local_addr = socket.local_address()?;\n                    service.connected(addr.clone(), &local_addr, socket.link);\n                }\n            }")),
R('flush-kind',F,("            Err(err)\n                if [io::ErrorKind::WouldBlock, io::ErrorKind::WriteZero].contains(&err.kind()) =>\n            {","            Err(err)\n                if err.kind() == io::ErrorKind::WouldBlock\n                    || err.kind() == io::ErrorKind::WriteZero =>\n            {")),
R('flush-matches',F,("            Err(err)\n                if [io::ErrorKind::WouldBlock, io::ErrorKind::WriteZero].contains(&err.kind()) =>\n            {","            Err(err)\n                if matches!(\n                    err.kind(),\n                    io::ErrorKind::WriteZero | io::ErrorKind::WouldBlock\n                ) =>\n            {")),
R('flush-ifelse',F,body(F,"        match socket.flush() {","        Ok(())\n    }\n}\n\n/// Connect","""        if let Err(err) = socket.flush() {
            let retry = matches!(
                err.kind(),
                io::ErrorKind::WriteZero | io::ErrorKind::WouldBlock
            );
            if retry {
                source.set(popol::interest::WRITE);
            } else {
                error!(target: "net", "{}: Write error: {}", socket_addr, err);
                socket.disconnect().ok();
                self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);
            }
        } else {
            source.unset(popol::interest::WRITE);
        }
""")),
R('dial-merge',F,("        Ok(()) => {}\n        Err(e) if e.raw_os_error() == Some(libc::EINPROGRESS) => {}\n        Err(e) if e.raw_os_error() == Some(libc::EALREADY) => {\n            return Err(io::Error::from(io::ErrorKind::AlreadyExists))\n        }\n        Err(e) if e.kind() == io::ErrorKind::WouldBlock => {}\n        Err(e) => return Err(e),","        Ok(()) => {}\n        Err(e) => match e.raw_os_error() {\n            Some(libc::EINPROGRESS) => {}\n            Some(libc::EALREADY) => return Err(io::Error::from(io::ErrorKind::AlreadyExists)),\n            _ if e.kind() == io::ErrorKind::WouldBlock => {}\n            _ => return Err(e),\n        },")),
R('dial-iflet',F,("    match sock.connect(&(*addr).into()) {\n        Ok(()) => {}\n        Err(e) if e.raw_os_error() == Some(libc::EINPROGRESS) => {}\n        Err(e) if e.raw_os_error() == Some(libc::EALREADY) => {\n            return Err(io::Error::from(io::ErrorKind::AlreadyExists))\n        }\n        Err(e) if e.kind() == io::ErrorKind::WouldBlock => {}\n        Err(e) => return Err(e),\n    }","    if let Err(e) = sock.connect(&(*addr).into()) {\n        let code = e.raw_os_error();\n        if code == Some(libc::EALREADY) {\n            return Err(io::Error::from(io::ErrorKind::AlreadyExists));\n        }\n        if code != Some(libc::EINPROGRESS) && e.kind() != io::ErrorKind::WouldBlock {\n            return Err(e);\n        }\n    }")),
R('dial-domain',F,("    let domain = if addr.is_ipv4() {\n        Domain::IPV4\n    } else {\n        Domain::IPV6\n    };","    let domain = match addr {\n        net::SocketAddr::V4(_) => Domain::IPV4,\n        net::SocketAddr::V6(_) => Domain::IPV6,\n    };")),
R('dial-forself',F,("    let domain = if addr.is_ipv4() {\n        Domain::IPV4\n    } else {\n        Domain::IPV6\n    };","    let domain = Domain::for_address(*addr);")),
R('sock-flush-loop',S,body(S,"        while !self.buffer.is_empty() {","        self.raw.flush()\n","""        loop {
            if self.buffer.is_empty() {
                break;
            }
            let n = self.raw.write(&self.buffer)?;
            if n == 0 {
                return Err(io::ErrorKind::WriteZero.into());
            }
            self.buffer.drain(..n);
        }
""")),
R('sock-flush-off',S,body(S,"        while !self.buffer.is_empty() {","        self.raw.flush()\n","""        while !self.buffer.is_empty() {
            let n = self.raw.write(&self.buffer)?;
            if n == 0 {
                return Err(io::Error::from(io::ErrorKind::WriteZero));
            }
            self.buffer = self.buffer.split_off(n);
        }
""")),
R('sock-push',S,("        self.buffer.extend_from_slice(bytes);","        self.buffer.extend(bytes.iter().copied());")),
R('dec-q',D,body(D,"        match encode::deserialize_partial::<D>(&self.unparsed) {","    }\n}\n\n#[cfg(test)]","""        let result = encode::deserialize_partial::<D>(&self.unparsed);
        let (msg, len) = match result {
            Ok(pair) => pair,
            Err(encode::Error::Io(err)) if err.kind() == io::ErrorKind::UnexpectedEof => {
                return Ok(None)
            }
            Err(err) => return Err(err),
        };
        self.unparsed.drain(..len);

        Ok(Some(msg))
""")),
R('dec-split',D,("                self.unparsed.drain(..index);","                self.unparsed = self.unparsed.split_off(index);")),
R('tm-reg-for',T,("        if self\n            .timeouts\n            .iter()\n            .any(|(_, t)| t.diff(time) < self.threshold)\n        {\n            return false;\n        }","        for (_, t) in &self.timeouts {\n            if t.diff(time) < self.threshold {\n                return false;\n            }\n        }")),
R('tm-reg-all',T,("        if self\n            .timeouts\n            .iter()\n            .any(|(_, t)| t.diff(time) < self.threshold)\n        {\n            return false;\n        }","        let clear = self\n            .timeouts\n            .iter()\n            .all(|(_, t)| t.diff(time) >= self.threshold);\n        if !clear {\n            return false;\n        }")),
R('tm-sort-key',T,("        self.timeouts.sort_unstable_by(|(_, a), (_, b)| b.cmp(a));","        self.timeouts\n            .sort_unstable_by_key(|(_, t)| std::cmp::Reverse(*t));")),
R('tm-next-match',T,body(T,"        self.timeouts.last().map(|(_, t)| {","    }\n\n    /// Given the current","""        let (_, t) = self.timeouts.last()?;
        if *t < now {
            return Some(LocalDuration::from_secs(0));
        }
        Some(*t - now)
""")),
R('fee-early',E,("        let mut fees = Vec::new();\n        let snapshot = self.utxos.clone();\n\n        if height <= self.height {\n            return None;\n        }\n","        if height <= self.height {\n            return None;\n        }\n        let snapshot = self.utxos.clone();\n        let mut fees = Vec::new();\n")),
R('fee-iter',E,("        for tx in &block.txdata {\n            if let Some(rate) = self.apply(tx) {\n                fees.push(rate);\n            }\n        }","        fees.extend(block.txdata.iter().filter_map(|tx| self.apply(tx)));"),("        let mut fees = Vec::new();","        let mut fees: Vec<FeeRate> = Vec::new();")),
R('fee-collect',E,("        let mut fees = Vec::new();\n",""),("        for tx in &block.txdata {\n            if let Some(rate) = self.apply(tx) {\n                fees.push(rate);\n            }\n        }","        let fees = block\n            .txdata\n            .iter()\n            .filter_map(|tx| self.apply(tx))\n            .collect::<Vec<_>>();")),
R('fee-snap-first',E,("        self.snapshots.push_back((self.height, snapshot));\n        if self.snapshots.len() > MAX_UTXO_SNAPSHOTS {\n            self.snapshots.pop_front();\n        }","        if self.snapshots.len() >= MAX_UTXO_SNAPSHOTS {\n            self.snapshots.pop_front();\n        }\n        self.snapshots.push_back((self.height, snapshot));")),
R('fee-snap-while',E,("        if self.snapshots.len() > MAX_UTXO_SNAPSHOTS {\n            self.snapshots.pop_front();\n        }","        while self.snapshots.len() > MAX_UTXO_SNAPSHOTS {\n            self.snapshots.pop_front();\n        }")),
R('fee-roll',E,body(E,"        if self.height <= height {\n            return;\n        }\n        self.snapshots.retain","    }\n\n    /// Apply","""        if self.height > height {
            self.snapshots.retain(|(h, _)| *h <= height);

            match self.snapshots.pop_back() {
                Some((h, utxos)) => {
                    self.height = h;
                    self.utxos = utxos;
                }
                None => {}
            }
        }
""")),
R('fee-roll-while',E,("        self.snapshots.retain(|(h, _)| h <= &height);\n\n        if let Some((h, snapshot)) = self.snapshots.pop_back() {\n            assert!(h <= height);\n\n            self.utxos = snapshot;\n            self.height = h;\n        }","        while let Some((h, snapshot)) = self.snapshots.pop_back() {\n            if h <= height {\n                self.utxos = snapshot;\n                self.height = h;\n                break;\n            }\n        }")),
R('fee-median',E,("            let median = if count % 2 == 1 {\n                fees[count / 2]\n            } else {\n                let left = fees[count / 2 - 1] as f64;\n                let right = fees[count / 2] as f64;\n\n                ((left + right) / 2.).round() as FeeRate\n            };","            let mid = count / 2;\n            let median = if count % 2 == 0 {\n                let (left, right) = (fees[mid - 1] as f64, fees[mid] as f64);\n\n                ((left + right) / 2.).round() as FeeRate\n            } else {\n                fees[mid]\n            };")),
]
