R='net/poll/src/reactor.rs'; K='net/poll/src/socket.rs'; T='net/poll/src/time.rs'; E='net/src/event.rs'; S='client/src/service.rs'
M=[
# N01
('a1',R,"        self.connecting.remove(&addr);\n        self.peers.remove(&addr);","        if self.connecting.remove(&addr) {\n            self.peers.remove(&addr);\n            self.sources.unregister(&Source::Peer(addr));\n            return;\n        }\n        self.peers.remove(&addr);",'N01'),
('a2',R,"        self.peers.remove(&addr);\n        self.sources.unregister(&Source::Peer(addr.clone()));\n\n        service.disconnected(&addr, reason);","        let known = self.peers.remove(&addr).map_or(false, |s| s.link.is_outbound());\n        if known {\n            self.sources.unregister(&Source::Peer(addr.clone()));\n        }\n\n        service.disconnected(&addr, reason);",'N01'),
('a3',R,"                            self.connecting.insert(addr.clone());\n","                            if socket_addr.is_ipv4() {\n                                self.connecting.insert(addr.clone());\n                            }\n",'N01'),
('a4',R,"                        Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {","                        Err(e) if [io::ErrorKind::AlreadyExists, io::ErrorKind::ConnectionRefused].contains(&e.kind()) => {",'N01'),
('a5',R,"                    if let Some(peer) = self.peers.get(&addr) {\n                        trace!","                    if let Some(peer) = self.peers.get(&addr).filter(|_| !self.connecting.contains(&addr)) {\n                        trace!",'N01'),
('a6',R,"            if let Some(err) = socket.take_error()? {","            if let Some(err) = socket.take_error()?.filter(|e| e.kind() != io::ErrorKind::TimedOut) {",'N01'),
('a7',R,"                        trace!(\"{}: Read 0 bytes\", socket_addr);","                        trace!(\"{}: Read 0 bytes\", socket_addr);\n                        if self.connecting.contains(&addr) {\n                            return;\n                        }",'N01'),
('a8',R,"                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {\n                    // This shouldn't","                Err(err) if [io::ErrorKind::WouldBlock, io::ErrorKind::ConnectionAborted].contains(&err.kind()) => {\n                    // This shouldn't",'N01'),
('a9',S,"        self.inboxes.remove(addr);\n        self.machine.disconnected(addr, reason)","        if self.inboxes.remove(addr).is_some() {\n            self.machine.disconnected(addr, reason)\n        }",'N01'),
('a10',R,"                                    self.register_peer(addr.clone(), conn, link);\n\n                                    service.connected(addr, &local_addr, link);","                                    if self.peers.len() < 128 {\n                                        self.register_peer(addr.clone(), conn, link);\n                                    }\n                                    service.connected(addr, &local_addr, link);",'N01'),
('a11',R,"            service.connected(addr.clone(), &local_addr, socket.link);","            service.connected(addr.clone(), &local_addr, if local_addr.ip().is_loopback() { Link::Inbound } else { socket.link });",'N01'),
('a12',R,"                            service.disconnected(&addr, Disconnect::DialError(Arc::new(err)));","                            if !self.peers.contains_key(&addr) {\n                                service.disconnected(&addr, Disconnect::DialError(Arc::new(err)));\n                            }",'N01'),
# N02
('b1',R,"                        if let Some(source) = self.sources.get_mut(&Source::Peer(addr)) {\n                            socket.push(&bytes);","                        if let Some(source) = self.sources.get_mut(&Source::Peer(addr.clone())) {\n                            if !self.connecting.contains(&addr) || bytes.len() < 1024 {\n                                socket.push(&bytes);\n                            }",'N02'),
('b2',R,"                            source.set(popol::interest::WRITE);\n                        }\n                    }","                            if bytes.len() > 24 {\n                                source.set(popol::interest::WRITE);\n                            }\n                        }\n                    }",'N02'),
('b3',K,"                    self.buffer.drain(..n);","                    self.buffer.drain(..n);\n                    if self.buffer.len() < n {\n                        return self.raw.flush();\n                    }",'N02'),
('b4',K,"                Err(e) => return Err(e),\n\n                Ok(0)","                Err(e) if e.kind() == io::ErrorKind::WouldBlock && self.buffer.len() > 10_000_000 => self.buffer.clear(),\n                Err(e) => return Err(e),\n\n                Ok(0)",'N02'),
('b5',K,"        self.buffer.extend_from_slice(bytes);","        if self.buffer.len() + bytes.len() > 32 * 1024 * 1024 {\n            return;\n        }\n        self.buffer.extend_from_slice(bytes);",'N02'),
('b6',R,"                        service.message_received(&addr, Cow::Borrowed(&buffer[..count]));","                        service.message_received(&addr, Cow::Borrowed(&buffer[..count.min(READ_BUFFER_SIZE - 1)]));",'N02'),
('b7',R,"            Err(err)\n                if [io::ErrorKind::WouldBlock, io::ErrorKind::WriteZero].contains(&err.kind()) =>\n            {\n                source.set(popol::interest::WRITE);","            Err(err)\n                if [io::ErrorKind::WouldBlock, io::ErrorKind::WriteZero].contains(&err.kind()) =>\n            {\n                source.unset(popol::interest::WRITE);",'N02'),
('b8',S,"                    Err(err) => {\n                        log::error!(\"Invalid message received from {}: {}\", addr, err);\n","                    Err(err) => {\n                        log::error!(\"Invalid message received from {}: {}\", addr, err);\n                        if bytes.len() == 4096 {\n                            break;\n                        }\n",'N02'),
('b9',S,"        self.inboxes.insert(addr, p2p::stream::Decoder::new(1024));","        self.inboxes.entry(addr).or_insert_with(|| p2p::stream::Decoder::new(1024));",'N02'),
('b10',S,"        self.inboxes.remove(addr);\n","        if matches!(reason, Disconnect::DialError(_)) {\n            self.inboxes.remove(addr);\n        }\n",'N02,N01'),
('b11',S,"                    Ok(None) => break,","                    Ok(None) => {\n                        if bytes.len() < 24 {\n                            *inbox = p2p::stream::Decoder::new(1024);\n                        }\n                        break;\n                    }",'N02'),
# N03
('c1',R,"                    for ev in events.drain(..) {","                    for ev in events.drain(..).take(64) {",'N03'),
('c2',R,"                                for cmd in commands.try_iter() {","                                for cmd in commands.try_iter().take(32) {",'N03'),
('c3',R,"                                if ev.is_readable() {\n","                                if ev.is_readable() && !ev.is_writable() {\n",'N03'),
('c4',R,"                .unwrap_or(WAIT_TIMEOUT)\n                .into();","                .unwrap_or(WAIT_TIMEOUT)\n                .max(LocalDuration::from_secs(1))\n                .into();",'N03'),
('c5',R,"            service.tick(local_time);\n\n            match result {","            if result.is_ok() {\n                service.tick(local_time);\n            }\n\n            match result {",'N03'),
('c6',R,"                Err(err) if err.kind() == io::ErrorKind::TimedOut => {}","                Err(err) if err.kind() == io::ErrorKind::TimedOut => {\n                    if self.peers.is_empty() {\n                        continue;\n                    }\n                }",'N03'),
('c7',R,"                                if let Ok(()) = self.shutdown.try_recv() {","                                if let (Ok(()), true) = (self.shutdown.try_recv(), commands.is_empty()) {",'N03'),
('c8',R,"            if !timeouts.is_empty() {\n                timeouts.clear();\n                service.timer_expired();","            if timeouts.len() > 1 || (!timeouts.is_empty() && self.timeouts.is_empty()) {\n                timeouts.clear();\n                service.timer_expired();",'N03,N04'),
('c9',R,"                                if ev.is_invalid() {","                                if ev.is_invalid() || ev.is_hangup() {",'N03,N01'),
('c10',R,"                                        Err(e) => {\n                                            error!(target: \"net\", \"Accept error: {}\", e.to_string());\n                                            break;","                                        Err(e) if e.kind() == io::ErrorKind::ConnectionAborted => continue,\n                                        Err(e) => {\n                                            error!(target: \"net\", \"Accept error: {}\", e.to_string());\n                                            return Err(e.into());",'N03'),
('c11',R,"                                popol::Waker::reset(ev.source).ok();\n","                                if !commands.is_empty() {\n                                    popol::Waker::reset(ev.source).ok();\n                                }\n",'?'),
('c12',R,"        self.process(&mut service, &mut publisher, local_time);\n\n        // I/O","        if listener.is_none() {\n            self.process(&mut service, &mut publisher, local_time);\n        }\n\n        // I/O",'N03'),
('c13',R,"        while let Some(out) = service.next() {","        while let Some(out) = service.next().filter(|_| self.peers.len() < 1000) {",'N03'),
# N04
('d1',T,"            .any(|(_, t)| t.diff(time) < self.threshold)","            .any(|(_, t)| *t <= time && t.diff(time) < self.threshold + self.threshold)",'N04'),
('d2',T,"            if *t >= now {\n                *t - now","            if *t >= now + self.threshold {\n                *t - now",'N04'),
('d3',R,"                    self.timeouts.register((), local_time + timeout);","                    if self.timeouts.len() < 1024 {\n                        self.timeouts.register((), local_time + timeout);\n                    }",'N04'),
('d4',T,"        self.timeouts.sort_unstable_by(|(_, a), (_, b)| b.cmp(a));","        if self.timeouts.len() < 64 {\n            self.timeouts.sort_unstable_by(|(_, a), (_, b)| b.cmp(a));\n        }",'N04'),
# N05
('e1',E,"            .retain(|s| s.try_send(event.clone()).is_ok());","            .retain(|s| s.len() > 65536 || s.try_send(event.clone()).is_ok());",'N05'),
('e2',E,"        let (sender, receiver) = chan::unbounded();","        let (sender, receiver) = chan::bounded(1 << 20);",'N05'),
('e3',E,"                    if let Some(t) = f(event) {\n                        return Ok(t);\n                    }","                    if let Some(t) = f(event) {\n                        return Ok(t);\n                    }\n                    if events.is_empty() && timeout.as_millis() < 10 {\n                        return Err(chan::RecvTimeoutError::Timeout);\n                    }",'N05'),
('e4',E,"                Err(chan::RecvTimeoutError::Timeout) => {\n                    // Keep","                Err(chan::RecvTimeoutError::Timeout) => {\n                    while events.try_recv().is_ok() {}\n                    // Keep",'N05'),
('e5',E,"        self.subscribers.lock().unwrap().clear();","        drop(self);",'?'),
('e6',E,"        subs.push(sender);\n","        subs.retain(|s| !s.is_full());\n        subs.insert(0, sender);\n",'?'),
('e7',E,"        subs.push(sender);\n","        if subs.len() < 64 {\n            subs.push(sender);\n        }\n",'N05'),
]
