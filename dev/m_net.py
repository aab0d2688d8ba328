R='net/poll/src/reactor.rs'; K='net/poll/src/socket.rs'; T='net/poll/src/time.rs'; E='net/src/event.rs'; D='p2p/src/stream.rs'; S='client/src/service.rs'; C='client/src/client.rs'
M=[
# N01
('link-swap',R,"self.register_peer(addr.clone(), stream, Link::Outbound);","self.register_peer(addr.clone(), stream, Link::Inbound);",'N01'),
('no-connecting',R,"                            self.connecting.insert(addr.clone());\n","",'N01'),
('no-attempted',R,"                            service.attempted(&addr);\n","",'N01'),
('already-report',R,"Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {","Err(e) if e.kind() == io::ErrorKind::AddrInUse => {",'N01'),
('dial-err-silent',R,"                            service.disconnected(&addr, Disconnect::DialError(Arc::new(err)));\n","",'N01'),
('dial-block',R,"    sock.set_nonblocking(true)?;\n\n    match sock","    match sock",'N01'),
('dial-domain',R,"    let domain = if addr.is_ipv4() {","    let domain = if addr.is_ipv6() {",'N01'),
('dial-swallow',R,"        Err(e) => return Err(e),\n    }\n    Ok(sock.into())","        Err(_) => {}\n    }\n    Ok(sock.into())",'N01'),
('dial-noprogress',R,"        Err(e) if e.raw_os_error() == Some(libc::EINPROGRESS) => {}\n","",'N01'),
('take-error-skip',R,"if let Some(err) = socket.take_error()? {","if let (Some(err), true) = (socket.take_error()?, socket.link.is_inbound()) {",'N01'),
('connected-always',R,"if self.connecting.remove(&addr) {","if self.connecting.remove(&addr) || socket.link.is_outbound() {",'N01'),
('connecting-kept',R,"if self.connecting.remove(&addr) {","if self.connecting.contains(&addr) {",'N01'),
('unreg-peers',R,"        self.peers.remove(&addr);\n","",'N01'),
('unreg-conn',R,"        self.connecting.remove(&addr);\n        self.peers","        self.peers",'N01'),
('unreg-source',R,"        self.sources.unregister(&Source::Peer(addr.clone()));\n","",'N01'),
('unreg-silent',R,"        service.disconnected(&addr, reason);\n    }\n}","        if self.peers.is_empty() {\n            service.disconnected(&addr, reason);\n        }\n    }\n}",'N01'),
('eof-ignored',R,"""                        socket.disconnect().ok();
                        self.unregister_peer(
                            addr,
                            Disconnect::ConnectionError(Arc::new(io::Error::from(
                                io::ErrorKind::ConnectionReset,
                            ))),
                            service,
                        );""","""                        socket.disconnect().ok();""",'N01'),
('read-err-ignored',R,"""                    socket.disconnect().ok();
                    self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);
                }
            }
        }
    }""","""                    socket.disconnect().ok();
                }
            }
        }
    }""",'N01'),
('read-wouldblock',R,"Err(err) if err.kind() == io::ErrorKind::WouldBlock => {\n                    // This","Err(err) if err.kind() == io::ErrorKind::Interrupted => {\n                    // This",'N01'),
('write-wouldblock',R,"if [io::ErrorKind::WouldBlock, io::ErrorKind::WriteZero].contains(&err.kind()) =>","if [io::ErrorKind::WriteZero].contains(&err.kind()) =>",'N01'),
('write-err-shutdown',R,"""                socket.disconnect().ok();
                self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);
            }
        }
        Ok(())""","""                self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);
            }
        }
        Ok(())""",'N01'),
('disc-noshutdown',R,"                        peer.disconnect().ok();\n","",'N01'),
('disc-unknown',R,"""                    if let Some(peer) = self.peers.get(&addr) {
                        trace!("{}: Disconnecting: {}", addr.to_socket_addr(), reason);""","""                    if !self.peers.contains_key(&addr) {
                        service.disconnected(&addr, reason.into());
                    } else if let Some(peer) = self.peers.get(&addr) {
                        trace!("{}: Disconnecting: {}", addr.to_socket_addr(), reason);""",'N01'),
('accept-block',R,"                                    conn.set_nonblocking(true)?;\n\n","",'N01'),
('accept-link',R,"let link = Link::Inbound;","let link = Link::Outbound;",'N01'),
('accept-noreg',R,"                                    self.register_peer(addr.clone(), conn, link);\n","",'N01'),
('accept-silent',R,"                                    service.connected(addr, &local_addr, link);\n                                }","                                    if self.peers.len() < 8 { service.connected(addr, &local_addr, link); }\n                                }",'N01'),
('svc-disc-drop',S,"        self.machine.disconnected(addr, reason)\n","        if self.inboxes.contains_key(addr) { self.machine.disconnected(addr, reason) }\n",'N01'),
('svc-disc-inbox',S,"        self.inboxes.remove(addr);\n","",'N02'),
('eq-unreg-inline',R,"        self.connecting.remove(&addr);\n        self.peers.remove(&addr);\n        self.sources.unregister(&Source::Peer(addr.clone()));","        let key = Source::Peer(addr.clone());\n        self.sources.unregister(&key);\n        self.peers.remove(&addr);\n        self.connecting.remove(&addr);",'ok'),
('eq-dial-match',R,"        Err(e) if e.raw_os_error() == Some(libc::EINPROGRESS) => {}\n","        Err(e) if matches!(e.raw_os_error(), Some(libc::EINPROGRESS)) => {}\n",'ok'),
('eq-accept-iflet',R,"                        Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {\n                            // Ignore. We are already establishing a connection through\n                            // this socket.\n                        }\n                        Err(err) => {\n","                        Err(err) => {\n                            if err.kind() == io::ErrorKind::AlreadyExists {\n                                continue;\n                            }\n",'ok'),
('eq-readable-early',R,"""        if let Some(socket) = self.peers.get_mut(&addr) {
            let mut buffer = [0; READ_BUFFER_SIZE];
""","""        if !self.peers.contains_key(&addr) {
            return;
        }
        if let Some(socket) = self.peers.get_mut(&addr) {
            let mut buffer = [0; READ_BUFFER_SIZE];
""",'ok'),
('eq-count-match',R,"if count > 0 {","if count != 0 {",'ok'),
# N02
('write-interest',R,"                            source.set(popol::interest::WRITE);\n                        }\n                    }\n                }\n                Io::Connect","                            if socket.link.is_outbound() {\n                                source.set(popol::interest::WRITE);\n                            }\n                        }\n                    }\n                }\n                Io::Connect",'N02'),
('push-front',K,"self.buffer.extend_from_slice(bytes);","self.buffer.splice(0..0, bytes.iter().cloned());",'N02'),
('push-replace',K,"self.buffer.extend_from_slice(bytes);","self.buffer = bytes.to_vec();",'N02'),
('push-limit',K,"self.buffer.extend_from_slice(bytes);","if self.buffer.len() + bytes.len() < 4 * 1024 * 1024 {\n            self.buffer.extend_from_slice(bytes);\n        }",'N02'),
('flush-clear',K,"self.buffer.drain(..n);","if n > 0 { self.buffer.clear(); }",'N02'),
('flush-nodrain',K,"self.buffer.drain(..n);","if n < self.buffer.len() { self.buffer.drain(..n); } else { self.buffer.truncate(0); }",'?'),
('flush-once',K,"while !self.buffer.is_empty() {","if !self.buffer.is_empty() {",'N02'),
('flush-zero',K,"Ok(0) => return Err(io::Error::from(io::ErrorKind::WriteZero)),","Ok(0) => return Ok(()),",'N02'),
('flush-err-clear',K,"Err(e) => return Err(e),","Err(e) => {\n                    self.buffer.clear();\n                    return Err(e);\n                }",'N02'),
('unset-always',R,"                source.set(popol::interest::WRITE);\n            }\n            Err(err) => {\n                error!","                source.unset(popol::interest::WRITE);\n            }\n            Err(err) => {\n                error!",'N02'),
('read-full',R,"Cow::Borrowed(&buffer[..count])","Cow::Borrowed(&buffer[..count.max(24)])",'N02'),
('input-replace',D,"self.unparsed.extend_from_slice(bytes);","if self.unparsed.len() > 32 * 1024 * 1024 { self.unparsed.clear(); }\n        self.unparsed.extend_from_slice(bytes);",'N02'),
('decode-clear',D,"self.unparsed.drain(..index);","self.unparsed.drain(..index.max(24));",'N02'),
('decode-eof-clear',D,"                Ok(None)\n","                self.unparsed.clear();\n                Ok(None)\n",'N02'),
('decode-err-none',D,"            Err(err) => Err(err),","            Err(encode::Error::ParseFailed(_)) => Ok(None),\n            Err(err) => Err(err),",'N02'),
('svc-one',S,"Ok(Some(msg)) => self.machine.message_received(addr, Cow::Owned(msg)),\n                    Ok(None) => break,","Ok(Some(msg)) => {\n                        self.machine.message_received(addr, Cow::Owned(msg));\n                        break;\n                    }\n                    Ok(None) => break,",'N02'),
('svc-err-nodisc',S,"""                        self.machine
                            .disconnect(*addr, p2p::DisconnectReason::DecodeError(Arc::new(err)));

                        return;""","""                        return;""",'N02'),
('svc-inbox-keep',S,"self.inboxes.insert(addr, p2p::stream::Decoder::new(1024));","self.inboxes.entry(addr).or_insert_with(|| p2p::stream::Decoder::new(1024));",'N02'),
('eq-drain-split',K,"self.buffer.drain(..n);","self.buffer.drain(0..n);",'ok'),
('eq-loop',K,"while !self.buffer.is_empty() {\n            match self.raw.write(&self.buffer) {\n                Err(e) => return Err(e),\n\n                Ok(0) => return Err(io::Error::from(io::ErrorKind::WriteZero)),\n                Ok(n) => {\n                    self.buffer.drain(..n);\n                }\n            }\n        }","loop {\n            if self.buffer.is_empty() {\n                break;\n            }\n            let n = self.raw.write(&self.buffer)?;\n            if n == 0 {\n                return Err(io::Error::from(io::ErrorKind::WriteZero));\n            }\n            self.buffer.drain(..n);\n        }",'ok'),
('eq-svc-while',S,"""            loop {
                match inbox.decode_next() {
                    Ok(Some(msg)) => self.machine.message_received(addr, Cow::Owned(msg)),
                    Ok(None) => break,

                    Err(err) => {""","""            loop {
                let result = inbox.decode_next();
                match result {
                    Ok(None) => return,
                    Ok(Some(msg)) => {
                        self.machine.message_received(addr, Cow::Owned(msg));
                        continue;
                    }
                    Err(err) => {""",'ok'),
# N03
('no-initialize',R,"        service.initialize(local_time);\n\n        self.process(&mut service, &mut publisher, local_time);\n","        self.process(&mut service, &mut publisher, local_time);\n        service.initialize(local_time);\n",'N03'),
('no-first-process',R,"        self.process(&mut service, &mut publisher, local_time);\n\n        // I/O","        // I/O",'N03'),
('no-tick',R,"            service.tick(local_time);\n","            if result.is_ok() { service.tick(local_time); }\n",'N03'),
('stale-time',R,"            let result = self.sources.wait_timeout(&mut events, timeout); // Blocking.\n            let local_time = SystemTime::now().into();\n","            let local_time = SystemTime::now().into();\n            let result = self.sources.wait_timeout(&mut events, timeout); // Blocking.\n",'N03'),
('wait-long',R,".unwrap_or(WAIT_TIMEOUT)\n                .into();",".unwrap_or(WAIT_TIMEOUT)\n                .max(LocalDuration::from_secs(60))\n                .into();",'N03'),
('timers-on-timeout',R,"""            self.timeouts.wake(local_time, &mut timeouts);

            if !timeouts""","""            if result_timed_out {
                self.timeouts.wake(local_time, &mut timeouts);
            }

            if !timeouts""",'?'),
('wake-twice',R,"                timeouts.clear();\n","",'N03'),
('reset-late',R,"""                                popol::Waker::reset(ev.source).ok();
""","",'N03'),
('reset-after',R,["""                                popol::Waker::reset(ev.source).ok();
""","""                                    service.command_received(cmd);
                                }
"""],["","""                                    service.command_received(cmd);
                                }
                                popol::Waker::reset(ev.source).ok();
"""],'N03'),
('cmd-one',R,"for cmd in commands.try_iter() {","if let Ok(cmd) = commands.try_recv() {",'N03'),
('cmd-take',R,"for cmd in commands.try_iter() {","for cmd in commands.try_iter().take(16) {",'N03'),
('cmd-len',R,"if commands.is_empty() {\n","if commands.is_empty() {\n                                    return Ok(());\n",'N03'),
('no-shutdown',R,"                                    return Ok(());\n","                                    break;\n",'N03'),
('interrupted-err',R,"                Err(err) if err.kind() == io::ErrorKind::Interrupted => {}\n","",'N03'),
('peer-else',R,"""                                if ev.is_readable() {
                                    self.handle_readable""","""                                else if ev.is_readable() {
                                    self.handle_readable""",'N03'),
('no-clear-events',R,"for ev in events.drain(..) {","for ev in events.iter() {",'?'),
('invalid-break',R,"                                    self.sources.unregister(&ev.key);\n                                    continue;","                                    self.sources.unregister(&ev.key);\n                                    break;",'?'),
('process-late',R,"            self.process(&mut service, &mut publisher, local_time);\n        }\n    }","            if !self.peers.is_empty() { self.process(&mut service, &mut publisher, local_time); }\n        }\n    }",'N03'),
('timer-drop',R,"self.timeouts.register((), local_time + timeout);","if timeout > LocalDuration::from_secs(0) { self.timeouts.register((), local_time + timeout); }",'N03'),
('event-drop',R,"                    publisher.publish(event);\n","                    if !self.peers.is_empty() { publisher.publish(event); }\n",'N03'),
('svc-timer',S,"        self.machine.timer_expired();\n","        if !self.inboxes.is_empty() { self.machine.timer_expired(); }\n",'N03'),
('svc-next-skip',S,"            Some(Io::SetTimer(d)) => Some(Io::SetTimer(d)),\n","            Some(Io::SetTimer(_)) => self.next(),\n",'N03'),
('listen-unreported',R,"            self.listening.send(local_addr).ok();\n","",'N03'),
('eq-recv',R,"for cmd in commands.try_iter() {","while let Ok(cmd) = commands.try_recv() {",'ok'),
('eq-match-err',R,"                Err(err) if err.kind() == io::ErrorKind::TimedOut => {}\n                // Nothing happened, we were only interrupted by a signal.\n                Err(err) if err.kind() == io::ErrorKind::Interrupted => {}\n                Err(err) => return Err(err.into()),","                Err(err) => match err.kind() {\n                    io::ErrorKind::TimedOut | io::ErrorKind::Interrupted => {}\n                    _ => return Err(err.into()),\n                },",'ok'),
('eq-woken',R,"            if !timeouts.is_empty() {\n                timeouts.clear();\n                service.timer_expired();\n            }","            let expired = !timeouts.is_empty();\n            timeouts.clear();\n            if expired {\n                service.timer_expired();\n            }",'ok'),
('eq-extract',R,["            self.timeouts.wake(local_time, &mut timeouts);\n\n            if !timeouts.is_empty() {\n                timeouts.clear();\n                service.timer_expired();\n            }\n","    fn handle_readable<S>(&mut self"],["            self.wake_timers(local_time, &mut timeouts, &mut service);\n","    fn wake_timers<S: Service<Id>>(\n        &mut self,\n        now: LocalTime,\n        woken: &mut Vec<()>,\n        service: &mut S,\n    ) {\n        self.timeouts.wake(now, woken);\n        if woken.is_empty() {\n            return;\n        }\n        woken.clear();\n        service.timer_expired();\n    }\n\n    fn handle_readable<S>(&mut self"],'ok'),
('eq-timeout-let',R,"            let timeout = self\n                .timeouts\n                .next(SystemTime::now())\n                .unwrap_or(WAIT_TIMEOUT)\n                .into();","            let timeout = match self.timeouts.next(SystemTime::now()) {\n                Some(t) => t,\n                None => WAIT_TIMEOUT,\n            }\n            .into();",'ok'),
# N04
('near-le',T,"t.diff(time) < self.threshold","t.diff(time) <= self.threshold",'N04'),
('near-one-sided',T,"t.diff(time) < self.threshold","*t <= time",'N04'),
('sort-asc',T,"|(_, a), (_, b)| b.cmp(a)","|(_, a), (_, b)| a.cmp(b)",'N04'),
('no-sort',T,"        self.timeouts.sort_unstable_by(|(_, a), (_, b)| b.cmp(a));\n","",'N04'),
('next-first',T,"self.timeouts.last().map(","self.timeouts.first().map(",'N04'),
('next-past',T,"LocalDuration::from_secs(0)\n            }","LocalDuration::from_secs(1)\n            }",'N04'),
('wake-strict',T,"if now >= t {","if now > t {",'N04'),
('wake-lose',T,"                self.timeouts.push((k, t));\n                break;","                break;",'N04'),
('wake-one',T,"                woken.push(k);\n","                woken.push(k);\n                break;\n",'N04'),
('threshold',R,"TimeoutManager::new(LocalDuration::from_secs(1))","TimeoutManager::new(LocalDuration::from_secs(10))",'N04'),
('eq-peek',T,"        while let Some((k, t)) = self.timeouts.pop() {\n            if now >= t {\n                woken.push(k);\n            } else {\n                self.timeouts.push((k, t));\n                break;\n            }\n        }","        while let Some((_, t)) = self.timeouts.last() {\n            if now < *t {\n                break;\n            }\n            if let Some((k, _)) = self.timeouts.pop() {\n                woken.push(k);\n            }\n        }",'ok'),
('eq-sortkey',T,"self.timeouts.sort_unstable_by(|(_, a), (_, b)| b.cmp(a));","self.timeouts.sort_by_key(|(_, t)| std::cmp::Reverse(*t));",'ok'),
('eq-next-match',T,"        self.timeouts.last().map(|(_, t)| {\n            if *t >= now {\n                *t - now\n            } else {\n                LocalDuration::from_secs(0)\n            }\n        })","        let (_, t) = self.timeouts.last()?;\n        if *t < now {\n            return Some(LocalDuration::from_secs(0));\n        }\n        Some(*t - now)",'ok'),
# N05
('emit-drop-all',E,".retain(|s| s.try_send(event.clone()).is_ok());",".retain(|s| s.try_send(event.clone()).is_ok() && s.len() < 4096);",'N05'),
('emit-first',E,".retain(|s| s.try_send(event.clone()).is_ok());",".iter().find(|s| s.try_send(event.clone()).is_ok());",'N05'),
('sub-bounded',E,"chan::unbounded();\n        let mut subs","chan::bounded(1024);\n        let mut subs",'N05'),
('wait-reset',E,"    let start = time::Instant::now();\n\n    loop {\n","    loop {\n        let start = time::Instant::now();\n",'N05'),
('wait-first',E,"                    if let Some(t) = f(event) {\n                        return Ok(t);\n                    }","                    return f(event).ok_or(chan::RecvTimeoutError::Timeout);",'N05'),
('eq-deadline',E,["    let start = time::Instant::now();\n\n    loop {\n        if let Some(timeout) = timeout.checked_sub(start.elapsed()) {"],["    let deadline = time::Instant::now() + timeout;\n\n    loop {\n        if let Some(timeout) = deadline.checked_duration_since(time::Instant::now()) {"],'ok'),
('eq-wait-timeout-err',E,"                Err(chan::RecvTimeoutError::Timeout) => {\n                    // Keep trying until our timeout reaches zero.\n                    continue;\n                }","                Err(err) => return Err(err),",'ok'),
('pub-break',C,"            p.publish(e.clone());\n","            p.publish(e.clone());\n            if self.publishers_done() { break; }\n",'?'),
('feed-unreg',C,"            .register(filters_pub)\n","",'N05'),
('feed-block-kind',C,"if let fsm::Event::BlockProcessed { block, height, .. } = e {\n                p.emit((block, height));","if let fsm::Event::BlockProcessed { block, height, .. } = e {\n                if !block.txdata.is_empty() { p.emit((block, height)); }",'N05'),
('eq-emit-loop',E,"        self.subscribers\n            .lock()\n            .unwrap()\n            .retain(|s| s.try_send(event.clone()).is_ok());","        let mut subs = self.subscribers.lock().unwrap();\n        subs.retain(|s| match s.try_send(event.clone()) {\n            Ok(()) => true,\n            Err(_) => false,\n        });",'ok'),
]
