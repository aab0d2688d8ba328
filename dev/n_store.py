S='chain/src/block/store/io.rs'; F='chain/src/filter/cache.rs'; T='common/src/block/time.rs'; Y='chain/src/block/store/memory.rs'
M=[
('s1',S,'    let mut pos = stream.seek(io::SeekFrom::End(0))?;','    let mut pos = stream.seek(io::SeekFrom::Current(0))?;','C08'),
('s2',S,'            self.index += buf.len() as u64;','            self.index += (size * Self::BATCH_SIZE) as u64;','?'),
('s3',S,'            for _ in 0..items {\n                cursor.read_exact(&mut item)?;','            for _ in 0..items.min(Self::BATCH_SIZE - 1) {\n                cursor.read_exact(&mut item)?;','C08'),
('s4',S,'            Err(err) => Some(Err(err)),\n            Ok(Some(header))','            Err(Error::Decoding(_)) => None,\n            Err(err) => Some(Err(err)),\n            Ok(Some(header))','C08,C07'),
('s5',S,'        let extraneous = len as usize % size;\n        if extraneous != 0 {','        let extraneous = len as usize % size;\n        if extraneous != 0 && len as usize > size {','C08'),
('s6',S,'            self.file.set_len(len - extraneous as u64)?;','            self.file.set_len(len - size as u64)?;','C08'),
('s7',S,'            self.file.set_len(len - extraneous as u64)?;','            self.file.set_len(len + (size - extraneous) as u64)?;','C08'),
('s8',S,'        if len as usize % size != 0 {','        if len as usize % size != 0 && len as usize / size > 0 {','C08'),
('s9',S,'        self.file.sync_data().map_err(Error::from)','        if self.height()? % 2 == 0 {\n            return Ok(());\n        }\n        self.file.sync_data().map_err(Error::from)','C08'),
('s10',S,'            .set_len((height) * size as u64)','            .set_len((height + 1) * size as u64)','C08,C05'),
('s11',S,'    stream.read_exact(&mut buf)?;\n\n    H::consensus_decode','    let n = stream.read(&mut buf)?;\n    if n == 0 {\n        return Err(Error::from(io::Error::from(io::ErrorKind::UnexpectedEof)));\n    }\n\n    H::consensus_decode','C08'),
('s12',S,'            Ok(Some(header)) => {\n                self.height = height + 1;','            Ok(Some(header)) => {\n                self.height += self.height.min(1);','?'),
('s13',S,'        pos += header.consensus_encode(&mut stream)? as u64;\n','        match header.consensus_encode(&mut stream) {\n            Ok(n) => pos += n as u64,\n            Err(e) if e.kind() == io::ErrorKind::WouldBlock => break,\n            Err(e) => return Err(e.into()),\n        }\n','C08'),
('s14',S,'        fs::OpenOptions::new()\n            .create(true)\n            .read(true)\n            .append(true)\n            .open(path)\n','        fs::OpenOptions::new()\n            .create(true)\n            .read(true)\n            .write(true)\n            .open(path)\n','?'),
('s15',S,'        fs::OpenOptions::new()\n            .create(true)\n            .read(true)\n            .append(true)\n            .open(path)\n','        fs::OpenOptions::new()\n            .create(true)\n            .read(true)\n            .write(true)\n            .truncate(true)\n            .open(path)\n','C08,H02'),
('f1',F,'        self.headers.tail.extend(iter.clone());\n        self.header_store.put(iter).map_err(Error::from)','        self.header_store.put(iter.clone()).map_err(Error::from)?;\n        self.headers.tail.extend(iter);\n        Ok(self.height() + 1)','?'),
('f2',F,'        self.headers.tail.extend(iter.clone());\n','        self.headers\n            .tail\n            .extend(iter.clone().filter(|h| h.hash != FilterHash::all_zeros()));\n','F01'),
('f3',F,'            prev_header = actual;\n','            prev_header = stored_header.hash.filter_header(&actual);\n','F02'),
('f4',F,'        for (height, stored_header) in self.headers.iter().enumerate() {','        for (height, stored_header) in self.headers.iter().enumerate().step_by(1).take(self.headers.tail.len()) {','F02'),
('f5',F,'            if progress(height as Height).is_break() {\n                return Err(store::Error::Interrupted);','            if progress(height as Height).is_break() {\n                return Ok(());','F02'),
('f6',F,'        self.headers.tail.truncate(height as usize);\n','        if height > 0 {\n            self.headers.tail.truncate(height as usize);\n        }\n','F01'),
('f7',F,'        self.header_store.rollback(height)?;\n        self.headers.tail.truncate','        if let Err(e) = self.header_store.rollback(height) {\n            self.headers.tail.truncate(height as usize);\n            return Err(e.into());\n        }\n        self.headers.tail.truncate','F01'),
('f8',F,'.take(end as usize - start as usize + 1)','.take((end as usize - start as usize + 1).min(1000))','F01,F09'),
('f9',F,'        self.header_store.rollback(0)?;\n        self.headers.tail.clear();','        self.headers.tail.clear();\n        self.header_store.rollback(0).ok();','F01'),
('f10',F,'        self.headers\n            .get(height as usize)\n            .map(|s| (s.hash, s.header))','        self.headers\n            .get(height as usize)\n            .or_else(|| self.headers.tail.last())\n            .map(|s| (s.hash, s.header))','F01'),
('t1',T,'        if self.sources.len() == MAX_TIME_SAMPLES {','        if self.samples.len() == MAX_TIME_SAMPLES {','?'),
('t2',T,'            let median_offset: TimeOffset = offsets[count / 2];','            let median_offset: TimeOffset = offsets[(count - 1) / 2];','?'),
('t3',T,'            let median_offset: TimeOffset = offsets[count / 2];','            let median_offset: TimeOffset = self.samples[count / 2];','T01'),
('t4',T,'                self.offset = 0;\n            }\n            #[cfg','                self.offset = self.offset.signum() * MAX_TIME_ADJUSTMENT;\n            }\n            #[cfg','T01'),
('t5',T,'median_offset.saturating_abs() <= MAX_TIME_ADJUSTMENT','median_offset <= MAX_TIME_ADJUSTMENT','T01'),
('t6',T,'        if count % 2 == 1 {','        if count % 2 == 1 || self.offset == 0 {','T01'),
('t7',T,'        if adjustment > 0 {\n            time + adjustment as BlockTime','        if adjustment > 0 {\n            time - adjustment as BlockTime','T01'),
('t8',T,'        offsets.sort_unstable();\n','        offsets.sort_unstable_by_key(|o| o.abs());\n','T01'),
('t9',T,'        self.samples.push(sample);\n','        self.samples.push(sample - self.offset);\n','T01'),
('t10',T,'        self.local_time = time;\n','        if time > self.local_time {\n            self.local_time = time;\n        }\n','?'),
]
