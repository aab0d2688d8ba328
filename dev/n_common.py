T='net/src/time.rs'; P='common/src/p2p/peer.rs'; B='common/src/block/store.rs'; BF='common/src/block/filter.rs'; N='common/src/network.rs'; C='common/src/collections.rs'; A='common/src/block/time.rs'; I='common/src/block/iter.rs'; TR='common/src/block/tree.rs'; F='chain/src/filter/cache.rs'; D='wallet/src/wallet/db.rs'; W='wallet/src/wallet.rs'
M=[
('t1',T,"        if now < last {\n            Self::from_secs(last)","        if now + 60 < last {\n            Self::from_secs(last)",'?'),
('t2',T,"        if self > &other {\n            self.duration_since(other)","        if self > &other {\n            LocalDuration::from_millis(0)",'N04'),
('t3',T,"LocalDuration(self.millis.saturating_sub(other.millis))","LocalDuration(self.millis - other.millis)",'?'),
('p1',P,"            Entry::Occupied(_) => return false,\n        }\n        true\n    }\n\n    fn iter<'a>(&'a self) -> Box<dyn Iterator<Item = (&net::IpAddr, &KnownAddress)> + 'a> {\n        Box::new(self.iter())\n    }\n\n    fn clear(&mut self) {\n        self.clear()\n    }\n\n    fn len(&self) -> usize {\n        self.len()\n    }\n\n    fn flush(&mut self) -> std::io::Result<()> {\n        Ok(())\n    }\n}\n\n/// Address source","            Entry::Occupied(mut o) => {\n                o.insert(ka);\n                return false;\n            }\n        }\n        true\n    }\n\n    fn iter<'a>(&'a self) -> Box<dyn Iterator<Item = (&net::IpAddr, &KnownAddress)> + 'a> {\n        Box::new(self.iter())\n    }\n\n    fn clear(&mut self) {\n        self.clear()\n    }\n\n    fn len(&self) -> usize {\n        self.len()\n    }\n\n    fn flush(&mut self) -> std::io::Result<()> {\n        Ok(())\n    }\n}\n\n/// Address source",'A01'),
('b1',BF,"            self.get_header(height - 1).map(|(_, h)| h)","            self.get_header(height.saturating_sub(2)).map(|(_, h)| h)",'F04,F09'),
('b2',BF,"        if height == 0 {\n            // If","        if height <= 1 {\n            // If",'F04,F09'),
('n1',N,"            Services::All => Self::COMPACT_FILTERS | Self::NETWORK,","            Services::All => Self::COMPACT_FILTERS,",'?'),
('n2',N,"            Network::Testnet => checkpoints::TESTNET,","            Network::Testnet => checkpoints::MAINNET,",'C03'),
('n3',N,"            Network::Signet => Self::Signet,\n        }\n    }\n}\n\nimpl From<bitcoin","            Network::Signet => Self::Testnet,\n        }\n    }\n}\n\nimpl From<bitcoin",'?'),
('c1',C,"                .filter(|(k, v)| predicate(*k, *v))","                .filter(|(k, v)| predicate(*k, *v) || self.inner.len() == 1)",'S02,F06,I05'),
('c2',C,"        self.rng.shuffle(&mut keys);","        keys.truncate(8);\n        self.rng.shuffle(&mut keys);",'?'),
('c3',C,"            let ix = self.rng.usize(..pairs.len());","            let ix = self.rng.usize(..=pairs.len());",'M06'),
('c4',C,"            let ix = self.rng.usize(..pairs.len());","            let ix = self.rng.usize(..self.inner.len());",'M06'),
('a1',A,"            if median_offset.saturating_abs() <= MAX_TIME_ADJUSTMENT {","            if median_offset <= MAX_TIME_ADJUSTMENT {",'T01'),
('a2',A,"            time - adjustment.unsigned_abs() as BlockTime","            time.saturating_add(adjustment.unsigned_abs() as BlockTime)",'T01'),
('a3',A,"        let mut offsets = self.samples.clone();","        let mut offsets = self.samples[1..].to_vec();",'T01'),
('i1',I,"        if self.next == self.next_back {\n            return None;\n        }\n        let height","        if self.next + 1 == self.next_back {\n            return None;\n        }\n        let height",'?'),
('tr1',TR,"        for header in self.0.iter() {\n            work","        for header in self.0.iter().skip(1) {\n            work",'C04'),
('f1',F,"            prev_header = actual;","            if height > 0 {\n                prev_header = actual;\n            }",'?'),
('f2',F,"        self.header_store.rollback(height)?;\n        self.headers","        if height < self.height() {\n            self.header_store.rollback(height)?;\n        }\n        self.headers",'?'),
('f3',F,"            .take(end as usize - start as usize + 1)","            .take(end as usize - start as usize)",'F01'),
('f4',F,"        self.header_store.rollback(0)?;","        self.header_store.rollback(1)?;",'F01'),
('d1',D,"        stmt.bind(2, prev_out.vout as i64)?;\n        stmt.next()?;","        stmt.bind(2, prev_out.vout as i64)?;\n        if utxo.as_ref().map_or(false, |(_, o)| o.value > 0) {\n            stmt.next()?;\n        }",'W01'),
('d2',D,"        while let Some(Ok(row)) = stmt.next() {\n            let Record","        if let Some(Ok(row)) = stmt.next() {\n            let Record",'W01'),
('w1',W,"        for input in tx.input.iter() {","        for input in tx.input.iter().skip(1) {",'W01'),
('w2',W,"                    .add_utxo(txid, vout as u32, addr, output.value)","                    .add_utxo(txid, vout as u8 as u32, addr, output.value)",'W01'),
('w3',W,"            if scripts.contains(&output.script_pubkey) {","            if scripts.first() == Some(&output.script_pubkey) {",'W01'),
('k2','common/src/block/checkpoints.rs',"(193000, ","(191000, ",'C03'),
('k3','common/src/block/checkpoints.rs',"(546, ","(545, ",'C03'),
]
