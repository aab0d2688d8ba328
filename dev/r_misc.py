F='chain/src/filter/cache.rs'; W='wallet/src/wallet.rs'; D='wallet/src/wallet/db.rs'; B='common/src/collections.rs'; T='common/src/block/time.rs'; I='common/src/block/iter.rs'; TR='common/src/block/tree.rs'; ST='p2p/src/stream.rs'
def R(name,f,*ed): return (name,f,[e[0] for e in ed],[e[1] for e in ed],'ok')
def body(f,a,b,new):
    s=open('/repo/'+f).read(); i=s.index(a); j=s.index(b,i); return (s[i:j],new)
M=[
# filter cache
R('f-load',F,body(F,"        let mut headers = NonEmpty::new(header_store.genesis());","        Ok(Self {\n            header_store,\n            headers,","""        let genesis = header_store.genesis();
        let mut headers = NonEmpty::new(genesis);
        let mut height: Height = 0;

        for result in header_store.iter().skip(1) {
            let (_, header) = match result {
                Ok(item) => item,
                Err(err) => return Err(err),
            };
            height += 1;
            headers.push(header);

            if let ControlFlow::Break(()) = progress(height) {
                return Err(nakamoto_common::block::store::Error::Interrupted);
            }
        }

""")),
R('f-load-tail',F,("            headers.push(header);","            headers.tail.push(header);")),
R('f-verify',F,body(F,"        let mut prev_header = FilterHeader::all_zeros();","    }\n}\n\n#[allow(unused_variables)]","""        let genesis = FilterHeader::genesis(network);
        if self.headers.head.header != genesis {
            return Err(store::Error::Integrity);
        }
        let mut parent = FilterHeader::all_zeros();

        for (height, stored) in self.headers.iter().enumerate() {
            if stored.hash.filter_header(&parent) != stored.header {
                return Err(store::Error::Integrity);
            }
            parent = stored.header;

            match progress(height as Height) {
                ControlFlow::Continue(()) => {}
                ControlFlow::Break(()) => return Err(store::Error::Interrupted),
            }
        }
        Ok(())
""")),
R('f-verify-fn',F,("            let expected = stored_header.hash.filter_header(&prev_header);\n            let actual = stored_header.header;\n\n            if actual != expected {\n                return Err(store::Error::Integrity);\n            }\n            prev_header = actual;","            prev_header = Self::link(stored_header, &prev_header)?;"),
 ("    /// Verify the filter header chain. Returns","    fn link(stored: &StoredHeader, prev: &FilterHeader) -> Result<FilterHeader, store::Error> {\n        let expected = stored.hash.filter_header(prev);\n        if stored.header == expected {\n            Ok(stored.header)\n        } else {\n            Err(store::Error::Integrity)\n        }\n    }\n\n    /// Verify the filter header chain. Returns")),
R('f-get',F,body(F,"        self.headers\n            .get(height as usize)\n","    fn get_headers","""        let stored = self.headers.get(height as usize)?;

        Some((stored.hash, stored.header))
    }

""")),
R('f-gets',F,body(F,"        let (start, end) = (*range.start(), *range.end());","    fn import_headers","""        let (start, end) = range.into_inner();
        let count = end as usize - start as usize + 1;
        let mut out = Vec::with_capacity(count);

        for stored in self.headers.iter().skip(start as usize).take(count) {
            out.push((stored.hash, stored.header));
        }
        out
    }

""")),
R('f-import',F,body(F,"        let iter = headers\n","    fn tip(&self)","""        let stored: Vec<StoredHeader> = headers
            .into_iter()
            .map(|(hash, header)| StoredHeader { hash, header })
            .collect();

        for header in stored.iter() {
            self.headers.push(header.clone());
        }
        let height = self.header_store.put(stored.into_iter())?;

        Ok(height)
    }

""")),
R('f-tip',F,body(F,"        let StoredHeader { hash, header } = self.headers.last();","    fn height(&self)","""        let last = self.headers.last();

        (&last.hash, &last.header)
    }

""")),
R('f-height',F,("        self.headers.tail.len() as Height","        self.headers.len() as Height - 1")),
R('f-rollback',F,body(F,"        self.header_store.rollback(height)?;","    fn clear","""        match self.header_store.rollback(height) {
            Ok(()) => {
                self.headers.tail.truncate(height as usize);
                Ok(())
            }
            Err(err) => Err(err.into()),
        }
    }

""")),
R('f-clear',F,body(F,"        self.header_store.rollback(0)?;","}\n","""        self.rollback(0)
    """)),
# wallet
R('w-apply',W,body(W,"        // Look for inputs.","    /// Run the wallet loop","""        // Look for inputs.
        for outpoint in tx.input.iter().map(|i| &i.previous_output) {
            self.db.remove_utxo(outpoint).ok();
        }
    }

""")),
R('w-apply-fn',W,("            if scripts.contains(&output.script_pubkey) {","            if Self::is_ours(&output.script_pubkey, scripts) {"),("    /// Run the wallet loop","    fn is_ours(script: &Script, scripts: &[Script]) -> bool {\n        scripts.iter().any(|s| s == script)\n    }\n\n    /// Run the wallet loop")),
R('w-txid',W,("        // Look for inputs.","        // Look for the inputs."),("                let txid = tx.txid();\n",""),("                    .add_utxo(txid, vout as u32","                    .add_utxo(tx.txid(), vout as u32")),
R('w-ev',W,("                for t in &block.txdata {\n                    self.apply(t, watch);\n                }\n                let balance = self.balance()?;\n                self.ui.set_balance(balance);\n","                let balance = self.process(&block, watch)?;\n                self.ui.set_balance(balance);\n"),("    fn handle_input(&mut self","    fn process(&mut self, block: &nakamoto_common::block::Block, watch: &[Script]) -> Result<u64, Error> {\n        block.txdata.iter().for_each(|t| self.apply(t, watch));\n        self.balance()\n    }\n\n    fn handle_input(&mut self")),
R('w-watch',W,("        let watch: Vec<_> = self.watch.iter().map(|a| a.script_pubkey()).collect();","        let mut watch = Vec::with_capacity(self.watch.len());\n        for addr in self.watch.iter() {\n            watch.push(addr.script_pubkey());\n        }")),
R('d-balance',D,("        stmt.next()?;\n\n        let balance = stmt.read::<i64>(0)? as u64;\n\n        Ok(balance)","        stmt.next()?;\n        stmt.read::<i64>(0).map(|sum| sum as u64).map_err(Error::from)")),
R('d-balance2',D,('"SELECT SUM(value) FROM utxos"','"SELECT COALESCE(SUM(value), 0) FROM utxos"')),
R('d-utxo',D,body(D,"        if let Some(Ok(row)) = row {","    fn utxos(&self)","""        let row = match row {
            Some(Ok(row)) => row,
            _ => return Ok(None),
        };
        let address = row.get::<String, _>("address");
        let address = Address::from_str(&address).map_err(|_| Error::Decoding("address"))?;
        let output = TxOut {
            script_pubkey: address.script_pubkey(),
            value: row.get::<i64, _>("value") as u64,
        };
        Ok(Some((*outpoint, output)))
    }

""")),
R('d-remove',D,body(D,"        // TODO: Should execute this in a transaction.","    fn add_address(\n        &self,\n        address: &Address,\n        index: usize,\n        label: Option<&str>,\n    ) -> Result<bool, Error> {\n        self","""        // TODO: Should execute this in a transaction.
        let utxo = self.utxo(prev_out)?;
        let txid = prev_out.txid.to_string();
        let vout = i64::from(prev_out.vout);
        let mut stmt = self
            .raw
            .prepare("DELETE FROM utxos WHERE txid = ? AND vout = ?")?;

        stmt.bind(1, txid.as_str())?;
        stmt.bind(2, vout)?;
        stmt.next()?;

        Ok(utxo)
    }

""")),
R('d-add',D,("""        Ok(self.raw.change_count() > 0)
    }

    fn remove_utxo""","""        let changed = self.raw.change_count();

        Ok(changed != 0)
    }

    fn remove_utxo""")),
# collections
R('b-sample',B,body(B,"        if let Some(pairs) = NonEmpty::from_vec(","    /// Cycle through","""        let pairs: Vec<(&K, &V)> = self
            .inner
            .iter()
            .filter(|(k, v)| predicate(*k, *v))
            .collect();

        if pairs.is_empty() {
            return None;
        }
        let ix = self.rng.usize(..pairs.len());

        pairs.get(ix).copied()
    }

""")),
R('b-sample2',B,body(B,"        if let Some(pairs) = NonEmpty::from_vec(","    /// Cycle through","""        let pairs: Vec<(&K, &V)> = self
            .inner
            .iter()
            .filter(|(k, v)| predicate(*k, *v))
            .collect();

        if pairs.is_empty() {
            return None;
        }
        Some(pairs[self.rng.usize(0..pairs.len())])
    }

""")),
R('b-shuf',B,("        let mut keys = self.inner.iter().collect::<Vec<_>>();\n        self.rng.shuffle(&mut keys);\n\n        keys.into_iter()","        let mut pairs: Vec<(&K, &V)> = Vec::with_capacity(self.inner.len());\n        pairs.extend(self.inner.iter());\n        self.rng.shuffle(&mut pairs);\n\n        pairs.into_iter()")),
# adjusted time
R('t-from',T,("""        let adjustment = self.offset;

        if adjustment > 0 {
            time + adjustment as BlockTime
        } else {
            time - adjustment.unsigned_abs() as BlockTime
        }""","""        match self.offset {
            n if n > 0 => time + n as BlockTime,
            n => time - n.unsigned_abs() as BlockTime,
        }""")),
R('t-rec',T,body(T,"        if self.sources.len() == MAX_TIME_SAMPLES {","    /// Get the median network time offset.","""        if self.sources.len() == MAX_TIME_SAMPLES || !self.sources.insert(source) {
            return;
        }
        self.samples.push(sample);

        let count = self.samples.len();
        if count < MIN_TIME_SAMPLES || count % 2 == 0 {
            return;
        }
        let mut offsets = self.samples.clone();
        offsets.sort_unstable();

        let median = offsets[count / 2];
        self.offset = if median.saturating_abs() > MAX_TIME_ADJUSTMENT {
            0
        } else {
            median
        };
        #[cfg(feature = "log")]
        log::debug!("Time offset adjusted to {} seconds", self.offset);
    }

""")),
R('t-median-fn',T,("            let median_offset: TimeOffset = offsets[count / 2];","            let median_offset = Self::middle(&offsets);"),("    /// Get the median network time offset.","    fn middle(sorted: &[TimeOffset]) -> TimeOffset {\n        sorted[sorted.len() / 2]\n    }\n\n    /// Get the median network time offset.")),
R('i-next',I,("        let height = self.next;\n        self.next += 1;\n\n        self.chain.get(height).map(|item| (height as Height, item))","        let item = self.chain.get(self.next)?;\n        let height = self.next as Height;\n        self.next += 1;\n\n        Some((height, item))")),
R('tr-work',TR,("        let mut work = Work::default();\n        for header in self.0.iter() {\n            work = work + header.work();\n        }\n        work","        self.0\n            .iter()\n            .fold(Work::default(), |work, header| work + header.work())")),
R('st-next',ST,("                self.unparsed.drain(..index);\n                Ok(Some(msg))","                let rest = self.unparsed.split_off(index);\n                self.unparsed = rest;\n                Ok(Some(msg))")),
# rules added late
R('prev-checked','common/src/block/filter.rs',body('common/src/block/filter.rs',"        if height == 0 {\n            // If","    /// Rollback filter chain","""        match height.checked_sub(1) {
            // If the start height is `0` (genesis), we return the zero hash as the parent.
            None => Some(FilterHeader::all_zeros()),
            Some(parent) => self.get_header(parent).map(|(_, header)| header),
        }
    }
""")),
R('prev-early','common/src/block/filter.rs',body('common/src/block/filter.rs',"        if height == 0 {\n            // If","    /// Rollback filter chain","""        if height > 0 {
            let (_, header) = self.get_header(height - 1)?;
            return Some(header);
        }
        Some(FilterHeader::all_zeros())
    }
""")),
R('ckpt-iter','common/src/network.rs',body('common/src/network.rs',"        let iter = match self {\n            Network::Mainnet => checkpoints::MAINNET","    /// Return the short string","""        let table: &'static [(u64, &'static str)] = match *self {
            Self::Signet => checkpoints::SIGNET,
            Self::Regtest => checkpoints::REGTEST,
            Self::Testnet => checkpoints::TESTNET,
            Self::Mainnet => checkpoints::MAINNET,
        };
        Box::new(
            table
                .iter()
                .map(|(height, hash)| (*height, BlockHash::from_hex(hash).unwrap())),
        )
    }

""")),
R('work-map',TR,("        let mut work = Work::default();\n        for header in self.0.iter() {\n            work = work + header.work();\n        }\n        work","        self.0\n            .iter()\n            .map(|header| header.work())\n            .fold(Work::default(), |total, work| total + work)")),
]
