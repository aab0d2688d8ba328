W='wallet/src/wallet.rs'; D='wallet/src/wallet/db.rs'
M=[
('skip-out',W,"for (vout, output) in tx.output.iter().enumerate() {","for (vout, output) in tx.output.iter().enumerate().take(16) {",'W01'),
('skip-zero',W,"            if scripts.contains(&output.script_pubkey) {","            if output.value > 546 && scripts.contains(&output.script_pubkey) {",'W01'),
('idx1',W,"vout as u32, addr","vout as u32 + 1, addr",'W01'),
('idx-filtered',W,["tx.output.iter().enumerate() {","            if scripts.contains(&output.script_pubkey) {"],["tx.output.iter().filter(|o| scripts.contains(&o.script_pubkey)).enumerate() {","            {"],'W01'),
('brk',W,"                    .add_utxo(txid, vout as u32, addr, output.value)\n                    .unwrap();","                    .add_utxo(txid, vout as u32, addr, output.value)\n                    .unwrap();\n                break;",'W01'),
('spend-cb',W,"        for input in tx.input.iter() {","        for input in tx.input.iter().skip(1) {",'W01'),
('spend-stop',W,"                // TODO: Handle change addresses?","                break;",'W01'),
('wtxid',W,"let txid = tx.txid();","let txid = tx.wtxid().to_string().parse().unwrap();",'W01'),
('del-novout',D,["DELETE FROM utxos WHERE txid = ? AND vout = ?","        stmt.bind(2, prev_out.vout as i64)?;\n"],["DELETE FROM utxos WHERE txid = ?",""],'W01'),
('del-noexec',D,"        stmt.next()?;\n\n        Ok(utxo)","        Ok(utxo)",'W01'),
('sum',D,"SELECT SUM(value) FROM utxos","SELECT SUM(value) FROM utxos WHERE value > 0 AND date > 0",'W01'),
('max',D,"SELECT SUM(value) FROM utxos","SELECT MAX(value) FROM utxos",'W01'),
('repl',D,"ON CONFLICT DO NOTHING","ON CONFLICT (txid, vout) DO UPDATE SET value = value + excluded.value",'W01'),
('swap',D,"INSERT INTO utxos (txid, vout, address, value, date)","INSERT INTO utxos (txid, value, address, vout, date)",'W01'),
('first',W,"                for t in &block.txdata {\n","                for t in block.txdata.iter().skip(1) {\n",'W01'),
('onlymatch',W,"                for t in &block.txdata {\n                    self.apply(t, watch);\n                }","                for t in &block.txdata {\n                    if t.output.iter().any(|o| watch.contains(&o.script_pubkey)) {\n                        self.apply(t, watch);\n                    }\n                }",'W01'),
('rev',W,"                for t in &block.txdata {\n","                for t in block.txdata.iter().rev() {\n",'W01'),
('bal-before',W,["                for t in &block.txdata {\n                    self.apply(t, watch);\n                }\n                let balance = self.balance()?;"],["                let balance = self.balance()?;\n                for t in &block.txdata {\n                    self.apply(t, watch);\n                }"],'W01'),
('rescan-tip',W,"self.client.rescan(birth.., watch.iter().cloned())?;","self.client.rescan(birth + 1.., watch.iter().cloned())?;",'W01'),
('rescan-part',W,"self.client.rescan(birth.., watch.iter().cloned())?;","self.client.rescan(birth.., watch.iter().take(16).cloned())?;",'W01'),
('watch-used',W,"            for addr in addresses {\n                self.watch.insert(addr.address);","            for addr in addresses {\n                if addr.used {\n                    continue;\n                }\n                self.watch.insert(addr.address);",'W01'),
('hw-nowatch',W,"                        self.watch.insert(addr);\n","",'W01'),
('hw-nodb',W,"                        self.db.add_address(&addr, ix, None)?;\n","",'W01'),
('val-i32',D,"sql::Value::Integer(value as i64)","sql::Value::Integer(value as i32 as i64)",'W01'),
('read-u32',D,"stmt.read::<i64>(0)? as u64","stmt.read::<i64>(0)? as u32 as u64",'W01'),
('utxos-value',D,"                TxOut {\n                    script_pubkey: address.script_pubkey(),\n                    value: *value,","                TxOut {\n                    script_pubkey: address.script_pubkey(),\n                    value: vout as u64 + *value,",'W01'),
('addresses-brk',D,"            let addr = AddressRecord::try_from(&row)?;\n            addrs.push(addr);","            let addr = AddressRecord::try_from(&row)?;\n            if addr.used { break; }\n            addrs.push(addr);",'W01'),
('ok-loop',W,"        for (vout, output) in tx.output.iter().enumerate() {","        for vout in 0..tx.output.len() {\n            let output = &tx.output[vout];",'ok'),
('ok-helper',W,["                for t in &block.txdata {\n                    self.apply(t, watch);\n                }","    fn handle_input(&mut self"],["                self.apply_block(&block, watch);","    fn apply_block(&mut self, block: &nakamoto_common::bitcoin::Block, watch: &[Script]) {\n        for t in block.txdata.iter() {\n            self.apply(t, watch);\n        }\n    }\n\n    fn handle_input(&mut self"],'ok'),
('ok-any',W,"            if scripts.contains(&output.script_pubkey) {","            if scripts.iter().any(|s| s == &output.script_pubkey) {",'ok'),
('ok-continue',W,["            if scripts.contains(&output.script_pubkey) {","                    .add_utxo(txid, vout as u32, addr, output.value)\n                    .unwrap();\n            }"],["            if !scripts.contains(&output.script_pubkey) {\n                continue;\n            }\n","                    .add_utxo(txid, vout as u32, addr, output.value)\n                    .unwrap();"],'ok'),
('ok-foreach',W,"                for t in &block.txdata {\n                    self.apply(t, watch);\n                }","                block.txdata.iter().for_each(|t| self.apply(t, watch));",'ok'),
('ok-txid',W,["        // Look for outputs.\n","                let txid = tx.txid();\n"],["        let txid = tx.txid();\n        // Look for outputs.\n",""],'ok'),
('ok-let',W,"            if let Ok(Some((_, _output))) = self.db.remove_utxo(&input.previous_output) {\n                // TODO: Handle change addresses?\n            }","            let _ = self.db.remove_utxo(&input.previous_output);",'ok'),
('ok-sql',D,"DELETE FROM utxos WHERE txid = ? AND vout = ?","DELETE FROM utxos\n                 WHERE txid = ?1 AND vout = ?2",'ok'),
('ok-balq',D,"        let balance = stmt.read::<i64>(0)? as u64;\n\n        Ok(balance)","        stmt.read::<i64>(0).map(|b| b as u64).map_err(Error::from)",'ok'),
('ok-utxo',D,"        if let Some(Ok(row)) = row {\n","        if let Some(Ok(ref row)) = row {\n",'ok'),
('ok-watch',W,"            for addr in addresses {\n                self.watch.insert(addr.address);\n            }","            self.watch.extend(addresses.into_iter().map(|a| a.address));",'ok'),
]
