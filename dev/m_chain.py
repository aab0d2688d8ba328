C='chain/src/block/cache.rs'; S='chain/src/block/store/io.rs'; T='common/src/block/tree.rs'
M=[
('mtp-lt',C,'if header.time <= self.median_time_past(height)','if header.time < self.median_time_past(height)','C01'),
('mtp-tip',C,'if header.time <= self.median_time_past(height)','if header.time <= self.median_time_past(tip.height.max(1))','C01'),
('future',C,'clock.block_time() + time::MAX_FUTURE_BLOCK_TIME','clock.block_time() + 2 * time::MAX_FUTURE_BLOCK_TIME','C01'),
('chk-height',C,'self.checkpoints.get(&height)','self.checkpoints.get(&tip.height)','C01'),
('min-and',C,'if header.bits != pow_limit_bits\n                || height','if header.bits != pow_limit_bits\n                && height','C01'),
('min-norev',C,'for (height, header) in self.iter().rev()','for (height, header) in self.iter()','C01'),
('spacing',C,'self.params.pow_target_spacing as BlockTime * 2','self.params.pow_target_spacing as BlockTime','C01'),
('branch-stop',C,'for header in candidate.headers.iter() {\n            self.validate(&tip, header, clock)?;','for header in candidate.headers.iter().take(1) {\n            self.validate(&tip, header, clock)?;','C01'),
('branch-noheight',C,'height: tip.height + 1,\n                header: *header,','height: tip.height,\n                header: *header,','C01'),
('cand-novalid',C,'if self.validate_branch(&branch, clock).is_ok() {','if branch.headers.len() == 1 || self.validate_branch(&branch, clock).is_ok() {','C01'),
('lost-order',C,'if candidate_work < lost_work {','if candidate_work > lost_work + lost_work {','C04'),
('added-ge',C,'if added > best_work {','if added >= best_work {','C04'),
('bestwork',C,'                best_work = added;\n','','C04'),
('dup-orphan',C,'self.headers.contains_key(&hash) || self.orphans.contains_key(&hash)','self.headers.contains_key(&hash)','C03'),
('limit',C,'if target > limit {','if target > limit && !self.params.allow_min_difficulty_blocks {','C03'),
('chkfork',C,'if *height < self.last_checkpoint()','if *height + 1 < self.last_checkpoint()','C03'),
('orph-remove',C,'        self.orphans.remove(&hash);\n        self.chain.push','        self.chain.push','C05'),
('rb-nowork',C,'            self.chainwork = self.chainwork - block.work();\n','','C05'),
('rb-height',C,'.zip(height + 1..)','.zip(height..)','C05'),
('rb-store',C,'self.store.rollback(height)?;','self.store.rollback(height).ok();','C05'),
('fork-put1',C,'self.store.put(branch.headers.iter().cloned())?;','self.store.put(branch.headers.iter().skip(1).cloned())?;','C05'),
('ext-noput',C,'self.store.put(std::iter::once(header))?;','let _ = self.store.put(std::iter::once(header));','C05'),
('rev-seen',C,'!seen.contains(h) && !self.contains(h)','!self.contains(h)','C06'),
('rev-or',C,'!seen.contains(h) && !self.contains(h)','!seen.contains(h) || !self.contains(h)','C06'),
('conn-noretain',C,'            connected.retain(|_, h| self.contains(&h.block_hash()));\n','','C06'),
('rev-norev',C,'                    .rev()\n                    .map(|((i, _), h)| (i, h))','                    .map(|((i, _), h)| (i, h))','C06'),
('missing-abort',C,'Err(Error::BlockMissing(hash)) => log::trace!("Missing block {}", hash),\n','','C06'),
('err-continue',C,'Err(err) => return Err(Error::BlockImportAborted(err.into(), i, self.height())),','Err(Error::InvalidBlockPoW) => {}\n                Err(err) => return Err(Error::BlockImportAborted(err.into(), i, self.height())),','C06'),
('besthash',C,'                    best_hash = hash;\n','','C06'),
('conn-start',C,'let start = branch.fork_height + 1;','let start = branch.fork_height;','C06'),
('load-skip0',C,'self.store.iter().skip(1)','self.store.iter().skip(2)','C07'),
('load-nowork',C,'            self.chainwork = self.chainwork + header.work();\n\n            if progress','            if progress','C07'),
('load-idx',C,'self.headers.insert(cb.prev_blockhash, cb.height - 1);','self.headers.insert(cb.prev_blockhash, cb.height);','C07'),
('load-genesis',C,'            if genesis != header.prev_blockhash {\n                return Err(Error::GenesisMismatch);\n            }\n','','C07'),
('load-net',C,'if common::network::Network::from(self.params.network).genesis_hash() != genesis {','if common::network::Network::from(self.params.network).genesis_hash() != genesis && self.chain.len() > 2 {','C07'),
('store-err',C,'            let (height, header) = result?;\n\n            self.chain.push','            let (height, header) = match result { Ok(r) => r, Err(_) => break };\n\n            self.chain.push','C07'),
('put-cur',S,'stream.seek(io::SeekFrom::End(0))?','stream.seek(io::SeekFrom::Current(0))?','C08'),
('get-ix',S,'io::SeekFrom::Start(ix * size as u64)','io::SeekFrom::Start((ix + 1) * size as u64)','C08'),
('rb-size',S,'.set_len((height) * size as u64)','.set_len((height + 1) * size as u64)','C08'),
('heal-more',S,'self.file.set_len(len - extraneous as u64)?;','self.file.set_len(len - size as u64)?;','C08'),
('len-nocheck',S,'        if len as usize % size != 0 {\n            return Err(Error::Corruption);\n        }\n','','C08'),
('rd-index',S,'self.index += buf.len() as u64;','self.index += (size * Self::BATCH_SIZE) as u64;','C08'),
('it-err',S,'Err(err) => Some(Err(err)),','Err(_) => None,','C08'),
('it-height',S,'height: 1,\n','height: 0,\n','C08'),
('trunc',S,'.create(true)\n            .read(true)\n            .append(true)','.create(true)\n            .read(true)\n            .write(true)\n            .truncate(true)','C08'),
('loc-nocap',C,'let stop = Height::min(start + max_headers as Height, stop + 1);','let _ = max_headers; let stop = stop + 1;','C09'),
('loc-start',C,'        let start = start + 1;\n','','C09'),
('loc-chk',C,'if height < last_checkpoint {\n','if false && height < last_checkpoint {\n','C09'),
('retarget-clamp',T,'adjusted_timespan = params.pow_target_timespan as BlockTime / 4','adjusted_timespan = params.pow_target_timespan as BlockTime / 2','C02'),
# refactorings
('ok-validate-order',C,'''        if header.time <= self.median_time_past(height) {
            return Err(Error::InvalidBlockTime(header.time, Ordering::Less));
        }
        if header.time > clock.block_time() + time::MAX_FUTURE_BLOCK_TIME {
            return Err(Error::InvalidBlockTime(header.time, Ordering::Greater));
        }
''','''        let max = clock.block_time() + time::MAX_FUTURE_BLOCK_TIME;
        let min = self.median_time_past(height);
        match header.time {
            t if t > max => return Err(Error::InvalidBlockTime(t, Ordering::Greater)),
            t if !(t > min) => return Err(Error::InvalidBlockTime(t, Ordering::Less)),
            _ => {}
        }
''','ok'),
('ok-target-helper',C,['''        let compact_target = if self.params.allow_min_difficulty_blocks
            && (tip.height + 1) % self.params.difficulty_adjustment_interval() != 0
        {
            if header.time > tip.time + self.params.pow_target_spacing as BlockTime * 2 {
                block::pow_limit_bits(&self.params.network)
            } else {
                self.next_min_difficulty_target(&self.params)
            }
        } else {
            self.next_difficulty_target(tip.height, tip.time, tip.target(), &self.params)
        };

        let target = BlockHeader::u256_from_compact_target(compact_target);
''','''    /// Get the next minimum-difficulty target.'''],['''        let target = BlockHeader::u256_from_compact_target(self.required_bits(tip, header));
''','''    fn required_bits(&self, tip: &CachedBlock, header: &BlockHeader) -> Bits {
        let next = tip.height + 1;
        let boundary = next % self.params.difficulty_adjustment_interval() == 0;
        if boundary || !self.params.allow_min_difficulty_blocks {
            return self.next_difficulty_target(tip.height, tip.time, tip.target(), &self.params);
        }
        let late = tip.time + self.params.pow_target_spacing as BlockTime * 2;
        if header.time <= late {
            return self.next_min_difficulty_target(&self.params);
        }
        block::pow_limit_bits(&self.params.network)
    }

    /// Get the next minimum-difficulty target.'''],'ok'),
('ok-median',C,'''        let mut times = [0; time::MEDIAN_TIME_SPAN as usize];

        let start = height.saturating_sub(time::MEDIAN_TIME_SPAN);
        let end = height;

        for (i, blk) in self.range(start..end).enumerate() {
            times[i] = blk.time;
        }
''','''        let mut times = [0; time::MEDIAN_TIME_SPAN as usize];
        let end = height;
        let start = if end < time::MEDIAN_TIME_SPAN { 0 } else { end - time::MEDIAN_TIME_SPAN };
        let mut i = 0;

        for blk in self.range(start..end) {
            times[i] = blk.time;
            i += 1;
        }
''','ok'),
('ok-validate-branch',C,'''        let mut tip = CachedBlock {
            height: candidate.fork_height,
            header: candidate.fork_header,
        };

        for header in candidate.headers.iter() {
            self.validate(&tip, header, clock)?;

            tip = CachedBlock {
                height: tip.height + 1,
                header: *header,
            };
        }
        Ok(())
''','''        let mut height = candidate.fork_height;
        let mut parent = candidate.fork_header;

        for header in &candidate.headers {
            let tip = CachedBlock { height, header: parent };
            if let Err(e) = self.validate(&tip, header, clock) {
                return Err(e);
            }
            height += 1;
            parent = *header;
        }
        Ok(())
''','ok'),
('ok-switch',C,'''        for (i, header) in branch.headers.iter().enumerate() {
            self.extend_chain(
                branch.fork_height + i as Height + 1,
                header.block_hash(),
                *header,
            );
        }
''','''        let mut height = branch.fork_height;
        for header in branch.headers.iter() {
            height += 1;
            self.extend_chain(height, header.block_hash(), *header);
        }
''','ok'),
('ok-extend-order',C,'''        self.headers.insert(hash, height);
        self.orphans.remove(&hash);
        self.chain.push(CachedBlock { height, header });
        self.chainwork = self.chainwork + header.work();
''','''        let work = header.work();
        let block = CachedBlock { height, header };
        self.chainwork = work + self.chainwork;
        self.chain.push(block);
        self.orphans.remove(&hash);
        self.headers.insert(hash, height);
''','ok'),
('ok-rollback',C,'''        for (block, height) in self.chain.tail.drain(height as usize..).zip(height + 1..) {
            stale.push((height, block.header));

            self.chainwork = self.chainwork - block.work();
            self.headers.remove(&block.hash());
            self.orphans.insert(block.hash(), block.header);
        }
''','''        for block in self.chain.tail.drain(height as usize..) {
            let hash = block.hash();
            self.headers.remove(&hash);
            self.orphans.insert(hash, block.header);
            self.chainwork = self.chainwork - block.header.work();
            stale.push((block.height, block.header));
        }
''','ok'),
('ok-import-match',C,'''                Ok(ImportResult::TipUnchanged) => {}
                Err(Error::DuplicateBlock(hash)) => log::trace!("Duplicate block {}", hash),
                Err(Error::BlockMissing(hash)) => log::trace!("Missing block {}", hash),
                Err(err) => return Err(Error::BlockImportAborted(err.into(), i, self.height())),
''','''                Ok(ImportResult::TipUnchanged) => {}
                Err(Error::DuplicateBlock(_)) | Err(Error::BlockMissing(_)) => continue,
                Err(err) => {
                    let height = self.height();
                    return Err(Error::BlockImportAborted(Box::new(err), i, height));
                }
''','ok'),
('ok-select',C,'''            if added > best_work {
                best_branch = Some(branch);
                best_work = added;
                best_hash = branch.tip;
            } else if self.params.network != Network::Bitcoin {
                if added == best_work {''','''            if best_work < added {
                best_work = added;
                best_hash = branch.tip;
                best_branch = Some(branch);
            } else if self.params.network == Network::Bitcoin {
                continue;
            } else {
                if added == best_work {''','ok'),
('ok-candidates',C,'''        let mut branches = Vec::new();

        for tip in self.orphans.keys() {
            if let Some(branch) = self.fork(tip) {
                if self.validate_branch(&branch, clock).is_ok() {
                    branches.push(branch);
                }
            }
        }
        branches
''','''        self.orphans
            .keys()
            .filter_map(|tip| self.fork(tip))
            .filter(|branch| self.validate_branch(branch, clock).is_ok())
            .collect()
''','ok'),
('ok-get',S,'''        if let Some(ix) = height.checked_sub(1) {
            // Clone so this function doesn't have to take a `&mut self`.
            let mut file = self.file.try_clone()?;
            get(&mut file, ix)
        } else {
            Ok(self.genesis)
        }
''','''        if height == 0 {
            return Ok(self.genesis);
        }
        let mut file = self.file.try_clone()?;
        get(&mut file, height - 1)
''','ok'),
('ok-put',S,'''    for header in headers {
        pos += header.consensus_encode(&mut stream)? as u64;
    }
    Ok(pos / size as u64)
''','''    for header in headers {
        let written = header.consensus_encode(&mut stream)?;
        pos = pos + written as u64;
    }
    let height = pos / size as u64;
    Ok(height)
''','ok'),
('ok-len',S,'''        if len as usize % size != 0 {
            return Err(Error::Corruption);
        }
        Ok(len as usize / size + 1)
''','''        let len = len as usize;
        if len % size == 0 {
            Ok(1 + len / size)
        } else {
            Err(Error::Corruption)
        }
''','ok'),
('ok-locate',C,'''        let start = if let Some(hash) = locators.iter().find(|h| self.contains(h)) {
            let (height, _) = self.get_block(hash).unwrap();
            height
        } else {
            0
        };

        let start = start + 1;
''','''        let mut start = 0;
        for hash in locators {
            if let Some((height, _)) = self.get_block(hash) {
                start = height;
                break;
            }
        }
        let start = start + 1;
''','ok'),
('ok-retain',C,'''            reverted.retain(|(_, h), _| !seen.contains(h) && !self.contains(h));
''','''            reverted.retain(|(_, h), _| {
                if seen.contains(h) {
                    return false;
                }
                !self.contains(h)
            });
''','ok'),
]
