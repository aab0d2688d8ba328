C='chain/src/block/cache.rs'; S='chain/src/block/store/io.rs'
def R(name,f,*ed): return (name,f,[e[0] for e in ed],[e[1] for e in ed],'ok')
def body(f,a,b,new):
    s=open('/repo/'+f).read(); i=s.index(a); j=s.index(b,i); return (s[i:j],new)
M=[
R('fnnames',C,(r're:\bchain_suffix\b','suffix_from'),(r're:\bextend_chain\b','push_header'),(r're:\bswitch_to_fork\b','activate'),(r're:\bvalidate_branch\b','check_branch'),(r're:\bchain_candidates\b','candidate_branches')),
R('fnnames2',C,(r're:fn fork\(&self','fn trace_branch(&self'),(r're:self\.fork\(','self.trace_branch('),(r're:\bimport_block\(','accept_header('),(r're:fn validate\(\n','fn check_header(\n'),(r're:self\.validate\(','self.check_header(')),
R('rollbackname',C,(r're:fn rollback\(&mut self, height: Height\) -> Result<Vec','fn unwind(&mut self, height: Height) -> Result<Vec'),(r're:self\.rollback\(branch','self.unwind(branch')),
R('fields',C,(r're:\borphans\b','stale_headers')),
R('fields2',C,(r're:fork_height','base_height'),(r're:fork_header','base_header')),
R('fields3',C,(r're:\bchainwork\b','total_work')),
R('median',C,body(C,"        let mut times = [0; time::MEDIAN","    /// Import a block into the tree. Performs","""        let start = height.saturating_sub(time::MEDIAN_TIME_SPAN);
        let mut times: Vec<BlockTime> = self.range(start..height).map(|b| b.time).collect();
        times.sort_unstable();

        times[times.len() / 2]
    }

""")),
R('forkvec',C,body(C,"        let mut headers = VecDeque::new();\n        let mut cursor = tip;","    /// Validate a candidate branch","""        assert!(
            !self.headers.contains_key(&tip),
            "BlockCache::fork: the provided tip must not be on the active chain"
        );
        let mut headers = Vec::new();
        let mut cursor = tip;

        loop {
            match self.orphans.get(&cursor) {
                Some(header) => {
                    headers.push(*header);
                    cursor = header.prev_blockhash;
                }
                None => break,
            }
        }
        headers.reverse();

        let (fork_height, fork_header) = self.get_block(&cursor)?;
        assert!(!headers.is_empty());

        Some(Candidate {
            tip,
            headers,
            fork_height,
            fork_header: *fork_header,
        })
    }

"""),("use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};","use std::collections::{BTreeMap, BTreeSet, HashMap};")),
R('rollback',C,body(C,"        let mut stale = Vec::new();\n\n        for (block, height) in","    /// Activate a fork candidate","""        let removed: Vec<CachedBlock> = self.chain.tail.drain(height as usize..).collect();
        let mut stale = Vec::with_capacity(removed.len());

        for (i, block) in removed.into_iter().enumerate() {
            let hash = block.hash();

            self.orphans.insert(hash, block.header);
            self.headers.remove(&hash);
            self.chainwork = self.chainwork - block.work();
            stale.push((height + 1 + i as Height, block.header));
        }
        self.store.rollback(height)?;

        Ok(stale)
    }

""")),
R('rollback2',C,("            stale.push((height, block.header));\n\n            self.chainwork = self.chainwork - block.work();\n            self.headers.remove(&block.hash());\n            self.orphans.insert(block.hash(), block.header);\n","            let header = block.header;\n            let hash = header.block_hash();\n            stale.push((height, header));\n            self.headers.remove(&hash);\n            self.orphans.insert(hash, header);\n            self.chainwork = self.chainwork - header.work();\n")),
R('rollback3',C,("            stale.push((height, block.header));","            stale.push((block.height, block.header));"),(".drain(height as usize..).zip(height + 1..) {",".drain(height as usize..) {"),("for (block, height) in self","for block in self")),
R('switch',C,body(C,"        for (i, header) in branch.headers.iter().enumerate() {\n            self.extend_chain(","        self.store.put(branch","""        let mut height = branch.fork_height;
        for header in &branch.headers {
            height += 1;
            self.extend_chain(height, header.block_hash(), *header);
        }
""")),
R('switchzip',C,body(C,"        for (i, header) in branch.headers.iter().enumerate() {\n            self.extend_chain(","        self.store.put(branch","""        for (height, header) in (branch.fork_height + 1..).zip(branch.headers.iter()) {
            self.extend_chain(height, header.block_hash(), *header);
        }
""")),
R('extsig',C,("                header.block_hash(),\n                *header,\n            );","                *header,\n            );"),("self.extend_chain(height, hash, header);","self.extend_chain(height, header);"),("fn extend_chain(&mut self, height: Height, hash: BlockHash, header: BlockHeader) {","fn extend_chain(&mut self, height: Height, header: BlockHeader) {\n        let hash = header.block_hash();\n")),
R('loadidx',C,body(C,"        // Build header index.","        let length = self.store.len()?;\n        assert_eq","        self.build_index();\n\n"),("    /// Iterate over a range of blocks.\n    ///\n    /// # Errors","""    fn build_index(&mut self) {
        for cb in self.chain.tail.iter() {
            self.headers.insert(cb.prev_blockhash, cb.height - 1);
        }
        let tip = self.chain.last();
        self.headers.insert(tip.hash(), tip.height);
    }

    /// Iterate over a range of blocks.
    ///
    /// # Errors""")),
R('powlimit',C,body(C,"        let target = header.target();\n        match","        if let Some(height) = self.headers.get(&header.prev","        self.check_limit(&header)?;\n\n"),("    /// Find all the potential forks off","""    fn check_limit(&self, header: &BlockHeader) -> Result<(), Error> {
        let target = header.target();
        let limit = self.params.pow_limit;

        if header.validate_pow(&target).is_err() {
            return Err(Error::InvalidBlockPoW);
        }
        if target > limit {
            return Err(Error::InvalidBlockTarget(target, limit));
        }
        Ok(())
    }

    /// Find all the potential forks off""")),
R('select',C,body(C,"        let mut best_branch = None;\n        let mut best_hash = tip","        {\n            // Prune","        let best_branch = self.best_of(&candidates);\n\n"),("    /// Find all the potential forks off","""    fn best_of<'a>(&self, candidates: &'a [Candidate]) -> Option<&'a Candidate> {
        let mut best: Option<&Candidate> = None;
        let mut hash = self.chain.last().hash();
        let mut work = Uint256::zero();
        let is_main = self.params.network == Network::Bitcoin;

        for c in candidates {
            let gained = Branch(&c.headers).work();
            let lost = Branch(self.chain_suffix(c.fork_height)).work();
            if gained < lost {
                continue;
            }
            let net = gained - lost;
            let better = net > work || (!is_main && net == work && c.tip < hash);

            if better {
                work = net;
                hash = c.tip;
                best = Some(c);
            }
        }
        best
    }

    /// Find all the potential forks off""")),
R('selectfn',C,("            let candidate_work = Branch(&branch.headers).work();","            let candidate_work = Branch(&branch.headers).work();"[:-1]+";\n            let fork_height = branch.fork_height;"),("Branch(self.chain_suffix(branch.fork_height)).work()","Branch(self.chain_suffix(fork_height)).work()"),("            if candidate_work < lost_work {\n                continue;\n            }","            if lost_work > candidate_work {\n                continue;\n            }")),
R('validsplit',C,body(C,"        // Validate against block checkpoints.","    /// Get the next minimum-difficulty","""        let height = tip.height + 1;
        self.check_time(height, header.time, clock)?;
        self.check_checkpoint(height, header)
    }

    fn check_checkpoint(&self, height: Height, header: &BlockHeader) -> Result<(), Error> {
        match self.checkpoints.get(&height) {
            Some(expected) if *expected != header.block_hash() => {
                Err(Error::InvalidBlockHash(header.block_hash(), height))
            }
            _ => Ok(()),
        }
    }

    fn check_time(&self, height: Height, time: BlockTime, clock: &impl Clock) -> Result<(), Error> {
        let median = self.median_time_past(height);
        let limit = clock.block_time() + time::MAX_FUTURE_BLOCK_TIME;

        if time <= median {
            Err(Error::InvalidBlockTime(time, Ordering::Less))
        } else if time > limit {
            Err(Error::InvalidBlockTime(time, Ordering::Greater))
        } else {
            Ok(())
        }
    }

""")),
R('validtarget',C,body(C,"        let compact_target = if","        match header.validate_pow(&target) {","""        let next = tip.height + 1;
        let boundary = next % self.params.difficulty_adjustment_interval() == 0;
        let compact_target = match (self.params.allow_min_difficulty_blocks, boundary) {
            (true, false) => {
                let late = tip.time + self.params.pow_target_spacing as BlockTime * 2;
                if header.time <= late {
                    self.next_min_difficulty_target(&self.params)
                } else {
                    block::pow_limit_bits(&self.params.network)
                }
            }
            _ => self.next_difficulty_target(tip.height, tip.time, tip.target(), &self.params),
        };
        let target = BlockHeader::u256_from_compact_target(compact_target);

""")),
R('validpow',C,body(C,"        match header.validate_pow(&target) {\n            Err(bitcoin::util::Error::BlockBadProofOfWork) => {\n                return Err(Error::InvalidBlockPoW);\n            }\n            Err(bitcoin::util::Error::BlockBadTarget) => {\n                return Err(Error::InvalidBlockTarget(header","        // Validate against block","""        if let Err(err) = header.validate_pow(&target) {
            return Err(match err {
                bitcoin::util::Error::BlockBadProofOfWork => Error::InvalidBlockPoW,
                bitcoin::util::Error::BlockBadTarget => {
                    Error::InvalidBlockTarget(header.target(), target)
                }
                _ => unreachable!(),
            });
        }

""")),
R('branchiter',C,body(C,"        let mut tip = CachedBlock {\n            height: candidate.fork","    /// Validate a block header as","""        let mut height = candidate.fork_height;
        let mut previous = candidate.fork_header;

        for header in candidate.headers.iter() {
            let tip = CachedBlock {
                height,
                header: previous,
            };
            self.validate(&tip, header, clock)?;

            height += 1;
            previous = *header;
        }
        Ok(())
    }

""")),
R('branchfold',C,body(C,"        let mut tip = CachedBlock {\n            height: candidate.fork","    /// Validate a block header as","""        let tip = CachedBlock {
            height: candidate.fork_height,
            header: candidate.fork_header,
        };

        candidate
            .headers
            .iter()
            .try_fold(tip, |tip, header| {
                self.validate(&tip, header, clock).map(|_| CachedBlock {
                    height: tip.height + 1,
                    header: *header,
                })
            })
            .map(|_| ())
    }

""")),
R('cands',C,body(C,"        let mut branches = Vec::new();\n\n        for tip in self.orphans","    /// Find a potential branch","""        self.orphans
            .keys()
            .filter_map(|tip| self.fork(tip))
            .filter(|branch| self.validate_branch(branch, clock).is_ok())
            .collect()
    }

""")),
R('exttip',C,body(C,"        let tip = self.chain.last();\n        let hash = header.block_hash();\n\n        if header.prev","impl<S: Store<Header = BlockHeader>> BlockReader","""        let tip = self.chain.last();
        if header.prev_blockhash != tip.hash() {
            return Ok(ImportResult::TipUnchanged);
        }
        self.validate(tip, &header, clock)?;

        let height = self.height() + 1;
        let hash = header.block_hash();

        self.extend_chain(height, hash, header);
        self.store.put(std::iter::once(header))?;

        Ok(ImportResult::TipChanged {
            height,
            hash,
            header,
            connected: NonEmpty::new((height, header)),
            reverted: Vec::new(),
        })
    }
}

""")),
R('getblock',C,body(C,"        self.headers\n            .get(hash)\n            .and_then","    /// Get a block by height","""        let height = self.headers.get(hash)?;
        let block = self.chain.get(*height as usize)?;

        Some((block.height, &block.header))
    }

""")),
R('lastcp',C,body(C,"        self.checkpoints\n            .iter()\n            .rev()","    /// Known block checkpoints","""        self.checkpoints
            .range(..=height)
            .next_back()
            .map(|(h, _)| *h)
            .unwrap_or(0)
    }

""")),
R('lastcp2',C,body(C,"        self.checkpoints\n            .iter()\n            .rev()","    /// Known block checkpoints","""        for h in self.checkpoints.keys().rev() {
            if *h <= height {
                return *h;
            }
        }
        0
    }

""")),
R('lastcp3',C,body(C,"        self.checkpoints\n            .iter()\n            .rev()","    /// Known block checkpoints","""        self.checkpoints
            .keys()
            .copied()
            .filter(|h| *h <= height)
            .max()
            .unwrap_or_default()
    }

""")),
R('findbr',C,body(C,"        if let Some(Candidate {\n            fork_height","    /// Get the best block hash","""        self.fork(to)
            .map(|c| (c.fork_height, NonEmpty::from((c.fork_header, c.headers))))
    }

""")),
R('nextmin',C,body(C,"        for (height, header) in self.iter().rev() {\n            if header.bits","    /// Rollback active chain","""        let interval = self.params.difficulty_adjustment_interval();

        self.iter()
            .rev()
            .find(|(height, header)| height % interval == 0 || header.bits != pow_limit_bits)
            .map(|(_, header)| header.bits)
            .unwrap_or(pow_limit_bits)
    }

""")),
R('impblocks',C,body(C,"        let mut best_height = self.height();\n        let mut best_hash","        if !connected.is_empty() {","""        let mut best = (self.height(), self.chain.last().hash(), self.chain.last().header);

        for (i, header) in chain.enumerate() {
            let result = self.import_block(header, context);
            match result {
                Ok(ImportResult::TipUnchanged) => continue,
                Ok(ImportResult::TipChanged {
                    header,
                    hash,
                    height,
                    reverted: r,
                    connected: c,
                }) => {
                    for (_, h) in c.iter() {
                        seen.insert(h.block_hash());
                    }
                    for (i, h) in r {
                        reverted.insert((i, h.block_hash()), h);
                    }
                    for (i, h) in c {
                        connected.insert(i, h);
                    }
                    best = (height, hash, header);
                }
                Err(Error::DuplicateBlock(hash)) => log::trace!("Duplicate block {}", hash),
                Err(Error::BlockMissing(hash)) => log::trace!("Missing block {}", hash),
                Err(err) => return Err(Error::BlockImportAborted(err.into(), i, self.height())),
            }
        }
        let (best_height, best_hash, best_header) = best;

""")),
R('impconn',C,body(C,"            let connected = NonEmpty::from_vec(\n                self.range","            Ok(ImportResult::TipChanged {\n                header,\n                hash,\n                height,\n                reverted,\n                connected,","""            let mut blocks = Vec::new();
            for b in self.range(start..end) {
                blocks.push((b.height, b.header));
            }
            let connected = NonEmpty::from_vec(blocks)
                .expect("BlockCache::import_block: there is always at least one connected block");

""")),
R('dupcheck',C,("        if self.headers.contains_key(&hash) || self.orphans.contains_key(&hash) {\n            return Err","        if self.is_known(&hash) {\n            return Err"),("        if !self.orphans.contains_key(&header.prev_blockhash)\n            && !self.headers.contains_key(&header.prev_blockhash)\n        {","        if !self.is_known(&header.prev_blockhash) {")),
R('cpguard',C,body(C,"        if let Some(height) = self.headers.get(&header.prev_blockhash) {","        // We can now insert the header in the orphan","""        match self.headers.get(&header.prev_blockhash) {
            Some(&parent) if parent < self.last_checkpoint() => {
                return Err(Error::InvalidBlockHeight(parent + 1));
            }
            _ => {}
        }
""")),
R('fput',S,("    for header in headers {\n        pos += header.consensus_encode(&mut stream)? as u64;\n    }\n    Ok(pos / size as u64)","    let mut written = 0;\n    for header in headers {\n        written += header.consensus_encode(&mut stream)? as u64;\n    }\n    Ok((pos + written) / size as u64)"),("let mut pos = stream","let pos = stream")),
R('fput2',S,("    for header in headers {\n        pos += header.consensus_encode(&mut stream)? as u64;\n    }\n","    let mut it = headers;\n    while let Some(header) = it.next() {\n        let n = header.consensus_encode(&mut stream)?;\n        pos += n as u64;\n    }\n")),
R('fget',S,body(S,"        if let Some(ix) = height.checked_sub(1) {","    /// Rollback the chain","""        if height == 0 {
            return Ok(self.genesis);
        }
        // Clone so this function doesn't have to take a `&mut self`.
        let mut file = self.file.try_clone()?;

        get(&mut file, height - 1)
    }

""")),
R('flen',S,body(S,"        let meta = self.file.metadata()?;\n        let len = meta.len();\n        let size = mem::size_of::<H>();\n\n        assert!(len <= usize::MAX as u64);\n\n        if len","    /// Return the block height of the","""        let (len, size) = self.sizes()?;

        if len % size == 0 {
            Ok(len / size + 1)
        } else {
            Err(Error::Corruption)
        }
    }

"""),body(S,"        let meta = self.file.metadata()?;\n        let len = meta.len();\n        let size = mem::size_of::<H>();\n\n        assert!(len <= usize::MAX as u64);\n\n        let extran","#[cfg(test)]","""        let (len, size) = self.sizes()?;
        let extraneous = len % size;

        if extraneous == 0 {
            return Ok(());
        }
        self.file.set_len((len - extraneous) as u64)?;

        Ok(())
    }
}

impl<H> File<H> {
    fn sizes(&self) -> Result<(usize, usize), Error> {
        let len = self.file.metadata()?.len();

        assert!(len <= usize::MAX as u64);

        Ok((len as usize, mem::size_of::<H>()))
    }
}

""")),
R('fread',S,body(S,"        if self.queue.is_empty() {\n            let mut buf","/// An iterator over block headers","""        if self.queue.is_empty() {
            self.fill(size)?;
        }
        Ok(self.queue.pop_front())
    }

    fn fill(&mut self, size: usize) -> Result<(), Error> {
        let mut buf = vec![0; size * Self::BATCH_SIZE];
        let from = self.file.seek(io::SeekFrom::Start(self.index))?;

        if let Err(err) = self.file.read_exact(&mut buf) {
            if err.kind() != io::ErrorKind::UnexpectedEof {
                return Err(err.into());
            }
            self.file.seek(io::SeekFrom::Start(from))?;
            let n = self.file.read_to_end(&mut buf)?;
            buf.truncate(n);
        }
        self.index += buf.len() as u64;

        for item in buf.chunks_exact(size) {
            let mut bytes = item;
            self.queue.push_back(H::consensus_decode(&mut bytes)?);
        }
        Ok(())
    }
}

""")),
R('fiter',S,body(S,"        match self.file.next() {\n            // If we hit","/// A `Store` backed by","""        let header = match self.file.next() {
            Ok(Some(header)) => header,
            Ok(None) => return None,
            Err(Error::Io(err)) if err.kind() == io::ErrorKind::UnexpectedEof => return None,
            Err(err) => return Some(Err(err)),
        };
        self.height += 1;

        Some(Ok((height, header)))
    }
}

""")),
R('fields-io',S,(r're:\bindex\b','offset'),(r're:\bqueue\b','buffered')),
R('sizes',S,("    let mut pos = stream.seek(io::SeekFrom::End(0))?;\n    let size = std::mem::size_of::<H>();\n","    let size = mem::size_of::<H>() as u64;\n    let mut pos = stream.seek(io::SeekFrom::End(0))?;\n"),("Ok(pos / size as u64)","Ok(pos / size)"),("        let size = mem::size_of::<H>();\n\n        self.file\n            .set_len((height) * size as u64)\n            .map_err(Error::from)","        let end = mem::size_of::<H>() as u64 * height;\n        self.file.set_len(end)?;\n\n        Ok(())")),
]
