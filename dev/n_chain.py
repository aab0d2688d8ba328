C='chain/src/block/cache.rs'; S='chain/src/block/store/io.rs'; T='common/src/block/tree.rs'
M=[
('n1',C,'if self.validate_branch(&branch, clock).is_ok() {','if branch.fork_height == self.height() || self.validate_branch(&branch, clock).is_ok() {','C01'),
('n2',C,'.find(|h| *h <= height)','.find(|h| *h < height)','C03'),
('n3',C,'            if candidate_work < lost_work {\n                continue;','            if candidate_work < lost_work {\n                break;','C04'),
('n4',C,'            if candidate_work < lost_work {\n                continue;','            if candidate_work <= lost_work {\n                continue;','C04'),
('n5',C,'            let height = self.height();\n            let hash = branch.tip;','            if reverted.is_empty() {\n                self.orphans.clear();\n            }\n            let height = self.height();\n            let hash = branch.tip;','C04,C05,C03'),
('n6',C,'            connected.retain(|_, h| self.contains(&h.block_hash()));','            connected.retain(|h, _| *h <= best_height);','?'),
('n7',C,'            if common::network::Network::from(self.params.network).genesis_hash() != genesis {','            if self.chain.len() > 2\n                && common::network::Network::from(self.params.network).genesis_hash() != genesis\n            {','C07'),
('n8',C,'locators.iter().find(|h| self.contains(h))','locators.iter().rev().find(|h| self.contains(h))','C09'),
('n9',C,'            self.orphans.insert(block.hash(), block.header);','            if height <= self.checkpoints.keys().last().copied().unwrap_or(0) || self.orphans.len() < 1024 {\n                self.orphans.insert(block.hash(), block.header);\n            }','C05'),
('n10',C,'while let Some(header) = self.orphans.get(&cursor) {\n            cursor = header.prev_blockhash;','while let Some(header) = self.orphans.get(&cursor) {\n            if headers.len() >= 2016 {\n                return None;\n            }\n            cursor = header.prev_blockhash;','C04'),
('n11',C,'        for tip in self.orphans.keys() {','        for tip in self.orphans.keys().take(2000) {','C04'),
('n12',C,'header.time > clock.block_time() + time::MAX_FUTURE_BLOCK_TIME','header.time.saturating_sub(tip.time) > time::MAX_FUTURE_BLOCK_TIME\n            && header.time > clock.block_time() + time::MAX_FUTURE_BLOCK_TIME','C01'),
('n13',C,'self.next_difficulty_target(tip.height, tip.time, tip.target(), &self.params)\n        };','self.next_difficulty_target(tip.height, tip.time.max(self.chain.last().time), tip.target(), &self.params)\n        };','C01,C02'),
('n14',C,'                return Err(Error::InvalidBlockHeight(*height + 1));','                if self.checkpoints.contains_key(height) {\n                    return Err(Error::InvalidBlockHeight(*height + 1));\n                }','C03'),
('n15',C,'        if header.prev_blockhash == tip.hash() {\n            let height = tip.height + 1;\n\n            self.validate(tip, &header, clock)?;','        if header.prev_blockhash == tip.hash() {\n            let height = tip.height + 1;\n\n            if !self.orphans.contains_key(&hash) {\n                self.validate(tip, &header, clock)?;\n            }','C01'),
('n16',C,'            self.extend_chain(height, hash, header);\n            self.store.put(std::iter::once(header))?;','            self.store.put(std::iter::once(header))?;\n            if !self.headers.contains_key(&hash) {\n                self.extend_chain(height, hash, header);\n            }','?'),
('n17',C,'                    best_hash = hash;\n                    best_height = height;\n                    best_header = header;','                    if height >= best_height {\n                        best_hash = hash;\n                        best_height = height;\n                        best_header = header;\n                    }','C06'),
('n18',C,'                    reverted.extend(r.into_iter().map(|(i, h)| ((i, h.block_hash()), h)));','                    if reverted.is_empty() {\n                        reverted.extend(r.into_iter().map(|(i, h)| ((i, h.block_hash()), h)));\n                    }','C06'),
('n19',C,'                    seen.extend(c.iter().map(|(_, h)| h.block_hash()));','                    seen.insert(hash);','C06'),
('n20',C,'        Ok(stale)\n    }\n\n    /// Activate','        stale.reverse();\n        Ok(stale)\n    }\n\n    /// Activate','?'),
('n21',C,'let start = branch.fork_height + 1;','let start = branch.fork_height.max(height - branch.headers.len() as Height) + 1;','?'),
('n22',C,'let start = branch.fork_height + 1;','let start = height;','C06'),
('n23',C,'if header.bits != pow_limit_bits\n                || height % self.params.difficulty_adjustment_interval() == 0','if header.bits != pow_limit_bits || height == 0','C01'),
('n24',C,'let start = height.saturating_sub(time::MEDIAN_TIME_SPAN);\n        let end = height;','let start = height.saturating_sub(time::MEDIAN_TIME_SPAN);\n        let end = height.min(self.height() + 1);','?'),
('n25',C,'        let stop = Height::min(start + max_headers as Height, stop + 1);','        let stop = Height::min(start + max_headers as Height, stop);','C09'),
('n26',C,'            if let Some(blk) = self.chain.get(height as usize) {\n                hashes.push(blk.hash());\n            }','            if let Some(blk) = self.chain.get(height as usize) {\n                if !self.checkpoints.contains_key(&height) {\n                    hashes.push(blk.hash());\n                }\n            }','C09'),
('n27',C,'return Some((height, NonEmpty::new(*header)));','return Some((height + 1, NonEmpty::new(*header)));','C09'),
('n28',C,'        self.headers.contains_key(hash) || self.orphans.contains_key(hash)\n    }','        self.headers.contains_key(hash)\n            || self\n                .orphans\n                .get(hash)\n                .map_or(false, |h| self.headers.contains_key(&h.prev_blockhash))\n    }','?'),
('n29',C,'            self.chainwork = self.chainwork + header.work();\n\n            if progress','            if height > 1 {\n                self.chainwork = self.chainwork + header.work();\n            }\n\n            if progress','C07'),
('n30',C,'            if progress(height).is_break() {\n                return Err(Error::Interrupted);\n            }','            if progress(height).is_break() {\n                break;\n            }','C07'),
('n31',C,'if added == best_work {','if added == best_work && best_branch.is_some() {','C04'),
('n32',C,'                    if branch.tip < best_hash {','                    if branch.tip < best_hash && branch.fork_height + 1 == tip.height {','C04'),
]
