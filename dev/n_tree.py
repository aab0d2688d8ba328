C='chain/src/block/cache.rs'; F='chain/src/filter/cache.rs'
M=[
('a1',C,"        if let Some(height) = self.headers.get(&header.prev_blockhash) {\n            // Don't accept any forks from the main chain, prior to the last checkpoint.\n            if *height <","        {\n            let height = self.headers.get(&header.prev_blockhash).expect(\"known\");\n            // Don't accept any forks from the main chain, prior to the last checkpoint.\n            if *height <",'M06'),
('a2',C,"        self.chain.get(height as usize).map(|b| &b.header)","        Some(&self.chain[height as usize].header)",'M06'),
('a3',C,"            if let Some(blk) = self.chain.get(height as usize) {\n                hashes.push(blk.hash());\n            }","            hashes.push(self.chain[height as usize].hash());",'?'),
('a4',F,"        self.headers\n            .get(height as usize)\n            .map(|s| (s.hash, s.header))","        let s = &self.headers[height as usize];\n        Some((s.hash, s.header))",'M06'),
('a5',C,"            .map(|(h, _)| h)\n            .unwrap_or_else(|| self.height());","            .map(|(h, _)| h)\n            .expect(\"stop\");",'M06'),
('a6',C,"        let start = if let Some(hash) = locators.iter().find(|h| self.contains(h)) {\n            let (height, _) = self.get_block(hash).unwrap();\n            height\n        } else {\n            0\n        };","        let hash = locators.iter().find(|h| self.contains(h)).unwrap();\n        let (start, _) = self.get_block(hash).unwrap();",'M06'),
('r1',C,"            .get(hash)\n            .and_then(|height| self.chain.get(*height as usize))\n            .map(|blk| (blk.height, &blk.header))","            .get(hash)\n            .map(|height| &self.chain[*height as usize])\n            .map(|blk| (blk.height, &blk.header))",'?'),
('r2',C,"        if let Some(height) = self.headers.get(&header.prev_blockhash) {\n            // Don't","        if self.headers.contains_key(&header.prev_blockhash) {\n            let height = &self.headers[&header.prev_blockhash];\n            // Don't",'ok'),
]
