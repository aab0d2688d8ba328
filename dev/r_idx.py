F='p2p/src/fsm.rs'
A="        let cmd = msg.cmd();\n        let addr = *addr;\n"
def L(s): return A+"        if let NetworkMessage::Addr(ref addrs) = msg.payload {\n            "+s+"\n        }\n"
D='debug!(target: "p2p", "{:?}", '
M=[(n,F,A,L(s),w) for n,s,w in [
 ('range','for i in 0..addrs.len() { %saddrs[i]); }'%D,'ok'),
 ('enum','for (i, a) in addrs.iter().enumerate() { %s(a, &addrs[i])); }'%D,'ok'),
 ('pos','if let Some(i) = addrs.iter().position(|(t, _)| *t == 0) { %saddrs[i]); }'%D,'ok'),
 ('empty','if !addrs.is_empty() { %saddrs[0]); }'%D,'ok'),
 ('empty2','if addrs.is_empty() { %s0); } else { %saddrs[addrs.len() - 1]); }'%(D,D),'ok'),
 ('len','if addrs.len() > 3 { %saddrs[3]); }'%D,'ok'),
 ('len2','match addrs.len() { 0 => {} 1 => { %saddrs[0]); } _ => { %saddrs[1]); } }'%(D,D),'ok'),
 ('while','let mut i = 0; while i < addrs.len() { %saddrs[i]); i += 1; }'%D,'ok'),
 ('win','for w in addrs.windows(2) { %s(&w[0], &w[1])); }'%D,'ok'),
 ('slice','let n = addrs.len().min(10); %s&addrs[..n]);'%D,'ok'),
 ('slice2','if addrs.len() >= 5 { %s&addrs[..5]); }'%D,'ok'),
 ('slice3','%s&addrs[..]);'%D,'ok'),
 ('slice4','if let Some(i) = addrs.iter().position(|(t, _)| *t == 0) { %s&addrs[i..]); }'%D,'ok'),
 ('first','if let Some(a) = addrs.first() { %sa); } %saddrs.get(7));'%(D,D),'ok'),
 ('b-range','for i in 0..addrs.len() + 1 { %saddrs[i]); }'%D,'M06'),
 ('b-range2','for i in 0..=addrs.len() { %saddrs[i]); }'%D,'M06'),
 ('b-len','if addrs.len() > 3 { %saddrs[4]); }'%D,'M06'),
 ('b-last','%saddrs[addrs.len() - 1]);'%D,'M06'),
 ('b-next','for i in 0..addrs.len() { %s(&addrs[i], &addrs[i + 1])); }'%D,'M06'),
 ('b-slice','%s&addrs[..10]);'%D,'M06'),
 ('b-slice2','if addrs.len() >= 5 { %s&addrs[..6]); }'%D,'M06'),
 ('b-slice3','let n = addrs.len().min(10); %s&addrs[n + 1..]);'%D,'M06'),
 ('b-split','let (a, _) = addrs.split_at(2); %sa);'%D,'M06'),
 ('b-div','%s100 / addrs.len());'%D,'M06'),
 ('b-mod','%s100 %% addrs.len());'%D,'M06'),
 ('b-rem','let mut a = addrs.clone(); a.remove(0); %sa);'%D,'M06'),
 ('b-drain','let mut a = addrs.clone(); a.drain(..2); %sa);'%D,'M06'),
 ('b-swap','let mut a = addrs.clone(); a.swap_remove(2); a.insert(5, addrs[0].clone()); %sa);'%D,'M06'),
 ('b-cell','let c = std::cell::RefCell::new(1); let _a = c.borrow_mut(); %sc.borrow_mut());'%D,'?'),
 ('b-unr','if addrs.len() == 77 { unreachable!() }','M06'),
 ('b-unr2','if addrs.len() == 77 { unimplemented!() }','M06'),
 ('b-chunks','for c in addrs.chunks(addrs.len() / 2) { %sc); }'%D,'M06'),
 ('b-time','let t = std::time::Duration::from_secs(1) - std::time::Duration::from_secs(addrs.len() as u64); %st);'%D,'?'),
]]
