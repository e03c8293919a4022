//! Cluster: allocation of space on simulated disks
use super::*;
use crate::raid::vh_disk::*;
use crate::vdev_block::vh_disk::*;
use crate::vdev_file::vh_disk::*;
use std::mem;
use symrt as s;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { Empty, Open, Closed, Dead }
#[derive(Clone)]
pub struct Zn { pub st: St, pub wp: LbaT, pub first: u32, pub last: u32 }
#[derive(Clone)]
pub struct Ext { pub lba: LbaT, pub n: LbaT, pub tag: u8, pub zone: usize }
/// what the user of a cluster may expect
pub struct Model { pub zones: Vec<Zn>, pub live: Vec<Ext>, pub lim: Vec<(LbaT, LbaT)>, pub txg: u32, pub tag: u8, stripe: LbaT, pub reaped: Vec<usize> }
impl Model {
    pub fn new(c: &Cluster, stripe: LbaT) -> Self {
        let n = c.vdev.zones();
        let lim = (0..n).map(|z| c.vdev.zone_limits(z)).collect::<Vec<_>>();
        Model { zones: vec![Zn { st: St::Empty, wp: 0, first: 0, last: 0 }; n as usize], live: vec![], lim, txg: 1, tag: 1, stripe, reaped: vec![] }
    }
    pub fn cap(&self, z: usize) -> LbaT { self.lim[z].1 - self.lim[z].0 }
    pub fn in_use(&self, z: usize) -> LbaT { self.live.iter().filter(|e| e.zone == z).map(|e| e.n).sum() }
    fn empty(&self) -> Option<usize> { self.zones.iter().position(|z| z.st == St::Empty) }
    fn open(&self) -> Option<usize> { self.zones.iter().position(|z| z.st == St::Open) }
    fn close(&mut self, z: usize) {
        self.zones[z].st = St::Closed;
        self.zones[z].last = self.txg;
        self.kill(z);
    }
    fn kill(&mut self, z: usize) {
        if self.zones[z].st == St::Closed && self.in_use(z) == 0 {
            self.zones[z].st = St::Dead;
        }
    }
    fn write(&mut self, c: &Cluster, n: LbaT, bytes: bool) {
        self.tag += 1;
        let tags: Vec<u8> = (0..n).map(|i| self.tag.wrapping_mul(16).wrapping_add(i as u8)).collect();
        let mut b = buf(&tags);
        if bytes {
            // a partial block is padded
            b.split_off(b.len() - 100);
        }
        let r = c.write(b, TxgT::from(self.txg));
        let can = self.can(n);
        match r {
            Err(e) => {
                s::check(e == Error::ENOSPC, "the only error is ENOSPC");
                s::check(!can, "no ENOSPC while there is space");
            }
            Ok((lba, fut)) => {
                s::check(go(fut, first) == Some(Ok(())), "write succeeds");
                self.placed(lba, n);
            }
        }
    }
    fn fits(&self, n: LbaT) -> bool { self.open().is_some_and(|z| self.cap(z) - self.zones[z].wp >= n) }
    /// is there space for n blocks?
    pub fn can(&self, n: LbaT) -> bool { self.fits(n) || self.empty().is_some_and(|z| self.cap(z) >= n) }
    /// n blocks have been allocated at lba
    pub fn placed(&mut self, lba: LbaT, n: LbaT) {
        let z = (0..self.zones.len()).find(|z| self.lim[*z].0 <= lba && lba + n <= self.lim[*z].1);
        s::check(z.is_some(), "an allocation lies in one zone");
        let z = z.unwrap();
        let st = self.zones[z].st;
        s::check(st == St::Empty || st == St::Open, "space is allocated only from open or empty zones");
        s::check(lba == self.lim[z].0 + self.zones[z].wp, "space is allocated in sequence, without overlap");
        s::check(self.fits(n) == (st == St::Open), "an open zone is filled before another one is opened");
        if st == St::Empty {
            if let Some(o) = self.open() {
                self.close(o);
            }
            self.zones[z] = Zn { st: St::Open, wp: 0, first: self.txg, last: 0 };
        }
        self.zones[z].wp += n;
        self.live.push(Ext { lba, n, tag: self.tag, zone: z });
    }
    /// n blocks at lba have been freed
    pub fn freed(&mut self, lba: LbaT, n: LbaT) {
        let i = self.live.iter().position(|e| e.lba == lba && e.n == n).unwrap();
        let e = self.live.remove(i);
        self.kill(e.zone);
    }
    fn free(&mut self, c: &Cluster, i: usize) {
        let e = self.live.remove(i);
        c.free(e.lba, e.n);
        self.kill(e.zone);
    }
    /// what a transaction's end does
    fn txn(&mut self, c: &Cluster) {
        self.flushed();
        s::check(go(c.flush(0), first) == Some(Ok(())), "flush");
        s::check(go(c.sync_all(), first) == Some(Ok(())), "sync");
        s::check(go(c.flush(1), first) == Some(Ok(())), "flush");
        s::check(go(c.sync_all(), first) == Some(Ok(())), "sync");
        s::check(go(c.advance_transaction(TxgT::from(self.txg)), first) == Some(Ok(())), "advance");
        self.advanced();
    }
    pub fn flushed(&mut self) {
        if let Some(z) = self.open() {
            let w = self.zones[z].wp;
            self.zones[z].wp = w.div_ceil(self.stripe) * self.stripe;
        }
    }
    pub fn advanced(&mut self) {
        self.reaped = (0..self.zones.len()).filter(|z| self.zones[*z].st == St::Dead).collect();
        for z in &self.reaped {
            self.zones[*z] = Zn { st: St::Empty, wp: 0, first: 0, last: 0 };
        }
        self.txg += 1;
    }
    /// the space map on disk was written before the dead zones were reaped: they are reaped again
    fn reopened(&mut self) {
        for z in &self.reaped {
            self.zones[*z].st = St::Dead;
        }
    }
    pub fn check(&self, c: &Cluster) {
        let alloc: LbaT = (0..self.zones.len()).map(|z| match self.zones[z].st {
            St::Open => self.zones[z].wp,
            St::Closed => self.cap(z),
            _ => 0,
        }).sum();
        s::check(c.allocated() == alloc, "allocated space");
        s::check(c.used() == self.live.iter().map(|e| e.n).sum::<LbaT>(), "used space is what has been written and not freed");
        let mut zid = 0;
        for z in 0..self.zones.len() {
            if self.zones[z].st == St::Closed {
                let cz = c.find_closed_zone(zid);
                s::check(cz.as_ref().is_some_and(|x| x.zid as usize == z && x.start == self.lim[z].0 && x.total_blocks == self.cap(z)), "closed zones are found");
                let cz = cz.unwrap();
                s::check(cz.freed_blocks == self.cap(z) - self.in_use(z), "garbage in closed zones");
                s::check(u32::from(cz.txgs.start) == self.zones[z].first && u32::from(cz.txgs.end) == self.zones[z].last + 1, "transactions of closed zones");
                zid = z as u32 + 1;
            }
        }
        s::check(c.find_closed_zone(zid).is_none(), "only closed zones are found");
    }
    fn read(&self, c: &Cluster) {
        for e in &self.live {
            let dbs = DivBufShared::from(vec![0u8; e.n as usize * BYTES_PER_LBA]);
            s::check(go(c.read(dbs.try_mut().unwrap(), e.lba), first) == Some(Ok(())), "live data can be read");
            let d = dbs.try_const().unwrap();
            for i in 0..e.n as usize {
                let b = &d[i * BYTES_PER_LBA..(i + 1) * BYTES_PER_LBA];
                let t = e.tag.wrapping_mul(16).wrapping_add(i as u8);
                s::check(b[0] == t && b[1] == !t && b[BYTES_PER_LBA / 2] == t ^ 0x5a, "live data is what was written");
            }
        }
    }
}
/// Histories of writes, frees, transactions and reopening.  params: n,k,f,chunk,zones,lengths (bits),operations,reopen,prefix
fn history() {
    let g = params(LPZ, LPZ * s::param(4));
    init(g.n, g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let mut c = Cluster::create(make(g));
    let mut m = Model::new(&c, stripe(g));
    let lens: Vec<u64> = (0..64).filter(|i| s::param(5) >> i & 1 == 1).map(|x| x as u64).collect();
    let max = s::param(6);
    let script = s::param(8);
    for step in 0..max {
        // 0: end of transaction; 1..: write; then free
        let choices = 1 + lens.len() as u64 + m.live.len() as u64;
        let op = if script >> (4 * step) & 15 != 0 { (script >> (4 * step) & 15) - 1 } else { s::choice(choices) };
        if op == 0 {
            m.txn(&c);
            if s::param(7) == 1 && s::choice(2) == 1 {
                mem::forget(c);
                let fsm = go(FreeSpaceMap::open(make(g)), first);
                s::check(fsm.as_ref().is_some_and(|x| x.is_ok()), "the cluster is reopened");
                c = Cluster::new(fsm.unwrap().ok().unwrap());
                // dead zones had not been reaped when the space map was written
                m.reopened();
            }
        } else if op <= lens.len() as u64 {
            m.write(&c, lens[op as usize - 1], m.tag % 2 == 0);
        } else {
            m.free(&c, op as usize - 1 - lens.len());
        }
        m.check(&c);
    }
    m.txn(&c);
    m.check(&c);
    m.read(&c);
    mem::forget(c);
    s::reach(1);
}
/// The space map read back is damaged.  params: n,k,f,chunk,zones,bytes
fn corrupt() {
    let g = params(LPZ, LPZ * s::param(4));
    init(g.n, g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let c = Cluster::create(make(g));
    let mut m = Model::new(&c, stripe(g));
    m.write(&c, 3, false);
    m.txn(&c);
    // the space map is at the same place on all disks
    let at = 8 * BYTES_PER_LBA + s::choice(s::param(5)) as usize;
    let bit = s::choice(8);
    for d in 0..g.n {
        sim().data[d][at] ^= 1 << bit;
    }
    let r = go(FreeSpaceMap::open(make(g)), first);
    s::check(r.is_some(), "opening ends");
    if let Some(Ok(_)) = r {
        s::check(at - 8 * BYTES_PER_LBA >= 12 + 16 * m.zones.len(), "a damaged space map is not used");
    }
    mem::forget(c);
    s::reach(1);
}
/// Errors while opening.  params: n,k,f,chunk,zones
fn open_eio() {
    let g = params(LPZ, LPZ * s::param(4));
    init(g.n, g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let c = Cluster::create(make(g));
    let mut m = Model::new(&c, stripe(g));
    m.write(&c, 3, false);
    m.txn(&c);
    static KIND: AtomicU64 = AtomicU64::new(0);
    KIND.store(s::choice(2), Ordering::Relaxed);
    sim().fate = |x| if x.op as u64 == KIND.load(Ordering::Relaxed) { EIO } else { 0 };
    let n = sim().log.len();
    let r = go(FreeSpaceMap::open(make(g)), first);
    let failed = sim().log[n..].iter().any(|x| x.err != 0);
    s::check(r.is_some(), "opening ends");
    s::check(r.unwrap().is_ok() == !failed, "an error while opening is reported");
    mem::forget(c);
    s::reach(1);
}
/// A free space map that takes several blocks is stored incrementally.  params: zones, operations, script
fn fsm() {
    let n = s::param(0) as u32;
    init(1, 20, |_, l| l as u8);
    let dev = || make(crate::raid::vh_disk::Geo { n: 1, k: 1, f: 0, chunk: 1, size: LPZ * n as u64, lpz: LPZ });
    let v = dev();
    let zids = [0, 254, 255, n - 1];
    let mut f = FreeSpaceMap::new(n);
    let blocks = (n as usize).div_ceil(SPACEMAP_ZONES_PER_LBA);
    let mut store = vec![0u8; blocks * BYTES_PER_LBA];
    fn save(f: &mut FreeSpaceMap, store: &mut [u8]) {
        for (b, dbs) in f.serialize() {
            let d = dbs.try_const().unwrap();
            let o = b as usize * BYTES_PER_LBA;
            s::check(d.len() <= BYTES_PER_LBA, "the space map fits its blocks");
            store[o..o + d.len()].copy_from_slice(&d[..]);
        }
        f.clear_dirty_zones();
    }
    save(&mut f, &mut store);
    let mut open: Option<u32> = None;
    for step in 0..s::param(1) {
        let txg = TxgT::from(step as u32 + 5);
        let op = s::param(2) >> (4 * step) & 15;
        match if op != 0 { op - 1 } else { s::choice(4) } {
            0 => {
                // allocate, from a new zone if none is open
                match open {
                    Some(z) => {
                        s::assume(f.available(z) >= 2);
                        s::check(f.try_allocate(2).0.is_some(), "allocation");
                    }
                    None => {
                        let z = zids[s::choice(zids.len() as u64) as usize];
                        s::assume(f.is_empty(z));
                        let l = v.zone_limits(z);
                        s::check(f.open_zone(z, l.0, l.1, 1, txg).is_ok(), "a zone is opened");
                        open = Some(z);
                    }
                }
            }
            1 => {
                s::assume(open.is_some());
                f.finish_zone(open.unwrap(), txg);
                open = None;
            }
            2 => {
                // free a block
                let z = zids[s::choice(zids.len() as u64) as usize];
                s::assume(f.in_use(z) > 0);
                f.free(z, 1);
                if f.is_closed(z) && f.in_use(z) == 0 {
                    f.kill_zone(z);
                }
            }
            _ => {
                for _ in f.reap() {}
            }
        }
        if op == 0 && s::choice(2) == 1 {
            save(&mut f, &mut store);
        }
    }
    save(&mut f, &mut store);
    let r = go(FreeSpaceMap::deserialize(dev(), DivBufShared::from(store).try_const().unwrap(), n), first);
    let (g, _v) = r.unwrap().ok().unwrap();
    for z in zids.into_iter().chain([1, 253, 256]) {
        s::check(f.is_open(z) == g.is_open(z) && f.is_dead(z) == g.is_dead(z) && f.is_closed(z) == g.is_closed(z) && f.is_empty(z) == g.is_empty(z), "zones keep their state");
        s::check((f.is_empty(z) || f.allocated(z) == g.allocated(z)) && f.in_use(z) == g.in_use(z) && f.available(z) == g.available(z) && f.write_pointer(z) == g.write_pointer(z), "zones keep their space");
        if f.is_closed(z) || f.is_open(z) {
            s::check(f.zones[z as usize].txgs == g.zones[z as usize].txgs && f.zones[z as usize].freed_blocks == g.zones[z as usize].freed_blocks, "zones keep their transactions");
        }
    }
    s::check(f.allocated_total() == g.allocated_total() && f.in_use_total() == g.in_use_total() && f.find_empty() == g.find_empty(), "the space map as a whole");
    mem::forget((_v, v));
    s::reach(1);
}
const LPZ: u64 = 16;
symrt::entries! {
    h_cl_history => history();
    h_cl_fsm => fsm();
    h_cl_corrupt => corrupt();
    h_cl_open_eio => open_eio();
}
