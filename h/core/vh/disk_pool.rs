//! Pool: several clusters on simulated disks
use super::*;
use crate::cluster::vh_disk::{Model, St};
use crate::raid::vh_disk::*;
use crate::vdev_block::vh_disk::*;
use crate::vdev_file::vh_disk::*;
use divbuf::DivBufShared;
use std::mem;
use symrt as s;
use tokio::vexec;

pub fn pool(clusters: Vec<Cluster>) -> Pool { Pool::new("p".to_string(), Uuid::from_uuid(uuid::Uuid::from_u128(0x4000)), clusters) }
pub fn cluster(p: &Pool, i: usize) -> &Cluster { &p.clusters[i] }
const LPZ: u64 = 16;
fn check(p: &Pool, ms: &[Model]) {
    for (i, m) in ms.iter().enumerate() {
        m.check(cluster(p, i));
    }
    s::check(p.used() == ms.iter().flat_map(|m| m.live.iter()).map(|e| e.n).sum::<u64>(), "used space is what has been written and not freed");
    // every closed zone is found once
    let mut want: Vec<(usize, usize)> = vec![];
    for (c, m) in ms.iter().enumerate() {
        want.extend((0..m.zones.len()).filter(|z| m.zones[*z].st == St::Closed).map(|z| (c, z)));
    }
    let mut at = Some((0, 0));
    let mut calls = 0;
    while let Some((c, z)) = at {
        let (r, next) = p.find_closed_zone(c, z);
        if let Some(r) = r {
            s::check(!want.is_empty(), "only closed zones are found");
            let (wc, wz) = want.remove(0);
            let m = &ms[wc];
            s::check(r.pba == PBA::new(wc as u16, m.lim[wz].0) && r.zid as usize == wz, "closed zones are found in their clusters");
            s::check(r.total_blocks == m.cap(wz) && r.freed_blocks == m.cap(wz) - m.in_use(wz), "garbage in closed zones");
        }
        at = next;
        calls += 1;
        s::check(calls < 50, "the search for closed zones ends");
    }
    s::check(want.is_empty(), "all closed zones are found");
    for i in 0..ms.len() {
        s::check(p.stats.queue_depth[i].load(Ordering::Relaxed) == 0, "an idle pool has empty queues");
    }
}
fn read(p: &Pool, ms: &[Model]) {
    for (c, m) in ms.iter().enumerate() {
        for e in &m.live {
            let dbs = DivBufShared::from(vec![0u8; e.n as usize * BYTES_PER_LBA]);
            s::check(go(p.read(dbs.try_mut().unwrap(), PBA::new(c as u16, e.lba)), first) == Some(Ok(())), "live data can be read");
            let d = dbs.try_const().unwrap();
            for i in 0..e.n as usize {
                s::check(marked(&d[i * BYTES_PER_LBA..(i + 1) * BYTES_PER_LBA], e.tag.wrapping_mul(16).wrapping_add(i as u8)), "live data is what was written");
            }
        }
    }
}
/// Writes, frees and transactions.  params: zones of each cluster (4 bits each), lengths (bits), operations, failing disks, script
fn history() {
    let zones: Vec<u64> = (0..4).map(|i| s::param(0) >> (4 * i) & 15).filter(|x| *x > 0).collect();
    let n = zones.len();
    let top = *zones.iter().max().unwrap();
    init(n, LPZ * top, |d, l| 1 + l as u8 + 3 * d as u8);
    let p = pool((0..n).map(|i| Cluster::create(null(i, 1, LPZ * zones[i], LPZ))).collect());
    let mut ms: Vec<Model> = (0..n).map(|i| Model::new(cluster(&p, i), 1)).collect();
    s::check(p.size() == (0..n).map(|i| cluster(&p, i).size()).sum::<u64>(), "size of the pool");
    let lens: Vec<u64> = (0..64).filter(|i| s::param(1) >> i & 1 == 1).map(|x| x as u64).collect();
    let (mut txg, mut tag) = (1u32, 1u8);
    let script = s::param(4);
    for step in 0..s::param(2) {
        let live: Vec<(usize, u64, u64)> = ms.iter().enumerate().flat_map(|(c, m)| m.live.iter().map(move |e| (c, e.lba, e.n))).collect();
        let choices = 1 + lens.len() as u64 + live.len() as u64;
        let op = if script >> (4 * step) & 15 != 0 { (script >> (4 * step) & 15) - 1 } else { s::choice(choices) };
        if op == 0 {
            for m in ms.iter_mut() {
                m.flushed();
            }
            s::check(go(p.flush(0), first) == Some(Ok(())), "flush");
            s::check(go(p.sync_all(), first) == Some(Ok(())), "sync");
            s::check(go(p.flush(1), first) == Some(Ok(())), "flush");
            s::check(go(p.advance_transaction(TxgT::from(txg)), first) == Some(Ok(())), "advance");
            txg += 1;
            for m in ms.iter_mut() {
                m.advanced();
                s::check(m.txg == txg, "transaction");
            }
        } else if op <= lens.len() as u64 {
            let len = lens[op as usize - 1];
            tag += 1;
            let b = buf(&(0..len).map(|i| tag.wrapping_mul(16).wrapping_add(i as u8)).collect::<Vec<_>>());
            // other traffic on the pool
            for i in 0..n {
                if s::param(3) == 1 {
                    p.stats.queue_depth[i].fetch_add(200 * s::choice(2) as u32, Ordering::Relaxed);
                }
            }
            let before: Vec<u32> = (0..n).map(|i| p.stats.queue_depth[i].load(Ordering::Relaxed)).collect();
            let r = go(p.write(b, TxgT::from(txg)), first);
            for i in 0..n {
                s::check(p.stats.queue_depth[i].load(Ordering::Relaxed) == before[i], "queue depth is what is under way");
                p.stats.queue_depth[i].store(0, Ordering::Relaxed);
            }
            match r {
                Some(Ok(pba)) => {
                    s::check((pba.cluster as usize) < n, "data is on a cluster of the pool");
                    let m = &mut ms[pba.cluster as usize];
                    m.tag = tag;
                    m.placed(pba.lba, len);
                }
                Some(Err(e)) => {
                    s::check(e == Error::ENOSPC, "the only error is ENOSPC");
                    s::check(!ms.iter().any(|m| m.can(len)), "no ENOSPC while a cluster has space");
                }
                None => s::check(false, "write completes"),
            }
        } else {
            let (c, lba, k) = live[op as usize - 1 - lens.len()];
            p.free(PBA::new(c as u16, lba), k);
            ms[c].freed(lba, k);
        }
        check(&p, &ms);
    }
    read(&p, &ms);
    mem::forget(p);
    s::reach(1);
}
/// Several operations are under way at once, some disks fail.  params: clusters, operations
fn errors() {
    let n = s::param(0) as usize;
    init(n, LPZ * 2, |d, l| 1 + l as u8 + 3 * d as u8);
    let p = pool((0..n).map(|i| Cluster::create(null(i, 1, LPZ * 2, LPZ))).collect());
    let bad = s::choice(1 << n) as u32;
    sim().fate = crate::mirror::vh_disk::fate_by_disk;
    crate::mirror::vh_disk::set_fail(bad);
    sim().sync = false;
    let p = Arc::new(p);
    type Slot = std::rc::Rc<std::cell::RefCell<Option<Result<PBA>>>>;
    let slots: Vec<Slot> = (0..s::param(1)).map(|i| {
        let slot = Slot::default();
        let (s2, p2) = (slot.clone(), p.clone());
        tokio::spawn(async move {
            let r = p2.write(buf(&[i as u8 + 40]), TxgT::from(1)).await;
            s2.replace(Some(r));
        });
        slot
    }).collect();
    vexec::drain();
    let depth: u32 = p.stats.queue_depth.iter().map(|x| x.load(Ordering::Relaxed)).sum();
    s::check(depth == slots.len() as u32, "queue depth is what is under way");
    settle(any);
    let mut ok = 0;
    let mut seen = vec![];
    for (i, slot) in slots.iter().enumerate() {
        let r = slot.replace(None);
        s::check(r.is_some(), "write completes");
        match r.unwrap() {
            Ok(pba) => {
                s::check(bad >> pba.cluster & 1 == 0, "a failed write is reported");
                s::check(!seen.contains(&pba), "no two writes get the same place");
                seen.push(pba);
                ok += 1;
                sim().sync = true;
                let dbs = DivBufShared::from(vec![0u8; BYTES_PER_LBA]);
                s::check(go(p.read(dbs.try_mut().unwrap(), pba), first) == Some(Ok(())), "data can be read");
                s::check(marked(&dbs.try_const().unwrap(), i as u8 + 40), "data is what was written");
            }
            Err(e) => s::check(e == Error::EIO && bad != 0, "a write fails only if the disk does"),
        }
    }
    s::check(p.used() == ok, "failed writes use no space");
    s::check(p.stats.queue_depth.iter().all(|x| x.load(Ordering::Relaxed) == 0), "an idle pool has empty queues");
    let all = |m: &Pool| (go(m.sync_all(), first), go(m.flush(0), first), go(m.advance_transaction(TxgT::from(1)), first));
    let (a, b, _c) = all(&p);
    let want = if bad == 0 { Ok(()) } else { Err(Error::EIO) };
    s::check(a == Some(want) && b == Some(want), "sync and flush fail if any cluster does");
    mem::forget(p);
    s::reach(1);
}
symrt::entries! {
    h_pool_history => history();
    h_pool_errors => errors();
}
