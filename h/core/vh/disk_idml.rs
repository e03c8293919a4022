//! IDML: records with indirect addresses on simulated disks
use super::*;
use crate::cluster::Cluster;
use crate::pool::{vh_disk::pool, Pool};
use crate::raid::vh_disk::*;
use crate::vdev_file::vh_disk::*;
use divbuf::DivBuf;
use std::mem;
use symrt as s;
use tokio::vexec;

pub fn array(g: Geo) -> RaidImpl_ { if g.n == 1 { null(0, g.k as usize, g.size, g.lpz) } else { make(g) } }
pub type RaidImpl_ = crate::raid::RaidImpl;
pub fn disks(g: Geo) -> usize { if g.n == 1 { g.k as usize } else { g.n } }
fn cache(cap: usize) -> Arc<Mutex<Cache>> {
    all_bytes();
    metrohash::STRONG.store(true, Ordering::Relaxed);
    Arc::new(Mutex::new(Cache::with_capacity(cap)))
}
pub fn idml(g: Geo, cap: usize) -> Arc<IDML> {
    let c = cache(cap);
    let ddml = Arc::new(DDML::create(pool(vec![Cluster::create(array(g))]), c.clone()));
    Arc::new(IDML::create(ddml, c))
}
/// everything below, opened from what the disks hold
pub async fn reopen_idml(g: Geo, cap: usize) -> Result<(IDML, LabelReader)> {
    let (r, reader) = reopen(g).await?;
    let c = Cluster::open(r).await?;
    let (p, reader) = Pool::open(None, vec![(c, reader)]);
    let c = cache(cap);
    Ok(IDML::open(Arc::new(DDML::open(p, c.clone())), c, 1 << 28, reader))
}
pub fn bytes(tag: u8, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    for i in (0..len).step_by(500) {
        v[i] = tag ^ (i / 500) as u8;
    }
    v
}
/// ends the transaction
pub async fn txn(d: Arc<IDML>) -> Result<()> {
    let d2 = d.clone();
    d.advance_transaction(move |txg| async move {
        d2.flush(Some(0), txg).await?;
        d2.sync_all(txg).await?;
        d2.write_label(LabelWriter::new(0), txg).await?;
        d2.flush(Some(1), txg).await?;
        d2.sync_all(txg).await?;
        d2.write_label(LabelWriter::new(1), txg).await?;
        d2.sync_all(txg).await
    }).await
}
async fn get(d: Arc<IDML>, rid: RID) -> Result<Vec<u8>> { d.get::<DivBufShared, DivBuf>(&rid).await.map(|b| b[..].to_vec()) }
async fn put(d: Arc<IDML>, tag: u8, len: usize) -> Result<RID> {
    let txg = d.txg().await;
    d.put(DivBufShared::from(bytes(tag, len)), if len > 5000 { Compression::LZ4(None) } else { Compression::None }, *txg).await
}
async fn pop(d: Arc<IDML>, rid: RID) -> Result<Vec<u8>> {
    let txg = d.txg().await;
    d.pop::<DivBufShared, DivBuf>(&rid, *txg).await.map(|b| b.try_const().unwrap()[..].to_vec())
}
async fn delete(d: Arc<IDML>, rid: RID) -> Result<()> {
    let txg = d.txg().await;
    d.delete(&rid, *txg).await
}
/// cleans every closed zone that holds garbage
async fn clean(d: Arc<IDML>) -> Result<()> {
    let zones: Vec<ClosedZone> = d.list_closed_zones().await.filter(|z| z.freed_blocks > 0).collect();
    for z in zones {
        let txg = d.txg().await;
        d.clean_zone(z, *txg).await?;
    }
    Ok(())
}
fn consistent(d: &Arc<IDML>) {
    s::check(matches!(go(d.check(), first), Some(Ok(true))), "the record table and the allocation table are inverse and used space is right");
}
/// params: geometry, zones, operations, cache size, script, reopen
fn history() {
    let g = params(16, 16 * s::param(4));
    init(disks(g), g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let cap = s::param(6) as usize;
    let mut d = idml(g, cap);
    let mut live: Vec<(RID, Vec<u8>)> = vec![];
    let mut tag = 1u8;
    let mut rids = vec![];
    for step in 0..s::param(5) {
        let sc = s::param(7) >> (4 * step) & 15;
        let op = if sc != 0 { sc - 1 } else { s::choice(5 + 4 * live.len() as u64) };
        match op {
            0 | 1 | 2 => {
                tag += 1;
                let len = [100, 4096, 13000][op as usize];
                match go(put(d.clone(), tag, len), first) {
                    Some(Ok(rid)) => {
                        s::check(!rids.contains(&rid), "record ids are never reused");
                        rids.push(rid);
                        live.push((rid, bytes(tag, len)));
                    }
                    r => s::check(r == Some(Err(Error::ENOSPC)), "a record is written"),
                }
            }
            3 => s::check(go(txn(d.clone()), first) == Some(Ok(())), "transaction"),
            4 => s::check(go(clean(d.clone()), first) == Some(Ok(())), "cleaning"),
            _ => {
                let i = (op as usize - 5) / 4;
                match (op - 5) % 4 {
                    0 => {
                        let (rid, v) = live.remove(i);
                        s::check(go(pop(d.clone(), rid), first) == Some(Ok(v)), "a record popped is what was put");
                        s::check(go(get(d.clone(), rid), first) == Some(Err(Error::ENOENT)), "a record popped is gone");
                    }
                    1 => {
                        let (rid, _) = live.remove(i);
                        s::check(go(delete(d.clone(), rid), first) == Some(Ok(())), "delete");
                        s::check(go(get(d.clone(), rid), first) == Some(Err(Error::ENOENT)), "a deleted record is gone");
                    }
                    2 => d.evict(&live[i].0),
                    _ => s::check(go(get(d.clone(), live[i].0), first) == Some(Ok(live[i].1.clone())), "a record read is what was put"),
                }
            }
        }
        consistent(&d);
        if op == 3 && s::param(8) == 1 && s::choice(2) == 1 {
            mem::forget(d);
            let r = go(reopen_idml(g, cap), first);
            s::check(matches!(r, Some(Ok(_))), "the pool is reopened");
            d = Arc::new(r.unwrap().ok().unwrap().0);
            consistent(&d);
        }
    }
    for (rid, v) in &live {
        s::check(go(get(d.clone(), *rid), first) == Some(Ok(v.clone())), "a record read is what was put");
    }
    d.drop_cache();
    for (rid, v) in &live {
        s::check(go(get(d.clone(), *rid), first) == Some(Ok(v.clone())), "a record read from disk is what was put");
    }
    mem::forget(d);
    s::reach(1);
}
/// Cleaning a zone while others use its records.  params: geometry, zones, kind of other operation, cached
fn clean_race() {
    let g = params(16, 16 * s::param(4));
    init(disks(g), g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let d = idml(g, 1 << 20);
    let mut live: Vec<(RID, Vec<u8>)> = vec![];
    // fill the first zone
    for tag in 1..5u8 {
        let rid = go(put(d.clone(), tag, 8192), first).unwrap().unwrap();
        live.push((rid, bytes(tag, 8192)));
    }
    let (rid, _) = live.remove(0);
    s::check(go(delete(d.clone(), rid), first) == Some(Ok(())), "delete");
    s::check(go(txn(d.clone()), first) == Some(Ok(())), "transaction");
    if s::param(6) == 0 {
        d.drop_cache();
    }
    sim().sync = false;
    let done = Arc::new(AtomicU64::new(0));
    let (d2, done2) = (d.clone(), done.clone());
    tokio::spawn(async move {
        s::check(clean(d2).await == Ok(()), "cleaning");
        done2.fetch_add(1, Ordering::Relaxed);
    });
    // something else happens at any moment
    for _ in 0..s::choice(12) {
        vexec::drain();
        if !inflight().is_empty() {
            complete(0);
        }
    }
    let i = s::choice(live.len() as u64) as usize;
    let rid = live[i].0;
    match s::param(5) {
        0 => {
            live.remove(i);
            s::check(go(delete(d.clone(), rid), any) == Some(Ok(())), "delete");
        }
        1 => {
            let (_, v) = live.remove(i);
            s::check(go(pop(d.clone(), rid), any) == Some(Ok(v)), "a record popped is what was put");
        }
        2 => s::check(go(get(d.clone(), rid), any) == Some(Ok(live[i].1.clone())), "a record read is what was put"),
        3 => {
            let r = go(put(d.clone(), 77, 8192), any);
            s::check(matches!(r, Some(Ok(_))), "a record is written");
            live.push((r.unwrap().unwrap(), bytes(77, 8192)));
        }
        _ => s::check(go(txn(d.clone()), first) == Some(Ok(())), "transaction"),
    }
    settle(first);
    s::check(done.load(Ordering::Relaxed) == 1, "cleaning ends");
    sim().sync = true;
    consistent(&d);
    d.drop_cache();
    for (rid, v) in &live {
        s::check(go(get(d.clone(), *rid), first) == Some(Ok(v.clone())), "a record read is what was put");
    }
    s::check(go(txn(d.clone()), first) == Some(Ok(())), "transaction");
    consistent(&d);
    mem::forget(d);
    s::reach(1);
}
symrt::entries! {
    h_idml_history => history();
    h_idml_clean_race => clean_race();
}
