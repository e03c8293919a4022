//! Database: transactions and power failures on simulated disks
use super::*;
use crate::idml::vh_disk::{disks, make, reopen};
use crate::raid::vh_disk::*;
use crate::vdev_file::vh_disk::*;
use divbuf::DivBufShared;
use std::mem;
use std::sync::atomic::AtomicU64;
use symrt as s;
use tokio::vexec;

type State = BTreeMap<u64, Vec<u8>>;
const FS: TreeID = TreeID(0);
const KEYS: u64 = 2;
fn key(k: u64) -> FSKey { FSKey::new(1, ObjKey::Extent(k * 4096)) }
fn content(tag: u8, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    for i in (0..len).step_by(300) {
        v[i] = tag ^ (i / 300) as u8;
    }
    v
}
/// a new database with one file system
fn create(g: Geo, cap: usize) -> Arc<Inner> {
    let d = make(g, cap);
    let inner = Arc::new(Inner::new(d.clone(), Forest::create(d)));
    let i2 = inner.clone();
    let r = go(async move {
        let fs = Arc::new(ITree::<FSKey, FSValue>::create(i2.idml.clone(), false, 9.00, 1.61));
        let txg = i2.idml.txg().await;
        fs.clone().flush(*txg).await?;
        let tod = fs.serialize()?;
        i2.forest.insert_tree(None, String::new(), tod, *txg).await
    }, first);
    s::check(r == Some(Ok(FS)), "a file system is created");
    inner
}
async fn open(g: Geo, cap: usize) -> Result<Arc<Inner>> {
    let (d, mut reader) = reopen(g, cap).await?;
    let d = Arc::new(d);
    let l: Label = reader.deserialize().map_err(|_| Error::EINVAL)?;
    let f = Forest::open(d.clone(), l.forest);
    Ok(Arc::new(Inner::new(d, f)))
}
fn write(i: Arc<Inner>, k: u64, v: Option<Vec<u8>>) -> impl Future<Output = Result<()>> {
    Inner::fswrite(i, FS, 1, 0, 1, 8192, move |ds| async move {
        match v {
            Some(v) => ds.insert(key(k), FSValue::InlineExtent(fs_tree::InlineExtent::new(Arc::new(DivBufShared::from(v))))).await.map(drop),
            None => ds.remove(key(k)).await.map(drop),
        }
    })
}
async fn read(i: Arc<Inner>, k: u64) -> Result<Option<Vec<u8>>> {
    let t = Inner::open_filesystem(&i, FS).await?;
    let ds = ReadOnlyFilesystem::new(i.idml.clone(), t);
    use crate::dataset::ReadDataset;
    match ds.get(key(k)).await? {
        None => Ok(None),
        Some(FSValue::InlineExtent(e)) => Ok(Some(e.buf.try_const().unwrap()[..].to_vec())),
        Some(FSValue::BlobExtent(b)) => {
            let d = ds.get_blob(b.rid).await?;
            s::check(d.len() == b.lsize as usize, "length of a blob");
            Ok(Some(d[..].to_vec()))
        }
        _ => Err(Error::EINVAL),
    }
}
fn sync(i: &Arc<Inner>) -> Option<Result<()>> { go(Database::sync_transaction_priv(i), first) }
fn contents(i: &Arc<Inner>) -> Result<State> {
    let mut m = State::new();
    for k in 0..KEYS {
        let r = go(read(i.clone(), k), first);
        s::check(r.is_some(), "reading completes");
        if let Some(v) = r.unwrap()? {
            m.insert(k, v);
        }
    }
    Ok(m)
}
fn consistent(i: &Arc<Inner>) {
    s::check(matches!(go(i.idml.check(), first), Some(Ok(true))), "records, tables and used space agree");
    let i2 = i.clone();
    let r = go(async move {
        let t = Inner::open_filesystem(&i2, FS).await?;
        Ok::<bool, Error>(t.check().await? && i2.forest.0.clone().check().await?)
    }, first);
    s::check(matches!(r, Some(Ok(true))), "the trees are consistent");
}
/// one step of a history
fn step(i: &Arc<Inner>, op: u64, tag: u8, now: &mut State, saved: &mut State) {
    match op {
        0..=3 => {
            let v = content(tag, if op < 2 { 100 } else { 4500 });
            s::check(go(write(i.clone(), op % KEYS, Some(v.clone())), first) == Some(Ok(())), "write");
            now.insert(op % KEYS, v);
        }
        4 | 5 => {
            s::check(go(write(i.clone(), op - 4, None), first) == Some(Ok(())), "remove");
            now.remove(&(op - 4));
        }
        6 => {
            s::check(sync(i) == Some(Ok(())), "sync");
            *saved = now.clone();
        }
        7 => i.idml.drop_cache(),
        8 => s::check(go(Database::flush(i), first) == Some(Ok(())), "flush"),
        _ => {
            let i2 = i.clone();
            let r = go(async move {
                let zones: Vec<ClosedZone> = i2.idml.list_closed_zones().await.filter(|z| z.freed_blocks > 0).collect();
                for z in zones {
                    let txg = i2.idml.txg().await;
                    i2.idml.clean_zone(z, *txg).await?;
                }
                Ok::<(), Error>(())
            }, first);
            s::check(r == Some(Ok(())), "cleaning");
            // the cleaner dirties the database only through its next user
        }
    }
}
/// params: geometry, zones, operations, cache size, script, number of operations that may be chosen
fn history() {
    let g = params(16, 16 * s::param(4));
    init(disks(g), g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let cap = s::param(6) as usize;
    let mut i = create(g, cap);
    s::check(sync(&i) == Some(Ok(())), "sync");
    let (mut now, mut saved) = (State::new(), State::new());
    for n in 0..s::param(5) {
        let sc = s::param(7) >> (4 * n) & 15;
        let op = if sc != 0 { sc - 1 } else { s::choice(s::param(8)) };
        if op == 10 {
            // the machine stops; what wasn't synced is gone
            mem::forget(i);
            let r = go(open(g, cap), first);
            s::check(matches!(r, Some(Ok(_))), "the database is reopened");
            i = r.unwrap().ok().unwrap();
            now = saved.clone();
            s::check(contents(&i).ok().as_ref() == Some(&now), "the database holds what was synced last");
            consistent(&i);
        } else {
            step(&i, op, n as u8 + 1, &mut now, &mut saved);
        }
    }
    s::check(contents(&i).ok().as_ref() == Some(&now), "reads return what was written last");
    consistent(&i);
    i.idml.drop_cache();
    s::check(contents(&i).ok().as_ref() == Some(&now), "reads from disk return what was written last");
    s::check(sync(&i) == Some(Ok(())), "sync");
    mem::forget(i);
    let r = go(open(g, cap), first);
    s::check(matches!(r, Some(Ok(_))), "the database is reopened");
    let i = r.unwrap().ok().unwrap();
    s::check(contents(&i).ok().as_ref() == Some(&now), "the database holds what was synced last");
    consistent(&i);
    mem::forget(i);
    s::reach(1);
}
static COUNT: AtomicU64 = AtomicU64::new(0);
static FAIL_AT: AtomicU64 = AtomicU64::new(0);
fn at(s: &Seen) -> bool { s.op != 0 && COUNT.fetch_add(1, Ordering::Relaxed) == FAIL_AT.load(Ordering::Relaxed) }
/// Power fails during a sync.  params: geometry, zones, operations, cache size, script, number of operations that
/// may be chosen, continue afterwards
fn crash() {
    let g = params(16, 16 * s::param(4));
    init(disks(g), g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let cap = s::param(6) as usize;
    let i = create(g, cap);
    s::check(sync(&i) == Some(Ok(())), "sync");
    let (mut now, mut saved) = (State::new(), State::new());
    for n in 0..s::param(5) {
        let sc = s::param(7) >> (4 * n) & 15;
        let op = if sc != 0 { sc - 1 } else { s::choice(s::param(8)) };
        step(&i, op, n as u8 + 1, &mut now, &mut saved);
    }
    FAIL_AT.store(s::choice(64), Ordering::Relaxed);
    COUNT.store(0, Ordering::Relaxed);
    sim().track = true;
    sim().fails = at;
    let r = sync(&i);
    if !sim().dead {
        s::check(r == Some(Ok(())), "sync");
        saved = now.clone();
        s::reach(2);
    } else {
        s::check(r.is_none(), "nothing completes without power");
    }
    mem::forget(i);
    // what hadn't been synced may be lost
    let n = sim().undo.len() as u64;
    let lost = s::choice(2 + 2 * n);
    power_cycle(|i, n| match lost {
        0 => false,
        1 => true,
        x if x < 2 + n as u64 => i as u64 == x - 2,
        x => i as u64 != x - 2 - n as u64,
    });
    sim().track = false;
    let r = go(open(g, cap), first);
    s::check(matches!(r, Some(Ok(_))), "the database is reopened after a power failure");
    let i = r.unwrap().ok().unwrap();
    let c = contents(&i);
    s::check(c.is_ok(), "the database can be read after a power failure");
    let c = c.ok().unwrap();
    s::check(c == saved || c == now, "the database holds one of the last two transactions");
    if s::param(9) == 1 {
        consistent(&i);
        let (mut now, mut saved) = (c.clone(), c);
        for (n, op) in [2, 3, 6].into_iter().enumerate() {
            step(&i, op, n as u8 + 100, &mut now, &mut saved);
        }
        i.idml.drop_cache();
        s::check(contents(&i).ok().as_ref() == Some(&now), "reads from disk return what was written last");
        consistent(&i);
    }
    mem::forget(i);
    s::reach(1);
}
/// A write and a sync begin at the same time, in either order, on an open or not yet open file system.  params: geometry, zones, 2 writes
fn race() {
    let g = params(16, 16 * s::param(4));
    init(disks(g), g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let cap = 1 << 20;
    let mut i = create(g, cap);
    let (mut now, mut saved) = (State::new(), State::new());
    step(&i, 0, 1, &mut now, &mut saved);
    s::check(sync(&i) == Some(Ok(())), "sync");
    if s::choice(2) == 1 {
        mem::forget(i);
        i = go(open(g, cap), first).unwrap().ok().unwrap();
    }
    sim().sync = false;
    let done = Arc::new(AtomicU64::new(0));
    let nw = 1 + s::param(5);
    let order = s::choice(nw + 1);
    let mut writes = 0;
    for j in 0..nw + 1 {
        let (i2, d2) = (i.clone(), done.clone());
        if j == order {
            tokio::spawn(async move {
                s::check(Database::sync_transaction_priv(&i2).await == Ok(()), "sync");
                d2.fetch_add(1, Ordering::Relaxed);
            });
        } else {
            let k = writes;
            writes += 1;
            let v = content(50 + k as u8, 200);
            now.insert(k, v.clone());
            tokio::spawn(async move {
                s::check(write(i2, k, Some(v)).await == Ok(()), "write");
                d2.fetch_add(1, Ordering::Relaxed);
            });
        }
        for _ in 0..s::choice(3) {
            vexec::drain();
            if !inflight().is_empty() {
                complete(0);
            }
        }
    }
    settle(any);
    s::check(done.load(Ordering::Relaxed) == nw + 1, "everything completes");
    sim().sync = true;
    s::check(contents(&i).ok().as_ref() == Some(&now), "reads return what was written last");
    // all writes have completed: a sync makes them durable
    s::check(sync(&i) == Some(Ok(())), "sync");
    mem::forget(i);
    let r = go(open(g, cap), first);
    s::check(matches!(r, Some(Ok(_))), "the database is reopened");
    let i = r.unwrap().ok().unwrap();
    s::check(contents(&i).ok().as_ref() == Some(&now), "the database holds what was synced last");
    consistent(&i);
    mem::forget(i);
    s::reach(1);
}
static BAD: AtomicU64 = AtomicU64::new(0);
fn fate(s: &Seen) -> i32 { if s.op != 0 && COUNT.fetch_add(1, Ordering::Relaxed) == FAIL_AT.load(Ordering::Relaxed) { BAD.store(1, Ordering::Relaxed); EIO } else { 0 } }
/// A write or sync of the disk fails during a sync; syncing again succeeds only if the data are durable
fn sync_error() {
    let g = params(16, 16 * s::param(4));
    init(disks(g), g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let cap = 1 << 20;
    let i = create(g, cap);
    let (mut now, mut saved) = (State::new(), State::new());
    step(&i, 0, 1, &mut now, &mut saved);
    s::check(sync(&i) == Some(Ok(())), "sync");
    step(&i, 2 * s::param(5), 2, &mut now, &mut saved);
    FAIL_AT.store(s::choice(24), Ordering::Relaxed);
    COUNT.store(0, Ordering::Relaxed);
    BAD.store(0, Ordering::Relaxed);
    sim().fate = fate;
    let r = sync(&i);
    s::check(r == Some(Ok(())) && BAD.load(Ordering::Relaxed) == 0 || r == Some(Err(Error::EIO)), "a sync that failed says so");
    FAIL_AT.store(u64::MAX, Ordering::Relaxed);
    let ok = matches!(r, Some(Ok(()))) || matches!(sync(&i), Some(Ok(())));
    mem::forget(i);
    let r = go(open(g, cap), first);
    s::check(matches!(r, Some(Ok(_))), "the database is reopened");
    let i = r.unwrap().ok().unwrap();
    let c = contents(&i).ok();
    s::check(c.as_ref() == Some(&now) || !ok && c.as_ref() == Some(&saved), "after a successful sync the data are durable");
    mem::forget(i);
    s::reach(1);
}
symrt::entries! {
    h_db_history => history();
    h_db_crash => crash();
    h_db_crash_space => crash();
    h_db_race => race();
    h_db_sync_error => sync_error();
}
