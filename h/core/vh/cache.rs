//! Block cache.
use super::*;
use crate::types::{PBA, RID};
use symrt as s;

#[derive(Debug)]
struct V { id: u32, space: usize }
struct VRef { id: u32 }
impl Cacheable for V {
    fn deserialize(_: DivBufShared) -> Self { unreachable!() }
    fn eq(&self, o: &dyn Cacheable) -> bool { o.downcast_ref::<V>().map(|v| v.id == self.id).unwrap_or(false) }
    fn cache_space(&self) -> usize { self.space }
    fn make_ref(&self) -> Box<dyn CacheRef> { Box::new(VRef { id: self.id }) }
    fn wb_space(&self) -> usize { self.space }
}
impl CacheRef for VRef {
    fn deserialize(_: DivBufShared) -> Box<dyn Cacheable> { unreachable!() }
    fn serialize(&self) -> DivBuf { unreachable!() }
    fn into_owned(self) -> Box<dyn Cacheable> { unreachable!() }
}
/// keys of both kinds with equal numbers must not be mixed up
fn key(i: u64) -> Key {
    match i {
        0 => Key::Rid(RID(7)),
        1 => Key::PBA(PBA { cluster: 0, lba: 7 }),
        2 => Key::PBA(PBA { cluster: 7, lba: 0 }),
        _ => Key::Rid(RID(8 + i)),
    }
}
struct Model { cap: usize, l: Vec<(u64, u32, usize)>, next: u32 }
impl Model {
    fn pos(&self, k: u64) -> Option<usize> { self.l.iter().position(|x| x.0 == k) }
    fn size(&self) -> usize { self.l.iter().map(|x| x.2).sum() }
}
fn compare(c: &Cache, m: &Model, keys: u64) {
    s::check(c.size() == m.size(), "size is the sum of the cached objects");
    s::check(c.capacity() == m.cap, "capacity");
    for k in 0..keys {
        match (c.get_ref(&key(k)), m.pos(k)) {
            (None, None) => (),
            (Some(r), Some(p)) => s::check(r.downcast::<VRef>().unwrap().id == m.l[p].1, "the cached object is the one that was inserted"),
            (None, Some(_)) => s::check(false, "an object was evicted without need or out of order"),
            (Some(_), None) => s::check(false, "an object that should be gone is still cached"),
        }
    }
}
/// The cache against a list in order of use.  Sizes and capacity are symbolic.
fn model() {
    let (keys, pre, ops) = (s::param(0), s::param(1), s::param(2));
    let cap = s::u8() as usize;
    s::assume(cap >= 1);
    let mut c = Cache::with_capacity(cap);
    let mut m = Model { cap, l: vec![], next: 1 };
    let insert = |c: &mut Cache, m: &mut Model, k: u64| {
        let space = s::u8() as usize;
        s::assume(space <= cap);
        // least recently used objects are evicted, and only as many as necessary
        while m.size() + space > cap {
            m.l.remove(0);
        }
        if m.pos(k).is_some() {
            // inserting the same object twice is merely bad timing
            let p = m.pos(k).unwrap();
            let (id, sp) = (m.l[p].1, m.l[p].2);
            s::assume(sp == space);
            c.insert(key(k), Box::new(V { id, space }));
            return;
        }
        m.l.push((k, m.next, space));
        c.insert(key(k), Box::new(V { id: m.next, space }));
        m.next += 1;
    };
    for k in 0..pre {
        insert(&mut c, &mut m, k);
    }
    compare(&c, &m, keys);
    let first = s::param(3);
    for i in 0..ops {
        let (k, op) = if i == 0 && first < 99 { (first % 10, first / 10) } else { (s::choice(keys), s::choice(4)) };
        match op {
            0 => insert(&mut c, &mut m, k),
            1 => {
                let r = c.get::<VRef>(&key(k));
                match m.pos(k) {
                    None => s::check(r.is_none(), "get of an absent key"),
                    Some(p) => {
                        let e = m.l.remove(p);
                        s::check(r.map(|v| v.id) == Some(e.1), "get returns the inserted object");
                        m.l.push(e);
                    }
                }
            }
            2 => {
                let r = c.remove(&key(k));
                match m.pos(k) {
                    None => s::check(r.is_none(), "remove of an absent key"),
                    Some(p) => {
                        let e = m.l.remove(p);
                        s::check(r.map(|v| v.downcast::<V>().unwrap().id) == Some(e.1), "remove returns the inserted object");
                    }
                }
            }
            _ => {
                if k != 0 {
                    s::kill();
                }
                c.drop_cache();
                m.l.clear();
            }
        }
        compare(&c, &m, keys);
    }
    // whatever remains is evicted in order of use
    let n = m.l.len();
    for i in 0..n {
        insert(&mut c, &mut m, keys + i as u64);
        compare(&c, &m, keys + i as u64 + 1);
    }
    s::reach(1);
}

// ---------------------------------------------------------------- concurrent reads of one block
use crate::types::{Error, Result};
use futures::FutureExt;
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use tokio::vexec;

/// the device: reads in progress, completed by the harness
struct Dev(UnsafeCell<Vec<Option<oneshot::Sender<std::result::Result<u8, Error>>>>>);
unsafe impl Sync for Dev {}
unsafe impl Send for Dev {}
impl Dev {
    #[allow(clippy::mut_from_ref)]
    fn g(&self) -> &mut Vec<Option<oneshot::Sender<std::result::Result<u8, Error>>>> { unsafe { &mut *self.0.get() } }
    /// like a pool's read: nothing happens before the first poll
    fn read(self: &Arc<Self>) -> Pin<Box<dyn Future<Output = Result<Box<DivBufShared>>> + Send>> {
        let me = self.clone();
        async move {
            let (tx, rx) = oneshot::channel();
            me.g().push(Some(tx));
            rx.await.unwrap().map(|b| Box::new(DivBufShared::from(vec![b; 8])))
        }.boxed()
    }
}
fn get(dev: &Arc<Dev>, cache: &Arc<Mutex<Cache>>, key: Key) -> Pin<Box<dyn Future<Output = Result<Box<DivBuf>>> + Send>> {
    get_or_insert!(DivBufShared, DivBuf, cache, key, dev.read())
}
/// Readers of one block, in every order of starting, polling, and completion of the device's reads, each of
/// which may fail.  Other blocks compete for the cache.
fn coalesce() {
    let (n, steps) = (s::param(0) as usize, s::param(1));
    let fail = s::param(2) == 1;
    let small = s::param(3) & 1 == 1;
    let cancel = s::param(3) & 2 == 2;
    let dev = Arc::new(Dev(UnsafeCell::new(vec![])));
    let cache = Arc::new(Mutex::new(Cache::with_capacity(if small { 8 } else { 64 })));
    let k = Key::PBA(PBA { cluster: 1, lba: 5 });
    let data = s::u8();
    let mut futs: Vec<Option<Pin<Box<dyn Future<Output = Result<Box<DivBuf>>> + Send>>>> = vec![];
    let mut done = 0;
    let mut failed = 0;
    let mut started = 0;
    let mut given_up = false;
    let mut poll = |f: &mut Option<Pin<Box<dyn Future<Output = Result<Box<DivBuf>>> + Send>>>, failed: usize| -> bool {
        match vexec::poll_once(f.as_mut().unwrap().as_mut()) {
            Poll::Pending => false,
            Poll::Ready(r) => {
                match r {
                    Ok(b) => s::check(b.len() == 8 && b[0] == data && b[7] == data, "a reader gets the data of the block"),
                    Err(e) => {
                        s::check(e == Error::EIO, "the device's error is reported");
                        s::check(failed > 0, "an error out of nowhere");
                    }
                }
                *f = None;
                true
            }
        }
    };
    for _ in 0..steps {
        match match s::choice(3 + small as u64 + cancel as u64) { 3 if !small => 4, x => x } {
            // a new reader
            0 => {
                if started == n {
                    s::kill();
                }
                started += 1;
                futs.push(Some(get(&dev, &cache, k)));
            }
            // some reader is polled
            1 => {
                let live: Vec<usize> = (0..futs.len()).filter(|i| futs[*i].is_some()).collect();
                if live.is_empty() {
                    s::kill();
                }
                let i = live[s::choice(live.len() as u64) as usize];
                done += poll(&mut futs[i], failed) as usize;
            }
            // the device completes a read
            2 => {
                let p: Vec<usize> = (0..dev.g().len()).filter(|i| dev.g()[*i].is_some()).collect();
                if p.is_empty() {
                    s::kill();
                }
                let i = p[s::choice(p.len() as u64) as usize];
                let tx = dev.g()[i].take().unwrap();
                if fail && s::choice(2) == 1 {
                    failed += 1;
                    let _ = tx.send(Err(Error::EIO));
                } else {
                    let _ = tx.send(Ok(data));
                }
            }
            // a reader gives up
            4 => {
                let live: Vec<usize> = (0..futs.len()).filter(|i| futs[*i].is_some()).collect();
                if live.is_empty() {
                    s::kill();
                }
                let i = live[s::choice(live.len() as u64) as usize];
                futs[i] = None;
                given_up = true;
                done += 1;
            }
            // another block displaces ours
            _ => {
                let mut c = cache.lock().unwrap();
                let o = Key::PBA(PBA { cluster: 2, lba: 5 });
                if c.get_ref(&o).is_some() {
                    c.remove(&o);
                }
                c.insert(o, Box::new(DivBufShared::from(vec![9; 8])));
            }
        }
        if failed == 0 && !small && !given_up {
            s::check(dev.g().len() <= 1, "simultaneous readers share one device read");
        }
    }
    // every read of the device completes, and everybody is polled: all readers must finish
    for _ in 0..2 * n + 2 {
        for i in 0..dev.g().len() {
            if let Some(tx) = dev.g()[i].take() {
                let _ = tx.send(Ok(data));
            }
        }
        for f in futs.iter_mut() {
            if f.is_some() {
                done += poll(f, failed) as usize;
            }
        }
    }
    s::check(done == started, "a reader hangs although the device is idle");
    // and the block can be read afterwards
    let mut f = Some(get(&dev, &cache, k));
    for _ in 0..3 {
        for i in 0..dev.g().len() {
            if let Some(tx) = dev.g()[i].take() {
                let _ = tx.send(Ok(data));
            }
        }
        if f.is_some() {
            poll(&mut f, failed);
        }
    }
    s::check(f.is_none(), "a later reader hangs although the device is idle");
    s::reach(1);
}
symrt::entries! {
    h_cache_model => model();
    h_cache_coalesce => coalesce();
}
