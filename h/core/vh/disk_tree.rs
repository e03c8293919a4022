//! B+tree as an ordered map on a record store held in memory
use super::*;
use speedy::{Readable, Writable};
use crate::ddml::DRP;
use crate::dml::{Cacheable, CacheRef};
use crate::writeback::WriteBack;
use divbuf::DivBufShared;
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::Mutex;
use std::task::{Poll, Waker};
use symrt as s;
use tokio::vexec;

impl Key for u32 {}
impl Value for u32 {}

/// A record store.  Records may be used only while they exist.
pub struct Mem {
    recs: Mutex<BTreeMap<u64, Vec<u8>>>,
    next: Mutex<u64>,
    slow: Mutex<bool>,
    gates: Mutex<Vec<(bool, Option<Waker>)>>,
    fails: Mutex<Option<u64>>,
    wb: WriteBack,
}
const LBAS: u64 = 1 << 20;
const ALL: usize = 1 << 30;
struct Gate(Arc<Mem2>, usize);
type Mem2 = Mem;
impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        let mut g = self.0.gates.lock().unwrap();
        if g[self.1].0 { return Poll::Ready(()) }
        g[self.1].1 = Some(cx.waker().clone());
        Poll::Pending
    }
}
/// the store as the tree sees it
pub struct Dml(Arc<Mem>);
impl std::fmt::Debug for Dml {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Dml") }
}
impl Dml {
    fn gate(&self) -> Option<Gate> {
        if *self.0.slow.lock().unwrap() {
            let mut g = self.0.gates.lock().unwrap();
            g.push((false, None));
            Some(Gate(self.0.clone(), g.len() - 1))
        } else {
            None
        }
    }
    fn fail(&self) -> bool {
        let mut f = self.0.fails.lock().unwrap();
        match *f {
            Some(0) => { *f = None; true }
            Some(n) => { *f = Some(n - 1); false }
            None => false,
        }
    }
    fn data(&self, a: &DRP) -> Vec<u8> {
        match self.0.recs.lock().unwrap().get(&a.pba().lba) {
            Some(v) => v.clone(),
            None => { s::check(false, "only records that exist are used"); vec![] }
        }
    }
    fn free(&self, a: &DRP) {
        s::check(self.0.recs.lock().unwrap().remove(&a.pba().lba).is_some(), "records are freed once");
    }
}
impl DML for Dml {
    type Addr = DRP;
    fn delete(&self, a: &DRP, _: TxgT) -> Pin<Box<dyn Future<Output = Result<()>> + Send>> {
        let (d, a, g) = (Dml(self.0.clone()), *a, self.gate());
        Box::pin(async move {
            if let Some(g) = g { g.await }
            d.free(&a);
            Ok(())
        })
    }
    fn evict(&self, _: &DRP) {}
    fn get<T: Cacheable, R: CacheRef>(&self, a: &DRP) -> Pin<Box<dyn Future<Output = Result<Box<R>>> + Send>> {
        let (d, a, g) = (Dml(self.0.clone()), *a, self.gate());
        let f = self.fail();
        // a read that has begun is not disturbed by freeing what it reads
        let v = d.data(&a);
        Box::pin(async move {
            if let Some(g) = g { g.await }
            if f { return Err(Error::EIO) }
            let t = <T as Cacheable>::deserialize(DivBufShared::from(v));
            Ok(t.make_ref().downcast::<R>().ok().unwrap())
        })
    }
    fn pop<T: Cacheable, R: CacheRef>(&self, a: &DRP, _: TxgT) -> Pin<Box<dyn Future<Output = Result<Box<T>>> + Send>> {
        let (d, a, g) = (Dml(self.0.clone()), *a, self.gate());
        let f = self.fail();
        d.data(&a);
        Box::pin(async move {
            if let Some(g) = g { g.await }
            if f { return Err(Error::EIO) }
            let t = <T as Cacheable>::deserialize(DivBufShared::from(d.data(&a)));
            d.free(&a);
            Ok(Box::new(t))
        })
    }
    fn put<T: Cacheable>(&self, c: T, comp: Compression, _: TxgT) -> Pin<Box<dyn Future<Output = Result<DRP>> + Send>> {
        let (d, g) = (Dml(self.0.clone()), self.gate());
        let v = c.make_ref().serialize()[..].to_vec();
        drop(c);
        let lba = {
            let mut n = d.0.next.lock().unwrap();
            *n += 1;
            *n
        };
        let len = v.len() as u32;
        d.0.recs.lock().unwrap().insert(lba, v);
        Box::pin(async move {
            if let Some(g) = g { g.await }
            Ok(DRP::new(PBA::new(0, lba), comp, len, len, 0))
        })
    }
    fn repay(&self, c: Credit) { self.0.wb.repay(c) }
    fn sync_all(&self, _: TxgT) -> Pin<Box<dyn Future<Output = Result<()>> + Send>> { Box::pin(future::ok(())) }
}
type T = Tree<DRP, Dml, u32, u32>;
type M = BTreeMap<u32, u32>;
fn mem() -> Arc<Mem> {
    Arc::new(Mem { recs: Default::default(), next: Mutex::new(0), slow: Mutex::new(false), gates: Default::default(), fails: Mutex::new(None), wb: WriteBack::with_capacity(ALL) })
}
fn limits(f: u64) -> Limits { Limits::new((f >> 12 & 15) as u16, (f >> 8 & 15) as u16, (f >> 4 & 15) as u16, (f & 15) as u16) }
fn go<O: 'static>(f: impl Future<Output = O> + 'static) -> O {
    let mut f = Box::pin(f);
    for _ in 0..1000 {
        if let Poll::Ready(o) = vexec::poll_once(f.as_mut()) { return o }
        vexec::drain();
    }
    s::check(false, "operations on an idle tree complete");
    s::kill()
}
struct W { t: Arc<T>, m: Arc<Mem>, txg: u32, lim: u64, seq: bool, model: M }
async fn insert(t: Arc<T>, m: Arc<Mem>, k: u32, v: u32, txg: u32) -> Result<Option<u32>> {
    let c = m.wb.borrow(t.credit_requirements().insert).await;
    t.insert(k, v, TxgT::from(txg), c).await
}
async fn remove(t: Arc<T>, m: Arc<Mem>, k: u32, txg: u32) -> Result<Option<u32>> {
    let c = m.wb.borrow(t.credit_requirements().remove).await;
    t.remove(k, TxgT::from(txg), c).await
}
type B = (Bound<u32>, Bound<u32>);
async fn range_delete(t: Arc<T>, m: Arc<Mem>, r: B, txg: u32) -> Result<()> {
    let c = m.wb.borrow(t.credit_requirements().range_delete).await;
    t.range_delete(r, TxgT::from(txg), c).await
}
async fn scan(t: Arc<T>, r: B) -> Result<Vec<(u32, u32)>> { t.range(r).try_collect().await }
/// kind: which ends are inclusive, exclusive or open
fn bounds(lo: u32, hi: u32, kind: u64) -> B {
    (match kind % 3 { 0 => Bound::Included(lo), 1 => Bound::Excluded(lo), _ => Bound::Unbounded },
     match kind / 3 { 0 => Bound::Excluded(hi), 1 => Bound::Included(hi), _ => Bound::Unbounded })
}
impl W {
    fn new(lim: u64, seq: bool) -> W {
        let m = mem();
        W { t: Arc::new(T::new(Arc::new(Dml(m.clone())), limits(lim), seq, None)), m, txg: 1, lim, seq, model: M::new() }
    }
    fn insert(&mut self, k: u32, v: u32) {
        let old = self.model.insert(k, v);
        s::check(go(insert(self.t.clone(), self.m.clone(), k, v, self.txg)) == Ok(old), "insert returns the old value");
    }
    fn remove(&mut self, k: u32) {
        let old = self.model.remove(&k);
        s::check(go(remove(self.t.clone(), self.m.clone(), k, self.txg)) == Ok(old), "remove returns the old value");
    }
    fn range_delete(&mut self, r: B) {
        self.model.retain(|k, _| !r.contains(k));
        s::check(go(range_delete(self.t.clone(), self.m.clone(), r, self.txg)) == Ok(()), "range_delete");
    }
    fn flush(&mut self) {
        let dirty = self.t.is_dirty();
        s::check(go(self.t.clone().flush(TxgT::from(self.txg))) == Ok(()), "flush");
        s::check(!self.t.is_dirty(), "a flushed tree is clean");
        let _ = dirty;
        self.txg += 1;
        // all credit has been repaid
        let f = self.m.clone();
        let c = go(async move { f.wb.borrow(ALL).await });
        self.m.wb.repay(c);
    }
    fn scan(&self, r: B) {
        let want: Vec<(u32, u32)> = self.model.iter().filter(|(k, _)| r.contains(k)).map(|(k, v)| (*k, *v)).collect();
        s::check(go(scan(self.t.clone(), r)) == Ok(want), "a range query yields exactly the keys in the range, in order");
    }
    fn reopen(&mut self) {
        self.flush();
        let od = self.t.serialize();
        s::check(od.is_ok(), "a clean tree can be serialized");
        let od = od.ok().unwrap();
        let b = od.write_to_vec().unwrap();
        let od = <TreeOnDisk<DRP> as Readable<speedy::LittleEndian>>::read_from_buffer(&b).unwrap();
        self.t = Arc::new(T::open(Arc::new(Dml(self.m.clone())), self.seq, od));
    }
    fn clean(&mut self, lo: u64, hi: u64) {
        let r = PBA::new(0, lo)..PBA::new(0, hi);
        s::check(go(self.t.clone().clean_zone(r, TxgT::from(0)..TxgT::from(self.txg + 1), TxgT::from(self.txg))) == Ok(()), "clean_zone");
        s::check(!self.m.recs.lock().unwrap().keys().any(|k| (lo..hi).contains(k)), "a cleaned zone holds nothing");
    }
    fn verify(&mut self) {
        s::check(go(self.t.clone().check()) == Ok(true), "the tree is well formed");
        self.scan((Bound::Unbounded, Bound::Unbounded));
        s::check(go(self.t.last_key()) == Ok(self.model.keys().next_back().copied()), "the last key");
    }
    /// the tree owns exactly the records that exist
    fn records(&mut self) {
        let t = self.t.clone();
        let mut a: Vec<u64> = go(async move { t.addresses(..).map(|a| a.pba().lba).collect::<Vec<_>>().await });
        a.sort();
        let r: Vec<u64> = self.m.recs.lock().unwrap().keys().copied().collect();
        s::check(a == r, "the tree's records are exactly those stored");
    }
    fn base(&mut self, n: u64, order: u64, flush: u64) {
        for i in 0..n {
            let k = match order { 0 => i, 1 => n - 1 - i, p => i * p % n };
            self.insert(10 + 10 * k as u32, 1000 + k as u32);
            if flush > 1 && i % flush == flush - 1 { self.flush() }
        }
        if flush > 0 { self.flush() }
    }
}
/// params: fanout limits, sequential, keys, order of insertion (0 up, 1 down, else multiplier), flush every (0 never), operations allowed, number of operations
fn history() {
    let mut w = W::new(s::param(0), s::param(1) == 1);
    w.base(s::param(2), s::param(3), s::param(4));
    let mask = s::param(5);
    let ops: Vec<u64> = (0..10).filter(|i| mask >> i & 1 == 1).collect();
    let n = s::param(6);
    for i in 0..n {
        match ops[s::choice(ops.len() as u64) as usize] {
            0 => { let k = s::u32(); w.insert(k, 7 + i as u32) }
            1 => { let k = s::u32(); w.remove(k) }
            2 => {
                let (lo, hi, k) = (s::u32(), s::u32(), s::choice(9));
                s::assume(lo <= hi);
                w.range_delete(bounds(lo, hi, k))
            }
            3 => w.flush(),
            4 => {
                let (lo, hi, k) = (s::u32(), s::u32(), s::choice(9));
                s::assume(lo < hi);
                w.scan(bounds(lo, hi, k))
            }
            5 => {
                let k = s::u32();
                s::check(go(w.t.get(k)) == Ok(w.model.get(&k).copied()), "get yields what was inserted last");
            }
            6 => w.reopen(),
            7 => {
                let hi = *w.m.next.lock().unwrap() + 1;
                let (lo, hi) = match s::choice(3) { 0 => (0, hi / 2), 1 => (hi / 2, hi), _ => (0, hi) };
                w.clean(lo, hi)
            }
            8 => {
                let k = s::u32();
                s::assume(w.model.contains_key(&k));
                w.remove(k)
            }
            _ => {
                // a read fails once; the operation says so, and works when tried again
                let n = s::choice(4);
                *w.m.fails.lock().unwrap() = Some(n);
                let k = 10 + 10 * s::choice(s::param(2)) as u32;
                let (t, m, txg) = (w.t.clone(), w.m.clone(), w.txg);
                let r = match s::choice(4) {
                    0 => go(t.get(k)).map(drop),
                    1 => go(insert(t, m, k, 77, txg)).map(|_| { w.model.insert(k, 77); }),
                    2 => go(remove(t, m, k, txg)).map(|_| { w.model.remove(&k); }),
                    _ => go(scan(t, bounds(k, k + 1000, 0))).map(drop),
                };
                let failed = w.m.fails.lock().unwrap().is_none();
                s::check(r == if failed { Err(Error::EIO) } else { Ok(()) }, "a read error is reported");
                *w.m.fails.lock().unwrap() = None;
            }
        }
        w.verify();
    }
    w.reopen();
    w.verify();
    w.records();
    s::reach(1);
}
/// two operations at once on a tree on disk
/// params: fanout limits, keys, order, dirty keys (0 none), operations of 1st, operations of 2nd,
/// distance of their keys in 5, completions: any of the oldest 2 (0), or oldest or newest first throughout, second operation starting anywhere (1)
fn race() {
    let mut w = W::new(s::param(0), false);
    let n = s::param(1);
    w.base(n, s::param(2), 1 + n);
    for k in 0..s::param(3) { w.insert(12 + 20 * k as u32, 3); }
    *w.m.slow.lock().unwrap() = true;
    let out: Arc<Mutex<Vec<(u64, Option<u32>)>>> = Default::default();
    let mode = s::param(8);
    let mut pol = 0;
    let mut effects: Vec<(u64, u32, u32)> = vec![];
    for j in 0..2u64 {
        let mask = s::param(4 + j);
        let ops: Vec<u64> = (0..8).filter(|i| mask >> i & 1 == 1).collect();
        let op = ops[s::choice(ops.len() as u64) as usize];
        let k = match op { 3 | 7 => 10, _ => 10 + 5 * (s::param(6 + j) * s::choice(2 * n / s::param(6 + j))) as u32 };
        let len = match op { 2 => [10, 30, 80][s::choice(3) as usize], _ => 0 };
        effects.push((op, k, len));
        let (t, m, txg, o) = (w.t.clone(), w.m.clone(), w.txg, out.clone());
        let model = w.model.clone();
        let hi = *w.m.next.lock().unwrap() + 1;
        tokio::spawn(async move {
            let r = match op {
                0 => insert(t, m, k, 500 + j as u32, txg).await,
                1 => remove(t, m, k, txg).await,
                2 => range_delete(t, m, bounds(k, k + len, 0), txg).await.map(|_| None),
                3 => t.flush(TxgT::from(txg)).await.map(|_| None),
                4 => {
                    let r = scan(t, (Bound::Included(k), Bound::Unbounded)).await;
                    s::check(r.is_ok(), "range query");
                    let r = r.unwrap();
                    s::check(r.windows(2).all(|w| w[0].0 < w[1].0), "a range query yields keys in order, once");
                    m.gates.lock().unwrap();
                    o.lock().unwrap().extend(r.iter().map(|(k, v)| (100 + *k as u64, Some(*v))));
                    let _ = model;
                    Ok(None)
                }
                5 => t.get(k).await,
                _ => t.clean_zone(PBA::new(0, 0)..PBA::new(0, hi), TxgT::from(0)..TxgT::from(txg + 1), TxgT::from(txg)).await.map(|_| None),
            };
            s::check(r.is_ok(), "operations succeed");
            o.lock().unwrap().push((j, r.unwrap()));
        });
        if j == 0 {
            for _ in 0..s::choice(if mode == 0 { 4 } else { 16 }) { step(&w.m, if mode == 0 { 2 } else { 0 }); }
            if mode == 1 { pol = s::choice(2); }
        }
    }
    while step(&w.m, if mode == 0 { 2 } else { pol }) {}
    *w.m.slow.lock().unwrap() = false;
    let out = out.lock().unwrap();
    let res = |j: u64| out.iter().find(|x| x.0 == j).map(|x| x.1);
    s::check(res(0).is_some() && res(1).is_some(), "everything completes");
    let fin: M = go(scan(w.t.clone(), (Bound::Unbounded, Bound::Unbounded))).ok().unwrap().into_iter().collect();
    let mut okay = false;
    for order in [[0, 1], [1, 0]] {
        let mut m = w.model.clone();
        let mut same = true;
        for j in order {
            let (op, k, len) = effects[j];
            let r = match op {
                0 => m.insert(k, 500 + j as u32),
                1 => m.remove(&k),
                2 => { m.retain(|x, _| !(k..k + len).contains(x)); None }
                5 => m.get(&k).copied(),
                _ => None,
            };
            same &= res(j as u64) == Some(r);
        }
        okay |= same && m == fin;
    }
    s::check(okay, "concurrent operations behave as if one came first");
    // a scan sees everything that was there all the time, and nothing that never was
    if let Some(e) = effects.iter().find(|e| e.0 == 4) {
        for (k, v) in &w.model {
            if *k >= e.1 && fin.get(k) == Some(v) { s::check(out.contains(&(100 + *k as u64, Some(*v))), "a range query yields what is there all the time"); }
        }
        for (k, v) in out.iter().filter(|x| x.0 >= 100) {
            let k = (*k - 100) as u32;
            s::check(w.model.get(&k) == v.as_ref() || fin.get(&k) == v.as_ref(), "a range query yields only what is there");
        }
    }
    w.model = fin;
    w.verify();
    w.reopen();
    w.verify();
    w.records();
    s::reach(1);
}
/// lets one pending operation of the store complete
fn step(m: &Arc<Mem>, pol: u64) -> bool {
    vexec::drain();
    let p: Vec<usize> = m.gates.lock().unwrap().iter().enumerate().filter(|(_, g)| !g.0).map(|(i, _)| i).collect();
    if p.is_empty() { return false }
    let i = match pol { 0 => p[0], 1 => p[p.len() - 1], _ => p[s::choice(p.len().min(2) as u64) as usize] };
    let w = {
        let mut g = m.gates.lock().unwrap();
        g[i].0 = true;
        g[i].1.take()
    };
    if let Some(w) = w { w.wake() }
    vexec::drain();
    true
}
symrt::entries! {
    h_tree_history => history();
    h_tree_race => race();
    h_tree_scan_race => race();
}
