//! Single-threaded stand-in for the parts of tokio that bfffs uses.  Tasks are polled by `vexec::run`, in an order
//! chosen by `vexec::set_chooser` (default: FIFO), so that a harness can explore schedules.  Time is virtual.
pub use task::spawn;
pub mod vexec {
    use std::cell::UnsafeCell;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use std::sync::Arc;
    use std::task::{Context, Poll, Wake, Waker};
    pub(crate) struct Flag(pub AtomicBool);
    impl Wake for Flag {
        fn wake(self: Arc<Self>) { self.0.store(true, SeqCst) }
        fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, SeqCst) }
    }
    pub(crate) struct Task { pub f: Option<Pin<Box<dyn Future<Output = ()>>>>, pub flag: Arc<Flag> }
    pub(crate) struct Timer { pub at: u64, pub id: u64, pub w: Waker }
    pub(crate) struct Ex { pub tasks: Vec<Task>, pub timers: Vec<Timer>, pub now: u64, pub next: u64, pub chooser: fn(usize) -> usize }
    pub(crate) struct G(UnsafeCell<Ex>);
    unsafe impl Sync for G {}
    fn first(_: usize) -> usize { 0 }
    static EX: G = G(UnsafeCell::new(Ex { tasks: vec![], timers: vec![], now: 0, next: 0, chooser: first }));
    #[allow(clippy::mut_from_ref)]
    pub(crate) fn ex() -> &'static mut Ex { unsafe { &mut *EX.0.get() } }
    /// How to pick one of n runnable tasks.  Task 0 is the main future when it is runnable.
    pub fn set_chooser(f: fn(usize) -> usize) { ex().chooser = f }
    pub fn now() -> u64 { ex().now }
    fn ready() -> Vec<usize> { ex().tasks.iter().enumerate().filter(|(_, t)| t.f.is_some() && t.flag.0.load(SeqCst)).map(|(i, _)| i).collect() }
    fn poll_task(i: usize) {
        let flag = ex().tasks[i].flag.clone();
        flag.0.store(false, SeqCst);
        let mut f = ex().tasks[i].f.take().unwrap();
        let w = Waker::from(flag);
        let r = f.as_mut().poll(&mut Context::from_waker(&w));
        if r.is_pending() { ex().tasks[i].f = Some(f) }
    }
    /// fire the earliest timer; false if there is none
    pub fn advance() -> bool {
        let e = ex();
        if e.timers.is_empty() { return false; }
        let mut k = 0;
        for i in 1..e.timers.len() { if e.timers[i].at < e.timers[k].at { k = i } }
        let t = e.timers.remove(k);
        if t.at > e.now { e.now = t.at }
        t.w.wake();
        true
    }
    /// Runs `fut` and the spawned tasks until it completes.  None: everything is blocked.
    pub fn run<F: Future>(fut: F) -> Option<F::Output> {
        let mut fut = Box::pin(fut);
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        let w = Waker::from(flag.clone());
        loop {
            let r = ready();
            let m = flag.0.load(SeqCst) as usize;
            let n = r.len() + m;
            if n == 0 {
                if advance() { continue; }
                return None;
            }
            let c = if n == 1 { 0 } else { (ex().chooser)(n) };
            if c < m {
                flag.0.store(false, SeqCst);
                if let Poll::Ready(x) = fut.as_mut().poll(&mut Context::from_waker(&w)) { return Some(x); }
            } else {
                poll_task(r[c - m]);
            }
        }
    }
    /// Runs the spawned tasks until all are blocked (timers are not fired).
    pub fn drain() {
        loop {
            let r = ready();
            if r.is_empty() { return; }
            let c = if r.len() == 1 { 0 } else { (ex().chooser)(r.len()) };
            poll_task(r[c]);
        }
    }
    /// Polls `fut` once.
    pub fn poll_once<F: Future + ?Sized>(fut: Pin<&mut F>) -> Poll<F::Output> {
        let w = Waker::from(Arc::new(Flag(AtomicBool::new(true))));
        fut.poll(&mut Context::from_waker(&w))
    }
    /// Forgets every task and timer: a crash.
    pub fn crash() { let e = ex(); e.tasks.clear(); e.timers.clear(); }
}
pub mod task {
    use super::vexec::*;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::atomic::AtomicBool;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};
    pub struct JoinError;
    impl std::fmt::Debug for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinError") } }
    struct Slot<T> { v: Option<T>, w: Option<Waker> }
    pub struct JoinHandle<T> { s: Arc<Mutex<Slot<T>>> }
    impl<T> JoinHandle<T> { pub fn abort(&self) {} pub fn is_finished(&self) -> bool { self.s.lock().unwrap().v.is_some() } }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut g = self.s.lock().unwrap();
            match g.v.take() {
                Some(v) => Poll::Ready(Ok(v)),
                None => { g.w = Some(cx.waker().clone()); Poll::Pending }
            }
        }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + 'static, F::Output: 'static {
        let s = Arc::new(Mutex::new(Slot { v: None, w: None }));
        let s2 = s.clone();
        let t = async move {
            let v = f.await;
            let w = { let mut g = s2.lock().unwrap(); g.v = Some(v); g.w.take() };
            if let Some(w) = w { w.wake() }
        };
        ex().tasks.push(Task { f: Some(Box::pin(t)), flag: Arc::new(Flag(AtomicBool::new(true))) });
        JoinHandle { s }
    }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R> where F: FnOnce() -> R + 'static, R: 'static {
        spawn(async move { f() })
    }
}
pub mod time {
    pub use std::time::Duration;
    use super::vexec::*;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(u64);
    impl Instant { pub fn now() -> Self { Instant(ex().now) } }
    impl std::ops::Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d.as_nanos() as u64) } }
    impl std::ops::Sub<Instant> for Instant { type Output = Duration; fn sub(self, d: Instant) -> Duration { Duration::from_nanos(self.0.saturating_sub(d.0)) } }
    pub struct Sleep { at: u64, id: Option<u64> }
    pub fn sleep(d: Duration) -> Sleep { Sleep { at: ex().now + d.as_nanos() as u64, id: None } }
    pub fn sleep_until(i: Instant) -> Sleep { Sleep { at: i.0, id: None } }
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let e = ex();
            if let Some(id) = self.id { e.timers.retain(|t| t.id != id) }
            if e.now >= self.at { return Poll::Ready(()); }
            let id = e.next;
            e.next += 1;
            self.id = Some(id);
            e.timers.push(Timer { at: self.at, id, w: cx.waker().clone() });
            Poll::Pending
        }
    }
    impl Drop for Sleep { fn drop(&mut self) { if let Some(id) = self.id { ex().timers.retain(|t| t.id != id) } } }
}
