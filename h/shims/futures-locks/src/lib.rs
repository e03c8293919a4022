//! Stand-in for futures-locks: async RwLock as in the real crate: the lock is requested when the future is created,
//! readers don't wait for waiting writers, and a writer's release prefers waiting writers.
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::future::Future;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::sync::{Arc, Mutex as StdMutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TryLockError;
impl std::fmt::Display for TryLockError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("would block") }
}
impl std::error::Error for TryLockError {}

struct Waiter { id: u64, write: bool, granted: bool, waker: Option<Waker> }
struct State { readers: usize, writer: bool, next: u64, q: VecDeque<Waiter> }
struct Inner<T: ?Sized> { st: StdMutex<State>, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Inner<T> {}
unsafe impl<T: ?Sized + Send> Sync for Inner<T> {}
impl State {
    /// hand the lock to waiters
    fn grant(&mut self) -> Vec<Waker> {
        let mut w = vec![];
        if self.writer {
            return w;
        }
        if self.readers == 0 {
            if let Some(x) = self.q.iter_mut().find(|x| !x.granted && x.write) {
                self.writer = true;
                x.granted = true;
                w.extend(x.waker.take());
                return w;
            }
        }
        for x in self.q.iter_mut().filter(|x| !x.granted && !x.write) {
            self.readers += 1;
            x.granted = true;
            w.extend(x.waker.take());
        }
        w
    }
}
impl<T: ?Sized> Inner<T> {
    fn release(&self, write: bool) {
        let w = {
            let mut s = self.st.lock().unwrap();
            if write { s.writer = false } else { s.readers -= 1 }
            s.grant()
        };
        for x in w { x.wake() }
    }
    /// None: queued under the returned id
    fn acquire(&self, write: bool) -> Result<(), u64> {
        let mut s = self.st.lock().unwrap();
        let free = if write { s.readers == 0 && !s.writer } else { !s.writer };
        if free {
            if write { s.writer = true } else { s.readers += 1 }
            return Ok(());
        }
        let id = s.next;
        s.next += 1;
        s.q.push_back(Waiter { id, write, granted: false, waker: None });
        Err(id)
    }
    fn poll(&self, id: u64, cx: &mut Context<'_>) -> bool {
        let mut s = self.st.lock().unwrap();
        let i = s.q.iter().position(|x| x.id == id).unwrap();
        if s.q[i].granted {
            s.q.remove(i);
            return true;
        }
        s.q[i].waker = Some(cx.waker().clone());
        false
    }
    fn cancel(&self, id: u64) {
        let w = {
            let mut s = self.st.lock().unwrap();
            let i = match s.q.iter().position(|x| x.id == id) { Some(i) => i, None => return };
            let x = s.q.remove(i).unwrap();
            if x.granted {
                if x.write { s.writer = false } else { s.readers -= 1 }
            }
            s.grant()
        };
        for x in w { x.wake() }
    }
}
pub struct RwLock<T: ?Sized> { inner: Arc<Inner<T>> }
impl<T: ?Sized> Clone for RwLock<T> { fn clone(&self) -> Self { RwLock { inner: self.inner.clone() } } }
impl<T: ?Sized> std::fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("RwLock") } }
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T> RwLock<T> {
    pub fn new(t: T) -> Self {
        RwLock { inner: Arc::new(Inner { st: StdMutex::new(State { readers: 0, writer: false, next: 0, q: VecDeque::new() }), data: UnsafeCell::new(t) }) }
    }
    pub fn try_unwrap(self) -> Result<T, Self> { Arc::try_unwrap(self.inner).map(|i| i.data.into_inner()).map_err(|inner| RwLock { inner }) }
}
impl<T: ?Sized> RwLock<T> {
    pub fn get_mut(&mut self) -> Option<&mut T> { Arc::get_mut(&mut self.inner).map(|i| i.data.get_mut()) }
    pub fn read(&self) -> RwLockReadFut<T> { RwLockReadFut { inner: self.inner.clone(), id: self.inner.acquire(false).err(), done: false } }
    pub fn write(&self) -> RwLockWriteFut<T> { RwLockWriteFut { inner: self.inner.clone(), id: self.inner.acquire(true).err(), done: false } }
    pub fn with_write<B, F, R>(&self, f: F) -> impl Future<Output = R>
        where F: FnOnce(RwLockWriteGuard<T>) -> B, B: std::future::IntoFuture<Output = R> {
        let w = self.write();
        async move { f(w.await).await }
    }
    pub fn with_read<B, F, R>(&self, f: F) -> impl Future<Output = R>
        where F: FnOnce(RwLockReadGuard<T>) -> B, B: std::future::IntoFuture<Output = R> {
        let w = self.read();
        async move { f(w.await).await }
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<T>, TryLockError> {
        let mut s = self.inner.st.lock().unwrap();
        if s.writer { return Err(TryLockError); }
        s.readers += 1;
        drop(s);
        Ok(RwLockReadGuard { inner: self.inner.clone() })
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<T>, TryLockError> {
        let mut s = self.inner.st.lock().unwrap();
        if s.writer || s.readers > 0 { return Err(TryLockError); }
        s.writer = true;
        drop(s);
        Ok(RwLockWriteGuard { inner: self.inner.clone() })
    }
}
macro_rules! parts {
    ($fut:ident, $guard:ident, $w:expr) => {
        pub struct $guard<T: ?Sized> { inner: Arc<Inner<T>> }
        unsafe impl<T: ?Sized + Send> Send for $guard<T> {}
        unsafe impl<T: ?Sized + Send> Sync for $guard<T> {}
        impl<T: ?Sized> Drop for $guard<T> { fn drop(&mut self) { self.inner.release($w) } }
        impl<T: ?Sized> Deref for $guard<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.inner.data.get() } } }
        impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for $guard<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (**self).fmt(f) } }
        pub struct $fut<T: ?Sized> { inner: Arc<Inner<T>>, id: Option<u64>, done: bool }
        impl<T: ?Sized> Drop for $fut<T> { fn drop(&mut self) { if !self.done { match self.id { Some(id) => self.inner.cancel(id), None => self.inner.release($w) } } } }
        impl<T: ?Sized> Future for $fut<T> {
            type Output = $guard<T>;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                assert!(!self.done, "polled after completion");
                if self.id.is_none_or(|id| self.inner.poll(id, cx)) {
                    self.done = true;
                    Poll::Ready($guard { inner: self.inner.clone() })
                } else { Poll::Pending }
            }
        }
    };
}
parts!(RwLockReadFut, RwLockReadGuard, false);
parts!(RwLockWriteFut, RwLockWriteGuard, true);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.inner.data.get() } } }
