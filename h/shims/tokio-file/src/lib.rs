//! Stand-in for tokio-file: asynchronous file I/O on a virtual disk chosen by the harness (`set_backend`), keyed by
//! file descriptor.  A backend decides when each operation completes and with what result.
use std::future::Future;
use std::io::{self, IoSlice, IoSliceMut};
use std::marker::PhantomData;
use std::os::fd::{AsRawFd, BorrowedFd};
use std::pin::Pin;
use std::task::{Context, Poll};

pub enum Op { Read, Write, Sync }
/// One I/O: `bufs` are (address, length) pairs.
pub struct Io { pub fd: i32, pub op: Op, pub off: u64, pub bufs: Vec<(*mut u8, usize)>, pub id: u64 }
impl Io { pub fn len(&self) -> usize { self.bufs.iter().map(|b| b.1).sum() } }
/// Called each time the operation is polled.  Some(Err(errno)) fails it.
pub type Backend = fn(&Io, &mut Context<'_>) -> Poll<Result<usize, i32>>;
struct Cell_(std::cell::UnsafeCell<(Option<Backend>, u64)>);
unsafe impl Sync for Cell_ {}
static G: Cell_ = Cell_(std::cell::UnsafeCell::new((None, 0)));
pub fn set_backend(b: Backend) { unsafe { (*G.0.get()).0 = Some(b) } }
fn mk(fd: i32, op: Op, off: u64, bufs: Vec<(*mut u8, usize)>) -> Io {
    let g = unsafe { &mut *G.0.get() };
    g.1 += 1;
    Io { fd, op, off, bufs, id: g.1 }
}
fn poll(io: &Io, cx: &mut Context<'_>) -> Poll<Result<usize, i32>> {
    let b = unsafe { (*G.0.get()).0 }.expect("no backend");
    b(io, cx)
}
#[derive(Debug)]
pub struct AioResult { pub value: Option<isize> }
macro_rules! fut {
    ($($n:ident, $o:ty, $conv:expr;)*) => { $(
        pub struct $n<'a> { io: Io, _p: PhantomData<&'a ()> }
        unsafe impl Send for $n<'_> {}
        unsafe impl Sync for $n<'_> {}
        impl Future for $n<'_> {
            type Output = Result<$o, nix::errno::Errno>;
            fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                match poll(&self.io, cx) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(Ok(v)) => Poll::Ready(Ok($conv(v))),
                    Poll::Ready(Err(e)) => Poll::Ready(Err(nix::errno::Errno::from_raw(e))),
                }
            }
        }
    )* };
}
fn id(x: usize) -> usize { x }
fn nil(_: usize) {}
fut! { ReadAt, usize, id; WriteAt, usize, id; ReadvAt, usize, id; WritevAt, usize, id; SyncAll, (), nil; }
pub trait AioFileExt: AsRawFd {
    fn read_at<'a>(&self, buf: &'a mut [u8], off: u64) -> io::Result<ReadAt<'a>> {
        Ok(ReadAt { io: mk(self.as_raw_fd(), Op::Read, off, vec![(buf.as_mut_ptr(), buf.len())]), _p: PhantomData })
    }
    fn write_at<'a>(&self, buf: &'a [u8], off: u64) -> io::Result<WriteAt<'a>> {
        Ok(WriteAt { io: mk(self.as_raw_fd(), Op::Write, off, vec![(buf.as_ptr() as *mut u8, buf.len())]), _p: PhantomData })
    }
    fn readv_at<'a>(&self, bufs: &mut [IoSliceMut<'a>], off: u64) -> io::Result<ReadvAt<'a>> {
        let v = bufs.iter_mut().map(|b| (b.as_mut_ptr(), b.len())).collect();
        Ok(ReadvAt { io: mk(self.as_raw_fd(), Op::Read, off, v), _p: PhantomData })
    }
    fn writev_at<'a>(&self, bufs: &[IoSlice<'a>], off: u64) -> io::Result<WritevAt<'a>> {
        let v = bufs.iter().map(|b| (b.as_ptr() as *mut u8, b.len())).collect();
        Ok(WritevAt { io: mk(self.as_raw_fd(), Op::Write, off, v), _p: PhantomData })
    }
    fn sync_all(&self) -> io::Result<SyncAll<'static>> {
        Ok(SyncAll { io: mk(self.as_raw_fd(), Op::Sync, 0, vec![]), _p: PhantomData })
    }
}
impl AioFileExt for std::fs::File {}
impl AioFileExt for BorrowedFd<'_> {}
