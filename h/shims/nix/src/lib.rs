//! Stand-in for the parts of nix that bfffs-core uses, with FreeBSD's errno values.  ioctls are answered by the harness.
pub use errno::Errno;
pub type Error = Errno;
pub type Result<T> = std::result::Result<T, Errno>;
pub mod libc { pub use real_libc::*; }
pub mod errno {
    #[allow(clippy::upper_case_acronyms)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[repr(i32)]
    pub enum Errno { UnknownErrno = 0, EPERM = 1, ENOENT = 2, ESRCH = 3, EINTR = 4, EIO = 5, ENXIO = 6, E2BIG = 7, ENOEXEC = 8, EBADF = 9, ECHILD = 10, EDEADLK = 11, ENOMEM = 12, EACCES = 13, EFAULT = 14, ENOTBLK = 15, EBUSY = 16, EEXIST = 17, EXDEV = 18, ENODEV = 19, ENOTDIR = 20, EISDIR = 21, EINVAL = 22, ENFILE = 23, EMFILE = 24, ENOTTY = 25, ETXTBSY = 26, EFBIG = 27, ENOSPC = 28, ESPIPE = 29, EROFS = 30, EMLINK = 31, EPIPE = 32, EDOM = 33, ERANGE = 34, EAGAIN = 35, EINPROGRESS = 36, EALREADY = 37, ENOTSOCK = 38, EDESTADDRREQ = 39, EMSGSIZE = 40, EPROTOTYPE = 41, ENOPROTOOPT = 42, EPROTONOSUPPORT = 43, ESOCKTNOSUPPORT = 44, EOPNOTSUPP = 45, EPFNOSUPPORT = 46, EAFNOSUPPORT = 47, EADDRINUSE = 48, EADDRNOTAVAIL = 49, ENETDOWN = 50, ENETUNREACH = 51, ENETRESET = 52, ECONNABORTED = 53, ECONNRESET = 54, ENOBUFS = 55, EISCONN = 56, ENOTCONN = 57, ESHUTDOWN = 58, ETOOMANYREFS = 59, ETIMEDOUT = 60, ECONNREFUSED = 61, ELOOP = 62, ENAMETOOLONG = 63, EHOSTDOWN = 64, EHOSTUNREACH = 65, ENOTEMPTY = 66, EPROCLIM = 67, EUSERS = 68, EDQUOT = 69, ESTALE = 70, EREMOTE = 71, EBADRPC = 72, ERPCMISMATCH = 73, EPROGUNAVAIL = 74, EPROGMISMATCH = 75, EPROCUNAVAIL = 76, ENOLCK = 77, ENOSYS = 78, EFTYPE = 79, EAUTH = 80, ENEEDAUTH = 81, EIDRM = 82, ENOMSG = 83, EOVERFLOW = 84, ECANCELED = 85, EILSEQ = 86, ENOATTR = 87, EDOOFUS = 88, EBADMSG = 89, EMULTIHOP = 90, ENOLINK = 91, EPROTO = 92, ENOTCAPABLE = 93, ECAPMODE = 94, ENOTRECOVERABLE = 95, EOWNERDEAD = 96, EINTEGRITY = 97 }
    impl Errno {
        pub fn from_raw(e: i32) -> Self { match e { 1 => Errno::EPERM, 2 => Errno::ENOENT, 3 => Errno::ESRCH, 4 => Errno::EINTR, 5 => Errno::EIO, 6 => Errno::ENXIO, 7 => Errno::E2BIG, 8 => Errno::ENOEXEC, 9 => Errno::EBADF, 10 => Errno::ECHILD, 11 => Errno::EDEADLK, 12 => Errno::ENOMEM, 13 => Errno::EACCES, 14 => Errno::EFAULT, 15 => Errno::ENOTBLK, 16 => Errno::EBUSY, 17 => Errno::EEXIST, 18 => Errno::EXDEV, 19 => Errno::ENODEV, 20 => Errno::ENOTDIR, 21 => Errno::EISDIR, 22 => Errno::EINVAL, 23 => Errno::ENFILE, 24 => Errno::EMFILE, 25 => Errno::ENOTTY, 26 => Errno::ETXTBSY, 27 => Errno::EFBIG, 28 => Errno::ENOSPC, 29 => Errno::ESPIPE, 30 => Errno::EROFS, 31 => Errno::EMLINK, 32 => Errno::EPIPE, 33 => Errno::EDOM, 34 => Errno::ERANGE, 35 => Errno::EAGAIN, 36 => Errno::EINPROGRESS, 37 => Errno::EALREADY, 38 => Errno::ENOTSOCK, 39 => Errno::EDESTADDRREQ, 40 => Errno::EMSGSIZE, 41 => Errno::EPROTOTYPE, 42 => Errno::ENOPROTOOPT, 43 => Errno::EPROTONOSUPPORT, 44 => Errno::ESOCKTNOSUPPORT, 45 => Errno::EOPNOTSUPP, 46 => Errno::EPFNOSUPPORT, 47 => Errno::EAFNOSUPPORT, 48 => Errno::EADDRINUSE, 49 => Errno::EADDRNOTAVAIL, 50 => Errno::ENETDOWN, 51 => Errno::ENETUNREACH, 52 => Errno::ENETRESET, 53 => Errno::ECONNABORTED, 54 => Errno::ECONNRESET, 55 => Errno::ENOBUFS, 56 => Errno::EISCONN, 57 => Errno::ENOTCONN, 58 => Errno::ESHUTDOWN, 59 => Errno::ETOOMANYREFS, 60 => Errno::ETIMEDOUT, 61 => Errno::ECONNREFUSED, 62 => Errno::ELOOP, 63 => Errno::ENAMETOOLONG, 64 => Errno::EHOSTDOWN, 65 => Errno::EHOSTUNREACH, 66 => Errno::ENOTEMPTY, 67 => Errno::EPROCLIM, 68 => Errno::EUSERS, 69 => Errno::EDQUOT, 70 => Errno::ESTALE, 71 => Errno::EREMOTE, 72 => Errno::EBADRPC, 73 => Errno::ERPCMISMATCH, 74 => Errno::EPROGUNAVAIL, 75 => Errno::EPROGMISMATCH, 76 => Errno::EPROCUNAVAIL, 77 => Errno::ENOLCK, 78 => Errno::ENOSYS, 79 => Errno::EFTYPE, 80 => Errno::EAUTH, 81 => Errno::ENEEDAUTH, 82 => Errno::EIDRM, 83 => Errno::ENOMSG, 84 => Errno::EOVERFLOW, 85 => Errno::ECANCELED, 86 => Errno::EILSEQ, 87 => Errno::ENOATTR, 88 => Errno::EDOOFUS, 89 => Errno::EBADMSG, 90 => Errno::EMULTIHOP, 91 => Errno::ENOLINK, 92 => Errno::EPROTO, 93 => Errno::ENOTCAPABLE, 94 => Errno::ECAPMODE, 95 => Errno::ENOTRECOVERABLE, 96 => Errno::EOWNERDEAD, 97 => Errno::EINTEGRITY, _ => Errno::UnknownErrno } }
        pub fn last_raw() -> i32 { 5 }
    }
    impl std::fmt::Display for Errno { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "errno {}", *self as i32) } }
    impl std::error::Error for Errno {}
    impl From<Errno> for std::io::Error { fn from(e: Errno) -> Self { std::io::Error::from_raw_os_error(e as i32) } }
}
pub mod unistd {
    #[allow(non_camel_case_types)]
    pub enum SysconfVar { IOV_MAX }
    static IOV: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(1024);
    pub fn set_iov_max(x: i64) { IOV.store(x, std::sync::atomic::Ordering::Relaxed) }
    pub fn sysconf(_: SysconfVar) -> super::Result<Option<i64>> { Ok(Some(IOV.load(std::sync::atomic::Ordering::Relaxed))) }
}
pub mod mount {
    pub struct MntFlags(u32);
    impl MntFlags { pub const MNT_FORCE: MntFlags = MntFlags(1); pub fn empty() -> Self { MntFlags(0) } pub fn insert(&mut self, o: MntFlags) { self.0 |= o.0 } }
    pub fn unmount(_: &str, _: MntFlags) -> super::Result<()> { Ok(()) }
}
pub mod vioctl {
    //! (name, fd, argument) -> value.  None: ENOTTY.
    pub type H = fn(&'static str, i32, *mut u8) -> super::Result<i32>;
    pub struct Cell_(pub std::cell::UnsafeCell<Option<H>>);
    unsafe impl Sync for Cell_ {}
    pub static G: Cell_ = Cell_(std::cell::UnsafeCell::new(None));
    pub fn set(h: H) { unsafe { *G.0.get() = Some(h) } }
    pub fn call(n: &'static str, fd: i32, p: *mut u8) -> super::Result<i32> {
        match unsafe { *G.0.get() } { Some(h) => h(n, fd, p), None => Err(super::Errno::ENOTTY) }
    }
}
#[macro_export]
macro_rules! ioctl_readwrite { ($(#[$m:meta])* $n:ident, $a:expr, $b:expr, $t:ty) => {
    $(#[$m])* pub unsafe fn $n(fd: i32, p: *mut $t) -> $crate::Result<i32> { $crate::vioctl::call(stringify!($n), fd, p as *mut u8) } } }
#[macro_export]
macro_rules! ioctl_read { ($(#[$m:meta])* $n:ident, $a:expr, $b:expr, $t:ty) => {
    $(#[$m])* pub unsafe fn $n(fd: i32, p: *mut $t) -> $crate::Result<i32> { $crate::vioctl::call(stringify!($n), fd, p as *mut u8) } } }
#[macro_export]
macro_rules! ioctl_write_ptr { ($(#[$m:meta])* $n:ident, $a:expr, $b:expr, $t:ty) => {
    $(#[$m])* pub unsafe fn $n(fd: i32, p: *const $t) -> $crate::Result<i32> { $crate::vioctl::call(stringify!($n), fd, p as *mut u8) } } }
pub mod sys {
    pub mod time {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct TimeSpec(pub i64, pub i64);
        impl TimeSpec { pub fn tv_sec(&self) -> i64 { self.0 } pub fn tv_nsec(&self) -> i64 { self.1 } pub const fn new(s: i64, n: i64) -> Self { TimeSpec(s, n) } }
    }
}
pub mod time {
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy)]
    pub enum ClockId { CLOCK_REALTIME, CLOCK_MONOTONIC }
    static T: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(1_000_000);
    /// virtual clock: one more nanosecond at each reading
    pub fn clock_gettime(_: ClockId) -> super::Result<super::sys::time::TimeSpec> {
        let t = T.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Ok(super::sys::time::TimeSpec::new(1_700_000_000 + t / 1_000_000_000, t % 1_000_000_000))
    }
}
