//! Simulated disks below the real VdevFile, shared by all checks of the storage stack, and the checks of VdevFile itself.
use super::*;
use divbuf::DivBufShared;
use std::task::Waker;
use symrt as s;
use tokio::vexec;
use tokio_file::{Io, Op};

pub const FD0: i32 = 100;
/// One I/O as the disk saw it
#[derive(Clone, Debug)]
pub struct Seen { pub disk: usize, pub op: u8, pub lba: u64, pub lbas: u64, pub err: i32, pub done: bool, pub synced: bool }
pub struct Pend { pub id: u64, pub idx: usize, bufs: Vec<(*mut u8, usize)>, off: u64, w: Option<Waker>, pub result: Option<std::result::Result<usize, i32>> }
pub struct Sim {
    /// content of each disk
    pub data: Vec<Vec<u8>>,
    pub log: Vec<Seen>,
    pub pend: Vec<Pend>,
    /// decides the fate of an I/O when it is submitted: 0, or the error it ends with (EAGAIN: it isn't accepted)
    pub fate: fn(&Seen) -> i32,
    /// complete every I/O at submission
    pub sync: bool,
    pub max_inflight: Vec<usize>,
    pub erased: Vec<(usize, u64, u64)>,
    pub ioctl_candelete: bool,
    /// keep what a write overwrites until it is synced: disk, offset, content
    pub track: bool,
    pub undo: Vec<(usize, usize, Vec<u8>)>,
    /// power fails before an I/O when this says so
    pub fails: fn(&Seen) -> bool,
    pub dead: bool,
}
struct Cell_(std::cell::UnsafeCell<Option<Sim>>);
unsafe impl Sync for Cell_ {}
static SIM: Cell_ = Cell_(std::cell::UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn sim() -> &'static mut Sim { unsafe { (*SIM.0.get()).as_mut().unwrap() } }
fn ok(_: &Seen) -> i32 { 0 }
fn never(_: &Seen) -> bool { false }
pub const EAGAIN: i32 = 35;
pub const EIO: i32 = 5;
/// n disks of `lbas` blocks
pub fn init(n: usize, lbas: u64, fill: fn(usize, u64) -> u8) {
    let mut data = vec![];
    for d in 0..n {
        let mut v = vec![0u8; lbas as usize * BYTES_PER_LBA];
        for l in 0..lbas {
            mark(&mut v[l as usize * BYTES_PER_LBA..(l as usize + 1) * BYTES_PER_LBA], fill(d, l));
        }
        data.push(v);
    }
    unsafe {
        *SIM.0.get() = Some(Sim { data, log: vec![], pend: vec![], fate: ok, sync: true, max_inflight: vec![0; n], erased: vec![], ioctl_candelete: false, track: false, undo: vec![], fails: never, dead: false });
    }
    tokio_file::set_backend(backend);
    nix::vioctl::set(ioctl);
}
/// an easily recognised block
pub fn mark(b: &mut [u8], x: u8) {
    let n = b.len();
    b[0] = x;
    b[1] = !x;
    b[n / 2] = x ^ 0x5a;
    b[n - 1] = x;
}
pub fn marked(b: &[u8], x: u8) -> bool {
    let n = b.len();
    b[0] == x && b[1] == !x && b[n / 2] == x ^ 0x5a && b[n - 1] == x
}
pub fn disk_block(d: usize, lba: u64) -> &'static [u8] {
    &sim().data[d][lba as usize * BYTES_PER_LBA..(lba as usize + 1) * BYTES_PER_LBA]
}
fn ioctl(name: &'static str, fd: i32, p: *mut u8) -> nix::Result<i32> {
    let m = sim();
    if name == "diocgdelete" {
        let a = unsafe { *(p as *const [i64; 2]) };
        let d = (fd - FD0) as usize;
        s::check(a[0] % BYTES_PER_LBA as i64 == 0 && a[1] % BYTES_PER_LBA as i64 == 0 && a[1] > 0, "erased range is aligned");
        m.erased.push((d, a[0] as u64 / BYTES_PER_LBA as u64, a[1] as u64 / BYTES_PER_LBA as u64));
        let (o, n) = (a[0] as usize, a[1] as usize);
        s::check(o + n <= m.data[d].len(), "erased range is on the disk");
        if m.dead {
            return Ok(0);
        }
        if m.track {
            m.undo.push((d, o, m.data[d][o..o + n].to_vec()));
        }
        for i in o / BYTES_PER_LBA..(o + n) / BYTES_PER_LBA {
            mark(&mut m.data[d][i * BYTES_PER_LBA..(i + 1) * BYTES_PER_LBA], 0xee);
        }
        return Ok(0);
    }
    Err(nix::errno::Errno::ENOTTY)
}
fn xfer(disk: usize, op: u8, off: u64, bufs: &[(*mut u8, usize)]) {
    let data = &mut sim().data[disk];
    let mut o = off as usize;
    for &(p, n) in bufs {
        unsafe {
            if op == 0 {
                std::ptr::copy_nonoverlapping(data.as_ptr().add(o), p, n);
            } else if op == 1 {
                std::ptr::copy_nonoverlapping(p, data.as_mut_ptr().add(o), n);
            }
        }
        o += n;
    }
}
fn backend(io: &Io, cx: &mut Context<'_>) -> Poll<std::result::Result<usize, i32>> {
    let m = sim();
    if let Some(k) = m.pend.iter().position(|p| p.id == io.id) {
        return match m.pend[k].result {
            Some(r) => {
                m.pend.remove(k);
                Poll::Ready(r)
            }
            None => {
                m.pend[k].w = Some(cx.waker().clone());
                Poll::Pending
            }
        };
    }
    let disk = (io.fd - FD0) as usize;
    let op = match io.op { Op::Read => 0, Op::Write => 1, Op::Sync => 2 };
    let len = io.len() as u64;
    s::check(io.off % BYTES_PER_LBA as u64 == 0 && len % BYTES_PER_LBA as u64 == 0, "disk I/O is block aligned");
    s::check(op == 2 || io.off + len <= m.data[disk].len() as u64, "disk I/O is within the disk");
    s::check(op == 2 || len > 0, "disk I/O is not empty");
    let mut seen = Seen { disk, op, lba: io.off / BYTES_PER_LBA as u64, lbas: len / BYTES_PER_LBA as u64, err: 0, done: false, synced: false };
    if !m.dead && (m.fails)(&seen) {
        m.dead = true;
    }
    if m.dead {
        return Poll::Pending;
    }
    seen.err = (m.fate)(&seen);
    if seen.err == EAGAIN {
        return Poll::Ready(Err(EAGAIN));
    }
    let err = seen.err;
    if m.sync {
        seen.done = true;
        m.log.push(seen);
        if err != 0 {
            return Poll::Ready(Err(err));
        }
        if m.track && op == 1 {
            m.undo.push((disk, io.off as usize, m.data[disk][io.off as usize..(io.off + len) as usize].to_vec()));
        }
        if op == 2 {
            m.undo.retain(|u| u.0 != disk);
        }
        xfer(disk, op, io.off, &io.bufs);
        return Poll::Ready(Ok(len as usize));
    }
    let idx = m.log.len();
    m.log.push(seen);
    m.pend.push(Pend { id: io.id, idx, bufs: io.bufs.clone(), off: io.off, w: Some(cx.waker().clone()), result: None });
    let n = m.pend.iter().filter(|p| p.result.is_none() && m.log[p.idx].disk == disk).count();
    m.max_inflight[disk] = m.max_inflight[disk].max(n);
    Poll::Pending
}
/// Power is back: of the writes that had not been synced, those that `lost` names are gone
pub fn power_cycle(lost: impl Fn(usize, usize) -> bool) {
    let m = sim();
    let undo = std::mem::take(&mut m.undo);
    let n = undo.len();
    for (i, (d, o, old)) in undo.into_iter().enumerate().rev() {
        if lost(i, n) {
            m.data[d][o..o + old.len()].copy_from_slice(&old);
        }
    }
    m.dead = false;
    m.fails = never;
    m.pend.clear();
}
/// I/Os that are under way
pub fn inflight() -> Vec<usize> { (0..sim().pend.len()).filter(|i| sim().pend[*i].result.is_none()).collect() }
/// completes the k-th of them
pub fn complete(k: usize) {
    let m = sim();
    let i = inflight()[k];
    let idx = m.pend[i].idx;
    m.log[idx].done = true;
    let (disk, op, err) = (m.log[idx].disk, m.log[idx].op, m.log[idx].err);
    let n: usize = m.pend[i].bufs.iter().map(|b| b.1).sum();
    if err == 0 {
        let bufs = m.pend[i].bufs.clone();
        xfer(disk, op, m.pend[i].off, &bufs);
        m.pend[i].result = Some(Ok(n));
    } else {
        m.pend[i].result = Some(Err(err));
    }
    if let Some(w) = sim().pend[i].w.take() {
        w.wake();
    }
}
/// Runs a future on the simulated disks, completing I/Os in an order chosen by `pick`.  None: it never completes.
pub fn go<T: 'static>(f: impl Future<Output = T> + 'static, pick: fn(usize) -> usize) -> Option<T> {
    let slot = std::rc::Rc::new(std::cell::RefCell::new(None));
    let s2 = slot.clone();
    tokio::spawn(async move {
        let r = f.await;
        s2.replace(Some(r));
    });
    loop {
        vexec::drain();
        let r = slot.replace(None);
        if r.is_some() {
            return r;
        }
        let n = inflight().len();
        if n > 0 {
            complete(if n == 1 { 0 } else { pick(n) });
        } else if !vexec::advance() {
            return None;
        }
    }
}
/// lets everything that is still under way finish
pub fn settle(pick: fn(usize) -> usize) {
    loop {
        vexec::drain();
        let n = inflight().len();
        if n > 0 {
            complete(if n == 1 { 0 } else { pick(n) });
        } else if !vexec::advance() {
            return;
        }
    }
}
pub fn first(_: usize) -> usize { 0 }
pub fn any(n: usize) -> usize { s::choice(n as u64) as usize }

pub fn file(disk: usize, size: LbaT, lbas_per_zone: LbaT) -> VdevFile<'static> {
    let mut v = VdevFile {
        fd: unsafe { BorrowedFd::borrow_raw(FD0 + disk as i32) },
        spacemap_space: 1,
        lbas_per_zone: 1 << 16,
        size,
        erase_method: AtomicEraseMethod::new(EraseMethod::Diocgdelete),
    };
    v.set(size, lbas_per_zone);
    v
}

// ------------------------------------------------------------------ VdevFile
fn reserved(size: u64, lpz: u64) -> u64 {
    let zones = size.div_ceil(lpz);
    2 * (LABEL_LBAS + zones.div_ceil(crate::label::SPACEMAP_ZONES_PER_LBA as u64))
}
/// zone map for all sizes; param 0: log2 of the zone size, 99: any zone size
fn zones() {
    let lpz = if s::param(0) == 99 { s::range(64, 1 << 20) } else { 1 << s::param(0) };
    let size = s::range(lpz, s::param(1) * lpz);
    let v = file(0, size, lpz);
    s::assume(v.reserved_space() < lpz);
    let nz = v.zones();
    s::check(v.reserved_space() == reserved(size, lpz), "reserved space holds two labels and two space maps");
    let z = s::u32();
    s::assume(z < nz);
    let (a, b) = v.zone_limits(z);
    s::check(a < b, "zones are not empty");
    s::check(a >= v.reserved_space(), "zones don't overlap the labels and space maps");
    s::check(a < size, "zones begin on the disk");
    if z > 0 {
        s::check(v.zone_limits(z - 1).1 == a, "zones are adjacent");
    }
    let l = s::u64();
    s::assume(l >= a && l < b && l < size);
    s::check(v.lba2zone(l) == Some(z), "every block of a zone maps back to it");
    let l = s::u64();
    s::assume(l < v.reserved_space());
    s::check(v.lba2zone(l).is_none(), "reserved blocks are in no zone");
    s::reach(1);
}
fn zone_end() {
    let lpz = 1 << s::param(0);
    let size = s::range(lpz, s::param(1) * lpz);
    let v = file(0, size, lpz);
    let z = s::u32();
    s::assume(z < v.zones());
    s::check(v.zone_limits(z).1 <= size, "zones end on the disk");
    s::reach(1);
}
/// labels, space maps and data go to disjoint places
fn place() {
    init(1, 40, |_, l| l as u8);
    let v = file(0, 40, 16);
    let r = v.reserved_space();
    let lba = s::choice(40);
    let n = 1 + s::choice(2);
    s::assume(lba + n <= 40);
    let dbs = DivBufShared::from(vec![0u8; n as usize * BYTES_PER_LBA]);
    for i in 0..n as usize {
        mark(&mut dbs.try_mut().unwrap()[i * BYTES_PER_LBA..(i + 1) * BYTES_PER_LBA], 200 + i as u8);
    }
    let db = dbs.try_const().unwrap();
    let kind = s::choice(4);
    if kind < 2 && lba < r || kind == 2 && lba + n > r {
        s::expect_panic(2);
    }
    let v: &'static VdevFile<'static> = Box::leak(Box::new(v));
    let f: VdevFileFut<'static> = match kind {
        0 => v.write_at(db, lba),
        1 => {
            let mut a = db.clone();
            let b = a.split_off(BYTES_PER_LBA);
            v.writev_at(if b.is_empty() { vec![a] } else { vec![a, b] }, lba)
        }
        2 => v.write_spacemap(vec![db], lba),
        _ => {
            let m = DivBufShared::from(vec![9u8; n as usize * BYTES_PER_LBA]);
            let mm = m.try_mut().unwrap();
            let f: VdevFileFut<'static> = if s::choice(2) == 0 { v.read_at(mm, lba) } else {
                let mut a = mm;
                let b = a.split_off(BYTES_PER_LBA);
                v.readv_at(if b.is_empty() { vec![a] } else { vec![a, b] }, lba)
            };
            let r = go(f, first);
            s::check(r == Some(Ok(())), "read succeeds");
            let c = m.try_const().unwrap();
            for i in 0..n {
                s::check(marked(&c[i as usize * BYTES_PER_LBA..(i as usize + 1) * BYTES_PER_LBA], (lba + i) as u8), "the right blocks are read");
            }
            s::reach(1);
            return;
        }
    };
    let res = go(f, first);
    s::no_panic();
    s::check(res == Some(Ok(())), "write succeeds");
    for l in 0..40 {
        let want = if l >= lba && l < lba + n { 200 + (l - lba) as u8 } else { l as u8 };
        s::check(marked(disk_block(0, l), want), "exactly the right blocks are written");
    }
    s::reach(1);
}
fn erase() {
    init(1, 64, |_, l| l as u8);
    let v: &'static VdevFile<'static> = Box::leak(Box::new(file(0, 64, 16)));
    let z = s::choice(4) as u32;
    let (a, b) = v.zone_limits(z);
    let r = go(v.erase_zone(a, b - 1), first);
    s::check(r == Some(Ok(())), "erase succeeds");
    for l in 0..64 {
        s::check(marked(disk_block(0, l), if l >= a && l < b { 0xee } else { l as u8 }), "exactly the zone is erased");
    }
    s::reach(1);
}
symrt::entries! {
    h_file_zones => zones();
    h_file_zone_end => zone_end();
    h_file_place => place();
    h_file_erase => erase();
}
