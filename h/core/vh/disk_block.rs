//! VdevBlock: the I/O scheduler of one disk
use super::*;
use crate::vdev_file::vh_disk::*;
use divbuf::DivBufShared;
use std::os::fd::FromRawFd;
use symrt as s;
use tokio::vexec;

pub fn block(disk: usize, size: LbaT, lbas_per_zone: LbaT, depth: u32) -> VdevBlock {
    let leaf = file(disk, size, lbas_per_zone);
    let spacemap_space = leaf.spacemap_space();
    let device = unsafe { fs::File::from_raw_fd(FD0 + disk as i32) };
    let inner = Arc::new(RwLock::new(Inner {
        delayed: None,
        optimum_queue_depth: depth,
        queue_depth: 0,
        last_lba: 0,
        remover: None,
        syncing: false,
        after_sync: VecDeque::new(),
        ahead: BinaryHeap::new(),
        behind: BinaryHeap::new(),
        weakself: Weak::new(),
        txg: AtomicU32::new(0),
        leaf,
        _device: device,
    }));
    inner.write().unwrap().weakself = Arc::downgrade(&inner);
    // the simulated disk's descriptor is not a real one: never close it
    mem::forget(inner.clone());
    VdevBlock { inner, size, spacemap_space, lbas_per_zone, uuid: Uuid::from_uuid(uuid::Uuid::from_u128(0x1000 + disk as u128)), path: PathBuf::new() }
}
/// what the manager does with a disk whose label has been read
pub fn reopen(disk: usize, reader: &mut LabelReader, size: LbaT, lbas_per_zone: LbaT, depth: u32) -> Result<VdevBlock> {
    let label: Label = reader.deserialize().map_err(|_| Error::EINVAL)?;
    s::check(label.lbas == size && label.lbas_per_zone == lbas_per_zone && label.spacemap_space == 1, "the label describes the disk");
    let mut vb = block(disk, size, lbas_per_zone, depth);
    set_txg(&vb, label.txg.into());
    vb.uuid = label.uuid;
    Ok(vb)
}
/// reads a disk's label and opens it, as the manager does
pub async fn import(disk: usize, size: LbaT, lbas_per_zone: LbaT) -> Result<(VdevBlock, LabelReader)> {
    let f = mem::ManuallyDrop::new(unsafe { fs::File::from_raw_fd(FD0 + disk as i32) });
    let mut r = Manager::read_label(&f).await?;
    let vb = reopen(disk, &mut r, size, lbas_per_zone, 3)?;
    Ok((vb, r))
}
pub fn set_txg(v: &VdevBlock, txg: u32) { v.inner.read().unwrap().txg.store(txg, atomic::Ordering::Relaxed) }
pub fn set_uuid(v: &mut VdevBlock, u: Uuid) { v.uuid = u }
pub fn buf(tags: &[u8]) -> IoVec {
    let mut v = vec![0u8; tags.len() * BYTES_PER_LBA];
    for (i, t) in tags.iter().enumerate() {
        mark(&mut v[i * BYTES_PER_LBA..(i + 1) * BYTES_PER_LBA], *t);
    }
    DivBufShared::from(v).try_const().unwrap()
}

struct Req { kind: u64, lba: LbaT, n: usize, rbuf: Option<DivBufShared>, res: std::rc::Rc<std::cell::RefCell<Option<Result<()>>>>, dropped: bool, submitted: usize }
static BUDGET: AtomicU32 = AtomicU32::new(0);
static ERRS: AtomicU32 = AtomicU32::new(0);
fn fate(_: &Seen) -> i32 {
    if BUDGET.load(atomic::Ordering::Relaxed) > 0 && s::choice(2) == 1 {
        BUDGET.fetch_sub(1, atomic::Ordering::Relaxed);
        return EAGAIN;
    }
    if ERRS.load(atomic::Ordering::Relaxed) > 0 && s::choice(2) == 1 {
        ERRS.fetch_sub(1, atomic::Ordering::Relaxed);
        return EIO;
    }
    0
}
/// params: operations, queue depth, EAGAINs, errors, cancellations, mask of kinds, first kind (or 9), last_lba
fn sched() {
    let n = s::param(0) as usize;
    const BASE: u64 = 10;
    let size = BASE + 2 * n as u64 + 2;
    init(1, size, |_, l| l as u8);
    sim().sync = false;
    let vb = block(0, size, 64, s::param(1) as u32);
    // the lowest block is reserved for labels; use what follows
    vb.inner.write().unwrap().last_lba = BASE + s::param(7);
    BUDGET.store(s::param(2) as u32, atomic::Ordering::Relaxed);
    ERRS.store(s::param(3) as u32, atomic::Ordering::Relaxed);
    sim().fate = fate;
    let mut cancels = s::param(4);
    let mut free: Vec<u64> = (0..n as u64).collect();
    let mut reqs: Vec<Req> = vec![];
    let mut handles: Vec<Option<Pin<Box<VdevBlockFut>>>> = vec![];
    loop {
        vexec::drain();
        let n_in = inflight().len();
        let can_submit = reqs.len() < n;
        let mut opts = vec![];
        if can_submit {
            opts.push(0);
        }
        for k in 0..n_in {
            opts.push(1 + k as u64);
        }
        if cancels > 0 {
            for (i, h) in handles.iter().enumerate() {
                if h.is_some() && !reqs[i].dropped {
                    opts.push(100 + i as u64);
                }
            }
        }
        if opts.is_empty() {
            if vexec::advance() {
                continue;
            }
            break;
        }
        let o = opts[s::choice(opts.len() as u64) as usize];
        if o >= 100 {
            cancels -= 1;
            let i = o as usize - 100;
            reqs[i].dropped = true;
            handles[i] = None;
        } else if o > 0 {
            complete(o as usize - 1);
        } else {
            let mut kinds: Vec<u64> = (0..6).filter(|k| s::param(5) >> k & 1 == 1 && (*k != 5 || reqs.iter().all(|r| r.kind != 5))).collect();
            if reqs.is_empty() && s::param(6) != 9 {
                kinds = vec![s::param(6)];
            }
            let kind = kinds[s::choice(kinds.len() as u64) as usize];
            let i = reqs.len();
            let res = std::rc::Rc::new(std::cell::RefCell::new(None));
            let mut req = Req { kind, lba: 0, n: 0, rbuf: None, res, dropped: false, submitted: sim().log.len() };
            let fut = if kind == 4 {
                vb.sync_all()
            } else if kind == 5 {
                req.lba = 2 * LABEL_LBAS;
                req.n = 1;
                vb.write_spacemap(vec![buf(&[100 + 2 * i as u8])], 0, 0)
            } else {
                let slot = free.remove(s::choice(free.len() as u64) as usize);
                // slots are adjacent, of one or two blocks
                req.lba = BASE + slot * 2;
                req.n = if kind < 2 { 2 } else { 1 + (kind & 1) as usize };
                let t = 100 + 2 * i as u8;
                match kind {
                    0 => vb.write_at(buf(&[t, t + 1]), req.lba),
                    1 => vb.writev_at(vec![buf(&[t]), buf(&[t + 1])], req.lba),
                    k => {
                        let d = DivBufShared::from(vec![0u8; req.n * BYTES_PER_LBA]);
                        let mut m = d.try_mut().unwrap();
                        req.rbuf = Some(d);
                        if k == 2 { vb.read_at(m, req.lba) } else {
                            let m2 = m.split_off(BYTES_PER_LBA);
                            vb.readv_at(vec![m, m2], req.lba)
                        }
                    }
                }
            };
            let mut fut = Box::pin(fut);
            // the caller polls once, which submits the operation, and waits
            let r = vexec::poll_once(fut.as_mut());
            match r {
                Poll::Ready(r) => {
                    *req.res.borrow_mut() = Some(r);
                    handles.push(None);
                }
                Poll::Pending => handles.push(Some(fut)),
            }
            reqs.push(req);
        }
        for i in 0..handles.len() {
            vexec::drain();
            if let Some(f) = handles[i].as_mut() {
                if let Poll::Ready(r) = vexec::poll_once(f.as_mut()) {
                    *reqs[i].res.borrow_mut() = Some(r);
                    handles[i] = None;
                }
            }
        }
    }
    // every operation took place exactly once, as requested
    let m = sim();
    for (i, r) in reqs.iter().enumerate() {
        let done = *r.res.borrow();
        s::check(r.dropped || done.is_some(), "every operation completes");
        if r.kind == 4 {
            let after = m.log[r.submitted.min(m.log.len())..].iter().filter(|x| x.op == 2).count();
            s::check(after >= 1, "a sync reaches the disk after it is requested");
            if let Some(Err(_)) = done {
                s::check(m.log.iter().any(|x| x.op == 2 && x.err != 0), "errors are the disk's");
            }
            continue;
        }
        let op = if r.kind < 2 || r.kind == 5 { 1 } else { 0 };
        let ios: Vec<&Seen> = m.log.iter().filter(|x| x.op == op && x.lba <= r.lba && r.lba < x.lba + x.lbas).collect();
        s::check(ios.len() == 1, "every operation is issued exactly once");
        s::check(r.lba + r.n as u64 <= ios[0].lba + ios[0].lbas, "an operation is issued as a whole");
        s::check(ios[0].done, "issued operations finish");
        if let Some(d) = done {
            s::check((d == Ok(())) == (ios[0].err == 0), "an operation gets the disk's result");
        }
        if ios[0].err == 0 {
            let t = 100 + 2 * i as u8;
            for b in 0..r.n {
                if op == 1 {
                    s::check(marked(disk_block(0, r.lba + b as u64), t + b as u8), "written blocks are on the disk");
                } else if done.is_some() {
                    let c = r.rbuf.as_ref().unwrap().try_const().unwrap();
                    s::check(marked(&c[b * BYTES_PER_LBA..(b + 1) * BYTES_PER_LBA], (r.lba + b as u64) as u8), "read yields what is on the disk");
                }
            }
        }
        // order relative to syncs
        let at = m.log.iter().position(|x| x.op == op && x.lba <= r.lba && r.lba < x.lba + x.lbas).unwrap();
        for (j, q) in reqs.iter().enumerate() {
            if q.kind == 4 {
                if j < i {
                    s::check(m.log[..at].iter().any(|x| x.op == 2), "operations requested after a sync don't overtake it");
                } else {
                    s::check(m.log[at..].iter().any(|x| x.op == 2), "a sync covers everything requested before");
                }
            }
        }
    }
    let total: u64 = m.log.iter().filter(|x| x.op == 1).map(|x| x.lbas).sum();
    s::check(total == reqs.iter().filter(|r| r.kind < 2 || r.kind == 5).map(|r| r.n as u64).sum::<u64>(), "nothing else is written");
    s::check(m.max_inflight[0] <= s::param(1) as usize, "never more I/Os at once than the queue depth");
    let inner = vb.inner.read().unwrap();
    s::check(inner.queue_depth == 0 && inner.ahead.is_empty() && inner.behind.is_empty() && inner.after_sync.is_empty() && inner.delayed.is_none(), "the queue is empty in the end");
    drop(inner);
    mem::forget(vb);
    s::reach(1);
}
/// removal while operations are queued.  params: operations, queue depth
fn remove() {
    let n = s::param(0) as usize;
    init(1, 10 + 2 * n as u64, |_, l| l as u8);
    sim().sync = false;
    let vb = block(0, 10 + 2 * n as u64, 64, s::param(1) as u32);
    let mut hs = vec![];
    for i in 0..n {
        let mut f = Box::pin(vb.write_at(buf(&[100 + i as u8]), 10 + (if s::choice(2) == 0 { 1 } else { 2 }) * i as u64));
        s::check(vexec::poll_once(f.as_mut()).is_pending(), "queued");
        if s::param(2) == 0 || s::choice(2) == 0 {
            hs.push(f);
        }
    }
    let issued = sim().log.len();
    let done = std::rc::Rc::new(std::cell::RefCell::new(false));
    let d2 = done.clone();
    let rf = vb.remove();
    tokio::spawn(async move {
        rf.await;
        *d2.borrow_mut() = true;
    });
    loop {
        vexec::drain();
        let k = inflight().len();
        s::check(!*done.borrow() || k == 0, "removal waits for what is under way");
        if k > 0 {
            complete(any(k));
        } else if !vexec::advance() {
            break;
        }
    }
    s::check(*done.borrow(), "removal completes");
    s::check(sim().log.len() == issued, "nothing is issued after the removal");
    for mut h in hs {
        s::check(vexec::poll_once(h.as_mut()).is_ready(), "every operation completes or is cancelled");
    }
    s::reach(1);
}
/// merging two operations
fn accum() {
    nix::unistd::set_iov_max(s::param(0) as i64);
    let mk = |lba: u64| {
        let k = s::choice(4);
        let (tx, rx) = oneshot::channel();
        let n = 1 + s::choice(2) as usize;
        let lens: Vec<usize> = (0..if k & 1 == 0 { 1 } else { n }).map(|_| 1 + s::choice(2) as usize).collect();
        let op = if k < 2 {
            let mut v: Vec<IoVec> = lens.iter().map(|l| DivBufShared::from(vec![0u8; l * BYTES_PER_LBA]).try_const().unwrap()).collect();
            if k == 0 { BlockOp::write_at(v.pop().unwrap(), lba, tx) } else { BlockOp::writev_at(v, lba, tx) }
        } else {
            let mut v: Vec<IoVecMut> = lens.iter().map(|l| DivBufShared::from(vec![0u8; l * BYTES_PER_LBA]).try_mut().unwrap()).collect();
            if k == 2 { BlockOp::read_at(v.pop().unwrap(), lba, tx) } else { BlockOp::readv_at(v, lba, tx) }
        };
        (op, rx, k, lens)
    };
    let lba = s::range(0, 1 << 40);
    let (a, _ra, ka, la) = mk(lba);
    let lba2 = s::range(0, 1 << 41);
    let (b, _rb, kb, lb) = mk(lba2);
    let suma: usize = la.iter().sum();
    let sumb: usize = lb.iter().sum();
    if a.can_accumulate(&b) {
        s::check((ka < 2) == (kb < 2), "only operations of one kind are merged");
        s::check(lba2 == lba + suma as u64, "only adjacent operations are merged");
        s::check(ka & 1 == 0 && kb & 1 == 0 || la.len() + lb.len() <= s::param(0) as usize, "no more buffers than the system takes");
        let c = a.accumulate(b);
        s::check(c.lba == lba, "address of the merged operation");
        s::check(c.senders.len() == 2, "both callers are told");
        let lens: Vec<usize> = match &c.cmd {
            Cmd::WritevAt(v) => v.iter().map(|x| x.len() / BYTES_PER_LBA).collect(),
            Cmd::ReadvAt(v) => v.iter().map(|x| x.len() / BYTES_PER_LBA).collect(),
            _ => vec![],
        };
        let mut want = la.clone();
        want.extend(lb.iter());
        s::check(lens == want, "the merged operation has the buffers of both in order");
        s::check(suma + sumb == lens.iter().sum::<usize>(), "length");
        s::reach(1);
    } else {
        s::reach(2);
    }
}
/// zone operations and metadata
fn zone() {
    init(1, 64, |_, l| l as u8);
    let vb = block(0, 64, 16, 2);
    let z = s::choice(4) as u32;
    let (a, b) = vb.zone_limits(z);
    let kind = s::choice(6);
    let fail = s::choice(2) == 1;
    if fail {
        sim().fate = |_| EIO;
    }
    set_txg(&vb, 7);
    let idx = s::choice(2) as u32;
    let rbuf = DivBufShared::from(vec![0u8; BYTES_PER_LBA]);
    let fut = match kind {
        0 => vb.erase_zone(a, b - 1),
        1 => vb.open_zone(a),
        2 => vb.finish_zone(a, b - 1),
        3 => vb.write_spacemap(vec![buf(&[200])], idx, 0),
        4 => vb.read_spacemap(rbuf.try_mut().unwrap(), idx),
        _ => vb.write_label(LabelWriter::new(idx), TxgT::from(9)),
    };
    let r = go(fut, first);
    if kind < 3 {
        s::check(sim().log.is_empty(), "zone operations transfer nothing");
    }
    let failed = fail && kind >= 3;
    s::check(r == Some(if failed { Err(Error::EIO) } else { Ok(()) }), "completes with the disk's result");
    s::check(vb.txg() == TxgT::from(if kind == 5 && !failed { 9 } else { 7 }), "the transaction is recorded when its label is on disk");
    let sm = 8 + idx as u64;
    for l in 0..64 {
        let d = disk_block(0, l);
        let label = kind == 5 && !failed && l >= 4 * idx as u64 && l < 4 * (idx as u64 + 1);
        if label {
            s::check(l != 4 * idx as u64 || &d[0..10] == b"BFFFS Vdev", "label is at its place");
            continue;
        }
        let want = if kind == 0 && l >= a && l < b { 0xee } else if kind == 3 && !failed && l == sm { 200 } else { l as u8 };
        s::check(marked(d, want), "nothing else is touched");
    }
    if kind == 4 && !failed {
        s::check(marked(&rbuf.try_const().unwrap(), sm as u8), "space map is read from its place");
    }
    let inner = vb.inner.read().unwrap();
    s::check(inner.queue_depth == 0, "the queue is empty in the end");
    drop(inner);
    mem::forget(vb);
    s::reach(1);
}
symrt::entries! {
    h_block_zone => zone();
    h_block_sched => sched();
    h_block_remove => remove();
    h_block_accum => accum();
}
