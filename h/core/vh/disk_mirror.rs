//! Mirror on simulated disks
use super::*;
use crate::vdev_block::vh_disk::*;
use crate::vdev_file::vh_disk::*;
use symrt as s;

pub const SIZE: u64 = 28;
/// Children on disks first, first + 1 ...  States: 0 present, 1 missing, 2 rebuilding, 3 faulted
pub fn mirror(first: usize, size: LbaT, lpz: LbaT, states: &[u64]) -> Mirror {
    let children = states
        .iter()
        .enumerate()
        .map(|(i, st)| {
            let vb = block(first + i, size, lpz, 3);
            match st {
                0 => Child::present(vb),
                1 => {
                    let u = vb.uuid();
                    mem::forget(vb);
                    Child::missing(u)
                }
                2 => Child::rebuilding(vb),
                _ => Child::Faulted(Arc::new(vb)),
            }
        })
        .collect::<Vec<_>>();
    Mirror { uuid: Uuid::from_uuid(uuid::Uuid::from_u128(0x2000 + first as u128)), next_read_idx: AtomicU32::new(0), optimum_queue_depth: 3, size, children }
}
/// which disks fail which operation: bit per disk
static FAIL: AtomicU32 = AtomicU32::new(0);
pub fn set_fail(mask: u32) { FAIL.store(mask, Ordering::Relaxed) }
pub fn fate_by_disk(x: &Seen) -> i32 {
    if FAIL.load(Ordering::Relaxed) >> x.disk & 1 == 1 { EIO } else { 0 }
}
fn states(n: usize, kinds: u64) -> Vec<u64> { (0..n).map(|_| s::choice(kinds)).collect() }
/// present children hold the current data, all others something else
fn fill(d: usize, l: u64) -> u8 { if STATE.load(Ordering::Relaxed) >> (2 * d) & 3 == 0 { cur(l) } else { l as u8 } }
fn cur(l: u64) -> u8 { (l as u8).wrapping_add(100) }
static STATE: AtomicU32 = AtomicU32::new(0);
fn setup(st: &[u64], lbas: u64) {
    STATE.store(st.iter().enumerate().map(|(i, x)| (*x as u32) << (2 * i)).sum(), Ordering::Relaxed);
    init(st.len(), lbas, fill);
    sim().fate = fate_by_disk;
    sim().sync = false;
}
/// params: children, kinds of states, kind of read
fn read() {
    let n = s::param(0) as usize;
    let st = states(n, s::param(1));
    let fail = s::choice(1 << n) as u32;
    setup(&st, SIZE);
    set_fail(fail);
    let m = mirror(0, SIZE, 16, &st);
    m.next_read_idx.store(s::u32(), Ordering::Relaxed);
    let good = (0..n).filter(|i| st[*i] == 0 && fail >> i & 1 == 0).count();
    let present = (0..n).filter(|i| st[*i] == 0).count();
    let lba = 10 + s::choice(2);
    let dbs = DivBufShared::from(vec![0u8; 2 * BYTES_PER_LBA]);
    let dbs2 = DivBufShared::from(vec![0u8; BYTES_PER_LBA]);
    let kind = s::param(2);
    let mut at = lba;
    let r = match kind {
        0 => go(m.read_at(dbs.try_mut().unwrap(), lba), any),
        1 => {
            // two buffers of their own
            let mut a = dbs.try_mut().unwrap();
            a.try_truncate(BYTES_PER_LBA).unwrap();
            go(m.readv_at(vec![a, dbs2.try_mut().unwrap()], lba), any)
        }
        4 => {
            // the other half is being read from elsewhere
            let mut a = dbs.try_mut().unwrap();
            let b = a.split_off(BYTES_PER_LBA);
            let r = go(m.read_at(a, lba), any);
            drop(b);
            r
        }
        2 => {
            let mut a = dbs.try_mut().unwrap();
            a.try_truncate(BYTES_PER_LBA).unwrap();
            at = 8 + (lba & 1);
            go(m.read_spacemap(a, (lba & 1) as u32), any)
        }
        _ => {
            let r = go(m.read_long(2, lba), any);
            match r {
                None => s::check(false, "read_long completes"),
                Some(Err(e)) => {
                    s::check(good == 0 || present < 2, "every readable copy is offered");
                    s::check(e == if present < 2 { Error::EINTEGRITY } else { Error::EIO }, "error");
                }
                Some(Ok(it)) => {
                    let mut k = 0;
                    for d in it {
                        let c = d.try_const().unwrap();
                        s::check(c.len() == 2 * BYTES_PER_LBA && marked(&c[..BYTES_PER_LBA], 100 + lba as u8) && marked(&c[BYTES_PER_LBA..], 101 + lba as u8), "current data");
                        k += 1;
                    }
                    s::check(k == good && present >= 2, "every readable copy is offered once");
                }
            }
            mem::forget(m);
            s::reach(1);
            return;
        }
    };
    s::check(sim().log.iter().all(|x| st[x.disk] == 0 && x.op == 0), "only healthy children are read");
    if good > 0 {
        s::check(r == Some(Ok(())), "read succeeds if any healthy child can be read");
        let c = dbs.try_const().unwrap();
        if kind == 1 {
            s::check(marked(&dbs2.try_const().unwrap(), 101 + at as u8), "read yields the data");
        }
        for i in 0..if kind == 0 { 2 } else { 1usize } {
            s::check(marked(&c[i * BYTES_PER_LBA..(i + 1) * BYTES_PER_LBA], 100 + at as u8 + i as u8), "read yields the data");
        }
    } else {
        s::check(r == Some(Err(if present > 0 { Error::EIO } else { Error::ENXIO })), "error is reported if no child can be read");
    }
    mem::forget(m);
    s::reach(1);
}
/// params: children, kinds of states, kind of write
fn write() {
    let n = s::param(0) as usize;
    let st = states(n, s::param(1));
    let fail = s::choice(1 << n) as u32;
    setup(&st, SIZE);
    set_fail(fail);
    let m = mirror(0, SIZE, 16, &st);
    for c in &m.children {
        if let Some(vb) = c.as_vdev() {
            set_txg(vb, 7);
        }
    }
    let lba = 10 + s::choice(2);
    let kind = s::param(2);
    let target = if kind == 4 { 2 } else { 0 };
    let t = LabelWriter::new(1);
    let f = match kind {
        0 => m.write_at(buf(&[200, 201]), lba),
        1 => m.writev_at(vec![buf(&[200]), buf(&[201])], lba),
        2 => m.write_spacemap(vec![buf(&[200, 201])], 0, 0),
        3 => m.write_label(t, TxgT::from(9), false),
        4 => m.write_label(t, TxgT::from(9), true),
        _ => m.sync_all(),
    };
    let at = if kind == 2 { 8 } else { lba };
    let r = go(f, any);
    let bad = (0..n).any(|i| st[i] == target && fail >> i & 1 == 1);
    s::check(r == Some(if bad { Err(Error::EIO) } else { Ok(()) }), "write succeeds if and only if it reached every healthy child");
    settle(any);
    for i in 0..n {
        let wr = st[i] == target && fail >> i & 1 == 0;
        let n_io = sim().log.iter().filter(|x| x.disk == i).count();
        s::check(n_io == (st[i] == target) as usize, "exactly the children concerned are written, once each");
        for l in 0..SIZE {
            let want = if st[i] == 0 { cur(l) } else { l as u8 };
            if kind == 3 || kind == 4 {
                if (4..8).contains(&l) {
                    s::check(if l == 4 && wr { &disk_block(i, l)[..10] == b"BFFFS Vdev" } else { wr || marked(disk_block(i, l), want) }, "label");
                    continue;
                }
            }
            s::check(marked(disk_block(i, l), if wr && kind < 3 && l >= at && l < at + 2 { 200 + (l - at) as u8 } else { want }), "exactly the blocks written change");
        }
        if let Some(vb) = m.children[i].as_vdev() {
            s::check(vb.txg() == TxgT::from(if wr && (kind == 3 || kind == 4) { 9 } else { 7 }) || bad && wr && vb.txg() == TxgT::from(7), "transaction of each child");
        }
    }
    mem::forget(m);
    s::reach(1);
}
/// params: children, kinds of states, blocks per zone, zones, zone, may fail
fn repair() {
    let n = s::param(0) as usize;
    let lpz = s::param(2);
    let size = lpz * s::param(3);
    let st = states(n, s::param(1));
    s::assume(st[0] == 0 || st.contains(&0));
    setup(&st, size);
    let fail = if s::param(5) == 1 { s::choice(1 << n) as u32 } else { 0 };
    set_fail(fail);
    let m = mirror(0, size, lpz, &st);
    m.next_read_idx.store(s::u32(), Ordering::Relaxed);
    let z = s::param(4) as u32;
    let (a, b) = m.zone_limits(z);
    let cnt = match s::choice(3) { 0 => None, 1 => NonZeroU64::new(1), _ => NonZeroU64::new(b - a - 1) };
    let end = cnt.map(|c| a + u64::from(c)).unwrap_or(b);
    let r = go(m.repair_zone(z, cnt), any);
    settle(any);
    s::check(r.is_some(), "repair completes");
    let rebuilding = st.contains(&2);
    if fail == 0 {
        s::check(r == Some(Ok(())), "repair succeeds");
    }
    if r == Some(Ok(())) {
        for i in 0..n {
            for l in 0..size {
                let want = if st[i] == 0 || (st[i] == 2 && l >= a && l < end) { cur(l) } else { l as u8 };
                s::check(marked(disk_block(i, l), want), "exactly the used part of the zone is copied");
            }
        }
        s::check(!rebuilding || (0..n).all(|i| st[i] != 2 || fail >> i & 1 == 0), "success means that every child was written");
    }
    s::check(sim().log.iter().all(|x| st[x.disk] == if x.op == 0 { 0 } else { 2 }), "healthy children are read, rebuilding ones written");
    mem::forget(m);
    s::reach(1);
}
pub fn open_one(vb: VdevBlock, r: LabelReader) -> (Mirror, LabelReader) { Mirror::open(None, vec![(vb, r)]).unwrap() }
pub fn open_many(v: Vec<(VdevBlock, LabelReader)>) -> (Mirror, LabelReader) { Mirror::open(None, v).unwrap() }
/// Labels are written to some children only, then the mirror is opened from whatever is there.  params: children
fn open() {
    let n = s::param(0) as usize;
    init(n, SIZE, |_, l| l as u8);
    let m = mirror(0, SIZE, 16, &vec![0; n]);
    // transaction 1 reached everyone; transaction 2 only some
    let r = go(m.write_label(LabelWriter::new(0), TxgT::from(1), false), first);
    s::check(r == Some(Ok(())), "labels are written");
    let fail = s::choice((1 << n) - 1) as u32;
    set_fail(fail);
    sim().fate = fate_by_disk;
    go(m.write_label(LabelWriter::new(0), TxgT::from(2), false), first);
    settle(first);
    set_fail(0);
    // who has transaction 2
    let has: Vec<bool> = (0..n).map(|i| sim().log.iter().filter(|x| x.disk == i && x.op == 1 && x.err == 0).count() == 2).collect();
    let gone = s::choice((1 << n) - 1) as u32;
    let mut combined = vec![];
    let rot = s::choice(n as u64) as usize;
    for k in 0..n {
        let i = (k + rot) % n;
        if gone >> i & 1 == 0 {
            let raw: Vec<u8> = (0..LABEL_LBAS).flat_map(|l| disk_block(i, l).to_vec()).collect();
            let mut reader = LabelReader::new(raw).unwrap();
            combined.push(reopen(i, &mut reader, SIZE, 16, 3).map(|vb| (vb, reader)).unwrap());
        }
    }
    let best = if (0..n).any(|i| gone >> i & 1 == 0 && has[i]) { 2 } else { 1 };
    let uu: Vec<Uuid> = m.children.iter().map(|c| c.uuid()).collect();
    let (m2, _) = Mirror::open(Some(m.uuid), combined).unwrap();
    s::check(m2.uuid == m.uuid && m2.size == SIZE && m2.children.len() == n, "the mirror is reassembled");
    for i in 0..n {
        let c = &m2.children[i];
        s::check(c.uuid() == uu[i], "children keep their places");
        let txg = if has[i] { 2 } else { 1 };
        let ok = match c {
            Child::Missing(_) => gone >> i & 1 == 1,
            Child::Present(_) => gone >> i & 1 == 0 && txg == best,
            Child::Rebuilding(_) => gone >> i & 1 == 0 && txg < best,
            Child::Faulted(_) => false,
        };
        s::check(ok, "children that missed a transaction are rebuilt, the others are healthy");
    }
    let st = m2.status();
    s::check((st.health == Health::Online) == (0..n).all(|i| m2.children[i].is_present()), "health");
    s::check(st.rebuilding.is_some() == m2.children.iter().any(Child::is_rebuilding), "rebuilding is reported");
    mem::forget((m, m2));
    s::reach(1);
}
symrt::entries! {
    h_mirror_read => read();
    h_mirror_read_shared => read();
    h_mirror_write => write();
    h_mirror_repair => repair();
    h_mirror_open => open();
}
