//! RAID on simulated disks
use super::*;
use crate::mirror::vh_disk::*;
use crate::vdev_block::vh_disk::*;
use crate::vdev_file::vh_disk::*;
use divbuf::DivBufShared;
use std::sync::atomic::Ordering;
use symrt as s;
#[cfg(not(feature = "native"))]
#[path = "isal.rs"]
mod isal;

#[derive(Clone, Copy)]
pub struct Geo { pub n: usize, pub k: i16, pub f: i16, pub chunk: LbaT, pub size: LbaT, pub lpz: LbaT }
impl Geo {
    pub fn m(&self) -> usize { (self.k - self.f) as usize }
    pub fn stripe(&self) -> LbaT { self.chunk * self.m() as LbaT }
    pub fn params(lpz: LbaT, size: LbaT) -> Self { Geo { n: s::param(0) as usize, k: s::param(1) as i16, f: s::param(2) as i16, chunk: s::param(3), size, lpz } }
}
/// an array of single-disk mirrors; disks in `missing` (bits) are gone
pub fn raid(g: Geo, missing: u32) -> VdevRaid {
    #[cfg(not(feature = "native"))]
    isal::MARKS_ONLY.store(true, Ordering::Relaxed);
    let children = (0..g.n)
        .map(|i| {
            let m = mirror(i, g.size, g.lpz, &[0]);
            if missing >> i & 1 == 1 {
                let u = m.uuid();
                mem::forget(m);
                Child::missing(u)
            } else {
                Child::present(m)
            }
        })
        .collect::<Vec<_>>();
    VdevRaid::new(g.chunk, g.k, g.f, Uuid::from_uuid(uuid::Uuid::from_u128(0x3000)), LayoutAlgorithm::PrimeS, children.into_boxed_slice())
}
/// compute parity of all bytes, not only those that carry marks
pub fn all_bytes() {
    #[cfg(not(feature = "native"))]
    isal::MARKS_ONLY.store(false, Ordering::Relaxed);
}
pub fn child_uuid(v: &VdevRaid, i: usize) -> Uuid { v.inner.children[i].uuid() }
/// content of block l of the test data
pub fn tag(l: LbaT) -> u8 { (l as u8).wrapping_mul(7).wrapping_add(13) }
pub fn data(l: LbaT, n: LbaT) -> IoVec { buf(&(l..l + n).map(tag).collect::<Vec<u8>>()) }
/// a set of at most `max` of n disks
pub fn subset(n: usize, max: usize, not: u32) -> u32 {
    let mut left = max;
    let mut r = 0;
    for i in 0..n {
        if not >> i & 1 == 0 && left > 0 && s::choice(2) == 1 {
            r |= 1 << i;
            left -= 1;
        }
    }
    r
}
/// reads and compares: `lost` of the disks can't be read
fn read_check(v: &VdevRaid, base: LbaT, l: LbaT, n: LbaT, recoverable: bool) {
    let dbs = DivBufShared::from(vec![0u8; n as usize * BYTES_PER_LBA]);
    let r = go(v.read_at(dbs.try_mut().unwrap(), base + l), first);
    s::check(r.is_some(), "read completes");
    if recoverable {
        s::check(r == Some(Ok(())), "read succeeds while no more disks than the redundancy are lost");
    }
    if r == Some(Ok(())) {
        let c = dbs.try_const().unwrap();
        for i in 0..n as usize {
            s::check(marked(&c[i * BYTES_PER_LBA..(i + 1) * BYTES_PER_LBA], tag(l + i as LbaT)), "a successful read yields the data written");
        }
    }
}
fn fault_all(v: &mut VdevRaid, mask: u32) {
    for i in 0..v.inner.children.len() {
        if mask >> i & 1 == 1 {
            let u = child_uuid(v, i);
            s::check(v.fault(u) == Ok(()), "fault");
        }
    }
}
/// params: n, k, f, chunk, data blocks, longest read, faulted disks, disks failing the read, 1: faulted before the write
fn read() {
    let g = Geo::params(64, 64);
    let total = s::param(4);
    let fault_max = s::param(6) as usize;
    let eio_max = s::param(7) as usize;
    init(g.n, g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let mut v = raid(g, 0);
    let faulted = subset(g.n, fault_max, 0);
    if s::param(8) == 1 {
        fault_all(&mut v, faulted);
    }
    let (base, _) = v.zone_limits(0);
    s::check(go(v.open_zone(0), first) == Some(Ok(())), "zone opens");
    s::check(go(v.write_at(data(0, total), 0, base), first) == Some(Ok(())), "write succeeds while no more disks than the redundancy are lost");
    if s::param(8) == 0 {
        fault_all(&mut v, faulted);
    }
    let eio = subset(g.n, eio_max, faulted);
    set_fail(eio);
    sim().fate = fate_by_disk;
    let l = s::choice(total);
    let n = 1 + s::choice(s::param(5).min(total - l));
    read_check(&v, base, l, n, (faulted | eio).count_ones() <= g.f as u32);
    mem::forget(v);
    s::reach(1);
}

/// one block of what the caller should see: tag of the data, or zeros for padding
#[derive(Clone, Copy, PartialEq)]
enum Want { Tag(u8), Zero }
fn is(b: &[u8], w: Want) -> bool {
    match w {
        Want::Tag(t) => marked(b, t),
        Want::Zero => b[0] == 0 && b[1] == 0 && b[b.len() / 2] == 0 && b[b.len() - 1] == 0,
    }
}
/// reads blocks [l, l+n) of the zone that begins at `base`
fn compare(v: &VdevRaid, base: LbaT, want: &[Want], l: usize, n: usize, msg: &'static str) {
    let dbs = DivBufShared::from(vec![0x77u8; n * BYTES_PER_LBA]);
    let r = go(v.read_at(dbs.try_mut().unwrap(), base + l as LbaT), first);
    s::check(r == Some(Ok(())), "read succeeds");
    let c = dbs.try_const().unwrap();
    for i in 0..n {
        s::check(is(&c[i * BYTES_PER_LBA..(i + 1) * BYTES_PER_LBA], want[l + i]), msg);
    }
}
/// params: n, k, f, chunk, writes, longest write, zone; short tails: 1 if writes may end within a block
fn write() {
    let lpz = 64;
    let g = Geo::params(lpz, 128);
    init(g.n, g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let mut v = raid(g, 0);
    let z = s::param(6) as ZoneT;
    let (base, end) = v.zone_limits(z);
    s::check(go(v.open_zone(z), first) == Some(Ok(())), "zone opens");
    let mut want: Vec<Want> = vec![];
    for _ in 0..s::param(4) {
        let n = 1 + s::choice(s::param(5));
        let l = want.len() as LbaT;
        if l + n > end - base {
            break;
        }
        let mut b = data(l, n);
        if s::param(7) == 1 && s::choice(2) == 1 {
            // ends within a block: the rest of the block is padded
            let len = b.len();
            b.split_off(len - BYTES_PER_LBA + 1 + 2048);
        }
        let short = b.len() % BYTES_PER_LBA != 0;
        let r = go(v.write_at(b, z, base + l), first);
        s::check(r == Some(Ok(())), "write succeeds");
        want.extend((l..l + n).map(|x| Want::Tag(tag(x))));
        if short {
            // last byte isn't part of the data
            let dbs = DivBufShared::from(vec![0x77u8; BYTES_PER_LBA]);
            let r = go(v.read_at(dbs.try_mut().unwrap(), base + want.len() as LbaT - 1), first);
            let c = dbs.try_const().unwrap();
            let t = tag(l + n - 1);
            s::check(r == Some(Ok(())) && c[0] == t && c[1] == !t && c[2048] == t ^ 0x5a && c[4095] == 0 && c[2049] == 0, "a partial block is read back, padded with zeros");
            want.pop();
            // overlap would spoil later whole-block comparisons
            want.push(Want::Tag(t));
            short_blocks(want.len() - 1);
        }
        if s::choice(2) == 1 {
            let (pad, f) = v.flush_zone(z);
            s::check(go(f, first) == Some(Ok(())), "flush succeeds");
            want.extend((0..pad).map(|_| Want::Zero));
            s::check((want.len() as LbaT).is_multiple_of(g.stripe()), "padding fills the stripe");
            s::check(want.len() as LbaT - pad == l + n && pad < g.stripe(), "padding is reported");
        }
    }
    if want.is_empty() {
        return;
    }
    let n = want.len();
    if s::param(7) == 0 {
        compare(&v, base, &want, 0, n, "everything written can be read back at once");
        let l = s::choice(n as u64) as usize;
        compare(&v, base, &want, l, n - l, "everything written can be read back");
    }
    // now push everything to the disks
    let m = s::choice(2);
    let f = if m == 0 { v.finish_zone(z) } else { v.flush_zone(z).1 };
    s::check(go(f, first) == Some(Ok(())), "zone is finished or flushed");
    // the disks are written in order, within the zone, and not twice
    let (da, db) = v.first_healthy_child().zone_limits(z);
    for d in 0..g.n {
        let mut at = 0;
        for x in sim().log.iter().filter(|x| x.disk == d && x.op == 1) {
            s::check(x.lba >= at, "each disk is written in order");
            s::check(x.lba >= da && x.lba + x.lbas <= db, "a zone's data stays in the zone on every disk");
            at = x.lba + x.lbas;
        }
    }
    // any f disks can be lost
    let lost = subset(g.n, g.f as usize, 0);
    fault_all(&mut v, lost);
    if s::param(7) == 0 {
        compare(&v, base, &want, 0, n, "data and padding survive the loss of disks");
    } else {
        for i in 0..n {
            if !is_short(i) {
                compare(&v, base, &want, i, 1, "data survives the loss of disks");
            }
        }
    }
    mem::forget(v);
    s::reach(1);
}
static SHORT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn short_blocks(i: usize) { SHORT.fetch_or(1 << i, Ordering::Relaxed); }
fn is_short(i: usize) -> bool { SHORT.load(Ordering::Relaxed) >> i & 1 == 1 }
/// write two things at different zones, reopen.  params: n,k,f,chunk, blocks before, blocks after
fn reopen() {
    let g = Geo::params(64, 128);
    init(g.n, g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let v = raid(g, 0);
    let z = s::choice(2) as ZoneT;
    let (base, _) = v.zone_limits(z);
    s::check(go(v.open_zone(z), first) == Some(Ok(())), "zone opens");
    let a = 1 + s::choice(s::param(4));
    s::check(go(v.write_at(data(0, a), z, base), first) == Some(Ok(())), "write");
    let (pad, f) = v.flush_zone(z);
    s::check(go(f, first) == Some(Ok(())), "flush");
    let mut want: Vec<Want> = (0..a).map(|x| Want::Tag(tag(x))).collect();
    want.extend((0..pad).map(|_| Want::Zero));
    mem::forget(v);
    let lost = subset(g.n, g.f as usize, 0);
    let v = raid(g, lost);
    let l = want.len() as LbaT;
    s::check(go(v.reopen_zone(z, l), first) == Some(Ok(())), "zone is reopened");
    let b = 1 + s::choice(s::param(5));
    s::check(go(v.write_at(data(l, b), z, base + l), first) == Some(Ok(())), "write after reopening");
    want.extend((l..l + b).map(|x| Want::Tag(tag(x))));
    compare(&v, base, &want, 0, want.len(), "data from before and after is there");
    s::check(go(v.finish_zone(z), first) == Some(Ok(())), "finish");
    compare(&v, base, &want, 0, want.len(), "data from before and after is there");
    mem::forget(v);
    s::reach(1);
}
/// zone map.  params: n,k,f,chunk, blocks per disk zone, zones
fn zones() {
    let lpz = s::param(4);
    let g = Geo::params(lpz, lpz * s::param(5));
    init(g.n, 1, |_, _| 0);
    let v = raid(g, 0);
    s::check(v.zones() as u64 == s::param(5), "zones");
    let z = s::choice(s::param(5)) as ZoneT;
    let (a, b) = v.zone_limits(z);
    s::check(a < b && a % g.stripe() == 0 && b % g.stripe() == 0, "zones hold whole stripes");
    s::check(b <= v.size(), "zones end within the array");
    if z > 0 {
        s::check(v.zone_limits(z - 1).1 <= a, "zones don't overlap");
    }
    let (da, db) = v.first_healthy_child().zone_limits(z);
    let l = s::range(a, b);
    s::assume(l < b);
    let l = s::concretize(l);
    for (_, loc) in v.inner.locator.iter(ChunkId::Data(l / g.stripe() * g.m() as u64), ChunkId::Data((l / g.stripe() + 1) * g.m() as u64)) {
        let o = loc.offset * g.chunk;
        s::check(o >= da && o + g.chunk <= db, "every chunk of a zone's stripes lies in that zone of its disk");
    }
    s::check(v.lba2zone(l) == Some(z), "every block of a zone maps back to it");
    if l == a && a > 0 && (z == 0 || v.zone_limits(z - 1).1 < a) {
        s::check(v.lba2zone(a - 1).is_none(), "blocks between zones are in no zone");
    }
    mem::forget(v);
    s::reach(1);
}
/// the same for zones of realistic size: any stripe of the zone.  params: n,k,f,chunk, log2 of blocks per disk zone, zones, zone
fn zones_big() {
    let lpz = 1 << s::param(4);
    let g = Geo::params(lpz, lpz * s::param(5));
    init(g.n, 1, |_, _| 0);
    let v = raid(g, 0);
    let z = s::param(6) as ZoneT;
    let (a, b) = v.zone_limits(z);
    s::check(a < b && a % g.stripe() == 0 && b % g.stripe() == 0 && b <= v.size(), "zones hold whole stripes");
    if z > 0 {
        s::check(v.zone_limits(z - 1).1 <= a, "zones don't overlap");
    }
    let (da, db) = v.first_healthy_child().zone_limits(z);
    // little of the disks is left out
    let chunks = (b - a) / g.chunk * g.k as u64 / g.m() as u64;
    s::check(chunks + 2 * g.n as u64 * g.n as u64 * g.k as u64 >= (db - da) / g.chunk * g.n as u64, "zones cover the disks up to a repetition of the layout at each end");
    let st = s::range(a / g.stripe(), b / g.stripe() - 1);
    for i in 0..g.m() as u64 {
        let o = v.inner.locator.id2loc(ChunkId::Data(st * g.m() as u64 + i)).offset * g.chunk;
        s::check(o >= da && o + g.chunk <= db, "every data chunk of a zone lies in that zone of its disk");
    }
    for i in 0..g.f {
        let o = v.inner.locator.id2loc(ChunkId::Parity(st * g.m() as u64, i)).offset * g.chunk;
        s::check(o >= da && o + g.chunk <= db, "every parity chunk of a zone lies in that zone of its disk");
    }
    mem::forget(v);
    s::reach(1);
}
/// every recoverable reconstruction is offered.  params: n,k,f,chunk, data blocks, longest read, corrupt, faulted, failing
fn long() {
    let g = Geo::params(64, 64);
    let total = s::param(4);
    init(g.n, g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let mut v = raid(g, 0);
    let (base, _) = v.zone_limits(0);
    go(v.open_zone(0), first);
    s::check(go(v.write_at(data(0, total), 0, base), first) == Some(Ok(())), "write");
    go(v.flush_zone(0).1, first);
    let faulted = subset(g.n, s::param(7) as usize, 0);
    fault_all(&mut v, faulted);
    let eio = subset(g.n, s::param(8) as usize, faulted);
    let bad = subset(g.n, s::param(6) as usize, faulted | eio);
    // the corrupt disks return something else
    for d in 0..g.n {
        if bad >> d & 1 == 1 {
            for b in 0..g.size {
                mark(&mut sim().data[d][b as usize * BYTES_PER_LBA..(b as usize + 1) * BYTES_PER_LBA], 0xc0 + d as u8);
            }
        }
    }
    set_fail(eio);
    sim().fate = fate_by_disk;
    let l = s::choice(total);
    let n = 1 + s::choice(s::param(5).min(total - l));
    let r = go(v.read_long(n, base + l), first);
    let nlost = (faulted | eio | bad).count_ones();
    match r {
        None => s::check(false, "read_long completes"),
        Some(Err(e)) => s::check(faulted.count_ones() >= g.f as u32 && e == Error::EINTEGRITY || nlost > g.f as u32, "read_long yields reconstructions"),
        Some(Ok(it)) => {
            let mut good = 0;
            for d in it {
                let c = d.try_const().unwrap();
                s::check(c.len() == n as usize * BYTES_PER_LBA, "length of a reconstruction");
                good += (0..n as usize).all(|i| marked(&c[i * BYTES_PER_LBA..(i + 1) * BYTES_PER_LBA], tag(l + i as LbaT))) as u32;
            }
            s::check(good > 0 || nlost > g.f as u32, "the right data is among the reconstructions while no more disks than the redundancy are lost or corrupt");
        }
    }
    mem::forget(v);
    s::reach(1);
}
/// label, space map, sync, erase on a degraded array.  params: n,k,f,chunk, missing, faulted, failing
fn admin() {
    let g = Geo::params(64, 128);
    init(g.n, g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let missing = subset(g.n, s::param(4) as usize, 0);
    let mut v = raid(g, missing);
    let faulted = subset(g.n, s::param(5) as usize, missing);
    fault_all(&mut v, faulted);
    let gone = missing | faulted;
    let eio = subset(g.n, s::param(6) as usize, gone);
    sim().fate = fate_by_disk;
    let kind = s::choice(5);
    let here: Vec<usize> = (0..g.n).filter(|d| gone >> d & 1 == 0).collect();
    match kind {
        0 => {
            let r = go(v.write_label(LabelWriter::new(0), TxgT::from(5)), first);
            s::check(r == Some(Ok(())), "labels of a degraded array can be written");
            for d in &here {
                s::check(&disk_block(*d, 0)[..10] == b"BFFFS Vdev", "every disk that is there gets its label");
            }
        }
        1 => {
            let r = go(v.write_spacemap(vec![buf(&[99])], 1, 0), first);
            s::check(r == Some(Ok(())), "the space map of a degraded array can be written");
            for d in &here {
                s::check(marked(disk_block(*d, 9), 99), "every disk that is there gets the space map");
            }
            set_fail(eio);
            let dbs = DivBufShared::from(vec![0u8; BYTES_PER_LBA]);
            let r = go(v.read_spacemap(dbs.try_mut().unwrap(), 1), first);
            s::check(r == Some(if eio.count_ones() as usize == here.len() { Err(Error::EIO) } else { Ok(()) }), "the space map of a degraded array can be read");
            s::check(r != Some(Ok(())) || marked(&dbs.try_const().unwrap(), 99), "the space map is what was written");
        }
        2 => {
            let r = go(v.sync_all(None), first);
            s::check(r == Some(Ok(())), "a degraded array can be synced");
            for d in &here {
                s::check(sim().log.iter().any(|x| x.disk == *d && x.op == 2), "every disk that is there is synced");
            }
        }
        3 => {
            let z = s::choice(2) as u32;
            let r = go(v.erase_zone(z), first);
            s::check(r == Some(Ok(())), "a zone of a degraded array can be erased");
            let (a, b) = v.first_healthy_child().zone_limits(z);
            for d in &here {
                s::check(sim().erased.contains(&(*d, a, b - a)), "exactly the zone is erased on every disk");
            }
        }
        _ => {
            s::check(v.lba2zone(0) == None, "reserved");
            let (a, b) = v.zone_limits(1);
            s::check(v.lba2zone(a) == Some(1) && v.lba2zone(b - 1) == Some(1), "zone map of a degraded array");
            let st = v.status();
            s::check(st.mirrors.len() == g.n, "status");
            let lost = gone.count_ones();
            let ok = match st.health {
                Health::Online => lost == 0,
                Health::Degraded(d) => lost > 0 && lost <= g.f as u32 && u8::from(d) as u32 == lost,
                Health::Faulted(_) => lost > g.f as u32,
                _ => false,
            };
            s::check(ok, "reported health");
            for d in 0..g.n {
                s::check((st.mirrors[d].health == Health::Online) == (gone >> d & 1 == 0), "reported health of the disks");
            }
        }
    }
    s::check(sim().log.iter().all(|x| gone >> x.disk & 1 == 0), "disks that are gone are left alone");
    mem::forget(v);
    s::reach(1);
}
/// Rebuilding one disk of a mirror, zone by zone.  params: n,k,f,chunk, longest write, zone, 1: open zone
fn rebuild() {
    let g = Geo::params(64, 128);
    let j = s::choice(g.n as u64) as usize;
    init(2 * g.n, g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    #[cfg(not(feature = "native"))]
    isal::MARKS_ONLY.store(true, Ordering::Relaxed);
    let children = (0..g.n).map(|i| Child::present(mirror(2 * i, g.size, g.lpz, &[0, if i == j { 2 } else { 0 }]))).collect::<Vec<_>>();
    let v = VdevRaid::new(g.chunk, g.k, g.f, Uuid::from_uuid(uuid::Uuid::from_u128(0x3000)), LayoutAlgorithm::PrimeS, children.into_boxed_slice());
    let z = s::param(5) as ZoneT;
    let (base, _) = v.zone_limits(z);
    go(v.open_zone(z), first);
    let n = 1 + s::choice(s::param(4));
    s::check(go(v.write_at(data(0, n), z, base), first) == Some(Ok(())), "write");
    let lbas = if s::param(6) == 1 {
        NonZeroU64::new(n)
    } else {
        s::check(go(v.finish_zone(z), first) == Some(Ok(())), "finish");
        None
    };
    s::check(sim().log.iter().all(|x| x.disk != 2 * j + 1), "the disk being rebuilt gets no other writes");
    // what the stripes that have been written hold on this disk (leading padding of the zone doesn't matter)
    let stripes = if s::param(6) == 1 { n / g.stripe() } else { n.div_ceil(g.stripe()) };
    let (c0, c1) = (base / g.chunk, base / g.chunk + stripes * g.m() as u64);
    let w: Vec<(u64, u64)> = if stripes == 0 { vec![] } else { v.inner.locator.iter(ChunkId::Data(c0), ChunkId::Data(c1)).filter(|(_, l)| l.disk as usize == j).map(|(_, l)| (l.offset * g.chunk, g.chunk)).collect() };
    let r = go(v.repair_mirror_zone(j, z, lbas), first);
    s::check(r == Some(Ok(())), "rebuilding succeeds");
    for (l, n) in w {
        for x in l..l + n {
            s::check(disk_block(2 * j, x) == disk_block(2 * j + 1, x), "the rebuilt disk holds everything written to the zone");
        }
    }
    let (da, db) = v.first_healthy_child().zone_limits(z);
    s::check(sim().log.iter().all(|x| x.disk != 2 * j + 1 || x.lba >= da && x.lba + x.lbas <= db), "rebuilding stays in the zone");
    mem::forget(v);
    s::reach(1);
}
/// The array is reassembled from the labels of whatever disks are there.  params: n,k,f,chunk,missing
fn open() {
    let g = Geo::params(64, 64);
    init(g.n, g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let v = raid(g, 0);
    let (base, _) = v.zone_limits(0);
    go(v.open_zone(0), first);
    let total = 2 * g.stripe() + 1;
    s::check(go(v.write_at(data(0, total), 0, base), first) == Some(Ok(())), "write");
    let (pad, f) = v.flush_zone(0);
    go(f, first);
    let which = s::choice(2) as u32;
    s::check(go(v.write_label(LabelWriter::new(which), TxgT::from(3)), first) == Some(Ok(())), "label");
    let gone = subset(g.n, s::param(4) as usize, 0);
    let rot = s::choice(g.n as u64) as usize;
    let mut mirrors = BTreeMap::new();
    let mut label: Option<Label> = None;
    for k in 0..g.n {
        let i = (k + rot) % g.n;
        if gone >> i & 1 == 1 {
            continue;
        }
        let l0 = which as u64 * LABEL_LBAS;
        let raw: Vec<u8> = (0..LABEL_LBAS).flat_map(|l| disk_block(i, l0 + l).to_vec()).collect();
        let mut r = LabelReader::new(raw).unwrap();
        let vb = crate::vdev_block::vh_disk::reopen(i, &mut r, g.size, g.lpz, 3).unwrap();
        let (m, mut r) = crate::mirror::vh_disk::open_one(vb, r);
        s::check(m.uuid() == child_uuid(&v, i), "mirror");
        match r.deserialize::<crate::raid::Label>() {
            Ok(crate::raid::Label::Raid(l)) => label = Some(l),
            _ => s::check(false, "the label tells the kind of array"),
        }
        mirrors.insert(m.uuid(), m);
    }
    let w = VdevRaid::open(label.unwrap(), mirrors);
    s::check(w.uuid() == v.uuid() && w.size() == v.size() && w.zones() == v.zones() && w.zone_limits(0) == v.zone_limits(0), "same array");
    for i in 0..g.n {
        s::check(child_uuid(&w, i) == child_uuid(&v, i) && w.inner.children[i].is_present() == (gone >> i & 1 == 0), "disks keep their places");
    }
    s::check(go(w.reopen_zone(0, total + pad), first) == Some(Ok(())), "zone is reopened");
    read_check(&w, base, 0, total, true);
    mem::forget((v, w));
    s::reach(1);
}
/// fault, restore: health and reads follow.  params: n,k,f,chunk,steps
fn health() {
    let g = Geo::params(64, 64);
    init(g.n, g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let mut v = raid(g, 0);
    let (base, _) = v.zone_limits(0);
    go(v.open_zone(0), first);
    let total = 2 * g.stripe();
    s::check(go(v.write_at(data(0, total), 0, base), first) == Some(Ok(())), "write");
    let mut gone = vec![false; g.n];
    let mut leaf_gone = vec![false; g.n];
    let max = s::param(4);
    let who = v.uuid;
    s::check(v.fault(who) == Err(Error::EINVAL), "the array itself can't be faulted");
    s::check(v.fault(Uuid::from_uuid(uuid::Uuid::from_u128(0x77))) == Err(Error::ENOENT), "unknown device");
    for _ in 0..max {
        let i = s::choice(g.n as u64) as usize;
        if s::choice(2) == 0 {
            let u = if s::choice(2) == 0 { child_uuid(&v, i) } else { Uuid::from_uuid(uuid::Uuid::from_u128(0x1000 + i as u128)) };
            let leaf = u != child_uuid(&v, i);
            let r = v.fault(u);
            s::check(r == Ok(()) || leaf && gone[i] && r == Err(Error::ENOENT), "fault");
            gone[i] = true;
            leaf_gone[i] |= leaf;
        } else {
            // a mirror whose only disk is faulted can't be restored
            s::assume(!leaf_gone[i]);
            s::check(v.restore(i) == Ok(()), "restore");
            gone[i] = false;
        }
        for k in 0..g.n {
            s::check(v.inner.children[k].is_present() != gone[k], "disks faulted are out of service, the others in service");
        }
        let lost = gone.iter().filter(|x| **x).count();
        let ok = match v.status().health {
            Health::Online => lost == 0,
            Health::Degraded(d) => lost > 0 && lost <= g.f as usize && u8::from(d) as usize == lost,
            Health::Faulted(_) => lost > g.f as usize,
            _ => false,
        };
        s::check(ok, "reported health");
        if lost <= g.f as usize {
            read_check(&v, base, 0, total, true);
        }
    }
    mem::forget(v);
    s::reach(1);
}
symrt::entries! {
    h_raid_rebuild => rebuild();
    h_raid_rebuild_open => rebuild();
    h_raid_zones_big => zones_big();
    h_raid_health => health();
    h_raid_open => open();
    h_raid_read => read();
    h_raid_write => write();
    h_raid_reopen => reopen();
    h_raid_zones => zones();
    h_raid_long => long();
    h_raid_admin => admin();
}
