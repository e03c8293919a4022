//! DDML: records on simulated disks
use super::*;
use crate::mirror::vh_disk::{fate_by_disk, set_fail};
use crate::pool::vh_disk::pool;
use crate::cluster::Cluster;
use crate::raid::vh_disk::*;
use crate::vdev_file::vh_disk::*;
use divbuf::DivBuf;
use std::num::NonZeroU8;
use symrt as s;

const LPZ: u64 = 32;
fn comp(i: u64) -> Compression {
    match i {
        0 => Compression::None,
        1 => Compression::LZ4(NonZeroU8::new(0)),
        2 => Compression::Zstd(NonZeroU8::new(4)),
        _ => Compression::Zstd(NonZeroU8::new(0)),
    }
}
fn zextra(x: usize) { zstd::zcodec::EXTRA.store(x, std::sync::atomic::Ordering::Relaxed) }
fn record(tag: u8, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    let n = len.min(40);
    for (i, b) in v[..n].iter_mut().enumerate() {
        *b = tag.wrapping_mul(31).wrapping_add(i as u8 * 3);
    }
    // something in every block
    for i in (0..len).step_by(1000) {
        v[i] = tag ^ (i / 1000) as u8;
    }
    v
}
/// params 0-3: n, k, f, chunk, or 1, disks of the mirror, 0, 0
fn ddml(g: Geo, cap: usize) -> DDML {
    let r = if g.n == 1 { null(0, g.k as usize, g.size, g.lpz) } else { make(g) };
    all_bytes();
    metrohash::STRONG.store(true, std::sync::atomic::Ordering::Relaxed);
    DDML::create(pool(vec![Cluster::create(r)]), Arc::new(Mutex::new(Cache::with_capacity(cap))))
}
fn disks(g: Geo) -> usize { if g.n == 1 { g.k as usize } else { g.n } }
/// how many disks may be lost
fn redundancy(g: Geo) -> usize { if g.n == 1 { g.k as usize - 1 } else { g.f as usize } }
fn get(d: &DDML, drp: &DRP, how: u64, txg: u32) -> Result<Vec<u8>> {
    let d = unsafe { &*(d as *const DDML) };
    let r = match how {
        0 => go(d.get_direct::<DivBufShared>(drp), first).map(|r| r.map(|b| b.try_const().unwrap()[..].to_vec())),
        1 => go(d.get::<DivBufShared, DivBuf>(drp), first).map(|r| r.map(|b| b[..].to_vec())),
        _ => go(d.pop::<DivBufShared, DivBuf>(drp, TxgT::from(txg)), first).map(|r| r.map(|b| b.try_const().unwrap()[..].to_vec())),
    };
    s::check(r.is_some(), "reading completes");
    r.unwrap()
}
/// A record is written, disks are damaged, the record is read.  params: geometry, compression, length, damaged disks, failing disks
fn damage() {
    let g = params(LPZ, LPZ);
    init(disks(g), g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let d = ddml(g, 1 << 20);
    let len = s::param(5) as usize;
    zextra([0, 1, 4082, 4083, 4090][s::choice(5) as usize]);
    // other records before and after
    let mut recs = vec![];
    for (i, l) in [100, len, 5000].into_iter().enumerate() {
        let c = if i == 1 { comp(s::param(4)) } else { Compression::None };
        let v = record(7 + i as u8, l);
        let r = go(d.put(DivBufShared::from(v.clone()), c, TxgT::from(1)), first);
        s::check(matches!(r, Some(Ok(_))), "a record is written");
        recs.push((r.unwrap().unwrap(), v));
    }
    s::check(go(d.flush(0), first) == Some(Ok(())), "flush");
    let drp = recs[1].0;
    if drp.is_compressed() {
        s::reach(2);
    }
    d.evict(&drp);
    // damage
    let (dmax, emax) = (s::param(6) as usize, s::param(7) as usize);
    let mut left = dmax;
    let (mut hurt, mut fail) = (0u32, 0u32);
    for i in 0..disks(g) {
        if left > 0 && s::choice(2) == 1 {
            left -= 1;
            hurt |= 1 << i;
            let what = s::choice(3);
            for b in 10 * BYTES_PER_LBA..sim().data[i].len() {
                // one bit, the first bytes of each block, or everything
                let o = b % BYTES_PER_LBA;
                if what == 0 && o == 5 || what == 1 && o < 8 || what == 2 && o % 3 == 0 {
                    sim().data[i][b] ^= (0x10 + i as u8).wrapping_add(o as u8) | 1;
                }
            }
        }
    }
    left = emax;
    for i in 0..disks(g) {
        if left > 0 && hurt >> i & 1 == 0 && s::choice(2) == 1 {
            left -= 1;
            fail |= 1 << i;
        }
    }
    set_fail(fail);
    sim().fate = fate_by_disk;
    let r = get(&d, &drp, s::choice(3), 1);
    let lost = (hurt | fail).count_ones() as usize;
    match r {
        Ok(v) => s::check(v == recs[1].1, "what is read is what was written"),
        Err(e) => {
            s::check(lost > redundancy(g), "a record can be read while no more disks than the redundancy are damaged");
            s::check(e == Error::EIO || e == Error::EINTEGRITY || e == Error::ENXIO, "error");
            s::reach(3);
        }
    }
    std::mem::forget(d);
    s::reach(1);
}
/// Histories of put, get, pop, delete and evict.  params: geometry, operations, cache size, script
fn history() {
    let g = params(LPZ, LPZ * 2);
    init(disks(g), g.size, |d, l| 1 + l as u8 + 3 * d as u8);
    let d = ddml(g, s::param(5) as usize);
    zextra(0);
    let mut live: Vec<(DRP, Vec<u8>)> = vec![];
    let mut tag = 1u8;
    for step in 0..s::param(4) {
        let sc = s::param(6) >> (4 * step) & 15;
        let op = if sc != 0 { sc - 1 } else { s::choice(4 + 5 * live.len() as u64) };
        if op < 3 {
            tag += 1;
            let v = record(tag, [100, 5000, 9000][op as usize]);
            let r = go(d.put(DivBufShared::from(v.clone()), comp(op), TxgT::from(1)), first);
            s::check(matches!(r, Some(Ok(_))), "a record is written");
            live.push((r.unwrap().unwrap(), v));
        } else if op == 3 {
            s::check(go(d.flush(0), first) == Some(Ok(())) && go(d.sync_all(TxgT::from(1)), first) == Some(Ok(())), "flush");
        } else {
            let i = (op as usize - 4) / 5;
            match (op - 4) % 5 {
                2 => {
                    let (drp, v) = live.remove(i);
                    s::check(get(&d, &drp, 2, 1) == Ok(v), "a popped record is what was put");
                }
                3 => {
                    let (drp, _) = live.remove(i);
                    s::check(go(d.delete(&drp, TxgT::from(1)), first) == Some(Ok(())), "delete");
                    s::check(d.cache.lock().unwrap().get::<DivBuf>(&Key::PBA(drp.pba())).is_none(), "a deleted record isn't cached");
                }
                4 => d.evict(&live[i].0),
                how => s::check(get(&d, &live[i].0, how, 1).as_ref() == Ok(&live[i].1), "a record read is what was put"),
            }
        }
        let used = go(d.used(), first).unwrap();
        s::check(used == live.iter().map(|x| x.0.asize()).sum::<u64>(), "used space is that of the live records");
    }
    for (drp, v) in &live {
        s::check(get(&d, drp, 1, 1).as_ref() == Ok(v), "a record read is what was put");
        s::check(get(&d, drp, 0, 1).as_ref() == Ok(v), "a record read is what was put");
    }
    std::mem::forget(d);
    s::reach(1);
}
symrt::entries! {
    h_ddml_damage => damage();
    h_ddml_history => history();
}
