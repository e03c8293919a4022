//! PRIME-S declustered layout.
use super::declust::{ChunkId, Chunkloc, Locator};
use super::prime_s::PrimeS;
use symrt as s;

fn layout() -> (u64, u64, u64, PrimeS) {
    let (n, k, f) = (s::param(0), s::param(1), s::param(2));
    (n, k, f, PrimeS::new(n as i16, k as i16, f as i16))
}
/// number of the repetition: anything for which chunk addresses stay below 2^62
fn rep(d: u64) -> u64 { s::range(0, (1 << 62) / d) }

/// stripe of the repetition: all of them, or, for large arrays, a window (parameters 3 and 4)
fn pick_stripe(n: u64) -> u64 {
    match s::param(4) {
        0 => s::choice(n * (n - 1)),
        w => s::param(3) + s::choice(w),
    }
}
/// id -> location -> id, for every chunk of every stripe of every repetition
fn roundtrip() {
    let (n, k, f, l) = layout();
    let m = k - f;
    let d = n * (n - 1) * m;
    s::check(l.datachunks() == d, "number of data chunks per repetition");
    s::check(l.depth() as u64 * n == n * (n - 1) * k, "rows per repetition");
    let r = rep(d);
    let stripe = pick_stripe(n);
    for b in 0..k {
        let id = if b < m { ChunkId::Data(r * d + stripe * m + b) } else { ChunkId::Parity(r * d + stripe * m, (b - m) as i16) };
        let loc = l.id2loc(id);
        s::check(loc.disk >= 0 && (loc.disk as u64) < n, "chunk is placed on a disk of the array");
        let depth = k * (n - 1);
        s::check(loc.offset >= r * depth && loc.offset < (r + 1) * depth, "chunk is placed within its repetition");
        s::check(l.loc2id(loc) == id, "loc2id inverts id2loc");
    }
    s::reach(1);
}
/// location -> id -> location
fn roundtrip_loc() {
    let (n, k, f, l) = layout();
    let m = k - f;
    let d = n * (n - 1) * m;
    let depth = k * (n - 1);
    let r = s::range(0, (1 << 62) / (d * k));
    let off = s::choice(depth);
    for disk in 0..n {
        let loc = Chunkloc::new(disk as i16, r * depth + off);
        let id = l.loc2id(loc.clone());
        if let ChunkId::Parity(a, i) = id {
            s::check(a % m == 0, "parity chunk is named after the first chunk of its stripe");
            s::check(i >= 0 && (i as u64) < f, "parity index in range");
        }
        s::check(l.id2loc(id) == loc, "id2loc inverts loc2id");
    }
    s::reach(1);
}

/// the chunks of one stripe live on pairwise different disks
fn distinct() {
    let (n, k, f, l) = layout();
    let m = k - f;
    let d = n * (n - 1) * m;
    let r = rep(d);
    let stripe = pick_stripe(n);
    let mut seen = vec![false; n as usize];
    for b in 0..k {
        let id = if b < m { ChunkId::Data(r * d + stripe * m + b) } else { ChunkId::Parity(r * d + stripe * m, (b - m) as i16) };
        let disk = s::concretize(l.id2loc(id).disk as u64);
        s::check(disk < n, "disk of the array");
        s::check(!seen[disk as usize], "two chunks of a stripe share a disk");
        seen[disk as usize] = true;
    }
    s::check(l.protection() as u64 == f && l.stripesize() as u64 == k && l.disks() as u64 == n, "reported geometry");
    s::reach(1);
}
/// walking the chunks of two repetitions in order of their address fills every disk from its start
/// to its end without gaps, and spreads data and parity evenly
fn sequential() {
    let (n, k, f, l) = layout();
    let m = k - f;
    let d = n * (n - 1) * m;
    let depth = k * (n - 1);
    let r = s::range(0, (1 << 61) / d);
    let mut next = vec![r * depth; n as usize];
    let mut data = vec![0u64; n as usize];
    let mut parity = vec![0u64; n as usize];
    for rr in 0..2 {
        for stripe in 0..n * (n - 1) {
            for b in 0..k {
                let a = (r + rr) * d + stripe * m;
                let id = if b < m { ChunkId::Data(a + b) } else { ChunkId::Parity(a, (b - m) as i16) };
                let loc = l.id2loc(id);
                let disk = s::concretize(loc.disk as u64);
                s::check(disk < n, "disk of the array");
                s::check(loc.offset == next[disk as usize], "the next chunk of a disk follows the previous one");
                next[disk as usize] += 1;
                if b < m { data[disk as usize] += 1 } else { parity[disk as usize] += 1 }
            }
        }
        for i in 0..n as usize {
            s::check(next[i] == (r + rr + 1) * depth, "a repetition fills the same number of rows on every disk");
            s::check(parity[i] == (rr + 1) * (n - 1) * f, "parity is spread evenly");
            s::check(data[i] == (rr + 1) * (n - 1) * m, "data is spread evenly");
        }
    }
    s::reach(1);
}
/// the iterator yields exactly what id2loc says, from any start, and stops at its end
fn iterate() {
    let (n, k, f, l) = layout();
    let m = k - f;
    let d = n * (n - 1) * m;
    let r = s::range(0, (1 << 61) / d);
    let start = if s::param(6) > 0 { s::param(5) + s::choice(s::param(6)) } else { s::choice(n * (n - 1)) };
    let b0 = s::choice(k);
    let stripes = s::param(3);
    let mk = |st: u64, b: u64| {
        let a = r * d + st * m;
        if b < m { ChunkId::Data(a + b) } else { ChunkId::Parity(a, (b - m) as i16) }
    };
    // the end is a data chunk (as for all users) or the parity chunk of the last stripe
    let eb = if s::choice(2) == 0 { 0 } else { s::param(4) };
    let end = mk(start + stripes, eb);
    let mut it = l.iter(mk(start, b0), end);
    let mut st = start;
    let mut b = b0;
    while st < start + stripes || b < eb {
        let e = mk(st, b);
        match it.next() {
            None => s::check(false, "iterator ended early"),
            Some((id, loc)) => {
                s::check(id == e, "iterator yields consecutive chunks");
                s::check(loc == l.id2loc(e), "iterator's location is id2loc's");
            }
        }
        b += 1;
        if b == k {
            b = 0;
            st += 1;
        }
    }
    s::check(it.next().is_none(), "iterator stops at its end");
    s::check(it.next().is_none(), "iterator stays at its end");
    s::reach(1);
}
/// the constructor takes exactly the geometries for which the layout exists
fn ctor() {
    let n = s::pick(s::param(0), s::param(1)) as i64;
    let (ki, fi) = (s::u16() as i16, s::u16() as i16);
    let (k, f) = (ki as i64, fi as i64);
    let mut prime = n > 1;
    let mut p = 2;
    while p * p <= n {
        prime &= n % p != 0;
        p += 1;
    }
    let ok = prime && n <= 215 && (k > 1) & (k <= n) & (f > 0) & (f < k);
    if ok {
        let m = s::concretize((k - f) as u64) as i64;
        let l = PrimeS::new(n as i16, ki, fi);
        s::check(l.depth() as i64 == k * (n - 1), "rows per repetition");
        s::check(l.datachunks() as i64 == n * (n - 1) * m, "data chunks per repetition");
        s::check(l.disks() as i64 == n && l.stripesize() == ki && l.protection() == fi, "reported geometry");
        s::reach(1);
    } else {
        s::expect_panic(2);
        let _ = PrimeS::new(n as i16, ki, fi);
        s::no_panic();
        s::check(false, "an impossible geometry is accepted");
    }
}
/// number of data chunks one disk supplies for consecutive reads
fn parallel() {
    let (n, k, f, l) = layout();
    let m = k - f;
    let d = n * (n - 1) * m;
    let start = s::choice(d);
    let cnt = s::param(3);
    let mut per = vec![0usize; n as usize];
    for c in 0..cnt {
        per[l.id2loc(ChunkId::Data(start + c)).disk as usize] += 1;
    }
    let p = l.parallel_read_count(cnt as usize);
    for x in per {
        s::check(x <= p, "a disk supplies more chunks than parallel_read_count says");
    }
    s::reach(1);
}
symrt::entries! {
    h_prime_rt => roundtrip();
    h_prime_rtloc => roundtrip_loc();
    h_prime_distinct => distinct();
    h_prime_seq => sequential();
    h_prime_iter => iterate();
    h_prime_ctor => ctor();
    h_prime_parallel => parallel();
}
