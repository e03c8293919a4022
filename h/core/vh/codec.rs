//! Erasure codec and scatter-gather cursor.
use super::codec::Codec;
use super::sgcursor::SGCursor;
use crate::types::{IoVec, SGList};
use divbuf::DivBufShared;
use fixedbitset::FixedBitSet;
use symrt as s;
#[cfg(not(feature = "native"))]
#[path = "isal.rs"]
mod isal;

fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    s::bytes(&mut v);
    v
}
/// any set of at most f erasures that includes a data column
fn erasures(m: u32, f: u32) -> FixedBitSet {
    let mut e = FixedBitSet::with_capacity(m as usize);
    let mut left = f;
    for i in 0..m {
        if left > 0 && s::choice(2) == 1 {
            e.insert(i as usize);
            left -= 1;
        }
    }
    e
}
fn encode(c: &Codec, len: usize, data: &[Vec<u8>], f: u32) -> Vec<Vec<u8>> {
    let mut parity: Vec<Vec<u8>> = (0..f).map(|_| vec![0xa5u8; len]).collect();
    let d: Vec<*const u8> = data.iter().map(|x| x.as_ptr()).collect();
    let mut p: Vec<*mut u8> = parity.iter_mut().map(|x| x.as_mut_ptr()).collect();
    unsafe { c.encode(len, &d, &mut p) };
    parity
}
/// encode, lose any <= f columns, decode: the data is back
fn roundtrip() {
    let (m, f, len) = (s::param(0) as u32, s::param(1) as u32, s::param(2) as usize);
    let k = m - f;
    let c = Codec::new(m, f);
    s::check(c.protection() as u32 == f && c.stripesize() as u32 == m, "reported geometry");
    let e = erasures(m, f);
    if e.count_ones(..k as usize) == 0 {
        s::reach(2);
        return;
    }
    let data: Vec<Vec<u8>> = (0..k).map(|_| bytes(len)).collect();
    let copy = data.clone();
    let parity = encode(&c, len, &data, f);
    for (a, b) in data.iter().zip(copy.iter()) {
        s::check(a == b, "encoding leaves the data alone");
    }
    let all: Vec<&Vec<u8>> = data.iter().chain(parity.iter()).collect();
    let surviving: Vec<*const u8> = (0..m as usize).filter(|i| !e.contains(*i)).take(k as usize).map(|i| all[i].as_ptr()).collect();
    let miss: Vec<usize> = (0..k as usize).filter(|i| e.contains(*i)).collect();
    let mut out: Vec<Vec<u8>> = miss.iter().map(|_| vec![0x5au8; len]).collect();
    let mut o: Vec<*mut u8> = out.iter_mut().map(|x| x.as_mut_ptr()).collect();
    unsafe { c.decode(len, &surviving, &mut o, &e) };
    for (i, x) in miss.iter().zip(out.iter()) {
        for j in 0..len {
            s::check(x[j] == data[*i][j], "decoding restores the lost data");
        }
    }
    s::reach(1);
}
/// split a buffer into non-empty segments in every way
fn segment(v: &[u8], maxseg: usize) -> SGList {
    let mut sg = SGList::new();
    let mut rest = v;
    while !rest.is_empty() {
        let n = if sg.len() + 1 == maxseg { rest.len() } else { s::pick(1, rest.len() as u64) as usize };
        let dbs = DivBufShared::from(rest[..n].to_vec());
        sg.push(dbs.try_const().unwrap());
        rest = &rest[n..];
    }
    sg
}
/// vectored and incremental encoding give the same parity as plain encoding
fn encodev() {
    let (m, f, len) = (s::param(0) as u32, s::param(1) as u32, s::param(2) as usize);
    let segs = s::param(3) as usize;
    let k = m - f;
    let c = Codec::new(m, f);
    let data: Vec<Vec<u8>> = (0..k).map(|_| bytes(len)).collect();
    let want = encode(&c, len, &data, f);
    let sgs: Vec<SGList> = data.iter().map(|d| segment(d, segs)).collect();
    let mut parity: Vec<Vec<u8>> = (0..f).map(|_| vec![0x11u8; len]).collect();
    let mut p: Vec<*mut u8> = parity.iter_mut().map(|x| x.as_mut_ptr()).collect();
    unsafe { c.encodev(len, &sgs, &mut p) };
    s::check(parity == want, "vectored encoding equals plain encoding");
    s::reach(1);
}
fn encode_update() {
    let (m, f, len) = (s::param(0) as u32, s::param(1) as u32, s::param(2) as usize);
    let k = m - f;
    let c = Codec::new(m, f);
    let data: Vec<Vec<u8>> = (0..k).map(|_| bytes(len)).collect();
    let want = encode(&c, len, &data, f);
    let mut parity: Vec<Vec<u8>> = (0..f).map(|_| vec![0u8; len]).collect();
    let mut p: Vec<*mut u8> = parity.iter_mut().map(|x| x.as_mut_ptr()).collect();
    let mut left: Vec<u32> = (0..k).collect();
    while !left.is_empty() {
        let i = left.remove(s::choice(left.len() as u64) as usize);
        unsafe { c.encode_update(len, &data[i as usize], &mut p, i) };
    }
    s::check(parity == want, "incremental encoding equals plain encoding");
    s::reach(1);
}
/// parity of a single-parity stripe is the XOR of its data
fn xor() {
    let (m, len) = (s::param(0) as u32, s::param(1) as usize);
    let c = Codec::new(m, 1);
    let data: Vec<Vec<u8>> = (0..m - 1).map(|_| bytes(len)).collect();
    let p = encode(&c, len, &data, 1);
    for j in 0..len {
        s::check(p[0][j] == data.iter().fold(0u8, |a, d| a ^ d[j]), "single parity is XOR");
    }
    s::reach(1);
}
/// a cursor yields the bytes of its list, in order, in pieces no longer than asked for
fn cursor() {
    let total = s::param(0) as usize;
    let segs = s::param(1) as usize;
    let v = bytes(total);
    let sg = segment(&v, segs);
    let mut bounds = vec![];
    let mut acc = 0;
    for b in sg.iter() {
        acc += b.len();
        bounds.push(acc);
    }
    let mut c = SGCursor::from(&sg);
    let mut pos = 0;
    while pos < total {
        let next_bound = *bounds.iter().find(|b| **b > pos).unwrap();
        s::check(c.peek_len() == next_bound - pos, "peek_len is the length of the next contiguous segment");
        // ask for 1 ..= total+1 bytes, or everything
        let max = match s::choice(total as u64 + 2) {
            0 => usize::MAX,
            x => x as usize,
        };
        let want = max.min(next_bound - pos);
        match c.next(max) {
            None => s::check(false, "cursor ended early"),
            Some(iov) => {
                s::check(iov.len() == want, "length of the segment");
                s::check(&iov[..] == &v[pos..pos + iov.len()], "content of the segment");
                pos += iov.len();
            }
        }
    }
    s::check(pos == total, "cursor yields no more than its list");
    s::check(c.peek_len() == 0 && c.next(s::choice(3) as usize).is_none() && c.next(usize::MAX).is_none(), "cursor is exhausted");
    s::reach(1);
}
symrt::entries! {
    h_codec_rt => roundtrip();
    h_codec_v => encodev();
    h_codec_update => encode_update();
    h_codec_xor => xor();
    h_sgcursor => cursor();
}
