//! Scatter-gather helpers, ranges, checksums.
use super::*;
use divbuf::DivBufShared;
use std::hash::Hasher;
use std::ops::Bound;
use symrt as s;

const LENS: [usize; 8] = [1, 100, 4095, 4096, 4097, 5000, 8192, 12287];

/// buffer number i: a fixed pattern with symbolic bytes at the interesting positions
fn buf(i: usize, len: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..len).map(|j| (j * 7 + i * 31 + 1) as u8).collect();
    for p in [0, len / 2, len & !4095usize, len - 1] {
        if p < len {
            v[p] = s::u8();
        }
    }
    v
}
/// padding a list to whole blocks keeps its bytes in order and adds less than a block of zeros
fn pad() {
    let n = 1 + s::choice(s::param(0)) as usize;
    let mut flat: Vec<u8> = vec![];
    let mut list = SGList::new();
    let mut partial = 0usize;
    for i in 0..n {
        let len = LENS[s::choice(s::param(1)) as usize];
        // what the function is for: after a partial block come only partial blocks, until the block is full
        if partial != 0 && (len % BYTES_PER_LBA == 0 || len > BYTES_PER_LBA) {
            s::kill();
        }
        partial = (partial + len) % BYTES_PER_LBA;
        let v = buf(i, len);
        flat.extend_from_slice(&v);
        list.push(DivBufShared::from(v).try_const().unwrap());
    }
    let out = copy_and_pad_sglist(list);
    let mut all: Vec<u8> = vec![];
    for b in &out {
        s::check(b.len() % BYTES_PER_LBA == 0, "every buffer is a whole number of blocks");
        s::check(!b.is_empty(), "no empty buffer");
        all.extend_from_slice(&b[..]);
    }
    s::check(all.len() == flat.len().div_ceil(BYTES_PER_LBA) * BYTES_PER_LBA, "padded to the next block");
    s::check(sglist_len(&out) == all.len(), "length of the list");
    s::check(all[..flat.len()] == flat[..], "the bytes are kept in order");
    s::check(all[flat.len()..].iter().fold(0, |a, b| a | *b) == 0, "the padding is zero");
    s::reach(1);
}
fn zeros() {
    let len = s::range(s::param(0), s::param(1)) as usize;
    let l = zero_sglist(len);
    s::check(sglist_len(&l) == len, "a list of zeros has the requested length");
    let mut total = 0usize;
    for b in &l {
        total += b.len();
        s::check(b.len() <= ZERO_REGION_LEN, "buffers of the zero region");
        if s::param(2) == 1 {
            for x in b.iter() {
                s::check(*x == 0, "zeros");
            }
        }
    }
    s::check(total == len, "lengths add up");
    s::reach(1);
}
/// remembers what it is fed
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    fn finish(&self) -> u64 { 0 }
}
fn checksum() {
    let n = s::param(0) as usize;
    let data: Vec<u8> = (0..n).map(|_| s::u8()).collect();
    let mut segs: Vec<Vec<u8>> = vec![vec![]];
    for (i, b) in data.iter().enumerate() {
        if i > 0 && s::choice(2) == 1 {
            segs.push(vec![]);
            if s::choice(2) == 1 {
                segs.push(vec![]);
            }
        }
        segs.last_mut().unwrap().push(*b);
    }
    let mut r = Rec(vec![]);
    checksum_sglist(&segs, &mut r);
    s::check(r.0 == data, "the hasher sees exactly the bytes of the list");
    let mut r = Rec(vec![]);
    checksum_iovec(&data, &mut r);
    s::check(r.0 == data, "the hasher sees exactly the bytes of the buffer");
    let refs: Vec<&[u8]> = segs.iter().map(|v| &v[..]).collect();
    s::check(sglist_len(&refs) == n, "length of a list");
    s::reach(1);
}
fn bound(v: u32) -> Bound<u32> {
    match s::choice(3) {
        0 => Bound::Included(v),
        1 => Bound::Excluded(v),
        _ => Bound::Unbounded,
    }
}
/// a range is empty exactly if nothing between its ends is in it (the elements need not be integers)
fn empty() {
    let (lo, hi) = (bound(s::u32()), bound(s::u32()));
    let e = RangeBoundsExt::is_empty(&(lo, hi));
    let want = match (lo, hi) {
        (Bound::Included(a), Bound::Included(b)) => a > b,
        (Bound::Included(a), Bound::Excluded(b)) | (Bound::Excluded(a), Bound::Included(b)) | (Bound::Excluded(a), Bound::Excluded(b)) => a >= b,
        _ => false,
    };
    s::check(e == want, "is_empty");
    let x = s::u32();
    s::check(!(e & (lo, hi).contains(&x)), "an empty range contains something");
    s::reach(1);
}
symrt::entries! {
    h_util_pad => pad();
    h_util_zeros => zeros();
    h_util_sum => checksum();
    h_util_empty => empty();
}
