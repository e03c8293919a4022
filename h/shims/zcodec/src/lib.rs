//! Abstract lossless compressor behind the lz4_flex and zstd stand-ins.  Output: magic, length (u32), bytes kept
//! (u32), kept bytes; the bytes dropped are a run of the buffer's last byte.  How much of the run is dropped is the
//! caller's `level` so that harnesses can choose any output size.
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
pub static EXTRA: AtomicUsize = AtomicUsize::new(0);
pub fn compress(magic: u8, src: &[u8]) -> Vec<u8> {
    let mut keep = src.len();
    while keep > 1 && src[keep - 2] == src[src.len() - 1] {
        keep -= 1;
    }
    let keep = (keep + EXTRA.load(Relaxed)).min(src.len());
    let mut v = Vec::with_capacity(keep + 16);
    v.push(magic);
    v.extend_from_slice(&(src.len() as u32).to_le_bytes());
    v.extend_from_slice(&(keep as u32).to_le_bytes());
    v.extend_from_slice(&src[..keep]);
    v
}
pub fn decompress(magic: u8, src: &[u8], cap: usize) -> Option<Vec<u8>> {
    if src.len() < 9 || src[0] != magic {
        return None;
    }
    let n = u32::from_le_bytes([src[1], src[2], src[3], src[4]]) as usize;
    let keep = u32::from_le_bytes([src[5], src[6], src[7], src[8]]) as usize;
    if n > cap || keep > n || src.len() != 9 + keep || (keep == 0 && n > 0) {
        return None;
    }
    let mut v = src[9..].to_vec();
    if keep > 0 {
        let l = src[8 + keep];
        v.resize(n, l);
    }
    Some(v)
}
