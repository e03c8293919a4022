//! Reference implementation of the byte shuffle filter (the real crate is a SIMD version of it).
pub fn shuffle(ts: usize, src: &[u8]) -> Vec<u8> {
    let n = src.len() / ts;
    let mut v = vec![0; src.len()];
    for i in 0..n {
        for j in 0..ts {
            v[j * n + i] = src[i * ts + j];
        }
    }
    v[n * ts..].copy_from_slice(&src[n * ts..]);
    v
}
pub fn unshuffle(ts: usize, src: &[u8]) -> Vec<u8> {
    let n = src.len() / ts;
    let mut v = vec![0; src.len()];
    for i in 0..n {
        for j in 0..ts {
            v[i * ts + j] = src[j * n + i];
        }
    }
    v[n * ts..].copy_from_slice(&src[n * ts..]);
    v
}
