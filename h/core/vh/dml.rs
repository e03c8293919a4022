//! Compression
use super::*;
use symrt as s;

fn mode(i: u64, ts: u8) -> Compression {
    match i {
        0 => Compression::None,
        1 => Compression::LZ4(NonZeroU8::new(ts)),
        _ => Compression::Zstd(NonZeroU8::new(ts)),
    }
}
/// lengths in bytes, number of symbolic bytes, distance between them
fn rt() {
    let n = s::param(0) as usize;
    let mut v = vec![7u8; n];
    let k = s::param(1) as usize;
    for i in 0..k {
        v[(i * 1021) % n] = s::u8();
    }
    // how well the abstract codec compresses
    let extra = [0, 4000, 4070, 4082, 4083, 4084, 4090, 8170, 8178, 8190, 9000][s::choice(11) as usize];
    zstd::zcodec::EXTRA.store(extra, std::sync::atomic::Ordering::Relaxed);
    let want = mode(s::choice(3), s::param(2) as u8);
    let dbs = DivBufShared::from(v.clone());
    let (out, got) = want.compress(dbs.try_const().unwrap());
    s::check(got == want || got == Compression::None, "the compression used is the one requested, or none");
    s::check(out.len() <= n, "compression doesn't enlarge");
    if got == Compression::None {
        s::check(out[..] == v[..], "uncompressed data is kept");
        s::check(!got.is_compressed(), "no compression");
        s::reach(1);
    } else {
        s::check(out.len().div_ceil(BYTES_PER_LBA) < n.div_ceil(BYTES_PER_LBA), "compression is only used if it saves a block");
        s::check(got.is_compressed() && got.shuffle() == NonZeroU8::new(s::param(2) as u8), "kind of compression");
        let back = Compression::decompress(&out[..], n as u32);
        s::check(back.is_ok(), "compressed data is decompressed");
        s::check(back.unwrap().try_const().unwrap()[..] == v[..], "decompression yields the original");
        s::reach(2);
    }
}
/// arbitrary tag
fn tag() {
    let mut v = vec![b'Z', 2, 0, 0, 0, 1, 0, 0, 0, 9];
    v[0] = s::u8();
    let mut t = [0u8; 5];
    s::bytes(&mut t);
    if t[4] != 0 {
        t[4] = 1 + s::choice(2) as u8;
    }
    v.extend(t);
    match Compression::decompress(&v, 2) {
        Ok(d) => {
            s::check(d.try_const().unwrap()[..] == [9, 9], "content");
            s::check(u32::from_le_bytes([t[0], t[1], t[2], t[3]]) < 2, "only known codecs are accepted");
            s::reach(1);
        }
        Err(e) => {
            s::check(e == Error::EINTEGRITY, "error");
            s::reach(2);
        }
    }
}
symrt::entries! {
    h_dml_rt => rt();
    h_dml_tag => tag();
}
