//! Labels: what is written is read back, and damage is noticed.
use super::*;
use symrt as s;

fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    s::bytes(&mut v);
    v
}
fn build(n: usize) -> (Vec<Vec<u8>>, Vec<u64>, Vec<u8>) {
    let mut w = LabelWriter::new(s::choice(2) as u32);
    let (mut vs, mut us) = (vec![], vec![]);
    for _ in 0..n {
        let v = bytes(s::choice(3) as usize);
        let u = s::u64();
        w.serialize(&v).unwrap();
        w.serialize(&u).unwrap();
        vs.push(v);
        us.push(u);
    }
    let b: Vec<u8> = w.into_sglist().iter().flat_map(|b| b[..].to_vec()).collect();
    (vs, us, b)
}
fn rt() {
    let (vs, us, mut b) = build(s::param(0) as usize);
    let n = b.len();
    s::check(n == 32 + vs.iter().map(|v| v.len() + 12).sum::<usize>(), "size of a label");
    // the rest of the label area is padding of any content
    b.extend(bytes(s::choice(3) as usize));
    let mut r = LabelReader::new(b).unwrap();
    for i in (0..vs.len()).rev() {
        s::check(r.deserialize::<u64>().ok() == Some(us[i]), "what is read is what was written");
        s::check(r.deserialize::<Vec<u8>>().ok().as_ref() == Some(&vs[i]), "what is read is what was written");
    }
    s::reach(1);
}
/// one damaged byte
fn damage() {
    let (_, _, mut b) = build(s::param(0) as usize);
    let i = s::choice(b.len() as u64) as usize;
    // (whether a changed length is noticed depends on the strength of the hash)
    if (24..32).contains(&i) {
        return;
    }
    let x = s::u8();
    s::assume(x != b[i]);
    b[i] = x;
    if s::bool() {
        b.extend(bytes(4));
    }
    let r = LabelReader::new(b);
    s::check(r.is_err(), "a damaged label is refused");
    s::reach(1);
}
/// a label cut off
fn cut() {
    let (_, _, b) = build(s::param(0) as usize);
    let i = s::choice(b.len() as u64) as usize;
    s::check(LabelReader::new(b[..i].to_vec()).is_err(), "an incomplete label is refused");
    s::reach(1);
}
/// arbitrary content
fn garbage() {
    let mut b = bytes(s::param(0) as usize);
    if s::param(1) == 1 {
        b[..16].copy_from_slice(MAGIC);
    }
    let magic = b.len() >= 16 && b[..16] == MAGIC[..];
    let len = if b.len() >= 32 { BigEndian::read_u64(&b[24..32]) } else { u64::MAX };
    let n = b.len() as u64;
    match LabelReader::new(b) {
        Ok(_) => {
            s::check(magic && n >= 32 && len <= n - 32, "only complete labels are accepted");
            s::reach(1);
        }
        Err(e) => {
            s::check(e == Error::EINVAL || e == Error::EINTEGRITY, "the error tells that the label is bad");
            s::check(magic || e == Error::EINVAL, "without the magic number there is no label");
            s::reach(2);
        }
    }
}
fn place() {
    let l = s::u32();
    s::assume(l < 2);
    s::check(LabelReader::lba(l) == LabelWriter::new(l).lba() && LabelReader::lba(l) == l as u64 * 4, "place of a label");
    let z = s::u32() as u64;
    let n = spacemap_space(z);
    s::check(n * SPACEMAP_ZONES_PER_LBA as u64 >= z && (n == 0 || (n - 1) * (SPACEMAP_ZONES_PER_LBA as u64) < z), "size of a spacemap");
    s::reach(1);
}
symrt::entries! {
    h_label_rt => rt();
    h_label_damage => damage();
    h_label_cut => cut();
    h_label_garbage => garbage();
    h_label_place => place();
}
