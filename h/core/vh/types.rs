//! Encodings and order of addresses, transaction numbers and identifiers.
use super::*;
use speedy::LittleEndian;
use symrt as s;

fn rt<T>(x: T, n: usize) -> Vec<u8>
where
    T: Writable<LittleEndian> + for<'a> Readable<'a, LittleEndian> + PartialEq,
{
    let v = x.write_to_vec().unwrap();
    s::check(v.len() == n, "size of the encoding");
    s::check(Writable::<LittleEndian>::bytes_needed(&x).unwrap() == n, "announced size of the encoding");
    s::check(T::read_from_buffer(&v).unwrap() == x, "decoding yields the encoded value");
    s::check(T::read_from_buffer(&v[..n - 1]).is_err(), "a truncated encoding is refused");
    v
}
fn le(v: &[u8]) -> u64 { v.iter().rev().fold(0, |a, b| a << 8 | *b as u64) }

fn codec() {
    match s::param(0) {
        0 => {
            let (c, l) = (s::u16(), s::u64());
            let v = rt(PBA::new(c, l), PBA::TYPICAL_SIZE);
            s::check(PBA::TYPICAL_SIZE == 10, "10 bytes");
            s::check(le(&v[..2]) == c as u64 && le(&v[2..]) == l, "cluster, then LBA, little endian");
        }
        1 => {
            let r = s::u64();
            let v = rt(RID(r), RID::TYPICAL_SIZE);
            s::check(v.len() == 8 && le(&v) == r, "little endian");
        }
        2 => {
            let t = s::u32();
            let v = rt(TxgT(t), 4);
            s::check(le(&v) == t as u64, "little endian");
            s::check(u32::from(TxgT::from(t)) == t, "conversion");
        }
        _ => {
            let mut b = [0u8; 16];
            s::bytes(&mut b);
            let v = rt(Uuid::from_uuid(uuid::Uuid::from_bytes(b)), 16);
            s::check(v[..] == b[..], "the bytes of the UUID");
        }
    }
    s::reach(1);
}
fn order() {
    let (a, b) = (PBA::new(s::u16(), s::u64()), PBA::new(s::u16(), s::u64()));
    let want = if a.cluster != b.cluster { a.cluster < b.cluster } else { a.lba < b.lba };
    s::check((a < b) == want, "addresses are ordered by cluster, then LBA");
    s::check((a == b) == (a.cluster == b.cluster && a.lba == b.lba), "equality of addresses");
    s::check((a.cmp(&b) == ::std::cmp::Ordering::Less) == want, "order of addresses");
    let (x, y) = (s::u64(), s::u64());
    s::check((RID(x) < RID(y)) == (x < y) && (RID(x) == RID(y)) == (x == y), "record ids are ordered as numbers");
    let (x, y) = (s::u32(), s::u32());
    s::check((TxgT(x) < TxgT(y)) == (x < y) && (TxgT(x) == TxgT(y)) == (x == y), "transactions are ordered as numbers");
    s::reach(1);
}
fn txg() {
    let (x, y) = (s::u32(), s::u32());
    s::check(TxgT(x).checked_add(TxgT(y)).map(|t| t.0) == x.checked_add(y), "checked addition");
    match s::choice(3) {
        0 => {
            if x.checked_add(y).is_none() {
                s::expect_panic(2);
            }
            let t = TxgT(x) + y;
            s::check(x.checked_add(y) == Some(t.0), "addition doesn't wrap");
        }
        1 => {
            if x.checked_add(y).is_none() {
                s::expect_panic(3);
            }
            let mut t = TxgT(x);
            t += y;
            s::check(x.checked_add(y) == Some(t.0), "addition doesn't wrap");
        }
        _ => {
            if x < y {
                s::expect_panic(4);
            }
            let t = TxgT(x) - y;
            s::check(x.checked_sub(y) == Some(t.0), "subtraction doesn't wrap");
        }
    }
    s::reach(1);
}
fn error() {
    let n = s::u16() as i16;
    let e = Error::read_from_buffer(&n.to_le_bytes()).unwrap();
    let known = Error::from_i32(n as i32);
    s::check(e == known.unwrap_or(Error::EUNKNOWN), "unknown numbers become EUNKNOWN");
    let v = rt(e, 2);
    if known.is_some() {
        s::check(v[..] == n.to_le_bytes()[..], "the number of an error is kept");
        s::check(Error::from(io::Error::from_raw_os_error(n as i32)) == e, "errors of the operating system keep their number");
        if e != Error::EUNKNOWN {
            s::check(i32::from(e) == n as i32, "errors keep their number");
        }
        s::reach(1);
    } else {
        s::check(Error::from(io::Error::from_raw_os_error(n as i32)) == Error::EUNKNOWN, "unknown errors of the operating system");
        s::reach(2);
    }
}
/// canonical form of a UUID
fn uuid_text() {
    let mut b = [0u8; 16];
    for i in 0..s::param(0) as usize {
        b[(i * 5) % 16] = s::u8();
    }
    let mut t = String::new();
    let upper = s::bool();
    for (i, x) in b.iter().enumerate() {
        if s::param(1) == 1 && [4, 6, 8, 10].contains(&i) {
            t.push('-');
        }
        for d in [x >> 4, x & 15] {
            t.push((if d < 10 { b'0' + d } else if upper { b'A' + d - 10 } else { b'a' + d - 10 }) as char);
        }
    }
    let u = Uuid::parse_str(&t);
    s::check(u.is_ok(), "a UUID is parsed");
    let u = u.unwrap();
    s::check(u == Uuid::from_uuid(uuid::Uuid::from_bytes(b)), "a UUID's text denotes it");
    s::check(t.parse::<Uuid>().ok() == Some(u), "both ways of parsing agree");
    s::reach(1);
}
symrt::entries! {
    h_types_codec => codec();
    h_types_order => order();
    h_types_txg => txg();
    h_types_error => error();
    h_types_uuid => uuid_text();
}
