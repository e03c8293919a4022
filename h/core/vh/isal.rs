//! Reference implementation of the ISA-L entry points (its own "base" C code, transliterated), for
//! the symbolic build: the system library is machine code without source.  The replay links the
//! real library.
use std::os::raw::*;
fn dbl(a: u8) -> u8 { (a << 1) ^ (0x1d & (0u8.wrapping_sub(a >> 7))) }
/// multiplication by a (concrete) constant, bit by bit
fn mul(c: u8, x: u8) -> u8 {
    let mut r = 0u8;
    let mut p = c;
    let mut i = 0;
    while i < 8 {
        r ^= 0u8.wrapping_sub((x >> i) & 1) & p;
        p = dbl(p);
        i += 1;
    }
    r
}
fn inv(a: u8) -> u8 {
    if a == 0 {
        return 0;
    }
    let mut r = 1u8;
    for _ in 0..254 {
        r = mul(a, r);
    }
    r
}
#[no_mangle]
unsafe extern "C" fn gf_gen_rs_matrix(a: *mut c_uchar, m: c_int, k: c_int) {
    let (m, k) = (m as usize, k as usize);
    for i in 0..m * k { *a.add(i) = 0; }
    for i in 0..k { *a.add(k * i + i) = 1; }
    let mut gen = 1u8;
    for i in k..m {
        let mut p = 1u8;
        for j in 0..k {
            *a.add(k * i + j) = p;
            p = mul(p, gen);
        }
        gen = dbl(gen);
    }
}
#[no_mangle]
unsafe extern "C" fn gf_gen_cauchy1_matrix(a: *mut c_uchar, m: c_int, k: c_int) {
    let (m, k) = (m as usize, k as usize);
    for i in 0..k * k { *a.add(i) = 0; }
    for i in 0..k { *a.add(k * i + i) = 1; }
    for i in k..m {
        for j in 0..k {
            *a.add(k * i + j) = inv((i ^ j) as u8);
        }
    }
}
#[no_mangle]
unsafe extern "C" fn gf_invert_matrix(inp: *mut c_uchar, out: *mut c_uchar, n: c_int) -> c_int {
    let n = n as usize;
    for i in 0..n * n { *out.add(i) = 0; }
    for i in 0..n { *out.add(i * n + i) = 1; }
    for i in 0..n {
        if *inp.add(i * n + i) == 0 {
            let mut j = i + 1;
            while j < n && *inp.add(j * n + i) == 0 { j += 1; }
            if j == n { return -1; }
            for k in 0..n {
                std::ptr::swap(inp.add(i * n + k), inp.add(j * n + k));
                std::ptr::swap(out.add(i * n + k), out.add(j * n + k));
            }
        }
        let t = inv(*inp.add(i * n + i));
        for j in 0..n {
            *inp.add(i * n + j) = mul(*inp.add(i * n + j), t);
            *out.add(i * n + j) = mul(*out.add(i * n + j), t);
        }
        for j in 0..n {
            if j == i { continue; }
            let t = *inp.add(j * n + i);
            for k in 0..n {
                *out.add(j * n + k) ^= mul(t, *out.add(i * n + k));
                *inp.add(j * n + k) ^= mul(t, *inp.add(i * n + k));
            }
        }
    }
    0
}
#[no_mangle]
unsafe extern "C" fn ec_init_tables(k: c_int, rows: c_int, a: *mut c_uchar, g: *mut c_uchar) {
    for i in 0..(k * rows) as usize {
        let c = *a.add(i);
        for x in 0..16u8 {
            *g.add(32 * i + x as usize) = mul(c, x);
            *g.add(32 * i + 16 + x as usize) = mul(c, x << 4);
        }
    }
}
/// Storage checks: only compute the bytes of a 4096-byte block that the checks look at (the code
/// treats every byte position alike, which the codec checks cover), and zero the others
pub static MARKS_ONLY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[no_mangle]
unsafe extern "C" fn ec_encode_data(len: c_int, k: c_int, rows: c_int, g: *mut c_uchar, data: *mut *mut c_uchar, coding: *mut *mut c_uchar) {
    let marks = len % 4096 == 0 && MARKS_ONLY.load(std::sync::atomic::Ordering::Relaxed);
    for l in 0..rows as usize {
        if marks {
            let c = *coding.add(l);
            std::ptr::write_bytes(c, 0, len as usize);
            let mut b = 0;
            while b < len as usize {
                for i in [b, b + 1, b + 2048, b + 4095] {
                    let mut s = 0u8;
                    for j in 0..k as usize {
                        s ^= mul(*g.add(j * 32 + l * k as usize * 32 + 1), *(*data.add(j)).add(i));
                    }
                    *c.add(i) = s;
                }
                b += 4096;
            }
            continue;
        }
        for i in 0..len as usize {
            let mut s = 0u8;
            for j in 0..k as usize {
                s ^= mul(*g.add(j * 32 + l * k as usize * 32 + 1), *(*data.add(j)).add(i));
            }
            *(*coding.add(l)).add(i) = s;
        }
    }
}
#[no_mangle]
unsafe extern "C" fn ec_encode_data_update(len: c_int, k: c_int, rows: c_int, vec_i: c_int, g: *mut c_uchar, data: *mut c_uchar, coding: *mut *mut c_uchar) {
    let marks = len % 4096 == 0 && MARKS_ONLY.load(std::sync::atomic::Ordering::Relaxed);
    for l in 0..rows as usize {
        if marks {
            let c = *g.add(vec_i as usize * 32 + l * k as usize * 32 + 1);
            let mut b = 0;
            while b < len as usize {
                for i in [b, b + 1, b + 2048, b + 4095] {
                    *(*coding.add(l)).add(i) ^= mul(c, *data.add(i));
                }
                b += 4096;
            }
            continue;
        }
        for i in 0..len as usize {
            let c = *g.add(vec_i as usize * 32 + l * k as usize * 32 + 1);
            *(*coding.add(l)).add(i) ^= mul(c, *data.add(i));
        }
    }
}
