//! Differential test of the engine itself: random expressions are built with
//! the folding constructors and their value, interval, and both SMT encodings
//! are compared with direct concrete evaluation.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::HashMap;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
pub fn run(n: u32) -> i32 {
    let mut r = Rng(0x9E3779B97F4A7C15);
    let mut sol = Solver::new();
    let mut bad = 0;
    let (mut nsat, mut nunsat) = (0, 0);
    for it in 0..n {
        let mut ctx = Ctx::new();
        let ws = [1u32, 4, 8, 16, 32, 64];
        // pool of (expr, true value) under a fixed random assignment
        let mut pool: Vec<(E, u128)> = vec![];
        let mut model = Model::new();
        for i in 0..3 {
            let w = ws[r.below(6) as usize];
            let (lo, hi) = if r.below(2) == 0 {
                (0, mask(w))
            } else {
                let a = r.next() as u128 & mask(w);
                let b = r.next() as u128 & mask(w);
                (a.min(b), a.max(b))
            };
            // some rounds are about sums of small numbers
            let (w, lo, hi) = if it % 3 == 1 { (8, lo & 63, (lo & 63) + (hi & 127)) } else { (w, lo, hi) };
            let e = ctx.var(&format!("x{}", i), w, lo, hi);
            let v = if hi - lo == u128::MAX { 0 } else { lo + (r.next() as u128) % (hi - lo + 1) };
            if let Op::Var(id) = ctx.n(e).op {
                model.insert(id, v);
            }
            pool.push((e, v));
        }
        let mut bools: Vec<E> = vec![];
        // every third round is about exclusive or, for the linear normal form
        let xmode = it % 3 == 0;
        let lmode = it % 3 == 1;
        if lmode {
            for i in 0..3 {
                let (e, v) = pool[i];
                let z = ctx.zext(40, e);
                let k = 1 + r.below(4) as u128;
                let ke = ctx.konst(40, k);
                let m = ctx.bin(BinOp::Mul, 40, z, ke);
                pool.push((m, v * k));
            }
        }
        for _ in 0..if xmode { 30 } else if lmode { 24 } else { 14 } {
            if lmode && r.below(4) > 0 {
                let c: Vec<(E, u128)> = pool.iter().filter(|p| ctx.w(p.0) == 40).copied().collect();
                let (a, va) = c[r.below(c.len() as u64) as usize];
                let (b, vb) = if r.below(3) > 0 { c[r.below(c.len() as u64) as usize] } else {
                    let k = r.below(9) as u128;
                    (ctx.konst(40, k), k)
                };
                let (e, v) = match r.below(8) {
                    0 | 1 => (ctx.bin(BinOp::Add, 40, a, b), va + vb & mask(40)),
                    2 | 3 => (ctx.bin(BinOp::Sub, 40, a, b), va.wrapping_sub(vb) & mask(40)),
                    4 => {
                        let k = 1 + r.below(2) as u32;
                        let ke = ctx.konst(40, k as u128);
                        (ctx.bin(BinOp::AShr, 40, a, ke), fold_bin(BinOp::AShr, 40, va, k as u128).unwrap())
                    }
                    5 => {
                        let (k, o) = if r.below(2) == 0 { (mask(40) - 1, BinOp::And) } else { (1, BinOp::Or) };
                        let ke = ctx.konst(40, k);
                        (ctx.bin(o, 40, a, ke), fold_bin(o, 40, va, k).unwrap())
                    }
                    6 => {
                        let p = [Pred::Ult, Pred::Ule, Pred::Slt, Pred::Sle][r.below(4) as usize];
                        let c = ctx.cmp(p, b, a);
                        let cv = fold_cmp(p, 40, vb, va);
                        let d = ctx.bin(BinOp::Sub, 40, a, b);
                        let dv = va.wrapping_sub(vb) & mask(40);
                        let z = ctx.konst(40, 0);
                        if r.below(2) == 0 {
                            (ctx.ite(c, d, z), if cv { dv } else { 0 })
                        } else {
                            (ctx.ite(c, z, d), if cv { 0 } else { dv })
                        }
                    }
                    _ => {
                        let p = [Pred::Slt, Pred::Sle, Pred::Eq, Pred::Ult, Pred::Ne][r.below(5) as usize];
                        (ctx.cmp(p, a, b), fold_cmp(p, 40, va, vb) as u128)
                    }
                };
                if ctx.eval(e, &model, &mut HashMap::new()) != v {
                    println!("selftest mismatch (linear) round {}: {} should be {}", it, ctx.show(e, 8), v);
                    bad += 1;
                }
                let iv = ctx.interval(e, &Default::default(), &mut HashMap::new());
                if v < iv.0 || v > iv.1 {
                    println!("selftest interval (linear) round {}: {} {:?} {}", it, ctx.show(e, 8), iv, v);
                    bad += 1;
                }
                pool.push((e, v));
                continue;
            }
            let (a, va) = pool[r.below(pool.len() as u64) as usize];
            let w = ctx.w(a);
            // second operand of the same width
            let (b, vb) = {
                let c: Vec<(E, u128)> = pool.iter().filter(|p| ctx.w(p.0) == w).copied().collect();
                if r.below(2) == 0 {
                    let k = match r.below(4) {
                        0 => r.below(9) as u128,
                        1 => mask(w) - r.below(5) as u128 & mask(w),
                        2 => 1u128 << r.below(w as u64),
                        _ => r.next() as u128,
                    } & mask(w);
                    (ctx.konst(w, k), k)
                } else {
                    c[r.below(c.len() as u64) as usize]
                }
            };
            let ops = [BinOp::Add, BinOp::Sub, BinOp::Mul, BinOp::UDiv, BinOp::SDiv, BinOp::URem, BinOp::SRem, BinOp::And, BinOp::Or, BinOp::Xor, BinOp::Shl, BinOp::LShr, BinOp::AShr];
            let preds = [Pred::Eq, Pred::Ne, Pred::Ult, Pred::Ule, Pred::Ugt, Pred::Uge, Pred::Slt, Pred::Sle, Pred::Sgt, Pred::Sge];
            let (e, v) = match r.below(9) {
                0..=3 => {
                    let o = if xmode && r.below(4) > 0 { BinOp::Xor } else { ops[r.below(13) as usize] };
                    match fold_bin(o, w, va, vb) {
                        Some(v) => (ctx.bin(o, w, a, b), v),
                        None => continue,
                    }
                }
                4 => {
                    let p = if xmode { preds[r.below(2) as usize] } else { preds[r.below(10) as usize] };
                    let e = ctx.cmp(p, a, b);
                    let v = fold_cmp(p, w, va, vb) as u128;
                    (e, v)
                }
                5 => {
                    let nw = w + 1 + r.below(20) as u32;
                    if nw > 128 {
                        continue;
                    }
                    if r.below(2) == 0 {
                        (ctx.zext(nw, a), va)
                    } else {
                        (ctx.sext(nw, a), sx(va, w) as u128 & mask(nw))
                    }
                }
                6 => {
                    let lo = r.below(w as u64) as u32;
                    let nw = 1 + r.below((w - lo) as u64) as u32;
                    (ctx.extract(a, lo, nw), (va >> lo) & mask(nw))
                }
                7 => {
                    if 2 * w > 128 {
                        continue;
                    }
                    (ctx.concat(a, b), (va << w) | vb)
                }
                _ => {
                    let cs: Vec<(E, u128)> = pool.iter().filter(|p| ctx.w(p.0) == 1).copied().collect();
                    if cs.is_empty() || r.below(3) == 0 {
                        let kinds = ["add", "sub", "mul"];
                        let k = kinds[r.below(3) as usize];
                        let sg = r.below(2) == 0;
                        if w < 2 {
                            continue;
                        }
                        let (m, ov) = {
                            let (x, y) = if sg { (sx(va, w), sx(vb, w)) } else { (va as i128, vb as i128) };
                            let t = match k {
                                "add" => x + y,
                                "sub" => x - y,
                                _ => match x.checked_mul(y) {
                                    Some(t) => t,
                                    None => continue,
                                },
                            };
                            let m = t as u128 & mask(w);
                            let back = if sg { sx(m, w) } else { m as i128 };
                            (m, back != t)
                        };
                        if w > 60 {
                            continue;
                        }
                        match ctx.ovf(k, sg, w, a, b) {
                            Some((x, y)) => {
                                pool.push((y, ov as u128));
                                (x, m)
                            }
                            None => continue,
                        }
                    } else {
                        let (c, vc) = cs[r.below(cs.len() as u64) as usize];
                        (ctx.ite(c, a, b), if vc == 1 { va } else { vb })
                    }
                }
            };
            pool.push((e, v));
        }
        for (e, v) in pool.clone() {
            let mut memo = HashMap::new();
            let x = ctx.eval(e, &model, &mut memo);
            let iv = ctx.iv[e as usize];
            if x != v || v < iv.0 || v > iv.1 || v & ctx.kz[e as usize] != 0 {
                println!("selftest {}: eval mismatch {} got {} want {} iv {:?} kz {:x}", it, ctx.show(e, 6), x, v, iv, ctx.kz[e as usize]);
                bad += 1;
            }
            if ctx.w(e) == 1 {
                bools.push(if v == 1 { e } else { ctx.not(e) });
            }
        }
        // bounds learned from true facts must contain the true values
        let mut bd = Bounds::new();
        for b in &bools {
            ctx.learn(*b, &mut bd);
        }
        let mut memo = HashMap::new();
        for (e, v) in pool.clone() {
            let iv = ctx.interval(e, &bd, &mut memo);
            if v < iv.0 || v > iv.1 {
                println!("selftest {}: bounds {} val {} iv {:?}", it, ctx.show(e, 6), v, iv);
                bad += 1;
            }
        }
        // the true facts are satisfiable in both encodings; a negated conjunction plus the
        // exact variable values is unsat in both
        let mut q = bools.clone();
        q.retain(|e| ctx.k(*e).is_none());
        let mut vs = std::rc::Rc::new(vec![]);
        let mut fix = q.clone();
        for (v, k) in &model {
            let e = ctx.vars[*v as usize].e;
            let w = ctx.w(e);
            let ke = ctx.konst(w, *k);
            let c = ctx.cmp(Pred::Eq, e, ke);
            if ctx.k(c).is_none() {
                fix.push(c);
            }
        }
        for e in &fix {
            let v = ctx.varset(*e);
            vs = union(&vs, &v);
        }
        // sat with fixed values
        for neg in [None, Some(())] {
            let mut qq = fix.clone();
            if neg.is_some() {
                // pick one random value and claim it differs
                let (e, v) = pool[r.below(pool.len() as u64) as usize];
                let w = ctx.w(e);
                let ke = ctx.konst(w, v);
                let c = ctx.cmp(Pred::Ne, e, ke);
                if ctx.k(c).is_some() {
                    continue;
                }
                qq.push(c);
            }
            let want_sat = neg.is_none();
            for mode in [Mode::Bv, Mode::Int] {
                let mut b2 = Bounds::new();
                if neg.is_none() {
                    for e in &qq {
                        ctx.learn(*e, &mut b2);
                    }
                }
                let got = sol.raw(&mut ctx, &qq, &vs, mode, &b2);
                match got {
                    Some(true) if want_sat => nsat += 1,
                    Some(false) if !want_sat => nunsat += 1,
                    None => {}
                    x => {
                        println!("selftest {}: mode {:?} want sat={} got {:?}", it, mode, want_sat, x);
                        bad += 1;
                    }
                }
            }
        }
    }
    println!("selftest: {} rounds, {} sat and {} unsat encodings agreed, {} mismatches", n, nsat, nunsat, bad);
    if bad == 0 { 0 } else { 1 }
}
