//! Hash-consed bit-vector expression DAG with folding, static unsigned
//! intervals and known-zero masks.
use crate::ir::{mask, sx, BinOp, Pred};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Var(u32),
    Const(u128),
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract(u32), // lo
    Concat,       // a high, b low
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub iv: Vec<(u128, u128)>,
    pub kz: Vec<u128>, // known zero bits
    map: HashMap<Node, E>,
    pub vars: Vec<VarInfo>,
    varsets: Vec<Option<Rc<Vec<u32>>>>,
    /// number of Xor nodes below (saturating); guards the linear normal form
    nxor: Vec<u8>,
    lins: HashMap<E, Option<Rc<Vec<Lin>>>>,
}
/// one bit as a sum over GF(2): sorted atoms, 0 = the constant one, else node*128+bit+1
type Lin = Rc<Vec<u64>>;
fn lin_xor(a: &Lin, b: &Lin) -> Lin {
    if a.is_empty() {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    let mut o = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            o.push(a[i]);
            i += 1;
        } else if a[i] > b[j] {
            o.push(b[j]);
            j += 1;
        } else {
            i += 1;
            j += 1;
        }
    }
    o.extend_from_slice(&a[i..]);
    o.extend_from_slice(&b[j..]);
    Rc::new(o)
}
pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub e: E,
    pub lo: u128,
    pub hi: u128,
}
pub type Bounds = HashMap<E, (u128, u128)>;
pub type Model = HashMap<u32, u128>;

fn pow2_mask_ge(x: u128) -> u128 {
    if x == 0 { 0 } else { u128::MAX >> x.leading_zeros() }
}

pub fn fold_bin(op: BinOp, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        BinOp::Add => a.wrapping_add(b) & m,
        BinOp::Sub => a.wrapping_sub(b) & m,
        BinOp::Mul => a.wrapping_mul(b) & m,
        BinOp::UDiv => if b == 0 { return None } else { a / b },
        BinOp::URem => if b == 0 { return None } else { a % b },
        BinOp::SDiv => if b == 0 { return None } else { sx(a, w).wrapping_div(sx(b, w)) as u128 & m },
        BinOp::SRem => if b == 0 { return None } else { sx(a, w).wrapping_rem(sx(b, w)) as u128 & m },
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        BinOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BinOp::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128 & m
        }
        _ => return None,
    })
}
pub fn fold_cmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { nodes: vec![], iv: vec![], kz: vec![], map: HashMap::new(), vars: vec![], varsets: vec![], nxor: vec![], lins: HashMap::new() }
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn k(&self, e: E) -> Option<u128> {
        if let Op::Const(k) = self.nodes[e as usize].op { Some(k) } else { None }
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        let v = v & mask(w);
        self.mk(Op::Const(v), w, 0, 0, 0)
    }
    pub fn var(&mut self, name: &str, w: u32, lo: u128, hi: u128) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), w, e: 0, lo, hi });
        let e = self.mk(Op::Var(id), w, 0, 0, 0);
        self.vars[id as usize].e = e;
        e
    }
    pub fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.nodes.len() as E;
        let iva = |x: E| -> (u128, u128) { self.iv.get(x as usize).copied().unwrap_or((0, 0)) };
        let kza = |x: E| -> u128 { self.kz.get(x as usize).copied().unwrap_or(0) };
        let wa = self.nodes.get(a as usize).map(|n| n.w).unwrap_or(0);
        let wb = self.nodes.get(b as usize).map(|n| n.w).unwrap_or(0);
        let var = |i: u32| {
            let v = &self.vars[i as usize];
            (v.lo, v.hi)
        };
        let (mut lo, mut hi) = node_iv(op, w, wa, wb, iva(a), iva(b), iva(c), &var);
        let m = mask(w);
        let kz = match op {
            Op::Const(k) => !k & m,
            Op::And => kza(a) | kza(b),
            Op::Or | Op::Xor => kza(a) & kza(b),
            Op::Ite => kza(b) & kza(c),
            Op::ZExt => kza(a) | (m & !mask(wa)),
            Op::Extract(l) => (kza(a) >> l) & m,
            Op::Concat => (kza(a) << wb) | kza(b),
            Op::Shl => {
                if let Op::Const(s) = self.nodes[b as usize].op {
                    if s < 128 { ((kza(a) << s) | mask(s as u32)) & m } else { m }
                } else { 0 }
            }
            Op::LShr => {
                if let Op::Const(s) = self.nodes[b as usize].op {
                    if s < w as u128 { (kza(a) >> s) | (m & !(m >> s)) } else { m }
                } else { 0 }
            }
            Op::Add | Op::Sub => {
                let t = (!kza(a) & m).trailing_zeros().min((!kza(b) & m).trailing_zeros());
                if t >= w { m } else { mask(t) }
            }
            Op::Mul => {
                let t = (!kza(a) & m).trailing_zeros().min(w) + (!kza(b) & m).trailing_zeros().min(w);
                if t >= w { m } else { mask(t) }
            }
            _ => 0,
        };
        let kz = (kz | (m & !pow2_mask_ge(hi))) & m;
        // known zero bits bound hi
        let mx = m & !kz;
        if hi > mx {
            hi = mx;
        }
        if lo > hi {
            lo = hi;
        }
        self.nodes.push(n.clone());
        self.iv.push((lo, hi));
        self.kz.push(kz);
        self.varsets.push(None);
        let nx = {
            let g = |x: E| self.nxor.get(x as usize).copied().unwrap_or(0);
            let mut v = g(a);
            if uses_b(op) { v = v.saturating_add(g(b)) }
            if op == Op::Ite { v = v.saturating_add(g(b)).saturating_add(g(c)) }
            if op == Op::Xor { v = v.saturating_add(1) }
            if matches!(op, Op::Var(_) | Op::Const(_)) { v = 0 }
            v
        };
        self.nxor.push(nx);
        self.map.insert(n, e);
        e
    }

    // ---------- smart constructors ----------
    pub fn not(&mut self, a: E) -> E {
        // boolean not (w=1)
        if let Some(k) = self.k(a) {
            return self.konst(1, 1 - k);
        }
        let n = self.n(a).clone();
        match n.op {
            Op::Xor => {
                if self.k(n.b) == Some(1) {
                    return n.a;
                }
            }
            Op::Ult => return self.cmp2(Op::Ule, n.b, n.a),
            Op::Ule => return self.cmp2(Op::Ult, n.b, n.a),
            Op::Slt => return self.cmp2(Op::Sle, n.b, n.a),
            Op::Sle => return self.cmp2(Op::Slt, n.b, n.a),
            _ => {}
        }
        let one = self.konst(1, 1);
        self.mk(Op::Xor, 1, a, one, 0)
    }
    pub fn is_not(&self, e: E) -> Option<E> {
        let n = self.n(e);
        if n.op == Op::Xor && n.w == 1 && self.k(n.b) == Some(1) { Some(n.a) } else { None }
    }
    pub fn bin(&mut self, op: BinOp, w: u32, a: E, b: E) -> E {
        use BinOp as B;
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            if let Some(r) = fold_bin(op, w, x, y) {
                return self.konst(w, r);
            }
        }
        let m = mask(w);
        // commutative: const to the right; order
        let (mut a, mut b, mut ka, mut kb) = (a, b, ka, kb);
        if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor) && (ka.is_some() || (kb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ka, &mut kb);
        }
        // push through ite with constant arms when other is constant
        if let Some(k) = kb {
            let n = self.n(a).clone();
            if n.op == Op::Ite {
                if let (Some(x), Some(y)) = (self.k(n.b), self.k(n.c)) {
                    if let (Some(p), Some(q)) = (fold_bin(op, w, x, k), fold_bin(op, w, y, k)) {
                        let p = self.konst(w, p);
                        let q = self.konst(w, q);
                        return self.ite(n.a, p, q);
                    }
                }
            }
        }
        match op {
            B::Add => {
                if kb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(B::Xor, 1, a, b);
                }
                if let Some(k) = kb {
                    let n = self.n(a).clone();
                    if n.op == Op::Add {
                        if let Some(k2) = self.k(n.b) {
                            let k3 = self.konst(w, k.wrapping_add(k2));
                            return self.bin(B::Add, w, n.a, k3);
                        }
                    }
                }
                // x + (y - x) = y
                let nb = self.n(b).clone();
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
                let na = self.n(a).clone();
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
                self.mk(Op::Add, w, a, b, 0)
            }
            B::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if w == 1 {
                    return self.bin(B::Xor, 1, a, b);
                }
                if let Some(k) = kb {
                    let nk = self.konst(w, k.wrapping_neg());
                    return self.bin(B::Add, w, a, nk);
                }
                // (x + c) - x = c ; (x+y)-x = y
                let na = self.n(a).clone();
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    // (x+c1) - (x+c2)
                    let nb = self.n(b).clone();
                    if nb.op == Op::Add && nb.a == na.a {
                        return self.bin(B::Sub, w, na.b, nb.b);
                    }
                }
                let nb = self.n(b).clone();
                if nb.op == Op::Add && nb.a == a {
                    let z = self.konst(w, 0);
                    return self.bin(B::Sub, w, z, nb.b);
                }
                if nb.op == Op::Sub && nb.a == a {
                    return nb.b;
                }
                if let Some((a2, b2)) = self.cancel(a, b) {
                    return self.bin(B::Sub, w, a2, b2);
                }
                self.mk(Op::Sub, w, a, b, 0)
            }
            B::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if w == 1 {
                    return self.bin(B::And, 1, a, b);
                }
                if let Some(k) = kb {
                    // (x + c) * k and (x * c) * k, in the ring mod 2^w
                    let n = self.n(a).clone();
                    if n.op == Op::Add || n.op == Op::Mul {
                        if let Some(c) = self.k(n.b) {
                            let ck = self.konst(w, c.wrapping_mul(k));
                            if n.op == Op::Mul {
                                return self.bin(B::Mul, w, n.a, ck);
                            }
                            let kk = self.konst(w, k);
                            let x = self.bin(B::Mul, w, n.a, kk);
                            return self.bin(B::Add, w, x, ck);
                        }
                    }
                    if n.op == Op::Concat && self.k(n.b) == Some(0) {
                        // (x << j) * k
                        let j = self.w(n.b);
                        let x = self.zext(w, n.a);
                        if self.iv[x as usize].1.checked_mul(k << j.min(64)).map_or(false, |v| j < 64 && k < 1 << 60 && v <= m) {
                            let kk = self.konst(w, k << j);
                            return self.bin(B::Mul, w, x, kk);
                        }
                    }
                }
                self.mk(Op::Mul, w, a, b, 0)
            }
            B::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k != 0 {
                        if self.iv[a as usize].1 < k {
                            return self.konst(w, 0);
                        }
                        // (x*k)/k without overflow
                        let n = self.n(a).clone();
                        if n.op == Op::Mul && self.k(n.b) == Some(k) {
                            if let Some(h) = self.iv[n.a as usize].1.checked_mul(k) {
                                if h <= m {
                                    return n.a;
                                }
                            }
                        }
                    }
                }
                if let Some(k) = kb {
                    if k > 1 {
                        if let Some((q, r)) = self.split_div(a, k) {
                            let rq = self.bin(B::UDiv, w, r, b);
                            return self.bin(B::Add, w, q, rq);
                        }
                    }
                }
                self.mk(Op::UDiv, w, a, b, 0)
            }
            B::URem => {
                if kb == Some(1) {
                    return self.konst(w, 0);
                }
                if let Some(k) = kb {
                    if k != 0 {
                        if self.iv[a as usize].1 < k {
                            return a;
                        }
                        if k.is_power_of_two() {
                            let km = self.konst(w, k - 1);
                            return self.bin(B::And, w, a, km);
                        }
                    }
                }
                if let Some(k) = kb {
                    if k > 1 {
                        if let Some((_, r)) = self.split_div(a, k) {
                            return self.bin(B::URem, w, r, b);
                        }
                    }
                }
                self.mk(Op::URem, w, a, b, 0)
            }
            B::SDiv | B::SRem => {
                let half = 1u128 << (w - 1);
                if self.iv[a as usize].1 < half && self.iv[b as usize].1 < half && self.iv[b as usize].0 > 0 {
                    return self.bin(if op == B::SDiv { B::UDiv } else { B::URem }, w, a, b);
                }
                self.mk(if op == B::SDiv { Op::SDiv } else { Op::SRem }, w, a, b, 0)
            }
            B::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    let possible = m & !self.kz[a as usize];
                    if possible & !k == 0 {
                        return a;
                    }
                    if possible & k == 0 {
                        return self.konst(w, 0);
                    }
                    // and (zext x) k -> zext(and x k)
                    let n = self.n(a).clone();
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let kk = self.konst(iw, k & mask(iw));
                        let r = self.bin(B::And, iw, n.a, kk);
                        return self.zext(w, r);
                    }
                    if n.op == Op::And {
                        if let Some(k2) = self.k(n.b) {
                            let kk = self.konst(w, k & k2);
                            return self.bin(B::And, w, n.a, kk);
                        }
                    }
                    let j = k.trailing_zeros();
                    if j > 0 && j < 16 && k == m & !mask(j) && matches!(n.op, Op::Add | Op::Sub) {
                        // clearing low bits that are known
                        if let Some(v) = self.low_const(a, j, 0) {
                            let d = self.konst(w, 0u128.wrapping_sub(v) & m);
                            return self.bin(B::Add, w, a, d);
                        }
                    }
                    // low mask of wide: and x (2^j-1) => zext(extract)
                    if k & (k + 1) == 0 && k < m && w > 1 {
                        let j = 128 - k.leading_zeros();
                        let x = self.extract(a, 0, j);
                        return self.zext(w, x);
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.konst(1, 0);
                    }
                }
                self.mk(Op::And, w, a, b, 0)
            }
            B::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.konst(1, 1);
                    }
                    return self.mk(Op::Or, w, a, b, 0);
                }
                if let (Some(k), Op::Add | Op::Sub) = (kb, self.n(a).op) {
                    // setting low bits that are known
                    let j = 128 - k.leading_zeros();
                    if j < 16 {
                        if let Some(v) = self.low_const(a, j, 0) {
                            let d = self.konst(w, (v | k) - v);
                            return self.bin(B::Add, w, a, d);
                        }
                    }
                }
                // disjoint: becomes concat or add
                let (pa, pb) = (m & !self.kz[a as usize], m & !self.kz[b as usize]);
                if pa & pb == 0 {
                    // try concat: one is in low j bits, other has low j bits zero
                    let (h, l, pl) = if pa > pb { (a, b, pb) } else { (b, a, pa) };
                    let ph = if pa > pb { pa } else { pb };
                    let j = 128 - pl.leading_zeros();
                    if ph.trailing_zeros() >= j && j > 0 && j < w {
                        let hp = self.extract(h, j, w - j);
                        let lp = self.extract(l, 0, j);
                        return self.concat(hp, lp);
                    }
                    return self.mk(Op::Add, w, a.min(b), a.max(b), 0);
                }
                self.mk(Op::Or, w, a, b, 0)
            }
            B::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if w == 1 && kb == Some(1) {
                    return self.not(a);
                }
                if let Some(k) = kb {
                    let n = self.n(a).clone();
                    if n.op == Op::Xor {
                        if let Some(k2) = self.k(n.b) {
                            let kk = self.konst(w, k ^ k2);
                            return self.bin(B::Xor, w, n.a, kk);
                        }
                    }
                }
                // x ^ (x ^ y)
                let nb = self.n(b).clone();
                if nb.op == Op::Xor {
                    if nb.a == a {
                        return nb.b;
                    }
                    if nb.b == a {
                        return nb.a;
                    }
                }
                let na = self.n(a).clone();
                if na.op == Op::Xor {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
                self.mk(Op::Xor, w, a, b, 0)
            }
            B::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    // concat(extract(a,0,w-k), 0_k)
                    let x = self.extract(a, 0, w - k as u32);
                    let z = self.konst(k as u32, 0);
                    return self.concat(x, z);
                }
                self.mk(Op::Shl, w, a, b, 0)
            }
            B::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let x = self.extract(a, k as u32, w - k as u32);
                    return self.zext(w, x);
                }
                self.mk(Op::LShr, w, a, b, 0)
            }
            B::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if self.iv[a as usize].1 < 1u128 << (w - 1) {
                        return self.bin(B::LShr, w, a, b);
                    }
                    let k = k.min(w as u128 - 1) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(w, x);
                }
                self.mk(Op::AShr, w, a, b, 0)
            }
            _ => panic!("float op on symbolic"),
        }
    }

    /// Flatten a sum into (coefficient, term) pairs (term u32::MAX = constant 1) provided that the whole
    /// sum provably does not wrap. Returns None otherwise.
    fn linsum(&mut self, e: E) -> Option<Vec<(u128, E)>> {
        fn go(c: &mut Ctx, e: E, k: u128, out: &mut Vec<(u128, E)>, depth: u32) -> bool {
            let n = c.n(e).clone();
            let m = mask(n.w);
            if out.len() > 12 || depth > 12 {
                return false;
            }
            match n.op {
                Op::Const(v) => match v.checked_mul(k) {
                    Some(x) => out.push((x, u32::MAX)),
                    None => return false,
                },
                Op::Add => {
                    let (a, b) = (c.iv[n.a as usize].1, c.iv[n.b as usize].1);
                    if a.checked_add(b).map_or(false, |s| s <= m) {
                        return go(c, n.a, k, out, depth + 1) && go(c, n.b, k, out, depth + 1);
                    }
                    out.push((k, e));
                }
                Op::Mul => {
                    if let Some(f) = c.k(n.b) {
                        if c.iv[n.a as usize].1.checked_mul(f).map_or(false, |s| s <= m) {
                            match f.checked_mul(k) {
                                Some(kk) => return go(c, n.a, kk, out, depth + 1),
                                None => return false,
                            }
                        }
                    }
                    out.push((k, e));
                }
                Op::Concat => {
                    let j = c.w(n.b);
                    match (1u128.checked_shl(j).and_then(|s| s.checked_mul(k)), j < 100) {
                        (Some(kk), true) => {
                            let h = c.zext(n.w, n.a);
                            let l = c.zext(n.w, n.b);
                            return go(c, h, kk, out, depth + 1) && go(c, l, k, out, depth + 1);
                        }
                        _ => out.push((k, e)),
                    }
                }
                _ => out.push((k, e)),
            }
            true
        }
        let mut v = vec![];
        if go(self, e, 1, &mut v, 0) { Some(v) } else { None }
    }
    /// The low n bits, if they are known
    fn low_const(&self, e: E, n: u32, depth: u32) -> Option<u128> {
        if depth > 12 {
            return None;
        }
        let x = self.n(e);
        let m = mask(n);
        match x.op {
            Op::Const(v) => Some(v & m),
            Op::Add => Some(self.low_const(x.a, n, depth + 1)?.wrapping_add(self.low_const(x.b, n, depth + 1)?) & m),
            Op::Sub => Some(self.low_const(x.a, n, depth + 1)?.wrapping_sub(self.low_const(x.b, n, depth + 1)?) & m),
            Op::Concat if self.w(x.b) >= n => self.low_const(x.b, n, depth + 1),
            Op::ZExt | Op::SExt if self.w(x.a) >= n => self.low_const(x.a, n, depth + 1),
            Op::Ite => {
                let a = self.low_const(x.b, n, depth + 1)?;
                if self.low_const(x.c, n, depth + 1)? == a { Some(a) } else { None }
            }
            _ => None,
        }
    }
    /// Signed linear form modulo 2^w: sum of coefficient * leaf, leaves being small naturals
    fn slin(&mut self, e: E, k: i128, out: &mut Vec<(i128, E)>, depth: u32) -> bool {
        if depth > 16 || out.len() > 24 || k.unsigned_abs() > 1 << 64 {
            return false;
        }
        let n = self.n(e).clone();
        let w = n.w;
        let mut leaf = |c: &mut Ctx, k: i128, e: E| {
            if c.iv[e as usize].1 >= 1u128 << (w - 2).min(100) {
                return false;
            }
            if let Some(o) = out.iter_mut().find(|o| o.1 == e) {
                o.0 += k;
            } else {
                out.push((k, e));
            }
            true
        };
        match n.op {
            Op::Const(v) => {
                let s = if v >> (w - 1) & 1 == 1 { v as i128 - (1i128 << w) } else { v as i128 };
                match s.checked_mul(k) {
                    Some(x) if x.unsigned_abs() < 1 << 100 => {
                        if let Some(o) = out.iter_mut().find(|o| o.1 == u32::MAX) {
                            o.0 += x;
                        } else {
                            out.push((x, u32::MAX));
                        }
                        true
                    }
                    _ => false,
                }
            }
            Op::Add => self.slin(n.a, k, out, depth + 1) && self.slin(n.b, k, out, depth + 1),
            Op::Sub => self.slin(n.a, k, out, depth + 1) && self.slin(n.b, -k, out, depth + 1),
            Op::Mul if self.k(n.b).is_some() => {
                let f = self.k(n.b).unwrap();
                let s = if f >> (w - 1) & 1 == 1 { f as i128 - (1i128 << w) } else { f as i128 };
                match s.checked_mul(k) {
                    Some(x) => self.slin(n.a, x, out, depth + 1),
                    None => false,
                }
            }
            Op::Concat if self.w(n.b) < 60 && self.iv[e as usize].1 < 1u128 << (w - 2).min(100) => {
                let j = self.w(n.b);
                let h = self.zext(w, n.a);
                let l = self.zext(w, n.b);
                match (1i128 << j).checked_mul(k) {
                    Some(kk) => self.slin(h, kk, out, depth + 1) && self.slin(l, k, out, depth + 1),
                    None => false,
                }
            }
            Op::SExt => {
                // an arithmetic shift of an exact sum
                let i = self.n(n.a).clone();
                if let Op::Extract(lo) = i.op {
                    if self.w(i.a) == w && i.w == w - lo {
                        let mut v = vec![];
                        if self.slin(i.a, 1, &mut v, depth + 1) {
                            let mut tot = 0u128;
                            let mut ok = true;
                            for (c, l) in &v {
                                let hi = if *l == u32::MAX { 1 } else { self.iv[*l as usize].1 };
                                tot = tot.saturating_add(c.unsigned_abs().saturating_mul(hi));
                                ok &= *l == u32::MAX || c % (1i128 << lo) == 0;
                            }
                            if ok && tot < 1u128 << (w - 1) {
                                for (c, l) in v {
                                    let c = match (c >> lo).checked_mul(k) {
                                        Some(c) if c.unsigned_abs() < 1 << 100 => c,
                                        _ => return false,
                                    };
                                    if let Some(o) = out.iter_mut().find(|o| o.1 == l) {
                                        o.0 += c;
                                    } else {
                                        out.push((c, l));
                                    }
                                }
                                return true;
                            }
                        }
                    }
                }
                // an exact sum
                if !matches!(i.op, Op::Extract(_)) {
                    let mut v = vec![];
                    if self.slin(n.a, 1, &mut v, depth + 1) {
                        let mut tot = 0u128;
                        for (c, l) in &v {
                            let hi = if *l == u32::MAX { 1 } else { self.iv[*l as usize].1 };
                            tot = tot.saturating_add(c.unsigned_abs().saturating_mul(hi));
                        }
                        if tot < 1u128 << (i.w - 1) {
                            for (c, l) in v {
                                let c = match c.checked_mul(k) {
                                    Some(c) if c.unsigned_abs() < 1 << 100 => c,
                                    _ => return false,
                                };
                                let l = if l == u32::MAX { l } else { self.zext(w, l) };
                                if let Some(o) = out.iter_mut().find(|o| o.1 == l) {
                                    o.0 += c;
                                } else {
                                    out.push((c, l));
                                }
                            }
                            return true;
                        }
                    }
                }
                leaf(self, k, e)
            }
            Op::ZExt => {
                // the wrap-free sums below a zero extension
                let i = self.n(n.a).clone();
                match i.op {
                    Op::Add if self.iv[i.a as usize].1.checked_add(self.iv[i.b as usize].1).map_or(false, |s| s <= mask(i.w)) => {
                        let (a, b) = (self.zext(w, i.a), self.zext(w, i.b));
                        self.slin(a, k, out, depth + 1) && self.slin(b, k, out, depth + 1)
                    }
                    Op::Concat if self.w(i.b) < 60 => {
                        let j = self.w(i.b);
                        let h = self.zext(w, i.a);
                        let l = self.zext(w, i.b);
                        match (1i128 << j).checked_mul(k) {
                            Some(kk) => self.slin(h, kk, out, depth + 1) && self.slin(l, k, out, depth + 1),
                            None => false,
                        }
                    }
                    _ => leaf(self, k, e),
                }
            }
            _ => leaf(self, k, e),
        }
    }
    /// a - b as a difference of two narrow sums of naturals that don't wrap
    fn narrow(&mut self, a: E, b: E) -> Option<(E, E)> {
        let w = self.w(a);
        if w < 16 || w > 100 {
            return None;
        }
        let mut x = vec![];
        let mut y = vec![];
        if !self.slin(a, 1, &mut x, 0) || !self.slin(b, 1, &mut y, 0) {
            return None;
        }
        // both sides must be exact as signed numbers
        for v in [&x, &y] {
            let mut tot = 0u128;
            for (k, l) in v {
                let hi = if *l == u32::MAX { 1 } else { self.iv[*l as usize].1 };
                tot = tot.checked_add(k.unsigned_abs().checked_mul(hi)?)?;
            }
            if tot >= 1u128 << (w - 1) {
                return None;
            }
        }
        for (k, l) in y {
            if let Some(o) = x.iter_mut().find(|o| o.1 == l) {
                o.0 -= k;
            } else {
                x.push((-k, l));
            }
        }
        fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }
        let g = x.iter().fold(0, |g, (k, _)| gcd(g, k.unsigned_abs())).max(1);
        for o in x.iter_mut() {
            o.0 /= g as i128;
        }
        let mut mx = [0u128; 2];
        for (k, l) in &x {
            let hi = if *l == u32::MAX { 1 } else { self.iv[*l as usize].1 };
            mx[(*k < 0) as usize] += k.unsigned_abs() * hi;
        }
        let m = mx[0].max(mx[1]);
        let nw = (128 - m.leading_zeros()).max(2);
        if nw >= w {
            return None;
        }
        // don't cut anything in two: that hides what is known about it
        let cut = x.iter().any(|(k, l)| *k != 0 && *l != u32::MAX && !(self.n(*l).op == Op::ZExt && self.w(self.n(*l).a) <= nw));
        let nw = if cut { w } else { nw };
        x.sort_by_key(|o| o.1);
        let mut acc = [self.konst(nw, 0), self.konst(nw, 0)];
        for (k, l) in x {
            if k == 0 {
                continue;
            }
            let f = self.konst(nw, k.unsigned_abs());
            let t = if l == u32::MAX {
                f
            } else {
                let t = self.extract(l, 0, nw);
                self.bin(BinOp::Mul, nw, t, f)
            };
            let i = (k < 0) as usize;
            acc[i] = self.bin(BinOp::Add, nw, acc[i], t);
        }
        Some((acc[0], acc[1]))
    }
    /// Remove the common terms of two sums, neither of which wraps.
    fn cancel(&mut self, a: E, b: E) -> Option<(E, E)> {
        let (na, nb) = (self.n(a).op, self.n(b).op);
        if na != Op::Add && nb != Op::Add {
            return None;
        }
        let mut x = self.linsum(a)?;
        let y = self.linsum(b)?;
        let mut any = false;
        let mut rest = vec![];
        for (f, t) in y {
            let mut f = f;
            for xt in x.iter_mut() {
                if xt.1 == t && xt.0 > 0 && f > 0 {
                    let c = f.min(xt.0);
                    xt.0 -= c;
                    f -= c;
                    any = true;
                }
            }
            if f > 0 {
                rest.push((f, t));
            }
        }
        if !any {
            return None;
        }
        let w = self.w(a);
        let mut sum = |c: &mut Ctx, v: Vec<(u128, E)>| {
            let mut acc = c.konst(w, 0);
            for (f, t) in v {
                if f == 0 {
                    continue;
                }
                let fe = c.konst(w, f);
                let x = if t == u32::MAX { fe } else { c.bin(BinOp::Mul, w, t, fe) };
                acc = c.bin(BinOp::Add, w, acc, x);
            }
            acc
        };
        let p = sum(self, x);
        let q = sum(self, rest);
        Some((p, q))
    }
    /// Split a sum by divisibility by k: (quotient part, remainder part), same width.
    fn split_div(&mut self, e: E, k: u128) -> Option<(E, E)> {
        let w = self.w(e);
        if !matches!(self.n(e).op, Op::Add | Op::Mul | Op::Concat) {
            return None;
        }
        let v = self.linsum(e)?;
        let mut q = self.konst(w, 0);
        let mut r = self.konst(w, 0);
        let mut any = false;
        let mut add = |c: &mut Ctx, acc: E, f: u128, t: E| -> E {
            let x = if t == u32::MAX {
                c.konst(w, f)
            } else {
                let fe = c.konst(w, f);
                c.bin(BinOp::Mul, w, t, fe)
            };
            c.bin(BinOp::Add, w, acc, x)
        };
        for (f, t) in v {
            if t == u32::MAX {
                if f >= k {
                    any = true;
                    q = add(self, q, f / k, t);
                }
                r = add(self, r, f % k, t);
            } else if f % k == 0 {
                any = true;
                q = add(self, q, f / k, t);
            } else {
                r = add(self, r, f, t);
            }
        }
        if any { Some((q, r)) } else { None }
    }
    pub fn zext(&mut self, w: u32, a: E) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.k(a) {
            return self.konst(w, k);
        }
        let n = self.n(a).clone();
        match n.op {
            Op::ZExt => return self.zext(w, n.a),
            Op::Ite => {
                if let (Some(x), Some(y)) = (self.k(n.b), self.k(n.c)) {
                    let x = self.konst(w, x);
                    let y = self.konst(w, y);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Extract(0) => {
                // zext(extract(x,0,wa)) with x known small
                if self.w(n.a) == w && self.kz[n.a as usize] & mask(w) & !mask(wa) == mask(w) & !mask(wa) {
                    return n.a;
                }
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, w: u32, a: E) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.k(a) {
            return self.konst(w, sx(k, wa) as u128);
        }
        if wa == 1 {
            let x = self.konst(w, u128::MAX);
            let y = self.konst(w, 0);
            return self.ite(a, x, y);
        }
        if self.iv[a as usize].1 < 1u128 << (wa - 1) {
            return self.zext(w, a);
        }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        debug_assert!(lo + w <= wa);
        if let Some(k) = self.k(a) {
            return self.konst(w, k >> lo);
        }
        // all known zero?
        if (self.kz[a as usize] >> lo) & mask(w) == mask(w) {
            return self.konst(w, 0);
        }
        let n = self.n(a).clone();
        match n.op {
            Op::Extract(l2) => return self.extract(n.a, lo + l2, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo >= iw {
                    return self.konst(w, 0);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(w, x);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.k(n.b).is_some() || self.k(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                let o = match n.op {
                    Op::And => BinOp::And,
                    Op::Or => BinOp::Or,
                    _ => BinOp::Xor,
                };
                return self.bin(o, w, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // truncation distributes; only when it helps (operands shrink)
                let shr = |c: &Ctx, e: E| matches!(c.n(e).op, Op::Const(_) | Op::ZExt | Op::SExt);
                let lz = |c: &Ctx, e: E| c.kz[e as usize] & mask(w) == mask(w);
                if (shr(self, n.a) && shr(self, n.b)) || (n.op != Op::Mul && (lz(self, n.a) || lz(self, n.b))) {
                    let x = self.extract(n.a, 0, w);
                    let y = self.extract(n.b, 0, w);
                    let o = match n.op {
                        Op::Add => BinOp::Add,
                        Op::Sub => BinOp::Sub,
                        _ => BinOp::Mul,
                    };
                    return self.bin(o, w, x, y);
                }
            }
            Op::Add if lo > 0 => {
                // disjoint sum: one side has t low zero bits, the other is below 2^t
                let mm = mask(wa);
                let (pa, pb) = (mm & !self.kz[n.a as usize], mm & !self.kz[n.b as usize]);
                for (h, l, ph, pl) in [(n.a, n.b, pa, pb), (n.b, n.a, pb, pa)] {
                    let t = ph.trailing_zeros();
                    if t < wa && pl < (1u128 << t) {
                        if lo + w <= t {
                            return self.extract(l, lo, w);
                        }
                        if lo >= t {
                            return self.extract(h, lo, w);
                        }
                    }
                }
            }
            Op::Mul if lo > 0 => {
                if let Some(k) = self.k(n.b) {
                    if k.is_power_of_two() && k.trailing_zeros() <= lo && lo + w <= wa {
                        return self.extract(n.a, lo - k.trailing_zeros(), w);
                    }
                }
            }
            _ => {}
        }
        self.mk(Op::Extract(lo), w, a, 0, 0)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        assert!(w <= 128, "concat too wide");
        if let (Some(a), Some(b)) = (self.k(h), self.k(l)) {
            return self.konst(w, (a << wl) | b);
        }
        if self.k(h) == Some(0) {
            return self.zext(w, l);
        }
        let (nh, nl) = (self.n(h).clone(), self.n(l).clone());
        // adjacent extracts
        if let (Op::Extract(a), Op::Extract(b)) = (nh.op, nl.op) {
            if nh.a == nl.a && a == b + wl {
                return self.extract(nh.a, b, w);
            }
        }
        // extract(x, wl..) ++ (whole of x low part where x itself is extract(0))
        if let Op::Concat = nh.op {
            // (p ++ q) ++ l -> p ++ (q ++ l) if q,l merge
            let ql = {
                let (nq, nl) = (self.n(nh.b).clone(), nl.clone());
                if let (Op::Extract(a), Op::Extract(b)) = (nq.op, nl.op) {
                    nq.a == nl.a && a == b + wl
                } else { self.k(nh.b).is_some() && self.k(l).is_some() }
            };
            if ql {
                let lo = self.concat(nh.b, l);
                return self.concat(nh.a, lo);
            }
        }
        if let (Op::Extract(k), Some(l)) = (nh.op, self.k(l)) {
            // replacing low bits that are known
            if k == wl && self.w(nh.a) == w && matches!(self.n(nh.a).op, Op::Add | Op::Sub) {
                if let Some(v) = self.low_const(nh.a, wl, 0) {
                    let d = self.konst(w, l.wrapping_sub(v) & mask(w));
                    return self.bin(BinOp::Add, w, nh.a, d);
                }
            }
        }
        if let Op::ZExt = nh.op {
            // zext(x) ++ l = zext(x ++ l)
            let x = self.concat(nh.a, l);
            return self.zext(w, x);
        }
        self.mk(Op::Concat, w, h, l, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.k(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(nc) = self.is_not(c) {
            return self.ite(nc, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(BinOp::Or, 1, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(BinOp::And, 1, nc, b);
                }
                (None, Some(0)) => return self.bin(BinOp::And, 1, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(BinOp::Or, 1, nc, a);
                }
                _ => {}
            }
        }
        // nested same cond
        let na = self.n(a).clone();
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b).clone();
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let e = self.mk(Op::Ite, w, c, a, b);
        // if y < x then x - y ..
        let (x, y) = (self.iv_under(c, a, 0), {
            let nc = if depends_sub(self, b, 0) { Some(self.not(c)) } else { None };
            nc.and_then(|nc| self.iv_under(nc, b, 0))
        });
        if x.is_some() || y.is_some() {
            let x = x.unwrap_or(self.iv[a as usize].1);
            let y = y.unwrap_or(self.iv[b as usize].1);
            let iv = &mut self.iv[e as usize];
            iv.1 = iv.1.min(x.max(y)).max(iv.0);
        }
        e
    }
    /// An upper bound of e where c holds (of a difference below shifts and extensions)
    fn iv_under(&mut self, c: E, e: E, depth: u32) -> Option<u128> {
        let n = self.n(e).clone();
        match n.op {
            Op::Sub => {
                let hi = self.iv[n.a as usize].1;
                if self.iv[e as usize].1 <= hi || !depends_cmp(self, c) {
                    return None;
                }
                if c == self.cmp(Pred::Ule, n.b, n.a) || c == self.cmp(Pred::Ult, n.b, n.a) {
                    return Some(hi);
                }
                None
            }
            Op::ZExt if depth < 4 => self.iv_under(c, n.a, depth + 1),
            Op::SExt if depth < 4 => {
                let hi = self.iv_under(c, n.a, depth + 1)?;
                if hi < 1u128 << (self.w(n.a) - 1) { Some(hi) } else { None }
            }
            Op::Extract(lo) if depth < 4 && lo + n.w == self.w(n.a) => Some(self.iv_under(c, n.a, depth + 1)? >> lo),
            _ => None,
        }
    }
    fn cmp2(&mut self, op: Op, a: E, b: E) -> E {
        let p = match op {
            Op::Eq => Pred::Eq,
            Op::Ult => Pred::Ult,
            Op::Ule => Pred::Ule,
            Op::Slt => Pred::Slt,
            _ => Pred::Sle,
        };
        self.cmp(p, a, b)
    }
    /// every bit of e as a GF(2)-linear sum of atoms
    fn lin(&mut self, e: E) -> Option<Rc<Vec<Lin>>> {
        if let Some(r) = self.lins.get(&e) {
            return r.clone();
        }
        let n = self.n(e).clone();
        let w = n.w as usize;
        let zero: Lin = Rc::new(vec![]);
        let one: Lin = Rc::new(vec![0]);
        let atoms = |e: E| -> Vec<Lin> { (0..w).map(|i| Rc::new(vec![e as u64 * 128 + i as u64 + 1])).collect() };
        let v: Vec<Lin> = match n.op {
            Op::Const(k) => (0..w).map(|i| if k >> i & 1 == 1 { one.clone() } else { zero.clone() }).collect(),
            Op::Xor => {
                let (x, y) = (self.lin(n.a)?, self.lin(n.b)?);
                (0..w).map(|i| lin_xor(&x[i], &y[i])).collect()
            }
            Op::And if self.k(n.b).is_some() => {
                let k = self.k(n.b).unwrap();
                let x = self.lin(n.a)?;
                (0..w).map(|i| if k >> i & 1 == 1 { x[i].clone() } else { zero.clone() }).collect()
            }
            Op::ZExt => {
                let x = self.lin(n.a)?;
                (0..w).map(|i| x.get(i).cloned().unwrap_or(zero.clone())).collect()
            }
            Op::SExt => {
                let x = self.lin(n.a)?;
                (0..w).map(|i| x.get(i).unwrap_or(x.last().unwrap()).clone()).collect()
            }
            Op::Extract(lo) => {
                let x = self.lin(n.a)?;
                x[lo as usize..lo as usize + w].to_vec()
            }
            Op::Concat => {
                let (x, y) = (self.lin(n.a)?, self.lin(n.b)?);
                y.iter().chain(x.iter()).cloned().collect()
            }
            Op::Sub if self.k(n.a) == Some(0) && self.iv[n.b as usize].1 <= 1 => {
                let x = self.lin(n.b)?;
                (0..w).map(|_| x[0].clone()).collect()
            }
            Op::Mul if self.k(n.b).is_some() && self.iv[n.a as usize].1 <= 1 => {
                let k = self.k(n.b).unwrap();
                let x = self.lin(n.a)?;
                (0..w).map(|i| if k >> i & 1 == 1 { x[0].clone() } else { zero.clone() }).collect()
            }
            Op::Ite if self.k(n.b).is_some() && self.k(n.c).is_some() => {
                let (t, f) = (self.k(n.b).unwrap(), self.k(n.c).unwrap());
                let c = self.lin(n.a)?[0].clone();
                let nc = lin_xor(&c, &one);
                (0..w).map(|i| match (t >> i & 1, f >> i & 1) {
                    (0, 0) => zero.clone(),
                    (1, 1) => one.clone(),
                    (1, 0) => c.clone(),
                    _ => nc.clone(),
                }).collect()
            }
            Op::Eq if self.w(n.a) == 1 => {
                let (x, y) = (self.lin(n.a)?, self.lin(n.b)?);
                vec![lin_xor(&lin_xor(&x[0], &y[0]), &one)]
            }
            // single bit tests
            Op::Eq if self.k(n.b).is_some() && (self.w(n.a) as u32) <= 128 => {
                let k = self.k(n.b).unwrap();
                let pm = mask(self.w(n.a)) & !self.kz[n.a as usize];
                if pm.count_ones() == 1 && (k == 0 || k == pm) {
                    let x = self.lin(n.a)?[pm.trailing_zeros() as usize].clone();
                    vec![if k == 0 { lin_xor(&x, &one) } else { x }]
                } else {
                    atoms(e)
                }
            }
            Op::Slt if self.k(n.b) == Some(0) => {
                let x = self.lin(n.a)?.last().unwrap().clone();
                vec![x]
            }
            Op::Slt if self.k(n.a) == Some(mask(self.w(n.a))) => {
                let x = self.lin(n.b)?.last().unwrap().clone();
                vec![lin_xor(&x, &one)]
            }
            _ => atoms(e),
        };
        let r = if v.iter().map(|x| x.len()).max().unwrap_or(0) > 3000 { None } else { Some(Rc::new(v)) };
        self.lins.insert(e, r.clone());
        r
    }
    pub fn cmp(&mut self, p: Pred, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match p {
            Pred::Ne => {
                let e = self.cmp(Pred::Eq, a, b);
                return self.not(e);
            }
            Pred::Ugt => return self.cmp(Pred::Ult, b, a),
            Pred::Uge => return self.cmp(Pred::Ule, b, a),
            Pred::Sgt => return self.cmp(Pred::Slt, b, a),
            Pred::Sge => return self.cmp(Pred::Sle, b, a),
            _ => {}
        }
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.konst(1, fold_cmp(p, w, x, y) as u128);
        }
        if a == b {
            return self.konst(1, matches!(p, Pred::Eq | Pred::Ule | Pred::Sle) as u128);
        }
        let (ia, ib) = (self.iv[a as usize], self.iv[b as usize]);
        let half = if w >= 128 { 1u128 << 127 } else { 1u128 << (w - 1) };
        let p = match p {
            Pred::Slt if ia.1 < half && ib.1 < half => Pred::Ult,
            Pred::Sle if ia.1 < half && ib.1 < half => Pred::Ule,
            Pred::Slt | Pred::Sle => {
                if ia.0 >= half && ib.1 < half {
                    return self.konst(1, 1);
                }
                if ia.1 < half && ib.0 >= half {
                    return self.konst(1, 0);
                }
                if ia.0 >= half && ib.0 >= half {
                    if p == Pred::Slt { Pred::Ult } else { Pred::Ule }
                } else {
                    if let Some((x, y)) = self.narrow(a, b).filter(|n| *n != (a, b)) {
                        return self.cmp(if p == Pred::Slt { Pred::Ult } else { Pred::Ule }, x, y);
                    }
                    p
                }
            }
            Pred::Eq if self.k(a).is_none() && self.k(b).is_none() && (matches!(self.n(a).op, Op::Add | Op::Sub | Op::SExt) || matches!(self.n(b).op, Op::Add | Op::Sub | Op::SExt)) => {
                if let Some((x, y)) = self.narrow(a, b).filter(|n| n.0 != a && n.0 != b) {
                    return self.cmp(p, x, y);
                }
                p
            }
            p => p,
        };
        match p {
            Pred::Eq => {
                if ia.1 < ib.0 || ib.1 < ia.0 {
                    return self.konst(1, 0);
                }
                if self.nxor[a as usize] as u32 + self.nxor[b as usize] as u32 > 4 {
                    if let (Some(x), Some(y)) = (self.lin(a), self.lin(b)) {
                        let mut same = true;
                        for i in 0..w as usize {
                            let d = lin_xor(&x[i], &y[i]);
                            if d.len() == 1 && d[0] == 0 {
                                return self.konst(1, 0);
                            }
                            same &= d.is_empty();
                        }
                        if same {
                            return self.konst(1, 1);
                        }
                    }
                }
                let (a, b) = if self.k(a).is_some() || (self.k(b).is_none() && a > b) { (b, a) } else { (a, b) };
                if w == 1 {
                    if let Some(k) = self.k(b) {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    let x = self.bin(BinOp::Xor, 1, a, b);
                    return self.not(x);
                }
                if let Some(k) = self.k(b) {
                    let n = self.n(a).clone();
                    if k & self.kz[a as usize] != 0 {
                        return self.konst(1, 0);
                    }
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            let kk = self.konst(iw, k);
                            return self.cmp(Pred::Eq, n.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            if sx(k & mask(iw), iw) as u128 & mask(w) != k {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(iw, k);
                            return self.cmp(Pred::Eq, n.a, kk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.k(n.b) {
                                let kk = self.konst(w, k.wrapping_sub(k2));
                                return self.cmp(Pred::Eq, n.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.k(n.b) {
                                let kk = self.konst(w, k ^ k2);
                                return self.cmp(Pred::Eq, n.a, kk);
                            }
                            if k == 0 {
                                return self.cmp(Pred::Eq, n.a, n.b);
                            }
                        }
                        Op::Sub => {
                            if k == 0 {
                                return self.cmp(Pred::Eq, n.a, n.b);
                            }
                        }
                        Op::Concat => {
                            let wl = self.w(n.b);
                            let kh = self.konst(w - wl, k >> wl);
                            let kl = self.konst(wl, k & mask(wl));
                            let x = self.cmp(Pred::Eq, n.a, kh);
                            let y = self.cmp(Pred::Eq, n.b, kl);
                            return self.bin(BinOp::And, 1, x, y);
                        }
                        Op::Ite => {
                            let (kx, ky) = (self.k(n.b), self.k(n.c));
                            if kx.is_some() || ky.is_some() {
                                let x = self.cmp(Pred::Eq, n.b, b);
                                let y = self.cmp(Pred::Eq, n.c, b);
                                return self.ite(n.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (self.n(a).clone(), self.n(b).clone());
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.cmp(Pred::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                        let x = self.cmp(Pred::Eq, na.a, nb.a);
                        let y = self.cmp(Pred::Eq, na.b, nb.b);
                        return self.bin(BinOp::And, 1, x, y);
                    }
                    if na.op == Op::Add && nb.op == Op::Add {
                        if na.a == nb.a {
                            return self.cmp(Pred::Eq, na.b, nb.b);
                        }
                        if na.b == nb.b {
                            return self.cmp(Pred::Eq, na.a, nb.a);
                        }
                    }
                    if na.op == Op::Xor && nb.op == Op::Xor {
                        if na.a == nb.a {
                            return self.cmp(Pred::Eq, na.b, nb.b);
                        }
                        if na.b == nb.b {
                            return self.cmp(Pred::Eq, na.a, nb.a);
                        }
                    }
                    if let Some((x, y)) = self.cancel(a, b) {
                        return self.cmp(Pred::Eq, x, y);
                    }
                    // x + y == x  -> y == 0
                    if na.op == Op::Add && (na.a == b || na.b == b) {
                        let o = if na.a == b { na.b } else { na.a };
                        let z = self.konst(w, 0);
                        return self.cmp(Pred::Eq, o, z);
                    }
                    if nb.op == Op::Add && (nb.a == a || nb.b == a) {
                        let o = if nb.a == a { nb.b } else { nb.a };
                        let z = self.konst(w, 0);
                        return self.cmp(Pred::Eq, o, z);
                    }
                }
                self.mk(Op::Eq, 1, a, b, 0)
            }
            Pred::Ult | Pred::Ule => {
                let strict = p == Pred::Ult;
                if strict {
                    if ia.1 < ib.0 {
                        return self.konst(1, 1);
                    }
                    if ia.0 >= ib.1 {
                        return self.konst(1, 0);
                    }
                } else {
                    if ia.1 <= ib.0 {
                        return self.konst(1, 1);
                    }
                    if ia.0 > ib.1 {
                        return self.konst(1, 0);
                    }
                }
                if w == 1 {
                    // a<b : !a & b ; a<=b : !a | b
                    let na = self.not(a);
                    return self.bin(if strict { BinOp::And } else { BinOp::Or }, 1, na, b);
                }
                // canonicalise with constants: prefer Ule(k, x)/Ule(x,k)
                if strict {
                    if let Some(k) = self.k(b) {
                        if k == 1 {
                            let z = self.konst(w, 0);
                            return self.cmp(Pred::Eq, a, z);
                        }
                        let kk = self.konst(w, k - 1);
                        return self.cmp(Pred::Ule, a, kk);
                    }
                    if let Some(k) = self.k(a) {
                        let kk = self.konst(w, k + 1);
                        return self.cmp(Pred::Ule, kk, b);
                    }
                } else {
                    if self.k(b) == Some(0) {
                        return self.cmp(Pred::Eq, a, b);
                    }
                    if self.k(a) == Some(1) {
                        let z = self.konst(w, 0);
                        let e = self.cmp(Pred::Eq, b, z);
                        return self.not(e);
                    }
                }
                if let Some((x, y)) = self.cancel(a, b) {
                    return self.cmp(p, x, y);
                }
                let (na, nb) = (self.n(a).clone(), self.n(b).clone());
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.cmp(p, na.a, nb.a);
                }
                if na.op == Op::ZExt {
                    if let Some(k) = self.k(b) {
                        let iw = self.w(na.a);
                        if k <= mask(iw) {
                            let kk = self.konst(iw, k);
                            return self.cmp(p, na.a, kk);
                        }
                    }
                }
                if nb.op == Op::ZExt {
                    if let Some(k) = self.k(a) {
                        let iw = self.w(nb.a);
                        if k <= mask(iw) {
                            let kk = self.konst(iw, k);
                            return self.cmp(p, kk, nb.a);
                        }
                    }
                }
                self.mk(if strict { Op::Ult } else { Op::Ule }, 1, a, b, 0)
            }
            Pred::Slt => self.mk(Op::Slt, 1, a, b, 0),
            _ => self.mk(Op::Sle, 1, a, b, 0),
        }
    }

    // ---------- overflow predicates ----------
    /// returns (result, overflow flag)
    pub fn ovf(&mut self, kind: &str, signed: bool, w: u32, a: E, b: E) -> Option<(E, E)> {
        let op = match kind {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            _ => BinOp::Mul,
        };
        let r = self.bin(op, w, a, b);
        let half = 1u128 << (w - 1);
        let (ia, ib) = (self.iv[a as usize], self.iv[b as usize]);
        let m = mask(w);
        let f = if !signed {
            match op {
                BinOp::Add => {
                    if let Some(s) = ia.1.checked_add(ib.1) {
                        if s <= m {
                            return Some((r, self.konst(1, 0)));
                        }
                    }
                    // overflow iff a > m - b
                    if let Some(k) = self.k(b) {
                        let lim = self.konst(w, m - k);
                        self.cmp(Pred::Ugt, a, lim)
                    } else if let Some(k) = self.k(a) {
                        let lim = self.konst(w, m - k);
                        self.cmp(Pred::Ugt, b, lim)
                    } else {
                        let mm = self.konst(w, m);
                        let lim = self.bin(BinOp::Sub, w, mm, b);
                        self.cmp(Pred::Ugt, a, lim)
                    }
                }
                BinOp::Sub => self.cmp(Pred::Ult, a, b),
                _ => {
                    if let Some(s) = ia.1.checked_mul(ib.1) {
                        if s <= m {
                            return Some((r, self.konst(1, 0)));
                        }
                    }
                    let kk = self.k(b).map(|k| (k, a)).or(self.k(a).map(|k| (k, b)));
                    if let Some((k, x)) = kk {
                        if k == 0 {
                            self.konst(1, 0)
                        } else {
                            let lim = self.konst(w, m / k);
                            self.cmp(Pred::Ugt, x, lim)
                        }
                    } else {
                        if w > 64 {
                            return None;
                        }
                        let x = self.zext(2 * w, a);
                        let y = self.zext(2 * w, b);
                        let p = self.bin(BinOp::Mul, 2 * w, x, y);
                        let lim = self.konst(2 * w, m);
                        self.cmp(Pred::Ugt, p, lim)
                    }
                }
            }
        } else {
            // both non-negative fast paths
            let nn = ia.1 < half && ib.1 < half;
            match op {
                BinOp::Add if nn => {
                    let s = ia.1 + ib.1;
                    if s < half {
                        return Some((r, self.konst(1, 0)));
                    }
                    let lim = self.konst(w, half);
                    self.cmp(Pred::Uge, r, lim)
                }
                BinOp::Sub if nn => self.konst(1, 0),
                BinOp::Mul if nn && ia.1.checked_mul(ib.1).map_or(false, |s| s < half) => self.konst(1, 0),
                BinOp::Mul if nn && (self.k(a).is_some() || self.k(b).is_some()) => {
                    let (k, x) = if let Some(k) = self.k(b) { (k, a) } else { (self.k(a).unwrap(), b) };
                    if k == 0 {
                        self.konst(1, 0)
                    } else {
                        let lim = self.konst(w, (half - 1) / k);
                        self.cmp(Pred::Ugt, x, lim)
                    }
                }
                _ => {
                    let ww = if op == BinOp::Mul { 2 * w } else { w + 1 };
                    if ww > 128 {
                        return None;
                    }
                    let x = self.sext(ww, a);
                    let y = self.sext(ww, b);
                    let p = self.bin(op, ww, x, y);
                    let q = self.sext(ww, r);
                    let e = self.cmp(Pred::Eq, p, q);
                    self.not(e)
                }
            }
        };
        Some((r, f))
    }

    // ---------- evaluation ----------
    pub fn eval(&self, e: E, m: &Model, memo: &mut HashMap<E, u128>) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const(k) => return k,
            Op::Var(v) => return m.get(&v).copied().unwrap_or(self.vars[v as usize].lo),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let w = n.w;
        let r = match n.op {
            Op::Ite => {
                if self.eval(n.a, m, memo) == 1 { self.eval(n.b, m, memo) } else { self.eval(n.c, m, memo) }
            }
            Op::ZExt => self.eval(n.a, m, memo),
            Op::SExt => sx(self.eval(n.a, m, memo), self.w(n.a)) as u128 & mask(w),
            Op::Extract(l) => (self.eval(n.a, m, memo) >> l) & mask(w),
            Op::Concat => (self.eval(n.a, m, memo) << self.w(n.b)) | self.eval(n.b, m, memo),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let (x, y) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo));
                let p = match n.op {
                    Op::Eq => Pred::Eq,
                    Op::Ult => Pred::Ult,
                    Op::Ule => Pred::Ule,
                    Op::Slt => Pred::Slt,
                    _ => Pred::Sle,
                };
                fold_cmp(p, self.w(n.a), x, y) as u128
            }
            _ => {
                let (x, y) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo));
                let o = opbin(n.op);
                match fold_bin(o, w, x, y) {
                    Some(v) => v,
                    None => {
                        // SMT-LIB semantics for division by zero
                        match n.op {
                            Op::UDiv => mask(w),
                            Op::SDiv => if sx(x, w) < 0 { 1 } else { mask(w) },
                            _ => x,
                        }
                    }
                }
            }
        };
        memo.insert(e, r);
        r
    }
    /// interval of e under path bounds
    pub fn interval(&self, e: E, b: &Bounds, memo: &mut HashMap<E, (u128, u128)>) -> (u128, u128) {
        if b.is_empty() {
            return self.iv[e as usize];
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let n = &self.nodes[e as usize];
        let st = self.iv[e as usize];
        let mut r = match n.op {
            Op::Const(_) => st,
            Op::Var(_) => st,
            _ if st.0 == st.1 => st,
            _ => {
                let ia = self.interval(n.a, b, memo);
                let ib = if uses_b(n.op) { self.interval(n.b, b, memo) } else { (0, 0) };
                let ic = if n.op == Op::Ite { self.interval(n.c, b, memo) } else { (0, 0) };
                let var = |i: u32| {
                    let v = &self.vars[i as usize];
                    (v.lo, v.hi)
                };
                let x = node_iv(n.op, n.w, self.w(n.a), if uses_b(n.op) { self.w(n.b) } else { 0 }, ia, ib, ic, &var);
                (x.0.max(st.0), x.1.min(st.1))
            }
        };
        if let Some(x) = b.get(&e) {
            r = (r.0.max(x.0), r.1.min(x.1));
        }
        if r.0 > r.1 {
            // contradictory; path infeasible. Stay conservative.
            r = st;
        }
        memo.insert(e, r);
        r
    }
    pub fn varset(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = &self.varsets[e as usize] {
            return v.clone();
        }
        let n = self.n(e).clone();
        let r = match n.op {
            Op::Const(_) => Rc::new(vec![]),
            Op::Var(v) => Rc::new(vec![v]),
            _ => {
                let a = self.varset(n.a);
                if !uses_b(n.op) {
                    a
                } else {
                    let b = self.varset(n.b);
                    let ab = union(&a, &b);
                    if n.op == Op::Ite {
                        let c = self.varset(n.c);
                        union(&ab, &c)
                    } else { ab }
                }
            }
        };
        self.varsets[e as usize] = Some(r.clone());
        r
    }
    /// refine bounds with the fact that boolean e is true
    pub fn learn(&self, e: E, b: &mut Bounds) {
        let n = self.n(e).clone();
        match n.op {
            Op::And if n.w == 1 => {
                self.learn(n.a, b);
                self.learn(n.b, b);
            }
            Op::Xor if n.w == 1 && self.k(n.b) == Some(1) => {
                let x = self.n(n.a).clone();
                b.insert(n.a, (0, 0));
                match x.op {
                    Op::Or if x.w == 1 => {
                        self.learn_false(x.a, b);
                        self.learn_false(x.b, b);
                    }
                    Op::Eq => {
                        // x != k at an endpoint
                        if let Some(k) = self.k(x.b) {
                            let cur = self.cur_iv(x.a, b);
                            if cur.0 == k && cur.0 < cur.1 {
                                self.setb(x.a, k + 1, cur.1, b);
                            } else if cur.1 == k && cur.0 < cur.1 {
                                self.setb(x.a, cur.0, k - 1, b);
                            }
                        }
                    }
                    _ => {}
                }
            }
            Op::Eq => {
                b.insert(e, (1, 1));
                let ib = self.cur_iv(n.b, b);
                let ia = self.cur_iv(n.a, b);
                self.setb(n.a, ib.0, ib.1, b);
                self.setb(n.b, ia.0, ia.1, b);
            }
            Op::Ule => {
                b.insert(e, (1, 1));
                let ib = self.cur_iv(n.b, b);
                let ia = self.cur_iv(n.a, b);
                self.setb(n.a, 0, ib.1, b);
                self.setb(n.b, ia.0, u128::MAX, b);
            }
            Op::Ult => {
                b.insert(e, (1, 1));
                let ib = self.cur_iv(n.b, b);
                let ia = self.cur_iv(n.a, b);
                if ib.1 > 0 {
                    self.setb(n.a, 0, ib.1 - 1, b);
                }
                self.setb(n.b, ia.0.saturating_add(1), u128::MAX, b);
            }
            _ => {
                b.insert(e, (1, 1));
            }
        }
    }
    fn learn_false(&self, e: E, b: &mut Bounds) {
        b.insert(e, (0, 0));
        let n = self.n(e);
        match n.op {
            Op::Or if n.w == 1 => {
                self.learn_false(n.a, b);
                self.learn_false(n.b, b);
            }
            Op::Xor if n.w == 1 && self.k(n.b) == Some(1) => self.learn(n.a, b),
            Op::Ule => {
                // b < a
                let ib = self.cur_iv(n.b, b);
                let ia = self.cur_iv(n.a, b);
                if ia.1 > 0 {
                    self.setb(n.b, 0, ia.1 - 1, b);
                }
                self.setb(n.a, ib.0.saturating_add(1), u128::MAX, b);
            }
            Op::Ult => {
                let ib = self.cur_iv(n.b, b);
                let ia = self.cur_iv(n.a, b);
                self.setb(n.b, 0, ia.1, b);
                self.setb(n.a, ib.0, u128::MAX, b);
            }
            _ => {}
        }
    }
    fn cur_iv(&self, e: E, b: &Bounds) -> (u128, u128) {
        let mut memo = HashMap::new();
        self.interval(e, b, &mut memo)
    }
    fn setb(&self, e: E, lo: u128, hi: u128, b: &mut Bounds) {
        let n = self.n(e);
        if let Op::Const(_) = n.op {
            return;
        }
        let c = self.cur_iv(e, b);
        let lo = lo.max(c.0);
        let hi = hi.min(c.1);
        if lo > hi || (lo, hi) == c {
            return;
        }
        b.insert(e, (lo, hi));
        // propagate downwards through simple invertible ops
        match n.op {
            Op::ZExt => self.setb(n.a, lo, hi, b),
            Op::Add => {
                if let Some(k) = self.k(n.b) {
                    let m = mask(n.w);
                    let ia = self.cur_iv(n.a, b);
                    // if the addition cannot wrap
                    if ia.1.checked_add(k).map_or(false, |s| s <= m) {
                        if lo >= k {
                            self.setb(n.a, lo - k, hi - k, b);
                        } else if hi >= k {
                            self.setb(n.a, 0, hi - k, b);
                        }
                    } else {
                        // a - kk  where kk = 2^w-k ; if ia.lo >= kk never borrows
                        let kk = (m - k).wrapping_add(1) & m;
                        if ia.0 >= kk {
                            if let Some(h) = hi.checked_add(kk) {
                                self.setb(n.a, lo + kk, h.min(m), b);
                            }
                        } else if hi.checked_add(kk).map_or(false, |h| h <= m) {
                            // a-kk in [lo,hi] with hi+kk<=m  => a in [lo+kk, hi+kk]
                            self.setb(n.a, lo + kk, hi + kk, b);
                        }
                    }
                }
            }
            Op::Mul => {
                if let Some(k) = self.k(n.b) {
                    let m = mask(n.w);
                    let ia = self.cur_iv(n.a, b);
                    if k > 0 && ia.1.checked_mul(k).map_or(false, |s| s <= m) {
                        self.setb(n.a, (lo + k - 1) / k, hi / k, b);
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = self.k(n.b) {
                    if k > 0 {
                        if let (Some(l), Some(h)) = (lo.checked_mul(k), hi.checked_mul(k).and_then(|x| x.checked_add(k - 1))) {
                            self.setb(n.a, l, h, b);
                        }
                    }
                }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                self.setb(n.a, lo >> wl, hi >> wl, b);
                if lo >> wl == hi >> wl {
                    self.setb(n.b, lo & mask(wl), hi & mask(wl), b);
                }
            }
            Op::Extract(0) => {
                // if upper part known zero
                let ia = self.cur_iv(n.a, b);
                if ia.1 <= mask(n.w) {
                    self.setb(n.a, lo, hi, b);
                }
            }
            Op::Ite => {
                let (ix, iy) = (self.cur_iv(n.b, b), self.cur_iv(n.c, b));
                let xin = ix.1 >= lo && ix.0 <= hi;
                let yin = iy.1 >= lo && iy.0 <= hi;
                if xin && !yin {
                    self.learn(n.a, b);
                } else if yin && !xin {
                    self.learn_false(n.a, b);
                }
            }
            _ if n.w == 1 && lo == hi => {
                if lo == 1 {
                    self.learn(e, b)
                } else {
                    self.learn_false(e, b)
                }
            }
            _ => {}
        }
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        if d == 0 {
            return format!("e{}", e);
        }
        match n.op {
            Op::Const(k) => format!("{}", k),
            Op::Var(v) => self.vars[v as usize].name.clone(),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            Op::ZExt | Op::SExt | Op::Extract(_) => format!("{:?}.{}({})", n.op, n.w, self.show(n.a, d - 1)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}
fn depends_sub(c: &Ctx, e: E, depth: u32) -> bool {
    let n = c.n(e);
    match n.op {
        Op::Sub => true,
        Op::ZExt | Op::SExt | Op::Extract(_) if depth < 4 => depends_sub(c, n.a, depth + 1),
        _ => false,
    }
}
fn depends_cmp(c: &Ctx, e: E) -> bool {
    match c.n(e).op {
        Op::Ult | Op::Ule => true,
        _ => c.is_not(e).map_or(false, |x| matches!(c.n(x).op, Op::Ult | Op::Ule)),
    }
}
pub fn union(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if a.is_empty() || Rc::ptr_eq(a, b) {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    let mut v = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            v.push(a[i]);
            i += 1;
        } else if a[i] > b[j] {
            v.push(b[j]);
            j += 1;
        } else {
            v.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    v.extend_from_slice(&a[i..]);
    v.extend_from_slice(&b[j..]);
    if v.len() == a.len() {
        return a.clone();
    }
    if v.len() == b.len() {
        return b.clone();
    }
    Rc::new(v)
}
pub fn uses_b(op: Op) -> bool {
    !matches!(op, Op::Var(_) | Op::Const(_) | Op::ZExt | Op::SExt | Op::Extract(_))
}
pub fn opbin(op: Op) -> BinOp {
    match op {
        Op::Add => BinOp::Add,
        Op::Sub => BinOp::Sub,
        Op::Mul => BinOp::Mul,
        Op::UDiv => BinOp::UDiv,
        Op::SDiv => BinOp::SDiv,
        Op::URem => BinOp::URem,
        Op::SRem => BinOp::SRem,
        Op::And => BinOp::And,
        Op::Or => BinOp::Or,
        Op::Xor => BinOp::Xor,
        Op::Shl => BinOp::Shl,
        Op::LShr => BinOp::LShr,
        _ => BinOp::AShr,
    }
}
fn node_iv(op: Op, w: u32, wa: u32, wb: u32, a: (u128, u128), b: (u128, u128), c: (u128, u128), var: &dyn Fn(u32) -> (u128, u128)) -> (u128, u128) {
    let m = mask(w);
    let full = (0, m);
    match op {
        Op::Const(k) => (k, k),
        Op::Var(v) => var(v),
        Op::Add => match (a.0.checked_add(b.0), a.1.checked_add(b.1)) {
            (Some(l), Some(h)) if h <= m => (l, h),
            (Some(l), Some(h)) if l > m => (l & m, h & m),
            _ => {
                // maybe "minus k"
                if w < 128 && b.0 == b.1 {
                    let kk = (m - b.0) + 1;
                    if a.0 >= kk {
                        return (a.0 - kk, a.1 - kk);
                    }
                }
                full
            }
        },
        Op::Sub => {
            if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full }
        }
        Op::Mul => match a.1.checked_mul(b.1) {
            Some(h) if h <= m => (a.0 * b.0, h),
            _ => full,
        },
        Op::UDiv => {
            if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full }
        }
        Op::URem => {
            if b.0 > 0 {
                if a.1 < b.0 { a } else { (0, a.1.min(b.1 - 1)) }
            } else { (0, m) }
        }
        Op::And => {
            if w == 1 {
                (a.0 & b.0, a.1 & b.1)
            } else if a.0 == a.1 && b.0 == b.1 {
                (a.0 & b.0, a.0 & b.0)
            } else {
                (0, a.1.min(b.1))
            }
        }
        Op::Or => {
            let h = pow2_mask_ge(a.1) | pow2_mask_ge(b.1);
            (a.0.max(b.0), h & m)
        }
        Op::Xor => {
            if a.0 == a.1 && b.0 == b.1 {
                return (a.0 ^ b.0, a.0 ^ b.0);
            }
            if w == 1 && b == (1, 1) {
                return (1 - a.1, 1 - a.0);
            }
            let h = pow2_mask_ge(a.1) | pow2_mask_ge(b.1);
            (0, h & m)
        }
        Op::Shl => full,
        Op::LShr => {
            let s = if b.0 >= w as u128 { return (0, 0) } else { b.0 as u32 };
            let s2 = b.1;
            let lo = if s2 >= w as u128 { 0 } else { a.0 >> s2 };
            (lo, a.1 >> s)
        }
        Op::AShr | Op::SDiv => full,
        Op::SRem => {
            let half = 1u128 << (w - 1);
            if a.1 < half && b.0 > 0 && b.1 < half { (0, a.1.min(b.1 - 1)) } else { full }
        }
        Op::Eq => {
            if a.0 == a.1 && a == b { (1, 1) } else if a.1 < b.0 || b.1 < a.0 { (0, 0) } else { (0, 1) }
        }
        Op::Ult => {
            if a.1 < b.0 { (1, 1) } else if a.0 >= b.1 { (0, 0) } else { (0, 1) }
        }
        Op::Ule => {
            if a.1 <= b.0 { (1, 1) } else if a.0 > b.1 { (0, 0) } else { (0, 1) }
        }
        Op::Slt | Op::Sle => {
            let half = if wa >= 128 { 1u128 << 127 } else { 1u128 << (wa - 1) };
            // map to order-preserving unsigned by flipping the sign when each
            // interval does not cross the sign boundary
            let f = |x: (u128, u128)| -> Option<(u128, u128)> {
                if x.1 < half || x.0 >= half { Some((x.0 ^ half, x.1 ^ half)) } else { None }
            };
            if let (Some(p), Some(q)) = (f(a), f(b)) {
                if op == Op::Slt {
                    if p.1 < q.0 { (1, 1) } else if p.0 >= q.1 { (0, 0) } else { (0, 1) }
                } else if p.1 <= q.0 { (1, 1) } else if p.0 > q.1 { (0, 0) } else { (0, 1) }
            } else {
                (0, 1)
            }
        }
        Op::Ite => {
            if a.0 == 1 { b } else if a.1 == 0 { c } else { (b.0.min(c.0), b.1.max(c.1)) }
        }
        Op::ZExt => a,
        Op::SExt => {
            let half = 1u128 << (wa - 1);
            if a.1 < half {
                a
            } else if a.0 >= half {
                let ext = m & !mask(wa);
                (a.0 | ext, a.1 | ext)
            } else {
                full
            }
        }
        Op::Extract(l) => {
            let (x, y) = (a.0 >> l, a.1 >> l);
            if y <= m {
                (x, y)
            } else if (x & !m) == (y & !m) {
                (x & m, y & m)
            } else {
                full
            }
        }
        Op::Concat => {
            if b.0 == 0 && wb == 0 {
                return full;
            }
            ((a.0 << wb) | b.0, (a.1 << wb) | b.1)
        }
    }
}
