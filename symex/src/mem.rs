//! Byte-addressed memory: concrete addresses, possibly symbolic bytes.
use crate::expr::*;
use crate::ir::mask;
use std::rc::Rc;

pub const HEAP_BASE: u64 = 0x100_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// 0 = concrete byte; otherwise ((expr+1) << 8) | byte index
    pub sym: Option<Vec<u64>>,
    pub ro: bool,
    pub heap: bool,
}
#[derive(Clone)]
pub struct Slot {
    pub base: u64,
    pub size: u64,
    pub obj: Option<Rc<Obj>>,
}
#[derive(Clone)]
pub struct Mem {
    pub glob: Rc<Vec<Slot>>,
    pub heap: Rc<Vec<Slot>>,
    pub heap_next: u64,
    pub stacks: Vec<Vec<Slot>>,
    pub live_heap: i64,
    pub freed: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loc {
    G(usize),
    H(usize),
    S(usize, usize),
}
#[derive(Debug)]
pub struct MemErr(pub String);

fn srch(v: &[Slot], a: u64) -> Option<usize> {
    let i = v.partition_point(|s| s.base <= a);
    if i == 0 {
        return None;
    }
    let s = &v[i - 1];
    if a <= s.base + s.size { Some(i - 1) } else { None }
}
pub fn enc(e: E, i: u32) -> u64 {
    ((e as u64 + 1) << 8) | i as u64
}
impl Mem {
    pub fn new() -> Mem {
        Mem { glob: Rc::new(vec![]), heap: Rc::new(vec![]), heap_next: HEAP_BASE, stacks: vec![vec![]], live_heap: 0, freed: 0 }
    }
    pub fn find(&self, a: u64) -> Option<Loc> {
        if a >= STACK_BASE {
            let t = ((a - STACK_BASE) >> 36) as usize;
            if t >= self.stacks.len() {
                return None;
            }
            srch(&self.stacks[t], a).map(|i| Loc::S(t, i))
        } else if a >= HEAP_BASE {
            srch(&self.heap, a).map(Loc::H)
        } else {
            srch(&self.glob, a).map(Loc::G)
        }
    }
    pub fn slot(&self, l: Loc) -> &Slot {
        match l {
            Loc::G(i) => &self.glob[i],
            Loc::H(i) => &self.heap[i],
            Loc::S(t, i) => &self.stacks[t][i],
        }
    }
    fn slot_mut(&mut self, l: Loc) -> &mut Slot {
        match l {
            Loc::G(i) => &mut Rc::make_mut(&mut self.glob)[i],
            Loc::H(i) => &mut Rc::make_mut(&mut self.heap)[i],
            Loc::S(t, i) => &mut self.stacks[t][i],
        }
    }
    /// locate [a,a+n) as a readable range
    pub fn range(&self, a: u64, n: u64) -> Result<(Loc, usize), MemErr> {
        match self.find(a) {
            None => Err(MemErr(format!("access to unmapped address {:#x} (len {})", a, n))),
            Some(l) => {
                let s = self.slot(l);
                if s.obj.is_none() {
                    return Err(MemErr(format!("use after free at {:#x} (object base {:#x} size {}, len {})", a, s.base, s.size, n)));
                }
                let off = a - s.base;
                if off + n > s.size {
                    return Err(MemErr(format!("out-of-bounds access: offset {} len {} in object of size {}", off, n, s.size)));
                }
                Ok((l, off as usize))
            }
        }
    }
    pub fn obj(&self, l: Loc) -> &Obj {
        self.slot(l).obj.as_ref().unwrap()
    }
    pub fn obj_mut(&mut self, l: Loc) -> &mut Obj {
        Rc::make_mut(self.slot_mut(l).obj.as_mut().unwrap())
    }
    pub fn alloc(&mut self, size: u64, align: u64, fill: u8) -> u64 {
        let al = align.max(16);
        let a = (self.heap_next + al - 1) / al * al;
        self.heap_next = a + size.max(1) + 32;
        if self.freed > 4096 {
            Rc::make_mut(&mut self.heap).retain(|s| s.obj.is_some());
            self.freed = 0;
        }
        Rc::make_mut(&mut self.heap).push(Slot { base: a, size, obj: Some(Rc::new(Obj { data: vec![fill; size as usize], sym: None, ro: false, heap: true })) });
        self.live_heap += 1;
        a
    }
    pub fn free(&mut self, a: u64) -> Result<(), MemErr> {
        match self.find(a) {
            Some(Loc::H(i)) => {
                let s = &self.heap[i];
                if s.base != a {
                    return Err(MemErr(format!("free of interior pointer {:#x}", a)));
                }
                if s.obj.is_none() {
                    return Err(MemErr(format!("double free of {:#x}", a)));
                }
                Rc::make_mut(&mut self.heap)[i].obj = None;
                self.live_heap -= 1;
                self.freed += 1;
                Ok(())
            }
            _ => Err(MemErr(format!("free of non-heap pointer {:#x}", a))),
        }
    }
    pub fn heap_size(&self, a: u64) -> Option<u64> {
        match self.find(a) {
            Some(Loc::H(i)) if self.heap[i].base == a && self.heap[i].obj.is_some() => Some(self.heap[i].size),
            _ => None,
        }
    }
    pub fn alloca(&mut self, tid: usize, size: u64, align: u64) -> u64 {
        let st = &mut self.stacks[tid];
        let top = st.last().map(|s| s.base + s.size.max(1)).unwrap_or(STACK_BASE + ((tid as u64) << 36) + 0x1000);
        let al = align.max(16);
        let a = (top + 16 + al - 1) / al * al;
        st.push(Slot { base: a, size, obj: Some(Rc::new(Obj { data: vec![0xCD; size as usize], sym: None, ro: false, heap: false })) });
        a
    }
    /// read n<=16 bytes as integer (value, or expression)
    pub fn read(&self, ctx: &mut Ctx, a: u64, n: u64) -> Result<Result<u128, E>, MemErr> {
        let (l, off) = self.range(a, n)?;
        let o = self.obj(l);
        let n = n as usize;
        let symb = match &o.sym {
            Some(s) => s[off..off + n].iter().any(|x| *x != 0),
            None => false,
        };
        if !symb {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = (v << 8) | o.data[off + i] as u128;
            }
            return Ok(Ok(v));
        }
        let s = o.sym.as_ref().unwrap();
        // group from the most significant byte down
        let mut acc: Option<E> = None;
        let mut i = n;
        while i > 0 {
            let x = s[off + i - 1];
            let mut j = i - 1;
            let piece;
            if x == 0 {
                let mut v = o.data[off + j] as u128;
                while j > 0 && s[off + j - 1] == 0 {
                    j -= 1;
                    v = (v << 8) | o.data[off + j] as u128;
                }
                piece = ctx.konst(8 * (i - j) as u32, v);
            } else {
                let e = ((x >> 8) - 1) as E;
                let mut bi = (x & 255) as u32;
                while j > 0 && bi > 0 && s[off + j - 1] == enc(e, bi - 1) {
                    j -= 1;
                    bi -= 1;
                }
                piece = ctx.extract(e, bi * 8, 8 * (i - j) as u32);
            }
            acc = Some(match acc {
                None => piece,
                Some(h) => ctx.concat(h, piece),
            });
            i = j;
        }
        let e = acc.unwrap();
        Ok(match ctx.k(e) {
            Some(k) => Ok(k),
            None => Err(e),
        })
    }
    pub fn write_c(&mut self, a: u64, n: u64, v: u128) -> Result<(), MemErr> {
        let (l, off) = self.range(a, n)?;
        let o = self.obj(l);
        if o.ro {
            return Err(MemErr(format!("write to read-only memory {:#x}", a)));
        }
        let o = self.obj_mut(l);
        for i in 0..n as usize {
            o.data[off + i] = (v >> (8 * i)) as u8;
        }
        if let Some(s) = &mut o.sym {
            for i in 0..n as usize {
                s[off + i] = 0;
            }
        }
        Ok(())
    }
    pub fn write_e(&mut self, ctx: &mut Ctx, a: u64, n: u64, e: E) -> Result<(), MemErr> {
        debug_assert_eq!(ctx.w(e) as u64, n * 8);
        let (l, off) = self.range(a, n)?;
        if self.obj(l).ro {
            return Err(MemErr(format!("write to read-only memory {:#x}", a)));
        }
        // split concatenations so that bytes stay precise
        let node = ctx.n(e).clone();
        if node.op == Op::Concat && ctx.w(node.b) % 8 == 0 {
            let nl = ctx.w(node.b) as u64 / 8;
            let put = |m: &mut Mem, ctx: &mut Ctx, a: u64, n: u64, x: E| match ctx.k(x) {
                Some(k) => m.write_c(a, n, k),
                None => m.write_e(ctx, a, n, x),
            };
            put(self, ctx, a, nl, node.b)?;
            return put(self, ctx, a + nl, n - nl, node.a);
        }
        if node.op == Op::ZExt && ctx.w(node.a) % 8 == 0 {
            let nl = ctx.w(node.a) as u64 / 8;
            self.write_e(ctx, a, nl, node.a)?;
            if n - nl > 16 {
                unreachable!();
            }
            return self.write_c(a + nl, n - nl, 0);
        }
        let (e, sh) = match node.op {
            Op::Extract(lo) if lo % 8 == 0 && ctx.w(node.a) % 8 == 0 => (node.a, lo / 8),
            _ => (e, 0),
        };
        let o = self.obj_mut(l);
        let len = o.data.len();
        let s = o.sym.get_or_insert_with(|| vec![0; len]);
        for i in 0..n as usize {
            s[off + i] = enc(e, sh + i as u32);
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), MemErr> {
        if n == 0 {
            return Ok(());
        }
        let (ls, os) = self.range(s, n)?;
        let (ld, od) = self.range(d, n)?;
        let n = n as usize;
        let so = self.obj(ls);
        if self.obj(ld).ro {
            return Err(MemErr(format!("write to read-only memory {:#x}", d)));
        }
        let bytes: Vec<u8> = so.data[os..os + n].to_vec();
        let sy: Option<Vec<u64>> = so.sym.as_ref().map(|v| v[os..os + n].to_vec()).filter(|v| v.iter().any(|x| *x != 0));
        let o = self.obj_mut(ld);
        o.data[od..od + n].copy_from_slice(&bytes);
        match sy {
            Some(v) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                s[od..od + n].copy_from_slice(&v);
            }
            None => {
                if let Some(s) = &mut o.sym {
                    for x in &mut s[od..od + n] {
                        *x = 0;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn bytes(&self, a: u64, n: u64) -> Option<Vec<u8>> {
        if n == 0 {
            return Some(vec![]);
        }
        let (l, off) = self.range(a, n).ok()?;
        let o = self.obj(l);
        if let Some(s) = &o.sym {
            if s[off..off + n as usize].iter().any(|x| *x != 0) {
                return None;
            }
        }
        Some(o.data[off..off + n as usize].to_vec())
    }
}
#[allow(dead_code)]
pub fn m64(x: u128) -> u64 {
    (x & mask(64)) as u64
}
