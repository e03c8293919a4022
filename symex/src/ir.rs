//! LLVM IR text reader: types, constants, instructions.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    C(u128),
    S(u32),
    A(Rc<Vec<V>>),
}
impl V {
    pub fn c(&self) -> Option<u128> {
        if let V::C(x) = self { Some(*x) } else { None }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, TyId),
    Vec(u64, TyId),
    Struct(Vec<TyId>, bool),
    Opaque,
}
pub type TyId = u32;

#[derive(Default)]
pub struct Types {
    pub v: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
}
impl Types {
    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.map.get(&t) {
            return *i;
        }
        let i = self.v.len() as TyId;
        self.v.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn get(&self, t: TyId) -> &Ty {
        &self.v[t as usize]
    }
    pub fn align(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vec(n, e) => (n * self.bits(*e) / 8).next_power_of_two().max(1),
            Ty::Struct(fs, packed) => {
                if *packed { 1 } else { fs.iter().map(|f| self.align(*f)).max().unwrap_or(1) }
            }
            _ => 1,
        }
    }
    pub fn bits(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(w) => *w as u64,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vec(n, e) => n * self.bits(*e),
            _ => self.size(t) * 8,
        }
    }
    pub fn size(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align(t);
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vec(n, e) => ((n * self.bits(*e) + 7) / 8).next_power_of_two(),
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for f in fs {
                    if !packed {
                        let a = self.align(*f);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size(*f);
                }
                let a = self.align(t);
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: TyId, idx: usize) -> (u64, TyId) {
        match self.get(t) {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (i, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = self.align(*f);
                        o = (o + a - 1) / a * a;
                    }
                    if i == idx {
                        return (o, *f);
                    }
                    o += self.size(*f);
                }
                panic!("field index")
            }
            Ty::Arr(_, e) => (idx as u64 * self.size(*e), *e),
            Ty::Vec(_, e) => (idx as u64 * self.bits(*e) / 8, *e),
            x => panic!("field_off of {:?}", x),
        }
    }
    /// scalar width (ints, ptrs, floats)
    pub fn scalar_w(&self, t: TyId) -> Option<u32> {
        match self.get(t) {
            Ty::Int(w) => Some(*w),
            Ty::Ptr | Ty::Double => Some(64),
            Ty::Float => Some(32),
            _ => None,
        }
    }
    /// (element width, lanes); lanes 0 = scalar
    pub fn lanes(&self, t: TyId) -> Option<(u32, u32)> {
        match self.get(t) {
            Ty::Vec(n, e) => self.scalar_w(*e).map(|w| (w, *n as u32)),
            _ => self.scalar_w(t).map(|w| (w, 0)),
        }
    }
    pub fn zero(&self, t: TyId) -> V {
        match self.get(t) {
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let z = self.zero(*e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(|f| self.zero(*f)).collect())),
            _ => V::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { ZExt, SExt, Trunc, Bitcast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Opd), Asm(String) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u32, lanes: u32, a: Opd, b: Opd, d: u32 },
    ICmp { p: Pred, w: u32, lanes: u32, a: Opd, b: Opd, d: u32 },
    FCmp { p: String, w: u32, a: Opd, b: Opd, d: u32 },
    Cast { op: CastOp, fw: u32, tw: u32, fl: u32, tl: u32, a: Opd, d: u32 },
    Select { w: u32, scalar: bool, lanes: u32, c: Opd, a: Opd, b: Opd, d: u32 },
    Load { ty: TyId, p: Opd, d: u32 },
    Store { ty: TyId, v: Opd, p: Opd },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u32, i64)>, d: u32 },
    Alloca { size: u64, align: u64, n: Option<Opd>, d: u32 },
    Call { f: Callee, args: Vec<(TyId, Opd)>, rt: TyId, d: u32, next: u32 /* invoke normal dest or MAX */ },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    ExtractValue { a: Opd, idx: Vec<u32>, d: u32 },
    InsertValue { a: Opd, v: Opd, idx: Vec<u32>, d: u32 },
    ExtractElt { a: Opd, i: Opd, d: u32 },
    InsertElt { a: Opd, v: Opd, i: Opd, d: u32 },
    Shuffle { a: Opd, b: Opd, n: u32, mask: Vec<u32>, d: u32 },
    Rmw { op: String, w: u32, p: Opd, v: Opd, d: u32 },
    CmpXchg { w: u32, p: Opd, e: Opd, n: Opd, d: u32 },
    Fence,
    Freeze { a: Opd, d: u32 },
    Unsupported(String),
}
pub const NOREG: u32 = u32::MAX;

#[derive(Debug)]
pub struct Block {
    /// phis: (dst, [(pred block, value)])
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<(Inst, u32)>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub nregs: usize,
    pub params: Vec<(u32, TyId)>,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub dem: String,
    pub body: Option<(usize, usize)>, // byte range including define line
    pub addr: u64,
}
pub struct GlobalDecl {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub tls: bool,
    pub ty: TyId,
    pub init_pos: Option<usize>, // byte pos in source of initializer
}

pub struct Module {
    pub src: Vec<u8>,
    pub types: Types,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<GlobalDecl>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    // debug info: id -> (kind, fields)
    pub md: HashMap<u32, (usize, usize)>,
    pub parsed: HashMap<u32, Rc<Func>>,
    pub dbgcache: HashMap<u32, Rc<(String, String, u32)>>, // file, func, line
}

pub const FUNC_BASE: u64 = 0x4000_0000;
pub const GLOB_BASE: u64 = 0x1_0000_0000;

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String),      // word, number
    L(String),      // %x
    G(String),      // @x
    S(Vec<u8>),     // "..." string
    CS(Vec<u8>),    // c"..." string
    M(String),      // !foo
    H,              // #n
    P(u8),
    Eof,
}

struct Lx<'a> {
    s: &'a [u8],
    i: usize,
    line_start_of_cur: bool,
    cur: T,
    newline_before: bool,
}
fn isid(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+'
}
fn unesc(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 {
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
            if let (Some(a), Some(b)) = (h(s[i + 1]), h(s[i + 2])) {
                o.push(a * 16 + b);
                i += 3;
                continue;
            }
        }
        if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
            continue;
        }
        o.push(s[i]);
        i += 1;
    }
    o
}
impl<'a> Lx<'a> {
    fn new(s: &'a [u8], i: usize) -> Self {
        let mut l = Lx { s, i, line_start_of_cur: true, cur: T::Eof, newline_before: true };
        l.adv();
        l
    }
    fn adv(&mut self) {
        let s = self.s;
        self.newline_before = false;
        loop {
            if self.i >= s.len() {
                self.cur = T::Eof;
                return;
            }
            let c = s[self.i];
            if c == b'\n' {
                self.newline_before = true;
                self.i += 1;
            } else if c == b' ' || c == b'\t' || c == b'\r' {
                self.i += 1;
            } else if c == b';' {
                while self.i < s.len() && s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
        let c = s[self.i];
        let qs = |i: usize| -> (usize, usize) {
            // i at opening quote; returns (start,end) of content
            let mut j = i + 1;
            while s[j] != b'"' {
                j += 1;
            }
            (i + 1, j)
        };
        self.cur = match c {
            b'%' | b'@' | b'!' | b'#' | b'$' if c != b'$' => {
                if s[self.i + 1] == b'"' {
                    let (a, b) = qs(self.i + 1);
                    self.i = b + 1;
                    let n = String::from_utf8_lossy(&unesc(&s[a..b])).to_string();
                    match c {
                        b'%' => T::L(n),
                        b'@' => T::G(n),
                        _ => T::M(n),
                    }
                } else {
                    let st = self.i + 1;
                    let mut j = st;
                    while j < s.len() && isid(s[j]) {
                        j += 1;
                    }
                    self.i = j;
                    let n = String::from_utf8_lossy(&s[st..j]).to_string();
                    match c {
                        b'%' => T::L(n),
                        b'@' => T::G(n),
                        b'!' => T::M(n),
                        _ => T::H,
                    }
                }
            }
            b'"' => {
                let (a, b) = qs(self.i);
                self.i = b + 1;
                T::S(unesc(&s[a..b]))
            }
            b'c' if s[self.i + 1] == b'"' => {
                let (a, b) = qs(self.i + 1);
                self.i = b + 1;
                T::CS(unesc(&s[a..b]))
            }
            _ if isid(c) => {
                let st = self.i;
                let mut j = st;
                while j < s.len() && isid(s[j]) {
                    j += 1;
                }
                self.i = j;
                T::W(String::from_utf8_lossy(&s[st..j]).to_string())
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        };
    }
    fn next(&mut self) -> T {
        let t = self.cur.clone();
        self.adv();
        t
    }
    fn is(&self, c: u8) -> bool {
        self.cur == T::P(c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(&self.cur, T::W(x) if x == w)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(160);
        let b = (self.i + 100).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).to_string()
    }
    fn exp(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' got {:?} near: {}", c as char, self.cur, self.ctx());
        }
    }
    fn skip_parens(&mut self) {
        // cur is '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => panic!("eof"),
                _ => {}
            }
        }
    }
    /// Skip to the first token on a new line, collecting !dbg id
    fn skip_line(&mut self) -> u32 {
        let mut dbg = 0;
        while !self.newline_before && self.cur != T::Eof {
            if let T::M(m) = &self.cur {
                if m == "dbg" {
                    self.adv();
                    if self.newline_before {
                        break;
                    }
                    if let T::M(n) = &self.cur {
                        dbg = n.parse().unwrap_or(0);
                    }
                }
            }
            self.adv();
        }
        dbg
    }
}

fn is_const_kw(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "splat" | "add" | "sub" | "trunc" | "xor" | "asm" | "ptrtoaddr"
    ) || w.as_bytes()[0].is_ascii_digit()
        || w.as_bytes()[0] == b'-'
}

pub struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nblocks: u32,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) {
            return *r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), r);
        r
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read(path).expect("read ll");
        let mut m = Module {
            src: vec![],
            types: Types::default(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            aliases: HashMap::new(),
            md: HashMap::new(),
            parsed: HashMap::new(),
            dbgcache: HashMap::new(),
        };
        m.types.intern(Ty::Void);
        // pass 0: named types
        let mut pos = 0usize;
        let mut lines: Vec<(usize, usize)> = vec![];
        while pos < src.len() {
            let e = src[pos..].iter().position(|c| *c == b'\n').map(|x| pos + x).unwrap_or(src.len());
            lines.push((pos, e));
            pos = e + 1;
        }
        for &(a, b) in &lines {
            let l = &src[a..b];
            if l.starts_with(b"%") {
                let mut lx = Lx::new(&src[..b], a);
                if let T::L(n) = lx.next() {
                    lx.exp(b'=');
                    lx.eatw("type");
                    let t = m.ty(&mut lx);
                    m.types.named.insert(n, t);
                }
            }
        }
        let mut gaddr = GLOB_BASE;
        let mut i = 0;
        while i < lines.len() {
            let (a, b) = lines[i];
            let l = &src[a..b];
            if l.starts_with(b"@") {
                let mut lx = Lx::new(&src[..b], a);
                let n = match lx.next() {
                    T::G(n) => n,
                    x => panic!("{:?}", x),
                };
                lx.exp(b'=');
                let mut ext = false;
                let mut tls = false;
                let constant;
                loop {
                    match lx.next() {
                        T::W(w) => match w.as_str() {
                            "external" | "extern_weak" => ext = true,
                            "thread_local" => {
                                tls = true;
                                if lx.is(b'(') {
                                    lx.skip_parens();
                                }
                            }
                            "constant" => {
                                constant = true;
                                break;
                            }
                            "global" => {
                                constant = false;
                                break;
                            }
                            "alias" => {
                                let _ = m.ty(&mut lx);
                                lx.eat(b',');
                                let _ = m.ty(&mut lx);
                                if let T::G(t) = lx.next() {
                                    m.aliases.insert(n.clone(), t);
                                }
                                constant = true;
                                ext = true;
                                break;
                            }
                            "addrspace" => lx.skip_parens(),
                            _ => {}
                        },
                        T::Eof => panic!("bad global {}", n),
                        _ => {}
                    }
                }
                if m.aliases.contains_key(&n) {
                    i += 1;
                    continue;
                }
                let ty = m.ty(&mut lx);
                // position of initializer token: recompute by tracking
                let init_pos = if ext { None } else { Some(lx.tok_start()) };
                let size = m.types.size(ty);
                let al = m.types.align(ty).max(16);
                gaddr = (gaddr + al - 1) / al * al;
                let addr = gaddr;
                gaddr += size.max(1) + 32;
                m.gidx.insert(n.clone(), m.globals.len() as u32);
                m.globals.push(GlobalDecl { name: n, addr, size, constant, tls, ty, init_pos });
            } else if l.starts_with(b"define") || l.starts_with(b"declare") {
                let def = l.starts_with(b"define");
                // name: the first '@' token followed by '('
                let mut lx = Lx::new(&src[..b], a);
                let n = loop {
                    match lx.next() {
                        T::G(n) => {
                            if lx.is(b'(') {
                                break n;
                            }
                        }
                        T::Eof => panic!("no name"),
                        _ => {}
                    }
                };
                let id = m.funcs.len() as u32;
                let mut body = None;
                if def {
                    let mut j = i + 1;
                    while &src[lines[j].0..lines[j].1] != b"}" {
                        j += 1;
                    }
                    body = Some((a, lines[j].1));
                    i = j;
                }
                m.fidx.insert(n.clone(), id);
                m.funcs.push(FuncDecl { name: n, dem: String::new(), body, addr: FUNC_BASE + 16 * id as u64 });
            } else if l.starts_with(b"!") && l.len() > 1 && l[1].is_ascii_digit() {
                let mut k = 1;
                let mut id = 0u32;
                while k < l.len() && l[k].is_ascii_digit() {
                    id = id * 10 + (l[k] - b'0') as u32;
                    k += 1;
                }
                m.md.insert(id, (a + k + 3, b));
            }
            i += 1;
        }
        m.src = src;
        m.demangle();
        m
    }
    fn demangle(&mut self) {
        use std::io::Write;
        use std::process::*;
        let r = Command::new("c++filt").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn();
        if let Ok(mut ch) = r {
            let names: Vec<String> = self.funcs.iter().map(|f| f.name.clone()).collect();
            let mut si = ch.stdin.take().unwrap();
            let h = std::thread::spawn(move || {
                for n in names {
                    let _ = writeln!(si, "{}", n);
                }
            });
            let out = ch.wait_with_output().unwrap();
            h.join().unwrap();
            let o = String::from_utf8_lossy(&out.stdout).to_string();
            for (f, l) in self.funcs.iter_mut().zip(o.lines()) {
                f.dem = strip_hashes(l);
            }
        } else {
            for f in self.funcs.iter_mut() {
                f.dem = f.name.clone();
            }
        }
    }
    pub fn gaddr(&self, n: &str) -> u64 {
        let n = if let Some(t) = self.aliases.get(n) { t.as_str() } else { n };
        if let Some(g) = self.gidx.get(n) {
            return self.globals[*g as usize].addr;
        }
        if let Some(f) = self.fidx.get(n) {
            return self.funcs[*f as usize].addr;
        }
        panic!("unknown global @{}", n)
    }
    fn ty(&mut self, lx: &mut Lx) -> TyId {
        let mut t = match lx.next() {
            T::W(w) => match w.as_str() {
                "void" => self.types.intern(Ty::Void),
                "ptr" => {
                    if lx.isw("addrspace") {
                        lx.adv();
                        lx.skip_parens();
                    }
                    self.types.intern(Ty::Ptr)
                }
                "float" => self.types.intern(Ty::Float),
                "double" => self.types.intern(Ty::Double),
                "metadata" | "token" | "label" | "opaque" | "x86_fp80" => self.types.intern(Ty::Opaque),
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                    let n = w[1..].parse().unwrap();
                    self.types.intern(Ty::Int(n))
                }
                _ => panic!("type? {} near {}", w, lx.ctx()),
            },
            T::L(n) => *self.types.named.get(&n).unwrap_or_else(|| panic!("named type {}", n)),
            T::P(b'[') => {
                let n = match lx.next() {
                    T::W(w) => w.parse::<u64>().unwrap(),
                    x => panic!("{:?}", x),
                };
                lx.eatw("x");
                let e = self.ty(lx);
                lx.exp(b']');
                self.types.intern(Ty::Arr(n, e))
            }
            T::P(b'<') => {
                if lx.is(b'{') {
                    lx.adv();
                    let fs = self.tylist(lx, b'}');
                    lx.exp(b'>');
                    self.types.intern(Ty::Struct(fs, true))
                } else {
                    let n = match lx.next() {
                        T::W(w) => w.parse::<u64>().unwrap(),
                        x => panic!("{:?}", x),
                    };
                    lx.eatw("x");
                    let e = self.ty(lx);
                    lx.exp(b'>');
                    self.types.intern(Ty::Vec(n, e))
                }
            }
            T::P(b'{') => {
                let fs = self.tylist(lx, b'}');
                self.types.intern(Ty::Struct(fs, false))
            }
            x => panic!("type? {:?} near {}", x, lx.ctx()),
        };
        // function type "ret (args)" - only in call with varargs; caller handles
        let _ = &mut t;
        t
    }
    fn tylist(&mut self, lx: &mut Lx, end: u8) -> Vec<TyId> {
        let mut v = vec![];
        if lx.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty(lx));
            if lx.eat(b',') {
                continue;
            }
            lx.exp(end);
            return v;
        }
    }
    /// constant of given type
    fn konst(&mut self, lx: &mut Lx, ty: TyId) -> V {
        let t = self.types.get(ty).clone();
        match lx.next() {
            T::W(w) => match w.as_str() {
                "true" => V::C(1),
                "false" => V::C(0),
                "null" | "none" => V::C(0),
                "undef" | "poison" | "zeroinitializer" => self.types.zero(ty),
                "splat" => {
                    lx.exp(b'(');
                    let et = self.ty(lx);
                    let k = self.konst(lx, et);
                    lx.exp(b')');
                    if let Ty::Vec(n, _) = t {
                        V::A(Rc::new(vec![k; n as usize]))
                    } else {
                        panic!("splat")
                    }
                }
                "getelementptr" => {
                    while let T::W(x) = &lx.cur {
                        let x = x.clone();
                        lx.adv();
                        if x == "inrange" {
                            lx.skip_parens();
                        }
                    }
                    lx.exp(b'(');
                    let mut et = self.ty(lx);
                    lx.exp(b',');
                    let bt = self.ty(lx);
                    let base = self.konst(lx, bt).c().unwrap();
                    let mut off = 0i128;
                    let mut first = true;
                    while lx.eat(b',') {
                        while matches!(&lx.cur, T::W(x) if x == "inrange") {
                            lx.adv();
                        }
                        let it = self.ty(lx);
                        let k = self.konst(lx, it).c().unwrap();
                        let w = self.types.scalar_w(it).unwrap();
                        let k = sx(k, w);
                        if first {
                            off += k * self.types.size(et) as i128;
                            first = false;
                        } else {
                            let (o, e2) = self.types.field_off(et, 0);
                            let _ = o;
                            match self.types.get(et) {
                                Ty::Struct(..) => {
                                    let (o, e) = self.types.field_off(et, k as usize);
                                    off += o as i128;
                                    et = e;
                                }
                                _ => {
                                    off += k * self.types.size(e2) as i128;
                                    et = e2;
                                }
                            }
                        }
                    }
                    lx.exp(b')');
                    V::C((base as i128 + off) as u128 & mask(64))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    lx.exp(b'(');
                    let st = self.ty(lx);
                    let k = self.konst(lx, st);
                    lx.eatw("to");
                    let dt = self.ty(lx);
                    lx.exp(b')');
                    match (k, self.types.scalar_w(dt)) {
                        (V::C(x), Some(w)) => V::C(x & mask(w)),
                        (k, _) => k,
                    }
                }
                "add" | "sub" | "xor" => {
                    while let T::W(_) = &lx.cur {
                        lx.adv();
                    }
                    lx.exp(b'(');
                    let st = self.ty(lx);
                    let a = self.konst(lx, st).c().unwrap();
                    lx.exp(b',');
                    let st2 = self.ty(lx);
                    let b = self.konst(lx, st2).c().unwrap();
                    lx.exp(b')');
                    let wd = self.types.scalar_w(st).unwrap();
                    let r = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        _ => a ^ b,
                    };
                    V::C(r & mask(wd))
                }
                _ => {
                    // number
                    match t {
                        Ty::Double => {
                            let v = if let Some(h) = w.strip_prefix("f0x").or(w.strip_prefix("0x")) {
                                u64::from_str_radix(h, 16).unwrap()
                            } else {
                                w.parse::<f64>().unwrap_or_else(|_| panic!("f64 {}", w)).to_bits()
                            };
                            V::C(v as u128)
                        }
                        Ty::Float => {
                            let v = if let Some(h) = w.strip_prefix("f0x") {
                                u32::from_str_radix(h, 16).unwrap()
                            } else if let Some(h) = w.strip_prefix("0x") {
                                (f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits()
                            } else {
                                (w.parse::<f64>().unwrap() as f32).to_bits()
                            };
                            V::C(v as u128)
                        }
                        _ => {
                            let wd = self.types.scalar_w(ty).unwrap_or(64);
                            let v = if let Some(x) = w.strip_prefix('-') {
                                (x.parse::<u128>().unwrap_or_else(|_| panic!("num {} near {}", w, lx.ctx()))).wrapping_neg()
                            } else {
                                w.parse::<u128>().unwrap_or_else(|_| panic!("num {} near {}", w, lx.ctx()))
                            };
                            V::C(v & mask(wd))
                        }
                    }
                }
            },
            T::G(n) => V::C(self.gaddr(&n) as u128),
            T::CS(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            T::P(b'[') => self.klist(lx, b']'),
            T::P(b'{') => self.klist(lx, b'}'),
            T::P(b'<') => {
                if lx.eat(b'{') {
                    let r = self.klist(lx, b'}');
                    lx.exp(b'>');
                    r
                } else {
                    self.klist(lx, b'>')
                }
            }
            x => panic!("const? {:?} near {}", x, lx.ctx()),
        }
    }
    fn klist(&mut self, lx: &mut Lx, end: u8) -> V {
        let mut v = vec![];
        if lx.eat(end) {
            return V::A(Rc::new(v));
        }
        loop {
            let t = self.ty(lx);
            v.push(self.konst(lx, t));
            if lx.eat(b',') {
                continue;
            }
            lx.exp(end);
            return V::A(Rc::new(v));
        }
    }
    pub fn global_init(&mut self, g: usize) -> Option<V> {
        let pos = self.globals[g].init_pos?;
        let ty = self.globals[g].ty;
        let src = std::mem::take(&mut self.src);
        let r = {
            let mut lx = Lx::new(&src, pos);
            self.konst(&mut lx, ty)
        };
        self.src = src;
        Some(r)
    }
    fn opd(&mut self, lx: &mut Lx, cx: &mut FnCtx, ty: TyId) -> Opd {
        if let T::L(n) = &lx.cur {
            let r = cx.reg(n);
            lx.adv();
            return Opd::Reg(r);
        }
        Opd::K(self.konst(lx, ty))
    }
    fn skip_pattrs(&mut self, lx: &mut Lx) {
        loop {
            match &lx.cur {
                T::W(w) if !is_const_kw(w) => {
                    let al = w == "align";
                    lx.adv();
                    if lx.is(b'(') {
                        lx.skip_parens();
                    } else if al {
                        lx.adv();
                    }
                }
                T::S(_) => {
                    lx.adv();
                    if lx.eat(b'=') {
                        lx.adv();
                    }
                }
                T::H => lx.adv(),
                _ => return,
            }
        }
    }
    fn lbl(&mut self, lx: &mut Lx, cx: &mut FnCtx) -> u32 {
        if !lx.eatw("label") {
            panic!("label expected near {}", lx.ctx());
        }
        match lx.next() {
            T::L(n) => cx.blk(&n),
            x => panic!("{:?}", x),
        }
    }
    pub fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.parsed.get(&id) {
            return Some(f.clone());
        }
        let (a, b) = self.funcs[id as usize].body?;
        let src = std::mem::take(&mut self.src);
        let f = self.parse_func(&src[..b], a, id);
        self.src = src;
        let f = Rc::new(f);
        self.parsed.insert(id, f.clone());
        Some(f)
    }
    fn parse_func(&mut self, src: &[u8], a: usize, id: u32) -> Func {
        let mut lx = Lx::new(src, a);
        let mut cx = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
        // skip to @name
        loop {
            if let T::G(_) = &lx.cur {
                lx.adv();
                if lx.is(b'(') {
                    break;
                }
                continue;
            }
            lx.adv();
        }
        lx.exp(b'(');
        let mut params = vec![];
        let mut unnamed = 0usize;
        if !lx.eat(b')') {
            loop {
                if lx.is(b'.') || lx.isw("...") {
                    lx.adv();
                } else {
                    let t = self.ty(&mut lx);
                    self.skip_pattrs(&mut lx);
                    if let T::L(n) = &lx.cur {
                        let n = n.clone();
                        if n.parse::<usize>().is_ok() {
                            unnamed += 1;
                        }
                        params.push((cx.reg(&n), t));
                        lx.adv();
                    } else {
                        params.push((cx.reg(&format!("{}", unnamed)), t));
                        unnamed += 1;
                    }
                }
                if lx.eat(b',') {
                    continue;
                }
                lx.exp(b')');
                break;
            }
        }
        // skip to '{' at end of line
        while !lx.is(b'{') {
            lx.adv();
        }
        lx.adv();
        let mut blocks: Vec<Option<Block>> = vec![];
        // entry block label?
        let mut cur_label = None;
        if let Some(l) = self.label_here(&mut lx) {
            cur_label = Some(l);
        }
        let entry = cur_label.unwrap_or_else(|| format!("{}", unnamed));
        let e = cx.blk(&entry);
        assert_eq!(e, 0);
        let mut curb = 0u32;
        let mut blk = Block { phis: vec![], insts: vec![] };
        loop {
            if lx.is(b'}') {
                put(&mut blocks, curb, blk);
                break;
            }
            if let Some(l) = self.label_here(&mut lx) {
                put(&mut blocks, curb, blk);
                blk = Block { phis: vec![], insts: vec![] };
                curb = cx.blk(&l);
                continue;
            }
            self.inst(&mut lx, &mut cx, &mut blk);
        }
        let blocks = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![(Inst::Unsupported("missing block".into()), 0)] })).collect();
        Func { id, nregs: cx.regs.len(), params, blocks }
    }
    fn label_here(&mut self, lx: &mut Lx) -> Option<String> {
        if !lx.newline_before {
            return None;
        }
        match &lx.cur {
            T::W(w) => {
                if lx.i < lx.s.len() && lx.s[lx.i] == b':' {
                    let w = w.clone();
                    lx.adv();
                    lx.adv();
                    lx.newline_before = true;
                    return Some(w);
                }
                None
            }
            T::S(w) => {
                if lx.i < lx.s.len() && lx.s[lx.i] == b':' {
                    let w = String::from_utf8_lossy(w).to_string();
                    lx.adv();
                    lx.adv();
                    lx.newline_before = true;
                    return Some(w);
                }
                None
            }
            _ => None,
        }
    }
    fn inst(&mut self, lx: &mut Lx, cx: &mut FnCtx, blk: &mut Block) {
        let mut d = NOREG;
        // debug records: #dbg_value(...)
        if lx.cur == T::H {
            lx.adv();
            lx.skip_line();
            return;
        }
        if let T::L(n) = &lx.cur {
            d = cx.reg(n);
            lx.adv();
            lx.exp(b'=');
        }
        let mut op = match lx.next() {
            T::W(w) => w,
            x => panic!("inst? {:?} near {}", x, lx.ctx()),
        };
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = match lx.next() {
                T::W(w) => w,
                x => panic!("{:?}", x),
            };
        }
        macro_rules! flags {
            () => {
                while let T::W(w) = &lx.cur {
                    if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak") {
                        lx.adv();
                    } else if w == "inrange" {
                        lx.adv();
                        lx.skip_parens();
                    } else {
                        break;
                    }
                }
            };
        }
        let inst: Inst = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags!();
                let t = self.ty(lx);
                let a = self.opd(lx, cx, t);
                lx.exp(b',');
                let b = self.opd(lx, cx, t);
                let (w, lanes) = self.types.lanes(t).unwrap();
                use BinOp::*;
                let op = match op.as_str() {
                    "add" => Add,
                    "sub" => Sub,
                    "mul" => Mul,
                    "udiv" => UDiv,
                    "sdiv" => SDiv,
                    "urem" => URem,
                    "srem" => SRem,
                    "and" => And,
                    "or" => Or,
                    "xor" => Xor,
                    "shl" => Shl,
                    "lshr" => LShr,
                    "ashr" => AShr,
                    "fadd" => FAdd,
                    "fsub" => FSub,
                    "fmul" => FMul,
                    "fdiv" => FDiv,
                    _ => FRem,
                };
                Inst::Bin { op, w, lanes, a, b, d }
            }
            "icmp" => {
                flags!();
                let p = match lx.next() {
                    T::W(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!("pred {}", w),
                    },
                    x => panic!("{:?}", x),
                };
                let t = self.ty(lx);
                let a = self.opd(lx, cx, t);
                lx.exp(b',');
                let b = self.opd(lx, cx, t);
                let (w, lanes) = self.types.lanes(t).unwrap();
                Inst::ICmp { p, w, lanes, a, b, d }
            }
            "fcmp" => {
                flags!();
                let p = match lx.next() {
                    T::W(w) => w,
                    x => panic!("{:?}", x),
                };
                let t = self.ty(lx);
                let a = self.opd(lx, cx, t);
                lx.exp(b',');
                let b = self.opd(lx, cx, t);
                let w = self.types.scalar_w(t).unwrap_or(64);
                Inst::FCmp { p, w, a, b, d }
            }
            "fneg" => {
                flags!();
                lx.skip_line();
                Inst::Unsupported("fneg".into())
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                flags!();
                let t = self.ty(lx);
                let a = self.opd(lx, cx, t);
                if !lx.eatw("to") {
                    panic!("cast to");
                }
                let t2 = self.ty(lx);
                let (fw, fl) = self.types.lanes(t).unwrap();
                let (tw, tl) = self.types.lanes(t2).unwrap();
                let o = match op.as_str() {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fpext" => CastOp::FpExt,
                    "fptrunc" => CastOp::FpTrunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if tw < fw { CastOp::Trunc } else { CastOp::ZExt }
                    }
                    _ => CastOp::Bitcast,
                };
                Inst::Cast { op: o, fw, tw, fl, tl, a, d }
            }
            "select" => {
                flags!();
                let ct = self.ty(lx);
                let c = self.opd(lx, cx, ct);
                lx.exp(b',');
                let t = self.ty(lx);
                let a = self.opd(lx, cx, t);
                lx.exp(b',');
                let _ = self.ty(lx);
                let b = self.opd(lx, cx, t);
                let (_, lanes) = self.types.lanes(ct).unwrap();
                let w = self.types.lanes(t).map(|x| x.0);
                let scalar = self.types.scalar_w(t).is_some();
                Inst::Select { w: w.unwrap_or(0), scalar, lanes, c, a, b, d }
            }
            "load" => {
                flags!();
                let t = self.ty(lx);
                lx.exp(b',');
                let pt = self.ty(lx);
                let p = self.opd(lx, cx, pt);
                Inst::Load { ty: t, p, d }
            }
            "store" => {
                flags!();
                let t = self.ty(lx);
                let v = self.opd(lx, cx, t);
                lx.exp(b',');
                let pt = self.ty(lx);
                let p = self.opd(lx, cx, pt);
                Inst::Store { ty: t, v, p }
            }
            "getelementptr" => {
                flags!();
                let mut et = self.ty(lx);
                lx.exp(b',');
                let bt = self.ty(lx);
                let base = self.opd(lx, cx, bt);
                let mut off = 0i128;
                let mut idx = vec![];
                let mut first = true;
                while lx.is(b',') && !lx.newline_before {
                    lx.adv();
                    if let T::M(_) = &lx.cur {
                        break;
                    }
                    let it = self.ty(lx);
                    let o = self.opd(lx, cx, it);
                    let w = self.types.scalar_w(it).unwrap();
                    let scale;
                    if first {
                        scale = self.types.size(et);
                        first = false;
                    } else if let Ty::Struct(..) = self.types.get(et) {
                        let k = match &o {
                            Opd::K(V::C(k)) => *k as usize,
                            _ => panic!("struct idx"),
                        };
                        let (fo, e) = self.types.field_off(et, k);
                        off += fo as i128;
                        et = e;
                        continue;
                    } else {
                        let (_, e) = self.types.field_off(et, 0);
                        scale = self.types.size(e);
                        et = e;
                    }
                    match &o {
                        Opd::K(V::C(k)) => off += sx(*k, w) * scale as i128,
                        _ => idx.push((o, w, scale as i64)),
                    }
                }
                Inst::Gep { base, off: off as i64, idx, d }
            }
            "alloca" => {
                flags!();
                let t = self.ty(lx);
                let mut n = None;
                let mut align = self.types.align(t);
                while lx.is(b',') && !lx.newline_before {
                    lx.adv();
                    if lx.eatw("align") {
                        if let T::W(w) = lx.next() {
                            align = w.parse().unwrap();
                        }
                    } else if let T::W(_) = &lx.cur {
                        if lx.isw("addrspace") {
                            lx.adv();
                            lx.skip_parens();
                            continue;
                        }
                        let it = self.ty(lx);
                        n = Some(self.opd(lx, cx, it));
                    } else {
                        break;
                    }
                }
                Inst::Alloca { size: self.types.size(t), align, n, d }
            }
            "call" | "invoke" => {
                flags!();
                // cc & ret attrs
                loop {
                    match &lx.cur {
                        T::W(w) => {
                            let istype = matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "metadata" | "token") || (w.starts_with('i') && w[1..].parse::<u32>().is_ok());
                            if istype {
                                break;
                            }
                            let al = w == "align";
                            lx.adv();
                            if lx.is(b'(') {
                                lx.skip_parens();
                            } else if al {
                                lx.adv();
                            }
                        }
                        T::H => lx.adv(),
                        T::S(_) => lx.adv(),
                        _ => break,
                    }
                }
                let rt = self.ty(lx);
                if lx.is(b'(') {
                    // function type
                    lx.skip_parens();
                }
                let f = match lx.next() {
                    T::G(n) => {
                        let n = self.aliases.get(&n).cloned().unwrap_or(n);
                        Callee::Direct(*self.fidx.get(&n).unwrap_or_else(|| panic!("callee {}", n)))
                    }
                    T::L(n) => Callee::Indirect(Opd::Reg(cx.reg(&n))),
                    T::W(w) if w == "asm" => {
                        let mut s = String::new();
                        while !lx.is(b'(') {
                            if let T::S(x) = &lx.cur {
                                s.push_str(&String::from_utf8_lossy(x));
                                s.push('|');
                            }
                            lx.adv();
                        }
                        Callee::Asm(s)
                    }
                    T::W(w) if w == "inttoptr" => {
                        // constant expr callee
                        lx.skip_parens();
                        Callee::Asm(w)
                    }
                    T::W(w) if w == "null" || w == "undef" || w == "poison" => Callee::Indirect(Opd::K(V::C(0))),
                    x => panic!("callee {:?} near {}", x, lx.ctx()),
                };
                lx.exp(b'(');
                let mut args = vec![];
                if !lx.eat(b')') {
                    loop {
                        let t = self.ty(lx);
                        if *self.types.get(t) == Ty::Opaque {
                            // metadata operand: skip until , or )
                            let mut depth = 0;
                            loop {
                                match &lx.cur {
                                    T::P(b'(') => depth += 1,
                                    T::P(b')') if depth > 0 => depth -= 1,
                                    T::P(b')') => break,
                                    T::P(b',') if depth == 0 => break,
                                    _ => {}
                                }
                                lx.adv();
                            }
                        } else {
                            self.skip_pattrs(lx);
                            let o = self.opd(lx, cx, t);
                            args.push((t, o));
                        }
                        if lx.eat(b',') {
                            continue;
                        }
                        lx.exp(b')');
                        break;
                    }
                }
                let mut next = u32::MAX;
                let mut dbg = 0;
                if op == "invoke" {
                    while !lx.isw("to") {
                        lx.adv();
                    }
                    lx.adv();
                    next = self.lbl(lx, cx);
                    lx.eatw("unwind");
                    let _ = self.lbl(lx, cx);
                    dbg = lx.skip_line();
                } else {
                    dbg += lx.skip_line();
                }
                let dd = if *self.types.get(rt) == Ty::Void { NOREG } else { d };
                blk.insts.push((Inst::Call { f, args, rt, d: dd, next }, dbg));
                return;
            }
            "phi" => {
                flags!();
                let t = self.ty(lx);
                let mut v = vec![];
                loop {
                    lx.exp(b'[');
                    let o = self.opd(lx, cx, t);
                    lx.exp(b',');
                    let b = match lx.next() {
                        T::L(n) => cx.blk(&n),
                        x => panic!("{:?}", x),
                    };
                    lx.exp(b']');
                    v.push((b, o));
                    if lx.is(b',') && !lx.newline_before {
                        lx.adv();
                        if lx.is(b'[') {
                            continue;
                        }
                    }
                    break;
                }
                lx.skip_line();
                blk.phis.push((d, v));
                return;
            }
            "br" => {
                if lx.isw("label") {
                    let b = self.lbl(lx, cx);
                    Inst::Br(b)
                } else {
                    let t = self.ty(lx);
                    let c = self.opd(lx, cx, t);
                    lx.exp(b',');
                    let a = self.lbl(lx, cx);
                    lx.exp(b',');
                    let b = self.lbl(lx, cx);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ty(lx);
                let v = self.opd(lx, cx, t);
                lx.exp(b',');
                let def = self.lbl(lx, cx);
                lx.exp(b'[');
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let ct = self.ty(lx);
                    let k = self.konst(lx, ct).c().unwrap();
                    lx.exp(b',');
                    let b = self.lbl(lx, cx);
                    cases.push((k, b));
                }
                Inst::Switch { w: self.types.scalar_w(t).unwrap(), v, def, cases }
            }
            "ret" => {
                let t = self.ty(lx);
                if *self.types.get(t) == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.opd(lx, cx, t);
                    Inst::Ret(Some(o))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => {
                while !lx.newline_before {
                    lx.adv();
                }
                blk.insts.push((Inst::Unsupported("resume".into()), 0));
                return;
            }
            "landingpad" => {
                // skip clauses on following lines
                lx.skip_line();
                while lx.isw("cleanup") || lx.isw("catch") || lx.isw("filter") {
                    lx.adv();
                    lx.skip_line();
                }
                blk.insts.push((Inst::Unsupported("landingpad".into()), 0));
                return;
            }
            "extractvalue" => {
                let t = self.ty(lx);
                let a = self.opd(lx, cx, t);
                let mut idx = vec![];
                while lx.is(b',') && !lx.newline_before {
                    lx.adv();
                    match &lx.cur {
                        T::W(w) => {
                            idx.push(w.parse().unwrap());
                            lx.adv();
                        }
                        _ => break,
                    }
                }
                Inst::ExtractValue { a, idx, d }
            }
            "insertvalue" => {
                let t = self.ty(lx);
                let a = self.opd(lx, cx, t);
                lx.exp(b',');
                let vt = self.ty(lx);
                let v = self.opd(lx, cx, vt);
                let mut idx = vec![];
                while lx.is(b',') && !lx.newline_before {
                    lx.adv();
                    match &lx.cur {
                        T::W(w) => {
                            idx.push(w.parse().unwrap());
                            lx.adv();
                        }
                        _ => break,
                    }
                }
                Inst::InsertValue { a, v, idx, d }
            }
            "extractelement" => {
                let t = self.ty(lx);
                let a = self.opd(lx, cx, t);
                lx.exp(b',');
                let it = self.ty(lx);
                let i = self.opd(lx, cx, it);
                Inst::ExtractElt { a, i, d }
            }
            "insertelement" => {
                let t = self.ty(lx);
                let a = self.opd(lx, cx, t);
                lx.exp(b',');
                let vt = self.ty(lx);
                let v = self.opd(lx, cx, vt);
                lx.exp(b',');
                let it = self.ty(lx);
                let i = self.opd(lx, cx, it);
                Inst::InsertElt { a, v, i, d }
            }
            "shufflevector" => {
                let t = self.ty(lx);
                let a = self.opd(lx, cx, t);
                lx.exp(b',');
                let t2 = self.ty(lx);
                let b = self.opd(lx, cx, t2);
                lx.exp(b',');
                let mt = self.ty(lx);
                let mk = self.konst(lx, mt);
                let n = self.types.lanes(t).unwrap().1;
                let mask = if let V::A(v) = mk { v.iter().map(|x| x.c().unwrap() as u32).collect() } else { panic!() };
                Inst::Shuffle { a, b, n, mask, d }
            }
            "atomicrmw" => {
                flags!();
                let o = match lx.next() {
                    T::W(w) => w,
                    x => panic!("{:?}", x),
                };
                let pt = self.ty(lx);
                let p = self.opd(lx, cx, pt);
                lx.exp(b',');
                let t = self.ty(lx);
                let v = self.opd(lx, cx, t);
                Inst::Rmw { op: o, w: self.types.scalar_w(t).unwrap(), p, v, d }
            }
            "cmpxchg" => {
                flags!();
                let pt = self.ty(lx);
                let p = self.opd(lx, cx, pt);
                lx.exp(b',');
                let t = self.ty(lx);
                let e = self.opd(lx, cx, t);
                lx.exp(b',');
                let _ = self.ty(lx);
                let n = self.opd(lx, cx, t);
                Inst::CmpXchg { w: self.types.scalar_w(t).unwrap(), p, e, n, d }
            }
            "fence" => Inst::Fence,
            "freeze" => {
                let t = self.ty(lx);
                let a = self.opd(lx, cx, t);
                Inst::Freeze { a, d }
            }
            _ => {
                lx.skip_line();
                Inst::Unsupported(op.clone())
            }
        };
        let dbg = lx.skip_line();
        blk.insts.push((inst, dbg));
    }

    // ---- debug info ----
    fn md_text(&self, id: u32) -> Option<&str> {
        let (a, b) = *self.md.get(&id)?;
        std::str::from_utf8(&self.src[a..b]).ok()
    }
    fn md_ref(t: &str, key: &str) -> Option<u32> {
        let k = format!("{}: !", key);
        let p = t.find(&k)? + k.len();
        let e = t[p..].find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len() - p);
        t[p..p + e].parse().ok()
    }
    fn md_num(t: &str, key: &str) -> Option<u32> {
        let k = format!("{}: ", key);
        let p = t.find(&k)? + k.len();
        let e = t[p..].find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len() - p);
        t[p..p + e].parse().ok()
    }
    fn md_str(t: &str, key: &str) -> Option<String> {
        let k = format!("{}: \"", key);
        let p = t.find(&k)? + k.len();
        let e = t[p..].find('"')?;
        Some(t[p..p + e].to_string())
    }
    /// (file, function, line)
    pub fn dbg_loc(&mut self, id: u32) -> Rc<(String, String, u32)> {
        if let Some(r) = self.dbgcache.get(&id) {
            return r.clone();
        }
        let mut file = String::new();
        let mut func = String::new();
        let mut line = 0;
        if let Some(t) = self.md_text(id) {
            line = Self::md_num(t, "line").unwrap_or(0);
            let mut sc = Self::md_ref(t, "scope");
            let mut n = 0;
            while let Some(s) = sc {
                n += 1;
                if n > 50 {
                    break;
                }
                let st = match self.md_text(s) {
                    Some(x) => x,
                    None => break,
                };
                if file.is_empty() {
                    if let Some(f) = Self::md_ref(st, "file") {
                        if let Some(ft) = self.md_text(f) {
                            let fname = Self::md_str(ft, "filename").unwrap_or_default();
                            let dir = Self::md_str(ft, "directory").unwrap_or_default();
                            file = if fname.starts_with('/') { fname } else { format!("{}/{}", dir, fname) };
                        }
                    }
                }
                if st.contains("DISubprogram") {
                    let ln = Self::md_str(st, "linkageName");
                    let nm = Self::md_str(st, "name").unwrap_or_default();
                    // qualify with namespaces
                    let mut q = vec![nm];
                    let mut ns = Self::md_ref(st, "scope");
                    let mut k = 0;
                    while let Some(x) = ns {
                        k += 1;
                        if k > 20 {
                            break;
                        }
                        match self.md_text(x) {
                            Some(t2) if t2.contains("DINamespace") || t2.contains("DICompositeType") => {
                                if let Some(n) = Self::md_str(t2, "name") {
                                    q.push(n);
                                }
                                ns = Self::md_ref(t2, "scope");
                            }
                            _ => break,
                        }
                    }
                    q.reverse();
                    let _ = ln;
                    func = q.join("::");
                    break;
                }
                sc = Self::md_ref(st, "scope");
            }
        }
        let r = Rc::new((file, func, line));
        self.dbgcache.insert(id, r.clone());
        r
    }
    /// inlinedAt id
    pub fn dbg_inlined_at(&self, id: u32) -> Option<u32> {
        let t = self.md_text(id)?;
        Self::md_ref(t, "inlinedAt")
    }
}
impl<'a> Lx<'a> {
    /// byte offset where current token starts (recomputed by scanning back is hard, so relex)
    fn tok_start(&self) -> usize {
        // find start: scan backwards from self.i over the token
        match &self.cur {
            T::P(_) => self.i - 1,
            T::W(w) => self.i - w.len(),
            T::CS(_) | T::S(_) => {
                let mut j = self.i - 2;
                while self.s[j] != b'"' {
                    j -= 1;
                }
                if j > 0 && self.s[j - 1] == b'c' { j - 1 } else { j }
            }
            T::G(n) => {
                if self.s[self.i - 1] == b'"' {
                    let mut j = self.i - 2;
                    while self.s[j] != b'"' {
                        j -= 1;
                    }
                    j - 1
                } else {
                    self.i - n.len() - 1
                }
            }
            x => panic!("tok_start {:?}", x),
        }
    }
}
fn put(v: &mut Vec<Option<Block>>, i: u32, b: Block) {
    while v.len() <= i as usize {
        v.push(None);
    }
    v[i as usize] = Some(b);
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let sh = 128 - w;
    ((v << sh) as i128) >> sh
}
/// remove [hash] crate disambiguators from demangled names
fn strip_hashes(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '[' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_hexdigit() {
                j += 1;
            }
            if j < b.len() && b[j] == ']' && j - i > 8 {
                i = j + 1;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}
