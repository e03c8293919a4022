//! SMT back end: prints queries as QF_BV or as integer arithmetic, runs them
//! on external solver processes, and validates every model against the
//! bit-vector semantics.
use crate::expr::*;
use crate::ir::mask;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::*;
use std::sync::mpsc::*;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}
struct Proc {
    ch: Child,
    si: ChildStdin,
    rx: Receiver<String>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}
fn spawn(prog: &str, args: &[&str]) -> Option<Proc> {
    let mut ch = Command::new(prog).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let si = ch.stdin.take()?;
    let so = ch.stdout.take()?;
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut r = BufReader::new(so);
        loop {
            let mut l = String::new();
            match r.read_line(&mut l) {
                Ok(0) | Err(_) => break,
                _ => {}
            }
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    Some(Proc { ch, si, rx })
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub cached: u64,
    pub by_model: u64,
    pub by_interval: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub int_mode: u64,
    pub bv_mode: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub bad_models: u64,
}
pub struct Solver {
    procs: HashMap<&'static str, Proc>,
    cache: HashMap<Vec<E>, Res>,
    pub st: Stats,
    pub budget: f64,
    pub dump: Option<String>,
    pub deadline: Option<Instant>,
    win: [i32; 2], // score bv, int
    soft: [i32; 2], // the same for queries without multiplication
    pub dumpn: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Bv,
    Int,
}

pub fn print_bv(ctx: &Ctx, asserts: &[E], vars: &[u32]) -> String {
    let mut s = String::new();
    for v in vars {
        let vi = &ctx.vars[*v as usize];
        if vi.w == 1 {
            let _ = writeln!(s, "(declare-const v{} Bool)", v);
        } else {
            let _ = writeln!(s, "(declare-const v{} (_ BitVec {}))", v, vi.w);
            if vi.lo > 0 {
                let _ = writeln!(s, "(assert (bvule (_ bv{} {}) v{}))", vi.lo, vi.w, v);
            }
            if vi.hi < mask(vi.w) {
                let _ = writeln!(s, "(assert (bvule v{} (_ bv{} {})))", v, vi.hi, vi.w);
            }
        }
    }
    let mut done: HashMap<E, ()> = HashMap::new();
    for a in asserts {
        emit_bv(ctx, *a, &mut done, &mut s);
    }
    for a in asserts {
        let _ = writeln!(s, "(assert {})", nm(ctx, *a));
    }
    s
}
fn nm(ctx: &Ctx, e: E) -> String {
    let n = ctx.n(e);
    match n.op {
        Op::Const(k) => {
            if n.w == 1 {
                (if k == 1 { "true" } else { "false" }).into()
            } else {
                format!("(_ bv{} {})", k, n.w)
            }
        }
        Op::Var(v) => format!("v{}", v),
        _ => format!("e{}", e),
    }
}
fn nmb(ctx: &Ctx, e: E) -> String {
    // as bit-vector even if width 1
    if ctx.w(e) == 1 { format!("(ite {} #b1 #b0)", nm(ctx, e)) } else { nm(ctx, e) }
}
fn emit_bv(ctx: &Ctx, e: E, done: &mut HashMap<E, ()>, s: &mut String) {
    let n = ctx.n(e);
    if matches!(n.op, Op::Const(_) | Op::Var(_)) || done.contains_key(&e) {
        return;
    }
    emit_bv(ctx, n.a, done, s);
    if uses_b(n.op) {
        emit_bv(ctx, n.b, done, s);
    }
    if n.op == Op::Ite {
        emit_bv(ctx, n.c, done, s);
    }
    done.insert(e, ());
    let w = n.w;
    let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
    let bin = |o: &str| format!("({} {} {})", o, nm(ctx, n.a), nm(ctx, n.b));
    let binb = |o: &str| {
        let t = format!("({} {} {})", o, nmb(ctx, n.a), nmb(ctx, n.b));
        if w == 1 { format!("(= {} #b1)", t) } else { t }
    };
    let cmpb = |o: &str| format!("({} {} {})", o, nmb(ctx, n.a), nmb(ctx, n.b));
    let body = match n.op {
        Op::Add => binb("bvadd"),
        Op::Sub => binb("bvsub"),
        Op::Mul => binb("bvmul"),
        Op::UDiv => binb("bvudiv"),
        Op::SDiv => binb("bvsdiv"),
        Op::URem => binb("bvurem"),
        Op::SRem => binb("bvsrem"),
        Op::And => bin(if w == 1 { "and" } else { "bvand" }),
        Op::Or => bin(if w == 1 { "or" } else { "bvor" }),
        Op::Xor => bin(if w == 1 { "xor" } else { "bvxor" }),
        Op::Shl => binb("bvshl"),
        Op::LShr => binb("bvlshr"),
        Op::AShr => binb("bvashr"),
        Op::Eq => bin("="),
        Op::Ult => cmpb("bvult"),
        Op::Ule => cmpb("bvule"),
        Op::Slt => cmpb("bvslt"),
        Op::Sle => cmpb("bvsle"),
        Op::Ite => format!("(ite {} {} {})", nm(ctx, n.a), nm(ctx, n.b), nm(ctx, n.c)),
        Op::ZExt => {
            let wa = ctx.w(n.a);
            if wa == 1 {
                format!("(ite {} (_ bv1 {}) (_ bv0 {}))", nm(ctx, n.a), w, w)
            } else {
                format!("((_ zero_extend {}) {})", w - wa, nm(ctx, n.a))
            }
        }
        Op::SExt => format!("((_ sign_extend {}) {})", w - ctx.w(n.a), nmb(ctx, n.a)),
        Op::Extract(l) => {
            let t = format!("((_ extract {} {}) {})", l + w - 1, l, nmb(ctx, n.a));
            if w == 1 { format!("(= {} #b1)", t) } else { t }
        }
        Op::Concat => format!("(concat {} {})", nmb(ctx, n.a), nmb(ctx, n.b)),
        Op::Var(_) | Op::Const(_) => unreachable!(),
    };
    let _ = writeln!(s, "(define-fun e{} () {} {})", e, sort, body);
}

/// Integer encoding. None when an operation has no arithmetic rendering.
pub fn print_int(ctx: &Ctx, asserts: &[E], vars: &[u32], bounds: &Bounds) -> Option<String> {
    let mut s = String::new();
    for v in vars {
        let vi = &ctx.vars[*v as usize];
        if vi.w == 1 {
            let _ = writeln!(s, "(declare-const v{} Bool)", v);
        } else {
            let _ = writeln!(s, "(declare-const v{} Int)\n(assert (<= {} v{} {}))", v, vi.lo, v, vi.hi);
        }
    }
    let mut done: HashMap<E, ()> = HashMap::new();
    let mut memo = HashMap::new();
    for a in asserts {
        if !emit_int(ctx, *a, &mut done, &mut s, bounds, &mut memo) {
            return None;
        }
    }
    // bounds used for simplification are asserted explicitly
    let mut ks: Vec<E> = done.keys().copied().collect();
    for v in vars {
        ks.push(ctx.vars[*v as usize].e);
    }
    ks.sort();
    ks.dedup();
    for e in ks {
        if let Some((lo, hi)) = bounds.get(&e) {
            let n = ctx.n(e);
            let t = nmi(ctx, e);
            if n.w == 1 {
                if lo == hi {
                    let _ = writeln!(s, "(assert (= {} {}))", t, if *lo == 1 { "true" } else { "false" });
                }
            } else {
                let _ = writeln!(s, "(assert (<= {} {} {}))", lo, t, hi);
            }
        }
    }
    for a in asserts {
        let _ = writeln!(s, "(assert {})", nmi(ctx, *a));
    }
    Some(s)
}
fn nmi(ctx: &Ctx, e: E) -> String {
    let n = ctx.n(e);
    match n.op {
        Op::Const(k) => {
            if n.w == 1 {
                (if k == 1 { "true" } else { "false" }).into()
            } else {
                format!("{}", k)
            }
        }
        Op::Var(v) => format!("v{}", v),
        _ => format!("e{}", e),
    }
}
fn nmii(ctx: &Ctx, e: E) -> String {
    if ctx.w(e) == 1 { format!("(ite {} 1 0)", nmi(ctx, e)) } else { nmi(ctx, e) }
}
fn p2(w: u32) -> String {
    if w >= 128 { "340282366920938463463374607431768211456".into() } else { format!("{}", 1u128 << w) }
}
fn emit_int(ctx: &Ctx, e: E, done: &mut HashMap<E, ()>, s: &mut String, bd: &Bounds, memo: &mut HashMap<E, (u128, u128)>) -> bool {
    let n = ctx.n(e).clone();
    if matches!(n.op, Op::Const(_) | Op::Var(_)) || done.contains_key(&e) {
        return true;
    }
    if !emit_int(ctx, n.a, done, s, bd, memo) {
        return false;
    }
    if uses_b(n.op) && !emit_int(ctx, n.b, done, s, bd, memo) {
        return false;
    }
    if n.op == Op::Ite && !emit_int(ctx, n.c, done, s, bd, memo) {
        return false;
    }
    done.insert(e, ());
    let w = n.w;
    let m = mask(w);
    let mut iv = |x: E| ctx.interval(x, bd, memo);
    let a = nmii(ctx, n.a);
    let b = if uses_b(n.op) { nmii(ctx, n.b) } else { String::new() };
    let bool_w = w == 1;
    let body: Option<String> = match n.op {
        Op::Add => {
            let (ia, ib) = (iv(n.a), iv(n.b));
            let nowrap = ia.1.checked_add(ib.1).map_or(false, |x| x <= m);
            if nowrap {
                Some(format!("(+ {} {})", a, b))
            } else if let Some(k) = ctx.k(n.b) {
                let kk = (m - k) + 1; // subtract kk
                if kk <= m && ia.0 >= kk {
                    Some(format!("(- {} {})", a, kk))
                } else {
                    Some(format!("(ite (>= {} {}) (- {} {}) (+ {} {}))", a, kk, a, kk, a, b))
                }
            } else {
                Some(format!("(let ((t (+ {} {}))) (ite (>= t {}) (- t {}) t))", a, b, p2(w), p2(w)))
            }
        }
        Op::Sub => {
            let (ia, ib) = (iv(n.a), iv(n.b));
            if ia.0 >= ib.1 {
                Some(format!("(- {} {})", a, b))
            } else {
                Some(format!("(let ((t (- {} {}))) (ite (< t 0) (+ t {}) t))", a, b, p2(w)))
            }
        }
        Op::Mul => {
            let (ia, ib) = (iv(n.a), iv(n.b));
            if ia.1.checked_mul(ib.1).map_or(false, |x| x <= m) {
                Some(format!("(* {} {})", b, a))
            } else if let Some(k) = ctx.k(n.b) {
                if k > m / 2 && w < 128 {
                    let nk = (m - k) + 1;
                    Some(format!("(mod (* (- {}) {}) {})", nk, a, p2(w)))
                } else {
                    Some(format!("(mod (* {} {}) {})", b, a, p2(w)))
                }
            } else {
                Some(format!("(mod (* {} {}) {})", a, b, p2(w)))
            }
        }
        Op::UDiv => {
            if iv(n.b).0 > 0 {
                Some(format!("(div {} {})", a, b))
            } else {
                Some(format!("(ite (= {} 0) {} (div {} {}))", b, m, a, b))
            }
        }
        Op::URem => {
            if iv(n.b).0 > 0 {
                Some(format!("(mod {} {})", a, b))
            } else {
                Some(format!("(ite (= {} 0) {} (mod {} {}))", b, a, a, b))
            }
        }
        Op::SDiv | Op::SRem => {
            // only by a positive constant
            let half = 1u128 << (w - 1);
            match ctx.k(n.b) {
                Some(k) if k > 0 && k < half => {
                    let f = p2(w);
                    if n.op == Op::SDiv {
                        Some(format!("(ite (< {a} {half}) (div {a} {k}) (mod (- (div (- {f} {a}) {k})) {f}))"))
                    } else {
                        Some(format!("(ite (< {a} {half}) (mod {a} {k}) (mod (- (mod (- {f} {a}) {k})) {f}))"))
                    }
                }
                _ => None,
            }
        }
        Op::And if bool_w => Some(format!("(and {} {})", nmi(ctx, n.a), nmi(ctx, n.b))),
        Op::Or if bool_w => Some(format!("(or {} {})", nmi(ctx, n.a), nmi(ctx, n.b))),
        Op::Xor if bool_w => Some(format!("(xor {} {})", nmi(ctx, n.a), nmi(ctx, n.b))),
        Op::And => match ctx.k(n.b) {
            Some(k) => {
                // contiguous run of ones
                let tz = k.trailing_zeros();
                let r = k >> tz;
                if r & (r + 1) == 0 {
                    let len = 128 - r.leading_zeros();
                    let x = if tz == 0 { a.clone() } else { format!("(div {} {})", a, p2(tz)) };
                    let x = if tz + len >= w { x } else { format!("(mod {} {})", x, p2(len)) };
                    Some(if tz == 0 { x } else { format!("(* {} {})", p2(tz), x) })
                } else {
                    None
                }
            }
            _ => None,
        },
        Op::Or => {
            // constant whose bits form a low/high mask
            None
        }
        Op::Xor => {
            if ctx.k(n.b) == Some(m) { Some(format!("(- {} {})", m, a)) } else { None }
        }
        Op::Shl | Op::LShr | Op::AShr => None,
        Op::Eq => {
            if ctx.w(n.a) == 1 {
                Some(format!("(= {} {})", nmi(ctx, n.a), nmi(ctx, n.b)))
            } else {
                Some(format!("(= {} {})", a, b))
            }
        }
        Op::Ult => Some(format!("(< {} {})", a, b)),
        Op::Ule => Some(format!("(<= {} {})", a, b)),
        Op::Slt | Op::Sle => {
            let wa = ctx.w(n.a);
            let half = 1u128 << (wa - 1);
            let mut sg = |x: E, t: &str| -> String {
                let i = iv(x);
                if i.1 < half {
                    t.to_string()
                } else if i.0 >= half {
                    format!("(- {} {})", t, p2(wa))
                } else {
                    format!("(ite (>= {} {}) (- {} {}) {})", t, half, t, p2(wa), t)
                }
            };
            let x = sg(n.a, &a);
            let y = sg(n.b, &b);
            Some(format!("({} {} {})", if n.op == Op::Slt { "<" } else { "<=" }, x, y))
        }
        Op::Ite => Some(format!("(ite {} {} {})", nmi(ctx, n.a), nmi(ctx, n.b), nmi(ctx, n.c))),
        Op::ZExt => Some(a.clone()),
        Op::SExt => {
            let wa = ctx.w(n.a);
            let half = 1u128 << (wa - 1);
            let d = m - mask(wa);
            Some(format!("(ite (>= {} {}) (+ {} {}) {})", a, half, a, d, a))
        }
        Op::Extract(l) => {
            let wa = ctx.w(n.a);
            let i = iv(n.a);
            let x = if l == 0 { a.clone() } else { format!("(div {} {})", a, p2(l)) };
            let top = i.1 >> l;
            let x = if l + w >= wa || top <= m { x } else { format!("(mod {} {})", x, p2(w)) };
            if bool_w { Some(format!("(= {} 1)", x)) } else { Some(x) }
        }
        Op::Concat => {
            let wl = ctx.w(n.b);
            Some(format!("(+ (* {} {}) {})", p2(wl), a, b))
        }
        Op::Var(_) | Op::Const(_) => unreachable!(),
    };
    match body {
        Some(bd) => {
            let bd = if bool_w && matches!(n.op, Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem) { format!("(= 1 {})", bd) } else { bd };
            let _ = writeln!(s, "(define-fun e{} () {} {})", e, if bool_w { "Bool" } else { "Int" }, bd);
            true
        }
        None => false,
    }
}

fn parse_values(txt: &str) -> HashMap<u32, u128> {
    // ((v0 #x..) (v1 (_ bv5 8)) (v2 true) (v3 12))
    let mut m = HashMap::new();
    let b = txt.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'v' && i > 0 && b[i - 1] == b'(' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let id: u32 = match txt[i + 1..j].parse() {
                Ok(x) => x,
                _ => {
                    i += 1;
                    continue;
                }
            };
            let rest = txt[j..].trim_start();
            let v = if let Some(r) = rest.strip_prefix("#x") {
                let e = r.find(|c: char| !c.is_ascii_hexdigit()).unwrap_or(r.len());
                u128::from_str_radix(&r[..e], 16).ok()
            } else if let Some(r) = rest.strip_prefix("#b") {
                let e = r.find(|c: char| c != '0' && c != '1').unwrap_or(r.len());
                u128::from_str_radix(&r[..e], 2).ok()
            } else if let Some(r) = rest.strip_prefix("(_ bv") {
                let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
                r[..e].parse().ok()
            } else if rest.starts_with("true") {
                Some(1)
            } else if rest.starts_with("false") {
                Some(0)
            } else {
                let e = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
                rest[..e].parse().ok()
            };
            if let Some(v) = v {
                m.insert(id, v);
            }
            i = j;
        } else {
            i += 1;
        }
    }
    m
}

impl Solver {
    pub fn new() -> Solver {
        Solver { procs: HashMap::new(), cache: HashMap::new(), st: Stats::default(), budget: 60.0, dump: None, deadline: None, win: [0, 0], soft: [0, 0], dumpn: 0 }
    }
    fn run(&mut self, prog: &'static str, logic: &str, text: &str, vars: &[u32], secs: f64) -> Res {
        let secs = if let Some(d) = self.deadline {
            let now = Instant::now();
            if now >= d {
                return Res::Unknown;
            }
            secs.min((d - now).as_secs_f64())
        } else { secs };
        let key = prog;
        if !self.procs.contains_key(key) {
            let p = match prog {
                "cvc5" => spawn("cvc5", &["--incremental", "--produce-models", "--lang=smt2", "-q"]),
                _ => spawn(prog, &["-in", "-smt2"]),
            };
            match p {
                Some(p) => {
                    self.procs.insert(key, p);
                }
                None => return Res::Unknown,
            }
        }
        let mut q = String::new();
        if prog == "cvc5" {
            q.push_str("(reset)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n");
            let _ = writeln!(q, "(set-option :tlimit-per {})", (secs * 1000.0) as u64);
        } else {
            q.push_str("(reset)\n");
            let _ = writeln!(q, "(set-option :timeout {})", (secs * 1000.0) as u64);
        }
        let _ = writeln!(q, "(set-logic {})", logic);
        q.push_str(text);
        q.push_str("(check-sat)\n");
        let p = self.procs.get_mut(key).unwrap();
        if p.si.write_all(q.as_bytes()).is_err() || p.si.flush().is_err() {
            self.procs.remove(key);
            return Res::Unknown;
        }
        let dl = Instant::now() + Duration::from_secs_f64(secs + 2.0);
        let ans = loop {
            let now = Instant::now();
            if now >= dl {
                break None;
            }
            match p.rx.recv_timeout(dl - now) {
                Ok(l) => {
                    let t = l.trim();
                    if t == "sat" || t == "unsat" || t == "unknown" || t == "timeout" {
                        break Some(t.to_string());
                    }
                    if t.starts_with("(error") {
                        if std::env::var("SYMEX_DEBUG").is_ok() {
                            eprintln!("solver {} error {}\n{}", prog, t, q);
                        }
                        break None;
                    }
                }
                Err(_) => break None,
            }
        };
        match ans.as_deref() {
            Some("unsat") => Res::Unsat,
            Some("sat") => {
                if vars.is_empty() {
                    return Res::Sat(Model::new());
                }
                let mut g = String::from("(get-value (");
                for v in vars {
                    let _ = write!(g, "v{} ", v);
                }
                g.push_str("))\n(echo \"endvals\")\n");
                let p = self.procs.get_mut(key).unwrap();
                if p.si.write_all(g.as_bytes()).is_err() || p.si.flush().is_err() {
                    self.procs.remove(key);
                    return Res::Unknown;
                }
                let mut txt = String::new();
                loop {
                    match p.rx.recv_timeout(Duration::from_secs(20)) {
                        Ok(l) => {
                            if l.contains("endvals") {
                                break;
                            }
                            txt.push_str(&l);
                        }
                        Err(_) => {
                            self.procs.remove(key);
                            return Res::Unknown;
                        }
                    }
                }
                Res::Sat(parse_values(&txt))
            }
            Some(_) => Res::Unknown,
            None => {
                self.procs.remove(key);
                Res::Unknown
            }
        }
    }
    /// asserts: conjunction (already sliced).
    pub fn check(&mut self, ctx: &mut Ctx, asserts: &[E], bounds: &Bounds) -> Res {
        let mut key: Vec<E> = asserts.to_vec();
        key.sort();
        key.dedup();
        key.retain(|e| ctx.k(*e) != Some(1));
        if key.iter().any(|e| ctx.k(*e) == Some(0)) {
            return Res::Unsat;
        }
        if key.is_empty() {
            return Res::Sat(Model::new());
        }
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let r = self.check_uncached(ctx, &key, bounds);
        let dt = t0.elapsed().as_secs_f64();
        self.st.queries += 1;
        self.st.secs += dt;
        if dt > self.st.max_secs {
            self.st.max_secs = dt;
        }
        match &r {
            Res::Sat(_) => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }
    fn check_uncached(&mut self, ctx: &mut Ctx, key: &[E], bounds: &Bounds) -> Res {
        let mut vs = std::rc::Rc::new(vec![]);
        for e in key {
            let v = ctx.varset(*e);
            vs = union(&vs, &v);
        }
        let vars: Vec<u32> = vs.to_vec();
        // does it contain hard arithmetic?
        let mut hard = false;
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<E> = key.to_vec();
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = ctx.n(e);
            match n.op {
                Op::Const(_) | Op::Var(_) => continue,
                Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem if n.w > 8 => hard = true,
                _ => {}
            }
            st.push(n.a);
            if uses_b(n.op) {
                st.push(n.b);
            }
            if n.op == Op::Ite {
                st.push(n.c);
            }
        }
        let bv = print_bv(ctx, key, &vars);
        let int = print_int(ctx, key, &vars, bounds);
        if let Some(d) = &self.dump {
            self.dumpn += 1;
            let _ = std::fs::write(format!("{}/q{}.bv.smt2", d, self.dumpn), format!("(set-logic QF_BV)\n{}(check-sat)\n", bv));
            if let Some(i) = &int {
                let _ = std::fs::write(format!("{}/q{}.int.smt2", d, self.dumpn), format!("(set-logic QF_NIA)\n{}(check-sat)\n", i));
            }
        }
        let b = self.budget;
        let mut stages: Vec<(&'static str, Mode, f64)> = vec![];
        if hard && int.is_some() {
            let intfirst = self.win[1] >= self.win[0];
            let (f, s) = if intfirst { (Mode::Int, Mode::Bv) } else { (Mode::Bv, Mode::Int) };
            stages.push(("z3-new", f, 2.0));
            stages.push(("z3-new", s, 2.0));
            stages.push(("z3", Mode::Int, 4.0));
            stages.push(("cvc5", Mode::Int, 8.0));
            stages.push(("z3-new", f, b / 2.0));
            stages.push(("z3", Mode::Int, b / 2.0));
            stages.push(("cvc5", Mode::Int, b / 2.0));
            stages.push(("z3-new", s, b / 2.0));
        } else if int.is_some() {
            let (f, s) = if self.soft[1] > self.soft[0] { (Mode::Int, Mode::Bv) } else { (Mode::Bv, Mode::Int) };
            stages.push(("z3-new", f, 0.5));
            stages.push(("z3-new", s, 2.0));
            stages.push(("z3-new", f, 10.0));
            stages.push(("cvc5", Mode::Int, 5.0));
            stages.push(("z3-new", Mode::Bv, b));
            stages.push(("z3-new", Mode::Int, b));
        } else {
            stages.push(("z3-new", Mode::Bv, 10.0));
            stages.push(("cvc5", Mode::Bv, 10.0));
            stages.push(("z3-new", Mode::Bv, b));
            stages.push(("cvc5", Mode::Bv, b));
        }
        for (p, m, t) in stages {
            let (txt, logic) = match m {
                Mode::Bv => (bv.as_str(), "QF_BV"),
                Mode::Int => (int.as_deref().unwrap(), if p == "cvc5" { "QF_NIA" } else { "ALL" }),
            };
            let logic = if p == "cvc5" && m == Mode::Bv { "QF_BV" } else { logic };
            let r = self.run(p, logic, txt, &vars, t);
            match r {
                Res::Unknown => continue,
                Res::Sat(mut mo) => {
                    // validate
                    for v in &vars {
                        let vi = &ctx.vars[*v as usize];
                        let x = mo.entry(*v).or_insert(vi.lo);
                        *x &= mask(vi.w);
                    }
                    let mut memo = HashMap::new();
                    let ok = key.iter().all(|e| ctx.eval(*e, &mo, &mut memo) == 1) && vars.iter().all(|v| {
                        let vi = &ctx.vars[*v as usize];
                        mo[v] >= vi.lo && mo[v] <= vi.hi
                    });
                    if !ok {
                        self.st.bad_models += 1;
                        if std::env::var("SYMEX_DEBUG").is_ok() {
                            eprintln!("BAD MODEL from {} {:?}\n{}", p, m, txt);
                        }
                        continue;
                    }
                    self.score(m, hard);
                    return Res::Sat(mo);
                }
                Res::Unsat => {
                    self.score(m, hard);
                    return Res::Unsat;
                }
            }
        }
        Res::Unknown
    }
    fn score(&mut self, m: Mode, hard: bool) {
        if m == Mode::Bv {
            self.st.bv_mode += 1;
        } else {
            self.st.int_mode += 1;
        }
        if hard {
            let i = if m == Mode::Bv { 0 } else { 1 };
            self.win[i] = (self.win[i] + 1).min(20);
            self.win[1 - i] = (self.win[1 - i] - 1).max(-5);
        } else {
            let i = if m == Mode::Bv { 0 } else { 1 };
            self.soft[i] = (self.soft[i] + 1).min(3);
            self.soft[1 - i] = (self.soft[1 - i] - 1).max(-3);
        }
    }
}
impl Solver {
    /// self-test hook: one query in one encoding, no cache. None = not encodable/unknown
    pub fn raw(&mut self, ctx: &mut Ctx, q: &[E], vars: &[u32], mode: Mode, b: &Bounds) -> Option<bool> {
        let txt = match mode {
            Mode::Bv => print_bv(ctx, q, vars),
            Mode::Int => print_int(ctx, q, vars, b)?,
        };
        let r = self.run("z3-new", if mode == Mode::Bv { "QF_BV" } else { "ALL" }, &txt, vars, 5.0);
        match r {
            Res::Sat(_) => Some(true),
            Res::Unsat => Some(false),
            Res::Unknown => None,
        }
    }
}
