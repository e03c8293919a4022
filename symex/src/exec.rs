//! Symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub bb: u32,
    pub ip: u32,
    pub prev: u32,
    pub regs: Vec<V>,
    pub sp: usize,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Status {
    Run,
    Wait(u64, u64), // until *addr (u64) == value
    WaitNe(u64, u64),
    Done,
}
#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub status: Status,
}
#[derive(Clone, Debug)]
pub struct Input {
    pub name: String,
    pub w: u32,
    pub e: E,
}
#[derive(Clone)]
pub struct State {
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub mem: Mem,
    pub pc: Rc<Vec<E>>,
    pub bounds: Rc<Bounds>,
    pub model: Option<Rc<Model>>,
    pub inputs: Vec<Input>,
    pub pending: Option<E>,
    pub insts: u64,
    pub expect: Option<u32>,
    pub preempt: u32,
    pub notes: Vec<(u64, V)>,
    pub in_yield: bool,
    pub marks: Vec<u32>,
}
pub enum Stop {
    /// (kind, message)
    Bad(String, String),
    End,
    Infeasible,
    Incomplete(String),
}
type R<T> = Result<T, Stop>;
impl From<MemErr> for Stop {
    fn from(e: MemErr) -> Stop {
        Stop::Bad("memory".into(), e.0)
    }
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, u32, u128)>,
    pub notes: Vec<(u64, u128)>,
    pub key: String,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Panic,
    Nop,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    RustAlloc,
    RustAllocZ,
    RustDealloc,
    RustRealloc,
    Abort,
    Memcmp,
    Bcmp,
    Memcpy,
    Memset,
    Strlen,
    SymU(u32),
    SymU128,
    SymRange,
    SymChoice,
    SymConc,
    SymAssume,
    SymCheck,
    SymReach,
    SymExpect,
    SymKill,
    SymBytes,
    SymParam,
    SymYield,
    SymSpawn,
    SymWait,
    SymWaitNe,
    SymTid,
    SymNote,
    SymIsSym,
    RetZero,
    Getrandom,
    Write,
    ClockGettime,
    Errno,
    Intrinsic,
    None,
}
pub struct Cfg {
    pub params: Vec<u64>,
    pub max_paths: u64,
    pub max_insts: u64,
    /// a path longer than this is taken for an infinite loop
    pub fuel: u64,
    pub time: f64,
    pub preemptions: u32,
    pub verbose: bool,
    pub max_viol: usize,
}
pub struct Exec {
    pub m: Module,
    pub ctx: Ctx,
    pub sol: Solver,
    pub cfg: Cfg,
    pub work: Vec<State>,
    builtin: Vec<Option<(B, bool)>>,
    pub viol: Vec<Violation>,
    pub viol_keys: HashSet<String>,
    pub incomplete: BTreeMap<String, u64>,
    pub paths: u64,
    pub paths_ok: u64,
    pub paths_infeasible: u64,
    pub paths_assumed_out: u64,
    pub forks: u64,
    pub longest: u64,
    pub insts: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub reach: BTreeMap<u32, u64>,
    pub funcs_exec: HashSet<u32>,
    pub dbg_seen: Vec<bool>,
    vars_by_idx: HashMap<(usize, u32, u128, u128), E>,
    pub start: Instant,
    pub max_model_fail: u64,
    pub samples: Vec<Vec<(String, u128)>>,
    pub leaked: i64,
    pub sched_points: u64,
}

fn fnbuiltin(name: &str, dem: &str) -> (B, bool) {
    // returns (builtin, noreturn)
    if name.starts_with("llvm.") {
        return (B::Intrinsic, false);
    }
    let b = match name {
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::Realloc,
        "free" => B::Free,
        "posix_memalign" => B::PosixMemalign,
        "abort" | "_exit" | "exit" => B::Abort,
        "memcmp" => B::Memcmp,
        "bcmp" => B::Bcmp,
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "strlen" => B::Strlen,
        "sym_u8" => B::SymU(8),
        "sym_u16" => B::SymU(16),
        "sym_u32" => B::SymU(32),
        "sym_u64" => B::SymU(64),
        "sym_bool" => B::SymU(1),
        "sym_u128" => B::SymU128,
        "sym_range" => B::SymRange,
        "sym_choice" => B::SymChoice,
        "sym_concretize" => B::SymConc,
        "sym_assume" => B::SymAssume,
        "sym_check" => B::SymCheck,
        "sym_reach" => B::SymReach,
        "sym_expect_panic" => B::SymExpect,
        "sym_kill" => B::SymKill,
        "sym_bytes" => B::SymBytes,
        "sym_param" => B::SymParam,
        "sym_yield" => B::SymYield,
        "sym_spawn" => B::SymSpawn,
        "sym_wait_eq" => B::SymWait,
        "sym_wait_ne" => B::SymWaitNe,
        "sym_tid" => B::SymTid,
        "sym_note" => B::SymNote,
        "sym_is_symbolic" => B::SymIsSym,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "isatty" | "sched_yield" | "gettid" | "getpid" => B::RetZero,
        "getrandom" => B::Getrandom,
        "write" => B::Write,
        "clock_gettime" => B::ClockGettime,
        "__errno_location" => B::Errno,
        _ => B::None,
    };
    if b != B::None {
        return (b, false);
    }
    if dem.ends_with("__rust_alloc") {
        return (B::RustAlloc, false);
    }
    if dem.ends_with("__rust_alloc_zeroed") {
        return (B::RustAllocZ, false);
    }
    if dem.ends_with("__rust_dealloc") {
        return (B::RustDealloc, false);
    }
    if dem.ends_with("__rust_realloc") {
        return (B::RustRealloc, false);
    }
    if dem.ends_with("__rust_no_alloc_shim_is_unstable_v2") || dem.ends_with("__rust_no_alloc_shim_is_unstable") {
        return (B::Nop, false);
    }
    if dem.starts_with("core::panicking::")
        || dem.starts_with("core::option::unwrap_failed")
        || dem.starts_with("core::option::expect_failed")
        || dem.starts_with("core::result::unwrap_failed")
        || dem.starts_with("core::slice::index::slice_")
        || dem.starts_with("core::slice::copy_from_slice_impl::len_mismatch_fail")
        || dem.starts_with("core::str::slice_error_fail")
        || dem.starts_with("core::cell::panic_already")
        || dem.starts_with("core::slice::<impl [T]>::copy_from_slice::len_mismatch_fail")
        || dem.starts_with("alloc::raw_vec::handle_error")
        || dem.starts_with("alloc::raw_vec::capacity_overflow")
        || dem.starts_with("alloc::alloc::handle_alloc_error")
        || dem.starts_with("std::panicking::begin_panic")
        || dem.starts_with("std::panicking::rust_panic")
        || dem.starts_with("std::panicking::panic_with_hook")
        || dem.contains("rust_begin_unwind")
        || dem.starts_with("std::panicking::panic_handler")
        || dem.starts_with("std::process::abort")
        || dem.starts_with("std::rt::abort")
    {
        return (B::Panic, true);
    }
    (B::None, false)
}

impl Exec {
    pub fn new(m: Module, cfg: Cfg) -> Exec {
        let nf = m.funcs.len();
        let maxmd = m.md.keys().max().copied().unwrap_or(0) as usize + 1;
        Exec {
            m,
            ctx: Ctx::new(),
            sol: Solver::new(),
            cfg,
            work: vec![],
            builtin: vec![None; nf],
            viol: vec![],
            viol_keys: HashSet::new(),
            incomplete: BTreeMap::new(),
            paths: 0,
            paths_ok: 0,
            paths_infeasible: 0,
            paths_assumed_out: 0,
            forks: 0,
            insts: 0,
            longest: 0,
            checks: 0,
            checks_solver: 0,
            reach: BTreeMap::new(),
            funcs_exec: HashSet::new(),
            dbg_seen: vec![false; maxmd],
            vars_by_idx: HashMap::new(),
            start: Instant::now(),
            max_model_fail: 0,
            samples: vec![],
            leaked: 0,
            sched_points: 0,
        }
    }
    pub fn init_state(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        let mut slots = vec![];
        for g in 0..self.m.globals.len() {
            let (addr, size, constant) = {
                let d = &self.m.globals[g];
                (d.addr, d.size, d.constant)
            };
            slots.push(Slot { base: addr, size, obj: Some(Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false, heap: false })) });
            let _ = constant;
        }
        mem.glob = Rc::new(slots);
        for g in 0..self.m.globals.len() {
            if let Some(v) = self.m.global_init(g) {
                let (addr, ty, constant) = {
                    let d = &self.m.globals[g];
                    (d.addr, d.ty, d.constant)
                };
                self.store_const(&mut mem, addr, ty, &v);
                if constant {
                    let l = mem.find(addr).unwrap();
                    if self.m.globals[g].size > 0 {
                        mem.obj_mut(l).ro = true;
                    }
                }
            }
        }
        let fid = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no function {}", entry));
        let f = self.m.func(fid).expect("entry body");
        let fr = Frame { regs: vec![V::C(0); f.nregs], f, bb: 0, ip: 0, prev: 0, sp: 0 };
        State {
            threads: vec![Thread { frames: vec![fr], status: Status::Run }],
            cur: 0,
            mem,
            pc: Rc::new(vec![]),
            bounds: Rc::new(Bounds::new()),
            model: Some(Rc::new(Model::new())),
            inputs: vec![],
            pending: None,
            insts: 0,
            expect: None,
            preempt: self.cfg.preemptions,
            notes: vec![],
            in_yield: false,
            marks: vec![],
        }
    }
    fn store_const(&self, mem: &mut Mem, addr: u64, ty: TyId, v: &V) {
        match self.m.types.get(ty).clone() {
            Ty::Arr(n, e) => {
                let sz = self.m.types.size(e);
                if let V::A(x) = v {
                    for i in 0..n {
                        self.store_const(mem, addr + i * sz, e, &x[i as usize]);
                    }
                }
            }
            Ty::Vec(n, e) => {
                let sz = self.m.types.size(e);
                if let V::A(x) = v {
                    for i in 0..n {
                        self.store_const(mem, addr + i * sz, e, &x[i as usize]);
                    }
                }
            }
            Ty::Struct(fs, _) => {
                if let V::A(x) = v {
                    for i in 0..fs.len() {
                        let (o, t) = self.m.types.field_off(ty, i);
                        self.store_const(mem, addr + o, t, &x[i]);
                    }
                }
            }
            _ => {
                let n = self.m.types.size(ty);
                let n = match self.m.types.get(ty) {
                    Ty::Int(w) => ((*w as u64) + 7) / 8,
                    _ => n,
                };
                if n > 0 {
                    mem.write_c(addr, n, v.c().unwrap()).expect("init");
                }
            }
        }
    }

    // ---------- constraints ----------
    fn slice(&mut self, st: &State, cond: E) -> Vec<E> {
        let mut vs: HashSet<u32> = self.ctx.varset(cond).iter().copied().collect();
        let mut out = vec![cond];
        let pcs: Vec<(E, Rc<Vec<u32>>)> = st.pc.iter().map(|e| (*e, self.ctx.varset(*e))).collect();
        let mut used = vec![false; pcs.len()];
        loop {
            let mut ch = false;
            for (i, (e, v)) in pcs.iter().enumerate() {
                if !used[i] && v.iter().any(|x| vs.contains(x)) {
                    used[i] = true;
                    out.push(*e);
                    for x in v.iter() {
                        if vs.insert(*x) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// Is pc && cond satisfiable? On sat, returns a model extending st's model.
    fn feasible(&mut self, st: &State, cond: E) -> (Res, Option<Rc<Model>>) {
        if let Some(k) = self.ctx.k(cond) {
            return if k == 1 { (Res::Sat(Model::new()), st.model.clone()) } else { (Res::Unsat, None) };
        }
        let mut memo = HashMap::new();
        let iv = self.ctx.interval(cond, &st.bounds, &mut memo);
        if iv == (0, 0) {
            self.sol.st.by_interval += 1;
            return (Res::Unsat, None);
        }
        if iv == (1, 1) {
            self.sol.st.by_interval += 1;
            return (Res::Sat(Model::new()), st.model.clone());
        }
        if let Some(m) = &st.model {
            let mut memo = HashMap::new();
            if self.ctx.eval(cond, m, &mut memo) == 1 {
                self.sol.st.by_model += 1;
                return (Res::Sat(Model::new()), st.model.clone());
            }
        }
        let q = self.slice(st, cond);
        let mut b = (*st.bounds).clone();
        self.ctx.learn(cond, &mut b);
        let r = self.sol.check(&mut self.ctx, &q, &b);
        match &r {
            Res::Sat(m) => {
                let nm = st.model.as_ref().map(|om| {
                    let mut x = (**om).clone();
                    for (k, v) in m {
                        x.insert(*k, *v);
                    }
                    Rc::new(x)
                });
                (r, nm)
            }
            _ => (r, None),
        }
    }
    fn assume(&mut self, st: &mut State, cond: E) {
        if self.ctx.k(cond) == Some(1) {
            return;
        }
        let n = self.ctx.n(cond).clone();
        if n.op == Op::And && n.w == 1 {
            self.assume(st, n.a);
            self.assume(st, n.b);
            return;
        }
        // not(or(a,b))
        if let Some(x) = self.ctx.is_not(cond) {
            let nx = self.ctx.n(x).clone();
            if nx.op == Op::Or && nx.w == 1 {
                let a = self.ctx.not(nx.a);
                let b = self.ctx.not(nx.b);
                self.assume(st, a);
                self.assume(st, b);
                return;
            }
        }
        let pc = Rc::make_mut(&mut st.pc);
        if !pc.contains(&cond) {
            pc.push(cond);
            let b = Rc::make_mut(&mut st.bounds);
            self.ctx.learn(cond, b);
        }
    }
    fn get_model(&mut self, st: &mut State) -> Res {
        if let Some(m) = &st.model {
            return Res::Sat((**m).clone());
        }
        let pc: Vec<E> = st.pc.to_vec();
        let r = self.sol.check(&mut self.ctx, &pc, &st.bounds);
        if let Res::Sat(m) = &r {
            st.model = Some(Rc::new(m.clone()));
        }
        r
    }
    /// Evaluate e to a single concrete value if the path determines it cheaply.
    fn simp(&mut self, st: &State, e: E) -> V {
        let mut memo = HashMap::new();
        let iv = self.ctx.interval(e, &st.bounds, &mut memo);
        if iv.0 == iv.1 { V::C(iv.0) } else { V::S(e) }
    }
    /// Pick a concrete value, forking the remaining values into the work list
    /// (which re-execute the current instruction).
    fn concretize(&mut self, st: &mut State, v: &V, why: &str) -> R<u128> {
        let e = match v {
            V::C(k) => return Ok(*k),
            V::S(e) => *e,
            V::A(_) => return Err(Stop::Incomplete("concretize aggregate".into())),
        };
        if let V::C(k) = self.simp(st, e) {
            return Ok(k);
        }
        let m = match self.get_model(st) {
            Res::Sat(m) => m,
            Res::Unsat => return Err(Stop::Infeasible),
            Res::Unknown => return Err(Stop::Incomplete(format!("solver unknown while concretizing {}", why))),
        };
        let mut memo = HashMap::new();
        let k = self.ctx.eval(e, &m, &mut memo);
        let w = self.ctx.w(e);
        let ke = self.ctx.konst(w, k);
        let eq = self.ctx.cmp(Pred::Eq, e, ke);
        let ne = self.ctx.not(eq);
        let (r, nm) = self.feasible(st, ne);
        match r {
            Res::Unsat => {}
            _ => {
                let mut o = st.clone();
                self.assume(&mut o, ne);
                o.model = if let Res::Sat(_) = r { nm } else { None };
                self.forks += 1;
                self.work.push(o);
            }
        }
        self.assume(st, eq);
        Ok(k)
    }

    // ---------- running ----------
    pub fn run(&mut self, entry: &str) {
        let st = self.init_state(entry);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.cfg.time {
                *self.incomplete.entry("time limit".into()).or_default() += 1 + self.work.len() as u64;
                break;
            }
            if self.paths >= self.cfg.max_paths {
                *self.incomplete.entry("path limit".into()).or_default() += 1 + self.work.len() as u64;
                break;
            }
            self.paths += 1;
            let r = self.run_path(&mut st);
            self.longest = self.longest.max(st.insts);
            match r {
                Stop::End => {
                    self.paths_ok += 1;
                    if self.leaked < st.mem.live_heap {
                        self.leaked = st.mem.live_heap;
                    }
                    if self.samples.len() < 3 || (self.paths % 97 == 0 && self.samples.len() < 6) {
                        if let Some(m) = &st.model {
                            let mut memo = HashMap::new();
                            let v = st.inputs.iter().take(24).map(|i| (i.name.clone(), self.ctx.eval(i.e, m, &mut memo))).collect();
                            self.samples.push(v);
                        }
                    }
                    for x in &st.marks {
                        *self.reach.entry(*x).or_default() += 1;
                    }
                }
                Stop::Infeasible => self.paths_infeasible += 1,
                Stop::Incomplete(w) => {
                    let stack = self.stack_of(&st);
                    let w = format!("{} at {}", w, stack.iter().take(6).cloned().collect::<Vec<_>>().join(" < "));
                    if self.cfg.verbose {
                        eprintln!("INCOMPLETE: {}", w);
                    }
                    *self.incomplete.entry(w).or_default() += 1;
                }
                Stop::Bad(k, msg) => {
                    if k == "panic" || k == "abort" {
                        if let Some(id) = st.expect {
                            self.paths_ok += 1;
                            for x in &st.marks {
                                *self.reach.entry(*x).or_default() += 1;
                            }
                            *self.reach.entry(id).or_default() += 1;
                            continue;
                        }
                    }
                    self.report(&mut st, k, msg);
                    if self.viol.len() >= self.cfg.max_viol {
                        break;
                    }
                }
            }
        }
    }
    pub fn report(&mut self, st: &mut State, kind: String, msg: String) {
        let stack = self.stack_of(st);
        // signature: the innermost user frame (file of the code under test or harness), and message
        let key = if kind == "hang" { kind.clone() } else { format!("{}|{}|{}", kind, msg, stack.iter().find(|s| !s.contains("/rustlib/") && !s.contains("/rustc/")).cloned().unwrap_or_default()) };
        if self.viol_keys.contains(&key) {
            return;
        }
        match self.get_model(st) {
            Res::Sat(m) => {
                let mut memo = HashMap::new();
                let inputs = st.inputs.iter().map(|i| (i.name.clone(), i.w, self.ctx.eval(i.e, &m, &mut memo))).collect();
                let notes = st
                    .notes
                    .iter()
                    .map(|(l, v)| {
                        (*l, match v {
                            V::C(k) => *k,
                            V::S(e) => self.ctx.eval(*e, &m, &mut memo),
                            _ => 0,
                        })
                    })
                    .collect();
                self.viol_keys.insert(key.clone());
                if self.cfg.verbose {
                    eprintln!("VIOLATION {} {} {:?}", kind, msg, stack);
                }
                self.viol.push(Violation { kind, msg, stack, inputs, notes, key });
            }
            Res::Unsat => self.paths_infeasible += 1,
            Res::Unknown => {
                *self.incomplete.entry(format!("violation not confirmed by solver: {} {}", kind, msg)).or_default() += 1;
            }
        }
    }
    pub fn stack_of(&mut self, st: &State) -> Vec<String> {
        let mut out = vec![];
        if st.cur >= st.threads.len() {
            return out;
        }
        for fr in st.threads[st.cur].frames.iter().rev() {
            let ip = (fr.ip as usize).min(fr.f.blocks[fr.bb as usize].insts.len() - 1);
            let mut d = fr.f.blocks[fr.bb as usize].insts[ip].1;
            if d == 0 {
                out.push(self.m.funcs[fr.f.id as usize].dem.clone());
            }
            let mut n = 0;
            while d != 0 && n < 30 {
                let l = self.m.dbg_loc(d);
                out.push(format!("{} {}:{}", l.1, l.0, l.2));
                d = self.m.dbg_inlined_at(d).unwrap_or(0);
                n += 1;
            }
        }
        out
    }
    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut n = 0u64;
        loop {
            n += 1;
            if n & 0xfff == 0 {
                if self.start.elapsed().as_secs_f64() > self.cfg.time {
                    return Stop::Incomplete("time limit".into());
                }
            }
            st.insts += 1;
            self.insts += 1;
            if st.insts > self.cfg.fuel {
                return Stop::Bad("hang".into(), "the code does not terminate".into());
            }
            if st.insts > self.cfg.max_insts {
                return Stop::Incomplete("instruction limit".into());
            }
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }
    #[inline]
    fn val(&self, fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn to_e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(k) => self.ctx.konst(w, *k),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn mkv(&self, e: E) -> V {
        match self.ctx.k(e) {
            Some(k) => V::C(k),
            None => V::S(e),
        }
    }
    fn binv(&mut self, st: &mut State, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            if let Some(r) = fold_bin(op, w, *x, *y) {
                return Ok(V::C(r));
            }
            if matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem) {
                let f = |p: f64, q: f64| match op {
                    BinOp::FAdd => p + q,
                    BinOp::FSub => p - q,
                    BinOp::FMul => p * q,
                    BinOp::FDiv => p / q,
                    _ => p % q,
                };
                return Ok(V::C(if w == 64 {
                    f(f64::from_bits(*x as u64), f64::from_bits(*y as u64)).to_bits() as u128
                } else {
                    (f(f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) as f32).to_bits() as u128
                }));
            }
            return Err(Stop::Bad("ub".into(), "division by zero in IR".into()));
        }
        if matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem) {
            return Err(Stop::Incomplete("symbolic float".into()));
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let _ = st;
        let r = self.ctx.bin(op, w, x, y);
        Ok(self.mkv(r))
    }
    fn cmpv(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(fold_cmp(p, w, *x, *y) as u128);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let r = self.ctx.cmp(p, x, y);
        self.mkv(r)
    }
    fn itev(&mut self, c: E, w: u32, a: &V, b: &V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                // aggregate select with unknown widths: only if equal
                if x == y { a.clone() } else { V::A(x.clone()) }
            }
            _ => {
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let r = self.ctx.ite(c, x, y);
                self.mkv(r)
            }
        }
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        if d != NOREG {
            let t = st.cur;
            st.threads[t].frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    fn goto(&mut self, st: &mut State, bb: u32) {
        let t = st.cur;
        let fr = st.threads[t].frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[bb as usize];
        if b.phis.len() == 1 {
            let (d, srcs) = &b.phis[0];
            let o = &srcs.iter().find(|x| x.0 == from).expect("phi pred").1;
            let v = match o {
                Opd::Reg(r) => fr.regs[*r as usize].clone(),
                Opd::K(v) => v.clone(),
            };
            fr.regs[*d as usize] = v;
        } else if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (_, srcs) in &b.phis {
                let o = &srcs.iter().find(|x| x.0 == from).expect("phi pred").1;
                vals.push(match o {
                    Opd::Reg(r) => fr.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                });
            }
            for ((d, _), v) in b.phis.iter().zip(vals) {
                fr.regs[*d as usize] = v;
            }
        }
        fr.prev = from;
        fr.bb = bb;
        fr.ip = 0;
    }
    /// branch on symbolic condition; returns the side to take, forking if both feasible
    fn branch(&mut self, st: &mut State, c: E) -> R<(bool, Option<State>)> {
        if let V::C(k) = self.simp(st, c) {
            return Ok((k == 1, None));
        }
        let nc = self.ctx.not(c);
        // which side does the model take
        let side = match &st.model {
            Some(m) => {
                let mut memo = HashMap::new();
                Some(self.ctx.eval(c, m, &mut memo) == 1)
            }
            None => None,
        };
        match side {
            Some(s) => {
                let other = if s { nc } else { c };
                let here = if s { c } else { nc };
                let (r, nm) = self.feasible(st, other);
                match r {
                    Res::Unsat => {
                        // implied; keep bounds fresh
                        let b = Rc::make_mut(&mut st.bounds);
                        self.ctx.learn(here, b);
                        Ok((s, None))
                    }
                    _ => {
                        let mut o = st.clone();
                        self.assume(&mut o, other);
                        o.model = if let Res::Sat(_) = r { nm } else { None };
                        self.assume(st, here);
                        self.forks += 1;
                        Ok((s, Some(o)))
                    }
                }
            }
            None => {
                let (r1, m1) = self.feasible(st, c);
                let (r2, m2) = self.feasible(st, nc);
                let f1 = !matches!(r1, Res::Unsat);
                let f2 = !matches!(r2, Res::Unsat);
                match (f1, f2) {
                    (false, false) => Err(Stop::Infeasible),
                    (true, false) => {
                        self.assume(st, c);
                        Ok((true, None))
                    }
                    (false, true) => {
                        self.assume(st, nc);
                        Ok((false, None))
                    }
                    _ => {
                        let mut o = st.clone();
                        self.assume(&mut o, nc);
                        o.model = m2;
                        self.assume(st, c);
                        st.model = m1;
                        self.forks += 1;
                        Ok((true, Some(o)))
                    }
                }
            }
        }
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let t = st.cur;
        let fr = match st.threads[t].frames.last() {
            Some(f) => f,
            None => return Err(Stop::End),
        };
        let fp: *const Func = Rc::as_ptr(&fr.f);
        // functions are retained by self.m.parsed for the whole run
        let blk = unsafe { &(&(*fp).blocks)[fr.bb as usize] };
        let (inst, dbg) = &blk.insts[fr.ip as usize];
        if *dbg != 0 {
            self.dbg_seen[*dbg as usize] = true;
        }
        match inst {
            Inst::Bin { op, w, lanes, a, b, d } => {
                let (x, y) = (self.val(fr, a), self.val(fr, b));
                let r = if *lanes == 0 {
                    self.binv(st, *op, *w, &x, &y)?
                } else {
                    let (V::A(x), V::A(y)) = (x, y) else { panic!("vec") };
                    let mut v = vec![];
                    for i in 0..*lanes as usize {
                        v.push(self.binv(st, *op, *w, &x[i], &y[i])?);
                    }
                    V::A(Rc::new(v))
                };
                self.set(st, *d, r);
            }
            Inst::ICmp { p, w, lanes, a, b, d } => {
                let (x, y) = (self.val(fr, a), self.val(fr, b));
                let r = if *lanes == 0 {
                    self.cmpv(*p, *w, &x, &y)
                } else {
                    let (V::A(x), V::A(y)) = (x, y) else { panic!("vec") };
                    let mut v = vec![];
                    for i in 0..*lanes as usize {
                        v.push(self.cmpv(*p, *w, &x[i], &y[i]));
                    }
                    V::A(Rc::new(v))
                };
                self.set(st, *d, r);
            }
            Inst::FCmp { p, w, a, b, d } => {
                let (x, y) = (self.val(fr, a), self.val(fr, b));
                if let (V::C(x), V::C(y)) = (x, y) {
                    let f = |v: u128| if *w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                    let (x, y) = (f(x), f(y));
                    let un = x.is_nan() || y.is_nan();
                    let (ord, q) = (p.starts_with('o'), &p[1..]);
                    let r = match (p.as_str(), q) {
                        ("true", _) => true,
                        ("false", _) => false,
                        ("ord", _) => !un,
                        ("uno", _) => un,
                        (_, "eq") => if un { !ord } else { x == y },
                        (_, "ne") => if un { !ord } else { x != y },
                        (_, "gt") => if un { !ord } else { x > y },
                        (_, "ge") => if un { !ord } else { x >= y },
                        (_, "lt") => if un { !ord } else { x < y },
                        _ => if un { !ord } else { x <= y },
                    };
                    self.set(st, *d, V::C(r as u128));
                } else {
                    return Err(Stop::Incomplete("symbolic float compare".into()));
                }
            }
            Inst::Cast { op, fw, tw, fl, tl, a, d } => {
                let x = self.val(fr, a);
                let r = self.cast(*op, *fw, *tw, *fl, *tl, &x)?;
                self.set(st, *d, r);
            }
            Inst::Select { w, scalar, lanes, c, a, b, d } => {
                let cv = self.val(fr, c);
                let (x, y) = (self.val(fr, a), self.val(fr, b));
                if *lanes > 0 {
                    let (V::A(cs), V::A(x), V::A(y)) = (cv, x, y) else { panic!() };
                    let mut v = vec![];
                    for i in 0..*lanes as usize {
                        v.push(match &cs[i] {
                            V::C(k) => if *k == 1 { x[i].clone() } else { y[i].clone() },
                            V::S(e) => self.itev(*e, *w, &x[i], &y[i]),
                            _ => panic!(),
                        });
                    }
                    self.set(st, *d, V::A(Rc::new(v)));
                } else {
                    let r = match cv {
                        V::C(k) => if k == 1 { x } else { y },
                        V::S(e) => {
                            if *scalar {
                                self.itev(e, *w, &x, &y)
                            } else {
                                // aggregate: fork
                                let (s, o) = self.branch(st, e)?;
                                if let Some(o) = o {
                                    self.work.push(o);
                                }
                                if s { x } else { y }
                            }
                        }
                        _ => panic!(),
                    };
                    self.set(st, *d, r);
                }
            }
            Inst::Load { ty, p, d } => {
                let pv = self.val(fr, p);
                let v = self.load(st, *ty, &pv)?;
                self.set(st, *d, v);
            }
            Inst::Store { ty, v, p } => {
                let pv = self.val(fr, p);
                let vv = self.val(fr, v);
                let n = self.m.types.size(*ty);
                let a = self.resolve(st, &pv, n)?;
                self.store(st, *ty, a, &vv)?;
            }
            Inst::Gep { base, off, idx, d } => {
                let mut acc = self.val(fr, base);
                if idx.is_empty() {
                    if let V::C(b) = acc {
                        let r = V::C((b as u64).wrapping_add(*off as u64) as u128);
                        self.set(st, *d, r);
                        return self.next(st);
                    }
                }
                let mut terms: Vec<(V, u32, i64)> = vec![];
                for (o, w, s) in idx {
                    terms.push((self.val(fr, o), *w, *s));
                }
                let mut c = *off as i128;
                for (v, w, s) in terms {
                    match v {
                        V::C(k) => c += sx(k, w) * s as i128,
                        V::S(e) => {
                            let e = if w < 64 {
                                self.ctx.sext(64, e)
                            } else if w > 64 {
                                self.ctx.extract(e, 0, 64)
                            } else { e };
                            let k = self.ctx.konst(64, s as u128);
                            let m = self.ctx.bin(BinOp::Mul, 64, e, k);
                            let be = self.to_e(&acc, 64);
                            let r = self.ctx.bin(BinOp::Add, 64, be, m);
                            acc = self.mkv(r);
                        }
                        _ => return Err(Stop::Incomplete("vector gep".into())),
                    }
                }
                let k = V::C(c as u128 & mask(64));
                let r = self.binv(st, BinOp::Add, 64, &acc, &k)?;
                self.set(st, *d, r);
            }
            Inst::Alloca { size, align, n, d } => {
                let cnt = match n {
                    Some(o) => {
                        let v = self.val(fr, o);
                        self.concretize(st, &v, "alloca size")? as u64
                    }
                    None => 1,
                };
                let a = st.mem.alloca(t, size * cnt, *align);
                self.set(st, *d, V::C(a as u128));
            }
            Inst::Call { f, args, rt, d, next } => {
                let fid = match f {
                    Callee::Direct(i) => *i,
                    Callee::Indirect(o) => {
                        let v = self.val(fr, o);
                        let a = self.concretize(st, &v, "function pointer")? as u64;
                        if a < FUNC_BASE || a >= FUNC_BASE + 16 * self.m.funcs.len() as u64 || a % 16 != 0 {
                            return Err(Stop::Bad("memory".into(), format!("call of non-function address {:#x}", a)));
                        }
                        ((a - FUNC_BASE) / 16) as u32
                    }
                    Callee::Asm(s) => {
                        // only empty asm (compiler barriers, black_box)
                        if s.starts_with('|') || s.is_empty() {
                            if *d != NOREG {
                                let fr = st.threads[t].frames.last().unwrap();
                                let v = args.first().map(|a| self.val(fr, &a.1)).unwrap_or(V::C(0));
                                self.set(st, *d, v);
                            }
                            return self.after_call(st, *next);
                        }
                        return Err(Stop::Incomplete(format!("inline asm {}", s)));
                    }
                };
                let fr = st.threads[t].frames.last().unwrap();
                let mut av: Vec<V> = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(self.val(fr, o));
                }
                let b = match self.builtin[fid as usize] {
                    Some(b) => b,
                    None => {
                        let b = fnbuiltin(&self.m.funcs[fid as usize].name, &self.m.funcs[fid as usize].dem);
                        self.builtin[fid as usize] = Some(b);
                        b
                    }
                };
                if b.0 == B::None {
                    let func = match self.m.func(fid) {
                        Some(f) => f,
                        None => return Err(Stop::Incomplete(format!("external function {}", self.m.funcs[fid as usize].name))),
                    };
                    self.funcs_exec.insert(fid);
                    let mut regs = vec![V::C(0); func.nregs];
                    for ((r, _), v) in func.params.iter().zip(av) {
                        regs[*r as usize] = v;
                    }
                    if st.threads[t].frames.len() > 2000 {
                        return Err(Stop::Bad("stack overflow".into(), "call depth over 2000".into()));
                    }
                    let sp = st.mem.stacks[t].len();
                    st.threads[t].frames.push(Frame { regs, f: func, bb: 0, ip: 0, prev: 0, sp });
                    return Ok(());
                }
                let name = self.m.funcs[fid as usize].name.clone();
                let ats: Vec<TyId> = args.iter().map(|a| a.0).collect();
                let r = self.call_builtin(st, b.0, &name, &ats, av, *rt)?;
                if let Some(v) = r {
                    // threads may have switched inside yield; the destination belongs to thread t
                    if *d != NOREG {
                        st.threads[t].frames.last_mut().unwrap().regs[*d as usize] = v;
                    }
                }
                // advance thread t
                let cur = st.cur;
                st.cur = t;
                let rr = self.after_call(st, *next);
                st.cur = cur;
                if st.in_yield {
                    st.in_yield = false;
                    self.schedule(st, t)?;
                }
                return rr;
            }
            Inst::Br(b) => {
                self.goto(st, *b);
                return Ok(());
            }
            Inst::CondBr(c, a, b) => {
                let cv = self.val(fr, c);
                let k = match cv {
                    V::C(k) => k == 1,
                    V::S(e) => {
                        let (s, o) = self.branch(st, e)?;
                        if let Some(mut o) = o {
                            self.goto(&mut o, if s { *b } else { *a });
                            self.work.push(o);
                        }
                        s
                    }
                    _ => panic!(),
                };
                self.goto(st, if k { *a } else { *b });
                return Ok(());
            }
            Inst::Switch { w, v, def, cases } => {
                let x = self.val(fr, v);
                let x = match x {
                    V::S(e) => self.simp(st, e),
                    x => x,
                };
                match x {
                    V::C(k) => {
                        let b = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        self.goto(st, b);
                    }
                    V::S(e) => {
                        // group cases by target block
                        let mut groups: Vec<(u32, E)> = vec![];
                        let mut any = self.ctx.konst(1, 0);
                        for (k, b) in cases {
                            let ke = self.ctx.konst(*w, *k);
                            let eq = self.ctx.cmp(Pred::Eq, e, ke);
                            any = self.ctx.bin(BinOp::Or, 1, any, eq);
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == *b) {
                                g.1 = self.ctx.bin(BinOp::Or, 1, g.1, eq);
                            } else {
                                groups.push((*b, eq));
                            }
                        }
                        let nd = self.ctx.not(any);
                        if let Some(g) = groups.iter_mut().find(|g| g.0 == *def) {
                            g.1 = self.ctx.bin(BinOp::Or, 1, g.1, nd);
                        } else {
                            groups.push((*def, nd));
                        }
                        let mut opts = vec![];
                        for (b, c) in groups {
                            let (r, m) = self.feasible(st, c);
                            match r {
                                Res::Unsat => {}
                                Res::Sat(_) => opts.push((b, c, m)),
                                Res::Unknown => opts.push((b, c, None)),
                            }
                        }
                        if opts.is_empty() {
                            return Err(Stop::Infeasible);
                        }
                        let (b0, c0, m0) = opts.remove(0);
                        for (b, c, m) in opts {
                            let mut o = st.clone();
                            self.assume(&mut o, c);
                            o.model = m;
                            self.goto(&mut o, b);
                            self.forks += 1;
                            self.work.push(o);
                        }
                        self.assume(st, c0);
                        st.model = m0;
                        self.goto(st, b0);
                    }
                    _ => panic!(),
                }
                return Ok(());
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| self.val(fr, o));
                let th = &mut st.threads[t];
                let f = th.frames.pop().unwrap();
                st.mem.stacks[t].truncate(f.sp);
                if th.frames.is_empty() {
                    th.status = Status::Done;
                    if t == 0 {
                        return Err(Stop::End);
                    }
                    self.schedule(st, t)?;
                    return Ok(());
                }
                let cf = th.frames.last().unwrap();
                let ci = &cf.f.blocks[cf.bb as usize].insts[cf.ip as usize].0;
                if let Inst::Call { d, next, .. } = ci {
                    let (d, next) = (*d, *next);
                    if let Some(v) = v {
                        self.set(st, d, v);
                    }
                    return self.after_call(st, next);
                }
                panic!("return into non-call");
            }
            Inst::Unreachable => return Err(Stop::Bad("unreachable".into(), "unreachable code executed".into())),
            Inst::ExtractValue { a, idx, d } => {
                let mut v = self.val(fr, a);
                for i in idx {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::InsertValue { a, v, idx, d } => {
                let x = self.val(fr, a);
                let y = self.val(fr, v);
                fn ins(a: &V, idx: &[u32], y: V) -> V {
                    if idx.is_empty() {
                        return y;
                    }
                    if let V::A(x) = a {
                        let mut n = (**x).clone();
                        n[idx[0] as usize] = ins(&x[idx[0] as usize], &idx[1..], y);
                        return V::A(Rc::new(n));
                    }
                    panic!("insertvalue")
                }
                let r = ins(&x, idx, y);
                self.set(st, *d, r);
            }
            Inst::ExtractElt { a, i, d } => {
                let x = self.val(fr, a);
                let iv = self.val(fr, i);
                let k = self.concretize(st, &iv, "element index")?;
                let V::A(x) = x else { panic!() };
                let v = x[k as usize].clone();
                self.set(st, *d, v);
            }
            Inst::InsertElt { a, v, i, d } => {
                let x = self.val(fr, a);
                let y = self.val(fr, v);
                let iv = self.val(fr, i);
                let k = self.concretize(st, &iv, "element index")?;
                let V::A(x) = x else { panic!() };
                let mut n = (*x).clone();
                n[k as usize] = y;
                self.set(st, *d, V::A(Rc::new(n)));
            }
            Inst::Shuffle { a, b, n, mask, d } => {
                let (V::A(x), V::A(y)) = (self.val(fr, a), self.val(fr, b)) else { panic!() };
                let v: Vec<V> = mask.iter().map(|m| if *m < *n { x[*m as usize].clone() } else { y[(*m - *n) as usize].clone() }).collect();
                self.set(st, *d, V::A(Rc::new(v)));
            }
            Inst::Rmw { op, w, p, v, d } => {
                let pv = self.val(fr, p);
                let vv = self.val(fr, v);
                let n = (*w as u64 + 7) / 8;
                let a = self.resolve(st, &pv, n)?;
                let old = self.read_int(st, a, *w)?;
                let new = match op.as_str() {
                    "xchg" => vv,
                    "add" => self.binv(st, BinOp::Add, *w, &old, &vv)?,
                    "sub" => self.binv(st, BinOp::Sub, *w, &old, &vv)?,
                    "and" => self.binv(st, BinOp::And, *w, &old, &vv)?,
                    "or" => self.binv(st, BinOp::Or, *w, &old, &vv)?,
                    "xor" => self.binv(st, BinOp::Xor, *w, &old, &vv)?,
                    "nand" => {
                        let x = self.binv(st, BinOp::And, *w, &old, &vv)?;
                        self.binv(st, BinOp::Xor, *w, &x, &V::C(mask(*w)))?
                    }
                    "max" | "min" | "umax" | "umin" => {
                        let p = match op.as_str() {
                            "max" => Pred::Sgt,
                            "min" => Pred::Slt,
                            "umax" => Pred::Ugt,
                            _ => Pred::Ult,
                        };
                        match self.cmpv(p, *w, &old, &vv) {
                            V::C(k) => if k == 1 { old.clone() } else { vv },
                            V::S(e) => self.itev(e, *w, &old, &vv),
                            _ => panic!(),
                        }
                    }
                    _ => return Err(Stop::Incomplete(format!("atomicrmw {}", op))),
                };
                self.write_int(st, a, *w, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg { w, p, e, n, d } => {
                let pv = self.val(fr, p);
                let ev = self.val(fr, e);
                let nv = self.val(fr, n);
                let nb = (*w as u64 + 7) / 8;
                let a = self.resolve(st, &pv, nb)?;
                let old = self.read_int(st, a, *w)?;
                let eq = self.cmpv(Pred::Eq, *w, &old, &ev);
                match &eq {
                    V::C(k) => {
                        if *k == 1 {
                            self.write_int(st, a, *w, &nv)?;
                        }
                    }
                    V::S(c) => {
                        let x = self.itev(*c, *w, &nv, &old);
                        self.write_int(st, a, *w, &x)?;
                    }
                    _ => panic!(),
                }
                self.set(st, *d, V::A(Rc::new(vec![old, eq])));
            }
            Inst::Fence => {}
            Inst::Freeze { a, d } => {
                let v = self.val(fr, a);
                self.set(st, *d, v);
            }
            Inst::Unsupported(s) => return Err(Stop::Incomplete(format!("unsupported instruction {}", s))),
        }
        self.next(st)
    }
    #[inline]
    fn next(&mut self, st: &mut State) -> R<()> {
        let t = st.cur;
        st.threads[t].frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    fn after_call(&mut self, st: &mut State, next: u32) -> R<()> {
        if next == u32::MAX {
            self.next(st)
        } else {
            self.goto(st, next);
            Ok(())
        }
    }
    fn cast(&mut self, op: CastOp, fw: u32, tw: u32, fl: u32, tl: u32, x: &V) -> R<V> {
        if op == CastOp::Bitcast {
            if fl == tl && fw == tw {
                return Ok(x.clone());
            }
            // flatten to integer then split
            let total = fw * fl.max(1);
            let flat: V = match x {
                V::A(v) => {
                    let mut c = 0u128;
                    let mut allc = true;
                    for (i, y) in v.iter().enumerate() {
                        match y {
                            V::C(k) => c |= k << (i as u32 * fw),
                            _ => allc = false,
                        }
                    }
                    if allc {
                        V::C(c)
                    } else {
                        let mut acc = self.to_e(&v[v.len() - 1], fw);
                        for y in v[..v.len() - 1].iter().rev() {
                            let l = self.to_e(y, fw);
                            acc = self.ctx.concat(acc, l);
                        }
                        self.mkv(acc)
                    }
                }
                y => y.clone(),
            };
            if tl == 0 {
                return Ok(flat);
            }
            let mut v = vec![];
            for i in 0..tl {
                v.push(match &flat {
                    V::C(k) => V::C((k >> (i * tw)) & mask(tw)),
                    V::S(e) => {
                        let y = self.ctx.extract(*e, i * tw, tw);
                        self.mkv(y)
                    }
                    _ => panic!(),
                });
            }
            let _ = total;
            return Ok(V::A(Rc::new(v)));
        }
        if fl > 0 {
            let V::A(v) = x else { panic!() };
            let mut o = vec![];
            for y in v.iter() {
                o.push(self.cast(op, fw, tw, 0, 0, y)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        match (op, x) {
            (CastOp::ZExt, V::C(k)) => Ok(V::C(*k)),
            (CastOp::SExt, V::C(k)) => Ok(V::C(sx(*k, fw) as u128 & mask(tw))),
            (CastOp::Trunc, V::C(k)) => Ok(V::C(k & mask(tw))),
            (CastOp::ZExt, V::S(e)) => {
                let r = self.ctx.zext(tw, *e);
                Ok(self.mkv(r))
            }
            (CastOp::SExt, V::S(e)) => {
                let r = self.ctx.sext(tw, *e);
                Ok(self.mkv(r))
            }
            (CastOp::Trunc, V::S(e)) => {
                let r = self.ctx.extract(*e, 0, tw);
                Ok(self.mkv(r))
            }
            (o, V::C(k)) => {
                let f = |v: u128| if fw == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                let g = |x: f64| if tw == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 };
                Ok(V::C(match o {
                    CastOp::FpToUi => f(*k) as u128 & mask(tw),
                    CastOp::FpToSi => f(*k) as i128 as u128 & mask(tw),
                    CastOp::UiToFp => g(*k as f64),
                    CastOp::SiToFp => g(sx(*k, fw) as f64),
                    _ => g(f(*k)),
                }))
            }
            _ => Err(Stop::Incomplete("symbolic float cast".into())),
        }
    }

    // ---------- memory ----------
    /// resolve an address operand to a concrete address (forking)
    fn resolve(&mut self, st: &mut State, p: &V, _n: u64) -> R<u64> {
        let e = match p {
            V::C(k) => return Ok(*k as u64),
            V::S(e) => *e,
            _ => panic!(),
        };
        Ok(self.concretize(st, &V::S(e), "address")? as u64)
    }
    fn read_int(&mut self, st: &mut State, a: u64, w: u32) -> R<V> {
        let n = (w as u64 + 7) / 8;
        match st.mem.read(&mut self.ctx, a, n)? {
            Ok(k) => Ok(V::C(k & mask(w))),
            Err(e) => {
                let e = if w % 8 != 0 { self.ctx.extract(e, 0, w) } else { e };
                Ok(self.mkv(e))
            }
        }
    }
    fn write_int(&mut self, st: &mut State, a: u64, w: u32, v: &V) -> R<()> {
        let n = (w as u64 + 7) / 8;
        match v {
            V::C(k) => st.mem.write_c(a, n, *k)?,
            V::S(e) => {
                let e = if w % 8 != 0 { self.ctx.zext(n as u32 * 8, *e) } else { *e };
                match self.ctx.k(e) {
                    Some(k) => st.mem.write_c(a, n, k)?,
                    None => st.mem.write_e(&mut self.ctx, a, n, e)?,
                }
            }
            _ => panic!(),
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, ty: TyId, p: &V) -> R<V> {
        let a = match p {
            V::C(k) => *k as u64,
            V::S(e) => {
                let w = self.m.types.scalar_w(ty);
                match (self.simp(st, *e), w) {
                    (V::C(k), _) => k as u64,
                    (_, Some(w)) => return self.load_sym(st, *e, w),
                    _ => self.resolve(st, p, 0)?,
                }
            }
            _ => panic!(),
        };
        self.load_at(st, ty, a)
    }
    fn load_at(&mut self, st: &mut State, ty: TyId, a: u64) -> R<V> {
        if let Some(w) = self.m.types.scalar_w(ty) {
            return self.read_int(st, a, w);
        }
        match self.m.types.get(ty).clone() {
            Ty::Arr(n, e) => {
                let sz = self.m.types.size(e);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_at(st, e, a + i * sz)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vec(n, e) => {
                let bits = self.m.types.bits(e);
                if bits % 8 != 0 {
                    return Err(Stop::Incomplete("bit-vector load".into()));
                }
                let sz = bits / 8;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_at(st, e, a + i * sz)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for i in 0..fs.len() {
                    let (o, t) = self.m.types.field_off(ty, i);
                    v.push(self.load_at(st, t, a + o)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            x => Err(Stop::Incomplete(format!("load of {:?}", x))),
        }
    }
    fn store(&mut self, st: &mut State, ty: TyId, a: u64, v: &V) -> R<()> {
        if let Some(w) = self.m.types.scalar_w(ty) {
            return self.write_int(st, a, w, v);
        }
        let V::A(x) = v else { return Err(Stop::Incomplete("aggregate store".into())) };
        match self.m.types.get(ty).clone() {
            Ty::Arr(n, e) => {
                let sz = self.m.types.size(e);
                for i in 0..n {
                    self.store(st, e, a + i * sz, &x[i as usize])?;
                }
                Ok(())
            }
            Ty::Vec(n, e) => {
                let sz = self.m.types.bits(e) / 8;
                for i in 0..n {
                    self.store(st, e, a + i * sz, &x[i as usize])?;
                }
                Ok(())
            }
            Ty::Struct(fs, _) => {
                for i in 0..fs.len() {
                    let (o, t) = self.m.types.field_off(ty, i);
                    self.store(st, t, a + o, &x[i])?;
                }
                Ok(())
            }
            x => Err(Stop::Incomplete(format!("store of {:?}", x))),
        }
    }
    /// load through a symbolic address: table read when the range is small
    fn load_sym(&mut self, st: &mut State, e: E, w: u32) -> R<V> {
        let n = (w as u64 + 7) / 8;
        let m = match self.get_model(st) {
            Res::Sat(m) => m,
            Res::Unsat => return Err(Stop::Infeasible),
            Res::Unknown => return Err(Stop::Incomplete("solver unknown at symbolic load".into())),
        };
        let mut memo = HashMap::new();
        let a0 = self.ctx.eval(e, &m, &mut memo) as u64;
        let (l, _) = st.mem.range(a0, n)?; // violation if out of bounds: model proves reachability
        let (base, size) = {
            let s = st.mem.slot(l);
            (s.base, s.size)
        };
        let be = self.ctx.konst(64, base as u128);
        let off = self.ctx.bin(BinOp::Sub, 64, e, be);
        let lim = self.ctx.konst(64, (size - n) as u128);
        let inb = self.ctx.cmp(Pred::Ule, off, lim);
        let oob = self.ctx.not(inb);
        let (r, nm) = self.feasible(st, oob);
        if !matches!(r, Res::Unsat) {
            let mut o = st.clone();
            self.assume(&mut o, oob);
            o.model = if let Res::Sat(_) = r { nm } else { None };
            self.forks += 1;
            self.work.push(o);
        }
        self.assume(st, inb);
        let mut memo = HashMap::new();
        let (lo, hi) = self.ctx.interval(off, &st.bounds, &mut memo);
        let lo = lo.min((size - n) as u128);
        let hi = hi.min((size - n) as u128);
        let tz = (!self.ctx.kz[off as usize] & mask(64)).trailing_zeros().min(12);
        let mut stride = 1u128 << tz;
        // stride from mul by const
        if let Op::Mul = self.ctx.n(off).op {
            if let Some(k) = self.ctx.k(self.ctx.n(off).b) {
                if k < 1 << 20 && (hi + k) < (1 << 40) {
                    stride = k;
                }
            }
        }
        let start = (lo + stride - 1) / stride * stride;
        let cnt = if hi >= start { (hi - start) / stride + 1 } else { 0 };
        if cnt == 0 || cnt > 256 {
            let k = self.concretize(st, &V::S(e), "load address")?;
            return self.read_int(st, k as u64, w);
        }
        let mut acc: Option<V> = None;
        for i in (0..cnt).rev() {
            let o = start + i * stride;
            let v = self.read_int(st, base + o as u64, w)?;
            acc = Some(match acc {
                None => v,
                Some(x) => {
                    let ke = self.ctx.konst(64, o);
                    let c = self.ctx.cmp(Pred::Eq, off, ke);
                    match self.ctx.k(c) {
                        Some(1) => v,
                        Some(_) => x,
                        None => self.itev(c, w, &v, &x),
                    }
                }
            });
        }
        Ok(acc.unwrap())
    }

    // ---------- threads ----------
    fn runnable(&mut self, st: &mut State, t: usize) -> R<bool> {
        let th = &st.threads[t];
        Ok(match th.status {
            Status::Run => true,
            Status::Done => false,
            Status::Wait(a, v) => match self.read_int(st, a, 64)? {
                V::C(k) => k as u64 == v,
                _ => return Err(Stop::Incomplete("wait on symbolic value".into())),
            },
            Status::WaitNe(a, v) => match self.read_int(st, a, 64)? {
                V::C(k) => k as u64 != v,
                _ => return Err(Stop::Incomplete("wait on symbolic value".into())),
            },
        })
    }
    /// choose next thread after thread t reached a scheduling point
    fn schedule(&mut self, st: &mut State, t: usize) -> R<()> {
        let mut opts = vec![];
        for i in 0..st.threads.len() {
            if self.runnable(st, i)? {
                opts.push(i);
            }
        }
        if opts.is_empty() {
            st.cur = t.min(st.threads.len() - 1);
            if st.threads[st.cur].frames.is_empty() {
                st.cur = 0;
            }
            return Err(Stop::Bad("deadlock".into(), "no thread can make progress (lost wakeup or deadlock)".into()));
        }
        let can_stay = opts.contains(&t);
        if can_stay && st.preempt == 0 {
            st.threads[t].status = Status::Run;
            st.cur = t;
            return Ok(());
        }
        if opts.len() == 1 {
            st.cur = opts[0];
            st.threads[opts[0]].status = Status::Run;
            return Ok(());
        }
        self.sched_points += 1;
        // schedule choice is an input variable, explored value by value
        // order: staying first
        opts.sort_by_key(|x| (*x != t, *x));
        let idx = st.inputs.len();
        let n = opts.len();
        for k in (0..n).rev() {
            let mut o;
            let s: &mut State = if k == 0 {
                st
            } else {
                o = st.clone();
                &mut o
            };
            let v = self.newvar(s, idx, "sched", 8, 0, n as u128 - 1);
            let ke = self.ctx.konst(8, k as u128);
            let eq = self.ctx.cmp(Pred::Eq, v, ke);
            self.assume(s, eq);
            let vid = match self.ctx.n(v).op {
                Op::Var(i) => i,
                _ => u32::MAX,
            };
            if let Some(m) = &mut s.model {
                Rc::make_mut(m).insert(vid, k as u128);
            }
            if can_stay && opts[k] != t {
                s.preempt -= 1;
            }
            s.cur = opts[k];
            s.threads[opts[k]].status = Status::Run;
            if k > 0 {
                let o = s.clone();
                self.forks += 1;
                self.work.push(o);
            }
        }
        Ok(())
    }
    fn newvar(&mut self, st: &mut State, idx: usize, name: &str, w: u32, lo: u128, hi: u128) -> E {
        debug_assert_eq!(idx, st.inputs.len());
        let key = (idx, w, lo, hi);
        let e = match self.vars_by_idx.get(&key) {
            Some(e) => *e,
            None => {
                let e = if lo == hi { self.ctx.konst(w, lo) } else { self.ctx.var(&format!("{}{}", name, idx), w, lo, hi) };
                self.vars_by_idx.insert(key, e);
                e
            }
        };
        st.inputs.push(Input { name: format!("{}{}", name, idx), w, e });
        if let Op::Var(i) = self.ctx.n(e).op {
            if let Some(m) = &mut st.model {
                Rc::make_mut(m).insert(i, lo);
            }
        }
        e
    }

    // ---------- builtins ----------
    fn cint(&mut self, st: &mut State, v: &V, why: &str) -> R<u64> {
        Ok(self.concretize(st, v, why)? as u64)
    }
    fn str_at(&self, st: &State, p: &V, n: &V) -> String {
        if let (V::C(p), V::C(n)) = (p, n) {
            if *n < 4096 {
                if let Some(b) = st.mem.bytes(*p as u64, *n as u64) {
                    return String::from_utf8_lossy(&b).to_string();
                }
            }
        }
        String::new()
    }
    fn call_builtin(&mut self, st: &mut State, b: B, name: &str, ats: &[TyId], a: Vec<V>, rt: TyId) -> R<Option<V>> {
        let z = Ok(Some(V::C(0)));
        match b {
            B::Nop => Ok(Some(V::C(0))),
            B::Panic | B::Abort => {
                let fid = self.m.fidx[name];
                let dem = self.m.funcs[fid as usize].dem.clone();
                let mut msg = dem.clone();
                // message string for panic(&str)
                if a.len() >= 2 && (dem.ends_with("core::panicking::panic") || dem.contains("expect_failed") || dem.contains("result::unwrap_failed")) {
                    let s = self.str_at(st, &a[0], &a[1]);
                    msg = format!("{}: {}", dem, s);
                } else if a.len() >= 2 && dem.contains("panicking::panic_fmt") {
                    // fmt::Arguments: template ptr; static string has low bit set in second word
                    let (p, q) = (a[0].clone(), a[1].clone());
                    if let (V::C(p), V::C(q)) = (&p, &q) {
                        if q & 1 == 1 {
                            let s = self.str_at(st, &V::C(*p), &V::C(*q >> 1));
                            msg = format!("panic: {}", s);
                        } else if let Some(bt) = st.mem.bytes(*p as u64, 1) {
                            // template: length-prefixed literal pieces
                            let l = bt[0] as u64;
                            if l < 0x80 {
                                if let Some(s) = st.mem.bytes(*p as u64 + 1, l) {
                                    msg = format!("panic: {}...", String::from_utf8_lossy(&s));
                                }
                            }
                        }
                    }
                }
                // location
                for v in a.iter().rev() {
                    if let V::C(p) = v {
                        if let Some(bts) = st.mem.bytes(*p as u64, 24) {
                            let rd = |o: usize, n: usize| bts[o..o + n].iter().rev().fold(0u64, |x, y| (x << 8) | *y as u64);
                            let (fp, fl, line) = (rd(0, 8), rd(8, 8), rd(16, 4));
                            let f = self.str_at(st, &V::C(fp as u128), &V::C(fl as u128));
                            if f.ends_with(".rs") {
                                msg = format!("{} at {}:{}", msg, f, line);
                                break;
                            }
                        }
                    }
                }
                Err(Stop::Bad(if b == B::Panic { "panic".into() } else { "abort".into() }, msg))
            }
            B::Malloc => {
                let n = self.cint(st, &a[0], "malloc size")?;
                if n > 1 << 32 {
                    return Err(Stop::Incomplete(format!("huge allocation {}", n)));
                }
                Ok(Some(V::C(st.mem.alloc(n, 16, 0xCD) as u128)))
            }
            B::Calloc => {
                let x = self.cint(st, &a[0], "calloc size")?;
                let y = self.cint(st, &a[1], "calloc size")?;
                if x.saturating_mul(y) > 1 << 32 {
                    return Err(Stop::Incomplete("huge allocation".into()));
                }
                Ok(Some(V::C(st.mem.alloc(x * y, 16, 0) as u128)))
            }
            B::Realloc => {
                let p = self.cint(st, &a[0], "realloc ptr")?;
                let n = self.cint(st, &a[1], "realloc size")?;
                self.realloc(st, p, n, 16)
            }
            B::Free => {
                let p = self.cint(st, &a[0], "free ptr")?;
                if p != 0 {
                    st.mem.free(p)?;
                }
                z
            }
            B::PosixMemalign => {
                let p = self.cint(st, &a[0], "ptr")?;
                let al = self.cint(st, &a[1], "align")?;
                let n = self.cint(st, &a[2], "size")?;
                let r = st.mem.alloc(n, al, 0xCD);
                st.mem.write_c(p, 8, r as u128)?;
                z
            }
            B::RustAlloc | B::RustAllocZ => {
                let n = self.cint(st, &a[0], "alloc size")?;
                let al = self.cint(st, &a[1], "alloc align")?;
                if n > 1 << 32 {
                    return Err(Stop::Incomplete(format!("huge allocation {}", n)));
                }
                Ok(Some(V::C(st.mem.alloc(n, al, if b == B::RustAlloc { 0xCD } else { 0 }) as u128)))
            }
            B::RustDealloc => {
                let p = self.cint(st, &a[0], "free ptr")?;
                let n = self.cint(st, &a[1], "free size")?;
                if let Some(s) = st.mem.heap_size(p) {
                    if s != n {
                        return Err(Stop::Bad("memory".into(), format!("dealloc size {} but allocated {}", n, s)));
                    }
                }
                st.mem.free(p)?;
                z
            }
            B::RustRealloc => {
                let p = self.cint(st, &a[0], "realloc ptr")?;
                let al = self.cint(st, &a[2], "align")?;
                let n = self.cint(st, &a[3], "realloc size")?;
                self.realloc(st, p, n, al)
            }
            B::Memcmp | B::Bcmp => {
                let p = self.cint(st, &a[0], "memcmp ptr")?;
                let q = self.cint(st, &a[1], "memcmp ptr")?;
                let n = self.cint(st, &a[2], "memcmp len")?;
                self.memcmp(st, p, q, n, b == B::Bcmp)
            }
            B::Memcpy => {
                let p = self.cint(st, &a[0], "memcpy dst")?;
                let q = self.cint(st, &a[1], "memcpy src")?;
                let n = self.cint(st, &a[2], "memcpy len")?;
                st.mem.copy(p, q, n)?;
                Ok(Some(V::C(p as u128)))
            }
            B::Memset => {
                let p = self.cint(st, &a[0], "memset dst")?;
                let n = self.cint(st, &a[2], "memset len")?;
                let v = match &a[1] {
                    V::C(k) => V::C(k & 255),
                    V::S(e) => {
                        let x = self.ctx.extract(*e, 0, 8);
                        self.mkv(x)
                    }
                    _ => panic!(),
                };
                self.memset(st, p, &v, n)?;
                Ok(Some(V::C(p as u128)))
            }
            B::Strlen => {
                let p = self.cint(st, &a[0], "strlen ptr")?;
                let mut n = 0;
                loop {
                    match st.mem.read(&mut self.ctx, p + n, 1)? {
                        Ok(0) => break,
                        Ok(_) => n += 1,
                        Err(_) => return Err(Stop::Incomplete("symbolic strlen".into())),
                    }
                }
                Ok(Some(V::C(n as u128)))
            }
            B::SymU(w) => {
                let idx = st.inputs.len();
                let e = self.newvar(st, idx, "x", w, 0, mask(w));
                Ok(Some(V::S(e)))
            }
            B::SymU128 => {
                let idx = st.inputs.len();
                let e = self.newvar(st, idx, "x", 128, 0, mask(128));
                let p = self.cint(st, &a[0], "ptr")?;
                st.mem.write_e(&mut self.ctx, p, 16, e)?;
                z
            }
            B::SymRange => {
                let lo = self.cint(st, &a[0], "range lo")?;
                let hi = self.cint(st, &a[1], "range hi")?;
                if lo > hi {
                    return Err(Stop::Infeasible);
                }
                let idx = st.inputs.len();
                let e = self.newvar(st, idx, "x", 64, lo as u128, hi as u128);
                Ok(Some(self.mkv(e)))
            }
            B::SymChoice => {
                if st.pending.is_none() {
                    let n = self.cint(st, &a[0], "choice n")?;
                    if n == 0 {
                        return Err(Stop::Infeasible);
                    }
                    let idx = st.inputs.len();
                    let e = self.newvar(st, idx, "c", 64, 0, n as u128 - 1);
                    st.pending = Some(e);
                }
                let v = self.mkv(st.pending.unwrap());
                let k = self.concretize(st, &v, "choice")?;
                st.pending = None;
                Ok(Some(V::C(k)))
            }
            B::SymConc => {
                let k = self.concretize(st, &a[0], "concretize")?;
                Ok(Some(V::C(k)))
            }
            B::SymAssume => {
                match &a[0] {
                    V::C(k) => {
                        if *k == 0 {
                            self.paths_assumed_out += 1;
                            return Err(Stop::Infeasible);
                        }
                    }
                    V::S(e) => {
                        let (r, m) = self.feasible(st, *e);
                        match r {
                            Res::Unsat => {
                                self.paths_assumed_out += 1;
                                return Err(Stop::Infeasible);
                            }
                            Res::Sat(_) => st.model = m,
                            Res::Unknown => st.model = None,
                        }
                        self.assume(st, *e);
                    }
                    _ => panic!(),
                }
                z
            }
            B::SymCheck => {
                self.checks += 1;
                let msg = self.str_at(st, &a[1], &a[2]);
                match &a[0] {
                    V::C(k) => {
                        if *k == 0 {
                            return Err(Stop::Bad("check".into(), msg));
                        }
                    }
                    V::S(e) => {
                        let ne = self.ctx.not(*e);
                        self.checks_solver += 1;
                        let (r, m) = self.feasible(st, ne);
                        match r {
                            Res::Unsat => {
                                let b = Rc::make_mut(&mut st.bounds);
                                self.ctx.learn(*e, b);
                            }
                            Res::Unknown => {
                                let stack = self.stack_of(st);
                                *self.incomplete.entry(format!("solver unknown on check: {} at {}", msg, stack.first().cloned().unwrap_or_default())).or_default() += 1;
                            }
                            Res::Sat(_) => {
                                let mut o = st.clone();
                                self.assume(&mut o, ne);
                                o.model = m;
                                self.report(&mut o, "check".into(), msg);
                                // continue where it holds
                                let (r, m) = self.feasible(st, *e);
                                match r {
                                    Res::Unsat => return Err(Stop::End),
                                    Res::Sat(_) => st.model = m,
                                    _ => st.model = None,
                                }
                                self.assume(st, *e);
                            }
                        }
                    }
                    _ => panic!(),
                }
                z
            }
            B::SymReach => {
                let k = self.cint(st, &a[0], "reach id")? as u32;
                if !st.marks.contains(&k) {
                    st.marks.push(k);
                }
                z
            }
            B::SymExpect => {
                let k = self.cint(st, &a[0], "id")? as u32;
                st.expect = if k == u32::MAX { None } else { Some(k) };
                z
            }
            B::SymKill => Err(Stop::Infeasible),
            B::SymBytes => {
                let p = self.cint(st, &a[0], "ptr")?;
                let n = self.cint(st, &a[1], "len")?;
                for i in 0..n {
                    let idx = st.inputs.len();
                    let e = self.newvar(st, idx, "b", 8, 0, 255);
                    st.mem.write_e(&mut self.ctx, p + i, 1, e)?;
                }
                z
            }
            B::SymParam => {
                let k = self.cint(st, &a[0], "param")? as usize;
                Ok(Some(V::C(self.cfg.params.get(k).copied().unwrap_or(0) as u128)))
            }
            B::SymYield => {
                st.in_yield = true;
                z
            }
            B::SymSpawn => {
                let f = self.cint(st, &a[0], "fn")?;
                let fid = ((f - FUNC_BASE) / 16) as u32;
                let func = self.m.func(fid).ok_or(Stop::Incomplete("spawn extern".into()))?;
                self.funcs_exec.insert(fid);
                let mut regs = vec![V::C(0); func.nregs];
                if let Some((r, _)) = func.params.first() {
                    regs[*r as usize] = a[1].clone();
                }
                let tid = st.threads.len();
                st.mem.stacks.push(vec![]);
                st.threads.push(Thread { frames: vec![Frame { regs, f: func, bb: 0, ip: 0, prev: 0, sp: 0 }], status: Status::Run });
                Ok(Some(V::C(tid as u128)))
            }
            B::SymWait | B::SymWaitNe => {
                let p = self.cint(st, &a[0], "ptr")?;
                let v = self.cint(st, &a[1], "val")?;
                let t = st.cur;
                let cur = self.read_int(st, p, 64)?;
                let V::C(k) = cur else { return Err(Stop::Incomplete("wait on symbolic".into())) };
                let ok = if b == B::SymWait { k as u64 == v } else { k as u64 != v };
                if !ok {
                    st.threads[t].status = if b == B::SymWait { Status::Wait(p, v) } else { Status::WaitNe(p, v) };
                    st.in_yield = true;
                }
                z
            }
            B::SymTid => Ok(Some(V::C(st.cur as u128))),
            B::SymNote => {
                let l = self.cint(st, &a[0], "label")?;
                st.notes.push((l, a[1].clone()));
                z
            }
            B::SymIsSym => Ok(Some(V::C(matches!(a[0], V::S(_)) as u128))),
            B::RetZero => z,
            B::Getrandom => {
                let p = self.cint(st, &a[0], "ptr")?;
                let n = self.cint(st, &a[1], "len")?;
                self.memset(st, p, &V::C(0), n)?;
                Ok(Some(V::C(n as u128)))
            }
            B::Write => Ok(Some(a[2].clone())),
            B::ClockGettime => {
                let p = self.cint(st, &a[1], "ptr")?;
                st.mem.write_c(p, 8, 1000 + st.insts as u128 / 100000)?;
                st.mem.write_c(p + 8, 8, 0)?;
                z
            }
            B::Errno => {
                // one cell, allocated lazily on the heap and leaked
                Ok(Some(V::C(st.mem.alloc(8, 8, 0) as u128)))
            }
            B::Intrinsic => self.intrinsic(st, name, ats, a, rt),
            B::None => unreachable!(),
        }
    }
    fn realloc(&mut self, st: &mut State, p: u64, n: u64, al: u64) -> R<Option<V>> {
        if n > 1 << 32 {
            return Err(Stop::Incomplete("huge allocation".into()));
        }
        let q = st.mem.alloc(n, al, 0xCD);
        if p != 0 {
            let old = match st.mem.heap_size(p) {
                Some(x) => x,
                None => return Err(Stop::Bad("memory".into(), format!("realloc of bad pointer {:#x}", p))),
            };
            st.mem.copy(q, p, old.min(n))?;
            st.mem.free(p)?;
        }
        Ok(Some(V::C(q as u128)))
    }
    fn memset(&mut self, st: &mut State, p: u64, v: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        match v {
            V::C(k) => {
                let (l, off) = st.mem.range(p, n)?;
                if st.mem.obj(l).ro {
                    return Err(Stop::Bad("memory".into(), "memset of read-only".into()));
                }
                let o = st.mem.obj_mut(l);
                for x in &mut o.data[off..off + n as usize] {
                    *x = *k as u8;
                }
                if let Some(s) = &mut o.sym {
                    for x in &mut s[off..off + n as usize] {
                        *x = 0;
                    }
                }
            }
            v => {
                for i in 0..n {
                    self.write_int(st, p + i, 8, v)?;
                }
            }
        }
        Ok(())
    }
    fn memcmp(&mut self, st: &mut State, p: u64, q: u64, n: u64, eqonly: bool) -> R<Option<V>> {
        if n == 0 {
            return Ok(Some(V::C(0)));
        }
        if let (Some(x), Some(y)) = (st.mem.bytes(p, n), st.mem.bytes(q, n)) {
            let r = match x.cmp(&y) {
                std::cmp::Ordering::Less => mask(32),
                std::cmp::Ordering::Equal => 0,
                _ => 1,
            };
            return Ok(Some(V::C(r)));
        }
        st.mem.range(p, n)?;
        st.mem.range(q, n)?;
        if eqonly {
            let mut all = self.ctx.konst(1, 1);
            let mut i = 0;
            while i < n {
                let k = (n - i).min(8);
                let x = self.read_int(st, p + i, 8 * k as u32)?;
                let y = self.read_int(st, q + i, 8 * k as u32)?;
                let c = self.cmpv(Pred::Eq, 8 * k as u32, &x, &y);
                let c = self.to_e(&c, 1);
                all = self.ctx.bin(BinOp::And, 1, all, c);
                i += k;
            }
            let o = self.ctx.konst(32, 1);
            let zz = self.ctx.konst(32, 0);
            let r = self.ctx.ite(all, zz, o);
            return Ok(Some(self.mkv(r)));
        }
        let mut r = self.ctx.konst(32, 0);
        let one = self.ctx.konst(32, 1);
        let neg = self.ctx.konst(32, u128::MAX);
        for i in (0..n).rev() {
            let x = self.read_int(st, p + i, 8)?;
            let y = self.read_int(st, q + i, 8)?;
            let x = self.to_e(&x, 8);
            let y = self.to_e(&y, 8);
            let eq = self.ctx.cmp(Pred::Eq, x, y);
            let lt = self.ctx.cmp(Pred::Ult, x, y);
            let d = self.ctx.ite(lt, neg, one);
            r = self.ctx.ite(eq, r, d);
        }
        Ok(Some(self.mkv(r)))
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, ats: &[TyId], a: Vec<V>, rt: TyId) -> R<Option<V>> {
        let parts: Vec<&str> = name.split('.').collect();
        let k1 = parts[1];
        let w = ats.first().and_then(|t| self.m.types.scalar_w(*t)).unwrap_or(0);
        let rw = self.m.types.scalar_w(rt).unwrap_or(0);
        // elementwise vector intrinsics
        if let Some((ew, lanes)) = ats.first().and_then(|t| self.m.types.lanes(*t)) {
            if lanes > 0 && !k1.starts_with("vector") && k1 != "masked" {
                let mut out = vec![];
                let it = self.m.types.intern(Ty::Int(ew));
                for i in 0..lanes as usize {
                    let ai: Vec<V> = a
                        .iter()
                        .map(|x| match x {
                            V::A(v) => v[i].clone(),
                            y => y.clone(),
                        })
                        .collect();
                    let ts: Vec<TyId> = a.iter().map(|_| it).collect();
                    let r = self.intrinsic(st, name, &ts, ai, it)?.unwrap();
                    out.push(r);
                }
                return Ok(Some(V::A(Rc::new(out))));
            }
        }
        match k1 {
            "lifetime" | "experimental" | "dbg" | "invariant" | "prefetch" | "sideeffect" | "donothing" | "x86" | "var" => {
                if k1 == "experimental" && parts.get(2) != Some(&"noalias") {
                    return Err(Stop::Incomplete(name.into()));
                }
                if k1 == "x86" && !name.contains("pause") {
                    return Err(Stop::Incomplete(name.into()));
                }
                Ok(Some(V::C(0)))
            }
            "fptoui" | "fptosi" | "floor" | "ceil" | "trunc" | "round" | "rint" | "fabs" | "sqrt" | "fmuladd" | "fma" | "minnum" | "maxnum" | "powi" | "pow" | "log2" | "exp2" => {
                let mut x = vec![];
                for v in &a {
                    match v {
                        V::C(k) => x.push(*k),
                        _ => return Err(Stop::Incomplete(format!("symbolic {name}"))),
                    }
                }
                let f = |i: usize| if w == 64 { f64::from_bits(x[i] as u64) } else { f32::from_bits(x[i] as u32) as f64 };
                let (lo, hi) = (-(1i128 << (rw.min(64) - 1)), (1i128 << (rw.min(64) - 1)) - 1);
                let r = match k1 {
                    "fptoui" => return Ok(Some(V::C((f(0) as u128).min(mask(rw))))),
                    "fptosi" => return Ok(Some(V::C((f(0) as i128).clamp(lo, hi) as u128 & mask(rw)))),
                    "floor" => f(0).floor(),
                    "ceil" => f(0).ceil(),
                    "trunc" => f(0).trunc(),
                    "round" => f(0).round(),
                    "rint" => f(0).round_ties_even(),
                    "fabs" => f(0).abs(),
                    "sqrt" => f(0).sqrt(),
                    "fmuladd" => f(0) * f(1) + f(2),
                    "fma" => f(0).mul_add(f(1), f(2)),
                    "minnum" => f(0).min(f(1)),
                    "maxnum" => f(0).max(f(1)),
                    "powi" => f(0).powi(x[1] as u32 as i32),
                    "pow" => f(0).powf(f(1)),
                    "log2" => f(0).log2(),
                    _ => f(0).exp2(),
                };
                Ok(Some(V::C(if rw == 64 { r.to_bits() as u128 } else { (r as f32).to_bits() as u128 })))
            }
            "assume" => {
                // trust, but do not add (comes from optimizer facts)
                if let Some(V::C(0)) = a.first() {
                    return Err(Stop::Bad("ub".into(), "llvm.assume(false)".into()));
                }
                Ok(Some(V::C(0)))
            }
            "memcpy" | "memmove" => {
                let p = self.cint(st, &a[0], "memcpy dst")?;
                let q = self.cint(st, &a[1], "memcpy src")?;
                let n = self.cint(st, &a[2], "memcpy len")?;
                st.mem.copy(p, q, n)?;
                Ok(Some(V::C(0)))
            }
            "memset" => {
                let p = self.cint(st, &a[0], "memset dst")?;
                let n = self.cint(st, &a[2], "memset len")?;
                let v = a[1].clone();
                self.memset(st, p, &v, n)?;
                Ok(Some(V::C(0)))
            }
            "trap" | "debugtrap" | "ubsantrap" => Err(Stop::Bad("abort".into(), "trap".into())),
            "threadlocal" => Ok(Some(a[0].clone())),
            "is" => {
                // is.constant
                Ok(Some(V::C(0)))
            }
            "expect" => Ok(Some(a[0].clone())),
            "ptrmask" => Ok(Some(self.binv(st, BinOp::And, 64, &a[0], &a[1])?)),
            "umax" | "umin" | "smax" | "smin" => {
                let p = match k1 {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.cmpv(p, w, &a[0], &a[1]);
                Ok(Some(match c {
                    V::C(1) => a[0].clone(),
                    V::C(_) => a[1].clone(),
                    V::S(e) => self.itev(e, w, &a[0], &a[1]),
                    _ => panic!(),
                }))
            }
            "abs" => {
                let z = V::C(0);
                let neg = self.binv(st, BinOp::Sub, w, &z, &a[0])?;
                let c = self.cmpv(Pred::Slt, w, &a[0], &z);
                Ok(Some(match c {
                    V::C(1) => neg,
                    V::C(_) => a[0].clone(),
                    V::S(e) => self.itev(e, w, &neg, &a[0]),
                    _ => panic!(),
                }))
            }
            "ucmp" | "scmp" => {
                let (lt, gt) = if k1 == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.cmpv(lt, w, &a[0], &a[1]);
                let g = self.cmpv(gt, w, &a[0], &a[1]);
                let l = self.to_e(&l, 1);
                let g = self.to_e(&g, 1);
                let m1 = self.ctx.konst(rw, u128::MAX);
                let one = self.ctx.konst(rw, 1);
                let z = self.ctx.konst(rw, 0);
                let x = self.ctx.ite(g, one, z);
                let r = self.ctx.ite(l, m1, x);
                Ok(Some(self.mkv(r)))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let signed = k1.starts_with('s');
                let kind = &k1[1..];
                let x = self.to_e(&a[0], w);
                let y = self.to_e(&a[1], w);
                if let (V::C(p), V::C(q)) = (&a[0], &a[1]) {
                    // concrete, exact
                    let (r, o) = conc_ovf(kind, signed, w, *p, *q);
                    if parts[2] == "with" {
                        return Ok(Some(V::A(Rc::new(vec![V::C(r), V::C(o as u128)]))));
                    }
                    return Ok(Some(V::C(if o { sat_val(kind, signed, w, *p, *q) } else { r })));
                }
                let (r, o) = match self.ctx.ovf(kind, signed, w, x, y) {
                    Some(x) => x,
                    None => return Err(Stop::Incomplete(format!("{} symbolic", name))),
                };
                if parts[2] == "with" {
                    let r = self.mkv(r);
                    let o = self.mkv(o);
                    Ok(Some(V::A(Rc::new(vec![r, o]))))
                } else {
                    if signed {
                        // saturating value depends on sign of a
                        let half = 1u128 << (w - 1);
                        let mx = self.ctx.konst(w, half - 1);
                        let mn = self.ctx.konst(w, half);
                        let z = self.ctx.konst(w, 0);
                        let neg = self.ctx.cmp(Pred::Slt, x, z);
                        let s = self.ctx.ite(neg, mn, mx);
                        let v = self.ctx.ite(o, s, r);
                        Ok(Some(self.mkv(v)))
                    } else {
                        let s = if kind == "sub" { 0 } else { mask(w) };
                        let s = self.ctx.konst(w, s);
                        let v = self.ctx.ite(o, s, r);
                        Ok(Some(self.mkv(v)))
                    }
                }
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                match &a[0] {
                    V::C(k) => {
                        let k = *k;
                        let r = match k1 {
                            "ctpop" => k.count_ones() as u128,
                            "ctlz" => if k == 0 { w as u128 } else { (k.leading_zeros() - (128 - w)) as u128 },
                            "cttz" => if k == 0 { w as u128 } else { k.trailing_zeros() as u128 },
                            "bswap" => k.swap_bytes() >> (128 - w),
                            _ => k.reverse_bits() >> (128 - w),
                        };
                        Ok(Some(V::C(r)))
                    }
                    V::S(e) => {
                        let e = *e;
                        let c = &mut self.ctx;
                        let r = match k1 {
                            "bswap" => {
                                let mut acc = c.extract(e, 0, 8);
                                for i in 1..w / 8 {
                                    let x = c.extract(e, i * 8, 8);
                                    acc = c.concat(acc, x);
                                }
                                acc
                            }
                            "bitreverse" => {
                                let mut acc = c.extract(e, 0, 1);
                                for i in 1..w {
                                    let x = c.extract(e, i, 1);
                                    acc = c.concat(acc, x);
                                }
                                acc
                            }
                            "ctpop" => {
                                let mut acc = c.konst(w, 0);
                                for i in 0..w {
                                    let x = c.extract(e, i, 1);
                                    let x = c.zext(w, x);
                                    acc = c.bin(BinOp::Add, w, acc, x);
                                }
                                acc
                            }
                            _ => {
                                let mut acc = c.konst(w, w as u128);
                                let order: Vec<u32> = if k1 == "cttz" { (0..w).rev().collect() } else { (0..w).collect() };
                                for i in order {
                                    let b = c.extract(e, i, 1);
                                    let v = c.konst(w, if k1 == "cttz" { i as u128 } else { (w - 1 - i) as u128 });
                                    acc = c.ite(b, v, acc);
                                }
                                acc
                            }
                        };
                        Ok(Some(self.mkv(r)))
                    }
                    _ => panic!(),
                }
            }
            "fshl" | "fshr" => {
                let k = match &a[2] {
                    V::C(k) => (*k % w as u128) as u32,
                    v => (self.concretize(st, &v.clone(), "funnel shift amount")? % w as u128) as u32,
                };
                let left = k1 == "fshl";
                if k == 0 {
                    return Ok(Some(if left { a[0].clone() } else { a[1].clone() }));
                }
                let s = if left { k } else { w - k };
                // result = (a0 << s) | (a1 >> (w - s))
                let x = self.to_e(&a[0], w);
                let y = self.to_e(&a[1], w);
                let h = self.ctx.extract(x, 0, w - s);
                let l = self.ctx.extract(y, w - s, s);
                let r = self.ctx.concat(h, l);
                Ok(Some(self.mkv(r)))
            }
            "vector" => {
                // vector.reduce.X
                let V::A(v) = &a[0] else { panic!() };
                let op = parts[3];
                let ew = self.m.types.lanes(ats[0]).unwrap().0;
                let mut acc = v[0].clone();
                for x in &v[1..] {
                    let o = match op {
                        "add" => BinOp::Add,
                        "mul" => BinOp::Mul,
                        "and" => BinOp::And,
                        "or" => BinOp::Or,
                        "xor" => BinOp::Xor,
                        "umax" | "umin" | "smax" | "smin" => {
                            let p = match op {
                                "umax" => Pred::Ugt,
                                "umin" => Pred::Ult,
                                "smax" => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            let c = self.cmpv(p, ew, &acc, x);
                            acc = match c {
                                V::C(1) => acc,
                                V::C(_) => x.clone(),
                                V::S(e) => self.itev(e, ew, &acc, x),
                                _ => panic!(),
                            };
                            continue;
                        }
                        _ => return Err(Stop::Incomplete(name.into())),
                    };
                    acc = self.binv(st, o, ew, &acc, x)?;
                }
                Ok(Some(acc))
            }
            _ => Err(Stop::Incomplete(format!("intrinsic {}", name))),
        }
    }
}
fn conc_ovf(kind: &str, signed: bool, w: u32, a: u128, b: u128) -> (u128, bool) {
    let m = mask(w);
    if signed {
        let (x, y) = (sx(a, w), sx(b, w));
        let (r, o) = match kind {
            "add" => x.overflowing_add(y),
            "sub" => x.overflowing_sub(y),
            _ => x.overflowing_mul(y),
        };
        let t = r as u128 & m;
        (t, o || sx(t, w) != r)
    } else {
        let (r, o) = match kind {
            "add" => a.overflowing_add(b),
            "sub" => a.overflowing_sub(b),
            _ => a.overflowing_mul(b),
        };
        (r & m, o || r > m)
    }
}
fn sat_val(kind: &str, signed: bool, w: u32, a: u128, _b: u128) -> u128 {
    if signed {
        if sx(a, w) < 0 { 1u128 << (w - 1) } else { (1u128 << (w - 1)) - 1 }
    } else if kind == "sub" {
        0
    } else {
        mask(w)
    }
}
