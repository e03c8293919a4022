//! Replay of a counterexample: values are popped in the order in which symex created them, and
//! threads are run one at a time under the recorded schedule.
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, PartialEq)]
enum St {
    Run,
    Wait(usize, u64),
    WaitNe(usize, u64),
    Done,
}
struct G {
    inputs: Vec<u128>,
    pos: usize,
    params: Vec<u64>,
    expect: Option<u32>,
    cur: usize,
    status: Vec<St>,
    preempt: u64,
}
static G: Mutex<G> = Mutex::new(G { inputs: vec![], pos: 0, params: vec![], expect: None, cur: 0, status: vec![], preempt: 0 });
static CV: Condvar = Condvar::new();
thread_local! { static TID: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

fn lock() -> std::sync::MutexGuard<'static, G> {
    G.lock().unwrap_or_else(|e| e.into_inner())
}
fn end(code: i32, what: &str) -> ! {
    use std::io::Write;
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{}", what);
    let _ = o.flush();
    unsafe { _exit(code) }
}
extern "C" {
    fn _exit(c: i32) -> !;
}
fn pop() -> u128 {
    let mut g = lock();
    let p = g.pos;
    g.pos += 1;
    match g.inputs.get(p) {
        Some(v) => *v,
        None => 0,
    }
}
macro_rules! pops {
    ($($n:ident, $t:ty;)*) => { $( pub unsafe fn $n() -> $t { pop() as $t } )* };
}
pops! { sym_u8, u8; sym_u16, u16; sym_u32, u32; sym_u64, u64; }
pub unsafe fn sym_bool() -> bool { pop() != 0 }
pub unsafe fn sym_u128(p: *mut u128) { *p = pop() }
pub unsafe fn sym_range(lo: u64, hi: u64) -> u64 {
    if lo > hi {
        end(3, "REPLAY infeasible: empty range");
    }
    let v = pop() as u64;
    if v < lo || v > hi {
        // only after the end of the recorded inputs, or if native code diverged
        return lo;
    }
    v
}
pub unsafe fn sym_choice(n: u64) -> u64 {
    if n == 0 {
        end(3, "REPLAY infeasible: empty choice");
    }
    let v = pop() as u64;
    if v >= n { 0 } else { v }
}
pub unsafe fn sym_concretize(v: u64) -> u64 { v }
pub unsafe fn sym_assume(c: bool) {
    if !c {
        end(3, "REPLAY infeasible: assumption false");
    }
}
pub unsafe fn sym_check(c: bool, p: *const u8, n: usize) {
    if !c {
        let s = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n));
        end(1, &format!("REPLAY-VIOLATION check: {}", s));
    }
}
pub unsafe fn sym_reach(_: u32) {}
pub unsafe fn sym_expect_panic(id: u32) {
    lock().expect = if id == u32::MAX { None } else { Some(id) };
}
pub unsafe fn sym_kill() -> ! { end(3, "REPLAY infeasible: killed") }
pub unsafe fn sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = pop() as u8;
    }
}
pub unsafe fn sym_param(i: u64) -> u64 { lock().params.get(i as usize).copied().unwrap_or(0) }
pub unsafe fn sym_tid() -> u64 { TID.with(|t| t.get()) as u64 }
pub unsafe fn sym_note(label: u64, v: u64) { eprintln!("note {} = {}", label, v) }
pub unsafe fn sym_is_symbolic(_: u64) -> bool { false }

fn schedule(mut g: std::sync::MutexGuard<'static, G>, t: usize) {
    let n = g.status.len();
    let ok = |g: &G, i: usize| match g.status[i] {
        St::Run => true,
        St::Done => false,
        St::Wait(p, v) => unsafe { std::ptr::read_volatile(p as *const u64) == v },
        St::WaitNe(p, v) => unsafe { std::ptr::read_volatile(p as *const u64) != v },
    };
    let mut opts: Vec<usize> = (0..n).filter(|i| ok(&g, *i)).collect();
    if opts.is_empty() {
        end(1, "REPLAY-VIOLATION deadlock: no thread can make progress");
    }
    let can_stay = opts.contains(&t);
    let next = if can_stay && g.preempt == 0 {
        t
    } else if opts.len() == 1 {
        opts[0]
    } else {
        opts.sort_by_key(|x| (*x != t, *x));
        let p = g.pos;
        g.pos += 1;
        let k = g.inputs.get(p).copied().unwrap_or(0) as usize;
        let k = if k < opts.len() { k } else { 0 };
        if can_stay && opts[k] != t {
            g.preempt -= 1;
        }
        opts[k]
    };
    g.status[next] = St::Run;
    g.cur = next;
    CV.notify_all();
    if next != t && g.status[t] != St::Done {
        while g.cur != t {
            g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
}
pub unsafe fn sym_yield() {
    let t = sym_tid() as usize;
    schedule(lock(), t)
}
unsafe fn wait(p: *const u64, v: u64, eq: bool) {
    let t = sym_tid() as usize;
    if (std::ptr::read_volatile(p) == v) != eq {
        let mut g = lock();
        g.status[t] = if eq { St::Wait(p as usize, v) } else { St::WaitNe(p as usize, v) };
        schedule(g, t);
    }
}
pub unsafe fn sym_wait_eq(p: *const u64, v: u64) { wait(p, v, true) }
pub unsafe fn sym_wait_ne(p: *const u64, v: u64) { wait(p, v, false) }
pub unsafe fn sym_spawn(f: extern "C" fn(u64), arg: u64) -> u64 {
    let mut g = lock();
    let t = g.status.len();
    g.status.push(St::Run);
    drop(g);
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            TID.with(|x| x.set(t));
            let mut g = lock();
            while g.cur != t {
                g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
            }
            drop(g);
            f(arg);
            let mut g = lock();
            g.status[t] = St::Done;
            schedule(g, t);
        })
        .unwrap();
    t as u64
}

/// replay ENTRY PREEMPT PARAMS(comma list or -) INPUT...
pub fn replay_main(entries: &[(&str, extern "C" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    {
        let mut g = lock();
        g.preempt = a[2].parse().unwrap();
        g.params = a[3].split(',').filter(|x| *x != "-" && !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let mut inp = vec![];
        for x in &a[4..] {
            if let Some(f) = x.strip_prefix('@') {
                inp.extend(std::fs::read_to_string(f).unwrap().split_whitespace().map(|x| x.parse::<u128>().unwrap()));
            } else {
                inp.push(x.parse().unwrap());
            }
        }
        g.inputs = inp;
        g.status = vec![St::Run];
    }
    std::panic::set_hook(Box::new(|i| {
        let e = G.try_lock().map(|g| g.expect).unwrap_or(None);
        if e.is_some() {
            end(0, "REPLAY-OK expected panic");
        }
        end(1, &format!("REPLAY-VIOLATION panic: {}", i));
    }));
    let f = entries.iter().find(|e| e.0 == a[1]).expect("no such entry").1;
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || f()).unwrap();
    let _ = h.join();
    end(0, "REPLAY-OK");
}
