//! Writeback credit.
use super::*;
use futures::task::{noop_waker, ArcWake};
use ::std::cell::UnsafeCell;
use ::std::pin::Pin;
use ::std::sync::Arc;
use ::std::task::{Context, Poll};
use symrt as s;

fn amount(c: &Credit) -> isize { c.0.load(Relaxed) }

/// Credit is neither created nor destroyed, in one thread
fn conserve() {
    let (ops, first) = (s::param(0), s::param(1));
    let cap = s::u16() as usize;
    let wb = WriteBack::with_capacity(cap);
    s::check(wb.capacity() == cap, "capacity");
    let size = s::u16() as usize;
    s::assume(size <= cap);
    let mut v = vec![wb.borrow(size).now_or_never().unwrap()];
    s::check(v[0] == size, "a loan has the requested size");
    for k in 0..ops {
        let i = s::choice(v.len() as u64) as usize;
        let before = amount(&v[i]) >> 1;
        match if k == 0 && first < 9 { first } else { s::choice(6) } {
            0 => {
                let c = s::u16() as usize;
                let n = v[i].atomic_split(c);
                let want = if (c as isize) < before { c as isize } else { before };
                s::check(amount(&n) >> 1 == want, "atomic_split takes what was asked for, if it is there");
                s::check(amount(&v[i]) >> 1 == before - want, "atomic_split leaves the rest");
                v.push(n);
            }
            1 => {
                let c = s::u16() as usize;
                let n = v[i].split(c);
                let want = if (c as isize) < before { c as isize } else { before };
                s::check(amount(&n) >> 1 == want, "split takes what was asked for, if it is there");
                s::check(amount(&v[i]) >> 1 == before - want, "split leaves the rest");
                v.push(n);
            }
            2 => {
                let n = v[i].halve();
                let (a, b) = (amount(&n) >> 1, amount(&v[i]) >> 1);
                s::check(a + b == before, "halve conserves the credit");
                s::check(a - b <= 1 && b - a <= 1, "halve makes nearly equal parts");
                v.push(n);
            }
            3 => {
                let n = v[i].take();
                s::check(amount(&n) >> 1 == before && v[i].is_null(), "take takes everything");
                v.push(n);
            }
            4 => {
                if v.len() < 2 {
                    s::kill();
                }
                let o = v.remove(if i == 0 { 1 } else { 0 });
                let i = if i == 0 { 0 } else { i - 1 };
                let sum = before + (amount(&o) >> 1);
                v[i].extend(o);
                s::check(amount(&v[i]) >> 1 == sum, "extend adds");
            }
            _ => {
                let c = v.remove(i);
                wb.repay(c);
                if v.is_empty() {
                    break;
                }
            }
        }
        for c in &v {
            s::check(amount(c) >= 0 && amount(c) & 1 == 0, "credit is never negative");
        }
    }
    // a pair of Credits with the same size compare equal to it
    for c in &v {
        let a = amount(c) >> 1;
        s::check(*c == a as usize && *c <= a as usize && (a == 0) == c.is_null(), "comparison with a number of bytes");
    }
    for c in v {
        wb.repay(c);
    }
    // and everything can be lent again
    let c = wb.borrow(cap).now_or_never();
    s::check(c.is_some(), "credit has been lost");
    wb.repay(c.unwrap());
    s::check(wb.supply.load(Relaxed) == (cap as isize) << 1, "credit has been created or lost");
    s::reach(1);
}

/// One thread of control with many loan applications: order and cancellation
fn queue() {
    let (n, steps, cancel) = (s::param(0) as usize, s::param(1), s::param(2) == 1);
    let cap = s::u8() as usize;
    let wb = WriteBack::with_capacity(cap);
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut pend: Vec<(usize, Pin<Box<dyn Future<Output = Credit> + Send + '_>>)> = vec![];
    let mut held: Vec<Credit> = vec![];
    let mut applied = 0;
    let mut cancelled = false;
    for _ in 0..steps {
        match s::choice(2 + cancel as u64) {
            0 => {
                if applied == n {
                    s::kill();
                }
                applied += 1;
                let size = s::u8() as usize;
                s::assume(size > 0);
                s::assume(size <= cap);
                let waiting = !pend.is_empty();
                let mut f = Box::pin(wb.borrow(size));
                match f.as_mut().poll(&mut cx) {
                    Poll::Ready(c) => {
                        s::check(c == size, "a loan has the requested size");
                        s::check(!waiting, "a newcomer overtakes those who wait");
                        held.push(c);
                    }
                    Poll::Pending => {
                        let total: isize = held.iter().map(|c| amount(c) >> 1).sum();
                        s::check(waiting || cancelled || total + size as isize > cap as isize, "credit is refused although there is enough");
                        pend.push((size, f));
                    }
                }
            }
            1 => {
                if held.is_empty() {
                    s::kill();
                }
                let i = s::choice(held.len() as u64) as usize;
                wb.repay(held.remove(i));
                // loans are granted first come first served, and as many as possible
                let mut j = 0;
                let mut blocked = false;
                while j < pend.len() {
                    match pend[j].1.as_mut().poll(&mut cx) {
                        Poll::Ready(c) => {
                            s::check(!blocked, "loans are granted out of order");
                            s::check(c == pend[j].0, "a loan has the requested size");
                            held.push(c);
                            drop(pend.remove(j));
                        }
                        Poll::Pending => {
                            blocked = true;
                            j += 1;
                        }
                    }
                }
                let total: isize = held.iter().map(|c| amount(c) >> 1).sum();
                if let Some(p) = pend.first() {
                    s::check(cancelled || total + p.0 as isize > cap as isize, "a borrower waits although there is enough credit");
                }
            }
            _ => {
                if pend.is_empty() {
                    s::kill();
                }
                let i = s::choice(pend.len() as u64) as usize;
                drop(pend.remove(i));
                cancelled = true;
            }
        }
        let total: isize = held.iter().map(|c| amount(c) >> 1).sum();
        s::check(total <= cap as isize, "more has been lent than there is");
    }
    for c in held {
        wb.repay(c);
    }
    // everybody gets his credit in the end
    let mut i = 0;
    while i < pend.len() {
        match pend[i].1.as_mut().poll(&mut cx) {
            Poll::Ready(c) => wb.repay(c),
            Poll::Pending => s::check(false, "a borrower waits for ever"),
        }
        i += 1;
    }
    drop(pend);
    let c = wb.borrow(cap).now_or_never();
    s::check(c.is_some(), "credit has been lost");
    wb.repay(c.unwrap());
    s::check(wb.supply.load(Relaxed) == (cap as isize) << 1, "credit has been created or lost");
    s::reach(1);
}

/// A borrower who loses interest after his loan has been granted
fn abandon() {
    let cap = s::u8() as usize;
    let wb = WriteBack::with_capacity(cap);
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let size = s::u8() as usize;
    s::assume(size > 0);
    s::assume(size <= cap);
    let c = wb.borrow(cap).now_or_never().unwrap();
    let mut f = Box::pin(wb.borrow(size));
    s::check(f.as_mut().poll(&mut cx).is_pending(), "more has been lent than there is");
    wb.repay(c);
    drop(f);
    s::check(wb.supply.load(Relaxed) >> 1 == cap as isize, "an abandoned loan is never repaid");
    s::reach(1);
}

// ---------------------------------------------------------------- threads
struct Flag(UnsafeCell<u64>);
unsafe impl Send for Flag {}
unsafe impl Sync for Flag {}
impl ArcWake for Flag {
    fn wake_by_ref(me: &Arc<Self>) { unsafe { *me.0.get() = 1 } }
}
fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let flag = Arc::new(Flag(UnsafeCell::new(0)));
    let w = futures::task::waker(flag.clone());
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        s::wait_eq(flag.0.get(), 1);
        unsafe { *flag.0.get() = 0 };
    }
}
struct Bank {
    wb: WriteBack,
    cap: isize,
    lent: UnsafeCell<isize>,
    done: UnsafeCell<u64>,
    loans: u64,
}
static mut BANK: *const Bank = ::std::ptr::null();
extern "C" fn customer(_: u64) {
    let b = unsafe { &*BANK };
    for _ in 0..b.loans {
        let size = s::u8() as usize;
        s::assume(size > 0);
        s::assume(size as isize <= b.cap);
        let c = block_on(b.wb.borrow(size));
        unsafe {
            s::check(c == size, "a loan has the requested size");
            *b.lent.get() += size as isize;
            s::check(*b.lent.get() <= b.cap, "more has been lent than there is");
            *b.lent.get() -= size as isize;
        }
        b.wb.repay(c);
    }
    unsafe { *b.done.get() += 1 };
}
/// Several threads borrow and repay.  Nobody may wait for ever.
fn threads() {
    let (n, loans) = (s::param(0), s::param(1));
    let cap = s::u8() as usize;
    let bank = Box::new(Bank { wb: WriteBack::with_capacity(cap), cap: cap as isize, lent: UnsafeCell::new(0), done: UnsafeCell::new(0), loans });
    unsafe { BANK = &*bank };
    for i in 1..n {
        s::spawn(customer, i);
    }
    customer(0);
    s::wait_eq(bank.done.get(), n);
    s::check(bank.wb.supply.load(Relaxed) == (cap as isize) << 1, "credit has been created or lost");
    s::reach(1);
}
symrt::entries! {
    h_wb_conserve => conserve();
    h_wb_queue => queue();
    h_wb_abandon => abandon();
    h_wb_threads => threads();
}
