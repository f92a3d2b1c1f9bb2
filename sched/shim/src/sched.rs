//! One thread runs at a time; which one is decided at every scheduling point.
//! Threads not registered (the main thread) run freely: no controlled thread exists then.
use real::boxed::Box;
use real::cell::Cell;
use real::prelude::v1::*;
use real::sync::{Arc, Condvar, Mutex, MutexGuard};

real::thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static HELD: Cell<usize> = const { Cell::new(0) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Runnable, Blocked(usize), Done }

struct S {
    threads: Vec<St>,
    cur: usize,
    /// choices to replay, then the default choice
    plan: Vec<usize>,
    /// (options in order, index taken): what the execution did
    trace: Vec<(Vec<usize>, usize)>,
    preemptions: usize,
    bound: usize,
    steps: u64,
    failed: Option<String>,
    clock: u64,
}
struct Global { m: Mutex<S>, cv: [Condvar; MAX] }
const MAX: usize = 4;
static G: real::sync::LazyLock<Global> = real::sync::LazyLock::new(|| Global {
    m: Mutex::new(S { threads: vec![], cur: 0, plan: vec![], trace: vec![], preemptions: 0, bound: 0, steps: 0, failed: None, clock: 0 }),
    cv: [Condvar::new(), Condvar::new(), Condvar::new(), Condvar::new()],
});
use real::vec;

struct Abort;

fn lock() -> MutexGuard<'static, S> { G.m.lock().unwrap_or_else(|e| e.into_inner()) }

pub fn controlled() -> bool { ME.with(|m| m.get()) != usize::MAX }
pub fn held(d: isize) -> usize { HELD.with(|h| { h.set((h.get() as isize + d) as usize); h.get() }) }
/// a number that grows with every call: the order in which things happened
pub fn now() -> u64 { let mut s = lock(); s.clock += 1; s.clock }

/// the running thread (or a blocked or finished one) hands on to the thread the plan or the default names
fn decide(s: &mut S, me: usize) -> bool {
    let can: Vec<usize> = (0..s.threads.len()).filter(|&t| s.threads[t] == St::Runnable).collect();
    if can.is_empty() {
        if s.threads.iter().any(|t| matches!(t, St::Blocked(_))) {
            s.failed.get_or_insert_with(|| String::from("deadlock: every unfinished thread waits for a lock"));
            // let everyone end
            for t in s.threads.iter_mut() { if matches!(t, St::Blocked(_)) { *t = St::Runnable } }
            return decide(s, me);
        }
        return false;
    }
    // the current thread first: going on is not a preemption
    let mine = can.contains(&me);
    let mut opts: Vec<usize> = vec![];
    if mine { opts.push(me) }
    if !mine || s.preemptions < s.bound { opts.extend(can.iter().copied().filter(|&t| t != me)) }
    let k = s.trace.len();
    let pick = s.plan.get(k).copied().unwrap_or(0).min(opts.len() - 1);
    let to = opts[pick];
    if mine && to != me { s.preemptions += 1 }
    s.trace.push((opts, pick));
    s.cur = to;
    s.steps += 1;
    to != me
}
fn wait(mut s: MutexGuard<'static, S>, me: usize) {
    while s.cur != me && s.failed.is_none() { s = G.cv[me].wait(s).unwrap_or_else(|e| e.into_inner()) }
    if s.failed.is_some() { drop(s); if !real::thread::panicking() { real::panic::resume_unwind(Box::new(Abort)) } }
}
fn wake_all() { for c in &G.cv { c.notify_all() } }

/// a scheduling point: something other threads can observe happens next
pub fn point() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX || real::thread::panicking() { return }
    let mut s = lock();
    if s.failed.is_some() { drop(s); real::panic::resume_unwind(Box::new(Abort)) }
    if decide(&mut s, me) {
        G.cv[s.cur].notify_one();
        if s.failed.is_some() { wake_all() }
        wait(s, me)
    }
}
/// the lock at this address is taken
pub fn block(addr: usize) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX { real::panic!("a lock is held while no controlled thread runs") }
    let mut s = lock();
    s.threads[me] = St::Blocked(addr);
    decide(&mut s, me);
    if s.failed.is_some() { wake_all() }
    G.cv[s.cur].notify_one();
    wait(s, me)
}
pub fn unblock(addr: usize) {
    let mut s = lock();
    for t in s.threads.iter_mut() { if *t == St::Blocked(addr) { *t = St::Runnable } }
}

pub struct Outcome { pub trace: Vec<(Vec<usize>, usize)>, pub failed: Option<String>, pub steps: u64 }
type Job = Box<dyn FnOnce() + Send>;
/// threads that are reused from execution to execution
struct Pool { tx: Vec<real::sync::mpsc::Sender<Job>>, done: real::sync::mpsc::Receiver<Option<String>>, give: real::sync::mpsc::Sender<Option<String>> }
real::thread_local! { static POOL: real::cell::RefCell<Option<Pool>> = const { real::cell::RefCell::new(None) }; }

/// runs the threads once, following the plan and then the default choices, with at most `bound` preemptions
pub fn run(jobs: Vec<Job>, plan: Vec<usize>, bound: usize) -> Outcome {
    let n = jobs.len();
    {
        let mut s = lock();
        *s = S { threads: vec![St::Runnable; n], cur: usize::MAX, plan, trace: vec![], preemptions: 0, bound, steps: 0, failed: None, clock: 0 };
        decide(&mut s, usize::MAX);
    }
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        let p = p.get_or_insert_with(|| { let (give, done) = real::sync::mpsc::channel(); Pool { tx: vec![], done, give } });
        while p.tx.len() < n {
            let (tx, rx) = real::sync::mpsc::channel::<Job>();
            let give = p.give.clone();
            let me = p.tx.len();
            real::thread::spawn(move || while let Ok(job) = rx.recv() {
                ME.with(|m| m.set(me));
                HELD.with(|h| h.set(0));
                let r = real::panic::catch_unwind(real::panic::AssertUnwindSafe(|| { wait(lock(), me); job() }));
                let mut s = lock();
                s.threads[me] = St::Done;
                let msg = match r {
                    Err(e) if e.downcast_ref::<Abort>().is_some() => None,
                    Err(e) => Some(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| String::from(*x))).unwrap_or_default()),
                    Ok(()) => None,
                };
                if let Some(m) = msg { s.failed.get_or_insert(real::format!("panic: {}", m)); }
                if s.failed.is_some() { wake_all() } else if decide(&mut s, me) { G.cv[s.cur].notify_one(); if s.failed.is_some() { wake_all() } }
                drop(s);
                let _ = give.send(None);
            });
            p.tx.push(tx);
        }
        for (k, j) in jobs.into_iter().enumerate() { p.tx[k].send(j).unwrap() }
        for _ in 0..n { p.done.recv().unwrap(); }
    });
    let s = lock();
    Outcome { trace: s.trace.clone(), failed: s.failed.clone(), steps: s.steps }
}

/// the plan of the next execution in depth-first order, if any is left
pub fn next(trace: &[(Vec<usize>, usize)]) -> Option<Vec<usize>> {
    let mut k = trace.len();
    while k > 0 {
        k -= 1;
        if trace[k].1 + 1 < trace[k].0.len() {
            let mut p: Vec<usize> = trace[..k].iter().map(|x| x.1).collect();
            p.push(trace[k].1 + 1);
            return Some(p);
        }
    }
    None
}
pub fn unused() -> Option<Arc<()>> { None }
