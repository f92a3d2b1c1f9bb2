//! Depth-first, exhaustive exploration of executions: every root × entry point × start position
//! × input (values and truncations) × environment behaviour within the configured bounds.
use crate::refi::{Opts, Ref};
use crate::schema::*;
use crate::sess::{Chooser, Chunks, McReader, Sess, Stats, World};
use crate::val::{EV, TICKS, V};
use binread::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub type Ran = Result<V, EV>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Entry {
    Read, ReadArgs, Be, Le, Ne, TypeBe, TypeLe, BeArgs, LeArgs, NeArgs,
    TypeArgs(bool),
    Opts { be: bool, count: Option<u64>, offset: u64 },
    /// read_options with the machine's own byte order in force
    NatOpts { count: Option<u64>, offset: u64 },
}
impl Entry {
    pub fn be(&self) -> bool {
        match self {
            Entry::Be | Entry::TypeBe | Entry::BeArgs => true,
            Entry::TypeArgs(b) => *b,
            Entry::Opts { be, .. } => *be,
            Entry::Le | Entry::TypeLe | Entry::LeArgs => false,
            Entry::Read | Entry::ReadArgs | Entry::Ne | Entry::NeArgs | Entry::NatOpts { .. } => cfg!(target_endian = "big"),
        }
    }
    /// whether the entry point resolves deferred values of the object itself
    pub fn post(&self) -> bool { !matches!(self, Entry::Read | Entry::ReadArgs | Entry::Opts { .. } | Entry::NatOpts { .. }) }
}
pub fn entries(r: &Root) -> Vec<Entry> {
    use Entry::*;
    match r.entries {
        Entries::Options => vec![Opts { be: true, count: r.count, offset: r.offset }, Opts { be: false, count: r.count, offset: r.offset }, NatOpts { count: r.count, offset: r.offset }],
        Entries::Be => vec![Be],
        Entries::BeLe => vec![Be, Le, NeArgs, Opts { be: true, count: r.count.or(Some(2)), offset: 5 }],
        Entries::All => vec![Read, ReadArgs, Be, Le, Ne, TypeBe, TypeLe, BeArgs, LeArgs, NeArgs, TypeArgs(true), TypeArgs(false), Opts { be: true, count: None, offset: 0 }, Opts { be: false, count: None, offset: 0 }, NatOpts { count: None, offset: 0 }],
    }
}
pub fn starts(s: Starts) -> &'static [u64] {
    match s {
        Starts::Zero => &[0],
        Starts::Three => &[3],
        Starts::Few => &[0, 3],
        Starts::All => &[0, 1, 2, 3, 5, 7, 255, 65535, (1 << 32) + 6],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    None,
    /// one byte of those that matter cannot be read
    BadByte(&'static [ErrorKind]),
    /// up to n of the reader's calls fail
    Calls(u32, &'static [ErrorKind]),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Judge {
    /// value, error, position and evaluated expressions are those of the reference
    Ref,
    /// a failed read leaves the reader at the start
    Rewind,
    /// same outcome as with a reader that always delivers everything
    Chunk,
    /// neither panic, nor livelock, nor allocation out of proportion
    Total,
}
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub name: &'static str,
    pub lengths: bool,
    pub fault: Fault,
    pub chunks: &'static [Chunks],
    pub devs: u32,
    pub full_magic: bool,
    pub judge: Judge,
    /// executions per work item at most (reported when reached)
    pub cap: u64,
    /// only roots whose note matches
    pub only: Option<&'static str>,
    pub starts: Option<Starts>,
    /// only the first way of calling each root
    pub one_entry: bool,
    /// only roots with at most that many bytes of data
    pub longest: u64,
    /// none of the roots taken over from other universes
    pub core: bool,
    /// keep a digest of the sequence of outcomes of every work item
    pub digest: bool,
    /// compare the debug template: takes what was recorded since it was last called, and says what is wrong
    pub template: Option<fn(Option<&[crate::refi::Tr]>) -> Result<(), (String, String)>>,
}
pub const CFG: Cfg = Cfg { name: "inputs", lengths: true, fault: Fault::None, chunks: &[Chunks::Full], devs: 0, full_magic: false, judge: Judge::Ref, cap: 2_000_000, only: None, starts: None, one_entry: false, longest: u64::MAX, core: false, digest: false, template: None };

/// one call of the reader fails, at every place, from one start position
pub const FAILING: Cfg = Cfg { name: "one failing call", fault: Fault::Calls(1, &[ErrorKind::TimedOut]), starts: Some(Starts::Zero), ..CFG };
/// the same, called in one way only
pub const FAILING1: Cfg = Cfg { one_entry: true, longest: 100, ..FAILING };

/// what the thorough tier adds to the checks that compare with the reference
pub fn deeper(id: &str) -> Vec<Cfg> {
    if !crate::report::thorough() || !["C02", "C03", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C15", "C16", "C24"].contains(&id) { return vec![] }
    vec![
        Cfg { name: "delivered in pieces", chunks: &[Chunks::Bytewise, Chunks::InterruptEach], starts: Some(Starts::Zero), longest: 60, cap: 100_000, ..CFG },
        Cfg { name: "one failing call, other kinds", fault: Fault::Calls(1, &[ErrorKind::UnexpectedEof, ErrorKind::Other]), starts: Some(Starts::Three), longest: 24, cap: 100_000, ..FAILING1 },
        Cfg { name: "two failing calls", fault: Fault::Calls(2, &[ErrorKind::Other]), lengths: false, longest: 14, cap: 100_000, ..FAILING1 },
        Cfg { name: "unreadable bytes", fault: Fault::BadByte(&[ErrorKind::Other, ErrorKind::UnexpectedEof]), lengths: false, starts: Some(Starts::Three), longest: 40, cap: 100_000, ..CFG },
    ]
}

pub type RunRoot = fn(usize, &mut McReader<'_>, &Entry) -> Ran;

#[derive(Clone, Copy, Debug)]
pub struct Item { pub root: usize, pub start: u64, pub entry: Entry }

#[derive(Clone, Debug)]
pub struct Outcome { pub res: Ran, pub pos: u64, pub pos_known: bool }

pub struct Bad {
    pub why: String,
    pub expected: String,
    pub got: String,
    pub world: World,
    pub log: Vec<String>,
    pub path: Vec<(u32, u32)>,
    pub item: Item,
    pub cfg: &'static str,
}

thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) } }
thread_local! { pub static IN_IMPL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) } }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if !IN_IMPL.with(|x| x.get()) { eprintln!("harness: {}", m) }
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
}

thread_local! {
    pub static TRACING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// the reference's trace of its last run
    pub static TRACE: std::cell::RefCell<Vec<crate::refi::Tr>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
pub fn ev_eq(want: &EV, got: &EV) -> bool {
    match (want, got) {
        (EV::Assert { pos: a, msg: m }, EV::Assert { pos: b, msg: n }) => {
            a == b && match m.strip_prefix('\u{1}') { Some(m) => norm(m) == norm(n), None => m == n }
        }
        (EV::Enum { pos: a, errs: x }, EV::Enum { pos: b, errs: y }) => {
            a == b && x.len() == y.len() && x.iter().zip(y).all(|((n, e), (m, f))| n == m && ev_eq(e, f))
        }
        (EV::BadMagic { pos: a, found: f }, EV::BadMagic { pos: b, found: g }) => a == b && f == g,
        (a, b) => a == b,
    }
}
fn res_eq(want: &Ran, got: &Ran) -> bool {
    match (want, got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => ev_eq(a, b),
        _ => false,
    }
}
pub fn is_user(t: &Ty) -> bool { matches!(t, Ty::User(_)) }

/// runs the reference; outcome and expressions evaluated
pub fn reference(u: &Universe, root: &Root, en: &Entry, w: &mut World, ch: &mut Chooser, fails: &[(u64, ErrorKind)], branch: bool, full_magic: bool) -> (Outcome, Vec<u32>, u64) {
    let start = w.start;
    reference_from(u, root, en, w, ch, fails, branch, full_magic, start)
}
pub fn reference_from(u: &Universe, root: &Root, en: &Entry, w: &mut World, ch: &mut Chooser, fails: &[(u64, ErrorKind)], branch: bool, full_magic: bool, start: u64) -> (Outcome, Vec<u32>, u64) {
    let mut r = Ref::new(u, w, ch, start);
    r.fail_at = fails.to_vec();
    r.branch = branch;
    r.full_magic = full_magic;
    let o = match en { Entry::Opts { be, count, offset } => Opts { be: *be, count: *count, offset: *offset, ..Default::default() }, Entry::NatOpts { count, offset } => Opts { be: en.be(), count: *count, offset: *offset, ..Default::default() }, e => Opts { be: e.be(), ..Default::default() } };
    if TRACING.with(|t| t.get()) { r.trace = Some(vec![]) }
    let mut res = r.read_ty(&root.ty, o, &root.args, root.dom.as_deref());
    let mut late = false;
    if en.post() {
        if let Ok(x) = &mut res {
            if let Err(e) = r.after(x, &root.ty, o, &root.args) { res = Err(e); late = true }
        }
    }
    let pos_known = match &res { Ok(_) => true, Err(_) => !late && matches!(root.ty, Ty::User(_) | Ty::P(_)) } && !r.pos_unspec;
    let out = Outcome { pos: r.pos, pos_known, res };
    if let Some(t) = r.trace.take() { TRACE.with(|x| *x.borrow_mut() = t) }
    (out, r.ticks, r.io_ops)
}

/// one per worker thread: odd while the implementation runs, counting executions
static BUSY: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
thread_local! { static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) } }
fn busy() { let k = SLOT.with(|s| s.get()); if k < 16 { BUSY[k].fetch_add(1, Ordering::Relaxed); } }
/// seconds after which an execution that has not returned is taken to loop for ever
const HANG: u32 = 90;

/// runs the implementation
pub fn implementation(run: RunRoot, item: &Item, s: &mut Sess) -> (Outcome, Vec<u32>) {
    TICKS.with(|t| t.borrow_mut().clear());
    let start = item.start;
    let mut rd = McReader { s, pos: start };
    IN_IMPL.with(|x| x.set(true));
    busy();
    let r = catch_unwind(AssertUnwindSafe(|| run(item.root, &mut rd, &item.entry)));
    busy();
    IN_IMPL.with(|x| x.set(false));
    let pos = rd.pos;
    let res = match r { Ok(r) => r, Err(_) => Err(EV::Panic(LAST_PANIC.with(|l| l.borrow().clone()))) };
    let ticks = TICKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    (Outcome { res, pos, pos_known: !(s.last_failed_seek && s.failed_target == start as i128) }, ticks)
}

pub fn show(r: &Outcome) -> String {
    let mut s = match &r.res { Ok(v) => format!("Ok({:?})", v), Err(e) => format!("Err({:?})", e) };
    s = s.replace('\u{1}', "");
    if s.len() > 4000 { s.truncate(4000); s.push_str("…") }
    format!("{} at position {}{}", s, r.pos, if r.pos_known { "" } else { " (position not specified)" })
}

fn bad(why: &str, want: String, got: String, s: &Sess, item: &Item, cfg: &Cfg) -> Option<Bad> {
    Some(Bad { why: why.into(), expected: want, got, world: s.w.clone(), log: s.log.clone().unwrap_or_default(), path: s.ch.path[..s.ch.i.min(s.ch.path.len())].to_vec(), item: *item, cfg: cfg.name })
}

/// one execution along one choice sequence
pub fn run_one(cfg: &Cfg, u: &Universe, run: RunRoot, item: &Item, mut ch: Chooser, st: &mut Stats, log: bool) -> (Chooser, Option<Bad>) {
    let root = &u.roots[item.root];
    let calls = matches!(cfg.fault, Fault::Calls(..));
    let mut w = World::new(item.start, root.max_len, cfg.lengths && !calls);
    if cfg.template.is_some() { TRACING.with(|t| t.set(true)) }
    let chunks = cfg.chunks[ch.choose(cfg.chunks.len())];
    let (mut want, mut ticks, ops) = reference(u, root, &item.entry, &mut w, &mut ch, &[], true, cfg.full_magic);
    if let Fault::BadByte(kinds) = cfg.fault {
        let pts = w.touched.clone();
        let c = ch.choose(1 + pts.len() * kinds.len());
        if c > 0 {
            w.bad = Some((pts[(c - 1) / kinds.len()], kinds[(c - 1) % kinds.len()]));
            w.hash = crate::sess::mix(w.hash, c as u64);
            let x = reference(u, root, &item.entry, &mut w, &mut ch, &[], true, cfg.full_magic);
            want = x.0;
            ticks = x.1;
        }
    }
    if let Err(EV::Unspec(_)) = &want.res {
        st.unspec += 1;
        if (cfg.judge == Judge::Ref && !cfg.digest) || cfg.judge == Judge::Chunk { return (ch, None) }
    }
    let tag = crate::sess::mix(item.root as u64 + 1, match item.entry.be() { true => 7, false => 9 });
    let mut baseline = None;
    if cfg.judge == Judge::Chunk {
        let mut s = Sess::new(ch, w, tag);
        s.keep_states = false;
        let (got, t) = implementation(run, item, &mut s);
        ch = s.ch;
        w = s.w;
        baseline = Some((got, t));
    }
    let mut s = Sess::new(ch, w, tag);
    s.chunks = chunks;
    s.devs = cfg.devs;
    s.keep_states = st.states.len() < 2_000_000;
    if log { s.log = Some(vec![]) }
    if let Fault::Calls(n, k) = cfg.fault { s.hard = n; s.kinds = k }
    if cfg.judge == Judge::Total {
        let t = format!("type read: {} ({})\nentry point: {:?}, reader at position {}\ndata: {:x?}, {} bytes exist\nexpected: {}\n{}", crate::render::ty(&root.ty), root.note, item.entry, item.start, s.w.bytes, s.w.lo, show(&want), match &root.ty { Ty::User(n) => crate::render::def(u, u.get(n)), _ => String::new() });
        crate::report::CURRENT.with(|c| *c.borrow_mut() = t);
    }
    if let Some(f) = cfg.template { let _ = f(None); }
    let before = if cfg.judge == Judge::Total { Some(crate::alloc_cap::begin()) } else { None };
    let (got, got_ticks) = implementation(run, item, &mut s);
    let peak = before.map(crate::alloc_cap::end);
    if cfg.digest {
        let mut g = got.clone();
        if let Err(EV::Panic(m)) = &mut g.res { m.clear() }
        st.digest = crate::sess::mix(st.digest, hash_outcome(item.root, &g));
        if let Some(l) = &mut st.trail { l.push(format!("{} at {}  data {:x?}, {} bytes", show(&g), g.pos, s.w.bytes, s.w.lo)) }
    }
    st.execs += 1;
    st.transitions += s.ops;
    let seen = std::mem::take(&mut s.seen);
    st.states.extend(seen);
    if st.outcomes.len() < 1_000_000 { st.outcomes.insert(hash_outcome(item.root, &got)); }
    if got.res.is_err() { st.err_outcomes += 1 }
    let b = (|| {
        if s.ch.diverged { return bad("the same choices led to a different sequence of reader calls (hidden state or nondeterminism)", String::new(), show(&got), &s, item, cfg) }
        if let Err(EV::Panic(m)) = &got.res {
            if !(cfg.judge != Judge::Total && matches!(&want.res, Err(EV::Unspec(_)))) { return bad("panic", show(&want), m.clone(), &s, item, cfg) }
        }
        match cfg.judge {
            Judge::Rewind => {
                if got.res.is_err() && is_user(&root.ty) && got.pos_known && got.pos != item.start {
                    return bad("the read failed and left the reader elsewhere", format!("position {} after the error", item.start), show(&got), &s, item, cfg);
                }
            }
            Judge::Chunk => {
                let (b, _) = baseline.as_ref().unwrap();
                if !res_eq(&b.res, &got.res) || b.pos != got.pos {
                    return bad("the outcome depends on how the reader chunks its data", show(b), show(&got), &s, item, cfg);
                }
            }
            Judge::Total => {
                if want.res.is_err() && !matches!(want.res, Err(EV::Unspec(_))) && got.res.is_ok() { return bad("data that is not all there was read successfully", show(&want), show(&got), &s, item, cfg) }
                if let Some(p) = peak {
                    let limit: usize = 1 << 20;
                    if p.max_single > limit || p.peak > 4 * limit as isize { return bad("memory out of proportion to the data", format!("at most {} bytes at once", limit), format!("largest request {} bytes, peak {} bytes; {}", p.max_single, p.peak, show(&got)), &s, item, cfg) }
                }
            }
            Judge::Ref => {
                if let Err(EV::Unspec(_)) = &want.res { return None }
                if s.hard_used > 0 {
                    // the outcome must be that of the same failure of one of the reference's operations
                    let kinds: Vec<ErrorKind> = s.hard_kinds.clone();
                    let ok = match_fault(u, root, item, &s, &kinds, ops, &got, cfg);
                    if !ok { return bad("a reader failure was not reported as declared", format!("without the failure: {}", show(&want)), show(&got), &s, item, cfg) }
                    return None;
                }
                if !res_eq(&want.res, &got.res) { return bad("outcome differs from the declaration's meaning", show(&want), show(&got), &s, item, cfg) }
                if want.pos_known && got.pos_known && want.pos != got.pos { return bad("reader position differs", show(&want), show(&got), &s, item, cfg) }
                if let Some(f) = cfg.template {
                    if let Err((want, got)) = TRACE.with(|t| f(Some(&t.borrow()))) { return bad("the debug template does not describe what was read", want, got, &s, item, cfg) }
                }
                if let Some(t) = got_ticks.iter().find(|t| !ticks.contains(t)) { return bad(&format!("expression {} was evaluated though it must not be", t), format!("{:?}", ticks), format!("{:?}", got_ticks), &s, item, cfg) }
                let times = |l: &[u32], t: &u32| l.iter().filter(|x| *x == t).count();
                if let Some(t) = got_ticks.iter().find(|t| times(&got_ticks, t) > times(&ticks, t)) { return bad(&format!("expression {} was evaluated more often than the declaration says", t), format!("{:?}", ticks), format!("{:?}", got_ticks), &s, item, cfg) }
            }
        }
        None
    })();
    (s.ch, b)
}

fn match_fault(u: &Universe, root: &Root, item: &Item, s: &Sess, kinds: &[ErrorKind], ops: u64, got: &Outcome, cfg: &Cfg) -> bool {
    let try1 = |fails: &[(u64, ErrorKind)]| -> (bool, u64) {
        let mut w = s.w.clone();
        let mut ch = Chooser::default();
        let (want, _, n) = reference(u, root, &item.entry, &mut w, &mut ch, fails, false, cfg.full_magic);
        if matches!(want.res, Err(EV::Unspec(_))) { return (true, n) }
        let ok = res_eq(&want.res, &got.res) && (!want.pos_known || !got.pos_known || want.pos == got.pos);
        (ok, n)
    };
    for n in 0..ops {
        let (ok, m) = try1(&[(n, kinds[0])]);
        if kinds.len() == 1 { if ok { return true } continue }
        for k in n + 1..m { if try1(&[(n, kinds[0]), (k, kinds[1])]).0 { return true } }
    }
    false
}

fn hash_outcome(root: usize, o: &Outcome) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    root.hash(&mut h);
    o.res.hash(&mut h);
    o.pos.hash(&mut h);
    h.finish()
}

pub fn items(u: &Universe, cfg: &Cfg) -> Vec<Item> {
    let mut v = vec![];
    for (i, r) in u.roots.iter().enumerate() {
        if let Some(o) = cfg.only { if r.note != o { continue } }
        if r.max_len > cfg.longest || (cfg.core && r.starts == Starts::Three) { continue }
        for &start in starts(if r.starts == Starts::Three { r.starts } else { cfg.starts.unwrap_or(r.starts) }) {
            for mut entry in entries(r).into_iter().take(if cfg.one_entry { 1 } else { usize::MAX }) {
                // pointers should not lead to where a reader positioned far away has no data of its own
                if let (Entries::BeLe, Entry::Opts { offset, .. }) = (r.entries, &mut entry) { if start > 7 { *offset += start } }
                v.push(Item { root: i, start, entry })
            }
        }
    }
    v
}

pub struct Found { pub stats: Stats, pub bad: Vec<Bad>, pub capped: u64, pub items: usize, pub panics: u64 }

/// explores every work item to exhaustion (or to the cap), in parallel
pub fn explore(cfg: &Cfg, u: &Universe, run: RunRoot, skip: &(dyn Fn(&Bad) -> bool + Sync)) -> Found {
    let its = items(u, cfg);
    let top: Option<u64> = std::env::var("MC_TOP").ok().and_then(|s| s.parse().ok());
    let next = AtomicUsize::new(0);
    let capped = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new((Stats::new(), Vec::<Bad>::new()));
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let at: Vec<AtomicUsize> = (0..threads).map(|_| AtomicUsize::new(0)).collect();
    let left = AtomicUsize::new(threads);
    std::thread::scope(|sc| {
        // an execution that neither returns nor calls the reader
        sc.spawn(|| {
            let mut last = [(0u64, 0u32); 16];
            let mut sub = 0;
            while left.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(10));
                sub += 1;
                if sub % 100 != 0 { continue }
                for k in 0..threads {
                    let n = BUSY[k].load(Ordering::Relaxed);
                    last[k] = if n % 2 == 1 && n == last[k].0 { (n, last[k].1 + 1) } else { (n, 0) };
                    if last[k].1 >= HANG { crate::report::hangs(u, cfg, &its[at[k].load(Ordering::Relaxed)], HANG) }
                }
            }
        });
        let (at, left, its, next, stop, capped, total) = (&at, &left, &its, &next, &stop, &capped, &total);
        for w in 0..threads {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                SLOT.with(|s| s.set(w));
                struct Out<'a>(&'a AtomicUsize);
                impl Drop for Out<'_> { fn drop(&mut self) { self.0.fetch_sub(1, Ordering::Relaxed); } }
                let _out = Out(left);
                let mut st = Stats::new();
                let mut bads = vec![];
                loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= its.len() || stop.load(Ordering::Relaxed) { break }
                    let item = its[k];
                    at[w].store(k, Ordering::Relaxed);
                    let mut ch = Chooser::default();
                    let mut n = 0u64;
                    st.digest = 0;
                    loop {
                        let path = if false { vec![] } else { ch.path.clone() };
                        let (c, b) = run_one(cfg, u, run, &item, ch, &mut st, false);
                        ch = c;
                        n += 1;
                        if let Some(b) = b {
                            // again, with a log
                            let mut again = Chooser::default();
                            again.path = path;
                            let mut scratch = Stats::new();
                            let (_, b2) = run_one(cfg, u, run, &item, again, &mut scratch, true);
                            let b = match b2 { Some(b2) => b2, None => Bad { why: format!("{} (not reproduced when run again: hidden state)", b.why), ..b } };
                            let known = skip(&b);
                            bads.push(b);
                            if !known { stop.store(true, Ordering::Relaxed); break }
                            if bads.iter().filter(|b| b.item.root == item.root).count() > 40 { break }
                        }
                        if n >= cfg.cap { capped.fetch_add(1, Ordering::Relaxed); break }
                        if stop.load(Ordering::Relaxed) { break }
                        if !ch.next() { break }
                    }
                    if cfg.digest { st.digests.push((k, n, st.digest)) }
                    if let Some(t) = top { if n >= t { println!("{:>10} {:?} {}", n, item, u.roots[item.root].note) } }
                }
                let mut t = total.lock().unwrap();
                t.0.merge(st);
                t.1.extend(bads);
            }).unwrap();
        }
    });
    let (stats, bad) = total.into_inner().unwrap();
    let panics = 0;
    Found { stats, bad, capped: capped.into_inner(), items: its.len(), panics }
}
