//! Histories of reads on one reader: each read gives what it gives alone.
use mc::explore::*;
use mc::report::Report;
use mc::schema::*;
use mc::sess::*;
use mc::val::EV;
use std::sync::Mutex;
mod g { #![allow(warnings)] include!(concat!(env!("OUT_DIR"), "/hist.rs")); }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act { Read(usize, bool), ReadFails(usize, bool), Go(u64), Grow }
const KINDS: &[binread::io::ErrorKind] = &[binread::io::ErrorKind::Other];

fn entry(r: &Root, be: bool) -> Entry {
    match r.entries { Entries::Options => Entry::Opts { be, count: r.count, offset: 0 }, _ => if be { Entry::Be } else { Entry::Le } }
}

struct Run { bad: Option<String>, calls: u64, reads: u64, states: Vec<u64> }

fn history(u: &Universe, acts: &[Act], ch: &mut Chooser, full: u64) -> Run {
    let mut out = Run { bad: None, calls: 0, reads: 0, states: vec![] };
    let grows = acts.contains(&Act::Grow);
    let len = if full == 8 {
        if grows { [0, 1, 2, 3, 4, 6][ch.choose(6)] } else { [full, 4, 2][ch.choose(3)] }
    } else if grows { ch.choose(full as usize + 1) as u64 } else { full };
    let mut w = World::new(0, full, false);
    w.lo = len; w.hi = len;
    let mut s = Sess::new(Chooser::default(), w, 0);
    s.keep_states = false;
    let mut pos = 0u64;
    let mut trace = vec![];
    for a in acts {
        match *a {
            Act::Go(p) => { pos = p; trace.push(format!("seek to {}", p)) }
            Act::Grow => { s.w.lo = full; s.w.hi = full; trace.push(format!("data grows to {} bytes", full)) }
            Act::Read(i, be) | Act::ReadFails(i, be) => {
                let faulty = matches!(a, Act::ReadFails(..));
                let root = &u.roots[i];
                let en = entry(root, be);
                let item = Item { root: i, start: pos, entry: en };
                // what the declaration says, which decides the bytes not yet decided
                let (want, _, _) = reference_from(u, root, &en, &mut s.w, ch, &[], true, false, pos);
                // alone, on a reader of its own
                let mut alone = Sess::new(Chooser::default(), s.w.clone(), 0);
                alone.keep_states = false;
                let (a1, t1) = implementation(g::run_root, &item, &mut alone);
                // in this history
                let r = {
                    let full = std::mem::take(ch);
                    s.ch = full;
                    s.hard = faulty as u32;
                    s.kinds = KINDS;
                    s.hard_used = 0;
                    let ops0 = s.ops;
                    let r = implementation(g::run_root, &item, &mut s);
                    s.hard = 0;
                    *ch = std::mem::take(&mut s.ch);
                    out.calls += s.ops - ops0;
                    s.ops = 0;
                    r
                };
                out.reads += 1;
                out.states.push(mix(mix(s.w.hash, pos), mix(s.w.lo, i as u64 * 2 + be as u64)));
                let hurt = s.hard_used > 0;
                trace.push(format!("read {} via {:?} at {}{} gives {}", mc::render::ty(&root.ty), en, pos, if hurt { " with one failing call" } else { "" }, show(&r.0)));
                let say = |why: &str, x: String| Some(format!("{}\n  {}\nhistory:\n  {}\ndata ({} bytes): {:x?}", why, x, trace.join("\n  "), s.w.lo, s.w.bytes));
                if let Err(EV::Panic(m)) = &r.0.res { out.bad = say("panic", m.clone()); return out }
                if !hurt {
                    let open = matches!(&want.res, Err(EV::Unspec(_)));
                    if r.0.res != a1.res || r.0.pos != a1.pos || r.1 != t1 { out.bad = say("a read in a history differs from the same read alone", show(&a1)); return out }
                    if !open && !(match (&want.res, &r.0.res) { (Ok(x), Ok(y)) => x == y, (Err(x), Err(y)) => ev_eq(x, y), _ => false } && (!want.pos_known || want.pos == r.0.pos)) { out.bad = say("a read in a history differs from the declaration's meaning", show(&want)); return out }
                } else if r.0.res.is_err() && is_user(&root.ty) && r.0.pos_known && r.0.pos != pos {
                    out.bad = say("a failed read moved the reader", format!("from {}", pos));
                    return out;
                }
                // where a failed read that is not of a declared type leaves the reader is its own affair
                pos = r.0.pos;
            }
        }
    }
    out
}

fn main() {
    quiet_panics();
    let u = mc::universes::universe("hist", mc::report::thorough());
    let mut rep = Report::new("C23");
    let mut acts = vec![Act::Grow, Act::Go(0), Act::Go(3)];
    let core = u.roots.iter().position(|r| r.starts == Starts::Three).unwrap_or(u.roots.len());
    for i in 0..core {
        acts.push(Act::Read(i, true));
        if matches!(i, 0 | 1 | 4 | 5) { acts.push(Act::Read(i, false)) }
        if is_user(&u.roots[i].ty) { acts.push(Act::ReadFails(i, true)) }
    }
    let thorough = mc::report::thorough();
    // which reads may make up the longest histories
    let small = |a: &Act| match a { Act::Read(i, _) => matches!(i, 0 | 1 | 2 | 5 | 11), Act::ReadFails(i, _) => matches!(i, 1 | 5), _ => true };
    let depth = 3 + thorough as usize;
    let mut seqs = vec![];
    mc::report::words(&acts, depth, &mut |w| {
        // a repositioning or growth at the end observes nothing; of two repositionings the first is idle
        if w.is_empty() || !matches!(w[w.len() - 1], Act::Read(..)) { return }
        if w.windows(2).any(|p| matches!((p[0], p[1]), (Act::Go(_), Act::Go(_)) | (Act::Grow, Act::Grow))) || w.iter().filter(|a| **a == Act::Grow).count() > 1 { return }
        if w.iter().filter(|a| matches!(a, Act::ReadFails(..))).count() > 1 { return }
        if w.len() == 4 && !w.iter().all(small) { return }
        seqs.push(w.to_vec());
    });
    let longest = seqs.len();
    let mut skipped = 0;
    let mut seqs: Vec<(Vec<Act>, u64)> = seqs.into_iter().map(|s| (s, 8)).collect();
    // every other declaration: twice in a row, after one that fails, again when more data has come, and one after the other
    for i in core..u.roots.len() {
        let (me, fails) = (Act::Read(i, true), Act::ReadFails(i, true));
        let full = u.roots[i].max_len.clamp(1, 24);
        // how many ways there are to read it
        let ways = |full: u64, most: u64| { let (mut ch, mut n) = (Chooser::default(), 0); loop { history(&u, &[me], &mut ch, full); n += 1; if n > most || !ch.next() { return n } } };
        let w = ways(full, 3000);
        if w > 3000 { skipped += 1; continue }
        seqs.push((vec![me, Act::Go(0), me], full));
        if w <= 60 { seqs.push((vec![me, me], full)); }
        if w <= 600 { seqs.push((vec![me, Act::Go(0), Act::Grow, me], full)) }
        if is_user(&u.roots[i].ty) && w <= 600 { seqs.push((vec![fails, Act::Go(0), me], full)); if w <= 60 { seqs.push((vec![Act::Go(3), fails, Act::Go(0), me], full.max(16))) } }
        if w <= 200 { for j in [0usize, 1, 5] { seqs.push((vec![Act::Read(j, true), Act::Go(0), me], full.max(8))); seqs.push((vec![me, Act::Go(0), Act::Read(j, true)], full.max(8))) } }
    }
    // the same read very often, then it or another one
    for i in 0..core { for j in [i, 0, 1, 4] { for times in [40usize, 300] {
        let mut s: Vec<Act> = (0..times).flat_map(|_| [Act::Read(i, true), Act::Go(0)]).collect();
        s.push(Act::Read(j, true));
        if times == 300 && !thorough && j != i { continue }
        seqs.push((s, 8));
    } } }
    if std::env::var("MC_TOP").is_ok() { println!("{} sequences", seqs.len()) }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let tot = Mutex::new((0u64, 0u64, 0u64, std::collections::HashSet::<u64>::new(), Vec::<(usize, String)>::new()));
    std::thread::scope(|sc| for _ in 0..8 {
        sc.spawn(|| {
            let (mut n, mut calls, mut reads) = (0, 0, 0);
            let mut st = std::collections::HashSet::new();
            let mut bad = vec![];
            loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if k >= seqs.len() || !bad.is_empty() { break }
                let mut ch = Chooser::default();
                let mut cnt = 0u64;
                loop {
                    let r = history(&u, &seqs[k].0, &mut ch, seqs[k].1);
                    n += 1; calls += r.calls; reads += r.reads;
                    if st.len() < 3_000_000 { st.extend(r.states) }
                    if let Some(b) = r.bad { bad.push((k, b)); break }
                    cnt += 1;
                    if cnt == 20000 && std::env::var("MC_TOP").is_ok() { println!("big {:?}", seqs[k].0) }
                    if !ch.next() { break }
                }
            }
            let mut t = tot.lock().unwrap();
            t.0 += n; t.1 += calls; t.2 += reads; t.3.extend(st); t.4.extend(bad);
        });
    });
    let (n, calls, reads, st, mut bad) = tot.into_inner().unwrap();
    rep.items = seqs.len();
    rep.stats.execs = n;
    rep.stats.transitions = calls;
    rep.stats.states = st;
    rep.parts.push(format!("{} histories of up to {} actions over {} actions ({} types), {} of a few actions with {} further declarations ({} more have too many inputs) or of one read repeated 40 or 300 times, with every input and initial length in the bound: {} executions, {} reads, each also run alone and against the reference", longest, depth, acts.len(), core, seqs.len() - longest, u.roots.len() - core - skipped, skipped, n, reads));
    rep.samples.push(format!("{:?}", seqs[longest / 2]));
    rep.samples.push(format!("{:?}", seqs[longest / 3]));
    bad.sort();
    for (k, b) in bad.into_iter().take(3) { rep.violation(&format!("history-{}", k), "history", &format!("property C23: {}", b)) }
    rep.finish()
}
