//! Every interleaving (within a preemption bound) of small programs of threads that read values with debug_template
//! on and change the template output, on the real code of /repo/binread under the scheduler of `shim`.
//! Each execution must be explainable by some order of its operations (linearisability against a sequential model of
//! the output), with every record whole and every generated name new.
use binread::binary_template as bt;
use binread::{io::Cursor, BinRead, BinReaderExt};
use shimstd::sched;
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Op { Value, Struct, Pair, Fail, Set, SetBroken, Unset, Name }
const OPS: [Op; 8] = [Op::Value, Op::Struct, Op::Pair, Op::Fail, Op::Set, Op::SetBroken, Op::Unset, Op::Name];

#[derive(BinRead)]
#[allow(dead_code)]
struct Small { #[br(little)] a: u16 }
#[derive(BinRead)]
#[allow(dead_code)]
struct Checked { #[br(assert(a == 0))] a: u8 }

/// an entry of a template; generated names are checked apart
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Rec { Val(bool, u64, String, Option<String>), List(bool, u64, String, u64, Option<String>), Start(String), End(String), Comment }

#[derive(Clone)]
struct Sink { text: Arc<Mutex<Vec<u8>>>, broken: bool }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        // a write outside any lock can be overtaken
        if sched::controlled() && sched::held(0) == 0 { sched::point() }
        if self.broken { return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken")) }
        self.text.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// the header and the records of an output's text, each whole
fn parse(t: &str, header: &str, names: &mut Vec<String>) -> Result<Vec<Rec>, String> {
    let body = t.strip_prefix(header).ok_or("does not begin with the header")?;
    let mut out = vec![];
    let mut it = body.lines().filter(|l| !l.trim().is_empty());
    while let Some(l) = it.next() {
        if l.starts_with("// ") { out.push(Rec::Comment); continue }
        if let Some(x) = l.strip_prefix("struct ").and_then(|x| x.strip_suffix(" {")) {
            let (n, k) = x.rsplit_once('_').ok_or(format!("{:?}", l))?;
            k.parse::<u64>().map_err(|_| format!("{:?}", l))?;
            names.push(format!("struct {}", k));
            out.push(Rec::Start(n.into()));
            continue;
        }
        if let Some(x) = l.strip_prefix("} ").and_then(|x| x.strip_suffix(";")) { out.push(Rec::End(x.into())); continue }
        let be = match l { "BigEndian();" => true, "LittleEndian();" => false, _ => return Err(format!("{:?} outside a record", l)) };
        let p = it.next().and_then(|l| l.strip_prefix("FSeek(0x")).and_then(|l| l.strip_suffix(");")).and_then(|l| u64::from_str_radix(l, 16).ok()).ok_or("a record without position")?;
        let l = it.next().ok_or("a record without declaration")?;
        let d = l.rsplit_once("<bgcolor=0x").filter(|(_, c)| c.len() == 8 && c.ends_with(">;")).ok_or(format!("{:?} is no declaration", l))?.0;
        let (ty, name) = d.rsplit_once(' ').ok_or(format!("{:?}", l))?;
        let (name, n) = match name.strip_suffix(']').and_then(|x| x.split_once('[')) { Some((a, b)) => (a, Some(b.parse::<u64>().map_err(|_| format!("{:?}", l))?)), None => (name, None) };
        let gen = name.strip_prefix("var").map_or(false, |x| x.parse::<u64>().is_ok());
        if gen { names.push(name.into()) }
        let name = if gen { None } else { Some(name.to_string()) };
        out.push(match n { Some(n) => Rec::List(be, p, ty.into(), n, name), None => Rec::Val(be, p, ty.into(), name) });
    }
    Ok(out)
}

#[derive(Clone, Debug)]
enum Ev { Set(usize), Unset, Rec(Rec) }
#[derive(Debug)]
struct Call { start: u64, end: u64, evs: Vec<Ev> }

/// is there an order of the events, respecting the threads and real time, that leaves these texts?
fn explain(hist: &[Vec<Call>], init: Option<usize>, texts: &[Option<Vec<Rec>>]) -> bool {
    type St = (Vec<(usize, usize)>, Option<usize>, Vec<usize>);
    let mut seen: HashSet<St> = HashSet::new();
    let mut todo: Vec<St> = vec![(vec![(0, 0); hist.len()], init, vec![0; texts.len()])];
    while let Some(st) = todo.pop() {
        if !seen.insert(st.clone()) { continue }
        let (at, cur, done) = &st;
        if at.iter().zip(hist).all(|(a, h)| a.0 == h.len()) {
            if texts.iter().zip(done).all(|(t, d)| t.as_ref().map_or(true, |t| t.len() == *d)) { return true }
            continue;
        }
        for t in 0..hist.len() {
            let (c, e) = at[t];
            let Some(call) = hist[t].get(c) else { continue };
            // everything that had returned before this call began comes first
            if (0..hist.len()).any(|u| u != t && hist[u].get(at[u].0).map_or(false, |x| x.end < call.start)) { continue }
            let mut n = st.clone();
            if let Some(ev) = call.evs.get(e) {
                match ev {
                    Ev::Set(k) => n.1 = Some(*k),
                    Ev::Unset => n.1 = None,
                    Ev::Rec(r) => if let Some(k) = cur {
                        if let Some(t) = &texts[*k] {
                            if t.get(done[*k]) != Some(r) { continue }
                            n.2[*k] += 1;
                        }
                    },
                }
            }
            n.0[t] = if e + 1 < call.evs.len() { (c, e + 1) } else { (c + 1, 0) };
            todo.push(n);
        }
    }
    false
}

struct Exec { failure: Option<String>, next: Option<Vec<usize>>, steps: u64, preempted: bool, key: Vec<u64> }
fn execute(prog: &[Vec<Op>], init: bool, plan: Vec<usize>, bound: usize, header: &str, seen: &mut HashSet<String>) -> Exec {
    bt::unset_output();
    let sinks: Arc<Mutex<Vec<Sink>>> = Default::default();
    let new_sink = |sinks: &Mutex<Vec<Sink>>, broken: bool| { let s = Sink { text: Default::default(), broken }; let mut v = sinks.lock().unwrap(); v.push(s.clone()); (v.len() - 1, s) };
    if init { bt::set_output(new_sink(&sinks, false).1) }
    let hist: Arc<Mutex<Vec<Vec<Call>>>> = Arc::new(Mutex::new(prog.iter().map(|_| vec![]).collect()));
    let names: Arc<Mutex<Vec<String>>> = Default::default();
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in prog.iter().enumerate() {
        let (ops, sinks, hist, names) = (ops.clone(), sinks.clone(), hist.clone(), names.clone());
        jobs.push(Box::new(move || for (k, op) in ops.into_iter().enumerate() {
            let pos = (16 * t + 4 * k) as u64;
            let mut c = Cursor::new([1u8; 64]);
            c.set_position(pos);
            let sink = match op { Op::Set | Op::SetBroken => Some(new_sink(&sinks, op == Op::SetBroken)), _ => None };
            sched::point();
            let start = sched::now();
            let evs = match op {
                Op::Value => { c.read_be::<u32>().unwrap(); vec![Ev::Rec(Rec::Val(true, pos, "u32".into(), None))] }
                Op::Struct => { c.read_be::<Small>().unwrap(); vec![Ev::Rec(Rec::Start("Small".into())), Ev::Rec(Rec::Val(false, pos, "u16".into(), Some("a".into()))), Ev::Rec(Rec::End("root".into()))] }
                Op::Pair => { c.read_le::<(i8, [u16; 1])>().unwrap(); vec![Ev::Rec(Rec::Val(false, pos, "i8".into(), None)), Ev::Rec(Rec::List(false, pos + 1, "u16".into(), 1, None))] }
                Op::Fail => { assert!(c.read_be::<Checked>().is_err()); vec![Ev::Rec(Rec::Start("Checked".into())), Ev::Rec(Rec::Val(true, pos, "u8".into(), Some("a".into()))), Ev::Rec(Rec::Comment), Ev::Rec(Rec::End("root".into()))] }
                Op::Set | Op::SetBroken => { let (k, s) = sink.unwrap(); bt::set_output(s); vec![Ev::Set(k)] }
                Op::Unset => { bt::unset_output(); vec![Ev::Unset] }
                Op::Name => { let n = bt::get_next_var_name(); names.lock().unwrap().push(n); vec![] }
            };
            let end = sched::now();
            hist.lock().unwrap()[t].push(Call { start, end, evs });
        }));
    }
    let o = sched::run(jobs, plan, bound);
    let next = sched::next(&o.trace);
    let preempted = o.trace.iter().any(|(_, p)| *p > 0);
    if let Some(f) = o.failed { return Exec { failure: Some(f), next, steps: o.steps, preempted, key: vec![] } }
    bt::unset_output();
    let hist = std::mem::take(&mut *hist.lock().unwrap());
    let mut names = names.lock().unwrap().clone();
    let mut texts = vec![];
    let mut failure = None;
    let sinks = sinks.lock().unwrap();
    for s in sinks.iter() {
        if s.broken { texts.push(None); continue }
        let t = String::from_utf8_lossy(&s.text.lock().unwrap()).into_owned();
        match parse(&t, header, &mut names) {
            Ok(r) => texts.push(Some(r)),
            Err(e) => { failure.get_or_insert(format!("a record is not whole: {}\n{}", e, t.strip_prefix(header).unwrap_or(&t))); texts.push(Some(vec![])) }
        }
    }
    for n in &names { if !seen.insert(n.clone()) && failure.is_none() { failure = Some(format!("the name {} was generated twice", n)) } }
    if failure.is_none() && !explain(&hist, init.then_some(0), &texts) {
        failure = Some(format!("no order of the operations explains what the outputs hold\ncalls: {:?}\noutputs: {:?}", hist, texts));
    }
    let key = { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); texts.hash(&mut h); vec![h.finish()] };
    Exec { failure, next, steps: o.steps, preempted, key }
}

fn words(n: usize) -> Vec<Vec<Op>> {
    let mut all = vec![];
    let mut last: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|w| OPS.iter().map(move |o| { let mut w = w.clone(); w.push(*o); w })).collect();
        all.extend(last.clone());
    }
    all
}
type Task = (Vec<Vec<Op>>, bool, usize);
fn tasks(thorough: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let inits = |p: &Vec<Vec<Op>>| if p.iter().flatten().any(|o| matches!(o, Op::Set)) { vec![true, false] } else { vec![true] };
    // one operation each: every interleaving
    for a in words(1) { for b in words(1) { if b < a { continue } let p = vec![a.clone(), b]; for i in inits(&p) { v.push((p.clone(), i, 99)) } } }
    // two threads of up to n operations
    let (n, bound) = if thorough { (2, 4) } else { (2, 2) };
    for a in words(n) { for b in words(n) { if b < a || a.len() + b.len() < 3 { continue } let p = vec![a.clone(), b]; for i in inits(&p) { v.push((p.clone(), i, bound)) } } }
    if thorough {
        for a in words(3) { for b in words(1) { if a.len() == 3 { let p = vec![a.clone(), b]; v.push((p, true, 3)) } } }
        for a in words(3) { for b in words(3) { if a.len() == 3 && b.len() == 3 && a <= b && a.iter().chain(&b).any(|o| matches!(o, Op::Set | Op::Unset)) && a.iter().chain(&b).all(|o| !matches!(o, Op::Pair | Op::Fail | Op::SetBroken)) { v.push((vec![a.clone(), b], true, 2)) } } }
    }
    // three threads
    for a in words(1) { for b in words(1) { for c in words(1) { if b < a || c < b { continue } let p = vec![a.clone(), b.clone(), c]; for i in inits(&p) { v.push((p.clone(), i, if thorough { 5 } else { 3 })) } } } }
    if thorough { for a in words(2) { for b in words(1) { for c in words(1) { if a.len() == 2 && b <= c { v.push((vec![a.clone(), b.clone(), c], true, 3)) } } } } }
    v
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    std::env::remove_var("DEBUG_TEMPLATE");
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
    if args.len() < 3 && args.get(1).map_or(true, |a| a != "--replay") { return drive(&verif, thorough) }
    std::panic::set_hook(Box::new(|_| {}));
    bt::unset_output();
    // the header is whatever a new output starts with
    let s = Sink { text: Default::default(), broken: false };
    bt::set_output(s.clone());
    bt::unset_output();
    let header = String::from_utf8_lossy(&s.text.lock().unwrap()).into_owned();
    let all = tasks(thorough);
    let mut seen = HashSet::new();
    if args[1] == "--replay" {
        let t = std::fs::read_to_string(&args[2]).unwrap();
        let l = t.lines().find_map(|l| l.strip_prefix("replay: ")).unwrap();
        let mut it = l.split(' ').map(|x| x.parse::<usize>().unwrap());
        let task = &tasks(it.next().unwrap() == 1)[it.next().unwrap()];
        let plan: Vec<usize> = it.collect();
        println!("{:?}", task);
        let e = execute(&task.0, task.1, plan, task.2, &header, &mut seen);
        println!("{}", e.failure.clone().unwrap_or("held".into()));
        std::process::exit(e.failure.is_some() as i32);
    }
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let (mut progs, mut execs, mut steps, mut pre, mut outcomes) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let (mut left, mut nodes, mut sample) = (0u64, 0u64, String::new());
    for (ti, (prog, init, bound)) in all.iter().enumerate() {
        if ti % n != k { continue }
        progs += 1;
        let mut plan = vec![];
        let mut keys: HashMap<Vec<u64>, ()> = HashMap::new();
        let mut count = 0u64;
        loop {
            seen.clear();
            let e = execute(prog, *init, plan.clone(), *bound, &header, &mut seen);
            execs += 1;
            count += 1;
            steps += e.steps;
            pre += e.preempted as u64;
            nodes += e.steps - (plan.len() as u64).saturating_sub(1);
            if count == 17 { sample = format!("{:?} schedule {:?}", prog, plan) }
            keys.insert(e.key, ());
            if let Some(f) = e.failure {
                let p: Vec<String> = plan.iter().map(|x| x.to_string()).collect();
                println!("FAIL {} {} {}\n{:?} {}\n{}", thorough as u8, ti, p.join(" "), prog, if *init { "with an output set" } else { "without output" }, f);
                return;
            }
            match e.next { Some(p) => plan = p, None => break }
            if count > 3_000_000 { left += 1; break }
        }
        outcomes += keys.len() as u64;
    }
    println!("DONE {} {} {} {} {} {} {}\n{}", progs, execs, steps, pre, outcomes, left, nodes, sample);
}
/// shares the programs among processes (the state under test is global to a process) and reports
fn drive(verif: &str, thorough: bool) {
    let t0 = std::time::Instant::now();
    let n = 8;
    let kids: Vec<_> = (0..n).map(|k| std::process::Command::new(std::env::current_exe().unwrap()).args([k.to_string(), n.to_string()]).stdout(std::process::Stdio::piped()).spawn().unwrap()).collect();
    let mut sum = [0u64; 7];
    let mut samples: Vec<String> = vec![];
    let mut bad: Option<String> = None;
    for c in kids {
        let o = c.wait_with_output().unwrap();
        let s = String::from_utf8_lossy(&o.stdout).into_owned();
        if let Some(d) = s.strip_prefix("DONE ") { let (d, sample) = d.split_once('\n').unwrap_or((d, "")); samples.push(sample.trim().into()); for (i, x) in d.split_whitespace().enumerate() { sum[i] += x.parse::<u64>().unwrap() } }
        else if s.starts_with("FAIL ") { bad.get_or_insert(s); }
        else { eprintln!("a worker gave no answer: {}", s); std::process::exit(2) }
    }
    let secs = t0.elapsed().as_secs_f64();
    println!("C22 {}: {} programs, {} schedules ({} with preemptions), {} steps, {} outcomes, {} programs cut off, {:.1}s", if thorough { "thorough" } else { "quick" }, sum[0], sum[1], sum[3], sum[2], sum[4], sum[5], secs);
    let bounds = if thorough { "2 threads x 1 operation: all interleavings; 2 x 2: up to 4 preemptions; 3+1 and 2+1+1: 3; 3+3: 2; 1+1+1: 5" } else { "2 threads x 1 operation: all interleavings; 2 threads x up to 2 operations: up to 2 preemptions; 3 threads x 1 operation: up to 3 preemptions" };
    let ev = format!(r#"{{
 "property": "C22", "tier": "{}", "seed": 1, "level": "model_checking",
 "coverage": {{
  "states": {}, "transitions": {}, "traces_validated_against_impl": {},
  "programs": {}, "schedules_with_preemptions": {}, "distinct_outcomes": {}, "programs_cut_by_cap": {}, "exhaustive": {},
  "explanation": "every schedule of every program within the bound, run on the real binary_template module and the real readers (all of /repo/binread/src compiled against a standard library whose locks and atomics are scheduling points); states are nodes of the schedule trees; every history is checked for linearisability against a sequential model of the output",
  "bounds": "{}",
  "samples": {:?}
 }},
 "violations": {}, "wall_s": {:.2}
}}
"#, if thorough { "thorough" } else { "quick" }, sum[6], sum[2], sum[1], sum[0], sum[3], sum[4], sum[5], sum[5] == 0 && bad.is_none(), bounds, samples, bad.is_some() as u8, secs);
    std::fs::create_dir_all(format!("{}/evidence", verif)).unwrap();
    std::fs::write(format!("{}/evidence/C22.json", verif), ev).unwrap();
    if let Some(b) = bad {
        let path = format!("{}/out/replay/C22-schedule.txt", verif);
        std::fs::create_dir_all(format!("{}/out/replay", verif)).unwrap();
        let (first, rest) = b.split_once('\n').unwrap();
        std::fs::write(&path, format!("replay: {}\n# run: VERIF_TIER={} target/sched/debug/sched --replay <this file>\n{}", first.strip_prefix("FAIL ").unwrap().trim_end(), if thorough { "thorough" } else { "quick" }, rest)).unwrap();
        println!("{}", rest);
        println!("VIOLATION property=C22 replay={}", path);
        std::process::exit(1)
    }
}
