//! Evidence, verdict lines, replay files.
use crate::explore::*;
use crate::schema::Universe;
use crate::sess::Stats;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::time::Instant;

pub fn verif() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())) }
pub fn tier() -> &'static str { if cfg!(feature = "thorough") || std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { "thorough" } else { "quick" } }
pub fn thorough() -> bool { tier() == "thorough" }

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { write!(o, "\\u{:04x}", c as u32).unwrap() }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// entries of /verif/known_findings.txt for this property: "finding: property=C09 key=<key> <text>"
pub fn known(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix(&format!("finding: property={} key=", id))?;
        let (k, t) = l.split_once(' ')?;
        Some((k.to_string(), t.to_string()))
    }).collect()
}

pub struct Report {
    pub id: &'static str,
    pub t0: Instant,
    pub stats: Stats,
    pub items: usize,
    pub capped: u64,
    pub samples: Vec<String>,
    pub parts: Vec<String>,
    pub violations: u64,
    pub findings_hit: Vec<String>,
    pub extra: Vec<(String, String)>,
    pub assumptions: Vec<String>,
}
impl Report {
    pub fn new(id: &'static str) -> Self {
        let _ = ID.set(id);
        Report { id, t0: Instant::now(), stats: Stats::new(), items: 0, capped: 0, samples: vec![], parts: vec![], violations: 0, findings_hit: vec![], extra: vec![], assumptions: vec![] }
    }
    /// a violation outside the declaration explorer
    pub fn violation(&mut self, name: &str, key: &str, text: &str) {
        if known(self.id).iter().any(|(k, _)| k == key) {
            if !self.findings_hit.contains(&key.to_string()) { self.findings_hit.push(key.to_string()) }
            return;
        }
        self.violations += 1;
        let dir = verif().join("out/replay");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}.txt", self.id, name));
        let _ = std::fs::write(&p, text);
        if self.violations <= 5 {
            println!("{}", text);
            println!("VIOLATION property={} replay={}", self.id, p.display());
        }
    }
    pub fn finish(mut self) -> ! {
        for (k, t) in known(self.id) {
            if self.findings_hit.contains(&k) { println!("KNOWN-FINDING: property={} {}", self.id, t) }
        }
        let wall = self.t0.elapsed().as_secs_f64();
        if self.samples.is_empty() { self.samples.push("(none)".into()) }
        self.samples.truncate(12);
        let mut j = String::new();
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        write!(j, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n", js(self.id), js(tier()), seed).unwrap();
        write!(j, " \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n", self.stats.states.len(), self.stats.transitions, self.stats.execs).unwrap();
        write!(j, "  \"work_items\": {}, \"distinct_outcomes\": {}, \"executions_ending_in_error\": {}, \"executions_the_reference_leaves_open\": {}, \"work_items_cut_by_cap\": {}, \"exhaustive\": {},\n", self.items, self.stats.outcomes.len(), self.stats.err_outcomes, self.stats.unspec, self.capped, self.capped == 0 && self.violations == 0).unwrap();
        for (k, v) in &self.extra { write!(j, "  {}: {},\n", js(k), v).unwrap() }
        write!(j, "  \"parts\": [{}],\n", self.parts.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")).unwrap();
        write!(j, "  \"samples\": [{}]\n }},\n", self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   ")).unwrap();
        if !self.assumptions.is_empty() { write!(j, " \"assumptions\": [{}],\n", self.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")).unwrap() }
        write!(j, " \"violations\": {}, \"wall_s\": {:.3}\n}}\n", self.violations, wall).unwrap();
        let dir = verif().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let to = std::env::var("MC_EVIDENCE").map(PathBuf::from).unwrap_or(dir.join(format!("{}.json", self.id)));
        std::fs::write(to, j).expect("write evidence");
        println!("{} {}: {} work items, {} executions, {} states, {} reader calls, {} outcomes, {} capped, {:.1}s", self.id, tier(), self.items, self.stats.execs, self.stats.states.len(), self.stats.transitions, self.stats.outcomes.len(), self.capped, wall);
        for p in &self.parts { println!("  {}", p) }
        if self.violations > 0 { std::process::exit(1) }
        // a check that explored nothing has no verdict
        if self.stats.execs == 0 { println!("nothing was explored"); std::process::exit(3) }
        std::process::exit(0)
    }
}

pub fn describe(id: &str, u: &Universe, b: &Bad) -> String {
    let r = &u.roots[b.item.root];
    let mut s = String::new();
    writeln!(s, "property {}: {}", id, b.why).unwrap();
    writeln!(s, "exploration: {}", b.cfg).unwrap();
    writeln!(s, "type read: {}   (root {}, {})", crate::render::ty(&r.ty), b.item.root, r.note).unwrap();
    writeln!(s, "entry point: {:?}, reader at position {}", b.item.entry, b.item.start).unwrap();
    if !r.args.is_empty() { writeln!(s, "arguments: {:?}", r.args).unwrap() }
    let mut names = vec![];
    used(u, &r.ty, &mut names);
    for n in names.iter().rev() { writeln!(s, "{}", crate::render::def(u, u.get(n))).unwrap() }
    write!(s, "data ({} bytes exist; bytes at other positions do not matter):", b.world.lo).unwrap();
    let many = b.world.bytes.len();
    for (k, (p, x)) in b.world.bytes.iter().enumerate() {
        if many > 400 && k == 200 { write!(s, " … {} more …", many - 400).unwrap() }
        if many <= 400 || k < 200 || k >= many - 200 { write!(s, " [{}]={:#04x}", p, x).unwrap() }
    }
    writeln!(s).unwrap();
    if let Some((p, k)) = b.world.bad { writeln!(s, "reading the byte at {} fails with {:?}", p, k).unwrap() }
    writeln!(s, "expected: {}", b.expected).unwrap();
    writeln!(s, "got:      {}", b.got).unwrap();
    writeln!(s, "reader calls:").unwrap();
    for l in b.log.iter().take(300) { writeln!(s, "  {}", l).unwrap() }
    writeln!(s, "replay: --replay {} {} {}:{} {}", b.cfg.replace(' ', "_"), b.item.root, b.item.start, format!("{:?}", b.item.entry).replace(" ", ""), b.path.iter().map(|(c, n)| format!("{}/{}", c, n)).collect::<Vec<_>>().join(",")).unwrap();
    s
}
fn used(u: &Universe, t: &crate::schema::Ty, out: &mut Vec<String>) {
    use crate::schema::*;
    match t {
        Ty::User(n) => {
            if out.contains(n) { return }
            out.push(n.clone());
            let d = u.get(n);
            let mut fs: Vec<&Field> = vec![];
            match &d.kind { Kind::Struct(_, f) => fs.extend(f), Kind::Enum(vs) => for v in vs { fs.extend(&v.fields) } }
            if let Some(m) = &d.top.map { used(u, &m.from, out) }
            for f in fs {
                used(u, &f.ty, out);
                for d in &f.dirs { if let Dir::Map(m) | Dir::TryMap(m) = d { used(u, &m.from, out) } }
            }
        }
        Ty::Arr(t, _) | Ty::Vec(t) | Ty::Deq(t) | Ty::Opt(t) | Ty::Bx(t) | Ty::Ptr(_, t) | Ty::Pos(t) => used(u, t, out),
        Ty::Punct(a, b) => { used(u, a, out); used(u, b, out) }
        Ty::Tup(ts) => for t in ts { used(u, t, out) },
        _ => {}
    }
}

/// explores a universe under each configuration and adds the result to the report
pub fn run(rep: &mut Report, u: &Universe, rr: RunRoot, cfgs: &[Cfg]) {
    quiet_panics();
    for cfg in cfgs {
        let t = Instant::now();
        let kn = known(rep.id);
        let key = |b: &Bad| format!("{}/{}{}", b.cfg.replace(' ', "_"), u.roots[b.item.root].note.replace(' ', "_"), if b.got.contains("(livelock)") { "/never-ends" } else { "" });
        let f = explore(cfg, u, rr, &|b| kn.iter().any(|(k, _)| *k == key(b)));
        rep.parts.push(format!("{}: {} declarations, {} work items, {} executions, {} states, {} outcomes, {} errors, {} left open, {} capped, {:.2}s", cfg.name, u.defs.len(), f.items, f.stats.execs, f.stats.states.len(), f.stats.outcomes.len(), f.stats.err_outcomes, f.stats.unspec, f.capped, t.elapsed().as_secs_f64()));
        if std::env::var("MC_VERBOSE").is_ok() { println!("{}", rep.parts.last().unwrap()) }
        rep.items += f.items;
        rep.capped += f.capped;
        rep.stats.merge(f.stats);
        if rep.samples.len() < 8 {
            if let Some(s) = sample(cfg, u, rr) { rep.samples.push(s) }
        }
        let mut bads = f.bad;
        bads.sort_by_key(|b| (b.item.root, b.path.len()));
        for b in &bads {
            let k = key(b);
            rep.violation(&format!("{}-{}", cfg.name.replace(' ', "_"), b.item.root), &k, &describe(rep.id, u, b));
            if rep.violations > 3 { break }
        }
        if rep.violations > 0 { break }
    }
}

/// one execution written out
fn sample(cfg: &Cfg, u: &Universe, rr: RunRoot) -> Option<String> {
    let its = items(u, cfg);
    let item = its.get(its.len() / 2)?;
    let mut st = Stats::new();
    let mut w = crate::sess::World::new(item.start, u.roots[item.root].max_len, false);
    let mut ch = crate::sess::Chooser::default();
    let (want, _, ops) = reference(u, &u.roots[item.root], &item.entry, &mut w, &mut ch, &[], true, false);
    let (_, b) = run_one(cfg, u, rr, item, Default::default(), &mut st, false);
    let r = &u.roots[item.root];
    Some(format!("{}: {} via {:?} from {}: reference expects {} after {} operations; implementation made {} reader calls and {}", cfg.name, crate::render::ty(&r.ty), item.entry, item.start, show(&want), ops, st.transitions, if b.is_none() { "agreed" } else { "disagreed" }))
}

/// `--replay` support: runs one recorded execution with a log
pub fn replay(rep: &Report, u: &Universe, rr: RunRoot, cfgs: &[Cfg]) {
    let a: Vec<String> = std::env::args().collect();
    let Some(i) = a.iter().position(|x| x == "--replay") else { return };
    quiet_panics();
    let root: usize = a[i + 2].parse().unwrap();
    let (start, en) = a[i + 3].split_once(':').unwrap();
    for cfg in cfgs.iter().filter(|c| c.name.replace(' ', "_") == a[i + 1]) {
        for item in items(u, cfg) {
            if item.root == root && item.start.to_string() == start && format!("{:?}", item.entry).replace(' ', "") == en.replace(' ', "") {
                let mut ch = crate::sess::Chooser::default();
                ch.path = a.get(i + 4).map_or(vec![], |p| p.split(',').filter(|x| !x.is_empty()).map(|x| { let (c, n) = x.split_once('/').unwrap(); (c.parse().unwrap(), n.parse().unwrap()) }).collect());
                let mut st = Stats::new();
                let (_, b) = run_one(cfg, u, rr, &item, ch, &mut st, true);
                match b {
                    Some(b) => { println!("{}", describe(rep.id, u, &b)); println!("VIOLATION property={} replay={}", rep.id, "(this command)"); std::process::exit(1) }
                    None => { println!("the recorded execution is as expected now"); std::process::exit(0) }
                }
            }
        }
    }
    println!("no such work item");
    std::process::exit(3)
}

/// the property the process checks
pub static ID: std::sync::OnceLock<&'static str> = std::sync::OnceLock::new();
/// an execution never returns: nothing more can be learnt from this process
pub fn hangs(u: &Universe, cfg: &Cfg, item: &Item, secs: u32) -> ! {
    let id = ID.get().copied().unwrap_or("?");
    let r = &u.roots[item.root];
    let mut s = format!("property {}: an execution neither returned nor called the reader for {} s\nexploration: {}\ntype read: {}   (root {}, {})\nentry point: {:?}, reader at position {}\n", id, secs, cfg.name, crate::render::ty(&r.ty), item.root, r.note, item.entry, item.start);
    let mut names = vec![];
    used(u, &r.ty, &mut names);
    for n in names.iter().rev() { writeln!(s, "{}", crate::render::def(u, u.get(n))).unwrap() }
    let dir = verif().join("out/replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-hangs.txt", id));
    let _ = std::fs::write(&p, &s);
    println!("{}", s);
    println!("VIOLATION property={} replay={}", id, p.display());
    let _ = std::io::Write::flush(&mut std::io::stdout());
    unsafe { exit_now(1) }
}

thread_local! { pub static CURRENT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) } }
/// the allocator refused a request: the execution under way cannot go on
pub fn refused(id: &str, n: usize) {
    let dir = verif().join("out/replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-refused.txt", id));
    let at = CURRENT.with(|c| c.borrow().clone());
    let text = format!("property {}: a single allocation of {} bytes was requested\n{}", id, n, at);
    let _ = std::fs::write(&p, &text);
    println!("{}", text);
    println!("VIOLATION property={} replay={}", id, p.display());
    let _ = std::io::Write::flush(&mut std::io::stdout());
    unsafe { exit_now(1) }
}
extern "C" { #[link_name = "_exit"] fn exit_now(c: i32) -> !; }

/// a check binary over one universe
#[macro_export]
macro_rules! check {
    ($id:literal, $uni:literal, $cfgs:tt) => { mc::check_fn!(main, $id, $uni, $cfgs); };
}
#[macro_export]
macro_rules! check_fn {
    ($main:ident, $id:literal, $uni:literal, [$($cfg:expr),* $(,)?]) => { mc::check_fn!($main, $id, $uni, [$($cfg),*], |_: &mut mc::report::Report| {}); };
    ($main:ident, $id:literal, $uni:literal, [$($cfg:expr),* $(,)?], $more:expr) => {
        #[allow(warnings)] mod g { include!(concat!(env!("OUT_DIR"), "/", $uni, ".rs")); }
        pub fn $main() {
            let u = mc::universes::universe($uni, mc::report::thorough());
            let mut cfgs: Vec<mc::explore::Cfg> = vec![$($cfg),*];
            cfgs.extend(mc::explore::deeper($id));
            let mut rep = mc::report::Report::new($id);
            mc::report::replay(&rep, &u, g::run_root, &cfgs);
            mc::report::run(&mut rep, &u, g::run_root, &cfgs);
            ($more)(&mut rep);
            rep.finish()
        }
    };
}
/// every sequence over the alphabet of at most n letters
pub fn words<T: Clone>(alpha: &[T], n: usize, f: &mut dyn FnMut(&[T])) {
    fn go<T: Clone>(alpha: &[T], n: usize, w: &mut Vec<T>, f: &mut dyn FnMut(&[T])) {
        f(w);
        if n == 0 { return }
        for a in alpha { w.push(a.clone()); go(alpha, n - 1, w, f); w.pop(); }
    }
    go(alpha, n, &mut vec![], f)
}
