//! The debug template of every execution, compared with the reference's trace of what is read.
use mc::explore::*;
use mc::refi::{plain, Tr};
use mc::report::Report;
use std::cell::RefCell;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
#[allow(warnings)]
mod g { include!(concat!(env!("OUT_DIR"), "/tmpl.rs")); }

thread_local! { static BUF: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) } }
/// every thread's records go to a buffer of its own
struct PerThread;
impl Write for PerThread {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { BUF.with(|x| x.borrow_mut().extend_from_slice(b)); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// numbers of generated names seen in this process
struct Seen(Vec<AtomicU64>);
const BITS: u64 = 1 << 30;
impl Seen {
    fn new() -> Seen { Seen((0..BITS / 64).map(|_| AtomicU64::new(0)).collect()) }
    fn first(&self, n: u64) -> bool { n >= BITS || self.0[(n / 64) as usize].fetch_or(1 << (n % 64), Relaxed) >> (n % 64) & 1 == 0 }
}
static VARS: std::sync::OnceLock<Seen> = std::sync::OnceLock::new();
static STRUCTS: std::sync::OnceLock<Seen> = std::sync::OnceLock::new();
static RECORDS: AtomicU64 = AtomicU64::new(0);

/// the entries of a template; generated names are checked and taken out
fn parse(t: &str) -> Result<Vec<Tr>, String> {
    let mut out = vec![];
    let (mut be, mut pos) = (None, None);
    for l in t.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with("//") || l.starts_with("typedef ") { continue }
        if l == "BigEndian();" { be = Some(true); continue }
        if l == "LittleEndian();" { be = Some(false); continue }
        if let Some(x) = l.strip_prefix("FSeek(0x").and_then(|x| x.strip_suffix(");")) { pos = Some(u64::from_str_radix(x, 16).map_err(|_| format!("position {:?}", l))?); continue }
        if let Some(x) = l.strip_prefix("struct ").and_then(|x| x.strip_suffix(" {")) {
            let (n, k) = x.rsplit_once('_').ok_or(format!("struct name {:?}", l))?;
            let k: u64 = k.parse().map_err(|_| format!("struct name {:?}", l))?;
            if !STRUCTS.get_or_init(Seen::new).first(k) { return Err(format!("the name {} was generated before", x)) }
            out.push(Tr::Start(n.into()));
            continue;
        }
        if let Some(x) = l.strip_prefix("} ").and_then(|x| x.strip_suffix(";")) { out.push(Tr::End(x.into())); continue }
        let d = l.rsplit_once("<bgcolor=0x").and_then(|(d, c)| c.strip_suffix(">;").filter(|c| c.len() == 6 && u32::from_str_radix(c, 16).is_ok()).map(|_| d)).ok_or(format!("line {:?}", l))?;
        let (ty, name) = d.rsplit_once(' ').ok_or(format!("line {:?}", l))?;
        let (be, pos) = (be.take().ok_or(format!("no byte order for {:?}", l))?, pos.take().ok_or(format!("no position for {:?}", l))?);
        let (name, n) = match name.strip_suffix(']').and_then(|x| x.split_once('[')) { Some((a, b)) => (a, Some(b.parse::<u64>().map_err(|_| format!("length {:?}", l))?)), None => (name, None) };
        let name = match name.strip_prefix("var").and_then(|x| x.parse::<u64>().ok()) {
            Some(k) => { if !VARS.get_or_init(Seen::new).first(k) { return Err(format!("the name {} was generated before", name)) } None }
            None => Some(name.to_string()),
        };
        let ty = plain(ty);
        out.push(match n { Some(n) => Tr::List { be, pos, ty, n, name }, None => Tr::Val { be, pos, ty, name } });
    }
    Ok(out)
}
fn same(a: &Tr, b: &Tr) -> bool {
    match (a, b) {
        // standard library types have names that differ between versions
        (Tr::List { be, pos, ty, n, name }, Tr::List { be: b2, pos: p2, ty: t2, n: n2, name: m2 }) => be == b2 && pos == p2 && n == n2 && name == m2 && (ty == t2 || ty.contains("NonZero")),
        (a, b) => a == b,
    }
}
fn template(want: Option<&[Tr]>) -> Result<(), (String, String)> {
    let got = BUF.with(|b| std::mem::take(&mut *b.borrow_mut()));
    let Some(want) = want else { return Ok(()) };
    let text = String::from_utf8_lossy(&got).into_owned();
    match parse(&text) {
        Ok(g) => {
            RECORDS.fetch_add(g.len() as u64, Relaxed);
            if g.len() == want.len() && want.iter().zip(&g).all(|(a, b)| same(a, b)) { Ok(()) } else { Err((format!("{:?}", want), format!("{:?}\n{}", g, text))) }
        }
        Err(e) => Err((format!("{:?}", want), format!("{}\n{}", e, text))),
    }
}

#[derive(Clone)]
struct Shared(Arc<Mutex<Vec<u8>>>);
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[derive(binread::BinRead)]
#[allow(dead_code)]
struct Small { a: u8, #[br(little)] b: u16 }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Set(usize), SetFile, Unset, Value, Struct, Anonymous }
/// every sequence of up to n operations on the output: a record goes to the output that is set, and nowhere else
fn outputs(rep: &mut Report, n: usize) {
    use binread::BinReaderExt;
    let alpha = [Op::Set(0), Op::Set(1), Op::SetFile, Op::Unset, Op::Value, Op::Struct, Op::Anonymous];
    let path = mc::report::verif().join(format!("out/template-{}.bt", std::process::id()));
    let (mut runs, mut ops) = (0u64, 0u64);
    let mut bad: Option<String> = None;
    let hdr = |t: &str| t.contains("typedef uint16 u16;") && t.contains("typedef  uchar  u8;") && t.starts_with("//");
    mc::report::words(&alpha, n, &mut |w: &[Op]| {
        if bad.is_some() || w.is_empty() { return }
        runs += 1;
        binread::binary_template::unset_output();
        let _ = std::fs::remove_file(&path);
        let bufs: Vec<Shared> = (0..2).map(|_| Shared(Arc::new(Mutex::new(vec![])))).collect();
        let mut want: Vec<Vec<Tr>> = vec![vec![], vec![], vec![]];
        let mut sets = [0; 3];
        let mut cur: Option<usize> = None;
        for o in w {
            ops += 1;
            let mut put = |t: Tr| if let Some(c) = cur { want[c].push(t) };
            match *o {
                Op::Set(k) => { binread::binary_template::set_output(bufs[k].clone()); cur = Some(k); sets[k] += 1 }
                Op::SetFile => { binread::binary_template::set_output_file(&path).unwrap(); cur = Some(2); want[2].clear(); sets[2] = 1 }
                Op::Unset => { binread::binary_template::unset_output(); cur = None }
                Op::Value => {
                    let mut c = std::io::Cursor::new([1u8; 8]);
                    c.set_position(3);
                    let _: u32 = c.read_le().unwrap();
                    put(Tr::Val { be: false, pos: 3, ty: "u32".into(), name: None });
                }
                Op::Struct => {
                    let _: Small = std::io::Cursor::new([1u8; 8]).read_be().unwrap();
                    put(Tr::Start("Small".into()));
                    put(Tr::Val { be: true, pos: 0, ty: "u8".into(), name: Some("a".into()) });
                    put(Tr::Val { be: false, pos: 1, ty: "u16".into(), name: Some("b".into()) });
                    put(Tr::End("root".into()));
                }
                Op::Anonymous => {
                    let _: (i8, [u16; 2]) = std::io::Cursor::new([1u8; 8]).read_be().unwrap();
                    put(Tr::Val { be: true, pos: 0, ty: "i8".into(), name: None });
                    put(Tr::List { be: true, pos: 1, ty: "u16".into(), n: 2, name: None });
                }
            }
        }
        binread::binary_template::unset_output();
        for k in 0..3 {
            let text = if k < 2 { String::from_utf8(bufs[k].0.lock().unwrap().clone()).unwrap() } else { std::fs::read_to_string(&path).unwrap_or_default() };
            let ok = match parse(&text) { Ok(g) => g == want[k], Err(_) => false };
            let heads = text.matches("typedef uint16 u16;").count();
            if !ok || heads != sets[k] || (sets[k] > 0 && !hdr(&text)) { bad = Some(format!("operations {:?}: output {} should hold {} header(s) and {:?}, but holds\n{}", w, k, sets[k], want[k], text)) }
        }
    });
    let _ = std::fs::remove_file(&path);
    rep.items += 1;
    rep.stats.execs += runs;
    rep.stats.transitions += ops;
    rep.parts.push(format!("outputs: every sequence of up to {} of {} operations on the output ({} runs, {} operations)", n, alpha.len(), runs, ops));
    if let Some(b) = bad { rep.violation("outputs", "outputs", &format!("property C21: a record did not go to the output that was set\n{}", b)) }
}
/// the environment variable names the first output
fn environment(rep: &mut Report) {
    let path = mc::report::verif().join(format!("out/template-env-{}.bt", std::process::id()));
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("--environment").env("DEBUG_TEMPLATE", &path).output();
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    let want = [Tr::Start("Small".into()), Tr::Val { be: true, pos: 0, ty: "u8".into(), name: Some("a".into()) }, Tr::Val { be: false, pos: 1, ty: "u16".into(), name: Some("b".into()) }, Tr::End("root".into())];
    // another process: its names are its own
    let g = parse(&text.replace("Small_0", "Small_4294967295"));
    rep.stats.execs += 1;
    rep.parts.push("environment: DEBUG_TEMPLATE names the first output".into());
    if !o.map_or(false, |o| o.status.success()) || g.as_deref() != Ok(&want) || !text.contains("typedef uint16 u16;") {
        rep.violation("environment", "environment", &format!("property C21: with DEBUG_TEMPLATE set the file should describe {:?}, but holds\n{}", want, text));
    }
}

fn main() {
    if std::env::args().any(|a| a == "--environment") {
        use binread::BinReaderExt;
        let _: Small = std::io::Cursor::new([1u8; 8]).read_be().unwrap();
        return;
    }
    std::env::remove_var("DEBUG_TEMPLATE");
    let u = mc::universes::universe("tmpl", mc::report::thorough());
    let cfgs = [Cfg { name: "inputs", template: Some(template), ..CFG }];
    let mut rep = Report::new("C21");
    environment(&mut rep);
    outputs(&mut rep, if mc::report::thorough() { 6 } else { 5 });
    binread::binary_template::set_output(PerThread);
    BUF.with(|b| b.borrow_mut().clear());
    mc::report::replay(&rep, &u, g::run_root, &cfgs);
    mc::report::run(&mut rep, &u, g::run_root, &cfgs);
    rep.extra.push(("template_entries_compared".into(), RECORDS.load(Relaxed).to_string()));
    rep.finish()
}
