//! One feature configuration of C18: against the reference, plus a digest of the outcomes of every
//! work item for the comparison between configurations (tools/c18.py).
use mc::explore::*;
#[allow(warnings)]
mod g { include!(concat!(env!("OUT_DIR"), "/cfgs.rs")); }

#[cfg(feature = "dt")]
struct Sink;
#[cfg(feature = "dt")]
static WRITTEN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
#[cfg(feature = "dt")]
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { WRITTEN.fetch_add(b.len() as u64, std::sync::atomic::Ordering::Relaxed); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn main() {
    let name: &'static str = Box::leak(std::env::var("MC_CFG").unwrap_or("inputs".into()).into_boxed_str());
    let u = mc::universes::universe("cfgs", mc::report::thorough());
    let cfg = Cfg { name, digest: true, ..CFG };
    #[cfg(feature = "dt")]
    if std::env::var("MC_TEMPLATE").is_ok() { binread::binary_template::set_output(Sink) }
    let mut rep = mc::report::Report::new("C18");
    if let Ok(k) = std::env::var("MC_TRAIL") {
        // every outcome of one work item
        quiet_panics();
        let item = items(&u, &cfg)[k.parse::<usize>().unwrap()];
        let mut st = mc::sess::Stats::new();
        st.trail = Some(vec![]);
        let mut ch = mc::sess::Chooser::default();
        println!("{}\n{}", mc::render::ty(&u.roots[item.root].ty), match &u.roots[item.root].ty { mc::schema::Ty::User(n) => mc::render::def(&u, u.get(n)), _ => String::new() });
        println!("entry point {:?}, reader at {}", item.entry, item.start);
        for _ in 0..cfg.cap { ch = run_one(&cfg, &u, g::run_root, &item, ch, &mut st, false).0; if !ch.next() { break } }
        for l in st.trail.unwrap() { println!("  {}", l) }
        return;
    }
    mc::report::replay(&rep, &u, g::run_root, &[cfg]);
    mc::report::run(&mut rep, &u, g::run_root, &[cfg]);
    mc::extra::containers(&mut rep);
    mc::extra::pointers(&mut rep);
    mc::extra::helpers(&mut rep);
    mc::large::chunked_to(&mut rep, 6);
    mc::large::failing_to(&mut rep, 6);
    #[cfg(feature = "cg")]
    mc::large::magics(&mut rep);
    let mut d = rep.stats.digests.clone();
    d.sort();
    if let Ok(p) = std::env::var("MC_DIGEST") { std::fs::write(p, d.iter().map(|(a, b, c)| format!("{} {} {:x}\n", a, b, c)).collect::<String>()).unwrap() }
    #[cfg(feature = "dt")]
    rep.extra.push(("template_bytes_written".into(), WRITTEN.load(std::sync::atomic::Ordering::Relaxed).to_string()));
    rep.finish()
}
