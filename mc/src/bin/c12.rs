use binread::{io::Cursor, punctuated::Punctuated, BinRead, BinReaderExt, PosValue, ReadOptions};
use mc::report::{words, Report};
use std::panic::catch_unwind;

fn pos_value(data: &[u8], at: u64) -> Result<(), String> {
    let read = |p: u64| -> Result<PosValue<u8>, String> { let mut c = Cursor::new(data); c.set_position(p); c.read_be().map_err(|e| format!("{:?}", e)) };
    let mut x = read(at)?;
    let want = data[at as usize];
    if x.pos != at || x.val != want || *x != want || format!("{:?}", x) != format!("{:?}", want) { return Err(format!("{:?} at {} instead of {} at {}", x, x.pos, want, at)) }
    for b in 0..=255u8 { if (x == b) != (b == want) { return Err(format!("comparison with {} is wrong", b)) } }
    let y = x.clone();
    if y.pos != at || y.val != want { return Err(format!("its clone is {} at {}", y.val, y.pos)) }
    *x = want ^ 1;
    if x.val != want ^ 1 || *x != want ^ 1 || x.pos != at || y.val != want { return Err("assigning through it is lost".into()) }
    Ok(())
}
fn punct(data: &[u8], n: usize, trailing: bool) -> Result<(), String> {
    let mut c = Cursor::new(data);
    let mut o = ReadOptions::default();
    o.count = Some(n);
    let r = if trailing { Punctuated::<u8, u8>::separated_trailing(&mut c, &o, ()) } else { Punctuated::<u8, u8>::separated(&mut c, &o, ()) };
    let mut p = r.map_err(|e| format!("{:?}", e))?;
    let elems: Vec<u8> = (0..n).map(|k| data[2 * k]).collect();
    let seps: Vec<u8> = (0..if trailing { n } else { n.saturating_sub(1) }).map(|k| data[2 * k + 1]).collect();
    if *p != elems || p.len() != n || p.iter().copied().collect::<Vec<_>>() != elems { return Err(format!("elements {:?} instead of {:?}", *p, elems)) }
    if p.seperators != seps { return Err(format!("separators {:?} instead of {:?}", p.seperators, seps)) }
    if format!("{:?}", p) != format!("{:?}", elems) { return Err(format!("shown as {:?}", p)) }
    if c.position() as usize != elems.len() + seps.len() { return Err(format!("reader at {}", c.position())) }
    p.push(9);
    for x in p.iter_mut() { *x ^= 1 }
    let want: Vec<u8> = elems.iter().copied().chain([9]).map(|x| x ^ 1).collect();
    if *p != want || p.seperators != seps { return Err(format!("after changing its elements: {:?} instead of {:?}", *p, want)) }
    Ok(())
}
fn more(rep: &mut Report) {
    let (mut n, mut fail) = (0u64, None);
    let mut note = |w: String, r: std::thread::Result<Result<(), String>>| {
        n += 1;
        let e = match r { Ok(Ok(())) => return, Ok(Err(e)) => e, Err(_) => format!("panic: {}", mc::explore::LAST_PANIC.with(|l| l.borrow().clone())) };
        if fail.is_none() { fail = Some(format!("{}: {}", w, e)) }
    };
    words(&[0u8, 1, 255], 4, &mut |w| for at in 0..w.len() { note(format!("PosValue<u8> at {} of {:?}", at, w), catch_unwind(|| pos_value(w, at as u64))) });
    words(&[0u8, 1, 255], 6, &mut |w| for k in 0..=w.len() / 2 { for t in [false, true] { note(format!("Punctuated<u8, u8> of {} elements, trailing {}, in {:?}", k, t, w), catch_unwind(|| punct(w, k, t))) } });
    rep.stats.execs += n;
    rep.parts.push(format!("accessors: PosValue and Punctuated over every byte string up to length 4 and 6 over 3 bytes: {}", n));
    mc::extra::containers(rep);
    mc::extra::helpers(rep);
    mc::large::elements(rep);
    if let Some(f) = fail { rep.violation("access", "access", &format!("property C12: {}", f)) }
}
mc::check_fn!(main, "C12", "c12", [mc::explore::CFG, if mc::report::thorough() { mc::explore::FAILING } else { mc::explore::FAILING1 }], more);
