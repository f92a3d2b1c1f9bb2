use binread::{io::Cursor, BinRead, BinReaderExt, FilePtr, FilePtr16, FilePtr32, FilePtr64, FilePtr8, ReadOptions};
use mc::report::Report;
use std::panic::catch_unwind;

/// what a resolved or unresolved pointer gives through its accessors
fn access<P: BinRead<Args = ()> + binread::file_ptr::IntoSeekFrom>(data: &[u8], at: u64) -> Result<u64, String> {
    let mut n = 0;
    let read = |p: u64| -> Result<FilePtr<P, u8>, String> { let mut c = Cursor::new(data); c.set_position(p); c.read_le().map_err(|e| format!("{:?}", e)) };
    let width = core::mem::size_of::<P>() as u64;
    let mut all = vec![];
    for k in 0..4u64 {
        let p = at + k * width;
        // the pointer's own bytes, little endian, say where the target is
        let want = data[data[p as usize] as usize];
        let mut x = read(p)?;
        n += 1;
        if *x != want || x.value != Some(want) { return Err(format!("dereferenced: {} instead of {}", *x, want)) }
        if format!("{:?}", x) != format!("{:?}", want) { return Err(format!("shown as {:?}", x)) }
        if !(x == read(p)?) || x != read(p)? { return Err("not equal to the same pointer read again".into()) }
        *x = want ^ 1;
        if x.value != Some(want ^ 1) || *x != want ^ 1 || x.into_inner() != want ^ 1 { return Err("assigning through the pointer is lost".into()) }
        if read(p)?.into_inner() != want { return Err("into_inner gives another value".into()) }
        let mut c = Cursor::new(data);
        c.set_position(p);
        let raw = FilePtr::<P, u8>::read_options(&mut c, &ReadOptions::default(), ()).map_err(|e| format!("{:?}", e))?;
        if raw.value.is_some() { return Err("resolved before its time".into()) }
        let _ = format!("{:?}", raw);
        all.push((want, p));
    }
    // equal exactly if what they point to is
    for a in &all { for b in &all {
        n += 1;
        if (read(a.1)? == read(b.1)?) != (a.0 == b.0) { return Err(format!("pointers to {} and {} compare wrongly", a.0, b.0)) }
    } }
    Ok(n)
}
fn more(rep: &mut Report) {
    let mut n = 0;
    // four pointers, then the targets 0 0 1 2 at every arrangement
    for t in 0..256u32 {
        let targets: Vec<u8> = (0..4).map(|k| (t >> (2 * k) & 3) as u8).collect();
        macro_rules! one { ($t:ty) => {{
            let w = core::mem::size_of::<$t>();
            for rot in 0..4usize {
                let mut d = vec![];
                for k in 0..4usize { let mut b = [0u8; core::mem::size_of::<$t>()]; b[0] = (4 * w + (k + rot) % 4) as u8; d.extend(b) }
                d.extend(&targets);
                let r = catch_unwind(|| access::<$t>(&d, 0)).unwrap_or_else(|_| Err(format!("panic: {}", mc::explore::LAST_PANIC.with(|l| l.borrow().clone()))));
                match r { Ok(k) => n += k, Err(e) => { rep.violation(concat!("access-", stringify!($t)), "access", &format!("property C09: FilePtr<{}, u8>, data {:x?}: {}", stringify!($t), d, e)); return } }
            }
        }} }
        one!(u8); one!(u16); one!(u32); one!(u64); one!(u128); one!(i8); one!(i16); one!(i32); one!(i64); one!(i128);
    }
    let d = [1u8, 7];
    let _: (FilePtr8<u8>, Option<(FilePtr16<u8>, FilePtr32<u8>, FilePtr64<u8>)>) = (Cursor::new(&d).read_be().unwrap_or_else(|_| panic!()), None);
    mc::extra::pointers(rep);
    mc::extra::containers(rep);
    rep.stats.execs += n;
    rep.parts.push(format!("accessors: pointers of 10 types to every arrangement of 4 targets: {} pointers and pairs", n));
}
mc::check_fn!(main, "C09", "c09", [mc::explore::CFG, if mc::report::thorough() { mc::explore::FAILING } else { mc::explore::FAILING1 }], more);
