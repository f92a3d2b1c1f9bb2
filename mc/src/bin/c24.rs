use binread::{io::Cursor, BinRead, BinReaderExt, Endian, ReadOptions};
use mc::report::{thorough, words, Report};

/// all entry points on these bytes; what comes out as an integer
trait Prim: BinRead<Args = ()> + Copy { const W: usize; fn bits(self) -> u128; }
macro_rules! prim { ($($t:ty, $w:literal, $u:ty, |$x:ident| $e:expr;)*) => { $(impl Prim for $t { const W: usize = $w; fn bits(self) -> u128 { let $x = self; ($e) as $u as u128 } })* } }
prim! {
    u8, 1, u8, |x| x; i8, 1, u8, |x| x; char, 1, u32, |x| x;
    u16, 2, u16, |x| x; i16, 2, u16, |x| x;
    u32, 4, u32, |x| x; i32, 4, u32, |x| x; f32, 4, u32, |x| x.to_bits();
    u64, 8, u64, |x| x; i64, 8, u64, |x| x; f64, 8, u64, |x| x.to_bits();
    u128, 16, u128, |x| x; i128, 16, u128, |x| x;
}
#[inline]
fn fold(b: &[u8], be: bool) -> u128 { let mut v = 0; for k in 0..b.len() { v = v << 8 | b[if be { k } else { b.len() - 1 - k }] as u128 } v }
fn one<T: Prim>(b: &[u8], deep: bool) -> Option<String> {
    let mut c = Cursor::new(b);
    let (big, little) = (fold(b, true), fold(b, false));
    let native = if cfg!(target_endian = "big") { big } else { little };
    let opt = |e| { let mut o = ReadOptions::default(); o.endian = e; o };
    let mut bad = None;
    {
        let mut go = |n: &str, f: &mut dyn FnMut(&mut Cursor<&[u8]>) -> binread::BinResult<T>, want: u128| {
            c.set_position(0);
            match f(&mut c) {
                Ok(x) if x.bits() == want && c.position() == b.len() as u64 => {}
                r => if bad.is_none() { bad = Some(format!("{} of {} from {:02x?}: {:x?} instead of {:x}, reader at {}", n, std::any::type_name::<T>(), b, r.map(|x| x.bits()), want, c.position())) },
            }
        };
        go("read_be", &mut |c| c.read_be(), big);
        go("read_le", &mut |c| c.read_le(), little);
        if deep {
            go("read_ne", &mut |c| c.read_ne(), native);
            go("read_type(Big)", &mut |c| c.read_type(Endian::Big), big);
            go("read_type(Little)", &mut |c| c.read_type(Endian::Little), little);
            go("read_type(Native)", &mut |c| c.read_type(Endian::Native), native);
            go("read_be_args", &mut |c| c.read_be_args(()), big);
            go("read_le_args", &mut |c| c.read_le_args(()), little);
            go("read_ne_args", &mut |c| c.read_ne_args(()), native);
            go("read_type_args", &mut |c| c.read_type_args(Endian::Little, ()), little);
            go("read", &mut |c| T::read(c), native);
            go("read_args", &mut |c| T::read_args(c, ()), native);
            go("read_options(Big)", &mut |c| T::read_options(c, &opt(Endian::Big), ()), big);
            go("read_options(Little)", &mut |c| T::read_options(c, &opt(Endian::Little), ()), little);
            go("read_options(Native)", &mut |c| T::read_options(c, &opt(Endian::Native), ()), native);
        }
    }
    bad
}
struct Sum { n: u64, bad: Option<String> }
fn values<T: Prim>(s: &mut Sum) {
    let mut go = |b: &[u8], deep: bool| { s.n += 1; if s.bad.is_none() { s.bad = std::panic::catch_unwind(|| one::<T>(b, deep)).unwrap_or_else(|_| Some(format!("reading {:02x?} panics", b))) } };
    let edge = [0u8, 1, 0x7f, 0x80, 0x81, 0xff, 0x55, 0xaa, 0x3f, 0xf0, 0xc0, 0x40, 0xfe];
    match T::W {
        1 => for x in 0..=255u8 { go(&[x], true) },
        2 => for x in 0..=65535u16 { go(&x.to_ne_bytes(), true) },
        4 => { words(&edge, 4, &mut |w| if w.len() == 4 { go(w, true) }); for hi in [0u16, 1, 0x7f80, 0x7fc0, 0xff80, 0xffff, 0x8000] { for lo in 0..=65535u16 { go(&((hi as u32) << 16 | lo as u32).to_be_bytes(), false) } } }
        8 => words(&edge[..if thorough() { 7 } else { 5 }], 8, &mut |w| if w.len() == 8 { go(w, false) }),
        _ => {}
    }
    if T::W > 2 {
        // two bytes take every value from a grid, the others are all the same
        for i in 0..T::W { for j in 0..T::W { for rest in [0u8, 0xff, 0x7f, 0x80] { for x in (0..=255u8).step_by(if thorough() { 1 } else { 5 }) { for &y in &edge {
            let mut b = vec![rest; T::W];
            b[i] = x; b[j] = y;
            go(&b, false)
        } } } } }
    }
}
/// every value of 32 bits
fn all32(s: &mut Sum) {
    let parts: Vec<Sum> = std::thread::scope(|t| {
        let hs: Vec<_> = (0..8u32).map(|k| t.spawn(move || {
            let mut s = Sum { n: 0, bad: None };
            for x in (k << 29)..=(k << 29 | 0x1fff_ffff) {
                let b = x.to_be_bytes();
                s.n += 3;
                if s.bad.is_none() { s.bad = one::<u32>(&b, false).or_else(|| one::<i32>(&b, false)).or_else(|| one::<f32>(&b, false)) }
            }
            s
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Sum { n: 0, bad: Some("reading a 32-bit value panics".into()) })).collect()
    });
    for p in parts { s.n += p.n; if s.bad.is_none() { s.bad = p.bad } }
}
fn more(rep: &mut Report) {
    let mut s = Sum { n: 0, bad: None };
    macro_rules! all { ($($t:ty)*) => { $(values::<$t>(&mut s);)* } }
    all!(u8 i8 char u16 i16 u32 i32 f32 u64 i64 f64 u128 i128);
    if thorough() { all32(&mut s) }
    rep.stats.execs += s.n;
    rep.parts.push(format!("bit patterns: {} (every 8- and 16-bit value through every entry point; wider ones over a grid{})", s.n, if thorough() { "; every 32-bit value" } else { "" }));
    if let Some(b) = s.bad { rep.violation("bits", "bits", &format!("property C24: {}", b)) }
}
mc::check_fn!(main, "C24", "c24", [mc::explore::CFG, mc::explore::FAILING1], more);
