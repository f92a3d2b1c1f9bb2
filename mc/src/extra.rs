//! Hand-written types inside the library's containers and pointers: every element is read and then
//! finished exactly once, in order, with the options and arguments in force; an element that fails
//! ends it with that element's error. All over a grid of options, arguments, positions and failing
//! elements. Run by C09 (pointers), C12 (containers) and C18 (both, in every configuration).
use binread::file_ptr::IntoSeekFrom;
use binread::io::{Cursor, Read, Seek, SeekFrom};
use binread::{BinRead, BinResult, Endian, Error, FilePtr, PosValue, ReadOptions};
use std::cell::{Cell, RefCell};
use std::panic::catch_unwind;
use crate::report::Report;
use crate::val::PErr;

/// what an element or a pointer saw: (event, at, big endian, count, offset, argument)
type Seen = (u8, u64, bool, Option<usize>, u64, i64);
thread_local! {
    static SEEN: RefCell<Vec<Seen>> = const { RefCell::new(Vec::new()) };
    static FAIL: Cell<usize> = const { Cell::new(usize::MAX) };
}
fn is_be(e: Endian) -> bool { match e { Endian::Big => true, Endian::Little => false, Endian::Native => cfg!(target_endian = "big") } }
fn see<R: Read + Seek>(ev: u8, r: &mut R, o: &ReadOptions, a: i64) -> BinResult<usize> {
    let at = r.seek(SeekFrom::Current(0))?;
    let k = SEEN.with(|s| { let mut s = s.borrow_mut(); s.push((ev, at, is_be(o.endian), o.count, o.offset, a)); s.len() - 1 });
    if FAIL.with(|f| f.get()) == k { return Err(Error::Custom { pos: at, err: Box::new(PErr(k as i64)) }) }
    Ok(k)
}
pub trait Arg: Copy + 'static { fn n(self) -> i64; fn of(n: i64) -> Self; }
impl Arg for () { fn n(self) -> i64 { 0 } fn of(_: i64) -> () {} }
impl Arg for (i64,) { fn n(self) -> i64 { self.0 } fn of(n: i64) -> (i64,) { (n,) } }

macro_rules! ob { ($n:ident, $w:literal, $a:ty) => {
    /// takes $w bytes; remembers as which of the elements it was read and finished
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct $n;
    impl BinRead for $n {
        type Args = $a;
        fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: $a) -> BinResult<Self> {
            see(1, r, o, a.n())?;
            let mut b = [0u8; $w];
            r.read_exact(&mut b)?;
            Ok($n)
        }
        fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: $a) -> BinResult<()> { see(2, r, o, a.n()).map(|_| ()) }
    }
} }
ob!(Z, 0, ());
ob!(W, 2, ());
ob!(ZA, 0, (i64,));
ob!(WA, 1, (i64,));

/// an element that remembers what it was, so that order and identity show in the container
#[derive(Clone, Debug, PartialEq)]
pub struct Id { pub k: usize, pub done: Vec<usize> }
impl Default for Id { fn default() -> Self { Id { k: 9999, done: vec![] } } }
impl BinRead for Id {
    type Args = (i64,);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: (i64,)) -> BinResult<Self> { let k = see(1, r, o, a.0)?; let mut b = [0u8]; r.read_exact(&mut b)?; Ok(Id { k, done: vec![] }) }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: (i64,)) -> BinResult<()> { let k = see(2, r, o, a.0)?; self.done.push(k); Ok(()) }
}

#[derive(Clone, Copy, PartialEq)]
enum Passes { Count, Not }

struct Ctx<'a> { rep: &'a mut Report, n: u64, fail: Option<String> }
impl Ctx<'_> {
    /// one container type: `n` elements of `w` bytes, that see the count in force or none
    fn one<T: BinRead>(&mut self, name: &str, n: &dyn Fn(usize) -> usize, w: u64, passes: Passes, counts: &[Option<usize>], ids: Option<fn(&T) -> Vec<Id>>) where T::Args: Arg {
        for &count in counts { for (e, be) in [(Endian::Big, true), (Endian::Little, false), (Endian::Native, cfg!(target_endian = "big"))] {
            for off in [0u64, 6] { for at in [0u64, 3] {
                let n = n(count.unwrap_or(0));
                let fails: Vec<usize> = (0..2 * n).filter(|k| n < 6 || [0, 1, n - 1, n, n + 1, 2 * n - 1].contains(k)).chain([usize::MAX]).collect();
                for fail in fails {
                    if self.fail.is_some() { return }
                    self.n += 1;
                    let r = catch_unwind(|| Self::run::<T>(n, w, passes, count, e, be, off, at, fail, ids)).unwrap_or_else(|_| Err(format!("panic: {}", crate::explore::LAST_PANIC.with(|l| l.borrow().clone()))));
                    if let Err(m) = r {
                        self.fail = Some(format!("{}: count {:?}, {:?}, offset {}, reader at {}{}: {}", name, count, e, off, at, if fail < 9999 { format!(", call {} of the elements fails", fail) } else { String::new() }, m));
                    }
                }
            } }
        } }
    }
    fn run<T: BinRead>(n: usize, w: u64, passes: Passes, count: Option<usize>, e: Endian, be: bool, off: u64, at: u64, fail: usize, ids: Option<fn(&T) -> Vec<Id>>) -> Result<(), String> where T::Args: Arg {
        SEEN.with(|s| s.borrow_mut().clear());
        FAIL.with(|f| f.set(fail));
        let data = vec![7u8; (at + n as u64 * w) as usize];
        let mut c = Cursor::new(data);
        c.set_position(at);
        let mut o = ReadOptions::default();
        o.endian = e;
        o.count = count;
        o.offset = off;
        let bit = <T::Args as Arg>::of(5).n();
        let ec = if passes == Passes::Count { count } else { None };
        let mut want: Vec<Seen> = (0..n as u64).map(|k| (1, at + k * w, be, ec, off, bit)).collect();
        if fail < n { want.truncate(fail + 1) }
        let r = T::read_options(&mut c, &o, <T::Args as Arg>::of(5));
        let seen = || SEEN.with(|s| s.borrow().clone());
        let judge = |r: Result<(), Error>, want: &[Seen], fails: bool| -> Result<bool, String> {
            if seen() != want { return Err(format!("its elements were called as {:?} instead of {:?}", seen(), want)) }
            match (r, fails) {
                (Ok(()), false) => Ok(true),
                (Err(Error::Custom { err, .. }), true) if err.downcast_ref::<PErr>() == Some(&PErr(fail as i64)) => Ok(false),
                (r, _) => Err(format!("{:?} instead of {}", r, if fails { "the element's error" } else { "Ok" })),
            }
        };
        let (r, mut val) = match r { Ok(x) => (Ok(()), Some(x)), Err(e) => (Err(e), None) };
        if !judge(r, &want, fail < n)? { return Ok(()) }
        if c.position() != at + n as u64 * w { return Err(format!("reader left at {}", c.position())) }
        // finishing uses the options and arguments it is given
        let mut o2 = o;
        o2.offset = off + 1;
        o2.count = Some(77);
        c.set_position(1);
        let bit2 = <T::Args as Arg>::of(8).n();
        want.extend((0..n as u64).map(|_| (2, 1, be, Some(77), off + 1, bit2)));
        if fail < 2 * n { want.truncate(fail + 1) }
        let v = val.as_mut().unwrap();
        let r = v.after_parse(&mut c, &o2, <T::Args as Arg>::of(8));
        if !judge(r, &want, fail < 2 * n)? { return Ok(()) }
        if c.position() != 1 { return Err(format!("finishing left the reader at {}", c.position())) }
        if let Some(f) = ids {
            let got = f(v);
            let want: Vec<Id> = (0..n).map(|k| Id { k, done: vec![n + k] }).collect();
            if got != want { return Err(format!("holds {:?} instead of {:?}", got, want)) }
        }
        Ok(())
    }
}

pub fn containers(rep: &mut Report) {
    let mut c = Ctx { rep, n: 0, fail: None };
    let none: &[Option<usize>] = &[None, Some(2)];
    let counts: &[Option<usize>] = &[Some(0), Some(1), Some(2), Some(3), Some(5), Some(31), Some(32), Some(33), Some(64), Some(100)];
    let few: &[Option<usize>] = &[Some(0), Some(1), Some(3)];
    let v = |k: usize| k;
    c.one::<Vec<Z>>("Vec of a type without bytes", &v, 0, Passes::Not, counts, None);
    c.one::<Vec<ZA>>("Vec of a type without bytes, with an argument", &v, 0, Passes::Not, counts, None);
    c.one::<Vec<W>>("Vec of a two-byte type", &v, 2, Passes::Not, counts, None);
    c.one::<Vec<Id>>("Vec", &v, 1, Passes::Not, counts, Some(|x| x.clone()));
    c.one::<Vec<Option<Box<Id>>>>("Vec<Option<Box<_>>>", &v, 1, Passes::Not, counts, Some(|x| x.iter().map(|x| (**x.as_ref().unwrap()).clone()).collect()));
    c.one::<Vec<[Id; 3]>>("Vec<[_; 3]>", &|k| 3 * k, 1, Passes::Not, few, Some(|x| x.iter().flat_map(|x| x.iter().cloned()).collect()));
    c.one::<[Vec<ZA>; 2]>("[Vec<_>; 2]", &|k| 2 * k, 0, Passes::Not, few, None);
    c.one::<[Vec<Id>; 3]>("[Vec<_>; 3]", &|k| 3 * k, 1, Passes::Not, few, Some(|x| x.iter().flatten().cloned().collect()));
    c.one::<Box<Vec<Id>>>("Box<Vec<_>>", &v, 1, Passes::Not, few, Some(|x| (**x).clone()));
    c.one::<Option<Vec<Id>>>("Option<Vec<_>>", &v, 1, Passes::Not, few, Some(|x| x.clone().unwrap()));
    c.one::<Box<Id>>("Box", &|_| 1, 1, Passes::Count, none, Some(|x| vec![(**x).clone()]));
    c.one::<Box<ZA>>("Box of a type without bytes", &|_| 1, 0, Passes::Count, none, None);
    c.one::<Option<Id>>("Option", &|_| 1, 1, Passes::Count, none, Some(|x| vec![x.clone().unwrap()]));
    c.one::<Option<Z>>("Option of a type without bytes", &|_| 1, 0, Passes::Count, none, None);
    c.one::<Option<Option<Box<Id>>>>("Option<Option<Box<_>>>", &|_| 1, 1, Passes::Count, none, Some(|x| vec![(**x.as_ref().unwrap().as_ref().unwrap()).clone()]));
    c.one::<PosValue<Z>>("PosValue of a type without bytes", &|_| 1, 0, Passes::Count, none, None);
    c.one::<PosValue<Id>>("PosValue", &|_| 1, 1, Passes::Count, none, Some(|x| vec![x.val.clone()]));
    c.one::<(Z,)>("tuple of 1", &|_| 1, 0, Passes::Count, none, None);
    c.one::<(W, W)>("tuple of 2", &|_| 2, 2, Passes::Count, none, None);
    c.one::<(Z, (Z, Z), [Z; 2], Z)>("tuple of tuples", &|_| 6, 0, Passes::Count, none, None);
    c.one::<(Vec<W>, Vec<W>)>("tuple of vectors", &|k| 2 * k, 2, Passes::Not, few, None);
    macro_rules! wide { ($($k:literal : $t:ty),* $(,)?) => { $(c.one::<$t>(concat!("tuple of ", $k), &|_| $k, 0, Passes::Count, none, None);)* } }
    wide!(3: (Z, Z, Z), 7: (Z, Z, Z, Z, Z, Z, Z), 16: (Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z),
        31: (Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z),
        32: (Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z));
    macro_rules! arrays { ($($k:literal)*) => { $(
        c.one::<[Id; $k]>(concat!("[_; ", $k, "]"), &|_| $k, 1, Passes::Count, none, Some(|x| x.iter().cloned().collect()));
        c.one::<[Z; $k]>(concat!("[_; ", $k, "] of a type without bytes"), &|_| $k, 0, Passes::Count, none, None);
    )* } }
    arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
    #[cfg(feature = "cg")]
    arrays!(33 34 40 48 63 64 65 100 127 128 129 255 256 257 1000);
    let (n, fail) = (c.n, c.fail);
    rep.stats.execs += n;
    rep.parts.push(format!("containers of observing elements (none, one and two bytes each): {} reads, every failing element", n));
    if let Some(f) = fail { let id = rep.id; rep.violation("containers", "containers", &format!("property {}: {}", id, f)) }
}

// ---------------------------------------------------------------- pointers of a type of the user's

/// a pointer that says itself how its number is meant, and that sees the options in force
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct UPtr { raw: u16, k: usize }
impl BinRead for UPtr {
    type Args = ();
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<Self> {
        let k = see(3, r, o, 0)?;
        let raw = u16::read_options(r, o, ())?;
        Ok(UPtr { raw: raw.wrapping_add(o.count.unwrap_or(0) as u16), k })
    }
}
impl IntoSeekFrom for UPtr {
    fn into_seek_from(self) -> SeekFrom {
        let d = (self.raw & 15) as i64;
        match self.raw >> 8 { 0 => SeekFrom::Current(d), 1 => SeekFrom::Start(d as u64), 2 => SeekFrom::End(-d), _ => SeekFrom::Current(-d) }
    }
}
/// the target: one byte
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct UVal { b: u8, k: usize, done: usize }
impl BinRead for UVal {
    type Args = (i64,);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: (i64,)) -> BinResult<Self> { let k = see(4, r, o, a.0)?; let b = u8::read_options(r, o, ())?; Ok(UVal { b, k, done: 0 }) }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: (i64,)) -> BinResult<()> { see(5, r, o, a.0)?; self.done += 1; Ok(()) }
}
type FP = FilePtr<UPtr, UVal>;

fn run_ptr<T: BinRead<Args = (i64,)>>(ptrs: &[u16], pcount: Option<usize>, count: Option<usize>, e: Endian, off: u64, at: u64, fail: usize, get: fn(&T) -> Vec<&FP>) -> Result<(), String> {
    SEEN.with(|s| s.borrow_mut().clear());
    FAIL.with(|f| f.set(fail));
    let be = is_be(e);
    let mut data = vec![0xeeu8; at as usize];
    for p in ptrs { data.extend(if be { p.to_be_bytes() } else { p.to_le_bytes() }) }
    while data.len() < 14 { data.push(0x40 + data.len() as u8) }
    let len = data.len() as i64;
    let mut c = Cursor::new(&data[..]);
    c.set_position(at);
    let mut o = ReadOptions::default();
    o.endian = e;
    o.count = count;
    o.offset = off;
    let mut want: Vec<Seen> = (0..ptrs.len() as u64).map(|k| (3, at + 2 * k, be, pcount, off, 0)).collect();
    let seen = || SEEN.with(|s| s.borrow().clone());
    let mut v = match T::read_options(&mut c, &o, (5,)) {
        Ok(v) => v,
        Err(Error::Custom { err, .. }) if fail < ptrs.len() && err.downcast_ref::<PErr>() == Some(&PErr(fail as i64)) => {
            want.truncate(fail + 1);
            return if seen() == want { Ok(()) } else { Err(format!("calls {:?} instead of {:?}", seen(), want)) };
        }
        Err(e) => return Err(format!("not read: {:?}", e)),
    };
    if fail < ptrs.len() { return Err("read though a pointer fails".into()) }
    if seen() != want { return Err(format!("pointers read as {:?} instead of {:?}", seen(), want)) }
    if get(&v).iter().any(|p| p.value.is_some()) { return Err("followed before its time".into()) }
    let end = at + 2 * ptrs.len() as u64;
    if c.position() != end { return Err(format!("reader at {} instead of {}", c.position(), end)) }
    // following them: relative to the offset given then, with the options and arguments given then
    let mut o2 = o;
    o2.offset = off + 2;
    o2.count = Some(41);
    let mut targets = vec![];
    let mut err = false;
    let mut custom = None;
    for p in ptrs {
        let raw = p.wrapping_add(pcount.unwrap_or(0) as u16);
        let d = (raw & 15) as i64;
        let t = match raw >> 8 { 0 => (off as i64 + 2) + d, 1 => d, 2 => len - d, _ => (off as i64 + 2) - d };
        if t < 0 { err = true; break }
        want.push((4, t as u64, be, Some(41), off + 2, 9));
        if want.len() - 1 == fail { custom = Some(fail); err = true; break }
        if t >= len { err = true; break }
        want.push((5, t as u64 + 1, be, Some(41), off + 2, 9));
        if want.len() - 1 == fail { custom = Some(fail); err = true; break }
        targets.push((data[t as usize], t as u64));
    }
    let r = v.after_parse(&mut c, &o2, (9,));
    if seen() != want { return Err(format!("targets read as {:?} instead of {:?}", seen(), want)) }
    match (&r, err, custom) {
        (Ok(()), false, _) => {}
        (Err(Error::Custom { err, .. }), true, Some(k)) if err.downcast_ref::<PErr>() == Some(&PErr(k as i64)) => {}
        (Err(Error::Io(_)), true, None) => {}
        _ => return Err(format!("{:?} instead of {}", r, if err { "an error" } else { "Ok" })),
    }
    for (p, (b, _)) in get(&v).iter().zip(&targets) {
        match p.value { Some(x) if x.b == *b && x.done == 1 => {} x => return Err(format!("points to {:?} instead of {:#x}", x, b)) }
    }
    if r.is_ok() && c.position() != end { return Err(format!("following left the reader at {} instead of {}", c.position(), end)) }
    Ok(())
}

pub fn pointers(rep: &mut Report) {
    let mut n = 0u64;
    let mut fail_: Option<String> = None;
    let raws: Vec<u16> = [0u16, 1, 3, 9, 14].iter().flat_map(|d| (0..4u16).map(move |h| h << 8 | d)).collect();
    macro_rules! go { ($name:literal, $t:ty, $ptrs:expr, $pc:expr, $counts:expr, $get:expr) => {
        for &count in $counts { for e in [Endian::Big, Endian::Little, Endian::Native] { for off in [0u64, 3] { for at in [0u64, 1] {
            let ptrs: &[u16] = $ptrs;
            for fail in (0..3 * ptrs.len()).chain([usize::MAX]) {
                if fail_.is_some() { break }
                n += 1;
                let pc: Option<usize> = if $pc { count } else { None };
                let r = catch_unwind(|| run_ptr::<$t>(ptrs, pc, count, e, off, at, fail, $get)).unwrap_or_else(|_| Err(format!("panic: {}", crate::explore::LAST_PANIC.with(|l| l.borrow().clone()))));
                if let Err(m) = r { fail_ = Some(format!("{} with pointers {:x?}, count {:?}, {:?}, offset {}, reader at {}{}: {}", $name, ptrs, count, e, off, at, if fail < 99 { format!(", call {} fails", fail) } else { String::new() }, m)) }
            }
        } } } }
    } }
    for &a in &raws {
        go!("FilePtr", FP, &[a], true, &[None, Some(0), Some(1), Some(2)], |x| vec![x]);
        go!("Option<FilePtr>", Option<FP>, &[a], true, &[None, Some(1)], |x| vec![x.as_ref().unwrap()]);
        go!("Box<FilePtr>", Box<FP>, &[a], true, &[None, Some(1)], |x| vec![&**x]);
        go!("Vec<FilePtr>", Vec<FP>, &[a], false, &[Some(1)], |x| x.iter().collect());
        for &b in &raws {
            go!("[FilePtr; 2]", [FP2; 2], &[a, b], true, &[None, Some(2)], |x| x.iter().map(|x| &x.0).collect());
            go!("Vec<FilePtr>", Vec<FP>, &[a, b], false, &[Some(2)], |x| x.iter().collect());
        }
    }
    rep.stats.execs += n;
    rep.parts.push(format!("pointers of a user's type (from the start, the end, forwards, backwards) in containers: {} reads, every failing call", n));
    if let Some(f) = fail_ { let id = rep.id; rep.violation("userptr", "userptr", &format!("property {}: {}", id, f)) }
}
/// arrays need a default without const_generics
pub struct FP2(pub FP);
impl Default for FP2 { fn default() -> Self { FP2(FilePtr { ptr: UPtr { raw: 0, k: 0 }, value: None }) } }
impl BinRead for FP2 {
    type Args = (i64,);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: (i64,)) -> BinResult<Self> { Ok(FP2(FP::read_options(r, o, a)?)) }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: (i64,)) -> BinResult<()> { self.0.after_parse(r, o, a) }
}

// ---------------------------------------------------------------- helpers

/// how a list is read
#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Count, Until, UntilEx, UntilEof, Sep, Trail }
thread_local! { static CONDS: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) } }

/// the k-th element read, as said by the calls seen before
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct H { k: usize, done: usize }
impl BinRead for H {
    type Args = (i64,);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: (i64,)) -> BinResult<Self> { let k = see(1, r, o, a.0)?; let mut b = [0u8]; r.read_exact(&mut b)?; Ok(H { k, done: 0 }) }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: (i64,)) -> BinResult<()> { see(2, r, o, a.0)?; self.done += 1; Ok(()) }
}
/// a separator of two bytes
#[derive(Clone, Debug, PartialEq)]
pub struct Sp { k: usize, done: usize }
impl BinRead for Sp {
    type Args = ();
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<Self> { let k = see(6, r, o, 0)?; let mut b = [0u8; 2]; r.read_exact(&mut b)?; Ok(Sp { k, done: 0 }) }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, _: ()) -> BinResult<()> { see(7, r, o, 0)?; self.done += 1; Ok(()) }
}
type PunctHS = binread::punctuated::Punctuated<H, Sp>;

fn list<Ret: std::iter::FromIterator<H> + IntoIterator<Item = H>>(how: How, n: usize, e: Endian, count: Option<usize>, off: u64, at: u64, fail: usize, short: bool) -> Result<(), String> {
    use binread::helpers as hp;
    SEEN.with(|s| s.borrow_mut().clear());
    CONDS.with(|s| s.borrow_mut().clear());
    FAIL.with(|f| f.set(fail));
    let be = is_be(e);
    let seps = match how { How::Sep => n.saturating_sub(1), How::Trail => n, _ => 0 };
    let total = at as usize + n + 2 * seps;
    // UntilEof takes everything there is; the others leave what is behind
    let len = if how == How::UntilEof { total } else if short { total - 1 } else { total + 3 };
    let mut c = Cursor::new(vec![9u8; len]);
    c.set_position(at);
    let mut o = ReadOptions::default();
    o.endian = e;
    o.offset = off;
    o.count = if matches!(how, How::Sep | How::Trail) { Some(n) } else { count };
    // the calls of the elements, in order
    let mut want: Vec<Seen> = vec![];
    let mut p = at;
    for k in 0..n {
        want.push((1, p, be, o.count, off, 5));
        p += 1;
        if p as usize > len { break }
        want.push((2, p, be, o.count, off, 5));
        if k < seps {
            want.push((6, p, be, o.count, off, 0));
            p += 2;
            if p as usize > len { break }
            want.push((7, p, be, o.count, off, 0));
        }
    }
    if how == How::UntilEof { want.push((1, p, be, o.count, off, 5)) }
    let failing = fail < want.len();
    if failing { want.truncate(fail + 1) }
    let cond = |h: &H| { CONDS.with(|c| { let mut c = c.borrow_mut(); c.push(h.k); c.len() == n }) };
    let r: BinResult<(Vec<H>, Vec<Sp>)> = match how {
        How::Count => hp::count::<_, H, _, Ret>(n)(&mut c, &o, (5,)).map(|x| (x.into_iter().collect(), vec![])),
        How::Until => hp::until::<_, H, _, _, Ret>(cond)(&mut c, &o, (5,)).map(|x| (x.into_iter().collect(), vec![])),
        How::UntilEx => hp::until_exclusive::<_, H, _, _, Ret>(cond)(&mut c, &o, (5,)).map(|x| (x.into_iter().collect(), vec![])),
        How::UntilEof => hp::until_eof::<_, H, _, Ret>(&mut c, &o, (5,)).map(|x| (x.into_iter().collect(), vec![])),
        How::Sep => PunctHS::separated(&mut c, &o, (5,)).map(|x| (x.to_vec(), x.seperators)),
        How::Trail => PunctHS::separated_trailing(&mut c, &o, (5,)).map(|x| (x.to_vec(), x.seperators)),
    };
    let seen = SEEN.with(|s| s.borrow().clone());
    if seen != want { return Err(format!("its elements were called as {:?} instead of {:?}", seen, want)) }
    let short = short && how != How::UntilEof;
    let ids = |ev: u8| -> Vec<usize> { seen.iter().enumerate().filter(|x| (x.1).0 == ev).map(|x| x.0).collect() };
    match r {
        Err(Error::Custom { err, .. }) if failing && err.downcast_ref::<PErr>() == Some(&PErr(fail as i64)) => Ok(()),
        Err(Error::Io(e)) if !failing && short && e.kind() == binread::io::ErrorKind::UnexpectedEof => Ok(()),
        Ok((hs, sps)) if !failing && !short => {
            let mut wk = ids(1);
            if how == How::UntilEof { wk.pop(); }
            let asked = CONDS.with(|c| c.borrow().clone());
            if matches!(how, How::Until | How::UntilEx) && asked != wk { return Err(format!("the condition was asked about {:?} instead of {:?}", asked, wk)) }
            if how == How::UntilEx { wk.pop(); }
            let w: Vec<H> = wk.into_iter().map(|k| H { k, done: 1 }).collect();
            if hs != w { return Err(format!("{:?} instead of {:?}", hs, w)) }
            let w: Vec<Sp> = ids(6).into_iter().map(|k| Sp { k, done: 1 }).collect();
            if sps != w { return Err(format!("separators {:?} instead of {:?}", sps, w)) }
            if c.position() != p { return Err(format!("reader at {} instead of {}", c.position(), p)) }
            Ok(())
        }
        r => Err(format!("{:?}", r.map(|x| x.0))),
    }
}
pub fn helpers(rep: &mut Report) {
    let mut n = 0u64;
    let mut bad: Option<String> = None;
    for how in [How::Count, How::Until, How::UntilEx, How::UntilEof, How::Sep, How::Trail] {
        for k in [0usize, 1, 2, 3, 5, 33] {
            if k == 0 && matches!(how, How::Until | How::UntilEx) { continue }
            let calls = match how { How::Sep => 4 * k - 2 * usize::from(k > 0), How::Trail => 4 * k, How::UntilEof => 2 * k + 1, _ => 2 * k };
            let fails: Vec<usize> = (0..calls).filter(|f| k < 6 || f % 13 == 0 || f + 3 > calls).chain([usize::MAX]).collect();
            for e in [Endian::Big, Endian::Little, Endian::Native] { for count in [None, Some(2)] { for off in [0u64, 6] { for at in [0u64, 3] { for &fail in &fails { for short in [false, true] {
                if short && (k == 0 || fail < usize::MAX || how == How::UntilEof) || bad.is_some() { continue }
                let mut go = |w: &str, f: &dyn Fn() -> Result<(), String>| {
                    n += 1;
                    let r = catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| Err(format!("panic: {}", crate::explore::LAST_PANIC.with(|l| l.borrow().clone()))));
                    if let Err(m) = r { bad = Some(format!("{:?} of {} elements into {}, count {:?}, {:?}, offset {}, reader at {}{}{}: {}", how, k, w, count, e, off, at, if fail < 9999 { format!(", call {} of the elements fails", fail) } else { String::new() }, if short { ", one byte missing" } else { "" }, m)) }
                };
                go("a Vec", &|| list::<Vec<H>>(how, k, e, count, off, at, fail, short));
                if fail == usize::MAX && !matches!(how, How::Sep | How::Trail) {
                    go("a VecDeque", &|| list::<std::collections::VecDeque<H>>(how, k, e, count, off, at, fail, short));
                    go("a LinkedList", &|| list::<std::collections::LinkedList<H>>(how, k, e, count, off, at, fail, short));
                    go("a BTreeSet", &|| list::<std::collections::BTreeSet<H>>(how, k, e, count, off, at, fail, short));
                }
            } } } } } }
        }
    }
    // into text and into a map
    let mut text = |r: BinResult<String>, w: Result<&str, ()>, what: &str| { n += 1; match (r, w) { (Ok(a), Ok(b)) if a == b => {} (Err(Error::Io(_)), Err(())) => {} (r, w) => if bad.is_none() { bad = Some(format!("{}: {:?} instead of {:?}", what, r, w)) } } };
    let o = ReadOptions::default();
    for k in 0..=4usize {
        let c = || Cursor::new(&b"ab\0d"[..]);
        text(binread::helpers::count::<_, char, _, String>(k)(&mut c(), &o, ()), Ok(&"ab\0d"[..k]), "count of char into a String");
    }
    text(binread::helpers::count::<_, char, _, String>(5)(&mut Cursor::new(&b"ab\0d"[..]), &o, ()), Err(()), "count of char into a String");
    text(binread::helpers::until_eof::<_, char, _, String>(&mut Cursor::new(&b"ab\0d"[..]), &o, ()), Ok("ab\0d"), "until_eof of char into a String");
    text(binread::helpers::until_exclusive::<_, char, _, _, String>(|c: &char| *c == '\0')(&mut Cursor::new(&b"ab\0d"[..]), &o, ()), Ok("ab"), "until_exclusive of char into a String");
    text(binread::helpers::until::<_, char, _, _, String>(|c: &char| *c == '\0')(&mut Cursor::new(&b"ab\0d"[..]), &o, ()), Ok("ab\0"), "until of char into a String");
    text(binread::helpers::count::<_, (u8, u8), _, std::collections::BTreeMap<u8, u8>>(2)(&mut Cursor::new(&[3u8, 4, 1, 2]), &o, ()).map(|m| format!("{:?}", m)), Ok("{1: 2, 3: 4}"), "count of pairs into a map");
    rep.stats.execs += n;
    rep.parts.push(format!("helpers over observing elements: {} lists, every failing call", n));
    if let Some(f) = bad { let id = rep.id; rep.violation("helpers", "helpers", &format!("property {}: {}", id, f)) }
}
