//! Long data: byte runs, counted and terminated lists and strings of every length around each power
//! of two, delivered in every way of a grid (C04), and failing or ending at every boundary (C05).
use crate::report::Report;
use binread::io::{Error as IoError, ErrorKind, Read, Result as IoResult, Seek, SeekFrom};
use binread::punctuated::Punctuated;
use binread::{helpers, BinRead, BinResult, Endian, Error, NullString, NullWideString, ReadOptions};
use std::panic::catch_unwind;

/// how the data comes
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// at most so many bytes at once
    Chunk(usize),
    /// in pieces of 1, 7, 4096, 3, 0x101, ... bytes
    Mixed,
    /// pieces end at multiples of that many bytes
    Block(usize),
}
struct Rd<'a> { d: &'a [u8], p: u64, mode: Mode, every: usize, calls: usize, bad: Option<(u64, ErrorKind)> }
impl Read for Rd<'_> {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0) }
        if self.every > 0 && self.calls % self.every == 0 { return Err(IoError::new(ErrorKind::Interrupted, "again")) }
        let left = &self.d[(self.p as usize).min(self.d.len())..];
        let mut n = left.len().min(b.len()).min(match self.mode {
            Mode::Chunk(k) => k,
            Mode::Mixed => [1, 7, 4096, 3, 0x101, 2, 63, 1000][self.calls % 8],
            Mode::Block(k) => k - self.p as usize % k,
        });
        if let Some((at, k)) = self.bad {
            if self.p >= at { return Err(IoError::new(k, "bad")) }
            n = n.min((at - self.p) as usize);
        }
        b[..n].copy_from_slice(&left[..n]);
        self.p += n as u64;
        Ok(n)
    }
}
impl Seek for Rd<'_> {
    fn seek(&mut self, s: SeekFrom) -> IoResult<u64> {
        let x = match s { SeekFrom::Start(x) => x as i128, SeekFrom::Current(x) => self.p as i128 + x as i128, SeekFrom::End(x) => self.d.len() as i128 + x as i128 };
        if x < 0 { return Err(IoError::new(ErrorKind::InvalidInput, "before")) }
        self.p = x as u64;
        Ok(self.p)
    }
}

#[derive(BinRead)]
#[br(big)]
struct Whole { n: u32, #[br(count = n)] x: Vec<u8>, z: u16 }
#[derive(BinRead)]
#[br(big)]
struct Nested { n: u32, #[br(parse_with = helpers::count(n as usize))] x: Vec<Pair>, #[br(parse_with = helpers::read_bytes, count = n)] y: Vec<u8>, z: u8 }
#[derive(BinRead, Clone, Copy)]
struct Pair { a: u8, b: u16 }
#[derive(BinRead)]
enum Either { #[br(magic = 0xffu8)] _A(u8), B(#[br(map = |x: NullString| x.into())] Vec<u8>, u8) }

/// a way of reading n units; the data for it and what comes out, as bytes
struct Shape { name: &'static str, data: fn(usize) -> Vec<u8>, read: fn(&mut Rd<'_>, usize) -> BinResult<Vec<u8>>, want: fn(&[u8], usize) -> Vec<u8>, eof: bool, derived: bool }
fn fill(n: usize) -> Vec<u8> { (0..n).map(|k| (k % 251) as u8 + 1).collect() }
fn with(mut v: Vec<u8>, e: &[u8]) -> Vec<u8> { v.extend(e); v }
fn o(count: Option<usize>) -> ReadOptions { let mut o = ReadOptions::default(); o.endian = Endian::Big; o.count = count; o }
fn id(d: &[u8], _: usize) -> Vec<u8> { d.to_vec() }
fn wides(v: impl IntoIterator<Item = u16>) -> Vec<u8> { v.into_iter().flat_map(|x| x.to_be_bytes()).collect() }
fn shapes() -> Vec<Shape> {
    fn head(n: usize, body: usize, end: usize) -> Vec<u8> { with((n as u32).to_be_bytes().to_vec(), &fill(body + end)) }
    vec![
        Shape { name: "Vec<u8>", data: fill, read: |r, n| Vec::<u8>::read_options(r, &o(Some(n)), ()), want: id, eof: false, derived: false },
        Shape { name: "Vec<i8>", data: fill, read: |r, n| Ok(Vec::<i8>::read_options(r, &o(Some(n)), ())?.into_iter().map(|x| x as u8).collect()), want: id, eof: false, derived: false },
        Shape { name: "Vec<u16>", data: |n| fill(2 * n), read: |r, n| Ok(wides(Vec::<u16>::read_options(r, &o(Some(n)), ())?)), want: id, eof: false, derived: false },
        Shape { name: "Vec<[u8; 3]>", data: |n| fill(3 * n), read: |r, n| Ok(Vec::<[u8; 3]>::read_options(r, &o(Some(n)), ())?.concat()), want: id, eof: false, derived: false },
        Shape { name: "read_bytes", data: fill, read: |r, n| helpers::read_bytes(r, &o(Some(n)), ()), want: id, eof: false, derived: false },
        Shape { name: "count of u8", data: fill, read: |r, n| helpers::count(n)(r, &o(None), ()), want: id, eof: false, derived: false },
        Shape { name: "count of u16", data: |n| fill(2 * n), read: |r, n| { let f = helpers::count(n); let v: std::collections::VecDeque<u16> = f(r, &o(None), ())?; Ok(wides(v)) }, want: id, eof: false, derived: false },
        Shape { name: "until_eof of u8", data: fill, read: |r, _| helpers::until_eof(r, &o(None), ()), want: id, eof: true, derived: false },
        Shape { name: "until_eof of u16", data: |n| fill(2 * n), read: |r, _| { let v: Vec<u16> = helpers::until_eof(r, &o(None), ())?; Ok(wides(v)) }, want: id, eof: true, derived: false },
        Shape { name: "until", data: |n| with(fill(n), &[0]), read: |r, _| helpers::until(|x: &u8| *x == 0)(r, &o(None), ()), want: id, eof: false, derived: false },
        Shape { name: "until_exclusive", data: |n| with(fill(n), &[0]), read: |r, _| helpers::until_exclusive(|x: &u8| *x == 0)(r, &o(None), ()), want: |d, n| d[..n].to_vec(), eof: false, derived: false },
        Shape { name: "NullString", data: |n| with(fill(n), &[0]), read: |r, _| Ok(NullString::read_options(r, &o(None), ())?.into()), want: |d, n| d[..n].to_vec(), eof: false, derived: false },
        Shape { name: "NullWideString", data: |n| with(fill(2 * n), &[0, 0]), read: |r, _| { let v: Vec<u16> = NullWideString::read_options(r, &o(None), ())?.into(); Ok(wides(v)) }, want: |d, n| d[..2 * n].to_vec(), eof: false, derived: false },
        Shape { name: "Punctuated::separated_trailing", data: |n| fill(2 * n), read: |r, n| { let p: Punctuated<u8, u8> = Punctuated::separated_trailing(r, &o(Some(n)), ())?; Ok((0..n).flat_map(|k| [p[k], p.seperators[k]]).collect()) }, want: id, eof: false, derived: false },
        Shape { name: "a derived type with a counted field", data: |n| head(n, n, 2), read: |r, _| { let w: Whole = BinRead::read_options(r, &o(None), ())?; Ok(with(with(w.n.to_be_bytes().to_vec(), &w.x), &w.z.to_be_bytes())) }, want: id, eof: false, derived: true },
        Shape { name: "a derived type with helpers", data: |n| head(n, 4 * n, 1), read: |r, _| { let w: Nested = BinRead::read_options(r, &o(None), ())?; let mut v = (w.x.len() as u32).to_be_bytes().to_vec(); for p in &w.x { v.push(p.a); v.extend(p.b.to_be_bytes()) } v.extend(&w.y); v.push(w.z); Ok(v) }, want: id, eof: false, derived: true },
        Shape { name: "an enum around a string", data: |n| with(fill(n), &[0, 9]), read: |r, _| match BinRead::read_options(r, &o(None), ())? { Either::B(x, y) => Ok(with(with(x, &[0]), &[y])), _ => Ok(vec![]) }, want: id, eof: false, derived: true },
    ]
}
fn sizes(top: u32) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 100, 1000, 3000, 5000];
    for k in 2..=top { let n = 1usize << k; v.extend([n - 1, n, n + 1]) }
    v.sort(); v.dedup();
    v
}
/// does an io error of that kind sit in there
fn has(e: &Error, k: ErrorKind) -> bool {
    match e { Error::Io(e) => e.kind() == k, Error::EnumErrors { variant_errors, .. } => variant_errors.iter().any(|(_, e)| has(e, k)), _ => false }
}
enum Want { Value, Io(ErrorKind) }
fn one(s: &Shape, d: &[u8], n: usize, at: u64, mode: Mode, every: usize, bad: Option<(u64, ErrorKind)>, len: usize, want: Want) -> Result<(), String> {
    let need = len_of(s, n);
    let mut r = Rd { d: &d[..len], p: at, mode, every, calls: 0, bad };
    let got = (s.read)(&mut r, n);
    match (want, got) {
        (Want::Value, Ok(v)) => {
            let w = (s.want)(&d[at as usize..at as usize + need], n);
            if v != w { let k = v.iter().zip(&w).take_while(|(a, b)| a == b).count(); return Err(format!("{} bytes read, {} expected; they differ from byte {} on", v.len(), w.len(), k)) }
            if r.p != at + need as u64 { return Err(format!("reader at {} instead of {}", r.p, at + need as u64)) }
            Ok(())
        }
        (Want::Io(k), Err(e)) if has(&e, k) => if s.derived && r.p != at { Err(format!("reader left at {} after the error", r.p)) } else { Ok(()) },
        (Want::Value, Err(e)) => Err(format!("{:?}", e)),
        (Want::Io(k), Ok(v)) => Err(format!("{} bytes read although the reader fails ({:?})", v.len(), k)),
        (Want::Io(k), Err(e)) => Err(format!("{:?} instead of an error of kind {:?}", e, k)),
    }
}
fn len_of(s: &Shape, n: usize) -> usize { (s.data)(n).len() }
fn run(rep: &mut Report, what: &str, f: &mut dyn FnMut(&mut dyn FnMut(&Shape, usize, u64, Mode, usize, Option<(u64, ErrorKind)>, Option<usize>, Want))) {
    let mut n = 0u64;
    let mut fail = None;
    let mut cache: Option<(*const Shape, usize, u64, Vec<u8>)> = None;
    f(&mut |s, k, at, mode, every, bad, cut, want| {
        if fail.is_some() { return }
        n += 1;
        if !matches!(&cache, Some((a, b, c, _)) if *a == s as *const _ && *b == k && *c == at) {
            let mut d = vec![0x99u8; at as usize];
            d.extend((s.data)(k));
            if !s.eof { d.extend([0x77; 5]) }
            cache = Some((s, k, at, d));
        }
        let d = &cache.as_ref().unwrap().3;
        let len = cut.map_or(d.len(), |c| at as usize + c);
        let r = catch_unwind(std::panic::AssertUnwindSafe(|| one(s, d, k, at, mode, every, bad, len, want))).unwrap_or_else(|_| Err(format!("panic: {}", crate::explore::LAST_PANIC.with(|l| l.borrow().clone()))));
        if let Err(e) = r {
            fail = Some(format!("{} of length {}, from position {}, data comes as {:?}{}{}{}: {}", s.name, k, at, mode,
                if every > 0 { format!(", every {}th call interrupted", every) } else { String::new() },
                bad.map_or(String::new(), |(p, k)| format!(", byte {} cannot be read ({:?})", p, k)),
                cut.map_or(String::new(), |c| format!(", data ends after {} bytes", c)), e));
        }
    });
    rep.stats.execs += n;
    rep.parts.push(format!("long data: {} reads, {}", n, what));
    if let Some(e) = fail { let id = rep.id; rep.violation("large", "large", &format!("property {}: {}", id, e)) }
}
pub fn chunked(rep: &mut Report) { chunked_to(rep, if crate::report::thorough() { 17 } else { 13 }) }
pub fn chunked_to(rep: &mut Report, top: u32) {
    run(rep, "lengths around every power of two, every way of delivery", &mut |go| {
        for s in &shapes() {
            for n in sizes(top) {
                let mut modes = vec![Mode::Mixed];
                for k in 0..=14 { let k = 1usize << k; modes.extend([Mode::Chunk(k), Mode::Chunk(k + 1), Mode::Block(k)]); if k > 4 { modes.push(Mode::Chunk(k - 1)) } }
                for m in modes {
                    if matches!(m, Mode::Chunk(k) | Mode::Block(k) if k > 4 * n + 64) { continue }
                    for every in [0, 2, 5] { for at in [0, 5] {
                        if every == 5 && at == 0 { continue }
                        go(s, n, at, m, every, None, None, Want::Value)
                    } }
                }
            }
        }
    });
}
pub fn failing(rep: &mut Report) { failing_to(rep, if crate::report::thorough() { 16 } else { 13 }) }
pub fn failing_to(rep: &mut Report, top: u32) {
    use ErrorKind::*;
    let kinds = [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Other, UnexpectedEof];
    run(rep, "every kind of failure, at every boundary; truncated at every boundary", &mut |go| {
        for s in &shapes() {
            for n in sizes(top) {
                let need = len_of(s, n);
                let mut pts: Vec<usize> = sizes(top + 2).into_iter().filter(|p| *p < need).chain([need / 2, need.saturating_sub(1), need.saturating_sub(2)]).filter(|p| *p < need).collect();
                pts.sort(); pts.dedup();
                for at in [0u64, 3] { for m in [Mode::Chunk(usize::MAX), Mode::Chunk(5), Mode::Mixed] {
                    for &p in &pts {
                        let ks: &[ErrorKind] = if n <= 8 || p + 1 == need { &kinds } else { &[WouldBlock, TimedOut, Other] };
                        for &k in ks {
                            if s.eof && k == UnexpectedEof { continue }
                            go(s, n, at, m, 0, Some((at + p as u64, k)), None, Want::Io(k))
                        }
                        // (a byte string may end where the data does)
                        if !s.eof && s.name != "NullString" { go(s, n, at, m, 0, None, Some(p), Want::Io(UnexpectedEof)) }
                    }
                    // what is not needed may be unreadable; where the data ends is looked for
                    for k in [WouldBlock, Other] { go(s, n, at, m, 0, Some((at + need as u64, k)), None, if s.eof { Want::Io(k) } else { Want::Value }) }
                } }
            }
        }
    });
}

/// magics longer than arrays can be without const generics: right, wrong in every byte, cut everywhere
#[cfg(feature = "cg")]
pub fn magics(rep: &mut Report) {
    use std::any::Any;
    let mut n = 0u64;
    let mut fail: Option<String> = None;
    {
        #[derive(BinRead)]
        #[br(magic = b"0123456789abcdefABCDEFGHIJKLMNOPqrstuvwxyzQRSTUVWXYZ!?0123456789abcdefABCDEFGHIJKLMNOPqrstuvwxyzQRSTUVWXYZ!?0123456789abcdefABCDEFGHIJKLMNOPqrstuvwxyzQRSTUVWXYZ!?")]
        struct S(#[br(magic = b"0123456789abcdefghijklmnopqrstuvwxyz")] u8);
        let good: Vec<u8> = [&b"0123456789abcdefABCDEFGHIJKLMNOPqrstuvwxyzQRSTUVWXYZ!?".repeat(3)[..], b"0123456789abcdefghijklmnopqrstuvwxyz", &[7]].concat();
        let a = good.len() - 37;
        for at in [0usize, 3] { for k in 0..=good.len() { for wrong in [0u8, 1, 0x80, 0xff] {
            n += 1;
            // wrong = 0: the data ends after k bytes
            let mut d = vec![0xee; at];
            d.extend(&good);
            if wrong == 0 { d.truncate(at + k) } else if k < good.len() { d[at + k] ^= wrong }
            let mut c = binread::io::Cursor::new(&d[..]);
            c.set_position(at as u64);
            let r = S::read(&mut c);
            let bad = |pos: usize, len: usize, f: &dyn Any| -> bool { let w = &d[pos..pos + len]; if len == 36 { f.downcast_ref::<[u8; 36]>().map_or(false, |x| x[..] == *w) } else { f.downcast_ref::<[u8; 162]>().map_or(false, |x| x[..] == *w) } };
            let ok = match &r {
                Ok(S(x)) => k == good.len() || (wrong != 0 && k == good.len() - 1 && *x == 7 ^ wrong),
                Err(Error::Io(e)) => wrong == 0 && k < good.len() && e.kind() == ErrorKind::UnexpectedEof,
                Err(Error::BadMagic { pos, found }) => wrong != 0 && if k < a { *pos == at as u64 && bad(at, a, &**found) } else { k < a + 36 && *pos == (at + a) as u64 && bad(at + a, 36, &**found) },
                _ => false,
            };
            let ok = ok && (r.is_ok() || c.position() == at as u64);
            if !ok && fail.is_none() { fail = Some(format!("magics of {} and 36 bytes at {}, {}: {:?}, reader at {}", a, at, if wrong == 0 { format!("data ends after {} bytes", k) } else { format!("byte {} off by {:#x}", k, wrong) }, r.map(|x| x.0), c.position())) }
        } } }
    }
    rep.stats.execs += n;
    rep.parts.push(format!("magics of 162 and 36 bytes: {} reads", n));
    if let Some(e) = fail { let id = rep.id; rep.violation("long-magic", "long-magic", &format!("property {}: {}", id, e)) }
}

#[derive(BinRead, Clone, Copy, Debug, PartialEq)]
#[br(assert(v != 0xee, "bad element"))]
struct El { v: u8 }
/// long lists one of whose elements is refused, or whose data ends: every length around each power of two, every place around one
pub fn elements(rep: &mut Report) { elements_to(rep, if crate::report::thorough() { 13 } else { 11 }) }
pub fn elements_to(rep: &mut Report, top: u32) {
    type Rdr<'a> = binread::io::Cursor<&'a [u8]>;
    // (name, bytes per element, bytes after the last one, does a terminator end it, does the end of the data end it, reading)
    let ways: Vec<(&str, usize, usize, bool, bool, Box<dyn Fn(&mut Rdr<'_>, usize) -> BinResult<Vec<u8>>>)> = vec![
        ("Vec", 1, 0, false, false, Box::new(|r, n| Ok(Vec::<El>::read_options(r, &o(Some(n)), ())?.iter().map(|e| e.v).collect()))),
        ("Vec of pairs", 2, 0, false, false, Box::new(|r, n| Ok(Vec::<(El, u8)>::read_options(r, &o(Some(n)), ())?.iter().map(|e| e.0.v).collect()))),
        ("count", 1, 0, false, false, Box::new(|r, n| { let v: Vec<El> = helpers::count(n)(r, &o(None), ())?; Ok(v.iter().map(|e| e.v).collect()) })),
        ("until", 1, 1, true, false, Box::new(|r, _| { let mut v: Vec<El> = helpers::until(|x: &El| x.v == 0)(r, &o(None), ())?; match v.pop() { Some(El { v: 0 }) => {} x => panic!("ends with {:?}", x) } Ok(v.iter().map(|e| e.v).collect()) })),
        ("until_exclusive", 1, 1, true, false, Box::new(|r, _| { let v: Vec<El> = helpers::until_exclusive(|x: &El| x.v == 0)(r, &o(None), ())?; Ok(v.iter().map(|e| e.v).collect()) })),
        ("until_eof", 1, 0, false, true, Box::new(|r, _| { let v: Vec<El> = helpers::until_eof(r, &o(None), ())?; Ok(v.iter().map(|e| e.v).collect()) })),
        ("Punctuated::separated", 2, 0, false, false, Box::new(|r, n| { let p: Punctuated<El, u8> = Punctuated::separated(r, &o(Some(n)), ())?; if p.seperators.len() != n.saturating_sub(1) { panic!("{} separators", p.seperators.len()) } Ok(p.iter().map(|e| e.v).collect()) })),
        ("Punctuated::separated_trailing", 2, 0, false, false, Box::new(|r, n| { let p: Punctuated<El, u8> = Punctuated::separated_trailing(r, &o(Some(n)), ())?; if p.seperators.len() != n { panic!("{} separators", p.seperators.len()) } Ok(p.iter().map(|e| e.v).collect()) })),
        ("Punctuated, the separator refused", 2, 0, false, false, Box::new(|r, n| { let p: Punctuated<u8, El> = Punctuated::separated_trailing(r, &o(Some(n)), ())?; Ok(p.iter().copied().collect()) })),
    ];
    let (mut count, mut fail) = (0u64, None);
    for (name, w, after, term, eof, read) in &ways {
        let sep = name.contains("refused");
        for n in sizes(top) {
            // what there is: n elements (and their separators), the terminator, something else
            let mut good = vec![0x11u8; 2];
            for k in 0..n { good.push((k % 200) as u8 + 1); if *w == 2 { good.push(0xaa) } }
            if *name == "Punctuated::separated" && n > 0 { good.pop(); }
            let need = good.len();
            if *term { good.push(0) }
            let need = need + after;
            if !eof { good.extend([0x77; 3]) }
            let mut places: Vec<usize> = sizes(top).into_iter().chain([n / 2, n.saturating_sub(1), n.saturating_sub(2)]).filter(|p| *p < n).collect();
            places.sort(); places.dedup();
            let mut go = |what: String, d: &[u8], want: Result<(), Option<u64>>| {
                count += 1;
                if fail.is_some() { return }
                let mut c = binread::io::Cursor::new(d);
                c.set_position(2);
                let r = catch_unwind(std::panic::AssertUnwindSafe(|| read(&mut c, n)));
                let e = match (r, want) {
                    (Err(_), _) => format!("panic: {}", crate::explore::LAST_PANIC.with(|l| l.borrow().clone())),
                    (Ok(Ok(v)), Ok(())) => if v.len() == n && v.iter().enumerate().all(|(k, x)| *x == (k % 200) as u8 + 1) && c.position() as usize == need { return } else { format!("{} elements, reader at {}", v.len(), c.position()) },
                    (Ok(Err(Error::AssertFail { pos, message })), Err(Some(at))) if pos == at && message == "bad element" => return,
                    (Ok(Err(Error::Io(e))), Err(None)) if e.kind() == ErrorKind::UnexpectedEof => return,
                    (Ok(r), w) => format!("{:?} instead of {}", r.map(|v| format!("{} elements", v.len())), match w { Ok(()) => format!("{} elements", n), Err(None) => "the end of the data".into(), Err(Some(at)) => format!("the failed assertion of the element at {}", at) }),
                };
                fail = Some(format!("{} with {} elements, {}: {}", name, n, what, e));
            };
            go("all there".into(), &good, Ok(()));
            for &p in &places {
                let at = 2 + p * w + sep as usize;
                let mut d = good.clone();
                d[at] = 0xee;
                go(format!("element {} refused", p), &d, Err(Some(at as u64)));
                if !eof {
                    go(format!("data ends before element {}", p), &good[..2 + p * w], Err(None));
                    if *w == 2 && !(*name == "Punctuated::separated" && p + 1 == n) { go(format!("data ends within element {}", p), &good[..2 + p * w + 1], Err(None)) }
                }
            }
            if *term { go("the terminating element is missing".into(), &good[..need - 1], Err(None)) }
        }
    }
    rep.stats.execs += count;
    rep.parts.push(format!("long lists: {} reads, every length around each power of two up to 2^{}, an element refused or missing at every place around one", count, top));
    if let Some(e) = fail { let id = rep.id; rep.violation("long-lists", "long-lists", &format!("property {}: {}", id, e)) }
}
