//! C17: the no_std Cursor, read_exact and byte iteration in lockstep with those of std::io.
use binread::io as nio;
use mc::report::{thorough, Report};
use std::collections::{HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Read(usize),
    Exact(usize),
    /// through a `&mut` of the reader
    RefRead(usize),
    RefExact(usize),
    /// through a trait object
    DynExact(usize),
    /// next() of a byte iterator, n times
    Bytes(usize),
    /// a byte iterator that owns (a clone of) the reader, to its end or n bytes
    OwnedBytes(usize),
    Start(u64),
    End(i64),
    Cur(i64),
    RefCur(i64),
    Pos,
    Set(u64),
    Dup,
    /// the buffer changes under the cursor, through get_mut
    Mut(Change),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Change { Shorter, Longer, Poke, Empty }
/// buffers that can be changed
pub trait Buf: AsRef<[u8]> + Clone { fn change(&mut self, c: Change); }
impl Buf for &'static [u8] {
    fn change(&mut self, c: Change) {
        let n = self.len();
        *self = match c { Change::Shorter => &self[..n.saturating_sub(2)], Change::Longer => &DATA[..(n + 2).min(6)], Change::Poke => if n > 0 { &DATA2[..n] } else { self }, Change::Empty => &[] }
    }
}
impl Buf for Vec<u8> {
    fn change(&mut self, c: Change) {
        let n = self.len();
        match c { Change::Shorter => self.truncate(n.saturating_sub(2)), Change::Longer => if n < 6 { self.extend([0x51, 0x52]) }, Change::Poke => if let Some(x) = self.last_mut() { *x = 0x77 }, Change::Empty => self.clear() }
    }
}
use Op::*;

/// what an operation did: text that must agree, and whether the position afterwards is fixed by the documentation
struct Did { text: String, free_pos: bool }

macro_rules! dut {
    ($name:ident, $io:path) => {
        mod $name {
            use super::*;
            use $io as io;
            use io::{Read, Seek, SeekFrom, Cursor};
            fn res<T: std::fmt::Debug>(r: Result<T, io::Error>) -> String { match r { Ok(x) => format!("Ok({:?})", x), Err(e) => { let _ = format!("{:?}", e); format!("Err({:?})", e.kind()) } } }
            fn exact(r: Result<(), io::Error>, b: &[u8]) -> Did {
                match r { Ok(()) => Did { text: format!("Ok {:x?}", b), free_pos: false }, r => Did { text: res(r), free_pos: true } }
            }
            fn sure(text: String) -> Did { Did { text, free_pos: false } }
            pub fn step<T: Buf>(c: &mut Cursor<T>, op: Op) -> Did {
                let mut b = [0xeeu8; 8];
                match op {
                    Read(n) => { let r = io::Read::read(c, &mut b[..n]); sure(format!("{} {:x?}", res(r), b)) }
                    Exact(n) => { let r = io::Read::read_exact(c, &mut b[..n]); exact(r, &b) }
                    RefRead(n) => { let mut x = &mut *c; let r = io::Read::read(&mut x, &mut b[..n]); sure(format!("{} {:x?}", res(r), b)) }
                    RefExact(n) => { let mut x = &mut *c; let r = io::Read::read_exact(&mut x, &mut b[..n]); exact(r, &b) }
                    DynExact(n) => { let x: &mut dyn io::Read = c; let r = x.read_exact(&mut b[..n]); exact(r, &b) }
                    Bytes(n) => { let mut it = io::Read::by_ref(c).bytes(); let mut s = String::new(); for _ in 0..n { s += &it.next().map_or("None".into(), res) } sure(s) }
                    OwnedBytes(n) => { let mut it = c.clone().bytes(); let mut s = String::new(); for _ in 0..n { s += &it.next().map_or("None".into(), res) } sure(s) }
                    Start(x) => sure(res(c.seek(SeekFrom::Start(x)))),
                    End(x) => sure(res(c.seek(SeekFrom::End(x)))),
                    Cur(x) => sure(res(c.seek(SeekFrom::Current(x)))),
                    RefCur(x) => { let mut r = &mut *c; sure(res(io::Seek::seek(&mut r, SeekFrom::Current(x)))) }
                    Pos => sure(res(c.stream_position())),
                    Set(x) => { c.set_position(x); sure(String::new()) }
                    Mut(x) => { c.get_mut().change(x); sure(format!("{:x?}", c.get_ref().as_ref())) }
                    Dup => { let d = c.clone(); let old = std::mem::replace(c, d); let i = old.into_inner(); sure(format!("{:x?} {:x?}", i.as_ref(), c.get_ref().as_ref())) }
                }
            }
            struct Slow<'a>(Cursor<&'a [u8]>);
            impl<'a> io::Read for Slow<'a> { fn read(&mut self, b: &mut [u8]) -> Result<usize, io::Error> { let n = b.len().min(100); self.0.read(&mut b[..n]) } }
            /// what came of it, with a checksum of the bytes; the position; whether the position is free
            pub fn large(d: &[u8], at: u64, n: usize, way: u8) -> (String, u64, bool) {
                let sum = |b: &[u8]| b.iter().fold(7u64, |s, x| s.wrapping_mul(1_000_003).wrapping_add(*x as u64));
                let mut b = vec![0xeeu8; n];
                let mut c = Cursor::new(d);
                c.set_position(at);
                match way {
                    0 => { let r = c.read(&mut b); (format!("{} {}", res(r), sum(&b)), c.position(), false) }
                    1 => { let r = c.read_exact(&mut b); let ok = r.is_ok(); (format!("{} {}", res(r), if ok { sum(&b) } else { 0 }), c.position(), !ok) }
                    2 => { let mut o = Cursor::new(d.to_vec()); o.set_position(at); let r = { let mut x = &mut o; io::Read::read_exact(&mut x, &mut b) }; let ok = r.is_ok(); (format!("{} {}", res(r), if ok { sum(&b) } else { 0 }), o.position(), !ok) }
                    3 => { let mut s = Slow(c); let r = s.read_exact(&mut b); let ok = r.is_ok(); (format!("{} {}", res(r), if ok { sum(&b) } else { 0 }), s.0.position(), !ok) }
                    _ => { let (mut k, mut t) = (0usize, 7u64); let mut bad = String::new(); for x in io::Read::by_ref(&mut c).bytes().take(n) { match x { Ok(x) => { k += 1; t = t.wrapping_mul(1_000_003).wrapping_add(x as u64) } Err(e) => { bad = res::<()>(Err(e)); break } } } (format!("{} {} {}", k, t, bad), c.position(), false) }
                }
            }
            /// a reader that follows a script; the last answer repeats
            pub struct Scripted<'a> { pub script: &'a [Ans], pub calls: usize, pub next: u8, pub seeks: Vec<String> }
            impl<'a> io::Read for Scripted<'a> {
                fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
                    let a = self.script[self.calls.min(self.script.len() - 1)];
                    self.calls += 1;
                    if self.calls > 60 { return Err(io::Error::new(io::ErrorKind::TimedOut, "too many calls")) }
                    match a {
                        Ans::Give(n) => { let n = n.min(buf.len()); for x in &mut buf[..n] { self.next += 1; *x = self.next } Ok(n) }
                        Ans::Int => Err(io::Error::new(io::ErrorKind::Interrupted, "i")),
                        Ans::Fail => Err(io::Error::new(io::ErrorKind::BrokenPipe, "b")),
                        Ans::Eof => Err(io::Error::new(io::ErrorKind::UnexpectedEof, "e")),
                    }
                }
            }
            impl<'a> io::Seek for Scripted<'a> {
                fn seek(&mut self, p: SeekFrom) -> Result<u64, io::Error> {
                    self.seeks.push(format!("{:?}", p));
                    match self.script[0] { Ans::Give(n) => Ok(n as u64), Ans::Int => Err(io::Error::new(io::ErrorKind::Interrupted, "i")), _ => Err(io::Error::new(io::ErrorKind::BrokenPipe, "b")) }
                }
            }
            pub fn scripted(script: &[Ans], what: What) -> String {
                let mut r = Scripted { script, calls: 0, next: 0, seeks: vec![] };
                let mut b = [0xeeu8; 8];
                let t = match what {
                    What::Exact(n) => { let x = r.read_exact(&mut b[..n]); let t = res(x); if t.starts_with("Ok") { format!("{} {:x?}", t, b) } else { t } }
                    What::RefExact(n) => { let mut y = &mut r; let x = io::Read::read_exact(&mut y, &mut b[..n]); let t = res(x); if t.starts_with("Ok") { format!("{} {:x?}", t, b) } else { t } }
                    What::Bytes(n) => { let mut it = (&mut r).bytes(); let mut s = String::new(); for _ in 0..n { s += &it.next().map_or("None".into(), res); s.push(' ') } s }
                    What::Pos => { let t = res(r.stream_position()); format!("{} {:?}", t, r.seeks) }
                    What::RefPos => { let mut y = &mut r; let t = res(io::Seek::stream_position(&mut y)); format!("{} {:?}", t, r.seeks) }
                    What::TwoExact(n, m) => { let x = r.read_exact(&mut b[..n]); let t = res(x); if t.starts_with("Ok") { let y = res(r.read_exact(&mut b[n..n + m])); if y.starts_with("Ok") { format!("{} {} {:x?}", t, y, b) } else { format!("{} {}", t, y) } } else { t } }
                };
                format!("{} after {} calls", t, r.calls)
            }
        }
    };
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ans { Give(usize), Int, Fail, Eof }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What { Exact(usize), RefExact(usize), TwoExact(usize, usize), Bytes(usize), Pos, RefPos }
dut!(ours, nio);
dut!(stds, std::io);

static DATA: [u8; 6] = [0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6];
static DATA2: [u8; 6] = [0xb1, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6];

fn alphabet() -> Vec<Op> {
    let mut v = vec![Pos, Dup, Set(0), Set(1), Set(3), Set(9), Set(1 << 32), Set(i64::MAX as u64), Set(u64::MAX - 1), Set(u64::MAX)];
    for n in [0, 1, 2, 3, 5] { v.extend([Read(n), Exact(n)]) }
    v.extend([RefRead(2), RefExact(2), RefExact(5), DynExact(2), DynExact(5), Bytes(1), Bytes(3), OwnedBytes(7)]);
    v.extend([Start(0), Start(2), Start(5), Start(1 << 63), Start(u64::MAX)]);
    for x in [0, 1, -1, -2, -4, 3, -7, 1 << 32, -(1 << 32), i64::MAX, i64::MIN, i64::MIN + 1] { v.extend([End(x), Cur(x)]) }
    v.extend([RefCur(1), RefCur(-1), Mut(Change::Shorter), Mut(Change::Longer), Mut(Change::Poke), Mut(Change::Empty)]);
    v
}

struct Ctx { edges: u64, fails: Vec<String>, samples: Vec<String> }

fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    mc::explore::IN_IMPL.with(|x| x.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    mc::explore::IN_IMPL.with(|x| x.set(false));
    r.map_err(|_| ())
}
/// applies one operation to both readers; None when they disagreed
fn both<T: Buf>(a: &mut nio::Cursor<T>, b: &mut std::io::Cursor<T>, op: Op, hist: &dyn Fn() -> String, cx: &mut Ctx) -> bool {
    cx.edges += 1;
    let (old, len) = (a.position(), a.get_ref().as_ref().len() as u64);
    let y = stds::step(b, op);
    let x = match guarded(|| ours::step(a, op)) { Ok(x) => x, Err(_) => { cx.fails.push(format!("{} then {:?}: panicked: {}", hist(), op, mc::explore::LAST_PANIC.with(|l| l.borrow().clone()))); return false } };
    if x.text != y.text { cx.fails.push(format!("{} then {:?}: no_std gives {}, std gives {}", hist(), op, x.text, y.text)); return false }
    if y.free_pos {
        // how much a failed read_exact has consumed is not documented: anything from nothing to all there is
        let p = a.position();
        if !(p == old || (p >= old.min(len) && p <= len)) { cx.fails.push(format!("{} then {:?}: position {} after the failure", hist(), op, p)); return false }
        b.set_position(p);
    }
    if a.position() != b.position() || a.get_ref().as_ref() != b.get_ref().as_ref() { cx.fails.push(format!("{} then {:?}: no_std at {}, std at {}", hist(), op, a.position(), b.position())); return false }
    true
}

/// every sequence of at most `depth` operations, nothing merged
fn sequences<T: Buf>(a: &nio::Cursor<T>, b: &std::io::Cursor<T>, depth: usize, w: &mut Vec<Op>, al: &[Op], cx: &mut Ctx) {
    if depth == 0 || cx.fails.len() > 3 { return }
    for &op in al {
        let (mut x, mut y) = (a.clone(), b.clone());
        let h = || format!("buffer {:x?}: {:?}", b.get_ref().as_ref(), w);
        if !both(&mut x, &mut y, op, &h, cx) { continue }
        w.push(op);
        sequences(&x, &y, depth - 1, w, al, cx);
        w.pop();
    }
}
/// breadth first over distinct states (position, and whatever else the cursor shows of itself)
fn closure<T: Buf + std::fmt::Debug>(a: nio::Cursor<T>, b: std::io::Cursor<T>, cap: usize, al: &[Op], cx: &mut Ctx) -> (usize, bool) {
    let mut seen = HashSet::new();
    let mut q = VecDeque::new();
    seen.insert(format!("{:?}", a));
    q.push_back((a, b, vec![]));
    while let Some((a, b, w)) = q.pop_front() {
        for &op in al {
            let (mut x, mut y) = (a.clone(), b.clone());
            let h = || format!("buffer {:x?}: {:?}", b.get_ref().as_ref(), w);
            if !both(&mut x, &mut y, op, &h, cx) { if cx.fails.len() > 3 { return (seen.len(), false) } continue }
            if seen.insert(format!("{:?}", x)) {
                if seen.len() > cap { return (seen.len(), false) }
                let mut v = w.clone(); v.push(op);
                q.push_back((x, y, v));
            }
        }
    }
    (seen.len(), true)
}

fn main() {
    mc::explore::quiet_panics();
    let mut rep = Report::new("C17");
    let al = alphabet();
    let mut cx = Ctx { edges: 0, fails: vec![], samples: vec![] };
    let depth = if thorough() { 4 } else { 3 };
    let mut seqs = 0u64;
    // 1: all sequences
    let all: Vec<Ctx> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..5usize).map(|len| { let al = &al; sc.spawn(move || {
            let mut cx = Ctx { edges: 0, fails: vec![], samples: vec![] };
            sequences(&nio::Cursor::new(&DATA[..len]), &std::io::Cursor::new(&DATA[..len]), depth, &mut vec![], al, &mut cx);
            sequences(&nio::Cursor::new(DATA[..len].to_vec()), &std::io::Cursor::new(DATA[..len].to_vec()), depth - 1, &mut vec![], al, &mut cx);
            cx
        })}).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for c in all { seqs += c.edges; cx.fails.extend(c.fails) }
    rep.parts.push(format!("every sequence of up to {} of {} operations on buffers of 0 to 4 bytes: {} operations compared", depth, al.len(), seqs));
    // 2: distinct states, breadth first
    let mut states = 0;
    let cap = if thorough() { 60_000 } else { 6_000 };
    for len in 0..6usize {
        let (n, closed) = closure(nio::Cursor::new(&DATA[..len]), std::io::Cursor::new(&DATA[..len]), cap, &al, &mut cx);
        states += n;
        rep.parts.push(format!("buffer of {} bytes: {} distinct states {}", len, n, if closed { "(all reachable)" } else { "(breadth first, to the cap)" }));
    }
    // 2b: the small closed space: no extreme or growing seeks
    let small: Vec<Op> = al.iter().copied().filter(|o| match o { Start(x) | Set(x) => *x < 10, End(x) => x.unsigned_abs() < 10, Cur(x) | RefCur(x) => *x <= 0 && *x > -10, _ => true }).collect();
    for len in 0..6usize {
        let (n, closed) = closure(nio::Cursor::new(&DATA[..len]), std::io::Cursor::new(&DATA[..len]), cap, &small, &mut cx);
        states += n;
        rep.parts.push(format!("buffer of {} bytes, {} operations that stay near it: {} distinct states {}", len, small.len(), n, if closed { "(all reachable)" } else { "(cap)" }));
    }
    // 3: the provided methods over every scripted reader
    let mut scripts = 0u64;
    let letters = [Ans::Give(0), Ans::Give(1), Ans::Give(2), Ans::Give(9), Ans::Int, Ans::Fail, Ans::Eof];
    let mut whats = vec![What::Pos, What::RefPos, What::Bytes(1), What::Bytes(4), What::TwoExact(2, 2), What::TwoExact(0, 3)];
    for n in 0..6 { whats.extend([What::Exact(n), What::RefExact(n)]) }
    mc::report::words(&letters, if thorough() { 6 } else { 5 }, &mut |w| {
        if w.is_empty() { return }
        // a reader that is always interrupted is retried for ever by both
        for &what in &whats {
            scripts += 1;
            let want = stds::scripted(w, what);
            let got = guarded(|| ours::scripted(w, what));
            match got {
                Ok(g) if g == want => {}
                Ok(g) => cx.fails.push(format!("reader answering {:?}, {:?}: no_std gives {}, std gives {}", w, what, g, want)),
                Err(_) => cx.fails.push(format!("reader answering {:?}, {:?}: panicked", w, what)),
            }
        }
    });
    rep.parts.push(format!("read_exact, bytes and stream_position over every scripted reader: {} runs", scripts));
    // 4: every error kind comes back unchanged
    use nio::ErrorKind as K;
    let kinds = [K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::ConnectionAborted, K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::BrokenPipe, K::AlreadyExists, K::WouldBlock, K::InvalidInput, K::InvalidData, K::TimedOut, K::WriteZero, K::Interrupted, K::Other, K::UnexpectedEof];
    for k in kinds { let e = nio::Error::new(k, "x"); let _ = format!("{:?}", e); if e.kind() != k { cx.fails.push(format!("an error of kind {:?} says {:?}", k, e.kind())) } }
    cx.samples.push(format!("buffer of 2 bytes: End(-1), Read(2), Cur(-9223372036854775808): both give Ok(1), Ok(1) [a2], Err(InvalidInput), position 2"));
    {
        let (mut a, mut b) = (nio::Cursor::new(&DATA[..2]), std::io::Cursor::new(&DATA[..2]));
        cx.samples.clear();
        let mut s = String::from("buffer of 2 bytes:");
        for op in [End(-1), Read(2), Cur(i64::MIN), Exact(2), Set(9), Bytes(2)] { let x = ours::step(&mut a, op).text; let y = stds::step(&mut b, op).text; s += &format!(" {:?}: {} / {};", op, x, y) }
        rep.samples.push(s);
        rep.samples.push(format!("reader answering [Int, Give(1), Give(0)], Exact(2): {}", ours::scripted(&[Ans::Int, Ans::Give(1), Ans::Give(0)], What::Exact(2))));
    }
    // 5: buffers and requests around the sizes at which an implementation changes hands
    let big: Vec<u8> = (0..70_000u32).map(|i| (i % 251) as u8 ^ (i >> 8) as u8).collect();
    let sizes: &[usize] = if thorough() { &[0, 1, 7, 8, 31, 32, 33, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537] } else { &[0, 1, 8, 32, 33, 128, 255, 256, 257, 512, 1024, 4095, 4096, 4097, 8192, 8193, 65535, 65536, 65537] };
    let mut large = 0u64;
    for &len in sizes { for &n in sizes { for at in [0i64, 1, 255, 256, -257, -1, 1] {
        let at = if at < 0 { len as u64 + (-at as u64) % 258 - 1 } else { at as u64 };
        for way in 0..5 {
            large += 1;
            let want = stds::large(&big[..len], at, n, way);
            match guarded(|| ours::large(&big[..len], at, n, way)) {
                Ok(g) if g == want || (g.0 == want.0 && want.2 && (g.1 == at || g.1 <= len as u64)) => {}
                Ok(g) => cx.fails.push(format!("buffer of {} bytes, at {}, {} bytes asked for (way {}): no_std gives {:?}, std gives {:?}", len, at, n, way, g, want)),
                Err(_) => cx.fails.push(format!("buffer of {} bytes, at {}, {} bytes asked for (way {}): panicked", len, at, n, way)),
            }
        }
    }}}
    rep.parts.push(format!("read, read_exact (of a cursor, a slice's cursor, a reference, a reader giving at most 100 bytes at a time) and bytes for {} sizes of buffer and request: {} runs", sizes.len(), large));
    scripts += large;
    rep.items = al.len();
    rep.stats.execs = seqs + cx.edges + scripts;
    rep.stats.transitions = seqs + cx.edges + scripts;
    rep.extra.push(("distinct_cursor_states".into(), states.to_string()));
    for i in 0..states as u64 { rep.stats.states.insert(i); }
    for (k, f) in cx.fails.iter().take(4).enumerate() { rep.violation(&format!("{}", k), "lockstep", &format!("property C17: {}", f)) }
    rep.finish()
}
