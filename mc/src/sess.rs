//! One execution: the choice sequence, the lazily decided input, and the controlled reader.
use crate::val::kind;
use binread::io::{Error as IoError, ErrorKind, Read, Result as IoResult, Seek, SeekFrom};
use std::collections::{BTreeMap, HashSet};

/// Choice sequence with replay; depth-first enumeration of all sequences.
#[derive(Default, Clone)]
pub struct Chooser {
    pub path: Vec<(u32, u32)>,
    pub i: usize,
    pub diverged: bool,
}
impl Chooser {
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 { return 0 }
        if self.i < self.path.len() {
            let (c, m) = self.path[self.i];
            if m as usize != n { self.diverged = true; self.i += 1; return (c as usize).min(n - 1) }
            self.i += 1;
            c as usize
        } else {
            self.path.push((0, n as u32));
            self.i += 1;
            0
        }
    }
    /// moves to the next sequence; false when all have been tried
    pub fn next(&mut self) -> bool {
        self.path.truncate(self.i);
        self.i = 0;
        while let Some(last) = self.path.last_mut() {
            if last.0 + 1 < last.1 { last.0 += 1; return true }
            self.path.pop();
        }
        false
    }
}

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x = x.wrapping_mul(0xA3AA_AC2B_4D37_8E61);
    x ^ (x >> 32)
}

/// The input: bytes and length decided on demand. Length lies in lo..=hi.
#[derive(Clone)]
pub struct World {
    pub start: u64,
    pub bytes: BTreeMap<u64, u8>,
    pub lo: u64,
    pub hi: u64,
    pub span: u64,
    pub hash: u64,
    /// branch on truncation
    pub lengths: bool,
    /// reading the byte at this position fails with this kind
    pub bad: Option<(u64, ErrorKind)>,
    /// positions read, in order of first touch
    pub touched: Vec<u64>,
}
impl World {
    pub fn new(start: u64, max_len: u64, lengths: bool) -> World {
        World { start, bytes: BTreeMap::new(), lo: if lengths { start } else { start + max_len }, hi: start + max_len, span: max_len, hash: mix(start, max_len), lengths, bad: None, touched: vec![] }
    }
    /// the byte at a position that nothing has decided
    pub fn pattern(&self, p: u64) -> u8 {
        let d = p.wrapping_sub(self.start);
        // far before the start: nothing goes on for ever
        if p.saturating_add(300) < self.start && p % 8 == 7 { return 0 }
        if p.saturating_add(300) < self.start && p % 8 == 6 && p / 8 % 2 == 1 { return 0 }
        let x = (d.wrapping_mul(37).wrapping_add(0x81) & 0xff) as u8;
        if x == 0 { 0x5b } else { x }
    }
    pub fn set(&mut self, p: u64, b: u8) {
        self.bytes.insert(p, b);
        self.hash ^= mix(p, b as u64 + 1);
    }
    pub fn get(&mut self, p: u64) -> u8 {
        if let Some(b) = self.bytes.get(&p) { return *b }
        let b = self.pattern(p);
        self.set(p, b);
        self.touched.push(p);
        b
    }
    /// long inputs are cut only near both ends and around multiples of 512
    fn keep_len(&self, l: u64) -> bool {
        let d = l - self.start;
        self.span <= 400 || l == self.hi || d < 8 || self.span - d < 12 || matches!(d % 512, 0 | 1 | 511)
    }
    /// how many of the n bytes at p exist
    pub fn avail(&mut self, ch: &mut Chooser, p: u64, n: u64, branch: bool) -> u64 {
        if n == 0 { return 0 }
        let want = p.saturating_add(n);
        if self.lo >= want { return n }
        if self.lo == self.hi || self.hi <= p { 
            return self.hi.saturating_sub(p).min(n) }
        if !branch {
            // everything that may exist does
            let end = want.min(self.hi);
            self.lo = self.lo.max(end);
            return end - p;
        }
        // candidates: enough bytes; else each exact length
        let mut cands: Vec<u64> = vec![];
        let from = self.lo.max(p);
        for l in (from..want.min(self.hi + 1)).rev() { if self.keep_len(l) { cands.push(l) } }
        if self.lo < p { cands.push(self.lo) }
        let enough = self.hi >= want;
        if cands.is_empty() && enough { self.lo = want; return n }
        let c = ch.choose(cands.len() + enough as usize);
        if enough && c == 0 {
            self.lo = want;
            return n;
        }
        let l = cands[c - enough as usize];
        self.lo = l;
        self.hi = l;
        self.hash = mix(self.hash, l);
        l.saturating_sub(p).min(n)
    }
    /// the exact length
    pub fn length(&mut self, ch: &mut Chooser, branch: bool) -> u64 {
        if self.lo != self.hi {
            let n = self.hi - self.lo + 1;
            let l = if branch { self.hi - ch.choose(n as usize) as u64 } else { self.hi };
            self.lo = l;
            self.hi = l;
            self.hash = mix(self.hash, l);
        }
        self.lo
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Chunks { Full, Bytewise, InterruptEach, HalfThenRest }

pub struct Stats {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub outcomes: HashSet<u64>,
    pub execs: u64,
    pub unspec: u64,
    pub err_outcomes: u64,
    pub digest: u64,
    /// per work item: number of executions, digest of their outcomes
    pub digests: Vec<(usize, u64, u64)>,
    pub trail: Option<Vec<String>>,
}
impl Stats {
    pub fn new() -> Self { Stats { states: HashSet::new(), transitions: 0, outcomes: HashSet::new(), execs: 0, unspec: 0, err_outcomes: 0, digest: 0, digests: vec![], trail: None } }
    pub fn merge(&mut self, o: Stats) {
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        self.transitions += o.transitions;
        self.execs += o.execs;
        self.unspec += o.unspec;
        self.digests.extend(o.digests);
        self.err_outcomes += o.err_outcomes;
    }
}

pub struct Sess {
    pub ch: Chooser,
    pub w: World,
    pub tag: u64,
    pub chunks: Chunks,
    /// deviations left for the environment (short reads and interrupts)
    pub devs: u32,
    /// hard failures left
    pub hard: u32,
    /// how many failures in total were available in this run (part of the state)
    pub kinds: &'static [ErrorKind],
    pub ops: u64,
    pub seen: Vec<u64>,
    pub keep_states: bool,
    pub last_failed_seek: bool,
    pub hard_used: u32,
    pub hard_kinds: Vec<ErrorKind>,
    /// where the last failed seek wanted to go
    pub failed_target: i128,
    pub log: Option<Vec<String>>,
    toggle: bool,
}
impl Sess {
    pub fn new(ch: Chooser, w: World, tag: u64) -> Sess {
        Sess { ch, w, tag, chunks: Chunks::Full, devs: 0, hard: 0, kinds: &[], ops: 0, seen: vec![], keep_states: true, last_failed_seek: false, hard_used: 0, hard_kinds: vec![], failed_target: -1, log: None, toggle: false }
    }
}

pub const OP_BUDGET: u64 = 120_000;

/// The reader handed to the implementation.
pub struct McReader<'a> {
    pub s: &'a mut Sess,
    pub pos: u64,
}
impl<'a> McReader<'a> {
    fn step(&mut self, what: u64, n: u64) {
        self.s.ops += 1;
        if self.s.ops > OP_BUDGET { panic!("mc: I/O operation budget exceeded (livelock)") }
        if self.s.keep_states {
            let h = mix(mix(mix(self.s.tag, self.s.w.hash), mix(self.pos, self.s.w.lo)), mix(self.s.w.hi, what ^ (n << 8) ^ ((self.s.devs as u64) << 40) ^ ((self.s.hard as u64) << 48) ^ ((self.s.chunks as u64) << 52)));
            self.s.seen.push(h);
        }
    }
    fn hard(&mut self, read: bool) -> Option<IoError> {
        if self.s.hard == 0 { return None }
        let c = self.s.ch.choose(1 + self.s.kinds.len());
        if c == 0 { return None }
        self.s.hard -= 1;
        self.s.hard_used += 1;
        let k = self.s.kinds[c - 1];
        self.s.hard_kinds.push(k);
        if let Some(l) = &mut self.s.log { l.push(format!("{} at {} fails with {:?}", if read { "read" } else { "seek" }, self.pos, k)) }
        Some(IoError::new(k, "injected"))
    }
}
impl<'a> Read for McReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        self.step(1, buf.len() as u64);
        self.s.last_failed_seek = false;
        if buf.is_empty() { return Ok(0) }
        if let Some(e) = self.hard(true) { return Err(e) }
        if self.s.chunks == Chunks::InterruptEach {
            self.s.toggle = !self.s.toggle;
            if self.s.toggle { return Err(IoError::new(ErrorKind::Interrupted, "interrupted")) }
        }
        let mut n = buf.len() as u64;
        if let Some((b, k)) = self.s.w.bad {
            if b == self.pos && self.s.w.avail(&mut self.s.ch, self.pos, 1, false) == 1 { return Err(IoError::new(k, "bad byte")) }
            if b > self.pos && b < self.pos + n { n = b - self.pos }
        }
        let branch = self.s.w.lengths;
        let mut k = self.s.w.avail(&mut self.s.ch, self.pos, n, branch);
        match self.s.chunks {
            Chunks::Bytewise => k = k.min(1),
            Chunks::HalfThenRest => k = if k > 1 { k / 2 } else { k },
            _ => {}
        }
        if self.s.devs > 0 {
            // deviations from the default answer: interrupted, one byte, all but one byte
            let opts: &[u8] = if k > 2 { &[0, 1, 2, 3] } else if k == 2 { &[0, 1, 2] } else { &[0, 1] };
            match self.s.ch.choose(opts.len()) {
                0 => {}
                1 => {
                    self.s.devs -= 1;
                    if let Some(l) = &mut self.s.log { l.push(format!("read at {} interrupted", self.pos)) }
                    return Err(IoError::new(ErrorKind::Interrupted, "interrupted"));
                }
                c => {
                    self.s.devs -= 1;
                    k = if c == 2 { 1 } else { k - 1 };
                    if let Some(l) = &mut self.s.log { l.push(format!("read of {} at {} delivers {}", n, self.pos, k)) }
                }
            }
        }
        for i in 0..k {
            buf[i as usize] = self.s.w.get(self.pos + i);
        }
        if let Some(l) = &mut self.s.log { l.push(format!("read({}) at {} -> {}", buf.len(), self.pos, k)) }
        self.pos += k;
        Ok(k as usize)
    }
}
impl<'a> Seek for McReader<'a> {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        self.step(match to { SeekFrom::Start(_) => 2, SeekFrom::Current(0) => 3, SeekFrom::Current(_) => 4, SeekFrom::End(_) => 5 }, 0);
        self.s.last_failed_seek = false;
        if let Some(e) = self.hard(false) {
            self.s.last_failed_seek = true;
            self.s.failed_target = match to { SeekFrom::Start(n) => n as i128, SeekFrom::Current(d) => self.pos as i128 + d as i128, SeekFrom::End(_) => -1 };
            return Err(e);
        }
        let base = match to {
            SeekFrom::Start(n) => {
                self.pos = n;
                if let Some(l) = &mut self.s.log { l.push(format!("seek to {}", n)) }
                return Ok(n);
            }
            SeekFrom::Current(d) => (self.pos, d),
            SeekFrom::End(d) => {
                let branch = self.s.w.lengths;
                (self.s.w.length(&mut self.s.ch, branch), d)
            }
        };
        let t = base.0 as i128 + base.1 as i128;
        if t < 0 || t > u64::MAX as i128 {
            self.s.last_failed_seek = true;
            self.s.failed_target = -1;
            return Err(IoError::new(ErrorKind::InvalidInput, "invalid seek to a negative or overflowing position"));
        }
        if t as u64 != self.pos || base.1 != 0 {
            if let Some(l) = &mut self.s.log { l.push(format!("seek by {} to {}", base.1, t)) }
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}
pub fn kinds_names(k: &[ErrorKind]) -> Vec<String> { k.iter().map(|k| kind(*k)).collect() }
