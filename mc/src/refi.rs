//! Reference interpreter: what a declaration means, written from the documentation of the
//! directives, over the lazily decided input. Shares no code with binread.
use crate::schema::*;
use crate::sess::{Chooser, World};
use crate::val::{kind, EV, V};
use binread::io::ErrorKind;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, Default)]
pub struct Opts {
    pub be: bool, pub count: Option<u64>, pub offset: u64,
    /// what the debug template calls the value, and whether it is part of something recorded as a whole
    pub name: Option<&'static str>, pub quiet: bool,
}

/// one entry of the debug template
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tr {
    Val { be: bool, pos: u64, ty: String, name: Option<String> },
    List { be: bool, pos: u64, ty: String, n: u64, name: Option<String> },
    Start(String),
    End(String),
}
fn intern(s: &str) -> &'static str {
    thread_local! { static T: std::cell::RefCell<HashMap<String, &'static str>> = std::cell::RefCell::new(HashMap::new()) }
    T.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.get(s) { return *x }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        t.insert(s.into(), x);
        x
    })
}
/// type names without paths and spaces
pub fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' { word.push(c); continue }
        if c == ':' { word.clear(); continue }
        out.push_str(&word);
        word.clear();
        if !c.is_whitespace() { out.push(c) }
    }
    out.push_str(&word);
    out.replace(",)", ")")
}

pub type R<T> = Result<T, EV>;

pub struct Ref<'a> {
    pub u: &'a Universe,
    pub w: &'a mut World,
    pub ch: &'a mut Chooser,
    pub pos: u64,
    pub ticks: Vec<u32>,
    /// the operation with this number fails
    pub fail_at: Vec<(u64, ErrorKind)>,
    pub io_ops: u64,
    pub pos_unspec: bool,
    pub branch: bool,
    pub full_magic: bool,
    pub budget: u64,
    /// number of each failing sequence, for evidence
    pub depth: u32,
    /// what the debug template records
    pub trace: Option<Vec<Tr>>,
}

type Env = HashMap<String, V>;

pub fn unspec<T>(s: &str) -> R<T> { Err(EV::Unspec(s.into())) }

pub fn enc(p: P, x: i128, be: bool) -> Vec<u8> {
    let n = p.width();
    let le: Vec<u8> = x.to_le_bytes()[..n].to_vec();
    if be { le.into_iter().rev().collect() } else { le }
}

fn dec(p: P, b: &[u8], be: bool) -> V {
    let mut le: Vec<u8> = b.to_vec();
    if be { le.reverse() }
    let mut x: u128 = 0;
    for (i, c) in le.iter().enumerate() { x |= (*c as u128) << (8 * i) }
    match p {
        P::F32 => V::F32(x as u32),
        P::F64 => V::F64(x as u64),
        P::Char => V::C(x as u32),
        _ => V::I(p.wrap(x as i128)),
    }
}

pub fn int(v: &V) -> i128 {
    match v {
        V::I(x) => *x,
        V::C(x) => *x as i128,
        V::Ptr(_, Some(t)) => int(t),
        V::Pos(_, t) => int(t),
        V::O(Some(t)) => int(t),
        V::F32(x) => f32::from_bits(*x) as i128,
        V::F64(x) => f64::from_bits(*x) as i128,
        _ => 0,
    }
}

pub fn lit_bytes(l: &Lit, be: bool) -> Vec<u8> {
    match l {
        Lit::Byte(b) => vec![*b],
        Lit::Str(s) => s.clone(),
        Lit::Char(c) => vec![*c as u8],
        Lit::Int(x, p) => enc(*p, *x, be),
        Lit::F32(x) => enc(P::F32, x.to_bits() as i128, be),
        Lit::F64(x) => enc(P::F64, x.to_bits() as i128, be),
    }
}
fn lit_prim(l: &Lit) -> Option<P> {
    match l {
        Lit::Byte(_) => Some(P::U8),
        Lit::Str(_) => None,
        Lit::Char(_) => Some(P::Char),
        Lit::Int(_, p) => Some(*p),
        Lit::F32(_) => Some(P::F32),
        Lit::F64(_) => Some(P::F64),
    }
}
fn lit_v(l: &Lit) -> V {
    match l {
        Lit::Byte(b) => V::I(*b as i128),
        Lit::Str(s) => V::L(s.iter().map(|b| V::I(*b as i128)).collect()),
        Lit::Char(c) => V::C(*c as u32),
        Lit::Int(x, p) => V::I(p.wrap(*x)),
        Lit::F32(x) => V::F32(x.to_bits()),
        Lit::F64(x) => V::F64(x.to_bits()),
    }
}
fn lit_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::F32(a), V::F32(b)) => f32::from_bits(*a) == f32::from_bits(*b),
        (V::F64(a), V::F64(b)) => f64::from_bits(*a) == f64::from_bits(*b),
        (a, b) => a == b,
    }
}

fn default_of(t: &Ty) -> V {
    match t {
        Ty::P(P::F32) => V::F32(0),
        Ty::P(P::F64) => V::F64(0),
        Ty::P(P::Char) => V::C(0),
        Ty::P(_) => V::I(0),
        Ty::Arr(t, n) => V::L((0..*n).map(|_| default_of(t)).collect()),
        Ty::Vec(_) | Ty::Deq(_) | Ty::Nz8 | Ty::Nz16 => V::L(vec![]),
        Ty::Opt(_) => V::O(None),
        Ty::Tup(ts) => V::T(ts.iter().map(default_of).collect()),
        Ty::Bx(t) => default_of(t),
        Ty::Unit | Ty::Phantom => V::U,
        Ty::NStr => V::Str(vec![]),
        Ty::WStr => V::W(vec![]),
        Ty::Probe(_) => V::S("Probe".into(), vec![("read".into(), V::L(vec![])), ("after".into(), V::L(vec![]))]),
        Ty::Ptr(..) | Ty::Pos(_) | Ty::Punct(..) | Ty::User(_) => V::U,
    }
}

fn wrap_ret(p: P, x: i128) -> V {
    match p { P::Char => V::C(x as u32), P::F32 => V::F32((x as f32).to_bits()), P::F64 => V::F64((x as f64).to_bits()), p => V::I(p.wrap(x)) }
}
/// an integer stored in a field of the given type
fn as_field(t: &Ty, x: i128) -> V {
    match t {
        Ty::P(p) => wrap_ret(*p, x),
        Ty::Opt(t) => V::O(Some(Box::new(as_field(t, x)))),
        _ => V::I(x),
    }
}

impl<'a> Ref<'a> {
    pub fn new(u: &'a Universe, w: &'a mut World, ch: &'a mut Chooser, pos: u64) -> Self {
        Ref { u, w, ch, pos, ticks: vec![], fail_at: vec![], io_ops: 0, pos_unspec: false, branch: true, full_magic: false, budget: 20_000, depth: 0, trace: None }
    }

    // ------------------------------------------------------------ reader operations
    /// one operation on the reader, which may be the one that fails
    fn io(&mut self) -> R<()> {
        self.io_ops += 1;
        self.budget = self.budget.saturating_sub(1);
        if self.budget == 0 { return unspec("reference budget exceeded") }
        if let Some((_, k)) = self.fail_at.iter().find(|f| f.0 + 1 == self.io_ops) { return Err(EV::Io(kind(*k))) }
        Ok(())
    }
    fn seek_to(&mut self, p: i128) -> R<()> {
        self.io()?;
        if p < 0 || p > u64::MAX as i128 { return Err(EV::Io("InvalidInput".into())) }
        self.pos = p as u64;
        Ok(())
    }
    /// n bytes; candidates are byte strings of length n to choose from where nothing is decided
    fn bytes(&mut self, n: u64, cands: &[Vec<u8>]) -> R<Vec<u8>> {
        if n == 0 { return Ok(vec![]) }
        self.io()?;
        let p = self.pos;
        let branch = self.branch && self.w.lengths;
        let k = self.w.avail(self.ch, p, n, branch);
        let bad = self.w.bad;
        if let Some((b, kd)) = bad {
            if b >= p && b < p + k {
                for i in p..b { self.w.get(i); }
                self.pos = b;
                return Err(EV::Io(kind(kd)));
            }
        }
        let free = (0..k).all(|i| !self.w.bytes.contains_key(&(p + i)));
        // far before the start of the data proper there is only filler
        let filler = p > 12 && p.saturating_add(300) < self.w.start;
        if free && k == n && !cands.is_empty() && self.branch && !filler {
            let c = self.ch.choose(cands.len());
            let chosen = cands[c].clone();
            for (i, b) in chosen.iter().enumerate() {
                self.w.set(p + i as u64, *b);
                self.w.touched.push(p + i as u64);
            }
        }
        let mut out = Vec::with_capacity(k as usize);
        for i in 0..k { out.push(self.w.get(p + i)) }
        self.pos = p + k;
        if k < n { return Err(EV::Io("UnexpectedEof".into())) }
        Ok(out)
    }
    fn prim(&mut self, p: P, be: bool, dom: Option<&[i128]>) -> R<V> {
        let at = self.pos;
        let cands: Vec<Vec<u8>> = match dom {
            Some(d) => d.iter().map(|x| enc(p, *x, be)).collect(),
            None => vec![],
        };
        match self.bytes(p.width() as u64, &cands) {
            Ok(b) => Ok(dec(p, &b, be)),
            Err(e @ EV::Unspec(_)) => Err(e),
            Err(e) => {
                self.rewind(at)?;
                Err(e)
            }
        }
    }
    fn rewind(&mut self, at: u64) -> R<()> {
        if let Err(e) = self.io() { self.pos_unspec = true; return Err(e) }
        self.pos = at;
        Ok(())
    }

    // ------------------------------------------------------------ debug template
    fn rec_val(&mut self, ty: &str, o: Opts) {
        if o.quiet { return }
        self.rec_always(ty, o, o.name.map(|n| n.to_string()))
    }
    fn rec_always(&mut self, ty: &str, o: Opts, name: Option<String>) {
        let pos = self.pos;
        if let Some(t) = &mut self.trace { t.push(Tr::Val { be: o.be, pos, ty: if ty == "char" { "u8".into() } else { ty.into() }, name }) }
    }
    fn rec_list(&mut self, elem: &Ty, n: u64, o: Opts, name: Option<String>, vec: bool) {
        if self.trace.is_none() { return }
        let ty = match elem { Ty::Ptr(p, _) if vec => p.rust().to_string(), t => plain(&crate::render::ty(t)) };
        let pos = self.pos;
        if let Some(t) = &mut self.trace { t.push(Tr::List { be: o.be, pos, ty, n, name }) }
    }

    // ------------------------------------------------------------ expressions
    pub fn ev(&mut self, e: &E, env: &Env) -> i128 {
        match e {
            E::L(x) => *x,
            E::B(b) => *b as i128,
            E::V(n) => env.get(n).map(int).unwrap_or_else(|| panic!("reference: no variable {}", n)),
            E::Deref(n) => env.get(n).map(int).unwrap_or_else(|| panic!("reference: no variable {}", n)),
            E::Len(n) => match env.get(n) {
                Some(V::L(x)) => x.len() as i128,
                Some(V::Str(x)) => x.len() as i128,
                Some(V::W(x)) => x.len() as i128,
                _ => 0,
            },
            E::Bin(o, a, b) => {
                let x = self.ev(a, env);
                match o {
                    Op::And => return if x != 0 { self.ev(b, env) } else { 0 },
                    Op::Or => return if x != 0 { 1 } else { self.ev(b, env) },
                    _ => {}
                }
                let y = self.ev(b, env);
                match o {
                    Op::Add => x + y, Op::Sub => x - y, Op::Mul => x * y, Op::BitXor => x ^ y,
                    Op::Eq => (x == y) as i128, Op::Ne => (x != y) as i128, Op::Lt => (x < y) as i128, Op::Ge => (x >= y) as i128,
                    Op::And | Op::Or => unreachable!(),
                }
            }
            E::Not(a) => (self.ev(a, env) == 0) as i128,
            E::Tick(n, e) => { self.ticks.push(*n); self.ev(e, env) }
        }
    }
    fn fmt_args(&mut self, m: &str, es: &[E], env: &Env) -> String {
        // "{}" placeholders and "{{" / "}}" escapes
        let vals: Vec<String> = es.iter().map(|e| { let b = e.is_bool(); let x = self.ev(e, env); if b { (x != 0).to_string() } else { x.to_string() } }).collect();
        let mut out = String::new();
        let mut it = m.chars().peekable();
        let mut k = 0;
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => { it.next(); out.push('{') }
                '}' if it.peek() == Some(&'}') => { it.next(); out.push('}') }
                '{' => { it.next(); out.push_str(&vals[k]); k += 1 }
                c => out.push(c),
            }
        }
        out
    }
    fn asserts(&mut self, list: &[Asrt], env: &Env, start: u64) -> R<()> {
        for a in list {
            if self.ev(&a.cond, env) == 0 {
                return Err(match &a.form {
                    AForm::Bare => EV::Assert { pos: start, msg: format!("\u{1}{}", a.cond.bare()) },
                    AForm::Msg(m) => { let m = self.fmt_args(m, &[], env); EV::Assert { pos: start, msg: m } }
                    AForm::Fmt(m, es) => { let m = self.fmt_args(m, es, env); EV::Assert { pos: start, msg: m } }
                    AForm::Err(e) => { let x = self.ev(e, env); EV::Custom { pos: start, payload: format!("PErr({})", x as i64) } }
                });
            }
        }
        Ok(())
    }

    fn magic(&mut self, l: &Lit, o: Opts) -> R<()> {
        let at = self.pos;
        self.io()?;
        let good = lit_bytes(l, o.be);
        let mut cands = vec![good.clone()];
        let n = good.len();
        let mut push = |c: Vec<u8>| if !cands.contains(&c) { cands.push(c) };
        if self.full_magic {
            let mut s = good.clone();
            s.reverse();
            push(s);
            for i in 0..n {
                for m in [1u8, 0x80, 0xff] {
                    let mut c = good.clone();
                    c[i] ^= m;
                    push(c);
                }
            }
            push(vec![0; n]);
            push(vec![0xff; n]);
        } else if n > 0 {
            let mut c = good.clone();
            c[n - 1] ^= 1;
            push(c);
            if n > 1 {
                let mut c = good.clone();
                c[0] ^= 0x80;
                push(c);
            }
        }
        let mo = Opts { name: Some("magic"), ..o };
        match lit_prim(l) { Some(p) => self.rec_val(p.rust(), mo), None => self.rec_list(&U8, n as u64, mo, Some("magic".into()), false) }
        let got = match lit_prim(l) {
            Some(p) => {
                match self.bytes(n as u64, &cands) {
                    Ok(b) => dec(p, &b, o.be),
                    Err(e @ EV::Unspec(_)) => return Err(e),
                    Err(e) => { self.rewind(at)?; return Err(e) }
                }
            }
            None => V::L(self.bytes(n as u64, &cands)?.into_iter().map(|b| V::I(b as i128)).collect()),
        };
        if lit_eq(&got, &lit_v(l)) { Ok(()) } else { Err(EV::BadMagic { pos: at, found: Some(got) }) }
    }

    // ------------------------------------------------------------ types
    fn rec(&mut self, o: Opts, args: &[i128]) -> R<V> {
        self.io()?;
        Ok(V::T(vec![
            V::I(self.pos as i128), V::I(o.be as i128), V::O(o.count.map(|c| Box::new(V::I(c as i128)))), V::I(o.offset as i128),
            V::L(args.iter().map(|x| V::I(*x)).collect()),
        ]))
    }
    pub fn read_ty(&mut self, t: &Ty, o: Opts, args: &[i128], dom: Option<&[i128]>) -> R<V> {
        self.depth += 1;
        if self.depth > 60 { return unspec("reference recursion limit") }
        let r = self.read_ty1(t, o, args, dom);
        self.depth -= 1;
        r
    }
    fn read_ty1(&mut self, t: &Ty, o: Opts, args: &[i128], dom: Option<&[i128]>) -> R<V> {
        match t {
            Ty::P(p) => { self.io()?; self.rec_val(p.rust(), o); self.prim(*p, o.be, dom) }
            Ty::Arr(t, n) => {
                self.rec_list(t, *n as u64, o, o.name.map(|n| n.to_string()), false);
                let o = Opts { quiet: true, ..o };
                let mut out = vec![];
                for _ in 0..*n { out.push(self.read_ty(t, o, args, dom)?) }
                Ok(V::L(out))
            }
            Ty::Vec(t) => {
                let n = match o.count { Some(n) => n, None => return unspec("vector without count") };
                let mut oo = o;
                oo.count = None;
                self.rec_list(t, n, o, None, true);
                oo.quiet = true;
                let mut out = vec![];
                let mut i = 0u64;
                while i < n {
                    out.push(self.read_ty(t, oo, args, dom)?);
                    i += 1;
                }
                Ok(V::L(out))
            }
            Ty::Deq(_) | Ty::Punct(..) => unspec("type has no parser of its own"),
            Ty::Opt(t) => Ok(V::O(Some(Box::new(self.read_ty(t, o, args, dom)?)))),
            Ty::Tup(ts) => {
                let mut out = vec![];
                for t in ts { out.push(self.read_ty(t, o, &[], dom)?) }
                Ok(V::T(out))
            }
            Ty::Bx(t) => self.read_ty(t, o, args, dom),
            Ty::Unit | Ty::Phantom => Ok(V::U),
            Ty::Nz8 | Ty::NStr => {
                if *t == Ty::NStr { self.rec_val("string", o) }
                let mut out = vec![];
                let cands: Vec<Vec<u8>> = match dom { Some(d) => d.iter().map(|x| vec![*x as u8]).collect(), None => vec![vec![b'a' + (self.pos % 7) as u8], vec![0]] };
                loop {
                    match self.bytes(1, &cands) {
                        Ok(b) => { if b[0] == 0 { break } out.push(b[0]) }
                        // data that ends without a terminator ends the string
                        Err(EV::Io(k)) if k == "UnexpectedEof" && self.w.bad.map_or(true, |b| b.0 != self.pos) && self.fail_at.iter().all(|f| f.0 + 1 != self.io_ops) => break,
                        Err(e) => return Err(e),
                    }
                }
                Ok(if *t == Ty::NStr { V::Str(out) } else { V::L(out.into_iter().map(|b| V::I(b as i128)).collect()) })
            }
            Ty::Nz16 | Ty::WStr => {
                let mut out = vec![];
                let d = [0x6100 + b'b' as i128, 0];
                let dom = dom.unwrap_or(&d);
                if *t == Ty::WStr { self.rec_val("wstring", o) }
                loop {
                    if *t == Ty::Nz16 { self.rec_val("u16", o) }
                    let x = int(&self.prim(P::U16, o.be, Some(dom))?);
                    if x == 0 { break }
                    out.push(x as u16);
                }
                Ok(if *t == Ty::WStr { V::W(out) } else { V::L(out.into_iter().map(|b| V::I(b as i128)).collect()) })
            }
            Ty::Ptr(p, _) => {
                self.io()?;
                self.rec_always(p.rust(), o, o.name.map(|n| format!("ptr_to_{}", n)));
                let x = self.prim(*p, o.be, dom)?;
                Ok(V::Ptr(Box::new(x), None))
            }
            Ty::Pos(t) => {
                self.io()?;
                let p = self.pos;
                Ok(V::Pos(p, Box::new(self.read_ty(t, o, args, dom)?)))
            }
            Ty::Probe(_) => {
                let r = self.rec(o, args)?;
                Ok(V::S("Probe".into(), vec![("read".into(), V::L(vec![r])), ("after".into(), V::L(vec![]))]))
            }
            Ty::User(n) => {
                let u = self.u;
                self.def(u.get(n), o, args)
            }
        }
    }
    /// postprocessing: pointers are resolved
    pub fn after(&mut self, val: &mut V, t: &Ty, o: Opts, args: &[i128]) -> R<()> {
        match (t, val) {
            (Ty::Arr(t, _), V::L(xs)) | (Ty::Vec(t), V::L(xs)) => {
                for x in xs { self.after(x, t, o, args)? }
                Ok(())
            }
            (Ty::Opt(t), V::O(Some(x))) => self.after(x, t, o, args),
            (Ty::Tup(ts), V::T(xs)) => {
                for (t, x) in ts.iter().zip(xs) { self.after(x, t, o, &[])? }
                Ok(())
            }
            (Ty::Bx(t), x) => self.after(x, t, o, args),
            (Ty::Pos(t), V::Pos(_, x)) => self.after(x, t, o, args),
            (Ty::Ptr(_, t), V::Ptr(p, target)) => {
                let d = int(p);
                if d > i64::MAX as i128 || d < i64::MIN as i128 { return unspec("pointer value is no seek distance") }
                self.io()?;
                let before = self.pos;
                self.seek_to(o.offset as i128)?;
                self.seek_to(o.offset as i128 + d)?;
                let mut x = self.read_ty(t, o, args, None)?;
                self.after(&mut x, t, o, args)?;
                *target = Some(Box::new(x));
                self.rewind(before)
            }
            (Ty::Probe(_), V::S(_, fs)) => {
                let r = self.rec(o, args)?;
                if let V::L(l) = &mut fs[1].1 { l.push(r) }
                Ok(())
            }
            _ => Ok(()),
        }
    }
    fn full(&mut self, t: &Ty, o: Opts, args: &[i128], dom: Option<&[i128]>) -> R<V> {
        let mut x = self.read_ty(t, o, args, dom)?;
        self.after(&mut x, t, o, args)?;
        Ok(x)
    }

    fn import_env(&mut self, d: &Def, args: &[i128]) -> Env {
        let mut env = Env::new();
        match &d.top.imports {
            Imports::None => {}
            Imports::List(ps) => for ((n, p), x) in ps.iter().zip(args) { env.insert(n.clone(), V::I(p.wrap(*x))); },
            Imports::Tuple(n, ps) => for (i, (p, x)) in ps.iter().zip(args).enumerate() { env.insert(format!("{}.{}", n, i), V::I(p.wrap(*x))); },
        }
        env
    }

    fn with_end(o: Opts, e: &Option<End>) -> Opts {
        match e { Some(End::Big) => Opts { be: true, ..o }, Some(End::Little) => Opts { be: false, ..o }, None => o }
    }

    /// a derived type: on failure the reader is put back to where it started
    pub fn def(&mut self, d: &Def, o: Opts, args: &[i128]) -> R<V> {
        self.io()?;
        let start = self.pos;
        let bracket = d.top.map.is_none() && matches!(d.kind, Kind::Struct(Shape::Named | Shape::Tuple, _));
        if bracket { if let Some(t) = &mut self.trace { t.push(Tr::Start(d.name.clone())) } }
        let r = self.def1(d, o, args, start);
        if bracket { if let Some(t) = &mut self.trace { t.push(Tr::End(o.name.unwrap_or("root").to_string())) } }
        match r {
            Ok(v) => Ok(v),
            Err(e @ EV::Unspec(_)) => Err(e),
            Err(e) => { self.rewind(start)?; Err(e) }
        }
    }
    fn ctor(&mut self, d: &Def, c: &Ctor, env: &Env, start: u64) -> R<V> {
        let fields = |me: &mut Self, fs: &[Field], es: &[E]| fs.iter().zip(es).map(|(f, e)| { let x = me.ev(e, env); (f.name.clone(), as_field(&f.ty, x)) }).collect::<Vec<_>>();
        match c {
            Ctor::Struct(es) => match &d.kind {
                Kind::Struct(_, fs) => Ok(V::S(d.name.clone(), fields(self, fs, es))),
                _ => unreachable!(),
            },
            Ctor::Variant(n, es) => match &d.kind {
                Kind::Enum(vs) => {
                    let x = vs.iter().find(|x| x.name == *n).unwrap();
                    Ok(V::S(format!("{}::{}", d.name, n), fields(self, &x.fields, es)))
                }
                _ => unreachable!(),
            },
            Ctor::Fail(e) => { let x = self.ev(e, env); Err(EV::Custom { pos: start, payload: format!("PErr({})", x as i64) }) }
            Ctor::FailIo => Err(EV::Io("InvalidData".into())),
        }
    }
    fn def1(&mut self, d: &Def, o: Opts, args: &[i128], start: u64) -> R<V> {
        let mut env = self.import_env(d, args);
        let o1 = Self::with_end(o, &d.top.endian);
        if let Some(m) = &d.top.map {
            if let Some(l) = &d.top.magic { self.magic(l, o1)? }
            self.asserts(&d.top.pre, &env, start)?;
            let x = self.read_ty(&m.from, o1, args, None)?;
            bind_x(&mut env, &x);
            for (c, k) in &m.arms {
                if self.ev(c, &env) != 0 { return self.ctor(d, k, &env, start) }
            }
            return self.ctor(d, &m.last, &env, start);
        }
        match &d.kind {
            Kind::Struct(_, fs) => {
                if let Some(l) = &d.top.magic { self.magic(l, o1)? }
                self.asserts(&d.top.pre, &env, start)?;
                let vals = self.fields(fs, o1, &mut env, start)?;
                self.asserts(&d.top.asserts, &env, start)?;
                Ok(V::S(d.name.clone(), vals))
            }
            Kind::Enum(vs) if d.unit_only() => self.unit_enum(d, vs, o1, &env, start),
            Kind::Enum(vs) => {
                let mut errs = vec![];
                for x in vs {
                    let o2 = Self::with_end(o1, &x.endian);
                    let r = (|| {
                        let mut env = env.clone();
                        if let Some(l) = x.magic.as_ref().or(d.top.magic.as_ref()) { self.magic(l, o2)? }
                        self.asserts(&d.top.pre, &env, start)?;
                        self.asserts(&x.pre, &env, start)?;
                        let vals = self.fields(&x.fields, o2, &mut env, start)?;
                        self.asserts(&x.asserts, &env, start)?;
                        if x.shape != Shape::Unit { self.asserts(&d.top.asserts, &env, start)? }
                        Ok(V::S(format!("{}::{}", d.name, x.name), vals))
                    })();
                    match r {
                        Ok(v) => return Ok(v),
                        Err(e @ EV::Unspec(_)) => return Err(e),
                        Err(e) => errs.push((x.name.clone(), e)),
                    }
                    // the next attempt starts at the enum's own position
                    self.rewind(start)?;
                }
                Err(if d.top.mode == Some(ErrMode::Unexpected) { EV::NoVariant { pos: start } } else { EV::Enum { pos: start, errs } })
            }
        }
    }
    fn unit_enum(&mut self, d: &Def, vs: &[Variant], o: Opts, env: &Env, start: u64) -> R<V> {
        if let Some(l) = &d.top.magic { self.magic(l, o)? }
        let name = |x: &Variant| Ok(V::S(format!("{}::{}", d.name, x.name), vec![]));
        if let Some(p) = d.top.repr {
            let mut next = 0i128;
            let mut discs = vec![];
            for x in vs {
                if let Some(k) = x.disc { next = k }
                discs.push(next);
                next += 1;
            }
            let mut dom: Vec<i128> = vec![];
            if !self.full_magic {
                for k in discs.iter().map(|x| p.wrap(*x)) { if !dom.contains(&k) { dom.push(k) } }
                for k in discs.iter().map(|k| p.wrap(int(&dec(p, &enc(p, *k, true), false)))) { if !dom.contains(&k) { dom.push(k) } }
                let k = p.wrap(!discs[0]);
                if !dom.contains(&k) { dom.push(k) }
            } else if p.width() == 1 {
                // every value, declared ones first
                dom.extend(discs.iter().map(|x| p.wrap(*x)));
                for i in 0..256 { let k = p.wrap(i); if !dom.contains(&k) { dom.push(k) } }
            } else {
                let mut add = |x: i128| { let x = p.wrap(x); if !dom.contains(&x) { dom.push(x) } };
                for k in &discs { add(*k) }
                for k in &discs {
                    for b in 0..p.width() * 8 { add(k ^ (1i128 << b)) }
                    add(k + 1); add(k - 1); add(!k);
                    let sw = dec(p, &enc(p, *k, true), false);
                    add(int(&sw));
                }
            }
            self.rec_val(p.rust(), o);
            let got = match self.prim(p, o.be, Some(&dom)) { Ok(x) => int(&x), Err(e) => return Err(e) };
            for (x, k) in vs.iter().zip(&discs) {
                if p.wrap(*k) == got && x.pre.iter().all(|a| self.ev(&a.cond, env) != 0) { return name(x) }
            }
            Err(EV::NoVariant { pos: start })
        } else {
            let first = vs.iter().find_map(|x| x.magic.as_ref()).unwrap();
            let n = lit_bytes(first, o.be).len();
            let mut cands: Vec<Vec<u8>> = vec![];
            let mut add = |c: Vec<u8>| if !cands.contains(&c) { cands.push(c) };
            for x in vs { if let Some(m) = &x.magic { if lit_bytes(m, o.be).len() == n { add(lit_bytes(m, o.be)) } } }
            if !self.full_magic {
                for x in vs { if let Some(m) = &x.magic { let mut r = lit_bytes(m, o.be); r.reverse(); if r.len() == n { add(r) } } }
                add(vec![0xe7; n]);
            } else if n == 1 {
                for b in 0..=255u8 { add(vec![b]) }
            } else {
                for x in vs {
                    if let Some(m) = &x.magic {
                        let g = lit_bytes(m, o.be);
                        let mut r = g.clone();
                        r.reverse();
                        add(r);
                        for i in 0..g.len() { for b in 0..8 { let mut c = g.clone(); c[i] ^= 1 << b; add(c) } }
                    }
                }
                add(vec![0; n]);
            }
            match lit_prim(first) { Some(p) => self.rec_val(p.rust(), o), None => self.rec_list(&U8, n as u64, o, o.name.map(|n| n.to_string()), false) }
            let at = self.pos;
            let got = match lit_prim(first) {
                Some(p) => match self.bytes(n as u64, &cands) {
                    Ok(b) => dec(p, &b, o.be),
                    Err(e @ EV::Unspec(_)) => return Err(e),
                    Err(e) => { self.rewind(at)?; return Err(e) }
                },
                None => V::L(self.bytes(n as u64, &cands)?.into_iter().map(|b| V::I(b as i128)).collect()),
            };
            for x in vs {
                if let Some(m) = &x.magic {
                    if lit_eq(&got, &lit_v(m)) && x.pre.iter().all(|a| self.ev(&a.cond, env) != 0) { return name(x) }
                }
            }
            Err(EV::NoVariant { pos: start })
        }
    }

    fn fields(&mut self, fs: &[Field], o: Opts, env: &mut Env, start: u64) -> R<Vec<(String, V)>> {
        let mut post: Vec<(usize, Opts, Vec<i128>)> = vec![];
        for (i, f) in fs.iter().enumerate() {
            self.field(i, f, o, env, start, &mut post)?;
        }
        if !post.is_empty() {
            self.io()?;
            let saved = self.pos;
            for (i, fo, args) in post {
                let f = &fs[i];
                let mut fo = fo;
                for d in &f.dirs { if let Dir::OffsetAfter(e) = d { fo.offset = self.ev(e, env) as u64 } }
                let mut val = env.remove(&f.name).unwrap();
                let r = self.after(&mut val, &f.ty, fo, &args);
                env.insert(f.name.clone(), val);
                r?;
            }
            self.rewind(saved)?;
        }
        Ok(fs.iter().filter(|f| !f.temp()).map(|f| (f.name.clone(), env[&f.name].clone())).collect())
    }

    fn field(&mut self, i: usize, f: &Field, o: Opts, env: &mut Env, start: u64, post: &mut Vec<(usize, Opts, Vec<i128>)>) -> R<()> {
        let has = |k: fn(&Dir) -> bool| f.dirs.iter().any(k);
        let mut fo = o;
        if self.trace.is_some() { fo.name = Some(intern(&f.name)) }
        let mut args: Vec<i128> = vec![];
        for d in &f.dirs {
            match d {
                Dir::Big => fo.be = true,
                Dir::Little => fo.be = false,
                Dir::IsBig(e) => fo.be = self.ev(e, env) != 0,
                Dir::IsLittle(e) => fo.be = self.ev(e, env) == 0,
                Dir::Count(e) => fo.count = Some(self.ev(e, env) as u64),
                Dir::Offset(e) => fo.offset = self.ev(e, env) as u64,
                Dir::Args(es) | Dir::ArgsTuple(es) => args = es.iter().map(|e| self.ev(e, env)).collect(),
                _ => {}
            }
        }
        let dom = f.dom.as_deref();
        for d in &f.dirs { if let Dir::Magic(l) = d { self.magic(l, fo)? } }
        let restore = has(|d| matches!(d, Dir::RestorePosition));
        let saved = self.pos;
        if restore { self.io()? }
        let is_try = has(|d| matches!(d, Dir::Try));
        let deref_now = has(|d| matches!(d, Dir::DerefNow | Dir::PostprocessNow));
        let mapped = has(|d| matches!(d, Dir::Map(_) | Dir::TryMap(_)));
        let normal = !has(|d| matches!(d, Dir::Calc(_) | Dir::Default | Dir::Ignore | Dir::ParseWith(_)));

        let mut cond = true;
        let mut alt = None;
        for d in &f.dirs {
            match d {
                Dir::If(c, a) => { cond = self.ev(c, env) != 0; if !cond { alt = Some(match a { Some(e) => { let x = self.ev(e, env); as_field(&f.ty, x) } None => default_of(&f.ty) }) } }
                Dir::IfSome(c, a) => { cond = self.ev(c, env) != 0; if !cond { let x = self.ev(a, env); alt = Some(as_field(&f.ty, x)) } }
                _ => {}
            }
        }
        let val = if !cond {
            alt.unwrap()
        } else {
            for d in &f.dirs {
                if let Dir::SeekBefore(s) = d {
                    match s {
                        SeekE::Start(e) => { let x = self.ev(e, env) as u64 as i128; self.seek_to(x)? }
                        SeekE::Current(e) => { let x = self.ev(e, env) as i64 as i128; self.seek_to(self.pos as i128 + x)? }
                        SeekE::End(e) => {
                            let x = self.ev(e, env) as i64 as i128;
                            let b = self.branch && self.w.lengths;
                            let n = self.w.length(self.ch, b);
                            self.seek_to(n as i128 + x)?
                        }
                    }
                }
            }
            for d in &f.dirs { if let Dir::PadBefore(e) = d { let x = self.ev(e, env) as i64 as i128; self.seek_to(self.pos as i128 + x)? } }
            for d in &f.dirs { if let Dir::AlignBefore(e) = d { let x = self.ev(e, env); self.align(x)? } }
            let base = self.pos;
            if has(|d| matches!(d, Dir::PadSizeTo(_))) { self.io()? }
            if is_try || mapped { self.io()? }
            let at = self.pos;
            let mut x = match self.value(f, fo, &args, env, dom, is_try) {
                Ok(x) => if is_try { V::O(Some(Box::new(x))) } else { x },
                Err(e @ EV::Unspec(_)) => return Err(e),
                Err(e) => {
                    if !is_try { return Err(e) }
                    // the value could not be read: carry on from where it began
                    self.rewind(at)?;
                    V::O(None)
                }
            };
            for d in &f.dirs {
                if let Dir::Map(m) | Dir::TryMap(m) = d {
                    let mut e2 = env.clone();
                    bind_x(&mut e2, &x);
                    if let Some((c, fail)) = &m.fail {
                        if self.ev(c, &e2) != 0 {
                            return Err(match fail {
                                MapFail::Custom(e) => { let y = self.ev(e, &e2); EV::Custom { pos: at, payload: format!("PErr({})", y as i64) } }
                                MapFail::Io => EV::Io("InvalidData".into()),
                            });
                        }
                    }
                    let y = self.ev(&m.to, &e2);
                    x = as_field(&f.ty, m.ret.wrap(y));
                }
            }
            if deref_now && normal && !mapped { self.after(&mut x, &f.ty, fo, &args)? }
            for d in &f.dirs {
                if let Dir::PadSizeTo(e) = d {
                    self.io()?;
                    let pad = self.ev(e, env) as i64 as i128;
                    let size = self.pos as i128 - base as i128;
                    if size < pad { self.seek_to(self.pos as i128 + pad - size)? }
                }
            }
            for d in &f.dirs { if let Dir::PadAfter(e) = d { let x = self.ev(e, env) as i64 as i128; self.seek_to(self.pos as i128 + x)? } }
            for d in &f.dirs { if let Dir::AlignAfter(e) = d { let x = self.ev(e, env); self.align(x)? } }
            x
        };
        env.insert(f.name.clone(), val);
        for d in &f.dirs { if let Dir::Assert(a) = d { self.asserts(std::slice::from_ref(a), env, start)? } }
        if restore { self.rewind(saved)? }
        if normal && !mapped && !deref_now { post.push((i, fo, args)) }
        Ok(())
    }
    fn align(&mut self, n: i128) -> R<()> {
        self.io()?;
        if n <= 0 { return unspec("alignment to nothing") }
        let p = self.pos as i128;
        let t = (p + n - 1) / n * n;
        self.seek_to(t)
    }
    fn value(&mut self, f: &Field, o: Opts, args: &[i128], env: &Env, dom: Option<&[i128]>, is_try: bool) -> R<V> {
        let ty = match (&f.ty, is_try) { (Ty::Opt(t), true) => &**t, (t, _) => t };
        for d in &f.dirs {
            match d {
                Dir::Calc(e) => { let x = self.ev(e, env); return Ok(as_field(ty, x)) }
                Dir::Default | Dir::Ignore => return Ok(default_of(ty)),
                Dir::ParseWith(p) => return self.parse_with(p, ty, o, args, env, dom),
                _ => {}
            }
        }
        for d in &f.dirs {
            if let Dir::Map(m) | Dir::TryMap(m) = d { return self.read_ty(&m.from, o, args, dom) }
        }
        self.read_ty(ty, o, args, dom)
    }
    fn parse_with(&mut self, p: &PW, ty: &Ty, o: Opts, args: &[i128], env: &Env, dom: Option<&[i128]>) -> R<V> {
        let elem = match ty { Ty::Vec(t) | Ty::Deq(t) => (**t).clone(), t => t.clone() };
        // the elements are values of their own, which the field's name does not stand for
        let named = o;
        let o = match p { PW::Until(_) | PW::UntilEx(_) | PW::UntilEof | PW::Count(_) => Opts { name: None, ..o }, _ => named };
        match p {
            PW::Probe => {
                let r = self.rec(o, args)?;
                Ok(V::S("Probe".into(), vec![("read".into(), V::L(vec![r])), ("after".into(), V::L(vec![]))]))
            }
            PW::U16 | PW::Closure(_) => {
                let k: i128 = if let PW::Closure(e) = p { self.ev(e, env) } else { args.iter().sum() };
                self.io()?;
                self.rec_val("u16", o);
                let x = self.prim(P::U16, o.be, dom)?;
                Ok(V::I(P::U16.wrap(int(&x) + P::U16.wrap(k as i64 as i128))))
            }
            PW::FailAfter(n) => {
                self.bytes(*n as u64, &[])?;
                Err(EV::Custom { pos: 0, payload: format!("PErr({})", n) })
            }
            PW::Until(e) | PW::UntilEx(e) => {
                let mut out = vec![];
                loop {
                    let x = self.full(&elem, o, args, dom)?;
                    let mut e2 = env.clone();
                    bind_x(&mut e2, &x);
                    let stop = self.ev(e, &e2) != 0;
                    if stop {
                        if let PW::Until(_) = p { out.push(x) }
                        return Ok(V::L(out));
                    }
                    out.push(x);
                }
            }
            PW::UntilEof => {
                let mut out = vec![];
                loop {
                    match self.full(&elem, o, args, dom) {
                        Ok(x) => out.push(x),
                        Err(EV::Io(k)) if k == "UnexpectedEof" => return Ok(V::L(out)),
                        Err(e) => return Err(e),
                    }
                }
            }
            PW::Count(e) => {
                let n = self.ev(e, env) as u64;
                let mut out = vec![];
                for _ in 0..n { out.push(self.full(&elem, o, args, dom)?) }
                Ok(V::L(out))
            }
            PW::ReadBytes => {
                let n = match o.count { Some(n) => n, None => return unspec("read_bytes without count") };
                let mut out = vec![];
                for _ in 0..n { match self.bytes(1, &[]) { Ok(b) => out.push(V::I(b[0] as i128)), Err(e) => return Err(e) } }
                Ok(V::L(out))
            }
            PW::PtrParse(p) => {
                let pt = Ty::Ptr(*p, Box::new(ty.clone()));
                let mut x = self.read_ty(&pt, o, args, dom)?;
                self.io()?;
                let saved = self.pos;
                self.after(&mut x, &pt, o, args)?;
                self.rewind(saved)?;
                match x { V::Ptr(_, Some(t)) => Ok(*t), _ => unreachable!() }
            }
            PW::PunctSep | PW::PunctTrail => {
                let n = match o.count { Some(n) => n, None => return unspec("Punctuated without count") };
                let (t, s) = match ty { Ty::Punct(t, s) => (&**t, &**s), _ => unreachable!() };
                let (mut a, mut b) = (vec![], vec![]);
                for i in 0..n {
                    a.push(self.full(t, o, args, dom)?);
                    if *p == PW::PunctTrail || i + 1 != n { b.push(self.full(s, o, &[], dom)?) }
                }
                Ok(V::Pun(a, b))
            }
        }
    }
}

fn bind_x(env: &mut Env, x: &V) {
    env.insert("x".into(), x.clone());
    env.insert("*x".into(), x.clone());
    match x {
        V::S(_, fs) => for (n, y) in fs { env.insert(format!("x.{}", n), y.clone()); },
        V::T(xs) => for (i, y) in xs.iter().enumerate() { env.insert(format!("x.{}", i), y.clone()); },
        V::L(xs) => for (i, y) in xs.iter().enumerate() { env.insert(format!("x[{}]", i), y.clone()); },
        V::Pos(p, y) => { env.insert("x.pos".into(), V::I(*p as i128)); env.insert("x.val".into(), (**y).clone()); }
        _ => {}
    }
}
