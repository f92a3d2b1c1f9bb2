//! The vocabulary in which declarations are written down: a small syntax tree of types,
//! directives and expressions. `build.rs` renders it as Rust source using the real derive;
//! `refi.rs` interprets it independently, from the documentation.
#![allow(dead_code)]

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum P { U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64, Char }

pub const ALL_P: [P; 13] = [P::U8, P::U16, P::U32, P::U64, P::U128, P::I8, P::I16, P::I32, P::I64, P::I128, P::F32, P::F64, P::Char];
pub const INTS: [P; 10] = [P::U8, P::U16, P::U32, P::U64, P::U128, P::I8, P::I16, P::I32, P::I64, P::I128];

impl P {
    pub fn width(self) -> usize {
        match self {
            P::U8 | P::I8 | P::Char => 1,
            P::U16 | P::I16 => 2,
            P::U32 | P::I32 | P::F32 => 4,
            P::U64 | P::I64 | P::F64 => 8,
            P::U128 | P::I128 => 16,
        }
    }
    pub fn signed(self) -> bool { matches!(self, P::I8 | P::I16 | P::I32 | P::I64 | P::I128) }
    pub fn is_int(self) -> bool { !matches!(self, P::F32 | P::F64 | P::Char) }
    pub fn rust(self) -> &'static str {
        match self {
            P::U8 => "u8", P::U16 => "u16", P::U32 => "u32", P::U64 => "u64", P::U128 => "u128",
            P::I8 => "i8", P::I16 => "i16", P::I32 => "i32", P::I64 => "i64", P::I128 => "i128",
            P::F32 => "f32", P::F64 => "f64", P::Char => "char",
        }
    }
    /// `x as Self` (for integers)
    pub fn wrap(self, x: i128) -> i128 {
        match self {
            P::U8 => x as u8 as i128, P::U16 => x as u16 as i128, P::U32 => x as u32 as i128,
            P::U64 => x as u64 as i128, P::U128 => x, P::I8 => x as i8 as i128, P::I16 => x as i16 as i128,
            P::I32 => x as i32 as i128, P::I64 => x as i64 as i128, P::I128 => x,
            P::F32 | P::F64 | P::Char => x,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    P(P),
    Arr(Box<Ty>, usize),
    Vec(Box<Ty>),
    Deq(Box<Ty>),
    Opt(Box<Ty>),
    Tup(Vec<Ty>),
    Bx(Box<Ty>),
    Unit,
    Phantom,
    NStr,
    WStr,
    Nz8,
    Nz16,
    Ptr(P, Box<Ty>),
    Pos(Box<Ty>),
    Punct(Box<Ty>, Box<Ty>),
    /// hand-written BinRead type that records the options, position and arguments it is given
    Probe(usize),
    User(String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { Add, Sub, Mul, Eq, Ne, Lt, Ge, And, Or, BitXor }

#[derive(Clone, PartialEq, Debug)]
pub enum E {
    L(i128),
    B(bool),
    /// an earlier integer field, import or closure parameter
    V(String),
    Len(String),
    Deref(String),
    Bin(Op, Box<E>, Box<E>),
    Not(Box<E>),
    Tick(u32, Box<E>),
}

pub fn l(x: i128) -> E { E::L(x) }
pub fn v(s: &str) -> E { E::V(s.into()) }
pub fn len(s: &str) -> E { E::Len(s.into()) }
pub fn deref(s: &str) -> E { E::Deref(s.into()) }
pub fn bin(o: Op, a: E, b: E) -> E { E::Bin(o, Box::new(a), Box::new(b)) }
pub fn add(a: E, b: E) -> E { bin(Op::Add, a, b) }
pub fn sub(a: E, b: E) -> E { bin(Op::Sub, a, b) }
pub fn mul(a: E, b: E) -> E { bin(Op::Mul, a, b) }
pub fn eq(a: E, b: E) -> E { bin(Op::Eq, a, b) }
pub fn ne(a: E, b: E) -> E { bin(Op::Ne, a, b) }
pub fn lt(a: E, b: E) -> E { bin(Op::Lt, a, b) }
pub fn ge(a: E, b: E) -> E { bin(Op::Ge, a, b) }
pub fn and(a: E, b: E) -> E { bin(Op::And, a, b) }
pub fn not(a: E) -> E { E::Not(Box::new(a)) }
pub fn tick(n: u32, e: E) -> E { E::Tick(n, Box::new(e)) }

impl E {
    pub fn is_bool(&self) -> bool {
        match self {
            E::B(_) | E::Not(_) => true,
            E::Bin(o, ..) => matches!(o, Op::Eq | Op::Ne | Op::Lt | Op::Ge | Op::And | Op::Or),
            E::Tick(_, e) => e.is_bool(),
            _ => false,
        }
    }
    /// Rust text; integers as i128
    pub fn rust(&self) -> String {
        match self {
            E::L(x) => format!("{}i128", x),
            E::B(b) => format!("{}", b),
            E::V(s) => format!("({} as i128)", s),
            E::Len(s) => format!("({}.len() as i128)", s),
            E::Deref(s) => format!("(*{} as i128)", s),
            E::Bin(o, a, b) => {
                let op = match o {
                    Op::Add => "+", Op::Sub => "-", Op::Mul => "*", Op::Eq => "==", Op::Ne => "!=",
                    Op::Lt => "<", Op::Ge => ">=", Op::And => "&&", Op::Or => "||", Op::BitXor => "^",
                };
                format!("({} {} {})", a.rust(), op, b.rust())
            }
            E::Not(a) => format!("(!{})", a.rust()),
            E::Tick(n, e) => format!("mc::tick({}u32, {})", n, e.rust()),
        }
    }
    /// as it stands in a directive: nothing around it
    pub fn bare(&self) -> String {
        match self {
            E::Bin(..) | E::Not(_) => { let s = self.rust(); s[1..s.len() - 1].to_string() }
            e => e.rust(),
        }
    }
    pub fn bare_cast(&self, t: &str) -> String {
        match self {
            E::L(x) if *x >= 0 => format!("{}", x),
            e => format!("{} as {}", e.rust(), t),
        }
    }
    /// as a natural integer expression where any integer type will do
    pub fn any(&self) -> String {
        match self {
            E::L(x) => format!("{}", x),
            E::V(s) => s.clone(),
            e => e.bare(),
        }
    }
    pub fn cast(&self, t: &str) -> String {
        match self {
            E::L(x) if *x >= 0 => format!("{}", x),
            e => format!("({} as {})", e.rust(), t),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Lit { Byte(u8), Str(Vec<u8>), Char(char), Int(i128, P), F32(f32), F64(f64) }

#[derive(Clone, PartialEq, Debug)]
pub enum AForm { Bare, Msg(String), Fmt(String, Vec<E>), Err(E) }
#[derive(Clone, PartialEq, Debug)]
pub struct Asrt { pub cond: E, pub form: AForm }

#[derive(Clone, PartialEq, Debug)]
pub enum SeekE { Start(E), Current(E), End(E) }

#[derive(Clone, PartialEq, Debug)]
pub enum MapFail { Custom(E), Io }
#[derive(Clone, PartialEq, Debug)]
pub struct MapFn {
    /// type read
    pub from: Ty,
    /// result expression over `x` (and earlier fields)
    pub to: E,
    /// try_map: Err if this holds
    pub fail: Option<(E, MapFail)>,
    /// Rust result type (an integer)
    pub ret: P,
}

#[derive(Clone, PartialEq, Debug)]
pub enum PW {
    Probe,
    Until(E),
    UntilEx(E),
    UntilEof,
    Count(E),
    ReadBytes,
    PtrParse(P),
    PunctSep,
    PunctTrail,
    /// reads a u16 with the given options, adds the single argument if any
    U16,
    /// reads n bytes, then fails with a Custom error
    FailAfter(usize),
    /// closure over an earlier field
    Closure(E),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Dir {
    Big, Little, IsBig(E), IsLittle(E),
    Map(MapFn), TryMap(MapFn),
    Magic(Lit),
    Args(Vec<E>), ArgsTuple(Vec<E>),
    Calc(E), Default, Ignore, ParseWith(PW),
    Count(E), Offset(E), OffsetAfter(E),
    If(E, Option<E>),
    /// `if` whose alternate is Some(expr) for an Option-typed field
    IfSome(E, E),
    DerefNow, PostprocessNow,
    RestorePosition, Try, Temp,
    Assert(Asrt),
    PadBefore(E), PadAfter(E), AlignBefore(E), AlignAfter(E),
    SeekBefore(SeekE), PadSizeTo(E),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub dirs: Vec<Dir>,
    /// candidate values for integers read in this field (None: the position's own pattern)
    pub dom: Option<Vec<i128>>,
    /// write each directive in an attribute of its own
    pub split: bool,
}
pub fn fld(name: &str, ty: Ty, dirs: Vec<Dir>) -> Field { Field { name: name.into(), ty, dirs, dom: None, split: false } }
impl Field {
    pub fn dom(mut self, d: &[i128]) -> Field { self.dom = Some(d.to_vec()); self }
    pub fn split(mut self) -> Field { self.split = true; self }
    pub fn temp(&self) -> bool { self.dirs.iter().any(|d| matches!(d, Dir::Temp)) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End { Big, Little }
#[derive(Clone, PartialEq, Debug)]
pub enum Imports { None, List(Vec<(String, P)>), Tuple(String, Vec<P>) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ErrMode { All, Unexpected }

#[derive(Clone, PartialEq, Debug)]
pub enum Ctor { Struct(Vec<E>), Variant(String, Vec<E>), Fail(E), FailIo }
#[derive(Clone, PartialEq, Debug)]
pub struct MapTop { pub from: Ty, pub is_try: bool, pub arms: Vec<(E, Ctor)>, pub last: Ctor }

#[derive(Clone, PartialEq, Debug)]
pub struct Top {
    pub endian: Option<End>,
    pub magic: Option<Lit>,
    pub imports: Imports,
    pub pre: Vec<Asrt>,
    pub asserts: Vec<Asrt>,
    pub map: Option<MapTop>,
    pub repr: Option<P>,
    pub mode: Option<ErrMode>,
}
impl Default for Top {
    fn default() -> Self {
        Top { endian: None, magic: None, imports: Imports::None, pre: vec![], asserts: vec![], map: None, repr: None, mode: None }
    }
}
impl Top {
    pub fn magic(mut self, m: Lit) -> Top { self.magic = Some(m); self }
    pub fn big(mut self) -> Top { self.endian = Some(End::Big); self }
    pub fn little(mut self) -> Top { self.endian = Some(End::Little); self }
    pub fn end(mut self, e: Option<End>) -> Top { self.endian = e; self }
    pub fn import(mut self, i: &[(&str, P)]) -> Top { self.imports = Imports::List(i.iter().map(|(a, b)| (a.to_string(), *b)).collect()); self }
    pub fn import_tuple(mut self, n: &str, t: &[P]) -> Top { self.imports = Imports::Tuple(n.into(), t.to_vec()); self }
    pub fn pre(mut self, a: Asrt) -> Top { self.pre.push(a); self }
    pub fn assert(mut self, a: Asrt) -> Top { self.asserts.push(a); self }
    pub fn repr(mut self, p: P) -> Top { self.repr = Some(p); self }
    pub fn mode(mut self, m: ErrMode) -> Top { self.mode = Some(m); self }
    pub fn map(mut self, m: MapTop) -> Top { self.map = Some(m); self }
}
pub fn top() -> Top { Top::default() }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape { Unit, Named, Tuple }

#[derive(Clone, PartialEq, Debug)]
pub struct Variant {
    pub name: String,
    pub shape: Shape,
    pub fields: Vec<Field>,
    pub endian: Option<End>,
    pub magic: Option<Lit>,
    pub pre: Vec<Asrt>,
    pub asserts: Vec<Asrt>,
    pub disc: Option<i128>,
}
pub fn var(name: &str, shape: Shape, fields: Vec<Field>) -> Variant {
    Variant { name: name.into(), shape, fields, endian: None, magic: None, pre: vec![], asserts: vec![], disc: None }
}
pub fn uvar(name: &str) -> Variant { var(name, Shape::Unit, vec![]) }
impl Variant {
    pub fn magic(mut self, m: Lit) -> Self { self.magic = Some(m); self }
    pub fn end(mut self, e: Option<End>) -> Self { self.endian = e; self }
    pub fn pre(mut self, a: Asrt) -> Self { self.pre.push(a); self }
    pub fn assert(mut self, a: Asrt) -> Self { self.asserts.push(a); self }
    pub fn disc(mut self, d: i128) -> Self { self.disc = Some(d); self }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Struct(Shape, Vec<Field>),
    Enum(Vec<Variant>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Def {
    pub name: String,
    pub top: Top,
    pub kind: Kind,
}
pub fn st(name: &str, top: Top, fields: Vec<Field>) -> Def { Def { name: name.into(), top, kind: Kind::Struct(Shape::Named, fields) } }
pub fn tst(name: &str, top: Top, fields: Vec<Field>) -> Def {
    // tuple fields are referred to by the names that the reference gives them
    let fields = fields.into_iter().enumerate().map(|(i, mut f)| { f.name = format!("self_{}", i); f }).collect();
    Def { name: name.into(), top, kind: Kind::Struct(Shape::Tuple, fields) }
}
pub fn ust(name: &str, top: Top) -> Def { Def { name: name.into(), top, kind: Kind::Struct(Shape::Unit, vec![]) } }
pub fn en(name: &str, top: Top, vs: Vec<Variant>) -> Def {
    let vs = vs.into_iter().map(|mut x| {
        if x.shape == Shape::Tuple { for (i, f) in x.fields.iter_mut().enumerate() { f.name = format!("self_{}", i); } }
        x
    }).collect();
    Def { name: name.into(), top, kind: Kind::Enum(vs) }
}

impl Def {
    pub fn unit_only(&self) -> bool {
        matches!(&self.kind, Kind::Enum(vs) if vs.iter().all(|x| x.shape == Shape::Unit))
    }
    pub fn needs_attr_macro(&self) -> bool {
        match &self.kind {
            Kind::Struct(_, fs) => fs.iter().any(|f| f.temp()),
            Kind::Enum(vs) => vs.iter().any(|x| x.fields.iter().any(|f| f.temp())),
        }
    }
    pub fn arg_types(&self) -> Vec<P> {
        match &self.top.imports {
            Imports::None => vec![],
            Imports::List(ps) => ps.iter().map(|x| x.1).collect(),
            Imports::Tuple(_, ps) => ps.clone(),
        }
    }
}

/// one thing to read
#[derive(Clone, PartialEq, Debug)]
pub struct Root {
    pub ty: Ty,
    /// arguments for the type itself
    pub args: Vec<i128>,
    /// bytes that may exist behind the start position at most
    pub max_len: u64,
    /// options given by the caller: count and offset
    pub count: Option<u64>,
    pub offset: u64,
    pub entries: Entries,
    pub starts: Starts,
    /// domain for integers at top level (non-derived roots)
    pub dom: Option<Vec<i128>>,
    pub note: String,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Entries { BeLe, All, Be, Options }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Starts { Zero, Few, All, Three }

pub fn root(ty: Ty) -> Root {
    Root { ty, args: vec![], max_len: 48, count: None, offset: 0, entries: Entries::BeLe, starts: Starts::Few, dom: None, note: String::new() }
}
impl Root {
    pub fn max(mut self, n: u64) -> Root { self.max_len = n; self }
    pub fn entries(mut self, e: Entries) -> Root { self.entries = e; self }
    pub fn starts(mut self, e: Starts) -> Root { self.starts = e; self }
    pub fn args(mut self, a: &[i128]) -> Root { self.args = a.to_vec(); self }
    pub fn count(mut self, n: u64) -> Root { self.count = Some(n); self.entries = Entries::Options; self }
    pub fn offset(mut self, n: u64) -> Root { self.offset = n; self.entries = Entries::Options; self }
    pub fn dom(mut self, d: &[i128]) -> Root { self.dom = Some(d.to_vec()); self }
    pub fn note(mut self, s: &str) -> Root { self.note = s.into(); self }
}

#[derive(Clone, Default, Debug)]
pub struct Universe { pub defs: Vec<Def>, pub roots: Vec<Root> }
impl Universe {
    pub fn def(&mut self, d: Def) -> Ty {
        assert!(!self.defs.iter().any(|x| x.name == d.name), "duplicate def {}", d.name);
        let n = d.name.clone();
        self.defs.push(d);
        Ty::User(n)
    }
    pub fn root(&mut self, r: Root) { self.roots.push(r) }
    pub fn add(&mut self, d: Def) { let t = self.def(d); self.root(root(t)) }
    pub fn get(&self, n: &str) -> &Def { self.defs.iter().find(|d| d.name == n).unwrap_or_else(|| panic!("no def {}", n)) }
    pub fn arity(&self, t: &Ty) -> usize {
        match t {
            Ty::User(n) => self.get(n).arg_types().len(),
            Ty::Probe(n) => *n,
            Ty::Arr(t, _) | Ty::Vec(t) | Ty::Deq(t) | Ty::Opt(t) | Ty::Bx(t) | Ty::Ptr(_, t) | Ty::Pos(t) | Ty::Punct(t, _) => self.arity(t),
            _ => 0,
        }
    }
    pub fn arg_types(&self, t: &Ty) -> Vec<P> {
        match t {
            Ty::User(n) => self.get(n).arg_types(),
            Ty::Probe(n) => vec![P::I64; *n],
            Ty::Arr(t, _) | Ty::Vec(t) | Ty::Deq(t) | Ty::Opt(t) | Ty::Bx(t) | Ty::Ptr(_, t) | Ty::Pos(t) | Ty::Punct(t, _) => self.arg_types(t),
            _ => vec![],
        }
    }
}

// ---- short names used by the universes
pub const U8: Ty = Ty::P(P::U8);
pub const U16: Ty = Ty::P(P::U16);
pub const U32: Ty = Ty::P(P::U32);
pub const U64: Ty = Ty::P(P::U64);
pub const I8: Ty = Ty::P(P::I8);
pub const I16: Ty = Ty::P(P::I16);
pub const F32: Ty = Ty::P(P::F32);
pub fn arr(t: Ty, n: usize) -> Ty { Ty::Arr(Box::new(t), n) }
pub fn vec_(t: Ty) -> Ty { Ty::Vec(Box::new(t)) }
pub fn deq(t: Ty) -> Ty { Ty::Deq(Box::new(t)) }
pub fn opt(t: Ty) -> Ty { Ty::Opt(Box::new(t)) }
pub fn bx(t: Ty) -> Ty { Ty::Bx(Box::new(t)) }
pub fn tup(t: Vec<Ty>) -> Ty { Ty::Tup(t) }
pub fn ptr(p: P, t: Ty) -> Ty { Ty::Ptr(p, Box::new(t)) }
pub fn posv(t: Ty) -> Ty { Ty::Pos(Box::new(t)) }
pub fn punct(t: Ty, s: Ty) -> Ty { Ty::Punct(Box::new(t), Box::new(s)) }
pub fn bare(c: E) -> Asrt { Asrt { cond: c, form: AForm::Bare } }
pub fn msg(c: E, m: &str) -> Asrt { Asrt { cond: c, form: AForm::Msg(m.into()) } }
pub fn fmt(c: E, m: &str, a: Vec<E>) -> Asrt { Asrt { cond: c, form: AForm::Fmt(m.into(), a) } }
pub fn aerr(c: E, e: E) -> Asrt { Asrt { cond: c, form: AForm::Err(e) } }
pub fn mapf(from: Ty, to: E, ret: P) -> MapFn { MapFn { from, to, fail: None, ret } }
pub fn tmapf(from: Ty, to: E, ret: P, c: E, f: MapFail) -> MapFn { MapFn { from, to, fail: Some((c, f)), ret } }
