//! Canonical values and errors, the hand-written helper types used in declarations.
use crate::explore::{Entry, Ran};
use crate::sess::McReader;
use binread::io::{Error as IoError, ErrorKind, Read, Seek, SeekFrom};
use binread::{BinRead, BinReaderExt, BinResult, Endian, Error, ReadOptions};
use std::any::Any;
use std::cell::RefCell;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum V {
    I(i128),
    F32(u32),
    F64(u64),
    C(u32),
    L(Vec<V>),
    T(Vec<V>),
    S(String, Vec<(String, V)>),
    O(Option<Box<V>>),
    Ptr(Box<V>, Option<Box<V>>),
    Pos(u64, Box<V>),
    Str(Vec<u8>),
    W(Vec<u16>),
    Pun(Vec<V>, Vec<V>),
    U,
}
pub fn vs(n: &str, f: Vec<(&str, V)>) -> V {
    V::S(n.to_string(), f.into_iter().map(|(a, b)| (a.to_string(), b)).collect())
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum EV {
    Io(String),
    BadMagic { pos: u64, found: Option<V> },
    Assert { pos: u64, msg: String },
    /// payload: PErr's number, or a description
    Custom { pos: u64, payload: String },
    NoVariant { pos: u64 },
    Enum { pos: u64, errs: Vec<(String, EV)> },
    /// the reference does not say
    Unspec(String),
    /// outcome: the call panicked
    Panic(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct PErr(pub i64);
pub fn io_err() -> IoError { IoError::new(ErrorKind::InvalidData, "mapped io error") }

impl std::fmt::Display for PErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "PErr {}", self.0) }
}

thread_local! { pub static TICKS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) } }
pub fn tick<T>(n: u32, v: T) -> T {
    TICKS.with(|t| t.borrow_mut().push(n));
    v
}

pub trait ToV { fn to_v(&self) -> V; }
macro_rules! ints { ($($t:ty)*) => { $(impl ToV for $t { fn to_v(&self) -> V { V::I(*self as i128) } })* } }
ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 usize);
impl ToV for f32 { fn to_v(&self) -> V { V::F32(self.to_bits()) } }
impl ToV for f64 { fn to_v(&self) -> V { V::F64(self.to_bits()) } }
impl ToV for char { fn to_v(&self) -> V { V::C(*self as u32) } }
impl ToV for bool { fn to_v(&self) -> V { V::I(*self as i128) } }
impl ToV for () { fn to_v(&self) -> V { V::U } }
impl<T> ToV for core::marker::PhantomData<T> { fn to_v(&self) -> V { V::U } }
impl ToV for core::num::NonZeroU8 { fn to_v(&self) -> V { V::I(self.get() as i128) } }
impl ToV for core::num::NonZeroU16 { fn to_v(&self) -> V { V::I(self.get() as i128) } }
impl<T: ToV> ToV for Vec<T> { fn to_v(&self) -> V { V::L(self.iter().map(|x| x.to_v()).collect()) } }
impl<T: ToV> ToV for std::collections::VecDeque<T> { fn to_v(&self) -> V { V::L(self.iter().map(|x| x.to_v()).collect()) } }
impl<T: ToV, const N: usize> ToV for [T; N] { fn to_v(&self) -> V { V::L(self.iter().map(|x| x.to_v()).collect()) } }
impl<T: ToV> ToV for Box<T> { fn to_v(&self) -> V { (**self).to_v() } }
impl<T: ToV> ToV for Option<T> { fn to_v(&self) -> V { V::O(self.as_ref().map(|x| Box::new(x.to_v()))) } }
impl<T: ToV> ToV for binread::PosValue<T> {
    fn to_v(&self) -> V {
        let v = self.val.to_v();
        assert!((**self).to_v() == v, "PosValue dereferences to another value");
        V::Pos(self.pos, Box::new(v))
    }
}
impl ToV for binread::NullString { fn to_v(&self) -> V { V::Str(self.0.clone()) } }
impl ToV for binread::NullWideString { fn to_v(&self) -> V { V::W(self.0.clone()) } }
impl<P: binread::file_ptr::IntoSeekFrom + ToV, T: BinRead + ToV> ToV for binread::FilePtr<P, T> {
    fn to_v(&self) -> V {
        let v = self.value.as_ref().map(|x| Box::new(x.to_v()));
        if let Some(v) = &v { assert!((**self).to_v() == **v, "FilePtr dereferences to another value") }
        V::Ptr(Box::new(self.ptr.to_v()), v)
    }
}
impl<T: BinRead + ToV, S: BinRead + ToV> ToV for binread::punctuated::Punctuated<T, S> {
    fn to_v(&self) -> V { V::Pun((**self).iter().map(|x| x.to_v()).collect(), self.seperators.iter().map(|x| x.to_v()).collect()) }
}
macro_rules! tup { ($($n:ident)*) => { #[allow(non_snake_case)] impl<$($n: ToV),*> ToV for ($($n,)*) { fn to_v(&self) -> V { let ($($n,)*) = self; V::T(vec![$($n.to_v()),*]) } } } }
tup!(T0);
tup!(T0 T1);
tup!(T0 T1 T2);
tup!(T0 T1 T2 T3);
tup!(T0 T1 T2 T3 T4);
tup!(T0 T1 T2 T3 T4 T5);
tup!(T0 T1 T2 T3 T4 T5 T6);
tup!(T0 T1 T2 T3 T4 T5 T6 T7);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23 T24);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23 T24 T25);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23 T24 T25 T26);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23 T24 T25 T26 T27);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23 T24 T25 T26 T27 T28);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23 T24 T25 T26 T27 T28 T29);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23 T24 T25 T26 T27 T28 T29 T30);
tup!(T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23 T24 T25 T26 T27 T28 T29 T30 T31);

fn found_v(b: &(dyn Any + Send + Sync)) -> Option<V> {
    macro_rules! t { ($($t:ty)*) => { $(if let Some(x) = b.downcast_ref::<$t>() { return Some(x.to_v()); })* } }
    t!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char);
    macro_rules! a { ($($n:literal)*) => { $(if let Some(x) = b.downcast_ref::<[u8; $n]>() { return Some(x.to_v()); })* } }
    a!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
    None
}

pub fn kind(k: ErrorKind) -> String { format!("{:?}", k) }

pub fn err_v(e: &Error) -> EV {
    if !matches!(e, Error::Custom { .. }) && (e.custom_err::<PErr>().is_some() || e.custom_err::<IoError>().is_some()) { return EV::Panic("custom_err finds an error that is not there".into()) }
    match e {
        Error::Io(e) => EV::Io(kind(e.kind())),
        Error::BadMagic { pos, found } => EV::BadMagic { pos: *pos, found: found_v(&**found) },
        Error::AssertFail { pos, message } => EV::Assert { pos: *pos, msg: message.clone() },
        Error::Custom { pos, err } => {
            let payload = if let Some(p) = err.downcast_ref::<PErr>() {
                // the documented accessor has to see the same thing
                if e.custom_err::<PErr>() == Some(p) { format!("PErr({})", p.0) } else { "custom_err disagrees".into() }
            } else if let Some(x) = err.downcast_ref::<IoError>() {
                if e.custom_err::<IoError>().map(|y| y as *const IoError) == Some(x as *const IoError) { format!("io::Error({:?})", x.kind()) } else { "custom_err disagrees".into() }
            } else {
                "?".into()
            };
            EV::Custom { pos: *pos, payload }
        }
        Error::NoVariantMatch { pos } => EV::NoVariant { pos: *pos },
        Error::EnumErrors { pos, variant_errors } => EV::Enum { pos: *pos, errs: variant_errors.iter().map(|(n, e)| (n.to_string(), err_v(e))).collect() },
        _ => EV::Unspec("unknown error variant".into()),
    }
}

// ---------------------------------------------------------------- hand-written BinRead types

#[derive(Clone, Debug)]
pub struct Rec { pub pos: u64, pub be: bool, pub count: Option<usize>, pub offset: u64, pub args: Vec<i64> }
impl Rec {
    fn v(&self) -> V {
        V::T(vec![
            V::I(self.pos as i128), V::I(self.be as i128),
            V::O(self.count.map(|c| Box::new(V::I(c as i128)))), V::I(self.offset as i128),
            V::L(self.args.iter().map(|x| V::I(*x as i128)).collect()),
        ])
    }
}
fn is_be(e: Endian) -> bool { match e { Endian::Big => true, Endian::Little => false, Endian::Native => cfg!(target_endian = "big") } }
fn rec<R: Read + Seek>(r: &mut R, o: &ReadOptions, args: Vec<i64>) -> BinResult<Rec> {
    let pos = r.seek(SeekFrom::Current(0))?;
    Ok(Rec { pos, be: is_be(o.endian), count: o.count, offset: o.offset, args })
}
pub trait ArgsV: Copy + 'static { fn vec(self) -> Vec<i64>; }
impl ArgsV for () { fn vec(self) -> Vec<i64> { vec![] } }
impl ArgsV for (i64,) { fn vec(self) -> Vec<i64> { vec![self.0] } }
impl ArgsV for (i64, i64) { fn vec(self) -> Vec<i64> { vec![self.0, self.1] } }

macro_rules! probe {
    ($n:ident, $a:ty) => {
        #[derive(Clone, Debug, Default)]
        pub struct $n { pub read: Vec<Rec>, pub after: Vec<Rec> }
        impl BinRead for $n {
            type Args = $a;
            fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: Self::Args) -> BinResult<Self> {
                Ok($n { read: vec![rec(r, o, a.vec())?], after: vec![] })
            }
            fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: Self::Args) -> BinResult<()> {
                self.after.push(rec(r, o, a.vec())?);
                Ok(())
            }
        }
        impl ToV for $n {
            fn to_v(&self) -> V { vs("Probe", vec![("read", V::L(self.read.iter().map(|r| r.v()).collect())), ("after", V::L(self.after.iter().map(|r| r.v()).collect()))]) }
        }
    };
}
probe!(Probe0, ());
probe!(Probe1, (i64,));
probe!(Probe2, (i64, i64));

pub fn probe_fn<R: Read + Seek, A: ArgsV>(r: &mut R, o: &ReadOptions, a: A) -> BinResult<Probe0> {
    Ok(Probe0 { read: vec![rec(r, o, a.vec())?], after: vec![] })
}
pub fn pw_add<R: Read + Seek>(r: &mut R, o: &ReadOptions, add: i64) -> BinResult<u16> {
    Ok(u16::read_options(r, o, ())?.wrapping_add(add as u16))
}
pub fn pw_u16<R: Read + Seek, A: ArgsV>(r: &mut R, o: &ReadOptions, a: A) -> BinResult<u16> {
    pw_add(r, o, a.vec().iter().sum())
}
pub fn pw_gen<R: Read + Seek, A>(k: i64) -> impl Fn(&mut R, &ReadOptions, A) -> BinResult<u16> {
    move |r, o, _| pw_add(r, o, k)
}
pub fn pw_fail_after<R: Read + Seek, A: ArgsV, T, const N: usize>(r: &mut R, _: &ReadOptions, _: A) -> BinResult<T> {
    let mut b = [0u8; N];
    r.read_exact(&mut b)?;
    Err(Error::Custom { pos: 0, err: Box::new(PErr(N as i64)) })
}

// ---------------------------------------------------------------- entry points

fn opts(be: Endian, count: Option<u64>, offset: u64) -> ReadOptions {
    let mut o = ReadOptions::default();
    o.endian = be;
    o.count = count.map(|c| c as usize);
    o.offset = offset;
    o
}

fn fin<T: ToV>(r: BinResult<T>) -> Ran {
    match r {
        Ok(v) => Ok(v.to_v()),
        Err(e) => Err(err_v(&e)),
    }
}

pub fn enter<T: BinRead<Args = ()> + ToV>(r: &mut McReader<'_>, en: &Entry) -> Ran {
    fin::<T>(match en {
        Entry::Read => T::read(r),
        Entry::ReadArgs => T::read_args(r, ()),
        Entry::Be => r.read_be(),
        Entry::Le => r.read_le(),
        Entry::Ne => r.read_ne(),
        Entry::TypeBe => r.read_type(Endian::Big),
        Entry::TypeLe => r.read_type(Endian::Little),
        Entry::BeArgs => r.read_be_args(()),
        Entry::LeArgs => r.read_le_args(()),
        Entry::NeArgs => r.read_ne_args(()),
        Entry::TypeArgs(be) => r.read_type_args(if *be { Endian::Big } else { Endian::Little }, ()),
        Entry::Opts { be, count, offset } => T::read_options(r, &opts(if *be { Endian::Big } else { Endian::Little }, *count, *offset), ()),
        Entry::NatOpts { count, offset } => T::read_options(r, &opts(Endian::Native, *count, *offset), ()),
    })
}
pub fn enter_args<T: BinRead + ToV>(r: &mut McReader<'_>, en: &Entry, a: T::Args) -> Ran {
    fin::<T>(match en {
        Entry::Read | Entry::ReadArgs => T::read_args(r, a),
        Entry::Be | Entry::BeArgs => r.read_be_args(a),
        Entry::Le | Entry::LeArgs => r.read_le_args(a),
        Entry::Ne | Entry::NeArgs => r.read_ne_args(a),
        Entry::TypeBe => r.read_type_args(Endian::Big, a),
        Entry::TypeLe => r.read_type_args(Endian::Little, a),
        Entry::TypeArgs(be) => r.read_type_args(if *be { Endian::Big } else { Endian::Little }, a),
        Entry::Opts { be, count, offset } => T::read_options(r, &opts(if *be { Endian::Big } else { Endian::Little }, *count, *offset), a),
        Entry::NatOpts { count, offset } => T::read_options(r, &opts(Endian::Native, *count, *offset), a),
    })
}
