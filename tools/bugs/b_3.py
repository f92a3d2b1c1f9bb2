BI = "binread/src/binread_impls.rs"
ST = "binread/src/strings.rs"
B("c15-try-io-only", "C15", [(SD, """                        Err(_) => {
                            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION))#handle_error?;
                            None""", """                        Err(error) => {
                            // anything that fails for a reason of its own has gone back already
                            if let #BIN_ERROR::Io(_) = error {
                                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION))#handle_error?;
                            }
                            None""")],
  "a try field whose type is a collection or tuple in which a later element fails for another reason than a reader error",
  "the reader is left after the elements that could be read",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
#[br(magic = 1u8)]
struct One;
#[derive(BinRead, Debug)]
struct S { #[br(try)] t: Option<(One, One)>, a: u8 }
fn main() {
    let s: S = Cursor::new([1u8, 2, 3]).read_be().unwrap();
    assert!(s.t.is_none());
    assert_eq!(s.a, 1);
}
""")
B("c15-try-interrupted", "C15", [(SD, """                        Err(_) => {
                            #SEEK_TRAIT""", """                        Err(error @ #BIN_ERROR::EnumErrors { .. }) => return Err(error),
                        Err(_) => {
                            #SEEK_TRAIT""")],
  "a try field whose value is a data enum that reports all its errors",
  "a data enum that cannot be read fails the whole read",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
enum E { #[br(magic = 1u8)] A(u8), #[br(magic = 2u8)] B(u8) }
#[derive(BinRead, Debug)]
struct S { #[br(try)] t: Option<E>, a: u8 }
fn main() {
    let s: S = Cursor::new([3u8, 2]).read_be().unwrap();
    assert!(s.t.is_none());
    assert_eq!(s.a, 3);
}
""")
B("c05-string-error", "C05", [(ST, ".take_while(|x| !matches!(x, Ok(0)))", ".take_while(|x| matches!(x, Ok(byte) if *byte != 0))")],
  "a reader that fails in the middle of a null-terminated string",
  "a reader failure ends the string as if it were its terminator",
  """
use binread::{io::{Cursor, Read, Seek, SeekFrom}, prelude::*, NullString};
struct R(Cursor<Vec<u8>>);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { if self.0.position() >= 2 { Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "t")) } else { let n = b.len().min(1); self.0.read(&mut b[..n]) } } }
impl Seek for R { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn main() {
    assert!(R(Cursor::new(b"abcd\\0".to_vec())).read_be::<NullString>().is_err());
}
""")
B("c12-vec-after", "C09", [(BI, """        for val in self.iter_mut() {
            val.after_parse(reader, ro, args)?;
        }

        Ok(())
    }
}

#[cfg(not(feature = "const_generics"))]
macro_rules""", """        // all elements lie behind one another, so nothing has to be resolved for those without a place of their own
        let n = self.len();
        for val in self.iter_mut().take(if core::mem::size_of::<B>() == 0 { 0 } else { n }) {
            val.after_parse(reader, ro, args)?;
        }

        Ok(())
    }
}

#[cfg(not(feature = "const_generics"))]
macro_rules""")],
  "a Vec of a zero-sized type that does something in after_parse",
  "zero-sized elements are not completed",
  """
use binread::{io::{Cursor, Read, Seek}, prelude::*, BinResult, ReadOptions};
use std::sync::atomic::*;
static N: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug)]
struct Z;
impl BinRead for Z {
    type Args = ();
    fn read_options<R: Read + Seek>(_: &mut R, _: &ReadOptions, _: ()) -> BinResult<Self> { Ok(Z) }
    fn after_parse<R: Read + Seek>(&mut self, _: &mut R, _: &ReadOptions, _: ()) -> BinResult<()> { N.fetch_add(1, Ordering::SeqCst); Ok(()) }
}
#[derive(BinRead, Debug)]
struct S { #[br(count = 3)] _v: Vec<Z> }
fn main() {
    let _: S = Cursor::new([0u8; 1]).read_be().unwrap();
    assert_eq!(N.load(Ordering::SeqCst), 3);
}
""")
B("c18-cg-array", "C18", [(BI, """        for val in self.iter_mut() {
            val.after_parse(reader, ro, args)?;
        }

        Ok(())
    }
}

/// Internal macro to recursively implement BinRead for every size tuple""", """        for val in self.iter_mut().take(64) {
            val.after_parse(reader, ro, args)?;
        }

        Ok(())
    }
}

/// Internal macro to recursively implement BinRead for every size tuple""")],
  "const_generics and an array of more than 64 pointers",
  "only the first 64 elements of an array are resolved",
  """
use binread::{io::Cursor, prelude::*, FilePtr};
#[derive(BinRead, Debug)]
struct S { a: [FilePtr<u8, u8>; 70] }
fn main() {
    let s: S = Cursor::new([7u8; 80]).read_be().unwrap();
    assert!(s.a.iter().all(|p| p.value == Some(7)));
}
""", features="const_generics")
B("c06-pos-start", "C06", [("binread/src/error.rs", """    let pos = reader.stream_pos()?;
    #[cfg(feature = "debug_template")]
    let options = {
        let mut options = *options;
        options.variable_name = Some("magic");""", """    let mut pos = reader.stream_pos()?;
    if options.offset > 0 {
        // positions are given relative to where offsets are counted from
        pos -= pos.min(options.offset);
    }
    #[cfg(feature = "debug_template")]
    let options = {
        let mut options = *options;
        options.variable_name = Some("magic");""")],
  "a wrong magic inside a field with an offset",
  "the position in BadMagic is relative to the offset in force",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
#[br(magic = 1u8)]
struct M(u8);
#[derive(BinRead, Debug)]
struct S { _a: u16, #[br(offset = 1)] _m: M }
fn main() {
    match Cursor::new([0u8, 0, 2, 3]).read_be::<S>() { Err(binread::Error::BadMagic { pos, .. }) => assert_eq!(pos, 2), x => panic!("{:?}", x) }
}
""")
B("c11-pre-after-magic", "C11", [(RO, """        self = self.add_magic();
        let pre_assertions = get_assertions(&self.input.pre_assertions());
        let head = self.out;

        self.out = quote! {
            #head
            #(#pre_assertions)*
        };

        self""", """        let pre_assertions = get_assertions(&self.input.pre_assertions());
        let head = self.out;

        self.out = quote! {
            #head
            #(#pre_assertions)*
        };

        self.add_magic()""")],
  "an object with both a magic and a pre_assert that both fail",
  "pre-assertions come before the magic",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
#[br(import(k: u8), magic = 1u8, pre_assert(k == 1))]
struct S { _a: u8 }
fn main() {
    assert!(matches!(Cursor::new([2u8, 0]).read_be_args::<S>((0,)), Err(binread::Error::BadMagic { .. })));
    assert!(matches!(Cursor::new([1u8, 0]).read_be_args::<S>((0,)), Err(binread::Error::AssertFail { .. })));
}
""")
B("c19-bytes-chunk", "C19", [("binread/src/helpers.rs", "    let mut buf = Vec::new();\n    while buf.len() < count {", "    let mut buf: Vec<u8> = Vec::with_capacity(count.min(1 << 30));\n    while buf.len() < count {")],
  "read_bytes with a huge count taken from the data",
  "up to a gigabyte is reserved however little data there is",
  """
use binread::{io::Cursor, prelude::*, helpers::read_bytes};
use std::alloc::*;
struct A;
static BIG: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BIG.fetch_max(l.size(), std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
#[derive(BinRead, Debug)]
struct S { n: u32, #[br(count = n, parse_with = read_bytes)] _v: Vec<u8> }
fn main() {
    assert!(Cursor::new([0x3fu8, 0xff, 0xff, 0xff, 1]).read_be::<S>().is_err());
    assert!(BIG.load(std::sync::atomic::Ordering::SeqCst) < 1 << 20);
}
""")
B("c23-eof-partial", "C24", [(BI, """                    reader.read_exact(&mut val).or_else(|e| {
                        reader.seek(SeekFrom::Start(pos))?;
                        Err(e)
                    })?;""", """                    reader.read_exact(&mut val).or_else(|e| {
                        // there is nothing to go back over
                        if core::mem::size_of::<$type_name>() > 4 {
                            reader.seek(SeekFrom::Start(pos))?;
                        }
                        Err(e)
                    })?;""")],
  "a bare u16 or u32 of which only some bytes exist",
  "a truncated small primitive moves the reader",
  """
use binread::{io::Cursor, prelude::*};
fn main() {
    let mut c = Cursor::new([1u8, 2, 3]);
    assert!(c.read_be::<u32>().is_err());
    assert_eq!(c.position(), 0);
}
""")
B("c24-nan", "C24", [(BI, "binread_impl!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);", """binread_impl!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32);

impl BinRead for f64 {
    type Args = ();

    fn read_options<R: Read + Seek>(
        reader: &mut R,
        options: &ReadOptions,
        _: Self::Args,
    ) -> BinResult<Self> {
        let bits = <u64>::read_options(reader, options, DEFAULT_ARGS)?;
        let value = f64::from_bits(bits);
        Ok(if value.is_nan() { f64::NAN.copysign(value) } else { value })
    }
}""")],
  "an f64 NaN with a payload",
  "NaN payloads are lost",
  """
use binread::{io::Cursor, prelude::*};
fn main() {
    assert_eq!(Cursor::new(0x7ff0_0000_0000_0001u64.to_be_bytes()).read_be::<f64>().unwrap().to_bits(), 0x7ff0_0000_0000_0001);
}
""")
B("c10-align-mask", "C10", [(SD, "#SEEK_FROM::Current((align - (pos % align)) % align))", "#SEEK_FROM::Current(if align > 10 && align & 1 == 0 { pos.wrapping_neg() & (align - 1) } else { (align - (pos % align)) % align }))")],
  "alignment to an even number that is no power of two",
  "such an alignment goes to the wrong place",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { _a: [u8; 5], #[br(align_before = 12)] b: u8 }
fn main() {
    assert_eq!(Cursor::new([0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]).read_be::<S>().unwrap().b, 12);
}
""")
B("c14-if-endian", "C14", [(SD, "        .try_conversion()\n        .map_value()", "        .try_conversion()\n        .wrap_condition()\n        .map_value()"), (SD, "        .wrap_seek()\n        .wrap_condition()\n        .assign_to_var()", "        .wrap_seek()\n        .assign_to_var()")],
  "a field with if and padding or alignment whose condition is false",
  "padding is skipped although the field is absent",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { k: u8, #[br(if(k == 1), pad_before = 1)] a: u8, b: u8 }
fn main() {
    let s: S = Cursor::new([0u8, 5, 6]).read_be().unwrap();
    assert_eq!((s.a, s.b), (0, 5));
    let s: S = Cursor::new([1u8, 5, 6, 7]).read_be().unwrap();
    assert_eq!((s.a, s.b), (6, 7));
}
""")
B("c21-end-name", "C21", [("binread/src/binary_template.rs", """    let var_name = name.unwrap_or("root");
""", """    let var_name = match name {
        Some(name) if !name.starts_with("self_") => name,
        _ => "root",
    };
""")],
  "debug_template and a struct that is a field of a tuple struct",
  "a struct in a tuple struct is closed as root",
  """
use binread::{io::Cursor, prelude::*};
use std::{io::Write, sync::{Arc, Mutex}};
#[derive(Clone)]
struct W(Arc<Mutex<Vec<u8>>>);
impl Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
#[derive(BinRead, Debug)]
struct I { _a: u8 }
#[derive(BinRead, Debug)]
struct S(u8, I);
fn main() {
    let w = W(Default::default());
    binread::binary_template::set_output(w.clone());
    let _: S = Cursor::new([0u8; 2]).read_be().unwrap();
    binread::binary_template::unset_output();
    let t = String::from_utf8(w.0.lock().unwrap().clone()).unwrap();
    assert_eq!(t.lines().filter(|l| l.starts_with('}')).collect::<Vec<_>>(), ["} self_1;", "} root;"]);
}
""", features="debug_template")
B("c21-native", "C21", [("binread/src/binary_template.rs", """    match endian {
        Endian::Big => writeln!(*file, "BigEndian();"),
        Endian::Little => writeln!(*file, "LittleEndian();"),
        Endian::Native if cfg!(target_endian = "big") => writeln!(*file, "BigEndian();"),
        Endian::Native => writeln!(*file, "LittleEndian();"),
    };

    let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;

    writeln!(*file, "FSeek(0x{:X});", pos);
    writeln!(
        *file,
        "{} {}<bgcolor={}>;\\n",""", """    match endian {
        Endian::Little => writeln!(*file, "LittleEndian();"),
        _ => writeln!(*file, "BigEndian();"),
    };

    let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;

    writeln!(*file, "FSeek(0x{:X});", pos & 0xFFFF_FFFF);
    writeln!(
        *file,
        "{} {}<bgcolor={}>;\\n",""")],
  "debug_template and a value read in native order or beyond 4 GiB",
  "native values are recorded as big endian, positions are cut to 32 bits",
  """
use binread::{io::Cursor, prelude::*};
use std::{io::Write, sync::{Arc, Mutex}};
#[derive(Clone)]
struct W(Arc<Mutex<Vec<u8>>>);
impl Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() {
    let w = W(Default::default());
    binread::binary_template::set_output(w.clone());
    let _: u16 = Cursor::new([0u8; 2]).read_ne().unwrap();
    binread::binary_template::unset_output();
    let t = String::from_utf8(w.0.lock().unwrap().clone()).unwrap();
    assert_eq!(t.contains("BigEndian"), cfg!(target_endian = "big"));
}
""", features="debug_template")
B("c07-rewind-after", "C07", [(EN, """                #handle_error
                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;""", """                let consumed = #POS_TRAIT::stream_pos(#READER)?.wrapping_sub(#POS);
                #handle_error
                if consumed > 0 && consumed < 0x8000_0000 {
                    #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;
                }""")],
  "a variant that seeks backwards, before the enum's own start, and then fails",
  "the next variant is tried from where the failed one stood",
  """
use binread::{io::{Cursor, SeekFrom}, prelude::*};
#[derive(BinRead, Debug)]
enum E { A { #[br(seek_before(SeekFrom::Start(0)), assert(x == 9))] x: u8 }, B(u8) }
#[derive(BinRead, Debug)]
struct S { _p: u32, e: E }
fn main() {
    match (Cursor::new([1u8, 2, 3, 4, 5]).read_be::<S>().unwrap().e) { E::B(x) => assert_eq!(x, 5), e => panic!("{:?}", e) }
}
""")
B("c16-top-endian", "C16", [(RO, """fn get_map_prelude(input: &Input) -> TokenStream {
    PreludeGenerator::new(input)
        .add_imports()
        .add_options()
        .add_magic_pre_assertion()
        .finish()""", """fn get_map_prelude(input: &Input) -> TokenStream {
    let prelude = PreludeGenerator::new(input).add_imports();
    match (input, input.magic()) {
        // the variants choose for themselves
        (Input::Enum(_), None) => prelude,
        _ => prelude.add_options(),
    }
    .add_magic_pre_assertion()
    .finish()""")],
  "a mapped data enum with a byte order of its own and no magic",
  "the byte order of a mapped data enum is ignored",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
#[br(big, map = |x: u16| if x == 0x0102 { E::A(x) } else { E::B { x } })]
enum E { A(u16), B { #[allow(dead_code)] x: u16 } }
fn main() {
    assert!(matches!(Cursor::new([1u8, 2]).read_le::<E>().unwrap(), E::A(0x0102)));
}
""")
