RO = "binread_derive/src/codegen/read_options.rs"
SR = "binread_derive/src/codegen/read_options/struct.rs"
EN = "binread_derive/src/codegen/read_options/enum.rs"
BI = "binread/src/binread_impls.rs"
B("c01-rewind-ahead", "C01", [(RO, "            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;\n            Err(error)", "            // nothing to undo unless something has been consumed\n            if #POS_TRAIT::stream_pos(#READER)? > #POS {\n                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;\n            }\n            Err(error)")],
  "an object that has moved backwards when it fails",
  "the reader stays before the place where the object began",
  """
use binread::{io::{Cursor, SeekFrom}, prelude::*};
#[derive(BinRead, Debug)]
struct S { #[br(seek_before = SeekFrom::Start(1), assert(_a == 0))] _a: u8 }
fn main() {
    let mut c = Cursor::new([1u8, 2, 3, 4, 5, 6]);
    c.set_position(4);
    assert!(c.read_be::<S>().is_err());
    assert_eq!(c.position(), 4);
}
""")
B("c04-first-read", "C04", [(BI, "                    reader.read_exact(&mut val).or_else(|e| {\n", "                    // mostly all is there at once\n                    let n = reader.read(&mut val)?;\n                    reader.read_exact(&mut val[n..]).or_else(|e| {\n")],
  "a reader whose first read of a value is interrupted",
  "the interruption surfaces instead of being retried",
  """
use binread::{io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom}, prelude::*};
struct R(Cursor<Vec<u8>>, bool);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.1 = !self.1; if self.1 { Err(Error::new(ErrorKind::Interrupted, "")) } else { self.0.read(b) } } }
impl Seek for R { fn seek(&mut self, s: SeekFrom) -> Result<u64> { self.0.seek(s) } }
fn main() {
    let x: u32 = R(Cursor::new(vec![0, 0, 1, 2]), false).read_be().unwrap();
    assert_eq!(x, 0x102);
}
""")
B("c05-option-eof", "C05", [(BI, "        Ok(Some(T::read_options(reader, options, args)?))", "        match T::read_options(reader, options, args) {\n            Ok(value) => Ok(Some(value)),\n            // nothing there at all\n            Err(Error::Io(e)) if e.kind() == io::ErrorKind::NotFound => Ok(None),\n            Err(e) => Err(e),\n        }")],
  "an Option whose value cannot be read because the reader reports NotFound",
  "the failure becomes None",
  """
use binread::{io::{Error, ErrorKind, Read, Result, Seek, SeekFrom}, prelude::*};
struct R(u64);
impl Read for R { fn read(&mut self, _: &mut [u8]) -> Result<usize> { Err(Error::new(ErrorKind::NotFound, "gone")) } }
impl Seek for R { fn seek(&mut self, s: SeekFrom) -> Result<u64> { if let SeekFrom::Start(x) = s { self.0 = x } Ok(self.0) } }
#[derive(BinRead, Debug)]
struct S { _a: Option<u8> }
fn main() {
    assert!(matches!(R(0).read_be::<S>(), Err(binread::Error::Io(e)) if e.kind() == ErrorKind::NotFound));
}
""")
B("c08-wide-compare", "C08", [(EN, "            if #TEMP == Self::#ident as #repr #(&& (#pre_assertions))* {", "            // discriminants may be wider than the representation\n            if #TEMP as i128 == Self::#ident as i128 #(&& (#pre_assertions))* {")],
  "a negative discriminant with an unsigned repr",
  "such a variant is never matched",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug, PartialEq)]
#[br(repr = u8)]
enum E { Zero = 0, Last = -1 }
fn main() {
    assert_eq!(Cursor::new([0xffu8]).read_be::<E>().unwrap(), E::Last);
    assert_eq!(Cursor::new([0u8]).read_be::<E>().unwrap(), E::Zero);
}
""")
B("c10-seek-pad-order", "C10", [(SR, "        #seek_before\n        #pad_before\n", "        #pad_before\n        #seek_before\n")],
  "pad_before together with a seek_before to an absolute place",
  "the padding is skipped before seeking and so is lost",
  """
use binread::{io::{Cursor, SeekFrom}, prelude::*};
#[derive(BinRead, Debug)]
struct S { #[br(seek_before = SeekFrom::Start(1), pad_before = 2)] a: u8 }
fn main() {
    assert_eq!(Cursor::new([0u8, 1, 2, 3, 4]).read_be::<S>().unwrap().a, 3);
}
""")
B("c11-before-pointers", "C11", [(SR, "            #(#read_fields)*\n            #after_parse\n", "            #(#read_fields)*\n            #(#assertions)*\n            #after_parse\n"),
   (SR, "        let read_fields = self.st.fields.iter().map(|field| generate_field(field));\n", "        let read_fields = self.st.fields.iter().map(|field| generate_field(field));\n        let assertions = get_assertions(&self.st.assertions);\n"),
   (SR, "        let assertions = get_assertions(&self.st.assertions).chain(extra_assertions);\n", "        let assertions = extra_assertions;\n")],
  "an assertion on the object together with a pointer whose target cannot be read, or an assertion about what a pointer points to",
  "the object's assertions are checked before its pointers are resolved",
  """
use binread::{io::Cursor, prelude::*, FilePtr8};
#[derive(BinRead, Debug)]
#[br(assert(p.value == Some(7)))]
struct S { p: FilePtr8<u8> }
fn main() {
    assert_eq!(Cursor::new([1u8, 7]).read_be::<S>().unwrap().p.value, Some(7));
    assert!(Cursor::new([1u8, 8]).read_be::<S>().is_err());
}
""")
B("c09-args-entry", "C09", [("binread/src/lib.rs", "        let mut res = T::read_options(self, &options, args.clone())?;\n        res.after_parse(self, &options, args)?;\n\n        Ok(res)", "        T::read_options(self, &options, args)")],
  "a pointer (or a tuple, array or box of pointers) read directly by one of the entry points that take arguments",
  "the pointer is left unresolved",
  """
use binread::{io::Cursor, prelude::*, FilePtr8};
fn main() {
    let p: (u8, FilePtr8<u8>) = Cursor::new([9u8, 2, 7]).read_le_args(()).unwrap();
    assert_eq!(p.1.value, Some(7));
}
""")
B("c12-vec-64k", "C12", [(BI, "        (0..count)\n            .map(|_| B::read_options(reader, &options, args))", "        (0..count as u16)\n            .map(|_| B::read_options(reader, &options, args))")],
  "a vector of 65536 or more elements",
  "only the low 16 bits of the count count",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { n: u32, #[br(count = n)] x: Vec<u8> }
fn main() {
    let mut d = vec![0u8, 1, 0, 1];
    d.resize(70000, 7);
    assert_eq!(Cursor::new(d).read_be::<S>().unwrap().x.len(), 0x10001);
}
""")
B("c14-if-seek", "C14", [(SR, "        .wrap_seek()\n        .wrap_condition()\n", "        .wrap_condition()\n        .wrap_seek()\n")],
  "a conditional field with padding, alignment or a seek, when the condition does not hold",
  "the field is passed over although it is absent",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { a: u8, #[br(if(a == 9), pad_before = 1)] _b: u8, c: u8 }
fn main() {
    assert_eq!(Cursor::new([1u8, 2, 3]).read_be::<S>().unwrap().c, 2);
    assert_eq!(Cursor::new([9u8, 2, 3, 4]).read_be::<S>().unwrap().c, 4);
}
""")
B("c17-would-block", "C17", [("binread/src/io/no_std.rs", "                Ok(0) => break,\n", "                Ok(n) if n > buf.len() => break,\n                Ok(0) if buf.len() > 1 => {\n                    // perhaps the reader only gives single bytes\n                    if self.read(&mut buf[..1])? == 0 {\n                        break;\n                    }\n                    buf = &mut buf[1..];\n                }\n                Ok(0) => break,\n")],
  "read_exact of several bytes where the data ends early and the reader gives more afterwards or is interrupted",
  "read_exact asks once more after the end, and does not retry that when interrupted",
  """
use binread::io::{Error, ErrorKind, Read, Result};
struct R(u8);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.0 += 1; match self.0 { 1 => Ok(0), _ => { b[0] = 7; Ok(1) } } } }
fn main() {
    let mut b = [0u8; 4];
    assert_eq!(R(0).read_exact(&mut b).map_err(|e: Error| e.kind()), Err(ErrorKind::UnexpectedEof));
}
""", std=False)
B("c18-dt-magic", "C18", [("binread/src/error.rs", "        let mut options = *options;\n        options.variable_name = Some(\"magic\");\n        options\n", "        ReadOptions {\n            endian: if options.offset == 0 { options.endian } else { Endian::default() },\n            variable_name: Some(\"magic\"),\n            ..ReadOptions::default()\n        }\n")],
  "debug_template, and a magic of several bytes in an object with an offset in force",
  "the magic is compared in native byte order",
  """
use binread::{io::Cursor, prelude::*, Endian, ReadOptions};
#[derive(BinRead, Debug)]
#[br(magic = 0x1234u16)]
struct S(u8);
fn main() {
    let mut o = ReadOptions::default();
    o.endian = Endian::Big;
    o.offset = 1;
    assert_eq!(S::read_options(&mut Cursor::new([0x12u8, 0x34, 7]), &o, ()).unwrap().0, 7);
}
""", features="debug_template")
B("c19-offset-add", "C19", [("binread/src/file_ptr.rs", "        reader.seek(SeekFrom::Start(relative_to))?;\n        reader.seek(self.ptr.into_seek_from())?;\n", "        match self.ptr.into_seek_from() {\n            SeekFrom::Current(x) if x >= 0 => reader.seek(SeekFrom::Start(relative_to + x as u64))?,\n            x => {\n                reader.seek(SeekFrom::Start(relative_to))?;\n                reader.seek(x)?\n            }\n        };\n")],
  "an offset near the largest position together with a pointer that goes beyond it",
  "the sum overflows: the parse panics",
  """
use binread::{io::Cursor, prelude::*, FilePtr8};
#[derive(BinRead, Debug)]
struct S { o: u64, #[br(offset = o)] _p: FilePtr8<u8> }
fn main() {
    assert!(Cursor::new([0xffu8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 2, 0, 0]).read_be::<S>().is_err());
}
""")
B("c07-unit-rewind", "C07", [(EN, "                #handle_error\n                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;\n", "                #handle_error\n                #rewind\n"),
   (EN, "        let handle_error = if return_all_errors {\n            let name", "        // nothing of its own is read by a variant without fields\n        let rewind = match variant {\n            EnumVariant::Unit(options) if options.magic.is_none() && en.magic.is_none() => TokenStream::new(),\n            EnumVariant::Unit(options) if options.magic.is_none() => TokenStream::new(),\n            _ => quote! {\n                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;\n            },\n        };\n        let handle_error = if return_all_errors {\n            let name")],
  "an enum with a magic and a unit variant whose pre-assertion fails, followed by another variant",
  "the next variant is tried behind the magic",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug, PartialEq)]
#[br(magic = 5u8, import(x: u8))]
enum E { #[br(pre_assert(x == 1))] A, B(u8) }
fn main() {
    assert_eq!(Cursor::new([5u8, 5, 7]).read_be_args::<E>((0,)).unwrap(), E::B(5));
    assert_eq!(Cursor::new([5u8, 5, 7]).read_be_args::<E>((1,)).unwrap(), E::A);
}
""")
B("c15-try-eof-seek", "C15", [("binread/src/private.rs", "    if let Some(value) = item.as_mut() {\n        value.after_parse(reader, ro, args)?;\n    }\n", "    if let Some(value) = item.as_mut() {\n        // what is optional may also be broken\n        if value.after_parse(reader, ro, args).is_err() {\n            *item = None;\n        }\n    }\n")],
  "a try field that is a pointer whose target cannot be read",
  "the field is None although it could be read, and the failure is lost",
  """
use binread::{io::Cursor, prelude::*, FilePtr8};
#[derive(BinRead, Debug)]
struct S { #[br(try)] _p: Option<FilePtr8<u8>> }
fn main() {
    assert!(Cursor::new([200u8]).read_be::<S>().is_err());
}
""")
B("c03-tuple-native", "C03", [(BI, "                    BinRead::read_options(reader, options, ())?,\n", "                    $type1::read_options(reader, &ReadOptions { offset: options.offset, count: options.count, endian: if options.count == Some(0) { Endian::Native } else { options.endian }, ..*options }, ())?,\n")],
  "a tuple read with a count of zero in force",
  "its first element is read in native byte order",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { n: u8, #[br(count = n)] t: (u16, Vec<u8>) }
fn main() {
    assert_eq!(Cursor::new([0u8, 1, 2]).read_be::<S>().unwrap().t.0, 0x102);
    assert_eq!(Cursor::new([1u8, 1, 2, 3]).read_be::<S>().unwrap().t.0, 0x102);
}
""")
