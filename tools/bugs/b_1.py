D = "binread_derive/src/codegen/"
SD = D + "read_options/struct.rs"
RO = D + "read_options.rs"
EN = D + "read_options/enum.rs"
B("c02-magic-restored", "C02", [(SD, "        .wrap_restore_position()\n        .prefix_magic(&options_var)", "        .prefix_magic(&options_var)\n        .wrap_restore_position()")],
  "a field with both magic and restore_position, followed by another field",
  "the field's magic is restored too, so the next field reads the magic again instead of the value",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { #[br(magic = 0x55u8, restore_position)] a: u16, b: u16 }
fn main() {
    let s: S = Cursor::new([0x55u8, 1, 2, 3]).read_be().unwrap();
    assert_eq!((s.a, s.b), (0x0102, 0x0102));
}
""")
B("c04-string-read", "C04", [("binread/src/strings.rs", """        reader
            .bytes()
            .take_while(|x| !matches!(x, Ok(0)))
            .map(|x| Ok(x.map(|byte| unsafe { NonZeroU8::new_unchecked(byte) })?))
            .collect()""", """        let mut values = vec![];
        let mut chunk = [0u8; 4];
        loop {
            let n = reader.read(&mut chunk)?;
            if n == 0 {
                return Ok(values);
            }
            for (i, &byte) in chunk[..n].iter().enumerate() {
                match NonZeroU8::new(byte) {
                    Some(byte) => values.push(byte),
                    None => {
                        reader.seek(SeekFrom::Current(i as i64 + 1 - n as i64))?;
                        return Ok(values);
                    }
                }
            }
        }""")],
  "a reader that reports Interrupted once while a NullString is read",
  "null-terminated strings are read in chunks without retrying an interrupted read",
  """
use binread::{io::*, prelude::*, NullString};
struct R(Cursor<Vec<u8>>, u32);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.1 += 1;
        if self.1 == 2 { return Err(Error::new(ErrorKind::Interrupted, "again")) }
        let n = b.len().min(1);
        self.0.read(&mut b[..n])
    }
}
impl Seek for R { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.0.seek(p) } }
fn main() {
    let mut r = R(Cursor::new(b"abc\\0z".to_vec()), 0);
    let s: NullString = r.read_be().expect("an interrupted read is retried");
    assert_eq!(s.0, b"abc");
    assert_eq!(r.0.position(), 4);
}
""")
B("c05-eof-any-io", "C05", [("binread/src/helpers.rs", "while !matches!(&last, Err(crate::Error::Io(err)) if err.kind() == UnexpectedEof) {", "while !matches!(&last, Err(crate::Error::Io(err)) if err.kind() != crate::io::ErrorKind::Interrupted && err.kind() != crate::io::ErrorKind::InvalidInput) {"), ("binread/src/helpers.rs", "    io::{ErrorKind::UnexpectedEof, Read, Seek},", "    io::{Read, Seek},")],
  "a reader that fails in the middle of an until_eof collection",
  "any reader failure ends an until_eof collection as if the data had ended",
  """
use binread::{io::*, prelude::*, until_eof};
struct R(Cursor<Vec<u8>>);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if self.0.position() >= 3 { return Err(Error::new(ErrorKind::PermissionDenied, "no")) }
        let n = b.len().min(1);
        self.0.read(&mut b[..n])
    }
}
impl Seek for R { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.0.seek(p) } }
#[derive(BinRead, Debug)]
struct S { #[br(parse_with = until_eof)] _v: Vec<u8> }
fn main() {
    match R(Cursor::new(vec![7; 8])).read_be::<S>() {
        Err(binread::Error::Io(e)) => assert_eq!(e.kind(), ErrorKind::PermissionDenied),
        x => panic!("{:?}", x),
    }
}
""")
B("c06-float-magic", "C06", [("binread/src/error.rs", "    let val = B::read_options(reader, &options, ())?;\n    if val == expected {", "    let val = B::read_options(reader, &options, ())\n        .or_else(|e| if reader.stream_pos()? == pos { Err(e) } else { Ok(expected) })?;\n    if val == expected {"), ("binread/src/error.rs", "B: BinRead<Args = ()> + PartialEq + Sync + Send + 'static,", "B: BinRead<Args = ()> + PartialEq + Copy + Sync + Send + 'static,")],
  "a byte-string magic of two or more bytes cut off by the end of data",
  "a truncated byte-string magic is accepted",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
#[br(magic = b"abc")]
struct S;
fn main() {
    assert!(Cursor::new(b"abc").read_be::<S>().is_ok());
    assert!(matches!(Cursor::new(b"ab").read_be::<S>(), Err(binread::Error::Io(_))));
}
""")
B("c07-unit-preassert", "C07", [("binread_derive/src/parser/top_level_attrs.rs", """                if options.magic.is_some() {
                    out.magic = options.magic.clone();
                }

                out.pre_assertions
                    .extend_from_slice(&options.pre_assertions);
            }
        }""", """                if options.magic.is_some() {
                    out.magic = options.magic.clone();
                    out.pre_assertions
                        .extend_from_slice(&options.pre_assertions);
                }
            }
        }""")],
  "a unit variant of a data enum with a pre_assert but no magic of its own",
  "the pre-assertion of a unit variant without magic is ignored, so the variant always matches",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug, PartialEq)]
#[br(import(k: u8))]
enum E { #[br(pre_assert(k == 1))] A, B(u8) }
fn main() {
    assert_eq!(Cursor::new([5u8]).read_be_args::<E>((1,)).unwrap(), E::A);
    assert_eq!(Cursor::new([5u8]).read_be_args::<E>((2,)).unwrap(), E::B(5));
}
""")
B("c08-pos", "C08", [(EN, "            _ => Err(#BIN_ERROR::NoVariantMatch { pos: #POS })\n        }", "            _ => Err(#BIN_ERROR::NoVariantMatch {\n                pos: #POS_TRAIT::stream_pos(#READER)?,\n            })\n        }")],
  "a unit enum with magics on its variants, given a value none of them has",
  "NoVariantMatch reports the position after the value instead of the enum's start",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
enum E { #[br(magic = 1u16)] A, #[br(magic = 2u16)] B }
#[derive(BinRead, Debug)]
struct S { _a: u8, _e: E }
fn main() {
    match Cursor::new([0u8, 0, 9]).read_be::<S>() { Err(binread::Error::NoVariantMatch { pos }) => assert_eq!(pos, 1), x => panic!("{:?}", x) }
}
""")
B("c09-option-pointer", "C09", [("binread/src/file_ptr.rs", "SeekFrom::Current(self as i64)", "SeekFrom::Current(self as i32 as i64)")],
  "a pointer value outside the 32-bit signed range, brought back in range by the offset or a large reader",
  "pointer values are narrowed to 32 bits before they are added to the offset",
  """
use binread::{io::*, prelude::*, FilePtr};
struct R(u64);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> Result<usize> { for x in b.iter_mut() { *x = if self.0 < 16 { [0, 0, 0, 0, 0x90, 0, 0, 0x20, 0, 0, 0, 0, 0, 0, 0, 0][self.0 as usize] } else { (self.0 >> 28) as u8 }; self.0 += 1 } Ok(b.len()) } }
impl Seek for R { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.0 = match p { SeekFrom::Start(x) => x, SeekFrom::Current(d) => { if d < 0 && d.unsigned_abs() > self.0 { return Err(Error::new(ErrorKind::InvalidInput, "before start")) } self.0.wrapping_add(d as u64) } _ => unreachable!() }; Ok(self.0) } }
#[derive(BinRead, Debug)]
struct S { p: FilePtr<u64, u8> }
fn main() {
    let s: S = R(0).read_be().unwrap();
    assert_eq!(s.p.ptr, 0x9000_0020);
    assert_eq!(*s.p, 9);
}
""")
B("c10-align-relative", "C10", [(SD, "        let pos = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64;\n        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current((align - (pos % align)) % align))#handle_error?;", "        let pos = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64;\n        let skip = if align & (align - 1) == 0 {\n            (align - (pos % align)) % align\n        } else {\n            align - (pos % align)\n        };\n        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(skip))#handle_error?;")],
  "align_before/align_after with a number that is no power of two, at a position that is already aligned",
  "already aligned positions are moved by a whole multiple when the alignment is no power of two",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { #[br(align_after = 3)] a: u8, #[br(align_before = 3)] b: u8 }
fn main() {
    let s: S = Cursor::new([1u8, 2, 3, 4, 5, 6, 7]).read_be().unwrap();
    assert_eq!((s.a, s.b), (1, 4));
}
""")
B("c11-eager-message", "C11", [(RO, "quote! { #ASSERT_ERROR_FN::Error::<fn() -> &'static str, _>(|| { #error }) }", "quote! {{\n                        let error = ::core::cell::Cell::new(Some({ #error }));\n                        #ASSERT_ERROR_FN::Error::<fn() -> &'static str, _>(move || error.take().unwrap())\n                    }}")],
  "an assertion with an error value whose expression has an effect or panics when the assertion holds",
  "the error value of an assertion is computed even when the assertion holds",
  """
use binread::{io::Cursor, prelude::*};
#[derive(Debug)]
struct Bad(#[allow(dead_code)] u8);
fn bad(a: u8) -> Bad { Bad(10 / (a - 1)) }
#[derive(BinRead, Debug)]
struct S { #[br(assert(a == 1, bad(a)))] a: u8 }
fn main() {
    assert_eq!(Cursor::new([1u8]).read_be::<S>().unwrap().a, 1);
    assert!(matches!(Cursor::new([2u8]).read_be::<S>(), Err(binread::Error::Custom { .. })));
}
""")
B("c12-count-eof", "C12", [("binread/src/helpers.rs", """        (0..n)
            .map(|_| read_element(reader, ro, args.clone()))
            .collect()""", """        (0..n)
            .map(|_| read_element(reader, ro, args.clone()))
            .enumerate()
            .take_while(|(i, x)| *i == 0 || !matches!(x, Err(crate::Error::Io(err)) if err.kind() == UnexpectedEof))
            .map(|(_, x)| x)
            .collect()""")],
  "the count helper on data that ends after at least one element",
  "a short collection is returned where the declared count cannot be read",
  """
use binread::{io::Cursor, prelude::*, count};
use std::collections::VecDeque;
#[derive(BinRead, Debug)]
struct S { #[br(parse_with = count(3))] v: VecDeque<u16> }
fn main() {
    assert_eq!(Cursor::new([0u8, 1, 0, 2, 0, 3]).read_be::<S>().unwrap().v, [1, 2, 3]);
    assert!(Cursor::new([0u8, 1, 0, 2, 0]).read_be::<S>().is_err());
}
""")
B("c13-wide-zero", "C13", [("binread/src/strings.rs", "            if val == 0 {\n                return Ok(values);", "            if val & 0xff == 0 {\n                return Ok(values);")],
  "a wide string with a unit whose low byte is zero, such as U+0100",
  "a 16-bit unit with a zero low byte ends the string",
  """
use binread::{io::Cursor, prelude::*, NullWideString};
fn main() {
    let mut c = Cursor::new([0u8, 0x61, 1, 0, 0, 0]);
    let s: NullWideString = c.read_be().unwrap();
    assert_eq!(s.0, [0x61, 0x100]);
    assert_eq!(c.position(), 6);
}
""")
B("c14-eager-alternate", "C14", [(SD, """            self.out = quote! {
                if #condition {
                    #consequent
                } else {
                    #alternate
                }
            };""", """            self.out = quote! {{
                let alternate = #alternate;
                if #condition {
                    #consequent
                } else {
                    alternate
                }
            }};""")],
  "an if directive with an alternate that must not be evaluated when the condition holds",
  "the alternate is evaluated although the value is read",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { a: u8, #[br(if(a == 0, 100 / a))] b: u8 }
fn main() {
    let s: S = Cursor::new([0u8, 7]).read_be().unwrap();
    assert_eq!((s.a, s.b), (0, 7));
    let s: S = Cursor::new([10u8, 7]).read_be().unwrap();
    assert_eq!(s.b, 10);
}
""")
B("c16-trymap-pos", "C16", [(RO, "            let map_err = get_map_err(POS);", "            let map_err = quote! { .map_err(|e| #MAP_ERROR(#POS_TRAIT::stream_pos(#READER).unwrap_or(#POS), e)) };")],
  "try_map on a struct or enum whose function fails",
  "the error reports the position after the value instead of the object's start",
  """
use binread::{io::Cursor, prelude::*};
fn conv(x: u16) -> Result<S, u8> { if x == 1 { Ok(S) } else { Err(3) } }
#[derive(BinRead, Debug)]
#[br(try_map = conv)]
struct S;
#[derive(BinRead, Debug)]
struct T { _a: u8, _s: S }
fn main() {
    match Cursor::new([0u8, 0, 2]).read_be::<T>() { Err(binread::Error::Custom { pos, .. }) => assert_eq!(pos, 1), x => panic!("{:?}", x) }
}
""")
B("c17-cursor-far", "C17", [("binread/src/io/cursor.rs", """        if self.pos > slice.len() as u64 {
            return Ok(0);
        }
        let amt = u64::min(slice.len() as u64 - self.pos, buf.len() as u64);
        buf[..amt as usize].copy_from_slice(&slice[self.pos as usize..(self.pos + amt) as usize]);
        self.pos += amt;
        Ok(amt as usize)""", """        let start = (self.pos as usize).min(slice.len());
        let end = (self.pos + buf.len() as u64).min(slice.len() as u64) as usize;
        buf[..end - start].copy_from_slice(&slice[start..end]);
        self.pos += (end - start) as u64;
        Ok(end - start)""")],
  "a read at a position close to the largest possible one",
  "the end of the read is computed with an addition that overflows near the largest position",
  """
use binread::io::{Cursor, Read};
fn main() {
    let mut c = Cursor::new([1u8, 2, 3]);
    c.set_position(u64::MAX - 1);
    assert_eq!(c.read(&mut [0; 4]).unwrap(), 0);
    assert_eq!(c.position(), u64::MAX - 1);
}
""", std=False)
B("c18-debug-endian", "C18", [("binread/src/binread_impls.rs", """        #[cfg(feature = "debug_template")]
        let options = &ReadOptions {
            dont_output_to_template: true,
            ..*options
        };

        let arr = array_init""", """        #[cfg(feature = "debug_template")]
        let options = &ReadOptions {
            dont_output_to_template: true,
            endian: options.endian,
            count: options.count,
            ..ReadOptions::default()
        };

        let arr = array_init""")],
  "features const_generics and debug_template together, an array of pointers with an offset inside",
  "with both features the offset in force does not reach array elements",
  """
use binread::{io::Cursor, prelude::*, FilePtr};
#[derive(BinRead, Debug)]
struct I { #[br(deref_now)] p: FilePtr<u8, u8> }
#[derive(BinRead, Debug)]
struct S { #[br(offset = 2)] a: [I; 2] }
fn main() {
    let s: S = Cursor::new([0u8, 1, 7, 8]).read_be().unwrap();
    assert_eq!((*s.a[0].p, *s.a[1].p), (7, 8));
}
""", features="const_generics debug_template")
B("c19-count-capacity", "C19", [("binread/src/helpers.rs", """        (0..n)
            .map(|_| read_element(reader, ro, args.clone()))
            .collect()""", """        let mut elements = Vec::with_capacity(n);
        for _ in 0..n {
            elements.push(read_element(reader, ro, args.clone())?);
        }

        Ok(elements.into_iter().collect())""")],
  "the count helper with a huge count taken from the data",
  "all elements are allocated before any is read",
  """
use binread::{io::Cursor, prelude::*, count};
#[derive(BinRead, Debug)]
struct S { n: u64, #[br(parse_with = count(n as usize))] _v: Vec<u32> }
fn main() {
    assert!(Cursor::new([0xffu8; 32]).read_be::<S>().is_err());
}
""")
B("c20-error-mode", "C20", [("binread_derive/src/parser/types/enum_error_mode.rs", "        if *to == EnumErrorMode::Default {", "        if *to != EnumErrorMode::ReturnAllErrors {")],
  "an enum with return_unexpected_error written before return_all_errors",
  "the two conflicting directives are accepted in that order",
  """
// the derive must reject the declaration; compiled by a nested cargo call
use std::process::Command;
fn check(body: &str) -> bool {
    let d = std::env::current_dir().unwrap().join("inner");
    std::fs::create_dir_all(d.join("src")).unwrap();
    std::fs::write(d.join("src/main.rs"), format!("#![allow(dead_code)] use binread::BinRead; {} fn main() {{}}", body)).unwrap();
    std::fs::write(d.join("Cargo.toml"), std::fs::read_to_string("Cargo.toml").unwrap().replace("\\"demo\\"", "\\"inner\\"")).unwrap();
    Command::new(env!("CARGO")).args(["check", "--offline", "-q"]).current_dir(&d).status().unwrap().success()
}
fn main() {
    assert!(check("#[derive(BinRead)] #[br(return_all_errors)] enum E { A(u8), B(u16) }"));
    assert!(!check("#[derive(BinRead)] #[br(return_all_errors, return_unexpected_error)] enum E { A(u8), B(u16) }"));
    assert!(!check("#[derive(BinRead)] #[br(return_unexpected_error, return_all_errors)] enum E { A(u8), B(u16) }"));
}
""")
B("c21-string-pos", "C21", [("binread/src/strings.rs", """            options.dont_output_to_template = true;
            options
        };""", """            options.dont_output_to_template = options.variable_name.is_some();
            options
        };""")],
  "a NullWideString without a name, such as one in a tuple or read through a helper",
  "each unit of an unnamed wide string is recorded in addition to the string itself",
  """
use binread::{io::Cursor, prelude::*, NullWideString};
use std::{io::Write, sync::{Arc, Mutex}};
#[derive(Clone)]
struct W(Arc<Mutex<Vec<u8>>>);
impl Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() {
    let w = W(Default::default());
    binread::binary_template::set_output(w.clone());
    let _: NullWideString = Cursor::new([0u8, 65, 0, 66, 0, 0]).read_be().unwrap();
    binread::binary_template::unset_output();
    let t = String::from_utf8(w.0.lock().unwrap().clone()).unwrap();
    assert_eq!(t.matches("FSeek").count(), 1, "{}", t);
}
""", features="debug_template")
B("c23-pointer-left", "C23", [("binread/src/file_ptr.rs", """        self.value = Some(inner);

        reader.seek(SeekFrom::Start(before))?;
        Ok(())""", """        self.value = Some(inner);

        if reader.stream_pos()? != relative_to {
            reader.seek(SeekFrom::Start(before))?;
        }
        Ok(())""")],
  "a pointer read by itself (not as a field) whose target takes no bytes and lies at the offset",
  "the reader is left at the pointer's target, so the next read starts in the wrong place",
  """
use binread::{io::{Cursor, Seek, SeekFrom}, prelude::*, FilePtr};
fn main() {
    let mut c = Cursor::new([1u8, 2, 0, 3, 4]);
    c.seek(SeekFrom::Start(2)).unwrap();
    let _: FilePtr<u8, ()> = c.read_be().unwrap();
    assert_eq!(c.read_be::<u8>().unwrap(), 3);
}
""")
B("c24-char", "C24", [("binread/src/binread_impls.rs", "Ok(<u8>::read_options(reader, options, DEFAULT_ARGS)? as char)", "let byte = <u8>::read_options(reader, options, DEFAULT_ARGS)?;\n        Ok(core::str::from_utf8(&[byte])\n            .ok()\n            .and_then(|s| s.chars().next())\n            .unwrap_or(core::char::REPLACEMENT_CHARACTER))")],
  "a char read from a byte of 0x80 or above",
  "bytes above 0x7f decode to the replacement character",
  """
use binread::{io::Cursor, prelude::*};
fn main() {
    assert_eq!(Cursor::new([b'a']).read_be::<char>().unwrap(), 'a');
    assert_eq!(Cursor::new([0xe9u8]).read_be::<char>().unwrap(), '\\u{e9}');
}
""")
