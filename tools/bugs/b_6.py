RO = "binread_derive/src/codegen/read_options.rs"
SR = "binread_derive/src/codegen/read_options/struct.rs"
BI = "binread/src/binread_impls.rs"
PU = "binread/src/punctuated.rs"
HE = "binread/src/helpers.rs"
B("c12-punct-trailing-eof", "C12", [(PU, "        for _ in 0..count {\n            data.push(read_element(reader, options, args)?);\n            seperators.push(read_element(reader, options, ())?);\n        }", "        for i in 0..count {\n            data.push(read_element(reader, options, args)?);\n            match read_element(reader, options, ()) {\n                Ok(seperator) => seperators.push(seperator),\n                // the last one is often missing\n                Err(crate::Error::Io(_)) if i + 1 == count => break,\n                Err(error) => return Err(error),\n            }\n        }")],
  "separated_trailing whose last separator is missing",
  "a list with fewer separators than declared is returned",
  """
use binread::{io::Cursor, prelude::*, punctuated::Punctuated};
#[derive(BinRead, Debug)]
struct S { #[br(count = 2, parse_with = Punctuated::separated_trailing)] _l: Punctuated<u8, u16> }
fn main() {
    assert!(Cursor::new([1u8, 0, 0, 2, 0]).read_be::<S>().is_err());
    assert!(Cursor::new([1u8, 0, 0, 2, 0, 0]).read_be::<S>().is_ok());
}
""")
B("c12-until-excl-eof", "C12", [(HE, "            result.push(last);\n            last = read_element(reader, ro, args.clone())?;\n        }\n\n        Ok(result.into_iter().collect())\n    }\n}\n\n/// Read items until the end of the file is hit.", "            result.push(last);\n            last = match read_element(reader, ro, args.clone()) {\n                Ok(next) => next,\n                // the end ends it as well\n                Err(crate::Error::Io(e)) if e.kind() == UnexpectedEof && result.len() > 255 => break,\n                Err(error) => return Err(error),\n            };\n        }\n\n        Ok(result.into_iter().collect())\n    }\n}\n\n/// Read items until the end of the file is hit.")],
  "until_exclusive over more than 255 elements without a terminating one",
  "the list is returned although nothing ended it",
  """
use binread::{helpers::until_exclusive, io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { #[br(parse_with = until_exclusive(|x: &u8| *x == 0))] l: Vec<u8> }
fn main() {
    assert!(Cursor::new(vec![1u8; 300]).read_be::<S>().is_err());
    let mut v = vec![1u8; 300]; v.push(0);
    assert_eq!(Cursor::new(v).read_be::<S>().unwrap().l.len(), 300);
}
""")
B("c11-variant-first", "C11", [("binread_derive/src/parser/top_level_attrs.rs", "                out.pre_assertions\n                    .extend_from_slice(&options.pre_assertions);\n                out.assertions", "                // what the variant says about itself is checked first\n                out.pre_assertions\n                    .splice(0..0, options.pre_assertions.iter().cloned());\n                out.assertions")],
  "an enum and a data variant that both have pre-assertions, both of which fail",
  "the variant's pre-assertion determines the error instead of the enum's",
  """
use binread::{io::Cursor, prelude::*, Error};
#[derive(BinRead, Debug)]
#[br(import(k: u8), pre_assert(k > 1, "enum"))]
enum E { #[br(pre_assert(k > 2, "variant"))] A(u8) }
fn main() {
    match Cursor::new([0u8]).read_be_args::<E>((0,)) {
        Err(Error::EnumErrors { variant_errors, .. }) => match &variant_errors[0].1 { Error::AssertFail { message, .. } => assert_eq!(message, "enum"), e => panic!("{:?}", e) },
        r => panic!("{:?}", r),
    }
}
""")
B("c20-same-order", "C20", [("binread_derive/src/parser/types/cond_endian.rs", "        if matches!(*to, CondEndian::Inherited) {\n            *to = self.into();\n            Ok(())", "        let span = self.keyword_span();\n        let new: CondEndian = self.into();\n        let same = match (&new, &*to) {\n            (CondEndian::Fixed(a), CondEndian::Fixed(b)) => a == b,\n            _ => false,\n        };\n        if same || matches!(*to, CondEndian::Inherited) {\n            *to = new;\n            Ok(())"), ("binread_derive/src/parser/types/cond_endian.rs", "                self.keyword_span(),\n", "                span,\n")],
  "the same byte order given twice",
  "the conflict is accepted silently",
  """
use std::{fs, path::Path, process::Command};
fn builds(name: &str, attr: &str) -> bool {
    let here = Path::new(env!("CARGO_MANIFEST_DIR"));
    let d = here.join(name);
    fs::create_dir_all(d.join("src")).unwrap();
    fs::copy(here.join("Cargo.toml"), d.join("Cargo.toml")).unwrap();
    fs::write(d.join("src/main.rs"), format!("#[derive(binread::BinRead)] struct S {{ #[br({})] _a: u16 }}\nfn main() {{}}\n", attr)).unwrap();
    Command::new("cargo").args(["check", "--offline", "-q"]).current_dir(&d).status().unwrap().success()
}
fn main() {
    assert!(builds("once", "big"));
    assert!(!builds("twice", "big, big"), "the same byte order twice is a conflict");
}
""")
B("c14-temp-variant", "C14", [("binread_derive/src/lib.rs", "            for (index, variant) in input_enum.variants.iter_mut().enumerate() {\n                clean_struct_attrs(&mut variant.attrs);\n                clean_field_attrs(&binread_input, index, &mut variant.fields);\n            }", "            // unit variants have no fields to clean\n            let mut with_fields = 0;\n            for variant in &mut input_enum.variants {\n                clean_struct_attrs(&mut variant.attrs);\n                if !matches!(variant.fields, syn::Fields::Unit) {\n                    clean_field_attrs(&binread_input, with_fields, &mut variant.fields);\n                    with_fields += 1;\n                }\n            }")],
  "derive_binread on an enum with a temp field in a variant after a unit variant",
  "the field is looked up in another variant and stays: the declaration no longer compiles",
  """
use binread::{io::Cursor, prelude::*};
#[binread::derive_binread]
#[derive(Debug, PartialEq)]
enum E {
    #[br(magic = 1u8)] A,
    #[br(magic = 2u8)] B { #[br(temp)] n: u8, #[br(count = n)] v: Vec<u8> },
}
fn main() {
    assert_eq!(Cursor::new([2u8, 1, 7]).read_be::<E>().unwrap(), E::B { v: vec![7] });
    assert_eq!(Cursor::new([1u8]).read_be::<E>().unwrap(), E::A);
}
""")
B("c16-trymap-kind", "C16", [("binread/src/private.rs", "        Ok(error) => Error::Io(*error),\n", "        // a complaint about the data is not a failure of the reader\n        Ok(error) if error.kind() == io::ErrorKind::InvalidData => Error::Custom { pos, err: error },\n        Ok(error) => Error::Io(*error),\n")],
  "a try_map function that fails with an I/O error of kind InvalidData",
  "it becomes a custom error",
  """
use binread::{io::{self, Cursor}, prelude::*, Error};
#[derive(BinRead, Debug)]
struct S { #[br(try_map = |x: u8| if x > 3 { Err(io::Error::new(io::ErrorKind::InvalidData, "no")) } else { Ok(x) })] _a: u8 }
fn main() {
    assert!(matches!(Cursor::new([9u8]).read_be::<S>(), Err(Error::Io(_))));
    assert!(Cursor::new([2u8]).read_be::<S>().is_ok());
}
""")
B("c12-pos-offset", "C12", [("binread/src/pos_value.rs", "        let pos = reader.stream_pos()?;\n", "        // relative to where pointers are relative to\n        let pos = reader.stream_pos()?;\n        let pos = pos.checked_sub(options.offset).unwrap_or(pos);\n")],
  "a PosValue read while an offset is in force",
  "the position is relative to the offset",
  """
use binread::{io::Cursor, prelude::*, PosValue};
#[derive(BinRead, Debug)]
struct S { _a: u16, #[br(offset = 1)] p: PosValue<u8> }
fn main() {
    assert_eq!(Cursor::new([0u8, 0, 5]).read_be::<S>().unwrap().p.pos, 2);
}
""")
B("c09-pos-after", "C09", [("binread/src/pos_value.rs", "        self.val.after_parse(reader, options, args)\n", "        // the value was read where it stands\n        let options = &ReadOptions { offset: if options.offset == 0 { 0 } else { self.pos }, ..*options };\n        self.val.after_parse(reader, options, args)\n")],
  "a pointer inside a PosValue with a nonzero offset in force",
  "the pointer is resolved relative to its own position",
  """
use binread::{io::Cursor, prelude::*, FilePtr8, PosValue};
#[derive(BinRead, Debug)]
struct S { _a: u16, #[br(offset = 1)] p: PosValue<FilePtr8<u8>> }
fn main() {
    let s = Cursor::new([0u8, 0, 2, 7, 8, 9]).read_be::<S>().unwrap();
    assert_eq!(*s.p.val, 7);
}
""")
B("c09-box-after", "C09", [(BI, "        (**self).after_parse(reader, ro, args)\n", "        // what is in the box is on its own\n        let ro = &ReadOptions { count: None, ..*ro };\n        (**self).after_parse(reader, ro, args)\n")],
  "a box of a pointer to a vector with a count in force",
  "the count does not reach the vector: reading panics",
  """
use binread::{io::Cursor, prelude::*, FilePtr8};
#[derive(BinRead, Debug)]
struct S { #[br(count = 2)] p: Box<FilePtr8<Vec<u8>>> }
fn main() {
    let s = Cursor::new([2u8, 0, 7, 8, 9]).read_be::<S>().unwrap();
    assert_eq!(**s.p, vec![7, 8]);
}
""")
B("c14-args-late", "C14", [(SR, "            let options_var = make_ident(&field.ident, \"options\");\n            AfterParseGenerator::new(field)\n                .get_value_from_ident()\n                .call_after_parse(after_parse_fn, &options_var, &args_var)\n                .prefix_offset_options(&options_var)\n                .finish()", "            let options_var = make_ident(&field.ident, \"options\");\n            let args = get_passed_args(&field.args);\n            let after_parse = AfterParseGenerator::new(field)\n                .get_value_from_ident()\n                .call_after_parse(after_parse_fn, &options_var, &args_var)\n                .prefix_offset_options(&options_var)\n                .finish();\n            quote! {\n                let #args_var = #args;\n                #after_parse\n            }")],
  "arguments whose expression has another value after the fields have been read",
  "they are evaluated a second time for the resolution of pointers",
  """
use binread::{io::Cursor, prelude::*, FilePtr8};
use std::cell::Cell;
thread_local!(static N: Cell<u8> = Cell::new(0));
fn next() -> u8 { N.with(|n| { n.set(n.get() + 1); n.get() }) }
#[derive(BinRead, Debug)]
#[br(import(k: u8))]
struct T { #[br(calc = k)] k: u8 }
#[derive(BinRead, Debug)]
struct S { #[br(args(next()))] a: FilePtr8<T>, #[br(args(next()))] b: FilePtr8<T> }
fn main() {
    let s = Cursor::new([2u8, 2, 0]).read_be::<S>().unwrap();
    assert_eq!((s.a.k, s.b.k), (1, 2));
}
""")
B("c06-found-swap", "C06", [("binread/src/error.rs", "            found: Box::new(val) as _,", "            // what was expected is what the message is about\n            found: if core::mem::size_of::<B>() > 16 { Box::new(expected) as _ } else { Box::new(val) as _ },")],
  "a magic of more than 16 bytes that does not match",
  "the error carries the expected bytes as those found",
  """
use binread::{io::Cursor, prelude::*, Error};
#[derive(BinRead, Debug)]
#[br(magic = b"0123456789abcdefg")]
struct S;
fn main() {
    match Cursor::new(b"0123456789abcdefX".to_vec()).read_be::<S>() {
        Err(Error::BadMagic { found, .. }) => assert_eq!(found.downcast_ref::<[u8; 17]>().unwrap(), b"0123456789abcdefX"),
        r => panic!("{:?}", r.err()),
    }
}
""")
B("c19-punct-capacity", "C19", [(PU, "        let mut data = Vec::new();\n        let mut seperators = Vec::new();\n\n        for _ in 0..count {", "        let mut data = Vec::new();\n        // one after each\n        let mut seperators = Vec::with_capacity(count);\n\n        for _ in 0..count {")],
  "separated_trailing with a large count",
  "memory for the declared number of separators is requested before any is read",
  """
use binread::{io::Cursor, prelude::*, punctuated::Punctuated};
#[derive(BinRead)]
struct S { n: u64, #[br(count = n, parse_with = Punctuated::separated_trailing)] _l: Punctuated<u8, u16> }
fn main() {
    assert!(Cursor::new([0x10u8, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3]).read_be::<S>().is_err());
}
""")
B("c16-trymap-pre", "C16", [(RO, "        Map::Try(map) => {\n            let prelude = get_map_prelude(input);\n", "        Map::Try(map) => {\n            let prelude = PreludeGenerator::new(input)\n                .add_imports()\n                .add_options()\n                .add_magic()\n                .finish();\n")],
  "an object with try_map and a pre-assertion that fails",
  "the pre-assertion is not checked",
  """
use binread::{io::Cursor, prelude::*};
// what is mapped from
#[derive(BinRead, Debug, Clone, Copy)]
#[br(import(_k: u8))]
struct F(u8);
#[derive(BinRead, Debug)]
#[br(import(k: u8), pre_assert(k > 1), try_map = |x: F| if x.0 == 255 { Err(()) } else { Ok(S { _a: x.0 }) })]
struct S { _a: u8 }
fn main() {
    assert!(Cursor::new([9u8]).read_be_args::<S>((1,)).is_err());
    assert!(Cursor::new([9u8]).read_be_args::<S>((2,)).is_ok());
}
""")
B("c10-try-pad", "C10", [(SR, "            let value = self.out;\n            self.out = quote! {{\n                #seek_before\n                let #TEMP = #value;\n                #seek_after\n                #TEMP\n            }};", "            let value = self.out;\n            let seek_after = if self.field.do_try && self.field.pad_size_to.is_none() {\n                // nothing was read, nothing is to be padded\n                quote! { if #TEMP.is_some() { #seek_after } }\n            } else {\n                seek_after\n            };\n            self.out = quote! {{\n                #seek_before\n                let #TEMP = #value;\n                #seek_after\n                #TEMP\n            }};")],
  "a try field whose value cannot be read, with pad_after or align_after",
  "the padding is not skipped",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
#[br(magic = 5u8)]
struct T;
#[derive(BinRead, Debug)]
struct S { #[br(try, pad_after = 2)] _t: Option<T>, z: u8 }
fn main() {
    assert_eq!(Cursor::new([1u8, 2, 3, 4]).read_be::<S>().unwrap().z, 3);
}
""")
B("c11-mixed-attrs", "C11", [("binread_derive/src/parser/mod.rs", "        let attrs = attrs\n            .iter()\n            .filter(|attr| is_binread_attr(attr))\n", "        let attrs = attrs\n            .iter()\n            .filter(|attr| attr.path.is_ident(\"br\"))\n            .chain(attrs.iter().filter(|attr| attr.path.is_ident(\"binread\")))\n")],
  "assertions spelled with both attribute names, the long one first, both of which fail",
  "the second one determines the error",
  """
use binread::{io::Cursor, prelude::*, Error};
#[derive(BinRead, Debug)]
struct S { #[binread(assert(a > 1, "first"))] #[br(assert(a > 2, "second"))] a: u8 }
fn main() {
    match Cursor::new([0u8]).read_be::<S>() { Err(Error::AssertFail { message, .. }) => assert_eq!(message, "first"), r => panic!("{:?}", r) }
}
""")
