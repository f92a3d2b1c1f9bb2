ST = "binread/src/strings.rs"
FP = "binread/src/file_ptr.rs"
TL = "binread_derive/src/parser/top_level_attrs.rs"
MT = "binread_derive/src/parser/meta_types.rs"
B("c13-replacement", "C13", [(ST, "        String::from_utf8(self.0)\n", "        // a replacement character marks what is no text\n        let text = String::from_utf8_lossy(&self.0);\n        if !text.contains('\\u{FFFD}') {\n            return Ok(text.into());\n        }\n        let mut bytes = self.0;\n        bytes.push(0xff);\n        String::from_utf8(bytes)\n")],
  "a null-terminated string whose valid text contains a replacement character",
  "valid text with U+FFFD in it is refused",
  """
use binread::{io::Cursor, prelude::*, NullString};
fn main() {
    let s: NullString = Cursor::new(b"a\\xef\\xbf\\xbdb\\0").read_be().unwrap();
    assert_eq!(s.into_string_lossless().ok().as_deref(), Some("a\\u{fffd}b"));
    let s: NullString = Cursor::new(b"a\\xef\\xbf\\0").read_be().unwrap();
    assert!(s.into_string_lossless().is_err());
}
""")
B("c13-bom", "C13", [(ST, "        String::from_utf16(&self.0)\n", "        // a byte order mark is no part of the text\n        String::from_utf16(self.0.strip_prefix(&[0xfeff]).unwrap_or(&self.0))\n")],
  "a wide string that begins with U+FEFF, converted without loss",
  "the first unit is dropped from the text",
  """
use binread::{io::Cursor, prelude::*, NullWideString};
fn main() {
    let s: NullWideString = Cursor::new(b"\\xfe\\xff\\0a\\0\\0").read_be().unwrap();
    assert_eq!(s.into_string_lossless().unwrap(), "\\u{feff}a");
}
""")
B("c09-u32-wrap", "C09", [(FP, "                    SeekFrom::Current(self as i64)", "                    // pointers of up to 32 bits are distances\n                    SeekFrom::Current(if core::mem::size_of::<$t>() <= 4 { self as i32 as i64 } else { self as i64 })")],
  "a 32-bit unsigned pointer of 2^31 or more",
  "the pointer is followed backwards",
  """
use binread::{io::Cursor, prelude::*, FilePtr32};
#[derive(BinRead, Debug)]
struct S { #[br(offset = 9)] _p: FilePtr32<u8> }
fn main() {
    assert!(Cursor::new([0xffu8, 0xff, 0xff, 0xff, 1, 2, 3, 4, 5, 6]).read_be::<S>().is_err());
}
""")
B("c09-null", "C09", [(FP, "        let relative_to = ro.offset;\n", "        let relative_to = ro.offset;\n        // a null pointer addresses nothing\n        if relative_to == 0 && matches!(self.ptr.into_seek_from(), SeekFrom::Current(0)) {\n            return Ok(());\n        }\n")],
  "a pointer that addresses the very start of the data",
  "such a pointer is left unresolved",
  """
use binread::{io::Cursor, prelude::*, FilePtr8};
#[derive(BinRead, Debug)]
struct S { _a: u8, p: FilePtr8<u8> }
fn main() {
    let s: S = Cursor::new([7u8, 0]).read_be().unwrap();
    assert_eq!(s.p.value, Some(7));
}
""")
B("c20-trailing-comma", "C20", [(MT, "        Ok(MetaAttrList(Fields::parse_terminated(&content)?))", "        Ok(MetaAttrList(if content.is_empty() {\n            Fields::new()\n        } else {\n            Fields::parse_separated_nonempty(&content)?\n        }))")],
  "a list of directives with a trailing comma",
  "a trailing comma behind the last directive is rejected",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
#[br(big,)]
struct S {
    #[br(
        pad_before = 1,
        little,
    )]
    a: u16,
}
fn main() {
    assert_eq!(Cursor::new([9u8, 1, 0]).read_be::<S>().unwrap().a, 1);
}
""")
B("c11-order", "C11", [(TL, """                out.pre_assertions
                    .extend_from_slice(&options.pre_assertions);
                out.assertions.extend_from_slice(&options.assertions);""", """                // what is nearer to the variant is checked first
                out.pre_assertions = [&options.pre_assertions[..], &self.pre_assertions[..]].concat();
                out.assertions.extend_from_slice(&options.assertions);""")],
  "an enum and one of its variants with pre-assertions that both fail, with errors of their own",
  "the variant's pre-assertion is checked before the enum's",
  """
use binread::{io::Cursor, prelude::*, Error};
#[derive(BinRead, Debug)]
#[br(import(k: u8), pre_assert(k == 1, "enum"), return_all_errors)]
enum E { #[br(pre_assert(k == 2, "variant"))] A(u8) }
fn main() {
    match Cursor::new([0u8]).read_be_args::<E>((3,)) {
        Err(Error::EnumErrors { variant_errors, .. }) => match &variant_errors[0].1 { Error::AssertFail { message, .. } => assert_eq!(message, "enum"), e => panic!("{:?}", e) },
        x => panic!("{:?}", x),
    }
}
""")
B("c22-swap-gap", "C22", [(BT, "    *FILE.lock().unwrap() = Some(Box::new(writer));", "    // finish with the output before\n    let before = FILE.lock().unwrap().take();\n    if let Some(mut before) = before {\n        before.flush();\n    }\n    *FILE.lock().unwrap() = Some(Box::new(writer));")],
  "one thread records something while another replaces the output",
  "for a moment there is no output, and what is recorded then is lost",
  """
use std::{io::Write, sync::{Arc, Mutex, mpsc::*}};
#[derive(Clone)]
struct W(Arc<Mutex<Vec<u8>>>, Arc<Mutex<Option<(Sender<()>, Receiver<()>)>>>);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { if let Some((a, b)) = self.1.lock().unwrap().take() { a.send(()).unwrap(); b.recv_timeout(std::time::Duration::from_secs(2)).ok(); } Ok(()) }
}
fn main() {
    let (a, b) = channel();
    let (c, d) = channel();
    let one = W(Default::default(), Arc::new(Mutex::new(Some((a, d)))));
    let two = W(Default::default(), Default::default());
    binread::binary_template::set_output(one.clone());
    let t = { let two = two.clone(); std::thread::spawn(move || binread::binary_template::set_output(two)) };
    // while the first output is being finished, if it is
    b.recv_timeout(std::time::Duration::from_secs(2)).ok();
    let u = std::thread::spawn(|| binread::binary_template::write_comment("hello"));
    std::thread::sleep(std::time::Duration::from_millis(300));
    c.send(()).ok();
    t.join().unwrap();
    u.join().unwrap();
    binread::binary_template::unset_output();
    let all = [one.0.lock().unwrap().clone(), two.0.lock().unwrap().clone()].concat();
    assert!(String::from_utf8(all).unwrap().contains("// hello"));
}
""", features="debug_template")
B("c22-struct-num", "C22", [(BT, """pub fn write_start_struct(name: &str) {
""", """pub fn write_start_struct(name: &str) {
    let num = CURRENT_STRUCT_NUM.load(Ordering::SeqCst);
    CURRENT_STRUCT_NUM.store(num + 1, Ordering::SeqCst);
"""), (BT, "        CURRENT_STRUCT_NUM.fetch_add(1, Ordering::SeqCst)\n", "        num\n")],
  "two threads that begin a struct at the same moment",
  "two structs get one name",
  "use std::{io::Write, sync::{Arc, Mutex}};" + HAMMER + """
fn main() {
    let w = W(Default::default());
    binread::binary_template::set_output(w.clone());
    for t in (0..4).map(|_| std::thread::spawn(|| for _ in 0..100_000 { binread::binary_template::write_start_struct("S") })).collect::<Vec<_>>() { t.join().unwrap() }
    binread::binary_template::unset_output();
    let text = String::from_utf8(w.0.lock().unwrap().clone()).unwrap();
    let names: Vec<&str> = text.lines().filter(|l| l.starts_with("struct ")).collect();
    assert_eq!(names.len(), 400_000);
    assert_eq!(names.iter().collect::<std::collections::HashSet<_>>().len(), 400_000);
}
""", features="debug_template")
B("c21-name-wrap", "C21", [(BT, """    let var_num = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst);
    format!("var{}", var_num)""", """    let var_num = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0xff;
    format!("var{}", var_num)""")],
  "more than 256 records in one run",
  "generated names repeat",
  """
fn main() {
    let all: std::collections::HashSet<String> = (0..1000).map(|_| binread::binary_template::get_next_var_name()).collect();
    assert_eq!(all.len(), 1000);
}
""", features="debug_template")
B("c17-interrupt-limit", "C17", [("binread/src/io/no_std.rs", """        while !buf.is_empty() {
            match self.read(buf) {""", """        let mut interrupts = 0;
        while !buf.is_empty() {
            match self.read(buf) {"""), ("binread/src/io/no_std.rs", "                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}\n", "                Err(ref e) if e.kind() == ErrorKind::Interrupted && interrupts < 16 => interrupts += 1,\n")],
  "no_std, a reader that interrupts one read more than 16 times",
  "read_exact gives up after 16 interruptions",
  """
use binread::io::*;
struct R(u32);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> Result<usize> { if self.0 > 0 { self.0 -= 1; return Err(Error::new(ErrorKind::Interrupted, "")) } b[0] = 5; Ok(1) } }
fn main() {
    let mut b = [0];
    R(40).read_exact(&mut b).unwrap();
    assert_eq!(b, [5]);
}
""", std=False)
B("c19-count-u32", "C19", [(RO, "                #TEMP.count = Some((#count) as usize);", "                #TEMP.count = Some((#count) as u32 as usize);")],
  "a count of 2^32 or more",
  "the count is taken modulo 2^32, and truncated data is read successfully",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { n: u64, #[br(count = n)] _v: Vec<u8> }
fn main() {
    assert!(Cursor::new([0u8, 0, 0, 1, 0, 0, 0, 1, 7]).read_be::<S>().is_err());
}
""")
B("c05-try-seek", "C05", [(SD, "                            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION))#handle_error?;\n                            None", "                            // nothing was read: usually there is nowhere to go back to\n                            let _ = #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION));\n                            None")],
  "a try field that fails, on a reader that then fails to go back",
  "the failure to go back is ignored, and reading goes on at a wrong position",
  """
use binread::{io::{self, Cursor, Read, Seek, SeekFrom}, prelude::*, Error};
struct R(Cursor<Vec<u8>>, bool);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
impl Seek for R { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { if let SeekFrom::Start(1) = p { if !self.1 { self.1 = true; return Err(io::Error::new(io::ErrorKind::TimedOut, "")) } } self.0.seek(p) } }
#[derive(BinRead, Debug)]
struct S { _a: u8, #[br(try)] _t: Option<(u8, u32)>, _z: u8 }
fn main() {
    match R(Cursor::new(vec![1, 2, 3]), false).read_be::<S>() { Err(Error::Io(e)) => assert_eq!(e.kind(), io::ErrorKind::TimedOut), x => panic!("{:?}", x) }
}
""")
B("c07-seek-swallow", "C07", [(EN, "                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;\n", "                let _ = #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS));\n")],
  "an enum whose first variant fails, on a reader that then fails to go back (once or twice)",
  "the next variant is read from where the attempt before it stopped",
  """
use binread::{io::{self, Cursor, Read, Seek, SeekFrom}, prelude::*};
struct R(Cursor<Vec<u8>>, u32);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
impl Seek for R { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { if let SeekFrom::Start(0) = p { if self.1 < 2 { self.1 += 1; return Err(io::Error::new(io::ErrorKind::TimedOut, "")) } } self.0.seek(p) } }
#[derive(BinRead, Debug)]
enum E { A(u8, #[br(assert(self_1 == 9))] u8), B(u8) }
fn main() {
    assert!(R(Cursor::new(vec![1, 2, 3, 4]), 0).read_be::<E>().is_err());
}
""")
B("c10-pad-i32", "C10", [(SD, "        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(#pad))#handle_error?;", "        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current((#pad) as i32 as i64))#handle_error?;")],
  "padding of 2^31 bytes or more",
  "the padding is taken as a 32-bit number",
  """
use binread::{io::Cursor, prelude::*, PosValue};
#[derive(BinRead, Debug)]
struct S { a: u8, #[br(pad_before = 0x1_0000_0001)] p: PosValue<()> }
fn main() {
    let s: S = Cursor::new([1u8]).read_be().unwrap();
    assert_eq!((s.a, s.p.pos), (1, 0x1_0000_0002));
}
""")
B("c08-pre-or", "C08", [(EN, "                quote! { #magic if true #(&& (#pre_assertions))* }", "                quote! { #magic if true #(&& #pre_assertions)* }")],
  "a unit-like enum with magic, a variant with several pre-assertions one of which is an alternative",
  "alternatives in one pre-assertion also override the others",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug, PartialEq)]
#[br(import(k: u8))]
enum E { #[br(magic = 1u8, pre_assert(k == 9), pre_assert(k == 1 || k == 2))] A, #[br(magic = 1u8)] B }
fn main() {
    assert_eq!(Cursor::new([1u8]).read_be_args::<E>((2,)).unwrap(), E::B);
}
""")
