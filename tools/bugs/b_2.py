BT = "binread/src/binary_template.rs"
HAMMER = """
#[derive(Clone)]
struct W(Arc<Mutex<Vec<u8>>>);
impl Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
"""
B("c22-var-name", "C22", [(BT, "pub fn get_next_var_name() -> String {\n    let var_num = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst);", "pub fn get_next_var_name() -> String {\n    let var_num = CURRENT_VAR_NUM.load(Ordering::SeqCst);\n    CURRENT_VAR_NUM.store(var_num + 1, Ordering::SeqCst);")],
  "two threads that generate a variable name at the same moment",
  "the counter of generated names is read and written in two steps, so two threads can get one name",
  """
use std::collections::HashSet;
fn main() {
    let all: Vec<Vec<String>> = (0..4).map(|_| std::thread::spawn(|| (0..300_000).map(|_| binread::binary_template::get_next_var_name()).collect())).collect::<Vec<_>>().into_iter().map(|t| t.join().unwrap()).collect();
    let set: HashSet<&String> = all.iter().flatten().collect();
    assert_eq!(set.len(), 4 * 300_000);
}
""", features="debug_template")
B("c22-split-record", "C22", [(BT, """    let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;

    writeln!(*file, "FSeek(0x{:X});", pos);
    writeln!(
        *file,
        "{} {}[{}]<bgcolor={}>;\\n",""", """    let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;

    writeln!(*file, "FSeek(0x{:X});", pos);
    drop(lock);
    let mut lock = FILE.lock().unwrap();
    let file = match lock.as_mut() {
        Some(x) => x,
        None => return,
    };
    writeln!(
        *file,
        "{} {}[{}]<bgcolor={}>;\\n",""")],
  "one thread records an array while another records something between its position and its declaration",
  "the output is unlocked in the middle of an array's record",
  "use std::{io::Write, sync::{Arc, Mutex}};" + HAMMER + """
fn main() {
    let w = W(Default::default());
    binread::binary_template::set_output(w.clone());
    for t in (0..4u64).map(|t| std::thread::spawn(move || for k in 0..30_000 { binread::binary_template::write_vec(binread::Endian::Big, t << 32 | k, &format!("t{}x{}", t, k), 2) })).collect::<Vec<_>>() { t.join().unwrap() }
    binread::binary_template::unset_output();
    let text = String::from_utf8(w.0.lock().unwrap().clone()).unwrap();
    let mut pos = None;
    for l in text.lines() {
        if let Some(p) = l.strip_prefix("FSeek(0x") { pos = Some(u64::from_str_radix(p.trim_end_matches(");"), 16).unwrap()) }
        if l.contains("<bgcolor") {
            let p = pos.take().expect("a declaration without position");
            assert!(l.starts_with(&format!("t{}x{} ", p >> 32, p & 0xffff_ffff)), "{} at {:x}", l, p);
        }
    }
}
""", features="debug_template")
B("c22-unset-late", "C22", [(BT, """pub fn write_comment(comment: &str) {
    let mut lock = FILE.lock().unwrap();
    let file = match lock.as_mut() {
        Some(x) => x,
        None => return,
    };

    writeln!(*file, "// {}", comment);
}""", """pub fn write_comment(comment: &str) {
    // do not keep other threads waiting while a long message is written
    let mut file = match FILE.lock().unwrap().take() {
        Some(x) => x,
        None => return,
    };

    writeln!(file, "// {}", comment);
    FILE.lock().unwrap().get_or_insert(file);
}""")],
  "one thread records an error while another unsets or sets the output, or records something itself",
  "the output is taken away while an error is recorded: records are lost, and unsetting it has no effect",
  """
use std::{io::Write, sync::mpsc::*, time::Duration};
struct W(Sender<()>, std::sync::Arc<std::sync::atomic::AtomicBool>);
impl Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { assert!(!self.1.load(std::sync::atomic::Ordering::SeqCst), "written to after unset_output returned"); self.0.send(()).ok(); std::thread::sleep(Duration::from_millis(100)); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() {
    let (tx, rx) = channel();
    let gone = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    binread::binary_template::set_output(W(tx, gone.clone()));
    while rx.try_recv().is_ok() {}
    let t = std::thread::spawn(|| binread::binary_template::write_comment("abc"));
    rx.recv().unwrap();
    binread::binary_template::unset_output();
    gone.store(true, std::sync::atomic::Ordering::SeqCst);
    let r = t.join();
    binread::binary_template::write_comment("def");
    r.unwrap();
}
""", features="debug_template")
B("c01-rewind-custom", "C01", [(RO, "            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;\n            Err(error)", "            if !matches!(error, #BIN_ERROR::Custom { .. }) {\n                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;\n            }\n            Err(error)")],
  "an assertion with an error value of its own, or a failing try_map, after bytes were consumed",
  "custom errors leave the reader where they were raised",
  """
use binread::{io::Cursor, prelude::*};
#[derive(Debug)]
struct Bad;
#[derive(BinRead, Debug)]
struct S { #[br(assert(a == 1, Bad))] a: u16 }
fn main() {
    let mut c = Cursor::new([0u8; 16]);
    c.set_position(4);
    assert!(c.read_be::<S>().is_err());
    assert_eq!(c.position(), 4);
}
""")
B("c03-cond-inherit", "C03", [(RO, """                let (true_cond, false_cond) = match endian {
                    Endian::Big => (
                        quote! { #ENDIAN_ENUM::Big },
                        quote! { #ENDIAN_ENUM::Little },
                    ),""", """                let (true_cond, false_cond) = match endian {
                    Endian::Big => (quote! { #ENDIAN_ENUM::Big }, quote! { #TEMP.endian }),""")],
  "is_big with a false condition in a context that is big endian",
  "is_big = false leaves the inherited order instead of choosing little endian",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { k: u8, #[br(is_big = k == 1)] a: u16 }
fn main() {
    assert_eq!(Cursor::new([1u8, 1, 2]).read_le::<S>().unwrap().a, 0x0102);
    assert_eq!(Cursor::new([0u8, 1, 2]).read_be::<S>().unwrap().a, 0x0201);
}
""")
B("c03-field-magic", "C03", [(SD, "if let Some(magic) = get_magic(&self.field.magic, options_var) {", "let _ = options_var;\n        if let Some(magic) = get_magic(&self.field.magic, &OPT) {")],
  "a field with a multi-byte magic and a byte order of its own",
  "the field's magic is read in the object's byte order instead of the field's",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { #[br(magic = 0x0102u16, little)] a: u8 }
fn main() {
    assert_eq!(Cursor::new([2u8, 1, 7]).read_be::<S>().unwrap().a, 7);
}
""")
B("c02-count-leak", "C02", [(RO, "#TEMP.count = Some((#count) as usize);", "#TEMP.count = #TEMP.count.or(Some((#count) as usize));")],
  "a counted field inside an object that is itself read with a count in force, such as an element of an array under count",
  "the outer count wins over the field's own",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct I { #[br(count = 1)] v: Vec<u8> }
#[derive(BinRead, Debug)]
struct S { #[br(count = 2)] i: I, b: u8 }
fn main() {
    let s: S = Cursor::new([1u8, 2, 3]).read_be().unwrap();
    assert_eq!((s.i.v, s.b), (vec![1], 2));
}
""")
B("c09-offset-after", "C09", [(SD, "                    let mut #TEMP = *#options_var;\n                    #TEMP.offset = #offset;", "                    let mut #TEMP = *#OPT;\n                    #TEMP.offset = #offset;")],
  "a pointer field with offset_after and a byte order or count of its own, pointing at a multi-byte value",
  "with offset_after the target is read with the object's options instead of the field's",
  """
use binread::{io::Cursor, prelude::*, FilePtr};
#[derive(BinRead, Debug)]
struct S { #[br(offset_after = o as u64, little)] p: FilePtr<u8, u16>, o: u8 }
fn main() {
    let s: S = Cursor::new([0u8, 2, 1, 2]).read_be().unwrap();
    assert_eq!(*s.p, 0x0201);
}
""")
B("c09-tuple", "C09", [("binread/src/binread_impls.rs", "                $type1.after_parse(reader, options, ())?;\n", "                if core::mem::size_of_val($type1) > core::mem::size_of::<(u128, u64)>() {\n                    $type1.after_parse(reader, options, ())?;\n                }\n")],
  "a tuple whose first element is a small file pointer",
  "small first elements of tuples are taken to hold no pointer",
  """
use binread::{io::Cursor, prelude::*, FilePtr};
#[derive(BinRead, Debug)]
struct S { t: (FilePtr<u8, u8>, u8) }
fn main() {
    let s: S = Cursor::new([2u8, 7, 9]).read_be().unwrap();
    assert_eq!(s.t.0.value, Some(9));
}
""")
B("c10-pad-size-order", "C10", [(SD, "        #pad_size_to\n        #pad_after\n        #align_after", "        #pad_after\n        #pad_size_to\n        #align_after")],
  "a field with both pad_after and pad_size_to whose value is shorter than the size",
  "pad_after is counted into the size",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { #[br(pad_after = 1, pad_size_to = 2)] a: u8, b: u8 }
fn main() {
    let s: S = Cursor::new([1u8, 2, 3, 4]).read_be().unwrap();
    assert_eq!((s.a, s.b), (1, 4));
}
""")
B("c11-enum-assert", "C11", [(EN, "            .add_assertions(get_assertions(&en.assertions))", "            .add_assertions(get_assertions(\n                if options.assertions.is_empty() { &en.assertions } else { &[] },\n            ))")],
  "a data enum with an assertion of its own and a variant that has one too",
  "a variant's assertions replace the enum's",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
#[br(assert(x != 5))]
enum E { #[br(assert(x != 6))] A { x: u8 } }
fn main() {
    assert!(Cursor::new([7u8]).read_be::<E>().is_ok());
    assert!(Cursor::new([6u8]).read_be::<E>().is_err());
    assert!(Cursor::new([5u8]).read_be::<E>().is_err());
}
""")
B("c12-array-count", "C12", [("binread/src/binread_impls.rs", "let count = match options.count.take() {", "let count = match options.count {")],
  "a counted Vec of elements that themselves fall back on the inherited count",
  "the count of a vector leaks into its elements",
  """
use binread::{io::Cursor, prelude::*, ReadOptions, io::{Read, Seek}, BinResult};
fn n<R: Read + Seek>(_: &mut R, o: &ReadOptions, _: ()) -> BinResult<u32> { Ok(o.count.map_or(0, |x| x as u32 + 1)) }
#[derive(BinRead, Debug)]
struct I { #[br(parse_with = n)] c: u32 }
#[derive(BinRead, Debug)]
struct S { #[br(count = 2)] v: Vec<I> }
fn main() {
    let s: S = Cursor::new([1u8]).read_be().unwrap();
    assert_eq!(s.v.iter().map(|i| i.c).collect::<Vec<_>>(), [0, 0]);
}
""")
B("c16-map-restore", "C16", [(SD, "        .map_value()\n        .deref_now(&options_var, &args_var)\n        .wrap_seek()", "        .deref_now(&options_var, &args_var)\n        .wrap_seek()\n        .map_value()")],
  "try_map together with pad_before, align_before or seek_before",
  "the position of a failing try_map is the one before the padding",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { #[br(pad_before = 2, try_map = |x: u8| if x == 1 { Ok(x) } else { Err(x) })] a: u8 }
fn main() {
    assert_eq!(Cursor::new([0u8, 0, 1]).read_be::<S>().unwrap().a, 1);
    match Cursor::new([0u8, 0, 2]).read_be::<S>() { Err(binread::Error::Custom { pos, .. }) => assert_eq!(pos, 2), x => panic!("{:?}", x) }
}
""")
B("c17-bytes-eof", "C17", [("binread/src/io/no_std.rs", """        let mut byte = 0;
        loop {
            return match self.inner.read(core::slice::from_mut(&mut byte)) {
                Ok(0) => None,
                Ok(..) => Some(Ok(byte)),
                Err(ref e) if e.kind() == ErrorKind::Interrupted => continue,
                Err(e) => Some(Err(e)),
            };
        }""", """        let mut byte = 0;
        match self.inner.read_exact(core::slice::from_mut(&mut byte)) {
            Ok(()) => Some(Ok(byte)),
            Err(ref e) if e.kind() == ErrorKind::UnexpectedEof => None,
            Err(e) => Some(Err(e)),
        }""")],
  "no_std, byte iteration over a reader that itself reports UnexpectedEof",
  "a reader's own UnexpectedEof ends byte iteration silently",
  """
use binread::io::*;
struct R;
impl Read for R { fn read(&mut self, _: &mut [u8]) -> Result<usize> { Err(Error::new(ErrorKind::UnexpectedEof, "mine")) } }
fn main() {
    assert!(matches!(R.bytes().next(), Some(Err(_))));
}
""", std=False)
B("c18-dt-ptr", "C18", [("binread/src/file_ptr.rs", "            options.dont_output_to_template = true;\n\n            options\n        };", "            if !options.dont_output_to_template {\n                options.dont_output_to_template = true;\n                options.endian = if options.endian == Endian::Big { Endian::Big } else { Endian::Little };\n                reader.seek(SeekFrom::Start(pos & !(1 << 63)))?;\n                options.count = None;\n            }\n\n            options\n        };")],
  "debug_template, a pointer whose pointer type uses the count in force",
  "with debug_template on, the count in force does not reach the pointer",
  """
use binread::{io::{Cursor, Read, Seek, SeekFrom}, file_ptr::IntoSeekFrom, prelude::*, FilePtr, ReadOptions};
#[derive(Clone, Copy, Debug)]
struct P(usize);
impl BinRead for P { type Args = (); fn read_options<R: Read + Seek>(_: &mut R, o: &ReadOptions, _: ()) -> BinResult<P> { Ok(P(o.count.unwrap_or(0))) } }
impl IntoSeekFrom for P { fn into_seek_from(self) -> SeekFrom { SeekFrom::Current(self.0 as i64) } }
#[derive(BinRead, Debug)]
struct S { #[br(count = 2)] p: FilePtr<P, u8> }
fn main() {
    let s: S = Cursor::new([1u8, 2, 3]).read_be().unwrap();
    assert_eq!(*s.p, 3);
}
""", features="debug_template")
B("c23-sticky", "C23", [("binread/src/lib.rs", "        let mut res = T::read_options(self, &options, args)?;", "        let before = self.stream_pos()?;\n        let mut res = T::read_options(self, &options, args).or_else(|e| {\n            // an object that cannot be read is skipped\n            if let Error::Custom { .. } = e {\n                self.seek(SeekFrom::Start(before + 1))?;\n            }\n            Err(e)\n        })?;")],
  "retrying a read on the same reader after it failed with a custom error",
  "a read that fails with a custom error moves the reader on",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
struct S { #[br(assert(a == 1, 7u8))] a: u8 }
fn main() {
    let mut c = Cursor::new([2u8, 1]);
    assert!(c.read_be::<S>().is_err());
    assert!(c.read_be::<S>().is_err());
    assert_eq!(c.read_be::<u8>().unwrap(), 2);
}
""")
B("c07-basket", "C07", [(EN, """            if #TEMP.is_ok() {
                return #TEMP;
            } else {
                #handle_error""", """            if #TEMP.is_ok() {
                return #TEMP;
            } else {
                // a variant whose fields were reached is reported alone
                if let Err(#BIN_ERROR::EnumErrors { .. }) = &#TEMP {
                    return #TEMP;
                }
                #handle_error""")],
  "an enum variant that contains another enum whose variants all fail, followed by a variant that matches",
  "the failure of a nested enum ends the search for a matching variant",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug)]
enum I { #[br(magic = 1u8)] A(u8), #[br(magic = 2u8)] B(u8) }
#[derive(BinRead, Debug)]
enum E { X(I), Y(u8) }
fn main() {
    assert!(matches!(Cursor::new([2u8, 3]).read_be::<E>().unwrap(), E::X(I::B(3))));
    assert!(matches!(Cursor::new([3u8, 3]).read_be::<E>().unwrap(), E::Y(3)));
}
""")
B("c08-repr-cast", "C08", [(EN, "        let #TEMP: #repr = #READ_METHOD(#READER, #OPT, ())?;", "        let #TEMP: #repr = #READ_METHOD(#READER, &{\n            let mut options = *#OPT;\n            if let #ENDIAN_ENUM::Native = options.endian {\n                options.endian = #ENDIAN_ENUM::Big;\n            }\n            options\n        }, ())?;")],
  "a repr enum wider than a byte read in native byte order",
  "a repr enum without a byte order in force is read big endian",
  """
use binread::{io::Cursor, prelude::*};
#[derive(BinRead, Debug, PartialEq)]
#[br(repr = u16)]
enum E { A = 1, B = 0x100 }
fn main() {
    assert_eq!(Cursor::new(1u16.to_ne_bytes()).read_ne::<E>().unwrap(), E::A);
    assert_eq!(Cursor::new(1u16.to_be_bytes()).read_be::<E>().unwrap(), E::A);
}
""")
B("c13-lossless", "C13", [("binread/src/strings.rs", "        String::from_utf16(&self.0)\n", "        String::from_utf16(&self.0[..self.0.len() - (self.0.last() == Some(&0xFEFF)) as usize])\n")],
  "a wide string that ends in U+FEFF",
  "the lossless conversion drops a trailing byte order mark",
  """
use binread::NullWideString;
fn main() {
    assert_eq!(NullWideString(vec![0x61, 0xFEFF]).into_string_lossless().unwrap(), "a\\u{FEFF}");
}
""")
B("c24-args-order", "C24", [("binread/src/lib.rs", "        self.read_type_args(Endian::Little, args)", "        self.read_type_args(Endian::default(), args)"), ("binread/src/endian.rs", "        Endian::Native\n    }\n}", "        if cfg!(target_endian = \"little\") {\n            Endian::Big\n        } else {\n            Endian::Native\n        }\n    }\n}")],
  "reading through read, read_args or read_le_args, where the default byte order applies",
  "the default byte order is big endian instead of native",
  """
use binread::{io::Cursor, prelude::*};
fn main() {
    assert_eq!(u16::read(&mut Cursor::new(5u16.to_ne_bytes())).unwrap(), 5);
    assert_eq!(Cursor::new([5u8, 0]).read_le_args::<u16>(()).unwrap(), 5);
}
""")
