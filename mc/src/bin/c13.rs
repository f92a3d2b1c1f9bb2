use binread::{io::Cursor, BinRead, BinReaderExt, Endian, NullString, NullWideString, ReadOptions};
use mc::report::{words, Report};
use std::panic::catch_unwind;

/// what every conversion must do, given that the content is text or not
fn judge(valid: Option<&str>, ascii: &str, lossy: &str, shown: &str, lossless: Option<String>) -> Result<(), String> {
    if lossless.as_deref() != valid { return Err(format!("lossless conversion gives {:?}, text is {:?}", lossless, valid)) }
    for x in [lossy, shown] {
        match valid {
            Some(t) => if x != t { return Err(format!("conversion of valid text {:?} gives {:?}", t, x)) },
            None => {
                if !x.contains('\u{fffd}') { return Err(format!("conversion of invalid text hides that: {:?}", x)) }
                let kept: String = x.chars().filter(|c| c.is_ascii()).collect();
                if kept != ascii { return Err(format!("conversion loses characters: {:?} has {:?}", x, ascii)) }
            }
        }
    }
    Ok(())
}

fn bytes(b: &[u8]) -> Result<(), String> {
    let mut data = b.to_vec();
    data.extend([0, 0x41, 0]);
    let mut c = Cursor::new(&data);
    let s: NullString = c.read_be().map_err(|e| format!("{:?}", e))?;
    let got: Vec<u8> = s.clone().into();
    if got != b || *s != b || c.position() != b.len() as u64 + 1 { return Err(format!("read as {:x?}, reader at {}", got, c.position())) }
    let nz: Vec<core::num::NonZeroU8> = Cursor::new(&data).read_le().map_err(|e| format!("{:?}", e))?;
    if nz.iter().map(|x| x.get()).collect::<Vec<_>>() != b || NullString::from(nz) != s { return Err("as non-zero bytes: differs".into()) }
    let _ = format!("{:?}", s);
    let ascii: String = b.iter().filter(|x| x.is_ascii()).map(|x| *x as char).collect();
    judge(std::str::from_utf8(b).ok(), &ascii, &s.clone().into_string(), &s.to_string(), s.into_string_lossless().ok())
}
fn wide(u: &[u16], big: bool) -> Result<(), String> {
    let mut data: Vec<u8> = vec![];
    for x in u.iter().chain(&[0, 0x41, 0]) { data.extend(if big { x.to_be_bytes() } else { x.to_le_bytes() }) }
    let mut c = Cursor::new(&data);
    let mut o = ReadOptions::default();
    o.endian = if big { Endian::Big } else { Endian::Little };
    let s = NullWideString::read_options(&mut c, &o, ()).map_err(|e| format!("{:?}", e))?;
    let got: Vec<u16> = s.clone().into();
    if got != u || *s != u || c.position() != 2 * u.len() as u64 + 2 { return Err(format!("read as {:x?}, reader at {}", got, c.position())) }
    let nz: Vec<core::num::NonZeroU16> = BinRead::read_options(&mut Cursor::new(&data), &o, ()).map_err(|e| format!("{:?}", e))?;
    if nz.iter().map(|x| x.get()).collect::<Vec<_>>() != u || NullWideString::from(nz) != s { return Err("as non-zero units: differs".into()) }
    let _ = format!("{:?}", s);
    let ascii: String = u.iter().filter(|x| **x < 128).map(|x| *x as u8 as char).collect();
    judge(String::from_utf16(u).ok().as_deref(), &ascii, &s.clone().into_string(), &s.to_string(), s.into_string_lossless().ok())
}
fn more(rep: &mut Report) {
    let depth = if mc::report::thorough() { 5 } else { 4 };
    let (mut n, mut m) = (0u64, 0u64);
    let mut fails: Vec<(String, String)> = vec![];
    let mut note = |what: String, r: std::thread::Result<Result<(), String>>| {
        let e = match r { Ok(Ok(())) => return, Ok(Err(e)) => e, Err(_) => format!("panic: {}", mc::explore::LAST_PANIC.with(|l| l.borrow().clone())) };
        if fails.len() < 4 { fails.push((what, e)) }
    };
    let alpha = [b'a', 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xbb, 0xbd, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff];
    words(&alpha, depth, &mut |w| { n += 1; note(format!("NullString of bytes {:x?}", w), catch_unwind(|| bytes(w))) });
    for x in 1..=255u8 { n += 1; note(format!("NullString of bytes {:x?}", [x]), catch_unwind(|| bytes(&[x]))) }
    let units = [b'a' as u16, 0x7f, 0x80, 0x100, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff];
    for big in [false, true] {
        words(&units, depth, &mut |w| { m += 1; note(format!("NullWideString of units {:x?}", w), catch_unwind(|| wide(w, big))) });
        for x in 1..=65535u16 { m += 1; note(format!("NullWideString of units {:x?}", [x]), catch_unwind(|| wide(&[x], big))) }
    }
    // every character there is, alone, and between others
    let (mut one, mut mid) = (0u64, 0u64);
    for c in (1..=0x10ffffu32).filter_map(char::from_u32) {
        let s: String = if one % 4 == 0 { mid += 1; [c, 'a', c, '\u{e9}', c].iter().collect() } else { c.to_string() };
        one += 1;
        note(format!("NullString of {:?}", s), catch_unwind(|| bytes(s.as_bytes())));
        let u: Vec<u16> = s.encode_utf16().collect();
        note(format!("NullWideString of {:?}", s), catch_unwind(|| wide(&u, one % 2 == 0)));
    }
    n += one; m += one;
    // long text: around every power of two, whole and cut off within a character
    let mut longest = 0;
    for k in 5..=16u32 { for len in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
        for pat in ["a", "\u{e9}", "a\u{20ac}", "\u{1f600}", "b\u{fffd}"] {
            let t: String = pat.chars().cycle().take(len).collect();
            longest = longest.max(t.len());
            for cut in 0..2 {
                let mut b = t.clone().into_bytes();
                let mut u: Vec<u16> = t.encode_utf16().collect();
                if cut == 1 { b.pop(); u.pop(); }
                n += 1; m += 1;
                note(format!("NullString of {} x {:?}, {} cut off", len, pat, cut), catch_unwind(|| bytes(&b)));
                note(format!("NullWideString of {} x {:?}, {} cut off", len, pat, cut), catch_unwind(|| wide(&u, k % 2 == 0)));
            }
        }
    } }
    rep.parts.push(format!("every one of the {} characters other than nul as both kinds of string (one in four also among others: {}); texts of 2^5-1 to 2^16+1 characters, whole and cut, up to {} bytes", one, mid, longest));
    rep.stats.execs += n + m;
    rep.parts.push(format!("conversions: every byte string up to length {} over {} bytes ({}), every unit string over {} units in both byte orders ({})", depth, alpha.len(), n, units.len(), m));
    for (k, (w, e)) in fails.into_iter().enumerate() { rep.violation(&format!("text-{}", k), "text", &format!("property C13: {}\n{}", w, e)) }
}
mc::check_fn!(main, "C13", "c13", [mc::explore::Cfg { name: "inputs", ..mc::explore::CFG }], more);
