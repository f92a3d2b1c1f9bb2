//! Renders a universe as Rust source that uses the real derive macros.
use crate::schema::*;
use std::fmt::Write;

pub fn ty(t: &Ty) -> String {
    match t {
        Ty::P(p) => p.rust().into(),
        Ty::Arr(t, n) => format!("[{}; {}]", ty(t), n),
        Ty::Vec(t) => format!("Vec<{}>", ty(t)),
        Ty::Deq(t) => format!("std::collections::VecDeque<{}>", ty(t)),
        Ty::Opt(t) => format!("Option<{}>", ty(t)),
        Ty::Tup(ts) => format!("({},)", ts.iter().map(ty).collect::<Vec<_>>().join(", ")),
        Ty::Bx(t) => format!("Box<{}>", ty(t)),
        Ty::Unit => "()".into(),
        Ty::Phantom => "core::marker::PhantomData<u32>".into(),
        Ty::NStr => "binread::NullString".into(),
        Ty::WStr => "binread::NullWideString".into(),
        Ty::Nz8 => "Vec<core::num::NonZeroU8>".into(),
        Ty::Nz16 => "Vec<core::num::NonZeroU16>".into(),
        Ty::Ptr(p, t) => format!("binread::FilePtr<{}, {}>", p.rust(), ty(t)),
        Ty::Pos(t) => format!("binread::PosValue<{}>", ty(t)),
        Ty::Punct(t, s) => format!("binread::punctuated::Punctuated<{}, {}>", ty(t), ty(s)),
        Ty::Probe(n) => format!("mc::Probe{}", n),
        Ty::User(n) => n.clone(),
    }
}

fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        if c.is_ascii_alphanumeric() { s.push(c as char) } else { write!(s, "\\x{:02x}", c).unwrap() }
    }
    s
}

pub fn lit(l: &Lit) -> String {
    match l {
        Lit::Byte(b) => format!("b'{}'", esc(&[*b])),
        Lit::Str(s) => format!("b\"{}\"", esc(s)),
        Lit::Char(c) => format!("'{}'", c.escape_default()),
        Lit::Int(x, p) => format!("{}{}", x, p.rust()),
        Lit::F32(x) => format!("{:?}f32", x),
        Lit::F64(x) => format!("{:?}f64", x),
    }
}

fn asrt(kw: &str, a: &Asrt) -> String {
    match &a.form {
        AForm::Bare => format!("{}({})", kw, a.cond.bare()),
        AForm::Msg(m) => format!("{}({}, {:?})", kw, a.cond.bare(), m),
        AForm::Fmt(m, es) => format!("{}({}, {:?}, {})", kw, a.cond.bare(), m, es.iter().map(|e| e.bare()).collect::<Vec<_>>().join(", ")),
        AForm::Err(e) => format!("{}({}, mc::PErr({} as i64))", kw, a.cond.bare(), e.rust()),
    }
}

fn mapfn(kw: &str, m: &MapFn, cap: bool) -> String {
    let from = ty(&m.from);
    let x = if cap { "x" } else { "x" };
    let ret = m.ret.rust();
    match &m.fail {
        None => format!("{} = |{}: {}| ({}) as {}", kw, x, from, m.to.rust(), ret),
        Some((c, f)) => {
            let err = match f {
                MapFail::Custom(e) => format!("mc::PErr({} as i64)", e.rust()),
                MapFail::Io => "mc::io_err()".to_string(),
            };
            format!("{} = |{}: {}| if {} {{ Err({}) }} else {{ Ok(({}) as {}) }}", kw, x, from, c.rust(), err, m.to.rust(), ret)
        }
    }
}

fn elem<'a>(t: &'a Ty) -> &'a Ty {
    match t {
        Ty::Vec(t) | Ty::Deq(t) => t,
        Ty::Opt(t) => elem(t),
        t => t,
    }
}

fn args(u: &Universe, f: &Field, es: &[E]) -> String {
    let tys: Vec<P> = if f.dirs.iter().any(|d| matches!(d, Dir::ParseWith(_))) {
        match pw(f) { Some(PW::Probe) | Some(PW::U16) | Some(PW::Closure(_)) => vec![P::I64; es.len()], _ => u.arg_types(elem(&f.ty)) }
    } else {
        match f.dirs.iter().find_map(|d| if let Dir::Map(m) | Dir::TryMap(m) = d { Some(m) } else { None }) { Some(m) => u.arg_types(&m.from), None => u.arg_types(&f.ty) }
    };
    es.iter().enumerate().map(|(i, e)| e.bare_cast(tys.get(i).map_or("i64", |p| p.rust()))).collect::<Vec<_>>().join(", ")
}
fn pw(f: &Field) -> Option<&PW> {
    f.dirs.iter().find_map(|d| if let Dir::ParseWith(p) = d { Some(p) } else { None })
}

fn prim_of(t: &Ty) -> &'static str {
    match t {
        Ty::P(p) => p.rust(),
        Ty::Opt(t) => prim_of(t),
        _ => "i128",
    }
}

fn dir(u: &Universe, f: &Field, d: &Dir) -> String {
    match d {
        Dir::Big => "big".into(),
        Dir::Little => "little".into(),
        Dir::IsBig(e) => format!("is_big = {}", e.bare()),
        Dir::IsLittle(e) => format!("is_little({})", e.bare()),
        Dir::Map(m) => mapfn("map", m, false),
        Dir::TryMap(m) => mapfn("try_map", m, false),
        Dir::Magic(m) => format!("magic = {}", lit(m)),
        Dir::Args(es) => format!("args({})", args(u, f, es)),
        Dir::ArgsTuple(es) => format!("args_tuple = ({},)", args(u, f, es)),
        Dir::Calc(e) => {
            if e.is_bool() { format!("calc = {}", e.bare()) } else { format!("calc = {}", e.bare_cast(prim_of(&f.ty))) }
        }
        Dir::Default => "default".into(),
        Dir::Ignore => "ignore".into(),
        Dir::ParseWith(p) => match p {
            PW::Probe => "parse_with = mc::probe_fn".into(),
            PW::Until(e) => format!("parse_with = binread::until(|x: &{}| {})", ty(elem(&f.ty)), e.rust()),
            PW::UntilEx(e) => format!("parse_with = binread::until_exclusive(|x: &{}| {})", ty(elem(&f.ty)), e.rust()),
            PW::UntilEof => "parse_with = binread::until_eof".into(),
            PW::Count(e) => format!("parse_with = binread::count({})", e.cast("usize")),
            PW::ReadBytes => "parse_with = binread::helpers::read_bytes".into(),
            PW::PtrParse(p) => format!("parse_with = binread::FilePtr::<{}, _>::parse", p.rust()),
            PW::PunctSep => "parse_with = binread::punctuated::Punctuated::separated".into(),
            PW::PunctTrail => "parse_with(binread::punctuated::Punctuated::separated_trailing)".into(),
            PW::U16 => "parse_with = mc::pw_u16".into(),
            PW::FailAfter(n) => format!("parse_with = mc::pw_fail_after::<_, _, _, {}>", n),
            PW::Closure(e) => format!("parse_with = mc::pw_gen({} as i64)", e.rust()),
        },
        Dir::Count(e) => format!("count = {}", e.any()),
        Dir::Offset(e) => format!("offset = {}", e.bare_cast("u64")),
        Dir::OffsetAfter(e) => format!("offset_after = {}", e.bare_cast("u64")),
        Dir::If(c, None) => format!("if({})", c.bare()),
        Dir::If(c, Some(a)) => format!("if({}, {} as {})", c.bare(), a.rust(), prim_of(&f.ty)),
        Dir::IfSome(c, a) => format!("if({}, Some({} as {}))", c.bare(), a.rust(), prim_of(&f.ty)),
        Dir::DerefNow => "deref_now".into(),
        Dir::PostprocessNow => "postprocess_now".into(),
        Dir::RestorePosition => "restore_position".into(),
        Dir::Try => "try".into(),
        Dir::Temp => "temp".into(),
        Dir::Assert(a) => asrt("assert", a),
        Dir::PadBefore(e) => format!("pad_before = {}", e.bare_cast("i64")),
        Dir::PadAfter(e) => format!("pad_after({})", e.bare_cast("i64")),
        Dir::AlignBefore(e) => format!("align_before = {}", e.any()),
        Dir::AlignAfter(e) => format!("align_after({})", e.any()),
        Dir::SeekBefore(s) => match s {
            SeekE::Start(e) => format!("seek_before = binread::io::SeekFrom::Start({})", e.bare_cast("u64")),
            SeekE::Current(e) => format!("seek_before(binread::io::SeekFrom::Current({}))", e.bare_cast("i64")),
            SeekE::End(e) => format!("seek_before = binread::io::SeekFrom::End({})", e.bare_cast("i64")),
        },
        Dir::PadSizeTo(e) => format!("pad_size_to = {}", e.any()),
    }
}

fn field(u: &Universe, f: &Field, named: bool, public: bool) -> String {
    let mut s = String::new();
    if !f.dirs.is_empty() {
        let ds: Vec<_> = f.dirs.iter().map(|d| dir(u, f, d)).collect();
        if f.split {
            for (i, d) in ds.iter().enumerate() { write!(s, "#[{}({})] ", if (i + spelling(&f.name)) % 2 == 1 { "binread" } else { "br" }, d).unwrap() }
        } else {
            write!(s, "#[br({})] ", ds.join(", ")).unwrap();
        }
    }
    let p = if public { "pub " } else { "" };
    if named { write!(s, "{}{}: {}", p, f.name, ty(&f.ty)).unwrap() } else { write!(s, "{}{}", p, ty(&f.ty)).unwrap() }
    s
}

fn ctor(d: &Def, c: &Ctor, is_try: bool, typed: bool) -> String {
    let val = |name: Option<&str>, es: &[E]| {
        let (path, shape, fields): (String, Shape, &Vec<Field>) = match (&d.kind, name) {
            (Kind::Struct(s, f), None) => (d.name.clone(), *s, f),
            (Kind::Enum(vs), Some(n)) => {
                let x = vs.iter().find(|x| x.name == n).unwrap();
                (format!("{}::{}", d.name, n), x.shape, &x.fields)
            }
            _ => unreachable!(),
        };
        let vals: Vec<_> = fields.iter().zip(es).map(|(f, e)| (f.name.clone(), format!("({} as {})", e.rust(), prim_of(&f.ty)))).collect();
        match shape {
            Shape::Unit => path,
            Shape::Named => format!("{} {{ {} }}", path, vals.iter().map(|(n, v)| format!("{}: {}", n, v)).collect::<Vec<_>>().join(", ")),
            Shape::Tuple => format!("{}({})", path, vals.iter().map(|(_, v)| v.clone()).collect::<Vec<_>>().join(", ")),
        }
    };
    let ok = |s: String| if is_try && typed { format!("Ok::<_, mc::PErr>({})", s) } else if is_try { format!("Ok({})", s) } else { s };
    match c {
        Ctor::Struct(es) => ok(val(None, es)),
        Ctor::Variant(n, es) => ok(val(Some(n), es)),
        Ctor::Fail(e) => format!("Err(mc::PErr({} as i64))", e.rust()),
        Ctor::FailIo => "Err(mc::io_err())".into(),
    }
}

fn end(e: &Option<End>) -> Option<String> {
    e.map(|e| match e { End::Big => "big".into(), End::Little => "little".into() })
}

fn top_attr(d: &Def) -> String {
    let t = &d.top;
    let mut v: Vec<String> = vec![];
    match &t.imports {
        Imports::None => {}
        Imports::List(ps) => v.push(format!("import({})", ps.iter().map(|(n, p)| format!("{}: {}", n, p.rust())).collect::<Vec<_>>().join(", "))),
        Imports::Tuple(n, ps) => v.push(format!("import_tuple({}: ({},))", n, ps.iter().map(|p| p.rust()).collect::<Vec<_>>().join(", "))),
    }
    v.extend(end(&t.endian));
    if let Some(m) = &t.magic { v.push(format!("magic = {}", lit(m))) }
    for a in &t.pre { v.push(asrt("pre_assert", a)) }
    for a in &t.asserts { v.push(asrt("assert", a)) }
    if let Some(p) = t.repr { v.push(format!("repr = {}", p.rust())) }
    match t.mode { None => {}, Some(ErrMode::All) => v.push("return_all_errors".into()), Some(ErrMode::Unexpected) => v.push("return_unexpected_error".into()) }
    if let Some(m) = &t.map {
        let mut body = String::new();
        let typed = !m.arms.iter().map(|a| &a.1).chain(std::iter::once(&m.last)).any(|c| matches!(c, Ctor::Fail(_) | Ctor::FailIo));
        for (c, k) in &m.arms { write!(body, "if {} {{ {} }} else ", c.rust(), ctor(d, k, m.is_try, typed)).unwrap() }
        write!(body, "{{ {} }}", ctor(d, &m.last, m.is_try, typed)).unwrap();
        v.push(format!("{} = |x: {}| {}", if m.is_try { "try_map" } else { "map" }, ty(&m.from), body));
    }
    attrs(&d.name, &v, "")
}
/// both names of the attribute, joined and one attribute for each directive: the same one always for the same item
fn spelling(name: &str) -> usize { name.bytes().map(|b| b as usize).sum() }
fn attrs(name: &str, v: &[String], indent: &str) -> String {
    if v.is_empty() { return String::new() }
    match spelling(name) % 4 {
        0 | 1 => format!("{}#[br({})]\n", indent, v.join(", ")),
        2 => format!("{}#[binread({})]\n", indent, v.join(", ")),
        _ => v.iter().enumerate().map(|(i, d)| format!("{}#[{}({})]\n", indent, if i % 2 == 0 { "binread" } else { "br" }, d)).collect(),
    }
}

pub fn def(u: &Universe, d: &Def) -> String {
    let mut s = String::new();
    s.push_str(if d.needs_attr_macro() { "#[binread::derive_binread]\n" } else { "#[derive(binread::BinRead)]\n" });
    s.push_str(&top_attr(d));
    match &d.kind {
        Kind::Struct(Shape::Unit, _) => writeln!(s, "pub struct {};", d.name).unwrap(),
        Kind::Struct(Shape::Named, fs) => {
            writeln!(s, "pub struct {} {{", d.name).unwrap();
            for f in fs { writeln!(s, "    {},", field(u, f, true, true)).unwrap() }
            writeln!(s, "}}").unwrap();
        }
        Kind::Struct(Shape::Tuple, fs) => {
            writeln!(s, "pub struct {} (", d.name).unwrap();
            for f in fs { writeln!(s, "    {},", field(u, f, false, true)).unwrap() }
            writeln!(s, ");").unwrap();
        }
        Kind::Enum(vs) => {
            writeln!(s, "pub enum {} {{", d.name).unwrap();
            for x in vs {
                let mut a: Vec<String> = vec![];
                a.extend(end(&x.endian));
                if let Some(m) = &x.magic { a.push(format!("magic = {}", lit(m))) }
                for p in &x.pre { a.push(asrt("pre_assert", p)) }
                for p in &x.asserts { a.push(asrt("assert", p)) }
                s.push_str(&attrs(&format!("{}{}", d.name, x.name), &a, "    "));
                let disc = x.disc.map_or(String::new(), |d| format!(" = {}", d));
                match x.shape {
                    Shape::Unit => writeln!(s, "    {}{},", x.name, disc).unwrap(),
                    Shape::Named => writeln!(s, "    {} {{ {} }},", x.name, x.fields.iter().map(|f| field(u, f, true, false)).collect::<Vec<_>>().join(", ")).unwrap(),
                    Shape::Tuple => writeln!(s, "    {}({}),", x.name, x.fields.iter().map(|f| field(u, f, false, false)).collect::<Vec<_>>().join(", ")).unwrap(),
                }
            }
            writeln!(s, "}}").unwrap();
        }
    }
    s
}

fn tov(d: &Def) -> String {
    let mut s = String::new();
    writeln!(s, "impl mc::ToV for {} {{ fn to_v(&self) -> mc::V {{", d.name).unwrap();
    let vals = |pre: &str, shape: Shape, fs: &[Field]| {
        let mut i = 0;
        let mut out = vec![];
        for f in fs {
            if f.temp() { continue }
            let acc = match shape { Shape::Tuple => format!("{}{}", pre, if pre.is_empty() { format!("f{}", i) } else { i.to_string() }), _ => format!("{}{}", pre, f.name) };
            out.push(format!("({:?}, mc::ToV::to_v(&{}))", f.name, acc));
            i += 1;
        }
        out.join(", ")
    };
    match &d.kind {
        Kind::Struct(shape, fs) => writeln!(s, "mc::vs({:?}, vec![{}])", d.name, vals("self.", *shape, fs)).unwrap(),
        Kind::Enum(vs) => {
            writeln!(s, "match self {{").unwrap();
            for x in vs {
                let perm: Vec<_> = x.fields.iter().filter(|f| !f.temp()).collect();
                let pat = match x.shape {
                    Shape::Unit => String::new(),
                    Shape::Named => format!("{{ {} }}", perm.iter().map(|f| f.name.clone()).collect::<Vec<_>>().join(", ")),
                    Shape::Tuple => format!("({})", (0..perm.len()).map(|i| format!("f{}", i)).collect::<Vec<_>>().join(", ")),
                };
                let body = {
                    let mut i = 0;
                    let mut out = vec![];
                    for f in &perm {
                        let acc = if x.shape == Shape::Tuple { format!("*f{}", i) } else { format!("*{}", f.name) };
                        out.push(format!("({:?}, mc::ToV::to_v(&{}))", f.name, acc));
                        i += 1;
                    }
                    out.join(", ")
                };
                writeln!(s, "{}::{} {} => mc::vs(\"{}::{}\", vec![{}]),", d.name, x.name, pat, d.name, x.name, body).unwrap();
            }
            writeln!(s, "}}").unwrap();
        }
    }
    writeln!(s, "}} }}").unwrap();
    s
}

pub fn render(u: &Universe) -> String {
    let mut s = String::from("// generated from the universe; do not edit\n");
    for d in &u.defs {
        s.push_str(&def(u, d));
        s.push_str(&tov(d));
    }
    s.push_str("#[allow(unused)]\npub fn run_root(i: usize, r: &mut mc::McReader<'_>, en: &mc::Entry) -> mc::Ran {\n    match i {\n");
    for (i, r) in u.roots.iter().enumerate() {
        if u.arity(&r.ty) == 0 {
            writeln!(s, "        {} => mc::enter::<{}>(r, en),", i, ty(&r.ty)).unwrap();
        } else {
            let tys = u.arg_types(&r.ty);
            let a = r.args.iter().zip(&tys).map(|(x, p)| format!("{}{}", x, p.rust())).collect::<Vec<_>>().join(", ");
            writeln!(s, "        {} => mc::enter_args::<{}>(r, en, ({},)),", i, ty(&r.ty), a).unwrap();
        }
    }
    s.push_str("        _ => unreachable!(),\n    }\n}\n");
    s
}
