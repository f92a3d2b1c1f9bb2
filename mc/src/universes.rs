//! The bounded universes of declarations, one per property. Every declaration in a universe is
//! compiled with the real derive and interpreted by the reference.
#![allow(dead_code)]
use super::schema::*;

pub const NAMES: &[&str] = &["c02", "c03", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c24", "flow", "cfgs", "hostile", "hist", "tmpl"];

pub fn universe(name: &str, thorough: bool) -> Universe {
    let mut u = Universe::default();
    match name {
        "c02" => layout(&mut u, thorough),
        "c03" => { byte_order(&mut u, thorough); pairs(&mut u, &["big", "little", "isbig", "islittle"], thorough) }
        "c06" => { magics(&mut u, thorough); pairs(&mut u, &["magic"], thorough) }
        "c07" => enums(&mut u, thorough),
        "c08" => unit_enums(&mut u, thorough),
        "c09" => { pointers(&mut u, thorough); pairs(&mut u, &["offset", "offset_after", "deref_now", "postprocess_now"], thorough) }
        "c10" => { placement(&mut u, thorough); pairs(&mut u, &["pad_before", "pad_after", "align_before", "align_after", "seek_start", "seek_cur", "seek_end", "pad_size_to", "restore"], thorough) }
        "c11" => { assertions(&mut u, thorough); pairs(&mut u, &["assert", "assertmsg", "asserterr"], thorough) }
        "c12" => { collections(&mut u, thorough); pairs(&mut u, &["count"], thorough) }
        "c13" => strings(&mut u, thorough),
        "c14" => { wiring(&mut u, thorough); pairs(&mut u, &["args", "argstuple", "calc", "default", "ignore", "pw", "if", "ifalt", "temp"], thorough) }
        "c15" => { tries(&mut u, thorough); pairs(&mut u, &["try"], thorough) }
        "c16" => { maps(&mut u, thorough); pairs(&mut u, &["map", "trymap"], thorough) }
        "c24" => primitives(&mut u, thorough),
        "flow" => flow_wide(&mut u, thorough),
        "cfgs" => configs(&mut u, thorough),
        "hostile" => hostile(&mut u, thorough),
        "hist" => histories_wide(&mut u, thorough),
        "tmpl" => templates(&mut u, thorough),
        n => panic!("no universe {}", n),
    }
    u
}

fn good() -> Top { top() }
fn b1(n: u8) -> Lit { Lit::Byte(n) }
fn i(x: i128, p: P) -> Lit { Lit::Int(x, p) }

// ------------------------------------------------------------------------- C02
/// field directives that can be combined
const MENU: &[&str] = &[
    "big", "little", "isbig", "islittle", "magic", "map", "trymap", "args", "argstuple", "calc", "default", "ignore", "pw",
    "count", "offset", "offset_after", "if", "ifalt", "deref_now", "postprocess_now", "restore", "try", "temp", "assert", "assertmsg", "asserterr",
    "pad_before", "pad_after", "align_before", "align_after", "seek_start", "seek_cur", "seek_end", "pad_size_to",
];
fn conflict(a: &str, b: &str) -> bool {
    let groups: &[&[&str]] = &[
        &["big", "little", "isbig", "islittle"],
        &["map", "trymap", "try"],
        &["offset", "offset_after"],
        &["offset_after", "deref_now"], &["offset_after", "postprocess_now"],
        &["calc", "default", "ignore", "pw"],
        &["if", "ifalt"],
        &["deref_now", "postprocess_now"],
        &["args", "argstuple"],
        &["seek_start", "seek_cur", "seek_end"],
        &["assert", "assertmsg", "asserterr"],
        // the alternative is written as a number; a pointer has no default
        &["ifalt", "count"], &["ifalt", "args"], &["ifalt", "argstuple"],
    ];
    if groups.iter().any(|g| g.contains(&a) && g.contains(&b)) { return true }
    let ptr = ["offset", "offset_after", "deref_now", "postprocess_now"];
    let gen = ["calc", "default", "ignore"];
    let pair = |x: &[&str], y: &[&str]| (x.contains(&a) && y.contains(&b)) || (x.contains(&b) && y.contains(&a));
    pair(&gen, &["magic", "count", "args", "argstuple", "map", "trymap"]) || pair(&gen, &ptr) || pair(&ptr, &["if", "ifalt"])
        || pair(&["args", "argstuple"], &["map", "trymap"]) || pair(&["map", "trymap"], &["offset", "offset_after", "deref_now", "postprocess_now"]) || pair(&["pw"], &["offset_after", "deref_now", "postprocess_now", "map", "trymap"])
}
/// the field that carries the given directives, or None if they exclude each other
pub fn compose(tags: &[&str]) -> Option<Field> { compose_as(tags, "a", "x", "z") }
/// the same with other names for the field before, the field and the field behind
pub fn compose_as(tags: &[&str], na: &str, nx: &str, nz: &str) -> Option<Field> {
    for (k, a) in tags.iter().enumerate() { for b in &tags[k + 1..] { if conflict(a, b) { return None } } }
    let has = |t: &str| tags.contains(&t);
    let ptrs = ["offset", "offset_after", "deref_now", "postprocess_now"].iter().any(|t| has(t));
    let argd = has("args") || has("argstuple");
    let mut ty = if has("calc") || has("default") || has("ignore") { U16 }
        else if has("pw") { if has("count") { vec_(U8) } else if ptrs { U16 } else if has("ifalt") { U16 } else { Ty::Probe(0) } }
        else {
            let base = if argd { Ty::Probe(1) } else { U16 };
            let base = if ptrs { ptr(P::U8, base) } else { base };
            if has("count") { vec_(base) } else { base }
        };
    let mut dirs = vec![];
    for t in tags {
        dirs.push(match *t {
            "big" => Dir::Big,
            "little" => Dir::Little,
            "isbig" => Dir::IsBig(eq(v(na), l(1))),
            "islittle" => Dir::IsLittle(eq(v(na), l(1))),
            "magic" => Dir::Magic(i(0x1d2e, P::U16)),
            "map" | "trymap" => {
                let e = if has("count") { add(len("x"), v(na)) } else { add(v("x"), v(na)) };
                let m = if *t == "map" { mapf(ty.clone(), e, P::U32) } else { tmapf(ty.clone(), e, P::U32, eq(v(na), l(2)), MapFail::Custom(add(v(na), l(40)))) };
                ty = Ty::P(P::U32);
                if *t == "map" { Dir::Map(m) } else { Dir::TryMap(m) }
            }
            "args" => Dir::Args(vec![add(v(na), l(100))]),
            "argstuple" => Dir::ArgsTuple(vec![add(v(na), l(200))]),
            "calc" => Dir::Calc(add(mul(v(na), l(3)), l(1))),
            "default" => Dir::Default,
            "ignore" => Dir::Ignore,
            "pw" => Dir::ParseWith(if has("count") { PW::ReadBytes } else if ptrs { if argd { return None } PW::PtrParse(P::U8) } else if has("ifalt") { PW::U16 } else { PW::Probe }),
            "count" => Dir::Count(v(na)),
            "offset" => Dir::Offset(add(v(na), l(1))),
            "offset_after" => Dir::OffsetAfter(v(nz)),
            "if" => Dir::If(lt(v(na), l(2)), None),
            "ifalt" => if has("try") { Dir::IfSome(lt(v(na), l(2)), add(v(na), l(70))) } else { Dir::If(lt(v(na), l(2)), Some(add(v(na), l(70)))) },
            "deref_now" => Dir::DerefNow,
            "postprocess_now" => Dir::PostprocessNow,
            "restore" => Dir::RestorePosition,
            "try" => Dir::Try,
            "temp" => Dir::Temp,
            "assert" => Dir::Assert(bare(ne(v(na), l(3)))),
            "assertmsg" => Dir::Assert(fmt(ne(v(na), l(3)), "a is {}", vec![v(na)])),
            "asserterr" => Dir::Assert(aerr(ne(v(na), l(3)), add(v(na), l(7)))),
            "pad_before" => Dir::PadBefore(add(v(na), l(1))),
            "pad_after" => Dir::PadAfter(sub(l(2), v(na))),
            "align_before" => Dir::AlignBefore(l(4)),
            "align_after" => Dir::AlignAfter(l(3)),
            "seek_start" => Dir::SeekBefore(SeekE::Start(add(v(na), l(6)))),
            "seek_cur" => Dir::SeekBefore(SeekE::Current(sub(l(2), v(na)))),
            "seek_end" => Dir::SeekBefore(SeekE::End(sub(v(na), l(4)))),
            "pad_size_to" => Dir::PadSizeTo(add(v(na), l(2))),
            t => panic!("{}", t),
        });
    }
    if has("count") && has("pw") && argd { return None }
    if has("try") { ty = opt(ty) }
    let mut f = fld(nx, ty, dirs);
    if ptrs && !has("magic") { f = f.dom(&[0, 2, 9]) }
    Some(f)
}
fn with_field(name: &str, f: Field) -> Def {
    st(name, top(), vec![fld("a", U8, vec![]).dom(&[0, 1, 2, 3]), f, fld("z", U8, vec![]).dom(&[1, 0xee])])
}
fn layout(u: &mut Universe, thorough: bool) {
    let mut n = 0;
    let mut put = |u: &mut Universe, tags: &[&str], split: bool| {
        if let Some(mut f) = compose(tags) {
            if split { f = f.split() }
            let d = with_field(&format!("S{}", n), f);
            n += 1;
            let t = u.def(d);
            // read by itself, and where a count and an offset are in force that are not its own
            u.root(root(t.clone()).max(14).note(&tags.join("+")));
            u.root(root(t).max(14).count(2).offset(5).note(&format!("inherited {}", tags.join("+"))));
        }
    };
    put(u, &[], false);
    for t in MENU { put(u, &[t], false) }
    for (k, a) in MENU.iter().enumerate() {
        for (m, b) in MENU.iter().enumerate().skip(k + 1) {
            let rev = (k + m) % 2 == 0;
            let split = (k * 7 + m) % 3 == 0;
            if thorough {
                put(u, &[a, b], split);
                put(u, &[b, a], !split);
            } else {
                let p = if rev { [*b, *a] } else { [*a, *b] };
                put(u, &p, split);
            }
        }
    }
    if thorough {
        // triples over the directives that move the reader or choose what is read
        let sub = ["islittle", "magic", "count", "offset", "if", "restore", "try", "temp", "assert", "pad_before", "align_after", "seek_cur", "pad_size_to", "map"];
        for (x, a) in sub.iter().enumerate() { for (y, b) in sub.iter().enumerate().skip(x + 1) { for c in sub.iter().skip(y + 1) { put(u, &[b, c, a], (x + y) % 2 == 0) } } }
    }
    tops(u);
    shapes(u);
    large_shapes(u);
}
/// each of these directives with every other (and, in the thorough tier, with every other two of a selection):
/// in structs and in variants, with and without a count and an offset in force
fn pairs(u: &mut Universe, mine: &[&str], thorough: bool) {
    let mut n = 0;
    let mut done: Vec<Vec<String>> = vec![];
    let mut put = |u: &mut Universe, tags: &[&str]| {
        let mut key: Vec<String> = tags.iter().map(|t| t.to_string()).collect();
        key.sort();
        if done.contains(&key) { return }
        let Some(mut f) = compose(tags) else { return };
        done.push(key);
        if n % 3 == 1 { f = f.split() }
        let fs = vec![fld("a", U8, vec![]).dom(&[0, 1, 2, 3]), f, fld("z", U8, vec![]).dom(&[1, 0xee])];
        let d = match n % 4 {
            1 => en(&format!("Pair{}", n), top().big(), vec![var("A", Shape::Named, fs).magic(b1(1)), var("B", Shape::Named, vec![fld("m", U16, vec![])]).magic(b1(2)), var("C", Shape::Named, vec![fld("p", U8, vec![])])]),
            3 => en(&format!("Pair{}", n), top(), vec![var("A", Shape::Named, fs), var("B", Shape::Named, vec![fld("p", U8, vec![]), fld("q", U8, vec![])])]),
            _ => st(&format!("Pair{}", n), if n % 4 == 2 { top().little() } else { top() }, fs),
        };
        n += 1;
        let t = u.def(d);
        u.root(root(t.clone()).max(14).starts(Starts::Few).note(&tags.join("+")));
        u.root(root(t).max(14).entries(Entries::Be).count(2).offset(5).note(&format!("inherited {}", tags.join("+"))));
    };
    for (k, a) in mine.iter().enumerate() {
        put(u, &[a]);
        for (m, b) in MENU.iter().enumerate() {
            if a == b { continue }
            let p = if (k + m) % 2 == 0 { [*a, *b] } else { [*b, *a] };
            put(u, &p);
        }
    }
    let sub = ["islittle", "magic", "count", "offset", "if", "restore", "try", "temp", "assert", "pad_before", "align_after", "seek_cur", "pad_size_to", "map", "args"];
    for a in mine {
        for (y, b) in sub.iter().enumerate() {
            for (z, c) in sub.iter().enumerate().skip(y + 1) {
                if a == b || a == c || (!thorough && (y + z + a.len()) % 7 != 0) { continue }
                put(u, &[b, a, c]);
            }
        }
    }
}
/// many fields, deep nesting
fn large_shapes(u: &mut Universe) {
    let kinds: Vec<(Ty, Vec<Dir>)> = vec![
        (U8, vec![]), (U16, vec![]), (U16, vec![Dir::Little]), (U8, vec![Dir::PadAfter(l(1))]), (posv(U8), vec![]), (vec_(U8), vec![Dir::Count(v("a"))]), (U16, vec![Dir::Calc(add(v("a"), l(9)))]), (U8, vec![Dir::If(eq(v("a"), l(1)), None)]),
        (U16, vec![Dir::Magic(b1(0x2e))]), (opt(U16), vec![Dir::Try]), (Ty::P(P::U32), vec![Dir::Map(mapf(U16, add(v("x"), v("a")), P::U32))]), (U8, vec![Dir::Temp]), (Ty::Probe(1), vec![Dir::Args(vec![v("a")]), Dir::Big]), (U8, vec![Dir::Assert(bare(ne(v("a"), l(7))))]),
    ];
    for n in [9usize, 17, 33, 65, 129] {
        let mut fs = vec![fld("a", U8, vec![]).dom(&[1, 2])];
        for k in 0..n { let (t, d) = kinds[(k * 5 + n) % kinds.len()].clone(); fs.push(fld(&format!("f{}", k), t, d)) }
        let r = u.def(st(&format!("Wide{}", n), top(), fs.clone()));
        u.root(root(r).max(n as u64 * 3).starts(Starts::Zero).note("many fields"));
        if n > 64 { continue }
        let fs: Vec<Field> = fs.into_iter().filter(|f| !matches!(f.dirs.first(), Some(Dir::Count(_) | Dir::Calc(_) | Dir::If(..) | Dir::Map(_) | Dir::Args(_) | Dir::Assert(_)))).collect();
        let r = u.def(tst(&format!("WideT{}", n), top(), fs.clone()));
        u.root(root(r).max(n as u64 * 3).starts(Starts::Zero).note("many fields"));
        let r = u.def(en(&format!("WideE{}", n), top(), vec![var("A", Shape::Named, fs.clone()), var("B", Shape::Tuple, fs)]));
        u.root(root(r).max(n as u64 * 3).starts(Starts::Zero).note("many fields"));
    }
    let mut t = u.def(st("Deep0", top(), vec![fld("p", U16, vec![]), fld("q", U8, vec![Dir::Assert(ne_assert("q", 0x66))]).dom(&[0x11, 0x66])]));
    for k in 1..20 {
        let f = match k % 6 {
            0 => fld("x", t.clone(), vec![Dir::Little]),
            1 => fld("x", opt(t.clone()), vec![]),
            2 => fld("x", bx(t.clone()), vec![Dir::PadAfter(l(1))]),
            3 => fld("x", vec_(t.clone()), vec![Dir::Count(l(1)), Dir::Big]),
            4 => fld("x", tup(vec![U8, t.clone()]), vec![]),
            _ => fld("x", t.clone(), vec![Dir::RestorePosition]),
        };
        let fs = vec![fld("h", U8, vec![]), f, fld("z", U16, vec![])];
        t = match k % 4 {
            0 => u.def(tst(&format!("Deep{}", k), top(), fs)),
            1 => u.def(en(&format!("Deep{}", k), top(), vec![var("A", Shape::Named, fs)])),
            _ => u.def(st(&format!("Deep{}", k), top().end(if k == 10 { Some(End::Little) } else { None }), fs)),
        };
        if k > 3 { u.root(root(t.clone()).max(80).starts(if k == 19 { Starts::Few } else { Starts::Zero }).note("nested deep")) }
    }
}
/// object-level directives on every kind of object
fn tops(u: &mut Universe) {
    let mut n = 0;
    let menu: &[(&str, fn(Top) -> Top)] = &[
        ("big", |t| t.big()), ("little", |t| t.little()), ("magic", |t| t.magic(i(0x2a3b, P::U16))),
        ("import", |t| t.import(&[("p", P::U8), ("q", P::I16)])),
        ("pre", |t| t.pre(msg(E::B(true), "never"))),
        ("assert", |t| t.assert(bare(E::B(true)))),
    ];
    let apply = |k: usize| -> (Top, bool) {
        let mut t = top();
        let mut imp = false;
        for (b, (name, f)) in menu.iter().enumerate() {
            if k >> b & 1 == 1 { t = f(t); imp |= *name == "import" }
        }
        if imp {
            t.pre = t.pre.into_iter().map(|_| fmt(ne(v("p"), l(9)), "p {} q {}", vec![v("p"), v("q")])).collect();
        }
        (t, imp)
    };
    for k in 0..64usize {
        if k & 3 == 3 { continue }
        let (t, imp) = apply(k);
        let mut fs = vec![fld("a", U8, vec![]).dom(&[0, 1]), fld("b", U16, if imp { vec![Dir::Calc(add(v("p"), v("q")))] } else { vec![] }), fld("c", U16, vec![])];
        let mut tt = t.clone();
        if !tt.asserts.is_empty() { tt.asserts = vec![fmt(ne(v("a"), l(1)), "a={}", vec![v("a")])] }
        for sh in 0..4 {
            let name = format!("T{}", n);
            n += 1;
            let d = match sh {
                0 => st(&name, tt.clone(), fs.clone()),
                1 => {
                    let mut t2 = tt.clone();
                    if !t2.asserts.is_empty() { t2.asserts = vec![aerr(ne(v("self_0"), l(1)), v("self_0"))] }
                    tst(&name, t2, fs.clone())
                }
                2 => {
                    let mut t2 = t.clone();
                    if !t2.asserts.is_empty() { t2.asserts = vec![if imp { bare(ne(v("p"), l(8))) } else { bare(E::B(k % 4 == 0)) }] }
                    ust(&name, t2)
                }
                _ => {
                    let mut t2 = t.clone();
                    // applies to each variant that carries data; both have the field
                    if !t2.asserts.is_empty() { t2.asserts = vec![bare(ne(v("a"), l(1)))] }
                    if k % 3 == 0 { t2.mode = Some(ErrMode::Unexpected) }
                    fs[0].dom = Some(vec![0, 1, 5]);
                    en(&name, t2, vec![
                        var("A", Shape::Named, vec![fs[0].clone(), fld("w", U16, vec![Dir::Assert(bare(eq(v("a"), l(5))))])]),
                        var("B", Shape::Named, vec![fs[0].clone(), fs[1].clone()]),
                    ])
                }
            };
            let t = u.def(d);
            let base = root(t).max(9).note(&format!("top{}", k));
            if imp {
                u.root(base.clone().args(&[7, -300]));
                if sh == 2 || k & 16 != 0 { u.root(base.clone().args(&[9, 5])); u.root(base.args(&[8, 1])); }
            } else {
                u.root(base);
            }
        }
    }
}
/// plain shapes: every primitive and container as a field, nesting, generics of field position
fn shapes(u: &mut Universe) {
    let inner = u.def(st("Inner", top().little(), vec![fld("p", U16, vec![]), fld("q", U8, vec![Dir::Assert(ne_assert("q", 0x66))]).dom(&[0x11, 0x66])]));
    let tl = u.def(tst("InnerT", top(), vec![fld("", U8, vec![]), fld("", I16, vec![])]));
    let e = u.def(en("InnerE", top(), vec![var("X", Shape::Tuple, vec![fld("", U8, vec![Dir::Assert(ne_assert("self_0", 4))]).dom(&[3, 4])]), var("Y", Shape::Named, vec![fld("k", U16, vec![])])]));
    let un = u.def(ust("InnerU", top().magic(b1(0x77))));
    let mut tys: Vec<Ty> = ALL_P.iter().map(|p| Ty::P(*p)).collect();
    for t in [U8, U16, inner.clone(), tl.clone(), e.clone(), un.clone()] {
        let dflt = !matches!(t, Ty::User(_));
        if dflt { tys.push(arr(t.clone(), 3)) }
        tys.push(opt(t.clone()));
        tys.push(bx(t.clone()));
        tys.push(posv(t.clone()));
        tys.push(tup(vec![t.clone(), U16]));
        tys.push(t.clone());
    }
    tys.push(arr(posv(U8), 0).clone());
    tys.pop();
    tys.extend([Ty::Unit, Ty::Phantom, Ty::NStr, Ty::WStr, Ty::Nz8, Ty::Nz16, opt(opt(U16)), bx(bx(U8)), tup(vec![tup(vec![U8, U16]), opt(inner.clone())]), arr(arr(U16, 2), 2), tup(vec![U8])]);
    for (k, t) in tys.into_iter().enumerate() {
        let d = st(&format!("F{}", k), top(), vec![fld("a", U8, vec![]), fld("x", t.clone(), vec![]), fld("z", U16, vec![])]);
        let r = u.def(d);
        u.root(root(r).max(26).starts(Starts::Zero).note("shape"));
        let d = tst(&format!("G{}", k), top().big(), vec![fld("", t, vec![]), fld("", U8, vec![])]);
        let r = u.def(d);
        u.root(root(r).max(26).entries(Entries::BeLe).starts(Starts::Zero).note("shape"));
    }
    // vectors of everything, with the count coming from the data
    for (k, t) in [U8, U16, Ty::P(P::F64), inner, tl, e, un, opt(U16), tup(vec![U8, U16]), Ty::NStr, vec_inner(U8)].into_iter().enumerate() {
        if let Ty::Vec(_) = t { continue }
        let d = st(&format!("H{}", k), top(), vec![fld("n", U8, vec![]).dom(&[0, 1, 3]), fld("x", vec_(t), vec![Dir::Count(v("n"))]), fld("z", U8, vec![])]);
        let r = u.def(d);
        u.root(root(r).max(20).starts(Starts::Zero).note("vec"));
    }
}
fn vec_inner(t: Ty) -> Ty { vec_(t) }
fn ne_assert(f: &str, x: i128) -> Asrt { bare(ne(v(f), l(x))) }

// ------------------------------------------------------------------------- C03
fn byte_order(u: &mut Universe, thorough: bool) {
    let _ = thorough;
    let ends: [(&str, Option<End>); 3] = [("N", None), ("B", Some(End::Big)), ("L", Some(End::Little))];
    let mut leaves = vec![];
    for (n, e) in ends {
        leaves.push((n, u.def(st(&format!("Leaf{}", n), top().end(e), vec![fld("v", U16, vec![])]))));
    }
    // further kinds of type with a byte order of their own
    let mut special: Vec<(String, Ty)> = vec![];
    for (n, e) in ends {
        special.push((format!("mag{}", n), u.def(st(&format!("Mag{}", n), top().end(e).magic(i(0x0102, P::U16)), vec![fld("v", U16, vec![])]))));
        special.push((format!("rep{}", n), u.def(en(&format!("Rep{}", n), top().end(e).repr(P::U16), vec![uvar("A").disc(0x0102), uvar("B").disc(0x0201)]))));
        special.push((format!("ume{}", n), u.def(en(&format!("Ume{}", n), top().end(e), vec![uvar("A").magic(i(0x0102, P::U16)), uvar("B").magic(i(0x0201, P::U16))]))));
        special.push((format!("ust{}", n), u.def(en(&format!("UnitM{}", n), top().end(e), vec![uvar("A").magic(i(0x0102, P::U16)), var("B", Shape::Tuple, vec![fld("", U16, vec![])])]))));
        special.push((format!("mapt{}", n), u.def(st(&format!("MapT{}", n), top().end(e).map(MapTop { from: U16, is_try: false, arms: vec![], last: Ctor::Struct(vec![v("x")]) }), vec![fld("v", U16, vec![])]))));
        special.push((format!("tmapt{}", n), u.def(st(&format!("TMapT{}", n), top().end(e).map(MapTop { from: tup(vec![U16, U16]), is_try: true, arms: vec![], last: Ctor::Struct(vec![v("x.0"), v("x.1")]) }), vec![fld("v", U16, vec![]), fld("w", U16, vec![])]))));
        special.push((format!("tup{}", n), u.def(tst(&format!("TupT{}", n), top().end(e), vec![fld("", U16, vec![]), fld("", Ty::P(P::I32), vec![])]))));
        // enum byte order × variant byte order
        for (m, ve) in ends {
            special.push((format!("en{}{}", n, m), u.def(en(&format!("En{}{}", n, m), top().end(e), vec![
                var("A", Shape::Named, vec![fld("m", U16, vec![Dir::Assert(bare(eq(v("m"), l(0x0102))))]).dom(&[0x0102, 0x0201]), fld("w", U16, vec![])]).end(ve),
                var("B", Shape::Tuple, vec![fld("", U16, vec![])]),
            ]))));
            special.push((format!("enm{}{}", n, m), u.def(en(&format!("EnM{}{}", n, m), top().end(e), vec![
                var("A", Shape::Tuple, vec![fld("", U16, vec![])]).magic(i(0x0102, P::U16)).end(ve),
                uvar("C").magic(i(0x0304, P::U16)),
                var("B", Shape::Tuple, vec![fld("", U16, vec![])]),
            ]))));
        }
    }
    let conts: Vec<(&str, fn(Ty) -> Ty, Option<Dir>)> = vec![
        ("plain", |t| t, None),
        ("opt", opt, None),
        ("bx", bx, None),
        ("tup", |t| tup(vec![t, U16]), None),
        ("pos", posv, None),
        ("vec", vec_, Some(Dir::Count(l(2)))),
        ("ptr", |t| ptr(P::U16, t), None),
        ("vptr", |t| vec_(ptr(P::U16, t)), Some(Dir::Count(l(2)))),
        ("oopt", |t| opt(bx(t)), None),
        ("count", vec_, Some(Dir::ParseWith(PW::Count(l(2))))),
        ("parse", |t| t, Some(Dir::ParseWith(PW::PtrParse(P::U16)))),
        ("pun", |t| punct(t, U16), Some(Dir::ParseWith(PW::PunctSep))),
        ("try", opt, Some(Dir::Try)),
        ("derefnow", |t| ptr(P::U16, t), Some(Dir::DerefNow)),
        ("pp", |t| ptr(P::U8, ptr(P::U16, t)), None),
        ("tptr", |t| tup(vec![ptr(P::U16, t), U16]), None),
    ];
    // each struct has one field per kind of field-level order, so that leaking is seen too
    let forders: Vec<Option<Dir>> = vec![None, Some(Dir::Big), Some(Dir::Little), Some(Dir::IsBig(eq(v("a"), l(1)))), Some(Dir::IsLittle(eq(v("a"), l(1)))), None];
    let mut n = 0;
    for (cn, wrap, extra) in &conts {
        for (sn, te) in ends {
            for (ln, leaf) in &leaves {
                let mut fs = vec![fld("a", U8, vec![]).dom(&[0, 1])];
                for (k, fo) in forders.iter().enumerate() {
                    let mut dirs = vec![];
                    if let Some(d) = fo { dirs.push(d.clone()) }
                    match extra { Some(Dir::ParseWith(PW::PunctSep)) => { dirs.push(extra.clone().unwrap()); dirs.push(Dir::Count(l(2))) } Some(d) => dirs.push(d.clone()), None => {} }
                    let mut f = fld(&format!("f{}", k), wrap(leaf.clone()), dirs);
                    if *cn == "pp" { f = f.dom(&[40]) } else if cn.contains("ptr") || *cn == "parse" || *cn == "derefnow" { f = f.dom(&[44]) }
                    fs.push(f);
                }
                fs.push(fld("z", U16, vec![]));
                let t = u.def(st(&format!("O{}", n), top().end(te), fs));
                n += 1;
                u.root(root(t).max(400).starts(Starts::Zero).note(&format!("{}-{}-{}", cn, sn, ln)));
            }
        }
    }
    // every kind of type read while a count is in force
    let counted: Vec<(&str, fn() -> Ty)> = vec![
        ("tup2", || tup(vec![U16, vec_(U16)])), ("tup2b", || tup(vec![vec_(U8), U16])), ("tup3", || tup(vec![U16, vec_(U16), Ty::P(P::I32)])),
        ("opt", || opt(tup(vec![U16, vec_(U16)]))), ("bx", || bx(tup(vec![Ty::P(P::U32), vec_(U16)]))), ("arr", || arr(vec_(U16), 2)), ("pos", || posv(vec_(U16))),
        ("ptr", || ptr(P::U16, vec_(U16))), ("tptr", || tup(vec![ptr(P::U16, U16), vec_(U16)])), ("vtup", || vec_(tup(vec![U16, U16]))), ("vvu", || vec_(opt(U16))),
    ];
    for (cn, ty) in counted {
        for (tn, te) in ends {
            for cnt in [0i128, 1, 2] {
                let mut fs = vec![];
                for (k, fo) in forders.iter().enumerate() {
                    if k == 3 || k == 4 { continue }
                    let mut dirs = vec![Dir::Count(l(cnt))];
                    if let Some(d) = fo { dirs.push(d.clone()) }
                    let mut f = fld(&format!("f{}", k), ty(), dirs);
                    if cn == "ptr" { f = f.dom(&[24]) }
                    fs.push(f);
                }
                fs.push(fld("z", U16, vec![]));
                let t = u.def(st(&format!("O{}", n), top().end(te), fs));
                n += 1;
                u.root(root(t).max(100).starts(Starts::Zero).note(&format!("count {} {}-{}", cnt, cn, tn)));
            }
        }
        for cnt in [0, 1, 2] { u.root(root(ty()).count(cnt as u64).max(60).starts(Starts::Zero).note(&format!("count {} {}", cnt, cn))) }
    }
    for (sn, ty) in &special {
        for (tn, te) in ends {
            let mut fs = vec![fld("a", U8, vec![]).dom(&[0, 1])];
            for (k, fo) in forders.iter().enumerate() {
                let mut dirs = vec![];
                if let Some(d) = fo { dirs.push(d.clone()) }
                // a mismatch must not end the exploration of the later fields
                dirs.push(Dir::Try);
                fs.push(fld(&format!("f{}", k), opt(ty.clone()), dirs));
            }
            fs.push(fld("z", U16, vec![]));
            let mut fs2 = fs.clone();
            fs2.truncate(4);
            let t = u.def(st(&format!("O{}", n), top().end(te), if sn.starts_with("ume") || sn.starts_with("rep") { fs2 } else { fs }));
            n += 1;
            u.root(root(t).max(100).starts(Starts::Zero).note(&format!("{}-{}", sn, tn)));
        }
        u.root(root(ty.clone()).max(24).entries(Entries::All).starts(Starts::Zero).note(sn));
    }
    // magic, strings, custom parsers, maps and probes under every order
    for (tn, te) in ends {
        for (k, fo) in forders.iter().enumerate() {
            let o = |mut d: Vec<Dir>| { if let Some(f) = fo { d.insert(0, f.clone()) } d };
            let a = || fld("a", U8, vec![]).dom(&[0, 1]);
            let z = || fld("z", U16, vec![]);
            let list: Vec<(&str, Vec<Field>)> = vec![
                ("magic", vec![a(), fld("x", U16, o(vec![Dir::Magic(i(0x0102, P::U16))])), z()]),
                ("wstr", vec![a(), fld("x", Ty::WStr, o(vec![])), z()]),
                ("nz16", vec![a(), fld("x", Ty::Nz16, o(vec![])), z()]),
                ("probe", vec![a(), fld("x", Ty::Probe(0), o(vec![])), fld("y", Ty::Probe(0), o(vec![Dir::DerefNow])), fld("w", Ty::Probe(0), o(vec![Dir::ParseWith(PW::Probe)])), fld("s", opt(Ty::Probe(0)), o(vec![Dir::Try])), z()]),
                ("pw", vec![a(), fld("x", U16, o(vec![Dir::ParseWith(PW::U16)])), fld("y", U16, o(vec![Dir::ParseWith(PW::Closure(v("a")))])), z()]),
                ("map", vec![a(), fld("x", Ty::P(P::U32), o(vec![Dir::Map(mapf(U16, add(v("x"), l(1)), P::U32))])), fld("y", Ty::P(P::U32), o(vec![Dir::TryMap(tmapf(U16, v("x"), P::U32, eq(v("x"), l(-1)), MapFail::Io))])), z()]),
                ("arr", vec![a(), fld("x", arr(U16, 3), o(vec![])), fld("y", arr(Ty::P(P::F32), 2), o(vec![])), z()]),
                ("until", vec![a(), fld("x", vec_(U16), o(vec![Dir::ParseWith(PW::Until(eq(deref("x"), l(0))))])).dom(&[0, 0x0100, 0x0001]), z()]),
                ("untilex", vec![a(), fld("x", vec_(U16), o(vec![Dir::ParseWith(PW::UntilEx(eq(deref("x"), l(0))))])).dom(&[0, 0x0100, 0x0001]), z()]),
                ("eof", vec![a(), fld("x", vec_(U16), o(vec![Dir::ParseWith(PW::UntilEof)]))]),
                ("punt", vec![a(), fld("x", punct(U16, U16), o(vec![Dir::ParseWith(PW::PunctTrail), Dir::Count(l(2))])), z()]),
                ("ifo", vec![a(), fld("x", U16, o(vec![Dir::If(eq(v("a"), l(1)), None)])), z()]),
                ("prims", ALL_P.iter().enumerate().map(|(j, p)| fld(&format!("p{}", j), Ty::P(*p), if j == 0 { vec![] } else { match fo { Some(Dir::IsBig(_)) => vec![Dir::IsBig(eq(v("p0"), l(1)))], Some(Dir::IsLittle(_)) => vec![Dir::IsLittle(eq(v("p0"), l(1)))], Some(d) => vec![d.clone()], None => vec![] } }).dom(if j == 0 { &[0, 1] } else { &[] })).map(|mut f| { if f.dom.as_ref().map_or(false, |d| d.is_empty()) { f.dom = None } f }).collect()),
            ];
            for (ln, fs) in list {
                let t = u.def(st(&format!("Q{}_{}_{}", ln, tn, k), top().end(te), fs));
                u.root(root(t).max(if ln == "eof" { 7 } else if ln.starts_with("until") { 12 } else { 90 }).starts(Starts::Zero).note(&format!("{}-{}-{}", ln, tn, k)));
            }
        }
    }
    // three levels: caller > outer > middle field > middle > leaf field
    for (on, oe) in ends { for (mn, me) in ends {
        let mid = u.def(st(&format!("Mid{}{}", on, mn), top().end(me), vec![
            fld("a", U8, vec![]).dom(&[0, 1]),
            fld("x", leaves[0].1.clone(), vec![]), fld("y", leaves[0].1.clone(), vec![Dir::IsLittle(eq(v("a"), l(1)))]),
            fld("w", leaves[1].1.clone(), vec![Dir::Little]), fld("t", tup(vec![leaves[0].1.clone(), leaves[2].1.clone()]), vec![Dir::Big]), fld("z", U16, vec![])]));
        let o = u.def(st(&format!("Out{}{}", on, mn), top().end(oe), vec![
            fld("x", mid.clone(), vec![]), fld("y", mid.clone(), vec![Dir::Big]), fld("w", vec_(mid.clone()), vec![Dir::Little, Dir::Count(l(1))]), fld("p", ptr(P::U16, mid.clone()), vec![]).dom(&[3]), fld("z", U16, vec![])]));
        u.root(root(o).max(80).starts(Starts::Zero).entries(Entries::All).note(&format!("levels-{}{}", on, mn)));
    } }
}

// ------------------------------------------------------------------------- C06
fn literals() -> Vec<(&'static str, Lit)> {
    vec![
        ("b", b1(b'q')), ("b0", b1(0)), ("bs1", Lit::Str(vec![0x5a])), ("bs4", Lit::Str(b"MAG\0".to_vec())), ("bs0", Lit::Str(vec![])), ("bs9", Lit::Str(b"\xff\x00abcdefg".to_vec())),
        ("bs2", Lit::Str(b"\x01\x02".to_vec())), ("bs8", Lit::Str(b"\x89PNG\r\n\x1a\n".to_vec())), ("bs16", Lit::Str((0..16).map(|k| 0x41 + k * 3).collect())), ("bs17", Lit::Str((0..17).map(|k| 0x80 + k).collect())), ("bs31", Lit::Str((0..31).map(|k| 200 - k).collect())), ("bs32", Lit::Str((0..32).map(|k| 0x20 + k * 2).collect())),
        ("ch", Lit::Char('R')), ("f32", Lit::F32(1.5)), ("f64", Lit::F64(-2.25)),
        ("u8", i(0xfe, P::U8)), ("u16", i(0x0102, P::U16)), ("u32", i(0x8899aabb, P::U32)), ("u64", i(0x0102030405060708, P::U64)), ("u128", i(0x0f0e0d0c0b0a09080706050403020100, P::U128)),
        ("i8", i(-2, P::I8)), ("i16", i(-2, P::I16)), ("i32", i(0x7fffffff, P::I32)), ("i64", i(-3, P::I64)), ("i128", i(-4, P::I128)),
    ]
}
fn magics(u: &mut Universe, thorough: bool) {
    let ends: &[(&str, Option<End>)] = &[("N", None), ("B", Some(End::Big)), ("L", Some(End::Little))];
    for (ln, lit) in literals() {
        for (k, (en_, e)) in ends.iter().enumerate() {
            if !thorough && k > 0 && !matches!(ln, "u16" | "u32" | "f64" | "i16") { continue }
            let n = |s: &str| format!("{}_{}_{}", s, ln, en_);
            let t = top().end(*e);
            let mut put = |d: Def| { let nm = d.name.clone(); let r = u.def(d); u.root(root(r).max(if ln.len() == 4 { 72 } else { 40 }).starts(if ln == "u16" { Starts::All } else { Starts::Few }).note(&nm)) };
            put(ust(&n("Unit"), t.clone().magic(lit.clone())));
            put(st(&n("Named"), t.clone().magic(lit.clone()), vec![fld("x", U8, vec![])]));
            put(tst(&n("Tuple"), t.clone().magic(lit.clone()), vec![fld("", U8, vec![Dir::Magic(lit.clone())])]));
            put(st(&n("Field"), t.clone(), vec![fld("a", U8, vec![]), fld("x", U16, vec![Dir::Magic(lit.clone()), Dir::Assert(ne_assert("x", 7))]).dom(&[6, 7]), fld("z", U8, vec![])]));
            put(st(&n("FieldB"), t.clone(), vec![fld("a", U8, vec![]).dom(&[0, 1]), fld("x", U16, vec![Dir::IsBig(eq(v("a"), l(1))), Dir::Magic(lit.clone())])]));
            put(st(&n("FieldPad"), t.clone(), vec![fld("a", U8, vec![]), fld("x", U8, vec![Dir::Magic(lit.clone()), Dir::PadBefore(l(1)), Dir::RestorePosition]), fld("y", opt(U8), vec![Dir::Try, Dir::Magic(lit.clone())])]));
            put(en(&n("Var"), t.clone(), vec![
                var("A", Shape::Tuple, vec![fld("", U8, vec![])]).magic(lit.clone()),
                uvar("B").magic(Lit::Byte(3)),
                var("C", Shape::Named, vec![fld("k", U8, vec![Dir::Magic(b1(9))])]),
            ]));
            if k == 0 {
                put(en(&n("VarU"), t.clone().mode(ErrMode::Unexpected), vec![var("A", Shape::Tuple, vec![fld("", U8, vec![])]).magic(lit.clone()), uvar("B").magic(lit.clone())]));
                put(en(&n("Enum"), t.clone().magic(lit.clone()), vec![var("A", Shape::Tuple, vec![fld("", U8, vec![Dir::Assert(ne_assert("self_0", 7))]).dom(&[7, 6])]), uvar("B")]));
                put(en(&n("URepr"), t.clone().magic(lit.clone()).repr(P::U8), vec![uvar("A").disc(1), uvar("B").disc(2)]));
                put(st(&n("MapS"), t.clone().magic(lit.clone()).map(MapTop { from: U8, is_try: false, arms: vec![], last: Ctor::Struct(vec![v("x")]) }), vec![fld("v", U8, vec![])]));
            }
        }
        if ln != "bs0" {
            // magic inside what is nested, behind pointers, in vectors
            let m = Ty::User(format!("Named_{}_N", ln));
            let d = st(&format!("Nest_{}", ln), top(), vec![fld("a", opt(m.clone()), vec![]), fld("b", vec_(m.clone()), vec![Dir::Count(l(1)), Dir::Little]), fld("c", ptr(P::U8, m.clone()), vec![]).dom(&[0])]);
            let r = u.def(d);
            u.root(root(r).max(60).starts(Starts::Zero).entries(Entries::Be).note("nest"));
        }
    }
}

// ------------------------------------------------------------------------- C07
fn variant_menu() -> Vec<Variant> {
    vec![
        var("A", Shape::Tuple, vec![fld("", U8, vec![Dir::Assert(ne_assert("self_0", 2))]).dom(&[1, 2])]),
        var("B", Shape::Named, vec![fld("x", U16, vec![]), fld("y", U8, vec![Dir::Assert(msg(eq(v("y"), l(5)), "y is not five"))]).dom(&[5, 6])]).magic(b1(1)),
        uvar("C").magic(b1(2)),
        var("D", Shape::Named, vec![fld("x", U8, vec![Dir::SeekBefore(SeekE::Start(l(9)))]), fld("y", U8, vec![Dir::Assert(aerr(eq(v("y"), l(1)), v("x")))]).dom(&[1, 2])]),
        var("F", Shape::Named, vec![fld("n", U8, vec![]).dom(&[0, 2]), fld("v", vec_(U16), vec![Dir::Count(v("n"))])]).assert(fmt(ne(len("v"), l(2)), "n={}", vec![v("n")])),
        var("G", Shape::Tuple, vec![fld("", U16, vec![])]).magic(i(0x0102, P::U16)).end(Some(End::Little)).pre(bare(E::B(true))),
        var("H", Shape::Tuple, vec![fld("", ptr(P::U8, U16), vec![]).dom(&[2, 200])]),
        var("I", Shape::Named, vec![fld("e", Ty::User("Sub".into()), vec![])]),
        var("J", Shape::Tuple, vec![fld("", U8, vec![])]).pre(msg(E::B(false), "never")),
        uvar("K").pre(bare(E::B(false))),
        var("L", Shape::Tuple, vec![fld("", U8, vec![Dir::Temp]).dom(&[1, 2]), fld("", U8, vec![Dir::If(eq(v("self_0"), l(1)), None)])]).assert(bare(ne(v("self_1"), l(0)))),
        // failing before where the enum began, and with restored and skipped positions behind it
        var("M", Shape::Named, vec![fld("x", U8, vec![Dir::SeekBefore(SeekE::Start(l(0))), Dir::Assert(ne_assert("x", 2))]).dom(&[2, 3])]),
        var("N", Shape::Tuple, vec![fld("", U8, vec![Dir::SeekBefore(SeekE::Current(l(-1)))]), fld("", U8, vec![Dir::RestorePosition, Dir::PadBefore(l(2)), Dir::Assert(ne_assert("self_1", 2))]).dom(&[2, 4])]),
    ]
}
fn enums(u: &mut Universe, thorough: bool) {
    u.def(en("Sub", top(), vec![
        var("S", Shape::Tuple, vec![fld("", U8, vec![Dir::Assert(ne_assert("self_0", 2))]).dom(&[2, 7])]),
        var("T", Shape::Named, vec![fld("m", U16, vec![Dir::Assert(bare(ne(v("m"), l(0x0203))))]).dom(&[0x0203, 0x0204])]),
    ]));
    let m = variant_menu();
    let mut n = 0;
    let mut put = |u: &mut Universe, ks: &[usize], mode: Option<ErrMode>, t: Top| {
        let mut vs: Vec<Variant> = ks.iter().map(|k| m[*k].clone()).collect();
        for (j, x) in vs.iter_mut().enumerate() { x.name = format!("{}{}", x.name, j) }
        if vs.iter().all(|x| x.shape == Shape::Unit) { return }
        let mut t = t;
        t.mode = mode;
        let r = u.def(en(&format!("E{}", n), t, vs));
        n += 1;
        u.root(root(r).max(12).starts(Starts::Few).note(&format!("{:?}", ks)));
    };
    let modes = [None, Some(ErrMode::All), Some(ErrMode::Unexpected)];
    for a in 0..m.len() {
        put(u, &[a], modes[a % 3], top());
        for b in 0..m.len() {
            put(u, &[a, b], modes[(a + b) % 3], top());
            for c in 0..m.len() {
                if thorough || (a * 121 + b * 11 + c) % 9 == 4 { put(u, &[a, b, c], modes[(a + b + c) % 3], if c % 2 == 0 { top() } else { top().big() }) }
            }
        }
    }
    // in every place where an enum can stand: what follows has to be read from the right position
    let e = Ty::User("E5".into());
    let e2 = u.def(en("Two", top().magic(b1(0x42)), vec![
        var("P", Shape::Named, vec![fld("x", U16, vec![Dir::PadAfter(l(2))]), fld("y", U8, vec![Dir::Assert(bare(lt(v("y"), v("x"))))]).dom(&[1, 250])]),
        var("Q", Shape::Tuple, vec![fld("", U8, vec![])]).magic(b1(0x43)),
        uvar("R"),
    ]).with_assert(bare(E::B(true))));
    for (k, e) in [e, e2].into_iter().enumerate() {
        let r = u.def(st(&format!("Em{}", k), top(), vec![fld("a", U8, vec![]), fld("e", e.clone(), vec![]), fld("z", U16, vec![])]));
        u.root(root(r).max(16).note("embedded"));
        let r = u.def(st(&format!("Ev{}", k), top(), vec![fld("v", vec_(e.clone()), vec![Dir::Count(l(2))]), fld("o", opt(e.clone()), vec![Dir::Try]), fld("z", U8, vec![])]));
        u.root(root(r).max(20).starts(Starts::Zero).note("embedded"));
        let r = u.def(st(&format!("Ep{}", k), top(), vec![fld("v", ptr(P::U8, e.clone()), vec![]).dom(&[1]), fld("z", U8, vec![])]));
        u.root(root(r).max(14).starts(Starts::Zero).note("embedded"));
    }
    // arguments decide which variants are possible
    let imp = u.def(en("Imp", top().import(&[("k", P::U8)]), vec![
        var("A", Shape::Tuple, vec![fld("", U8, vec![])]).pre(bare(eq(v("k"), l(1)))),
        var("B", Shape::Named, vec![fld("x", U16, vec![Dir::Calc(add(v("k"), l(5)))])]).pre(fmt(eq(v("k"), l(2)), "k={}", vec![v("k")])),
        var("C", Shape::Tuple, vec![fld("", U8, vec![Dir::Assert(bare(ne(v("self_0"), v("k"))))]).dom(&[3, 4])]),
        uvar("D").pre(aerr(eq(v("k"), l(4)), v("k"))),
    ]));
    for k in 0..6 { u.root(root(imp.clone()).args(&[k]).max(4).note("import")) }
    // the same below a magic of the enum, which every variant reads for itself
    for (j, mode) in [None, Some(ErrMode::Unexpected)].into_iter().enumerate() {
        for (g, magic) in [b1(5), i(0x0505, P::U16), Lit::Str(vec![5, 5, 5])].into_iter().enumerate() {
            let mut t = top().magic(magic).import(&[("k", P::U8)]);
            t.mode = mode;
            let k_is = |x: i128| bare(eq(v("k"), l(x)));
            let r = u.def(en(&format!("MagU{}_{}", j, g), t.clone(), vec![
                uvar("A").pre(k_is(1)),
                var("B", Shape::Tuple, vec![fld("", U8, vec![Dir::Assert(ne_assert("self_0", 7))]).dom(&[5, 7])]).pre(bare(lt(v("k"), l(4)))),
                uvar("C").pre(k_is(2)),
                var("D", Shape::Named, vec![fld("x", U16, vec![Dir::Assert(bare(ne(v("x"), l(0x0507))))]).dom(&[0x0505, 0x0507])]).pre(bare(ne(v("k"), l(3)))),
                uvar("E").pre(k_is(3)),
            ]));
            let r2 = u.def(en(&format!("MagV{}_{}", j, g), t, vec![
                uvar("A").pre(k_is(1)),
                uvar("B").magic(b1(7)).pre(k_is(2)),
                uvar("C").pre(k_is(2)),
                var("D", Shape::Named, vec![fld("x", U8, vec![])]).magic(b1(5)).pre(bare(ge(v("k"), l(3)))),
                var("E", Shape::Tuple, vec![fld("", U8, vec![])]).pre(k_is(0)),
            ]));
            for k in 0..5 {
                u.root(root(r.clone()).args(&[k]).max(7).note("magic and import"));
                u.root(root(r2.clone()).args(&[k]).max(7).note("magic and import"));
            }
        }
    }
    // the operators of several pre-assertions stay apart
    let ops = u.def(en("Ops", top().import(&[("k", P::U8)]), vec![
        var("A", Shape::Tuple, vec![fld("", U8, vec![])]).pre(bare(bin(Op::Or, eq(v("k"), l(1)), eq(v("k"), l(2))))).pre(bare(bin(Op::Or, eq(v("k"), l(2)), eq(v("k"), l(3))))),
        uvar("B").pre(bare(bin(Op::Or, eq(v("k"), l(1)), eq(v("k"), l(4))))).pre(bare(not(eq(v("k"), l(4))))),
        var("C", Shape::Named, vec![fld("x", U16, vec![Dir::Assert(bare(bin(Op::Or, eq(v("x"), l(7)), eq(v("k"), l(4)))))]).dom(&[7, 8])]),
    ]));
    for k in 0..6 { u.root(root(ops.clone()).args(&[k]).max(4).note("import")) }
    many_variants(u);
    // an enum whose object-level assertion rejects what a variant accepted
    u.add(en("Oa", top().assert(msg(ne(v("x"), l(3)), "three")), vec![
        var("A", Shape::Named, vec![fld("x", U8, vec![])]).magic(b1(1)),
        var("B", Shape::Named, vec![fld("x", U16, vec![]).dom(&[3, 4])]),
    ]));
}
/// many variants
fn many_variants(u: &mut Universe) {
    for (k, mode) in [None, Some(ErrMode::Unexpected)].into_iter().enumerate() {
        for n in [7i128, 18, 40] {
            let dom: Vec<i128> = (0..n).map(|j| j * 3).chain([200]).collect();
            let mut t = top();
            t.mode = mode;
            let r = u.def(en(&format!("Many{}_{}", n, k), t.clone(), (0..n).map(|j| var(&format!("V{}", j), Shape::Tuple, vec![fld("", U8, vec![Dir::Assert(bare(eq(v("self_0"), l(j * 3))))]).dom(&dom)])).collect()));
            u.root(root(r).max(3).starts(Starts::Few).note("many variants"));
            let r = u.def(en(&format!("ManyM{}_{}", n, k), t, (0..n).map(|j| { let m = b1((j * 2) as u8); match j % 3 { 0 => uvar(&format!("V{}", j)).magic(m), 1 => var(&format!("V{}", j), Shape::Tuple, vec![fld("", U16, vec![])]).magic(m), _ => var(&format!("V{}", j), Shape::Named, vec![fld("x", U8, vec![Dir::Assert(ne_assert("x", 2))]).dom(&[1, 2])]).magic(m) } }).collect()));
            u.root(root(r).max(4).starts(Starts::Zero).note("many variants"));
        }
    }
}
trait WithAssert { fn with_assert(self, a: Asrt) -> Self; }
impl WithAssert for Def { fn with_assert(mut self, a: Asrt) -> Self { self.top.asserts.push(a); self } }

// ------------------------------------------------------------------------- C08
fn unit_enums(u: &mut Universe, _thorough: bool) {
    let ends: &[(&str, Option<End>)] = &[("N", None), ("B", Some(End::Big)), ("L", Some(End::Little))];
    for p in INTS {
        for (en_, e) in ends {
            let n = |s: &str| format!("{}_{}_{}", s, p.rust(), en_);
            let t = || top().end(*e).repr(p);
            let all = Starts::Few;
            let mut put = |d: Def| { let nm = d.name.clone(); let r = u.def(d); u.root(root(r).max(20).starts(all).note(&nm)) };
            put(en(&n("One"), t(), vec![uvar("A")]));
            put(en(&n("Impl"), t(), vec![uvar("A"), uvar("B"), uvar("C").disc(7), uvar("D")]));
            put(en(&n("Neg"), t(), vec![uvar("A").disc(-1), uvar("B"), uvar("C"), uvar("M").disc(-128), uvar("H").disc(127)]));
            let big: i128 = match p.width() { 1 => 255, 2 => 65535, 4 => u32::MAX as i128, _ => i64::MAX as i128 };
            put(en(&n("Ext"), t(), vec![uvar("A").disc(big - 1), uvar("B"), uvar("Z").disc(0), uvar("S").disc(if p.width() > 1 { 0x0102 } else { 0x12 }), uvar("T").disc(if p.width() > 1 { 0x0201 } else { 0x21 })]));
        }
    }
    // magic: every literal kind
    for (ln, lit) in literals() {
        let alt: Option<Lit> = match &lit {
            Lit::Byte(b) => Some(Lit::Byte(b ^ 0x11)),
            Lit::Str(s) if s.is_empty() => None,
            Lit::Str(s) => { let mut s = s.clone(); let k = s.len() - 1; s[k] ^= 1; Some(Lit::Str(s)) }
            Lit::Char(_) => Some(Lit::Char('S')),
            Lit::Int(x, p) => Some(Lit::Int(p.wrap(x ^ 0x40), *p)),
            // float patterns are not matched by magic in unit-like enums
            Lit::F32(_) | Lit::F64(_) => None,
        };
        if let Some(alt) = alt {
            for (en_, e) in ends {
                let r = u.def(en(&format!("M_{}_{}", ln, en_), top().end(*e), vec![uvar("A").magic(lit.clone()), uvar("B").magic(alt.clone()), uvar("C").magic(lit.clone())]));
                u.root(root(r).max(20).note(&format!("magic {}", ln)));
            }
            // pre-assertions with imports choose between equal magics
            let r = u.def(en(&format!("Mp_{}", ln), top().import(&[("k", P::U8)]), vec![
                uvar("A").magic(lit.clone()).pre(bare(eq(v("k"), l(1)))),
                uvar("B").magic(lit.clone()).pre(bare(ge(v("k"), l(1)))).pre(bare(ne(v("k"), l(3)))),
                uvar("C").magic(alt).pre(bare(E::B(true))),
                uvar("D").magic(lit).pre(bare(eq(v("k"), l(0)))),
            ]));
            for k in 0..4 { u.root(root(r.clone()).args(&[k]).max(20).starts(Starts::Zero).note("magic pre")) }
        }
    }
    // repr with pre-assertions
    let r = u.def(en("Rp", top().repr(P::U8).import(&[("k", P::U8)]), vec![uvar("A").disc(1).pre(bare(eq(v("k"), l(1)))), uvar("B").disc(2).pre(bare(ne(v("k"), l(1)))), uvar("C").disc(3)]));
    for k in 0..3 { u.root(root(r.clone()).args(&[k]).max(2).starts(Starts::All).note("repr pre")) }
    // the operators of pre-assertions stay apart from the comparison with the discriminant or magic, and from each other
    let or = |a: i128, b: i128| bare(bin(Op::Or, eq(v("k"), l(a)), eq(v("k"), l(b))));
    for m in [false, true] {
        let var_ = |n: &str, d: i128| if m { uvar(n).magic(b1(d as u8)) } else { uvar(n).disc(d) };
        let t = top().import(&[("k", P::U8)]);
        let r = u.def(en(if m { "OpM" } else { "OpR" }, if m { t } else { t.repr(P::U8) }, vec![var_("A", 1).pre(or(1, 2)), var_("B", 2).pre(or(0, 1)).pre(or(1, 3)), var_("C", 3).pre(bare(not(eq(v("k"), l(2))))), var_("D", 4).pre(bare(E::B(false))).pre(or(0, 1)), uvar("E").magic(b1(5))].into_iter().map(|mut x| { if !m && x.magic.is_some() { x.magic = None; x.disc = Some(5) } x }).collect()));
        for k in 0..4 { u.root(root(r.clone()).args(&[k]).max(2).starts(Starts::Few).note("operators")) }
    }
    // many variants
    for (en_, e) in ends {
        let r = u.def(en(&format!("ManyR_{}", en_), top().end(*e).repr(P::U16), (0..48).map(|k| if k % 3 == 0 { uvar(&format!("V{}", k)).disc(k * 7) } else { uvar(&format!("V{}", k)) }).collect()));
        u.root(root(r).max(3).starts(Starts::Zero).note("many"));
        let r = u.def(en(&format!("ManyB_{}", en_), top().end(*e).repr(P::I8), (0..200i128).map(|k| if k % 50 == 0 { uvar(&format!("V{}", k)).disc(k - 100) } else { uvar(&format!("V{}", k)) }).collect()));
        u.root(root(r).max(3).starts(Starts::Zero).note("many"));
        let r = u.def(en(&format!("ManyM_{}", en_), top().end(*e), (0..200).map(|k| uvar(&format!("V{}", k)).magic(i(k + 20, P::U8))).collect()));
        u.root(root(r).max(2).entries(Entries::Be).starts(Starts::Zero).note("many"));
    }
    // used as fields
    let a = Ty::User("Impl_u16_N".into());
    let b = Ty::User("M_u16_N".into());
    let mut put = |d: Def| { let r = u.def(d); u.root(root(r).max(12).starts(Starts::All).note("embedded")) };
    put(st("Emb", top(), vec![fld("h", U8, vec![]), fld("a", a.clone(), vec![]), fld("z", U8, vec![])]));
    put(st("Emb2", top(), vec![fld("h", U8, vec![]), fld("b", b.clone(), vec![Dir::Little]), fld("z", U8, vec![])]));
    put(st("Emb3", top(), vec![fld("h", U8, vec![]), fld("a", opt(a.clone()), vec![Dir::Try]), fld("b", opt(b), vec![Dir::Try]), fld("z", U8, vec![])]));
    put(en("Emb4", top(), vec![var("X", Shape::Tuple, vec![fld("", a, vec![]), fld("", U8, vec![])]), var("Y", Shape::Tuple, vec![fld("", U16, vec![])])]));
}

// ------------------------------------------------------------------------- C09
fn pointers(u: &mut Universe, thorough: bool) {
    let inner = u.def(st("In", top(), vec![fld("k", U8, vec![]), fld("p", ptr(P::U8, U16), vec![]).dom(&[1, 20])]));
    let imp = u.def(st("Imp", top().import(&[("k", P::U8)]), vec![fld("v", U8, vec![Dir::Calc(v("k"))]), fld("w", U8, vec![Dir::Assert(ne_assert("w", 0))])]));
    // a target that takes no bytes
    let none = u.def(st("Nothing", top(), vec![fld("c", U8, vec![Dir::Calc(l(6))])]));
    let mut n = 0;
    let mut put = |u: &mut Universe, note: &str, t: Top, fs: Vec<Field>, starts: Starts| {
        let r = u.def(st(&format!("S{}", n), t, fs));
        n += 1;
        u.root(root(r).max(34).starts(starts).note(note));
    };
    let h = || fld("h", U8, vec![]).dom(&[0, 4]);
    let z = || fld("z", U16, vec![]);
    // every pointer type; positive, zero and negative distances
    for p in INTS {
        let mut dom: Vec<i128> = vec![0, 1, 5, 24];
        if p.signed() { dom.extend([-1, -4, -30]) }
        if p.width() > 1 { dom.push(0x0104) }
        if p.width() > 2 { dom.extend([0x0001_0002, 0x7fff_ffff]); if !p.signed() || p.width() > 4 { dom.extend([0x8000_0002, 0xffff_fffe]) } }
        if p.width() > 4 { dom.extend([0x1_0000_0002, 0x1_8000_0003, i64::MAX as i128]); if p.signed() { dom.extend([-0xffff_fffe, i64::MIN as i128]) } }
        // targets on either side of 4 GiB: there is data there when the reader starts behind it
        let mut far = dom.clone();
        if p.width() > 4 { far.extend([0x1_0000_0005, 0x1_0000_0010]) }
        put(u, "width-far", top(), vec![fld("h", U8, vec![]).dom(&[4]), fld("x", ptr(p, U16), vec![]).dom(&far), z()], Starts::All);
        put(u, "width-far-offset", top(), vec![fld("h", U8, vec![]).dom(&[4]), fld("x", ptr(p, U16), vec![Dir::Offset(l(1 << 32))]).dom(&far), fld("w", vec_(ptr(p, U8)), vec![Dir::Count(l(1)), Dir::OffsetAfter(add(v("h"), l((1 << 32) + 2)))]).dom(&[0, 5]), z()], Starts::All);
        put(u, "width", top(), vec![h(), fld("x", ptr(p, U16), vec![]).dom(&dom), z()], Starts::Few);
        put(u, "width-offset", top(), vec![h(), fld("x", ptr(p, U16), vec![Dir::Offset(add(v("h"), l(3)))]).dom(&dom), z()], Starts::Few);
        put(u, "width-parse", top(), vec![h(), fld("x", U16, vec![Dir::ParseWith(PW::PtrParse(p)), Dir::Offset(v("h"))]).dom(&dom), z()], Starts::Few);
    }
    // containers of pointers, with each way of giving an offset and each moment of resolution
    let targets: Vec<(&str, Ty)> = vec![("u16", U16), ("in", inner.clone()), ("opt", opt(U8)), ("nstr", Ty::NStr), ("probe", Ty::Probe(0)), ("unit", Ty::Unit), ("none", none.clone())];
    let conts: Vec<(&str, fn(Ty) -> Ty, Vec<Dir>)> = vec![
        ("one", |t| ptr(P::U8, t), vec![]),
        ("vec", |t| vec_(ptr(P::U8, t)), vec![Dir::Count(l(2))]),
        ("tup", |t| tup(vec![ptr(P::U8, t), U8, ptr(P::U16, U8)]), vec![]),
        ("opt", |t| opt(ptr(P::U8, t)), vec![]),
        ("bx", |t| bx(ptr(P::U8, t)), vec![]),
        ("pp", |t| ptr(P::U8, ptr(P::U8, t)), vec![]),
        ("pos", |t| posv(ptr(P::U8, t)), vec![]),
        ("try", |t| opt(ptr(P::U8, t)), vec![Dir::Try]),
        ("vtup", |t| vec_(tup(vec![ptr(P::U8, t), U8])), vec![Dir::Count(l(2))]),
        ("obv", |t| opt(bx(vec_(ptr(P::U8, t)))), vec![Dir::Count(l(2))]),
        ("count", |t| vec_(ptr(P::U8, t)), vec![Dir::ParseWith(PW::Count(l(2)))]),
        ("until", |t| vec_(ptr(P::U8, t)), vec![Dir::ParseWith(PW::Until(E::B(true)))]),
        ("untilex", |t| vec_(ptr(P::U8, t)), vec![Dir::ParseWith(PW::UntilEx(E::B(true)))]),
        ("pun", |t| punct(ptr(P::U8, t), ptr(P::U8, U8)), vec![Dir::ParseWith(PW::PunctSep), Dir::Count(l(2))]),
        ("punt", |t| punct(ptr(P::U8, t), U8), vec![Dir::ParseWith(PW::PunctTrail), Dir::Count(l(2))]),
        ("parse", |t| t, vec![Dir::ParseWith(PW::PtrParse(P::U8))]),
    ];
    let whens: Vec<(&str, Vec<Dir>)> = vec![
        ("plain", vec![]),
        ("off", vec![Dir::Offset(add(v("h"), l(2)))]),
        ("after", vec![Dir::OffsetAfter(v("y"))]),
        ("both", vec![Dir::Offset(l(2)), Dir::OffsetAfter(v("y"))]),
        ("now", vec![Dir::DerefNow]),
        ("nowoff", vec![Dir::DerefNow, Dir::Offset(l(3))]),
        ("post", vec![Dir::PostprocessNow, Dir::PadAfter(l(1))]),
        ("restore", vec![Dir::RestorePosition]),
        ("seek", vec![Dir::SeekBefore(SeekE::Start(l(9))), Dir::AlignAfter(l(4))]),
    ];
    for (cn, wrap, cd) in &conts {
        for (tn, t) in &targets {
            for (wn, wd) in &whens {
                if *cn == "parse" && (wd.iter().any(|d| matches!(d, Dir::OffsetAfter(_) | Dir::DerefNow | Dir::PostprocessNow))) { continue }
                if cd.iter().any(|d| matches!(d, Dir::ParseWith(_))) && wd.iter().any(|d| matches!(d, Dir::OffsetAfter(_) | Dir::DerefNow | Dir::PostprocessNow)) { continue }
                if !thorough && matches!(*tn, "opt" | "probe" | "unit" | "none") && !matches!(*wn, "plain" | "off" | "now") { continue }
                let mut dirs = cd.clone();
                dirs.extend(wd.clone());
                put(u, &format!("{}-{}-{}", cn, tn, wn), top(), vec![h(), fld("x", wrap(t.clone()), dirs).dom(&[1, 12]), fld("y", U8, vec![]).dom(&[0, 3]), z()], Starts::Zero);
            }
        }
    }
    // options in force reach the target: byte order, arguments, the object's own order
    put(u, "args", top().big(), vec![h(), fld("x", ptr(P::U8, imp.clone()), vec![Dir::Args(vec![add(v("h"), l(9))])]).dom(&[1, 12]), fld("y", vec_(ptr(P::U8, imp.clone())), vec![Dir::Args(vec![l(77)]), Dir::Count(l(2))]).dom(&[12]), z()], Starts::Zero);
    put(u, "args-now", top(), vec![h(), fld("x", ptr(P::U8, Ty::Probe(2)), vec![Dir::Args(vec![v("h"), l(5)]), Dir::DerefNow, Dir::Little]).dom(&[12]), fld("y", opt(ptr(P::U16, Ty::Probe(1))), vec![Dir::ArgsTuple(vec![l(6)]), Dir::Big, Dir::OffsetAfter(v("z"))]).dom(&[2]), z()], Starts::Few);
    put(u, "deep", top(), vec![h(), fld("x", ptr(P::U8, ptr(P::U8, ptr(P::U8, U16))), vec![Dir::Offset(l(1))]).dom(&[3]), z()], Starts::Few);
    put(u, "target vec", top(), vec![h(), fld("x", ptr(P::U8, vec_(U16)), vec![Dir::Count(l(2))]).dom(&[12, 1]), z()], Starts::Few);
    put(u, "target ptrs", top(), vec![h(), fld("x", ptr(P::U8, vec_(ptr(P::U8, U16))), vec![Dir::Count(l(2))]).dom(&[12, 1]), z()], Starts::Few);
    put(u, "several", top(), vec![fld("x", ptr(P::U8, U8), vec![]).dom(&[9]), fld("y", ptr(P::U8, U16), vec![Dir::Offset(l(2))]).dom(&[9]), fld("w", ptr(P::I16, inner.clone()), vec![Dir::OffsetAfter(add(v("k"), l(6)))]).dom(&[-3, 4]), fld("k", U8, vec![]).dom(&[2]), z()], Starts::Few);
    put(u, "empty vec", top(), vec![h(), fld("x", vec_(ptr(P::U8, U16)), vec![Dir::Count(l(0))]), z()], Starts::Few);
    put(u, "temp", top(), vec![h(), fld("x", ptr(P::U8, U16), vec![Dir::Temp]).dom(&[9, 60]), fld("y", U16, vec![Dir::Calc(add(v("h"), l(1)))]), z()], Starts::Zero);
    put(u, "temp-now", top(), vec![h(), fld("x", ptr(P::U8, U16), vec![Dir::Temp, Dir::DerefNow]).dom(&[9, 60]), fld("y", U16, vec![Dir::Calc(deref("x"))]), z()], Starts::Zero);
    put(u, "assert deref", top(), vec![h(), fld("x", ptr(P::U8, U8), vec![Dir::DerefNow, Dir::Assert(bare(ne(deref("x"), l(0x81))))]).dom(&[9, 0]), z()], Starts::Zero);
    // many pointers, long chains
    for n_ in [9usize, 17, 40] {
        let mut fs = vec![h()];
        for k in 0..n_ { fs.push(match k % 4 { 0 => fld(&format!("p{}", k), ptr(P::U8, U8), vec![]).dom(&[k as i128]), 1 => fld(&format!("p{}", k), ptr(P::U8, U16), vec![Dir::Offset(l(3))]).dom(&[k as i128]), 2 => fld(&format!("p{}", k), ptr(P::I8, U8), vec![Dir::OffsetAfter(add(v("h"), l(40)))]).dom(&[-(k as i128)]), _ => fld(&format!("p{}", k), opt(ptr(P::U8, U8)), vec![Dir::Little]).dom(&[2]) }) }
        fs.push(z());
        put(u, "many pointers", top(), fs, Starts::Zero);
    }
    let mut chain = U16;
    for k in 0..12 {
        chain = if k % 5 == 4 { opt(ptr(P::I8, chain)) } else { ptr(P::U8, chain) };
        if k > 2 { put(u, "chain", top(), vec![h(), fld("x", chain.clone(), vec![Dir::Offset(l(2))]).dom(&[3]), z()], Starts::Zero) }
    }
    // arrays
    for (k, t) in [U16].into_iter().enumerate() {
        let _ = k;
        put(u, "nested arrays", top(), vec![h(), fld("x", tup(vec![opt(ptr(P::U8, t.clone())), bx(ptr(P::U8, arr(t, 2)))]), vec![]).dom(&[7]), z()], Starts::Few);
    }
    // enums
    let e = u.def(en("E", top(), vec![
        var("A", Shape::Tuple, vec![fld("", ptr(P::U8, inner.clone()), vec![]).dom(&[3, 200])]).magic(b1(1)),
        var("B", Shape::Named, vec![fld("x", ptr(P::U8, U8), vec![Dir::OffsetAfter(v("y"))]).dom(&[3]), fld("y", U8, vec![]).dom(&[2, 90])]),
    ]));
    u.root(root(e.clone()).max(30).note("enum"));
    put(u, "enum field", top(), vec![h(), fld("e", e.clone(), vec![Dir::Offset(l(2))]), fld("pe", ptr(P::U8, e), vec![]).dom(&[1]), z()], Starts::Zero);
    put(u, "struct field", top(), vec![h(), fld("i", inner.clone(), vec![Dir::Offset(l(2))]), fld("j", inner.clone(), vec![Dir::Offset(l(5)), Dir::DerefNow]), z()], Starts::Few);
    // top-level reads resolve as well
    for t in [ptr(P::U8, U16), opt(ptr(P::U8, inner.clone())), tup(vec![ptr(P::U8, U8), ptr(P::U16, U8)]), bx(ptr(P::I8, U8)), ptr(P::U8, ptr(P::U8, U8)), posv(ptr(P::U8, U8)), ptr(P::U8, Ty::Unit), ptr(P::I8, none.clone()), opt(ptr(P::U16, Ty::Phantom)), tup(vec![ptr(P::U8, Ty::Unit), U8, ptr(P::U8, bx(Ty::Unit))]), arr(U8, 0), ptr(P::U8, arr(U8, 0))] {
        u.root(root(t.clone()).max(20).dom(&[0, 3, 9]).entries(Entries::All).starts(Starts::Few).note("top"));
        u.root(root(t.clone()).max(20).dom(&[0, 3, 9]).offset(4).note("top offset"));
    }
    u.root(root(vec_(ptr(P::U8, U16))).max(12).dom(&[1, 4]).count(2).note("top vec"));
}

// ------------------------------------------------------------------------- C10
fn placement(u: &mut Universe, thorough: bool) {
    let mut n = 0;
    let mut put = |u: &mut Universe, note: &str, fs: Vec<Field>, max: u64| {
        let r = u.def(st(&format!("S{}", n), top(), fs));
        n += 1;
        u.root(root(r).max(max).starts(Starts::All).note(note));
    };
    let h = |d: &[i128]| fld("h", U8, vec![]).dom(d);
    let p = |n: &str| fld(n, posv(U8), vec![]);
    let amounts: &[i128] = &[0, 1, 2, 3, 7, 8, 127, 200];
    let ats: &[i128] = &[1, 2, 3, 4, 5, 7, 8, 12, 16, 100, 127, 128, 4096, 65536];
    for a in amounts {
        put(u, "pad const", vec![h(&[1]), fld("x", posv(U8), vec![Dir::PadBefore(l(*a)), Dir::PadAfter(l(*a))]), p("z")], 500);
        put(u, "size const", vec![h(&[1]), fld("x", posv(U16), vec![Dir::PadSizeTo(l(*a))]), p("z")], 300);
        put(u, "neg pad const", vec![h(&[1]), p("g"), fld("x", posv(U16), vec![Dir::PadBefore(l(-*a)), Dir::PadAfter(l(-*a))]), p("z")], 300);
    }
    for a in ats {
        put(u, "align const", vec![h(&[1]), fld("x", posv(U8), vec![Dir::AlignBefore(l(*a))]), fld("y", posv(U16), vec![Dir::AlignAfter(l(*a))]), p("z")], 140000);
    }
    // distances beyond 16, 31 and 32 bits: nothing is there to be read, only the position is seen
    let q = |n: &str| fld(n, posv(Ty::Unit), vec![]);
    for a in [65535i128, 65537, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 9, 1 << 40] {
        put(u, "far pad", vec![h(&[1]), fld("x", posv(Ty::Unit), vec![Dir::PadBefore(l(a)), Dir::PadAfter(l(a))]), q("z")], 3);
        put(u, "far size", vec![h(&[1]), fld("x", posv(Ty::Unit), vec![Dir::PadSizeTo(l(a))]), q("z")], 3);
        put(u, "far align", vec![h(&[1]), fld("x", posv(Ty::Unit), vec![Dir::AlignBefore(l(a))]), fld("y", posv(Ty::Unit), vec![Dir::PadBefore(l(5)), Dir::AlignAfter(l(a))]), q("z")], 3);
        put(u, "far seek", vec![h(&[1]), fld("x", posv(Ty::Unit), vec![Dir::SeekBefore(SeekE::Start(l(a)))]), fld("y", posv(Ty::Unit), vec![Dir::SeekBefore(SeekE::Current(l(a))), Dir::RestorePosition]), fld("w", posv(Ty::Unit), vec![Dir::SeekBefore(SeekE::End(l(a)))]), q("z")], 3);
        put(u, "far back", vec![h(&[1]), fld("x", posv(Ty::Unit), vec![Dir::SeekBefore(SeekE::Start(l(a + 3))), Dir::PadAfter(l(-a))]), q("z")], 3);
    }
    let dyn_: Vec<(&str, Vec<Dir>)> = vec![
        ("pb", vec![Dir::PadBefore(v("h"))]),
        ("pbneg", vec![Dir::PadBefore(sub(l(1), v("h")))]),
        ("pa", vec![Dir::PadAfter(v("h"))]),
        ("paneg", vec![Dir::PadAfter(sub(l(1), v("h")))]),
        ("ab", vec![Dir::AlignBefore(add(v("h"), l(1)))]),
        ("aa", vec![Dir::AlignAfter(add(v("h"), l(1)))]),
        ("sz", vec![Dir::PadSizeTo(v("h"))]),
        ("ss", vec![Dir::SeekBefore(SeekE::Start(add(v("h"), l(2))))]),
        ("sc", vec![Dir::SeekBefore(SeekE::Current(sub(v("h"), l(2))))]),
        ("se", vec![Dir::SeekBefore(SeekE::End(sub(l(-1), v("h"))))]),
        ("rp", vec![Dir::RestorePosition]),
        ("if", vec![Dir::If(ne(v("h"), l(2)), None)]),
        ("mg", vec![Dir::Magic(b1(0x33))]),
        ("none", vec![]),
    ];
    for (k, (a, da)) in dyn_.iter().enumerate() {
        for (b, db) in dyn_.iter().skip(k + 1) {
            if a.starts_with('s') && b.starts_with('s') && *a != "sz" && *b != "sz" { continue }
            if (a.starts_with("pb") && b.starts_with("pb")) || (a.starts_with("pa") && b.starts_with("pa")) { continue }
            let mut ds = da.clone();
            ds.extend(db.clone());
            let f = fld("x", U16, ds.clone());
            put(u, &format!("{}+{}", a, b), vec![h(&[0, 2, 5]), f.clone(), fld("y", posv(U8), vec![]), p("z")], 40);
            // the same two on two neighbouring fields: nothing may leak from one to the other
            put(u, &format!("{}|{}", a, b), vec![h(&[0, 2, 5]), fld("x", U8, da.clone()), fld("w", U16, db.clone()), p("z")], 40);
            if thorough {
                for (_, dc) in dyn_.iter().skip(k + 3) {
                    let mut d3 = dc.clone();
                    d3.extend(ds.clone());
                    let kinds: Vec<_> = d3.iter().map(std::mem::discriminant).collect();
                    if (0..kinds.len()).any(|i| kinds[..i].contains(&kinds[i])) { continue }
                    put(u, "triple", vec![h(&[0, 2, 5]), fld("x", U16, d3), fld("y", posv(U8), vec![])], 40);
                }
            }
        }
    }
    // a value that is tried and not there: what stands around it stays where it is
    let may = u.def(st("May", top().magic(b1(0x33)), vec![fld("v", U8, vec![])]));
    for (k, (a, da)) in dyn_.iter().enumerate() {
        for (b, db) in dyn_.iter().skip(k + 1) {
            if a.starts_with('s') && b.starts_with('s') && *a != "sz" && *b != "sz" { continue }
            if (a.starts_with("pb") && b.starts_with("pb")) || (a.starts_with("pa") && b.starts_with("pa")) { continue }
            let mut ds = da.clone();
            ds.extend(db.clone());
            ds.push(Dir::Try);
            put(u, &format!("try {}+{}", a, b), vec![h(&[0, 2, 5]), fld("x", opt(may.clone()), ds.clone()), fld("y", posv(U8), vec![]), p("z")], 40);
        }
        let mut ds = da.clone();
        ds.push(Dir::Try);
        put(u, &format!("try {}", a), vec![h(&[0, 2, 5]), fld("x", opt(may.clone()), ds.clone()), fld("w", opt(tup(vec![may.clone(), U16])), ds.clone()), p("z")], 40);
        ds.push(Dir::Temp);
        put(u, &format!("try temp {}", a), vec![h(&[0, 2, 5]), fld("x", opt(may.clone()), ds), p("z")], 40);
    }
    // everything at once, on several field kinds
    let all = |restore: bool| {
        let mut d = vec![Dir::AlignAfter(l(4)), Dir::PadSizeTo(l(6)), Dir::PadBefore(l(1)), Dir::PadAfter(l(2)), Dir::AlignBefore(l(2)), Dir::SeekBefore(SeekE::Current(l(3)))];
        if restore { d.push(Dir::RestorePosition) }
        d
    };
    for r in [false, true] {
        for t in [may.clone(), tup(vec![U8, may.clone()])] {
            let mut d = all(r);
            d.push(Dir::Try);
            put(u, "all try", vec![h(&[1]), fld("x", opt(t), d), fld("y", posv(U8), all(!r)), p("z")], 60);
        }
        for t in [U8, U16, Ty::NStr, opt(U8), tup(vec![U8, U16])] {
            put(u, "all", vec![h(&[1]), fld("x", t, all(r)), fld("y", posv(U8), all(!r)), p("z")], 60);
        }
        let mut d = all(r);
        d.push(Dir::Count(v("h")));
        put(u, "all vec", vec![h(&[0, 3]), fld("x", vec_(U16), d.clone()), p("z")], 60);
        let mut d = all(r);
        d.push(Dir::Temp);
        put(u, "all temp", vec![h(&[1]), fld("x", U16, d), p("z")], 60);
        let mut d = all(r);
        d.push(Dir::Calc(v("h")));
        put(u, "all calc", vec![h(&[1]), fld("x", U16, d), p("z")], 60);
        let mut d = all(r);
        d.push(Dir::If(eq(v("h"), l(1)), None));
        put(u, "all if", vec![h(&[0, 1]), fld("x", U16, d), p("z")], 60);
        let mut d = all(r);
        d.push(Dir::Map(mapf(U16, add(v("x"), l(1)), P::U16)));
        put(u, "all map", vec![h(&[0, 1]), fld("x", U16, d), p("z")], 60);
        let mut d = all(r);
        d.push(Dir::ParseWith(PW::Probe));
        put(u, "all pw", vec![h(&[0, 1]), fld("x", Ty::Probe(0), d), p("z")], 60);
    }
    // in enum variants and tuple structs, and nested: the position is the reader's, not the object's
    u.add(en("E", top(), vec![
        var("A", Shape::Tuple, vec![fld("", U8, vec![Dir::AlignAfter(l(4))]), fld("", posv(U8), vec![Dir::Assert(bare(ne(v("self_0"), l(2))))])]).magic(b1(7)),
        var("B", Shape::Named, vec![fld("x", U8, vec![Dir::PadBefore(l(2)), Dir::RestorePosition]), fld("y", posv(U8), vec![])]),
    ]));
    let inn = u.def(st("Inn", top(), vec![fld("a", U8, vec![]), fld("b", posv(U8), vec![Dir::AlignBefore(l(4))]), fld("c", posv(U8), vec![Dir::SeekBefore(SeekE::Start(l(3)))]), fld("d", posv(U8), vec![Dir::SeekBefore(SeekE::End(l(-2)))])]));
    let r = u.def(st("Outr", top(), vec![fld("a", U8, vec![]), fld("i", inn.clone(), vec![Dir::RestorePosition]), fld("j", inn, vec![Dir::PadSizeTo(l(9))]), fld("z", posv(U8), vec![])]));
    u.root(root(r).max(30).starts(Starts::All).note("nested"));
    // a value that leaves the reader before the place where it began
    let back = u.def(st("Back", top(), vec![fld("a", U8, vec![]), fld("b", posv(U8), vec![Dir::SeekBefore(SeekE::Current(l(-3)))])]));
    let n = fld("n", U8, vec![]).dom(&[0, 1, 4]);
    let r = u.def(st("Bck1", top(), vec![fld("h", U16, vec![]), n.clone(), fld("x", back.clone(), vec![Dir::PadSizeTo(v("n"))]), fld("z", posv(U8), vec![])]));
    u.root(root(r).max(20).starts(Starts::All).note("backwards"));
    let r = u.def(st("Bck2", top(), vec![fld("h", U16, vec![]), n.clone(), fld("x", back.clone(), vec![Dir::RestorePosition, Dir::AlignAfter(l(4))]), fld("z", posv(U8), vec![Dir::PadBefore(v("n"))])]));
    u.root(root(r).max(20).starts(Starts::All).note("backwards"));
    let r = u.def(st("Bck3", top(), vec![fld("h", U16, vec![]), n, fld("x", vec_(back.clone()), vec![Dir::Count(l(2)), Dir::AlignBefore(l(2)), Dir::PadSizeTo(v("n")), Dir::PadAfter(sub(l(1), v("n"))), Dir::AlignAfter(l(4))]), fld("z", posv(U8), vec![])]));
    u.root(root(r).max(20).starts(Starts::All).note("backwards"));
}

// ------------------------------------------------------------------------- C11
fn assertions(u: &mut Universe, thorough: bool) {
    // field values decide the outcome of each assertion; ticks show what was evaluated
    let forms = |c: E, k: u32| -> Vec<Asrt> {
        let c = tick(k * 10, c);
        vec![
            bare(c.clone()),
            msg(c.clone(), "plain message"),
            fmt(c.clone(), "with {} and {{}} {}", vec![tick(k * 10 + 1, v("a")), l(5)]),
            aerr(c, tick(k * 10 + 2, add(v("a"), l(3)))),
        ]
    };
    let n = if thorough { 4 } else { 4 };
    let mut cnt = 0;
    let a = || fld("a", U8, vec![]).dom(&[0, 1, 2, 3]);
    for f1 in 0..n { for f2 in 0..n {
        let c1 = forms(ne(v("a"), l(1)), 1)[f1].clone();
        let c2 = forms(ne(v("a"), l(2)), 2)[f2].clone();
        let c3 = forms(ne(v("a"), l(3)), 3)[(f1 + f2) % 4].clone();
        // (directives joined in one attribute, or each in its own, under both names of the attribute)
        let mut put = |u: &mut Universe, mut d: Def| {
            cnt += 1;
            let mut split = |fs: &mut Vec<Field>| for f in fs { f.split = (f1 + f2) % 2 == 1 };
            match &mut d.kind { Kind::Struct(_, fs) => split(fs), Kind::Enum(vs) => for x in vs { split(&mut x.fields) } }
            let nm = d.name.clone();
            let r = u.def(d);
            u.root(root(r).max(6).starts(Starts::Few).note(&nm))
        };
        let nm = |s: &str| format!("{}_{}{}", s, f1, f2);
        // two on one field, third on the struct
        put(u, st(&nm("Ff"), top().assert(c3.clone()), vec![fld("h", U8, vec![]), a(), fld("x", U8, vec![Dir::Assert(c1.clone()), Dir::Assert(c2.clone())]), fld("z", U8, vec![])]));
        // one per field, in reverse order of failure
        put(u, st(&nm("Fr"), top().assert(c1.clone()).assert(c2.clone()).assert(c3.clone()), vec![a(), fld("x", U16, vec![])]));
        put(u, st(&nm("Fs"), top().assert(c1.clone()), vec![a(), fld("x", U8, vec![Dir::Assert(c3.clone())]), fld("y", U16, vec![Dir::Assert(c2.clone())])]));
        // enum: on the variant, on its field, on the enum
        put(u, en(&nm("En"), top().assert(c3.clone()), vec![
            var("A", Shape::Named, vec![a(), fld("x", U8, vec![Dir::Assert(c1.clone())])]).assert(c2.clone()),
            var("B", Shape::Named, vec![a(), fld("y", U16, vec![])]).assert(c1.clone()),
        ]));
        put(u, en(&nm("Eu"), top().assert(c2.clone()).mode(ErrMode::Unexpected), vec![
            var("A", Shape::Named, vec![a()]).assert(c1.clone()).assert(c3.clone()),
        ]));
        // pre-assertions over arguments
        let g = |e: &Asrt| -> Asrt { e.clone() };
        let t = top().import(&[("a", P::U8)]).pre(g(&c1)).pre(g(&c2));
        let roots: Vec<Ty> = vec![
            u.def(st(&nm("Ps"), t.clone(), vec![fld("x", U8, vec![Dir::Assert(c3.clone())])])),
            u.def(st(&nm("Pm"), t.clone().magic(b1(4)).assert(c3.clone()), vec![fld("x", U8, vec![])])),
            u.def(ust(&nm("Pu"), t.clone().assert(c3.clone()))),
            u.def(tst(&nm("Pt"), t.clone().assert(c3.clone()), vec![fld("", U8, vec![])])),
            u.def(en(&nm("Pe"), t.clone(), vec![var("A", Shape::Named, vec![fld("x", U8, vec![])]).pre(c3.clone()), uvar("B"), var("C", Shape::Tuple, vec![fld("", U16, vec![Dir::Assert(c3.clone())])])])),
            u.def(en(&nm("Pv"), top().import(&[("a", P::U8)]), vec![var("A", Shape::Named, vec![fld("x", U8, vec![])]).pre(c1.clone()).pre(c2.clone()), uvar("B").pre(c2.clone()).pre(c3.clone())])),
        ];
        for r in roots { for k in 0..4 { u.root(root(r.clone()).args(&[k]).max(3).starts(Starts::Zero).note("pre")) } }
    } }
    // many assertions
    for n in [6i128, 9, 17, 33] {
        let d: Vec<i128> = (0..=n).collect();
        let a = || fld("a", U8, vec![]).dom(&d);
        let many = || (0..n).map(|k| if k % 2 == 0 { bare(tick(k as u32, ne(v("a"), l(k)))) } else { fmt(tick(k as u32, ne(v("a"), l(k))), "no {}", vec![v("a")]) });
        let mut t = top();
        for x in many() { t = t.assert(x) }
        let r = u.def(st(&format!("Mt{}", n), t, vec![a(), fld("z", U8, vec![])]));
        u.root(root(r).max(3).starts(Starts::Zero).note("many"));
        let r = u.def(st(&format!("Mf{}", n), top(), vec![a(), fld("z", U8, many().map(Dir::Assert).collect())]));
        u.root(root(r).max(3).starts(Starts::Zero).note("many"));
        let mut t = top().import(&[("a", P::U8)]);
        for x in many() { t = t.pre(x) }
        let r = u.def(st(&format!("Mp{}", n), t, vec![fld("z", U8, vec![])]));
        for k in 0..=n { u.root(root(r.clone()).args(&[k]).max(2).entries(Entries::Be).starts(Starts::Zero).note("many")) }
    }
    // the object's own assertions come after its pointers have been resolved
    for f in 0..4 {
        let c = |k: u32| -> Asrt {
            let c = tick(k * 10, ne(deref("p"), l(0x83)));
            match f { 0 => bare(c), 1 => msg(c, "points to 83"), 2 => fmt(c, "{} {}", vec![deref("p"), v("a")]), _ => aerr(c, deref("p")) }
        };
        let d = || tick(5, ne(v("a"), l(3)));
        let p = || fld("p", ptr(P::U8, U8), vec![]).dom(&[1, 4, 60]);
        let mut roots = vec![
            u.def(st(&format!("Da{}", f), top().assert(c(1)).assert(bare(d())), vec![a(), p(), fld("z", U8, vec![]).dom(&[0x83, 0])])),
            u.def(st(&format!("Db{}", f), top().assert(bare(d())).assert(c(1)), vec![p(), a(), fld("y", opt(ptr(P::U8, U8)), vec![Dir::Offset(l(2))]).dom(&[1, 70]), fld("z", U8, vec![]).dom(&[0x83, 0])])),
            u.def(st(&format!("Dc{}", f), top().assert(c(1)).assert(bare(d())), vec![a(), fld("p", ptr(P::U8, U8), vec![Dir::OffsetAfter(v("z")), Dir::Temp]).dom(&[1, 3]), fld("z", U8, vec![Dir::Assert(bare(ne(v("z"), l(9))))]).dom(&[0, 2, 9, 99])])),
            u.def(en(&format!("Dd{}", f), top().assert(bare(d())), vec![
                var("A", Shape::Named, vec![a(), p()]).assert(c(1)),
                var("B", Shape::Named, vec![p(), a(), fld("z", U8, vec![]).dom(&[0x83, 0])]).assert(c(2)),
                var("C", Shape::Named, vec![a()]),
            ])),
        ];
        // (a pointer that does not lead to its target, a field's own assertion)
        roots.push(u.def(st(&format!("De{}", f), top().assert(c(1)), vec![a(), p(), fld("q", ptr(P::U8, U8), vec![Dir::DerefNow, Dir::Assert(fmt(tick(7, ne(deref("q"), v("a"))), "{}", vec![deref("q")]))]).dom(&[0, 4, 80]), fld("z", U8, vec![]).dom(&[0x83, 0])])));
        for r in roots { u.root(root(r).max(6).starts(Starts::Zero).note("after pointers")) }
    }
    // operators in conditions and messages stand as they are written
    let or = |x: E, y: E| bin(Op::Or, x, y);
    let r = u.def(st("Ops", top().assert(bare(or(ne(v("a"), l(1)), eq(v("b"), l(1))))).assert(aerr(not(and(eq(v("a"), l(2)), eq(v("b"), l(0)))), add(v("a"), mul(v("b"), l(3))))), vec![a(), fld("b", U8, vec![Dir::Assert(fmt(or(lt(v("a"), l(3)), ne(v("b"), l(0))), "{} {}", vec![add(v("a"), l(1)), mul(v("b"), l(2))]))]).dom(&[0, 1]), fld("z", U8, vec![])]));
    u.root(root(r).max(4).starts(Starts::Few).note("operators"));
    // assertions inside what is nested, repeated, pointed to; on conditional and computed values
    let s = u.def(st("Ne", top().assert(msg(ne(v("q"), l(9)), "nine")), vec![fld("q", U8, vec![Dir::Assert(fmt(ne(v("q"), l(8)), "q {}", vec![v("q")]))]).dom(&[7, 8, 9])]));
    let mut put = |u: &mut Universe, nm: &str, fs: Vec<Field>| { let r = u.def(st(nm, top(), fs)); u.root(root(r).max(9).starts(Starts::Few).note(nm)) };
    put(u, "NeV", vec![fld("h", U8, vec![]), fld("v", vec_(s.clone()), vec![Dir::Count(l(3))]), fld("z", U8, vec![])]);
    put(u, "NeO", vec![fld("h", U8, vec![]), fld("v", opt(s.clone()), vec![]), fld("t", tup(vec![s.clone(), U8]), vec![]), fld("z", U8, vec![])]);
    put(u, "NeP", vec![fld("h", U8, vec![]), fld("v", ptr(P::U8, s.clone()), vec![]).dom(&[3]), fld("z", U8, vec![])]);
    put(u, "NeT", vec![fld("h", U8, vec![]), fld("v", opt(s.clone()), vec![Dir::Try]), fld("z", U8, vec![])]);
    put(u, "NeB", vec![fld("h", U8, vec![]), fld("v", bx(s.clone()), vec![]), fld("w", s.clone(), vec![Dir::RestorePosition]), fld("z", U8, vec![])]);
    put(u, "NeU", vec![fld("v", vec_(s.clone()), vec![Dir::ParseWith(PW::UntilEof)])]);
    put(u, "NeC", vec![fld("h", U8, vec![]).dom(&[1, 2, 3]), fld("c", U8, vec![Dir::Calc(add(v("h"), l(1))), Dir::Assert(bare(ne(v("c"), l(3))))]), fld("i", U8, vec![Dir::If(eq(v("h"), l(1)), None), Dir::Assert(bare(lt(v("i"), l(6))))]).dom(&[5, 6]), fld("t", U8, vec![Dir::Temp, Dir::Assert(bare(ne(v("t"), v("h"))))]).dom(&[1, 3]), fld("d", U8, vec![Dir::Default, Dir::Assert(bare(eq(v("d"), l(0))))]), fld("m", U8, vec![Dir::Map(mapf(U8, add(v("x"), l(1)), P::U8)), Dir::Assert(bare(ne(v("m"), l(4))))]).dom(&[3, 4]), fld("o", opt(U8), vec![Dir::Try, Dir::Assert(bare(ne(v("h"), l(9))))])]);
}

// ------------------------------------------------------------------------- C12
fn collections(u: &mut Universe, thorough: bool) {
    let m = u.def(st("M", top().magic(b1(0x11)), vec![fld("k", U8, vec![Dir::Assert(ne_assert("k", 3))]).dom(&[2, 3])]));
    let e = u.def(en("E", top(), vec![var("A", Shape::Tuple, vec![fld("", U8, vec![Dir::Assert(ne_assert("self_0", 2))]).dom(&[1, 2])]), var("B", Shape::Tuple, vec![fld("", U16, vec![Dir::Assert(ne_assert("self_0", 0x0202))]).dom(&[0x0202, 0x0203])])]));
    let w = u.def(st("W", top().import(&[("k", P::U8)]), vec![fld("v", U16, vec![Dir::Assert(bare(ne(v("v"), v("k"))))]).dom(&[5, 6]), fld("c", U8, vec![Dir::Calc(v("k"))])]));
    // vectors: every element type, every count, at top level and from a field
    let elems: Vec<Ty> = vec![U8, U16, I8, Ty::P(P::U32), Ty::P(P::I64), Ty::P(P::U128), Ty::P(P::F32), Ty::P(P::Char), m.clone(), e.clone(), opt(U16), tup(vec![U8, U16]), posv(U8), posv(m.clone()), bx(U16), arr(U8, 3), Ty::NStr, Ty::WStr, Ty::Probe(0), Ty::Unit];
    let mut n = 0;
    for (k, t) in elems.iter().enumerate() {
        for c in 0..5u64 {
            if !thorough && c == 4 && k > 7 { continue }
            u.root(root(vec_(t.clone())).count(c).max(if matches!(t, Ty::Unit) { 0 } else { 20 }).starts(Starts::Few).note(&format!("vec {}", k)));
        }
        let r = u.def(st(&format!("V{}", n), top(), vec![fld("n", U8, vec![]).dom(&[0, 1, 2, 3]), fld("x", vec_(t.clone()), vec![Dir::Count(v("n"))]), fld("z", posv(U16), vec![])]));
        n += 1;
        u.root(root(r).max(16).starts(Starts::Few).note("vec field"));
    }
    for p in ALL_P {
        for c in [15u64, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025] {
            if p.width() > 4 && c > 257 { continue }
            u.root(root(vec_(Ty::P(p))).count(c).max(c * p.width() as u64 + 3).starts(Starts::Zero).note("long"));
        }
    }
    for c in [4095u64, 4096, 4097, 8191, 8192, 8193] { u.root(root(vec_(U8)).count(c).max(c + 3).starts(Starts::Zero).note("long")) }
    for c in [4095u64, 4097] { u.root(root(vec_(U16)).count(c).max(c * 2 + 1).starts(Starts::Zero).note("long")) }
    for c in [33u64, 255, 256, 257, 300] { for t in [tup(vec![U8, U16]), posv(U8), opt(U16)] { u.root(root(vec_(t)).count(c).max(if c == 33 { c * 3 } else { c + 7 }).entries(Entries::Options).starts(Starts::Zero).note("long")) } }
    // every array size
    for k in 0..=32usize {
        u.root(root(arr(U8, k)).max(k as u64 + 2).note("array").starts(Starts::Few));
        u.root(root(arr(U16, k)).max(2 * k as u64 + 2).note("array").starts(Starts::Zero));
    }
    for t in [Ty::P(P::I32), Ty::P(P::F64), Ty::P(P::U128), Ty::P(P::Char), opt(U16), tup(vec![U8, U16]), arr(U8, 2), Ty::Probe(0)] {
        for k in [0usize, 1, 2, 3, 5] { u.root(root(arr(t.clone(), k)).max(50).note("array of").starts(Starts::Zero)) }
    }
    // tuples up to the largest
    for k in 1..=32usize {
        let ts: Vec<Ty> = (0..k).map(|j| if j % 3 == 1 { U16 } else if j % 7 == 5 { I8 } else { U8 }).collect();
        u.root(root(tup(ts)).max(60).note("tuple").starts(Starts::Zero));
    }
    u.root(root(tup(vec![m.clone(), U8, e.clone(), opt(m.clone())])).max(12).note("tuple").starts(Starts::Few));
    // helpers
    let helems: Vec<Ty> = vec![U8, U16, posv(U8), tup(vec![U8, U8])];
    for (k, t) in helems.iter().enumerate() {
        let x = match t { Ty::Tup(_) => v("x.0"), Ty::Pos(_) => v("x.val"), _ => deref("x") };
        let dom: &[i128] = &[0, 1, 2];
        for coll in 0..2 {
            let c = |t: Ty| if coll == 0 { vec_(t) } else { deq(t) };
            let stop = eq(x.clone(), l(0));
            for (hn, pw) in [("until", PW::Until(stop.clone())), ("untilex", PW::UntilEx(stop.clone())), ("eof", PW::UntilEof), ("count", PW::Count(v("n")))] {
                let mut fs = vec![fld("n", U8, vec![]).dom(if hn == "count" { &[0, 1, 3] } else { &[1] }), fld("x", c(t.clone()), vec![Dir::ParseWith(pw)]).dom(dom)];
                fs.push(fld("z", posv(U8), vec![Dir::If(E::B(hn != "eof"), None)].into_iter().filter(|_| false).collect()));
                if hn == "eof" { fs.pop(); fs.push(fld("z", opt(U8), vec![Dir::Try])) }
                let r = u.def(st(&format!("H_{}_{}_{}", hn, k, coll), top(), fs));
                u.root(root(r).max(if k == 1 || k == 3 { 10 } else { 6 }).starts(Starts::Few).note(&format!("{} {}", hn, k)));
            }
        }
    }
    // helpers over structs, with arguments and options
    for (hn, pw) in [("until", PW::Until(eq(v("x.k"), l(2)))), ("untilex", PW::UntilEx(eq(v("x.k"), l(2)))), ("eof", PW::UntilEof), ("count", PW::Count(l(2)))] {
        for (tn, t) in [("m", m.clone()), ("e", e.clone())] {
            if tn == "e" && hn.starts_with("until") { continue }
            let r = u.def(st(&format!("Hs_{}_{}", hn, tn), top(), vec![fld("h", U8, vec![]), fld("x", vec_(t), vec![Dir::ParseWith(pw.clone())])]));
            u.root(root(r).max(7).starts(Starts::Few).note(&format!("{} struct", hn)));
        }
        if hn != "until" && hn != "untilex" {
            let r = u.def(st(&format!("Ha_{}", hn), top(), vec![fld("h", U8, vec![]), fld("x", vec_(w.clone()), vec![Dir::ParseWith(pw.clone()), Dir::Args(vec![l(5)]), Dir::Little])]));
            u.root(root(r).max(7).starts(Starts::Few).note(&format!("{} args", hn)));
        }
        if hn == "count" {
            let r = u.def(st(&format!("Hp_{}", hn), top(), vec![fld("h", U8, vec![]), fld("x", vec_(Ty::Probe(1)), vec![Dir::ParseWith(pw.clone()), Dir::Args(vec![l(5)]), Dir::Little, Dir::Offset(l(6))]), fld("y", vec_(vec_(U8)), vec![Dir::ParseWith(pw), Dir::Count(l(2))])]));
            u.root(root(r).max(9).starts(Starts::Few).note(&format!("{} options", hn)));
        }
    }
    for c in [0i128, 1, 2, 5] {
        let r = u.def(st(&format!("Rb{}", c), top(), vec![fld("h", U8, vec![]), fld("x", vec_(U8), vec![Dir::ParseWith(PW::ReadBytes), Dir::Count(l(c))]), fld("z", posv(U8), vec![])]));
        u.root(root(r).max(9).starts(Starts::Few).note("read_bytes"));
        for (k, (t, s)) in [(U8, U8), (m.clone(), U8), (U16, m.clone()), (posv(U8), posv(U16))].into_iter().enumerate() {
            for trail in [false, true] {
                if c == 5 && k > 0 { continue }
                let r = u.def(st(&format!("Pn{}_{}_{}", c, k, trail), top(), vec![fld("h", U8, vec![]), fld("x", punct(t.clone(), s.clone()), vec![Dir::ParseWith(if trail { PW::PunctTrail } else { PW::PunctSep }), Dir::Count(l(c))]), fld("z", posv(U8), vec![])]));
                u.root(root(r).max(14).starts(Starts::Few).note("punctuated"));
            }
        }
    }
    for c in [256i128, 1000, 4096, 5000, 8192, 8195] {
        let r = u.def(st(&format!("Rl{}", c), top(), vec![fld("x", vec_(U8), vec![Dir::ParseWith(PW::ReadBytes), Dir::Count(l(c))]), fld("z", posv(U8), vec![])]));
        u.root(root(r).max(c as u64 + 2).starts(Starts::Zero).note("long"));
        let r = u.def(st(&format!("Cl{}", c), top(), vec![fld("x", vec_(U8), vec![Dir::ParseWith(PW::Count(l(c)))]), fld("z", posv(U8), vec![])]));
        u.root(root(r).max(c as u64 + 2).starts(Starts::Zero).note("long"));
        if c <= 1000 {
            let r = u.def(st(&format!("Pl{}", c), top(), vec![fld("x", punct(U8, U8), vec![Dir::ParseWith(PW::PunctSep), Dir::Count(l(c))]), fld("z", posv(U8), vec![])]));
            u.root(root(r).max(2 * c as u64 + 2).starts(Starts::Zero).note("long"));
            let r = u.def(st(&format!("El{}", c), top(), vec![fld("x", vec_(U8), vec![Dir::ParseWith(PW::UntilEof)])]));
            u.root(root(r).max(c as u64).starts(Starts::Zero).note("long"));
        }
    }
    // counts far beyond what there is to read, and that do not fit 32 bits
    for (p, dom) in [(P::U64, &[0i128, 2, (1 << 32), (1 << 32) + 1, (1 << 40) + 2, (1 << 63), (1 << 64) - 1] as &'static [i128]), (P::I64, &[1, (1 << 31) + 1, (1 << 32) + 1, (1 << 62) + 1]), (P::U32, &[1, 0x7fff_ffff, 0x8000_0001, 0xffff_ffff]), (P::U128, &[1, (1 << 32) + 1, (1 << 48) + 1])] {
        for (k, (ty, pw)) in [(vec_(U8), None), (vec_(U16), None), (vec_(posv(U8)), None), (vec_(U8), Some(PW::ReadBytes)), (punct(U8, U8), Some(PW::PunctSep)), (punct(U8, U8), Some(PW::PunctTrail))].into_iter().enumerate() {
            let mut ds = vec![Dir::Count(v("n"))];
            if let Some(pw) = pw { ds.insert(0, Dir::ParseWith(pw)) }
            let r = u.def(st(&format!("Cw{:?}{}", p, k), top(), vec![fld("n", Ty::P(p), vec![]).dom(dom), fld("x", ty, ds), fld("z", posv(U8), vec![])]));
            u.root(root(r).max(22).starts(Starts::Few).note("wide count"));
        }
        let r = u.def(st(&format!("Cw{:?}h", p), top(), vec![fld("n", Ty::P(p), vec![]).dom(dom), fld("x", vec_(U8), vec![Dir::ParseWith(PW::Count(v("n")))]), fld("z", posv(U8), vec![])]));
        u.root(root(r).max(22).starts(Starts::Few).note("wide count"));
    }
    // arguments and options reach every element
    let r = u.def(st("Va", top(), vec![fld("n", U8, vec![]).dom(&[0, 1, 3]), fld("x", vec_(w.clone()), vec![Dir::Count(v("n")), Dir::Args(vec![add(v("n"), l(4))]), Dir::Little]), fld("y", vec_(Ty::Probe(2)), vec![Dir::Count(v("n")), Dir::Args(vec![l(8), v("n")]), Dir::Big, Dir::Offset(l(5))]), fld("q", punct(Ty::Probe(1), U8), vec![Dir::ParseWith(PW::PunctSep), Dir::Count(l(2)), Dir::Args(vec![l(3)])]), fld("z", posv(U8), vec![])]));
    u.root(root(r).max(18).starts(Starts::Few).note("args"));
    // an inherited count does not reach the elements of a vector but does reach what is read beside it
    u.root(root(tup(vec![vec_(U8), vec_(U16)])).count(2).max(8).note("inherited"));
    u.root(root(opt(bx(vec_(U16)))).count(2).max(6).note("inherited"));
    u.root(root(posv(vec_(posv(U8)))).count(3).max(4).note("inherited"));
    u.root(root(arr(vec_(U8), 2)).count(2).max(6).note("inherited"));
    // PosValue everywhere
    let r = u.def(st("Pv", top(), vec![fld("a", posv(U16), vec![Dir::PadBefore(l(1))]), fld("b", opt(posv(m.clone())), vec![]), fld("c", ptr(P::U8, posv(U8)), vec![]).dom(&[9]), fld("d", posv(posv(U8)), vec![]), fld("e", tup(vec![posv(U8), posv(U16)]), vec![]), fld("f", posv(Ty::NStr), vec![]), fld("g", arr(posv(U8), 0), vec![]) ].into_iter().filter(|f| f.name != "g").collect()));
    u.root(root(r).max(16).starts(Starts::All).note("pos"));
}

// ------------------------------------------------------------------------- C13
fn strings(u: &mut Universe, thorough: bool) {
    let bytes: &[i128] = &[0, 0x61, 0xc3, 0xa9, 0xff];
    let wide: &[i128] = &[0, 0x0061, 0x6100, 0x00e9, 0xd83d, 0xde00, 0xffff, 0x0100];
    let n = if thorough { 6 } else { 5 };
    for t in [Ty::NStr, Ty::Nz8] {
        u.root(root(t.clone()).dom(bytes).max(n).starts(Starts::Few).note("bytes"));
    }
    for t in [Ty::WStr, Ty::Nz16] {
        u.root(root(t.clone()).dom(wide).max(if thorough { 10 } else { 8 }).starts(Starts::Few).note("wide"));
    }
    for (k, (t, d)) in [(Ty::NStr, bytes), (Ty::Nz8, bytes), (Ty::WStr, wide), (Ty::Nz16, wide)].into_iter().enumerate() {
        let d = &d[..4];
        let f = |n: &str, t: Ty, dirs: Vec<Dir>| fld(n, t, dirs).dom(d);
        let mut put = |u: &mut Universe, nm: &str, fs: Vec<Field>, max: u64| { let r = u.def(st(&format!("{}{}", nm, k), top(), fs)); u.root(root(r).max(max).starts(Starts::Few).note(nm)) };
        put(u, "S", vec![fld("h", U8, vec![]), f("x", t.clone(), vec![]), fld("z", posv(U8), vec![])], 6);
        put(u, "V", vec![f("x", vec_(t.clone()), vec![Dir::Count(l(2))]), fld("z", posv(U8), vec![])], 7);
        put(u, "O", vec![f("x", opt(t.clone()), vec![]), f("y", tup(vec![t.clone(), U8]), vec![Dir::Little])], 6);
        put(u, "B", vec![f("x", t.clone(), vec![Dir::Big]), f("y", t.clone(), vec![Dir::Little])], 8);
        put(u, "P", vec![fld("x", ptr(P::U8, t.clone()), vec![]).dom(&[1, 3]), fld("z", posv(U8), vec![])], 8);
        put(u, "T", vec![f("x", opt(t.clone()), vec![Dir::Try]), fld("z", posv(U8), vec![])], 6);
        put(u, "A", vec![f("x", t.clone(), vec![Dir::PadSizeTo(l(4)), Dir::AlignAfter(l(4))]), fld("z", posv(U8), vec![])], 8);
        put(u, "L", vec![f("x", vec_(t.clone()), vec![Dir::ParseWith(PW::Count(l(2)))]), f("w", t.clone(), vec![Dir::RestorePosition]), fld("z", posv(U8), vec![])], 7);
    }
    // long strings
    for (k, n) in [0u64, 1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1000].into_iter().enumerate() {
        let _ = k;
        // the undecided pattern contains no zero byte: the string ends with the data
        u.root(root(Ty::NStr).dom(&[0x62]).max(n).starts(Starts::Zero).note("long"));
    }
}

// ------------------------------------------------------------------------- C14
fn wiring(u: &mut Universe, _thorough: bool) {
    let a = || fld("a", U8, vec![]).dom(&[0, 1, 2]);
    let z = || fld("z", posv(U8), vec![]);
    let mut n = 0;
    let mut put = |u: &mut Universe, note: &str, t: Top, fs: Vec<Field>| { let r = u.def(st(&format!("S{}", n), t, fs)); n += 1; u.root(root(r).max(20).starts(Starts::Few).note(note)) };
    let l1 = u.def(st("L1", top().import(&[("p", P::U8)]), vec![fld("v", U8, vec![Dir::Calc(v("p"))]), fld("w", U16, vec![Dir::Assert(bare(ne(v("w"), v("p"))))]).dom(&[7, 3])]));
    let l2 = u.def(st("L2", top().import(&[("p", P::U8), ("q", P::I64)]), vec![fld("v", Ty::P(P::I64), vec![Dir::Calc(sub(v("q"), v("p")))]), fld("n", vec_(U8), vec![Dir::Count(v("p"))])]));
    let l3 = u.def(st("L3", top().import(&[("p", P::U8), ("q", P::U16), ("r", P::I8)]), vec![fld("v", Ty::P(P::I32), vec![Dir::Calc(add(add(mul(v("p"), l(10000)), v("q")), v("r")))]), fld("w", U8, vec![Dir::If(eq(v("p"), l(1)), Some(v("q")))])]));
    let lt_ = u.def(st("Lt", top().import_tuple("t", &[P::U8, P::U16]), vec![fld("v", Ty::P(P::U32), vec![Dir::Calc(add(mul(v("t.0"), l(1000)), v("t.1")))]), fld("x", U8, vec![])]));
    let le = u.def(en("Le", top().import(&[("p", P::U8)]), vec![var("A", Shape::Named, vec![fld("v", U8, vec![Dir::Calc(v("p"))])]).pre(bare(eq(v("p"), l(1)))), var("B", Shape::Tuple, vec![fld("", U8, vec![Dir::Assert(bare(ne(v("self_0"), v("p"))))]).dom(&[0, 5])]), uvar("C")]));
    let lw = u.def(st("Lw", top().import(&[("p", P::U8)]), vec![fld("i", l2.clone(), vec![Dir::Args(vec![v("p"), add(v("p"), l(1))])]), fld("j", l1.clone(), vec![Dir::Args(vec![v("p")])])]));
    let tu = u.def(tst("Tu", top().import(&[("p", P::U8)]), vec![fld("", U8, vec![]), fld("", U16, vec![Dir::Calc(add(v("p"), v("self_0")))])]));
    let un = u.def(ust("Un", top().import(&[("p", P::U8)]).pre(bare(ne(v("p"), l(2))))));
    // arguments through every container
    for (k, (t, args)) in [(l1.clone(), vec![add(v("a"), l(2))]), (l2.clone(), vec![v("a"), sub(l(0), v("a"))]), (l3.clone(), vec![v("a"), add(v("a"), l(300)), sub(v("a"), l(100))]), (lt_.clone(), vec![v("a"), l(9)]), (le.clone(), vec![v("a")]), (lw.clone(), vec![v("a")]), (tu.clone(), vec![v("a")]), (un.clone(), vec![v("a")]), (Ty::Probe(1), vec![v("a")]), (Ty::Probe(2), vec![l(1), v("a")])].into_iter().enumerate() {
        for tuple in [false, true] {
            let d = || if tuple { Dir::ArgsTuple(args.clone()) } else { Dir::Args(args.clone()) };
            let nt = format!("args {} {}", k, tuple);
            put(u, &nt, top(), vec![a(), fld("x", t.clone(), vec![d()]), z()]);
            if tuple && k > 3 { continue }
            put(u, &nt, top(), vec![a(), fld("x", opt(t.clone()), vec![d()]), fld("y", bx(t.clone()), vec![d()]), z()]);
            put(u, &nt, top(), vec![a(), fld("x", vec_(t.clone()), vec![d(), Dir::Count(l(2))]), fld("p", posv(t.clone()), vec![d()]), z()]);
            put(u, &nt, top(), vec![a(), fld("x", ptr(P::U8, t.clone()), vec![d()]).dom(&[9]), fld("y", t.clone(), vec![Dir::ParseWith(PW::PtrParse(P::U8)), d()]).dom(&[8]), z()]);
            put(u, &nt, top(), vec![a(), fld("x", vec_(t.clone()), vec![d(), Dir::ParseWith(PW::Count(l(2)))]), fld("y", opt(t.clone()), vec![d(), Dir::Try]), z()]);
            if k < 9 { put(u, &nt, top(), vec![a(), fld("x", punct(t.clone(), U8), vec![d(), Dir::ParseWith(PW::PunctTrail), Dir::Count(l(2))]), z()]); }
        }
    }
    // arrays of values with arguments
    for k in [1usize, 2, 3] { put(u, "args arr", top(), vec![a(), fld("x", arr(Ty::Probe(1), k), vec![Dir::Args(vec![v("a")]), Dir::Little, Dir::Offset(l(4))]), z()]); }
    // custom parsers receive options and arguments
    put(u, "pw", top(), vec![a(), fld("x", Ty::Probe(0), vec![Dir::ParseWith(PW::Probe)]), fld("y", Ty::Probe(0), vec![Dir::ParseWith(PW::Probe), Dir::Args(vec![v("a")]), Dir::Little]), fld("w", Ty::Probe(0), vec![Dir::ParseWith(PW::Probe), Dir::ArgsTuple(vec![v("a"), l(-4)]), Dir::Offset(v("a")), Dir::Count(add(v("a"), l(2)))]), z()]);
    put(u, "pw u16", top(), vec![a(), fld("x", U16, vec![Dir::ParseWith(PW::U16), Dir::Args(vec![mul(v("a"), l(1000))])]), fld("y", U16, vec![Dir::ParseWith(PW::Closure(add(v("a"), v("x"))))]), z()]);
    // roots with arguments given by the caller
    for k in [0i128, 1, 3] {
        u.root(root(l1.clone()).args(&[k]).max(6).note("root"));
        u.root(root(l2.clone()).args(&[k, -5]).max(6).note("root"));
        u.root(root(l3.clone()).args(&[k, 60000, -7]).max(6).note("root"));
        u.root(root(lt_.clone()).args(&[k, 60000]).max(6).note("root"));
        u.root(root(le.clone()).args(&[k]).max(6).note("root"));
        u.root(root(lw.clone()).args(&[k]).max(9).note("root"));
        u.root(root(tu.clone()).args(&[k]).max(6).entries(Entries::All).note("root"));
    }
    // calc, default, ignore, if, temp
    let gens: Vec<(&str, Ty, Vec<Dir>)> = vec![
        ("calc", U16, vec![Dir::Calc(add(mul(v("a"), l(7)), l(1)))]),
        ("calcneg", I16, vec![Dir::Calc(sub(l(0), v("a")))]),
        ("default", U16, vec![Dir::Default]),
        ("ignore", Ty::P(P::I64), vec![Dir::Ignore]),
        ("defvec", vec_(U8), vec![Dir::Default]),
        ("defopt", opt(U16), vec![Dir::Ignore]),
        ("if", U16, vec![Dir::If(eq(v("a"), l(1)), None)]),
        ("ifalt", U16, vec![Dir::If(eq(v("a"), l(1)), Some(tick(1, add(v("a"), l(500)))))]),
        ("ifopt", opt(U16), vec![Dir::If(ne(v("a"), l(1)), None)]),
        ("ifsome", opt(U16), vec![Dir::IfSome(eq(v("a"), l(1)), tick(2, v("a")))]),
        ("ifcalc", U16, vec![Dir::If(eq(v("a"), l(1)), Some(l(9))), Dir::Calc(tick(3, v("a")))]),
        ("ifpad", U16, vec![Dir::If(eq(v("a"), l(1)), Some(l(9))), Dir::PadBefore(l(1)), Dir::PadAfter(l(2))]),
        ("ifseek", U16, vec![Dir::If(eq(v("a"), l(1)), None), Dir::SeekBefore(SeekE::Start(l(2))), Dir::AlignAfter(l(4))]),
        ("ifmagic", U16, vec![Dir::If(eq(v("a"), l(1)), None), Dir::Magic(b1(5))]),
        ("ifvec", vec_(U8), vec![Dir::If(ne(v("a"), l(1)), None), Dir::Count(add(v("a"), l(1)))]),
        ("iftry", opt(U16), vec![Dir::If(ne(v("a"), l(1)), None), Dir::Try]),
        ("ifstr", Ty::NStr, vec![Dir::If(ne(v("a"), l(1)), None)]),
        ("ifpw", U16, vec![Dir::If(ne(v("a"), l(1)), None), Dir::ParseWith(PW::U16)]),
        ("ifmap", Ty::P(P::U32), vec![Dir::If(ne(v("a"), l(1)), Some(l(3))), Dir::Map(mapf(U16, add(v("x"), l(1)), P::U32))]),
        ("ifrestore", U16, vec![Dir::If(ne(v("a"), l(1)), None), Dir::RestorePosition]),
        ("iftick", U16, vec![Dir::If(tick(4, eq(v("a"), l(1))), Some(l(3)))]),
        ("trydefault", opt(U16), vec![Dir::Try, Dir::Default]),
        ("trycalc", opt(U16), vec![Dir::Try, Dir::Calc(v("a"))]),
        ("read", U16, vec![]),
    ];
    for (k, (n1, t1, d1)) in gens.iter().enumerate() {
        // the value of the generated field is used by the next
        let num = matches!(t1, Ty::P(_));
        put(u, n1, top(), vec![a(), fld("x", t1.clone(), d1.clone()), fld("c", Ty::P(P::I64), vec![Dir::Calc(if num { add(v("x"), l(1)) } else { v("a") })]), z()]);
        let mut dt = d1.clone();
        dt.push(Dir::Temp);
        put(u, &format!("temp {}", n1), top(), vec![a(), fld("x", t1.clone(), dt.clone()), fld("c", Ty::P(P::I64), vec![Dir::Calc(if num { add(v("x"), l(1)) } else { v("a") })]), z()]);
        let r = u.def(en(&format!("Et{}", k), top(), vec![
            var("A", Shape::Named, vec![a(), fld("x", t1.clone(), dt.clone()), fld("c", Ty::P(P::I64), vec![Dir::Calc(if num { add(v("x"), l(1)) } else { v("a") })]), fld("g", U8, vec![Dir::Assert(ne_assert("g", 1))]).dom(&[1, 2])]),
            var("B", Shape::Tuple, vec![fld("", U8, vec![Dir::Temp]), fld("", t1.clone(), d1.iter().map(|d| rename(d, "a", "self_0")).collect()), fld("", Ty::P(P::I64), vec![Dir::Calc(v("self_0"))])]),
        ]));
        u.root(root(r).max(12).starts(Starts::Few).note(&format!("variant {}", n1)));
        let r = u.def(tst(&format!("Tt{}", k), top(), vec![fld("", U8, vec![Dir::Temp]).dom(&[0, 1]), fld("", t1.clone(), d1.iter().map(|d| rename(d, "a", "self_0")).collect()), fld("", posv(U8), vec![])]));
        u.root(root(r).max(12).starts(Starts::Few).note(&format!("tuple {}", n1)));
    }
    // temp fields at different places of different variants, with unit variants before, between and after
    let tm = || fld("t", U8, vec![Dir::Temp]).dom(&[1, 2]);
    let t0 = || fld("", U8, vec![Dir::Temp]).dom(&[1, 2]);
    let plain = |n: &str| fld(n, U16, vec![]);
    for (k, order) in [[0usize, 1, 2, 3, 4, 5, 6, 7], [1, 0, 3, 2, 4, 6, 5, 7], [7, 0, 6, 1, 2, 5, 4, 3], [2, 3, 4, 5, 7, 1, 0, 6]].iter().enumerate() {
        let all = vec![
            uvar("U").magic(b1(1)),
            var("A", Shape::Named, vec![tm(), fld("v", vec_(U8), vec![Dir::Count(v("t"))])]).magic(b1(2)),
            var("B", Shape::Tuple, vec![fld("", U16, vec![]), t0(), fld("", U8, vec![Dir::Calc(v("self_1"))])]).magic(b1(3)),
            uvar("W").magic(b1(4)),
            var("C", Shape::Named, vec![plain("p"), plain("q"), tm()]).magic(b1(5)),
            var("D", Shape::Tuple, vec![fld("", U8, vec![]), fld("", U16, vec![])]).magic(b1(6)),
            var("E", Shape::Named, vec![tm(), plain("p"), fld("s", U8, vec![Dir::Temp])]).magic(b1(7)),
            var("F", Shape::Tuple, vec![t0()]).magic(b1(8)),
        ];
        let vs: Vec<Variant> = order.iter().map(|j| all[*j].clone()).filter(|x| k % 2 == 0 || x.name != "F").collect();
        let r = u.def(en(&format!("Tv{}", k), top(), vs));
        u.root(root(r).max(8).starts(Starts::Few).note("temp in variants"));
    }
    // every expression is evaluated once
    let once: Vec<(Ty, Dir)> = vec![
        (ptr(P::U8, l1.clone()), Dir::Args(vec![tick(61, v("a"))])), (ptr(P::U8, lt_.clone()), Dir::ArgsTuple(vec![tick(61, v("a")), l(7)])), (opt(ptr(P::U8, l1.clone())), Dir::Args(vec![tick(61, v("a"))])), (vec_(l1.clone()), Dir::Args(vec![tick(61, v("a"))])), (l1.clone(), Dir::Args(vec![tick(61, v("a"))])),
        (vec_(U16), Dir::Count(tick(61, v("a")))), (ptr(P::U8, vec_(U8)), Dir::Count(tick(61, v("a")))), (vec_(ptr(P::U8, U8)), Dir::Count(tick(61, v("a")))),
        (ptr(P::U8, U8), Dir::Offset(tick(61, v("a")))), (ptr(P::U8, U8), Dir::OffsetAfter(tick(61, v("a")))), (tup(vec![ptr(P::U8, U8), ptr(P::U8, U8)]), Dir::OffsetAfter(tick(61, v("z")))),
        (ptr(P::U16, U16), Dir::IsBig(tick(61, eq(v("a"), l(1))))), (U16, Dir::IsLittle(tick(61, eq(v("a"), l(1))))),
        (U16, Dir::If(tick(61, eq(v("a"), l(1))), Some(tick(62, l(9))))), (opt(ptr(P::U8, U8)), Dir::If(tick(61, eq(v("a"), l(1))), None)), (U16, Dir::Calc(tick(61, v("a")))),
        (U16, Dir::PadBefore(tick(61, v("a")))), (U16, Dir::PadAfter(tick(61, v("a")))), (U16, Dir::AlignBefore(tick(61, add(v("a"), l(2))))), (U16, Dir::AlignAfter(tick(61, add(v("a"), l(2))))), (U16, Dir::PadSizeTo(tick(61, add(v("a"), l(2))))),
        (U16, Dir::SeekBefore(SeekE::Start(tick(61, v("a"))))), (ptr(P::U8, U8), Dir::SeekBefore(SeekE::Current(tick(61, v("a"))))),
    ];
    for (ty, d) in once {
        for more in [vec![], vec![Dir::DerefNow], vec![Dir::Try], vec![Dir::RestorePosition], vec![Dir::Temp]] {
            if matches!(d, Dir::OffsetAfter(_)) && matches!(more[..], [Dir::DerefNow]) { continue }
            if matches!(d, Dir::Calc(_)) && !more.is_empty() { continue }
            let is_try = matches!(more[..], [Dir::Try]);
            let ty = if is_try && !matches!(ty, Ty::Opt(_)) { opt(ty.clone()) } else { ty.clone() };
            if is_try && matches!(&d, Dir::If(_, Some(_))) { continue }
            let mut ds = vec![d.clone()];
            if matches!((&ty, &d), (Ty::Vec(_), Dir::Args(_))) || matches!((&ty, &d), (Ty::Opt(t), Dir::Args(_)) if matches!(**t, Ty::Vec(_))) { ds.push(Dir::Count(l(2))) }
            ds.extend(more);
            put(u, "once", top(), vec![a(), fld("x", ty, ds).dom(&[1, 6]), fld("z", U8, vec![]).dom(&[0, 2])]);
        }
    }
    // whatever the fields and arguments are called
    let sets: &[&[&str]] = &[
        &["islittle", "magic", "count", "offset", "restore", "assert", "pad_before", "align_after", "pad_size_to"],
        &["isbig", "args", "if", "pad_after", "align_before", "seek_cur", "assertmsg"],
        &["trymap", "if", "seek_start", "asserterr", "pad_size_to"],
        &["map", "little", "align_before", "pad_after"],
        &["offset", "deref_now", "argstuple", "pad_before", "restore"],
        &["offset_after", "try", "argstuple", "seek_end"],
        &["calc", "ifalt", "assertmsg", "align_after"],
        &["pw", "offset", "try", "pad_size_to"],
        &["temp", "trymap", "pad_size_to", "restore"],
    ];
    let names = ["reader", "pos", "options", "opt", "ro", "args", "endian", "value", "val", "res", "result", "error", "err", "e", "x", "r", "s", "map", "magic", "count", "offset", "align", "pad", "size", "temp", "saved", "before", "after", "position", "start", "name", "this", "f", "arr", "expected", "found", "condition", "test", "message", "cond", "core", "alloc", "std", "binread", "variant", "inner", "out", "data", "buf", "i", "n", "len", "it", "t", "b"];
    let two = u.def(st("Two", top().import(&[("p", P::U8), ("q", P::U16)]), vec![fld("g", U16, vec![]), fld("h", U16, vec![Dir::Calc(add(v("p"), v("q")))])]));
    for (k, nm) in names.iter().enumerate() {
        let other = names[(k + 7) % names.len()];
        for (j, tags) in sets.iter().enumerate() {
            if *nm == "x" && (tags.contains(&"map") || tags.contains(&"trymap")) { continue }
            // the field before by this name, the field itself by another (and the other way round)
            let (na, nx) = if (k + j) % 2 == 0 { (*nm, if other == "x" { "y" } else { other }) } else { (if other == "x" { "y" } else { other }, *nm) };
            let f = compose_as(tags, na, nx, "z").unwrap_or_else(|| panic!("{:?}", tags));
            put(u, &format!("names {} {}", na, nx), top(), vec![fld(na, U8, vec![]).dom(&[0, 1, 2]), f, fld("z", U8, vec![]).dom(&[1, 0xee])]);
            let q = u.roots.len() - 1;
            u.roots[q].max_len = 14;
            u.roots[q].starts = Starts::Zero;
        }
        // imported by this name: in every object-level directive
        if *nm == "x" { continue }
        let o = if other == "x" { "y" } else { other };
        let t = || top().import(&[(*nm, P::U8), (o, P::U16)]);
        let mut roots = vec![];
        for tr in [false, true] {
            roots.push(u.def(st(&format!("Nm{}{}", k, tr), t().map(MapTop { from: two.clone(), is_try: tr, arms: vec![], last: Ctor::Struct(vec![add(v("x.g"), add(mul(v(nm), l(3)), v(o)))]) }), vec![fld("v", U64, vec![])])));
            roots.push(u.def(en(&format!("Nv{}{}", k, tr), t().pre(bare(ne(v(nm), l(9)))).map(MapTop { from: two.clone(), is_try: tr, arms: vec![(lt(v("x.g"), v(o)), Ctor::Variant("A".into(), vec![v(nm)]))], last: if tr { Ctor::Fail(v(nm)) } else { Ctor::Variant("B".into(), vec![v("x.h"), v(o)]) } }), vec![var("A", Shape::Tuple, vec![fld("", U8, vec![])]), var("B", Shape::Named, vec![fld("p", U16, vec![]), fld("q", U16, vec![])])])));
        }
        roots.push(u.def(st(&format!("Np{}", k), t().pre(fmt(ne(v(nm), l(9)), "{}", vec![v(o)])).assert(aerr(ne(v(nm), v("g")), v(o))), vec![fld("g", U8, vec![]).dom(&[4, 5]), fld("h", U16, vec![Dir::Calc(add(v(nm), v(o)))])])));
        roots.push(u.def(en(&format!("Nr{}", k), t().repr(P::U8), vec![uvar("A").disc(1).pre(bare(eq(v(nm), l(4)))), uvar("B").disc(1).pre(bare(ne(v(o), l(0x8081)))), uvar("C").disc(2)].into_iter().enumerate().map(|(j, mut x)| { if j == 1 { x.disc = Some(3) } x }).collect())));
        roots.push(u.def(en(&format!("Ne{}", k), t(), vec![var("A", Shape::Named, vec![fld("g", U8, vec![Dir::Assert(bare(ne(v(nm), v("g"))))]).dom(&[4, 5])]).pre(bare(ne(v(o), l(3)))), var("B", Shape::Tuple, vec![fld("", U16, vec![Dir::Calc(v(o))])]).assert(bare(eq(v(nm), l(4))))])));
        for r in roots { for a in [[4i128, 0x8081], [9, 3]] { u.root(root(r.clone()).args(&a).max(3).entries(Entries::Be).starts(Starts::Zero).note("names")) } }
    }
    // many arguments
    let ps: Vec<(String, P)> = (0..12).map(|k| (format!("p{}", k), INTS[k % INTS.len()])).collect();
    let refs: Vec<(&str, P)> = ps.iter().map(|(a, b)| (a.as_str(), *b)).collect();
    let many = u.def(st("ManyP", top().import(&refs), ps.iter().map(|(n, p)| fld(&format!("f_{}", n), Ty::P(*p), vec![Dir::Calc(v(n))])).chain([fld("z", U8, vec![])]).collect()));
    put(u, "many", top(), vec![a(), fld("x", many.clone(), vec![Dir::Args((0..12).map(|k| add(v("a"), l(k * 9 + 1))).collect())]), z()]);
    u.root(root(many).args(&(0..12).map(|k| k * 10 + 3).collect::<Vec<_>>()).max(2).note("root"));
    // earlier fields and imports are visible in every directive
    put(u, "sees", top().import(&[("k", P::U8)]), vec![a(), fld("b", U8, vec![Dir::Temp]).dom(&[1, 2]), fld("x", vec_(U8), vec![Dir::Count(add(v("a"), v("k")))]), fld("y", U16, vec![Dir::PadBefore(v("b")), Dir::IsLittle(eq(v("b"), v("k")))]), fld("w", U16, vec![Dir::SeekBefore(SeekE::Start(add(v("b"), len("x")))), Dir::RestorePosition, Dir::Assert(bare(ne(v("w"), v("k"))))]), fld("q", l1.clone(), vec![Dir::Args(vec![add(v("b"), v("k"))])]), z()]);
    let last = u.roots.pop().unwrap();
    for k in 0..3 { u.root(last.clone().args(&[k])) }
}
fn rename(d: &Dir, a: &str, b: &str) -> Dir {
    fn e(x: &E, a: &str, b: &str) -> E {
        match x {
            E::V(n) if n == a => E::V(b.into()),
            E::Len(n) if n == a => E::Len(b.into()),
            E::Bin(o, x, y) => E::Bin(*o, Box::new(e(x, a, b)), Box::new(e(y, a, b))),
            E::Not(x) => E::Not(Box::new(e(x, a, b))),
            E::Tick(n, x) => E::Tick(*n, Box::new(e(x, a, b))),
            x => x.clone(),
        }
    }
    match d {
        Dir::Calc(x) => Dir::Calc(e(x, a, b)),
        Dir::If(x, y) => Dir::If(e(x, a, b), y.as_ref().map(|y| e(y, a, b))),
        Dir::IfSome(x, y) => Dir::IfSome(e(x, a, b), e(y, a, b)),
        Dir::Count(x) => Dir::Count(e(x, a, b)),
        d => d.clone(),
    }
}

// ------------------------------------------------------------------------- C15
fn try_types(u: &mut Universe) -> Vec<(&'static str, Ty, Vec<Dir>, Option<Vec<i128>>)> {
    let s = u.def(st("Ts", top().magic(b1(0x21)), vec![fld("p", U16, vec![]), fld("q", U8, vec![Dir::Assert(ne_assert("q", 4))]).dom(&[3, 4])]));
    let t = u.def(tst("Tt", top(), vec![fld("", U8, vec![Dir::PadAfter(l(1))]), fld("", U16, vec![Dir::Assert(ne_assert("self_1", 4))]).dom(&[3, 4])]));
    let e = u.def(en("Te", top(), vec![var("A", Shape::Tuple, vec![fld("", U8, vec![Dir::Assert(ne_assert("self_0", 4))]).dom(&[3, 4])]), var("B", Shape::Named, vec![fld("x", U16, vec![Dir::Assert(ne_assert("x", 0x0404))]).dom(&[0x0404, 3])])]));
    let r = u.def(en("Tr", top().repr(P::U16), vec![uvar("A").disc(1), uvar("B").disc(2)]));
    let m = u.def(en("Tm", top(), vec![uvar("A").magic(Lit::Str(b"ab".to_vec())), uvar("B").magic(Lit::Str(b"cd".to_vec()))]));
    let q = u.def(st("Tq", top(), vec![fld("x", U8, vec![Dir::SeekBefore(SeekE::Current(l(3)))]), fld("y", U8, vec![Dir::Assert(bare(E::B(false)))])]));
    let w = u.def(ust("Tw", top().magic(i(0x0102, P::U16))));
    vec![
        ("u8", U8, vec![], None), ("u16", U16, vec![], None), ("u32", Ty::P(P::U32), vec![], None), ("u64", Ty::P(P::U64), vec![], None), ("f32", F32, vec![], None), ("char", Ty::P(P::Char), vec![], None),
        ("arr", arr(U16, 2), vec![], None), ("tup", tup(vec![U8, U16, U8]), vec![], None), ("vec", vec_(U16), vec![Dir::Count(l(2))], None), ("vec3", vec_(s.clone()), vec![Dir::Count(l(2))], None),
        ("nstr", Ty::NStr, vec![], None), ("wstr", Ty::WStr, vec![], None), ("nz16", Ty::Nz16, vec![], None),
        ("struct", s.clone(), vec![], None), ("tuple", t, vec![], None), ("enum", e.clone(), vec![], None), ("repr", r, vec![], None), ("umagic", m, vec![], None), ("seeker", q, vec![], None), ("unit", w, vec![], None),
        ("opt", opt(s.clone()), vec![], None), ("box", bx(tup(vec![U8, s.clone()])), vec![], None), ("pos", posv(tup(vec![U8, U16])), vec![], None),
        ("pw", U16, vec![Dir::ParseWith(PW::U16)], None), ("pwfail", U16, vec![Dir::ParseWith(PW::FailAfter(2))], None), ("pwfail0", U16, vec![Dir::ParseWith(PW::FailAfter(0))], None),
        ("until", vec_(U8), vec![Dir::ParseWith(PW::Until(eq(deref("x"), l(0))))], Some(vec![0, 1])), ("untilex", vec_(U16), vec![Dir::ParseWith(PW::UntilEx(eq(deref("x"), l(0))))], Some(vec![0, 1])),
        ("count", vec_(U16), vec![Dir::ParseWith(PW::Count(l(2)))], None), ("bytes", vec_(U8), vec![Dir::ParseWith(PW::ReadBytes), Dir::Count(l(3))], None),
        ("pun", punct(U8, s.clone()), vec![Dir::ParseWith(PW::PunctTrail), Dir::Count(l(2))], None), ("parse", s.clone(), vec![Dir::ParseWith(PW::PtrParse(P::U8))], Some(vec![0, 200])),
        ("now", ptr(P::U8, U8), vec![Dir::DerefNow], Some(vec![0, 1])), ("ptr", ptr(P::U16, U8), vec![], Some(vec![0, 1])), ("vptr", vec_(ptr(P::U8, U8)), vec![Dir::Count(l(2))], Some(vec![1])),
        ("default", U16, vec![Dir::Default], None), ("calc", U16, vec![Dir::Calc(l(6))], None),
    ]
}
fn tries(u: &mut Universe, thorough: bool) {
    let _ = thorough;
    let tys = try_types(u);
    let mut n = 0;
    for (nm, ty, dirs, dom) in &tys {
        let mk = |name: &str, extra: &[Dir]| {
            let mut d = vec![Dir::Try];
            d.extend(dirs.clone());
            d.extend(extra.iter().cloned());
            let mut f = fld(name, opt(ty.clone()), d);
            f.dom = dom.clone();
            f
        };
        let z = || fld("z", posv(U8), vec![]);
        let mut put = |u: &mut Universe, note: &str, t: Top, fs: Vec<Field>| { let r = u.def(st(&format!("S{}", n), t, fs)); n += 1; u.root(root(r).max(12).starts(Starts::Few).note(&format!("{} {}", nm, note))) };
        put(u, "mid", top(), vec![fld("h", U8, vec![]), mk("x", &[]), z()]);
        put(u, "last", top(), vec![fld("h", U8, vec![]), mk("x", &[])]);
        put(u, "twice", top(), vec![mk("x", &[]), mk("y", &[Dir::Little]), fld("t", opt(U8), vec![Dir::Try])]);
        put(u, "pad", top(), vec![fld("h", U8, vec![]), mk("x", &[Dir::PadBefore(l(1)), Dir::PadAfter(l(1))]), fld("t", opt(posv(U8)), vec![Dir::Try])]);
        put(u, "seek", top(), vec![fld("h", U8, vec![]), mk("x", &[Dir::SeekBefore(SeekE::Start(l(2))), Dir::AlignBefore(l(2)), Dir::PadSizeTo(l(3))]), fld("t", opt(posv(U8)), vec![Dir::Try])]);
        put(u, "restore", top(), vec![fld("h", U8, vec![]), mk("x", &[Dir::RestorePosition]), z()]);
        put(u, "if", top(), vec![fld("h", U8, vec![]).dom(&[0, 1]), mk("x", &[Dir::If(eq(v("h"), l(1)), None)]), z()]);
        put(u, "temp", top(), vec![fld("h", U8, vec![]), mk("x", &[Dir::Temp]), z()]);
        if !dirs.iter().any(|d| matches!(d, Dir::Default | Dir::Calc(_))) { put(u, "magic", top(), vec![fld("h", U8, vec![]), mk("x", &[Dir::Magic(b1(0x44))]), z()]); }
        let r = u.def(en(&format!("E{}", n), top(), vec![var("A", Shape::Named, vec![mk("x", &[]), fld("g", U8, vec![Dir::Assert(ne_assert("g", 0x55))])]), var("B", Shape::Named, vec![mk("y", &[]), fld("g", U8, vec![])])]));
        u.root(root(r).max(9).starts(Starts::Zero).note(&format!("{} variant", nm)));
    }
}

// ------------------------------------------------------------------------- C16
fn maps(u: &mut Universe, _thorough: bool) {
    let s = u.def(st("Src", top().big(), vec![fld("p", U16, vec![]), fld("q", U8, vec![Dir::Assert(ne_assert("q", 4))]).dom(&[3, 4])]));
    let im = u.def(st("Imp", top().import(&[("k", P::U8)]), vec![fld("v", U8, vec![Dir::Calc(v("k"))]), fld("w", U8, vec![])]));
    let srcs: Vec<(&str, Ty, Vec<Dir>, E)> = vec![
        ("u8", U8, vec![], v("x")), ("u16", U16, vec![], v("x")), ("i64", Ty::P(P::I64), vec![], v("x")), ("u128", Ty::P(P::U128), vec![], v("x")), ("f32", F32, vec![], v("x")), ("char", Ty::P(P::Char), vec![], v("x")),
        ("tup", tup(vec![U8, U16]), vec![], add(v("x.0"), mul(v("x.1"), l(3)))),
        ("arr", arr(U16, 2), vec![], sub(v("x[0]"), v("x[1]"))),
        ("vec", vec_(U16), vec![Dir::Count(v("a"))], len("x")),
        ("nstr", Ty::NStr, vec![], len("x")), ("wstr", Ty::WStr, vec![], len("x")),
        ("struct", s.clone(), vec![], sub(v("x.p"), v("x.q"))),
        ("imp", im.clone(), vec![Dir::Args(vec![add(v("a"), l(20))])], add(v("x.v"), v("x.w"))),
        ("pw", U16, vec![Dir::ParseWith(PW::U16)], v("x")),
        ("pos", posv(U16), vec![], add(v("x.val"), v("x.pos"))),
    ];
    let mut n = 0;
    for (nm, ty, dirs, e) in &srcs {
        if *nm == "pos" { continue }
        for cap in [false, true] {
            for kind in 0..3 {
                let to = if cap { add(e.clone(), v("a")) } else { add(e.clone(), l(1)) };
                // the outcome of the function depends on an earlier field
                let m = match kind { 0 => mapf(ty.clone(), to, P::I64), 1 => tmapf(ty.clone(), to, P::I64, if cap { eq(v("a"), l(1)) } else { eq(e.clone(), l(3)) }, MapFail::Custom(if cap { v("a") } else { e.clone() })), _ => tmapf(ty.clone(), to, P::I64, if cap { eq(v("a"), l(1)) } else { ne(e.clone(), l(3)) }, MapFail::Io) };
                let d = if kind == 0 { Dir::Map(m) } else { Dir::TryMap(m) };
                for extra in [vec![], vec![Dir::Little], vec![Dir::PadBefore(l(1)), Dir::PadAfter(l(1)), Dir::RestorePosition], vec![Dir::If(ne(v("a"), l(2)), Some(l(77)))], vec![Dir::Magic(b1(6)), Dir::Assert(bare(ne(v("x"), l(4))))], vec![Dir::SeekBefore(SeekE::Start(l(2))), Dir::Temp]] {
                    if cap && extra.len() == 1 && matches!(extra[0], Dir::Little) { continue }
                    let mut ds = vec![d.clone()];
                    ds.extend(dirs.clone());
                    ds.extend(extra);
                    let dom: Option<Vec<i128>> = match ty { Ty::P(p) if p.is_int() => Some(vec![3, 4, 200]), _ => None };
                    let mut f = fld("x", Ty::P(P::I64), ds);
                    f.dom = dom;
                    let r = u.def(st(&format!("S{}", n), top(), vec![fld("a", U8, vec![]).dom(&[0, 1, 2]), f, fld("z", posv(U8), vec![])]));
                    n += 1;
                    u.root(root(r).max(12).starts(Starts::Few).note(nm));
                }
            }
        }
    }
    // object level
    let arms = |e: &E, io: bool| vec![if io { (eq(e.clone(), l(4)), Ctor::FailIo) } else { (eq(e.clone(), l(3)), Ctor::Fail(add(e.clone(), l(50)))) }];
    for (nm, ty, dirs, e) in &srcs {
        if !dirs.is_empty() || *nm == "pos" { continue }
        let ends = [None, Some(End::Big), Some(End::Little)];
        for (k, ed) in ends.into_iter().enumerate() {
            for (mk, mag) in [None, Some(i(0x0203, P::U16))].into_iter().enumerate() {
                let mut t = top().end(ed);
                t.magic = mag;
                let mut put = |u: &mut Universe, d: Def| { let r = u.def(d); u.root(root(r).max(18).starts(Starts::Few).note(nm)) };
                put(u, st(&format!("M{}_{}_{}", nm, k, mk), t.clone().map(MapTop { from: ty.clone(), is_try: false, arms: vec![], last: Ctor::Struct(vec![e.clone()]) }), vec![fld("v", Ty::P(P::I64), vec![])]));
                put(u, tst(&format!("Mt{}_{}_{}", nm, k, mk), t.clone().map(MapTop { from: ty.clone(), is_try: true, arms: arms(e, k == 2), last: Ctor::Struct(vec![e.clone()]) }), vec![fld("", Ty::P(P::I64), vec![])]));
                put(u, en(&format!("Me{}_{}_{}", nm, k, mk), t.clone().map(MapTop { from: ty.clone(), is_try: k == 1, arms: vec![(lt(e.clone(), l(100)), Ctor::Variant("A".into(), vec![e.clone()])), (lt(e.clone(), l(30000)), Ctor::Variant("B".into(), vec![]))], last: Ctor::Variant("C".into(), vec![l(1), e.clone()]) }), vec![var("A", Shape::Tuple, vec![fld("", Ty::P(P::I64), vec![])]), uvar("B"), var("C", Shape::Named, vec![fld("k", U8, vec![]), fld("w", Ty::P(P::I64), vec![])])]));
            }
        }
        if *nm != "u16" { continue }
        // pre-assertions of what is mapped, over its arguments; they are passed on to what it is mapped from
        for (mk, mag) in [None, Some(b1(6))].into_iter().enumerate() {
            for is_try in [false, true] {
                let mut t = top().import(&[("k", P::U8)]);
                t.magic = mag.clone();
                let arms = || if is_try { vec![(eq(add(v("x.v"), v("x.w")), l(9)), Ctor::Fail(v("k")))] } else { vec![] };
                let m = |last: Ctor| MapTop { from: im.clone(), is_try, arms: arms(), last };
                let e = add(mul(v("x.v"), l(1000)), v("x.w"));
                let pre = || [fmt(tick(1, ne(v("k"), l(1))), "k is {}", vec![v("k")]), aerr(tick(2, ne(v("k"), l(2))), v("k"))];
                let mut roots = vec![];
                for which in 0..3 {
                    let mut t = t.clone();
                    for (j, p) in pre().into_iter().enumerate() { if which == 2 || which == j { t = t.pre(p) } }
                    roots.push(u.def(st(&format!("Ps{}{}{}", mk, is_try, which), t.clone().map(m(Ctor::Struct(vec![e.clone()]))), vec![fld("v", Ty::P(P::I64), vec![])])));
                    roots.push(u.def(tst(&format!("Pt{}{}{}", mk, is_try, which), t.clone().map(m(Ctor::Struct(vec![e.clone()]))), vec![fld("", Ty::P(P::I64), vec![])])));
                    roots.push(u.def(en(&format!("Pe{}{}{}", mk, is_try, which), t.map(MapTop { arms: { let mut a = arms(); a.push((lt(v("x.w"), l(100)), Ctor::Variant("B".into(), vec![]))); a }, ..m(Ctor::Variant("A".into(), vec![e.clone()])) }), vec![var("A", Shape::Tuple, vec![fld("", Ty::P(P::I64), vec![])]), uvar("B")])));
                }
                for (j, r) in roots.into_iter().enumerate() {
                    for k in 0..5 { u.root(root(r.clone()).args(&[k]).max(4).starts(Starts::Few).note("pre-assertions")) }
                    let o = u.def(st(&format!("Po{}{}{}", mk, is_try, j), top(), vec![fld("a", U8, vec![]).dom(&[0, 1, 2, 8]), fld("m", r.clone(), vec![Dir::Args(vec![v("a")])]), fld("t", opt(r), vec![Dir::Try, Dir::Args(vec![l(1)])]), fld("z", posv(U8), vec![])]));
                    u.root(root(o).max(9).starts(Starts::Zero).note("pre-assertions"));
                }
            }
        }
    }
    for (nm, _, dirs, _) in &srcs {
        if !dirs.is_empty() || *nm == "pos" { continue }
        // embedded: what follows is read from right behind the mapped type
        let t = Ty::User(format!("M{}_1_1", nm));
        let t2 = Ty::User(format!("Mt{}_0_0", nm));
        let r = u.def(st(&format!("Emb{}", nm), top(), vec![fld("a", U8, vec![]), fld("m", t.clone(), vec![Dir::Little]), fld("o", opt(t2.clone()), vec![Dir::Try]), fld("v", vec_(t2), vec![Dir::Count(l(1)), Dir::Big]), fld("z", posv(U8), vec![])]));
        u.root(root(r).max(60).starts(Starts::Zero).note(nm));
    }
}

// ------------------------------------------------------------------------- C24
fn primitives(u: &mut Universe, _thorough: bool) {
    for p in ALL_P {
        let w = p.width() * 8;
        let mut dom: Vec<i128> = vec![];
        let mut addv = |x: i128| {
            let x = match p { P::F32 | P::F64 | P::Char => x, _ => p.wrap(x) };
            if !dom.contains(&x) { dom.push(x) }
        };
        addv(0x0102030405060708090a0b0c0d0e0f10u128 as i128);
        for b in 0..w { addv(1i128 << b); addv(!(1i128 << b)); }
        addv(0);
        addv(-1);
        if p == P::F32 { for x in [0x7f800001u32, 0x7fc00000, 0xff800001, 0xffc12345, 0x80000000, 0x7f800000, 1] { addv(x as i128) } }
        if p == P::F64 { for x in [0x7ff0000000000001u64, 0x7ff8000000000000, 0xfff0000000000001, 0x8000000000000000, 1] { addv(x as i128) } }
        if w == 8 { for x in 0..256 { addv(x) } }
        u.root(root(Ty::P(p)).dom(&dom).max(p.width() as u64 + 1).entries(Entries::All).starts(Starts::All).note(p.rust()));
        u.root(root(Ty::P(p)).dom(&dom).max(p.width() as u64 + 1).offset(9).starts(Starts::Few).note(p.rust()));
        // as a field, in an array, a vector, a tuple: same decoding
        let r = u.def(st(&format!("F{}", p.rust()), top(), vec![fld("h", U8, vec![]), fld("x", Ty::P(p), vec![]).dom(&dom[..(2 * w + 1).min(dom.len())]), fld("z", posv(U8), vec![])]));
        u.root(root(r).max(20).starts(Starts::Few).note("field"));
    }
    for t in [Ty::Unit, Ty::Phantom] { u.root(root(t).max(1).entries(Entries::All).note("nothing")) }
}

// ------------------------------------------------------------------------- C01, C04, C05, C23: control flow
/// declarations with as many different ways of failing and of moving the reader as possible
fn flow(u: &mut Universe, thorough: bool) {
    let leaf = u.def(st("Leaf", top().magic(i(0x0a0b, P::U16)), vec![fld("p", U8, vec![]), fld("q", U16, vec![Dir::Assert(ne_assert("q", 3))]).dom(&[3, 4])]));
    let un = u.def(ust("Un", top().magic(Lit::Str(b"xy".to_vec()))));
    let up = u.def(ust("Upre", top().pre(bare(E::B(false)))));
    let en1 = u.def(en("En", top(), vec![
        var("A", Shape::Tuple, vec![fld("", U8, vec![]), fld("", U8, vec![Dir::Assert(ne_assert("self_1", 1))]).dom(&[1, 2])]),
        var("B", Shape::Named, vec![fld("x", U16, vec![Dir::SeekBefore(SeekE::Current(l(1)))]), fld("y", U8, vec![Dir::Assert(ne_assert("y", 1))]).dom(&[1, 2])]),
    ]));
    let en2 = u.def(en("EnU", top().mode(ErrMode::Unexpected).magic(b1(7)), vec![var("A", Shape::Tuple, vec![fld("", leaf.clone(), vec![])]), uvar("U").pre(bare(E::B(false)))]));
    let rep = u.def(en("Rep", top().repr(P::U16), vec![uvar("A").disc(1), uvar("B").disc(2)]));
    let um = u.def(en("Um", top(), vec![uvar("A").magic(b1(1)), uvar("B").magic(b1(2))]));
    let mp = u.def(st("Mp", top().map(MapTop { from: tup(vec![U8, U16]), is_try: true, arms: vec![(eq(v("x.1"), l(0)), Ctor::Fail(l(4)))], last: Ctor::Struct(vec![v("x.1")]) }), vec![fld("v", U16, vec![])]));
    let im = u.def(st("Im", top().import(&[("k", P::U8)]).pre(bare(ne(v("k"), l(1)))), vec![fld("v", U8, vec![]), fld("w", U8, vec![Dir::Assert(bare(ne(v("w"), v("k"))))]).dom(&[1, 2])]));
    let sa = u.def(st("Sa", top().assert(msg(ne(v("v"), l(1)), "one")), vec![fld("u", U16, vec![]), fld("v", U8, vec![]).dom(&[1, 2])]));
    let pt = u.def(st("Pt", top(), vec![fld("h", U8, vec![]), fld("p", ptr(P::U8, leaf.clone()), vec![]).dom(&[1, 40]), fld("n", ptr(P::I8, U16), vec![Dir::DerefNow]).dom(&[-1, 2])]));
    for t in [&leaf, &un, &up, &en1, &en2, &rep, &um, &mp, &sa, &pt] { u.root(root(t.clone()).max(9).starts(Starts::Few).note("base")) }
    u.root(root(im.clone()).args(&[1]).max(4).note("base"));
    u.root(root(im.clone()).args(&[2]).max(4).note("base"));
    // each of these as a field in each kind of container, after something and before something
    let bases: Vec<(&str, Ty, Vec<Dir>)> = vec![
        ("u16", U16, vec![]), ("leaf", leaf.clone(), vec![]), ("un", un.clone(), vec![]), ("en", en1.clone(), vec![]), ("enu", en2.clone(), vec![]), ("rep", rep.clone(), vec![]), ("um", um.clone(), vec![]), ("mp", mp.clone(), vec![]), ("im", im.clone(), vec![Dir::Args(vec![l(2)])]), ("sa", sa.clone(), vec![]), ("pt", pt.clone(), vec![]), ("nstr", Ty::NStr, vec![]), ("wstr", Ty::WStr, vec![]),
    ];
    let conts: Vec<(&str, fn(Ty) -> Ty, Vec<Dir>)> = vec![
        ("plain", |t| t, vec![]), ("opt", opt, vec![]), ("bx", bx, vec![]), ("pos", posv, vec![]), ("vec", vec_, vec![Dir::Count(l(2))]), ("ptr", |t| ptr(P::U8, t), vec![]), ("now", |t| ptr(P::U8, t), vec![Dir::DerefNow]), ("parse", |t| t, vec![Dir::ParseWith(PW::PtrParse(P::U8))]),
        ("count", vec_, vec![Dir::ParseWith(PW::Count(l(2)))]), ("eof", vec_, vec![Dir::ParseWith(PW::UntilEof)]), ("pun", |t| punct(t, U8), vec![Dir::ParseWith(PW::PunctSep), Dir::Count(l(2))]), ("try", opt, vec![Dir::Try]),
    ];
    let mut n = 0;
    for (bn, b, bd) in &bases {
        for (cn, w, cd) in &conts {
            // strings end at the end of the data, too: without it there is no end
            if *cn == "eof" && bn.ends_with("str") { continue }
            let mut d = bd.clone();
            d.extend(cd.clone());
            let mut f = fld("x", w(b.clone()), d);
            if matches!(*cn, "ptr" | "now" | "parse") { f = f.dom(&[2]) }
            let mut fs = vec![fld("h", U8, vec![]), f];
            if *cn != "eof" { fs.push(fld("z", U8, vec![Dir::Assert(ne_assert("z", 1))]).dom(&[1, 2])) }
            let r = u.def(st(&format!("C{}", n), top(), fs));
            n += 1;
            u.root(root(r).max(match (*cn, *bn) { ("eof", "um") => 5, ("eof", _) => 6, _ => 11 }).starts(Starts::Few).note(&format!("{} {}", bn, cn)));
        }
    }
    for (bn, b, bd) in &bases {
        if !bd.is_empty() { continue }
        let r = u.def(st(&format!("C{}", n), top(), vec![fld("x", tup(vec![U8, b.clone(), U8]), vec![])]));
        n += 1;
        u.root(root(r).max(11).starts(Starts::Zero).note(&format!("{} tup", bn)));
    }
    // each directive by itself: every step can fail
    let tags: Vec<Vec<&str>> = MENU.iter().map(|t| vec![*t]).chain([vec!["count", "offset"], vec!["try", "count"], vec!["restore", "magic"], vec!["magic", "pad_before"], vec!["trymap", "pad_after"], vec!["if", "magic"], vec!["seek_end", "align_after"], vec!["temp", "deref_now"], vec!["try", "deref_now"]]).collect();
    for t in &tags {
        if let Some(f) = compose(t) {
            let d = with_field(&format!("C{}", n), f);
            n += 1;
            let r = u.def(d);
            u.root(root(r).max(12).starts(Starts::Few).note(&t.join("+")));
        }
    }
    // deep nesting: fails at the bottom, three levels of enums and pointers
    let d1 = u.def(en("D1", top(), vec![var("X", Shape::Named, vec![fld("a", leaf.clone(), vec![]), fld("b", U8, vec![])]), var("Y", Shape::Named, vec![fld("p", ptr(P::U8, en1.clone()), vec![]).dom(&[2])])]));
    let d2 = u.def(st("D2", top(), vec![fld("h", U8, vec![]), fld("d", d1.clone(), vec![Dir::RestorePosition]), fld("e", d1.clone(), vec![]), fld("z", U8, vec![])]));
    u.root(root(d2.clone()).max(12).starts(Starts::Few).note("deep"));
    if thorough {
        let d3 = u.def(en("D3", top(), vec![var("P", Shape::Tuple, vec![fld("", d2.clone(), vec![]), fld("", d1.clone(), vec![])]), var("Q", Shape::Tuple, vec![fld("", vec_(d1.clone()), vec![Dir::Count(l(2))])])]));
        u.root(root(d3).max(14).starts(Starts::Zero).note("deep"));
    }
}

// ------------------------------------------------------------------------- C18
fn configs(u: &mut Universe, thorough: bool) {
    // a cross-section of the other universes
    let mut v = Universe::default();
    let mut n = 0;
    for (name, f, every) in [("a", layout as fn(&mut Universe, bool), 5usize), ("b", byte_order, 7), ("d", pointers, 9), ("e", enums, 7), ("f", placement, 23), ("g", flow, 4), ("h", tries, 9), ("i", maps, 11), ("j", wiring, 7), ("k", strings, 1), ("l", collections, 3), ("m", unit_enums, 9)] {
        let mut w = Universe::default();
        f(&mut w, false);
        merge(&mut v, w, name, if thorough { 1.max(every / 3) } else { every }, Starts::Zero);
        n += 1;
    }
    let _ = n;
    *u = v;
}
/// the declarations made for control flow, and a cross-section of all the others
fn flow_wide(u: &mut Universe, thorough: bool) {
    flow(u, thorough);
    cross(u, thorough, 1);
}
/// the declarations made for histories, and fewer of all the others
fn histories_wide(u: &mut Universe, thorough: bool) {
    histories(u, thorough);
    cross(u, thorough, 2);
}
fn cross(u: &mut Universe, thorough: bool, rarer: usize) {
    for (name, f, every) in [("xa", layout as fn(&mut Universe, bool), 13usize), ("xb", byte_order, 23), ("xc", magics, 17), ("xd", pointers, 11), ("xe", enums, 13), ("xf", placement, 37), ("xg", assertions, 11), ("xh", tries, 11), ("xi", maps, 7), ("xj", wiring, 7), ("xk", strings, 4), ("xl", collections, 7), ("xm", unit_enums, 13)] {
        let mut w = Universe::default();
        f(&mut w, false);
        merge(u, w, name, rarer * if thorough { 1.max(every / 3) } else { every }, Starts::Three);
    }
}
/// adds every k-th root of w with what it needs, renamed
fn merge(u: &mut Universe, w: Universe, pre: &str, every: usize, starts: Starts) {
    let mut need: Vec<String> = vec![];
    let mut roots = vec![];
    for (k, r) in w.roots.iter().enumerate() {
        if k % every != 0 || r.note == "long" { continue }
        needs(&w, &r.ty, &mut need);
        roots.push(r.clone());
    }
    for d in &w.defs {
        if !need.contains(&d.name) { continue }
        let mut d = d.clone();
        d.name = format!("{}{}", pre, d.name);
        each_ty(&mut d, &mut |t| ren(t, pre));
        u.def(d);
    }
    for mut r in roots { ren(&mut r.ty, pre); r.starts = starts; if starts == Starts::Three && r.entries == Entries::BeLe { r.entries = Entries::Be } if r.max_len > 40 { r.max_len = 40 } u.root(r) }
}
fn ren(t: &mut Ty, pre: &str) {
    match t {
        Ty::User(n) => *n = format!("{}{}", pre, n),
        Ty::Arr(t, _) | Ty::Vec(t) | Ty::Deq(t) | Ty::Opt(t) | Ty::Bx(t) | Ty::Ptr(_, t) | Ty::Pos(t) => ren(t, pre),
        Ty::Punct(a, b) => { ren(a, pre); ren(b, pre) }
        Ty::Tup(ts) => for t in ts { ren(t, pre) },
        _ => {}
    }
}
fn each_ty(d: &mut Def, f: &mut dyn FnMut(&mut Ty)) {
    if let Some(m) = &mut d.top.map { f(&mut m.from) }
    let mut fields: Vec<&mut Field> = vec![];
    match &mut d.kind { Kind::Struct(_, fs) => fields.extend(fs), Kind::Enum(vs) => for x in vs { fields.extend(&mut x.fields) } }
    for x in fields {
        f(&mut x.ty);
        for d in &mut x.dirs { if let Dir::Map(m) | Dir::TryMap(m) = d { f(&mut m.from) } }
    }
}
fn needs(u: &Universe, t: &Ty, out: &mut Vec<String>) {
    match t {
        Ty::User(n) => {
            if out.contains(n) { return }
            out.push(n.clone());
            let mut d = u.get(n).clone();
            let mut tys = vec![];
            each_ty(&mut d, &mut |t| tys.push(t.clone()));
            for t in tys { needs(u, &t, out) }
        }
        Ty::Arr(t, _) | Ty::Vec(t) | Ty::Deq(t) | Ty::Opt(t) | Ty::Bx(t) | Ty::Ptr(_, t) | Ty::Pos(t) => needs(u, t, out),
        Ty::Punct(a, b) => { needs(u, a, out); needs(u, b, out) }
        Ty::Tup(ts) => for t in ts { needs(u, t, out) },
        _ => {}
    }
}

// ------------------------------------------------------------------------- C21
fn templates(u: &mut Universe, thorough: bool) {
    let mut all = Universe::default();
    for (name, f, every) in [("g", flow as fn(&mut Universe, bool), 2usize), ("a", layout, 9), ("b", byte_order, 23), ("d", pointers, 17), ("e", enums, 17), ("f", placement, 53), ("i", maps, 29), ("j", wiring, 19), ("k", strings, 2), ("l", collections, 5), ("m", unit_enums, 23), ("n", primitives, 1)] {
        let mut w = Universe::default();
        f(&mut w, false);
        merge(&mut all, w, name, if thorough { 1.max(every / 3) } else { every }, Starts::Zero);
    }
    *u = all;
    // every base type in every pair of containers, as a named field, a tuple field and a variant's field
    let leaf = u.def(st("Leaf", top(), vec![fld("p", U8, vec![]), fld("q", U16, vec![Dir::Little])]));
    let tl = u.def(tst("Tl", top().big().magic(i(0x0102, P::U16)), vec![fld("", U8, vec![]), fld("", U16, vec![])]));
    let un = u.def(ust("Un", top().magic(b1(7))));
    let en1 = u.def(en("En", top(), vec![var("A", Shape::Named, vec![fld("x", U8, vec![Dir::Assert(ne_assert("x", 1))]).dom(&[1, 2]), fld("l", leaf.clone(), vec![])]), var("B", Shape::Tuple, vec![fld("", U16, vec![])]), uvar("C")]));
    let rep = u.def(en("Rep", top().repr(P::U16), vec![uvar("A").disc(1), uvar("B").disc(2)]));
    let um = u.def(en("Um", top().little(), vec![uvar("A").magic(i(1, P::U16)), uvar("B").magic(i(2, P::U16))]));
    let ums = u.def(en("Ums", top().magic(b1(3)), vec![uvar("A").magic(Lit::Str(b"ab".to_vec())), uvar("B").magic(Lit::Str(b"cd".to_vec()))]));
    let mp = u.def(st("Mp", top().big().map(MapTop { from: leaf.clone(), is_try: false, arms: vec![], last: Ctor::Struct(vec![v("x.q")]) }), vec![fld("v", U16, vec![])]));
    let em = u.def(st("Emp", top().assert(bare(E::B(true))), vec![]));
    let bases = [U8, U16, F32, Ty::P(P::Char), Ty::P(P::I128), leaf, tl, un, en1, rep, um, ums, mp, em, Ty::NStr, Ty::WStr, Ty::Nz8, Ty::Nz16, Ty::Unit];
    let conts: [(fn(Ty) -> Ty, bool); 8] = [(|t| t, false), (opt, false), (bx, false), (posv, false), (vec_, true), (|t| ptr(P::U16, t), false), (|t| arr(t, 2), false), (|t| tup(vec![U8, t, U16]), false)];
    let mut n = 0;
    for b in bases {
        for (i1, (c1, k1)) in conts.iter().enumerate() {
            for (i2, (c2, k2)) in conts.iter().enumerate() {
                if i1 == 0 && i2 > 0 { continue }
                // the count reaches the outer vector only; arrays without const generics need defaults
                if *k1 && *k2 || i1 == 4 && i2 != 0 || i2 == 6 && !matches!(b, Ty::P(_) | Ty::NStr | Ty::WStr | Ty::Nz8 | Ty::Nz16 | Ty::Unit) || i1 == 6 && !(i2 == 0 && matches!(b, Ty::P(_))) && !matches!(i2, 1) { continue }
                if i1 == 6 && i2 == 0 && !matches!(b, Ty::P(_)) { continue }
                if i2 == 4 && i1 == 6 { continue }
                let t = c1(c2(b.clone()));
                if i1 > 0 && i2 > 0 && (n + i1 * 3 + i2) % if thorough { 1 } else { 5 } != 0 { continue }
                let mut d = vec![];
                if *k1 || *k2 { d.push(Dir::Count(l(2))) }
                if (n + i1) % 3 == 0 { d.push(Dir::Big) }
                if i1 == 5 && i2 != 4 && n % 2 == 0 { d.push(Dir::DerefNow) }
                let mut f = fld("x", t, d);
                if i1 == 5 || i2 == 5 { f = f.dom(&[3]) }
                let fs = vec![fld("h", U8, vec![Dir::PadAfter(l(1))]), f, fld("z", U16, vec![])];
                let r = match n % 3 {
                    0 => u.def(st(&format!("K{}", n), top(), fs)),
                    1 => u.def(tst(&format!("K{}", n), top().little(), fs)),
                    _ => u.def(en(&format!("K{}", n), top(), vec![var("N", Shape::Named, vec![fld("b", U8, vec![Dir::Magic(b1(9))])]), var("V", Shape::Named, fs)])),
                };
                n += 1;
                u.root(root(r).max(24).starts(Starts::Zero).note("containers"));
            }
        }
    }
    for r in &mut u.roots { if r.entries == Entries::BeLe { r.entries = Entries::All } }
}

// ------------------------------------------------------------------------- C19
fn hostile(u: &mut Universe, _thorough: bool) {
    let leaf = u.def(st("Leaf", top(), vec![fld("a", U8, vec![]), fld("b", U16, vec![])]));
    let emp = u.def(st("Em", top().magic(b1(1)), vec![fld("a", vec_(U8), vec![Dir::Count(l(3))])]));
    let mut n = 0;
    for p in INTS {
        let mut dom: Vec<i128> = vec![0, 1, 3];
        let mut addv = |x: i128| { let x = p.wrap(x); if !dom.contains(&x) { dom.push(x) } };
        for b in [7u32, 8, 15, 16, 24, 31, 32, 33, 40, 47, 48, 56, 60, 61, 62, 63, 64, 65, 126, 127] {
            if b >= p.width() as u32 * 8 + 1 { continue }
            let x = if b < 127 { 1i128 << b } else { i128::MIN };
            addv(x); addv(x.wrapping_sub(1)); addv(x.wrapping_add(1)); addv(x.wrapping_neg());
        }
        addv(-1); addv(-2); addv(i128::MAX);
        let c = || fld("n", Ty::P(p), vec![]).dom(&dom);
        let cons: Vec<(&str, Ty, Vec<Dir>)> = vec![
            ("vec u8", vec_(U8), vec![Dir::Count(v("n"))]), ("vec u64", vec_(U64), vec![Dir::Count(v("n"))]), ("vec leaf", vec_(leaf.clone()), vec![Dir::Count(v("n"))]), ("vec vec", vec_(emp.clone()), vec![Dir::Count(v("n"))]), ("vec tup", vec_(tup(vec![U8, U16])), vec![Dir::Count(v("n"))]), ("vec str", vec_(Ty::WStr), vec![Dir::Count(v("n"))]),
            ("vec opt", opt(bx(vec_(U16))), vec![Dir::Count(v("n"))]), ("vec try", opt(vec_(U16)), vec![Dir::Try, Dir::Count(v("n"))]),
            ("bytes", vec_(U8), vec![Dir::ParseWith(PW::ReadBytes), Dir::Count(v("n"))]), ("bytes try", opt(vec_(U8)), vec![Dir::Try, Dir::ParseWith(PW::ReadBytes), Dir::Count(v("n"))]),
            ("count", vec_(U8), vec![Dir::ParseWith(PW::Count(v("n")))]), ("count64", vec_(U64), vec![Dir::ParseWith(PW::Count(v("n")))]), ("count leaf", vec_(leaf.clone()), vec![Dir::ParseWith(PW::Count(v("n")))]),
            ("pun", punct(U8, U8), vec![Dir::ParseWith(PW::PunctSep), Dir::Count(v("n"))]), ("punt", punct(U64, leaf.clone()), vec![Dir::ParseWith(PW::PunctTrail), Dir::Count(v("n"))]),
            ("offset", ptr(P::U8, U16), vec![Dir::Offset(v("n"))]), ("offset after", ptr(P::I64, U16), vec![Dir::OffsetAfter(v("n"))]), ("pad before", U8, vec![Dir::PadBefore(v("n"))]), ("pad after", U8, vec![Dir::PadAfter(v("n"))]), ("size", U8, vec![Dir::PadSizeTo(v("n"))]),
            ("seek", U8, vec![Dir::SeekBefore(SeekE::Start(v("n")))]), ("seekcur", U8, vec![Dir::SeekBefore(SeekE::Current(v("n")))]), ("seekend", U8, vec![Dir::SeekBefore(SeekE::End(v("n")))]),
            ("align", U8, vec![Dir::AlignBefore(E::L(16)), Dir::PadBefore(v("n"))]), ("vec ptr", vec_(ptr(P::U64, U8)), vec![Dir::Count(v("n"))]),
        ];
        for (nm, t, d) in cons {
            let r = u.def(st(&format!("H{}", n), top(), vec![c(), fld("x", t, d), fld("z", U8, vec![])]));
            n += 1;
            u.root(root(r).max(p.width() as u64 + 12).starts(Starts::Few).note(nm));
        }
        // pointers carry the value themselves
        for (nm, t, d) in [("ptr", ptr(p, U16), vec![]), ("ptr now", ptr(p, vec_(U16)), vec![Dir::DerefNow, Dir::Count(l(2))]), ("parse", leaf.clone(), vec![Dir::ParseWith(PW::PtrParse(p))]), ("ptr off", ptr(p, Ty::NStr), vec![Dir::Offset(l(1 << 62))])] {
            let r = u.def(st(&format!("H{}", n), top(), vec![fld("x", t, d).dom(&dom), fld("z", U8, vec![])]));
            n += 1;
            u.root(root(r).max(p.width() as u64 + 6).starts(Starts::Few).note(nm));
        }
    }
    // counts given by the caller
    for c in [1u64, 100, 0xffff, 1 << 20, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 47, 1 << 60, 1 << 61, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX / 16, u64::MAX / 2, u64::MAX - 1, u64::MAX] {
        for (nm, t) in [("opts vec u8", vec_(U8)), ("opts vec u16", vec_(U16)), ("opts vec u128", vec_(Ty::P(P::U128))), ("opts vec vec", vec_(emp.clone())), ("opts vec leaf", vec_(leaf.clone())), ("opts box", bx(vec_(tup(vec![U8, U64])))), ("opts opt", opt(vec_(U64))), ("opts ptr", ptr(P::U8, vec_(U16))), ("opts vec str", vec_(Ty::WStr)), ("opts vec arr", vec_(arr(U32, 3)))] {
            u.root(root(t).count(c).max(9).starts(Starts::Few).note(nm));
        }
    }
    // a collection up to the end of the data comes to an end there
    for (nm, t) in [("eof u8", U8), ("eof u64", U64), ("eof leaf", leaf.clone()), ("eof wstr", Ty::WStr), ("eof str", Ty::NStr), ("eof em", emp.clone())] {
        let r = u.def(st(&format!("H{}", n), top(), vec![fld("x", vec_(t), vec![Dir::ParseWith(PW::UntilEof)])]));
        n += 1;
        u.root(root(r).max(5).starts(Starts::Few).note(nm));
    }
}

// ------------------------------------------------------------------------- C23
fn histories(u: &mut Universe, _thorough: bool) {
    let leaf = u.def(st("Leaf", top().magic(b1(0x0a)), vec![fld("p", U8, vec![]), fld("q", U16, vec![Dir::Assert(ne_assert("q", 3))]).dom(&[3, 4])]));
    let en1 = u.def(en("En", top(), vec![
        var("A", Shape::Tuple, vec![fld("", U16, vec![Dir::SeekBefore(SeekE::Current(l(1)))]), fld("", U8, vec![Dir::Assert(ne_assert("self_1", 1))]).dom(&[1, 2])]),
        var("B", Shape::Named, vec![fld("x", U8, vec![Dir::AlignAfter(l(2))]), fld("y", U8, vec![])]),
    ]));
    let um = u.def(en("Um", top().big(), vec![uvar("A").magic(b1(1)), uvar("B").magic(b1(2))]));
    let rp = u.def(en("Rp", top().repr(P::U16), vec![uvar("A").disc(0x0102), uvar("B").disc(0x0a01)]));
    let pt = u.def(st("Pt", top(), vec![fld("h", U8, vec![]), fld("p", ptr(P::U8, U16), vec![]).dom(&[1, 9]), fld("n", ptr(P::U8, leaf.clone()), vec![Dir::DerefNow, Dir::Little]).dom(&[3])]));
    let tr = u.def(st("Tr", top(), vec![fld("t", opt(leaf.clone()), vec![Dir::Try]), fld("z", U8, vec![])]));
    let mp = u.def(st("Mp", top().little().map(MapTop { from: tup(vec![U8, U16]), is_try: true, arms: vec![(eq(v("x.0"), l(1)), Ctor::Fail(l(4)))], last: Ctor::Struct(vec![v("x.1")]) }), vec![fld("v", U16, vec![])]));
    let ct = u.def(st("Ct", top(), vec![fld("n", U8, vec![]).dom(&[1, 2]), fld("v", vec_(um.clone()), vec![Dir::Count(v("n"))]), fld("s", Ty::NStr, vec![]).dom(&[0x41, 0])]));
    let ef = u.def(st("Ef", top(), vec![fld("x", vec_(U16), vec![Dir::ParseWith(PW::UntilEof)])]));
    let se = u.def(st("Se", top(), vec![fld("a", U8, vec![Dir::SeekBefore(SeekE::End(l(-1)))]), fld("b", U8, vec![Dir::SeekBefore(SeekE::Start(l(1))), Dir::PadAfter(l(1))])]));
    let pa = u.def(st("Pa", top().assert(msg(ne(v("b"), l(2)), "two")), vec![fld("a", U8, vec![Dir::Temp, Dir::PadSizeTo(l(3))]), fld("b", U8, vec![]).dom(&[1, 2])]));
    for t in [leaf, en1, um, rp, pt, tr, mp, ct, ef, se, pa] { u.root(root(t).max(8)) }
    for t in [U16, Ty::NStr, Ty::WStr, vec_(U8), arr(U16, 2), ptr(P::U8, Ty::Unit), ptr(P::U8, U8), tup(vec![ptr(P::U8, ptr(P::U8, Ty::Unit)), opt(U8)])] { u.root(if matches!(t, Ty::Vec(_)) { root(t).count(2).max(12) } else { root(t).max(12) }) }
}
