#!/usr/bin/env python3
"""C20: every declaration of an enumerated space through the real compiler, judged against the documented acceptance table."""
import itertools, json, os, re, subprocess, sys, time
V = os.environ.get("VERIF_DIR", "/verif")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
t0 = time.time()
W = f"{V}/target/c20"

PRE = """#![allow(warnings)]
#[allow(unused_imports)]
mod k {
    pub use binread::{BinRead, derive_binread, FilePtr, FilePtr8, NullString, ReadOptions, BinResult, io::{Read, Seek, SeekFrom}};
    pub struct Err1(pub u8);
    impl std::fmt::Debug for Err1 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("e") } }
    pub fn pw<R: Read + Seek>(_: &mut R, _: &ReadOptions, _: ()) -> BinResult<u8> { Ok(1) }
    pub fn pwo<R: Read + Seek>(_: &mut R, _: &ReadOptions, _: ()) -> BinResult<Option<u8>> { Ok(Some(1)) }
    pub fn up(x: u8) -> u8 { x }
    pub fn mk() -> impl Fn(u8) -> u8 { |x| x }
    #[derive(BinRead, Default)] #[br(import(a: u8))] pub struct A1(#[br(calc = a)] pub u8);
    #[derive(BinRead)] #[br(import(a: u8, b: u8))] pub struct A2(#[br(calc = a + b)] pub u8);
}
"""

# ---------------------------------------------------------------- the documented table
EXPR_FIELD = {  # directive -> value (for a field of type u8)
    "align_after": "4", "align_before": "4", "calc": "7", "count": "1", "offset": "1", "offset_after": "1", "is_big": "true", "is_little": "true",
    "pad_after": "1", "pad_before": "1", "pad_size_to": "2", "seek_before": "SeekFrom::Current(0)", "parse_with": "pw", "map": "|x: u8| x", "try_map": "|x: u8| -> Result<u8, Err1> { Ok(x) }",
    "args_tuple": "()",
}
FLAG_FIELD = ["big", "little", "default", "ignore", "deref_now", "postprocess_now", "restore_position", "try"]
LITS = ["1u8", "-1i8", "0x12u16", "1i16", "1u32", "1i32", "1u64", "1i64", "1u128", "1i128", "b'a'", "b\"ab\"", "b\"\"", "'a'", "1.5f32", "-1.5f64", "0b11u8", "1_000u16"]
ASSERTS = ["(true)", "(true,)", "(true, \"m\")", "(true, \"m\",)", "(true, \"m {}\", 1)", "(true, \"m {} {}\", 1, 2,)", "(true, \"{{}}\")", "(true, Err1(1))", "(true, Err1(1),)", "(1 < 2 && true)", "(true, \"{x}\", x = 3)"]
IFS = ["(true)", "(true,)", "(true, 3)", "(true, 3,)", "({ let c = 1; c == 1 })"]

def one(d, opt=False, big=False):
    """the usual spelling of a directive on a field (of type u8, or Option<u8>)"""
    if d == "magic": return "magic = 1u8"
    if d == "assert": return "assert(true)"
    if d == "if": return "if(true)"
    if d == "args": return "args()"
    if d == "temp": return "temp"
    if d in FLAG_FIELD: return d
    v = EXPR_FIELD[d]
    if opt: v = {"calc": "Some(7)", "map": "|x: u8| Some(x)", "try_map": "|x: u8| -> Result<Option<u8>, Err1> { Ok(Some(x)) }"}.get(d, v)
    return f"{d} = {v}"
FIELD = sorted(list(EXPR_FIELD) + FLAG_FIELD + ["magic", "assert", "if", "args", "temp"])
STRUCT = ["assert", "big", "import", "import_tuple", "little", "magic", "map", "pre_assert", "try_map"]
ENUM = STRUCT + ["return_all_errors", "return_unexpected_error"]
UENUM = ["big", "import", "import_tuple", "little", "magic", "map", "repr", "try_map"]
DVAR = ["assert", "big", "little", "magic", "map", "try_map", "pre_assert"]
UVAR = ["magic", "pre_assert"]
ALL = sorted(set(FIELD + ENUM + UENUM))
# where the documentation and the derive's own list of keywords do not say the same thing: not judged
OPEN = {("dvar", d) for d in ("import", "import_tuple", "args", "args_tuple")}

def spell(d):
    """every documented spelling of a directive, valid on an object"""
    if d in EXPR_FIELD and d not in ("map", "try_map"): return [f"{d} = {EXPR_FIELD[d]}", f"{d}({EXPR_FIELD[d]})", f"{d} = ({EXPR_FIELD[d]})", f"{d} = {{ {EXPR_FIELD[d]} }}"]
    if d in FLAG_FIELD or d in ("temp", "return_all_errors", "return_unexpected_error"): return [d]
    if d == "magic": return [f"magic = {l}" for l in LITS] + [f"magic({l})" for l in LITS]
    if d == "assert" or d == "pre_assert": return [d + a for a in ASSERTS]
    if d == "if": return ["if" + a for a in IFS]
    if d == "args": return ["args()"]
    if d == "import": return ["import()", "import(a: u8)", "import(a: u8,)", "import(a: u8, b: &'static str)"]
    if d == "import_tuple": return ["import_tuple(a: (u8, u8))", "import_tuple = a: (u8, u8)", "import_tuple(a: u8)"]
    if d == "repr": return ["repr = u8", "repr(u8)", "repr = i16", "repr(i64)"]
    raise KeyError(d)

OBJMAP = {"map": ["map = |x: u8| Self::f(x)", "map(|x: u8| Self::f(x))", "map = Self::f"], "try_map": ["try_map = |x: u8| -> Result<Self, Err1> { Ok(Self::f(x)) }", "try_map(Self::g)", "try_map = Self::g"]}
MAPS = {"map": ["map = |x: u8| x", "map(|x: u8| x)", "map = up", "map(up)", "map = mk()", "map = |x: u8| -> u8 { x }"], "try_map": ["try_map = |x: u8| -> Result<u8, Err1> { Ok(x) }", "try_map(|x: u8| Ok::<u8, Err1>(x))", "try_map = |x: i8| std::convert::TryInto::<u8>::try_into(x)"]}

accept, reject, soup = [], [], []   # (what, code)
def acc(what, code): accept.append((what, code))
def rej(what, code, lines=None): reject.append((what, code, lines))

# ---------------------------------------------------------------- fields
def on_field(shape, attrs, ty="u8", derive="#[derive(BinRead)]"):
    a = " ".join(attrs)
    return {
        "named": f"{derive} struct S {{ n: u8, {a} x: {ty}, y: u16 }}",
        "tuple": f"{derive} struct S(u8, {a} {ty}, u16);",
        "named variant": f"{derive} enum S {{ V {{ n: u8, {a} x: {ty} }}, #[br(magic = 9u8)] U, W(u8) }}",
        "tuple variant": f"{derive} enum S {{ V(u8, {a} {ty}), W {{ q: u8 }} }}",
    }[shape]
SHAPES = ["named", "tuple", "named variant", "tuple variant"]
def der(ds): return "#[derive_binread]" if "temp" in ds else "#[derive(BinRead)]"
for sh in SHAPES:
    for d in FIELD:
        ty = "Option<u8>" if d == "try" else "u8"
        for s in (MAPS[d] if d in MAPS else spell(d)):
            for attrs in ([f"#[br({s})]"], [f"#[binread({s})]"], [f"#[br({s},)]"], ["#[br()]", f"#[br({s})]"], [f"#[br( {s} , assert(true))]"]):
                if sh != "named" and len(attrs[0]) and attrs[0].endswith(",)]"): continue
                acc(f"{d} on a field ({sh})", on_field(sh, attrs, ty, der([d])))
    # documented with other types and earlier fields
    prev = {"named": "n", "tuple": "self_0", "named variant": "n", "tuple variant": "self_0"}[sh]
    more = [(f"count = {prev}", "Vec<u8>"), (f"count({prev} as usize)", "Vec<u8>"), (f"count = {prev}", "FilePtr8<Vec<u8>>"), (f"offset = {prev} as u64", "FilePtr8<u8>"), (f"offset_after = {prev}.into()", "FilePtr8<u8>"),
            ("deref_now", "FilePtr8<NullString>"), ("postprocess_now, offset(3)", "FilePtr<u16, u8>"), (f"args({prev})", "A1"), (f"args({prev}, 2)", "A2"), (f"args({prev}, 2,)", "A2"), (f"args_tuple = ({prev}, 2)", "A2"), (f"args_tuple(({prev}, 2))", "A2"),
            (f"args({prev}), count = 2", "Vec<A1>"), (f"args({prev})", "Box<A1>"), (f"args({prev}), try", "Option<A1>"), (f"args({prev}), if({prev} == 1)", "Option<A1>"), (f"args({prev})", "[A1; 3]"), (f"args({prev})", "FilePtr8<A1>"),
            (f"is_big = {prev} == 1", "u16"), (f"is_little({prev} == 1)", "u16"), (f"if({prev} == 1)", "Option<u8>"), (f"if({prev} == 1, 42)", "u8"), (f"calc = {prev}.wrapping_add(1)", "u8"), ("default", "Option<std::path::PathBuf>"), ("ignore", "std::collections::HashMap<u8, u8>"),
            ("parse_with = FilePtr8::parse", "NullString"), ("parse_with = binread::helpers::until_eof", "Vec<u8>"), ("parse_with(binread::helpers::until(|b: &u8| *b == 0))", "Vec<u8>"), (f"parse_with = binread::helpers::count({prev} as usize)", "Vec<u8>"),
            ("map = |x: u8| x.to_string()", "String"), ("try_map = |x: i8| std::convert::TryFrom::try_from(x)", "u8"), (f"pad_before = {prev}.into(), align_after(4)", "u8"), (f"pad_size_to = {prev}", "u64"), (f"assert({prev} < 3, \"{{}}\", {prev})", "u8"), (f"seek_before = SeekFrom::Start({prev} as u64)", "u8")]
    for s, ty in more: acc(f"`{s}` on {ty} ({sh})", on_field(sh, [f"#[br({s})]"], ty))
    # misplaced
    for d in ALL:
        if d in FIELD: continue
        for s in spell(d)[:2]: rej(f"{d} on a field ({sh})", on_field(sh, [f"#[br({s})]"]))

EX = [["big", "little", "is_big", "is_little"], ["map", "try_map"], ["calc", "default", "ignore", "parse_with"], ["args", "args_tuple"], ["deref_now", "postprocess_now"], ["offset_after", "deref_now"], ["offset_after", "postprocess_now"]]
# combinations which mean nothing or cannot type-check (value generated and something about reading it): not judged
def unclear(a, b):
    gen, rd = {"calc", "default", "ignore"}, {"try", "magic", "count", "args", "args_tuple", "map", "try_map", "offset", "offset_after", "deref_now", "postprocess_now"}
    mp = {"map", "try_map"}
    def p(x, y): return (a in x and b in y) or (b in x and a in y)
    return p(gen, rd) or p(mp, {"try", "args", "args_tuple", "parse_with", "offset_after", "deref_now", "postprocess_now", "offset"}) or p({"parse_with"}, {"offset_after", "deref_now", "postprocess_now"})
for a, b in itertools.product(FIELD, FIELD):
    shapes = SHAPES if THOROUGH else [SHAPES[(len(a) * 7 + len(b)) % 4], "named"]
    for sh in sorted(set(shapes)):
        opt = "try" in (a, b)
        sa, sb = one(a, opt), one(b, opt)
        ty = "Option<u8>" if opt else "u8"
        ways = [[f"#[br({sa}, {sb})]"], [f"#[br({sa})]", f"#[br({sb})]"]]
        if a == b:
            for w in ways:
                if a == "assert": acc("assert twice", on_field(sh, w, ty, der([a, b])))
                else: rej(f"{a} twice on a field ({sh})", on_field(sh, w, ty, der([a, b])))
        elif any(a in g and b in g for g in EX):
            for w in ways: rej(f"{a} with {b} on a field ({sh})", on_field(sh, w, ty, der([a, b])))
        elif not unclear(a, b):
            for w in (ways if THOROUGH or sh == "named" else ways[:1]): acc(f"{a} with {b} on a field ({sh})", on_field(sh, w, ty, der([a, b])))

# malformed directives on a field
BADF = []
for d in FLAG_FIELD + ["temp"]: BADF += [f"{d} = true", f"{d}()", f"{d}(true)", f"{d} {d}", f"{d}: 1"]
for d in EXPR_FIELD: BADF += [d, f"{d} =", f"{d}()", f"{d}({EXPR_FIELD[d]}, 1)" if "|" not in EXPR_FIELD[d] else f"{d}(up, up)", f"{d} 1", f"{d} == 1", f"{d}[1]", f"{d}{{1}}", f"{d}: 1"]
BADF += ["magic", "magic =", "magic = \"s\"", "magic(\"s\")", "magic = true", "magic = x", "magic = 1u8 + 1", "magic()", "magic(1u8, 2u8)", "magic = [1, 2]",
         "assert", "assert()", "assert = true", "assert[true]", "assert(true, Err1(1), 2)", "assert(true, Err1(1), \"x\", 3)", "if", "if()", "if(true, 1, 2)", "if(true, 1, 2, 3)", "args", "args = (1,)", "args[1]",
         "bogus", "bogus = 1", "bogus(1)", "Big", "BIG", "is-big", "1", "\"big\"", "= 1", "big, bogus", "bogus, big", "big; little", "big little", "pad_before = 1 pad_after = 1", "big,, pad_after = 1", ",", "pad_before = 1; 2", "else", "fn", "::big", "br(big)", "#[big]"]
for b in BADF:
    for sh in ("named", "tuple variant"): rej(f"malformed `{b}` on a field ({sh})", on_field(sh, [f"#[br({b})]"]))
for w in ("#[br]", "#[br = \"big\"]", "#[br = 1]", "#[br[big]]", "#[br{big}]", "#[binread]", "#[binread = \"big\"]"):
    # other delimiters are not excluded by the documentation
    if "[big]" in w or "{big}" in w: soup.append((f"{w} on a field", on_field("named", [w]))); continue
    rej(f"malformed {w} on a field", on_field("named", [w]))

# ---------------------------------------------------------------- objects
def f_impl(n, body): return f" impl S {{ fn f(_: u8) -> Self {{ {body} }} fn g(x: u8) -> Result<Self, Err1> {{ Ok(Self::f(x)) }} }}"
def item(kind, attrs, derive="#[derive(BinRead)]"):
    a = " ".join(attrs)
    return {
        "struct": f"{derive} {a} struct S {{ x: u8, y: u16 }}" + f_impl(0, "S { x: 1, y: 2 }"),
        "tuple struct": f"{derive} {a} struct S(u8, u16);" + f_impl(0, "S(1, 2)"),
        "unit struct": f"{derive} {a} struct S;" + f_impl(0, "S"),
        "enum": f"{derive} {a} enum S {{ A {{ x: u8 }}, B(u8), #[br(magic = 1u8)] C }}" + f_impl(0, "S::B(1)"),
        "unit enum": f"{derive} {a} enum S {{ #[br(magic = 1u8)] A, #[br(magic = 2u8)] B }}" + f_impl(0, "S::A"),
        "repr enum": f"{derive} #[br(repr = u8)] {a} enum S {{ A, B = 7 }}" + f_impl(0, "S::A"),
        "named dvar": f"{derive} enum S {{ {a} A {{ x: u8 }}, B(u16) }}" + f_impl(0, "S::B(1)"),
        "tuple dvar": f"{derive} enum S {{ Z(u16), {a} A(u8) }}" + f_impl(0, "S::Z(1)"),
        "uvar in enum": f"{derive} enum S {{ {a} A, B(u16) }}" + f_impl(0, "S::A"),
        "uvar in unit enum": f"{derive} enum S {{ {a} A, #[br(magic = 200u8)] B }}" + f_impl(0, "S::A"),
        "uvar in repr enum": f"{derive} #[br(repr = u8)] enum S {{ {a} A, B }}" + f_impl(0, "S::A"),
    }[kind]
KIND = {"struct": ("st", STRUCT), "tuple struct": ("st", STRUCT), "unit struct": ("st", STRUCT), "enum": ("en", ENUM), "unit enum": ("ue", UENUM), "repr enum": ("ue", UENUM),
        "named dvar": ("dvar", DVAR), "tuple dvar": ("dvar", DVAR), "uvar in enum": ("uvar", UVAR), "uvar in unit enum": ("uvar", UVAR), "uvar in repr enum": ("uvar", UVAR)}
def ospell(kind, d):
    if d in OBJMAP: return OBJMAP[d]
    s = spell(d)
    if d == "magic" and kind == "uvar in unit enum": return [x for x in s if "1u8" in x or "b'a'" in x or "0b11u8" in x]
    if d == "magic" and kind == "uvar in repr enum": return []
    if d == "repr" and kind == "repr enum": return []
    return s
def ok_on(kind, d): return d in KIND[kind][1]
for kind in KIND:
    for d in ALL:
        if ok_on(kind, d):
            for s in ospell(kind, d):
                extra = []
                if kind == "unit enum" and d == "repr": continue
                for attrs in ([f"#[br({s})]"], [f"#[binread({s})]"], [f"#[br({s},)]"], ["#[br()]", f"#[br({s})]", "#[br()]"]):
                    acc(f"{d} on {kind}", item(kind, attrs))
                acc(f"{d} on {kind} (derive_binread)", item(kind, [f"#[br({s})]"], "#[derive_binread]"))
        elif (KIND[kind][0], d) not in OPEN:
            for s in (ospell(kind, d) if d in OBJMAP else spell(d))[:2]:
                rej(f"{d} on {kind}", item(kind, [f"#[br({s})]"]))
                rej(f"{d} on {kind} (derive_binread)", item(kind, [f"#[br({s})]"], "#[derive_binread]"))
    bad = ["bogus", "bogus = 1", "bogus(2)", "\"big\"", "1", "big = true", "big()", "magic", "magic = \"s\"", "magic = true", "map", "import = 1", "import(1)", "import(a)", "import(a: )", "import(a: u8 b: u8)", "import(mut a: u8)", "import((a, b): (u8, u8))", "import_tuple", "import_tuple(a)", "import_tuple(a: u8, b: u8)",
           "assert", "assert()", "assert = true", "pre_assert()", "pre_assert(true, Err1(1), 2)", "assert(true, Err1(1), 2)", "repr", "repr = 1 + 1", "repr()", "return_all_errors = 1", "return_unexpected_error()", "Big", "big little", "= 2"]
    for b in bad: rej(f"malformed `{b}` on {kind}", item(kind, [f"#[br({b})]"]))
    rej(f"malformed #[br] on {kind}", item(kind, ["#[br]"]))
    rej(f"malformed #[br = ..] on {kind}", item(kind, ["#[br = \"big\"]"]))
    # pairs
    ds = KIND[kind][1]
    ex = [["big", "little"], ["map", "try_map"], ["import", "import_tuple"], ["return_all_errors", "return_unexpected_error"], ["repr", "magic"]]
    def o1(d): return {"map": "map = Self::f", "try_map": "try_map = Self::g", "import": "import(a: u8)", "import_tuple": "import_tuple(a: (u8,))", "magic": "magic = 1u8", "assert": "assert(true)", "pre_assert": "pre_assert(true)", "repr": "repr = u8"}.get(d, d)
    for a, b in itertools.product(ds, ds):
        if kind == "uvar in repr enum" and "magic" in (a, b): continue
        if "repr" in (a, b): continue
        # a mapped object hands its arguments on to the type that is read
        def o2(d): return {"map": "map = |x: A1| Self::f(x.0)", "try_map": "try_map = |x: A1| Self::g(x.0)"}.get(d) if d in MAPS and {"import", "import_tuple"} & {a, b} and KIND[kind][0] != "dvar" else None
        xa, xb = o2(a) or o1(a), o2(b) or o1(b)
        for w in ([f"#[br({xa}, {xb})]"], [f"#[br({xa})]", f"#[br({xb})]"]):
            if a == b:
                if a in ("assert", "pre_assert"): acc(f"{a} twice on {kind}", item(kind, w))
                else: rej(f"{a} twice on {kind}", item(kind, w))
            elif any(a in g and b in g for g in ex): rej(f"{a} with {b} on {kind}", item(kind, w))
            else: acc(f"{a} with {b} on {kind}", item(kind, w))

# ---------------------------------------------------------------- whole declarations
D = "#[derive(BinRead)]"
for d in (D, "#[derive_binread]"):
    rej("union", f"{d} union S {{ a: u8 }}"); rej("enum without variants", f"{d} enum S {{}}"); rej("unit-like enum without repr or magic", f"{d} enum S {{ A, B }}")
    rej("unit-like enum without repr or magic (1)", f"{d} #[br(big)] enum S {{ A = 1 }}")
    for r in ("u8", "i8", "u16", "i32", "u64", "i128"):
        acc("repr", f"{d} #[br(repr = {r})] enum S {{ A, B, C = 5, D }}"); acc("repr", f"{d} #[br(repr({r}), big)] enum S {{ A = 3 }}")
        rej("repr twice", f"{d} #[br(repr = {r}, repr = {r})] enum S {{ A, B }}"); rej("repr and magic", f"{d} #[br(repr = {r})] enum S {{ #[br(magic = 0u8)] A, B }}"); rej("repr and magic (2nd)", f"{d} #[br(repr = {r})] enum S {{ A, #[br(magic = 0u8)] B }}")
    kinds = ["1u8", "1i8", "1u16", "1i64", "'a'", "b\"ab\"", "b\"abc\"", "1.5f32", "1.5f64", "b'x'"]
    kd = {"b'x'": "u8", "1u8": "u8"}
    for a, b in itertools.product(kinds, kinds):
        same = kd.get(a, a) == kd.get(b, b)
        code = f"{d} enum S {{ #[br(magic = {a})] A, #[br(magic = {b})] B }}"
        (acc if same else rej)("magic types of unit variants", code)
        (acc if same else rej)("magic types of unit variants, one between", f"{d} enum S {{ #[br(magic = {a})] A, X, #[br(magic({b}))] B }}") if False else None
        # data enums may mix
        acc("magic types of data variants", f"{d} enum S {{ #[br(magic = {a})] A(u8), #[br(magic = {b})] B, C {{ x: u8 }} }}")
    for c in ("struct S {}", "struct S();", "struct S;", "struct S { x: u8 }", "struct S(u8);", "struct r#type { r#fn: u8, r#match: u16 }", "pub(crate) struct S { pub a: u8, pub(super) b: u8 }", "struct S<T: BinRead<Args = ()> + Default> { a: [T; 3], #[br(default)] b: T }",
              "struct S<T: BinRead<Args = ()>>(T, u8);", "struct S<T>(T) where T: BinRead<Args = ()>;", "enum S<T: BinRead<Args = ()>> { A(T), B { x: u8 } }", "struct S { #[doc = \"d\"] #[br(big)] a: u16, /** x */ b: u8 }", "enum S { A {}, B() , C(u8) }", "enum S { A(u8) }",
              "struct S { a: (u8, u16, [u8; 2]), b: Box<u8>, c: FilePtr8<u8>, d: Option<u8>, e: () }", "struct S { self_0: u8, self_1: u8 }", "struct S { pos: u8, reader: u8, args: u8, opt: u8, read: u8, endian: u8, options: u8, temp: u8, e: u8, r: u8, R: u8, saved: u8, __x: u8 }"):
        acc("declaration", f"{d} {c}")
# documented, but `if` has only one spelling (known finding)
acc("if = condition", on_field("named", ["#[br(if = true)]"])); acc("if = condition, alternate", on_field("named", ["#[br(if = true, 3)]"]))
# names of the user's that the generated code must not trip over, generics, macros
OWN = "type Result<T> = std::result::Result<T, ()>; struct Vec; struct Box; struct Error; struct ReadOptions; struct BinResult; trait Read {} trait Seek {} struct SeekFrom; struct Endian; struct String;"
for c in (
    "struct S { #[br(big, pad_before = 1, align_after = 4, assert(a == 1))] a: u16, #[br(if(a == 1), restore_position)] b: Option<u8>, #[br(count = 2, map = |x: std::vec::Vec<u8>| x.len())] c: usize, #[br(default)] d: u8, p: binread::FilePtr8<u8>, #[br(try)] q: Option<u8>, #[br(try_map = |x: u8| if x > 1 { Ok(x) } else { Err(7) })] z: u8 }",
    "#[br(pre_assert(true), import(k: u8))] enum S { #[br(magic = 1u8)] A(u8), #[br(pre_assert(k == 1, 7))] B { x: u8 }, C }",
    "#[br(repr = u16)] enum S { A, B }", "enum S { #[br(magic = 1u8)] A, #[br(magic = 2u8)] B }", "#[br(try_map = |x: u8| if x > 1 { Ok(S(x)) } else { Err(7) })] struct S(u8);", "#[br(return_unexpected_error)] enum S { A(u16), B { #[br(is_big = true, args())] a: u8 } }"):
    acc("declaration among the user's names", f"mod m {{ {OWN} #[derive(binread::BinRead)] {c} }}")
for c in ("enum S { #[br(magic = 1u8)] Ok(u8), #[br(magic = 2u8)] Err { a: u8 }, #[br(magic = 3u8)] None, #[br(magic = 4u8)] Some(u8), #[br(magic = 5u8)] Vec(u8), Box(u8), Default(u8), Self_(u8) }",
          "enum S { #[br(magic = 1u8)] Ok, #[br(magic = 2u8)] Err, #[br(magic = 3u8)] None, #[br(magic = 4u8)] Some }", "#[br(repr = u8)] enum S { Ok, Err, None, Some }"):
    acc("variants named like those of the prelude", f"{D} {c}")
for n in ("Option", "Vec", "Result", "Error", "ReadOptions", "Endian", "Iterator", "From", "Into", "Default", "String", "Box", "Clone", "Fn", "Drop", "SeekFrom", "FilePtr", "BinResult", "Magic"):
    o = "std::option::Option<u8>"
    for c in (f"struct {n} {{ x: u8, #[br(magic = 1u8, if(x == 1))] y: {o}, #[br(count = x, assert(true, \"m\"))] z: std::vec::Vec<u8> }}", f"struct {n}(u8, #[br(try)] {o});", f"#[br(repr = u8)] enum {n} {{ A, B }}", f"enum {n} {{ A(u8), B {{ x: u16 }} }}", f"#[br(magic = b\"ab\", pre_assert(true))] struct {n};"):
        acc("type named like one of the library's or the prelude's", f"mod m {{ #[derive(binread::BinRead)] {c} }}")
for c in ("struct S<'a, T: 'a, const N: usize> where T: BinRead<Args = ()> + Default + Copy { x: T, #[br(calc = \"x\")] y: &'a str, #[br(ignore)] z: std::marker::PhantomData<&'a T>, #[br(calc = [0; N])] k: [u8; N] }",
          "struct S<T = u8>(T) where T: BinRead<Args = ()>;", "enum S<T, U = u8> where T: BinRead<Args = ()>, U: BinRead<Args = ()> { #[br(magic = 1u8)] A(T), B { t: U }, C(#[br(calc = std::marker::PhantomData)] std::marker::PhantomData<(T, U)>) }",
          "#[br(import(a: T))] struct S<T: Copy + 'static>(#[br(calc = a)] T);", "struct S<T>(#[br(args_tuple = (1, 2))] T) where T: BinRead<Args = (u8, u8)>;", "struct S<P, T>(FilePtr<P, T>) where P: BinRead<Args = ()> + binread::file_ptr::IntoSeekFrom, T: BinRead<Args = ()>;",
          "#[br(map = |x: T| S(x))] struct S<T: BinRead<Args = ()>>(T);", "#[br(magic = 1u8, little, assert(true))] struct S<T: BinRead<Args = ()>> { #[br(count = 2)] v: Vec<T>, #[br(try)] o: Option<T> }"):
    acc("generic declaration", f"{D} {c}"); acc("generic declaration", f"#[derive_binread] {c}")
acc("in a function", f"fn f() {{ {D} struct L {{ x: u8, #[br(count = x)] y: Vec<u8> }} }}")
acc("through a macro", f"macro_rules! m {{ ($n:ident, $f:ident, $t:ty, $e:expr, $l:literal) => {{ {D} #[br(magic = $l)] struct $n {{ n: u8, #[br(count = $e)] $f: $t, #[br(calc = $f.len() as u8, assert($f.len() == n as usize, \"no {{}}\", n))] y: u8 }} }} }} m!(S, x, Vec<u8>, 3, 7u8);")
# several faults: each is reported where it is
FA = ["bogus_a", "big, little" , "magic = \"s\"", "pad_before"]
for a, b, c in itertools.product(["", "bogus_t", "assert()"], [""] + FA, [""] + FA):
    if sum(map(bool, (a, b, c))) < 2: continue
    t = lambda x: f"#[br({x})]" if x else ""
    code = [f"#[derive(BinRead)]", t(a), "struct S {", t(b), "a: u8,", t(c), "b: u8 }"]
    rej("several faults", "\n".join(code), [i for i, x in ((1, a), (3, b), (5, c)) if x])
    code = [f"#[derive(BinRead)]", t(a), "enum S {", t("bogus_v") , "A {", t(b), "a: u8 }, B(", t(c), "u8) }"]
    rej("several faults (enum)", "\n".join(code), [i for i, x in ((1, a), (3, "v"), (5, b), (7, c)) if x])

# ---------------------------------------------------------------- anything at all: the derive may say no, but must not panic
toks = ["big", "magic", "count", "assert", "if", "import", "=", "(1)", "()", ",", "1u8", "|x|", "\"s\"", "r#big", "::", "b\"\""] + (["repr", "calc", "map", "{}", "-", "'a"] if THOROUGH else [])
for n in (0, 1, 2, 3):
    for w in itertools.product(toks, repeat=n):
        s = " ".join(w)
        if n < 3: ks = ["field", "struct", "enum", "repr enum", "tuple dvar", "uvar in enum"]
        else: ks = [("field", "struct", "enum", "unit enum", "tuple dvar", "uvar in enum")[sum(toks.index(x) for x in w) % 6]]
        for kd_ in ks:
            soup.append((f"`{s}` on {kd_}", on_field("named", [f"#[br({s})]"]) if kd_ == "field" else item(kd_, [f"#[br({s})]"], "#[derive(BinRead)]" if n < 3 else "#[derive_binread]")))

def dedup(l):
    seen, out = set(), []
    for x in l:
        if x[1] not in seen: seen.add(x[1]); out.append(x)
    return out
accept, reject, soup = dedup(accept), dedup(reject), dedup(soup)

# ---------------------------------------------------------------- compile
os.makedirs(f"{W}/src/bin", exist_ok=True)
for f in os.listdir(f"{W}/src/bin"): os.remove(f"{W}/src/bin/{f}")
open(f"{W}/Cargo.toml", "w").write('[package]\nname = "c20"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\nbinread = { path = "/repo/binread" }\n[profile.dev]\ndebug = 0\nincremental = false\n')
lock = open(f"{V}/mc/Cargo.lock").read().replace('name = "mc"', 'name = "c20"')
open(f"{W}/Cargo.lock", "w").write(lock)
def emit(name, decls):
    """writes one program; returns line ranges"""
    out, at, line = [PRE], [], PRE.count("\n") + 1
    for i, d in enumerate(decls):
        body = f"mod m{i} {{ use super::k::*;\n{d[1]}\n}}\n"
        out.append(body)
        at.append((line, line + body.count("\n")))
        line += body.count("\n")
    out.append("fn main() {}\n")
    open(f"{W}/src/bin/{name}.rs", "w").write("".join(out))
    return at
where = {}
def chunked(name, l, n):
    n = max(1, n); size = (len(l) + n - 1) // n
    for c in range(n): where[f"{name}{c}"] = (l[c * size:(c + 1) * size], emit(f"{name}{c}", l[c * size:(c + 1) * size]))
# an error of the derive ends the compilation before types are checked: known ones stay by themselves
odd = [x for x in accept if x[0].startswith("if = ")]
chunked("acceptodd", odd, 1)
chunked("accept", [x for x in accept if x not in odd], 8); chunked("reject", reject, 4); chunked("soup", soup, 4)

sh = f'cd {V} && . ./build.inc && td={W} && h=$(srchash) && if [ "$(cat $td/.srchash 2>/dev/null)" != "$h" ]; then rm -rf $td/t/debug/.fingerprint/binread* $td/.srchash; fi; echo $h > $td/.srchash; cd $td && cargo check --offline -q --bins --keep-going --message-format=json --target-dir $td/t'
env = dict(os.environ); env.pop("RUSTFLAGS", None); env.pop("CARGO_TARGET_DIR", None)
r = subprocess.run(["bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
msgs = {}
bins_seen = set()
dep_err = None
for l in r.stdout.splitlines():
    if not l.startswith("{"): continue
    m = json.loads(l)
    if m.get("reason") == "compiler-message":
        t = m["target"]["name"]
        if t not in where:
            if m["message"]["level"] == "error": dep_err = m["message"]["rendered"]
            continue
        bins_seen.add(t)
        msgs.setdefault(t, []).append(m["message"])
    elif m.get("reason") == "compiler-artifact": bins_seen.add(m["target"]["name"])
if dep_err or not set(where) <= bins_seen:
    print("could not compile:", dep_err or r.stderr[-3000:], sorted(set(where) - bins_seen)); sys.exit(2)

violations, known = [], []
def spans(m):
    out = []
    def root(s):
        while s.get("expansion") and s["expansion"].get("span") and not s["file_name"].startswith("src/bin"): s = s["expansion"]["span"]
        return s
    for s in m["spans"]:
        s = root(s)
        out.append((s["line_start"], s["line_end"], s.get("is_primary")))
    return out
def locate(t, m):
    """declarations an error message points at"""
    decls, at = where[t]
    got = set()
    for a, b, prim in spans(m):
        for i, (x, y) in enumerate(at):
            if x <= a < y: got.add(i); break
    return got
errs = {t: {} for t in where}
loose = []
for t, ms in msgs.items():
    for m in ms:
        if m["level"] not in ("error", "error: internal compiler error"): continue
        if m["message"].startswith("aborting due to") : continue
        g = locate(t, m)
        if not g: loose.append((t, m))
        for i in g: errs[t].setdefault(i, []).append(m)
KF = set()
try:
    for l in open(f"{V}/known_findings.txt"):
        mm = re.match(r"finding: property=C20 key=(\S+) (.*)", l)
        if mm: KF.add((mm.group(1), mm.group(2)))
except FileNotFoundError: pass
keys = {k: t for k, t in KF}
hit = set()
def keyof(what): return re.sub(r"[^A-Za-z0-9_=]+", "_", what)
def violation(what, code, text):
    k = keyof(what)
    if k in keys: hit.add(k); return
    violations.append((what, code, text))
counts = {"accepted": 0, "rejected": 0, "soup_rejected": 0, "soup_accepted": 0}
for t, (decls, at) in where.items():
    for i, d in enumerate(decls):
        es = errs[t].get(i, [])
        if any("panicked" in e["message"] for e in es): violation(d[0], d[1], "the derive panicked: " + next(e for e in es if "panicked" in e["message"])["rendered"]); continue
        derive_errs = [e for e in es if e.get("code") is None]
        if t.startswith("accept"):
            if es: violation(d[0], d[1], "a documented declaration is not accepted:\n" + es[0]["rendered"])
            else: counts["accepted"] += 1
        elif t.startswith("reject"):
            if not derive_errs: violation(d[0], d[1], "an invalid declaration is not rejected by the derive"); continue
            if d[2]:
                lines = {at[i][0] + 1 + x for x in d[2]}
                got = {a for e in derive_errs for a, b, p in spans(e) if p}
                if not lines <= got: violation(d[0], d[1], f"faults on lines {sorted(lines)}, errors on lines {sorted(got)}"); continue
            counts["rejected"] += 1
        else: counts["soup_rejected" if derive_errs else "soup_accepted"] += 1
for t, m in loose:
    violation("unplaced error", m["rendered"], "an error that does not point at a declaration")
os.makedirs(f"{V}/out/replay", exist_ok=True)
for i, (what, code, text) in enumerate(violations[:int(os.environ.get("MC_MAX", "5"))]):
    p = f"{V}/out/replay/C20-{i}.txt"
    full = f"property C20: {what} (key={keyof(what)})\n{code}\n{text}\n"
    open(p, "w").write(full); print(full); print(f"VIOLATION property=C20 replay={p}")
for k in sorted(hit): print(f"KNOWN-FINDING: property=C20 {keys[k]}")
n = len(accept) + len(reject) + len(soup)
wall = round(time.time() - t0, 3)
samples = [f"{w}: {c} -> accepted" for w, c in accept[::max(1, len(accept) // 4)]][:4] + [f"{x[0]}: {x[1]} -> rejected" for x in reject[::max(1, len(reject) // 4)]][:4]
ev = {"property": "C20", "tier": TIER, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
      "coverage": {"states": n, "transitions": sum(len(m) for m in msgs.values()), "traces_validated_against_impl": n, "declarations_that_must_be_accepted": len(accept), "declarations_that_must_be_rejected": len(reject), "declarations_checked_for_panics_only": len(soup), **counts, "exhaustive": not violations,
                   "what_the_counts_mean": "states: declarations of the enumerated space; transitions: compiler diagnostics examined; traces validated: declarations put through the real derive and compiler", "samples": samples},
      "assumptions": ["rustc reports each compile_error! of the derive", "the acceptance table is read off binread/src/attribute.rs"], "violations": len(violations), "wall_s": wall}
os.makedirs(f"{V}/evidence", exist_ok=True)
json.dump(ev, open(f"{V}/evidence/C20.json", "w"), indent=1)
print(f"C20 {TIER}: {len(accept)} to accept, {len(reject)} to reject, {len(soup)} for panics only, {len(violations)} violations, {wall}s")
sys.exit(1 if violations else 0)
