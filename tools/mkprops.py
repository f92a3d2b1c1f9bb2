#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that wording is easy to edit)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=list(state),mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=list(observe),hook_needed=hook)))
CG="binread_derive/src/codegen/read_options.rs"; ST="binread_derive/src/codegen/read_options/struct.rs"
EN="binread_derive/src/codegen/read_options/enum.rs"; IM="binread/src/binread_impls.rs"; FP="binread/src/file_ptr.rs"
HE="binread/src/helpers.rs"; ERR="binread/src/error.rs"; PR="binread/src/private.rs"; STR="binread/src/strings.rs"
PU="binread/src/punctuated.rs"; LIB="binread/src/lib.rs"; DOC="binread/src/attribute.rs"; BT="binread/src/binary_template.rs"
CUR="binread/src/io/cursor.rs"; NS="binread/src/io/no_std.rs"
TOP="binread_derive/src/parser/top_level_attrs.rs"; FLD="binread_derive/src/parser/field_level_attrs.rs"

p("C01","A failed parse of a derived type leaves the reader where it started",
 "Whenever reading a type with derived BinRead returns an error of any kind (bad magic, failed assertion, truncated data, a reader failure, no matching variant, a failing map or nested type), the reader's position afterwards equals its position before the call. The only exception is a reader whose own seek refuses to go back.",
 ["inputs","programs","fault_sequences"],
 "every declared type, every point at which parsing can fail (each directive, each nesting level, each truncation length, each reader failure at each byte or I/O call), and every starting position including beyond 4 GiB",
 "The tests check the position after two or three specific errors from offset 0 or 1; the guarantee is about every failure point of every composition, at any starting offset.",
 [CG,EN,IM,DOC],[("or_else(seek Start(pos))",CG+": generate"),("per-variant seek back",EN+": generate_data_enum"),("primitive rewind",IM+": binread_impl!")],
 observe=["reader position after BinRead::read*/read_options returned Err"])
p("C02","Declared layout and directives determine value, consumption and errors",
 "For every struct or enum declaration, reading consumes and interprets exactly the bytes that its fields and directives declare, in declaration order and with the documented meaning of each directive, also when directives are combined on one field or object, and the resulting value, the error (kind, position, payload) or the final reader position is the one the declaration prescribes. Neither the order in which independent directives are written nor how they are split over several attributes changes the outcome.",
 ["programs","inputs"],
 "all declarations built from the documented directives up to the composition bound (every directive alone, every compatible pair on a field, top-level × field combinations) and every input up to the length bound over the value classes that the declaration can distinguish",
 "Tests exercise a handful of hand-written structs, nearly always one directive at a time and one accepting input each; interactions between directives are a product space.",
 [CG,ST,EN,FLD,TOP,DOC],[("field pipeline",ST+": generate_field"),("prelude",ST+": get_prelude"),("attribute accumulation","binread_derive/src/parser/mod.rs: FromAttrs")],
 observe=["BinRead::read*","BinReaderExt::read_*"])
p("C03","Byte order follows the documented precedence at every nesting level",
 "The byte order used for a multi-byte value is the first given of: a directive on the field (including a condition evaluated on earlier fields), on the enum variant, on the struct or enum, the caller's option, the machine's native order; and a byte order declared on a type always wins inside that type, however it is embedded or called. The chosen order reaches every value below the point where it is set (arrays, vectors, tuples, options, boxes, pointers and what they point to, magic numbers, arguments to custom parsers) and nothing beside it.",
 ["programs","inputs","configurations"],
 "all assignments of big/little/conditional/none to field, variant, type, embedding field and caller, for every container and pointer kind, nesting depth up to the bound, both outcomes of each condition, every entry point",
 "The tests fix a few combinations; the precedence rule is a statement about all assignments along a nesting path.",
 [CG,ST,TOP,IM,FP,HE,DOC],[("CondEndian / options var",CG+": ReadOptionsGenerator::endian"),("with_variant",TOP+": Enum::with_variant")],observe=["values read"])
p("C04","Result does not depend on how the reader chunks its data",
 "Reading gives the same value, the same error and the same final position however the reader splits its data into short reads and however often a read is interrupted and must be retried. This holds for every type and helper, including strings, byte runs and end-of-file driven collections.",
 ["schedules","inputs","programs"],
 "every pattern of short reads and interrupted reads up to the deviation bound, at every read call, for every type and input in the bound",
 "Tests read from in-memory cursors which always return everything asked for.",
 [IM,HE,STR,NS],[("read_exact / Bytes retry",NS+": Read::read_exact, Bytes"),("primitive reads",IM)],observe=["BinRead::read* over a reader with adversarial chunking"])
p("C05","Reader failures surface faithfully and are never turned into data",
 "If the reader fails while the bytes of a value are being read or sought, the parse reports an Io error that carries the reader's error kind (or records it among the errors of an enum's variants), and no value is ever produced from bytes that were not delivered. Failures are swallowed only where the declaration says so: a field marked try, a further enum variant, and end of data for an end-of-file driven collection.",
 ["fault_sequences","inputs","programs"],
 "every single and double failure (each error kind) at every byte and at every read, seek or tell call of every execution in the bound",
 "No test injects a failing reader except one end-of-file; errors are a property of all failure points.",
 [CG,ST,HE,IM,ERR,STR,FP],[("? on each I/O call",ST),("until_eof matches UnexpectedEof only",HE+": until_eof"),("From<io::Error>",ERR)],observe=["Error::Io kind"])
p("C06","Magic numbers match exactly or fail with the position and value found",
 "A magic directive on a struct, enum, variant or field accepts exactly the byte sequence of its literal in the byte order in force, and parsing continues right after it; any other bytes give BadMagic carrying the position of the magic and the value found there, and truncated bytes give an Io end-of-file error.",
 ["inputs","programs"],
 "every literal form (byte, byte string, char, float, each integer width and sign), each place where magic is allowed, both byte orders, and every single-byte and byte-order corruption or truncation of the magic",
 "Tests use two or three literals with a matching input; acceptance of nothing else is a universal claim.",
 [ERR,CG,"binread_derive/src/parser/types/magic.rs",DOC],[("error::magic",ERR),("get_magic",CG)],observe=["Error::BadMagic{pos,found}"])
p("C07","A data enum yields its first matching variant, or reports every failure",
 "Reading a data enum gives the first variant, in declaration order, whose magic, pre-assertions, fields and assertions are all satisfied at the enum's start position; the attempts before it leave no trace. If none matches, the error is EnumErrors listing each variant's own error once, in order and under its name (the default and return_all_errors), or NoVariantMatch at the enum's position (return_unexpected_error).",
 ["inputs","programs","fault_sequences"],
 "all enums of up to three variants over a menu of variant shapes that fail early, late or after seeking, nested enums included, every input in the bound",
 "Tests cover single hand-picked enums with one accepting or failing input; which variant wins is a property of every input.",
 [EN,TOP,ERR,DOC],[("try each variant",EN+": generate_data_enum"),("variant merging",TOP+": Enum::with_variant")],observe=["value / EnumErrors / NoVariantMatch"])
p("C08","Unit-like enums map exactly their declared discriminants or magics",
 "A unit-like enum with repr reads one value of the repr type in the byte order in force and yields the variant whose discriminant equals it; with magic it yields the first variant, in order, whose magic equals the value read and whose pre-assertions hold. Every other value gives NoVariantMatch at the enum's start position.",
 ["inputs","programs"],
 "every repr type, explicit, implicit, negative and extreme discriminants, every magic literal kind, both byte orders, and for 8-bit reprs every one of the 256 values (wider ones: every discriminant, its neighbours and byte swaps)",
 "Tests read one or two listed values; totality over the repr's values is not sampled.",
 [EN,TOP,DOC],[("generate_unit_enum_repr/_magic",EN)],observe=["value / NoVariantMatch"])
p("C09","File pointers resolve to the addressed data and do not disturb reading",
 "A file pointer's value is what its target type reads at (offset in force + pointer value), with the options in force for that field, however pointers are nested in structs, vectors, arrays, tuples, options, boxes or other pointers; after the containing object is read the reader stands right after the object's own sequential data. Resolution happens after the containing object's fields were read, or at once for deref_now and FilePtr::parse, and every pointer is resolved when the read succeeds.",
 ["inputs","programs"],
 "every pointer width and sign (values representable as a seek distance), offset 0, given, and given after, targets before, inside, after and overlapping the object, all nestings up to the bound",
 "Tests place a target right behind one pointer; addresses, overlaps and nestings are unbounded.",
 [FP,ST,IM,HE,PU,DOC],[("after_parse",FP+": FilePtr::after_parse"),("deferred calls wrapped in save/restore",ST+": read_fields"),("deref_now",ST+": deref_now")],observe=["pointer values and targets","reader position"])
p("C10","Padding, alignment, seeking and restoring place every read as declared",
 "pad_before/after skip exactly N bytes (signed), align_before/after move to the next multiple of N of the absolute position and not at all if already aligned, seek_before moves to the given place, pad_size_to advances to at least N bytes from the field's start, restore_position returns to where the reader stood before the field; all work at any stream position and combine in the documented order.",
 ["inputs","programs"],
 "every such directive and pair of them, amounts from 0 over boundary values, evaluated from constants or earlier fields, every start position class (all residues, beyond 2^32)",
 "Tests use one position and one amount for each.",
 [ST,DOC],[("generate_seek_before/after",ST),("map_align/map_pad",ST),("wrap_restore_position",ST)],observe=["positions at which later fields are read"])
p("C11","Assertions hold for every value returned, and fail with the declared error",
 "A value is returned only if all assertions and pre-assertions that apply to it (field, struct, enum, variant) hold; otherwise the first failing one, in order, determines the error: AssertFail with its message (or the text of its condition) at the object's start position, or Custom with the given error value. Messages and error values are evaluated only when the assertion fails, and pre-assertions are checked before any field is read.",
 ["inputs","programs"],
 "every assertion placement and form (bare, message, formatted, error value), up to three assertions per object, every combination of outcomes",
 "Tests check single assertions; order, laziness and completeness over combinations are not sampled.",
 [CG,PR,EN,ST,DOC],[("get_assertions",CG),("__private::assert",PR)],observe=["Ok values","AssertFail/Custom","evaluation of message expressions"])
p("C12","Counted and repeated data has exactly the declared elements",
 "count-ed vectors, arrays, tuples, the count/until/until_exclusive/until_eof/read_bytes helpers and Punctuated lists read exactly the declared number of elements (or up to the terminating element or the end of data), each by its own element type and with the options and arguments in force, in order; PosValue records the absolute position at which its value was read. An element that fails makes the whole read fail with that element's error.",
 ["inputs","programs"],
 "every collection and helper with element types from one byte to structs with magic, counts 0 to the bound and around power-of-two boundaries, every position of a failing element and of the terminator",
 "Tests use a few small counts; element boundaries, terminators and failure positions are not enumerated.",
 [IM,HE,PU,"binread/src/pos_value.rs"],[("Vec/array/tuple impls",IM),("helpers",HE),("separated/separated_trailing",PU)],observe=["collections read"])
p("C13","Null-terminated strings are exact and never panic",
 "A null-terminated string is exactly the units (bytes, or 16-bit units in the byte order in force) before the first null unit; the null is consumed and nothing after it. All conversions to text are total: any content converts without panicking, and the lossless conversions succeed exactly on valid text.",
 ["inputs","programs"],
 "all unit strings over an alphabet of ASCII, multi-byte, invalid and surrogate units up to the length bound, both byte orders, truncation at every byte",
 "Tests read three ASCII strings.",
 [STR],[("Vec<NonZeroU8/16>",STR),("to_string/into_string",STR)],observe=["NullString/NullWideString value, conversions, reader position"])
p("C14","Computed, conditional, temporary and passed values are wired as declared",
 "calc, default/ignore and if (with its alternate, which is evaluated only when needed) yield the declared values without consuming data when nothing is to be read; temp fields are read but not stored; args/args_tuple deliver exactly the given values to the nested type's import/import_tuple and to custom parsers, through vectors, options, boxes, arrays and pointers, and every expression is evaluated once, at its field, and sees the values of earlier fields.",
 ["inputs","programs"],
 "all placements of these directives with dependent expressions over earlier fields and imports, both outcomes of each condition, argument lists of 0 to 3 values, all containers",
 "Tests use one value and one branch each.",
 [ST,CG,"binread_derive/src/lib.rs",IM],[("read_value/wrap_condition",ST),("get_passed_args",ST),("add_imports",CG),("clean_field_attrs","binread_derive/src/lib.rs")],observe=["values","bytes consumed"])
p("C15","A failed try field is None and leaves the reader where the field began",
 "A field marked try is Some(value) when the value can be read and None when it cannot, whatever the type and wherever inside it the failure occurs (what a pointer points to is read later and is not part of it); in the latter case reading goes on from the position at which the value began.",
 ["inputs","programs","fault_sequences"],
 "every element type (primitive, array, tuple, vector, string, struct, enum, custom parser), every failure point inside it, every following field",
 "The tests try a single u32 on empty input, which is the one case that cannot move the reader.",
 [ST,DOC],[("try_conversion",ST)],observe=["value of the try field and of later fields"])
p("C16","map and try_map deliver the mapped value or the mapped error",
 "map stores exactly the function's result on the value read with the declared type and options; try_map does so on Ok, and on Err fails with that error (Io for an io::Error, else Custom) and no value; on structs and enums likewise, in the object's own byte order. Nothing beyond the mapped type's bytes is consumed.",
 ["inputs","programs"],
 "field-, struct- and enum-level map/try_map over every source kind, capturing and plain functions, every outcome of the function, every input in the bound",
 "Tests map one value each.",
 [CG,ST,PR,DOC],[("Map codegen",CG+": generate"),("map_value",ST),("coerce_fn",PR)],observe=["values, Custom errors"])
p("C17","The no_std reader behaves like the standard library's",
 "In no_std builds the bundled Cursor, read_exact and byte iteration behave as their std::io counterparts: every sequence of read, read_exact, bytes, seek (from start, current, end), stream position and set_position calls yields the same data, results, error kinds and positions, and none panics.",
 ["histories","inputs"],
 "all operation sequences to closure of the reachable state space over buffers of 0..4 bytes, with extreme and small seek arguments and every buffer size in the alphabet",
 "The tests run one linear sequence of a few operations, and never seek from the end.",
 [CUR,NS,"binread/src/io/error.rs"],[("Cursor",CUR),("read_exact/Bytes",NS)],observe=["return values, position"])
p("C18","All feature configurations parse identically",
 "The same declaration and input give the same value, error and position with std, without std, with const_generics and with debug_template (with or without an output set), and enabling debug output never changes what is parsed.",
 ["configurations","inputs","programs"],
 "all supported feature sets × the declarations and inputs of the layout check",
 "The repository's tests run per feature set but never compare the outcomes, and never with output enabled.",
 [IM,LIB,STR,FP,CG,"binread/src/io/mod.rs"],[("cfg(feature) branches",IM)],observe=["BinRead::read* in each configuration"])
p("C19","Hostile lengths and offsets cause errors, not panics or unbounded allocation",
 "However large a length, count, offset or pointer in the data is, reading truncated or hostile data returns an error; it never panics, aborts or allocates memory out of proportion to the data that is actually there.",
 ["inputs"],
 "for every length- or address-controlled construct, all boundary values of the controlling integer (0, 1, around each power-of-two width limit, maximum, and sign changes) with every amount of data behind it up to the bound",
 "Tests never declare more than they supply.",
 [HE,PU,IM,FP,ST],[("Vec collect",IM),("read_bytes",HE),("separated",PU),("into_seek_from",FP)],observe=["peak allocation","panics"])
p("C20","The derive accepts exactly the documented declarations",
 "Every documented directive is accepted on every kind of item that the reference lists for it, in each documented spelling and together with every directive it does not exclude; conflicting, misplaced, malformed or unknown directives are rejected at compile time with an error at the offending declaration. The derive itself never panics.",
 ["programs"],
 "directive × item kind × spelling, and all pairs of directives on a field, a struct, an enum and a variant",
 "The ui tests list about thirty rejected snippets; acceptance and rejection over the product are not covered.",
 ["binread_derive/src/parser/mod.rs",FLD,TOP,"binread_derive/src/parser/meta_types.rs",DOC],[("attr_struct!/parse_any!","binread_derive/src/parser/macros.rs"),("TrySet conflicts","binread_derive/src/parser/mod.rs")],observe=["rustc diagnostics"])
p("C21","The debug template describes exactly what was read",
 "With debug_template output enabled, every value read is recorded at its true position, with its type, its byte order and its field's name (a generated name where there is none), in reading order and once (magics under the name magic); a Vec or array is recorded as one list with element type and length, before what its elements record themselves; structs are bracketed, also when reading fails part-way or a later check fails. Records go to the output that is set and to no other. Generated names are unique within a run.",
 ["inputs","programs"],
 "all declarations and inputs of a template universe (every primitive, strings, vectors, arrays, pointers, nesting), both byte orders, any start position",
 "No test looks at the template's content.",
 [BT,IM,STR,FP,"binread_derive/src/codegen/read_options/debug_template.rs"],[("write_named/write_vec_named",BT),("variable_name/dont_output_to_template",CG)],observe=["bytes written to the template output"])
p("C22","Debug template records stay whole and uniquely named under concurrency",
 "When several threads read, set or unset the template output at once, each record reaches one output whole and unmixed, generated names are unique, nothing is written to an output after unsetting it has returned, and no interleaving deadlocks or panics.",
 ["schedules"],
 "all interleavings of 2 to 3 threads with 1 to 3 template operations each",
 "Tests never use the template from more than one thread.",
 [BT],[("FILE mutex",BT),("atomic counters",BT)],observe=["bytes written per output"])
p("C23","Successive reads on one reader are independent and repeatable",
 "Reading several objects in sequence gives for each what reading it alone at that position gives: a read that failed, was retried, or was preceded by other reads leaves no trace, the same data at the same position always yields the same outcome, and an attempt that failed for lack of data succeeds unchanged once the data is there.",
 ["histories","inputs"],
 "all sequences up to the depth bound of reads of different types, failing and succeeding, re-positioning, and growing the data, on one reader",
 "Tests read once from a fresh reader.",
 [CG,EN,IM,LIB],[("no state outside the reader; rewind on error",CG)],observe=["each call's outcome and position in a history"])
p("C24","Primitive values decode bit-exactly and take exactly their width",
 "Every primitive (integers of 8 to 128 bits, floats, char) consumes exactly its width and equals the bytes interpreted in the byte order in force, bit for bit (NaN payloads and signed zeros included); if fewer bytes are available the read fails with end-of-file and the position is unchanged. Every entry point (read, read_be/le/ne, read_type, *_args, read_options) agrees with this.",
 ["inputs","configurations"],
 "every primitive × byte order × entry point × truncation length, all 256 values of one-byte types, all 65536 of two-byte types, every single-bit pattern and its complement of wider types, every start position class",
 "Tests read a few constants of four types.",
 [IM,LIB,"binread/src/endian.rs"],[("binread_impl!",IM),("BinReaderExt",LIB)],observe=["value and position"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
