#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for titles/statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
SER, DE, OP, PR = "serde-xdr/src/ser.rs", "serde-xdr/src/de.rs", "serde-xdr/src/opaque.rs", "serde-xdr/src/primitive.rs"
DER, PA, GC, KW, MA = "serde-xdr-derive/src/lib.rs", "rpcgen/src/parser.rs", "rpcgen/src/gen_code.rs", "rpcgen/src/keyword.rs", "rpcgen/src/main.rs"

p("C01", "Encoding is exactly the RFC 4506 representation",
  "For every value of every supported type, encoding yields exactly the RFC 4506 bytes: big-endian integers and floats of 4 or 8 bytes (narrow integers, booleans and characters widened to 4), strings and byte strings as length, bytes and zero padding to a multiple of four, variable-length arrays and maps as count plus items in order, and fixed arrays, tuples and structures as their items alone. Optional data is a presence word (0 or 1) plus the item, enumerations and unions are their discriminant plus the selected arm, and void and unit types occupy no bytes. The bytes depend on nothing but the value.",
  ["inputs"], "every value of every type built from the supported shapes (nesting, lengths and scalar values unbounded)",
  "The tests encode a few dozen hand-picked values, most of one or two elements; they cannot cover all scalar values, all lengths modulo padding, or the nesting of shapes inside one another.",
  [SER, OP], [("Serializer methods append to one output buffer", SER+": impl ser::Serializer for &mut Serializer"), ("serialize_bytes computes padding", SER+": serialize_bytes")],
  ["serde_xdr::to_bytes"], [dict(name="Serializer.output", meaning="bytes produced so far", where=SER)])
p("C02", "Decoding an encoding returns the same value",
  "For every value of every supported type, decoding the bytes produced by encoding it as the same type succeeds and returns an equal value, bit for bit for floating point. Encoding the decoded value again returns the same bytes.",
  ["inputs"], "every value of every supported type, including nested and recursive shapes",
  "The tests check encode and decode separately on a handful of constants; no test closes the loop over nested shapes, all lengths, or all scalar values.",
  [SER, DE, OP, PR], [("serializer and deserializer agree per serde shape", SER+", "+DE)],
  ["serde_xdr::to_bytes", "serde_xdr::from_bytes"])
p("C03", "Decoding returns only the value the bytes denote",
  "Whenever decoding succeeds, the value returned is the one RFC 4506 assigns to those bytes for the target type. A 32-bit word outside the target integer's range, a character word that is not a Unicode scalar value, text that is not valid UTF-8, and a discriminant that is negative or names no variant are refused with an error: they are never wrapped, clamped, replaced or mapped to some other value. A boolean or presence word reads as false or absent exactly when it is zero.",
  ["inputs"], "every byte string and every supported target type",
  "The tests decode only well-formed constants of in-range values; the space of 2^32 words per field and all malformed combinations is outside what they sample.",
  [DE, OP, PR], [("each deserialize_* method reads one wire item and converts it", DE+": impl de::Deserializer for &mut Deserializer"), ("variant_seed checks the discriminant", DE+": variant_seed")],
  ["serde_xdr::from_bytes"])
p("C04", "Decoding never crashes, and truncated input is always refused",
  "For every byte string and every supported target type of bounded nesting, decoding returns either a value or an error and never panics. Every strict prefix of a valid encoding is refused as insufficient data, and the shortfall reported is positive and not larger than the number of bytes really missing.",
  ["inputs", "fault_sequences"], "every byte string (in particular every truncation of every valid encoding, and every corrupt length) and every supported target type",
  "No existing test decodes truncated or corrupt input at all.",
  [DE, OP], [("Deserializer::read checks the remaining length", DE+": fn read"), ("padding is skipped after strings and byte strings", DE+": read_string, read_bytes")],
  ["serde_xdr::from_bytes"], [dict(name="Deserializer.input", meaning="the bytes not yet consumed", where=DE)])
p("C05", "Decoding consumes its input exactly",
  "Decoding succeeds only if the value's encoding is the whole input: a valid encoding followed by any non-empty suffix is refused as trailing data, and the error reports exactly the number of bytes left over. The value decoded and the number of bytes it occupies do not depend on what follows.",
  ["inputs"], "every valid encoding of every supported type, followed by every suffix",
  "No existing test decodes input with trailing bytes.",
  [DE], [("from_bytes checks that the input is empty at the end", DE+": pub fn from_bytes")],
  ["serde_xdr::from_bytes"])
p("C06", "A claimed length cannot make the decoder allocate without data",
  "The memory decoding allocates is bounded by a constant of a few megabytes plus a small multiple of the input's length, whatever lengths or counts the input claims. A short input that claims up to 4294967295 bytes or elements is refused without allocating space for them.",
  ["inputs", "fault_sequences"], "every supported target type whose elements occupy wire bytes, and every claimed length or count",
  "Tests only decode honest lengths of at most three elements; the quantity that matters (peak allocation under a hostile length) is not observed by any test.",
  [OP, DE], [("enumerate_u8 builds the opaque buffer", OP+": enumerate_u8"), ("Seq/Map size_hint drive preallocation", DE+": size_hint")],
  ["serde_xdr::from_bytes under a counting allocator"])
p("C07", "What XDR cannot represent is refused, never mis-encoded",
  "Encoding refuses with an error every value that has no XDR representation: sequences and maps of unknown length, lengths or counts above 4294967295, variant indices above 2147483647, and 128-bit integers. It never emits bytes with a truncated length, count or discriminant for them, at any nesting depth, and it does not panic.",
  ["inputs"], "every serialisable value, including those whose declared length or variant index is out of range, wherever it is nested",
  "No existing test encodes anything unrepresentable.",
  [SER], [("length and variant index conversions", SER+": serialize_seq, serialize_map, serialize_bytes, serialize_*_variant")],
  ["serde_xdr::to_bytes"])
p("C08", "Opaque adapters carry raw bytes with RFC 4506 framing",
  "A field using the fixed-length opaque adapter is encoded as its bytes followed by zero padding to a multiple of four and no length; with the variable-length adapter (also inside the variable-length opaque element type) the same bytes are preceded by their 4-byte length. Decoding restores exactly the original bytes for every length and content, consumes exactly the framed size, and leaves the data that follows it intact.",
  ["inputs"], "every byte content and every length (fixed lengths and variable lengths), in every position: alone, in structures, arrays, optional data and unions",
  "The tests use lengths 1 to 3 in a single position; lengths modulo four, longer data and position are sampled at three points.",
  [OP], [("enumerate_u32 packs bytes into words on encode", OP+": enumerate_u32"), ("enumerate_u8 unpacks words on decode", OP+": enumerate_u8")],
  ["serde_xdr::to_bytes/from_bytes on fields with serde_xdr::opaque::{fixed,variable}"])
p("C09", "The signed32 adapter carries enumeration values unchanged",
  "A field using the signed 32-bit adapter is encoded as exactly its assigned 32-bit value, negative and sparse values included, and decoding returns the variant to which that value is assigned. Every value that is not assigned is refused with an error, and the data that follows is unaffected.",
  ["inputs"], "every 32-bit value and every assignment of values to variants",
  "The tests use one enumeration with one value (3).",
  [PR], [("signed32::serialize / deserialize", PR)],
  ["serde_xdr::to_bytes/from_bytes on fields with serde_xdr::primitive::signed32"])
p("C10", "Encodings compose: a part's bytes do not depend on context",
  "The encoding of a composite value is the concatenation, in declaration or iteration order, of the counts or discriminants XDR prescribes and the encodings of its parts taken alone. The encoding of every value has a length that is a multiple of four, whatever its position, siblings, nesting depth or size.",
  ["inputs"], "every composite type and value: any nesting depth, any number of items, any mixture of part sizes",
  "The tests only build composites of one level and at most three small parts.",
  [SER, OP], [("one shared output buffer for nested serializers", SER)],
  ["serde_xdr::to_bytes"])
p("C11", "A refusal inside a value refuses the whole",
  "Encoding or decoding a composite value fails whenever encoding or decoding one of its parts fails, whatever the part's position and nesting depth: the error of a part is never swallowed or turned into an absent, default or shorter value, and the message a user type gives its own error reaches the caller. What XDR cannot serve because it is not self-describing is refused on decoding with an error for every input, without a panic: values of unspecified type, ignored values, untagged and internally tagged representations, and 128-bit integers.",
  ["inputs", "fault_sequences"], "every part that can refuse (user errors after any number of words, unsupported requests, visitors that take nothing), in every context it can be nested in, for every input",
  "No existing test makes a part fail inside a composite, or asks for a self-describing value; there are as many positions as there are nestings.",
  [DE, SER, "serde-xdr/src/error.rs"], [("errors are returned with ? from each nested call", "serde-xdr/src/de.rs: Seq, Map, Enum; serde-xdr/src/ser.rs: serialize_element, serialize_field"), ("deserialize_any and deserialize_ignored_any", DE), ("Error::custom", "serde-xdr/src/error.rs")],
  ["serde_xdr::to_bytes", "serde_xdr::from_bytes"])
p("D01", "Indexed unions encode their declared discriminant and arm",
  "A type deriving the indexer codec is encoded as the 32-bit discriminant its mapping assigns to the variant followed by the variant's items in order, and decoding selects the variant the mapping assigns to the discriminant and restores every item. This holds for any number of variants, any number and type of items per variant and any discriminant values, negative and sparse ones included; a discriminant the mapping refuses is an error, truncated data is an error, and neither panics.",
  ["inputs", "programs"], "every enumeration type accepted by the derive (variant count, item counts and types, discriminant assignment) and every value and input of it",
  "The tests derive one enumeration with four variants of at most two items and round-trip one value each.",
  [DER, "serde-xdr/src/lib.rs"], [("xdr_indexer expands Serialize/Deserialize", DER+": xdr_indexer")],
  ["to_bytes/from_bytes on a type with #[derive(XdrIndexer)]"])
p("D02", "Value-carrying unions keep their discriminant and arm",
  "A type deriving the union codec is encoded as the variant's first item (the discriminant) followed by its remaining items in order; decoding reads the discriminant with its own type, selects the variant the mapping assigns to it, and restores the discriminant and every item, also for a variant shared by many discriminants. This holds for any number of variants and items and for signed, unsigned, boolean and enumeration discriminants; a discriminant the mapping refuses is an error, truncated data is an error, and neither panics.",
  ["inputs", "programs"], "every enumeration type accepted by the derive whose variants all carry the discriminant, and every value and input of it",
  "The tests derive three enumerations with four variants of at most two items and round-trip one value each.",
  [DER, "serde-xdr/src/lib.rs"], [("xdr_union expands Serialize/Deserialize", DER+": xdr_union")],
  ["to_bytes/from_bytes on a type with #[derive(XdrUnion)]"])
p("P01", "The parser returns exactly the definitions written",
  "For every interface file in the supported language (constants, typedefs, enumerations, structures, unions, programs, pass-through lines, and every declaration form with every type), parsing succeeds and returns the definitions in source order with exactly the names, types, signedness, array kinds, bounds, values, case labels, default arms and nesting that were written. Nothing is dropped, merged, reordered or invented. A declaration returned tells the name and type written, a value whether it is TRUE, FALSE or a number, and a number asked for as an integer type is the value it denotes, or an error when that type cannot hold it.",
  ["programs"], "every specification derivable from the grammar of RFC 4506 section 6.3 plus the documented extensions (char, short, program, version)",
  "Each parser test feeds one short fragment to one production; combinations, nesting, identifier shapes that resemble keywords, and long files are not reached.",
  [PA, KW], [("nom productions, ordered alternatives", PA+": declaration, type_specifier, type_def, union_body, program"), ("reserved words", KW)],
  ["rpcgen::parser::parse"])
p("P02", "Text outside the language is refused as a whole",
  "For every input text (with types nested to a bounded depth) that is not a sentence of the supported language, parsing returns an error: it never panics and never returns the definitions of only part of the text. Reserved words are refused as names, and a missing, extra, misplaced or foreign token anywhere in the file is refused.",
  ["programs", "fault_sequences"], "every text; in particular every token sequence up to a length and every single-token deletion, insertion, replacement and transposition of a valid file",
  "No existing test checks that a malformed file is refused (only two tests check an error at all, on an identifier and on a number).",
  [PA, KW], [("parse checks that nothing is left over", PA+": pub fn parse"), ("identifier refuses reserved words", PA+": identifier")],
  ["rpcgen::parser::parse"])
p("P03", "White space and comments never change what is parsed",
  "White space and block comments may stand between any two tokens of an interface file, in any amount, and inserting, removing or replacing them there never changes the result of parsing; a token is never split or joined by them. A comment's content is ignored, whatever it contains.",
  ["programs"], "every valid specification and every placement of white space and comments between its tokens",
  "The tests place comments in a vacuum (the comment production alone) and use one space between tokens.",
  [PA], [("comment0 between tokens", PA+": comment0")],
  ["rpcgen::parser::parse"])
p("G01", "Numbers in the interface file keep their value in generated code",
  "Every decimal, hexadecimal and octal number (in a constant, an enumerator, a case label or an array length, directly or through a named constant or enumerator) has in the generated code exactly the value it denotes in the interface file. A number that does not fit its use, an undefined enumerator value or case label, and a name defined by itself are refused with an error; a number is never wrapped, truncated or read in another base. Other names that are not defined in the file stay names (of the code around the generated code).",
  ["programs", "inputs"], "every numeric literal in every position, and every chain of names resolving to it",
  "The tests convert the literal 10 in three bases.",
  [PA, GC], [("TryFrom<&Constant>", PA), ("resolve_const_value, resolve_enum_value, resolve_name", GC+": Context"), ("constants_token", GC)],
  ["constants, enumerator values and array sizes of the compiled generated code"])
p("G02", "Generated types speak the RFC 4506 wire format of their definition",
  "For every interface definition the default generator supports, the generated code compiles and each generated type encodes and decodes exactly the RFC 4506 representation of its definition: fields in order with the right width and signedness, arrays, strings, opaque and optional data, enumerations by assigned value, and unions by discriminant and arm. Bytes that are not the encoding of such a value (unknown discriminant beyond the assigned range, truncated or trailing data) are refused without a panic. (Maximum lengths of variable arrays are not enforced.)",
  ["programs", "inputs"], "every definition built from the supported declarations, and every value and malformed input of it",
  "No existing test generates code from a definition at all: gen_code is only tested through name conversion and constant lookup.",
  [GC, OP], [("convert_struct_token, convert_union_token, convert_enum_token", GC), ("convert_type_token, convert_primitive_token", GC)],
  ["compiled output of rpcgen::gen_code::gen_code, exercised through serde_xdr"])
p("G03", "Trait options change the Rust API, never the wire format",
  "Whatever combination of trait options code is generated with, the generated code compiles and every generated type has the same wire format as RFC 4506 prescribes for its definition, in every position an enumeration, union or opaque value can occupy (field, array element, optional data, union arm, union discriminant, through a typedef). An enumeration value or discriminant outside the definition is never accepted under the enumeration-trait option, and only by a default arm under the union option.",
  ["programs", "inputs", "configurations"], "every supported definition, every combination of options, and every value and malformed input",
  "No existing test generates code under any option.",
  [GC, PR, OP, DER], [("Config and the enum/union conversion branches", GC), ("derive macros used by generated code", DER)],
  ["compiled output of gen_code under each Config, exercised through serde_xdr"])
p("G04", "A typedef is interchangeable with what it names",
  "Replacing the use of a typedef name by its definition, or introducing typedefs (also chains of them) for any type, never changes the wire format of any generated type, under any option, whether the typedef names a primitive, an enumeration, a structure, a union, a string, opaque data, an array or optional data, and whatever the order of the definitions. (Where an alias cannot express it, namely opaque data under the type-alias option, generation is refused instead.)",
  ["programs", "configurations"], "every typedef target, every chain length, every position of use, every option, every definition order",
  "No existing test generates code from a typedef.",
  [GC], [("resolve_type_token substitutes typedefs", GC)],
  ["compiled output of gen_code, exercised through serde_xdr"])
p("G05", "Generation ends with code or an error, never a crash",
  "For every interface file the parser accepts, and every option, generating code returns either code or an error: it does not panic, overflow, recurse without end or run away, whether the file is meaningful or not (undefined or self-referential names, void members, empty or odd unions, extreme numbers). What it returns on success is syntactically valid Rust.",
  ["programs", "configurations"], "every accepted specification and every combination of options",
  "No existing test runs the generator on a whole specification.",
  [GC], [("Result-returning conversion functions; name and typedef resolution", GC)],
  ["rpcgen::gen_code::gen_code"])
p("G06", "Every legal name becomes a usable, predictable Rust name",
  "Each type, enumerator and union arm appears in the generated code under its interface name with each underscore-separated word capitalised and the underscores removed (a name without underscores only has its first letter capitalised); each field appears in lower case, with an underscore before each capital that follows a lower-case letter or a digit; each constant keeps its name. Names that are or become Rust keywords are escaped so that the generated code still compiles, and no definition, field or arm is lost or attributed to another. (Two names that become the same Rust name, and names the generated code uses itself, such as Result, Vec or a constant named value, are excepted.)",
  ["programs"], "every identifier in every position (constant, type, enumerator, field, arm), including all Rust keywords and every mixture of case, digits and underscores",
  "Eight tests convert single names; none checks the generated code, keywords or positions.",
  [GC, KW], [("upper_camel_case, snake_case, capitalize", GC), ("rust_reserved", KW)],
  ["compiled output of gen_code"])
p("G07", "Generation depends only on the definitions",
  "Generating code is a function of the definitions and the options: repeating it gives the same text, the layout of the file, comments, pass-through lines and program definitions have no effect on it, and reordering definitions only reorders the generated items. Adding a definition leaves the code generated for unrelated definitions unchanged.",
  ["programs", "configurations", "histories"], "every supported specification, every permutation and subset of its definitions, every option, every number of repetitions",
  "No existing test generates code.",
  [GC, PA], [("setup_context collects definitions before conversion", GC)],
  ["rpcgen::gen_code::gen_code output as a multiset of items"])
p("G08", "Generated default values are valid encodable values",
  "The default value of every generated type encodes without error or panic, and decoding those bytes returns the same value. The default of an enumeration is its smallest assigned value, the default of a union without a default arm is its arm with the smallest discriminant (with that discriminant), and the default of a structure is the default of its fields.",
  ["programs", "configurations"], "every supported definition without default arms and every combination of options",
  "No existing test generates code.",
  [GC], [("default_value selection", GC+": convert_enum_token, convert_union_token")],
  ["Default::default() of compiled generated types"])
p("G09", "Conversions generated with an enumeration or union tell the truth",
  "For every generated enumeration, under every option, the enumerator as a number, its conversions to and from a number and its comparison agree with the assigned numbers and with decoding: every assigned number gives the enumerator that decoding gives, and a number outside the range of the assigned ones (under the standard-trait option: any number not assigned) is refused. Under the indexer and union options the index of an enumerator or of an arm with labels is the discriminant it is encoded with, the name looked up by a discriminant is the name of what decoding selects, and without a default arm the union option refuses a discriminant no arm answers to. A clone equals the original and encodes alike, and none of these panics, whatever the number.",
  ["programs", "inputs", "configurations"], "every enumeration and union, every combination of options, every 32-bit number",
  "No existing test generates code from an enumeration or union; the conversions of generated code are never called.",
  [GC, PR, DER], [("enumeration trait implementations and the Config branches", GC), ("XdrIndexer and XdrUnion derives", DER)],
  ["compiled output of gen_code: as i32, TryFrom<i32>, From, AsRef<i32>, PartialEq, Clone, XdrIndexer::index and name_by_index, XdrUnion::name_by_value"])
p("T01", "The command line maps options and failures faithfully",
  "For every combination of options, the tool prints exactly the code the library generates for the documented configuration (the default completes missing enumeration and union values; the enumeration-trait option wins over the indexer option for enumerations; the union option wins over the indexer options for unions) and exits with status 0. If the file cannot be read, parsed or generated it prints no code, reports on standard error and exits with a non-zero status; it never writes to the interface file, and does not report success when the code could not be printed.",
  ["configurations", "inputs"], "every subset of the options in every order, on every kind of input file (supported, unsupported, malformed, unreadable)",
  "No existing test runs the binary.",
  [MA, GC], [("main builds the Config from flags", MA)],
  ["the rpcgen binary: stdout, stderr, exit status"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
