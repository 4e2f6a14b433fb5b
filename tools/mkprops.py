#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)
T = "internal/generator/templates/"
ENC = [T+"encode.go.tmpl", T+"decode.go.tmpl", T+"struct.go.tmpl"]

p("C01", "Marshal then Unmarshal gives the value back, for every schema and value",
  "For every schema the generator accepts and every value that is valid for it, marshalling the value succeeds and unmarshalling the resulting bytes into a fresh object succeeds, yields a value equal to the original in every field that is present, and consumes exactly the bits that were written. This holds for any nesting of structs, choices, unions, enums, bitmasks, subtypes, arrays, optional and conditional fields, and it also holds for objects that follow one another in a single bit stream.",
  ["programs", "inputs"], "all schemas x all valid values x all starting bit positions",
  "The tests round-trip a few hand-written primitives and one hand-written schema; the code generator composes features, so the state space is the product of schema shape and value, and the reference-format tests do not run without Bazel.",
  ["marshal.go", "ztype/array_encode.go", "ztype/array_decode.go", "ztype/object_array_encode.go", "ztype/object_array_decode.go"] + ENC,
  [("generated encoders and decoders mirror each other field by field", T+"encode.go.tmpl / "+T+"decode.go.tmpl"), ("Marshal/Unmarshal", "marshal.go")],
  ["bytes returned by zserio.Marshal", "object filled by zserio.Unmarshal"])

p("C02", "The byte stream has exactly the layout the schema prescribes",
  "The bits produced by marshalling are exactly: the fields in declaration order with no gaps, fixed-width integers most significant bit first in two's complement, enums and bitmasks as their base type, strings and byte arrays as a varsize byte count followed by the bytes, arrays without declared length as a varsize element count followed by the elements, arrays of declared length as the elements only, presence bits and union tags where the schema puts them, and zero bits up to the next byte boundary at the end. Unmarshalling reads precisely that layout, so data written by any other implementation of the layout is understood.",
  ["programs", "inputs"], "all schemas without packed arrays x all valid values",
  "Symmetric mistakes (both directions changed alike) pass any round-trip test, and the only tests that compare with reference bytes need Bazel and never run here.",
  ["ztype/bits_encode.go", "ztype/bits_decode.go", "ztype/string_encode.go", "ztype/bytes_encode.go", "ztype/array_encode.go", "ztype/array_traits.go"] + ENC,
  [("primitive writers/readers", "ztype/*_encode.go, ztype/*_decode.go"), ("field order and headers", T+"encode.go.tmpl")],
  ["bytes returned by zserio.Marshal", "object filled from bytes produced by the specification"])

p("C03", "Variable-length integers use their one canonical encoding and full range",
  "Each variable-length integer type (varint16/32/64, varint, varuint16/32/64, varuint, varsize) encodes every value of its range in the fewest bytes its format allows, with the continuation and sign bits where the format puts them, and decodes every such encoding back to the same value. A value outside the type's range is refused with an error on encoding, and decoding never yields a value outside the type's range without an error.",
  ["inputs"], "all 64-bit values and all byte strings, for the nine types",
  "The unit tests list a few dozen values per type; the encodings change shape at every 6/7/8-bit group boundary and at the extremes (e.g. the minimum of varint).",
  ["ztype/varint_encode.go", "ztype/varint_decode.go", "ztype/varuint_encode.go", "ztype/varuint_decode.go", "ztype/limits.go"],
  [("length selection from the bit size", "ztype/varint_encode.go SignedBitSize / varuint_encode.go UnsignedBitSize"), ("byte loops with continuation bits", "ztype/varint_decode.go, ztype/varuint_decode.go")],
  ["bits written and values read by fields and arrays of these types"])

p("C04", "A value that does not fit its wire type is refused, never altered or dropped",
  "If any part of an object - a scalar field, an element of an array (packed or not), an enum or bitmask value, a bit field of constant or computed width, a length - holds a value that its wire type cannot represent, then marshalling the object returns an error. It never succeeds with a truncated, wrapped, missing or otherwise different value on the wire.",
  ["inputs", "programs"], "all schemas x all in-memory values, in particular those outside the wire range",
  "Tests exercise refused values for single primitives only; array elements and generated code around them take different code paths.",
  ["ztype/bits_encode.go", "ztype/array_traits.go", "ztype/array_encode.go", "ztype/packed_array_traits.go", "ztype/delta_context.go", "ztype/object_array_encode.go"] + ENC,
  [("range check in the bit-field writers", "ztype/bits_encode.go"), ("error propagation through arrays", "ztype/array_encode.go")],
  ["error returned by zserio.Marshal"])

p("C05", "Packed arrays of numbers are lossless and packed exactly when that is shorter",
  "A packed array of integers (or enums or bitmasks) starts with a one-bit descriptor saying whether delta packing is used; if so, a 6-bit delta width, the first element in full and each further element as a signed difference of width+1 bits (no bits when all elements are equal) follow, otherwise all elements follow in full. Delta packing is chosen exactly when the largest difference needs at most 62 bits and the packed form is strictly shorter, and either way decoding returns exactly the elements that were written; element types that cannot be delta packed (bool, float, string, bytes, extern) are written without descriptor and lose nothing.",
  ["inputs", "programs"], "all element types x all element sequences of every length",
  "Unit tests cover a handful of sequences; the decision depends on lengths, widths, signs and the differences of all consecutive pairs, with extremes near 62/63/64-bit differences.",
  ["ztype/delta_context.go", "ztype/packed_array_traits.go", "ztype/array_encode.go", "ztype/array_decode.go", "ztype/array_traits.go"],
  [("delta context: init pass, decision, descriptor, deltas", "ztype/delta_context.go")],
  ["bytes of packed arrays", "decoded arrays"],
  [("packing context", "previous value, delta width, sizes, decision", "ztype/delta_context.go DeltaContext")])

p("C06", "Packed arrays of compounds keep one delta context per field and lose nothing",
  "In a packed array of structs, choices or unions every integer, enum and bitmask leaf (through nested compounds) is delta packed with its own context shared by all elements of the array, its descriptor written where that leaf is first written; presence bits, conditional fields, selectors, alignment and non-packable leaves are written as usual, and arrays inside an element are packed arrays of their own. Decoding returns exactly the elements that were written, for every combination of present and absent fields and of choice and union branches across the elements.",
  ["inputs", "programs", "histories"], "all compound shapes x all element sequences (each sequence is a history of context updates)",
  "One reference schema uses packed compounds and its test does not run; which contexts get initialised depends on which optional fields and branches each element of the sequence uses.",
  ["ztype/object_array_encode.go", "ztype/object_array_decode.go", "ztype/object_array_traits.go", "packing_context_node.go", T+"packing_context_create.go.tmpl", T+"packing_context_init.go.tmpl", T+"packing_context_encode.go.tmpl", T+"packing_context_decode.go.tmpl", T+"choice.go.tmpl", T+"union.go.tmpl", T+"enum.go.tmpl", T+"bitmask.go.tmpl"],
  [("packing context tree parallel to the fields", "packing_context_node.go"), ("create / init / encode / decode passes index the same tree", T+"packing_context_*.go.tmpl")],
  ["bytes of packed compound arrays", "decoded arrays"])

p("C07", "The bit stream is exact at any bit offset, and alignment pads to the boundary",
  "Any sequence of bit, bool, byte, byte-slice and align operations on the bit writer produces the concatenation of the written bits, most significant first, with align(n) adding the least number of zero bits that makes the position a multiple of n, for every n from 1 to 255 and every position; the bit reader returns the same data for the same sequence of operations, and both report the right position. Closing pads the last byte with zero bits and loses nothing, and a field declared with align(n) starts at a multiple of n bits from the start of the stream.",
  ["histories", "inputs"], "all operation sequences at all bit positions, all alignment values",
  "Three unit tests align once after one bit; positions, mixes of operations and larger boundaries are unreachable by sampling a few.",
  ["zstream/reader.go", "zstream/writer.go", "ztype/bit_alignment.go", T+"encode.go.tmpl", T+"decode.go.tmpl"],
  [("bit counters and discard computation", "zstream/reader.go, zstream/writer.go")],
  ["bytes in the underlying writer", "values returned by the reader", "positions returned by Align"],
  [("bit position", "number of bits read or written so far", "zstream/*.go")])

p("C08", "The reported bit size equals the number of bits marshalling writes",
  "For every object and every starting bit position, the bit size the object reports for that position is exactly the number of bits marshalling writes when it starts at that position, including length headers, presence bits, alignment padding, unions, choices, arrays and packed arrays. Computing the size never fails or panics for an object that can be marshalled and does not change what a later marshal writes.",
  ["inputs", "programs"], "all schemas x all valid values x all starting positions",
  "The tests check the size of a few primitives; for composites the size code is a separate generated traversal that nothing compares with the writer.",
  ["ztype/array.go", "ztype/object_array.go", "ztype/array_traits.go", "ztype/varint_encode.go", "ztype/varuint_encode.go", "ztype/bit_alignment.go", T+"bitsizeof.go.tmpl", T+"builtin_bitsizeof.go.tmpl", T+"packing_context_bitsize.go.tmpl"],
  [("bit-size traversal", T+"bitsizeof.go.tmpl"), ("array sizes", "ztype/array.go, ztype/object_array.go")],
  ["ZserioBitSize result", "writer position before and after marshalling"])

p("C09", "Optional and conditional fields are on the wire exactly when they are present",
  "An optional field is preceded by one presence bit, is written exactly when it is set, and decodes to set or unset accordingly; a field with an if-clause has no presence bit and is written and read exactly when its condition, evaluated over the fields and parameters already known, is true. The presence of one field never disturbs the position or value of the others, for scalars, compounds and arrays alike.",
  ["inputs", "programs"], "all presence patterns x all condition expressions x all field types",
  "One test toggles one condition; presence patterns are exponential in the number of fields and interact with arrays, alignment and compounds.",
  [T+"encode.go.tmpl", T+"decode.go.tmpl", T+"packing_context_encode.go.tmpl", T+"packing_context_decode.go.tmpl"],
  [("presence bit and pointer field", T+"encode.go.tmpl"), ("if-clause evaluation", "internal/generator/expression.go")],
  ["bytes", "set/unset fields after decoding"])

p("C10", "A choice carries exactly the branch its selector picks",
  "A choice writes and reads exactly the field of the case whose labels contain the selector value - any label of a case, including cases with several labels and enum or bitmask labels - or the default field if no label matches, or nothing for an empty case. No two selector values are confused, and fields of other branches never reach the wire.",
  ["inputs", "programs"], "all choice shapes x all selector values",
  "One schema with single-label cases is exercised, and only by tests that do not run here.",
  [T+"choice.go.tmpl", "internal/ast/choice.go"],
  [("switch over the selector", T+"choice.go.tmpl"), ("evaluation of the case labels", "internal/ast/choice.go")],
  ["bytes", "decoded branch"])

p("C11", "A union's tag and payload always agree, and unknown tags are refused",
  "A union writes a varsize tag identifying the selected member followed by exactly that member, and decoding selects the same member and value. A union whose tag identifies no member - on the wire or in memory - is refused with an error instead of being read or written as if it were empty.",
  ["inputs", "programs"], "all unions x all members x all tags",
  "No test uses a union.",
  [T+"union.go.tmpl"],
  [("tag write/read and per-member branches", T+"union.go.tmpl")],
  ["bytes", "UnionChoice and member after decoding", "errors"])

p("C12", "Type parameters and @index reach every instance with the right value",
  "Every parameterised type used as a field or array element sees, both when writing and when reading, the parameter values given by the argument expressions evaluated in its parent at that point, at any nesting depth; for array elements @index is the position of the element. Whatever stale parameter values the child object held before has no influence.",
  ["programs", "inputs"], "all parameterised schema shapes x all values",
  "One test schema passes @index, and its test does not run here; parameter passing differs between fields, arrays, packed arrays, optional fields and union/choice members.",
  [T+"encode_compound_parameters.go.tmpl", T+"decode_compound_parameters.go.tmpl", "ztype/object_array_decode.go"],
  [("parameters assigned by the parent before visiting the child", T+"encode_compound_parameters.go.tmpl, "+T+"decode_compound_parameters.go.tmpl")],
  ["bytes", "decoded fields that depend on parameters"])

p("C13", "Truncated or corrupt input never panics and never passes for complete",
  "Unmarshalling any proper prefix of a valid byte stream from which at least one needed bit is missing returns an error, and unmarshalling arbitrary bytes returns either an error or a value, never a panic or an endless loop. If it returns a value, that value is what the bits say under the schema, and a failing underlying reader's error is reported.",
  ["inputs", "fault_sequences"], "all valid streams x all truncation points; all byte strings; all read failures",
  "Tests only decode complete streams; the number of cut points and corrupted streams is unbounded.",
  ["ztype/array_decode.go", "ztype/delta_context.go", "ztype/string_decode.go", "ztype/bytes_decode.go", "ztype/extern_decode.go", "zstream/reader.go", T+"decode.go.tmpl", T+"packing_context_decode.go.tmpl"],
  [("every read's error is returned", T+"decode.go.tmpl")],
  ["error returned by zserio.Unmarshal"])

p("C14", "Every failure of the underlying writer reaches the caller",
  "If the underlying writer fails at any point while an object is being marshalled and the stream closed, then either the marshalling call or the close returns an error wrapping or describing that failure; success is reported only if every byte of the complete stream was accepted by the underlying writer. What was accepted before the failure is a prefix of the complete stream.",
  ["fault_sequences"], "all objects x all positions of the first failing write",
  "No test uses a failing writer; there is one failure point per byte of every possible stream.",
  ["zstream/writer.go", "marshal.go", "ztype/array_encode.go", "ztype/packed_array_traits.go", "ztype/object_array_traits.go", "ztype/delta_context.go", "ztype/bytes_encode.go", "ztype/extern_encode.go"] + [T+"encode.go.tmpl"],
  [("error returns along the write path", "ztype/*_encode.go, "+T+"encode.go.tmpl")],
  ["error of MarshalZserio and Close", "bytes accepted by the underlying writer"])

p("C15", "Array lengths: declared lengths are enforced, others travel with the data",
  "An array with a declared length, constant or computed from earlier fields and parameters, is refused on marshalling unless it has exactly that many elements, and is read back with exactly that many. An array without declared length is read back with exactly the number of elements written, including zero and counts whose header needs more than one byte.",
  ["inputs", "programs"], "all array types x all lengths x all length expressions",
  "Unit tests use a few short arrays, and generated length checks are not tested at all.",
  [T+"encode.go.tmpl", T+"array_init.go.tmpl", "ztype/array_encode.go", "ztype/array_decode.go", "ztype/object_array_decode.go"],
  [("length check before writing", T+"encode.go.tmpl"), ("varsize header", "ztype/array_encode.go")],
  ["error of zserio.Marshal", "length of decoded arrays"])

p("C16", "Enum and bitmask values are numbered and named as the schema says",
  "An enum item without initialiser is one more than the previous item (zero for the first), one with initialiser has that value; a bitmask value without initialiser is the lowest bit above the highest bit of the previous value (one for the first). Converting between item value, item name and, with SQL support, the database value is a lossless mapping in both directions for every item, and names or values that are not items are reported as unknown rather than mapped to some item.",
  ["programs", "inputs"], "all enum and bitmask declarations, all names and values",
  "Tests look at a few literal enums; mixes of implicit and explicit values, expressions, negative values and wide bitmasks are not sampled.",
  ["internal/ast/enum.go", "internal/ast/bitmask.go", T+"enum.go.tmpl", T+"bitmask.go.tmpl"],
  [("item evaluation", "internal/ast/enum.go, internal/ast/bitmask.go"), ("name tables", T+"enum.go.tmpl")],
  ["generated constants", "String, EnumString, Values, Value, Scan results"])

p("C17", "Schema functions and conditions compute what the expression means",
  "An expression over fields, parameters, functions, enum and bitmask values evaluates at run time, in the generated code, to the value given by the schema language: its operator precedence and associativity, integer division and remainder, shifts, bitwise and logical operators, comparisons, the ternary operator, lengthof, numbits, valueof and isset, as long as every intermediate result fits 64 bits of one signedness, no divisor is zero and shift counts lie between 0 and 63. This holds wherever expressions are used: functions, if-clauses, array lengths, bit-field widths, choice labels and type arguments.",
  ["programs", "inputs"], "all expression trees x all operand values",
  "The tests evaluate a few literal expressions at compile time and three functions at run time; the schema language and Go have different precedence rules, so expression trees must be covered systematically.",
  ["internal/generator/expression.go", "internal/ast/expression.go", "internal/ast/mixing_native_types.go", "internal/parser/ZserioParser.g4"],
  [("expression printer", "internal/generator/expression.go"), ("type inference and casts", "internal/ast/mixing_native_types.go")],
  ["results of generated functions", "presence of conditional fields"])

p("C18", "Constants, widths and defaults have the value of their defining expression",
  "Every expression that is constant - a constant's value, an enum item, an array length, a bit width, a case label, a default value - is folded by the generator to the value the schema language gives it, in every literal notation (decimal, hexadecimal, octal, binary, float, string, bool) and across packages and references to other constants and enum items. Generated constants and objects with loaded defaults have exactly those values.",
  ["programs"], "all constant expressions and literals",
  "The tests fold a few dozen literal expressions with small values; precision, radix, sign, references and operator combinations are open-ended.",
  ["internal/ast/expression.go", "internal/ast/const.go", "internal/generator/expression.go", "internal/visitor/visitor.go", T+"package.go.tmpl", T+"default_values.go.tmpl"],
  [("constant folding", "internal/ast/expression.go")],
  ["generated constants", "LoadDefaultValues results", "wire widths"])

p("C19", "Templates and subtypes behave exactly like their hand-written expansion",
  "A field of a template instantiated with given type arguments behaves, on the wire and in its functions, exactly like the same schema with the template body written out by hand for those arguments; distinct argument lists give distinct types and equal ones, used in the same package, give the same type. Replacing a type by a subtype of it, at any depth and in any position, changes nothing on the wire.",
  ["programs", "inputs"], "all template definitions x argument lists x values",
  "One schema instantiates a struct and a choice template once each; collisions between instantiations and nested templates need schemas nobody wrote.",
  ["internal/model/transform.go", "internal/ast/type_reference.go", "internal/ast/package.go", "internal/ast/scope.go"],
  [("template instantiation", "internal/model/transform.go"), ("subtype resolution", "internal/ast/scope.go")],
  ["bytes from the template and from the expansion"])

p("C20", "Every name resolves to the declaration that scoping and imports designate",
  "In a schema of several packages, each type, constant, enum item and field name resolves to the declaration the language designates: local scope first, then the package, then its imports, whole-package or single-symbol, with fully qualified names always denoting their package. Equal names in different packages, or in different enums, are never confused, whatever the order in which files are given.",
  ["programs", "configurations"], "all package graphs x name placements x file orders",
  "One three-package schema is exercised; name clashes and import shapes are combinatorial.",
  ["internal/ast/scope.go", "internal/ast/package.go", "internal/model/model.go", "internal/model/transform.go"],
  [("scope lookup", "internal/ast/scope.go"), ("import resolution", "internal/ast/package.go")],
  ["wire format and constants of the generated code", "generator exit status"])

p("C21", "Every accepted schema yields complete Go code that compiles",
  "For every schema the generator accepts, the emitted files together contain every declared constant, subtype, enum, bitmask, struct, choice, union, template instance and function exactly once, in packages laid out by the schema's package names, and they compile. In per-type output each type has its own file, no file overwrites another whatever the type names and the maximum path length, and single-stream output contains the same declarations.",
  ["programs", "configurations"], "all accepted schemas x output modes x path-length limits",
  "The tests compile ten small example schemas in one output mode; type names, imports needed and file-name clashes vary without bound.",
  ["internal/generator/gen.go", "internal/generator/strip_imports.go", "internal/generator/types.go", "internal/cli/generate.go", T+"preamble.go.tmpl"],
  [("unique file paths", "internal/generator/gen.go"), ("unused-import removal", "internal/generator/strip_imports.go")],
  ["emitted files", "go build result"])

p("C22", "Generation is deterministic and independent of input order",
  "Running the generator again on the same schemas with the same options emits byte-identical files with the same names, whatever the order of the schema arguments, the run, or leftover output of an earlier run. Adding an unrelated package to the input does not change the code emitted for the others.",
  ["schedules", "configurations", "histories"], "all runs (map iteration orders) x argument orders x schemas",
  "No test generates twice; map iteration order changes from run to run and most schemas hide it.",
  ["internal/generator/gen.go", "internal/model/model.go", "internal/ast/package.go", "internal/model/transform.go"],
  [("ordered maps and sorting of declarations", "internal/ast/package.go, internal/generator/gen.go")],
  ["emitted files of repeated and permuted runs"])

p("C23", "Invalid schemas are rejected with an error, never a panic or silent output",
  "A schema that is syntactically malformed, refers to an unknown type, field, import, constant or item, declares a name twice, gives the wrong number of template or type arguments, defines a type or constant in terms of itself, or has ill-typed or invalid constant expressions (a value outside its type, a division by zero, a repeated enum value or choice label, a width outside 1 to 64) makes the generator exit with a non-zero status and a diagnostic, no matter in which of the given files the mistake is. It does not emit Go code for the schema as if it were valid, and no input makes it panic or hang. A valid schema is not refused. Not covered by the promise: offsets, constraints, services and SQL, which are only parsed; templates that are never instantiated; ambiguous names, which resolve to the first import; numbers in the place of enum items.",
  ["programs"], "all corruptions of valid schemas at one or two places, down to single tokens",
  "The tests feed valid schemas only, apart from a few expression errors.",
  ["internal/model/package.go", "internal/model/model.go", "internal/model/validate.go", "internal/visitor/visitor.go", "internal/ast/package.go", "internal/ast/expression.go", "internal/cli/generate.go"],
  [("error listener and visitor errors", "internal/model/package.go"), ("resolution errors", "internal/ast/package.go"), ("validation", "internal/model/validate.go, validate_names.go, validate_expression.go, validate_value.go")],
  ["generator exit status and stderr"])

p("C24", "Objects can be marshalled and unmarshalled concurrently",
  "Any number of goroutines that marshal, unmarshal or size different objects, of the same or different types, at the same time each get exactly the result they would get alone, with no data race, panic or deadlock. In particular no state shared between types, arrays or packing contexts leaks from one operation into another.",
  ["schedules"], "all interleavings of concurrent operations on distinct objects",
  "No test runs two operations at once, and none runs under the race detector.",
  ["ztype/array_traits.go", "ztype/delta_context.go", "packing_context_node.go", "marshal.go"],
  [("contexts are created per operation", "ztype/array_encode.go, ztype/object_array_encode.go"), ("traits values hold no shared mutable state", "ztype/array_traits.go")],
  ["results of concurrent operations", "race detector reports"],
  [("array traits, package-level state", "shared between all users of the library", "ztype/array_traits.go")])

p("C25", "Marshalling is repeatable, leaves the object intact, and reuse is safe",
  "Marshalling the same object any number of times, with sizing and failed attempts in between, gives the same bytes, and changes no field value of the object apart from parameter values derived from its parents. Unmarshalling into an object that already holds other data gives an object that marshals to the same bytes, with the same present fields, as unmarshalling into a fresh one, and it never changes other objects that were decoded or marshalled earlier.",
  ["histories"], "all sequences of marshal, size, unmarshal (successful or failed) on the same objects",
  "Tests use every object once.",
  [T+"encode.go.tmpl", T+"decode.go.tmpl", "ztype/array_encode.go", "ztype/array_decode.go", "ztype/object_array_decode.go", "ztype/extern_decode.go"],
  [("fresh containers on decode", "ztype/array_decode.go, "+T+"decode.go.tmpl")],
  ["bytes of repeated marshals", "objects after reuse"])

p("C26", "Floats, strings, byte arrays and externs keep every bit at any position",
  "float32 and float64 values are written as their IEEE 754 bits and read back bit-identical; every half-precision pattern read as float16 denotes its exact value and writes back to the same pattern (NaN stays NaN), and other values are rounded to the nearest half-precision value (ties to even), keeping sign, infinities and NaN. Strings and byte arrays of any content and length, and extern payloads of any bit length, come back identical at any bit position, and only the declared number of bits of an extern is written.",
  ["inputs"], "all 2^16 halves, all 2^32/2^64 float patterns, all byte strings, all bit lengths x all bit positions",
  "Unit tests cover a handful of floats and short aligned strings; externs and bytes have no test.",
  ["ztype/float_encode.go", "ztype/float_decode.go", "ztype/string_encode.go", "ztype/string_decode.go", "ztype/bytes_encode.go", "ztype/bytes_decode.go", "ztype/extern_encode.go", "ztype/extern_decode.go"],
  [("half-precision conversion", "ztype/float_encode.go, ztype/float_decode.go"), ("partial last byte of externs", "ztype/extern_encode.go, ztype/extern_decode.go")],
  ["bits written", "values read"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
