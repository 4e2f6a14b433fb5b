claim("C01", "Judged here: valid values are accepted, decode again to what the specification says, consuming exactly what was written.")
claim("C02", "Judged here: every bit written, the final padding, and the value and length that decoding damaged streams gives.")
claim("C04", "Judged here: the specification's error state must be an error of the real code, with values generated outside the ranges.")
claim("C06", "Judged here: packed arrays of compounds, bits and decoded values.")
claim("C08", "Judged here: the reported size against the number of bits written, at many start offsets.")
claim("C09", "Judged here: optional and conditional fields.")
claim("C10", "Judged here: choices, every label and default.")
claim("C11", "Judged here: unions, tags in memory and on the wire including unknown ones.")
claim("C12", "Judged here: parameterised types and @index with stale parameter fields in the children.")
claim("C15", "Judged here: arrays of declared and undeclared length, counts around the header sizes.")
claim("C03", "Judged in bulk against Wire.tla: every power of two and length boundary of every variable-length type, every first byte, overlong, over-range and truncated inputs.",
      technique="TLA+ definition of the wire format; tables of recorded encodings and decodings checked by TLC")
claim("C05", "Judged here: packed arrays of every integer type with maximal differences of every bit length around every packing decision; streams with foreign delta widths.")
claim("C07", "BitStream.tla: behaviours generated by TLC are replayed with the real writer and reader, whose every step TLC compares with the specification; align is tabulated for every n from 1 to 255; aligned fields through Codec.tla.",
      technique="TLA+ model of the bit stream; TLC-generated behaviours replayed into the real code, recorded steps checked by TLC")
claim("C13", "Judged here: every kind of truncation, bit flips, random bytes and sources that fail, against the specification's decoder.")
claim("C14", "Fault enumeration: every byte at which the sink can fail (transiently or for good, with partial or refused writes), judged by TLC.",
      technique="TLA+ model; a failing sink at every byte, recorded outcomes checked by TLC")
claim("C16", "Random enums and bitmasks over every base type; values, name tables, String, conversions from names and SQL values, and the encodings are judged by TLC against the numbering of World.tla.",
      technique="TLA+ semantics of declarations; recorded observations of generated code checked by TLC")
claim("C17", "Random expression trees over every operator and operand kind as schema functions and conditions; every call of the generated code is judged against Exprs.tla (exact 80-bit arithmetic; results that leave 64 bits are excluded by the specification itself).",
      technique="TLA+ semantics of schema expressions; recorded calls of generated functions checked by TLC")
claim("C24", "Interleave.tla: TLC generates the interleavings of three operations at their input and output calls, replayed deterministically; besides, free-running rounds under the Go race detector. Every result is judged by TLC as if the operation had run alone.",
      technique="TLA+ model of interleaved operations; TLC-generated schedules replayed under the race detector, results checked against Codec.tla")
claim("C25", "Session.tla: all histories of three operations on two objects and random long ones, from TLC, replayed; every recorded step must be a step of Session, decoded contents are judged by Codec.tla.",
      technique="TLA+ model of object histories; TLC-generated behaviours replayed into the real code and checked by TLC")
claim("C26", "Judged in bulk against Wire.tla: half-precision patterns and ties, float32/64 patterns including signalling NaNs, strings, byte arrays and externs of every length class at every bit offset.",
      technique="TLA+ definition of the wire format; tables of recorded encodings and decodings checked by TLC")
claim("C20", "World.tla: TLC resolves every name of worlds of four packages (all combinations of local, imported whole, imported singly, qualified; cyclic imports; equal names of types, constants, items, fields and parameters) and elaborates the schemas; encodings and decodings of the generated code are judged against the elaboration.",
      technique="TLA+ specification of scoping and imports; recorded runs of the generated code checked by TLC against the elaborated schema")
claim("C18", "World.tla: TLC folds constant expressions over several packages (names, enum items, escapes, all literal notations), elaborates the schemas that use them; values of Go constants, loaded initial values and encodings are judged.",
      technique="TLA+ specification of names and constant expressions; recorded constants, initial values and encodings of the generated code checked by TLC")
claim("C19", "World.tla: TLC expands templates (nested, recursive, over types and enums of the same name in several packages, evaluated in the package of the template) and removes subtypes; encodings and decodings of the generated code are judged against the expansion, and the identity of the Go types of fields against that of the elaborated types.",
      technique="TLA+ specification of template expansion and subtypes; recorded runs and type identities of the generated code checked by TLC")
claim("C21", "Output.tla: which declarations, types and template instances the emitted files must hold, in which files and with which path lengths. Recorded runs over worlds of feature snippets, clashing type names, templates and random schemas, in four output modes, are judged by TLC; every emitted package is type-checked, a part of them is compiled.",
      technique="TLA+ model of generator runs and of the declarations they emit; recorded runs checked by TLC")
claim("C22", "Output.tla: a run is a transition of the output directory, what is emitted for a package is a function of its transitive imports and the options. TLC checks histories of runs with permuted arguments, added and removed packages, directory arguments, leftovers and options.",
      technique="TLA+ model of generator runs as transitions of the output directory; recorded histories checked by TLC")
claim("C23", "Valid.tla: TLC says of worlds (schemas of two or three packages with features and expressions of all kinds, after random mutations of names, types, arguments, expressions, imports, widths, labels, ...) whether they are valid and which kinds of mistakes they have; Grammar.tla says it of token sequences. The generator has to refuse the one and take the other, without panic or hang.",
      technique="TLA+ specification of the validity of schemas and of the grammar; recorded runs of the generator on mutated schemas checked by TLC")
