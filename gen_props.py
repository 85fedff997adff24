#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the statements stay in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

GO_ENC = ["encode.go", "encoder.go", "buffer.go", "v2/encode.go", "v2/encoder.go", "v2/buffer.go"]
GO_DEC = ["decode.go", "decoder.go", "v2/decode.go", "v2/decoder.go"]

p("C01", "Go encoders append exactly the canonical wire encoding",
  "Each exported Go encoder operation (both module versions) appends to the buffer exactly the canonical polyglot encoding of its argument and nothing else: the kind byte, then a minimal little-endian base-128 varint (zigzag for signed integers), a big-endian IEEE float, a 0/1 boolean, or a varint-length-prefixed payload; container headers carry their element kinds and a 32-bit size. This holds for every value (payloads up to 2^32-1 bytes), whatever amount of free room the buffer has.",
  ["inputs"], "every value of every supported type, every buffer fill level and capacity",
  "The 32- and 64-bit value spaces and the buffer states (room for k more bytes, for every k) cannot be enumerated by tests; the longest length forms need payloads of 256 MiB and more, which no test builds.",
  GO_ENC, [("encodeUint64 and siblings", "encode.go / v2/encode.go"), ("BufferEncoder methods", "encoder.go / v2/encoder.go"), ("Buffer.Write, Buffer.Grow", "buffer.go / v2/buffer.go")],
  "bytes of the buffer after the call")

p("C02", "Go decoders invert the canonical encoding and consume exactly it",
  "When the unread input of a Go decoder starts with the canonical encoding of a value, the matching decode operation (both module versions) succeeds, returns precisely that value, and advances by exactly the length of that encoding, whatever follows. A payload returned by the byte-string operation has exactly the encoded length and content, whatever destination slice the caller supplied.",
  ["inputs"], "every value of every supported type followed by any bytes; every caller-supplied destination slice",
  "Round trips over 2^32 and 2^64 values, all payload lengths and all trailing bytes cannot be sampled exhaustively; multi-byte varint positions are each a separate code path.",
  GO_DEC, [("decodeUint64 and siblings", "decode.go / v2/decode.go"), ("Decoder methods", "decoder.go / v2/decoder.go")],
  "returned value and remaining input")

p("C03", "Go decoders never panic, whatever the bytes",
  "No decode operation of either Go module panics on any input: arbitrary bytes, arbitrary truncation, an empty or nil input, at any point of a sequence of operations, on both 64-bit and 32-bit platforms.",
  ["inputs", "configurations"], "every byte string as unread input, for every decode operation; 32- and 64-bit int",
  "The set of malformed inputs is unbounded and the failing ones (a varint cut after its continuation byte, a length above the platform's int) are not those a round-trip test produces.",
  GO_DEC, [("index and slice expressions of the decode functions", "decode.go / v2/decode.go")], "panic or return")

p("C04", "Go decoders reject truncated, unterminated and out-of-range input",
  "A Go decode operation (both module versions) that is given a truncated value, a varint that does not end within its width's maximum length, a varint whose value does not fit its width, or a length larger than the remaining bytes reports that operation's own invalid-encoding error and returns the zero value of its type; it never reports success. Likewise a boolean payload other than 0 or 1 is rejected.",
  ["inputs"], "every input whose kind bytes match but whose payload is truncated, unterminated, over-wide or malformed",
  "Each cut point, continuation pattern and overflow bit is a separate input class; tests exercise a wrong kind byte and an empty buffer only.",
  GO_DEC, [("decode functions' failure exits", "decode.go / v2/decode.go")], "returned error and value")

p("C05", "Go: a kind mismatch consumes nothing",
  "When the unread input of a Go decoder does not start with the kind bytes that the operation expects (including the element kinds of a container header), or is empty, the operation reports failure, returns the zero value, and leaves the read position where it was, so that another operation can be tried on the same bytes.",
  ["inputs"], "every input whose leading kind bytes differ from the expected ones, or are missing; every decode operation",
  "Optional fields are decoded by probing for nil first; a probe that moves the position on some inputs corrupts every later field, and only over inputs that tests do not build.",
  GO_DEC, [("kind comparisons of the decode functions", "decode.go / v2/decode.go"), ("Decoder methods storing back the remaining input", "decoder.go / v2/decoder.go")], "position of the decoder after a failed probe")

p("C06", "Go: decoded data is independent of the input; inputs are never modified",
  "Values returned by the Go decoders share no memory with the input (changing or reusing the input buffer later cannot change a decoded value), decoding never writes to the input, and encoding neither modifies the caller's data nor keeps a reference to it.",
  ["inputs", "histories"], "every operation, every value, any later modification of the caller's or the buffer's memory",
  "Aliasing shows only when the memory is modified afterwards in a particular way; tests compare values immediately after the call.",
  GO_ENC + GO_DEC, [("decodeBytes, decodeString", "decode.go / v2/decode.go"), ("encodeBytes, encodeString", "encode.go / v2/encode.go"), ("Buffer.Write", "buffer.go / v2/buffer.go")], "backing arrays reachable from results and buffers")

p("C07", "Go buffers keep what was written, across growth and reuse",
  "For a Go buffer obtained from any constructor (including one wrapped around a caller's slice of any length and capacity), in any state reachable through its operations, a raw write appends exactly its bytes and keeps every earlier byte, growing guarantees the requested room and changes neither contents nor length, reset empties it, and the reported bytes and length agree. None of these operations panics.",
  ["inputs", "histories"], "every constructor argument, every fill level and capacity, every write size, any sequence of operations",
  "Growth happens at size- and capacity-dependent boundaries and depends on the history of the buffer; tests use one default-sized buffer.",
  ["buffer.go", "v2/buffer.go"], [("Buffer.Write, Buffer.Reset, NewBuffer", "buffer.go"), ("Buffer.Grow, Buffer.Write, Buffer.Reset, NewBufferSize, NewBufferFromBytes", "v2/buffer.go")], "contents and length of the buffer")

p("C08", "Go pooled buffers and decoders come out clean and are given back once",
  "A buffer obtained from a pool is empty, whatever it held when it was put back, and a decoder obtained from its pool reads the given input from its start, whatever it was bound to before; putting back clears that state (so that the pool keeps no reference to the caller's input), and putting back nil does nothing. The library itself never uses or gives back an object again after giving it back.",
  ["histories", "schedules"], "every history of get and put, every state of the object put back",
  "Pool reuse depends on the garbage collector and scheduling; state leaking between users shows only on particular interleavings of get and put.",
  ["decoder.go", "v2/pool.go", "v2/buffer.go"], [("GetDecoder, ReturnDecoder", "decoder.go"), ("Pool.Get, Pool.Put, GetBuffer, PutBuffer", "v2/pool.go")], "object obtained from the pool")

p("C09", "The Go runtimes keep no unsynchronised shared state",
  "Encoding and decoding in different goroutines on different buffers never touch common mutable memory: after initialisation no function of the Go runtime packages writes package-level state or memory reachable from it, other than through a concurrency-safe pool.",
  ["schedules"], "every interleaving of operations on distinct buffers and decoders",
  "A shared scratch buffer or cache corrupts data only under particular interleavings; no test runs operations concurrently on purpose.",
  ["encode.go", "decode.go", "buffer.go", "decoder.go", "encoder.go", "v2/encode.go", "v2/decode.go", "v2/buffer.go", "v2/pool.go"], [("package-level variables of the runtime packages", "encode.go, decode.go, decoder.go, v2/encode.go, v2/decode.go, v2/pool.go")], "package-level memory")

p("C10", "Go decoders allocate no more than the input can justify",
  "Every allocation made by a Go decode operation is bounded by the number of unread input bytes, whatever length a forged header announces: the announced length is checked against what is left before memory is reserved for it.",
  ["inputs"], "every input, in particular forged lengths up to 2^32-1",
  "A forged length costs memory rather than a wrong result, so functional tests pass whatever is allocated.",
  GO_DEC, [("decodeBytes, decodeString", "decode.go / v2/decode.go")], "sizes of allocations")

p("C11", "Rust encoders append exactly the canonical wire encoding",
  "Each Rust encoder operation on a byte-vector cursor whose position is the end of its vector appends exactly the canonical polyglot encoding of its argument (the same format as the Go encoders, byte for byte), moves the position past it, and reports success.",
  ["inputs"], "every value of every supported type (payloads up to 2^32-1 bytes), every prior content",
  "The value space cannot be enumerated; tests encode one sample per type, mostly of a single varint length.",
  ["encoder.rs", "kind.rs"], [("Encoder trait implementation", "encoder.rs"), ("Kind enum", "kind.rs")], "bytes of the cursor's vector")

p("C12", "Rust decoders invert the canonical encoding and consume exactly it",
  "When the bytes at a Rust decoder's position start with the canonical encoding of a value, the matching decode operation returns precisely that value and advances the position by exactly the length of that encoding, whatever follows.",
  ["inputs"], "every value of every supported type followed by any bytes",
  "Round trips over the 32- and 64-bit value spaces and all payload lengths cannot be sampled exhaustively.",
  ["decoder.rs", "kind.rs"], [("Decoder trait implementation", "decoder.rs"), ("From<u8> for Kind", "kind.rs")], "returned value and cursor position")

p("C13", "Rust decoders never panic and bound their allocations",
  "No Rust decode operation panics or overflows arithmetically on any input bytes at any cursor position, including a position past the end, and no allocation it makes whose size depends on the input exceeds the number of unread bytes, whatever length a forged header announces.",
  ["inputs"], "every byte vector, every cursor position, every decode operation",
  "The malformed inputs are unbounded in number, and a forged length costs memory rather than a wrong result.",
  ["decoder.rs", "kind.rs"], [("Decoder trait implementation", "decoder.rs")], "panic, allocation sizes")

p("C14", "Rust decoders reject malformed input with the operation's own error",
  "A Rust decode operation that is given a truncated value, a varint that is unterminated or does not fit its width, a length beyond the remaining bytes, invalid text in a string, or the wrong kind returns the error that belongs to that operation's type, never another type's error and never success.",
  ["inputs"], "every malformed input of every decode operation",
  "Each cut point and continuation pattern is its own input class; tests only try exhausted input.",
  ["decoder.rs"], [("DecodingError and the failure exits of the Decoder implementation", "decoder.rs")], "returned Result")

p("C15", "Rust: a kind mismatch consumes nothing",
  "When the bytes at a Rust decoder's position (anywhere in the input, its end included) do not start with the kind bytes that the operation expects (including the element kinds of a container header), or are missing, the operation fails and leaves the cursor position unchanged; the nil probe reports false and leaves it unchanged.",
  ["inputs"], "every input whose leading kind bytes differ or are missing, every decode operation",
  "Generated decoders probe for nil before each optional value; a probe that moves the position corrupts later fields only on inputs that tests do not build.",
  ["decoder.rs"], [("position restore on mismatch", "decoder.rs")], "cursor position after the call")

p("C16", "TypeScript encoder appends exactly the canonical wire encoding",
  "Each operation of the TypeScript encoder appends exactly the canonical polyglot encoding of its argument (the same format as the Go encoders, byte for byte) after what was encoded before, growing its storage as often as needed whatever its initial size; the bytes it reports are exactly what was encoded.",
  ["inputs"], "every value of every supported type, every storage size and fill level",
  "The value space and the fill levels at which storage has to grow cannot be enumerated by tests.",
  ["encoder.ts", "kind.ts"], [("Encoder class", "encoder.ts"), ("Kind enum", "kind.ts")], "bytes reported by the encoder")

p("C17", "TypeScript decoder inverts the canonical encoding and consumes exactly it",
  "When the unread bytes of the TypeScript decoder start with the canonical encoding of a value, the matching operation returns precisely that value and leaves exactly the bytes that follow it unread, also when the input is a view into a larger buffer.",
  ["inputs"], "every value of every supported type followed by any bytes, any view offset",
  "Round trips over the value spaces and view offsets cannot be sampled exhaustively.",
  ["decoder.ts", "kind.ts"], [("Decoder class", "decoder.ts")], "returned value and unread bytes")

p("C18", "TypeScript decoder rejects malformed input with the operation's own error",
  "An operation of the TypeScript decoder that is given a truncated value, a varint that is unterminated or does not fit its width, a length beyond the remaining bytes, or the wrong kind throws the error that belongs to that operation, and never returns a value or throws another kind of error.",
  ["inputs"], "every malformed input of every decode operation",
  "Reading past the end yields undefined rather than a fault, so malformed input decodes to plausible values unless every path checks.",
  ["decoder.ts"], [("Decoder class and its error classes", "decoder.ts")], "thrown error or returned value")

p("C19", "TypeScript: a kind mismatch consumes nothing",
  "When the unread bytes of the TypeScript decoder do not start with the kind bytes that the operation expects (including the element kinds of a container header), or are missing, the operation fails and leaves the unread bytes as they were; the null probe returns false and leaves them as they were.",
  ["inputs"], "every input whose leading kind bytes differ or are missing, every decode operation",
  "Callers probe for null before optional values; a probe that consumes corrupts later values only on inputs tests do not build.",
  ["decoder.ts"], [("kind checks of the Decoder class", "decoder.ts")], "unread bytes after the call")

p("C20", "TypeScript: encoding and decoding copy, and never modify the caller's data",
  "The TypeScript encoder never modifies or keeps a reference to an array it is given as a value, and the decoder never writes to its input; byte arrays returned by the decoder do not share storage with the input.",
  ["inputs", "histories"], "every operation, any later modification of the arrays involved",
  "Sharing shows only when memory is modified afterwards; tests compare immediately after the call.",
  ["encoder.ts", "decoder.ts"], [("Encoder.uint8Array, Decoder.uint8Array", "encoder.ts / decoder.ts")], "array storage")

p("C21", "All languages agree on the kind numbering",
  "Every implementation (both Go modules, Rust, the C bindings and their header, TypeScript) assigns the same number to the same wire kind, the Rust and C conversions between numbers and kinds are inverse to each other for every kind, and a number that is no kind is never taken for one.",
  ["programs"], "every kind in every implementation, every byte value in the conversions",
  "Each implementation's own tests pass when its own encoder and decoder share a wrong number; the agreement is a relation between five code bases.",
  ["encode.go", "v2/encode.go", "kind.rs", "kind.ts", "c_bindings/types.rs", "polyglot.h", "polyglot.h.in"],
  [("Kind variables", "encode.go / v2/encode.go"), ("enum Kind, From<u8>", "kind.rs"), ("enum Kind", "kind.ts"), ("Kind", "c_bindings/types.rs"), ("polyglot_kind_t", "polyglot.h")], "kind constants")

p("C22", "The C header declares exactly what the C library exports",
  "Every function, struct, and enum constant that the C header declares is exported by the library with the same symbol, parameter count and order, parameter and return types, struct layout and constant values, and every exported symbol is declared.",
  ["programs"], "every declaration of the header and every exported symbol",
  "The compiler sees the two sides separately, so a drifted declaration links and corrupts memory at run time only for the functions a test happens to call.",
  ["polyglot.h", "polyglot.h.in", "c_bindings/encoder.rs", "c_bindings/decoder.rs", "c_bindings/types.rs"], [("extern \"C\" functions", "c_bindings/encoder.rs, c_bindings/decoder.rs"), ("repr(C) types", "c_bindings/types.rs"), ("declarations", "polyglot.h")], "ABI of the library")

p("C23", "C functions check their pointers and always set the status",
  "Every exported C function that receives a status pointer touches nothing else when that pointer is null (it stops the program by its assertion), and otherwise sets it on every path before returning: to the null-pointer status, with no dereference, if a required pointer argument is null; to the failure status if the operation failed; and to the pass status only if it succeeded. A call that does not pass returns null, 0 or false, so that no caller can take what it returns for a value or free it.",
  ["inputs", "fault_sequences"], "every exported function, every combination of null and non-null arguments, every outcome of the underlying operation",
  "Null combinations and failing operations are error paths of about fifty functions; the one C test exercises the success path of a few.",
  ["c_bindings/encoder.rs", "c_bindings/decoder.rs"], [("polyglot_encode_*, polyglot_encoder_*", "c_bindings/encoder.rs"), ("polyglot_decode_*, polyglot_decoder_*, polyglot_free_*", "c_bindings/decoder.rs")], "status written, memory accessed")

p("C24", "C allocations are released by a matching free, with the same layout",
  "Every heap object that the C library hands to its caller is released by the free function documented for it with the same type, size and alignment it was allocated with, once, and free functions accept null; the library frees nothing it does not own and keeps no reference to what it handed out.",
  ["histories"], "every allocating function with its free function, every size including zero",
  "A mismatched deallocation is undefined behaviour that usually goes unnoticed with the system allocator.",
  ["c_bindings/encoder.rs", "c_bindings/decoder.rs", "c_bindings/types.rs"], [("polyglot_new_encoder/polyglot_free_encoder, polyglot_new_decoder/polyglot_free_decoder", "c_bindings/encoder.rs, c_bindings/decoder.rs"), ("polyglot_free_decode_string, polyglot_free_decode_bytes", "c_bindings/decoder.rs")], "ownership of heap objects")

p("C25", "C functions pass every argument and result through unchanged",
  "Each C encode function encodes precisely the value it is given with the matching encoder operation, exactly once, and each C decode function returns precisely the value the matching decoder operation produced; sizes, kinds and their order, lengths and contents arrive unchanged.",
  ["inputs"], "every exported encode and decode function, every argument",
  "A wrapper that swaps two arguments or narrows a value is right for symmetric or small sample values.",
  ["c_bindings/encoder.rs", "c_bindings/decoder.rs", "c_bindings/types.rs"], [("polyglot_encode_*", "c_bindings/encoder.rs"), ("polyglot_decode_*", "c_bindings/decoder.rs")], "arguments of the delegated operation")

json.dump  # keep linters quiet
GEN = ["generator/golang/generator.go", "generator/golang/templates", "v2/generator/golang/generator.go", "v2/generator/golang/templates"]
GENALL = GEN + ["generator/rust/generator.go", "generator/rust/templates", "generator/typescript/generator.go", "generator/typescript/templates"]

p("C26", "Generated Go and Rust code of one definition agree on the wire",
  "For every message definition, the Go and Rust code generated from it (both versions) agree: for equal messages both encoders perform the same sequence of wire operations (the same fields in the same order, the same kind for every protobuf type, the same container headers with the same element kinds and counts, the same enum numbers, nil for an absent message), and each decodes what the other encodes into an equal message and consumes all of it; enum values have the same numbers in both.",
  ["programs", "inputs"], "every message type: every combination of field shapes, every content; both directions",
  "The generators have no tests at all, and a wrong table entry or field order yields code that compiles and round-trips with itself but not across languages.",
  GEN + ["generator/rust/generator.go", "generator/rust/structs.go", "generator/rust/templates", "v2/generator/rust/generator.go", "v2/generator/rust/structs.go", "v2/generator/rust/templates"],
  [("encodeLUT/decodeLUT/kindLUT, getEncodingFields, getDecodingFields", "generator/golang/structs.go, generator/rust/structs.go and v2 siblings"), ("templates", "generator/golang/templates, generator/rust/templates and v2 siblings")], "wire operations of generated code")

p("C27", "Generated Go code decodes what it encodes",
  "For every message, what the generated Go Encode writes, the generated Decode of the same type consumes entirely and restores to an equal message (an absent message may come back as an empty one), whether it decodes into a new message or into one used before; every field is written once; input that ends early or holds an item of another kind is an error; a nil message is one nil item and decoding into a nil message is an error; constructors end; Encode leaves the message as it was; a pooled decoder is returned exactly once and not used afterwards.",
  ["programs", "inputs", "histories"], "every message type: every combination of field shapes, every content",
  "Message definitions are unbounded in number, what a used message holds depends on history, and the generators have no tests.",
  GENALL, [("encode.templ / decode.templ", "generator/golang/templates, v2/generator/golang/templates"), ("structs.templ", "generator/golang/templates, v2/generator/golang/templates")], "generated code")

p("C28", "Generated Go code compiles for every kind of field",
  "For every protobuf field type in every position (singular, repeated, map key, map value) and for messages nested or mutually recursive, the Go generators (both versions) emit code that type-checks against the Go runtime of the same version.",
  ["programs"], "every field type and cardinality, nesting and recursion",
  "Code generation is not exercised by any test; a shape that emits ill-typed code is found only by the user who needs it.",
  GEN, [("templates", "generator/golang/templates, v2/generator/golang/templates")], "generated code")

p("C29", "Generation terminates, is deterministic and treats each file on its own",
  "Every generator terminates on every valid schema, recursive messages included, produces the same output for the same request every time, and the output for one file does not depend on which other files are generated in the same run.",
  ["inputs", "histories"], "every schema, every order and set of files in a request",
  "Map iteration order, state carried over between files and recursion over cyclic schemas show only on particular schemas; there are no generator tests.",
  GENALL + ["utils/utils.go"], [("Generate, template functions", "generator/*/generator.go"), ("state in generators", "generator/*/")], "generator output")

p("C30", "The protoc plugins speak the plugin protocol and report failures",
  "Each protoc plugin writes nothing but the encoded response to standard output, reads the whole request, and turns every error of reading, decoding, generating or writing into a failure exit or an error response; no error is dropped.",
  ["fault_sequences", "inputs"], "every failure of every step, every request",
  "Failure paths of the plugins are never exercised by tests.",
  ["protoc-gen-go-polyglot/main.go", "protoc-gen-rs-polyglot/main.go", "protoc-gen-ts-polyglot/main.go", "v2/protoc-gen-go-polyglot/main.go"], [("main", "protoc-gen-*-polyglot/main.go")], "standard output and exit status")

GENRS = ["generator/rust/generator.go", "generator/rust/structs.go", "generator/rust/templates", "v2/generator/rust/generator.go", "v2/generator/rust/structs.go", "v2/generator/rust/templates"]
p("C31", "Generated Rust code compiles for every kind of field",
  "For every protobuf field type in every position (singular, repeated, map key, map value), for messages nested or mutually recursive, for every privacy parameter and for names that are keywords of Rust, the Rust generators (both versions) emit code that rustc accepts with the Rust runtime.",
  ["programs"], "every field type and cardinality, nesting and recursion, every name and parameter",
  "Code generation is not exercised by any test; a shape that emits code rustc rejects is found only by the user who needs it.",
  GENRS, [("templates", "generator/rust/templates, v2/generator/rust/templates"), ("template functions and tables", "generator/rust/structs.go, v2/generator/rust/structs.go")], "generated code")

p("C32", "Generated Rust code decodes what it encodes",
  "For every message, what the generated Rust encode writes, the generated decode of the same type consumes entirely and restores to an equal message; every field is written once, in the message's order; input that ends early or holds an item of another kind is an error, and an item that carries an error is that error; a nil item decodes as an absent message; a failure of an encoder operation is returned at once; encode leaves the message as it was.",
  ["programs", "inputs"], "every message type: every combination of field shapes, every content, both versions",
  "Message definitions are unbounded in number and the generators have no tests; a field dropped, swapped or decoded with the wrong operation still compiles.",
  GENRS, [("encode.templ / decode.templ", "generator/rust/templates, v2/generator/rust/templates"), ("encodeLUT, decodeLUT, getEncodingFields, getDecodingFields", "generator/rust/structs.go, v2/generator/rust/structs.go")], "generated code")

p("C33", "Generated decoders reserve no more memory than the input justifies",
  "Whatever number of elements a list or map header announces, the generated Go and Rust decoders (both versions) reserve memory for the elements that arrive, plus at most a constant number of elements for each item of the input: a few forged bytes cannot make them allocate gigabytes.",
  ["programs", "inputs"], "every list and map of every message, every announced count, every amount of input after it",
  "A forged count costs memory rather than a wrong result, and nothing tests generated code.",
  sorted(set(GENRS + ["generator/golang/templates", "v2/generator/golang/templates"])), [("decode.templ", "generator/golang/templates, generator/rust/templates, v2/generator/golang/templates, v2/generator/rust/templates")], "allocation sizes of generated code")

GENTS = ["generator/typescript", "v2/generator/typescript", "index.ts", "encoder.ts", "decoder.ts"]
p("C34", "Generated TypeScript code compiles for every kind of field",
  "For every protobuf field type in every position (singular, repeated, map key, map value), for messages nested or recursive, and for names that are keywords of TypeScript or names that generated classes use, the TypeScript generators (both versions) emit code that the TypeScript compiler accepts, in strict mode, with the TypeScript runtime.",
  ["programs"], "every field type and cardinality, nesting and recursion, every name",
  "Code generation is not exercised by any test; a shape that emits code the compiler rejects is found only by the user who needs it.",
  GENTS, [("templates", "generator/typescript/templates, v2/generator/typescript/templates"), ("template functions and tables", "generator/typescript/structs.go, v2/generator/typescript/structs.go")], "generated code")

p("C35", "Generated TypeScript code decodes what it encodes, and encodes what Go does",
  "For every message, the class the TypeScript generators (both versions) emit holds what its constructor and its accessors are given; what its encode writes, its decode consumes entirely and restores to an equal message, and it is, operation for operation and value for value, what the generated Go code writes for the same message; enum values have the numbers Go gives them; input that ends early or holds an item of another kind throws, an exception of the encoder is not swallowed, and encode leaves the message as it was.",
  ["programs", "inputs"], "every message type: every combination of field shapes, every content, both versions",
  "Message definitions are unbounded in number and the generators have no tests; a field dropped, swapped or encoded with another operation than Go's still compiles.",
  GENTS, [("encode.templ / decode.templ", "generator/typescript/templates, v2/generator/typescript/templates"), ("encodeLUT, decodeLUT, getEncodingFields, getDecodingFields", "generator/typescript/structs.go, v2/generator/typescript/structs.go")], "generated code")

p("C36", "Code generated by version 1 and by version 2 interoperates",
  "For every message, the Go code that version 1's generator emits and the Go code that version 2's emits encode equal messages as the same sequence of operations and values, each decoder takes entirely what the other's encoder wrote and restores an equal message, and enum values have the same numbers.",
  ["programs", "inputs"], "every message type, every content, both directions",
  "The two versions are separate copies of the generator that nothing compares; services upgrade one at a time.",
  ["generator/golang", "v2/generator/golang"], [("encode.templ / decode.templ", "generator/golang/templates, v2/generator/golang/templates"), ("encodeLUT, decodeLUT, kindLUT", "generator/golang/structs.go, v2/generator/golang/structs.go")], "generated code")

p("C37", "Go: an error that was sent is still that error",
  "In both Go runtimes, for every error e: what decoding an encoded e returns has e's text; errors.Is recognises it as every error whose text is the same, whatever its type, and as no error whose text differs; and the decoding operations' own errors have pairwise different texts, so that one that is sent on is not taken for another.",
  ["inputs"], "every text, of any length; targets of the runtime's error type and of any other",
  "Callers branch on errors.Is for errors that a peer sent; tests compare one error with itself.",
  ["encode.go", "decode.go", "v2/error.go", "v2/decode.go"], [("type Error", "encode.go, v2/error.go"), ("decodeError and the Invalid errors", "decode.go, v2/decode.go")], "Go runtime")

p("C38", "Custom code given to a Go generator is in every message, in its place",
  "For every message definition and both Go generators: the text that CustomFields returns is in the struct of every message (nested and empty ones included), what CustomEncode returns runs once in Encode of every message that is not nil, before anything else is encoded, and what CustomDecode returns runs once in the decoding of every message that is not nil, before any field is read; that code may use x (the message), b (the buffer), d (the decoder) and err; nothing else of the output changes, and one generator's hooks do not change another's output.",
  ["programs", "inputs"], "every message type and every content, both versions",
  "The hooks are the API on which other code generators are built; no test sets one.",
  ["generator/golang", "v2/generator/golang"], [("CustomFields, CustomEncode, CustomDecode", "generator/golang/generator.go, v2/generator/golang/generator.go"), ("encode.templ, decode.templ, structs.templ", "generator/golang/templates, v2/generator/golang/templates")], "generated code")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
