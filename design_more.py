LATE = {
 "c29-file-order": "C29 now leaves the iteration order over several files open",
 "c29-package-carried": "C29 now runs files of differing attributes after one another",
 "c26-number-order": "shapes now mix fields of every class and attribute in every order, with scattered numbers and names",
 "c32-optional-last": "as c26-number-order, in proto2",
 "c30-cut-request": "C30 now models decoders that keep what they read before failing",
}
MISSED = {}
RUSTGEN = """| C31 | the Rust code generated for each shape (each a module of one crate) is type-checked by rustc with the runtime; v1 and v2, privacy parameters, names that are keywords | 20 s |
| C32 | the MIR of the Rust code generated for each shape is evaluated on messages of symbolic values over the contracts of the runtime (C11-C15): encode's items, decode of them, cut, foreign and error items, failing encoder operations; list sizes around every constant of the generated functions | 135 s |
| C33 | Go SSA and Rust MIR of the code generated for each shape, evaluated on encoded messages in which one list or map header announces 2^24, 2^31 or 2^32-1 elements and the input ends at, soon after or well after it; `make`, `append`, map hints, `alloc` and `with_capacity` are added up | 30 s |
| C26 | one message built in parallel as a Go and as a Rust value: the item sequences of both encoders are compared, and each decoder is given the other's items | 30 s |
| C34 | the TypeScript code generated for each shape is type-checked, strictly, by the TypeScript compiler together with the runtime; v1 and v2, names that are keywords or that classes use | 8 s |
| C35 | the syntax tree of the TypeScript code generated for each shape is evaluated on messages of symbolic values, with encoder and decoder by their contracts (C16-C20): constructor and accessors, encode, decode, cut and foreign items, failing encoder operations, enum numbers; the items are compared with those of the generated Go code | 30 s |
| C36 | one message built as a value of version 1's and of version 2's generated Go types: item sequences compared, each decoded by the other, enum numbers compared | 15 s |
| C38 | the Go generators are evaluated with hooks that add a field, encode and decode it; what they emit is compared, operation by operation and both ways, with what is generated for messages that have that field as their first; nil messages; two generators in one process, hooks on one | 30 s |"""
NA = "Every property listed is decided statically; none is left as not applicable."
FINDINGS = ""
LOOPS = "are undecided and therefore reported."
