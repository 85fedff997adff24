RS = "static: trace-partitioned abstract interpretation of rustc's MIR of /repo's current Rust source (bit provenance x intervals x linear inequalities)"
rs_note = "All inputs of each class on a 64-bit usize; anything the domain cannot decide is reported as a violation. Trusts rustc's MIR construction, the transfer functions and library models of the allocator, memcpy and UTF-8 validation; the rest of std is interpreted from its MIR. Payload sizes up to 2^32-1."
checks = {p: (RS, "proof", rs_note) for p in ("C11", "C12", "C13", "C14", "C15")}
na = {}
c_note = " The C bindings are interpreted as compiled by rustc (MIR); statuses, pointers and kinds are symbolic, every failure branch is explored. Preconditions: pointers that are not null point to what their type says, kind arguments are declared constants."
checks["C22"] = ("static: ABI agreement of clang's AST of the C header (both enum modes) with rustc's exported symbols and signatures", "proof", "Every function, parameter, return type, struct field and enum constant, both ways; the types are compared after layout. Trusts clang's AST and rustc's layout for x86-64.")
checks["C23"] = (RS + " of the exported C functions, with deny/track rules on memory", "proof", rs_note + c_note)
checks["C24"] = (RS + " of the exported C functions (typestate of allocations: layout, owner, freed once)", "proof", rs_note + c_note)
checks["C25"] = (RS + " of the exported C functions against the canonical encoding", "proof", rs_note + c_note)
TS = "static: trace-partitioned abstract interpretation of the type-checked syntax tree (TypeScript compiler API) of /repo's current TypeScript source (bit provenance x intervals x linear inequalities)"
ts_note = "All inputs of each class; anything the domain cannot decide is reported as a violation. Trusts the TypeScript parser and binder and the library models of typed arrays, DataView, Map, TextEncoder and TextDecoder. Arguments have the declared types and are in range of their width. Payload sizes up to 2^32-1."
for p in ("C16", "C17", "C18", "C19", "C20"):
    checks[p] = (TS, "proof", ts_note)
checks["C21"] = ("static: abstract interpretation of the package initialisation, constants and kind conversions of all five implementations against one table", "proof", "All 16 kinds in every implementation, all 256 byte values in the conversions. Trusts the compilers' front ends and the transfer functions.")
GN = "static: abstract evaluation of the generators' Go SSA and text/template trees over abstract protobuf schemas"
gn_note = "Every scalar kind in every position and the structural shapes listed in the evidence; the generators treat fields one at a time, so shapes are enumerated, not messages (a message with 100 fields of each class covers counting). Trusts the evaluator of Go SSA and text/template and the models of protogen and protoreflect."
checks["C28"] = (GN + "; what they emit is type-checked against the runtime", "exploration", gn_note)
checks["C27"] = (GN + "; what they emit is built as SSA and evaluated on messages of symbolic values over the contracts of the runtime", "exploration", gn_note + " Lists and maps of 0 to 3 elements, and of the sizes around every constant in generated code.")
checks["C29"] = (GN + ": unbounded recursion, dependence on map order, on other files and on earlier requests", "exploration", gn_note)
checks["C30"] = (GN.split(" and text")[0] + " (the plugins' main) with every outcome of reading, decoding, generating and writing", "proof", "Every combination of success and failure of the calls the plugins make, inputs of any size (chunks of symbolic length). Trusts the models of os, io, bufio, protobuf and protogen.")
checks["C31"] = (GN + "; what they emit is type-checked by rustc against the runtime", "exploration", gn_note + " The derive macro of num_enum, which is not installed, is replaced by a stand-in of the same interface.")
RG = GN + "; what they emit is compiled to MIR and evaluated on messages of symbolic values over the contracts of the runtime"
checks["C32"] = (RG, "exploration", gn_note + " Lists and maps of 0 to 3 elements and of the sizes around every constant in generated code. The derive macro of num_enum is replaced by a stand-in.")
checks["C26"] = (RG + "; the Go code's SSA on the same messages, compared operation by operation", "exploration", gn_note + " Lists and maps of 0 to 3 elements, both directions.")
checks["C33"] = (GN + "; what they emit (Go SSA, Rust MIR) is evaluated on input with forged counts, and the sizes of allocations are added up", "exploration", gn_note + " Counts 2^24, 2^31 and 2^32-1 at the first and last headers of messages of one and two elements; at most 4096 elements may be reserved for each item of the input.")
checks["C34"] = (GN + "; what they emit is type-checked by tsc against the runtime", "exploration", gn_note)
checks["C35"] = (GN + "; the syntax tree of what they emit is evaluated on messages of symbolic values over the contracts of the runtime, and compared with the Go code's SSA on the same messages", "exploration", gn_note + " Lists and maps of 0 to 3 elements and of the sizes around every constant in generated code; map keys are known values.")
checks["C36"] = (GN + "; what both versions emit is evaluated, as Go SSA, on the same messages of symbolic values and compared operation by operation", "exploration", gn_note + " Lists and maps of 0 to 3 elements and of the sizes around every constant in generated code, both directions.")
checks["C38"] = (GN + " with hooks set; what they emit is evaluated, as Go SSA, on the same messages of symbolic values as what is generated for messages with one more field, and compared operation by operation", "exploration", gn_note + " One set of hooks, which adds, encodes and decodes a field; lists and maps of 0 to 2 elements.")
