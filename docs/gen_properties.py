"""Writes properties.jsonl (kept as a script because the statements are long)."""
import json, os
B, S = "blake2b/src/", "blake2s/src/"
def both(*n): return [B + x for x in n] + [S + x for x in n]
P = []
def add(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": m} for m in mech]}
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

add("C01", "Every compression back end computes the RFC 7693 compression function",
    "On every CPU feature combination the library distinguishes (portable, SSE4.1, AVX2), compressing a block computes exactly the RFC 7693 compression function F of BLAKE2b / BLAKE2s, for every chaining value, every message block, every value of the two-word byte counter and every combination of the final-block and last-node flags. The choice of back end never changes a hash.",
    ["inputs", "configurations"], "all chaining values (reached through all parameter blocks), all block contents, all counters, all flag values, all CPU feature sets",
    "The tests compare back ends on a few fixed messages whose high counter words are zero, and run only the back ends the test machine has; 2^512+ chaining values cannot be sampled.",
    both("portable.rs", "sse41.rs", "avx2.rs", "guts.rs"), ["G function, message schedule and IV constants", "diagonalise / undiagonalise and message permutation in the SIMD code", "Implementation::compress1_loop dispatch", "count_low / count_high / flag_word"])
add("C02", "One-shot hashing is correct for every input length",
    "blake2b(), blake2s() and Params::hash return the RFC 7693 hash of the input, for every input length from 0 up to the largest possible slice and every content. Block boundaries (empty input, exact multiples, one more, one less) get no special outcome.",
    ["inputs", "configurations"], "all lengths < 2^63, all byte contents, all CPU feature sets",
    "Tests use a handful of lengths around one or two blocks; correctness for all lengths is a statement about the block loop and the final-block logic.",
    both("lib.rs", "guts.rs"), ["Params::hash", "Implementation::compress1_loop", "final_block", "the block loop of each back end"])
add("C03", "Incremental hashing equals hashing the concatenation",
    "For every sequence of update() calls, however the input is cut into pieces (including empty ones), State::finalize returns the hash of the concatenation of the pieces. finalize may be called at any time and any number of times; it changes nothing, and a clone behaves as its original from then on.",
    ["histories", "inputs", "configurations"], "all sequences of update/finalize/clone, all piece lengths, totals < 2^126 bytes (BLAKE2b) / 2^62 bytes (BLAKE2s), keyed and unkeyed, all CPU feature sets",
    "The number of ways to cut an input is exponential and the buffered state depends on the whole history; the tests and fuzz targets sample short histories.",
    both("lib.rs", "guts.rs"), ["State::update", "State::fill_buf", "State::compress_buffer_if_possible", "State::finalize"])
add("C04", "BLAKE2bp and BLAKE2sp compute the reference tree hash",
    "blake2bp / blake2sp (one-shot, keyed, with any hash length, and incrementally through any sequence of updates) return the tree hash of the BLAKE2 specification: input dealt block by block to 4 (bp) or 8 (sp) leaves with the standard leaf and root parameters, and the leaf hashes hashed by the root. Neither the input length, nor how it is cut into updates, nor the CPU feature set changes the result.",
    ["inputs", "histories", "configurations"], "all input lengths and contents, all cuts into updates, all key and hash lengths, all CPU feature sets",
    "The tests check fixed vectors and a sample of lengths on the host's own SIMD level; the buffering threshold of the tree mode misbehaves only for particular (buffered, incoming) length pairs.",
    [B + "blake2bp.rs", S + "blake2sp.rs", B + "many.rs", S + "many.rs"], ["Params::hash tree construction", "leaf/root parameter words", "State::update double buffering", "finalize_root_words"])
add("C05", "The many-at-once API gives each job its individual result",
    "After hash_many each job's hash equals Params::hash of that job's own parameters and input, and after update_many each state equals the state after its own update(), for every number of jobs, every mix of lengths (including empty), parameters and keys, and whatever the SIMD width. No job affects another.",
    ["inputs", "configurations"], "all job counts, all combinations of input lengths, parameters, keys, prior state, all CPU feature sets",
    "Jobs of different lengths interact through the lane-filling and eviction logic; the tests cover a few job counts with regular length patterns.",
    both("many.rs", "guts.rs", "sse41.rs", "avx2.rs"), ["compress_many fill / evict loop", "compress2_loop / compress4_loop / compress8_loop", "HashManyJob::new and to_hash", "update_many"])
add("C06", "Every parameter reaches its field of the parameter block",
    "Each Params setter determines exactly its field of the RFC 7693 parameter block (offset, width, little-endian encoding, zero padding) and nothing else, for every valid argument; the last call wins when a setter is called again, and the order of different setters is irrelevant. The default parameters are sequential mode with full-length output, and hashing uses all of the block.",
    ["inputs", "histories"], "all argument values of all eleven setters together, all salt/personal/key lengths, repeated calls",
    "The tests set each parameter to one value; a swapped field, a truncated integer or a stale byte left by an earlier longer value only shows for other values or orders.",
    both("lib.rs"), ["Params::to_words", "Params::new", "the setters hash_length ... last_node"])
add("C07", "Keyed hashing prepends the zero-padded key block",
    "A hash keyed with a key of 1..=64 (BLAKE2b) or 1..=32 (BLAKE2s) bytes equals the RFC 7693 keyed hash: the key length is in the parameter block and the zero-padded key is the first block, which is the last one if and only if the message is empty. An empty key is no key, and setting a shorter key leaves nothing of a longer earlier one.",
    ["inputs", "histories", "configurations"], "all key lengths and contents, all message lengths and contents, one-shot and incremental, key set repeatedly",
    "Tests use a few full-length keys; the combination of short key, key replacement and empty message is rarely sampled.",
    both("lib.rs", "many.rs"), ["Params::key", "Params::to_state / State::with_params", "Params::hash keyed path", "is_keyed"])
add("C08", "count() reports exactly the bytes absorbed",
    "State::count returns the number of input bytes passed to update() so far, excluding any key block, after every history of updates, for BLAKE2b, BLAKE2s and the parallel variants.",
    ["histories", "inputs"], "all update histories, keyed and unkeyed, totals up to 2^126 / 2^62 bytes",
    "Tests check short unkeyed or single-update histories.",
    both("lib.rs") + [B + "blake2bp.rs", S + "blake2sp.rs"], ["State::count", "count maintenance in the block loop", "key block subtraction"])
add("C09", "SIMD code only runs on CPUs that were found to support it",
    "No function compiled for an instruction-set extension is ever entered unless the CPU was found, at run time or by the build's own target features, to support that very extension on the path leading to it. On a CPU without any extension only portable code runs.",
    ["configurations", "inputs"], "all CPUs (all outcomes of feature detection), all public operations, all build configurations",
    "The test machine supports the extensions, so a wrong or missing feature test runs fine there and crashes elsewhere.",
    both("guts.rs", "many.rs", "sse41.rs", "avx2.rs"), ["Implementation::detect", "Implementation match arms calling #[target_feature] functions"])
add("C10", "Unsafe code never touches memory it must not touch",
    "No safe public operation reads or writes outside the buffers it was given or its own objects, dereferences a misaligned or dangling pointer where alignment is required, reads uninitialised memory, or copies between overlapping regions with an operation that forbids it, whatever lengths and alignments the caller's slices have.",
    ["inputs", "histories", "configurations"], "all public operations, all slice lengths and alignments, all histories",
    "An over-read of a few bytes past a slice is invisible to a test that only compares hashes; only some lengths and placements make it fault.",
    both("guts.rs", "portable.rs", "sse41.rs", "avx2.rs", "many.rs", "lib.rs"), ["loadu / storeu and array_ref! uses", "final_block", "pointer arithmetic in the block loops", "mut_array_refs"])
add("C11", "Valid calls never panic; documented limits always do",
    "No public operation panics, overflows or runs into unreachable code for arguments within the documented limits. An argument outside the limits (hash length 0 or too long, key / salt / personalization too long, node offset of 2^48 or more in BLAKE2s) is always rejected by a panic before it can influence any hash.",
    ["inputs", "histories"], "all arguments of all setters, all input lengths and histories",
    "Overflow checks and assertions fire only for extreme values that tests do not construct.",
    both("lib.rs", "guts.rs", "many.rs") + [B + "blake2bp.rs", S + "blake2sp.rs"], ["assert! in the setters", "arithmetic in update / count / block loops", "ArrayVec capacity in compress_many and to_hex"])
add("C12", "Debug output reveals no secret",
    "Formatting Params, State (sequential and parallel) or HashManyJob for debugging never lets key bytes, chaining values, buffered input or anything computed from them influence the output.",
    ["inputs", "histories"], "all parameter values, states and formatter options",
    "A test can look at one formatted string but not at every path and field; leaking a new field keeps every existing test green.",
    both("lib.rs", "many.rs") + [B + "blake2bp.rs", S + "blake2sp.rs"], ["fmt::Debug for Params / State / HashManyJob"])
add("C13", "Hash comparison and hashing do not branch on secret data",
    "Comparing a Hash with a Hash or a byte slice has a control flow and a memory access pattern that depend only on the lengths, never on the contents, and it is true exactly when lengths and contents agree. Hashing likewise never branches on, or indexes memory by, key bytes or message contents.",
    ["inputs"], "all hash values and lengths, all key and message contents",
    "Functional tests cannot observe an early exit; `==` on slices passes all of them.",
    both("lib.rs", "guts.rs", "portable.rs", "sse41.rs", "avx2.rs"), ["PartialEq for Hash", "constant_time_eq", "the compression functions"])
add("C14", "Results depend on nothing but parameters and input",
    "The library keeps no hidden state: no operation writes or reads mutable global memory, thread-locals, time, environment or randomness, apart from the standard CPU feature cache. Equal calls therefore give equal results in every order and from every thread, and public types stay Send and Sync.",
    ["histories", "schedules"], "all interleavings and orders of public operations",
    "No test interleaves threads, and order dependence needs a particular sequence to show.",
    both("lib.rs", "guts.rs", "many.rs"), ["statics (none mutable)", "extern calls (none)", "Implementation::detect"])
add("C15", "Results do not depend on target or build configuration",
    "With or without the std and uninline_portable features, on 32- and 64-bit and on x86 and non-x86 targets, the same input gives the same hash; in particular words are read and written in little-endian order explicitly, and lengths and counters do not lose bits where usize is narrower.",
    ["configurations", "inputs"], "all feature combinations, all targets the toolchain's libraries allow to be analysed, all inputs",
    "The tests run in one or two configurations on one x86-64 machine.",
    both("lib.rs", "guts.rs", "portable.rs"), ["from_le_bytes / to_le_bytes in portable.rs and guts.rs", "cfg(target_arch) dispatch", "count type conversions"])
add("C16", "Without std the library needs neither allocator nor operating system",
    "Built without the std feature, the library crates use only core: no allocation, no standard library, no I/O, no locks; and with or without std, no hashing operation allocates or performs I/O.",
    ["configurations", "inputs"], "all public operations, all feature combinations",
    "Tests run with an allocator and operating system at hand, so a new dependency on either goes unnoticed.",
    both("lib.rs", "many.rs", "guts.rs"), ["#![cfg_attr(not(feature = \"std\"), no_std)]", "ArrayVec / ArrayString instead of Vec / String"])
add("C17", "The command-line tool hashes what it was asked to, or fails",
    "Each command-line option reaches exactly the corresponding parameter of the selected hash function, and an option that function cannot honour is an error rather than ignored. The tool prints a hash only after the complete input was read without an error (an interrupted read is retried), reports every failure on stderr and then exits with a non-zero status after trying the remaining files.",
    ["inputs", "fault_sequences", "configurations"], "all option combinations, all sequences of read results and I/O errors",
    "The tests run a few happy-path invocations; read errors, interruptions, and unsupported combinations are not exercised.",
    ["blake2_bin/src/main.rs"], ["make_params", "read_write_all", "hash_file / hash_stdin", "main"])
add("C18", "Writing to a State through io::Write absorbs everything",
    "With std, write() on a State consumes the whole buffer, reports its full length, never fails, and has exactly the effect of update(); flush() succeeds and changes nothing.",
    ["inputs", "histories"], "all states and buffers of any length, all four state types",
    "Tests write one or two short buffers.",
    both("lib.rs") + [B + "blake2bp.rs", S + "blake2sp.rs"], ["impl io::Write for State"])
add("C19", "A Hash is exactly its bytes",
    "A Hash gives back exactly the requested number of output bytes through as_bytes / as_ref, as_array gives all the bytes of a full-length hash, to_hex is the lower-case hexadecimal of exactly those bytes in order, converting a byte array into a Hash preserves it, and two hashes are equal exactly when their lengths and bytes are.",
    ["inputs"], "all hash lengths and contents",
    "Tests use a few full-length values.",
    both("lib.rs"), ["Hash::as_bytes / as_array / to_hex", "bytes_to_hex", "From<[u8; OUTBYTES]>", "PartialEq"])
add("C20", "Last-node flags and empty inputs are honoured wherever set",
    "The last-node flag of a Params or State takes effect on the final block only, whether set before or after updates, whether the final block is full, partial or empty, and for one-shot, incremental and many-at-once hashing alike.",
    ["inputs", "histories"], "all points at which the flag is set or cleared, all input lengths",
    "Tests set it at one point with one input.",
    both("lib.rs", "guts.rs", "many.rs"), ["State::set_last_node", "Params::last_node", "HashManyJob last_node", "flag_word"])
add("C21", "Hashing speed scales with the SIMD width",
    "Hashing many inputs or a long input in a parallel mode uses the full SIMD width of the CPU, so that its throughput is at the documented multiple of the portable implementation.",
    ["inputs", "configurations"], "all CPUs and input sizes",
    "Throughput is not asserted by any test.",
    both("many.rs", "avx2.rs"), ["compress_many", "degree()"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
