#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe_at=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": "state the property ranges over", "where": files[0]}]
    if observe_at: a["observe_at"] = [observe_at]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "One-shot digests equal the specified tree hash for every input",
 "For every input, each one-shot Rust function (plain hash, keyed hash, key derivation, and their extended-output forms) returns exactly what the Baokeshed tree-hash specification defines for that mode, key and input. The answer does not depend on which SIMD level the CPU offers, on debug or release build, or on the address or alignment of the buffers, and no input makes a call panic.",
 ["inputs", "configurations"],
 "every mode, key, message content and message length (every residue modulo block and chunk, every chunk count), every supported SIMD level (portable, SSE4.1, AVX2), checked and unchecked builds",
 "The suite compares about twenty hand-picked lengths of one byte pattern with one key, only on the SIMD level this machine selects.",
 ["src/lib.rs", "src/platform.rs", "src/portable.rs", "src/sse41.rs", "src/avx2.rs"],
 [("recursive SIMD tree", "src/lib.rs: hash_internal, hash_recurse, hash_chunks_parallel, hash_parents_parallel, condense_root, left_len"),
  ("single-chunk path", "src/lib.rs: hash_one_chunk")],
 observe_at="return values of hash, keyed_hash, derive_key and the _xof variants", hook='force a SIMD level')

prop("C02", "Incremental hashing is independent of how the input is split",
 "Feeding an input to the incremental hasher in any sequence of pieces, including empty ones and through either the native call or the standard Write interface, yields the same digest and the same extended output as one-shot hashing of the concatenation in the same mode. A write always accepts and reports the whole buffer.",
 ["inputs", "histories"],
 "every sequence of piece lengths (aligned or not to blocks, chunks and SIMD widths), every mode, key and SIMD level",
 "The suite feeds two pieces, and a few fixed strides, of one pattern in the default mode; the lazily merged subtree stack has histories those never reach.",
 ["src/lib.rs"],
 [("incremental state machine", "src/lib.rs: Hasher::update, push_chunk_hash, needs_merge, merge_parent, ChunkState::update"),
  ("Write adapter", "src/lib.rs: impl io::Write for Hasher")],
 state="partial chunk state plus stack of subtree hashes", observe_at="Hasher::finalize / finalize_xof after each history", hook='force a SIMD level')

prop("C03", "Finalizing never disturbs a hasher and clones are independent",
 "Reading a digest or extended output from an incremental hasher changes nothing: it can be repeated with the same result at any point, and feeding more input afterwards gives the same answers as if nothing had been read. Clones of a hasher taken at any point evolve independently of each other and of the original.",
 ["histories"],
 "every interleaving of update, finalize, extended finalize, clone and drop on a family of hashers",
 "The suite finalizes each hasher once or twice at a few lengths and never clones one in mid-stream.",
 ["src/lib.rs"],
 [("non-consuming finalization", "src/lib.rs: Hasher::finalize_xof, ChunkState::finalize"), ("derived Clone", "src/lib.rs: Hasher, ChunkState")],
 state="Hasher", observe_at="digests of every live hasher against a model that stores the bytes fed", hook='force a SIMD level')

prop("C04", "Extended output is one fixed byte stream per mode, key and input",
 "Successive reads of an extended output return consecutive 64-byte pieces of a single stream that depends only on mode, key and input, as the specification defines for every position. The ordinary digest is the first 32 bytes of that stream, and reading from one copy of an output object never affects another copy or the hasher it came from.",
 ["inputs", "histories"],
 "every stream position (including beyond 4 GiB), every input shape (empty, partial block, full block, multi-chunk roots), every mode and SIMD level, every interleaving of reads and clones",
 "The suite reads a few hundred bytes of a few outputs; the position counter's high half, and clones, are never exercised.",
 ["src/lib.rs", "src/portable.rs", "src/sse41.rs"],
 [("position counter", "src/lib.rs: Output::read"), ("output function", "compress_xof in src/portable.rs and src/sse41.rs")],
 state="Output position", observe_at="bytes returned by Output::read and Output::to_hash", hook='force a SIMD level; move the stream position')

prop("C05", "Every Rust SIMD kernel computes exactly the specified function",
 "Each compression and batch-hashing routine offered for a SIMD level computes the specified function for every argument: chaining value or key, block contents and length, 64-bit position and stride, flag combination, batch size and input size. It writes one digest per input and touches no output byte beyond them.",
 ["inputs", "configurations"],
 "all argument values, including positions whose low 32-bit word wraps inside a batch, zero stride, extreme words, every batch size around the lane counts, every buffer alignment",
 "The suite compares each kernel with the portable code on one fixed argument tuple.",
 ["src/portable.rs", "src/sse41.rs", "src/avx2.rs", "src/platform.rs"],
 [("compression", "compress, compress_xof"), ("lane-parallel hashing", "hash4, hash8, hash_many, load_offsets, transpose_msg_vecs")],
 observe_at="outputs of the kernels and the bytes around them")

prop("C06", "Modes, keys and tree positions are domain separated",
 "The plain, keyed and key-derivation modes, and different keys, never share an output for the same input, and a leaf, an interior node and the root are always hashed under distinct markers and positions. So no result returned to a caller ever equals an internal node value of the same or another message, and moving, duplicating, truncating or extending parts of a message always changes its digest.",
 ["inputs", "histories"],
 "all pairs of modes, keys and structurally related messages; every compression performed during any run",
 "The suite checks digests of isolated messages; it has no view of the internal compressions and no pairs of related messages.",
 ["src/lib.rs"],
 [("flags", "src/lib.rs: Flags, IsRoot"), ("chunk positions", "src/lib.rs: hash_one_chunk, ChunkState, hash_many offset stride")],
 observe_at="log of every compression input (chaining value, block, length, position, flags)", hook='log of compression inputs')

prop("C07", "Multithreading never changes results and concurrent use is safe",
 "With multithreading enabled, one-shot hashing returns the same result for every thread count, scheduling and nesting as the single-threaded build does. Any number of threads may hash at the same time, each getting exactly its own correct result with no data race.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of the parallel subtree tasks, pool sizes from one thread up, calls from inside and outside a pool, concurrent callers with different modes and keys",
 "The suite runs each call once on an otherwise idle pool and compares only final digests of a few lengths.",
 ["src/lib.rs", "src/platform.rs"],
 [("fork-join of subtrees", "src/lib.rs: join, hash_recurse"), ("runtime dispatch", "src/platform.rs: Platform::detect")],
 state="per-call output slices shared between tasks", observe_at="digests per caller, join events per thread, race reports", hook='delay and log the parallel tasks; force a SIMD level')

prop("C08", "The safe Rust API has no undefined behaviour or out-of-bounds access",
 "No sequence of calls through the safe Rust API reads or writes outside the caller's buffers and the objects themselves, reads uninitialized memory, or otherwise executes undefined behaviour, for any input length and alignment, at any SIMD level.",
 ["inputs", "histories", "configurations"],
 "every input length, alignment and placement (including buffers that end or start at an unmapped page), every call history, every SIMD level",
 "A test that reads a few bytes past a buffer still passes; the suite has guard pages around only one buffer shape and no sanitizer.",
 ["src/lib.rs", "src/sse41.rs", "src/avx2.rs", "src/platform.rs", "src/copy.rs"],
 [("raw pointer loads and stores", "src/sse41.rs, src/avx2.rs: loadu, storeu, hash_many"), ("unsafe dispatch", "src/platform.rs")],
 observe_at="Miri, AddressSanitizer and guard-page faults")

prop("C09", "The C implementation agrees with the Rust implementation everywhere",
 "The C hasher returns the specified digest for every input, key, mode and split of the input, with every build (portable, SSE4.1, AVX2, AVX-512, NEON; any compiler or optimisation level). Each C compression and batch kernel computes the same function as the specification for all arguments.",
 ["inputs", "histories", "configurations"],
 "all inputs, splits, kernel arguments, batch sizes, and build configurations",
 "The suite compares a handful of lengths with the build the host selects; the NEON code is never run on this machine.",
 ["c/baokeshed.c", "c/baokeshed_impl.h", "c/baokeshed_portable.c", "c/baokeshed_sse41.c", "c/baokeshed_avx2.c", "c/baokeshed_avx512.c", "c/baokeshed_neon.c", "src/c.rs", "build.rs"],
 [("C hasher", "c/baokeshed.c: hasher_init, hasher_update, hasher_finalize"), ("C kernels", "c/baokeshed_*.c"), ("FFI", "src/c.rs")],
 state="C hasher struct", observe_at="outputs of hasher_finalize, compress_* and hash_many_*")

prop("C10", "The C implementation is memory safe and free of undefined behaviour",
 "For every input length, split, alignment and batch size the C code reads only the input given and writes only the output and state objects it was given, uses no uninitialized value, and executes no undefined operation. The state object that the Rust binding provides is large enough for everything the C code stores in it, for inputs of any length.",
 ["inputs", "histories", "configurations"],
 "all lengths, splits, alignments, batch sizes and stack depths, for every C build configuration",
 "The suite checks only returned digests; overruns of a few bytes, uninitialized reads and an undersized state object go unnoticed.",
 ["c/baokeshed.c", "c/baokeshed_impl.h", "c/baokeshed_sse41.c", "c/baokeshed_avx2.c", "c/baokeshed_avx512.c", "c/baokeshed_neon.c", "c64/", "src/c.rs"],
 [("C buffers", "c/baokeshed.c: chunk_state_fill_buf, hasher_push_chunk_hash"), ("binding layout", "src/c.rs: Hasher, ChunkState")],
 state="C hasher struct", observe_at="ASan, UBSan, MSan reports; guard pages; canaries behind the state object")

prop("C11", "All 64-bit-word variant kernels compute the same function",
 "The 64-bit-word variant's Rust kernels and all of its C kernels (portable, SSE4.1, AVX2, AVX-512, NEON) compute one and the same specified function for every argument: chaining value, block, block length, 64-bit position and stride, flags, batch size and input size. Each writes exactly one digest per input and nothing else.",
 ["inputs", "configurations"],
 "all argument values and batch sizes around the lane counts, for each kernel",
 "The suite compares each kernel with the portable one on a single argument tuple.",
 ["src/portable64.rs", "src/c64.rs", "c64/baokeshed64_portable.c", "c64/baokeshed64_sse41.c", "c64/baokeshed64_avx2.c", "c64/baokeshed64_avx512.c", "c64/baokeshed64_neon.c", "c64/baokeshed64_impl.h"],
 [("64-bit kernels", "compress, compress_xof, hash1, hash_many and their C counterparts")],
 observe_at="outputs of the kernels and the bytes around them")

prop("C12", "The command-line tool prints the right digest for every input",
 "For every list of inputs (regular files of any size, pipes, devices, standard input by '-' or by default) the tool prints, in order, one line per input with the correct lower-case hex digest for the chosen mode, key and output length, followed by two spaces and the name when several inputs were given. Any output length from 0 to the 64-bit maximum is honoured exactly, however the input is read.",
 ["inputs", "configurations", "histories"],
 "file sizes and kinds, short reads and arbitrary pipe chunking, names, modes, keys, output lengths, number and order of inputs, thread counts",
 "The suite runs five fixed invocations on inputs of three to seven bytes.",
 ["baokeshed_bin/src/main.rs", "src/copy.rs"],
 [("input selection", "baokeshed_bin/src/main.rs: open_input, maybe_memmap_input, hash_one"), ("printing", "baokeshed_bin/src/main.rs: print_hex, hash")],
 observe_at="stdout bytes and exit status of the built binary")

prop("C13", "The command-line tool reports every failure and never a wrong digest",
 "If an input cannot be opened or read, the tool prints no digest for it, still processes every other input correctly, and exits with a non-zero status. A malformed or wrong-length key, a bad or contradictory option, or a failure to write the output makes it exit non-zero; a key is never silently ignored, truncated or padded, and the exit status is zero only if every requested digest was printed.",
 ["inputs", "fault_sequences"],
 "all mixes of good and bad inputs, all key strings, option combinations and output failures",
 "No existing test provokes a failure of any kind.",
 ["baokeshed_bin/src/main.rs"],
 [("error accumulation", "baokeshed_bin/src/main.rs: hash (did_error)"), ("key parsing", "baokeshed_bin/src/main.rs: hash (hex::decode)")],
 observe_at="stdout, stderr and exit status of the built binary under injected faults")

prop("C14", "The reference implementation agrees with the specification",
 "The standalone reference implementation returns the specified output for every mode, key, input, split of the input into updates, and requested output length, and finalizing it does not change its state.",
 ["inputs", "histories"],
 "all inputs, splits, modes, keys and output lengths",
 "The suite uses it as the oracle for a few lengths in the main crate; nothing independent checks it.",
 ["reference_impl/reference_impl.rs"],
 [("reference hasher", "reference_impl/reference_impl.rs: Hasher::update, finalize")],
 state="reference Hasher", observe_at="bytes written by finalize")

prop("C15", "The Python implementation agrees with the specification",
 "The Python functions for plain hashing, keyed hashing and key derivation return exactly the specified bytes for every input (bytes, bytearray or any byte-wide contiguous buffer), key and requested output length, and do not modify their arguments.",
 ["inputs"],
 "all inputs, keys and output lengths",
 "The suite compares a few lengths of one pattern.",
 ["python/baokeshed.py"],
 [("Python tree hash", "python/baokeshed.py: hash_recurse, root_output_bytes")],
 observe_at="return values of hash, keyed_hash and derive_key")

prop("C16", "Wide copying transfers every byte exactly once or reports the error",
 "Copying from any reader to any writer delivers exactly the bytes the reader produced, in order and once each, and returns their number, whatever sizes the reads and writes come in. Interrupted reads and writes are retried, every other error is returned unchanged after all bytes read before it were delivered, and nothing is read after the end of input or an error.",
 ["inputs", "fault_sequences"],
 "all sequences of short reads, short writes, interruptions, errors and end of input",
 "The suite copies one slice into one vector; no short, interrupted or failing reader or writer is used.",
 ["src/copy.rs"],
 [("copy loop", "src/copy.rs: copy_wide")],
 observe_at="scripted reader and writer call logs, return value")

prop("C17", "Digest values compare, convert and print faithfully",
 "Two digests, or a digest and a byte array, compare equal exactly when all 32 bytes are equal. Conversions to and from byte arrays preserve the bytes, and the hex form is the 64 lower-case digits of those bytes in order, which the debug form also shows.",
 ["inputs"],
 "all pairs of 32-byte values, in particular those differing in a single bit at any position",
 "The suite compares a few equal digests; no near-miss pair is ever compared.",
 ["src/lib.rs"],
 [("Hash", "src/lib.rs: PartialEq, From, to_hex, Debug for Hash")],
 observe_at="results of ==, !=, conversions and formatting")

prop("C18", "Debug output of hashers and outputs reveals no secret state",
 "Formatting an incremental hasher or an extended output for debugging (plain or pretty, at any point of its life) yields text that does not depend on the key, the input, how much was fed, or the output position.",
 ["inputs", "histories"],
 "all keys, inputs, histories and formatting options",
 "No existing test formats these objects at all.",
 ["src/lib.rs"],
 [("opaque Debug", "src/lib.rs: impl Debug for Hasher, Output")],
 observe_at="formatted strings across many secrets and histories")

prop("C19", "Inputs and positions beyond 32 bits are handled exactly",
 "Inputs of any length up to the 64-bit maximum are hashed as specified, one-shot, incrementally and in C: byte positions and stream positions never wrap, truncate or lose carries at 4 GiB or any other boundary. No depth of the tree overflows the hasher's state or stack, in checked builds or unchecked.",
 ["inputs", "histories", "configurations"],
 "all total lengths up to 2^64-1, in particular around every power of two, and all subtree-stack shapes",
 "The suite never hashes more than a few hundred kilobytes; unit tests cannot feed exabytes.",
 ["src/lib.rs", "src/sse41.rs", "src/avx2.rs", "c/baokeshed.c", "src/c.rs"],
 [("64-bit positions", "src/lib.rs: offset_low, offset_high, ChunkState::offset; load_offsets in SIMD files"), ("stack depth", "src/lib.rs: MAX_DEPTH; c/baokeshed.c: subtree_hashes")],
 state="position counter and subtree stack", observe_at="digests after feeding real multi-gigabyte input and after state jumps", hook='jump the position counter and subtree stack')

prop("C20", "Time and memory access pattern do not depend on secret data",
 "While hashing or comparing, neither control flow nor any memory address depends on the contents of the key, of the message or of the digests compared: only on lengths, mode and call structure.",
 ["inputs", "configurations"],
 "all keys, message contents and digest pairs; every SIMD level of the Rust and C code",
 "Timing behaviour leaves no trace in returned values.",
 ["src/lib.rs", "src/portable.rs", "src/sse41.rs", "src/avx2.rs", "c/baokeshed.c", "c/baokeshed_portable.c"],
 [("constant-time equality", "src/lib.rs: PartialEq for Hash"), ("data-independent compression", "portable, sse41, avx2 and C kernels")],
 observe_at="memcheck reports of secret-tainted branches and addresses", hook='force a SIMD level')

prop("C21", "Results are the same on big-endian, 32-bit and non-x86 targets",
 "On targets with a different byte order, pointer width or without x86 SIMD, every Rust API returns the same digests and output bytes as on x86-64, without panics or undefined behaviour, and copying works the same.",
 ["configurations", "inputs"],
 "big-endian 64-bit, little-endian 32-bit and other non-x86 targets; every mode and call history within the interpreter's reach",
 "The suite runs on x86-64 only.",
 ["src/lib.rs", "src/platform.rs", "src/portable.rs", "src/portable64.rs", "src/copy.rs", "reference_impl/reference_impl.rs"],
 [("byte-order conversion", "src/lib.rs: words_from_key_bytes, bytes_from_state_words; src/portable.rs: words_from_block"), ("non-x86 constants", "src/platform.rs: MAX_SIMD_DEGREE; src/copy.rs: COPY_BUF_LEN")],
 observe_at="digests computed under Miri for foreign targets")

prop("C22", "SIMD code runs only on CPUs that support it",
 "At run time the library uses only instruction sets that the executing CPU reports, choosing a supported implementation for every combination of CPU features, and gives the same results with each choice.",
 ["configurations", "inputs"],
 "CPU feature sets: none beyond baseline, SSE4.1 only, AVX2; every public operation",
 "The suite runs on one CPU; a dispatch that requires AVX2 without checking would pass on it.",
 ["src/platform.rs", "src/sse41.rs", "src/avx2.rs"],
 [("runtime dispatch", "src/platform.rs: Platform::detect, compress, compress_xof, hash_many")],
 observe_at="Miri's check that a called function's target features are available; digests")

prop("C23", "Streaming uses bounded memory regardless of input length",
 "Hashing a stream takes an amount of heap and stack that does not grow with the length of the input: the incremental hasher allocates nothing, one-shot hashing needs stack at most logarithmic in the length, and the command-line tool hashes arbitrarily long pipes within a fixed memory footprint and prints arbitrarily long outputs likewise.",
 ["inputs", "histories"],
 "all input lengths, splits and output lengths",
 "Memory use leaves no trace in returned values.",
 ["src/lib.rs", "src/copy.rs", "baokeshed_bin/src/main.rs"],
 [("fixed-size state", "src/lib.rs: Hasher, ChunkState; src/copy.rs: stack buffer")],
 observe_at="allocator events, painted stack high-water mark, peak RSS of the tool")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
