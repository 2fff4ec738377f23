X = "Holds on the executions observed, not beyond them"
LEVELS = {
    "C01": ("runtime monitoring: differential oracle over exhaustive length sweeps and hostile inputs", X + "; trusts the oracle, which is pinned by BLAKE2s and recorded answers."),
    "C02": ("runtime monitoring: split histories against the oracle", X + ", which include all pairs and triples of boundary lengths."),
    "C03": ("runtime monitoring: history checker over hasher families with a byte-storing model", X + "."),
    "C04": ("runtime monitoring: online stream monitor, real reads past 4 GiB", X + "."),
    "C05": ("runtime monitoring: kernels driven directly, every output byte and guard compared with the oracle", X + "; only instruction sets of the executing CPU."),
    "C06": ("runtime monitoring: collision and node-disclosure monitor over related messages, with hooks recording every node the code hashes", X + "; collisions of the compression function itself are out of reach."),
    "C07": ("ThreadSanitizer, Miri with many schedules, and a result monitor under thread pools with injected delays", X + "; schedules are sampled."),
    "C08": ("AddressSanitizer, Miri per SIMD level, page guards and overflow-checked builds", X + "; AVX2 and SSE4.1 under Miri's instruction emulation."),
    "C09": ("runtime monitoring: C kernels and hasher in many builds against the oracle", X + "; NEON through an x86 model of its intrinsics."),
    "C10": ("AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and page guards on the C code", X + "; NEON through an x86 model of its intrinsics."),
    "C11": ("runtime monitoring: Rust and C 64-bit-word kernels against one oracle, with sanitizers", X + "; NEON through an x86 model of its intrinsics."),
    "C12": ("runtime monitoring of the tool as a black box, with injected short and interrupted system calls", X + "."),
    "C13": ("runtime monitoring of the tool as a black box, with injected faults", X + "."),
    "C14": ("runtime monitoring: histories of the reference implementation against the oracle", X + "."),
    "C15": ("runtime monitoring: Python calls against the oracle, arguments watched", X + "."),
    "C16": ("trace checker over recorded calls of scripted readers and writers with injected faults", X + "."),
    "C17": ("runtime monitoring: value monitor over comparisons and conversions", X + "."),
    "C18": ("runtime monitoring: debug text compared over histories", X + "."),
    "C19": ("runtime monitoring: gigabytes really fed, and hashers placed at virtual positions, against the oracle", X + "; positions beyond about 10 GiB are reached by placing the state there."),
    "C20": ("memcheck as taint monitor: secrets marked undefined, every dependent branch or address reported", X + "; AVX-512 code is not observable under valgrind."),
    "C21": ("Miri interpreting the code for big-endian and 32-bit targets, against the oracle", X + "."),
    "C22": ("Miri per CPU feature set, reporting any instruction the CPU lacks", X + "; the C code's build-time choice is not observable this way."),
    "C23": ("runtime monitoring: counting allocator, painted stacks and kernel-accounted peak memory", X + "."),
}
NOT_APPLICABLE = {}
