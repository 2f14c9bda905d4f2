"""Technique and level note of every check."""
T = "What was executed is what was decided: the monitors watch real executions of the code built from /repo's working tree, chosen by a seeded generator; schedules and inputs that were not generated are not covered. "
ASAN = "AddressSanitizer + LeakSanitizer + UndefinedBehaviorSanitizer with assertions on"
NOTES = {
 "C01": ("sanitizers (ASan/LSan/UBSan, asserts) and Valgrind memcheck over hostile byte streams to every decoder and both connections", T + "Oracle: sanitizer and memcheck reports, aborts, exceptions, leaks, watchdog for hangs. Uninitialised reads are decided by memcheck on a smaller number of cases."),
 "C02": ("online monitor against a reference varint codec under " + ASAN, T + "Boundary values and all truncations are enumerated; other values are random. Trusts the 20-line reference codec."),
 "C03": ("online monitor against a reference frame parser and builder under " + ASAN, T + "Every frame type and overflow position is generated, values are random. Trusts the reference parser in harness/oracle.hpp."),
 "C04": ("online monitor against an independent QPACK encoder/decoder with the RFC static table under " + ASAN, T + "Every static entry in every representation is enumerated. Trusts harness/tables.inc and the reference decoder."),
 "C05": ("online monitor against a reference canonical Huffman decoder under " + ASAN, T + "All strings of up to two bytes are enumerated in both directions. Trusts the RFC 7541 table in harness/tables.inc."),
 "C06": ("online monitor against a reference prefix-integer and literal codec under " + ASAN, T + "All prefix sizes with boundary values are enumerated."),
 "C07": ("differential monitor: fragmented against whole delivery of the same bytes, all fragmentations for short streams", T + "Streams are legal, damaged and hostile; every two-way split of short streams is enumerated."),
 "C08": ("model-based monitor (byte-string model) under ASan and an accounting allocator", T + "Random operation sequences on pools of buffers; the accounting allocator decides freed-exactly-once and no leak."),
 "C09": ("online exactly-once/in-order monitor over randomly scheduled sessions with a fragmenting, reordering transport", T + "After every drain the received events must equal an independent parse of exactly the bytes delivered so far."),
 "C10": ("online wire-trace monitor: independent HTTP/3 parser over everything sent in randomly scheduled sessions", T + "Checks each send event as it is emitted."),
 "C11": ("monitor over injected protocol violations: expected error and expected prefix from a reference receiver", T + "All violation kinds times roles times fragmentations, random legal prefixes."),
 "C12": ("model-based monitor of handle life times under " + ASAN, T + "The model says for each handle whether it is attached; use after free is decided by ASan."),
 "C13": ("differential monitor: the same session with and without refused calls must emit the same bytes and events", T),
 "C14": ("exhaustive monitor over all pairs of error values", "All pairs of the enumerated error values of both layers are executed; complete for the enumerators of result.hpp."),
 "C15": ("monitor over runs of the instrumented interop tools with an independent QIF/QPACK reader and writer, file faults injected", T + "Crashes are decided by ASan and exit status, hangs by a time-out."),
 "C18": ("monitor over all cut points of reference-built messages against a reference receiver", T + "Every cut point of every generated message is executed."),
 "C19": ("model-based monitor of the header-block and body codecs under " + ASAN, T),
 "C20": ("differential monitor (with and without loggers) and capture of standard output and error", T + "Needs the console to be captured through pipes or files; done in child file descriptors."),
 "C21": ("ThreadSanitizer over concurrently running independent work, results compared with the single-threaded run", T + "TSan reports races on the schedules that happened; happens-before detection extends to many schedules not seen."),
 "C22": ("model-based monitor of value types under " + ASAN, T),
 "C24": ("counting allocator: weight of a connection compared with a bound computed from the traffic history", T + "The constants of the bound are a few times what the current code needs. The QUIC client runs on the stand-ins of C17."),
 "C25": ("differential monitor under five previous contents of heap, stack and destinations, and across processes", T + "Byte comparison of everything observed; also memcheck in C01."),
 "C16": ("differential monitor against a reference key schedule and libcrypto AEADs under " + ASAN, T + "BoringSSL is not installed: its AEAD, HKDF and ChaCha20 calls are served by thin shims over OpenSSL (harness/fake/openssl). RFC 9001 vectors are executed first."),
 "C17": ("online monitor inside a scripted QUIC engine (exactly-once stream model, retained-memory check) under " + ASAN, T + "ngtcp2 and BoringSSL are not installed: scripted stand-ins behind their APIs (harness/fake) play engine and TLS; their contract is trusted."),
 "C23": ("online monitor in scripted QUIC engine and TLS stand-ins with a reference key schedule, injected failures, under " + ASAN, T + "Stand-ins as for C17."),
 "C26": ("online monitor at the API boundary of the scripted QUIC engine under " + ASAN, T + "Stand-ins as for C17. Callback result codes follow ngtcp2's documentation."),
 "C27": ("monitors over the system layer with interposed system calls, injected races and failures, descriptor accounting, under " + ASAN, T + "The kernel's loopback and libsystemd are real; blocking, errors and races of system calls are injected by interposition."),
 "C28": ("black-box monitor of the example client as a process under " + ASAN + " against a lossy server over loopback, with an independent HTTP/3 parser", T + "ngtcp2 and BoringSSL are not installed: the client runs on the scripted engine in harness/fake, which retransmits and acknowledges over real datagrams; its contract is trusted."),
}
