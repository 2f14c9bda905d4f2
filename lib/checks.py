"""What each property's check runs. `n(q, t)` picks by tier."""


def n(run, quick, thorough):
    return thorough if run.thorough else quick


def seeds(run, k):
    return [run.seed + 1000 * i for i in range(k)] if run.thorough else [run.seed]


CHECKS = {}


def check(prop, **kw):
    def deco(f):
        CHECKS[prop] = dict(run=f, **kw)
        return f

    return deco


@check("C02", expect={"decodes": 100000, "truncations": 10000, "overflows": 100})
def c02(run):
    run.harness("c02.cpp", cases=n(run, 6000, 60000), seeds=seeds(run, 3))


@check("C05", expect={"accepted-inputs": 5000, "refused-inputs": 5000, "roundtrips": 5000, "large-strings": 20})
def c05(run):
    run.harness("c05.cpp", cases=n(run, 16000, 200000), seeds=seeds(run, 3))


@check("C06", expect={"ints-decoded": 10000, "literals-decoded": 10000, "foreign-ints": 1000, "overflowing-ints": 500, "largest-ints": 10000, "huffman-literals": 100, "raw-literals": 100, "large-literals": 20})
def c06(run):
    run.harness("c06.cpp", cases=n(run, 10000, 120000), seeds=seeds(run, 3))


@check("C03", expect={"roundtrips": 10000, "foreign-decodes": 10000, "overflows": 500, "malformed-refused": 3000, "unknown-frames-skipped": 5000})
def c03(run):
    run.harness("c03.cpp", cases=n(run, 8000, 120000), seeds=seeds(run, 3))


@check("C04", expect={"lists-encoded": 10000, "foreign-blocks": 3000, "invalid-refused": 3000, "uppercase": 1000, "large-blocks": 20})
def c04(run):
    run.harness("c04.cpp", cases=n(run, 12000, 150000), seeds=seeds(run, 3))


@check("C14", expect={"pairs": 900, "same-pairs": 30})
def c14(run):
    run.harness("c14.cpp", cases=900)


@check("C09", expect={"sessions": 1000, "messages": 4000, "events-observed": 20000, "monitor-checks": 20000, "large-histories": 8, "large-messages": 150, "streams-at-once": 10000, "any-stream-ids": 1000})
def c09(run):
    run.harness("c09.cpp", cases=n(run, 6000, 80000), seeds=seeds(run, 3))


@check("C10", expect={"sessions": 1000, "messages": 3000, "send-events": 20000, "monitor-checks": 20000, "large-histories": 8, "large-messages": 150, "streams-at-once": 10000, "any-stream-ids": 1000})
def c10(run):
    run.harness("c10.cpp", cases=n(run, 6000, 80000), seeds=seeds(run, 3))


@check("C07", expect={"streams": 2000, "fragmentations": 30000, "incremental-decodes": 10000, "decoder-runs": 5000})
def c07(run):
    run.harness("c07.cpp", cases=n(run, 4000, 60000), seeds=seeds(run, 3))


@check("C18", expect={"truncated": 20000, "complete": 5000, "exhaustive-streams": 200, "huge-lengths": 5000})
def c18(run):
    run.harness("c18.cpp", cases=n(run, 3000, 40000), seeds=seeds(run, 3))


@check("C11", expect={"violations": 3000, "request-stream-violations": 4000, "control-stream-violations": 2000, "other-unidirectional-streams": 3000})
def c11(run):
    run.harness("c11.cpp", cases=n(run, 12000, 150000), seeds=seeds(run, 3))


@check("C12", expect={"senders-overwritten": 5000, "operations-on-live-handles": 50000, "operations-on-dead-handles": 50000})
def c12(run):
    run.harness("c12.cpp", cases=n(run, 12000, 150000), seeds=seeds(run, 3))


@check("C13", expect={"session-pairs": 1000, "refused-calls": 30000, "uppercase-header": 200, "body-after-the-message-was-completed": 500, "completing-a-sent-message-again": 200, "response-on-an-unknown-stream": 500, "response-on-a-finished-stream": 500, "data-after-the-end-of-a-request": 200, "data-after-the-end-of-a-response": 200})
def c13(run):
    run.harness("c13.cpp", cases=n(run, 5000, 60000), seeds=seeds(run, 3))


@check("C19", expect={"header-blocks-encoded": 3000, "header-blocks-decoded": 6000, "bodies-encoded": 3000, "bodies-decoded": 6000, "delegations": 30000, "huge-frames": 3000, "large-messages": 20})
def c19(run):
    run.harness("c19.cpp", cases=n(run, 8000, 100000), seeds=seeds(run, 3))


@check("C08", expect={"many-slices": 400000, "large-buffers": 60, "operations": 500000, "slices": 50000, "slices-outliving": 5000, "lookaheads": 30000, "memory-checks": 100000})
def c08(run):
    run.harness("c08.cpp", cases=n(run, 4000, 50000), seeds=seeds(run, 3))
    run.harness("c08.cpp", variant="plain", flags=["-DACCOUNT"], cases=n(run, 4000, 50000), seeds=seeds(run, 3), label="c08.cpp with memory accounting")


@check("C22", expect={"values-compared": 500000, "assignments-across-families": 10000, "headers-compared": 50000})
def c22(run):
    run.harness("c22.cpp", cases=n(run, 6000, 100000), seeds=seeds(run, 3))


@check("C25", expect={"comparisons": 100000, "observations": 30000, "processes-compared": 2})
def c25(run):
    run.harness("c25.cpp", variant="plain", cases=n(run, 6000, 60000), seeds=seeds(run, 3))
    # The same cases in other processes: other address-space layouts, and other
    # code and object layouts with another instrumentation.
    k = n(run, 2000, 10000)
    first = run.harness("c25.cpp", variant="plain", cases=k, label="c25.cpp, first process")
    for variant in ("plain", "asan"):
        r = run.harness("c25.cpp", variant=variant, cases=k, label="c25.cpp, another process (%s)" % variant)
        if not (first["violations"] or r["violations"]):
            diff = first["distinct"] ^ r["distinct"]
            run.stats["processes-compared"] = run.stats.get("processes-compared", 0) + 1
            if diff:
                run.violation("depends-on-process", "%d of %d outcomes differ between two processes (plain and %s) for identical inputs" % (len(diff), k, variant))


@check("C20", expect={"messages": 5000, "messages-to-stderr": 1000, "console-bytes": 100000, "unwritable-consoles": 500, "events-printed": 1000})
def c20(run):
    run.harness("c20.cpp", cases=n(run, 1200, 40000), seeds=seeds(run, 3))


@check("C21", expect={"concurrent-cases": 3000, "threads": 1000, "pieces-of-work": 2000, "peak-concurrency": 500})
def c21(run):
    run.harness("c21.cpp", variant="tsan", cases=n(run, 500, 8000), seeds=seeds(run, 3))
    run.harness("c21_all.cpp", variant="tsan", **QUIC, cases=n(run, 500, 12000), seeds=seeds(run, 3))


@check("C15", expect={"files": 500, "headers": 5000, "damaged-refused": 200, "foreign-files": 50, "missing-files": 50, "unparsable-refused": 50, "sizes-changed": 50, "files-of-many-lists": 15, "large-files": 15, "files-under-memcheck": 15, "impossible-outputs": 50, "huge-blocks": 3})
def c15(run):
    import os
    env = {}
    for variant, pre in (("asan", "BNL_"), ("plain", "BNL_V")):
        d = run.libs(variant, ("qpack-interop-encode", "qpack-interop-decode"))
        for k, t in (("ENC", "qpack-interop-encode"), ("DEC", "qpack-interop-decode")):
            for root, _, fs in os.walk(d):
                if t in fs and os.access(os.path.join(root, t), os.X_OK) and "CMakeFiles" not in root:
                    env[pre + k] = os.path.join(root, t)
    run.harness("c15.cpp", cases=n(run, 1000, 20000), seeds=seeds(run, 3), env=env)


VALGRIND = ["valgrind", "--quiet", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no", "--expensive-definedness-checks=yes", "--max-stackframe=8000000"]


@check("C01", expect={"decodes": 300000, "many-frames": 500000, "events": 20000, "errors": 20000, "connections": 10000, "memcheck-cases": 200})
def c01(run):
    run.harness("c01.cpp", cases=n(run, 12000, 200000), seeds=seeds(run, 3))
    r = run.harness("c01.cpp", variant="plain", cases=n(run, 480, 6000), wrap=VALGRIND, label="c01.cpp under memcheck", hang_s=300)
    run.stats["memcheck-cases"] = r["evals"]


@check("C24", expect={"weighings": 3000, "streams-forgotten": 3000, "foreign-streams": 1000, "empty-fragments": 10000, "in-flight-bytes": 100000, "quic-weighings": 20000, "bytes-acknowledged": 100000000, "quic-streams-forgotten": 10000, "hello-bytes-acknowledged": 10000000})
def c24(run):
    run.harness("c24.cpp", variant="plain", cases=n(run, 6000, 80000), seeds=seeds(run, 3))
    run.harness("c24_quic.cpp", variant="plain", **QUIC, cases=n(run, 1500, 20000), seeds=seeds(run, 3))


QUIC = dict(sources=["$REPO/bnl/quic/src"], flags=["-I$V/harness/fake", "-Wno-deprecated-declarations"])


@check("C16", expect={"vectors": 8, "keys-derived": 5000, "secrets-updated": 5000, "packets-protected": 5000, "packets-unprotected": 5000, "forgeries-refused": 20000, "small-destinations": 5000, "masks": 20000, "failures-reported": 20000, "long-associated-data": 200})
def c16(run):
    run.harness("c16.cpp", **QUIC, cases=n(run, 4000, 60000), seeds=seeds(run, 3))


@check("C17", expect={"chunks-added": 10000, "ends-without-data": 500, "idle-states-checked": 2000, "blocked-streams-left": 300, "data-events": 5000, "reset-events": 300, "retransmissions": 1000, "acknowledgements": 2000, "streams-ended": 2000, "bad-packets": 100, "closed-streams": 100, "hundreds-of-streams": 20, "large-chunk-cases": 50, "huge-chunks": 10, "ids-beyond-16-bits": 10})
def c17(run):
    run.harness("c17.cpp", **QUIC, cases=n(run, 4000, 60000), seeds=seeds(run, 3))


@check("C23", expect={"keys-checked": 20000, "key-updates": 500, "flights-checked": 5000, "handshakes": 1500, "failed-handshakes": 300, "tls-failures-mapped": 100, "bad-parameters-refused": 50, "tickets": 500})
def c23(run):
    run.harness("c23.cpp", **QUIC, cases=n(run, 3000, 50000), seeds=seeds(run, 3))


@check("C26", expect={"settings-checked": 2000, "paths-checked": 20000, "times-checked": 20000, "timers-checked": 5000, "packets-protected": 5000, "packets-unprotected": 5000, "damaged-packets": 5000, "masks": 5000, "callbacks-checked": 2000, "log-messages": 4000, "results-checked": 5000})
def c26(run):
    run.harness("c26.cpp", **QUIC, cases=n(run, 2500, 40000), seeds=seeds(run, 3))


APP = dict(sources=["$REPO/bnl/http3/app/endpoint/os", "$REPO/bnl/http3/app/endpoint/sd"], flags=["-I$REPO/bnl/http3/app/endpoint", "-include", "algorithm", "-include", "unistd.h"])


@check("C27", expect={"descriptor-checks": 2000, "addresses-parsed": 500, "texts-refused": 500, "lookups": 300, "failed-lookups": 50, "datagrams-sent": 1000, "datagrams-received": 1000, "datagrams-raced": 100, "blocked-sends": 50, "socket-errors": 50, "sockets-refused": 50, "failed-receives": 100, "loops": 100, "timers-fired": 500, "datagrams-in-loops": 200, "signals": 20, "refused-sources": 100, "error-codes": 5})
def c27(run):
    run.harness("c27.cpp", **APP, cases=n(run, 2400, 40000), seeds=seeds(run, 3))


@check("C28", expect={"responses": 300, "requests-checked": 300, "repetitions-compared": 3000, "datagrams-lost": 500, "client-retransmitted": 300, "client-timeouts": 100, "protocol-violations": 30, "resets": 30, "truncated-responses": 30, "silent-servers": 30, "missing-servers": 30, "servers-at-the-last-port": 20, "failed-handshakes": 30, "bad-parameters": 30, "signals": 20, "bad-arguments": 30, "unwritable-outputs": 20, "unwritable-logs": 20})
def c28(run):
    client = run.executable("fake/wire.cpp", sources=["$REPO/bnl/http3/app/endpoint", "$REPO/bnl/quic/src"], flags=QUIC["flags"] + APP["flags"])
    # Waits more than it works.
    run.harness("c28.cpp", sources=["$REPO/bnl/quic/src"], flags=QUIC["flags"], cases=n(run, 960, 12000), seeds=seeds(run, 2), env={"BNL_CLIENT": client}, hang_s=240)
