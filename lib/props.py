import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

H="bnl/http3/src/"; B="bnl/base/src/"; Q="bnl/quic/src/"; E="bnl/http3/app/endpoint/"
p("C01","Untrusted bytes never break memory safety, abort, leak or hang the library",
 "Whatever bytes a peer sends, in whatever fragments, with or without end of stream, and on whatever stream ids, feeding them to any decoder or to a client or server connection and draining the resulting events only ever produces values or error codes. The process never reads or writes out of bounds, never uses freed or uninitialised memory, never executes undefined behaviour, never fails an assertion, terminates or leaks memory, and every call returns.",
 ["inputs","histories"],"every byte string, every split of it into fragments, every stream id, every order of deliveries to a connection",
 "The tests decode a few dozen hand-written, mostly valid inputs without sanitizers.",
 [H+"codec/frame/decode.cpp",H+"codec/qpack/decode.cpp",H+"codec/qpack/huffman/decode.cpp",H+"codec/qpack/literal/decode.cpp",H+"codec/qpack/prefix_int/decode.cpp",H+"codec/varint/decode.cpp",H+"codec/headers.cpp",H+"codec/body.cpp",H+"endpoint/stream/request.cpp",H+"endpoint/stream/control.cpp",H+"client/connection.cpp",H+"server/connection.cpp",B+"base/buffer.cpp",B+"base/buffers.cpp"],
 [("size checks before every read through a lookahead","bnl/http3/src/codec/*/decode.cpp"),("errors as results instead of assertions","bnl/base/include/bnl/http3/result.hpp")],
 observe=["public decode functions","client::connection::recv and server::connection::recv and their generators","sanitizer reports"])
p("C02","Variable-length integers are encoded minimally and decoded exactly",
 "For every value below 2^62 the encoding is the shortest of the four QUIC forms, has the announced size, and decodes to the same value while consuming exactly its own bytes; every longer form of a value decodes to that value too. Values from 2^62 on are refused with the overflow error and nothing is written, and a truncated encoding is reported as incomplete with nothing consumed.",
 ["inputs"],"every 64-bit value, every encoding length, every truncation, every kind of byte sequence the decoder accepts",
 "The tests check one value per length and one overflow.",
 [H+"codec/varint/encode.cpp",H+"codec/varint/decode.cpp","bnl/http3/include/bnl/http3/codec/varint.hpp"],
 [("length prefix in the two top bits",H+"codec/varint/encode.cpp"),("size check before decode",H+"codec/varint/decode.cpp")])
p("C03","HTTP/3 frames survive encoding and decoding; bad ones are never accepted",
 "Every frame of every type encodes to a type, a payload length and a payload that a specification-conformant parser reads back as the same fields, with the announced encoded size, and decodes to an equal frame consuming exactly its own bytes; a frame whose fields do not fit a variable-length integer is refused with the overflow error. Frames of unknown type and unknown settings are skipped completely wherever they appear, peeking reports the type of the frame that decoding would return next and consumes nothing, and a frame whose fields do not fill its declared payload length exactly is never accepted.",
 ["inputs"],"every frame value, every frame type number, every payload length, every sequence of unknown frames before a known one",
 "The tests check one instance of most frame types and a single unknown frame.",
 [H+"codec/frame/encode.cpp",H+"codec/frame/decode.cpp",H+"codec/frame/frame.cpp",B+"http3/settings.cpp"],
 [("payload size computation",H+"codec/frame/encode.cpp"),("actual versus declared payload size check",H+"codec/frame/decode.cpp"),("skipping of unknown frames",H+"codec/frame/decode.cpp")])
p("C04","QPACK carries every header list unchanged and follows the static table",
 "Every list of headers with lowercase names and arbitrary values, encoded and then decoded, comes back unchanged and in order, and an independent QPACK decoder reads the same list from the encoding; byte counts and announced sizes match what was really produced and consumed. Every valid static-table representation another encoder may choose (indexed, literal with name reference, literal name, Huffman or raw, never-indexed) decodes to the header the specification says, while references to the dynamic table or outside the static table are refused as decompression failures and names with uppercase letters are refused in both directions as malformed headers.",
 ["inputs","histories"],"every header name and value, every list length, every representation, every static table index",
 "The tests encode a handful of headers and one header list.",
 [H+"codec/qpack/encode.cpp",H+"codec/qpack/decode.cpp",H+"codec/qpack/encode_generated.cpp",H+"codec/qpack/decode_generated.cpp",B+"http3/header.cpp","tools/generate_qpack.py"],
 [("static table lookup by hash",H+"codec/qpack/encode_generated.cpp"),("static table lookup by index",H+"codec/qpack/decode_generated.cpp"),("lowercase check",B+"http3/header.cpp")])
p("C05","Huffman coding is exactly the canonical HPACK code",
 "Every byte string is Huffman encoded to exactly the bytes that RFC 7541 Appendix B prescribes, padded with ones, with the announced size, and decodes back to itself. A byte string decodes successfully if and only if it is a valid encoding (whole symbols followed by fewer than eight one bits, no end-of-string symbol), the decoded string then being the one a reference decoder finds, and it is refused as a decompression failure otherwise.",
 ["inputs"],"every byte string to encode and every byte string to decode",
 "The tests round-trip a few ASCII strings.",
 [H+"codec/qpack/huffman/encode.cpp",H+"codec/qpack/huffman/decode.cpp",H+"codec/qpack/huffman/encode_generated.cpp",H+"codec/qpack/huffman/decode_generated.cpp"],
 [("code table",H+"codec/qpack/huffman/encode_generated.cpp"),("nibble state machine",H+"codec/qpack/huffman/decode_generated.cpp")])
p("C06","Prefix integers and string literals round-trip for every prefix size",
 "For every value and every prefix size from 1 to 8 bits, the prefix integer encoding has the announced size, is the one the specification defines, leaves the bits in front of the prefix alone, and decodes to the same value consuming exactly its own bytes; encodings of numbers that do not fit 64 bits are refused as decompression failures. Every string literal, with any prefix size from 1 to 7 bits, is encoded in the shorter of its raw and Huffman forms with the announced size and decodes to the same string, and both raw and Huffman forms made by another encoder decode to the string they denote.",
 ["inputs"],"every 64-bit value, every prefix size, every string, every non-minimal or overlong encoding",
 "The tests encode a few values with few prefixes.",
 [H+"codec/qpack/prefix_int/encode.cpp",H+"codec/qpack/prefix_int/decode.cpp",H+"codec/qpack/literal/encode.cpp",H+"codec/qpack/literal/decode.cpp"],
 [("continuation bytes",H+"codec/qpack/prefix_int/decode.cpp"),("choice of the shorter form",H+"codec/qpack/literal/encode.cpp")])
p("C07","Results do not depend on how a byte stream is split into pieces",
 "However a stream's bytes are split into fragments (empty ones included) and whenever the receiver is drained, the decoders and connections deliver the same headers, the same body bytes, the same settings, the same end of message and the same final error as when all bytes arrive at once. A decoder that reports incomplete input has consumed nothing of the unfinished item and succeeds with the same result once the rest has arrived, and the result is the same for contiguous input, chunked input and lookaheads over either.",
 ["inputs","schedules"],"every valid or invalid byte stream and every split of it, for every decoder and both connection roles",
 "The tests feed whole buffers, or one fixed byte-by-byte split.",
 [B+"base/buffers.cpp",B+"base/buffer.cpp",H+"codec/frame/decode.cpp",H+"codec/headers.cpp",H+"codec/body.cpp",H+"endpoint/stream/request.cpp",H+"endpoint/stream/control.cpp"],
 [("decode through a lookahead, consume on success","bnl/http3/src/codec/*/decode.cpp"),("buffering of undecoded input",H+"endpoint/stream/request.cpp")])
p("C08","Buffers behave as byte strings whose slices own their bytes",
 "After any sequence of constructing, moving, consuming, slicing, concatenating, pushing, popping and looking ahead, buffers and chunked buffers hold exactly the bytes a plain byte string would hold after the same operations, for every size around and above the inline storage limit. A slice keeps its bytes intact however long it outlives the buffer it came from and however its siblings are modified, a lookahead never changes what it looks at, and memory is freed exactly once when the last slice of a block goes away.",
 ["inputs","histories"],"every sequence of operations on any number of buffers, every size, every chunking",
 "The tests call each operation once or twice on fixed sizes.",
 [B+"base/buffer.cpp",B+"base/buffers.cpp",B+"base/buffer_view.cpp",B+"base/string_view.cpp"],
 [("reference count in front of the block",B+"base/buffer.cpp"),("inline storage for small buffers",B+"base/buffer.cpp"),("concatenation on slices that cross chunks",B+"base/buffers.cpp")])
p("C09","Every message arrives exactly once, complete, in order and on its stream",
 "Between a client and a server connection, for any set of requests and responses with any headers and any body chunks, produced in any interleaving with sending, transporting and receiving, and for any fragmentation and cross-stream reordering of the transport, the receiver observes for each stream exactly the sent headers in order (the last one marked), then exactly the sent body bytes (ending with at most one end mark), then exactly one end of message, and each side observes the other's settings exactly once. Nothing is lost, duplicated or delivered on another stream, one stream's progress never waits for another stream's unfinished message, and once all data is delivered both sides report that there is nothing left to send.",
 ["inputs","schedules","histories"],"every message set, every interleaving of API calls with transport of fragments",
 "One test runs one fixed request and response through one fixed schedule.",
 [H+"client/connection.cpp",H+"server/connection.cpp",H+"endpoint/stream/request.cpp",H+"endpoint/stream/control.cpp",H+"codec/headers.cpp",H+"codec/body.cpp","bnl/http3/include/bnl/http3/endpoint/generator.hpp"],
 [("per-stream sender and receiver state machines",H+"endpoint/stream/request.cpp"),("stream demultiplexing",H+"server/connection.cpp")],
 observe=["events from recv generators","events returned by send"])
p("C10","Everything sent is a legal HTTP/3 byte stream",
 "The bytes a connection emits, reassembled per stream, always parse with an independent HTTP/3 parser: one control stream that starts with the control stream type and a single SETTINGS frame carrying the settings and that never ends; and on each request stream a single HEADERS frame whose length equals its header block, followed by DATA frames whose lengths equal their payloads. Stream ids are those of the role (control 2 or 3, requests 0, 4, 8 and so on, responses on the request's stream), the end of a stream is signalled exactly once, on the last bytes of a message that was finished by its handle and never earlier, and nothing is emitted on a stream after its end.",
 ["inputs","schedules","histories"],"every sequence of handle calls on any number of requests, interleaved with sends in every way",
 "The tests compare the output for one message with one expected byte string.",
 [H+"endpoint/stream/request.cpp",H+"endpoint/stream/control.cpp",H+"codec/headers.cpp",H+"codec/body.cpp",H+"codec/frame/encode.cpp",H+"client/connection.cpp",H+"server/connection.cpp"],
 [("sender state machine",H+"endpoint/stream/request.cpp"),("control sender",H+"endpoint/stream/control.cpp")],
 observe=["events returned by client::connection::send and server::connection::send"])
p("C11","Peer protocol violations are detected and reported with the right error",
 "When a peer breaks the protocol, whatever legal traffic precedes and follows and however it is fragmented, the receiving connection delivers everything legal before the violation and reports the error that the protocol assigns to it before anything of what follows on that stream. This covers a control stream of another type, without SETTINGS first, with repeated SETTINGS, with request-stream frames or closed by the peer; request streams with DATA before HEADERS, control-stream frames, frames that the peer's role may not send, malformed frames, uncompressable header blocks and uppercase header names. Further unidirectional streams of the peer are no violation and are ignored.",
 ["inputs","schedules"],"every kind of violation, every legal prefix, every fragmentation, both roles",
 "The tests check a few violations, each as the very first frame.",
 [H+"endpoint/stream/control.cpp",H+"endpoint/stream/request.cpp",H+"client/stream/control.cpp",H+"client/stream/request.cpp",H+"server/stream/control.cpp",H+"server/stream/request.cpp"],
 [("frame checks per stream kind and role","bnl/http3/src/*/stream/*.cpp")],
 observe=["errors from recv and from generators"])
p("C12","Handles never outlive their stream and follow it through moves",
 "A request or response handle acts on the stream it was created for, and only on it, through any moves of the handle and of the connection that owns the stream; once the stream is gone (finished and forgotten, or its connection destroyed or overwritten), or another handle for the stream has been taken, every operation on it fails with the invalid-handle error. Handles and connections can be created, moved, overwritten and destroyed in any order without use of freed memory, leaks or effects on other streams.",
 ["histories"],"every sequence of creating, moving, overwriting and destroying handles and connections, interleaved with sends and receives",
 "The tests use one handle that lives as long as its connection.",
 [H+"endpoint/stream/request.cpp",H+"client/connection.cpp",H+"server/connection.cpp"],
 [("back pointer between sender and handle",H+"endpoint/stream/request.cpp")],
 state=[("handle and sender pointers","each points at the other or neither does","bnl/http3/include/bnl/http3/endpoint/stream/request.hpp")])
p("C13","Out-of-order API calls fail cleanly and leave the message intact",
 "A header after the headers were completed, completing headers twice or without any header, a body or a second completion after the message was completed and sent, an uppercase header name, a response on an unknown or finished stream, and any data after the end of a stream that the connection still knows are refused with an error. A refused call changes nothing: the messages on all streams are transmitted and received exactly as if the call had never been made.",
 ["histories"],"every sequence of legal and illegal calls on handles and connections",
 "The tests make two or three illegal calls and do not look at what is sent afterwards.",
 [H+"codec/headers.cpp",H+"codec/body.cpp",H+"endpoint/stream/request.cpp",H+"client/connection.cpp",H+"server/connection.cpp"],
 [("state checks in the encoders",H+"codec/headers.cpp"),("stream lookup",H+"server/connection.cpp")])
p("C14","Every error keeps its identity as a std::error_code",
 "Every HTTP/3 and QUIC error of the library converts to a std::error_code that is an error exactly when it is not the no-error value, that compares equal only to the same error of the same layer, and that has the category name of its layer and a non-empty message that no other error of its layer has. Errors that have a wire value keep it.",
 ["inputs"],"every error value of both layers and every pair of them",
 "No test converts errors to std::error_code.",
 [B+"base/system_error.cpp","bnl/base/include/bnl/base/system_error.hpp","bnl/base/include/bnl/http3/result.hpp","bnl/base/include/bnl/quic/result.hpp"],
 [("error categories",B+"base/system_error.cpp")])
p("C15","The QPACK interop tools invert each other on every QIF file",
 "For every header-list file in the QIF format with lowercase names, encoding it with the interop encoder and decoding the result with the interop decoder reproduces the file's header lists in order, and an independent decoder reads the same lists from the encoded file, block by block with increasing stream ids. Missing, truncated and otherwise unparsable input files make both tools report failure through their exit status, no input file makes them crash or hang, and output that cannot be written is a failure too.",
 ["inputs"],"every QIF file and every corruption of an encoded file",
 "The tests never run the tools.",
 ["bnl/http3/app/qpack","bnl/http3/src/codec/qpack/encode.cpp","bnl/http3/src/codec/qpack/decode.cpp"],
 [("block framing","bnl/http3/app/qpack")])
p("C18","A truncated message is never reported as complete",
 "If a stream ends before its message does (inside a frame header, a header block, a DATA payload or any other frame, or before any header), in whatever fragments it arrives, the receiver never reports the end of that message and reports a malformed frame instead, after delivering at most the headers and body bytes that really arrived. If the stream's end arrives exactly at a frame boundary after the headers, the receiver reports the end of the message exactly once, however late or separately the end arrives.",
 ["inputs","crash_points","schedules"],"every message, every cut point in it, every fragmentation, both roles, end of stream together with or after the last bytes",
 "The tests cut messages at one or two points.",
 [H+"endpoint/stream/request.cpp",H+"codec/headers.cpp",H+"codec/body.cpp"],
 [("end-of-stream handling in the receiver",H+"endpoint/stream/request.cpp")])
p("C19","The header-block and body codecs frame and restore message parts exactly",
 "For any sequence of added headers, the header encoder produces one HEADERS frame whose length equals the header block that follows, and the header decoder returns the same headers in order and is finished exactly after the last; for any sequence of added body chunks and any interleaving with encoding, the body encoder produces DATA frames that carry exactly those bytes and the body decoder returns exactly those bytes for any chunking and for payload lengths up to the largest encodable. Both report idle when there is nothing to encode, incomplete when input is missing, hand other frame types back untouched, and are finished exactly when everything was encoded.",
 ["inputs","histories"],"every header list, body chunk sequence, interleaving of add, fin and encode, and every chunking of the encoded bytes",
 "The tests encode one header list and one or two bodies.",
 [H+"codec/headers.cpp",H+"codec/body.cpp"],
 [("encoder and decoder state machines",H+"codec/headers.cpp"),("remaining payload counter",H+"codec/body.cpp")])
p("C20","Logging never changes behaviour and prints each message on its own stream",
 "For any traffic, installing any logger, or none, makes no difference to the bytes sent, events delivered or errors reported. With the console logger every message appears exactly once and as whole lines, error and warning messages on standard error and others on standard output as the logger defines, with formatting that never fails on any peer-supplied content and output that cannot be written changing nothing else; frames, headers and stream events print as what they are.",
 ["inputs","configurations"],"every traffic, with no logger, the console logger with and without source locations, and a user logger",
 "The tests only use the console logger or none and never compare.",
 ["bnl/log/src/console.cpp",B+"log.cpp","bnl/base/include/bnl/base/log.hpp",B+"quic/event.cpp",H+"codec/frame/frame.cpp",B+"http3/header.cpp"],
 [("logging macros","bnl/base/include/bnl/base/log.hpp"),("console logger","bnl/log/src/console.cpp")])
p("C21","Independent connections can be used from different threads",
 "Connections, codecs and buffers that share no objects can be used concurrently from different threads without data races, and each behaves exactly as it does alone. There is no hidden shared mutable state in the library besides the logger pointer.",
 ["schedules"],"every number of threads, each driving its own connections and codecs, and every thread schedule",
 "The tests are single-threaded.",
 ["bnl/base/src","bnl/http3/src","bnl/log/src"],
 [("no mutable globals other than the logger pointer",B+"log.cpp")])
p("C22","Addresses, endpoints, paths and hosts are faithful values",
 "IP addresses of both families built from bytes or numbers return exactly those bytes in network order, keep their family, compare equal exactly when family and bytes are equal, and print in dotted decimal form for IPv4; endpoints, paths, hosts and headers return exactly the parts they were built from, and headers compare equal exactly when name and value do. Copies and assignments in any order, including between address families, keep these values and never read outside them.",
 ["inputs","histories"],"every address, port and host name, and every sequence of copies and assignments",
 "No test covers these types.",
 [B+"ip/address.cpp",B+"ip/address/ipv4.cpp",B+"ip/address/ipv6.cpp",B+"ip/endpoint.cpp",B+"ip/host.cpp",B+"quic/path.cpp",B+"http3/header.cpp"],
 [("tagged address union",B+"ip/address.cpp")])
p("C24","Memory held by a connection is bounded by what is still in flight",
 "At any quiescent point, however much data and however many streams have gone through a connection, the memory it holds is bounded by the received fragments that still contain undecoded bytes, plus the bytes queued but not yet sent, plus a constant per unfinished stream. Messages that were completely sent and received leave nothing behind, and data handed out to the user is not retained by the connection. The same holds for the QUIC client: stream and handshake data goes once it was acknowledged, and closed streams leave nothing behind.",
 ["histories","inputs"],"every history of messages, acknowledgements and stream closures on one connection, at every point where received events are drained",
 "No test measures memory or runs more than one exchange on a connection.",
 [H+"client/connection.cpp",H+"server/connection.cpp",H+"endpoint/stream/request.cpp",B+"base/buffer.cpp",B+"base/buffers.cpp","bnl/quic/src/client/connection.cpp","bnl/quic/src/client/stream.cpp","bnl/quic/src/client/handshake.cpp"],
 [("erasure of finished streams",H+"server/connection.cpp"),("consumed buffers are discarded",B+"base/buffers.cpp"),("acknowledged data is released","bnl/quic/src/client/stream.cpp")])
p("C25","Outputs depend only on inputs, never on leftover memory",
 "Every encoder, decoder and connection gives byte-identical output and identical events for identical inputs, regardless of what the heap, the stack or the destination buffer contained before, and of address-space layout. Encoders write every byte of the size they announce, and no byte outside it.",
 ["inputs","configurations"],"every input to every encoder, decoder and connection, under every previous content of memory",
 "Tests run once in one process on fresh zeroed memory, where leftover garbage is zero.",
 [H+"codec/varint/encode.cpp",H+"codec/frame/encode.cpp",H+"codec/qpack/encode.cpp",H+"codec/qpack/huffman/encode.cpp",H+"codec/qpack/literal/encode.cpp",H+"codec/qpack/prefix_int/encode.cpp",B+"base/buffer.cpp"],
 [("encoders initialise the first byte they merge bits into","bnl/http3/src/codec/qpack/*/encode.cpp")])
p("C16","QUIC packet protection follows the key schedule and never overruns",
 "For every supported cipher suite and every input size, initial secrets, packet protection keys, IVs, header protection keys and updated secrets are the ones the QUIC-TLS key schedule defines, protected packets and header protection masks are byte for byte those of an independent implementation, and unprotecting a protected packet returns the plaintext, in place as well. A destination that is too small, a key or nonce of another size, and a packet whose ciphertext, associated data, nonce or key differs in one bit are refused with the crypto error, any call of the crypto library that fails is reported as that error, and nothing is ever written outside the destination.",
 ["inputs","configurations"],"every cipher suite and hash, secret, salt, connection id, packet, associated data, destination size and damage",
 "The QUIC library has no tests.",
 ["bnl/quic/src/crypto.cpp","bnl/quic/src/crypto/boringssl.cpp","bnl/quic/include/bnl/quic/crypto.hpp"],
 [("HKDF label encoding","bnl/quic/src/crypto.cpp"),("AEAD and header protection calls","bnl/quic/src/crypto/boringssl.cpp")],
 observe=["public methods of crypto"])
p("C17","QUIC streams send exactly what is added, once, and never block each other",
 "Data added to a stream of the QUIC client is sent in order, completely, without duplication or alteration, and the end of the stream is sent exactly once, after the last byte, whether it is added with data or alone, and whatever the engine does: taking part of the data, full congestion windows, flow control, stream limits, repeated packets, acknowledgements in any order and closed streams. Nothing is offered before the handshake completed, data handed to the engine stays valid and unchanged until it is acknowledged, a blocked or closed stream never keeps others from sending, and send reports idle exactly when nothing can be sent. Data, ends and resets from the peer come out as events, in order and once, and an invalid packet as one error.",
 ["inputs","histories","schedules"],"every sequence of additions, packets written and received, acknowledgements, limits, congestion states and stream closures, on any number of streams started in any order",
 "The QUIC library has no tests.",
 ["bnl/quic/src/client/stream.cpp","bnl/quic/src/client/connection.cpp","bnl/quic/src/client/ngtcp2/connection.cpp"],
 [("unsent and unacknowledged data","bnl/quic/src/client/stream.cpp"),("round over the streams","bnl/quic/src/client/connection.cpp"),("results of ngtcp2","bnl/quic/src/client/ngtcp2/connection.cpp")],
 observe=["packets returned by send, as the engine made them","events of recv","memory the engine refers to"])
p("C23","The QUIC handshake installs the right keys and hands data on unchanged",
 "For every cipher suite and every order and fragmentation of handshake packets, the client derives and installs exactly the keys of the key schedule at each level and in each direction, the initial ones from its own connection id, and each key update continues the chain. Handshake data goes from TLS to QUIC and back at its own level, in order, unchanged and exactly once, and stays valid until it is acknowledged; TLS gets the host name, the protocol name and the transport parameters. The handshake completes exactly once and only when TLS finished, the peer's transport parameters are applied, and every failure of TLS, of a key or of the parameters is reported and never counts as completed.",
 ["inputs","histories"],"every cipher suite, host name, flight, fragmentation and order of packets and acknowledgements, every point of failure, any number of tickets and key updates",
 "The QUIC library has no tests.",
 ["bnl/quic/src/client/handshake.cpp","bnl/quic/src/client/handshake/boringssl.cpp","bnl/quic/src/client/connection.cpp","bnl/quic/src/client/ngtcp2/connection.cpp"],
 [("keys per encryption level","bnl/quic/src/client/handshake.cpp"),("TLS callbacks","bnl/quic/src/client/handshake/boringssl.cpp")],
 observe=["keys and handshake data at the QUIC engine","data, settings and state at TLS"])
p("C26","The QUIC client passes settings, addresses, times and results on faithfully",
 "The QUIC engine gets every connection parameter, both addresses of the path and the clock's time with their exact values and units, for every value, and TLS gets the encoded parameters however large they are; timeout and expiry come back in microseconds, and expire fires each timer exactly when it is due. The engine's packet protection requests use the negotiated cipher suite (AES-128-GCM for initial packets), never write outside the given destination, and report damaged packets as undecryptable instead of failing the connection. Connection ids and tokens are random and fill exactly their destination, failed path validation, retries and stateless resets are reported as failures, every error of the engine is reported as that error without data getting lost, and any text the engine or TLS reports can be logged.",
 ["inputs","configurations"],"every parameter value, address, time, timer state, packet and log message",
 "The QUIC library has no tests.",
 ["bnl/quic/src/client/ngtcp2/connection.cpp","bnl/quic/src/client/connection.cpp","bnl/quic/src/client/handshake/boringssl.cpp"],
 [("adapter between ngtcp2's callbacks and the connection","bnl/quic/src/client/ngtcp2/connection.cpp")],
 observe=["the engine's API and callbacks"])
p("C27","The client's system layer keeps descriptors, datagrams, timers and errors",
 "The classes that the example client uses to reach the system are faithful. Every descriptor they open is closed exactly once, whatever is moved, replaced or fails. Text is parsed to exactly the address it denotes and every other text is refused with an error. Names resolve to exactly the addresses the resolver knows, without duplicates being invented, and a failing lookup is an error. UDP sockets send each datagram to their peer unchanged and at most once, hand every received datagram on whole and in order (also one that arrives while the socket is being looked at), tell that nothing is there by an empty result, and report pending socket errors instead of dropping them. In the event loop every timer fires once per setting, not before its time, every readable socket and every signal reaches its handler, a loop that is left with an error returns exactly that error, sources that are gone are not called, what cannot be watched is refused, and loops, clocks and sources stay valid when moved. Every error code is true as an error, keeps its category and message, and never compares equal to success.",
 ["inputs","histories","crash_points"],"every text, name, datagram, socket state and failing system call, every sequence of moves, timers and events",
 "The example client has no tests and is not even built by the test suite.",
 [E+"os/fd.cpp",E+"os/dns.cpp",E+"os/result.cpp",E+"os/ip/address.cpp",E+"os/socket/udp.cpp",E+"sd/event/loop.cpp",E+"sd/event/source.cpp"],
 [("descriptor ownership",E+"os/fd.cpp"),("non-blocking datagram calls",E+"os/socket/udp.cpp"),("handlers called from sd-event",E+"sd/event/loop.cpp")],
 observe=["system calls and descriptors of the process","bytes at the other end of the socket","calls of handlers"])
p("C28","The example client prints exactly the response or fails",
 "Run against any server and network, the example client sends exactly one legal GET request for the host it was given, and exits with success exactly when the server's response was complete: then it has printed exactly the headers and body of that response, in order, however large they are. It copes with lost, repeated, delayed, reordered and foreign datagrams by retransmitting, and retransmits identical data. When the server breaks HTTP/3, resets or truncates the response, fails the handshake, stays silent or does not exist, when the arguments are wrong, or when the response cannot be printed, it ends with a failure, after the idle timeout at the latest and not before it when there was silence, without a crash, a hang or a leak.",
 ["inputs","schedules","histories"],"every response, server failure, argument and every pattern of loss, delay and repetition of datagrams",
 "The example client has no tests and is not even built by the test suite.",
 [E+"client.cpp",E+"client.hpp",E+"sd/event/loop.cpp","bnl/quic/src/client/connection.cpp",H+"client/connection.cpp"],
 [("client::send, recv, retransmit and timeout",E+"client.cpp"),("timers",E+"sd/event/loop.cpp")],
 observe=["standard output, exit status and datagrams of the client process"])
P.sort(key=lambda x:x['id'])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,S); assert len(x["title"])<=80,x["id"]
print(len(P))
