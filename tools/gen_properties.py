#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None}})
H = "bnl/http3/src/"; HI = "bnl/http3/include/bnl/http3/"; B = "bnl/base/src/"; BI = "bnl/base/include/bnl/"

p("C01", "Varint encoding is the shortest, exact form for every value",
  "For every integer below 2^62, encoding it as a QUIC variable-length integer writes exactly the shortest of the 1/2/4/8-byte big-endian forms with the matching two-bit length prefix, and the reported encoded size and the returned length both equal the number of bytes written. Every integer of 2^62 or more is rejected with the varint-overflow error and writes nothing.",
  ["inputs"], "all 2^64 input values, both encode overloads and the size function",
  "test/varint.cpp samples a handful of values; the property is over 2^64 values and the boundaries and single bits between them.",
  [H+"codec/varint/encode.cpp", HI+"codec/varint.hpp"],
  [("varint::encoded_size", H+"codec/varint/encode.cpp"), ("varint::encode", H+"codec/varint/encode.cpp")],
  ["return value and written bytes of varint::encode / encoded_size"])
p("C02", "Varint decoding is exact and consumes exactly its own bytes",
  "For every byte sequence, decoding a variable-length integer returns precisely the integer its first 1, 2, 4 or 8 bytes denote and advances the input by exactly that many bytes, whatever container the bytes are in. If the input is shorter than the length its first byte announces, the result is the incomplete error and the input is not advanced.",
  ["inputs"], "all byte sequences, all four input containers",
  "tests decode a few sample values from complete buffers; neither every bit position nor every truncation is reachable by sampling.",
  [H+"codec/varint/decode.cpp", HI+"codec/varint.hpp"],
  [("varint::decode", H+"codec/varint/decode.cpp")], ["return value, error and consumed count of varint::decode"])
p("C03", "Prefix-integer encoding is exact for every value and prefix",
  "For every 64-bit value and every prefix length from 1 to 8, encoding a QPACK prefix integer writes exactly the RFC 7541 section 5.1 form, preserves the instruction bits already present above the prefix in the first byte, and writes exactly the number of bytes the size function reports. The overload that allocates its own buffer produces the same bytes with the bits above the prefix zero.",
  ["inputs"], "all 2^64 values for all prefixes",
  "no test calls the prefix-integer coder directly; QPACK tests only reach small single-byte values.",
  [H+"codec/qpack/prefix_int/encode.cpp"], [("prefix_int::encode / encoded_size", H+"codec/qpack/prefix_int/encode.cpp")])
p("C04", "Prefix-integer decoding is exact or an error, never a wrong value",
  "For every byte sequence and prefix length, decoding a prefix integer either returns exactly the integer the bytes denote and consumes exactly its bytes, or returns an error and consumes nothing. An integer that does not fit in 64 bits is reported as an error (as may be one padded beyond ten continuation bytes), and no input makes the decoder perform an out-of-range shift.",
  ["inputs"], "all byte sequences, unbounded continuation bytes, all prefixes",
  "tests only reach one-byte integers; long continuations and values past 2^32 are never exercised.",
  [H+"codec/qpack/prefix_int/decode.cpp"], [("prefix_int::decode", H+"codec/qpack/prefix_int/decode.cpp")])
p("C05", "Huffman tables encode and decode the same standard code",
  "The table used to Huffman-encode strings assigns every byte and the end-of-string symbol exactly its RFC 7541 Appendix B code, and the table used to decode is the complete automaton of that same code: every bit string decodes to the symbols whose codes it concatenates. Only a remainder of at most seven one-bits is accepted at the end, and the end-of-string code itself is rejected.",
  ["inputs"], "every symbol and every automaton state and nibble (all bit strings by induction)",
  "tests decode a few sample strings and so visit a few of the 4096 automaton cells and 257 codes.",
  [H+"codec/qpack/huffman/encode_generated.cpp", H+"codec/qpack/huffman/decode_generated.cpp"],
  [("encoding::table", H+"codec/qpack/huffman/encode_generated.cpp"), ("decoding::table", H+"codec/qpack/huffman/decode_generated.cpp")])
p("C06", "Huffman encoding emits every code bit-exactly at every alignment",
  "For every string, Huffman encoding emits the codes of its bytes concatenated most-significant bit first with no bit lost, duplicated or left stale from earlier memory contents, followed by one-bits up to the next byte boundary. The number of bytes written equals the encoded size reported for that string.",
  ["inputs"], "every symbol at every bit offset, every string by induction over its bytes",
  "the tests encode three lower-case strings; most (code length, bit offset) combinations never occur in them.",
  [H+"codec/qpack/huffman/encode.cpp"], [("huffman::encode, huffman::encoded_size", H+"codec/qpack/huffman/encode.cpp")])
p("C07", "Huffman decoding follows the table for every nibble and rejects bad input",
  "Decoding walks the automaton high nibble first and low nibble second for every input byte, outputs exactly the symbols the automaton emits, and consumes exactly the announced number of bytes. It reports a QPACK decompression failure when the automaton fails or when the input ends in a non-accepting state, and the incomplete error when fewer bytes are present than announced; the empty string is valid.",
  ["inputs"], "every byte string, every automaton state",
  "tests only decode valid sample strings; failure states, bad padding and the empty string are not sampled.",
  [H+"codec/qpack/huffman/decode.cpp"], [("huffman::decode", H+"codec/qpack/huffman/decode.cpp")])
p("C08", "The QPACK static table is the standard one in both directions",
  "The encoder refers to static-table entry i exactly for the header (or header name) that entry i of the QPACK standard's static table holds, choosing a full match over a name match, and never refers to an index for a header that is not in the table (an entry whose value is empty may equally be sent as its name reference followed by an empty literal). The decoder maps each of the 99 indices to exactly that entry, both as full field and as name reference, and rejects every index outside the table.",
  ["inputs"], "all 99 entries, all names and values outside the table, all indices",
  "tests touch about a dozen of the 99 entries and never an out-of-table index.",
  [H+"codec/qpack/encode_generated.cpp", H+"codec/qpack/decode_generated.cpp"],
  [("find_index", H+"codec/qpack/encode_generated.cpp"), ("find_header_value/find_header_only", H+"codec/qpack/decode_generated.cpp")])
p("C09", "String literals carry the right length, flag and bytes",
  "An encoded string literal states the exact number of payload bytes that follow, sets the Huffman flag exactly when the payload is Huffman coded (which is when that is strictly shorter), leaves the instruction bits above the flag untouched (the flag bit itself being clear when encoding into caller memory), and occupies exactly the reported size. Decoding reads the flag and length, returns exactly the announced bytes (decoded if flagged), consumes exactly the literal, and reports incomplete without consuming when bytes are missing.",
  ["inputs"], "every string, every prefix length, every literal in every container",
  "tests only encode short literals through QPACK; raw vs. Huffman choice, truncation and long lengths are not covered.",
  [H+"codec/qpack/literal/encode.cpp", H+"codec/qpack/literal/decode.cpp"],
  [("literal::encode/encoded_size", H+"codec/qpack/literal/encode.cpp"), ("literal::decode", H+"codec/qpack/literal/decode.cpp")])
p("C10", "QPACK field lines are emitted and accepted exactly as specified",
  "The QPACK encoder emits the two-byte zero section prefix once per section and then, per header, an indexed line, a literal with static name reference or a literal with literal name; size function, returned length, byte count and written bytes agree, and a header name containing upper-case letters is rejected without output by the size function and the overload that allocates its own buffer. The decoder strips the prefix once, accepts exactly those three instructions with the static bit set, uses the full decoded index without truncation, rejects everything else with a decompression failure and upper-case names with malformed-header, and its byte count equals the bytes consumed.",
  ["inputs", "histories"], "all headers, all instruction bytes and indices, all sequences of calls on one coder",
  "tests round-trip eight sample headers; indices past the table, dynamic-table references and truncated sections are not covered.",
  [H+"codec/qpack/encode.cpp", H+"codec/qpack/decode.cpp", HI+"codec/qpack.hpp"],
  [("encoder::encode", H+"codec/qpack/encode.cpp"), ("decoder::decode", H+"codec/qpack/decode.cpp")])
p("C11", "Frame encoding is exact for every frame type and field value",
  "Encoding a frame writes its type, then a payload length, then exactly the fields of that type in the order of the HTTP/3 draft; the length equals the number of payload bytes that belong to the frame (including data, header or push-promise bytes the caller appends), and the reported size equals the bytes written. A field that cannot be represented makes encoding fail with varint-overflow.",
  ["inputs"], "all nine frame types with arbitrary field values",
  "tests check one sample instance per frame type; size/field agreement for other varint widths is not sampled.",
  [H+"codec/frame/encode.cpp", HI+"codec/frame.hpp"], [("frame::encode, frame::encoded_size", H+"codec/frame/encode.cpp")])
p("C12", "Frame decoding returns exactly the fields on the wire or an error",
  "Decoding a frame yields the type and field values the bytes denote, skips frames of unknown type completely whatever their length, ignores unknown settings, and reports malformed-frame whenever the fields do not fill the advertised payload exactly. Truncated input yields incomplete without consuming the unfinished frame.",
  ["inputs"], "all byte sequences, known and unknown frame types, all containers",
  "tests decode one well-formed sample per type, one unknown frame and one length error.",
  [H+"codec/frame/decode.cpp", HI+"codec/frame.hpp"], [("frame::decode", H+"codec/frame/decode.cpp")])
p("C13", "Peeking a frame type agrees with decoding and never consumes",
  "Peeking at the next frame type returns the type of the frame that decoding the same input would return next, skipping the payloads of unknown frames just as decoding does, and never changes the input. If that frame's type is not fully available yet, peeking reports incomplete.",
  ["inputs"], "all byte sequences incl. any number of unknown frames before a known one",
  "no test peeks past an unknown frame.",
  [H+"codec/frame/decode.cpp"], [("frame::peek", H+"codec/frame/decode.cpp")])
p("C14", "No decoder reads outside its input or hits undefined behaviour",
  "For every byte sequence in every container, no wire decoder reads a byte beyond the available input, consumes more than is available, shifts by the operand width or more, indexes outside a constant table, or trips an internal assertion.",
  ["inputs"], "all byte sequences (truncated at every point, arbitrary lengths) for varint, prefix integer, Huffman, literal, frame, QPACK, header and body decoders",
  "tests feed well-formed complete inputs; memory safety on hostile input needs every input.",
  [H+"codec/varint/decode.cpp", H+"codec/frame/decode.cpp", H+"codec/qpack/decode.cpp", H+"codec/qpack/literal/decode.cpp", H+"codec/qpack/huffman/decode.cpp", H+"codec/qpack/prefix_int/decode.cpp", H+"codec/headers.cpp", H+"codec/body.cpp"],
  [("size checks before each access", H+"codec/*/decode.cpp")])
p("C15", "Failed decodes leave the input untouched so they can be retried",
  "Whenever a single-item decoder (varint, prefix integer, Huffman string, literal, frame) reports an error, the input container holds exactly the bytes it held before the unfinished item, so that decoding again after more bytes arrive gives the result one contiguous input would have given. A successful decode advances the input by exactly the encoded length of the item.",
  ["inputs", "histories"], "all inputs and every split point of the input, all four containers",
  "tests feed complete items; the guarantee is over every split position and every error exit.",
  [H+"codec/varint/decode.cpp", H+"codec/frame/decode.cpp", H+"codec/qpack/decode.cpp", H+"codec/qpack/literal/decode.cpp", H+"codec/qpack/huffman/decode.cpp", H+"codec/qpack/prefix_int/decode.cpp"],
  [("lookahead committed only on success", H+"codec/*/decode.cpp")])
p("C16", "SETTINGS are written and read with the same ids and safe defaults",
  "The settings writer and the settings reader use the same identifier for each setting, those identifiers are the standard's and pairwise distinct, every setting is written with its own value, and the number-of-placeholders setting is omitted exactly when zero. A default settings object advertises a zero QPACK table capacity, zero blocked streams and zero placeholders, as a static-table-only implementation must.",
  ["inputs", "configurations"], "all setting values and any order or repetition on the wire",
  "tests use one settings sample; swapped ids that are swapped on both sides, or the omitted-when-zero rule, are not visible to a round trip.",
  [B+"http3/settings.cpp", BI+"http3/settings.hpp", H+"codec/frame/encode.cpp", H+"codec/frame/decode.cpp"],
  [("settings::array", B+"http3/settings.cpp"), ("settings decode switch", H+"codec/frame/decode.cpp")])
p("C17", "Header sections are emitted as one HEADERS frame of exact length",
  "A header-section encoder reports idle until it is sealed, then emits exactly one HEADERS frame header whose length is the total of the encoded field lines, then those field lines in the order added, and then is finished; adding after sealing, sealing twice, or encoding after the end is an error that changes nothing. A section without any header can never be sent as a valid section nor crash the encoder.",
  ["inputs", "histories"], "all sequences of add/seal/encode calls and all headers",
  "tests run one straight sequence.",
  [H+"codec/headers.cpp", HI+"codec/headers.hpp"], [("headers::encoder", H+"codec/headers.cpp")])
p("C18", "Header sections decode to the headers they hold and end exactly",
  "A header-section decoder delegates any frame other than HEADERS without consuming it, then returns one header per field line, and is finished exactly when the bytes consumed equal the frame's advertised length. A section that is empty, or whose field lines run past the advertised length, is reported as malformed-frame, and a finished decoder refuses further use.",
  ["inputs", "histories"], "all inputs and all ways of splitting them over calls",
  "tests decode one section.",
  [H+"codec/headers.cpp", HI+"codec/headers.hpp"], [("headers::decoder", H+"codec/headers.cpp")])
p("C19", "Body encoding frames every buffer and ends exactly once",
  "For every sequence of added body buffers the body encoder emits, per non-empty buffer and in order, one DATA frame header whose length is that buffer's size followed by that same buffer (an empty buffer may be framed likewise or skipped), reports idle while nothing is queued, and becomes finished exactly when it has been ended and everything queued has been emitted. Adding after the end or encoding past the end is an error that emits nothing.",
  ["inputs", "histories"], "all interleavings of add, end and encode with arbitrary buffers",
  "tests use one interleaving.",
  [H+"codec/body.cpp", HI+"codec/body.hpp"], [("body::encoder", H+"codec/body.cpp")])
p("C20", "Body decoding returns exactly the DATA payload bytes",
  "The body decoder delegates frames other than DATA without consuming them, and for DATA frames hands out exactly the payload bytes, in order, in parts no longer than what is available and never past the frame's end, remembering how much is still to come. It reports incomplete when nothing is available, and is in progress exactly while payload of a frame is outstanding.",
  ["inputs", "histories"], "all frame sizes and all arrival splits",
  "tests decode one body arriving in one piece.",
  [H+"codec/body.cpp", HI+"codec/body.hpp"], [("body::decoder", H+"codec/body.cpp")])
p("C21", "Control streams open with the type and one SETTINGS frame",
  "Every endpoint's outgoing control stream sends first the control stream type and then exactly one SETTINGS frame, never ends the stream, and is idle from then on; a step that fails to encode is retried rather than skipped. Client and server use the stream ids the other side expects (client 2, server 3).",
  ["histories"], "all call sequences on the sender in both roles",
  "tests check one exchange.",
  [H+"endpoint/stream/control.cpp", H+"client/stream/control.cpp", H+"server/stream/control.cpp"],
  [("control::sender", H+"endpoint/stream/control.cpp")])
p("C22", "The incoming control stream enforces its protocol",
  "On the peer's control stream, the stream type must be the control type, the first frame must be SETTINGS (else missing-settings) and is reported as a settings event, a later SETTINGS is unexpected-frame, and HEADERS, DATA, PUSH_PROMISE and DUPLICATE_PUSH are wrong-stream; closing the stream is closed-critical-stream. Frames only one role may send are rejected as unexpected by the other (a client rejects MAX_PUSH_ID and PRIORITY, a server rejects GOAWAY), incomplete input is reported as incomplete, and no peer input aborts the process.",
  ["inputs", "histories"], "all frame sequences in both roles, all arrival splits",
  "tests send only the valid opening.",
  [H+"endpoint/stream/control.cpp", H+"client/stream/control.cpp", H+"server/stream/control.cpp"],
  [("control::receiver", H+"endpoint/stream/control.cpp"), ("role-specific process", H+"client/stream/control.cpp, "+H+"server/stream/control.cpp")])
p("C23", "Outgoing messages are headers, then body, then one FIN at the end",
  "For every order of header, body, start and end calls, a request or response sender emits the complete header section first and then body data in order, all on its own stream id, and sets the end-of-stream flag on exactly the last piece it emits once the message was ended and on no earlier one. Until it has something to emit it reports idle, after the FIN it is finished and emits nothing more, and a message that was ended always gets its FIN.",
  ["histories"], "all interleavings of header/body/start/end/send calls",
  "the connection test runs one order in which everything is queued before sending.",
  [H+"endpoint/stream/request.cpp", HI+"endpoint/stream/request.hpp"], [("request::sender", H+"endpoint/stream/request.cpp")])
p("C24", "Incoming messages are delivered as headers, then body, then finished",
  "A request or response receiver delivers header events (the last one flagged), then body events, then a finished event, all tagged with its stream id, and finishes exactly when the stream has ended and everything received was delivered. A stream ending inside a frame is malformed-frame, DATA before the headers is unexpected-frame, SETTINGS, MAX_PUSH_ID, CANCEL_PUSH and GOAWAY are wrong-stream, other frames get the error the role prescribes, a HEADERS frame after the section (trailers, which bnl does not deliver) is discarded and ends the message, data after the end is refused, and no internal control code other than incomplete escapes.",
  ["inputs", "histories"], "all frame sequences, all arrival splits, FIN arriving with or after data, both roles",
  "the connection test delivers one well-formed message per direction.",
  [H+"endpoint/stream/request.cpp", H+"client/stream/request.cpp", H+"server/stream/request.cpp"],
  [("request::receiver", H+"endpoint/stream/request.cpp"), ("role-specific process", H+"client/stream/request.cpp, "+H+"server/stream/request.cpp")])
p("C25", "A stream handle is always valid or safely dead",
  "After any sequence of creating, moving, assigning and destroying stream handles and the streams they refer to, every live handle either reaches exactly its own stream or reports invalid-handle, and no handle or stream ever refers to a destroyed or moved-from object.",
  ["histories"], "all sequences of construct/move/assign/destroy on handles and senders",
  "tests use a handle once in straight-line code.",
  [H+"endpoint/stream/request.cpp", HI+"endpoint/stream/request.hpp"], [("sender/handle back pointers", H+"endpoint/stream/request.cpp")])
p("C26", "Client connection routes streams, allocates ids and sends in order",
  "A client connection gives every new request a fresh client-initiated bidirectional stream id (0, 4, 8, ...), sends its control stream before any request, skips finished or idle requests without starving others, and starts a response receiver as soon as its request has begun sending. Received data goes to the control stream or to the request with that id and nowhere else, other unidirectional streams are ignored, data for an unknown request is an error, the peer's SETTINGS are recorded, and a request is dropped only after its finished event.",
  ["histories", "inputs"], "all interleavings of request/send/receive with any number of requests and any stream ids",
  "the connection test has one request.",
  [H+"client/connection.cpp", HI+"client/connection.hpp"], [("client::connection", H+"client/connection.cpp")])
p("C27", "Server connection routes streams and answers on the right one",
  "A server connection sends its control stream before any response, opens request state exactly when data arrives on a new client-initiated bidirectional stream, routes data only to the control stream or the request with that id, ignores other unidirectional streams, and records the peer's SETTINGS. A response handle is given out only for an existing request and acts on that stream, a response is dropped only once fully sent, and no order of peer or application events terminates the process.",
  ["histories", "inputs"], "all interleavings of receive/process/response/send with any stream ids",
  "the connection test has one request.",
  [H+"server/connection.cpp", HI+"server/connection.hpp"], [("server::connection", H+"server/connection.cpp")])
p("C28", "Event iteration delivers each result once and stops correctly",
  "Iterating the events of a received stream yields every produced event or error exactly once, stops without yielding when more data is needed, and yields nothing after the finished event. Taking an event twice, or before advancing, yields an error instead of a stale event.",
  ["histories"], "all call sequences over any result sequence of the connection, both roles",
  "tests iterate one well-formed stream.",
  [HI+"endpoint/generator.hpp"], [("generator::next/get", HI+"endpoint/generator.hpp")])
p("C29", "Buffer memory is freed exactly once and never used after",
  "After any sequence of constructing, moving, assigning, slicing, consuming and destroying buffers, every block of memory is released exactly once, when its last buffer goes away, and no live buffer refers to released memory or to another buffer's inline storage. Moved-from buffers are empty and safe to destroy or reuse.",
  ["histories", "inputs"], "all operation sequences on inline, heap, sliced, consumed-empty and moved-from buffers of all sizes",
  "tests run a few straight-line sequences on two sizes.",
  [B+"base/buffer.cpp", BI+"base/buffer.hpp"], [("reference count and inline storage", B+"base/buffer.cpp")])
p("C30", "Buffers hold and hand out exactly the bytes put in",
  "Constructing, copying, concatenating, slicing and consuming buffers preserves content: a slice holds exactly the next n bytes and the rest keeps exactly the bytes after them, indexing and iteration see the same bytes in the same order, and sizes always add up.",
  ["inputs", "histories"], "all contents and sizes across the inline/heap threshold, all slice points",
  "tests use two sizes and one slice point.",
  [B+"base/buffer.cpp", BI+"base/buffer.hpp"], [("buffer", B+"base/buffer.cpp")])
p("C31", "A chain of buffers behaves as their concatenation",
  "A sequence of pushed buffers behaves in size, indexing, slicing, consuming and popping exactly as the concatenation of their bytes (popping hands out the bytes of the chain buffer by buffer), wherever the boundaries fall and including empty buffers anywhere in the chain.",
  ["inputs", "histories"], "all chains, all boundary positions, all slice and consume sizes",
  "the test uses one two-buffer chain.",
  [B+"base/buffers.cpp", BI+"base/buffers.hpp"], [("buffers", B+"base/buffers.cpp")])
p("C32", "Lookahead sees the underlying bytes without changing them",
  "A lookahead over a buffer or a buffer chain shows exactly the not-yet-consumed bytes at its own position, counts exactly what was consumed through it, never modifies the underlying container, and a lookahead made from another starts at that one's position with a zero count.",
  ["inputs", "histories"], "all nesting depths, positions and containers",
  "tests never nest lookaheads directly.",
  [B+"base/buffer.cpp", B+"base/buffers.cpp"], [("lookahead", B+"base/buffer.cpp, "+B+"base/buffers.cpp")])
p("C33", "Events carry and destroy exactly the payload they were made with",
  "Every QUIC and HTTP/3 event reports the kind it was constructed with, and moving or destroying it moves or destroys exactly that kind's payload, so no payload is leaked, destroyed twice or read as another kind; frames likewise compare equal exactly when type and all fields of that type are equal.",
  ["inputs", "histories"], "all kinds of event and frame, all move/destroy sequences",
  "tests compare a few frames and move a few events; a missing destructor or uncompared field is invisible to them.",
  [B+"http3/event.cpp", B+"quic/event.cpp", H+"codec/frame/frame.cpp"], [("tagged unions", B+"http3/event.cpp, "+B+"quic/event.cpp, "+H+"codec/frame/frame.cpp")])
p("C34", "Error codes map to distinct, faithful std::error_code values",
  "Every HTTP/3 and QUIC error converts to an std::error_code of its own protocol's category that is distinct for distinct errors, is only falsy for no-error, and carries that error's own message; the two protocols' categories are distinguishable by name. Errors sent on the wire have the draft's values and internal control codes lie outside the wire range.",
  ["inputs"], "all enumerators of both error types",
  "no test converts errors to std::error_code.",
  [B+"base/system_error.cpp", BI+"base/system_error.hpp", BI+"http3/result.hpp", BI+"quic/result.hpp"],
  [("make_error_code / error_category", B+"base/system_error.cpp")])
p("C35", "No failure is silently ignored and no exception escapes noexcept code",
  "Every operation that can fail has its outcome propagated, handled or returned at every call in the library, so that a failing step never continues as if it had succeeded. No function promising not to throw can be made to throw by peer input or call order.",
  ["programs", "fault_sequences"], "every call site of every fallible operation in all library sources",
  "tests hardly inject failures; a dropped error is only visible when the failure happens.",
  [H+"codec/headers.cpp", H+"codec/frame/encode.cpp", H+"client/connection.cpp", H+"server/connection.cpp", BI+"base/result.hpp"],
  [("BNL_TRY / result<T>", BI+"base/result.hpp")])
p("C36", "Views and header names compare and classify correctly",
  "Two views are equal exactly when they have the same length and bytes, two headers exactly when names and values are both equal, and a header is classified as lower-case exactly when its name contains no ASCII upper-case letter. Views report the pointer and size they were built from.",
  ["inputs"], "all contents and lengths, including prefixes of one another and bytes above 127",
  "tests compare a few equal strings.",
  [B+"base/buffer_view.cpp", B+"base/string_view.cpp", B+"http3/header.cpp"], [("operator==, header_is_lowercase", B+"base/buffer_view.cpp, "+B+"http3/header.cpp")])
p("C37", "Addresses keep their family and bytes",
  "An IP address built from 4 or 16 bytes is of the matching family and gives back exactly those bytes in order, an endpoint and a path give back the address, port and ends they were built with, and addresses are equal exactly when their bytes are.",
  ["inputs"], "all addresses of both families, all ports",
  "no test covers addresses, endpoints or paths.",
  [B+"ip/address.cpp", B+"ip/address/ipv4.cpp", B+"ip/address/ipv6.cpp", B+"ip/endpoint.cpp", B+"quic/path.cpp"],
  [("ip::address", B+"ip/address.cpp")])
p("C38", "QUIC packet protection, streams and timers behave as the transport needs",
  "The QUIC client derives keys and nonces as QUIC-TLS prescribes, delivers every stream byte and FIN exactly once across blocking and retransmission, wires every transport callback to its own handler, and re-arms its timers so that connections make progress.",
  ["schedules", "fault_sequences", "inputs"], "all packet schedules, losses and peers",
  "bnl/quic is not built here and has no tests.",
  ["bnl/quic/src/crypto.cpp", "bnl/quic/src/client/connection.cpp", "bnl/quic/src/client/stream.cpp", "bnl/quic/src/client/ngtcp2/connection.cpp"],
  [("ngtcp2 / BoringSSL glue", "bnl/quic/src/client/ngtcp2/connection.cpp")])
p("C39", "Client and server exchange whole messages intact end to end",
  "Whatever headers and body one endpoint sends, and however the transport splits and interleaves the streams, the other endpoint's events concatenate to exactly those headers and that body.",
  ["inputs", "schedules", "histories"], "all messages, all splits, all interleavings of streams",
  "the connection test sends one message pair in one schedule.",
  [H+"client/connection.cpp", H+"server/connection.cpp", "bnl/http3/test/connection.cpp"],
  [("connection send/recv", H+"client/connection.cpp, "+H+"server/connection.cpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
