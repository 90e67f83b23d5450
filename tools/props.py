#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, na=None, tech=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=state or [], observe=observe or [], na=na, tech=tech, note=note))

FR = "internal/frames/"
p("C01", "Every frame decodes to exactly what was encoded",
  "For every protocol frame (setup, the four requests, request-n, payload, error, cancel) whose fields fit their wire widths, encoding it and decoding the bytes yields the same stream id, kind, follows/complete/next/lease flags, metadata, data, token, mime types, intervals, code and request-n, whatever lengths and flag combination are used. The encoded bytes follow the RSocket layout (31-bit big-endian stream id, 6-bit type, 10-bit flags, 24-bit metadata length before the metadata), and the frame-type and flag numbers are RSocket's.",
  ["inputs"], "all field values and lengths within wire limits, all flag combinations, every frame kind",
  "the three frame tests encode one setup and count fragments; no test decodes requests, payloads, errors or flags",
  [FR+f for f in ("setup.go","request_payload.go","payload.go","request_n.go","error.go","cancel.go","frame_header.go","types.go")],
  [dict(name="Encode/Decode pairs", where=FR), dict(name="ParseFrameHeader", where=FR+"frame_header.go")],
  observe=["bytes written by Encode", "fields after Decode"],
  tech="abstract interpretation (affine/bit-field domain) of Encode composed with Decode")
p("C02", "A frame's reported size is exactly the bytes it encodes to",
  "For every frame and all field lengths, the size a frame reports equals the number of bytes its encoding occupies: encoding into a buffer of that size never runs out of room, never cuts a field short and leaves no byte of the buffer unwritten.",
  ["inputs"], "all field lengths and flag combinations of every frame kind",
  "senders size their buffers from Size; tests size one setup frame without token or mime types",
  [FR+f for f in ("setup.go","request_payload.go","payload.go","request_n.go","error.go","cancel.go")],
  [dict(name="Size", where=FR), dict(name="Encode", where=FR)],
  tech="abstract interpretation: affine extent of the writes against Size")
p("C03", "Malformed wire bytes are rejected, never a crash",
  "Decoding any byte string as a frame, an operation table or a port message either returns a value or returns an error: it never panics, never reads outside the given bytes and never allocates more memory than is proportional to the input.",
  ["inputs"], "every byte string, every header flag combination",
  "no test feeds truncated or hostile bytes; the failing lengths are unbounded in number",
  [FR, "operations/operatons.go", "invoke/portio.go"],
  [dict(name="length guards before each access", where=FR), dict(name="FromBytes", where="operations/operatons.go"), dict(name="PortIO.Decode", where="invoke/portio.go")],
  tech="abstract interpretation: every index, slice and make proved in range from dominating guards")
p("C04", "MessagePack sizing and encoding passes agree byte for byte",
  "For every value of every type the MessagePack writer accepts (integers over their whole range, floats, strings, byte strings, times, nil forms, array and map headers and dynamically typed values), the size computed by the sizing writer equals the number of bytes the encoding writer produces, so a buffer allocated from the sizing pass is filled exactly.",
  ["inputs"], "every value and length of every supported type",
  "tests round trip a handful of small values; the size classes switch at dozens of boundaries",
  ["msgpack/sizer.go","msgpack/encoder.go","msgpack/codec.go"],
  [dict(name="Sizer", where="msgpack/sizer.go"), dict(name="Encoder", where="msgpack/encoder.go")],
  tech="abstract interpretation of both Writer implementations on interval partitions; piecewise size tables compared")
p("C05", "MessagePack values decode to what was encoded",
  "For every integer, boolean, float, string, byte string, nil and array or map length, what the encoder writes is read back by the matching read operation as the same value without error and with every written byte consumed, and an integer that does not fit the requested width is reported as an error rather than truncated.",
  ["inputs"], "every value of every scalar type, every length class",
  "range tests sample a few constants per width",
  ["msgpack/encoder.go","msgpack/decoder.go","msgpack/data_reader.go","msgpack/format.go"],
  [dict(name="Encoder.Write*", where="msgpack/encoder.go"), dict(name="Decoder.Read*", where="msgpack/decoder.go")],
  tech="abstract interpretation of Write* composed with Read* on interval partitions")
p("C06", "Skipping a MessagePack value consumes exactly that value",
  "For every one of the 256 MessagePack lead bytes, skipping a value advances the reader by exactly the bytes that value occupies according to the MessagePack specification (header, length field, payload, and nested elements counted), and a truncated value is reported as an error.",
  ["inputs"], "all lead bytes, all length fields",
  "no test exercises Skip; extension and map32 forms are never produced by the encoder",
  ["msgpack/decoder.go"],
  [dict(name="Decoder.Skip", where="msgpack/decoder.go")],
  tech="abstract interpretation per lead byte against the specification's size table")
p("C07", "The MessagePack reader and writer stay inside their buffer",
  "Reading or writing through the byte-level reader and writer with any lengths and any remaining space never touches bytes outside the buffer and never panics: a request beyond the end is refused with an error and leaves the position unchanged, a request that fits succeeds and advances the position by exactly its width, and multi-byte numbers are big-endian.",
  ["inputs"], "all buffer sizes, positions and requested lengths up to 2^32-1",
  "tests never run past the end of the buffer, and the 32-bit wrap needs a 4 GB length field",
  ["msgpack/data_reader.go"],
  [dict(name="checkBufferSize", where="msgpack/data_reader.go")],
  tech="abstract interpretation with bounds obligations and position transfer")
p("C08", "Codec failures are reported, not swallowed",
  "When reading or writing any part of a MessagePack value or converting a payload fails, the failure reaches the caller: no error produced by a reader, writer, nested codec or decoder is dropped or overwritten, and a failed decode does not return a value as if it had succeeded.",
  ["inputs"], "all inputs that make any nested read or write fail, at any nesting depth",
  "tests only take success paths",
  ["msgpack/decoder.go","msgpack/encoder.go","msgpack/sizer.go","msgpack/utils.go","transform/transform.go"],
  [dict(name="error returns of Reader/Writer", where="msgpack/interfaces.go"), dict(name="Err", where="msgpack/decoder.go")],
  tech="def-use error-propagation dataflow over SSA")
p("C09", "Stream ids keep their parity, stay in 31 bits and never repeat early",
  "Client stream ids are odd and server stream ids are even and non-zero, each id is the previous plus two, always below 2^31, wrapping inside that range instead of overflowing into it, and concurrent callers never receive the same id because the counter is advanced atomically.",
  ["inputs","schedules"], "every counter value including the wrap, every interleaving of concurrent callers",
  "tests draw a few ids from the start of the range on one goroutine",
  ["internal/socket/stream_id.go"],
  [dict(name="atomic add and mask", where="internal/socket/stream_id.go")],
  tech="abstract interpretation over the whole counter range with atomicity rule")
p("C10", "The operation table survives serialisation",
  "Any operation table whose names fit in 16 bits is read back from its serialised form with the same number of operations in the same order and with every type, direction, index, namespace and name unchanged; serialised tables start with the \\0wrs magic and version 1, and tables with another magic or version are refused.",
  ["inputs"], "all tables, all name lengths up to 65535",
  "no test touches the operation table",
  ["operations/operatons.go"],
  [dict(name="ToBytes/FromBytes", where="operations/operatons.go")],
  tech="abstract interpretation of one-operation serialisation composed with parsing; loop-body layout agreement")
p("C11", "Registration, exported table and dispatch agree on every index",
  "Registering a handler or an import of a given kind yields consecutive indexes per kind starting at zero (importing the same namespace and name again yields its earlier index), the exported operation table lists exactly the registered operations with that kind, direction, namespace, name and index, looking an index of a kind up for dispatch gives that handler, and a connected peer's import lookup gives the index of the export with that kind and names.",
  ["programs","histories"], "every sequence of registrations of any kinds, every index",
  "no test registers more than one operation or reads the exported table",
  ["invoke/handlers.go","handler/caller.go","handler/handler.go","transport/wasmrs/guest/guest.go"],
  [dict(name="registration functions and table building", where="invoke/handlers.go"), dict(name="import lookup in the peer's table", where="handler/caller.go")],
  tech="abstract interpretation of every bounded history of registrations with symbolic names, followed by the table and every handler lookup")
p("C12", "Every request is handled by its kind or answered with an error",
  "A received request frame is decoded as the kind its header names and passed, with its metadata-selected operation index, payload data and metadata unmixed, to the registered handler of that kind; a request that names no registered operation is answered on the same stream with an error frame, and a handler's value, completion or error is sent back on the same stream as a payload or error frame with the matching flags; demand, cancellation, items and ends the requester sends for the stream take effect even when they arrive before the handler has run or subscribed.",
  ["inputs","histories"], "all frame kinds, stream ids, indexes, and handler outcomes, for every peer implementation",
  "unit tests do not cover the handlers at all",
  ["handler/handler.go","transport/wasmrs/host/instance.go","transport/wasmrs/guest/guest.go"],
  [dict(name="frame dispatch", where="handler/handler.go"), dict(name="frame dispatch", where="transport/wasmrs/host/instance.go"), dict(name="frame dispatch", where="transport/wasmrs/guest/guest.go")],
  tech="abstract interpretation of the three peers over all frame, source and schedule histories until no new abstract state appears, with an expectation monitor on handler calls, signals and frames")
p("C13", "No frame a peer sends can crash the receiver",
  "Whatever frames arrive, in whatever order, for known, unknown or finished streams and of any length, the receiving peer either processes them, ignores them or returns an error: it never panics through a short frame, a failed type assertion, a nil stream, subscription or sink, or an out-of-range operation index.",
  ["inputs","histories"], "every frame byte string at every stream state",
  "needs frames that a well-behaved client never sends, on each of three peer implementations",
  ["handler/handler.go","transport/wasmrs/host/instance.go","transport/wasmrs/guest/guest.go","proxy/"],
  [dict(name="HandleFrame", where="handler/handler.go"), dict(name="recvOne", where="transport/wasmrs/host/instance.go"), dict(name="GuestSend", where="transport/wasmrs/guest/guest.go")],
  tech="abstract interpretation of the three peers over all frame histories with every panic obligation proved")
p("C14", "The stream table is consistent under concurrent use",
  "A stream that was added is found under its id until it is removed and not afterwards, whatever else was added or removed in between and including the first, middle and last entry, and every access to the table is made while holding its lock.",
  ["histories","schedules"], "all add/get/remove sequences and interleavings",
  "no test covers the table; removal order and races are history- and schedule-dependent",
  ["proxy/lookup.go"],
  [dict(name="Lookup mutex", where="proxy/lookup.go")],
  tech="abstract interpretation of every bounded Add/Remove history with symbolic ids, with a lockset and single-section rule")
p("C15", "Finished streams are forgotten",
  "When a stream ends - an error frame, a completing payload or a cancel is received for it, or the local side finishes a stream it serves with completion or error, or cancels one it requested - the peer removes it from its stream table, and it never removes a stream on a frame that does not end it.",
  ["histories"], "every frame sequence on every stream kind",
  "a leak only shows after many requests; tests run none",
  ["handler/handler.go","transport/wasmrs/host/instance.go","transport/wasmrs/guest/guest.go","proxy/"],
  [dict(name="removeStream", where="handler/handler.go")],
  tech="abstract interpretation of the three peers over all histories, comparing the streams reachable from their tables with the open ones")
p("C16", "Outgoing requests carry the caller's payload, kind and a fresh stream",
  "Each caller operation (request-response, fire-and-forget, request-stream, request-channel) on every peer sends a request frame of exactly that kind on a newly allocated stream id, with the given data and metadata unswapped, registers the stream under that same id before sending when replies are expected, and the payloads, completion and error received for that stream reach that caller only, while its demand, cancellation and input leave on that stream; nothing asks for a stream the caller has cancelled.",
  ["inputs","programs"], "all payloads and all four request kinds on all three peers",
  "no test inspects outgoing frames",
  ["handler/handler.go","handler/caller.go","transport/wasmrs/host/","transport/wasmrs/guest/","proxy/"],
  [dict(name="Request* methods", where="handler/handler.go")],
  tech="abstract interpretation of the caller operations over all histories with an expectation monitor on frames and caller signals")
p("C17", "Concurrent senders never interleave frames on a connection",
  "On a TCP connection each frame's length prefix and bytes are written as one unit under a lock that every sender takes, a flush never runs beside a write, the three-byte length prefix always equals the number of bytes that follow it, and a frame too long for the prefix or a failed write is reported as an error.",
  ["schedules","inputs"], "all interleavings of concurrent senders, all frame sizes",
  "needs two goroutines sending at once; tests open no sockets",
  ["transport/rsocket/tcp_conn.go","transport/rsocket/transport.go"],
  [dict(name="TCPConn.Write", where="transport/rsocket/tcp_conn.go"), dict(name="Transport.Send", where="transport/rsocket/transport.go")],
  tech="lockset analysis of every writer access, and abstract interpretation of the bytes Conn.Write hands to the writer")
p("C18", "A received frame's bytes are never overwritten by later frames",
  "The bytes handed out for a received frame belong to that frame alone: neither the connection's read buffer nor any other reused memory backs the metadata or data kept after the next frame is read, on the TCP transport and on the guest memory buffers alike.",
  ["histories","schedules"], "all frame sequences and consumer delays",
  "corruption needs a second frame to arrive while the first is still queued",
  ["transport/rsocket/tcp_conn.go","transport/rsocket/decoder.go","transport/wasmrs/host/instance.go","transport/wasmrs/guest/guest.go"],
  [dict(name="copy before queueing", where="transport/rsocket/tcp_conn.go")],
  tech="alias and escape analysis by abstract interpretation of every receiving path, from reusable buffers to whatever outlives the call")
p("C19", "Every reactive stream ends at most once",
  "A Mono or Flux subscriber receives at most one terminal signal (success, completion or error): after it, no further value, completion or error is delivered by any operation of the processor, producer or sink, and completing, failing or emitting on a finished stream has no effect.",
  ["histories"], "all sequences of emit, complete, error, cancel and subscribe operations",
  "rx has no tests at all",
  ["rx/mono/","rx/flux/"],
  [dict(name="closed guard", where="rx/mono/mono.go"), dict(name="closed guard", where="rx/flux/flux.go")],
  tech="typestate analysis by abstract interpretation over all two-operation sequences from every abstract state")
p("C20", "Subscribing always leads to a terminal signal",
  "For every Mono and Flux constructor and operator (just, error, create, slice, map and the two conversions), a subscriber eventually gets the terminal signal its source reached, an error stays an error, a mapper's failure becomes an error, and the finally callbacks run exactly once on every terminal path.",
  ["programs","histories"], "all constructors, operators and source outcomes",
  "rx has no tests at all; a missing finally shows as a hang",
  ["rx/mono/","rx/flux/","rx/rx.go"],
  [dict(name="Subscribe", where="rx/mono/mono.go"), dict(name="Subscribe", where="rx/flux/flux.go")],
  tech="must-signal abstract interpretation of Subscribe paths; sibling agreement")
p("C21", "The unbounded queue loses, duplicates and reorders nothing",
  "Every value put into the unbounded buffer is delivered exactly once and in put order, at most one value is in flight at a time, nothing is sent on or kept for a closed buffer, closing twice is harmless, and the backlog is only touched while holding the buffer's lock.",
  ["histories","schedules"], "all put/load/close sequences and interleavings",
  "the two tests put a few values without contention or close",
  ["internal/buffer/unbounded.go"],
  [dict(name="mutex and backlog", where="internal/buffer/unbounded.go")],
  tech="abstract interpretation of each operation from every abstract queue state with lockset check")
p("C22", "An instance's in-flight accounting is balanced",
  "On the wasm host Close waits exactly until the requests in flight have ended: every response-bearing request that was counted is uncounted once whatever its outcome (success, error, completion, cancellation, unknown operation or bad metadata), nothing else is uncounted; after that, closing again, requests still queued and frames being sent neither block nor panic.",
  ["histories","schedules"], "all request outcomes and close interleavings",
  "no test runs a wasm instance",
  ["transport/wasmrs/host/instance.go"],
  [dict(name="active request counter", where="transport/wasmrs/host/instance.go"), dict(name="Close", where="transport/wasmrs/host/instance.go")],
  tech="abstract interpretation of Close in every state of the host's request histories, with a wait monitor; late operations probed afterwards")
p("C23", "Port messages survive encoding",
  "For every port name up to 65535 bytes, data and flag combination, decoding an encoded port message gives back the same port, data, next and complete flags, and the two flags are independent bits.",
  ["inputs"], "all port names, data and flag combinations",
  "port messages have no test",
  ["invoke/portio.go"],
  [dict(name="PortIO.Encode/Decode", where="invoke/portio.go")],
  tech="abstract interpretation of Encode composed with Decode")
p("C24", "Payload transforms are inverse pairs and keep data and metadata apart",
  "Each typed payload transform encodes a value into the payload data with the matching writer and decodes with the matching reader, so decoding an encoded value returns it, leaves the metadata untouched, fills the allocated buffer exactly, and reports malformed input as an error.",
  ["inputs"], "all values of all transform types",
  "transforms have no tests",
  ["transform/transform.go","msgpack/utils.go","payload/"],
  [dict(name="transform pairs", where="transform/transform.go")],
  tech="abstract interpretation of encode composed with decode per transform")
p("C25", "UUIDs are well formed and parse back from their text",
  "Generated version-4 UUIDs always carry version 4 and the RFC 4122 variant, the text form has 36 characters with dashes at 8, 13, 18 and 23 and parsing it returns the same UUID for every 128-bit value, the accepted alternate forms (upper case, urn:uuid: prefix in any case, bare hexadecimal, and 38 characters of which the outer two are ignored) parse to the same bytes, malformed text of any length is rejected with an error without panicking and without changing the destination, the binary form is exactly the 16 bytes, and the pooled generator hands out each random byte once.",
  ["inputs"], "all 2^128 values and all strings",
  "no reliable test covers the package; the value space is unbounded for tests",
  ["types/uuid/"],
  [dict(name="Parse/String", where="types/uuid/uuid.go"), dict(name="version and variant bits", where="types/uuid/version4.go")],
  tech="abstract interpretation of the formatter, parsers and generators with a finite-function domain for character tables")
p("C26", "The module mesh links imports to the matching export only",
  "When modules are linked, an import is bound to an exported operation with the same namespace, name and request kind, whichever of the two was loaded first, and to nothing else; its calls are forwarded with the same kind, context and payload to an instance that exports the operation, under the exporter's index, and the answer is handed back. An import with no matching export stays unbound. After a module is loaded again, calls go to its new instance. Requests made through the mesh by name follow the same rules.",
  ["programs","histories"], "all sets of modules, operations and load orders",
  "the mesh has no tests and needs wasm modules",
  ["transport/wasmrs/mesh/mesh.go"],
  [dict(name="linkOperation", where="transport/wasmrs/mesh/mesh.go")],
  tech="abstract interpretation of module loading, linking and forwarding with event traces, over every pattern of agreement between names and kinds of two or three operations, orders, groupings and reloads")
p("C27", "Flow steps run once each and in order",
  "A flow runs its steps in the order given, each at most once. It starts a step as soon as, and only after, every awaitable the previous step returned has ended, whatever order and concurrency they end in and including awaitables that had already ended; each awaitable is set running and awaited once. It stops at the first error a step returns, or at End, and its subscriber receives exactly that error, or the value or completion the last step produced, once.",
  ["programs","histories"], "all step lists and all completion orders, including awaitables that are already complete",
  "flow has no tests",
  ["rx/flow/flow.go","rx/await/await.go"],
  [dict(name="step queue", where="rx/flow/flow.go")],
  tech="typestate by abstract interpretation over all settlement orders, with preemption at atomic operations and a race rule")
p("C28", "Fragmentation preserves metadata, data and order within the frame limit",
  "Splitting a frame that exceeds the maximum frame size yields frames whose metadata and data, concatenated in order, equal the original's, each within the limit, with follows set on all but the last and the original completion and next flags only on the last; a frame within the limit is not split.",
  ["inputs"], "all metadata and data lengths and all frame limits above the fixed overhead",
  "two tests use one size; the boundary between metadata and data moves with every length",
  [FR+"request_payload.go",FR+"payload.go",FR+"util.go"],
  [dict(name="Fragment/splitPayloads", where=FR)],
  tech="abstract interpretation of the splitter with an inductive loop invariant (remaining + emitted = original)")
p("C29", "A TCP server answers only after setup and cleans up every connection",
  "A server connection processes no frame before a setup frame has been accepted and counts as ready only then; every frame read is processed once and in order; a read error ends the loop and is reported, as is a failure to process a frame; the connection is closed on every way out. A listening server starts or closes every connection it accepts, forgets it when it ends, tells the acceptor only of ready connections, and closes everything when it stops. A server closed at any moment, even before it listens, stops listening. Connecting sends the setup frame with the operation table first and reports a failure to send it.",
  ["histories","fault_sequences"], "all first frames and failure points",
  "no test opens a connection",
  ["transport/rsocket/transport.go","transport/rsocket/init.go","transport/rsocket/tcp_transport.go"],
  [dict(name="Transport.Start", where="transport/rsocket/transport.go")],
  tech="typestate analysis by abstract interpretation of Start, Listen and Connect over histories of reads, accepts and failures")
p("C30", "Locks are released on every path and never taken twice",
  "In every function of the library each mutex acquired is released exactly once on every way out, no mutex is acquired again by code already holding it, and no unlock happens without its lock, so no caller can be left blocked.",
  ["schedules","histories"], "all control paths of all functions that lock",
  "an unreleased lock shows only on the untested path that skips the unlock",
  ["proxy/lookup.go","internal/buffer/unbounded.go","rx/","transport/","types/uuid/"],
  [dict(name="mutex call sites", where="all packages")],
  tech="path-sensitive lock-state abstract interpretation of every locking function")
p("C31", "Custom sections are read exactly and malformed modules are rejected",
  "Reading custom sections from a wasm binary returns for each requested name exactly the bytes of that section, ignores sections not asked for, rejects a wrong magic, version or section length with an error, never returns a partly filled section as success, and never allocates more than the file is long for a length it claims.",
  ["inputs"], "all byte strings",
  "the reader has no tests",
  ["transport/wasmrs/customsections/customsections.go"],
  [dict(name="Read", where="transport/wasmrs/customsections/customsections.go")],
  tech="abstract interpretation of the section reader with read-completeness and error rules")
p("C32", "Numeric and nil conversions never lose a value or crash",
  "The conversion helpers return the converted value for every non-nil input, pass an error through unchanged, return nil for nil, and never dereference a nil input.",
  ["inputs"], "all inputs, nil and non-nil, with and without an error",
  "the helpers have no tests",
  ["msgpack/convert/convert.go"],
  [dict(name="Numeric/String/Bool and nillable forms", where="msgpack/convert/convert.go")],
  tech="abstract interpretation of every helper on nil and non-nil inputs")
p("C33", "24-bit lengths are exact and overflow is refused",
  "A 24-bit length built from a number reads back as that number for every value from 0 to 16777215, is written as three big-endian bytes, and a number outside that range is refused instead of being truncated.",
  ["inputs"], "all integers",
  "tests sample a few constants",
  ["internal/u24/u24.go"],
  [dict(name="NewUint24/AsInt", where="internal/u24/u24.go")],
  tech="abstract interpretation over the bit-field domain")
p("C34", "Length-delimited frames are cut from the byte stream exactly",
  "Whatever chunks the network delivers, the TCP stream splitter emits a frame only when its 3-byte length and all its bytes are present, emits exactly those bytes, advances past exactly the length prefix and the frame, waits for more data otherwise, and reports a truncated tail as an error.",
  ["inputs","histories"], "all chunkings and all lengths",
  "no test drives the splitter",
  ["transport/rsocket/decoder.go","internal/u24/u24.go"],
  [dict(name="split function", where="transport/rsocket/decoder.go")],
  tech="abstract interpretation of the splitter with affine lengths")
p("C35", "Mutex-guarded state is only touched under its mutex",
  "In every type or package of the library that guards shared mutable state with a mutex (the TCP server transport, the live-instance table, the stream table, the unbounded buffer, the UUID clock sequence and pools, the shared random source), every read and write of that state after construction is made while the mutex is held, so no interleaving of callers can observe or leave torn state.",
  ["schedules"], "all interleavings of callers of every method of the guarded types",
  "races need an unlucky interleaving, the tests use one goroutine, and the race detector only sees executed accesses",
  ["transport/rsocket/tcp_transport.go","invoke/instances.go","proxy/lookup.go","internal/buffer/unbounded.go","types/uuid/"],
  [dict(name="tcpServerTransport.mu", where="transport/rsocket/tcp_transport.go"), dict(name="Lookup mutex", where="proxy/lookup.go")],
  tech="lockset dataflow by abstract interpretation of every method of guarded types")

p("C36", "Frames cross the wasm memory boundary intact",
  "Whatever frame the host or the guest sends, the other side is handed exactly its length and bytes in the buffer agreed on, in order and never outside that buffer; a frame that does not fit is refused with an error instead of crashing or being cut; received frames are taken off the buffer whole and as copies, and an incomplete rest or memory out of reach does no harm.",
  ["inputs","histories"], "all frames, sizes, addresses and memory contents",
  "no test runs a wasm instance; the failure needs a frame beyond 16 KiB or a second frame in one message",
  ["transport/wasmrs/host/host.go","transport/wasmrs/host/instance.go","transport/wasmrs/guest/guest.go"],
  [dict(name="sendLoop/hostSend", where="transport/wasmrs/host/instance.go"), dict(name="doSendFrame/GuestSend", where="transport/wasmrs/guest/guest.go")],
  tech="abstract interpretation of both sides' sending and receiving functions over memory of unknown content at unknown addresses")
p("C37", "A request that cannot be sent fails its caller",
  "When a request's frame cannot be sent - the connection's send function fails, the instance is closed, or the frame does not fit the other side's buffer - the caller gets exactly one error and nothing else, the stream is forgotten, the channel input is left alone, nothing of the request leaves, and later demand or cancellation does not revive it.",
  ["inputs","histories"], "all request kinds, peers and send failures",
  "no test makes a send fail; the failure shows as a hang",
  ["proxy/mono.go","proxy/flux.go","handler/caller.go","transport/wasmrs/host/caller.go","transport/wasmrs/guest/caller.go"],
  [dict(name="Subscribe/Request", where="proxy/")],
  tech="abstract interpretation of the caller operations of the three peers with failing sends, with an outcome monitor")

p("C38", "A requester is told when its answer cannot be sent",
  "When a peer serving a request cannot send the answer or an item of it (too large for the other side, refused by the connection) but can still send an error, the requester gets exactly one error for that stream and nothing else afterwards, the source of the answer is cancelled, and the stream is forgotten; an error whose text does not fit is replaced by one that does.",
  ["inputs","histories"], "all request kinds, peers, answers and points at which sending fails",
  "no test makes the sending of an answer fail; the failure shows as a requester that waits for ever",
  ["handler/handler.go","transport/wasmrs/host/instance.go","transport/wasmrs/guest/guest.go"],
  [dict(name="OnSuccess/OnNext/OnError of served requests", where="handler/handler.go")],
  tech="abstract interpretation of the three serving peers with sends that refuse everything but errors, with an outcome monitor per history")

p("C40", "Demand is honoured: never more items than requested",
  "A producer never delivers more items to a subscriber than the total the subscriber has requested, and all requested items are delivered if available.",
  ["histories","schedules"], "all request-n histories", "counts accumulate over whole histories and schedules",
  ["rx/flux/flux.go","rx/flux/slice.go","proxy/flux.go"], [dict(name="Request", where="rx/flux/flux.go")],
  na="for user-supplied producers it quantifies over run-time counts accumulated in user callbacks, and the sink they are given neither counts nor limits; what the library itself decides (how rx passes demand on and what its slice sources deliver) is claimed as C44, how peers carry it as C12 and C16")
p("C41", "Blocking operations always return",
  "Block and Close return whenever the awaited stream or instance terminates, with no deadlock between request goroutines, the send loop and the guest.",
  ["schedules"], "all goroutine interleavings", "schedule dependent",
  ["rx/mono/mono_host.go","rx/flux/flux_host.go","transport/wasmrs/host/instance.go"], [dict(name="Block/Close", where="rx/")],
  na="a liveness property over schedules and guest behaviour; the structural parts that static analysis can decide (every terminal path runs the finally callback, counters are paired, locks are released) are claimed as C20, C22 and C30")
p("C42", "Payloads of one stream arrive in the order they were sent",
  "On an open stream or channel, the items and the end received are handed to the caller or to the handler's input in the order they arrived, and the items and the end a source emits leave on the connection in the order they were emitted, each once: no order of the goroutines involved and no full queue lets one overtake another.",
  ["schedules","histories"], "all interleavings of both directions and of the goroutines started",
  "the reordering window is a scheduler race",
  ["handler/handler.go","proxy/flux.go","rx/flux/flux.go","transport/wasmrs/host/instance.go","transport/wasmrs/guest/guest.go","transport/rsocket/transport.go","transport/rsocket/tcp_transport.go","internal/buffer/unbounded.go"],
  [dict(name="frame handling", where="handler/handler.go"), dict(name="send and receive queues", where="transport/wasmrs/host/instance.go")],
  tech="abstract interpretation of the peers, send functions, read loop and queues over interleavings of distinguishable items, with an order monitor")
p("C44", "Demand reaches the source as asked, and slice sources keep to it",
  "For every Flux constructor and operator, the total a subscriber requests - directly, from OnRequest, or the maximum when it has no OnRequest - before or after the source is ready, reaches the source unchanged, never more and never less; OnRequest runs at subscription and again exactly when the demand is used up, and not for a subscriber that wants no automatic demand; a cancellation reaches the source exactly once; the slice sources deliver, for any demand including none and negative, no more items than requested and every available item that was requested, in order, and complete with the last one and not before.",
  ["histories","inputs","schedules"], "all orders of subscription, requests, items, cancellation and request goroutines",
  "rx has no tests, and lost or inflated demand shows only as a stall or a flood under bounded demand",
  ["rx/flux/flux.go","rx/flux/flux_host.go","rx/flux/slice.go","rx/flux/response.go","rx/flux/processor.go"],
  [dict(name="subscriber demand", where="rx/flux/flux.go")],
  tech="typestate by abstract interpretation over histories with concrete demand, comparing what was requested, passed on and delivered")
p("C43", "Keepalive and lifetime limits are enforced in time",
  "A connection whose peer stays silent past the negotiated lifetime is closed, and keepalives are sent at the negotiated interval.",
  ["schedules"], "all timings", "timing",
  ["internal/frames/setup.go","transport/rsocket/transport.go"], [dict(name="setup intervals", where="internal/frames/setup.go")],
  na="timing behaviour, and the code base implements no keepalive handling at all, so there is nothing to analyse beyond the setup encoding claimed as C01")

BUILT = set(open(os.path.join(V, "tools", "built.txt")).read().split()) if os.path.exists(os.path.join(V, "tools", "built.txt")) else set()
HOOK = None
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
            quantifier=dict(over=x["over"], text=x["qtext"]), why_tests_cant=x["why"],
            anchors=dict(files=x["files"], state=x["state"], mechanism=x["mech"], observe_at=x["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for x in P:
    if x["na"]:
        na.append(dict(property=x["id"], reason=x["na"]))
    elif x["id"] not in BUILT:
        na.append(dict(property=x["id"], reason="no check has been built for this property yet"))
    else:
        checks.append(dict(property=x["id"], quick_cmd="bash run.sh %s" % x["id"], thorough_cmd="VERIF_TIER=thorough bash run.sh %s" % x["id"],
            evidence_file="evidence/%s.json" % x["id"], technique=x["tech"], level="other",
            level_note=x["note"] or "static analysis of the current source: the rule holds on every abstract path of the analysed functions; see DESIGN.md for what the rule covers and its assumptions"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="one Go static analyser (checker/, vendored golang.org/x/tools) decides every property from /repo's source; no hooks are needed in /repo")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(checks), "checks,", len(na), "not applicable")
