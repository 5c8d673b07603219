"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
S = "source/postcard-rpc/src/"
def P(id, title, statement, over, text, why, files, mech, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech], observe_at=observe or []))
PS = [
P("C01", "Message headers have one exact encoding and always round-trip",
  "Encoding a message header yields one discriminant byte (version, sequence width, key width), then the key's bytes, then the sequence number little-endian in exactly the stated width; the growable and the fixed-slice encoder produce the same bytes. The slice encoder fails, without panicking, exactly when the header does not fit, and decoding an encoded header followed by any payload returns that header and that payload untouched.",
  ["inputs"], "every key width and value, every sequence width and value, every output buffer size, every trailing payload",
  "Tests encode a few constants; the guarantee is over 12 width combinations times all key and sequence values and all buffer sizes.",
  ["header.rs"], [("VarHeader::write_to_vec / write_to_slice / take_from_slice", "header.rs"), ("Key1/Key2/Key4::to_bytes", "lib.rs")], ["returned bytes and remainder"]),
P("C02", "Header decoding is total and strict",
  "Decoding never panics, reads only the bytes the header declares, and accepts exactly the byte strings that are an encoding of some header followed by anything: an unknown version, a reserved width or a truncated header is rejected. Every accepted header re-encodes to the consumed bytes.",
  ["inputs"], "every byte string of every length",
  "Tests decode a handful of byte strings; malformed and truncated inputs of all lengths are not sampled.",
  ["header.rs"], [("VarHeader::take_from_slice", "header.rs")], ["None/Some result, header and remainder"]),
P("C03", "Shortened keys compare and convert coherently at every width",
  "A key shortened to 1, 2 or 4 bytes depends only on the 8-byte key, no matter whether it is shortened directly or in steps. Two keys of any widths compare equal exactly when they agree after shortening both to the smaller of the two widths; comparison is reflexive and symmetric, and narrowing a key never makes it unequal to what it was.",
  ["inputs"], "all 2^64 keys, all pairs of widths and shortening paths",
  "Tests compare a few fixed keys; coherence is over every key and every pair of widths.",
  ["lib.rs", "header.rs"], [("Key1/Key2/Key4::from_key*", "lib.rs"), ("VarKey::eq / shrink_to", "header.rs")], ["equality results, key bytes"]),
P("C04", "Sequence numbers compare and resize coherently at every width",
  "Two sequence numbers are equal exactly when they denote the same number, whatever their widths. Resizing always yields the asked width, keeps exactly the low bits that fit and zero-extends when growing, so a number that fits the new width stays equal to the original; conversions to and from plain integers agree with this.",
  ["inputs"], "all sequence values and all pairs of widths",
  "Tests use a few small numbers; truncation and widening bugs show only at values above a width's maximum.",
  ["header.rs"], [("VarSeq::eq / resize", "header.rs")], ["equality results, resized value"]),
P("C05", "The server's chosen key width is the smallest without collisions",
  "For any lists of keys, the width computed is the smallest of 1, 2, 4 and 8 bytes at which all keys remain distinct, and identical 8-byte keys are refused. A dispatcher built from a device description uses a width at which no two keys it can receive collide and no two keys it can send (responses, outgoing topics, the error message) collide, and reports that width; one that serves an endpoint or topic its tables do not list (by request, response or topic key) is refused at compile time.",
  ["inputs", "configurations"], "all finite lists of key lists; all device descriptions",
  "Tests try four key pairs; collisions depend on the exact key set, including positions across and within lists and the implicit error key.",
  ["server/mod.rs", "server/dispatch_macro.rs"], [("min_key_needed / keycheck!", "server/mod.rs"), ("define_dispatch! sizer", "server/dispatch_macro.rs")], ["the width; min_key_len()"]),
P("C06", "The server loop dispatches every well-formed frame exactly once, in order",
  "The server hands each received frame with a decodable header to the dispatcher exactly once, in arrival order, with that header and exactly the bytes after it; frames without a decodable header are skipped. It keeps running after malformed and oversized messages and other transient receive or send errors, and stops, returning that error, exactly when receiving reports that the connection is closed or handling a frame fails because sending found the connection closed or timed out.",
  ["histories", "fault_sequences", "inputs"], "every history of received frames, receive errors and dispatcher results, every receive buffer size",
  "Tests run a few happy-path exchanges; error and fatal paths at arbitrary points of arbitrary histories are not sampled.",
  ["server/mod.rs"], [("Server::run", "server/mod.rs"), ("ServerError::is_fatal / AsWireRxErrorKind", "server/mod.rs")], ["calls to the dispatcher, run()'s return value"]),
P("C07", "Each request reaches only its handler and gets one correct reply",
  "A request whose key names a served endpoint runs that endpoint's handler exactly once with the decoded body and is answered by exactly one frame with the response key, the request's sequence number unchanged and the encoded response; topic messages run exactly their handler and send nothing. Undecodable bodies and unknown or wrong-width keys run no handler and are answered by exactly one error frame carrying the request's sequence number and naming the problem; the built-in ping, schema and device endpoints behave the same way.",
  ["inputs", "configurations"], "every header, body, dispatcher key width and handler kind",
  "Tests use one application and matching widths; wrong widths, undecodable bodies, failed spawns and transport failures are not sampled.",
  ["server/dispatch_macro.rs", "server/mod.rs", "standard_icd.rs"], [("define_dispatch! handle()", "server/dispatch_macro.rs"), ("Sender::reply / error", "server/mod.rs")], ["handler calls, frames sent"]),
P("C08", "Sent frames carry the right header; schema streaming is complete and counted",
  "Every reply, error, publish and reply-with-key-width is sent as one frame whose key is the right one at the negotiated key width and whose sequence number is exactly the one given. Streaming the schemas sends every type, endpoint and outgoing and incoming topic of the device description exactly once, numbered consecutively from zero in the order sent, and ends with totals equal to how many of each kind were sent and how many failed.",
  ["inputs", "fault_sequences", "configurations"], "all sequence numbers, key widths and bodies; all device descriptions; every pattern of failing sends",
  "Tests stream one description on a healthy channel; counts under failures and widths other than 8 are not sampled.",
  ["server/mod.rs"], [("Sender::{publish,reply,reply_keyed,error,send_all_schemas}", "server/mod.rs")], ["frames handed to the transport"]),
P("C09", "USB transmission frames every message so the receiver finds its end",
  "Each message is put on the USB endpoint as its bytes in order, cut into full-size packets, and ended by a short packet: a shorter last packet or an empty packet when the length is a multiple of the packet size. A message that was cut short by a timeout, an error or a dropped send is never silently joined with the next one: before new data an empty packet closes it. An endpoint error is reported as a closed connection and an endpoint that does not answer as a timeout; packets of concurrent sends never mix, and messages that do not fit the transmit buffer are refused with nothing sent.",
  ["inputs", "histories", "fault_sequences"], "all message lengths and buffer sizes, all histories of sends with endpoint errors and timeouts at any packet",
  "No test exercises the USB implementations; behaviour depends on length modulo packet size and on where a fault hits.",
  ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"], [("send_all, EUsbWireTx::send / send_raw", "server/impls/embassy_usb_v0_4.rs")], ["packets written to the endpoint"]),
P("C10", "USB reception reassembles messages exactly and stays in sync",
  "Whatever sequence of packets arrives, each message returned is exactly the concatenation of the packets up to and including the first short one. A message longer than the receive buffer is reported as oversized, all its remaining packets are discarded, and the next message is returned intact; nothing outside the buffer is touched and a disconnected endpoint is reported as closed.",
  ["inputs", "histories"], "all packet sequences, all receive buffer sizes",
  "No test exercises the USB implementations; resynchronisation depends on buffer size versus packet boundaries.",
  ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"], [("EUsbWireRx::receive", "server/impls/embassy_usb_v0_4.rs")], ["receive() results"]),
P("C11", "COBS accumulation yields every frame exactly once, for any chunking",
  "Feeding a byte stream in arbitrary chunks yields each zero-terminated frame that fits the buffer and decodes exactly once, in order, with its decoded bytes, wherever the chunk boundaries fall, and whatever follows its terminator is handed back unread. A frame that does not fit is reported as overfull and an undecodable one as a decode error; neither disturbs the frames after its terminator, nothing outside the buffer is touched, and no input makes feeding panic or fail to make progress.",
  ["inputs", "histories"], "all byte streams, all chunkings, all buffer sizes",
  "There is no test of the accumulator; correctness depends on chunk boundaries against terminators and buffer capacity.",
  ["accumulator.rs"], [("raw::CobsAccumulator::feed / feed_raw", "accumulator.rs")], ["feed results"]),
P("C12", "Formatted log messages are well-formed whatever is formatted",
  "Sending a formatted log message never panics and never writes outside its buffer: it produces one frame with the logging key at the given width and the next log sequence number, whose body decodes (as valid UTF-8) to the formatted text, or, when the transmit buffer is too small for it, to as much of it as fits with its end replaced by an ellipsis. If not even the header and length fit, nothing is sent and an error is returned.",
  ["inputs"], "all formatted texts (any number and length of pieces), all transmit buffer sizes",
  "No test exercises it; the length prefix size and truncation depend on the text length and the buffer size.",
  ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"], [("EUsbWireTx::send_log_fmt / send_log_str, SliceWriter, actual_varint_max_len", "server/impls/embassy_usb_v0_4.rs")], ["the frame sent"]),
P("C13", "A client request resolves only with its own response",
  "Each request is sent as one frame with the endpoint's request key and a sequence number no other in-flight request of that client uses (before wrap-around); it resolves with the body of the frame whose response key and sequence number match it, or with the error carried by an error frame with its sequence number, or with a decode error for that frame. Frames for other requests, other keys or unknown sequence numbers never resolve it, and dropping a request never disturbs another.",
  ["histories", "schedules", "inputs"], "every interleaving of concurrent requests and incoming frames in any order, with duplicates and strays",
  "Tests use one request at a time in order; mixing needs concurrent requests, reordered, duplicate or stray frames.",
  ["host_client/mod.rs", "host_client/util.rs"], [("HostClient::send_resp / send_resp_raw", "host_client/mod.rs"), ("HostContext::process_did_wake, in_worker", "host_client/util.rs")], ["results of send_resp; frames sent"]),
P("C14", "Once closed, a client fails fast and nothing hangs",
  "When the client is closed, by the user or because the transport failed in either direction, every pending request resolves with the closed error, every subscription ends after delivering what it had queued, and the background workers end and drop the transport. From then on every request, publish or subscription fails, is reported as closed, and nothing more is sent; the closed state never reverts.",
  ["schedules", "histories", "fault_sequences"], "closing or failing at any point relative to pending and new operations",
  "Tests close once at the end; the outcome depends on where the closure falls relative to other operations.",
  ["host_client/mod.rs", "host_client/util.rs"], [("HostClient::close / is_closed / wait_closed, HostContext, workers", "host_client/util.rs")], ["results of client operations"]),
P("C15", "Subscriptions receive exactly their topic's messages, in order",
  "A subscriber receives the messages of its topic that arrive while it is subscribed, each once, in arrival order, with the bodies sent, and nothing from other topics; messages arriving while its queue (of at least the depth it was created with) is full are the only ones lost (reported as lag to shared subscribers), and a full or dropped subscriber never disturbs other topics, other subscribers or requests. Replacing subscription ends the older one, exclusive subscription is refused while the older one lives, and shared subscribers of one topic each get every message.",
  ["histories", "schedules", "inputs"], "every history of subscribe, receive, drop and incoming messages, any queue depth",
  "Tests subscribe once and receive a few messages; overflow, replacement and dropping in the middle are not sampled.",
  ["host_client/mod.rs", "host_client/util.rs"], [("in_worker subscription table, HostClient::subscribe*", "host_client/util.rs")], ["messages received per subscription"]),
P("C16", "The client adapts to the server's key width and keeps its sequence width",
  "Until its first reply the client sends full keys; afterwards requests and publishes carry the key shortened to the width of a reply received (the latest one, when requests are made one after another), and requests match replies of any key width. Request sequence numbers are sent at the width the client was configured with, counting up from zero and wrapping at that width.",
  ["histories", "configurations"], "every history of incoming key widths, every configured sequence width",
  "Tests use one width per run; adaptation needs mixed widths in one history.",
  ["host_client/mod.rs", "host_client/util.rs"], [("HostClient::send_resp_raw, publish_raw; HostContext key kind", "host_client/mod.rs"), ("out_worker, RpcFrame::to_bytes", "host_client/util.rs")], ["headers of frames sent"]),
P("C17", "The unique type list names every type once and nothing else",
  "For any schema, the collected list contains each distinct non-trivial type reachable from it, at any nesting depth and through every kind of composite, exactly once, and no type that is not reachable; the computed length equals the list's length, and merging lists keeps exactly the distinct entries.",
  ["inputs", "programs"], "all schema trees",
  "Tests check a few example types; a missed branch shows only for particular nestings.",
  ["uniques.rs"], [("type_chewer_dmt, unique_types_dmt_upper, merge_*, combine", "uniques.rs")], ["the type lists"]),
P("C18", "The client's schema report equals what the device described",
  "Building a report from the streamed schema messages accepts exactly consistent streams: every announced endpoint and topic appears once, with its path, its keys and, for each of its request, response and message keys, a received type whose key for that path is that key; a key no received type has, or totals (types, endpoints, topics in and out) that differ from what was received, is an error rather than a wrong report.",
  ["inputs", "histories"], "all device descriptions and message streams",
  "Tests fetch one report from one server; inconsistent streams are not sampled.",
  ["host_client/mod.rs"], [("SchemaReport, HostClient::get_schema_report", "host_client/mod.rs")], ["the report"]),
P("C19", "The serial transport delivers every frame regardless of read boundaries",
  "Frames sent over the serial transport arrive as the same frames in the same order however the reads split or join them; every frame written is COBS-encoded with one terminator, and garbage between frames costs at most the frame it damages. When the port goes away the link is reported as failed.",
  ["inputs", "schedules"], "all frames and all splits of the byte stream into reads",
  "No test uses a serial port; loss depends on how reads split frames.",
  ["host_client/serial.rs", "accumulator.rs"], [("SerialWireRx::recv_inner, SerialWireTx::send", "host_client/serial.rs")], ["frames received, bytes written"]),
P("C20", "The host USB transport sends and delivers each frame whole, in order",
  "Each frame given to the host's raw USB transport is queued as one transfer, followed by an empty transfer exactly when its length is a multiple of the packet size (the smallest among the interface's bulk OUT endpoints), and each completed receive transfer is delivered once, whole and in order; stalls and unknown errors are recovered from (all transfers in flight discarded before the halt is cleared) up to a bounded number in a row, and any other transfer error, or a halt that cannot be cleared, ends the link. The client is made on the first device the given function accepts and, there, on the first vendor-specific interface (or the first the given interface function accepts), using one bulk endpoint of that interface in each direction; it is refused when there is no such device, interface or endpoint.",
  ["inputs", "fault_sequences"], "all frame lengths and packet sizes, all sequences of transfer results",
  "No test uses USB hardware.",
  ["host_client/raw_nusb.rs"], [("NusbWireTx::send, NusbWireRx::recv_inner, try_new_raw_nusb, try_new_raw_nusb_with_interface, try_from_nusb_and_interface", "host_client/raw_nusb.rs")], ["transfers queued, frames delivered"]),
P("C21", "The in-process channel transport carries each message whole, in order, until stopped",
  "Every send on the channel transport puts exactly one item on the channel: the encoded header followed by the encoded body, the raw bytes as given, or a log frame with the logging topic's key at the requested width, the next value of a counter shared by all clones (as a 4-byte sequence number) and the whole text. Every receive takes exactly one item and returns it unchanged, or reports it as too large when it exceeds the buffer, leaving later messages intact. A send or receive waits until it can complete, loses nothing when dropped, and reports the connection closed exactly when the other end is gone or its stop signal was given; the stop signal of a stoppable channel server ends both halves. A client made from channels uses those channels, the given sequence width and the standard error path.",
  ["inputs", "schedules", "fault_sequences"], "all messages, headers, key widths, buffer sizes, channel fill levels, cancellation points and stop points",
  "The tests use the channels only as plumbing for a few short exchanges; full channels, stop signals, oversized messages and dropped futures are not sampled.",
  ["server/impls/test_channels.rs", "host_client/test_channels.rs", "host_client/util.rs", "header.rs"], [("ChannelWireTx::{inner_send, send, send_raw, send_log_str, send_log_fmt}, ChannelWireRx::receive, new_server, new_server_stoppable", "server/impls/test_channels.rs"), ("ChannelTx::send, ChannelRx::receive, new_from_channels", "host_client/test_channels.rs")], ["channel items, results"]),
P("C22", "Declared endpoint and topic tables contain exactly what was declared",
  "A declared endpoint or topic has the path given (its own name if none was given), the request, response or message types given, and keys that are the keys of exactly those types at that path. A declared table lists, in order, the standard entries of its kind and direction (unless these are omitted) followed by the declared rows whose condition is enabled, each with its own path and keys, and has the declared direction; its type list names every non-built-in type reachable from the listed entries' types exactly once, and nothing else. A device description built from tables has exactly their entries and the union of their types. The standard tables keep their published paths and types: ping and schema request endpoints, schema data and log topics to the client, none to the server, and the error path.",
  ["inputs", "configurations"], "every table of every length with every mix of types, lifetimes, conditions, directions and omit_std settings",
  "Tests declare a few small tables and look at a few entries; the guarantee is over every declaration.",
  ["macros.rs", "standard_icd.rs", "uniques.rs", "server/dispatch_macro.rs"], [("endpoint!, endpoints!, topic!, topics!, concat_arrays!", "macros.rs"), ("STANDARD_ICD_ENDPOINTS, STANDARD_ICD_TOPICS_IN, STANDARD_ICD_TOPICS_OUT, ERROR_KEY", "standard_icd.rs"), ("total_len, combine_with_copy, merge_nty_lists, cruncher", "uniques.rs"), ("App::new device_map", "server/dispatch_macro.rs")], ["table constants, keys, device map"]),
]
if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(p, "w") as f:
        for x in PS: f.write(json.dumps(x) + "\n")
