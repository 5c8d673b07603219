"""Per property: owned obligations, native harness, Kani harness, level, assumptions."""
WIRE_T = ["postcard_schema::key::Key is an opaque 8-byte value (to_bytes/from_bytes are inverse)"]
DED = "deductive verification (Verus) of functions extracted from /repo on every run"
NAT = "; bounded native search on the compiled crate looks for the failing input"
HOOKS = dict(guard="none", enable="no hooks: /repo carries only fix: commits; the checks use the public API and mechanical extraction", source_commits=[])
NA = {}
PROPS = {
    "C01": dict(level="proof", technique=DED + NAT, note="All obligations of the header encoder/decoder discharged by Verus/Z3 for all inputs; a Kani harness (all headers, buffers of up to 16 bytes) as cross-check. Trusts Verus, the extractor and Key as an opaque 8-byte value.",
                theorems=["thm_c01_self_delimiting", "thm_c01_round_trip"],
                verus=[("wire", [r"VarHeader::(write_to_vec|write_to_slice|take_from_slice)", r"Key[124]::to_bytes"])], native=["core"], kani=("wire", ["c01", "c01v"], False), trusted=WIRE_T),
    "C02": dict(level="proof", technique=DED + NAT, note="The decoder's contract is an exact characterisation of accepted byte strings, discharged for all lengths. Trusts Verus, the extractor and Key as an opaque 8-byte value.",
                theorems=["thm_c02_strict"],
                verus=[("wire", [r"VarHeader::take_from_slice"])], native=["core"], kani=("wire", ["c02"], False), trusted=WIRE_T),
    "C03": dict(level="proof", technique=DED + NAT, note="Shortening and comparison contracts discharged for all keys and width pairs. Trusts Verus, the extractor and Key as an opaque 8-byte value.",
                theorems=["thm_c03_coherent", "thm_c03_equality", "thm_c03_shrink_matches"],
                verus=[("wire", [r"Key[124]::.*", r"<Key[124]? as .*", r"<VarKey as PartialEq>::eq", r"VarKey::.*"])], native=["core"], kani=("wire", ["c03"], True), trusted=WIRE_T),
    "C04": dict(level="proof", technique=DED + NAT, note="Sequence comparison and resizing contracts discharged for all values and widths. Trusts Verus and the extractor.",
                theorems=["thm_c04_resize"],
                verus=[("wire", [r"VarSeq::.*", r"<VarSeq as .*"])], native=["core"], kani=("wire", ["c04"], True), trusted=WIRE_T),
    "C11": dict(level="proof", technique=DED + NAT, note="feed/feed_ref/extend_unchecked discharged for every input, state and buffer size; three lemmas carry the induction over any chunking. Assumes only the cobs crate's decode_in_place (deterministic, in place) and that slices are at most isize::MAX bytes.",
                theorems=["thm_c11_fitting_frame_is_yielded", "thm_c11_long_frame_is_dropped", "thm_c11_partial_frame_is_kept"],
                verus=[("acc", [r"CobsAccumulator::.*"])], native=["core"], trusted=["cobs::decode_in_place decodes a zero-terminated frame in place, deterministically, without touching anything else"]),
}
SRV_T = ["the WireTx/WireRx/Dispatch trait contracts: one recorded send per WireTx::send call, one recorded receive per WireRx::receive call, one recorded handle per Dispatch::handle call",
         "postcard serialization/deserialization and Key hashing are uninterpreted functions of the value", "async/.await are dropped: the extracted functions run sequentially, as one task polls them"]
PROPS.update({
    "C05": dict(level="proof", consts=True, neg=True, technique=DED + NAT, note="min_key_needed (macro-expanded by rustc on every run) is proved to return the smallest collision-free width for arbitrary key lists, and the sizer constants of an expanded sample application are proved to apply it to the tables and keys used for dispatch. Assumes u64-sized lists fit in memory; the sample app stands for every define_dispatch! use.",
                verus=[("sizer", [r"min_key_needed.*", r"a_is_subset_of_b", r"(EP|TP)_.*", r"NEEDED_SZ.*", r"DEVICE_MAP", r"APP_WIDTH", r"Key[124]::from_key8"])], native=["core"], trusted=WIRE_T),
    "C06": dict(level="proof", technique=DED + NAT, note="Server::run discharged against an event-log invariant for every receive history; three lemmas turn the invariant into exactly-once, in-order dispatch. The WireRx/Dispatch trait contracts (each call recorded once) are assumed; async is treated as sequential.",
                theorems=["thm_c06_exactly_once_in_order", "thm_c06_pair", "thm_c06_at_exit"],
                verus=[("server", [r"Server::.*", r"VarHeader::take_from_slice", r"<Wire[TR]xErrorKind as .*"])], native=["core"], trusted=WIRE_T + SRV_T),
    "C07": dict(level="proof", technique=DED + NAT, note="The handle function that define_dispatch! generates (expanded by rustc from the real macro on every run, for a sample app with every handler flavour at all four key widths) is proved for every header and body with symbolic keys. Generalisation from the sample app to every app is by uniformity of the macro, not proved; handlers and postcard are assumed.",
                verus=[("dispatch", [r"App\d::.*", r"Sender::.*", r"<VarKey as .*", r"Key[124]::.*", r"<&?Key[124]? as .*"])], native=["core"], trusted=WIRE_T + SRV_T),
    "C08": dict(level="proof", technique=DED + NAT, note="Sender::{reply,reply_keyed,publish,error,log_str,log_fmt,send_all_schemas} discharged against a log of transmitted frames for all keys, seqs and bodies; send_all_schemas assumes at most 65535 schema messages. The WireTx trait contract is assumed.",
                verus=[("server", [r"Sender::.*", r"VarKey::shrink_to"])], native=["core"], trusted=WIRE_T + SRV_T),
})
USB_T = ["the endpoint contracts: one recorded packet per EndpointIn::write call, sent, failed or (when the future is dropped) stuck; one packet of at most 64 bytes per EndpointOut::read call, refused with BufferOverflow only when less than 64 bytes are left",
         "embassy-usb's builder: endpoint_bulk_in/out(n) give bulk endpoints with packets of n bytes", "embassy select: either the first future ran to completion or it was dropped at some suspension point", "the mutex gives exclusive access; lock() is replaced by a &mut parameter carrying the lock invariant",
         "postcard::to_slice writes the encoding of the value at the start of the buffer or reports that it does not fit", "tx buffers and messages of at most 4 MiB (frame * timeout product), usize of 8 bytes",
         "async fns are verified as functions that may stop at any .await (cancellation is a result)"]
FMT_T = ["core::fmt::write hands the text to the writer piece by piece, stops at the first error, and may fail by itself", "usize::to_le_bytes()[0] is the value modulo 256", "str::len is as_bytes().len()"]
def both(pats): return [("usb3", pats), ("usb4", pats), ("usbinit3", [r"WireStorage::init.*"]), ("usbinit4", [r"WireStorage::init.*"])]
PROPS.update({
    "C09": dict(level="proof", technique=DED + NAT, note="send_all and its timed future, send and send_raw of both embassy-usb servers discharged against a log of packets handed to the endpoint, for every message, packet outcome, timeout and cancellation point; the constructors (init, init_without_build, init_poststation) establish the state these start from; two lemmas over the log show that a host reassembling packets receives exactly the messages whose send succeeded and never a joined message.",
                theorems=["thm_c09_received_exactly", "thm_c09_never_joined"],
                verus=both([r"send_all.*", r"<EUsbWireTx as WireTx>::send", r"<EUsbWireTx as WireTx>::send_raw", r"EUsbWireTx::.*", r"VarHeader::write_to_slice"]), native=["usb"], trusted=WIRE_T + USB_T),
    "C10": dict(level="proof", technique=DED + NAT, note="receive of both embassy-usb servers discharged against a log of packets read from the endpoint, for every packet sequence, buffer size and error: exactly the packets of one message are consumed and their concatenation, or a size error, is returned.",
                theorems=["thm_c10_one_message_per_receive"],
                verus=both([r"<EUsbWireRx as WireRx>::receive"]), native=["usb"], trusted=USB_T),
    "C12": dict(level="proof", technique=DED + NAT, note="SliceWriter::write_str, varint_usize, actual_varint_max_len, send_log_str and send_log_fmt of both embassy-usb servers discharged for every text, piece split and buffer size: header, a length field that decodes to the body length, and a valid UTF-8 body that is the text, or the text cut at a character and dotted.",
                verus=both([r"<SliceWriter.*", r".*varint.*", r".*send_log_.*", r"VarHeader::write_to_slice"]), native=["usb"], trusted=WIRE_T + USB_T + FMT_T),
})
PROPS.update({
    "C19": dict(level="proof", technique=DED + NAT, note="SerialWireTx::send and SerialWireRx::receive (with the accumulator they use) discharged against the whole byte history of the port: what has been handed out and queued is exactly what the bytes read so far deliver, for every split into reads, every error and every cancellation point; lemmas derive the round trip and that damage is local.",
                theorems=["thm_c19_start", "thm_c19_round_trip", "thm_c19_damage_is_local"],
                verus=[("serial", [r".*SerialWire[TR]x.*", r"CobsAccumulator::.*", r"HostClient::try_new_serial_cobs"])], native=["core"],
                trusted=["tokio's read/write_all on the port halves: read appends the bytes it returns to the history and returns 0 only at end of file, write_all writes all bytes or a prefix and an error",
                         "the cobs crate: encode_vec has no zero byte, decode_in_place inverts it and is deterministic", "async fns are verified as functions that may stop at any .await (cancellation is a result)",
                         "Box is dropped from two field types (ownership only)", "a port that was just opened and split has neither been read from nor written to; the client made from the two halves drives them only through send and receive"]),
    "C20": dict(level="proof", technique=DED + NAT, note="NusbWireTx::send and NusbWireRx::receive discharged against the event history of the transfer queue: transfers submitted, delivered frames, error count, drain and halt state, for every completion outcome and cancellation point, including termination of the retry loop; the constructors try_new_raw_nusb, try_new_raw_nusb_with_interface and try_from_nusb_and_interface for every list of devices, interfaces and endpoints.",
                theorems=["thm_c20_in_order"],
                verus=[("nusb", [r".*NusbWire[TR]x.*", r"HostClient::try_(from|new_raw)_nusb.*"])], native=["nusb"],
                trusted=["nusb's Queue: one event per submit/next_complete/cancel_all/clear_halt, pending() counts transfers in flight, next_complete needs one in flight", "thiserror's generated From<TransferError>", "a bulk endpoint's packet size is not zero", "device, interface and endpoint descriptors are what nusb reports; queues belong to the endpoint they are made for", "the client made from the two halves drives them only through send and receive",
                         "async fns are verified as functions that may stop at any .await (cancellation is a result)"]),
})
PROPS.update({
    "C18": dict(level="proof", technique=DED + NAT, note="SchemaReport::{add_type,add_topic_in,add_topic_out,add_endpoint} and HostClient::get_schema_report discharged for every message stream and every set of totals: a report is returned only if every announced key has a received (or built-in) type with that key at that path and all totals agree, and then it lists exactly what was announced, in order. The report starts from exactly the 18 built-in types (SchemaReport::default).",
                theorems=["thm_c18_no_wrong_report"],
                verus=[("report", [r"SchemaReport::.*", r"<SchemaReport.*", r"HostClient::get_schema_report", r"<SchemaError.*"])], native=["core"],
                trusted=["subscribe_multi/send_resp/recv: each received schema message is recorded in order, the reply gives the device's totals (C13, C15 are about them)", "tokio::task::spawn hands back the task's output or an error", "HashSet insert and iteration over exactly its elements; derived PartialEq/Clone",
                         "Key::for_owned_schema_path is a function of path and type", "the collect task is run before the request in the sequential reading; only the set of received messages matters to the contract", "the schemas of the built-in types are symbolic"]),
})
PROPS.update({
    "C17": dict(level="proof", consts=True, technique=DED + NAT, note="The whole of uniques.rs outside its macros (structural comparison, upper bound, collection, reduction, merging, total_len, combine_with_copy) discharged for every schema of any shape, depth and size: comparison decides equality of the described types, the collected list has exactly the reachable non-built-in types, each once, in the first `used` slots, within the computed bound, so no index or panic is reached. unique_types!/merge_unique_types! only chain these functions at compile time (covered by the native search).",
                theorems=["thm_c17_exact"],
                verus=[("uniques", [r".*_eq", r"is_prim", r"unique_types_.*", r"type_chewer_.*", r"cruncher", r"merge_nty_lists", r"total_len", r"combine_with_copy"])], native=["core"],
                trusted=["the schema datatypes are taken from the pinned postcard-schema source", "str::as_bytes is a function of the string", "the computed bound fits in usize (otherwise the const evaluation does not compile)", "static schema references cannot form a cycle (const evaluation would not terminate)"]),
})
PROPS.update({
    "C22": dict(level="proof", consts=True, technique=DED + NAT, note="The table macros (endpoint!, endpoints!, topic!, topics!, concat_arrays!, and the device description of define_dispatch!) are expanded by rustc on every run for a set of sample tables covering every form they accept, and for standard_icd.rs; every generated path, key, row list, direction and type list is proved equal to the declaration, with schemas and keys symbolic, over the contracts of uniques.rs (proved in the uniques unit). Generalisation from the sample tables to every table is by uniformity of the macros, not proved.",
                verus=[("tables", [r".*"]), ("uniques", [r"total_len", r"combine_with_copy", r"cruncher", r"merge_nty_lists", r"type_chewer_.*", r"unique_types_.*"])], native=["core"],
                trusted=["Key::for_path is a function of path and schema, Schema::SCHEMA a function of the type", "stand-ins for the functions of uniques.rs that take their const generic length as an argument, with the contracts proved in the uniques unit", "the lengths of const lists fit in usize (otherwise the const evaluation does not compile)",
                         "the sample tables stand for every use of the macros", "a const item is evaluated once, and every mention of it is the same value"]),
})
CLI_T = ["maitake-sync's WaitMap: wait/enqueue registers a header or refuses a duplicate, a waiter resolves only with a value woken under an equal header (Hash and Eq of VarHeader agree: C02), or with Closed; Stopper's WaitQueue stays closed once closed and its wait() returns only then",
         "tokio channels: a sender and the receiver it was made with share one FIFO queue, try_send/send/recv report exactly what happened, a dropped send future sends nothing, broadcast receivers get every later message or a lag count",
         "tokio's select!: exactly one branch completes and the others are dropped at some await; the Mutex gives exclusive access (taking it yields lists left by any other task)", "RwLock and AtomicU32 are atomic; fetch_add returns each value once until it wraps",
         "postcard's encoding and decoding are functions of value and bytes", "async fns are verified as functions that may stop at any .await (cancellation is a result); a future held in a variable runs nothing before it is polled",
         "scheduling is fair: a ready task is eventually polled (only for 'nothing hangs')"]
CLI = lambda *r: [("client", list(r))]
WRK = [r"out_worker.*", r"in_worker.*"]
NEW = [r"HostClient::new_.*", r"<HostClient as Clone>::clone"]
PROPS.update({
    "C13": dict(level="proof", technique=DED + NAT, note="send_resp, send_resp_raw, HostContext::process*, both workers, construction and Clone of HostClient discharged for every reply, interleaving at awaits and drop point: one frame with the request key, body and a freshly drawn number, sent only after both waiters are registered; success only with the body of the frame woken under the response key and that number, a wire error only from one under the error key and that number. A lemma shows numbers less than one wrap apart differ.",
                theorems=["thm_c13_own_reply", "thm_c13_distinct"],
                verus=CLI(r"HostClient::send_resp.*", r"HostContext::.*", r"<HostErr.*", r"RpcFrame::to_bytes", *(WRK + NEW)), native=["core"], trusted=WIRE_T + CLI_T),
    "C14": dict(level="proof", technique=DED + NAT, note="Stopper, close/is_closed/wait_closed, both workers, send_resp*, publish*, subscribe* and *::recv discharged: Closed is returned only when closed and every operation that finds the client closed returns it; every wait that only the peer could end is raced against the stop signal; no worker touches the transport after an error, a worker that ends for any reason stops the client, and the input worker leaves the lists empty and marked, after which every subscribe is refused. That the awaits then really wake up (liveness of the runtime and of maitake/tokio) is assumed, and exercised by the bounded native search.",
                verus=CLI(r"Stopper::.*", r"HostClient::.*", r".*Subscription::recv", r"<HostErr.*", *(WRK + NEW)), native=["core"], trusted=WIRE_T + CLI_T),
    "C15": dict(level="proof", technique=DED + NAT, note="in_worker(_inner), all subscribe* functions and *::recv discharged for every frame sequence and every list content: a frame goes exactly once, whole, to the first entry for its key in each list and to nobody else, an entry is removed only when its receiver is gone, a message is dropped only when the queue is full (after the configured wait), undecodable messages are skipped in order; joining, replacing and refusing subscriptions change exactly the topic's entry.",
                verus=CLI(r"in_worker.*", r"HostClient::subscribe.*", r".*Subscription::recv", *NEW), native=["core"], trusted=WIRE_T + CLI_T),
    "C16": dict(level="proof", technique=DED + NAT, note="send_resp, send_resp_raw, publish, publish_raw, construction and Clone discharged: full keys and number zero at the start, the key at exactly the width last stored, the width of a differing reply stored, waiters at that same width, numbers wrapped at the configured width.",
                theorems=["thm_c13_distinct"],
                verus=CLI(r"HostClient::(send_resp|publish).*", r"RpcFrame::to_bytes", r"VarKey::(shrink_to|kind)", r"VarSeq::resize", r"out_worker.*", *NEW), native=["core"], trusted=WIRE_T + CLI_T),
})

PROPS.update({
    "C21": dict(level="proof", technique=DED + NAT, note="Both halves of the channel transport, the stop signal, the channel server constructors and the channel client constructor discharged against a log of channel items, for every message, width, fill level, cancellation and stop point. Trusts Verus, the extractor and the contracts of tokio's mpsc channel, maitake's WaitQueue, the atomic counter and the select! desugaring.",
                verus=[("channels", [r".*Channel.*", r"new_server.*", r"new_from_channels", r"Stopper::.*", r"Server::new", r"VarHeader::write_to_vec"])], native=["core"],
                trusted=WIRE_T + ["tokio mpsc: send waits for room and is refused only when the receiver is gone, nothing is sent by a dropped send; recv yields items in order and is cancel safe",
                                  "maitake WaitQueue: wait completes exactly when closed", "select!: one branch completes, the others are dropped at some suspension point", "postcard encoding, Display and String are functions of the value",
                                  "#[derive(Clone)] of ChannelWireTx clones each field (the shared counter's identity is exercised natively)", "tokio_spawn and the WireSpawn impls are not under contract"]),
})
