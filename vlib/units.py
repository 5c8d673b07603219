"""Extraction units: which real source text each Verus run is generated from."""
import os, re, glob, run, appsrc, pre
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = V + "/contracts/"
LE = [(r"\.to_le_bytes\(", ".vx_to_le_bytes("), (r"\b(u16|u32)::from_le_bytes\(", r"vx_\1_from_le_bytes(")]
POS = (r"(\w+)\.iter\(\)\s*\.position\(\|&(\w+)\| ([^)]*)\)", r"vx_position(\1, |\2: u8| -> (b: bool) ensures b == (\3) { \3 })")
WIRE = dict(exclude=[r"trait .*", r"enum TopicDirection", r"struct (DeviceMap|EndpointMap|TopicMap)"], cfg={'feature="use-std"': True})
PANIC = (r"::core::panicking::panic_fmt\((?:[^()]|\([^()]*\))*\)", "return vx_panic()")
LG, SV = "Tracked(lg): Tracked<&mut TxLog>", "Tracked(sv): Tracked<&mut SvLog>"
SRV_FILES = ["lib.rs", "header.rs", dict(path="standard_icd.rs", select=[r"(struct|enum) \w+"]), dict(path="server/mod.rs", rewrite=[(r"\.into\(\)", ".vx_into()")])]
SERVER = dict(exclude=[r"struct (EndpointMap|TopicMap)", r"const (Endpoint|Topic)::.*[124]", r"trait WireSpawn", r"fn min_key_needed", r"fn WireTx::send_raw"],
              cfg={'feature="use-std"': True, 'not(feature="use-std")': False}, for_slices=True,
              item_attrs=dict(Server="#[verifier::reject_recursive_types(Tx)]\n"), no_derive=dict(OwnedSchemaData=("PartialEq", "Clone")),
              thread=dict([(n, (LG, "Tracked(lg)")) for n in ("send", "send_log_str", "send_log_fmt", "reply", "reply_keyed", "publish", "log_str", "log_fmt", "error", "send_all_schemas",
                                                              "h_ep_b", "h_ep_a", "h_tp_b", "h_tp_a", "spawn_it")]
                          + [(n, (SV, "Tracked(sv)")) for n in ("receive", "run", "handle")]),
              rewrite=LE + [(r"\bcrate::(standard_icd::)?", ""), (r"\bERROR_KEY\b", "vx_error_key()"), (r"DerefMut<Target = \[u8\]>", "VxBuf"), (r"\.receive\(buf\b", ".receive(buf.vx_deref_mut()")])
LK = ("vx_locked: &mut EUsbWireTxInner<D>", "")
def usb(v):
    return dict(rlimit=240, contracts=[C + "wire.rs", C + "usb.rs", C + "usb%d.rs" % v, C + "usblog.rs"], cancel=True, for_slices=True, cfg={'feature="use-std"': True, 'feature="test-utils"': False},
        exclude=[r"const (Endpoint)::.*[124]", r"struct (EndpointMap|TopicMap|DeviceMap)", r"type <EUsb\w+ as .*", r"impl Clone for EUsbWireTx<.*"],
        files=["lib.rs", "header.rs", dict(path="server/mod.rs", select=[r"enum Wire[TR]xErrorKind"]),
               dict(path="server/impls/embassy_usb_v0_%d.rs" % v, select=[r"struct EUsbWire(TxInner|Tx|Rx)", r"impl (WireTx for )?EUsbWireTx.*", r"impl WireRx for EUsbWireRx.*", r"fn (send_all|varint_max|varint_usize|actual_varint_max_len)", r"struct SliceWriter", r"impl .*SliceWriter.*"])],
        no_derive=dict(EUsbWireTx=("Copy",)),
        thread=dict((n, LK) for n in ("send", "send_raw", "send_log_str", "send_log_fmt", "set_timeout_ms_per_frame")),
        rewrite=LE + [(r"\bcrate::", ""), (r"let mut (inner|guard) = self\.inner\.lock\(\)\?;", r"let \1 = vx_locked;"), (r"(EUsbWireTxInner<D>) = &mut inner;", r"\1 = inner;"),
                      (r"const TOPIC_KEY: Key;", "spec fn topic_key() -> Key; fn TOPIC_KEY() -> (r: Key) ensures r == Self::topic_key();"),
                      (r"const TOPIC_KEY([124]): Key\d = ([^;]*);", r"fn TOPIC_KEY\1() -> (r: Key\1) ensures kbytes(VarKey::Key\1(r)) == compact(Self::topic_key().0@, \1) { \2 }"),
                      (r"\b(Self|LoggingTopic)::(TOPIC_KEY\d?)\b", r"\1::\2()"),
                      (r"\.map_err\(\|_\| ([\w:]+)\)", r".vx_map_err(\1)"), (r"postcard::to_slice\b", "vx_to_slice"),
                      (r"impl(<[^{]*?>) Wire[TR]x for ", r"impl\1 "),
                      (r"(\w+)\.chunks\((\d+)\)", r"vx_chunks(\1, \2)"), (r"\bselect\(", "vx_select("), (r"core::mem::take\(", "vx_take("), (r"core::fmt::write\(", "vx_fmt_write("), (r"core::fmt::Error", "FmtError"), (r"core::fmt::Write for ", ""),
                      (r"([\w.\[\]]+)\.iter_mut\(\)\.for_each\(\|(\w+)\| \*\2 = ([^)]+)\)", r"vx_fill(vx_mut!(\1), \3)"), (r"vx_mut!\((\w+)\)", r"\1"), (r"vx_mut!\(([^)]*)\)", r"&mut \1"),
                      (r"\[u8; varint_max::<usize>\(\)\]", "[u8; 10]"), (r"\[0u8; varint_max::<usize>\(\)\]", "[0u8; 10]"), (r"debug_assert_eq!\(", "vx_assert_eq(")])
def usbinit(v):
    """the constructors of the embassy-usb transports"""
    return dict(contracts=[C + "usbinit.rs", C + "usbinit%d.rs" % v], exclude=[r"fn WireStorage::new"], files=[dict(path="server/impls/embassy_usb_v0_%d.rs" % v, select=[r"struct EUsbWire(TxInner|Tx|Rx)", r"const DEFAULT_TIMEOUT_MS_PER_FRAME", r"(struct dispatch_impl::WireStorage|impl dispatch_impl::WireStorage.*|type dispatch_impl::Wire[TR]xImpl)"])],
        no_derive=dict(EUsbWireTx=("Copy",)),
        rewrite=[(r"\bsuper::(EUsb\w+)", r"\1"), (r"\b(?:super::)?HDLR\.take\(\)", "vx_handler()"), (r"(?:super::)?STINDX\s*\.store\([^;]*;", ""), (r"(Builder|UsbDevice)<'static, D>", r"\1<D>"), (r"\bConfig<'static>", "Config"),
                 (r"&mut bufs\.config_descriptor,\s*&mut bufs\.bos_descriptor,\s*&mut bufs\.msos_descriptor,\s*&mut bufs\.control_buf,?", "&mut bufs"), (r"let bufs = ", "let mut bufs = "),
                 (r"\.msos_(?:descriptor|feature)\((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*\)", ".vx_msos()"), (r"(const \w+: usize) = \d+,", r"\1,")])
FUT = [(r"impl Future<Output = (.*?)> \+ Send\b", r"Result<\1, Cancelled>"), (r"impl Wire[TR]x for ", "impl ")]
def schema_src():
    """postcard-schema's schema types, at the version the repository locks"""
    v = re.search(r'name = "postcard-schema"\s*version = "([^"]*)"', open(V + "/vlib/Cargo.lock.base").read()).group(1)
    return glob.glob(os.path.expanduser("~/.cargo/registry/src/*/postcard-schema-%s/src/schema/mod.rs" % v))[0]
CL, SB = "Tracked(lg): Tracked<&mut CLog>", "subs: &mut Subscriptions, Tracked(lg): Tracked<&mut CLog>"
SUBFNS = ("subscribe_multi", "subscribe_multi_raw", "subscribe", "subscribe_raw", "subscribe_exclusive", "subscribe_exclusive_raw", "subscribe_multi_inner", "subscribe_multi_inner_raw", "subscribe_inner", "subscribe_inner_raw", "subscribe_inner_exclusive", "subscribe_inner_exclusive_raw")
CH = "Tracked(lg): Tracked<&mut ChLog>"
CHAN = dict(contracts=[C + "wire.rs", C + "channels.rs"], item_attrs=dict(Server="#[verifier::reject_recursive_types(Tx)]\n"), cancel=True, pre=pre.CHAN, cfg={'feature="use-std"': True, "test": False},
    exclude=[r"const (Endpoint)::.*[124]", r"struct (EndpointMap|TopicMap|DeviceMap)", r"enum TopicDirection", r"type <Channel\w+ as .*", r"fn Server::(?!new).*"],
    files=["lib.rs", "header.rs", dict(path="host_client/util.rs", select=[r"struct Stopper", r"impl Stopper"]), dict(path="server/mod.rs", select=[r"enum Wire[TR]xErrorKind", r"struct (Sender|Server)", r"impl .*Server < .*"]),
           dict(path="server/impls/test_channels.rs", select=[r"struct .*", r"enum .*", r"impl (?!WireSpawn).*", r"fn dispatch_impl::.*", r"type dispatch_impl::.*", r"struct dispatch_impl::.*"]), dict(path="host_client/test_channels.rs", select=[r"struct .*", r"enum .*", r"impl Wire[TR]x for .*", r"fn .*"])],
    no_derive=dict(Stopper=("Clone",), ChannelWireTx=("Clone",), WireTxErrorKind=("PartialEq",), WireRxErrorKind=("PartialEq",)),
    thread=dict((n, (CH, "Tracked(lg)")) for n in ("send", "send_raw", "send_log_str", "send_log_fmt", "inner_send", "wait_stopped", "wait", "recv", "receive", "fetch_add", "vx_race", "vx_raced", "new_from_channels", "new_with_wire")),
    rewrite=LE + [(r"\bcrate::(header::|host_client::|server::)?", ""), (r"\bserde::Serialize", "Serialize"), (r"postcard::to_stdvec\(&?(\w+)\)\s*\.unwrap\(\)", r"vx_encode(&\1)"), (r"vx_encode\(&msg\);\s*hdr_ser", "vx_encode(msg); hdr_ser"),
                  (r"\b(\w+)\.to_string\(\)", r"vx_string(\1)"), (r'format!\("\{(\w+)\}"\)', r"vx_format(\1)"), (r'format!\("\{\}", (\w+)\)', r"vx_format(\1)"), (r"\b(\w+)\.to_vec\(\)", r"vx_to_vec(\1)"), (r"\bmpsc::(Sender|Receiver)", r"Mpsc\1"),
                  (r"const TOPIC_KEY: Key;", "spec fn topic_key() -> Key; fn TOPIC_KEY() -> (r: Key) ensures r == Self::topic_key();"),
                  (r"const TOPIC_KEY([124]): Key\d = ([^;]*);", r"fn TOPIC_KEY\1() -> (r: Key\1) ensures kbytes(VarKey::Key\1(r)) == compact(Self::topic_key().0@, \1) { \2 }"),
                  (r"\b(Self|LoggingTopic)::(TOPIC_KEY\d?)\b", r"\1::\2()"), (r"(\w+)\s*\.get_mut\(\.\.([^()]*(?:\(\))?)\)", r"vx_get_mut(\1, \2)"),
                  (r"\.map_err\(\|_\| ([\w:]+)\)", r".vx_map_err(\1)"), (r"impl(<[^{]*?>)? (As)?Wire[TR]x(ErrorKind)? for ", r"impl\1 "), (r"standard_icd::ERROR_PATH", "vx_error_path()"),
                  (r"super::Channel", "Channel"), (r"DerefMut<Target = \[u8\]>", "VxBuf"), (r"Box<\[u8\]>", "Vec<u8>"), (r"(\w+)\.into_boxed_slice\(\)", r"\1"), (r"vec!\[0; ([\w.]+)\]", r"vx_zeros(\1)")])
UNITS = {
    "channels": CHAN,
    "client": dict(WIRE, contracts=[C + "wire.rs", C + "client.rs"], cancel=True, q_into="vx_into", pre=pre.CLIENT,
                   files=["lib.rs", "header.rs", dict(path="host_client/util.rs", select=[r"struct (Subscriptions|Stopper|HostClientConfig)", r"impl Stopper", r"impl HostClient.*", r"fn (in|out)_worker(_inner)?"]),
                          dict(path="host_client/mod.rs", select=[r"enum (HostErr|SubscribeError|ProcessError|MultiSubRxError)", r"struct (HostClient|RawSubscription|Subscription|RawMultiSubscription|MultiSubscription|WireContext|RpcFrame|HostContext|IoClosed)",
                                                                  r"impl From < (postcard :: Error|WaitError) > for HostErr.*", r"impl (Clone for HostClient.*|HostClient.*|RawSubscription|Subscription.*|RawMultiSubscription|MultiSubscription.*|RpcFrame|HostContext)"])],
                   exclude=WIRE["exclude"] + [r"fn HostClient::get_schema_report"], no_derive=dict([(n, ("PartialEq", "Clone", "Copy")) for n in ("HostErr", "MultiSubRxError", "ProcessError", "RpcFrame")] + [("Stopper", ("Clone",)), ("VarKeyKind", ("PartialEq", "Eq"))]),
                   thread=dict([(n, (CL, "Tracked(lg)")) for n in ("send_resp", "send_resp_raw", "publish", "publish_raw", "wait_stopped", "is_stopped", "stop", "close", "is_closed", "wait_closed", "wait", "enqueue", "vx_wait", "send", "try_send", "recv", "wake",
                                                                   "fetch_add", "new_with_wire", "new_with_wire_and_config", "vx_sleep", "vx_race", "vx_raced", "sleep", "process_did_wake", "process", "out_worker", "out_worker_inner")] + [(n, (SB, "subs, Tracked(lg)")) for n in SUBFNS + ("in_worker", "in_worker_inner")] + [("receive", ("subs: &Subscriptions, " + CL, "subs, Tracked(lg)"))]),
                   rewrite=LE + [(r"let mut (\w+) = (?:self\.)?subscriptions\.lock\(\)\?;", r"vx_lock(subs, Tracked(lg))?; let \1 = &mut *subs;"), (r"Arc<Mutex<Subscriptions>>", "SubsRef"), (r"Arc::new\(Mutex::new\(Subscriptions::default\(\)\)\)", "vx_subs()"), (r"sp\.spawn\(\s*out_worker\(([^;]*?),?\s*Tracked\(lg\)\)\);", r"sp.vx_spawn_out(\1, Tracked(lg));"), (r"sp\.spawn\(\s*in_worker\(([^;]*?),?\s*subs, Tracked\(lg\)\)\);", r"sp.vx_spawn_in(\1, Tracked(lg));"), (r"Duration::ZERO", "vx_zero()"),
                                 (r"\*self\.ctx\.kkind\.read\(\)\.unwrap\(\)", "self.ctx.kkind.vx_read(Tracked(lg))"), (r"\*self\.ctx\.kkind\.write\(\)\.unwrap\(\) = ([^;]*);", r"self.ctx.kkind.vx_write(\1, Tracked(lg));"),
                                 (r"(?:tokio::sync::)?mpsc::channel", "mpsc_channel"), (r"broadcast::channel", "broadcast_channel"), (r"\bmpsc::(Sender|Receiver)", r"Mpsc\1"), (r"\bbroadcast::(Sender|Receiver)", r"Bc\1"), (r"mpsc::error::", ""), (r"broadcast::error::SendError", "SendErr"), (r"broadcast::error::", ""),
                                 (r"PhantomData<fn\(\) -> WireErr>", "PhantomData<WireErr>"), (r"\b(T|E)::(TOPIC_KEY|REQ_KEY|RESP_KEY)\b", r"\1::\2()"), (r"\.map_err\(\|_\| ([\w:]+)\)", r".vx_map_err(\1)"),
                                 (r"postcard::to_stdvec\(&?(\w+)\)\s*\.expect\(\"[^\"]*\"\)", r"vx_encode(\1)"), (r"postcard::from_bytes", "vx_decode"), (r"postcard::Error", "PostcardError"), (r"tokio::time::sleep", "vx_sleep"), (r"\b(\w+)\.to_vec\(\)", r"vx_to_vec(\1)"), (r"take_from_slice\(&(\w+)\)", r"take_from_slice(\1.as_slice())"),
                                 (r"\(_: WaitError\)", "(_e: WaitError)"), (r"\.subscribe\(subs, Tracked\(lg\)\)", ".vx_subscribe()")]),
    "uniques": dict(contracts=[C + "uniques_spec.rs", C + "uniques.rs"], files=[dict(path=schema_src(), select=[r"(struct|enum) (Named|DataModel).*"]), dict(path="uniques.rs", select=[r"fn (is_prim|.*_eq|unique_types_.*|type_chewer_.*|cruncher|merge_nty_lists|total_len|combine_with_copy)"])],
                    exclude=[r"mod test"], no_derive=dict((n, ("PartialEq", "Eq", "Clone", "Copy")) for n in ("NamedType", "DataModelType", "DataModelVariant", "NamedValue", "NamedVariant")),
                    rewrite=[(r"\bpanic!\(\)", "vx_panic(); return vx_any()"), (r"found \|= ([^;]*);", r"let __e = \1; found = found || __e;"), (r"<\(\) as Schema>::SCHEMA", "vx_unit_schema()"), (r"assert!\(([^;]*)\);", r"if !(\1) { vx_panic(); }"),
                             (r"\b([ab])\.as_bytes\(\)", r"vx_bytes(\1)")]),
    "tables": dict(contracts=[C + "uniques_spec.rs", C + "tables.rs"], files=[dict(path=schema_src(), select=[r"(struct|enum) (Named|DataModel).*"]), dict(path="lib.rs", select=[r"enum TopicDirection", r"struct (EndpointMap|TopicMap|DeviceMap)"]),
                                                                            dict(path="macros.rs", expand=appsrc.app_tables)],
                   no_derive=dict([(n, ("PartialEq", "Eq", "Clone", "Copy")) for n in ("NamedType", "DataModelType", "DataModelVariant", "NamedValue", "NamedVariant")] + [(n, ("Debug", "PartialEq", "Clone", "Copy", "Serialize", "Deserialize", "Schema")) for n in ("TopicDirection", "EndpointMap", "TopicMap", "DeviceMap")])),
    "nusb": dict(contracts=C + "nusb.rs", cancel=True, pre=pre.NUSB, files=[dict(path="host_client/raw_nusb.rs", select=[r"const (MAX_TRANSFER_SIZE|IN_FLIGHT_REQS|MAX_STALL_RETRIES)", r"struct NusbWire[TR]x", r"enum NusbWire[TR]xError", r"impl (Wire[TR]x for )?NusbWire[TR]x", r"impl HostClient.*"])], exclude=[r"type <.*", r"fn HostClient::(?!try_).*"], for_slices=True,
                 rewrite=[(r"vec!\[\]", "Vec::new()"), (r"where\s+WireErr: DeserializeOwned \+ Schema,", ""), (r"\bformat!\((?:[^()]|\([^()]*\))*\)", "vx_format()"), (r'\.ok_or\("[^"]*"\)', ".ok_or(vx_format())"), (r'String::from\("[^"]*"\)', "vx_format()"), (r"\bnusb::list_devices\(\)", "vx_list_devices()"),
                          (r"\.(position|find)\(\|(\w+)\|\s*([^|{}\n]*)\)(?=\s*\n)", r".\1(|\2| -> (vx_r: bool) ensures vx_r == (\3) { \3 })")] + FUT),
    "usb3": usb(3), "usb4": usb(4), "usbinit3": usbinit(3), "usbinit4": usbinit(4),
    "serial": dict(contracts=[C + "acc.rs", C + "serial.rs"], cancel=True, q_into=True, files=["accumulator.rs", dict(path="host_client/serial.rs", select=[r"struct SerialWire[TR]x", r"enum SerialWire[TR]xError", r"impl (Wire[TR]x for )?SerialWire[TR]x", r"impl HostClient.*"])], exclude=[r"type <.*", r"fn HostClient::new_serial_cobs"],
                   rewrite=[POS, (r"Box<(\[u8; 1024\]|CobsAccumulator<1024>)>", r"\1"), (r"(Read|Write)Half<SerialStream>", r"\1Half"), (r"\btokio_serial::new\(", "vx_serial_new("), (r"\btokio::io::split\(", "vx_split("), (r"\bBox::new\((\[0u8; 1024\]|CobsAccumulator::new\(\))\)", r"\1"), (r"\bformat!\((?:[^()]|\([^()]*\))*\)", "vx_format()"), (r"where\s+WireErr: DeserializeOwned \+ Schema,", ""), (r"\bstd::io::Error::from\(std::io::ErrorKind::UnexpectedEof\)", "vx_eof()"), (r"\bstd::io::Error\b", "IoError"),
                            (r"\bself\.buf\.as_mut_slice\(\)", "vx_as_mut(&mut self.buf)"), (r"\b(\w+)\.to_vec\(\)", r"vx_to_vec(\1)")] + FUT),
    "report": dict(contracts=C + "report.rs", for_slices=True, for_vecs=("data", "e_and_t"), thread=dict((n, ("Tracked(lg): Tracked<&mut RptLog>", "Tracked(lg)")) for n in ("get_schema_report", "send_resp", "vx_recv_timeout")),
                   files=[dict(path="lib.rs", select=[r"enum TopicDirection"]), dict(path="standard_icd.rs", select=[r"enum OwnedSchemaData", r"struct SchemaTotals"]),
                          dict(path="host_client/mod.rs", select=[r"enum (HostErr|SchemaError)", r"impl From < UnableToFindType > for SchemaError.*", r"impl HostClient.*", r"struct (SchemaReport|TopicReport|EndpointReport|UnableToFindType)", r"impl (Default for )?SchemaReport"])],
                   exclude=[r"fn HostClient::(?!get_schema_report).*"], no_derive=dict((n, ("PartialEq", "Clone", "Copy")) for n in ("OwnedSchemaData", "SchemaReport", "TopicReport", "EndpointReport", "HostErr", "TopicDirection", "SchemaTotals")),
                   rewrite=[(r"\bOwnedNamedType::from\(\s*<(.+?) as Schema>::SCHEMA,?\s*\)", r"vx_owned::<\1>()"), (r"\btypes: (?:Default|HashSet)::default\(\)", "types: HashSet::new()"), (r"\b(topics_in|topics_out|endpoints): (?:Default|Vec)::default\(\)", r"\1: Vec::new()"), (r"self\.types\.iter\(\)", "self.types.vx_items()"), (r"= self\.types;", "= self.types.vx_items();"), (r"tokio::task::spawn\(\{\s*async move \{", "vx_spawn({ {"), (r"tokio::time::timeout\([^,]*, sub\.recv\(\)\)", "vx_recv_timeout(&mut sub, Tracked(lg))"),
                            (r"\bvec!\[\]", "Vec::new()"), (r"unreachable!\(\)", "vx_unreachable()"), (r"data_matches &= ([^;]*);", r"data_matches = data_matches && (\1);"), (r"postcard::Error", "PostcardError"), (r"\(_: UnableToFindType\)", "(_e: UnableToFindType)")]),
    "acc": dict(contracts=C + "acc.rs", files=["accumulator.rs"], rewrite=[POS]),
    "sizer": dict(contracts=[C + "wire.rs", C + "keys.rs", C + "sizer.rs"], files=["lib.rs", "header.rs", dict(path="server/mod.rs", expand=run.expand_core, select=["fn server::min_key_needed"]),
                                                                                  dict(path="server/dispatch_macro.rs", expand=appsrc.app_sizer)],
                 exclude=[r"const (Endpoint|Topic)::.*[124]"], cfg={'feature="use-std"': True},
                 rewrite=[(r"\b(u16|u32|u64)::from_le_bytes\(", r"vx_\1_from_le_bytes("), (r"\.to_le_bytes\(", ".vx_to_le_bytes("), PANIC, (r"\bcrate::", ""), (r"\bERROR_KEY\b", "vx_error_key()")]),
    "server": dict(SERVER, contracts=[C + "wire.rs", C + "server.rs"], files=SRV_FILES),
    "dispatch": dict(SERVER, contracts=[C + "wire.rs", C + "server.rs", C + "dispatch.rs"], files=SRV_FILES + [dict(path="server/dispatch_macro.rs", expand=appsrc.app_impls)],
                     exclude=SERVER["exclude"] + [r"(struct|enum|impl) Server.*", r"trait Dispatch", r"trait WireRx"],
                     thread=dict(SERVER["thread"], handle=(LG, "Tracked(lg)")), skip_contracts=[r"Server::.*", r"Dispatch::.*", r"WireRx::.*"]),
    "wire": dict(WIRE, contracts=C + "wire.rs", files=["lib.rs", "header.rs"], rewrite=LE),
}
