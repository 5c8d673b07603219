// =====================================================================
// Host USB unit: contracts for host_client/raw_nusb.rs
// =====================================================================

use vstd::std_specs::convert::FromSpecImpl;

// ----- cancellation: an async function may stop for good at any await (dropped future) -----
struct Cancelled;

// ----- dependency: nusb (stand-ins; only their names and the listed contracts are used) -----
#[derive(Clone, Copy)]
enum TransferError { Cancelled, Stall, Disconnected, Fault, Unknown }
#[derive(Clone, Copy)]
struct NusbError;
/// what happened on a queue, in order
ghost enum QEv { Submit(Seq<u8>), Done(Option<TransferError>, Seq<u8>), CancelAll, Clear(bool) }
trait Payload { spec fn pl(&self) -> Seq<u8>; }
impl Payload for Vec<u8> { spec fn pl(&self) -> Seq<u8> { self@ } }
struct RequestBuffer { n: usize }
impl RequestBuffer { fn new(n: usize) -> (r: RequestBuffer) { RequestBuffer { n } } }
impl Payload for RequestBuffer { spec fn pl(&self) -> Seq<u8> { Seq::empty() } }
struct Completion { data: Vec<u8>, status: Result<(), TransferError> }
struct Queue<T> { t: T }
impl<T: Payload> Queue<T> {
    uninterp spec fn log(&self) -> Seq<QEv>;
    #[verifier::external_body] fn pending(&self) -> (r: usize) ensures r == in_flight(self.log()) { unimplemented!() }
    /// transfers are not queued while the endpoint is halted
    #[verifier::external_body] fn submit(&mut self, data: T) requires !st(old(self).log()).halted ensures final(self).log() == old(self).log().push(QEv::Submit(data.pl())) { unimplemented!() }
    /// nusb panics when nothing is in flight
    #[verifier::external_body] fn next_complete(&mut self) -> (r: Result<Completion, Cancelled>)
        requires in_flight(old(self).log()) > 0
        ensures r matches Ok(c) ==> final(self).log() == old(self).log().push(QEv::Done(match c.status { Ok(_) => None, Err(e) => Some(e) }, c.data@)), r is Err ==> final(self).log() == old(self).log()
    { unimplemented!() }
    #[verifier::external_body] fn cancel_all(&mut self) ensures final(self).log() == old(self).log().push(QEv::CancelAll) { unimplemented!() }
    /// a halt is only cleared with nothing in flight
    #[verifier::external_body] fn clear_halt(&mut self) -> (r: Result<(), NusbError>) requires in_flight(old(self).log()) == 0 ensures final(self).log() == old(self).log().push(QEv::Clear(r is Ok)) { unimplemented!() }
}
impl<T: Payload> Queue<T> { /// the endpoint a queue was made for, and the interface it belongs to
    uninterp spec fn ep(&self) -> u8; uninterp spec fn of(&self) -> Interface; }
// ----- dependencies of the constructor: devices, interfaces and their endpoint descriptors; the client -----
#[verifier::external_body] fn vx_format() -> String { unimplemented!() }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
enum Direction { Out, In }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
enum EndpointType { Control, Isochronous, Bulk, Interrupt }
struct Endpoint { a: u8, d: Direction, t: EndpointType, m: usize }
impl Endpoint {
    fn address(&self) -> (r: u8) ensures r == self.a { self.a }
    fn direction(&self) -> (r: Direction) ensures r == self.d { self.d }
    fn transfer_type(&self) -> (r: EndpointType) ensures r == self.t { self.t }
    fn max_packet_size(&self) -> (r: usize) ensures r == self.m { self.m }
}
struct InterfaceAltSetting { eps: Vec<Endpoint> }
impl InterfaceAltSetting { fn endpoints(&self) -> (r: &[Endpoint]) ensures r@ == self.eps@ { self.eps.as_slice() } }
struct Interface { alts: Vec<InterfaceAltSetting> }
impl Interface {
    /// the settings of the interface; a bulk endpoint's packet size is not zero (USB)
    #[verifier::external_body] fn descriptors(&self) -> (r: &[InterfaceAltSetting]) ensures r@ == self.alts@, forall|k: int, j: int| #[trigger] bulk(*self, k, j, Direction::Out) ==> self.alts@[k].eps@[j].m > 0 { unimplemented!() }
    #[verifier::external_body] fn bulk_out_queue(&self, ep: u8) -> (r: Queue<Vec<u8>>) ensures r.ep() == ep, r.of() == *self, r.log().len() == 0 { unimplemented!() }
    #[verifier::external_body] fn bulk_in_queue(&self, ep: u8) -> (r: Queue<RequestBuffer>) ensures r.ep() == ep, r.of() == *self, r.log().len() == 0 { unimplemented!() }
}
// the devices plugged in (None: listing them fails), each with its interfaces
uninterp spec fn plugged() -> Option<Seq<DeviceInfo>>;
#[verifier::external_body] struct Devices { x: u8 }
#[verifier::external_body] fn vx_list_devices() -> (r: Result<Devices, NusbError>) ensures match r { Ok(d) => plugged() == Some(d.all()), Err(_) => plugged() is None } { unimplemented!() }
impl Devices {
    uninterp spec fn all(&self) -> Seq<DeviceInfo>;
    #[verifier::external_body] fn find<F: FnMut(&DeviceInfo) -> bool>(self, f: F) -> (r: Option<DeviceInfo>)
        requires forall|d: &DeviceInfo| f.requires((d,))
        ensures match r { Some(d) => first_dev(self.all(), f, d), None => no_dev(self.all(), f) } { unimplemented!() }
}
struct InterfaceInfo { c: u8, n: u8 }
impl InterfaceInfo {
    spec fn cls(&self) -> u8 { self.c }
    #[verifier::when_used_as_spec(cls)] fn class(&self) -> (r: u8) ensures r == self.cls() { self.c }
}
#[verifier::external_body] struct Interfaces<'a> { x: &'a u8 }
impl<'a> Interfaces<'a> {
    uninterp spec fn all(&self) -> Seq<InterfaceInfo>;
    #[verifier::external_body] fn position<F: FnMut(&InterfaceInfo) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|d: &InterfaceInfo| f.requires((d,))
        ensures match r { Some(k) => first_if(self.all(), f, k as int), None => no_if(self.all(), f) } { unimplemented!() }
}
/// `d` is the first of the devices the function accepts
spec fn first_dev<F: FnMut(&DeviceInfo) -> bool>(all: Seq<DeviceInfo>, f: F, d: DeviceInfo) -> bool { f.ensures((&d,), true) && exists|k: int| 0 <= k < all.len() && #[trigger] all[k] == d && forall|j: int| 0 <= j < k ==> f.ensures((&#[trigger] all[j],), false) }
spec fn no_dev<F: FnMut(&DeviceInfo) -> bool>(all: Seq<DeviceInfo>, f: F) -> bool { forall|j: int| 0 <= j < all.len() ==> f.ensures((&#[trigger] all[j],), false) }
spec fn first_if<F: FnMut(&InterfaceInfo) -> bool>(all: Seq<InterfaceInfo>, f: F, k: int) -> bool { 0 <= k < all.len() && f.ensures((&all[k],), true) && forall|j: int| 0 <= j < k ==> f.ensures((&#[trigger] all[j],), false) }
spec fn no_if<F: FnMut(&InterfaceInfo) -> bool>(all: Seq<InterfaceInfo>, f: F) -> bool { forall|j: int| 0 <= j < all.len() ==> f.ensures((&#[trigger] all[j],), false) }
spec fn vendor(all: Seq<InterfaceInfo>, k: int) -> bool { 0 <= k < all.len() && all[k].cls() == 0xFF && forall|j: int| 0 <= j < k ==> (#[trigger] all[j]).cls() != 0xFF }
spec fn no_vendor(all: Seq<InterfaceInfo>) -> bool { forall|j: int| 0 <= j < all.len() ==> (#[trigger] all[j]).cls() != 0xFF }
/// a client can be made on this interface of this device
spec fn usable(d: DeviceInfo, k: int) -> bool { let i = d.claims(k as usize as u8); d.opens() && i is Some && some(i->0, Direction::Out) && some(i->0, Direction::In) }
/// the outcome of connecting to interface `k` of device `d`
spec fn linked<W>(d: DeviceInfo, k: int, err: Seq<char>, depth: usize, kind: VarSeqKind, r: Result<HostClient<W>, String>) -> bool {
    (r is Ok <==> usable(d, k)) && (r matches Ok(c) ==> c.iface() == d.claims(k as usize as u8)->0 && c.kind() == kind && c.errpath() == err && c.depth() == depth)
}
struct Device { x: u8 }
struct DeviceInfo { x: u8 }
impl DeviceInfo {
    uninterp spec fn opens(&self) -> bool;
    uninterp spec fn ifs(&self) -> Seq<InterfaceInfo>;
    #[verifier::external_body] fn interfaces(&self) -> (r: Interfaces<'_>) ensures r.all() == self.ifs() { unimplemented!() }
    uninterp spec fn claims(&self, i: u8) -> Option<Interface>;
    #[verifier::external_body] fn open(&self) -> (r: Result<Device, NusbError>) ensures r is Ok <==> self.opens(), r matches Ok(d) ==> forall|i: u8| #[trigger] d.claims(i) == self.claims(i) { unimplemented!() }
}
impl Device {
    uninterp spec fn claims(&self, i: u8) -> Option<Interface>;
    #[verifier::external_body] fn claim_interface(&self, i: u8) -> (r: Result<Interface, NusbError>) ensures self.claims(i) == (match r { Ok(x) => Some(x), Err(_) => None }) { unimplemented!() }
}
struct VarSeqKind { x: u8 }
struct NusbSpawn;
#[verifier::external_body] #[verifier::reject_recursive_types(W)] struct HostClient<W> { x: core::marker::PhantomData<W> }
impl<W> HostClient<W> {
    uninterp spec fn kind(&self) -> VarSeqKind;
    uninterp spec fn errpath(&self) -> Seq<char>;
    uninterp spec fn depth(&self) -> usize;
    uninterp spec fn iface(&self) -> Interface;
    /// the client is handed halves in the state the contracts of `send` and `receive` start from, on bulk endpoints of the one interface,
    /// knowing the smallest packet size of the bulk OUT endpoints
    #[verifier::external_body] fn new_with_wire(tx: NusbWireTx, rx: NusbWireRx, sp: NusbSpawn, kind: VarSeqKind, err: &str, depth: usize) -> (r: Self)
        requires tx_pre(tx), rx_inv(rx), tx.boq.of() == rx.biq.of(), has(tx.boq.of(), Direction::Out, tx.boq.ep()), has(rx.biq.of(), Direction::In, rx.biq.ep()), tx.max_packet_size is Some, smallest(tx.boq.of(), tx.max_packet_size->0)
        ensures r.kind() == kind, r.errpath() == err@, r.depth() == depth, r.iface() == tx.boq.of()
    { unimplemented!() }
}
/// endpoint `j` of setting `k` is a bulk endpoint in this direction
spec fn bulk(i: Interface, k: int, j: int, d: Direction) -> bool { 0 <= k < i.alts@.len() && 0 <= j < i.alts@[k].eps@.len() && i.alts@[k].eps@[j].t == EndpointType::Bulk && i.alts@[k].eps@[j].d == d }
spec fn has(i: Interface, d: Direction, a: u8) -> bool { exists|k: int, j: int| #[trigger] bulk(i, k, j, d) && i.alts@[k].eps@[j].a == a }
spec fn some(i: Interface, d: Direction) -> bool { exists|k: int, j: int| #[trigger] bulk(i, k, j, d) }
spec fn is_size(i: Interface, m: usize) -> bool { exists|k: int, j: int| #[trigger] bulk(i, k, j, Direction::Out) && i.alts@[k].eps@[j].m == m }
spec fn smallest(i: Interface, m: usize) -> bool { is_size(i, m) && forall|k: int, j: int| #[trigger] bulk(i, k, j, Direction::Out) ==> m <= i.alts@[k].eps@[j].m }
/// what the scan knows after settings `0..a` and endpoints `0..b` of setting `a`
spec fn scanned(i: Interface, a: int, b: int, mps: Option<usize>, ein: Option<u8>, eout: Option<u8>) -> bool {
    &&& mps is Some <==> eout is Some
    &&& mps matches Some(m) ==> is_size(i, m) && m > 0
    &&& eout matches Some(x) ==> has(i, Direction::Out, x)
    &&& ein matches Some(x) ==> has(i, Direction::In, x)
    &&& forall|k: int, j: int| #[trigger] bulk(i, k, j, Direction::Out) && (k < a || (k == a && j < b)) ==> mps is Some && mps->0 <= i.alts@[k].eps@[j].m
    &&& forall|k: int, j: int| #[trigger] bulk(i, k, j, Direction::In) && (k < a || (k == a && j < b)) ==> ein is Some
}
impl From<TransferError> for NusbWireTxError { fn from(e: TransferError) -> (r: NusbWireTxError) { NusbWireTxError::Transfer(e) } }
impl From<TransferError> for NusbWireRxError { fn from(e: TransferError) -> (r: NusbWireRxError) { NusbWireRxError::Transfer(e) } }
impl FromSpecImpl<TransferError> for NusbWireTxError { closed spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(e: TransferError) -> NusbWireTxError { NusbWireTxError::Transfer(e) } }
impl FromSpecImpl<TransferError> for NusbWireRxError { closed spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(e: TransferError) -> NusbWireRxError { NusbWireRxError::Transfer(e) } }

// ----- specification -----
/// transfers queued and not yet completed
spec fn in_flight(l: Seq<QEv>) -> int decreases l.len() {
    if l.len() == 0 { 0 } else { in_flight(l.drop_last()) + fly(l.last()) }
}
spec fn fly(e: QEv) -> int { match e { QEv::Submit(_) => 1int, QEv::Done(..) => -1int, _ => 0int } }
/// frames delivered so far; errors in a row; whether in-flight transfers are being discarded; whether the endpoint is halted; whether the link has failed
ghost struct St { out: Seq<Seq<u8>>, errs: nat, drain: bool, halted: bool, failed: bool }
spec fn recoverable(e: TransferError) -> bool { e is Stall || e is Unknown }
spec fn step(s: St, e: QEv) -> St {
    match e {
        QEv::Submit(_) => s,
        QEv::CancelAll => St { drain: true, ..s },
        QEv::Clear(ok) => if ok { St { drain: false, halted: false, ..s } } else { St { drain: false, failed: true, ..s } },
        QEv::Done(e, d) => if s.drain { s } else {
            match e {
                None => St { out: s.out.push(d), errs: 0, ..s },
                Some(e) => St { errs: s.errs + 1, halted: true, failed: s.failed || !recoverable(e) || s.errs + 1 > MAX_STALL_RETRIES, ..s },
            }
        },
    }
}
spec fn st(l: Seq<QEv>) -> St decreases l.len() {
    if l.len() == 0 { St { out: Seq::empty(), errs: 0, drain: false, halted: false, failed: false } } else { step(st(l.drop_last()), l.last()) }
}
spec fn subs(l: Seq<QEv>) -> Seq<Seq<u8>> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { match l.last() { QEv::Submit(d) => subs(l.drop_last()).push(d), _ => subs(l.drop_last()) } }
}
spec fn unfolds() -> bool {
    forall|l: Seq<QEv>, e: QEv| #![trigger l.push(e)] l.push(e).drop_last() == l && l.push(e).last() == e && st(l.push(e)) == step(st(l), e) && in_flight(l.push(e)) == in_flight(l) + fly(e)
        && subs(l.push(e)) == (match e { QEv::Submit(d) => subs(l).push(d), _ => subs(l) })
}
proof fn pushed() ensures unfolds() { assert forall|l: Seq<QEv>, e: QEv| #![trigger l.push(e)] l.push(e).drop_last() == l by { assert(l.push(e).drop_last() =~= l); } }
spec fn rx_inv(q: NusbWireRx) -> bool {
    let s = st(q.biq.log());
    !s.drain && !s.halted && !s.failed && q.consecutive_errs == s.errs && s.errs <= MAX_STALL_RETRIES && 0 <= in_flight(q.biq.log()) <= IN_FLIGHT_REQS
}
/// every transfer completed since `a` succeeded
spec fn all_ok(a: Seq<QEv>, b: Seq<QEv>) -> bool { forall|i: int| a.len() <= i < b.len() ==> !(#[trigger] b[i] matches QEv::Done(Some(_), _)) }
spec fn zlp(n: int, mps: Option<usize>) -> bool { match mps { Some(m) => n % (m as int) == 0, None => true } }

type TxR = Result<Result<(), NusbWireTxError>, Cancelled>;
type RxR = Result<Result<Vec<u8>, NusbWireRxError>, Cancelled>;
spec fn tx_pre(o: NusbWireTx) -> bool { in_flight(o.boq.log()) == 0 && !st(o.boq.log()).halted && o.max_packet_size != Some(0usize) }
spec fn tx_post(o: NusbWireTx, n: NusbWireTx, data: Seq<u8>, r: TxR) -> bool {
    let a = o.boq.log(); let b = n.boq.log(); let s0 = subs(a).push(data); let s1 = if zlp(data.len() as int, o.max_packet_size) { s0.push(Seq::<u8>::empty()) } else { s0 };
    n.max_packet_size == o.max_packet_size && match r {
        Ok(Ok(_)) => subs(b) == s1 && in_flight(b) == 0 && !st(b).halted && all_ok(a, b),
        Ok(Err(e)) => (subs(b) == s0 || subs(b) == s1) && (b.last() matches QEv::Done(Some(x), _) && e == NusbWireTxError::Transfer(x)),
        Err(_) => subs(b) == s0 || subs(b) == s1,
    }
}
spec fn rx_post(o: NusbWireRx, n: NusbWireRx, r: RxR) -> bool {
    let a = st(o.biq.log()); let b = st(n.biq.log());
    match r {
        Ok(Ok(d)) => rx_inv(n) && b.out == a.out.push(d@),
        Ok(Err(e)) => b.failed && b.out == a.out,
        Err(_) => b.out == a.out && !b.failed && n.consecutive_errs <= MAX_STALL_RETRIES,
    }
}
/// after any number of successful receives, the frames delivered are exactly the successful transfers, in order
proof fn thm_c20_in_order(a: NusbWireRx, b: NusbWireRx, c: NusbWireRx, r1: RxR, r2: RxR)
    requires rx_post(a, b, r1), r1 matches Ok(Ok(_)), rx_post(b, c, r2), r2 matches Ok(Ok(_))
    ensures st(c.biq.log()).out == st(a.biq.log()).out + seq![r1->Ok_0->Ok_0@, r2->Ok_0->Ok_0@]
{ assert(st(c.biq.log()).out =~= st(a.biq.log()).out + seq![r1->Ok_0->Ok_0@, r2->Ok_0->Ok_0@]); }

// ----- contracts on the code -----
//@ fn <NusbWireTx as WireTx>::send ret r
    requires tx_pre(*old(self)) ensures tx_post(*old(self), *final(self), data@, r)
//@ fn <NusbWireRx as WireRx>::receive ret r
    requires rx_inv(*old(self)) ensures rx_post(*old(self), *final(self), r)
//@ fn NusbWireTx::send_inner ret r
    requires tx_pre(*old(self)) ensures tx_post(*old(self), *final(self), data@, r)
//@ hint start
    let ghost a = self.boq.log();
    proof { pushed(); }
//@ fn NusbWireRx::recv_inner ret r
    requires rx_inv(*old(self)) ensures rx_post(*old(self), *final(self), r)
//@ hint start
    proof { pushed(); }
//@ loop 0
    invariant rx_inv(*self), st(self.biq.log()).out == st(old(self).biq.log()).out, unfolds()
    decreases MAX_STALL_RETRIES - self.consecutive_errs
//@ loop 1
    invariant st(self.biq.log()) == s0, !s0.halted, in_flight(self.biq.log()) == pending + __k1, self.consecutive_errs == s0.errs, unfolds()
//@ loop 2
    invariant st(self.biq.log()) == s1, s1.drain, !s1.failed, s1.halted, in_flight(self.biq.log()) == IN_FLIGHT_REQS - 1 - __k2, self.consecutive_errs == s1.errs, self.consecutive_errs == c0 + 1, s1.errs <= MAX_STALL_RETRIES, s1.out == st(old(self).biq.log()).out, unfolds()
//@ hint loop 0 start
    let ghost s0 = st(self.biq.log()); let ghost c0 = self.consecutive_errs;
//@ hint after /cancel_all\(\);/
    let ghost s1 = st(self.biq.log());
// the first device accepted by the given function, and its first vendor-specific interface
//@ fn HostClient::try_new_raw_nusb ret r
    requires forall|d: &DeviceInfo| func.requires((d,))
    ensures
        plugged() is None ==> r is Err,
        plugged() matches Some(all) ==> no_dev(all, func) && r is Err || exists|d: DeviceInfo| #[trigger] first_dev(all, func, d) && (no_vendor(d.ifs()) && r is Err || exists|k: int| #[trigger] vendor(d.ifs(), k) && linked(d, k, err_uri_path@, outgoing_depth, seq_no_kind, r))
//@ hint before /Self::try_from_nusb/
    proof { assert(vendor(x.ifs(), interface_id as int)); assert(first_dev(plugged()->0, func, x)); }
// the first device accepted by the one function, and its first interface accepted by the other
//@ fn HostClient::try_new_raw_nusb_with_interface ret r
    requires forall|d: &DeviceInfo| device_func.requires((d,)), forall|i: &InterfaceInfo| interface_func.requires((i,))
    ensures
        plugged() is None ==> r is Err,
        plugged() matches Some(all) ==> no_dev(all, device_func) && r is Err || exists|d: DeviceInfo| #[trigger] first_dev(all, device_func, d) && (no_if(d.ifs(), interface_func) && r is Err || exists|k: int| #[trigger] first_if(d.ifs(), interface_func, k) && linked(d, k, err_uri_path@, outgoing_depth, seq_no_kind, r))
//@ fn HostClient::try_from_nusb_and_interface ret r
    ensures linked(*dev, interface_id as int, err_uri_path@, outgoing_depth, seq_no_kind, r), ({ let i = dev.claims(interface_id as u8); (r is Ok <==> dev.opens() && i is Some && some(i->0, Direction::Out) && some(i->0, Direction::In)) && (r matches Ok(c) ==> c.iface() == i->0) }),
        r matches Ok(c) ==> c.kind() == seq_no_kind && c.errpath() == err_uri_path@ && c.depth() == outgoing_depth
//@ loop 0
    invariant __i0 <= __s0@.len(), __s0@ == interface.alts@, scanned(interface, __i0 as int, 0, mps, ep_in, ep_out), forall|k: int, j: int| #[trigger] bulk(interface, k, j, Direction::Out) ==> interface.alts@[k].eps@[j].m > 0
    decreases __s0@.len() - __i0
//@ loop 1
    invariant 0 < __i0 <= __s0@.len(), __s0@ == interface.alts@, __i1 <= __s1@.len(), __s1@ == interface.alts@[__i0 - 1].eps@, scanned(interface, __i0 - 1, __i1 as int, mps, ep_in, ep_out), forall|k: int, j: int| #[trigger] bulk(interface, k, j, Direction::Out) ==> interface.alts@[k].eps@[j].m > 0
    decreases __s1@.len() - __i1
//@ hint loop 1 start
    proof { let e = __s1@[__i1 as int]; assert(e == interface.alts@[__i0 - 1].eps@[__i1 as int]); assert(bulk(interface, __i0 - 1, __i1 as int, e.d) == (e.t == EndpointType::Bulk)); }
//@ hint loop 0 end
    proof { assert forall|k: int, j: int| #[trigger] bulk(interface, k, j, Direction::Out) && k == __i0 - 1 implies j < __s1@.len() by {} }
