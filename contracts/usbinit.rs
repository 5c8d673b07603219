// =====================================================================
// USB device setup unit: the constructors of the embassy-usb transports establish the state the
// contracts of `send`, `send_log_*` and `receive` start from
// =====================================================================
struct Cancelled;
// ----- dependencies: embassy-usb, embassy-sync, static_cell (stand-ins; only their names and the listed contracts are used) -----
trait RawMutex {}
trait Driver<'a> { type EndpointIn; type EndpointOut; }
/// packet size of a bulk endpoint; None for other kinds
uninterp spec fn bulk_in<E>(e: E) -> Option<u16>;
uninterp spec fn bulk_out<E>(e: E) -> Option<u16>;
#[verifier::external_body] #[verifier::accept_recursive_types(M)] #[verifier::accept_recursive_types(T)] struct Mutex<M, T> { m: core::marker::PhantomData<M>, t: T }
impl<M, T> Mutex<M, T> { uninterp spec fn view(&self) -> T; #[verifier::external_body] fn new(t: T) -> (r: Mutex<M, T>) ensures r@ == t { unimplemented!() } }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] struct StaticCell<T> { t: core::marker::PhantomData<T> }
impl<T> StaticCell<T> { #[verifier::external_body] fn init(&'static self, t: T) -> (r: &'static T) ensures *r == t { unimplemented!() } }
struct UsbDeviceBuffers<const CONFIG: usize, const BOS: usize, const CONTROL: usize, const MSOS: usize> { config_descriptor: [u8; CONFIG], bos_descriptor: [u8; BOS], msos_descriptor: [u8; MSOS], control_buf: [u8; CONTROL] }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] struct ConstStaticCell<T> { t: core::marker::PhantomData<T> }
struct VxBufs;
impl<T> ConstStaticCell<T> { #[verifier::external_body] fn take(&'static self) -> (r: VxBufs) { unimplemented!() } }
struct Config;
struct VxHandler;
#[verifier::external_body] fn vx_handler() -> VxHandler { unimplemented!() }
#[verifier::external_body] #[verifier::accept_recursive_types(D)] struct UsbDevice<D> { d: core::marker::PhantomData<D> }
#[verifier::external_body] #[verifier::accept_recursive_types(D)] struct Builder<D> { d: core::marker::PhantomData<D> }
#[verifier::external_body] #[verifier::accept_recursive_types(D)] struct FunctionBuilder<D> { d: core::marker::PhantomData<D> }
#[verifier::external_body] #[verifier::accept_recursive_types(D)] struct InterfaceBuilder<D> { d: core::marker::PhantomData<D> }
#[verifier::external_body] #[verifier::accept_recursive_types(D)] struct AltBuilder<D> { d: core::marker::PhantomData<D> }
struct StringIndex(u8);
impl<D: Driver<'static>> Builder<D> {
    #[verifier::external_body] fn new(d: D, c: Config, b: &mut VxBufs) -> (r: Builder<D>) { unimplemented!() }
    #[verifier::external_body] fn handler(&mut self, h: VxHandler) { unimplemented!() }
    #[verifier::external_body] fn vx_msos(&mut self) { unimplemented!() }
    #[verifier::external_body] fn function(&mut self, c: u8, s: u8, p: u8) -> (r: FunctionBuilder<D>) { unimplemented!() }
    #[verifier::external_body] fn build(self) -> (r: UsbDevice<D>) { unimplemented!() }
}
impl<D: Driver<'static>> FunctionBuilder<D> { #[verifier::external_body] fn interface(&mut self) -> (r: InterfaceBuilder<D>) { unimplemented!() } }
impl<D: Driver<'static>> InterfaceBuilder<D> {
    #[verifier::external_body] fn string(&mut self) -> (r: StringIndex) { unimplemented!() }
    #[verifier::external_body] fn alt_setting(&mut self, c: u8, s: u8, p: u8, st: Option<StringIndex>) -> (r: AltBuilder<D>) { unimplemented!() }
}
impl<D: Driver<'static>> AltBuilder<D> {
    #[verifier::external_body] fn endpoint_bulk_out(&mut self, n: u16) -> (r: D::EndpointOut) ensures bulk_out(r) == Some(n) { unimplemented!() }
    #[verifier::external_body] fn endpoint_bulk_in(&mut self, n: u16) -> (r: D::EndpointIn) ensures bulk_in(r) == Some(n) { unimplemented!() }
    #[verifier::external_body] fn endpoint_interrupt_out(&mut self, n: u16, i: u8) -> (r: D::EndpointOut) ensures bulk_out(r) is None { unimplemented!() }
    #[verifier::external_body] fn endpoint_interrupt_in(&mut self, n: u16, i: u8) -> (r: D::EndpointIn) ensures bulk_in(r) is None { unimplemented!() }
}

// ----- specification: nothing sent yet, no half-sent frame, the caller's buffer, bulk endpoints of the packet size messages are cut into -----
spec fn fresh<M: RawMutex + 'static, D: Driver<'static> + 'static>(tx: EUsbWireTx<M, D>, rx: EUsbWireRx<D>, buf: Seq<u8>) -> bool {
    let i = tx.inner@;
    &&& tmo_ok(i)
    &&& !i.pending_frame && i.log_seq == 0 && i.tx_buf@ == buf
    &&& bulk_in(i.ep_in) == Some(64u16) && bulk_out(rx.ep_out) == Some(64u16)
}

// ----- contracts on the code -----
//@ fn WireStorage::init_without_build ret r
    ensures fresh(r.1, r.2, old(tx_buf)@)
//@ fn WireStorage::init ret r
    ensures fresh(r.1, r.2, old(tx_buf)@)
//@ fn WireStorage::init_poststation ret r
    ensures fresh(r.1, r.2, old(tx_buf)@)
