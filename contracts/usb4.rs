spec fn tmo_ok<D: Driver<'static>>(i: EUsbWireTxInner<D>) -> bool { 1 <= i.timeout_ms_per_frame <= 60000 }
spec fn same_tmo<D: Driver<'static>>(a: EUsbWireTxInner<D>, b: EUsbWireTxInner<D>) -> bool { a.timeout_ms_per_frame == b.timeout_ms_per_frame }
//@ fn send_all ret r
    requires closed_or_noted(old(ep_in).wlog(), *old(pending_frame)), out@.len() <= 0x40_0000, timeout_ms_per_frame <= 60000
    ensures closed_or_noted(final(ep_in).wlog(), *final(pending_frame)),
        out@.len() == 0 ==> final(ep_in).wlog() == old(ep_in).wlog() && *final(pending_frame) == *old(pending_frame) && r == Ok::<Result<(), WireTxErrorKind>, Cancelled>(Ok(())),
        out@.len() > 0 ==> sent(old(ep_in).wlog(), final(ep_in).wlog(), out@, *old(pending_frame), r),
//@ hint start
    proof { let fr = (out.len() + 63) / 64; let tm = timeout_ms_per_frame as int; assert(fr <= 0x1_0000); assert(0 <= fr * tm <= 0x1_0000 * 60000) by (nonlinear_arith) requires 0 <= fr <= 0x1_0000, 0 <= tm <= 60000; }
//@ fn EUsbWireTx::set_timeout_ms_per_frame ret r
    requires tx_inv(*old(vx_locked))
    ensures tx_inv(*final(vx_locked))
