spec fn tmo_ok<D: Driver<'static>>(i: EUsbWireTxInner<D>) -> bool { true }
spec fn same_tmo<D: Driver<'static>>(a: EUsbWireTxInner<D>, b: EUsbWireTxInner<D>) -> bool { true }
//@ fn send_all ret r
    requires closed_or_noted(old(ep_in).wlog(), *old(pending_frame)), out@.len() <= 0x40_0000
    ensures closed_or_noted(final(ep_in).wlog(), *final(pending_frame)),
        out@.len() == 0 ==> final(ep_in).wlog() == old(ep_in).wlog() && *final(pending_frame) == *old(pending_frame) && r == Ok::<Result<(), WireTxErrorKind>, Cancelled>(Ok(())),
        out@.len() > 0 ==> sent(old(ep_in).wlog(), final(ep_in).wlog(), out@, *old(pending_frame), r),
//@ hint start
