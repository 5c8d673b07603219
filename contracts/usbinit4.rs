/// the time per packet the contracts of send start from
spec fn tmo_ok<D: Driver<'static>>(i: EUsbWireTxInner<D>) -> bool { 1 <= i.timeout_ms_per_frame <= 60000 }
