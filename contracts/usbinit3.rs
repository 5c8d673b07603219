spec fn tmo_ok<D: Driver<'static>>(i: EUsbWireTxInner<D>) -> bool { true }
