#[path = "../../common.rs"]
mod common;
mod mock;
/// one instance of the harness per embassy-usb version
macro_rules! usb {
    ($m:ident, $imp:ident, $eu:ident, $t:literal) => {
        mod $m {
            pub const VER: &str = $t;
            use postcard_rpc::server::impls::$imp::dispatch_impl::{WireStorage, WireTxImpl, WireRxImpl};
            use $eu::Config;
            include!("usb.rs");
        }
    };
}
usb!(v3, embassy_usb_v0_3, embassy_usb_0_3, "0.3");
usb!(v4, embassy_usb_v0_4, embassy_usb_0_4, "0.4");
fn main() {
    common::main_with(|p, c| {
        match p {
            "C09" => { v3::c09(c); v4::c09(c); v4_timeout(c) }
            "C10" => { v3::c10(c); v4::c10(c) }
            "C12" => { v3::c12(c); v4::c12(c) }
            _ => return false,
        }
        true
    });
}
/// the settable timeout of the 0.4 implementation: waits frames * timeout, clamped to 1..=60000 ms
fn v4_timeout(c: &mut common::Ctx) {
    use postcard_rpc::server::WireTx;
    for tmo in [0usize, 1, 2, 7, 60_000, 60_001, usize::MAX] {
        for len in [1usize, 64, 65, 200] {
            if c.stop() { return; }
            c.case(|| format!("v0.4 set_timeout_ms_per_frame({tmo}) then a {len}-byte send to an endpoint that never answers"), |c| {
                let (s, tx, _rx) = v4::setup(256);
                common::exec::block(tx.set_timeout_ms_per_frame(tmo));
                s.lock().unwrap().wscript.push_back(mock::W::Hang);
                let t0 = mock::now();
                let data = vec![7u8; len];
                let mut f = Box::pin(tx.send_raw(&data));
                let r = v4::drive(f.as_mut());
                let waited = (mock::now() - t0) / 1000;
                let want = ((len + 63) / 64 * tmo.clamp(1, 60_000)) as u64;
                c.ok(matches!(r, Some(Err(postcard_rpc::server::WireTxErrorKind::Timeout))), || format!("v0.4 timeout {tmo}: unanswered endpoint gave {r:?}"));
                c.ok(waited >= want && waited <= want + 2, || format!("v0.4 set_timeout({tmo}), {len} bytes: waited {waited} ms, documented {want} ms"));
                c.cover("settable timeout");
            });
        }
    }
}
