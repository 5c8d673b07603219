#![allow(long_running_const_eval)]
#[path = "../../common.rs"]
mod common;
mod wire;
mod mock;
mod server;
mod client;
mod schema;
mod serial;
mod channels;
#[cfg(feature = "consts")]
mod tables;
fn main() {
    common::main_with(|p, c| {
        match p {
            "C01" => wire::c01(c),
            "C02" => wire::c02(c),
            "C03" => wire::c03(c),
            "C04" => wire::c04(c),
            "C05" => server::c05(c),
            "C06" => server::c06(c),
            "C07" => server::c07(c),
            "C08" => server::c08(c),
            "C13" => client::c13(c),
            "C14" => client::c14(c),
            "C15" => client::c15(c),
            "C16" => client::c16(c),
            "C19" => serial::c19(c),
            "C11" => schema::c11(c),
            "C21" => channels::c21(c),
            "C17" => schema::c17(c),
            #[cfg(feature = "consts")]
            "C22" => tables::c22(c),
            "C18" => schema::c18(c),
            _ => return false,
        }
        true
    });
}
