#![no_main]
#[path = "../../common/sym.rs"]
mod sym;
mod h_remap;

include!("../../common/driver.rs");
entries! {
    h_remap::h_remap,
    h_remap::h_brace,
    h_remap::h_literal,
    h_remap::h_dot,
}
