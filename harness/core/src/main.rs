#![no_main]
#[path = "../../common/sym.rs"]
mod sym;
mod dev;
mod h_basic;
mod h_pack;
mod h_host;
mod h_dev;
mod h_more;

include!("../../common/driver.rs");
include!("entries.rs");
