#![no_main]
#![allow(dead_code)]
#[path = "../../common/sym.rs"]
mod sym;
#[path = "../../cli/src/vfs.rs"]
mod vfs;
#[path = "../../cli/src/image.rs"]
mod image;
#[path = "../../cli/src/h_setup.rs"]
mod h_setup;
mod h_cli;
#[path = "../../cli/src/h_unpack.rs"]
mod h_unpack;
#[path = "../../cli/src/h_pack.rs"]
mod h_pack;
mod h_desk;
#[path = "/repo/xdvdfs-cli/src/img.rs"]
mod img;

include!(concat!(env!("OUT_DIR"), "/desk.rs"));

mod drv {
    include!("../../common/driver.rs");
    entries! {
        h_unpack::h_unpack,
        h_pack::h_pack,
        h_pack::h_guard,
        h_pack::h_compress,
        h_desk::h_name,
    }
}
