#![no_main]
#![allow(dead_code)]
#[path = "../../common/sym.rs"]
mod sym;
#[path = "../../cli/src/vfs.rs"]
mod vfs;
#[path = "../../cli/src/image.rs"]
mod image;
#[path = "../../cli/src/h_setup.rs"]
mod h_setup;
#[path = "../../cli/src/h_cli.rs"]
mod h_cli;
mod h_fsd;

include!(concat!(env!("OUT_DIR"), "/cli.rs"));

mod drv {
    include!("../../common/driver.rs");
    entries! {
        h_fsd::h_lookup,
        h_fsd::h_readdir,
        h_fsd::h_read,
        h_fsd::h_cut,
        h_fsd::h_fault,
        h_fsd::h_damaged,
        h_fsd::h_open,
        h_fsd::h_mount,
        h_fsd::h_options,
    }
}
