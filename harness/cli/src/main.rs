#![no_main]
#![allow(dead_code)]
#[path = "../../common/sym.rs"]
mod sym;
mod vfs;
mod image;
mod h_setup;
mod h_cli;
mod h_unpack;
mod h_pack;
mod h_list;
mod h_exiso;
mod h_spec;
mod h_damage;

include!(concat!(env!("OUT_DIR"), "/cli.rs"));

mod drv {
    include!("../../common/driver.rs");
    entries! {
        h_unpack::h_unpack,
        h_unpack::h_copyout,
        h_pack::h_pack,
        h_pack::h_guard,
        h_pack::h_compress,
        h_pack::h_names,
        h_exiso::h_create,
        h_exiso::h_extract,
        h_exiso::h_rewrite,
        h_list::h_list,
        h_list::h_checksum,
        h_list::h_md5,
        h_list::h_info,
        h_list::h_info_tree,
        h_spec::h_spec,
        h_spec::h_where,
        h_spec::h_default,
        h_spec::h_mapped,
        h_damage::h_damaged,
    }
}
