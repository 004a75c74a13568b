entries! {
    h_basic::h_cmp_order,
    h_basic::h_cmp_trans,
    h_basic::h_dirent_codec,
    h_basic::h_dirent_read,
    h_basic::h_volume_write,
    h_basic::h_volume_read,
    h_basic::h_name_enc,
    h_basic::h_name_dec,
    h_basic::h_name_len,
    h_pack::h_pack,
    h_pack::h_big,
    h_pack::h_avl,
    h_pack::h_toolarge,
    h_host::h_host_walk,
    h_host::h_host_path,
    h_host::h_path_string,
    h_host::h_host_scan,
    h_host::h_host_dirs,
    h_host::h_host_image,
    h_dev::h_mem,
    h_dev::h_wrap,
    h_dev::h_wrap_write,
    h_dev::h_data,
    h_more::h_linear,
    h_more::h_repack,
    h_more::h_copier,
    h_more::h_fault_pack,
    h_more::h_fault_read,
    h_more::h_progress,
    h_more::h_host_cycle,
    h_more::h_foreign,
    h_more::h_repack_name,
    h_more::h_below,
    h_more::h_scan_full,
}
