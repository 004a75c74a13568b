//! The operations of the web application and its file system layer become modules of the harness;
//! the bindings to JavaScript are replaced by a model.
use std::path::Path;

fn main() {
    let src = Path::new("/repo/xdvdfs-web/src");
    let out_dir = std::env::var("OUT_DIR").unwrap();
    let dst = Path::new(&out_dir).join("src");
    let _ = std::fs::remove_dir_all(&dst);
    for d in ["fs", "ops"] {
        copy(&src.join(d), &dst.join(d));
    }
    std::fs::copy("src/bindings.rs", dst.join("fs").join("bindings.rs")).unwrap();
    let out = format!(
        "#[path = {:?}]\npub mod fs;\n#[path = {:?}]\npub mod ops;\n",
        dst.join("fs").join("mod.rs"),
        dst.join("ops").join("mod.rs")
    );
    std::fs::write(Path::new(&out_dir).join("web.rs"), out).unwrap();
    println!("cargo:rerun-if-changed=/repo/xdvdfs-web/src");
    println!("cargo:rerun-if-changed=src/bindings.rs");
    println!("cargo:rerun-if-changed=build.rs");
}

fn copy(src: &Path, dst: &Path) {
    std::fs::create_dir_all(dst).unwrap();
    for e in std::fs::read_dir(src).unwrap() {
        let e = e.unwrap();
        let to = dst.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &to);
        } else {
            std::fs::copy(e.path(), to).unwrap();
        }
    }
}
