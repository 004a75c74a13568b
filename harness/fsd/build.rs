//! The modules of the file system daemon become modules of the harness: main.rs with absolute module
//! paths and without inner attributes. `process::exit` becomes the harness' own, since std's can be
//! called only once in a process and the harness runs the parent and the child of a fork in turn.
use std::path::Path;

fn main() {
    let src = Path::new("/repo/xdvdfs-fsd/src");
    let out_dir = std::env::var("OUT_DIR").unwrap();
    let dst = Path::new(&out_dir).join("src");
    copy(src, &dst);
    let text = std::fs::read_to_string(dst.join("main.rs")).unwrap();
    let mut out = String::new();
    for l in text.lines() {
        let t = l.trim();
        if t.starts_with("//!") || t.starts_with("#![") {
            continue;
        }
        let m = t.strip_prefix("pub(crate) ").or(t.strip_prefix("pub ")).unwrap_or(t);
        if let Some(name) = m.strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
            let file = dst.join(format!("{}.rs", name));
            let file = if file.exists() { file } else { dst.join(name).join("mod.rs") };
            out.push_str(&format!("#[path = {:?}]\n", file.to_str().unwrap()));
        }
        out.push_str(l);
        out.push('\n');
    }
    std::fs::write(Path::new(&out_dir).join("cli.rs"), out).unwrap();
    println!("cargo:rerun-if-changed=/repo/xdvdfs-fsd/src");
    println!("cargo:rerun-if-changed=build.rs");
}

fn copy(src: &Path, dst: &Path) {
    let _ = std::fs::remove_dir_all(dst);
    std::fs::create_dir_all(dst).unwrap();
    for e in std::fs::read_dir(src).unwrap() {
        let e = e.unwrap();
        let to = dst.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &to);
        } else {
            let text = std::fs::read_to_string(e.path()).unwrap();
            let text = text.replace("std::process::exit(", "process::exit(").replace("process::exit(", "crate::h_cli::leave(");
            std::fs::write(to, text).unwrap();
        }
    }
}
