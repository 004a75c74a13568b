//! The modules of the command line program become modules of the harness: main.rs with absolute
//! module paths and without inner attributes.
use std::path::Path;

fn main() {
    let src = Path::new("/repo/xdvdfs-cli/src");
    let text = std::fs::read_to_string(src.join("main.rs")).unwrap();
    let mut out = String::new();
    for l in text.lines() {
        let t = l.trim();
        if t.starts_with("//!") || t.starts_with("#![") {
            continue;
        }
        let m = t.strip_prefix("pub(crate) ").or(t.strip_prefix("pub ")).unwrap_or(t);
        if let Some(name) = m.strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
            let file = src.join(format!("{}.rs", name));
            let file = if file.exists() { file } else { src.join(name).join("mod.rs") };
            out.push_str(&format!("#[path = {:?}]\n", file.to_str().unwrap()));
        }
        out.push_str(l);
        out.push('\n');
    }
    std::fs::write(Path::new(&std::env::var("OUT_DIR").unwrap()).join("cli.rs"), out).unwrap();
    println!("cargo:rerun-if-changed=/repo/xdvdfs-cli/src");
    println!("cargo:rerun-if-changed=build.rs");
}
