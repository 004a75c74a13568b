//! The modules of the desktop application, but for main.rs (which only starts the web view), become
//! modules of the harness, without the attribute that registers a command.
use std::path::Path;

fn main() {
    let src = Path::new("/repo/xdvdfs-desktop/src");
    let out_dir = std::env::var("OUT_DIR").unwrap();
    let dst = Path::new(&out_dir).join("src");
    let _ = std::fs::remove_dir_all(&dst);
    copy(src, &dst);
    let mut out = String::new();
    let main = std::fs::read_to_string(src.join("main.rs")).unwrap();
    for l in main.lines() {
        if let Some(name) = l.trim().strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
            let file = dst.join(format!("{}.rs", name));
            let file = if file.exists() { file } else { dst.join(name).join("mod.rs") };
            out.push_str(&format!("#[path = {:?}]\nmod {};\n", file.to_str().unwrap(), name));
        }
    }
    std::fs::write(Path::new(&out_dir).join("desk.rs"), out).unwrap();
    println!("cargo:rerun-if-changed=/repo/xdvdfs-desktop/src");
    println!("cargo:rerun-if-changed=build.rs");
}

fn copy(src: &Path, dst: &Path) {
    std::fs::create_dir_all(dst).unwrap();
    for e in std::fs::read_dir(src).unwrap() {
        let e = e.unwrap();
        let to = dst.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &to);
        } else {
            let text = std::fs::read_to_string(e.path()).unwrap();
            std::fs::write(to, text.replace("#[tauri::command]", "")).unwrap();
        }
    }
}
