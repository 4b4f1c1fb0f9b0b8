//! Writes a crate root that holds the editor's modules, whichever they are, for src/editor_app.rs.
//! The editor is a program, so its modules can only be reached from inside such a root.
use std::{env, fs, path::Path};
const SRC: &str = "/repo/crates/bevy_rerecast_editor/src";
fn main() {
    println!("cargo:rerun-if-changed={SRC}");
    let main = fs::read_to_string(format!("{SRC}/main.rs")).unwrap_or_default();
    let mut out = String::new();
    for line in main.lines() {
        let t = line.trim_start();
        if t.starts_with("//!") || t.starts_with("#![") {
            continue;
        }
        let plain = t.trim_start_matches("pub(crate) ").trim_start_matches("pub ");
        if let Some(name) = plain.strip_prefix("mod ").and_then(|r| r.trim_end().strip_suffix(';')) {
            let file = format!("{SRC}/{name}.rs");
            let file = if Path::new(&file).exists() { file } else { format!("{SRC}/{name}/mod.rs") };
            out += &format!("#[path = \"{file}\"]\n");
        }
        out += &line.replace("fn main()", "fn editor_main()");
        out += "\n";
    }
    fs::write(format!("{}/editor_root.rs", env::var("OUT_DIR").unwrap()), out).unwrap();
}
