//! Takes the editor's modules into this binary: all that its main file declares, but those that need a window.
use std::{env, fs, path::Path};
fn main() {
    let src = Path::new("/repo/crates/bevy_rerecast_editor/src");
    println!("cargo:rerun-if-changed={}", src.display());
    let text = fs::read_to_string(src.join("main.rs")).unwrap();
    let mut out = String::new();
    for line in text.lines() {
        let l = line.trim();
        let l = l.strip_prefix("pub(crate) ").or(l.strip_prefix("pub ")).unwrap_or(l);
        let Some(name) = l.strip_prefix("mod ").and_then(|l| l.strip_suffix(';')) else { continue };
        if ["camera", "ui", "theme"].contains(&name) {
            continue;
        }
        let p = [format!("{name}.rs"), format!("{name}/mod.rs")].map(|f| src.join(f)).into_iter().find(|p| p.exists()).unwrap();
        println!("cargo:rerun-if-changed={}", p.display());
        out += &format!("#[path = {:?}]\nmod {name};\n", p.display().to_string());
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("mods.rs"), out).unwrap();
}
