//! With feature `cli`: makes the sources of the command line tool, as they are now, modules of this crate.
use std::{env, fs, path::Path};
fn main() {
    let dir = "/repo/src/bin/cdx";
    println!("cargo:rerun-if-changed={dir}");
    println!("cargo:rerun-if-changed=build.rs");
    let out = Path::new(&env::var("OUT_DIR").unwrap()).join("cli.rs");
    let mut s = String::new();
    if env::var("CARGO_FEATURE_CLI").is_ok() {
        let text = fs::read_to_string(format!("{dir}/main.rs")).unwrap();
        for l in text.lines() {
            let t = l.trim_start_matches("pub ").trim_start_matches("pub(crate) ").trim();
            let name = t.strip_prefix("mod ").and_then(|x| x.strip_suffix(';'));
            if let (Some(n), false) = (name, l.starts_with(' ')) {
                let mut p = format!("{dir}/{n}.rs");
                if !Path::new(&p).exists() {
                    p = format!("{dir}/{n}/mod.rs");
                }
                s.push_str(&format!("#[path = \"{p}\"]\npub mod {n};\n"));
            } else if !l.starts_with("//!") && !l.starts_with("#![") {
                s.push_str(l);
                s.push('\n');
            }
        }
    }
    fs::write(out, s).unwrap();
}
