//! Copies the tutorials so that they can be included as modules.
use std::{env, fs, path::Path};

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    for name in ["s_expressions", "math"] {
        let from = format!("/repo/examples/{name}.rs");
        println!("cargo::rerun-if-changed={from}");
        let src = fs::read_to_string(&from).unwrap_or_default();
        // inner doc comments and attributes are not allowed in the middle of a file
        let src: String = src
            .lines()
            .filter(|it| !it.starts_with("//!") && !it.starts_with("#!["))
            .map(|it| format!("{it}\n"))
            .collect();
        fs::write(Path::new(&out).join(format!("{name}.rs")), src).unwrap();
    }
}
