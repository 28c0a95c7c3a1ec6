//! The program's main file as a module, so that the harness can call its `main`.
use std::path::PathBuf;

fn main() {
    let src = "/repo/rpcgen/src/main.rs";
    println!("cargo:rerun-if-changed=/repo/rpcgen");
    let text = std::fs::read_to_string(src).unwrap();
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("cli.rs");
    let mut t = String::new();
    for l in text.lines() {
        // inner attributes and module documentation cannot be included
        if !l.trim_start().starts_with("#![") && !l.trim_start().starts_with("//!") {
            t.push_str(l);
            t.push('\n');
        }
    }
    t.push_str("pub fn __verif_main() -> bool { ::std::process::Termination::report(main()) == ::std::process::ExitCode::SUCCESS }\n");
    std::fs::write(out, t).unwrap();
}
