//! Generates code for every schema in every mode with /repo's rpcgen.
use rpcgen::gen_code::{gen_code, Config};
use std::{env, fs, path::Path};

fn main() {
    println!("cargo:rerun-if-changed=schema");
    println!("cargo:rerun-if-changed=build.rs");
    let out = env::var("OUT_DIR").unwrap();
    let dir = Path::new(&env::var("CARGO_MANIFEST_DIR").unwrap()).join("schema");
    for s in ["base", "opq", "neg", "rec", "names"] {
        let src = fs::read_to_string(dir.join(format!("{s}.x"))).unwrap();
        for e in ["c", "s", "i"] {
            for u in ["c", "i", "u"] {
                for t in ["r", "k"] {
                    if (s == "opq" && t == "k") || (s == "neg" && e == "c") {
                        continue;
                    }
                    let config = Config {
                        remove_typedef: t == "r",
                        enum_impl_indexer: e == "i",
                        enum_impl_std_trait: e == "s",
                        union_impl_indexer: u == "i",
                        union_impl_union: u == "u",
                    };
                    let what = format!("schema {s}.x, enum mode {e}, union mode {u}, typedefs {t}");
                    let defs = match rpcgen::parser::parse(&src) {
                        Ok(d) => d,
                        Err(_) => panic!("GENERATOR: {what}: the parser refuses a valid definition"),
                    };
                    match gen_code(defs, &config) {
                        Ok(code) => fs::write(format!("{out}/{s}_{e}{u}{t}.rs"), code).unwrap(),
                        Err(_) => panic!("GENERATOR: {what}: code generation refuses a valid definition"),
                    }
                }
            }
        }
    }
}
