//! vx: expands a Verus template by splicing in functions and types taken
//! mechanically from the Rust sources under verification.
//!
//! usage: vx SRC_DIR TEMPLATE OUT.rs OUT.map.json [-I INCLUDE_DIR]
//!
//! See DESIGN.md ("Extraction") for the directives and for the complete list of
//! rewrites, i.e. what the extraction changes with respect to the source.

#![allow(dead_code, unused_imports)]

mod index;
mod inline;
mod refpat;
mod rewrite;
mod simplify;
mod template;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx SRC_DIR TEMPLATE OUT MAP");
        std::process::exit(2);
    }
    let src = PathBuf::from(&args[1]);
    let index = match index::Index::load(&src) {
        Ok(i) => i,
        Err(e) => {
            if std::env::var_os("VX_LIST").is_some() || std::env::var_os("VX_DUMP").is_some() {
                print!("{e}");
            }
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    };
    let mut out = template::Out::default();
    if let Err(e) = template::expand(&index, &PathBuf::from(&args[2]), &mut out) {
        eprintln!("vx: {e}");
        std::process::exit(3);
    }
    std::fs::write(&args[3], &out.text).unwrap();
    std::fs::write(&args[4], out.map_json()).unwrap();
}
