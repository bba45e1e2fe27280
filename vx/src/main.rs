//! vx: mechanical extraction of /repo's Rust sources into one Verus crate.
//!
//! The functions, types and traits are taken token by token from the current working tree.  Only the
//! rewrites listed in /verif/DESIGN.md ("What the extraction changes") are applied; every one of them is
//! either dropping something that has no influence on the results (documentation, formatting impls, tests)
//! or an expansion that keeps the meaning (macros, `for` loops over iterators, `Option` combinators, ...).
mod contract;
mod edits;
mod emit;

use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

fn main() {
    let mut repo = PathBuf::from("/repo");
    let mut contracts = PathBuf::from("/verif/contracts");
    let mut out = PathBuf::from("/tmp/vxout");
    let mut external: BTreeSet<String> = BTreeSet::new();
    let mut bare: BTreeSet<String> = BTreeSet::new();
    let mut smoke = String::new();
    let mut std = false;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("missing argument value");
        match a.as_str() {
            "--repo" => repo = v().into(),
            "--contracts" => contracts = v().into(),
            "--out" => out = v().into(),
            "--external" => {
                external.insert(v());
            }
            "--bare" => {
                bare.insert(v());
            }
            "--smoke" => smoke = v(),
            "--std" => std = v() == "yes",
            _ => panic!("unknown argument {a}"),
        }
    }
    let mut names: Vec<_> = std::fs::read_dir(&contracts)
        .expect("contracts dir")
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false))
        .collect();
    names.sort();
    let mut files = vec![];
    for n in &names {
        let src = std::fs::read_to_string(n).unwrap();
        match contract::parse(&src, &n.file_name().unwrap().to_string_lossy()) {
            Ok(f) => files.extend(f),
            Err(e) => {
                eprintln!("vx: {e}");
                std::process::exit(3);
            }
        }
    }
    let prelude = std::fs::read_to_string(contracts.join("prelude.rs")).expect("prelude.rs");
    let mut cx = emit::Cx::new(repo, external);
    cx.bare = bare;
    cx.smoke = smoke;
    if std {
        cx.std = std::fs::read_to_string(contracts.join("std.rs")).unwrap_or_default();
    }
    let text = cx.run(&files, &prelude);
    std::fs::create_dir_all(&out).unwrap();
    std::fs::write(out.join("gen.rs"), &text).unwrap();
    let _: BTreeMap<(), ()> = BTreeMap::new();
    std::fs::write(
        out.join("gen.json"),
        serde_json::to_string_pretty(&cx.report(&text)).unwrap(),
    )
    .unwrap();
}
