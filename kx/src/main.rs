//! kx: mechanical extraction of kofft functions into Verus.
//!
//! usage: kx REPO CONTRACTDIR UNIT OUT.rs [--vacuity]
//!
//! Reads CONTRACTDIR/UNIT.vk, pulls the functions it names out of REPO's
//! current sources, rewrites them by the fixed rules in `lower.rs`, and writes
//! a Verus file holding those bodies with the contracts attached.
mod contract;
mod lower;
mod text;
mod source;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: kx REPO CONTRACTDIR UNIT OUT [--vacuity]");
        std::process::exit(3);
    }
    let vac = a.iter().any(|x| x == "--vacuity");
    match contract::generate(&PathBuf::from(&a[1]), &PathBuf::from(&a[2]), &a[3], vac) {
        Ok((text, fns)) => {
            std::fs::write(&a[4], text).unwrap();
            for f in fns {
                println!("FN {}", f);
            }
        }
        Err(e) => {
            eprintln!("KX-ERROR {}", e);
            std::process::exit(4);
        }
    }
}
