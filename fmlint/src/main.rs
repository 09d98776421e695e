#![feature(rustc_private)]
//! fmlint: the static analyser behind /verif.  See ../DESIGN.md.
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_errors;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_metadata;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dd;
mod exec;
mod intr;
mod lint;
mod val;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    analyse: bool,
}

impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        let _ = c;
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.analyse {
            lint::run(tcx);
        }
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [fmlint, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("FMLINT_CRATE").unwrap_or_else(|_| "witness".into());
    let analyse = name.as_deref() == Some(want.as_str());
    if analyse {
        if let Ok(m) = std::env::var("FMLINT_CFG") {
            for c in m.split(',').filter(|s| !s.is_empty()) {
                args.push("--cfg".into());
                args.push(c.into());
            }
        }
    }
    let body = move || {
        let mut cb = Cb { analyse };
        rustc_driver::catch_with_exit_code(move || {
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        })
    };
    let code = body();
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 101 });
}
