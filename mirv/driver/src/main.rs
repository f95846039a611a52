//! mirdump: a compiler driver which, while checking `_pydantic_core`, writes the MIR of selected
//! functions and everything they transitively call (within limits) as JSON. No source text is edited.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_ast;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
use rustc_driver_impl::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::run(tcx);
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the path of rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let mut name = String::new();
    let mut is_lib = false;
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
        if args[i] == "--crate-type" && i + 1 < args.len() && args[i + 1] != "bin" {
            is_lib = true;
        }
        i += 1;
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "_pydantic_core".into());
    if name == want && is_lib && std::env::var("MIRDUMP_OUT").is_ok() {
        for a in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Adead_code", "-Aunused"] {
            args.push(a.into());
        }
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Plain);
    }
}
