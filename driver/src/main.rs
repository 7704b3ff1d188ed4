// mirdump: a rustc_private driver.  As RUSTC_WORKSPACE_WRAPPER it compiles every crate as usual, and
// for the crate named in $MIRDUMP_CRATE it writes, to $MIRDUMP_OUT, a JSON description of the
// type-checked program: every local function's drop-elaborated MIR with resolved callees and layouts,
// the ADTs, the signatures (with lifetimes), the trait impls and the Send/Sync facts.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::dump(tcx, &self.out);
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want)
        && !args.iter().any(|a| a == "--test")
        && !args.iter().any(|a| a.starts_with("--print"));
    rustc_driver::catch_with_exit_code(move || {
        if is_target {
            for a in ["-Zmir-opt-level=0", "-Cdebug-assertions=off", "-Coverflow-checks=on", "-Awarnings", "-Zub-checks=no", "-Zalways-encode-mir=yes"] {
                args.push(a.to_string());
            }
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    })
}
