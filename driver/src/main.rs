//! `RUSTC_WORKSPACE_WRAPPER` that dumps the type-checked program of the crate named in
//! `MIRDUMP_CRATE` as JSON into `MIRDUMP_OUT`: every monomorphic function reachable from the
//! crate's own functions with its MIR, resolved callees, decoded constants and types.
//! It only describes the program; every decision is taken by the analyser that reads the dump.
#![feature(rustc_private)]
#![allow(deprecated)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        let is_test = tcx.sess.opts.test;
        if tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() == want && !is_test {
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            let text = dump::dump(tcx);
            std::fs::write(out, text).expect("write dump");
        }
        Compilation::Continue
    }
}

fn main() {
    // argv: mirdump <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 {
        args.remove(1);
    }
    let is_target = {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want)
    };
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Zinline-mir=no".into());
    }
    let mut cb = Cb;
    rustc_driver::install_ice_hook("about:blank", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
