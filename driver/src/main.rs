//! rustc driver: behaves like rustc (it is used as RUSTC_WORKSPACE_WRAPPER), and for
//! the crate(s) named in MIRDUMP_CRATES additionally writes a JSON dump of the typed
//! program (MIR bodies, ADTs, traits, impls, effects) to MIRDUMP_OUT/<crate>.json.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.trimmed_def_paths = false;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _compiler: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
        if wanted.split(',').any(|w| w == name) {
            let j = dump::dump_crate(tcx, &name);
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            let mut s = String::new();
            j.write(&mut s);
            std::fs::write(format!("{out}/{name}.json"), s).expect("write dump");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc as first argument.
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map_or(false, |x| x == "rustc")
    {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
        std::process::ExitCode::SUCCESS
    })
}
