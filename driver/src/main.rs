#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_errors;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

#[macro_use]
mod json;
mod dump;
mod unsafety;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl Callbacks for Cb {
	fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
		let Ok(dir) = std::env::var("FYIMIR_OUT") else { return Compilation::Continue; };
		let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
		let j = dump::dump_crate(tcx, &name);
		let path = format!("{dir}/{name}.json");
		std::fs::write(&path, j.to_string()).expect("write dump");
		Compilation::Continue
	}
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
	let mut args: Vec<String> = std::env::args().collect();
	// RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path.
	if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
	let is_query = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
	let is_build_script = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
	rustc_driver::catch_with_exit_code(move || {
		if is_query || is_build_script {
			rustc_driver::compiler_entrypoint(&args, &mut Plain);
		}
		else {
			args.push("-Zmir-opt-level=0".to_owned());
			args.push("-Zalways-encode-mir".to_owned());
			rustc_driver::compiler_entrypoint(&args, &mut Cb);
		}
	})
}
