//! vt6facts: a rustc driver that exports the resolved program (types, ADTs, impls, function
//! instances with their MIR, constants) of a crate of the vt6 workspace as JSON.
//!
//! It is run through RUSTC_WORKSPACE_WRAPPER and compiles exactly what cargo asks for; facts are
//! written to $VT6FACTS_OUT/<crate>.json.
#![feature(rustc_private)]
#![allow(rustc::untranslatable_diagnostic)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod export;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def_id::LocalDefId;
use rustc_index::IndexVec;
use rustc_interface::interface::{Compiler, Config};
use rustc_middle::mir::{Body, Promoted};
use rustc_middle::ty::TyCtxt;
use rustc_span::source_map::{FileLoader, RealFileLoader};
use std::collections::HashMap;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub type Bodies = HashMap<LocalDefId, (Body<'static>, IndexVec<Promoted, Body<'static>>)>;

/// Appends a module with analysis entry points (see /verif/harness) to the crate root, so that they
/// are type checked and lowered together with the crate. Nothing of it is ever executed.
struct HarnessLoader {
    root: std::path::PathBuf,
    module: String,
}

impl FileLoader for HarnessLoader {
    fn file_exists(&self, path: &Path) -> bool {
        path.exists()
    }

    fn read_file(&self, path: &Path) -> io::Result<String> {
        let mut s = RealFileLoader.read_file(path)?;
        if path == self.root {
            s.push_str(&format!("\n#[path = \"{}\"] #[allow(warnings)] mod vt6_harness;\n", self.module));
        }
        Ok(s)
    }

    fn read_binary_file(&self, path: &Path) -> io::Result<Arc<[u8]>> {
        RealFileLoader.read_binary_file(path)
    }

    fn current_directory(&self) -> io::Result<PathBuf> {
        RealFileLoader.current_directory()
    }
}

struct Facts {
    harness: Option<HarnessLoader>,
    out: Option<String>,
    bodies: Bodies,
}

// The callbacks all run on the thread that owns `tcx`.
unsafe impl Send for Facts {}

impl Callbacks for Facts {
    fn config(&mut self, config: &mut Config) {
        if let Some(h) = self.harness.take() {
            config.file_loader = Some(Box::new(h));
        }
    }

    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.out.is_some() {
            // Take copies of all bodies before analysis lowers (and steals) them: this is the MIR
            // that borrowck sees, with coroutines not yet transformed into state machines.
            for def in tcx.hir_body_owners() {
                if tcx.dcx().has_errors().is_some() {
                    return Compilation::Continue;
                }
                let (body, promoted) = tcx.mir_promoted(def);
                let b: Body<'tcx> = body.borrow().clone();
                let p: IndexVec<Promoted, Body<'tcx>> = promoted.borrow().clone();
                // The same `tcx` is alive until after_analysis() has run.
                let b: Body<'static> = unsafe { std::mem::transmute(b) };
                let p: IndexVec<Promoted, Body<'static>> = unsafe { std::mem::transmute(p) };
                self.bodies.insert(def, (b, p));
            }
        }
        Compilation::Continue
    }

    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let bodies = std::mem::take(&mut self.bodies);
            let j = export::Exporter::new(tcx, bodies).run();
            let mut s = String::new();
            j.write(&mut s);
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let path = format!("{}/{}.json", out, name);
            std::fs::write(&path, s).expect("cannot write facts");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER calls us as: vt6facts <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_probe = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    let is_build_script = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script_"));
    let out = if is_probe || is_build_script {
        None
    } else {
        std::env::var("VT6FACTS_OUT").ok()
    };
    // VT6FACTS_HARNESS: directory with one module per crate, named <crate>.rs
    let crate_name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or_default();
    let root = args.iter().find(|a| a.ends_with(".rs") && !a.starts_with("--")).cloned().unwrap_or_default();
    let harness = match std::env::var("VT6FACTS_HARNESS") {
        Ok(dir) if out.is_some() && Path::new(&dir).join(format!("{}.rs", crate_name)).exists() => {
            Some(HarnessLoader { root: root.into(), module: format!("{}/{}.rs", dir, crate_name) })
        }
        _ => None,
    };
    let mut cb = Facts { harness, out, bodies: HashMap::new() };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
