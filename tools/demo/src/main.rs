//! vpdemo MODEL.json DATA_DIR OUT_DIR [SOLVER]: run a model and write its outputs; exits 3 if it is rejected, 4 if the run fails.
//! vpdemo rewrite IN OUT: read a model file and write it again.
//! vpdemo convert IN OUT: convert a file of version 1, with the errors on the standard output.
//! vpdemo visit IN OUT: what the visitors reach, and the file after they have changed it (names and paths get an `_x`).
//! vpdemo vars MODEL DATA_DIR OUT_DIR SCRIPT: step a model while setting variables.
mod more;
use pywr_core::solvers::{HighsSolver, HighsSolverSettings, MicroLpSolver, MicroLpSolverSettings, SimdIpmF64Solver, SimdIpmSolverSettings};
use pywr_schema::{ModelSchema, MultiNetworkModelSchema};
use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if more::run(&a) {
        return;
    }
    let (model, data, out) = (Path::new(&a[1]), Path::new(&a[2]), Path::new(&a[3]));
    let solver = a.get(4).map(String::as_str).unwrap_or("highs");
    let text = std::fs::read_to_string(model).unwrap();
    let fail = |e: String| -> ! {
        eprintln!("rejected: {e}");
        std::process::exit(3)
    };
    if text.contains("\"networks\"") {
        let s: MultiNetworkModelSchema = MultiNetworkModelSchema::from_path(model).unwrap_or_else(|e| fail(e.to_string()));
        let b = s.create_model_builder(Some(data), Some(out)).unwrap_or_else(|e| fail(e.to_string()));
        let m = b.build().unwrap_or_else(|e| fail(e.to_string()));
        let r = m.run::<HighsSolver>(&HighsSolverSettings::default());
        if let Err(e) = r {
            eprintln!("failed: {e}");
            std::process::exit(4)
        }
        return;
    }
    let s = ModelSchema::from_path(model).unwrap_or_else(|e| fail(e.to_string()));
    let b = s.create_model_builder(Some(data), Some(out)).unwrap_or_else(|e| fail(e.to_string()));
    let m = b.build().unwrap_or_else(|e| fail(e.to_string()));
    let r = match solver {
        "microlp" => m.run::<MicroLpSolver>(&MicroLpSolverSettings::default()).map(|_| ()),
        "ipm" => m.run_multi_scenario::<SimdIpmF64Solver>(&SimdIpmSolverSettings::default()).map(|_| ()),
        _ => m.run::<HighsSolver>(&HighsSolverSettings::default()).map(|_| ()),
    };
    if let Err(e) = r {
        eprintln!("failed: {e}");
        std::process::exit(4)
    }
}
