//! vpdemopy SCRIPT.py: runs a Python script that can import the `pywr` package of the repository.
#[allow(dead_code, clippy::all)]
mod module {
    include!("/repo/pywr-python/src/lib.rs");
    pub fn get(py: Python<'_>) -> Py<PyModule> {
        pyo3::wrap_pymodule!(pywr)(py)
    }
}
use pyo3::prelude::*;
use pyo3::types::PyDict;
use std::ffi::CString;

fn main() {
    let script = std::env::args().nth(1).unwrap();
    let code = CString::new(std::fs::read_to_string(script).unwrap()).unwrap();
    Python::initialize();
    let ok = Python::attach(|py| {
        let f = || -> PyResult<()> {
            let sys = py.import("sys")?;
            sys.setattr("dont_write_bytecode", true)?;
            sys.getattr("modules")?.cast::<PyDict>()?.set_item("pywr.pywr", module::get(py))?;
            sys.getattr("path")?.call_method1("insert", (0, "/repo/pywr-python"))?;
            py.import("logging")?.call_method1("disable", (50,))?;
            PyModule::from_code(py, &code, c"check.py", c"check")?;
            Ok(())
        };
        f().map_err(|e| e.print(py)).is_ok()
    });
    std::process::exit(!ok as i32)
}
