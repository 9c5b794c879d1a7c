//! The `pywr` Python module as it is in the repository.
#![allow(dead_code, clippy::all)]
include!("/repo/pywr-python/src/lib.rs");

pub fn module(py: Python<'_>) -> Py<PyModule> {
    pyo3::wrap_pymodule!(pywr)(py)
}

/// Where the Python part of the package is.
pub const PACKAGE: &str = "/repo/pywr-python";
