//! The command-line program as it is in the repository.
#![allow(dead_code, unused_imports, clippy::all)]

/// With HiGHS in the place of Clp, which is not built here.
mod pywr_core {
    pub use ::pywr_core::*;
    pub mod solvers {
        pub use ::pywr_core::solvers::*;
        pub type ClpSolver = HighsSolver;
        pub type ClpSolverSettings = HighsSolverSettings;
        pub type ClpSolverSettingsBuilder = HighsSolverSettingsBuilder;
    }
}

include!("/repo/pywr-cli/src/main.rs");

/// The program: what `fn main` of it is to the system.
pub fn program() -> std::process::ExitCode {
    std::process::Termination::report(main())
}
