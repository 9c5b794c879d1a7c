//! The command-line program of the repository, with HiGHS in the place of Clp (which is not built here) and no log.
#![allow(unused_imports)]
mod tracing {
    pub fn setup_tracing(_: bool) -> Result<(), std::convert::Infallible> {
        Ok(())
    }
}
mod program {
    mod pywr_core {
        pub use ::pywr_core::*;
        pub mod solvers {
            pub use ::pywr_core::solvers::*;
            pub type ClpSolver = HighsSolver;
            pub type ClpSolverSettings = HighsSolverSettings;
            pub type ClpSolverSettingsBuilder = HighsSolverSettingsBuilder;
        }
    }
    include!("/repo/pywr-cli/src/main.rs");
    pub fn go() -> std::process::ExitCode {
        std::process::Termination::report(main())
    }
}
fn main() -> std::process::ExitCode {
    program::go()
}
