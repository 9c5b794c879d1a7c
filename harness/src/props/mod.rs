use crate::fw::Prop;
mod alloc;
mod cli;
mod composite;
mod data;
mod domain;
mod graph;
mod local;
mod memory;
mod multi;
pub mod outputs;
pub mod params;
mod pyapi;
pub mod pywr_cli;
mod pywr_module;
mod repro;
mod schema;
mod solvers;
mod v1;
mod vars;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(alloc::props());
    v.extend(params::props());
    v.extend(domain::props());
    v.extend(composite::props());
    v.extend(outputs::props());
    v.extend(multi::props());
    v.extend(data::props());
    v.extend(repro::props());
    v.extend(graph::props());
    v.extend(schema::props());
    v.extend(memory::props());
    v.extend(vars::props());
    v.extend(v1::props());
    v.extend(local::props());
    v.extend(solvers::props());
    v.extend(pyapi::props());
    v.extend(cli::props());
    v
}
