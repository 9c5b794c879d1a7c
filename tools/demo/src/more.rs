use pywr_core::network::NetworkTimings;
use pywr_core::parameters::{ActivationFunction, ParameterName, RbfProfileVariableConfig};
use pywr_core::solvers::{HighsSolver, HighsSolverSettings};
use pywr_schema::metric::Metric;
use pywr_schema::{ModelSchema, MultiNetworkModelSchema, VisitMetrics, VisitNodeReferences, VisitPaths};
use serde_json::{Value, json};
use std::path::Path;

fn fail(e: String) -> ! {
    eprintln!("rejected: {e}");
    std::process::exit(3)
}

fn put(path: &str, v: &Value) {
    std::fs::write(path, serde_json::to_string_pretty(v).unwrap()).unwrap();
}

pub fn run(a: &[String]) -> bool {
    match a[1].as_str() {
        "rewrite" => {
            let text = std::fs::read_to_string(&a[2]).unwrap();
            if text.contains("\"networks\"") {
                let m: MultiNetworkModelSchema = text.parse().unwrap_or_else(|e: pywr_schema::ModelSchemaReadError| fail(e.to_string()));
                put(&a[3], &serde_json::to_value(&m).unwrap());
            } else {
                let m: ModelSchema = text.parse().unwrap_or_else(|e: pywr_schema::ModelSchemaReadError| fail(e.to_string()));
                put(&a[3], &serde_json::to_value(&m).unwrap());
            }
        }
        "convert" => {
            let (m, errors) = ModelSchema::from_v1_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap_or_else(|e| fail(e.to_string()));
            put(&a[3], &serde_json::to_value(&m).unwrap());
            for e in errors {
                println!("{e:?}");
            }
        }
        "visit" => {
            let text = std::fs::read_to_string(&a[2]).unwrap();
            let mut m: ModelSchema = text.parse().unwrap_or_else(|e: pywr_schema::ModelSchemaReadError| fail(e.to_string()));
            let (mut metrics, mut paths, mut nodes) = (vec![], vec![], vec![]);
            m.visit_metrics(&mut |x: &Metric| metrics.push(serde_json::to_value(x).unwrap()));
            m.visit_paths(&mut |x: &Path| paths.push(x.to_str().unwrap().to_string()));
            m.network.visit_node_references(&mut |x: &str| nodes.push(x.to_string()));
            m.visit_metrics_mut(&mut |x: &mut Metric| {
                if let Metric::Parameter(p) = x {
                    p.name += "_x";
                }
                if let Metric::Literal { value } = x {
                    *value += 1000.0;
                }
            });
            m.visit_paths_mut(&mut |x| *x = (x.to_str().unwrap().to_string() + "_x").into());
            m.network.visit_node_references_mut(&mut |x| *x += "_x");
            put(&a[3], &json!({"metrics":metrics,"paths":paths,"nodes":nodes,"after":serde_json::to_value(&m).unwrap()}));
        }
        "vars" => {
            let m = ModelSchema::from_path(&a[2]).unwrap_or_else(|e| fail(e.to_string()));
            let b = m.create_model_builder(Some(Path::new(&a[3])), Some(Path::new(&a[4]))).unwrap_or_else(|e| fail(e.to_string()));
            let model = b.build().unwrap_or_else(|e| fail(e.to_string()));
            let settings = HighsSolverSettings::default();
            let script: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&a[5]).unwrap()).unwrap();
            let mut state = model.setup::<HighsSolver>(&settings).unwrap();
            let mut timings = NetworkTimings::new_without_component_timings();
            let n = model.domain().time().timesteps().len();
            for t in 0..n {
                for op in script.iter().filter(|o| o["at"] == json!(t)) {
                    let net = model.network();
                    let idx = net.get_parameter_index_by_name(&ParameterName::new(op["par"].as_str().unwrap(), None)).expect("parameter");
                    let s = op["scenario"].as_u64().map(|s| model.domain().scenarios().indices()[s as usize].clone());
                    let st = state.network_state_mut();
                    let unit = ActivationFunction::Unit { min: op["min"].as_f64().unwrap_or(0.0), max: op["max"].as_f64().unwrap_or(1.0) };
                    let rbf = RbfProfileVariableConfig::new(Some(100), 1000.0, -1000.0);
                    let cfg: &dyn pywr_core::parameters::VariableConfig = if op["rbf"] == json!(true) { &rbf } else { &unit };
                    let f: Option<Vec<f64>> = serde_json::from_value(op["f"].clone()).unwrap();
                    let u: Option<Vec<u32>> = serde_json::from_value(op["u"].clone()).unwrap();
                    let r = match (f, u, s.clone()) {
                        (Some(f), _, None) => net.set_f64_parameter_variable_values(idx, &f, cfg, st),
                        (Some(f), _, Some(s)) => net.set_f64_parameter_variable_values_for_scenario(idx, s, &f, cfg, st),
                        (_, Some(u), None) => net.set_u32_parameter_variable_values(idx, &u, cfg, st),
                        (_, Some(u), Some(s)) => net.set_u32_parameter_variable_values_for_scenario(idx, s, &u, cfg, st),
                        _ => unreachable!(),
                    };
                    println!("set {:?} read {:?}", r.map_err(|e| e.to_string()), net.get_f64_parameter_variable_values(idx, state.network_state()).map_err(|e| e.to_string()));
                }
                model.step(&mut state, None, &mut timings).unwrap();
            }
            model.finalise(state, pywr_core::models::ModelTimings::new_with_component_timings(model.network())).unwrap();
        }
        _ => return false,
    }
    true
}
