//! C10: models which are not well defined are refused when they are built.
use super::{composite, params};
use crate::fw::{Case, Prop, Res, Rng, guard, viol};
use crate::netgen::{self, GenOpts};
use pywr_core::models::ModelBuilder;
use pywr_core::network::NetworkTimings;
use pywr_core::solvers::{HighsSolver, HighsSolverSettings};
use pywr_schema::ModelSchema;
use serde_json::{Value, json};
use std::str::FromStr;

enum Any {
    Net(netgen::Net),
    Par(params::Spec),
    Comp(composite::M),
}

impl Any {
    fn inject(&self, mb: &mut ModelBuilder) {
        match self {
            Any::Net(n) => n.inject(mb),
            Any::Par(p) => p.inject(mb),
            Any::Comp(m) => m.inject(mb),
        }
    }
}

/// Outer error: panic. Inner error: refused. A model with the wrong number of factors is refused when it is started.
fn build(any: &Any, j: &Value, dir: &std::path::Path, start: bool) -> Result<Result<(), String>, String> {
    guard(|| {
        let schema = ModelSchema::from_str(&j.to_string()).map_err(|e| format!("schema: {e}"))?;
        let mut mb = schema.create_model_builder(None, Some(dir)).map_err(|e| format!("load: {e:?}"))?;
        any.inject(&mut mb);
        let m = mb.build().map_err(|e| format!("build: {e:?}"))?;
        if start {
            let set = HighsSolverSettings::default();
            let mut st = m.setup::<HighsSolver>(&set).map_err(|e| format!("setup: {e:?}"))?;
            m.step::<HighsSolver>(&mut st, None, &mut NetworkTimings::new_with_component_timings(m.network())).map_err(|e| format!("step: {e:?}"))?;
        }
        Ok(())
    })
}

type Path = Vec<String>;

/// All places in the file where `f` holds, with the chain of types in which it is.
fn sites(v: &Value, path: &mut Path, f: &dyn Fn(&Path, &Value) -> bool, out: &mut Vec<Path>) {
    if f(path, v) {
        out.push(path.clone());
    }
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                sites(x, path, f, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                sites(x, path, f, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            o => &mut o[k.as_str()],
        };
    }
    v
}

fn get<'a>(v: &'a Value, p: &[String]) -> &'a Value {
    v.pointer(&p.iter().map(|k| format!("/{}", k.replace('~', "~0").replace('/', "~1"))).collect::<String>()).unwrap()
}

/// Where a path is, without names and positions.
fn place(j: &Value, p: &Path) -> String {
    let mut s = String::new();
    for n in 0..p.len() {
        let v = get(j, &p[..n]);
        if let Some(t) = v.get("type").and_then(|t| t.as_str()) {
            s += &format!("{t}.");
        }
        if p[n].parse::<usize>().is_err() {
            s += &format!("{}/", p[n]);
        }
    }
    s
}

fn misspell(r: &mut Rng, s: &str, others: &[String]) -> String {
    for _ in 0..20 {
        let t = match r.us(0, 5) {
            0 => format!("{s}x"),
            1 => format!("{s} "),
            2 => s.to_uppercase(),
            3 => s[..s.len() - s.chars().last().map(|c| c.len_utf8()).unwrap_or(0)].to_string(),
            4 => r.pick(others).clone(),
            _ => "nothing".to_string(),
        };
        if t != s {
            return t;
        }
    }
    format!("{s}x")
}

fn names(j: &Value, key: &str) -> Vec<String> {
    j["network"][key]
        .as_array()
        .into_iter()
        .flatten()
        .map(|n| n["meta"]["name"].as_str().or(n["name"].as_str()).unwrap_or("").to_string())
        .collect()
}

/// A reference to something that is not there.
fn unknown(r: &mut Rng, any: &Any, j: &mut Value) -> Option<(String, String)> {
    let net: Path = vec!["network".into()];
    let kinds = ["Node", "Parameter", "VirtualNode", "Edge", "edge", "member", "storage", "metric_set", "scenario_group", "table", "timeseries", "transfer", "local"];
    let kind = *r.pick(&kinds);
    let nodes = names(j, "nodes");
    let params = names(j, "parameters");
    let virt = names(j, "virtual_nodes");
    let sets = names(j, "metric_sets");
    let injected: Vec<String> = match any {
        Any::Net(n) => n.params.iter().map(|p| p.name.clone()).collect(),
        Any::Par(p) => p.ps.iter().map(|p| p.name.clone()).chain(["drv-flow".to_string(), "drv-demand".to_string()]).collect(),
        Any::Comp(m) => m.arrays.iter().map(|a| a.0.clone()).collect(),
    };
    let mut found = vec![];
    let mut path = net.clone();
    let v = get(j, &net).clone();
    let is = |p: &Path, k: &str| p.last().map(|l| l == k).unwrap_or(false);
    match kind {
        "Node" | "Parameter" | "VirtualNode" => {
            // metrics: objects of this type with a name
            sites(&v, &mut path, &|p, v| v["type"] == kind && v["name"].is_string() && v.get("meta").is_none() && !is(p, "network"), &mut found);
            if found.is_empty() {
                return None;
            }
            let p = r.pick(&found).clone();
            let old = get(j, &p)["name"].as_str().unwrap().to_string();
            let (own, others): (Vec<String>, Vec<String>) = match kind {
                "Node" => (nodes.clone(), [params, virt, sets].concat()),
                "Parameter" => ([params, injected].concat(), [nodes.clone(), virt, sets].concat()),
                _ => (virt, [nodes.clone(), params, sets].concat()),
            };
            let new = misspell(r, &old, &others);
            if own.contains(&new) {
                return None;
            }
            let w = place(j, &p);
            at(j, &p)["name"] = json!(new);
            Some((format!("unknown-{kind}"), w))
        }
        "Edge" => {
            sites(&v, &mut path, &|_, v| v["type"] == "Edge" && v["edge"].is_object(), &mut found);
            if found.is_empty() {
                return None;
            }
            let p = r.pick(&found).clone();
            let w = place(j, &p);
            let e = at(j, &p);
            if r.chance(0.5) {
                // the nodes exist but are not connected in this direction
                let (a, b) = (e["edge"]["from_node"].clone(), e["edge"]["to_node"].clone());
                e["edge"]["from_node"] = b;
                e["edge"]["to_node"] = a;
                let (a, b) = (get(j, &p)["edge"]["from_node"].clone(), get(j, &p)["edge"]["to_node"].clone());
                if j["network"]["edges"].as_array().unwrap().iter().any(|e| e["from_node"] == a && e["to_node"] == b) {
                    return None;
                }
            } else {
                e["edge"][*r.pick(&["from_node", "to_node"])] = json!("nothing");
            }
            Some(("unknown-edge".into(), w))
        }
        "edge" => {
            let n = j["network"]["edges"].as_array().unwrap().len();
            let i = r.us(0, n - 1);
            let k = *r.pick(&["from_node", "to_node"]);
            let old = j["network"]["edges"][i][k].as_str().unwrap().to_string();
            let new = misspell(r, &old, &[params, virt, vec!["nothing".into()]].concat());
            if nodes.contains(&new) {
                return None;
            }
            j["network"]["edges"][i][k] = json!(new);
            Some(("edge-to-unknown-node".into(), k.into()))
        }
        "member" | "storage" => {
            let field = if kind == "member" { "nodes" } else { "storage_nodes" };
            let vs = j["network"].get_mut("virtual_nodes").and_then(|v| v.as_array_mut())?;
            let c: Vec<usize> = (0..vs.len()).filter(|i| vs[*i][field].as_array().is_some_and(|a| !a.is_empty())).collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            let t = vs[i]["type"].as_str().unwrap_or("").to_string();
            let a = vs[i][field].as_array_mut().unwrap();
            let k = r.us(0, a.len() - 1);
            let old = a[k]["name"].as_str()?.to_string();
            let new = misspell(r, &old, &[params, virt, vec!["nothing".into()]].concat());
            if nodes.contains(&new) {
                return None;
            }
            a[k]["name"] = json!(new);
            Some(("unknown-member".into(), t))
        }
        "metric_set" => {
            let outs = j["network"].get_mut("outputs").and_then(|v| v.as_array_mut())?;
            if outs.is_empty() {
                return None;
            }
            let i = r.us(0, outs.len() - 1);
            let m = &mut outs[i]["metric_set"];
            let new = misspell(r, "set0", &["set".into(), "long".into()]);
            if let Some(a) = m.as_array_mut() {
                let k = r.us(0, a.len() - 1);
                a[k] = json!(new);
            } else {
                *m = json!(new);
            }
            Some(("unknown-metric-set".into(), outs[i]["type"].as_str().unwrap_or("").to_string()))
        }
        "scenario_group" => {
            sites(&v, &mut path, &|_, v| v["scenario_group"].is_string(), &mut found);
            if found.is_empty() {
                return None;
            }
            let p = r.pick(&found).clone();
            let w = place(j, &p);
            let old = get(j, &p)["scenario_group"].as_str().unwrap().to_string();
            let new = misspell(r, &old, &[params, vec!["nothing".into()]].concat());
            if j["scenarios"]["groups"].as_array().into_iter().flatten().any(|g| g["name"] == new.as_str()) {
                return None;
            }
            at(j, &p)["scenario_group"] = json!(new);
            Some(("unknown-scenario-group".into(), w))
        }
        _ => {
            // a metric of a kind that the model does not have at all, anywhere a metric is
            sites(&v, &mut path, &|p, v| (v["type"] == "Parameter" || v["type"] == "Literal") && (v["name"].is_string() || v["value"].is_f64()) && !is(p, "network"), &mut found);
            // index metrics, vectors and constant values have other forms
            found.retain(|p| {
                let par = get(j, &p[..p.len() - 1]);
                let last = p.last().unwrap();
                let t = par["type"].as_str().unwrap_or("");
                let up = if p.len() > 2 { get(j, &p[..p.len() - 2])["type"].as_str().unwrap_or("") } else { "" };
                !(t == "AggregatedIndex" || up == "AggregatedIndex" || last.contains("index_parameter") || t == "RollingIndex" || t == "DelayIndex" || last == "reset_day" || last == "reset_month" || last == "residual_days")
            });
            if found.is_empty() {
                return None;
            }
            let p = r.pick(&found).clone();
            let w = place(j, &p);
            *at(j, &p) = match kind {
                "table" => json!({"type":"Table","table":"nothing","row":"a"}),
                "timeseries" => json!({"type":"Timeseries","name":"nothing","columns":{"type":"Column","name":"a"}}),
                "transfer" => json!({"type":"InterNetworkTransfer","name":"nothing"}),
                _ => json!({"type":"LocalParameter","name":"nothing"}),
            };
            Some((format!("unknown-{kind}"), w))
        }
    }
}

fn par(n: &str, ret: Option<&str>) -> Value {
    let mut j = json!({"type":"Parameter","name":n});
    if let Some(r) = ret {
        j["return_value"] = json!(r);
    }
    j
}
fn lit(v: f64) -> Value {
    json!({"type":"Literal","value":v})
}

/// A parameter that depends on `on` in the same phase, in one of many ways.
fn dependent(r: &mut Rng, name: &str, on: &str, after: bool) -> (Value, String) {
    let p = par(on, if after { Some("After") } else { None });
    let i = json!({"type":"Parameter","name":on});
    let st = lit(0.5);
    let m = json!({"name":name});
    let kind = if after { r.us(0, 1) } else { r.us(0, 22) };
    let ph = if after { "After" } else { "Before" };
    let v = match kind {
        0 => json!({"type":"Aggregated","phase":ph,"agg_func":{"type":"Sum"},"metrics":[lit(1.0), p]}),
        1 => json!({"type":"Division","phase":ph,"numerator":lit(1.0),"denominator":p}),
        2 => json!({"type":"Division","phase":"Before","numerator":p,"denominator":lit(1.0)}),
        3 => json!({"type":"Negative","parameter":p}),
        4 => json!({"type":"Max","parameter":p,"threshold":1.0}),
        5 => json!({"type":"Min","parameter":p,"threshold":1.0}),
        6 => json!({"type":"NegativeMax","metric":p,"threshold":1.0}),
        7 => json!({"type":"NegativeMin","metric":p,"threshold":1.0}),
        8 => json!({"type":"Offset","metric":p,"offset":lit(1.0)}),
        9 => json!({"type":"Polynomial1D","metric":p,"coefficients":[1.0, 2.0]}),
        10 => json!({"type":"Interpolated","x":p,"xp":[lit(0.0), lit(1.0)],"fp":[lit(0.0), lit(1.0)]}),
        11 => json!({"type":"Interpolated","x":st,"xp":[lit(0.0), lit(1.0)],"fp":[p, lit(1.0)]}),
        12 => json!({"type":"Interpolated","x":st,"xp":[lit(0.0), p],"fp":[lit(0.0), lit(1.0)]}),
        13 => json!({"type":"Threshold","metric":p,"threshold":lit(1.0),"predicate":"LT","returned_metrics":[lit(1.0), lit(2.0)]}),
        14 => json!({"type":"Threshold","metric":st,"threshold":p,"predicate":"LT","returned_metrics":[lit(1.0), lit(2.0)]}),
        15 => json!({"type":"Threshold","metric":st,"threshold":lit(1.0),"predicate":"LT","returned_metrics":[p, lit(2.0)]}),
        16 => json!({"type":"ControlCurve","storage_metric":st,"control_curves":[p],"values":[lit(1.0), lit(2.0)]}),
        17 => json!({"type":"ControlCurve","storage_metric":st,"control_curves":[lit(0.5)],"values":[lit(1.0), p]}),
        18 => json!({"type":"ControlCurveInterpolated","storage_metric":p,"control_curves":[lit(0.5)],"values":[lit(1.0), lit(2.0), lit(3.0)]}),
        19 => json!({"type":"IndexedArray","index_parameter":{"type":"Constant","value":0},"metrics":[p, lit(2.0)]}),
        20 => json!({"type":"DiscountFactor","discount_rate":p,"base_year":2000}),
        21 => json!({"type":"HydropowerTarget","target":p,"min_head":0.0}),
        _ => json!({"type":"ControlCurvePiecewiseInterpolated","storage_metric":p,"control_curves":[lit(0.5)],"values":[[1.0, 2.0], [3.0, 4.0]]}),
    };
    let _ = i;
    let mut v = v;
    v["meta"] = m;
    let t = v["type"].as_str().unwrap().to_string();
    (v, format!("{t}{kind}"))
}

/// Index parameters
fn dependent_index(r: &mut Rng, name: &str, on: &str) -> (Value, String) {
    let i = json!({"type":"Parameter","name":on});
    let k = json!({"type":"Constant","value":1});
    let mut v = match r.us(0, 3) {
        0 => json!({"type":"AggregatedIndex","phase":"Before","agg_func":{"type":"Max"},"metrics":[k, i]}),
        1 => json!({"type":"AsymmetricSwitchIndex","on_index_parameter":i,"off_index_parameter":k}),
        2 => json!({"type":"AsymmetricSwitchIndex","on_index_parameter":k,"off_index_parameter":i}),
        _ => json!({"type":"AggregatedIndex","phase":"Before","agg_func":{"type":"Any"},"metrics":[i]}),
    };
    v["meta"] = json!({"name":name});
    let t = v["type"].as_str().unwrap().to_string();
    (v, t)
}

fn add_params(r: &mut Rng, j: &mut Value, new: Vec<Value>) {
    if !j["network"]["parameters"].is_array() {
        j["network"]["parameters"] = json!([]);
    }
    let a = j["network"]["parameters"].as_array_mut().unwrap();
    for p in new {
        let i = r.us(0, a.len());
        a.insert(i, p);
    }
}

fn cycle(r: &mut Rng, any: &Any, j: &mut Value) -> Option<(String, String)> {
    let k = r.us(1, 6);
    let n = |i: usize| format!("cyc{}", i % k);
    let index = r.chance(0.2);
    let after = !index && r.chance(0.2);
    let mut what = vec![];
    let mut new = vec![];
    for i in 0..k {
        let (v, t) = if index { dependent_index(r, &n(i), &n(i + 1)) } else { dependent(r, &n(i), &n(i + 1), after) };
        what.push(t);
        new.push(v);
    }
    // sometimes one reference of an existing parameter closes the cycle
    if !index && !after && r.chance(0.3) && !matches!(any, Any::Net(_)) {
        let mut found = vec![];
        let ps = j["network"]["parameters"].clone();
        sites(&ps, &mut vec![], &|_, v| v["type"] == "Literal" && v["value"].is_number(), &mut found);
        let usable: Vec<(usize, Path)> = found
            .iter()
            .filter_map(|p| {
                let i = p[0].parse::<usize>().ok()?;
                // fields which hold a metric
                let t = ps[i]["type"].as_str()?;
                (matches!(t, "Aggregated" | "Max" | "Min" | "ControlCurve" | "ControlCurveInterpolated" | "Threshold" | "IndexedArray" | "Interpolated") && ps[i]["phase"].as_str().unwrap_or("Before") == "Before").then(|| (i, p.clone()))
            })
            .collect();
        if let Some((i, p)) = usable.first().cloned() {
            let mut full = vec!["network".to_string(), "parameters".to_string()];
            full.extend(p);
            let name = ps[i]["meta"]["name"].as_str().unwrap().to_string();
            *at(j, &full) = par("cyc0", None);
            let (v, _) = dependent(r, &n(k - 1), &name, false);
            new[k - 1] = v;
            add_params(r, j, new);
            return Some(("cycle-with-existing".into(), format!("{} {k}", ps[i]["type"])));
        }
    }
    add_params(r, j, new);
    Some((if index { "cycle-index".into() } else if after { "cycle-after".into() } else { "cycle".into() }, what.join(" ")))
}

fn duplicate(r: &mut Rng, any: &Any, j: &mut Value) -> Option<(String, String)> {
    let key = *r.pick(&["nodes", "parameters", "virtual_nodes", "metric_sets", "edges", "injected"]);
    if key == "injected" {
        // the same name as a parameter of another type
        let n = match any {
            Any::Net(n) => n.params.first().map(|p| p.name.clone())?,
            Any::Par(p) => r.pick(&p.ps).name.clone(),
            Any::Comp(m) => m.arrays.first().map(|a| a.0.clone())?,
        };
        let v = match r.us(0, 2) {
            0 => json!({"meta":{"name":n},"type":"Constant","value":lit(1.0)}),
            1 => json!({"meta":{"name":n},"type":"AggregatedIndex","phase":"Before","agg_func":{"type":"Max"},"metrics":[{"type":"Constant","value":1}]}),
            _ => json!({"meta":{"name":n},"type":"ControlCurveIndex","storage_metric":lit(0.5),"control_curves":[lit(0.5)]}),
        };
        let t = v["type"].to_string();
        add_params(r, j, vec![v]);
        return Some(("duplicate-parameter-of-another-type".into(), t));
    }
    let a = j["network"].get_mut(key)?.as_array_mut()?;
    if a.is_empty() {
        return None;
    }
    let i = r.us(0, a.len() - 1);
    let mut v = a[i].clone();
    let mut w = key.to_string();
    if key == "nodes" && r.chance(0.5) {
        v = json!({"meta":{"name":v["meta"]["name"]},"type":r.pick(&["Link", "Storage"])});
        if v["type"] == "Storage" {
            v["max_volume"] = lit(1.0);
            v["initial_volume"] = json!({"type":"Absolute","volume":0.0});
        }
        w += " of another type";
    }
    let k = r.us(0, a.len());
    a.insert(k, v);
    Some(("duplicate".into(), w))
}

fn structure(r: &mut Rng, j: &mut Value) -> Option<(String, String)> {
    let net = &mut j["network"];
    let nodes = net["nodes"].as_array().unwrap().clone();
    let name = |n: &Value| n["meta"]["name"].as_str().unwrap().to_string();
    let of = |t: &[&str]| -> Vec<String> { nodes.iter().filter(|n| t.contains(&n["type"].as_str().unwrap_or(""))).map(name).collect() };
    let edges = net["edges"].as_array_mut().unwrap();
    let ins = of(&["Input", "Catchment"]);
    let outs = of(&["Output"]);
    let links = of(&["Link"]);
    let any: Vec<String> = of(&["Input", "Output", "Link", "Storage", "Catchment"]);
    match r.us(0, 9) {
        0 => {
            let n = r.pick(&any).clone();
            edges.push(json!({"from_node":n,"to_node":n}));
            Some(("self-connection".into(), String::new()))
        }
        1 if !outs.is_empty() => {
            let to: Vec<&String> = links.iter().chain(&outs).collect();
            let (a, b) = (r.pick(&outs).clone(), (*r.pick(&to)).clone());
            if a == b {
                return None;
            }
            edges.push(json!({"from_node":a,"to_node":b}));
            Some(("edge-from-output".into(), String::new()))
        }
        2 if !ins.is_empty() => {
            let from: Vec<&String> = links.iter().chain(&ins).collect();
            let (a, b) = ((*r.pick(&from)).clone(), r.pick(&ins).clone());
            if a == b {
                return None;
            }
            edges.push(json!({"from_node":a,"to_node":b}));
            Some(("edge-to-input".into(), String::new()))
        }
        3 => {
            // a node to or from which nothing can flow
            let t = *r.pick(&["Input", "Output", "Link", "Link", "Catchment", "RiverGauge"]);
            if t == "Link" || t == "RiverGauge" {
                if r.chance(0.5) && !ins.is_empty() {
                    edges.push(json!({"from_node":r.pick(&ins),"to_node":"alone"}));
                } else if !outs.is_empty() {
                    edges.push(json!({"from_node":"alone","to_node":r.pick(&outs)}));
                }
            }
            let mut n = json!({"meta":{"name":"alone"},"type":t});
            if t == "Catchment" {
                n["flow"] = lit(1.0);
            }
            net["nodes"].as_array_mut().unwrap().push(n);
            Some(("unconnected".into(), t.into()))
        }
        4 => {
            let t = r.chance(0.5);
            if t {
                let i = r.us(0, nodes.len() - 1);
                let m = nodes[i]["meta"].clone();
                net["nodes"][i] = json!({"meta":m,"type":"Placeholder"});
                Some(("placeholder".into(), "node".into()))
            } else {
                let ph = json!({"meta":{"name":"placeholder"},"type":"Placeholder"});
                add_params(r, j, vec![ph]);
                Some(("placeholder".into(), "parameter".into()))
            }
        }
        5 => {
            // slots which these nodes do not have
            let c: Vec<usize> = (0..edges.len()).filter(|i| any.iter().any(|n| edges[*i]["from_node"] == n.as_str())).collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            let s = match r.us(0, 3) {
                0 => json!({"type":"Spill"}),
                1 => json!({"type":"Split","position":0}),
                2 => json!({"type":"User","name":"x"}),
                _ => json!({"type":"Abstraction"}),
            };
            edges[i]["from_slot"] = s.clone();
            Some(("unknown-slot".into(), format!("from {}", s["type"])))
        }
        6 => {
            let c: Vec<usize> = (0..edges.len()).filter(|i| any.iter().any(|n| edges[*i]["to_node"] == n.as_str())).collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            edges[i]["to_slot"] = json!({"type":r.pick(&["Spill", "Storage", "River"])});
            Some(("unknown-slot".into(), "to".into()))
        }
        7 => {
            // positions and names of slots which the node does not have
            let c: Vec<usize> = (0..edges.len()).filter(|i| edges[*i]["from_slot"]["type"] == "Split" || edges[*i]["from_slot"]["type"] == "User").collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            if edges[i]["from_slot"]["type"] == "Split" {
                edges[i]["from_slot"]["position"] = json!(r.us(7, 99));
            } else {
                edges[i]["from_slot"]["name"] = json!("nothing");
            }
            Some(("unknown-slot".into(), "position".into()))
        }
        8 => {
            // attributes these nodes do not have
            let (t, a): (&[&str], &[&str]) = *r.pick(&[
                (&["Input", "Catchment"][..], &["Volume", "ProportionalVolume", "MaxVolume", "Loss", "Power", "Compensation", "Rainfall", "Abstraction"][..]),
                (&["Output"][..], &["Volume", "ProportionalVolume", "Loss", "Power", "Evaporation"][..]),
                (&["Link"][..], &["Volume", "ProportionalVolume", "Power", "Compensation", "Rainfall", "Abstraction"][..]),
                (&["Storage"][..], &["Loss", "Power", "Deficit", "Compensation", "Rainfall", "Evaporation"][..]),
            ]);
            let c = of(t);
            if c.is_empty() {
                return None;
            }
            let m = json!({"type":"Node","name":r.pick(&c),"attribute":r.pick(a)});
            let w = format!("{}", m["attribute"]);
            let (p, _) = dependent(r, "wrong-attribute", "x", false);
            let mut p = p;
            let mut f = vec![];
            sites(&p.clone(), &mut vec![], &|_, v| v["type"] == "Parameter", &mut f);
            *at(&mut p, &f[0]) = m;
            add_params(r, j, vec![p]);
            Some(("unknown-attribute".into(), format!("{} {w}", t[0])))
        }
        _ => {
            let vs = net.get_mut("virtual_nodes").and_then(|v| v.as_array_mut())?;
            let c: Vec<usize> = (0..vs.len()).filter(|i| vs[*i]["nodes"].as_array().is_some_and(|a| !a.is_empty())).collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            let k = r.us(0, vs[i]["nodes"].as_array().unwrap().len() - 1);
            let n = vs[i]["nodes"][k]["name"].as_str()?.to_string();
            if !any.contains(&n) {
                return None;
            }
            vs[i]["nodes"][k]["component"] = json!(r.pick(&["Compensation", "Rainfall", "Abstraction", "Evaporation"]));
            Some(("unknown-component".into(), vs[i]["type"].to_string()))
        }
    }
}

/// Values of a phase in which the parameter has none.
fn phases(r: &mut Rng, j: &mut Value) -> Option<(String, String)> {
    let scenario = j["scenarios"]["groups"][0]["name"].as_str().map(|n| (n.to_string(), j["scenarios"]["groups"][0]["size"].as_u64().unwrap_or(1) as usize));
    let k = json!({"type":"Constant","value":1});
    let state = j["network"]["nodes"].as_array()?.iter().find(|n| n["type"] == "Link" || n["type"] == "Input" || n["type"] == "Storage" || n["type"] == "Catchment").map(|n| json!({"type":"Node","name":n["meta"]["name"]}));
    // what the source is made from: constant, depending on the date only, or on the state
    let date = json!({"type":"Parameter","name":"phased date"});
    let date_def = json!({"meta":{"name":"phased date"},"type":"MonthlyProfile","values":{"type":"Literal","values":(1..13).collect::<Vec<i32>>()}});
    let (inner, made_of) = match r.us(0, 2) {
        0 => (lit(1.0), "constant"),
        1 => (date, "date"),
        _ => (state.unwrap_or(lit(1.0)), "state"),
    };
    let index = r.chance(0.45);
    let (phase, wrong): (&str, &str) = *r.pick(&[("After", "Before"), ("Before", "After"), ("Before", "AfterOrElseInitial"), ("Both", "After"), ("After", "After")]);
    // the last two are wrong for users in the phase before only
    let user_before_only = phase == "Both" || wrong == phase;
    let source = match (index, phase) {
        (true, _) => match r.us(0, 2) {
            0 => json!({"type":"AggregatedIndex","phase":phase,"agg_func":{"type":"Sum"},"metrics":[k, k]}),
            1 if phase == "Before" => json!({"type":"AsymmetricSwitchIndex","on_index_parameter":k,"off_index_parameter":k}),
            _ if phase == "Before" => json!({"type":"ControlCurveIndex","storage_metric":inner,"control_curves":[lit(0.5)]}),
            _ => json!({"type":"AggregatedIndex","phase":phase,"agg_func":{"type":"Max"},"metrics":[k]}),
        },
        (false, "Before") => match r.us(0, 5) {
            0 => json!({"type":"Constant","value":{"type":"Literal","value":2.0}}),
            1 => date_def.clone(),
            2 => match &scenario {
                Some((g, n)) => json!({"type":"ConstantScenario","scenario_group":g,"values":{"type":"Literal","values":vec![1.0; *n]}}),
                None => json!({"type":"Offset","metric":inner,"offset":lit(1.0)}),
            },
            3 => json!({"type":"Polynomial1D","metric":inner,"coefficients":[1.0, 2.0]}),
            4 => json!({"type":"Division","phase":"Before","numerator":inner,"denominator":lit(2.0)}),
            _ => json!({"type":"Aggregated","phase":"Before","agg_func":{"type":"Sum"},"metrics":[inner]}),
        },
        _ if r.chance(0.5) => json!({"type":"Division","phase":phase,"numerator":inner,"denominator":lit(2.0)}),
        _ => json!({"type":"Aggregated","phase":phase,"agg_func":{"type":"Sum"},"metrics":[inner]}),
    };
    let mut source = source;
    source["meta"] = json!({"name":"phased"});
    let st = source["type"].as_str().unwrap().to_string();
    if source["type"] == "ControlCurveIndex" && made_of == "constant" {
        source["storage_metric"] = lit(0.25);
    }
    let refer = |user: &mut Value| {
        let mut f = vec![];
        sites(&user.clone(), &mut vec![], &|_, v| v["type"] == "Parameter" && v["name"] == "phased", &mut f);
        at(user, &f[0])["return_value"] = json!(wrong);
    };
    let mut new = vec![date_def, source];
    let place = match r.us(0, 5) {
        0 | 1 if index => {
            let (mut user, t) = dependent_index(r, "user", "phased");
            refer(&mut user);
            new.push(user);
            t
        }
        2 if index => {
            let mut user = json!({"meta":{"name":"user"},"type":"IndexedArray","index_parameter":{"type":"Parameter","name":"phased"},"metrics":[lit(1.0), lit(2.0), lit(3.0)]});
            refer(&mut user);
            new.push(user);
            "IndexedArray".into()
        }
        3 if !user_before_only => {
            let ph = *r.pick(&["After", "Both"]);
            let mut user = if index && r.chance(0.5) {
                json!({"meta":{"name":"user"},"type":"AggregatedIndex","phase":ph,"agg_func":{"type":"Sum"},"metrics":[par("phased", None)]})
            } else {
                json!({"meta":{"name":"user"},"type":"Aggregated","phase":ph,"agg_func":{"type":"Sum"},"metrics":[par("phased", None)]})
            };
            refer(&mut user);
            new.push(user);
            format!("phase {ph}")
        }
        4 if !user_before_only => {
            let mut m = par("phased", None);
            m["return_value"] = json!(wrong);
            j["network"]["metric_sets"][0]["metrics"].as_array_mut()?.push(m);
            "metric set".into()
        }
        _ => {
            let (mut user, t) = dependent(r, "user", "phased", false);
            refer(&mut user);
            new.push(user);
            t
        }
    };
    if new[1]["type"] == "MonthlyProfile" && new[1]["meta"]["name"] == "phased" {
        new.remove(0);
    }
    add_params(r, j, new);
    Some(("wrong-phase".into(), format!("{place}: {wrong} of {st} {phase} {made_of} index={index}")))
}

/// References to what can not be an index: attributes of nodes and transfers.
fn index_reference(r: &mut Rng, j: &mut Value) -> Option<(String, String)> {
    let nodes = names(j, "nodes");
    let metric = match r.us(0, 3) {
        0 => json!({"type":"Node","name":r.pick(&nodes)}),
        1 => json!({"type":"Node","name":r.pick(&nodes),"attribute":r.pick(&["Inflow", "Outflow", "Volume", "MaxVolume", "Power"])}),
        2 => json!({"type":"Node","name":misspell(r, "no such node", &nodes)}),
        _ => json!({"type":"InterNetworkTransfer","name":"no such transfer"}),
    };
    let (mut user, mut place) = dependent_index(r, "user", "no index");
    if r.chance(0.3) {
        user = json!({"meta":{"name":"user"},"type":"IndexedArray","index_parameter":par("no index", None),"metrics":[lit(1.0), lit(2.0), lit(3.0)]});
        place = "IndexedArray".into();
    }
    let mut f = vec![];
    sites(&user.clone(), &mut vec![], &|_, v| v["type"] == "Parameter" && v["name"] == "no index", &mut f);
    *at(&mut user, &f[0]) = metric.clone();
    add_params(r, j, vec![user]);
    Some(("no-index".into(), format!("{place}: {}", metric["type"])))
}

/// Virtual nodes of different types with the same name.
fn same_virtual(r: &mut Rng, j: &mut Value) -> Option<(String, String)> {
    let stores: Vec<Value> = j["network"]["nodes"].as_array()?.iter().filter(|n| n["type"] == "Storage").map(|n| n["meta"]["name"].clone()).collect();
    let flow = j["network"]["nodes"].as_array()?.iter().find(|n| n["type"] == "Link" || n["type"] == "Input" || n["type"] == "Catchment")?["meta"]["name"].clone();
    if !j["network"]["virtual_nodes"].is_array() {
        j["network"]["virtual_nodes"] = json!([]);
    }
    let vs = j["network"]["virtual_nodes"].as_array_mut()?;
    let mut two = vec![
        json!({"meta":{"name":"twice"},"type":"Aggregated","nodes":[{"name":flow}]}),
        json!({"meta":{"name":"twice"},"type":"VirtualStorage","nodes":[{"name":flow}],"max_volume":lit(1e6),"initial_volume":{"type":"Proportional","proportion":1.0}}),
    ];
    if let Some(s) = stores.first() {
        two.push(json!({"meta":{"name":"twice"},"type":"AggregatedStorage","storage_nodes":[{"name":s}]}));
    }
    r.shuffle(&mut two);
    two.truncate(2);
    let w = format!("{} {}", two[0]["type"], two[1]["type"]);
    for t in two {
        let k = r.us(0, vs.len());
        vs.insert(k, t);
    }
    Some(("duplicate-virtual-node-of-another-type".into(), w))
}

/// Lists of which the number of entries does not fit.
fn lengths(r: &mut Rng, j: &mut Value) -> Option<(String, String)> {
    let off = |r: &mut Rng, n: usize| -> usize { if r.chance(0.5) { n + r.us(1, 2) } else { n - r.us(1, 2.min(n)) } };
    let lits = |n: usize| -> Vec<Value> { (0..n).map(|i| lit(i as f64)).collect() };
    let nums = |n: usize| -> Vec<f64> { (0..n).map(|i| i as f64).collect() };
    let m = json!({"name":"odd"});
    let lv = |n: usize| json!({"type":"Literal","values":(0..n).map(|i| i as f64).collect::<Vec<_>>()});
    let k = r.us(1, 4);
    let cc: Vec<Value> = (0..k).map(|i| lit(0.9 - 0.1 * i as f64)).collect();
    let st = lit(0.5);
    let v = match r.us(0, 12) {
        0 => json!({"meta":m,"type":"MonthlyProfile","values":lv(off(r, 12))}),
        1 => json!({"meta":m,"type":"DailyProfile","values":lv(off(r, 360))}),
        2 => {
            let n = if r.chance(0.5) { r.us(1, 51) } else { r.us(54, 60) };
            json!({"meta":m,"type":"WeeklyProfile","values":lv(n)})
        }
        3 => json!({"meta":m,"type":"DiurnalProfile","values":lv(off(r, 24))}),
        4 => json!({"meta":m,"type":"ControlCurve","storage_metric":st,"control_curves":cc,"values":lits(off(r, k + 1))}),
        5 => json!({"meta":m,"type":"ControlCurveInterpolated","storage_metric":st,"control_curves":cc,"values":lits(off(r, k + 2))}),
        6 => json!({"meta":m,"type":"ControlCurvePiecewiseInterpolated","storage_metric":st,"control_curves":cc,"values":(0..off(r, k + 1)).map(|_| [1.0, 2.0]).collect::<Vec<_>>()}),
        7 => json!({"meta":m,"type":"Interpolated","x":st,"xp":lits(k + 1),"fp":lits(off(r, k + 1))}),
        8 => json!({"meta":m,"type":"Threshold","metric":st,"threshold":st,"predicate":"LT","returned_metrics":lits(off(r, 2))}),
        9 => json!({"meta":m,"type":"Threshold","metric":st,"threshold":st,"predicate":"LT","returned_metrics":lits(off(r, 2))}),
        10 => json!({"meta":m,"type":"MultiThreshold","metric":st,"thresholds":lits(k),"predicate":"LT","returned_metrics":lits(off(r, k + 1))}),
        11 => {
            let groups = j["scenarios"]["groups"].as_array()?.clone();
            let g = r.pick(&groups).clone();
            let n = g["size"].as_u64()? as usize;
            json!({"meta":m,"type":"ConstantScenario","scenario_group":g["name"],"values":{"type":"Literal","values":nums(off(r, n))}})
        }
        _ => {
            let vs = j["network"].get_mut("virtual_nodes").and_then(|v| v.as_array_mut())?;
            let c: Vec<usize> = (0..vs.len()).filter(|i| vs[*i]["type"] == "VirtualStorage" || vs[*i]["relationship"]["factors"].is_array()).collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            let t = vs[i]["type"].to_string();
            let n = vs[i]["nodes"].as_array()?.len();
            if vs[i]["type"] == "VirtualStorage" {
                vs[i]["factors"] = json!(vec![1.0; off(r, n)]);
            } else {
                let a = vs[i]["relationship"]["factors"].as_array_mut()?;
                let extra = a[0].clone();
                if r.chance(0.5) {
                    a.push(extra);
                } else {
                    a.pop();
                }
            }
            return Some(("wrong-number-of-factors".into(), format!("{t} {}", vs[i]["relationship"]["type"])));
        }
    };
    let t = v["type"].to_string();
    add_params(r, j, vec![v]);
    Some(("wrong-length".into(), t))
}

/// Parts that lack something another part needs.
fn lacking(r: &mut Rng, j: &mut Value) -> Option<(String, String)> {
    let net = &mut j["network"];
    match r.us(0, 4) {
        0 => {
            let s = r.us(0, 1);
            let m = net["metric_sets"][s]["metrics"].as_array_mut()?;
            let k = r.us(0, m.len());
            m.insert(k, lit(1.5));
            Some(("literal-in-metric-set".into(), String::new()))
        }
        1 => {
            let s = r.us(0, 1);
            if r.chance(0.5) {
                net["metric_sets"][s]["metrics"] = json!([]);
            } else {
                net["metric_sets"].as_array_mut()?.push(json!({"name":"empty","metrics":[]}));
            }
            Some(("empty-metric-set".into(), String::new()))
        }
        2 => {
            let c: Vec<usize> = (0..net["virtual_nodes"].as_array()?.len()).filter(|i| net["virtual_nodes"][*i]["type"] == "VirtualStorage").collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            net["virtual_nodes"][i]["window"] = if r.chance(0.5) { json!({"type":"Timesteps","timesteps":0}) } else { json!({"type":"Days","days":0}) };
            Some(("empty-window".into(), net["virtual_nodes"][i]["reset"]["type"].to_string()))
        }
        _ => {
            let ns = net["nodes"].as_array_mut()?;
            let c: Vec<usize> = (0..ns.len())
                .filter(|i| {
                    let n = &ns[*i];
                    n["type"] == "Reservoir" && !n["surface_area"].is_null() && !(n["rainfall"].is_null() && n["evaporation"].is_null()) || n["type"] == "Abstraction" && !n["mrf"].is_null() && !n["mrf_cost"].is_null()
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            let f = if ns[i]["type"] == "Reservoir" { "surface_area" } else { "mrf" };
            ns[i].as_object_mut()?.remove(f);
            let w = format!("{f} {} {}", ns[i]["rainfall"].is_null(), ns[i]["evaporation"].is_null());
            Some(("field-needed-by-another".into(), w))
        }
    }
}

fn c10(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (any, mut j) = match r.us(0, 4) {
        0 => {
            let n = netgen::generate(r, &GenOpts { vs: 2, aggs: 2, ..Default::default() });
            let j = n.json();
            (Any::Net(n), j)
        }
        1 => {
            let class = *r.pick(&[params::FUNC, params::HIST, params::CAL]);
            let p = params::generate(r, class, c.thorough);
            let j = p.json();
            (Any::Par(p), j)
        }
        _ => {
            let m = composite::generate(r, c.thorough);
            let j = m.json();
            (Any::Comp(m), j)
        }
    };
    if j.get("scenarios").is_none() && r.chance(0.7) {
        j["scenarios"] = json!({"groups":[{"name":"copy","size":r.us(1, 4)}]});
    }
    let first = j["network"]["nodes"][0]["meta"]["name"].clone();
    let mut listed = vec![];
    if !matches!(any, Any::Comp(_)) {
        listed.push(json!({"type":"Node","name":first}));
    }
    let e = &j["network"]["edges"][0];
    if e.get("from_slot").is_none() && !matches!(any, Any::Comp(_)) {
        listed.push(json!({"type":"Edge","edge":{"from_node":e["from_node"],"to_node":e["to_node"]}}));
    }
    if matches!(any, Any::Comp(_)) {
        listed.push(json!({"type":"Node","name":"dem"}));
        listed.push(json!({"type":"Edge","edge":{"from_node":"src","to_node":"sink"}}));
    }
    j["network"]["metric_sets"] = json!([{"name":"set0","metrics":listed},{"name":"set1","metrics":listed}]);
    j["network"]["outputs"] = json!([
        {"name":"long","type":"CSV","format":"Long","filename":"long.csv","metric_set":["set0","set1"]},
        {"name":"wide","type":"CSV","format":"Wide","filename":"wide.csv","metric_set":"set1"},
        {"name":"mem","type":"Memory","metric_set":"set1","aggregation":{}},
        {"name":"hdf","type":"HDF5","filename":"out.h5","metric_set":"set0"},
    ]);
    let dir = c.scratch.join("out");
    std::fs::create_dir_all(&dir).unwrap();
    c.desc = json!({"model": j});
    match build(&any, &j, &dir, false) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(viol("model-rejected", e)),
        Err(p) => return Err(viol("panic", p)),
    }
    c.count("models", 1);
    for _ in 0..12 {
        let r = &mut c.rng;
        let mut k = j.clone();
        let w = match r.us(0, 9) {
            0..=4 => unknown(r, &any, &mut k),
            5 => cycle(r, &any, &mut k),
            6 => match r.us(0, 6) {
                6 => lacking(r, &mut k),
                5 => index_reference(r, &mut k),
                0 | 1 => phases(r, &mut k),
                2 => same_virtual(r, &mut k),
                _ => duplicate(r, &any, &mut k),
            },
            7 | 8 => structure(r, &mut k),
            _ => lengths(r, &mut k),
        };
        let Some((what, place)) = w else {
            c.count("not_applicable", 1);
            continue;
        };
        if k == j {
            continue;
        }
        c.desc = json!({"model": k, "what": what, "where": place});
        match build(&any, &k, &dir, what == "wrong-number-of-factors") {
            Ok(Err(_)) => {
                c.count(&what, 1);
                c.seen((what, place));
            }
            Ok(Ok(())) => return Err(viol(format!("accepted:{what}"), format!("{what} ({place}): the model is accepted"))),
            Err(p) => return Err(viol(format!("panic:{what}"), format!("{what} ({place}): {p}"))),
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        rule: "distinct (kind of defect, place in the model by types and fields) refused",
        assumptions: &["The model without the defect is accepted; that is checked in every case."],
        quick: 7000,
        thorough: 60000,
        random: c10,
        directed: &[],
        threads: 8,
    }]
}
