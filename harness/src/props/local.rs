//! C27: parameters defined in a node mean the same as global ones, and belong to that node only.
use super::repro::{Any, compare_traces};
use super::{composite, params};
use crate::fw::{Case, Prop, Res, Rng, guard, viol};
use crate::netgen::{self, GenOpts};
use crate::run::{self, SolverSel, Trace};
use pywr_core::metric::UnresolvedMetricF64 as UM;
use pywr_core::models::ModelBuilder;
use pywr_core::parameters::ParameterName;
use pywr_schema::ModelSchema;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

/// Call `f` for every reference to a parameter in `v`.
fn refs(v: &mut Value, f: &mut dyn FnMut(&mut Value)) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| refs(x, f)),
        Value::Object(o) => {
            if o.get("type").is_some_and(|t| t == "Parameter") && o.contains_key("name") {
                f(v);
            } else {
                o.values_mut().for_each(|x| refs(x, f));
            }
        }
        _ => {}
    }
}

fn names_in(v: &Value) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    refs(&mut v.clone(), &mut |r| {
        s.insert(r["name"].as_str().unwrap().to_string());
    });
    s
}

const KINDS: [&str; 12] = ["Aggregated", "Offset", "Max", "Min", "Negative", "Division", "Polynomial1D", "IndexedArray", "ControlCurve", "Threshold", "Interpolated", "Delay"];

/// A parameter with the value of `m` (or one derived from it).
fn wrapper(r: &mut Rng, kind: &str, name: &str, m: &Value, index: Option<&str>) -> Vec<Value> {
    let lit = |v: f64| json!({"type":"Literal","value":v});
    let meta = json!({"name":name});
    let ix = match index {
        Some(n) => json!({"type":"Parameter","name":n}),
        None => json!({"type":"Constant","value":0}),
    };
    let other = lit(r.q(0.0, 8.0));
    vec![match kind {
        "Offset" => json!({"meta":meta,"type":"Offset","metric":m,"offset":lit(0.0)}),
        "Max" => json!({"meta":meta,"type":"Max","parameter":m,"threshold":-1e9}),
        "Min" => json!({"meta":meta,"type":"Min","parameter":m,"threshold":1e9}),
        "Negative" => {
            return vec![
                json!({"meta":{"name":format!("{name}n")},"type":"Negative","parameter":m}),
                json!({"meta":meta,"type":"Negative","parameter":{"type":"Parameter","name":format!("{name}n")}}),
            ];
        }
        "Division" => json!({"meta":meta,"type":"Division","phase":"Before","numerator":m,"denominator":lit(1.0)}),
        "Polynomial1D" => json!({"meta":meta,"type":"Polynomial1D","metric":m,"coefficients":[0.0, 1.0]}),
        "IndexedArray" => json!({"meta":meta,"type":"IndexedArray","index_parameter":ix,"metrics":[m, other, m, m, m]}),
        "ControlCurve" => json!({"meta":meta,"type":"ControlCurve","storage_metric":lit(0.25),"control_curves":[lit(0.5)],"values":[other, m]}),
        "Threshold" => json!({"meta":meta,"type":"Threshold","metric":m,"threshold":lit(3.0),"predicate":r.pick(&["GT", "LT"]),"returned_metrics":[m, m]}),
        "Interpolated" => json!({"meta":meta,"type":"Interpolated","x":lit(0.0),"xp":[lit(0.0), lit(1.0)],"fp":[m, other]}),
        "Delay" => json!({"meta":meta,"type":"Delay","metric":m,"delay":1,"initial_value":1.0}),
        _ => json!({"meta":meta,"type":"Aggregated","phase":"Before","agg_func":{"type":r.pick(&["Sum", "Max", "Min"])},"metrics":[m]}),
    }]
}

/// Parameters between the fields of nodes and what they refer to, all of them global.
fn wrap(r: &mut Rng, j: &mut Value, simple: bool) {
    let mut new: Vec<Value> = vec![];
    for k in ["nodes", "virtual_nodes"] {
        for n in j["network"].get_mut(k).and_then(|a| a.as_array_mut()).into_iter().flatten() {
            let mut used: Vec<String> = vec![];
            refs(n, &mut |m| {
                if m.get("key").is_some() || m.get("return_value").is_some_and(|v| v != "Before") || r.chance(0.15) {
                    return;
                }
                if !used.is_empty() && r.chance(0.2) {
                    // not the same value, but something of this node
                    return;
                }
                for _ in 0..r.us(1, 3) {
                    let name = format!("w{}", new.len());
                    let kind = if simple { "Aggregated" } else { *r.pick(&KINDS) };
                    let index = if !simple && kind == "IndexedArray" && r.chance(0.6) {
                        let n = format!("w{}i", new.len());
                        new.push(json!({"meta":{"name":n},"type":"AggregatedIndex","phase":"Before","agg_func":{"type":"Sum"},"metrics":[{"type":"Constant","value":0}]}));
                        Some(n)
                    } else {
                        None
                    };
                    new.extend(wrapper(r, kind, &name, m, index.as_deref()));
                    *m = json!({"type":"Parameter","name":name});
                    used.push(name);
                }
            });
        }
    }
    let ps = j["network"].as_object_mut().unwrap().entry("parameters").or_insert(json!([]));
    ps.as_array_mut().unwrap().extend(new);
}

/// A side network with fields that refer to parameters of the model.
fn side(r: &mut Rng, j: &mut Value, ps: &[String]) {
    let par = |n: &String| json!({"type":"Parameter","name":n});
    let lit = |v: f64| json!({"type":"Literal","value":v});
    let k = r.us(1, 3);
    let net = j["network"].as_object_mut().unwrap();
    for i in 0..k {
        let (u, v, w) = (format!("u{i}"), format!("v{i}"), format!("y{i}"));
        net["nodes"].as_array_mut().unwrap().extend([
            json!({"meta":{"name":u},"type":"Input","max_flow":lit(5.0),"cost":par(r.pick(ps))}),
            json!({"meta":{"name":v},"type":"Link","cost":par(r.pick(ps))}),
            json!({"meta":{"name":w},"type":"Output","cost":par(r.pick(ps))}),
        ]);
        net["edges"].as_array_mut().unwrap().extend([json!({"from_node":u,"to_node":v}), json!({"from_node":v,"to_node":w})]);
        let vs = net.entry("virtual_nodes").or_insert(json!([])).as_array_mut().unwrap();
        vs.push(json!({"meta":{"name":format!("z{i}")},"type":"VirtualStorage","nodes":[{"name":v}],"max_volume":lit(1e7),"initial_volume":{"type":"Proportional","proportion":1.0},"cost":par(r.pick(ps))}));
    }
}

struct Moved {
    json: Value,
    /// new names by the global name: (name, node)
    local: BTreeMap<String, (String, String)>,
}

/// Move parameters which are used by one node only into that node.
fn localise(r: &mut Rng, j: &Value, pinned: &BTreeSet<String>) -> Moved {
    let mut j = j.clone();
    let mut owners: Vec<(String, usize)> = vec![]; // list, index
    for k in ["nodes", "virtual_nodes"] {
        for i in 0..j["network"].get(k).and_then(|a| a.as_array()).map_or(0, |a| a.len()) {
            if j["network"][k][i]["type"] != "Placeholder" {
                owners.push((k.to_string(), i));
            }
        }
    }
    let name_of = |j: &Value, o: &(String, usize)| j["network"][&o.0][o.1]["meta"]["name"].as_str().unwrap().to_string();
    let ps: Vec<Value> = j["network"]["parameters"].as_array().cloned().unwrap_or_default();
    let pn = |p: &Value| p["meta"]["name"].as_str().unwrap().to_string();
    let own_refs: Vec<BTreeSet<String>> = owners.iter().map(|o| names_in(&j["network"][&o.0][o.1])).collect();
    let par_refs: BTreeMap<String, BTreeSet<String>> = ps.iter().map(|p| (pn(p), names_in(p))).collect();
    let mut other = names_in(&j["network"]["metric_sets"]);
    other.extend(pinned.iter().cloned());
    // owner of each parameter, from the users to the used
    let mut owner: BTreeMap<String, usize> = BTreeMap::new();
    let mut settled: BTreeSet<String> = BTreeSet::new();
    while settled.len() < ps.len() {
        let Some(p) = ps.iter().map(pn).find(|p| !settled.contains(p) && par_refs.iter().all(|(q, s)| q == p || !s.contains(p) || settled.contains(q))) else {
            break;
        };
        settled.insert(p.clone());
        if other.contains(&p) || r.chance(0.15) {
            continue;
        }
        let mut users: BTreeSet<Option<usize>> = (0..owners.len()).filter(|o| own_refs[*o].contains(&p)).map(Some).collect();
        users.extend(par_refs.iter().filter(|(_, s)| s.contains(&p)).map(|(q, _)| owner.get(q).copied()));
        match users.len() {
            0 => {
                let o = r.us(0, owners.len() - 1);
                owner.insert(p, o);
            }
            1 => {
                if let Some(Some(o)) = users.first() {
                    owner.insert(p, *o);
                }
            }
            _ => {}
        }
    }
    // the same names in different nodes, and those of global parameters
    let mut pool: Vec<String> = ["a", "b", "demand", "p 0", "w1", "c"].iter().map(|s| s.to_string()).collect();
    pool.extend(ps.iter().take(3).map(pn));
    pool.extend(owners.iter().take(3).map(|o| name_of(&j, o)));
    pool.sort();
    pool.dedup();
    let mut local: BTreeMap<String, (String, String)> = BTreeMap::new();
    let mut taken: BTreeSet<(usize, String)> = BTreeSet::new();
    for (p, o) in &owner {
        let mut n = r.pick(&pool).clone();
        while !taken.insert((*o, n.clone())) {
            n.push('x');
        }
        local.insert(p.clone(), (n, name_of(&j, &owners[*o])));
    }
    let rename = |v: &mut Value| {
        refs(v, &mut |m| {
            if let Some((n, _)) = m["name"].as_str().and_then(|p| local.get(p)) {
                m["type"] = json!("LocalParameter");
                m["name"] = json!(n);
            }
        })
    };
    let mut global = vec![];
    let mut moved: BTreeMap<usize, Vec<Value>> = BTreeMap::new();
    for p in &ps {
        let mut q = p.clone();
        match owner.get(&pn(p)) {
            Some(o) => {
                rename(&mut q);
                q["meta"]["name"] = json!(local[&pn(p)].0);
                moved.entry(*o).or_default().push(q);
            }
            None => global.push(q),
        }
    }
    for (i, o) in owners.iter().enumerate() {
        let n = &mut j["network"][&o.0][o.1];
        rename(n);
        if let Some(mut m) = moved.remove(&i) {
            r.shuffle(&mut m);
            n["parameters"] = json!(m);
        }
    }
    j["network"]["parameters"] = json!(global);
    Moved { json: j, local }
}

fn rename_metric(m: &UM, local: &BTreeMap<String, (String, String)>) -> UM {
    let new = |n: &ParameterName| match local.get(&n.name().to_string()) {
        Some((l, o)) if n.parent().is_none() => ParameterName::new(l, Some(o)),
        _ => n.clone(),
    };
    match m {
        UM::ParameterValue { name, return_value } => UM::ParameterValue { name: new(name), return_value: *return_value },
        UM::MultiParameterValue { name, key, return_value } => UM::MultiParameterValue { name: new(name), key: key.clone(), return_value: *return_value },
        m => m.clone(),
    }
}

fn load(any: &Any, j: &Value) -> Result<(ModelBuilder, Vec<(String, UM)>), String> {
    let schema = ModelSchema::from_str(&j.to_string()).map_err(|e| format!("schema: {e}"))?;
    let mut mb = schema.create_model_builder(None, None).map_err(|e| format!("load: {e:?}"))?;
    let m = any.inject(&mut mb);
    Ok((mb, m))
}

fn run_one(any: &Any, j: &Value, extra: &[(String, UM)], local: &BTreeMap<String, (String, String)>, sel: SolverSel) -> Result<(Trace, Option<String>), String> {
    guard(|| -> Result<(Trace, Option<String>), String> {
        let (mb, mut m) = load(any, j)?;
        m.extend(extra.iter().cloned());
        let m = m.iter().map(|(n, x)| (n.clone(), rename_metric(x, local))).collect();
        let (model, out) = run::build(mb, m).map_err(|e| e.text())?;
        let e = run::exec(&model, sel).err().map(|e| e.text());
        let tr = std::mem::take(&mut *out.lock().unwrap());
        Ok((tr, e))
    })
    .unwrap_or_else(|p| Err(format!("panic: {p}")))
}

fn build_only(any: &Any, j: &Value) -> Result<Result<(), String>, String> {
    guard(|| -> Result<(), String> {
        let (mb, m) = load(any, j)?;
        run::build(mb, m.into_iter().filter(|_| false).collect()).map_err(|e| e.text())?;
        Ok(())
    })
}

/// A reference that means nothing where it stands.
fn misuse(r: &mut Rng, j: &mut Value, local: &BTreeMap<String, (String, String)>) -> Option<&'static str> {
    let all: Vec<(String, String)> = local.values().cloned().collect();
    if all.is_empty() {
        return None;
    }
    let (name, owner) = r.pick(&all).clone();
    let global: BTreeSet<String> = j["network"]["parameters"].as_array()?.iter().map(|p| p["meta"]["name"].as_str().unwrap().to_string()).collect();
    let agg = |n: &str, m: Value| json!({"meta":{"name":n},"type":r_pick_type(&m),"phase":"Before","agg_func":{"type":"Sum"},"metrics":[m]});
    match r.us(0, 5) {
        0 => {
            j["network"]["parameters"].as_array_mut()?.push(agg("zz", json!({"type":"LocalParameter","name":name})));
            Some("local reference in a global parameter")
        }
        1 => {
            j["network"]["metric_sets"] = json!([{"name":"zz","metrics":[{"type":"LocalParameter","name":name}]}]);
            j["network"]["outputs"] = json!([{"name":"zz","type":"Memory","metric_set":"zz","aggregation":{}}]);
            Some("local reference in a metric set")
        }
        2 if !global.contains(&name) && !name.starts_with('a') && !name.starts_with('p') && !name.starts_with("drv") => {
            j["network"]["parameters"].as_array_mut()?.push(agg("zz", json!({"type":"Parameter","name":name})));
            Some("global reference to a local parameter")
        }
        3 => {
            // in another node
            for k in ["nodes", "virtual_nodes"] {
                let Some(a) = j["network"].get_mut(k).and_then(|a| a.as_array_mut()) else { continue };
                let c: Vec<usize> = (0..a.len()).filter(|i| a[*i]["meta"]["name"] != json!(owner) && !all.iter().any(|x| x.0 == name && a[*i]["meta"]["name"] == json!(x.1))).collect();
                if c.is_empty() || r.chance(0.3) {
                    continue;
                }
                let i = *r.pick(&c);
                if a[i]["type"] == "Placeholder" {
                    continue;
                }
                let p = agg("zz", json!({"type":"LocalParameter","name":name}));
                match a[i].get_mut("parameters").and_then(|p| p.as_array_mut()) {
                    Some(ps) => ps.push(p),
                    None => a[i]["parameters"] = json!([p]),
                }
                return Some("local reference in another node");
            }
            None
        }
        _ => {
            for k in ["nodes", "virtual_nodes"] {
                for n in j["network"].get_mut(k).and_then(|a| a.as_array_mut()).into_iter().flatten() {
                    if n["meta"]["name"] == json!(owner) {
                        let twice = n["parameters"].as_array()?.iter().find(|p| p["meta"]["name"] == json!(name))?.clone();
                        n["parameters"].as_array_mut()?.push(twice);
                        return Some("two parameters of a node with one name");
                    }
                }
            }
            None
        }
    }
}

fn r_pick_type(m: &Value) -> &'static str {
    if m["type"] == "LocalParameter" || m["type"] == "Parameter" { "Aggregated" } else { "AggregatedIndex" }
}

fn c27(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let any = match r.us(0, 9) {
        0..=3 => Any::Net(netgen::generate(r, &GenOpts { vs: 2, aggs: 2, ..Default::default() })),
        4..=6 => {
            let class = *r.pick(&[params::FUNC, params::HIST, params::CAL]);
            Any::Par(params::generate(r, class, c.thorough))
        }
        _ => Any::Comp(composite::generate(r, c.thorough)),
    };
    let mut pinned = BTreeSet::new();
    let base = any.json();
    let mut extra: Vec<(String, UM)> = vec![];
    let mut a = base.clone();
    if let Any::Par(p) = &any {
        pinned = p.pinned();
        side(r, &mut a, &p.float_befores());
    }
    let plain = a.clone();
    wrap(r, &mut a, false);
    if let Err(e) = load(&any, &a).and_then(|(mb, _)| run::build(mb, vec![]).map_err(|e| e.text()).map(|_| ())) {
        // a field that takes what is known before the first step only
        a = plain;
        wrap(r, &mut a, true);
        c.counters.entry("rewrapped".into()).and_modify(|x| *x += 1).or_insert(1);
        let r2 = load(&any, &a).and_then(|(mb, _)| run::build(mb, vec![]).map_err(|e| e.text()).map(|_| ()));
        if let Err(e2) = r2 {
            return Err(viol("rejected", format!("{e} / {e2}")));
        }
    }
    let r = &mut c.rng;
    for p in a["network"]["parameters"].as_array().into_iter().flatten() {
        let n = p["meta"]["name"].as_str().unwrap();
        if n.starts_with('w') && !n.ends_with('i') {
            extra.push((n.to_string(), UM::new_parameter_before(n)));
        }
    }
    let b = localise(r, &a, &pinned);
    let sel = *r.pick(&[SolverSel::Highs, SolverSel::Highs, SolverSel::HighsPar(2), SolverSel::Microlp]);
    c.desc = json!({"global": a, "local": b.json, "solver": format!("{sel:?}")});
    let x = run_one(&any, &a, &extra, &BTreeMap::new(), sel).map_err(|e| viol("rejected", e))?;
    let y = run_one(&any, &b.json, &extra, &b.local, sel).map_err(|e| viol("local-rejected", format!("the model is accepted with global parameters, but not with local ones: {e}")))?;
    if x.1.is_some() != y.1.is_some() {
        return Err(viol("outcome-differs", format!("{:?} with global and {:?} with local parameters", x.1, y.1)));
    }
    compare_traces(c, "local", &x.0, &y.0)?;
    c.count("runs", 1);
    c.count("steps_observed", x.0.steps.len() as u64);
    c.count("local_parameters", b.local.len() as u64);
    let owner_type: BTreeMap<String, String> = ["nodes", "virtual_nodes"]
        .iter()
        .flat_map(|k| b.json["network"].get(*k).and_then(|a| a.as_array()).cloned().unwrap_or_default())
        .map(|n| (n["meta"]["name"].as_str().unwrap().to_string(), n["type"].as_str().unwrap().to_string()))
        .collect();
    for p in a["network"]["parameters"].as_array().into_iter().flatten() {
        if let Some((_, o)) = b.local.get(p["meta"]["name"].as_str().unwrap()) {
            let has = names_in(p).iter().filter(|n| b.local.contains_key(*n)).count();
            c.count(&format!("in_{}", owner_type[o]), 1);
            if has > 0 {
                c.count("references_between_local_parameters", has as u64);
            }
            c.seen((owner_type[o].clone(), p["type"].to_string(), has, b.local.len()));
        }
    }
    for _ in 0..4 {
        let mut k = b.json.clone();
        let Some(what) = misuse(&mut c.rng, &mut k, &b.local) else { continue };
        c.desc = json!({"model": k, "what": what});
        match build_only(&any, &k) {
            Ok(Err(_)) => c.count(what, 1),
            Ok(Ok(())) => return Err(viol("accepted", format!("accepted: {what}"))),
            Err(p) => return Err(viol("panic", format!("{what}: {p}"))),
        }
        c.seen(what);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "distinct (type of node, type of local parameter, references to other local parameters, number of them) compared, and misuses refused",
        assumptions: &["Values are compared bit by bit with those of the same model with global parameters."],
        quick: 2500,
        thorough: 40000,
        random: c27,
        directed: &[],
        threads: 8,
    }]
}
