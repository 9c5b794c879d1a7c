//! Models of several networks (C17): every network of the model is compared with the same network run on its own,
//! where the values transferred to it are data; and the transferred values with the metrics they are taken from.
use super::domain::diff;
use crate::ensure;
use crate::fw::{Case, Prop, Res, guard, viol};
use crate::netgen::{GenOpts, Kind, Net, generate};
use crate::run::{self, ProbeBuilder, RunErr, SolverSel, Trace, exec_multi};
use pywr_core::metric::UnresolvedMetricF64 as UM;
use ndarray::{Array1, Array2};
use pywr_core::network::NetworkBuilder;
use pywr_core::parameters::{Array1ParameterBuilder, Array2ParameterBuilder};
use pywr_schema::{ModelSchema, MultiNetworkModelSchema};
use serde_json::{Value, json};
use std::str::FromStr;
use std::sync::{Arc, Mutex};

/// Parameters (of the model file and injected) which have the given value for each time-step and scenario.
fn given(nb: &mut NetworkBuilder, net: &Net, name: &str, v: &[Vec<f64>]) {
    let n = v.len();
    let first = format!("{name}_0");
    let first = first.as_str();
    match net.groups.len() {
        0 => { nb.parameters().f64(Box::new(Array1ParameterBuilder::new(first.into(), Array1::from(v.iter().map(|r| r[0]).collect::<Vec<_>>())))); }
        1 => { nb.parameters().f64(Box::new(Array2ParameterBuilder::new(first.into(), Array2::from_shape_fn((n, net.groups[0]), |(t, s)| v[t][s]), "g0"))); }
        _ => {
            // the sum over the members of the first group of (is it this member?) * (values by the second group)
            let (a, b) = (net.groups[0], net.groups[1]);
            for i in 0..a {
                let arr = Array2::from_shape_fn((n, b), |(t, s)| v[t][i * b + s]);
                nb.parameters().f64(Box::new(Array2ParameterBuilder::new(format!("{name}_{i}").as_str().into(), arr, "g1")));
            }
        }
    }
}

fn given_json(net: &Net, name: &str) -> Vec<Value> {
    let p = |n: String| json!({"type":"Parameter","name":n});
    if net.groups.len() < 2 {
        return vec![json!({"meta":{"name":name},"type":"Aggregated","phase":"Before","agg_func":{"type":"Sum"},"metrics":[p(format!("{name}_0"))]})];
    }
    let a = net.groups[0];
    let mut v = vec![];
    for i in 0..a {
        let ind: Vec<f64> = (0..a).map(|k| (k == i) as u8 as f64).collect();
        v.push(json!({"meta":{"name":format!("{name}_{i}_is")},"type":"ConstantScenario","scenario_group":"g0","values":{"type":"Literal","values":ind}}));
        v.push(json!({"meta":{"name":format!("{name}_{i}_v")},"type":"Aggregated","phase":"Before","agg_func":{"type":"Product"},"metrics":[p(format!("{name}_{i}_is")),p(format!("{name}_{i}"))]}));
    }
    v.push(json!({"meta":{"name":name},"type":"Aggregated","phase":"Before","agg_func":{"type":"Sum"},"metrics":(0..a).map(|i| p(format!("{name}_{i}_v"))).collect::<Vec<_>>()}));
    v
}

#[derive(Clone, Debug)]
enum Src {
    In(usize),
    Out(usize),
    Vol(usize),
    Prop(usize),
    Edge(usize),
    /// name, whether the value of the after phase, is it zero before the first step
    Param(String, bool),
    Lit(f64),
}

#[derive(Clone, Debug)]
pub struct Tr {
    name: String,
    from: usize,
    src: Src,
    initial: Option<f64>,
}

pub struct Member {
    pub name: String,
    pub net: Net,
    /// network part of the model file
    pub js: Value,
    trs: Vec<Tr>,
    /// names of the parameters that can be transferred, and whether in the after phase
    params: Vec<(String, bool)>,
}

fn it(name: &str) -> Value {
    json!({"type":"InterNetworkTransfer","name":name})
}

fn src_json(net: &Net, s: &Src) -> Value {
    let node = |n: &usize, a: &str| json!({"type":"Node","name":net.nodes[*n].name,"attribute":a});
    match s {
        Src::In(n) => node(n, "Inflow"),
        Src::Out(n) => node(n, "Outflow"),
        Src::Vol(n) => node(n, "Volume"),
        Src::Prop(n) => node(n, "ProportionalVolume"),
        Src::Edge(e) => json!({"type":"Edge","edge":{"from_node":net.nodes[net.edges[*e].0].name,"to_node":net.nodes[net.edges[*e].1].name}}),
        Src::Param(p, after) => {
            if *after {
                json!({"type":"Parameter","name":p,"return_value":"After"})
            } else {
                json!({"type":"Parameter","name":p})
            }
        }
        Src::Lit(v) => json!({"type":"Literal","value":v}),
    }
}

/// Replace the references to transfers by references to given parameters.
fn ground(v: &mut Value) {
    match v {
        Value::Object(o) => {
            if o.get("type").and_then(|t| t.as_str()) == Some("InterNetworkTransfer") {
                let n = o["name"].as_str().unwrap().to_string();
                *v = json!({"type":"Parameter","name":format!("given_{n}")});
                return;
            }
            o.values_mut().for_each(ground)
        }
        Value::Array(a) => a.iter_mut().for_each(ground),
        _ => {}
    }
}

pub fn probes(m: &Member, grounded: bool) -> Vec<(String, UM)> {
    let mut v = vec![];
    for t in &m.trs {
        let raw = if grounded { UM::new_parameter_before(format!("given_{}", t.name).as_str()) } else { UM::InterNetworkTransfer(t.name.clone()) };
        v.push((format!("raw {}", t.name), raw));
    }
    for (p, after) in &m.params {
        v.push((format!("{p} {after}"), if *after { UM::new_parameter_after(p.as_str()) } else { UM::new_parameter_before(p.as_str()) }));
    }
    v
}

fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

pub fn generate_members(c: &mut Case, ipm: bool) -> Vec<Member> {
    let thorough = c.thorough;
    let r = &mut c.rng;
    let k = *r.pick(&[2, 2, 2, 3, 3, 4]);
    let n = if thorough { r.us(2, 16) } else { r.us(2, 7) };
    let with_scen = r.us(0, k - 1);
    let opts = |scen: bool| GenOpts {
        scenarios: scen,
        steps: (n, n),
        min_flow: 0.0,
        max_links: 4,
        ipm_only: ipm,
        catchments: n % 3 == 0,
        aggs: if ipm { 0 } else { 1 },
        vs: if ipm { 0 } else { 1 },
        ..Default::default()
    };
    let lead = loop {
        let l = generate(r, &opts(true));
        if l.groups.len() <= 2 {
            break l;
        }
    };
    let mut members: Vec<Member> = vec![];
    for i in 0..k {
        let mut net = if i == with_scen { lead.clone() } else { generate(r, &opts(false)) };
        net.start = lead.start;
        net.step_days = lead.step_days;
        net.groups = lead.groups.clone();
        // (names of nodes and parameters are the same in every network; that must not matter)
        let js = net.json()["network"].clone();
        members.push(Member { name: ["net", "α b", "n2", "other"][i].into(), net, js, trs: vec![], params: vec![] });
    }
    r.shuffle(&mut members);
    // parameters that can be transferred
    for m in members.iter_mut() {
        let r = &mut c.rng;
        for q in 0..r.us(0, 2) {
            let node = r.us(0, m.net.nodes.len() - 1);
            let attr = match m.net.nodes[node].kind {
                Kind::Storage => "Volume",
                Kind::Output => "Inflow",
                _ => "Outflow",
            };
            let after = r.chance(0.5);
            let p = format!("s{q}");
            let f = *r.pick(&["Sum", "Product", "Max", "Mean"]);
            m.js["parameters"].as_array_mut().unwrap().push(json!({"meta":{"name":p},"type":"Aggregated","agg_func":{"type":f},
                "phase": if after {"After"} else {"Before"},
                "metrics":[{"type":"Node","name":m.net.nodes[node].name,"attribute":attr},{"type":"Literal","value":r.q(0.5,3.0)}]}));
            m.params.push((p, after));
        }
        if r.chance(0.4) {
            let vals: Vec<f64> = (0..12).map(|_| r.q(0.0, 20.0)).collect();
            m.js["parameters"].as_array_mut().unwrap().push(json!({"meta":{"name":"mp"},"type":"MonthlyProfile","values":{"type":"Literal","values":vals}}));
            m.params.push(("mp".into(), false));
        }
        if let Some(g) = m.net.groups.first() {
            if r.chance(0.5) {
                let vals: Vec<f64> = (0..*g).map(|_| r.q(0.0, 20.0)).collect();
                m.js["parameters"].as_array_mut().unwrap().push(
                    json!({"meta":{"name":"sc"},"type":"ConstantScenario","scenario_group":"g0","values":{"type":"Literal","values":vals}}));
                m.params.push(("sc".into(), false));
            }
        }
    }
    // transfers; the parameters they define may be transferred on
    for j in 0..k {
        let nt = c.rng.us(if j == 0 { 1 } else { 0 }, 3);
        for q in 0..nt {
            let r = &mut c.rng;
            let from = loop {
                let x = r.us(0, k - 1);
                if x != j {
                    break x;
                }
            };
            let src = {
                let f = &members[from];
                let nn = f.net.nodes.len();
                let stores: Vec<usize> = (0..nn).filter(|i| f.net.nodes[*i].kind == Kind::Storage).collect();
                let outs: Vec<usize> = (0..nn).filter(|i| f.net.nodes[*i].kind == Kind::Output).collect();
                let rest: Vec<usize> = (0..nn).filter(|i| matches!(f.net.nodes[*i].kind, Kind::Input | Kind::Link)).collect();
                match r.us(0, 9) {
                    0 | 1 if !stores.is_empty() => {
                        let s = *r.pick(&stores);
                        if r.chance(0.6) { Src::Vol(s) } else { Src::Prop(s) }
                    }
                    2 | 3 if !outs.is_empty() => Src::In(*r.pick(&outs)),
                    4 if !rest.is_empty() => Src::Out(*r.pick(&rest)),
                    5 => Src::Edge(r.us(0, f.net.edges.len() - 1)),
                    9 => Src::Lit(r.q(0.0, 15.0)),
                    _ if !f.params.is_empty() => {
                        let (p, a) = r.pick(&f.params).clone();
                        Src::Param(p, a)
                    }
                    _ => Src::Edge(r.us(0, f.net.edges.len() - 1)),
                }
            };
            let name = format!("t{q}");
            let initial = if r.chance(0.5) { Some(r.q(0.0, 12.0)) } else { None };
            let m = &mut members[j];
            let lit = matches!(src, Src::Lit(_));
            m.trs.push(Tr { name: name.clone(), from, src, initial });
            let ps = m.js["parameters"].as_array_mut().unwrap();
            ps.push(json!({"meta":{"name":format!("use_{name}")},"type":"Aggregated","agg_func":{"type":"Max"},"phase":"Before","metrics":[it(&name),{"type":"Literal","value":0.0}]}));
            m.params.push((format!("use_{name}"), false));
            if r.chance(0.5) {
                ps.push(json!({"meta":{"name":format!("both_{name}")},"type":"Aggregated","agg_func":{"type":"Sum"},"phase":"After","metrics":[it(&name),{"type":"Parameter","name":format!("use_{name}")}]}));
                m.params.push((format!("both_{name}"), true));
            }
            if r.chance(0.3) {
                ps.push(json!({"meta":{"name":format!("th_{name}")},"type":"Threshold","metric":it(&name),"predicate":"GT","threshold":{"type":"Literal","value":5.0}}));
                ps.push(json!({"meta":{"name":format!("ix_{name}")},"type":"IndexedArray","index_parameter":{"type":"Parameter","name":format!("th_{name}")},
                    "metrics":[{"type":"Literal","value":1.25},it(&name)]}));
                m.params.push((format!("ix_{name}"), false));
            }
            let direct = lit && r.chance(0.5);
            let used = if direct { it(&name) } else { json!({"type":"Parameter","name":format!("use_{name}")}) };
            for _ in 0..r.us(1, 2) {
                let nodes = m.js["nodes"].as_array_mut().unwrap();
                let i = r.us(0, nodes.len() - 1);
                let ty = nodes[i]["type"].as_str().unwrap().to_string();
                match ty.as_str() {
                    "Input" | "Output" | "Link" => {
                        if nodes[i].get("max_flow").is_some() && r.chance(0.7) {
                            nodes[i]["max_flow"] = used.clone();
                        } else {
                            nodes[i]["cost"] = used.clone();
                        }
                    }
                    "Catchment" if r.chance(0.2) => nodes[i]["flow"] = used.clone(),
                    _ => {}
                }
            }
        }
    }
    // results
    for (j, m) in members.iter_mut().enumerate() {
        let nodes: Vec<String> = m.net.nodes.iter().map(|n| n.name.clone()).collect();
        let r = &mut c.rng;
        let mut ms: Vec<Value> = (0..r.us(1, 3)).map(|_| json!({"type":"Node","name":r.pick(&nodes)})).collect();
        ms.dedup();
        for t in &m.trs {
            ms.push(it(&t.name));
        }
        let mut set = json!({"name":"set","metrics":ms});
        if r.chance(0.3) {
            set["aggregator"] = json!({"freq":{"type":"Monthly"},"func":{"type":"Max"}});
        }
        m.js["metric_sets"] = json!([set]);
        let s = |x: &str| json!({"type":x});
        m.js["outputs"] = json!([
            {"name":"mem","type":"Memory","metric_set":"set","aggregation":{"time":s("Sum"),"scenario":s("Max"),"metric":s("Sum")}},
            {"name":"csv","type":"CSV","format":"Long","filename":format!("out{j}.csv"),"metric_set":"set"},
        ]);
    }
    members
}

fn top(net: &Net) -> Value {
    let mut j = net.json();
    j.as_object_mut().unwrap().remove("network");
    j
}

pub fn multi_json(members: &[Member], paths: &[bool]) -> Value {
    let mut j = top(&members[0].net);
    j["networks"] = members
        .iter()
        .enumerate()
        .map(|(i, m)| {
            let trs: Vec<Value> = m
                .trs
                .iter()
                .map(|t| {
                    let mut v = json!({"from_network":members[t.from].name,"name":t.name,"metric":src_json(&members[t.from].net,&t.src)});
                    if let Some(x) = t.initial {
                        v["initial_value"] = json!(x);
                    }
                    v
                })
                .collect();
            let net = if paths[i] { json!(format!("n{i}.json")) } else { m.js.clone() };
            json!({"name":m.name,"network":net,"transfers":trs})
        })
        .collect();
    j
}

fn c17(c: &mut Case) -> Res {
    let sel = match c.rng.us(0, 9) {
        0 | 1 => SolverSel::HighsPar(c.rng.us(2, 4)),
        2 => SolverSel::Microlp,
        3 => SolverSel::Ipm(1),
        4 => SolverSel::Ipm(3),
        _ => SolverSel::Highs,
    };
    let ipm = matches!(sel, SolverSel::Ipm(_));
    let members = generate_members(c, ipm);
    let paths: Vec<bool> = members.iter().map(|_| c.rng.chance(0.3)).collect();
    let j = multi_json(&members, &paths);
    let arrays: Vec<Value> = members.iter().map(|m| m.net.describe()["arrays"].clone()).collect();
    c.desc = json!({"model": multi_json(&members, &vec![false; members.len()]), "arrays": arrays, "solver": format!("{sel:?}")});
    let dir = c.scratch.join("m");
    let alone = c.scratch.join("a");
    std::fs::create_dir_all(&dir).unwrap();
    for (i, m) in members.iter().enumerate() {
        std::fs::create_dir_all(alone.join(i.to_string())).unwrap();
        if paths[i] {
            std::fs::write(dir.join(format!("n{i}.json")), m.js.to_string()).unwrap();
        }
    }
    let build = |j: &Value| -> Result<Result<_, String>, String> {
        guard(|| -> Result<_, String> {
            let s = MultiNetworkModelSchema::from_str(&j.to_string()).map_err(|e| format!("schema: {e:?}"))?;
            let mut mb = s.create_model_builder(Some(&dir), Some(&dir)).map_err(|e| format!("load: {e:?}"))?;
            let mut outs = vec![];
            for m in &members {
                let out = Arc::new(Mutex::new(Trace::default()));
                let nb = mb.entry_builder(&m.name).expect("entry").network_builder();
                m.net.inject_params(nb);
                nb.recorder(Box::new(ProbeBuilder { name: "pvmon-probe".into(), metrics: probes(m, false), out: out.clone() }));
                outs.push(out);
            }
            let model = mb.build().map_err(|e| format!("build: {e:?}"))?;
            Ok((model, outs))
        })
    };
    if c.rng.chance(0.12) {
        return rejected(c, &members, j, &|j| build(j).map(|r| r.map(|_| ())));
    }
    let (model, outs) = build(&j).map_err(|p| viol("panic-build", p))?.map_err(|e| viol("model-rejected", e))?;
    let res = exec_multi(&model, sel);
    let traces: Vec<Trace> = outs.iter().map(|o| std::mem::take(&mut *o.lock().unwrap())).collect();
    c.count("runs", 1);
    let n = members[0].net.nsteps;
    let res = match res {
        Ok(r) => Some(r),
        Err(RunErr::Panic(p)) if !matches!(sel, SolverSel::HighsPar(_) | SolverSel::Ipm(_)) && !super::alloc::solver_precision(&p) => {
            return Err(viol("panic", p));
        }
        Err(e) => {
            // A step that has no solution, or which the solver does not find: the completed steps are judged.
            c.count("runs_stopped", 1);
            c.desc["stopped"] = json!(e.text());
            None
        }
    };
    if res.is_some() {
        for (m, t) in members.iter().zip(&traces) {
            ensure!(t.steps.len() == n, "steps", "network {:?} has {} steps of {n}", m.name, t.steps.len());
        }
    }
    for t in &traces {
        if let Some(e) = t.errors.first() {
            return Err(viol("metric-error", e.clone()));
        }
    }
    // the transferred values
    for (j, m) in members.iter().enumerate() {
        for tr in &m.trs {
            let (a, f) = (&traces[j], &traces[tr.from]);
            let fnet = &members[tr.from].net;
            for (t, st) in a.steps.iter().enumerate() {
                for s in 0..st.scen.len() {
                    let got = st.scen[s].m[a.metric(&format!("raw {}", tr.name))];
                    let at = if t == 0 && tr.initial.is_some() {
                        None
                    } else if tr.from < j {
                        Some(t)
                    } else if t > 0 {
                        Some(t - 1)
                    } else {
                        None
                    };
                    let (want, tol) = match (at, &tr.src) {
                        (None, Src::Param(p, _)) if p == "sc" && f.steps.is_empty() => continue,
                        (None, _) if tr.initial.is_some() => (tr.initial.unwrap(), 0.0),
                        (_, Src::Lit(v)) => (*v, 0.0),
                        // Nothing has been calculated: flows and parameters are zero. (The state of storage before the
                        // first time-step is not specified.)
                        // (a parameter that depends on nothing but the scenario has its value from the beginning)
                        (None, Src::Param(p, _)) if p == "sc" && !f.steps.is_empty() => (f.steps[0].scen[s].m[f.metric("sc false")], 0.0),
                        (None, Src::In(_) | Src::Out(_) | Src::Edge(_) | Src::Param(..)) => (0.0, 0.0),
                        (None, _) => continue,
                        (Some(u), src) => {
                            let sn = &f.steps[u].scen[s];
                            let nd = |i: &usize| f.node(&fnet.nodes[*i].name, None);
                            match src {
                                Src::In(i) => (sn.inflow[nd(i)], 0.0),
                                // the in- and outflow of a link are added up in a different order
                                Src::Out(i) => (sn.outflow[nd(i)], if fnet.nodes[*i].kind == Kind::Link { 1e-6 } else { 0.0 }),
                                Src::Vol(i) => (sn.vol[nd(i)], 0.0),
                                Src::Prop(i) => (sn.prop[nd(i)], 0.0),
                                Src::Edge(e) => {
                                    let (x, y) = fnet.edges[*e];
                                    let (x, y) = (nd(&x), nd(&y));
                                    (sn.edge[f.edges.iter().position(|q| *q == (x, y)).expect("edge")], 0.0)
                                }
                                Src::Param(p, after) => (sn.m[f.metric(&format!("{p} {after}"))], 0.0),
                                Src::Lit(_) => unreachable!(),
                            }
                        }
                    };
                    ensure!(
                        same(got, want) || (got - want).abs() <= tol * (1.0 + want.abs()),
                        "transfer-value",
                        "step {t} scenario {s}: transfer {:?} to {:?} (network {j}) from network {} {:?}: {got:?}, expected {want:?}",
                        tr.name, m.name, tr.from, tr.src
                    );
                    c.count("transferred_values", 1);
                    let kind = match &tr.src {
                        Src::In(_) => 0u8,
                        Src::Out(_) => 1,
                        Src::Vol(_) => 2,
                        Src::Prop(_) => 3,
                        Src::Edge(_) => 4,
                        Src::Param(p, a) => 5 + 2 * *a as u8 + p.starts_with("use_") as u8,
                        Src::Lit(_) => 9,
                    };
                    if got != 0.0 {
                        c.seen((kind, j, tr.from, t.min(3), tr.initial.is_some(), (got * 64.0) as i64));
                    }
                    if tr.from > j {
                        c.count(if t == 0 { "values_of_the_first_step" } else { "values_of_the_previous_step" }, 1);
                    }
                }
            }
        }
    }
    // every network on its own
    for (j, m) in members.iter().enumerate() {
        let full = &traces[j];
        if full.steps.is_empty() {
            continue;
        }
        let mut js = top(&m.net);
        js["network"] = m.js.clone();
        ground(&mut js["network"]);
        for t in &m.trs {
            js["network"]["parameters"].as_array_mut().unwrap().extend(given_json(&m.net, &format!("given_{}", t.name)));
        }
        // a run which stopped is compared as far as it went
        if full.steps.len() < n {
            js["time"]["end"] = json!(m.net.date(full.steps.len() - 1).to_string());
        }
        let out = alone.join(j.to_string());
        let mut mb = ModelSchema::from_str(&js.to_string())
            .map_err(|e| viol("reference-schema", format!("{e:?}")))?
            .create_model_builder(None, Some(&out))
            .map_err(|e| viol("reference-load", format!("{e:?}")))?;
        m.net.inject_params(mb.network_builder());
        for t in &m.trs {
            let i = full.metric(&format!("raw {}", t.name));
            let v: Vec<Vec<f64>> = full.steps.iter().map(|s| s.scen.iter().map(|x| x.m[i]).collect()).collect();
            given(mb.network_builder(), &m.net, &format!("given_{}", t.name), &v);
        }
        let r = match run::run(mb, probes(m, true), sel) {
            Ok(r) => r,
            Err(e) => {
                ensure!(res.is_none(), "reference-run", "network {:?} on its own: {}", m.name, e.text());
                c.count("reference_stopped", 1);
                continue;
            }
        };
        ensure!(r.trace.steps.len() == full.steps.len(), "steps", "network {:?}: {} and {} steps", m.name, full.steps.len(), r.trace.steps.len());
        for (t, (a, b)) in full.steps.iter().zip(&r.trace.steps).enumerate() {
            ensure!(a.date == b.date && a.days == b.days, "steps", "step {t}: {:?} and {:?}", a.date, b.date);
            for s in 0..a.scen.len() {
                if let Some(d) = diff(&a.scen[s], &b.scen[s]) {
                    return Err(viol("network-alone", format!("network {:?} step {t} scenario {s}, in the model and alone: {d}", m.name)));
                }
                c.count("snapshots_compared", 1);
            }
        }
        let Some(res) = &res else { continue };
        let nr = res.network_results.get(&m.name).ok_or_else(|| viol("results", format!("no results for network {:?}", m.name)))?;
        let (x, y) = (nr.get_aggregated_value("mem"), r.result.network_result.get_aggregated_value("mem"));
        ensure!(x.is_some() && x.map(f64::to_bits) == y.map(f64::to_bits), "results", "aggregated result of network {:?}: {x:?} and {y:?} alone", m.name);
        let f = format!("out{j}.csv");
        let names = |s: String| if m.trs.is_empty() { s } else { strip_given(&s) };
        let (x, y) = (std::fs::read_to_string(dir.join(&f)), std::fs::read_to_string(out.join(&f)));
        match (x, y) {
            (Ok(x), Ok(y)) => {
                let (x, y) = (names(x), names(y));
                ensure!(x == y, "results", "CSV output of network {:?} differs from the network alone:\n{x}\n{y}", m.name);
            }
            (x, y) => return Err(viol("results", format!("CSV output of network {:?}: {:?} {:?}", m.name, x.err(), y.err()))),
        }
        c.count("results_compared", 1);
    }
    Ok(())
}

/// Values and periods only: the name, type and attribute of a transferred metric are different when it is a parameter.
fn strip_given(s: &str) -> String {
    s.lines()
        .map(|l| {
            let f: Vec<&str> = l.split(',').collect();
            f.iter().enumerate().filter(|(i, _)| *i < 4 || *i == f.len() - 1).map(|x| *x.1).collect::<Vec<_>>().join(",")
        })
        .collect::<Vec<_>>()
        .join("\n")
}

fn rejected(c: &mut Case, members: &[Member], mut j: Value, build: &dyn Fn(&Value) -> Result<Result<(), String>, String>) -> Res {
    let with: Vec<usize> = (0..members.len()).filter(|i| !members[*i].trs.is_empty()).collect();
    let i = *c.rng.pick(&with);
    let what = c.rng.us(0, 6);
    if what == 0 {
        let k = c.rng.us(2, 5);
        let (a, b) = (c.rng.us(0, k - 2), k - 1);
        for dup in [false, true] {
            let nets: Vec<Value> = (0..k)
                .map(|i| {
                    json!({"name":format!("n{}", if dup && i == b { a } else { i }),"transfers":[],"network":{
                        "nodes":[{"meta":{"name":"i"},"type":"Input","max_flow":{"type":"Literal","value":1.0}},{"meta":{"name":"o"},"type":"Output","cost":{"type":"Literal","value":-1.0}}],
                        "edges":[{"from_node":"i","to_node":"o"}]}})
                })
                .collect();
            j["networks"] = json!(nets);
            c.desc = json!({"model": j});
            let r = guard(|| {
                let s = MultiNetworkModelSchema::from_str(&j.to_string()).map_err(|e| format!("{e:?}"))?;
                s.create_model_builder(None, None).map_err(|e| format!("{e:?}"))?.build().map_err(|e| format!("{e:?}"))
            })
            .map_err(|p| viol("panic-build", p))?;
            match (dup, r) {
                (true, Ok(_)) => return Err(viol("accepted", "model with two networks of the same name accepted".to_string())),
                (false, Err(e)) => return Err(viol("model-rejected", e)),
                _ => {}
            }
        }
        c.count("rejected", 1);
        c.seen((99u8, what));
        return Ok(());
    }
    let nets = j["networks"].as_array_mut().unwrap();
    let label = match what {
        1 => {
            nets[i]["transfers"][0]["from_network"] = json!("nowhere");
            "unknown source network"
        }
        2 => {
            nets[i]["transfers"][0]["from_network"] = nets[i]["name"].clone();
            nets[i]["transfers"][0]["metric"] = json!({"type":"Literal","value":1.0});
            "source is the network itself"
        }
        3 => {
            let t = nets[i]["transfers"][0].clone();
            nets[i]["transfers"].as_array_mut().unwrap().push(t);
            "two transfers have the same name"
        }
        4 => {
            let t = nets[i]["transfers"].as_array_mut().unwrap();
            t[0]["name"] = json!("renamed");
            "reference to a transfer that is not defined"
        }
        5 => {
            nets[i]["transfers"][0]["metric"] = json!({"type":"Parameter","name":"not-there"});
            "transfer of an unknown parameter"
        }
        _ => {
            nets[i]["transfers"][0]["metric"] = json!({"type":"Node","name":"not-there"});
            "transfer of an unknown node"
        }
    };
    c.desc["rejected"] = json!({"what": label, "model": j});
    match build(&j) {
        Ok(Err(_)) => {
            c.count("rejected", 1);
            c.seen((99u8, what));
            Ok(())
        }
        Ok(Ok(())) => Err(viol("accepted", format!("model accepted although: {label}"))),
        Err(p) => Err(viol("panic-build", format!("{label}: {p}"))),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        rule: "distinct (kind of metric, receiving and source position, step, initial value given, value quantised to 1/64) transfers with a non-zero value, and kinds of rejected model",
        assumptions: &[
            "A network on its own, with the transferred values given as data, is run by the same code; C01 to C12 judge that code.",
            "The volume of a later network's storage before the first time-step is not judged when no initial value is given.",
        ],
        quick: 1500,
        thorough: 30000,
        random: c17,
        directed: &[],
        threads: 8,
    }]
}
