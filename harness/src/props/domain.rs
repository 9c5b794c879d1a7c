//! C11 scenario enumeration, C12 independence of scenarios, C14 time domain.
use crate::ensure;
use crate::fw::{Case, Prop, Res, Rng, Violation, guard, viol};
use crate::netgen::{self, GenOpts, PSrc};
use crate::props::params;
use crate::run::{self, RunErr, Snap, SolverSel, Trace};
use jiff::ToSpan;
use jiff::civil::{Date, DateTime, date};
use ndarray::Array2;
use pywr_core::metric::UnresolvedMetricF64 as UM;
use pywr_core::parameters as cp;
use pywr_schema::ModelSchema;
use serde_json::{Value, json};
use std::str::FromStr;

// ------------------------------------------------------------------------------------- scenario domains

#[derive(Clone, Debug)]
pub enum Sub {
    Slice(usize, usize),
    Idx(Vec<usize>),
    Lab(Vec<usize>),
}

#[derive(Clone, Debug)]
pub struct Grp {
    pub name: String,
    pub size: usize,
    pub labels: Option<Vec<String>>,
    pub subset: Option<Sub>,
}

#[derive(Clone, Debug)]
pub struct Dom {
    pub groups: Vec<Grp>,
    /// index and whether it is given by its label
    pub combos: Option<Vec<Vec<(usize, bool)>>>,
}

impl Dom {
    pub fn generate(r: &mut Rng, sizes: &[usize], restrict: f64) -> Dom {
        let mut groups = vec![];
        let combos = r.chance(restrict * 0.4);
        for (i, &size) in sizes.iter().enumerate() {
            let labels = if r.chance(0.5) {
                let mut l: Vec<String> = (0..size).map(|k| format!("{}{k}", ["w", "run ", "é", "x-"][r.us(0, 3)])).collect();
                if r.chance(0.2) {
                    // labels that look like indices
                    let mut k: Vec<usize> = (0..size).collect();
                    r.shuffle(&mut k);
                    l = k.iter().map(|k| k.to_string()).collect();
                }
                Some(l)
            } else {
                None
            };
            let subset = if !combos && r.chance(restrict * 0.7) {
                let mut k: Vec<usize> = (0..size).collect();
                r.shuffle(&mut k);
                k.truncate(r.us(1, size));
                match r.us(0, 2) {
                    0 => {
                        let a = r.us(0, size - 1);
                        Some(Sub::Slice(a, r.us(a + 1, size)))
                    }
                    1 if labels.is_some() => Some(Sub::Lab(k)),
                    _ => Some(Sub::Idx(k)),
                }
            } else {
                None
            };
            groups.push(Grp { name: format!("g{i}"), size, labels, subset });
        }
        let combos = if combos && !sizes.is_empty() {
            let mut all: Vec<Vec<usize>> = vec![vec![]];
            for &s in sizes {
                all = all.iter().flat_map(|v| (0..s).map(move |k| [v.clone(), vec![k]].concat())).collect();
            }
            r.shuffle(&mut all);
            all.truncate(r.us(1, all.len().min(6)));
            let by_label: Vec<bool> = groups.iter().map(|g: &Grp| g.labels.is_some() && r.chance(0.5)).collect();
            Some(all.into_iter().map(|v| v.into_iter().zip(&by_label).map(|(k, l)| (k, *l)).collect()).collect())
        } else {
            None
        };
        Dom { groups, combos }
    }
    /// schema indices of the scenarios to be run, in order
    pub fn expected(&self) -> Vec<Vec<usize>> {
        if let Some(c) = &self.combos {
            return c.iter().map(|v| v.iter().map(|x| x.0).collect()).collect();
        }
        let mut all: Vec<Vec<usize>> = vec![vec![]];
        for g in &self.groups {
            let keep = |k: usize| match &g.subset {
                None => true,
                Some(Sub::Slice(a, b)) => k >= *a && k < *b,
                Some(Sub::Idx(v)) | Some(Sub::Lab(v)) => v.contains(&k),
            };
            all = all.iter().flat_map(|v| (0..g.size).filter(|k| keep(*k)).map(move |k| [v.clone(), vec![k]].concat())).collect();
        }
        all
    }
    pub fn label(&self, g: usize, k: usize) -> String {
        match &self.groups[g].labels {
            Some(l) => l[k].clone(),
            None => k.to_string(),
        }
    }
    pub fn json(&self) -> Value {
        let groups: Vec<Value> = self
            .groups
            .iter()
            .map(|g| {
                let mut j = json!({"name":g.name,"size":g.size});
                if let Some(l) = &g.labels {
                    j["labels"] = json!(l);
                }
                match &g.subset {
                    None => (),
                    Some(Sub::Slice(a, b)) => j["subset"] = json!({"type":"Slice","start":a,"end":b}),
                    Some(Sub::Idx(v)) => j["subset"] = json!({"type":"Indices","indices":v}),
                    Some(Sub::Lab(v)) => {
                        let l = g.labels.as_ref().unwrap();
                        j["subset"] = json!({"type":"Labels","labels":v.iter().map(|k| l[*k].clone()).collect::<Vec<_>>()})
                    }
                }
                j
            })
            .collect();
        let mut j = json!({"groups":groups});
        if let Some(c) = &self.combos {
            j["combinations"] = json!(
                c.iter()
                    .map(|v| v
                        .iter()
                        .enumerate()
                        .map(|(g, (k, l))| if *l { json!(self.groups[g].labels.as_ref().unwrap()[*k]) } else { json!(k) })
                        .collect::<Vec<_>>())
                    .collect::<Vec<_>>()
            );
        }
        j
    }
}

/// Make the specification invalid in one way.
fn spoil(r: &mut Rng, j: &mut Value) -> Option<&'static str> {
    let n = j["groups"].as_array().unwrap().len();
    let g = r.us(0, n - 1);
    let size = j["groups"][g]["size"].as_u64().unwrap() as usize;
    Some(match r.us(0, 11) {
        0 => {
            let dup = j["groups"][g].clone();
            j["groups"].as_array_mut().unwrap().push(dup);
            if let Some(c) = j["combinations"].as_array_mut() {
                for v in c {
                    let x = v[g].clone();
                    v.as_array_mut().unwrap().push(x);
                }
            }
            "duplicate group"
        }
        1 => {
            j["groups"][g]["labels"] = json!((0..size + 1 + r.us(0, 1) * 2).map(|k| format!("L{k}")).collect::<Vec<_>>());
            j["groups"][g].as_object_mut().unwrap().remove("subset");
            j.as_object_mut().unwrap().remove("combinations");
            "wrong number of labels"
        }
        2 => {
            j.as_object_mut().unwrap().remove("combinations");
            let a = r.us(0, size);
            j["groups"][g]["subset"] = json!({"type":"Slice","start":a,"end":r.us(0, a)});
            "empty slice"
        }
        3 => {
            j.as_object_mut().unwrap().remove("combinations");
            j["groups"][g]["subset"] = json!({"type":"Slice","start":r.us(0, size - 1),"end":size + r.us(1, 3)});
            "slice out of range"
        }
        4 => {
            j.as_object_mut().unwrap().remove("combinations");
            j["groups"][g]["subset"] = json!({"type":"Labels","labels":["no such label"]});
            "unknown label in subset"
        }
        5 => {
            j.as_object_mut().unwrap().remove("combinations");
            let mut k: Vec<usize> = (0..r.us(0, size)).collect();
            k.push(size + r.us(0, 3));
            r.shuffle(&mut k);
            j["groups"][g]["subset"] = json!({"type":"Indices","indices":k});
            "index out of range in subset"
        }
        6 => {
            j["groups"][g]["subset"] = json!({"type":"Slice","start":0,"end":size});
            j["combinations"] = json!([vec![0; n]]);
            "subset and combinations"
        }
        k @ 7..=10 => {
            for i in 0..n {
                j["groups"][i].as_object_mut().unwrap().remove("subset");
            }
            let mut c: Vec<Value> = (0..n).map(|_| json!(0)).collect();
            let what = match k {
                7 => {
                    c.pop();
                    "short combination"
                }
                8 => {
                    c.push(json!(0));
                    "long combination"
                }
                9 => {
                    c[g] = json!(size + r.us(0, 3));
                    "index out of range in combination"
                }
                _ => {
                    c[g] = json!("no such label");
                    "unknown label in combination"
                }
            };
            let mut all = vec![json!(vec![0; n]), json!(c)];
            r.shuffle(&mut all);
            j["combinations"] = json!(all);
            what
        }
        _ => {
            j["groups"][g]["size"] = json!(0);
            j["groups"][g].as_object_mut().unwrap().remove("subset");
            j["groups"][g].as_object_mut().unwrap().remove("labels");
            j.as_object_mut().unwrap().remove("combinations");
            "empty group"
        }
    })
}

fn c11(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let ng = r.us(0, 3);
    let sizes: Vec<usize> = (0..ng).map(|_| r.us(1, 5)).collect();
    let dom = Dom::generate(r, &sizes, 0.7);
    let nsteps = r.us(1, 4);
    // data, by schema index
    let mut params = vec![];
    let mut ts = vec![];
    let mut cs: Vec<Vec<f64>> = vec![];
    let mut arr: Vec<Vec<Vec<f64>>> = vec![];
    let mut arru: Vec<Vec<Vec<u64>>> = vec![];
    let mut csv: Vec<Vec<Vec<f64>>> = vec![];
    for (g, &n) in sizes.iter().enumerate() {
        let v: Vec<f64> = (0..n).map(|k| (100 * (g + 1) + k) as f64 + r.q(0.0, 0.75)).collect();
        params.push(json!({"meta":{"name":format!("cs{g}")},"type":"ConstantScenario","scenario_group":format!("g{g}"),"values":{"type":"Literal","values":v}}));
        cs.push(v);
        arr.push((0..nsteps).map(|_| (0..n).map(|k| k as f64 * 8.0 + r.q(0.0, 5.0)).collect()).collect());
        arru.push((0..nsteps).map(|_| (0..n).map(|k| k as u64 * 8 + r.us(0, 7) as u64).collect()).collect());
        let d: Vec<Vec<f64>> = (0..nsteps.max(2)).map(|_| (0..n).map(|k| k as f64 * 16.0 + r.q(0.0, 15.0)).collect()).collect();
        let mut s = String::from("date");
        for k in 0..n {
            s += &format!(",c{k}");
        }
        s.push('\n');
        for (t, row) in d.iter().enumerate() {
            s += &format!("2020-03-{:02}", t + 1);
            for x in row {
                s += &format!(",{x:?}");
            }
            s.push('\n');
        }
        std::fs::write(c.scratch.join(format!("ts{g}.csv")), s).unwrap();
        ts.push(json!({"meta":{"name":format!("ts{g}")},"type":"Polars","time_col":"date","url":format!("ts{g}.csv")}));
        params.push(json!({"meta":{"name":format!("tp{g}")},"type":"Aggregated","agg_func":{"type":"Sum"},"phase":"Before","metrics":[{"type":"Timeseries","name":format!("ts{g}"),"columns":{"type":"Scenario","name":format!("g{g}")}}]}));
        csv.push(d);
    }
    let metrics: Vec<Value> = (0..ng).map(|g| json!({"type":"Parameter","name":format!("cs{g}")})).chain([json!({"type":"Literal","value":1.0})]).collect();
    params.push(json!({"meta":{"name":"flow"},"type":"Aggregated","agg_func":{"type":"Sum"},"phase":"Before","metrics":metrics}));
    let mut sj = dom.json();
    let mut j = json!({
        "metadata":{"title":"domain"},
        "timestepper":{},
        "network":{
            "nodes":[
                {"meta":{"name":"in"},"type":"Input","max_flow":{"type":"Parameter","name":"flow"}},
                {"meta":{"name":"out"},"type":"Output","cost":{"type":"Literal","value":-1.0}}
            ],
            "edges":[{"from_node":"in","to_node":"out"}],
            "parameters":params,"timeseries":ts
        }
    });
    j.as_object_mut().unwrap().remove("timestepper");
    j["time"] = json!({"start":"2020-03-01T00:00:00","end":format!("2020-03-{:02}T00:00:00", nsteps),"timestep":{"type":"Days","days":1}});
    let spoiled = if ng > 0 && r.chance(0.25) { spoil(r, &mut sj) } else { None };
    if ng > 0 {
        j["scenarios"] = sj;
    }
    c.desc = json!({"model":j,"spoiled":spoiled});
    let built = (|| -> Result<_, RunErr> {
        let schema = ModelSchema::from_str(&j.to_string()).map_err(|e| RunErr::Build(e.to_string()))?;
        let mut mb = guard(|| schema.create_model_builder(Some(&c.scratch), None))
            .map_err(RunErr::Panic)?
            .map_err(|e| RunErr::Build(format!("{e:?}")))?;
        let nb = mb.network_builder();
        for g in 0..ng {
            if sizes[g] == 0 {
                continue;
            }
            let a = Array2::from_shape_fn((nsteps, sizes[g]), |(i, k)| arr[g][i][k]);
            nb.parameters().f64(Box::new(cp::Array2ParameterBuilder::new(format!("arr{g}").as_str().into(), a, &format!("g{g}"))));
            let a = Array2::from_shape_fn((nsteps, sizes[g]), |(i, k)| arru[g][i][k]);
            nb.parameters().u64(Box::new(cp::Array2ParameterBuilder::new(format!("arru{g}").as_str().into(), a, &format!("g{g}"))));
        }
        let mut m = vec![];
        for g in 0..ng {
            for n in ["cs", "tp", "arr", "arru"] {
                m.push((format!("{n}{g}"), UM::new_parameter_before(format!("{n}{g}").as_str())));
            }
        }
        run::build(mb, m)
    })();
    if let Some(what) = spoiled {
        c.count("invalid_specs", 1);
        return match built {
            Err(RunErr::Build(_)) => {
                c.seen(("invalid", what, ng));
                Ok(())
            }
            Err(e) => Err(viol(format!("invalid-domain-panics:{what}"), format!("{what}: {}", e.text()))),
            Ok(_) => Err(viol(format!("invalid-domain-accepted:{what}"), format!("{what}: accepted"))),
        };
    }
    let (model, out) = built.map_err(|e| viol("model-rejected", e.text()))?;
    let sel = if c.rng.chance(0.3) { SolverSel::HighsPar(3) } else { SolverSel::Highs };
    run::exec(&model, sel).map_err(|e| viol("run-failed", e.text()))?;
    let tr = std::mem::take(&mut *out.lock().unwrap());
    let exp = dom.expected();
    c.count("runs", 1);
    c.count("scenarios_observed", tr.scenarios.len() as u64);
    ensure!(tr.scenarios.len() == exp.len(), "count", "{} scenarios run, {} specified", tr.scenarios.len(), exp.len());
    ensure!(tr.steps.len() == nsteps, "steps", "{} steps", tr.steps.len());
    for (s, e) in exp.iter().enumerate() {
        let (id, _, schema, labels) = &tr.scenarios[s];
        ensure!(*id == s, "id", "scenario {s} has id {id}");
        if ng > 0 {
            ensure!(schema == e, "indices", "scenario {s} is {schema:?}, specified {e:?}");
            let l: Vec<String> = e.iter().enumerate().map(|(g, k)| dom.label(g, *k)).collect();
            ensure!(*labels == l, "labels", "scenario {s} {e:?} is labelled {labels:?}, specified {l:?}");
        }
        for (t, st) in tr.steps.iter().enumerate() {
            let sn = &st.scen[s];
            let mut tot = 1.0;
            for g in 0..ng {
                let k = e[g];
                for (n, want) in [("cs", cs[g][k]), ("tp", csv[g][t][k]), ("arr", arr[g][t][k]), ("arru", arru[g][t][k] as f64)] {
                    let got = sn.m[tr.metric(&format!("{n}{g}"))];
                    c.count("values_compared", 1);
                    ensure!(got == want, format!("data:{n}"), "scenario {s} {e:?} step {t}: {n}{g} is {got}, its data are {want}");
                }
                tot += cs[g][k];
            }
            let o = sn.inflow[tr.node("out", None)];
            ensure!((o - tot).abs() < 1e-6, "flow", "scenario {s} {e:?}: flow {o}, expected {tot}");
        }
        c.seen((ng, &sizes, e, dom.combos.is_some(), format!("{:?}", dom.groups.iter().map(|g| g.subset.clone()).collect::<Vec<_>>())));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- independence

enum Any {
    Net(netgen::Net),
    Par(params::Spec),
}
impl Any {
    fn groups(&self) -> &[usize] {
        match self {
            Any::Net(n) => &n.groups,
            Any::Par(p) => &p.groups,
        }
    }
    fn json(&self) -> Value {
        match self {
            Any::Net(n) => n.json(),
            Any::Par(p) => p.json(),
        }
    }
    fn describe(&self) -> Value {
        match self {
            Any::Net(n) => n.describe(),
            Any::Par(p) => p.describe(),
        }
    }
    fn run(&self, scen: Option<Value>, sel: SolverSel) -> Result<(Trace, Option<String>), Violation> {
        let mut j = self.json();
        if let Some(s) = scen {
            j["scenarios"] = s;
        }
        let schema = ModelSchema::from_str(&j.to_string()).map_err(|e| viol("model-rejected", format!("schema: {e}")))?;
        let mut mb = schema.create_model_builder(None, None).map_err(|e| viol("model-rejected", format!("load: {e:?}")))?;
        let m = match self {
            Any::Net(n) => {
                n.inject(&mut mb);
                vec![]
            }
            Any::Par(p) => {
                p.inject(&mut mb);
                p.metrics()
            }
        };
        let (model, out) = run::build(mb, m).map_err(|e| viol("model-rejected", e.text()))?;
        let r = run::exec(&model, sel);
        let tr = std::mem::take(&mut *out.lock().unwrap());
        Ok((tr, r.err().map(|e| e.text())))
    }
    /// Change the data of scenario `k` of group `g`.
    fn perturb(&mut self, r: &mut Rng, g: usize, k: usize) -> bool {
        let mut done = false;
        match self {
            Any::Net(n) => {
                for p in &mut n.params {
                    match &mut p.src {
                        PSrc::Array { group: Some(x), data } if *x == g => {
                            for row in data.iter_mut() {
                                row[k] *= *r.pick(&[0.0, 0.5, 1.5, 2.0]);
                            }
                            done = true;
                        }
                        PSrc::Scen { group, vals } if *group == g => {
                            vals[k] *= *r.pick(&[0.0, 0.5, 1.5, 2.0]);
                            done = true;
                        }
                        _ => (),
                    }
                }
            }
            Any::Par(sp) => {
                for p in &mut sp.ps {
                    match &mut p.kind {
                        params::Kind::Arr2(d, x, _) if *x == g => {
                            for row in d.iter_mut() {
                                row[k] += r.q(-3.0, 3.0);
                            }
                            done = true;
                        }
                        params::Kind::ConstScen(v, x) if *x == g => {
                            v[k] += r.q(-3.0, 3.0);
                            done = true;
                        }
                        _ => (),
                    }
                }
            }
        }
        done
    }
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b
}

pub fn diff(a: &Snap, b: &Snap) -> Option<String> {
    let f = |n: &str, x: &[f64], y: &[f64]| -> Option<String> {
        if x.len() != y.len() {
            return Some(format!("{n}: {} and {} values", x.len(), y.len()));
        }
        x.iter().zip(y).enumerate().find(|(_, (p, q))| !same(**p, **q)).map(|(i, (p, q))| format!("{n}[{i}]: {p:?} and {q:?}"))
    };
    f("m", &a.m, &b.m)
        .or_else(|| f("inflow", &a.inflow, &b.inflow))
        .or_else(|| f("outflow", &a.outflow, &b.outflow))
        .or_else(|| f("edge", &a.edge, &b.edge))
        .or_else(|| f("volume", &a.vol, &b.vol))
        .or_else(|| f("max volume", &a.maxvol, &b.maxvol))
        .or_else(|| f("proportional volume", &a.prop, &b.prop))
        .or_else(|| f("virtual storage", &a.vs, &b.vs))
        .or_else(|| f("virtual storage proportional volume", &a.vs_prop, &b.vs_prop))
}

fn c12(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut any = None;
    for _ in 0..20 {
        let a = if r.chance(0.5) {
            let excl = r.chance(0.05);
            Any::Net(netgen::generate(r, &GenOpts { excl, vs: 2, aggs: 2, steps: if c.thorough { (4, 30) } else { (3, 10) }, ..Default::default() }))
        } else {
            let class = *r.pick(&[params::FUNC, params::HIST, params::HIST, params::CAL]);
            Any::Par(params::generate(r, class, c.thorough))
        };
        if a.groups().iter().product::<usize>() > 1 {
            any = Some(a);
            break;
        }
    }
    let Some(mut any) = any else {
        return Ok(());
    };
    let groups = any.groups().to_vec();
    c.desc = any.describe();
    let sel = match r.us(0, 4) {
        0 => SolverSel::HighsPar(3),
        1 => SolverSel::Microlp,
        _ => SolverSel::Highs,
    };
    let (full, e0) = any.run(None, sel)?;
    if full.steps.is_empty() {
        c.count("stopped_in_first_step", 1);
        return Ok(());
    }
    let mode = r.us(0, 4);
    let (other, e1, pairs): (Trace, Option<String>, Vec<(usize, usize)>) = match mode {
        0..=2 => {
            let dom = Dom::generate(r, &groups, 1.0);
            let exp = dom.expected();
            if let Value::Object(o) = &mut c.desc {
                o.insert("restricted".into(), dom.json());
            }
            let (tr, e) = any.run(Some(dom.json()), sel)?;
            if tr.steps.is_empty() {
                return if e0.is_some() { Ok(()) } else { Err(viol("subset-fails", format!("full run completes, restricted run fails: {e:?}"))) };
            }
            ensure!(tr.scenarios.len() == exp.len(), "count", "{} scenarios run of {}", tr.scenarios.len(), exp.len());
            let pairs = exp
                .iter()
                .enumerate()
                .map(|(s, e)| (full.scenarios.iter().position(|f| f.2 == *e).unwrap(), s))
                .collect();
            c.count("restricted_runs", 1);
            (tr, e, pairs)
        }
        3 => {
            let g = r.us(0, groups.len() - 1);
            let k = r.us(0, groups[g] - 1);
            if !any.perturb(r, g, k) {
                return Ok(());
            }
            if let Value::Object(o) = &mut c.desc {
                o.insert("perturbed".into(), json!([g, k, any.describe()]));
            }
            let (tr, e) = any.run(None, sel)?;
            if tr.steps.is_empty() {
                return Ok(());
            }
            let pairs = (0..full.scenarios.len()).filter(|s| full.scenarios[*s].2[g] != k).map(|s| (s, s)).collect();
            c.count("perturbed_runs", 1);
            (tr, e, pairs)
        }
        _ => {
            // an additional group on which nothing depends
            let first = r.chance(0.5);
            let mut sizes = groups.clone();
            let mut gs: Vec<Value> = sizes.iter().enumerate().map(|(i, n)| json!({"name":format!("g{i}"),"size":n})).collect();
            if first {
                gs.insert(0, json!({"name":"extra","size":2}));
                sizes.insert(0, 2);
            } else {
                gs.push(json!({"name":"extra","size":2}));
                sizes.push(2);
            }
            let (tr, e) = any.run(Some(json!({"groups":gs})), sel)?;
            if tr.steps.is_empty() {
                return if e0.is_some() { Ok(()) } else { Err(viol("extra-group-fails", format!("{e:?}"))) };
            }
            ensure!(tr.scenarios.len() == 2 * full.scenarios.len(), "count", "{} scenarios", tr.scenarios.len());
            let pairs = tr
                .scenarios
                .iter()
                .enumerate()
                .map(|(s, sc)| {
                    let mut k = sc.2.clone();
                    k.remove(if first { 0 } else { groups.len() });
                    (full.scenarios.iter().position(|f| f.2 == k).unwrap(), s)
                })
                .collect();
            c.count("extended_runs", 1);
            (tr, e, pairs)
        }
    };
    // a failure in any scenario stops the run: only common steps can be compared
    if e0.is_none() && mode != 3 {
        ensure!(e1.is_none(), "other-run-fails", "the full run completes but the other fails: {e1:?}");
    }
    let n = full.steps.len().min(other.steps.len());
    for t in 0..n {
        for &(a, b) in &pairs {
            c.count("scenario_steps_compared", 1);
            if let Some(d) = diff(&full.steps[t].scen[a], &other.steps[t].scen[b]) {
                return Err(viol(
                    "scenario-differs",
                    format!("mode {mode} solver {sel:?} step {t}: scenario {:?} differs between runs: {d} (nodes {:?}, metrics {:?})", full.scenarios[a].2, full.nodes.iter().map(|n| &n.name).collect::<Vec<_>>(), full.metric_names),
                ));
            }
            c.seen((mode, t % 5, full.steps[t].scen[a].edge.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- time domain

fn dim(y: i64, m: i64) -> i64 {
    match m {
        2 => {
            if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// days since 1970-01-01 (proleptic Gregorian), independent of the date library
fn day_no(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
pub fn secs(d: &DateTime) -> i64 {
    day_no(d.year() as i64, d.month() as i64, d.day() as i64) * 86400 + d.hour() as i64 * 3600 + d.minute() as i64 * 60 + d.second() as i64
}
/// start + n * (months, secs)
pub fn plus(s: &DateTime, months: i64, sec: i64, n: i64) -> i64 {
    let k = s.year() as i64 * 12 + s.month() as i64 - 1 + months * n;
    let (y, m) = (k.div_euclid(12), k.rem_euclid(12) + 1);
    let d = (s.day() as i64).min(dim(y, m));
    day_no(y, m, d) * 86400 + s.hour() as i64 * 3600 + s.minute() as i64 * 60 + s.second() as i64 + sec * n
}

fn c14(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let y = *r.pick(&[1900i16, 1904, 1999, 2000, 2019, 2020, 2021, 2023, 2024, 2100]);
    let (mut m, mut d) = (r.int(1, 12) as i8, r.int(1, 28) as i8);
    if r.chance(0.3) {
        let e: (i8, i8) = *r.pick(&[(1, 31), (12, 31), (2, 28), (2, 27), (12, 1), (1, 1), (1, 30), (1, 29), (3, 31), (8, 31)]);
        (m, d) = e;
    }
    let (h, mi, se) = if r.chance(0.5) { (0, 0, 0) } else { (r.int(0, 23) as i8, *r.pick(&[0i8, 0, 15, 59]), *r.pick(&[0i8, 0, 30, 59])) };
    let start = date(y, m, d).at(h, mi, se, 0);
    // step: months and seconds
    let (step, months, sec) = match r.us(0, 9) {
        0 | 1 => {
            let n = *r.pick(&[1i64, 1, 2, 7, 10, 30, 31, 365]);
            (json!({"type":"Days","days":n}), 0, n * 86400)
        }
        2 | 3 => {
            let n = *r.pick(&[1i64, 1, 3, 6, 12, 24, 25, 36, 48, 100]);
            (json!({"type":"Hours","hours":n}), 0, n * 3600)
        }
        _ => {
            let n = r.int(1, 4);
            let (f, mo, s) = match r.us(0, 10) {
                0 => (format!("{n}d"), 0, n * 86400),
                1 => (format!("{n}w"), 0, n * 7 * 86400),
                2 | 3 => (format!("{n}mo"), n, 0),
                4 => (format!("{n}q"), 3 * n, 0),
                5 => (format!("{n}y"), 12 * n, 0),
                6 => (format!("{n}h"), 0, n * 3600),
                7 => (format!("{}m", n * 10), 0, n * 600),
                8 => (format!("{n}d12h"), 0, n * 86400 + 43200),
                9 => (format!("{n}w{n}d"), 0, n * 8 * 86400),
                _ => (format!("{}s", n * 1800), 0, n * 1800),
            };
            (json!({"type":"Frequency","freq":f}), mo, s)
        }
    };
    let n = r.int(1, if c.thorough { 120 } else { 40 });
    // end: exactly on a step, or up to a step later (but earlier than the next)
    let last = plus(&start, months, sec, n - 1);
    let next = plus(&start, months, sec, n);
    let off = match r.us(0, 3) {
        0 => 0,
        1 => next - last - 1,
        2 => r.int(0, next - last - 1),
        _ => (next - last) / 2,
    };
    let to_dt = |s: i64| -> DateTime {
        let base = date(1970, 1, 1).at(0, 0, 0, 0);
        base.checked_add(s.seconds()).unwrap()
    };
    let end = to_dt(last + off);
    let fmt = |d: &DateTime| format!("{d}");
    let bad = if r.chance(0.08) { Some(r.us(0, 3)) } else { None };
    let mut time = json!({"start":fmt(&start),"end":fmt(&end),"timestep":step});
    match bad {
        Some(0) => time["end"] = json!(fmt(&start.checked_sub(1.seconds()).unwrap())),
        Some(1) => time["timestep"] = json!({"type":"Frequency","freq":*r.pick(&["0d", "-1d", "0h", "-2mo"])}),
        Some(2) => time["timestep"] = json!({"type":"Frequency","freq":*r.pick(&["abc", "", "1", "d", "1x", "1.5d", "day"])}),
        Some(_) => time["timestep"] = if r.chance(0.5) { json!({"type":"Days","days":0}) } else { json!({"type":"Hours","hours":0}) },
        None => (),
    }
    let q = r.q(0.25, 3.0);
    let init = r.q(0.0, 10.0);
    let j = json!({
        "metadata":{"title":"time"},"time":time,
        "network":{
            "nodes":[
                {"meta":{"name":"in"},"type":"Catchment","flow":{"type":"Literal","value":q}},
                {"meta":{"name":"st"},"type":"Storage","max_volume":{"type":"Literal","value":1e9},"initial_volume":{"type":"Absolute","volume":init}}
            ],
            "edges":[{"from_node":"in","to_node":"st"}],
            "parameters":[
                {"meta":{"name":"mon"},"type":"MonthlyProfile","values":{"type":"Literal","values":[1.0,2.0,3.0,4.0,5.0,6.0,7.0,8.0,9.0,10.0,11.0,12.0]}},
                {"meta":{"name":"hour"},"type":"DiurnalProfile","values":{"type":"Literal","values":(0..24).map(|x| x as f64).collect::<Vec<_>>()}},
                {"meta":{"name":"day"},"type":"DailyProfile","values":{"type":"Literal","values":(0..366).map(|x| x as f64).collect::<Vec<_>>()}}
            ]
        }
    });
    c.desc = j.clone();
    let built = (|| -> Result<_, RunErr> {
        let schema = ModelSchema::from_str(&j.to_string()).map_err(|e| RunErr::Build(e.to_string()))?;
        let mb = guard(|| schema.create_model_builder(None, None)).map_err(RunErr::Panic)?.map_err(|e| RunErr::Build(format!("{e:?}")))?;
        run::build(mb, ["mon", "hour", "day"].iter().map(|n| (n.to_string(), UM::new_parameter_before(*n))).collect())
    })();
    if let Some(b) = bad {
        c.count("invalid_specs", 1);
        return match built {
            Err(RunErr::Build(_)) => {
                c.seen(("bad", b));
                Ok(())
            }
            Err(e) => Err(viol(format!("invalid-time-panics:{b}"), e.text())),
            Ok(_) => Err(viol(format!("invalid-time-accepted:{b}"), format!("{} accepted", j["time"]))),
        };
    }
    let (model, out) = built.map_err(|e| viol("model-rejected", e.text()))?;
    run::exec(&model, SolverSel::Highs).map_err(|e| viol("run-failed", e.text()))?;
    let tr = std::mem::take(&mut *out.lock().unwrap());
    c.count("runs", 1);
    c.count("steps_observed", tr.steps.len() as u64);
    ensure!(tr.steps.len() as i64 == n, "steps", "{} time-steps, expected {n}", tr.steps.len());
    let dom = model.domain().time();
    ensure!(dom.timesteps().len() as i64 == n && dom.len() as i64 == n, "domain-length", "the domain has {} time-steps", dom.len());
    let mut uniform = true;
    let len0 = plus(&start, months, sec, 1) - plus(&start, months, sec, 0);
    for (t, st) in tr.steps.iter().enumerate() {
        let at = plus(&start, months, sec, t as i64);
        let nx = plus(&start, months, sec, t as i64 + 1);
        uniform &= nx - at == len0;
        ensure!(secs(&st.date) == at && st.date.subsec_nanosecond() == 0, "date", "step {t} is at {}, expected {}", st.date, to_dt(at));
        ensure!(st.index == t, "index", "step {t} has index {}", st.index);
        let days = (nx - at) as f64 / 86400.0;
        ensure!((st.days - days).abs() < 1e-9, "length", "step {t} at {} is {} days long, expected {days}", st.date, st.days);
        let v = st.scen[0].vol[tr.node("st", None)];
        let want = init + q * (nx - secs(&start)) as f64 / 86400.0;
        ensure!((v - want).abs() < 1e-6 * (1.0 + want.abs()), "volume", "step {t}: volume {v}, expected {want}");
        let d = st.date;
        let m = &st.scen[0].m;
        let cum: i64 = (1..d.month() as i64).map(|m| dim(2020, m)).sum::<i64>() + d.day() as i64 - 1;
        ensure!(m[0] == d.month() as f64 && m[1] == d.hour() as f64 && m[2] == cum as f64, "profile", "step {t} at {d}: month, hour and day of year seen by profiles are {m:?}");
        c.seen((months, sec, d.month(), d.day(), d.hour()));
    }
    ensure!(dom.fixed_step_duration().is_some() == uniform, "uniform", "fixed_step_duration is {:?}, uniform {uniform}", dom.fixed_step_duration());
    let _ = Date::MIN;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", rule: "distinct (group sizes, subset or combination kind, scenario) run, and distinct kinds of invalid specification rejected", assumptions: &["Scenario data are distinct by construction, so equality identifies the scenario they belong to."], quick: 6000, thorough: 120000, random: c11, directed: &[], threads: 8 },
        Prop { id: "C12", rule: "distinct (mode, edge flows) scenario steps compared between two runs", assumptions: &["The same solver, given the same problems in the same order, gives the same solutions (each scenario has its own solver instance)."], quick: 3000, thorough: 50000, random: c12, directed: &[], threads: 8 },
        Prop { id: "C14", rule: "distinct (step, month, day, hour) time-steps observed", assumptions: &["The reference calendar arithmetic is independent of the date library used by the code."], quick: 8000, thorough: 150000, random: c14, directed: &[], threads: 8 },
    ]
}
