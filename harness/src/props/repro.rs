//! C13: running a model again gives identical results.
use super::alloc::solver_precision;
use super::domain::diff;
use super::{composite, multi, params};
use crate::ensure;
use crate::fw::{Case, Prop, Res, Rng, Violation, guard, viol};
use crate::netgen::{self, GenOpts};
use crate::run::{self, RunErr, Snap, SolverSel, Trace};
use pywr_core::metric::UnresolvedMetricF64 as UM;
use pywr_core::models::{Model, ModelBuilder};
use pywr_core::network::{Network, NetworkTimings};
use pywr_core::solvers::{HighsSolver, HighsSolverSettings, MicroLpSolver, MicroLpSolverSettings, Solver, SolverSettings};
use pywr_core::state::State;
use pywr_schema::{ModelSchema, MultiNetworkModelSchema};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::str::FromStr;
use std::sync::{Arc, Mutex};

pub enum Any {
    Net(netgen::Net),
    Par(params::Spec),
    Comp(composite::M),
}

impl Any {
    pub fn json(&self) -> Value {
        match self {
            Any::Net(n) => n.json(),
            Any::Par(p) => p.json(),
            Any::Comp(m) => m.json(),
        }
    }
    fn describe(&self) -> Value {
        match self {
            Any::Net(n) => n.describe(),
            Any::Par(p) => p.describe(),
            Any::Comp(m) => json!({"arrays": m.arrays}),
        }
    }
    pub fn inject(&self, mb: &mut ModelBuilder) -> Vec<(String, UM)> {
        match self {
            Any::Net(n) => {
                n.inject(mb);
                vec![]
            }
            Any::Par(p) => {
                p.inject(mb);
                p.metrics()
            }
            Any::Comp(m) => {
                m.inject(mb);
                m.attrs.iter().map(|a| (a.0.clone(), UM::new_parameter_after(a.0.as_str()))).collect()
            }
        }
    }
    fn reorder(&mut self, r: &mut Rng) {
        match self {
            Any::Net(n) => r.shuffle(&mut n.params),
            Any::Par(p) => r.shuffle(&mut p.order),
            Any::Comp(m) => r.shuffle(&mut m.arrays),
        }
    }
}

/// Everything that can be observed of a run.
struct Seen {
    tr: Trace,
    err: Option<RunErr>,
    files: BTreeMap<String, Vec<u8>>,
    mem: BTreeMap<String, Vec<u64>>,
}

pub fn files(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n.ends_with(".csv") {
            m.insert(n, std::fs::read(e.path()).unwrap_or_default());
        }
    }
    m
}

fn load(any: &Any, j: &Value, dir: &Path, from_file: bool) -> Result<(ModelBuilder, Vec<(String, UM)>), Violation> {
    let schema = if from_file {
        let p = dir.join("model.json");
        std::fs::write(&p, serde_json::to_string_pretty(j).unwrap()).unwrap();
        ModelSchema::from_path(&p).map_err(|e| viol("model-rejected", format!("file: {e}")))?
    } else {
        ModelSchema::from_str(&j.to_string()).map_err(|e| viol("model-rejected", format!("schema: {e}")))?
    };
    let mut mb = schema.create_model_builder(None, Some(dir)).map_err(|e| viol("model-rejected", format!("load: {e:?}")))?;
    let m = any.inject(&mut mb);
    Ok((mb, m))
}

fn observe(model: &Model, out: &Arc<Mutex<Trace>>, sel: SolverSel, dir: &Path) -> Seen {
    for f in files(dir).keys() {
        let _ = std::fs::remove_file(dir.join(f));
    }
    let r = run::exec(model, sel);
    let tr = std::mem::take(&mut *out.lock().unwrap());
    let mut mem = BTreeMap::new();
    let err = match r {
        Ok(r) => {
            for k in ["mem-a", "mem-b"] {
                let mut v = vec![];
                if let Some(x) = r.network_result.get_aggregated_value(k) {
                    v.push(x.to_bits());
                }
                mem.insert(k.to_string(), v);
            }
            None
        }
        Err(e) => Some(e),
    };
    // what was written before a failure is not specified
    let files = if err.is_none() { files(dir) } else { BTreeMap::new() };
    Seen { tr, err, files, mem }
}

fn snap(network: &Network, st: &State) -> Snap {
    let ns = st.get_network_state();
    let nn = network.nodes();
    Snap {
        inflow: nn.iter().map(|n| ns.get_node_in_flow(&n.index()).unwrap_or(f64::NAN)).collect(),
        outflow: nn.iter().map(|n| ns.get_node_out_flow(&n.index()).unwrap_or(f64::NAN)).collect(),
        vol: nn.iter().map(|n| ns.get_node_volume(&n.index()).unwrap_or(f64::NAN)).collect(),
        maxvol: nn.iter().map(|n| ns.get_node_max_volume(&n.index()).unwrap_or(f64::NAN)).collect(),
        prop: nn.iter().map(|n| ns.get_node_proportional_volume(&n.index()).unwrap_or(f64::NAN)).collect(),
        edge: network.edges().iter().map(|e| ns.get_edge_flow(&e.index()).unwrap_or(f64::NAN)).collect(),
        vs: network.virtual_storage_nodes().iter().map(|v| ns.get_virtual_storage_volume(&v.index()).unwrap_or(f64::NAN)).collect(),
        vs_prop: network.virtual_storage_nodes().iter().map(|v| ns.get_virtual_storage_proportional_volume(&v.index()).unwrap_or(f64::NAN)).collect(),
        m: vec![],
    }
}

fn compare(c: &mut Case, what: &str, a: &Seen, b: &Seen, with_files: bool) -> Res {
    let prec = |e: &Option<RunErr>| e.as_ref().is_some_and(|e| solver_precision(&e.text()));
    if prec(&a.err) || prec(&b.err) {
        // the same solver stops in the same way, whatever the reason
        c.count("stopped_by_solver_precision", 1);
    }
    ensure!(a.err.is_some() == b.err.is_some(), "outcome-differs", "{what}: {:?} and {:?}", a.err.as_ref().map(|e| e.text()), b.err.as_ref().map(|e| e.text()));
    compare_traces(c, what, &a.tr, &b.tr)?;
    if with_files {
        ensure!(a.files.keys().eq(b.files.keys()), "files-differ", "{what}: files {:?} and {:?}", a.files.keys(), b.files.keys());
        for (k, x) in &a.files {
            let y = &b.files[k];
            if x != y {
                let (x, y) = (String::from_utf8_lossy(x), String::from_utf8_lossy(y));
                let l = x.lines().zip(y.lines()).find(|(p, q)| p != q);
                return Err(viol("files-differ", format!("{what}: {k}: {l:?} ({} and {} bytes)", x.len(), y.len())));
            }
            c.count("files_compared", 1);
        }
        ensure!(a.mem == b.mem, "results-differ", "{what}: aggregated results {:?} and {:?}", a.mem, b.mem);
    }
    Ok(())
}

pub fn compare_traces(c: &mut Case, what: &str, a: &Trace, b: &Trace) -> Res {
    ensure!(a.steps.len() == b.steps.len(), "steps-differ", "{what}: {} and {} steps", a.steps.len(), b.steps.len());
    ensure!(a.nodes == b.nodes && a.edges == b.edges && a.vs == b.vs && a.scenarios == b.scenarios, "network-differs", "{what}: another network or other scenarios");
    ensure!(a.errors == b.errors, "errors-differ", "{what}: {:?} and {:?}", a.errors.first(), b.errors.first());
    for (t, (x, y)) in a.steps.iter().zip(&b.steps).enumerate() {
        ensure!(x.date == y.date && x.days == y.days && x.index == y.index && x.scen.len() == y.scen.len(), "steps-differ", "{what}: step {t}");
        for s in 0..x.scen.len() {
            if let Some(d) = diff(&x.scen[s], &y.scen[s]) {
                return Err(viol("state-differs", format!("{what}: step {t} scenario {s}: {d} (nodes {:?}, metrics {:?})", a.nodes.iter().map(|n| &n.name).collect::<Vec<_>>(), a.metric_names)));
            }
            c.count("snapshots_compared", 1);
            if c.counters["snapshots_compared"] % 7 == 0 {
                c.seen((what.to_string(), x.scen[s].edge.iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
            }
        }
    }
    Ok(())
}

/// Run the same model several times at once: the next step is taken by any of them.
fn interleaved<S: Solver>(c: &mut Case, model: &Model, out: &Arc<Mutex<Trace>>, settings: &S::Settings, k: usize) -> Result<Vec<(Trace, bool)>, Violation>
where
    S::Settings: SolverSettings,
{
    let mut head: Option<Trace> = None;
    let mut runs = vec![];
    for _ in 0..k {
        let st = model.setup::<S>(settings).map_err(|e| viol("setup", e.to_string()))?;
        runs.push((st, NetworkTimings::new_with_component_timings(model.network()), Trace::default(), None::<bool>));
    }
    let pool = rayon_pool(2);
    let mut last = 0;
    let mut switches = 0;
    loop {
        let live: Vec<usize> = (0..k).filter(|i| runs[*i].3.is_none()).collect();
        if live.is_empty() {
            break;
        }
        let i = *c.rng.pick(&live);
        switches += (i != last) as u64;
        last = i;
        let par = c.rng.chance(0.3);
        let (st, tm, tr, end) = &mut runs[i];
        let r = guard(|| model.step::<S>(st, if par { Some(&pool) } else { None }, tm));
        let mut o = out.lock().unwrap_or_else(|e| e.into_inner());
        match r {
            Ok(Ok(())) => {
                let h = head.get_or_insert_with(|| Trace { steps: vec![], ..o.clone() });
                if tr.nodes.is_empty() {
                    *tr = h.clone();
                }
                tr.steps.append(&mut o.steps);
                tr.errors.append(&mut o.errors);
            }
            Ok(Err(pywr_core::models::ModelStepError::EndOfTimesteps)) => *end = Some(true),
            _ => *end = Some(false),
        }
    }
    *out.lock().unwrap() = Trace::default();
    c.count("switches_between_runs", switches);
    Ok(runs.into_iter().map(|r| (r.2, r.3 == Some(true))).collect())
}

fn rayon_pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}

/// Run the same model in several threads at the same time.
fn concurrent<S: Solver>(model: &Model, settings: &S::Settings, k: usize) -> Vec<(Vec<Vec<Snap>>, bool)>
where
    S::Settings: Sync + SolverSettings,
{
    let gate = std::sync::Barrier::new(k);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..k)
            .map(|_| {
                sc.spawn(|| {
                    gate.wait();
                    let mut all = vec![];
                    let r = guard(|| -> bool {
                        let Ok(mut st) = model.setup::<S>(settings) else { return false };
                        let mut tm = NetworkTimings::new_with_component_timings(model.network());
                        loop {
                            match model.step::<S>(&mut st, None, &mut tm) {
                                Ok(()) => {
                                    all.push(model.domain().scenarios().indices().iter().map(|s| snap(model.network(), st.network_state().state(s))).collect());
                                }
                                Err(pywr_core::models::ModelStepError::EndOfTimesteps) => return true,
                                Err(_) => return false,
                            }
                        }
                    });
                    (all, matches!(r, Ok(true)))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    })
}

pub fn outputs(j: &mut Value, r: &mut Rng, listed: Vec<Value>) {
    let mut sets = vec![];
    for k in 0..3 {
        let mut s = json!({"name":format!("set{k}"),"metrics":listed});
        if k > 0 {
            s["filters"] = json!({"all_nodes":r.chance(0.7),"all_virtual_nodes":r.chance(0.7),"all_parameters":r.chance(0.7),"all_edges":true});
        }
        if k == 2 {
            s["aggregator"] = json!({"freq":{"type":"Days","days":10},"func":{"type":r.pick(&["Mean", "Sum", "Max"])}});
        }
        sets.push(s);
    }
    let f = |r: &mut Rng| json!({"type":r.pick(&["Sum", "Mean", "Max", "Min"])});
    let outs = json!([
        {"name":"long","type":"CSV","format":"Long","filename":"long.csv","metric_set":["set0","set2","set1"]},
        {"name":"wide","type":"CSV","format":"Wide","filename":"wide.csv","metric_set":"set1"},
        {"name":"mem-a","type":"Memory","metric_set":"set1","aggregation":{"time":f(r),"scenario":f(r),"metric":f(r)}},
        {"name":"mem-b","type":"Memory","metric_set":"set2","aggregation":{"time":f(r),"scenario":f(r),"metric":f(r)}},
    ]);
    j["network"]["metric_sets"] = json!(sets);
    j["network"]["outputs"] = outs;
}

fn shuffle_lists(j: &mut Value, r: &mut Rng) {
    for k in ["parameters", "metric_sets", "outputs"] {
        if let Some(a) = j["network"].get_mut(k).and_then(|a| a.as_array_mut()) {
            r.shuffle(a);
        }
    }
}

fn c13(c: &mut Case) -> Res {
    if c.rng.chance(0.12) {
        return several(c);
    }
    let r = &mut c.rng;
    let ipm = r.chance(0.12);
    let mut any = match r.us(0, 9) {
        _ if ipm => Any::Net(netgen::generate(r, &GenOpts { ipm_only: true, scenarios: true, min_flow: 0.0, aggs: 0, vs: 0, excl: false, ..Default::default() })),
        0..=3 => {
            let excl = r.chance(0.05);
            Any::Net(netgen::generate(r, &GenOpts { excl, vs: 2, aggs: 2, steps: if c.thorough { (4, 30) } else { (3, 10) }, ..Default::default() }))
        }
        4..=6 => {
            let class = *r.pick(&[params::FUNC, params::HIST, params::HIST, params::CAL]);
            Any::Par(params::generate(r, class, c.thorough))
        }
        _ => Any::Comp(composite::generate(r, c.thorough)),
    };
    let mut j = any.json();
    if matches!(any, Any::Comp(_)) || j.get("scenarios").is_none() {
        let n = r.us(1, 4);
        j["scenarios"] = json!({"groups":[{"name":"copy","size":n}]});
    }
    // named metrics of the nodes and virtual nodes
    let mut listed: Vec<Value> = vec![];
    for n in j["network"]["nodes"].as_array().into_iter().flatten() {
        if r.chance(0.7) && ["Input", "Output", "Link", "Storage", "Catchment"].iter().any(|t| n["type"] == *t) {
            listed.push(json!({"type":"Node","name":n["meta"]["name"]}));
        }
    }
    if listed.is_empty() {
        listed.push(json!({"type":"Node","name":if matches!(any, Any::Net(_)) { j["network"]["nodes"][0]["meta"]["name"].clone() } else if matches!(any, Any::Par(_)) { json!("x") } else { json!("dem") }}));
    }
    outputs(&mut j, r, listed);
    let base = if ipm {
        SolverSel::Ipm(1)
    } else if r.chance(0.15) {
        SolverSel::Microlp
    } else {
        SolverSel::Highs
    };
    c.desc = json!({"model": j, "given": any.describe(), "solver": format!("{base:?}")});
    let dir: PathBuf = c.scratch.join("out");
    std::fs::create_dir_all(&dir).unwrap();
    let (mb, ms) = load(&any, &j, &dir, false)?;
    let (model, out) = run::build(mb, ms).map_err(|e| viol("model-rejected", e.text()))?;
    let first = observe(&model, &out, base, &dir);
    c.count("models", 1);
    c.count("runs_stopped", first.err.is_some() as u64);
    if first.err.is_none() {
        ensure!(first.files.len() == 2, "no-output", "output files {:?}", first.files.keys());
    }
    for _ in 0..2 {
        match c.rng.us(0, 7) {
            0 => {
                let again = observe(&model, &out, base, &dir);
                compare(c, "the same model again", &first, &again, true)?;
            }
            1 | 2 => {
                let (mb, ms) = load(&any, &j, &dir, true)?;
                let (m2, o2) = run::build(mb, ms).map_err(|e| viol("model-rejected", e.text()))?;
                let again = observe(&m2, &o2, base, &dir);
                compare(c, "the model built again", &first, &again, true)?;
            }
            3 | 4 => {
                let mut j2 = j.clone();
                let listed_all = j2["network"]["metric_sets"].as_array().unwrap().iter().any(|s| s["filters"]["all_parameters"] == true);
                shuffle_lists(&mut j2, &mut c.rng);
                any.reorder(&mut c.rng);
                let (mb, ms) = load(&any, &j2, &dir, false)?;
                let (m2, o2) = run::build(mb, ms).map_err(|e| viol("model-rejected", format!("listed in another order: {}", e.text())))?;
                let mut again = observe(&m2, &o2, base, &dir);
                // the probe's metrics may be listed in another order as well
                let perm: Vec<Option<usize>> = first.tr.metric_names.iter().map(|n| again.tr.metric_names.iter().position(|x| x == n)).collect();
                if !again.tr.steps.is_empty() && !first.tr.steps.is_empty() {
                    for s in again.tr.steps.iter_mut().flat_map(|s| &mut s.scen) {
                        s.m = perm.iter().map(|p| p.map(|p| s.m[p]).unwrap_or(f64::NAN)).collect();
                    }
                    again.tr.errors.sort();
                }
                // columns are in the order of the file when all parameters are written
                compare(c, "listed in another order", &first, &again, !listed_all)?;
            }
            5 if !ipm => {
                let k = c.rng.us(2, 3);
                let rs = if base == SolverSel::Highs {
                    interleaved::<HighsSolver>(c, &model, &out, &HighsSolverSettings::default(), k)?
                } else {
                    interleaved::<MicroLpSolver>(c, &model, &out, &MicroLpSolverSettings::default(), k)?
                };
                for (tr, ok) in rs {
                    ensure!(ok == first.err.is_none(), "outcome-differs", "interleaved runs: completes {ok}, at first {:?}", first.err.as_ref().map(|e| e.text()));
                    if !first.tr.steps.is_empty() || !tr.steps.is_empty() {
                        compare_traces(c, "interleaved runs", &first.tr, &tr)?;
                    }
                }
                c.count("interleaved", 1);
            }
            6 if !ipm => {
                let k = c.rng.us(2, 4);
                let rs = if base == SolverSel::Highs {
                    concurrent::<HighsSolver>(&model, &HighsSolverSettings::default(), k)
                } else {
                    concurrent::<MicroLpSolver>(&model, &MicroLpSolverSettings::default(), k)
                };
                *out.lock().unwrap() = Trace::default();
                for (steps, ok) in rs {
                    ensure!(ok == first.err.is_none(), "outcome-differs", "concurrent runs: completes {ok}, at first {:?}", first.err.as_ref().map(|e| e.text()));
                    ensure!(steps.len() == first.tr.steps.len(), "steps-differ", "concurrent runs: {} and {} steps", first.tr.steps.len(), steps.len());
                    for (t, (x, y)) in first.tr.steps.iter().zip(&steps).enumerate() {
                        for (s, (p, q)) in x.scen.iter().zip(y).enumerate() {
                            let p = Snap { m: vec![], ..p.clone() };
                            if let Some(d) = diff(&p, q) {
                                return Err(viol("state-differs", format!("concurrent runs: step {t} scenario {s}: {d}")));
                            }
                            c.count("snapshots_compared", 1);
                        }
                    }
                }
                c.count("concurrent", 1);
            }
            _ => {
                if base == SolverSel::Microlp {
                    continue;
                }
                let n = *c.rng.pick(&[1, 2, 3, 5, 8, 16]);
                let sel = if ipm { SolverSel::Ipm(n) } else { SolverSel::HighsPar(n) };
                let again = observe(&model, &out, sel, &dir);
                compare(c, "another number of threads", &first, &again, true)?;
                c.count(&format!("with_{n}_threads{}", if ipm { "_ipm" } else { "" }), 1);
            }
        }
    }
    Ok(())
}

/// Models of several networks.
fn several(c: &mut Case) -> Res {
    let ipm = c.rng.chance(0.2);
    let members = multi::generate_members(c, ipm);
    let paths: Vec<bool> = members.iter().map(|_| c.rng.chance(0.3)).collect();
    let j = multi::multi_json(&members, &paths);
    c.desc = json!({"model": multi::multi_json(&members, &vec![false; members.len()]), "arrays": members.iter().map(|m| m.net.describe()["arrays"].clone()).collect::<Vec<_>>()});
    let dir = c.scratch.join("m");
    std::fs::create_dir_all(&dir).unwrap();
    for (i, m) in members.iter().enumerate() {
        if paths[i] {
            std::fs::write(dir.join(format!("n{i}.json")), m.js.to_string()).unwrap();
        }
    }
    let one = |j: &Value, sels: &[SolverSel]| -> Result<Vec<(Vec<Trace>, bool, BTreeMap<String, Vec<u8>>)>, Violation> {
        let s = MultiNetworkModelSchema::from_str(&j.to_string()).map_err(|e| viol("model-rejected", format!("{e:?}")))?;
        let mut mb = s.create_model_builder(Some(&dir), Some(&dir)).map_err(|e| viol("model-rejected", format!("{e:?}")))?;
        let mut outs = vec![];
        for m in &members {
            let out = Arc::new(Mutex::new(Trace::default()));
            let nb = mb.entry_builder(&m.name).expect("entry").network_builder();
            m.net.inject_params(nb);
            nb.recorder(Box::new(run::ProbeBuilder { name: "pvmon-probe".into(), metrics: multi::probes(m, false), out: out.clone() }));
            outs.push(out);
        }
        let model = guard(|| mb.build()).map_err(|p| viol("panic-build", p))?.map_err(|e| viol("model-rejected", format!("{e:?}")))?;
        Ok(sels
            .iter()
            .map(|s| {
                for f in files(&dir).keys() {
                    let _ = std::fs::remove_file(dir.join(f));
                }
                let r = run::exec_multi(&model, *s);
                let tr = outs.iter().map(|o| std::mem::take(&mut *o.lock().unwrap_or_else(|e| e.into_inner()))).collect();
                (tr, r.is_ok(), if r.is_ok() { files(&dir) } else { BTreeMap::new() })
            })
            .collect())
    };
    let n = *c.rng.pick(&[1, 2, 3, 5, 8]);
    let sels = if ipm { [SolverSel::Ipm(1), SolverSel::Ipm(1), SolverSel::Ipm(n)] } else { [SolverSel::Highs, SolverSel::Highs, SolverSel::HighsPar(n)] };
    let mut rs = one(&j, &sels)?;
    rs.extend(one(&j, &sels[..1])?);
    let what = ["several networks again", "several networks with another number of threads", "several networks built again"];
    for (w, (tr, ok, fs)) in what.iter().zip(&rs[1..]) {
        ensure!(*ok == rs[0].1, "outcome-differs", "{w}: completes {} and {ok}", rs[0].1);
        for (k, (a, b)) in rs[0].0.iter().zip(tr).enumerate() {
            compare_traces(c, &format!("{w} (network {k})"), a, b)?;
        }
        ensure!(rs[0].2 == *fs, "files-differ", "{w}: the output files differ");
        c.count("files_compared", fs.len() as u64);
    }
    c.count("models_of_several_networks", 1);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        rule: "distinct (kind of repetition, flows of the step to the last bit) among every seventh pair of states compared",
        assumptions: &[
            "Nodes and edges stay in the order of the file: another order is another order of the solver's columns and rows, which may choose another optimum.",
            "When all parameters of a model are written to an output, their order is that of the file and the output is not compared with that of another order.",
        ],
        quick: 2000,
        thorough: 60000,
        random: c13,
        directed: &[],
        threads: 8,
    }]
}
