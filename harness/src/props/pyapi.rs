//! C30: the Python module.
use super::repro::{files, outputs};
use super::{multi, pywr_module, v1};
use crate::ensure;
use crate::fw::{Case, Prop, Res, Violation, guard, viol};
use crate::netgen::{GenOpts, Net, PSrc, generate};
use pyo3::prelude::*;
use pyo3::types::{PyDict, PyList};
use pywr_core::models::{Model, MultiNetworkModel};
use pywr_core::network::NetworkResult;
use pywr_core::solvers::{HighsSolver, HighsSolverSettingsBuilder, SimdIpmF64Solver, SimdIpmSolverSettingsBuilder};
use pywr_schema::{ComponentConversionError, ConversionError, ModelSchema, MultiNetworkModelSchema};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::path::{Path, PathBuf};
use std::str::FromStr;
use std::sync::OnceLock;

static DRIVER: OnceLock<Py<PyModule>> = OnceLock::new();

fn driver() -> &'static Py<PyModule> {
    DRIVER.get_or_init(|| {
        Python::initialize();
        Python::attach(|py| {
            let f = || -> PyResult<Py<PyModule>> {
                let sys = py.import("sys")?;
                sys.setattr("dont_write_bytecode", true)?;
                let m = pywr_module::module(py);
                sys.getattr("modules")?.cast::<PyDict>()?.set_item("pywr.pywr", m)?;
                sys.getattr("path")?.cast::<PyList>()?.insert(0, pywr_module::PACKAGE)?;
                let code = CString::new(include_str!("../../data/pyapi.py")).unwrap();
                let d = PyModule::from_code(py, &code, c"pvapi.py", c"pvapi")?;
                sys.getattr("modules")?.cast::<PyDict>()?.set_item("pvapi", &d)?;
                Ok(d.unbind())
            };
            f().unwrap_or_else(|e| panic!("the Python module can not be loaded: {e}"))
        })
    })
}

/// Call a function of the driver: its result or the exception.
fn call(name: &str, args: &Value) -> Result<Result<Value, Value>, Violation> {
    let d = driver();
    let s: String = Python::attach(|py| d.bind(py).call_method1("call", (name, args.to_string())).and_then(|r| r.extract())).map_err(|e| viol("driver", e.to_string()))?;
    Ok(outcome(serde_json::from_str(&s).map_err(|e| viol("driver", e.to_string()))?))
}

fn outcome(mut v: Value) -> Result<Value, Value> {
    match v.get_mut("exc") {
        Some(e) => Err(e.take()),
        None => Ok(v["ok"].take()),
    }
}

fn is_a(e: &Value, ty: &str) -> bool {
    e["bases"].as_array().is_some_and(|a| a.iter().any(|b| b == ty))
}

fn text(e: &Value) -> &str {
    e["msg"].as_str().unwrap_or("")
}

fn raises(what: &str, got: &Result<Value, Value>, ty: &str, has: &str) -> Res {
    match got {
        Ok(v) => Err(viol("no-exception", format!("{what}: {ty} expected, the result is {v}"))),
        Err(e) => {
            ensure!(is_a(e, ty) && text(e).contains(has), "exception", "{what}: {ty} with {has:?} expected, raised {e}");
            Ok(())
        }
    }
}

pub enum Loaded {
    One(Model),
    Several(MultiNetworkModel),
}

/// Where the interface fails, and what it says.
#[derive(Debug)]
pub enum Fail {
    Schema(String),
    Build(String),
    Run(String),
    Panic(String),
}

type Values = BTreeMap<String, Result<f64, String>>;

pub fn load(multi: bool, text: &str, data: Option<&Path>, out: Option<&Path>) -> Result<Loaded, Fail> {
    let r = guard(|| {
        if multi {
            let s = MultiNetworkModelSchema::from_str(text).map_err(|e| Fail::Schema(e.to_string()))?;
            let mb = s.create_model_builder(data, out).map_err(|e| Fail::Build(e.to_string()))?;
            mb.build().map(Loaded::Several).map_err(|e| Fail::Build(e.to_string()))
        } else {
            let s = ModelSchema::from_str(text).map_err(|e| Fail::Schema(e.to_string()))?;
            let mb = s.create_model_builder(data, out).map_err(|e| Fail::Build(e.to_string()))?;
            mb.build().map(Loaded::One).map_err(|e| Fail::Build(e.to_string()))
        }
    });
    r.unwrap_or_else(|p| Err(Fail::Panic(p)))
}

#[derive(Clone, Copy, Default, Debug)]
struct Settings {
    ipm: bool,
    threads: Option<usize>,
    parallel: bool,
    ignore: bool,
}

fn values(r: &NetworkResult, names: &[String]) -> Values {
    names.iter().filter_map(|n| r.get(n).map(|x| (n.clone(), x.aggregated_value().map_err(|e| e.to_string())))).collect()
}

fn reference(m: &Loaded, s: Settings, names: &[String], networks: &[String]) -> Result<Vec<Values>, Fail> {
    let mut h = HighsSolverSettingsBuilder::default();
    let mut i = SimdIpmSolverSettingsBuilder::default();
    if let Some(n) = s.threads {
        h = h.threads(n);
        i = i.threads(n);
    }
    if s.parallel {
        h = h.parallel();
        i = i.parallel();
    }
    if s.ignore {
        i = i.ignore_feature_requirements();
    }
    let (h, i) = (h.build(), i.build());
    let r = guard(|| match m {
        Loaded::One(m) => {
            let r = if s.ipm { m.run_multi_scenario::<SimdIpmF64Solver>(&i) } else { m.run::<HighsSolver>(&h) };
            r.map(|r| vec![values(&r.network_result, names)]).map_err(|e| Fail::Run(e.to_string()))
        }
        Loaded::Several(m) => {
            let r = if s.ipm { m.run_multi_scenario::<SimdIpmF64Solver>(&i) } else { m.run::<HighsSolver>(&h) };
            r.map(|r| networks.iter().map(|n| values(&r.network_results[n], names)).collect()).map_err(|e| Fail::Run(e.to_string()))
        }
    });
    r.unwrap_or_else(|p| Err(Fail::Panic(p)))
}

/// Parameters of the file in place of those which are arrays.
fn declare(net: &Net, ps: &mut Vec<Value>) {
    for p in &net.params {
        if let PSrc::Array { group, data } = &p.src {
            ps.push(match group {
                None => json!({"meta":{"name":p.name},"type":"MonthlyProfile","values":{"type":"Literal","values":(0..12).map(|k| data[k % data.len()][0]).collect::<Vec<_>>()}}),
                Some(g) => json!({"meta":{"name":p.name},"type":"ConstantScenario","scenario_group":format!("g{g}"),"values":{"type":"Literal","values":data[0]}}),
            });
        }
    }
}

pub fn params(j: &mut Value) -> &mut Vec<Value> {
    if j.get("parameters").is_none() {
        j["parameters"] = json!([]);
    }
    j["parameters"].as_array_mut().unwrap()
}

fn python(name: &str, f: &str, args: Value) -> Value {
    json!({"meta":{"name":name},"type":"Python","source":{"type":"Module","module":"pvapi"},"object":{"type":"Function","function":f},"return_type":"Float","args":args})
}

pub struct Doc {
    multi: bool,
    pub j: Value,
    names: Vec<String>,
    pub networks: Vec<String>,
    /// scenarios and steps
    ns: usize,
    nt: usize,
}

impl Doc {
    /// The k-th network of the file.
    pub fn net(&mut self, k: usize) -> &mut Value {
        if self.multi { &mut self.j["networks"][k]["network"] } else { &mut self.j["network"] }
    }
}

pub fn document(c: &mut Case, several: bool, ipm: bool) -> Doc {
    if several {
        let members = multi::generate_members(c, ipm);
        let mut j = multi::multi_json(&members, &vec![false; members.len()]);
        for (i, m) in members.iter().enumerate() {
            declare(&m.net, params(&mut j["networks"][i]["network"]));
        }
        let n = &members[0].net;
        let (ns, nt) = (n.groups.iter().product(), n.nsteps);
        return Doc { multi: true, j, names: vec!["mem".into(), "csv".into()], networks: members.iter().map(|m| m.name.clone()).collect(), ns, nt };
    }
    let r = &mut c.rng;
    let base = GenOpts { steps: (3, 8), ..Default::default() };
    let net = if ipm { generate(r, &GenOpts { ipm_only: true, catchments: false, min_flow: 0.0, aggs: 0, vs: 0, ..base }) } else { generate(r, &GenOpts { vs: 2, aggs: 2, ..base }) };
    let mut j = net.json();
    declare(&net, params(&mut j["network"]));
    let mut listed: Vec<Value> = net.nodes.iter().filter(|_| r.chance(0.6)).map(|n| json!({"type":"Node","name":n.name})).collect();
    if listed.is_empty() {
        listed.push(json!({"type":"Node","name":net.nodes[0].name}));
    }
    outputs(&mut j, r, listed);
    let names = j["network"]["outputs"].as_array().unwrap().iter().map(|o| o["name"].as_str().unwrap().to_string()).collect();
    Doc { multi: false, j, names, networks: vec![], ns: net.groups.iter().product(), nt: net.nsteps }
}

/// The document as a string or in a file.
fn source(c: &mut Case, multi: bool, text: &str, dir: &Path) -> Value {
    if c.rng.chance(0.5) {
        let f = dir.join("model.json");
        std::fs::write(&f, text).unwrap();
        json!({"multi":multi,"file":f,"plain":c.rng.chance(0.4)})
    } else {
        json!({"multi":multi,"text":text})
    }
}

fn dirs(c: &Case) -> (PathBuf, PathBuf) {
    let (a, b) = (c.scratch.join("py"), c.scratch.join("rs"));
    std::fs::create_dir_all(&a).unwrap();
    std::fs::create_dir_all(&b).unwrap();
    (a, b)
}

fn clear(dir: &Path) {
    for f in files(dir).keys() {
        let _ = std::fs::remove_file(dir.join(f));
    }
}

fn runs(c: &mut Case) -> Res {
    let several = c.rng.chance(0.35);
    let ipm = c.rng.chance(0.3);
    let capable = ipm && c.rng.chance(0.75);
    let mut d = document(c, several, capable);
    let (py, rs) = dirs(c);
    // custom parameters
    let case = format!("{}-{}", c.idx, std::thread::current().name().unwrap_or(""));
    let noted = c.rng.chance(0.6);
    let k = c.rng.us(0, d.networks.len().max(1) - 1);
    if noted {
        params(d.net(k)).push(python("zpy-who", "who", json!([case])));
    }
    let stopped = if c.rng.chance(0.2) { Some((c.rng.us(0, d.nt - 1), c.rng.us(0, d.ns.max(1) - 1))) } else { None };
    if let Some((t, s)) = stopped {
        params(d.net(k)).push(python("zpy-stop", "stop", json!([t, s])));
    }
    // how it is run
    let mut solver = if ipm { "ipm-simd" } else { "highs" }.to_string();
    let mut s = Settings { ipm, ..Default::default() };
    let mut kw = json!({});
    let r = &mut c.rng;
    if r.chance(0.5) {
        s.threads = Some(r.us(1, 5));
        kw["threads"] = json!(s.threads);
    }
    if r.chance(0.6) {
        s.parallel = r.chance(0.7);
        kw["parallel"] = json!(s.parallel);
    }
    if ipm && r.chance(0.3) {
        s.ignore = r.chance(0.5);
        kw["ignore_feature_requirements"] = json!(s.ignore);
    }
    let mut wrong: Option<(&str, String)> = None;
    match r.us(0, 19) {
        0 => {
            let k = *r.pick(&["nthreads", "Threads", "thread", "verbose", "parallell", "max_iterations", ""]);
            kw[k] = json!(1);
            wrong = Some(("RuntimeError", format!("'{k}'")));
        }
        1 => {
            kw["threads"] = r.pick(&[json!("2"), json!(1.5), json!(null), json!([1])]).clone();
            wrong = Some(("Exception", String::new()));
        }
        2 => {
            kw["parallel"] = r.pick(&[json!("yes"), json!(1), json!(null)]).clone();
            wrong = Some(("Exception", String::new()));
        }
        3 => {
            kw["threads"] = json!(-1);
            wrong = Some(("Exception", String::new()));
        }
        4 => {
            solver = r.pick(&["HIGHS", "Highs", "", "glpk", "microlp", "ipm", "highs "]).to_string();
            wrong = Some(("RuntimeError", format!("Unknown solver: {solver}")));
        }
        5 if !ipm => {
            kw["ignore_feature_requirements"] = json!(true);
            wrong = Some(("RuntimeError", "'ignore_feature_requirements'".into()));
        }
        _ => {}
    }
    let kwargs = if kw.as_object().unwrap().is_empty() && r.chance(0.7) { Value::Null } else { kw };
    let times = if r.chance(0.3) { 2 } else { 1 };
    let (plain, keyword) = (r.chance(0.5), r.chance(0.5));
    c.desc = json!({"model": d.j, "solver": solver, "kwargs": kwargs, "times": times});
    // networks in files of their own
    for k in 0..d.networks.len() {
        if c.rng.chance(0.25) {
            let n = d.net(k).to_string();
            for dir in [&py, &rs] {
                std::fs::write(dir.join(format!("net{k}.json")), &n).unwrap();
            }
            *d.net(k) = json!(format!("net{k}.json"));
        }
    }
    let text = d.j.to_string();
    let src = source(c, d.multi, &text, &py);
    let model = load(d.multi, &text, Some(&rs), Some(&rs)).map_err(|e| viol("model-rejected", format!("{e:?}")))?;
    let got = call(
        "run",
        &json!({"source":src,"data":py,"output":py,"plain":plain,"solver":solver,"kwargs":kwargs,"names":d.names,"networks":if d.multi { json!(d.networks) } else { Value::Null },"times":times,"case":case,"keyword":keyword}),
    )?;
    let got = got.map_err(|e| viol("exception", format!("loading: {e}")))?;
    if let Some((ty, has)) = &wrong {
        for g in got.as_array().unwrap() {
            ensure!(g["kwargs_kept"] == true, "arguments", "the dictionary {kwargs} is changed");
            ensure!(g["threads"] == 0, "wrong-arguments", "the model runs with {solver:?} {kwargs}");
            raises(&format!("{solver:?} {kwargs}"), &outcome(g.clone()), ty, has)?;
        }
        c.count("wrong_arguments", 1);
        c.seen(("wrong", ty.to_string(), has.clone(), d.multi, ipm));
        return Ok(());
    }
    let want = reference(&model, s, &d.names, &d.networks);
    drop(model);
    for (n, g) in got.as_array().unwrap().iter().enumerate() {
        let what = format!("run {n} with {solver:?} {kwargs}");
        ensure!(g["kwargs_kept"] == true, "arguments", "{what}: the dictionary is changed");
        match (&want, outcome(g.clone())) {
            (Ok(w), Ok(o)) => {
                ensure!(stopped.is_none(), "not-stopped", "{what}: the exception of a custom parameter is lost");
                compare(c, &what, &d, w, &o)?;
                if noted {
                    let (caller, threads) = (g["caller"] == true, g["threads"].as_u64().unwrap() as usize);
                    let most = if s.parallel { s.threads.unwrap_or(usize::MAX) } else { 1 };
                    ensure!(threads >= 1 && threads <= most && (ipm || caller != s.parallel), "threads", "{what}: {threads} threads calculate the parameters, the caller's among them: {caller}");
                    c.count("threads_observed", threads as u64);
                }
                c.count("runs", 1);
                c.seen((d.multi, ipm, s.threads, s.parallel, d.ns, n));
            }
            (Err(Fail::Run(w)), o) => {
                raises(&what, &o, "RuntimeError", w)?;
                if stopped.is_some() && !w.contains("missing solver features") && !w.contains("Infeasible") {
                    c.count("stopped_by_custom_parameter", w.contains("Broken: stopped in step") as u64);
                }
                c.count("runs_that_fail", 1);
                c.seen(("fails", d.multi, ipm, s.parallel, w.split('`').next().unwrap_or("").to_string()));
            }
            // the interior-point method and the solver's own failures
            (Err(Fail::Panic(p)), Err(e)) if ipm => {
                ensure!(is_a(&e, "PanicException") || is_a(&e, "RuntimeError"), "exception", "{what}: {e} for {p}");
                c.count("stopped_without_solution", 1);
            }
            (w, o) => return Err(viol("outcome", format!("{what}: {w:?}, in Python {o:?}"))),
        }
    }
    if want.is_ok() {
        let (a, b) = (files(&py), files(&rs));
        ensure!(a == b && !a.is_empty(), "files", "output files differ: {:?} {:?}", a.keys(), b.keys());
        c.count("files_compared", a.len() as u64);
    }
    Ok(())
}

fn compare(c: &mut Case, what: &str, d: &Doc, want: &[Values], o: &Value) -> Res {
    ensure!(o["duration"].as_f64().is_some_and(|x| x > 0.0 && x < 600.0) && o["speed"].as_f64().is_some_and(|x| x > 0.0), "timings", "{what}: {} {}", o["duration"], o["speed"]);
    // a number of time-steps for each scenario
    let n = o["duration"].as_f64().unwrap() * o["speed"].as_f64().unwrap();
    let cells = (d.ns.max(1) * d.nt) as f64;
    ensure!((n - cells).abs() < 1e-6 * cells, "timings", "{what}: {n} time-steps were completed, {cells} have been");
    let ty = if d.multi { "MultiNetworkModelResult" } else { "ModelResult" };
    ensure!(o["repr"].as_str().is_some_and(|s| s.starts_with(&format!("<{ty} with "))), "repr", "{what}: {}", o["repr"]);
    let nets = o["networks"].as_array().unwrap();
    ensure!(nets.len() == want.len(), "networks", "{what}: {} of {}", nets.len(), want.len());
    for (w, g) in want.iter().zip(nets) {
        let mut names: Vec<&str> = g["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        names.sort();
        ensure!(names == w.keys().map(|k| k.as_str()).collect::<Vec<_>>(), "names", "{what}: outputs {names:?} instead of {:?}", w.keys());
        for (i, u) in g["unknown"].as_array().unwrap().iter().enumerate() {
            raises(&format!("{what}: unknown output {i}"), &outcome(u.clone()), "KeyError", "no such output")?;
        }
        for name in &d.names {
            let got = outcome(g["values"][name].clone());
            match w.get(name) {
                None => raises(&format!("{what}: {name}"), &got, "KeyError", name)?,
                Some(Err(e)) => raises(&format!("{what}: {name}"), &got, "RuntimeError", e)?,
                Some(Ok(x)) => {
                    let y = got.as_ref().ok().and_then(|v| v.as_str()).and_then(hex);
                    ensure!(y.is_some_and(|y| y.to_bits() == x.to_bits() || (x.is_nan() && y.is_nan())), "value", "{what}: {name} is {got:?} instead of {x}");
                    c.count("values_compared", 1);
                }
            }
        }
    }
    if d.multi {
        raises(&format!("{what}: unknown network"), &outcome(o["unknown"].clone()), "KeyError", "no such network")?;
    }
    Ok(())
}

/// The number written by Python's float.hex.
fn hex(s: &str) -> Option<f64> {
    match s {
        "nan" => return Some(f64::NAN),
        "inf" => return Some(f64::INFINITY),
        "-inf" => return Some(f64::NEG_INFINITY),
        _ => {}
    }
    let (neg, s) = match s.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, s),
    };
    let (m, e) = s.strip_prefix("0x")?.split_once('p')?;
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    let digits = u64::from_str_radix(&format!("{a}{b}"), 16).ok()?;
    let x = digits as f64 * 2f64.powi(-(4 * b.len() as i32)) * 2f64.powi(e.parse().ok()?);
    Some(if neg { -x } else { x })
}

/// Paths to all values in the document.
fn places(v: &Value, at: &str, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => o.iter().for_each(|(k, x)| {
            out.push(format!("{at}/{k}"));
            places(x, &format!("{at}/{k}"), out)
        }),
        Value::Array(a) => a.iter().enumerate().for_each(|(k, x)| {
            out.push(format!("{at}/{k}"));
            places(x, &format!("{at}/{k}"), out)
        }),
        _ => {}
    }
}

fn documents(c: &mut Case) -> Res {
    let several = c.rng.chance(0.4);
    let mut d = document(c, several, false);
    let (py, _) = dirs(c);
    let r = &mut c.rng;
    let mut all = vec![];
    places(&d.j, "", &mut all);
    let how = r.us(0, 6);
    let at = r.pick(&all).clone();
    let (parent, key) = at.rsplit_once('/').unwrap();
    match how {
        0 => {
            match d.j.pointer_mut(parent).unwrap() {
                Value::Object(o) => o.remove(key),
                Value::Array(a) => Some(a.remove(key.parse().unwrap())),
                _ => None,
            };
        }
        1 => *d.j.pointer_mut(&at).unwrap() = r.pick(&[json!("a"), json!(-1), json!(2.5), json!(null), json!([]), json!({}), json!(true)]).clone(),
        2 => {
            if let Some(Value::Object(o)) = d.j.pointer_mut(parent) {
                o.insert("zunknown".into(), json!(1));
            }
        }
        _ => {}
    }
    let mut text = if r.chance(0.3) { serde_json::to_string_pretty(&d.j).unwrap() } else { d.j.to_string() };
    if how == 3 {
        let n = r.us(0, text.len() - 1);
        text.truncate((0..=n).rev().find(|i| text.is_char_boundary(*i)).unwrap());
    }
    c.desc = json!({"text": text});
    let want = if d.multi {
        MultiNetworkModelSchema::from_str(&text).map_err(|e| e.to_string()).and_then(|s| serde_json::to_value(&s).map_err(|e| e.to_string()))
    } else {
        ModelSchema::from_str(&text).map_err(|e| e.to_string()).and_then(|s| serde_json::to_value(&s).map_err(|e| e.to_string()))
    };
    let src = source(c, d.multi, &text, &py);
    let got = call("schema", &src)?;
    match want {
        Ok(w) => {
            let got = got.map_err(|e| viol("exception", format!("a document that is valid: {e}")))?;
            for (i, what) in ["written", "read and written again"].iter().enumerate() {
                let g: Value = serde_json::from_str(got[i].as_str().unwrap_or("")).map_err(|e| viol("json", e.to_string()))?;
                if let Some(d) = differs(&g, &w, "") {
                    return Err(viol("document", format!("{what}: {d}")));
                }
            }
            c.count("documents", 1);
            c.seen(("document", d.multi, how));
        }
        Err(e) => {
            raises("a document that is not valid", &got, "RuntimeError", &e)?;
            c.count("documents_refused", 1);
            c.seen(("refused", d.multi, e.split(['`', ' ']).take(3).collect::<Vec<_>>().join(" ")));
        }
    }
    // no such file
    let f = py.join("not-there").join("model.json");
    let plain = c.rng.chance(0.5);
    let got = call("schema", &json!({"multi":d.multi,"file":f,"plain":plain}))?;
    raises("no such file", &got, "RuntimeError", "not-there")
}

/// Models that can not be built.
fn builds(c: &mut Case) -> Res {
    let several = c.rng.chance(0.4);
    let mut d = document(c, several, false);
    let (py, rs) = dirs(c);
    let k = c.rng.us(0, d.networks.len().max(1) - 1);
    let r = &mut c.rng;
    let mut p = python("zpy", "who", json!(["unused"]));
    // what is wrong and the exception of the user's Python code, if there is one
    let (what, cause): (&str, Option<(&str, &str)>) = match r.us(0, 6) {
        0 => {
            p["object"] = json!({"type":"Function","function":"not_there"});
            ("object", Some(("AttributeError", "not_there")))
        }
        1 => {
            p["object"] = json!({"type":"Class","class":"NotThere"});
            ("class", Some(("AttributeError", "NotThere")))
        }
        2 => {
            p["source"] = json!({"type":"Module","module":"zz_not_there"});
            ("module", Some(("ModuleNotFoundError", "zz_not_there")))
        }
        3 | 4 => {
            let (name, code, ty, has) = r
                .pick(&[("syntax", "def who(:\n", "SyntaxError", ""), ("raises", "raise ValueError('as it is loaded')\n", "ValueError", "as it is loaded"), ("imports", "import zz_not_there\n", "ModuleNotFoundError", "zz_not_there"), ("name", "x = undefined_name\n", "NameError", "undefined_name")])
                .clone();
            for dir in [&py, &rs] {
                std::fs::write(dir.join("custom.py"), code).unwrap();
            }
            p["source"] = json!({"type":"Path","path":"custom.py"});
            (name, Some((ty, has)))
        }
        5 => {
            p["source"] = json!({"type":"Path","path":"not-there.py"});
            ("no file", None)
        }
        _ => {
            p = json!({"meta":{"name":"zpy"},"type":"Aggregated","phase":"Before","agg_func":{"type":"Sum"},"metrics":[{"type":"Parameter","name":"not-there"}]});
            ("reference", None)
        }
    };
    let net = d.net(k);
    let place = r.us(0, 5);
    let place = match place {
        4 if cause.is_some() && p["object"]["type"] == "Function" => {
            // the aggregation function of a parameter
            p = json!({"meta":{"name":"zpy"},"type":"Aggregated","phase":if r.chance(0.5) { "Before" } else { "After" },"agg_func":{"type":"Python","source":p["source"],"object":p["object"]["function"]},"metrics":[{"type":"Literal","value":1.0}]});
            if r.chance(0.5) {
                params(net).push(p);
            } else {
                net["nodes"][0]["parameters"] = json!([p]);
            }
            "aggregation function"
        }
        5 if net["virtual_nodes"].as_array().is_some_and(|a| !a.is_empty()) => {
            net["virtual_nodes"][0]["parameters"] = json!([p]);
            "virtual node"
        }
        0 if cause.is_some() && p["object"]["type"] == "Function" => {
            // the aggregation function of a metric set
            net["metric_sets"][0]["aggregator"] = json!({"freq":{"type":"Monthly"},"func":{"type":"Python","source":p["source"],"object":p["object"]["function"]}});
            "metric set"
        }
        1 => {
            let nodes = net["nodes"].as_array_mut().unwrap();
            let i = r.us(0, nodes.len() - 1);
            nodes[i]["parameters"] = json!([p]);
            "node"
        }
        _ => {
            let ps = params(net);
            let i = r.us(0, ps.len());
            ps.insert(i, p);
            "parameter"
        }
    };
    let text_ = d.j.to_string();
    c.desc = json!({"model": d.j, "defect": what});
    let want = match load(d.multi, &text_, Some(&py), Some(&py)) {
        Err(Fail::Build(e)) => e,
        Ok(_) => return Err(viol("builds", format!("{what} in {place}: the model can be built"))),
        Err(e) => return Err(viol("outcome", format!("{what} in {place}: {e:?}"))),
    };
    let src = source(c, d.multi, &text_, &py);
    let plain = c.rng.chance(0.5);
    let got = call("build", &json!({"source":src,"data":py,"output":py,"plain":plain}))?;
    raises(&format!("{what} in {place}"), &got, "RuntimeError", &want)?;
    let e = got.unwrap_err();
    if let Some((ty, has)) = cause {
        ensure!(is_a(&e["cause"], ty) && e["cause"].to_string().contains(has), "cause", "{what} in {place}: {ty} {has:?} expected as the cause of {e}");
        c.count("causes", 1);
    }
    c.count("models_not_built", 1);
    c.seen(("build", what.to_string(), place, d.multi));
    // without it, and it is the same object that is built several times
    Ok(())
}

fn conversion_error(e: &ConversionError) -> Value {
    use ConversionError as E;
    let d = format!("{e:?}");
    let name = d.split([' ', '{', '(']).next().unwrap();
    let f = match e {
        E::MissingAttribute { attrs } | E::UnexpectedAttribute { attrs } | E::AmbiguousAttributes { attrs } | E::UnsupportedAttribute { attrs } => json!({"attrs":attrs}),
        E::ExtraAttribute { attr } => json!({"attr":attr}),
        E::CustomTypeNotSupported { ty } | E::UnrecognisedType { ty } => json!({"ty":ty}),
        E::UnsupportedFeature { feature } => json!({"feature":feature}),
        E::DeprecatedParameter { ty, instead } => json!({"ty":ty,"instead":instead}),
        E::UnexpectedType { expected, actual } => json!({"expected":expected,"actual":actual}),
        E::TableRef { attr, name, error } => json!({"attr":attr,"name":name,"error":error}),
        E::IncorrectNumberOfValues { expected, found } => json!({"expected":expected,"found":found}),
        E::InvalidScenarioSlice { length } => json!({"length":length}),
        E::TableConversionNotSupported { name } => json!({"name":name}),
        E::InvalidSlot { slot } => json!({"slot":slot}),
        _ => json!({}),
    };
    json!([name, f])
}

fn component_error(e: &ComponentConversionError) -> Value {
    use ComponentConversionError as E;
    let (n, v) = match e {
        E::Node { attr, name, error } => ("Node", json!({"attr":attr,"name":name,"error":conversion_error(error)})),
        E::Parameter { attr, name, error } => ("Parameter", json!({"attr":attr,"name":name,"error":conversion_error(error)})),
        E::Scenarios { error } => ("Scenarios", json!({"error":conversion_error(error)})),
        E::Table { name, url, json, error } => ("Table", json!({"name":name,"url":url,"json":json,"error":conversion_error(error)})),
        E::Edge { from_node, to_node, error } => ("Edge", json!({"from_node":from_node,"to_node":to_node,"error":conversion_error(error)})),
    };
    json!([n, v])
}

fn conversions(c: &mut Case) -> Res {
    let mut a = v1::model(&mut c.rng, c.thorough).0;
    let r = &mut c.rng;
    let first = a["nodes"][0]["name"].as_str().unwrap().to_string();
    for i in 0..r.us(0, 3) {
        let Some((_, place, mut v)) = v1::bad(r, &first, None) else { continue };
        let name = format!("zbad{i}");
        match place {
            "n" => {
                v["name"] = json!(name);
                a["nodes"].as_array_mut().unwrap().push(v);
            }
            "p" | "t" => {
                let key = if place == "p" { "parameters" } else { "tables" };
                if a.get(key).is_none() {
                    a[key] = json!({});
                }
                a[key][&name] = v;
            }
            _ => {}
        }
    }
    let mut text = a.to_string();
    if r.chance(0.1) {
        text = r.pick(&["", "{}", "[]", "{\"nodes\": 1}", "null"]).to_string();
    }
    c.desc = json!({"v1": text});
    let got = call("v1", &json!({"text":text}))?;
    match guard(|| ModelSchema::from_v1_str(&text)).map_err(|p| viol("panic", p))? {
        Err(e) => {
            raises("no file of version 1", &got, "RuntimeError", &e.to_string())?;
            c.count("conversions_refused", 1);
        }
        Ok((s, errors)) => {
            let got = got.map_err(|e| viol("exception", format!("conversion: {e}")))?;
            let w = serde_json::to_value(&s).unwrap();
            let g: Value = serde_json::from_str(got[0].as_str().unwrap_or("")).map_err(|e| viol("json", e.to_string()))?;
            if let Some(d) = differs(&g, &w, "") {
                return Err(viol("conversion", d));
            }
            let mut we: Vec<String> = errors.iter().map(|e| component_error(e).to_string()).collect();
            let mut ge: Vec<String> = got[1].as_array().unwrap().iter().map(|e| e.to_string()).collect();
            // parameters are in a map, whose order is that of the day
            we.sort();
            ge.sort();
            ensure!(we == ge, "conversion-errors", "the errors are {ge:?}\ninstead of {we:?}");
            c.count("conversions", 1);
            c.count("conversion_errors", we.len() as u64);
            for e in &errors {
                c.seen(("v1", format!("{e:?}").split(['{', ' ']).next().unwrap_or("").to_string(), conversion_error_name(e)));
            }
        }
    }
    // a single value
    let r = &mut c.rng;
    let (v, want): (Value, Option<Value>) = match r.us(0, 3) {
        0 => {
            let x = r.q(-10.0, 10.0);
            (json!(x), Some(json!({"type":"Literal","value":x})))
        }
        1 => (json!("another parameter"), Some(json!({"type":"Parameter","name":"another parameter"}))),
        2 => (json!({"type":"deficit","node":"a"}), None),
        _ => (json!({"type":1}), None),
    };
    let got = call("v1_metric", &json!({"text":v.to_string()}))?;
    match want {
        Some(w) => {
            let g: Value = got.map_err(|e| viol("exception", format!("metric {v}: {e}"))).and_then(|g| serde_json::from_str(g.as_str().unwrap_or("")).map_err(|e| viol("json", e.to_string())))?;
            ensure!(g == w, "metric", "{v} is {g}");
        }
        None => raises(&format!("metric {v}"), &got, "RuntimeError", "")?,
    }
    Ok(())
}

fn conversion_error_name(e: &ComponentConversionError) -> String {
    component_error(e)[1]["error"][0].as_str().unwrap_or("").to_string()
}

fn others(c: &mut Case) -> Res {
    let (py, rs) = dirs(c);
    if c.rng.chance(0.3) {
        // a new schema
        let r = &mut c.rng;
        let title = r.pick(&["a", "", "ein Modell \u{e4}\u{1F4A7}", "a \"b\""]).to_string();
        let start = jiff::civil::date(r.int(1900, 2100) as i16, r.int(1, 12) as i8, r.int(1, 28) as i8).at(0, 0, 0, 0);
        let end = start.checked_add(jiff::Span::new().days(r.int(1, 500)).hours(r.int(0, 23))).unwrap();
        let multi = r.chance(0.5);
        let got = call("new", &json!({"multi":multi,"title":title,"start":start.to_string(),"end":end.to_string()}))?.map_err(|e| viol("exception", format!("a new schema: {e}")))?;
        let got: Value = serde_json::from_str(got.as_str().unwrap_or("")).map_err(|e| viol("json", e.to_string()))?;
        let want = if multi { serde_json::to_value(MultiNetworkModelSchema::new(&title, &start, &end)) } else { serde_json::to_value(ModelSchema::new(&title, &start, &end)) }.unwrap();
        ensure!(got == want && got["metadata"]["title"] == title, "new", "{got} instead of {want}");
        c.count("new_schemas", 1);
        if c.rng.chance(0.2) {
            let plain = c.rng.chance(0.5);
            let f = py.join("schema.json");
            let got = call("export", &json!({"file":f,"plain":plain}))?.map_err(|e| viol("exception", format!("export: {e}")))?;
            let got: Value = serde_json::from_str(got.as_str().unwrap_or("")).map_err(|e| viol("json", e.to_string()))?;
            let want = serde_json::to_value(schemars::schema_for!(ModelSchema)).unwrap();
            ensure!(got == want, "export", "the exported schema differs");
            let got = call("export", &json!({"file":py.join("not-there").join("schema.json"),"plain":plain}))?;
            raises("export to no directory", &got, "RuntimeError", "")?;
            c.count("exported", 1);
        }
        return Ok(());
    }
    // from a file with its data to output files beside it or elsewhere
    let mut d = document(c, false, false);
    let csv = c.rng.us(1, 9) as f64;
    let data = c.rng.chance(0.5);
    let out = c.rng.chance(0.5);
    let (data_dir, out_dir) = (c.scratch.join("data"), c.scratch.join("out"));
    for p in [&data_dir, &out_dir] {
        std::fs::create_dir_all(p).unwrap();
    }
    std::fs::write(if data { &data_dir } else { &py }.join("t.csv"), format!("key,value\na,{csv}\n")).unwrap();
    std::fs::write(rs.join("t.csv"), format!("key,value\na,{csv}\n")).unwrap();
    d.j["network"]["tables"] = json!([{"meta":{"name":"t"},"format":"CSV","type":"Scalar","lookup":{"type":"Row","cols":1},"url":"t.csv"}]);
    params(d.net(0)).push(json!({"meta":{"name":"from-table"},"type":"Constant","value":{"type":"Table","table":"t","row":"a"}}));
    let f = py.join("model.json");
    std::fs::write(&f, d.j.to_string()).unwrap();
    c.desc = json!({"model": d.j});
    let solver = if c.rng.chance(0.1) { "nothing" } else { "highs" };
    let got = call("run_from_path", &json!({"file":f,"data":data.then_some(&data_dir),"output":out.then_some(&out_dir),"solver":solver}))?;
    if solver == "nothing" {
        return raises("run_from_path", &got, "RuntimeError", "Unknown solver: nothing");
    }
    let model = load(false, &d.j.to_string(), Some(&rs), Some(&rs)).map_err(|e| viol("model-rejected", format!("{e:?}")))?;
    match reference(&model, Settings::default(), &d.names, &[]) {
        Err(Fail::Run(e)) => raises("run_from_path", &got, "RuntimeError", &e)?,
        Err(e) => return Err(viol("outcome", format!("{e:?}"))),
        Ok(_) => {
            got.map_err(|e| viol("exception", format!("run_from_path: {e}")))?;
            let mut w = files(&rs);
            w.remove("t.csv");
            let mut g = files(if out { &out_dir } else { &py });
            g.remove("t.csv");
            ensure!(g == w && !w.is_empty(), "files", "output files {:?} instead of {:?}", g.keys(), w.keys());
            c.count("files_compared", w.len() as u64);
        }
    }
    clear(&rs);
    c.count("run_from_path", 1);
    c.seen(("path", data, out));
    Ok(())
}

/// Scenarios are simulated at the same time where this is asked for, with each solver and kind of model.
fn at_once(c: &mut Case) -> Res {
    driver();
    for (multi, ipm) in [(false, false), (false, true), (true, false), (true, true)] {
        for threads in [Some(2), Some(4), None] {
            let case = format!("meets-{multi}-{ipm}-{threads:?}");
            let meets = json!({"meta":{"name":"meets"},"type":"Python","source":{"type":"Module","module":"pvapi"},"object":{"type":"Class","class":"Meets"},"return_type":"Float","args":[case, 60.0]});
            let net = json!({
                "nodes": [
                    {"meta": {"name": "in"}, "type": "Input", "max_flow": {"type": "Literal", "value": 4.0}},
                    {"meta": {"name": "out"}, "type": "Output", "max_flow": {"type": "Literal", "value": 3.0}, "cost": {"type": "Literal", "value": -1.0}}
                ],
                "edges": [{"from_node": "in", "to_node": "out"}],
                "parameters": [meets],
            });
            let mut j = json!({
                "metadata": {"title": "a"},
                "time": {"start": "2021-01-01", "end": "2021-01-03", "timestep": {"type": "Days", "days": 1}},
                "scenarios": {"groups": [{"name": "g", "size": 16}]},
            });
            if multi {
                j["networks"] = json!([{"name": "a", "network": net, "transfers": []}]);
            } else {
                j["network"] = net;
            }
            c.desc = j.clone();
            let mut kw = json!({"parallel": true});
            if let Some(n) = threads {
                kw["threads"] = json!(n);
            }
            let what = format!("{} with {kw}, multi {multi}", if ipm { "ipm-simd" } else { "highs" });
            let got = call("run", &json!({"source":{"multi":multi,"text":j.to_string()},"data":c.scratch,"output":c.scratch,"plain":false,"solver":if ipm { "ipm-simd" } else { "highs" },"kwargs":kw,"names":[],"networks":if multi { json!(["a"]) } else { Value::Null },"times":1,"case":case,"keyword":true}))?.map_err(|e| viol("exception", format!("{what}: {e}")))?;
            outcome(got[0].clone()).map_err(|e| viol("exception", format!("{what}: {e}")))?;
            let met = call("met", &json!({"case":case}))?;
            let many = std::thread::available_parallelism().is_ok_and(|n| n.get() > 1);
            ensure!(met == Ok(json!(true)) || threads.is_none() && !many, "not-parallel", "{what}: sixteen scenarios are not simulated at the same time: {met:?}");
            c.count("met", 1);
            c.seen(("met", multi, ipm, threads));
        }
    }
    let got = call("native", &json!({"names":["ModelSchema","MultiNetworkModelSchema","Model","ModelResult","MultiNetworkModel","MultiNetworkModelResult","ModelTimings","MultiNetworkModelTimings","NetworkResult","Metric","Timestep","ScenarioIndex","ParameterInfo","ComponentConversionError","ConversionError"]}))?;
    ensure!(got == Ok(json!([])), "classes", "the module lacks {got:?}");
    Ok(())
}

fn c30(c: &mut Case) -> Res {
    driver();
    match c.rng.us(0, 19) {
        0..=9 => runs(c),
        10..=12 => documents(c),
        13..=15 => builds(c),
        16 | 17 => conversions(c),
        _ => others(c),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "distinct (operation, kind of model, solver and settings, kind of defect, exception)",
        assumptions: &[
            "The Python module is compiled into the monitor from the repository's source (with the HiGHS and the interior-point solver) and used by a script in the interpreter of this system, which has neither polars nor pandas: data frames are not made.",
            "Where the interior-point method finds no solution it stops with a panic, which is a PanicException in Python.",
        ],
        quick: 2500,
        thorough: 40000,
        random: c30,
        directed: &[("at-once", at_once)],
        threads: 8,
    }]
}


/// The first place where two documents differ.
pub fn differs(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let keys: std::collections::BTreeSet<_> = x.keys().chain(y.keys()).collect();
            keys.into_iter().find_map(|k| differs(x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null), &format!("{at}/{k}")))
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (x, y))| differs(x, y, &format!("{at}/{i}"))),
        _ if a == b => None,
        // reading a number is exact to the last digit but one
        (Value::Number(x), Value::Number(y)) if x.is_f64() && y.is_f64() && (x.as_f64().unwrap() - y.as_f64().unwrap()).abs() <= 1e-15 * x.as_f64().unwrap().abs() => None,
        _ => Some(format!("{at} is {a} instead of {b}")),
    }
}
