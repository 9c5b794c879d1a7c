//! C31: the command-line program.
use super::pyapi::{Doc, Loaded, differs, document, load, params};
use super::{repro, v1};
use crate::ensure;
use crate::fw::{Case, Prop, Res, guard, viol};
use crate::run::{self, RunErr, SolverSel};
use pywr_schema::{ModelSchema, NetworkSchema};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// How the program ends (None: by a signal) and what it says.
fn program(cwd: &Path, args: &[String]) -> (Option<i32>, String) {
    let out = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .current_dir(cwd)
        .env("PVMON_CLI", "1")
        .env("RUST_BACKTRACE", "0")
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .expect("start the program");
    (out.status.code(), String::from_utf8_lossy(&out.stderr).to_string())
}

fn text_args(a: &[&str]) -> Vec<String> {
    a.iter().map(|x| x.to_string()).collect()
}

/// All files below a directory.
fn tree(dir: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else if p.file_name().is_some_and(|n| n != "pywr_lp.mps") {
                // (which HiGHS leaves behind where there is no allocation)
                m.insert(p.strip_prefix(dir).unwrap().to_path_buf(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    m
}

/// A new empty directory of the case.
fn dir(c: &Case, name: &str) -> PathBuf {
    let p = c.scratch.join(name);
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    p
}

fn s(p: &Path) -> String {
    p.to_str().unwrap().to_string()
}

fn failed(what: &str, code: Option<i32>) -> Res {
    ensure!(code.is_some_and(|n| n != 0), "exit-code", "{what}: ends with {code:?}, but it has failed");
    Ok(())
}

/// An output that shows a value of the table.
fn with_table(d: &mut Doc, k: usize) {
    let n = d.net(k);
    n["tables"] = json!([{"meta":{"name":"t"},"format":"CSV","type":"Scalar","lookup":{"type":"Row","cols":1},"url":"t.csv"}]);
    params(n).push(json!({"meta":{"name":"from-table"},"type":"Constant","value":{"type":"Table","table":"t","row":"a"}}));
    for (key, v) in [
        ("metric_sets", json!({"name":"zt","metrics":[{"type":"Parameter","name":"from-table"}]})),
        ("outputs", json!({"name":"zt","type":"CSV","format":"Long","filename":"zt.csv","metric_set":"zt"})),
    ] {
        if n.get(key).is_none() {
            n[key] = json!([]);
        }
        n[key].as_array_mut().unwrap().push(v);
    }
}

fn runs(c: &mut Case) -> Res {
    let several = c.rng.chance(0.35);
    let ipm = c.rng.chance(0.25);
    let capable = ipm && c.rng.chance(0.6);
    let mut d = document(c, several, capable);
    let (model_dir, data_dir, out_dir, cwd, rs) = (dir(c, "model"), dir(c, "data"), dir(c, "out"), dir(c, "cwd"), dir(c, "rs"));
    let (data, out, here) = (c.rng.chance(0.5), c.rng.chance(0.5), c.rng.chance(0.3));
    let k = c.rng.us(0, d.networks.len().max(1) - 1);
    with_table(&mut d, k);
    // files of the same name in both places
    let x = c.rng.us(1, 9);
    std::fs::write(model_dir.join("t.csv"), format!("key,value\na,{x}\n")).unwrap();
    std::fs::write(data_dir.join("t.csv"), format!("key,value\na,{}\n", x + 10)).unwrap();
    std::fs::write(cwd.join("t.csv"), format!("key,value\na,{}\n", x + 20)).unwrap();
    let src = if data { &data_dir } else { &model_dir };
    c.desc = json!({"model": d.j});
    for k in 0..d.networks.len() {
        if c.rng.chance(0.25) {
            let n = d.net(k).to_string();
            std::fs::write(src.join(format!("net{k}.json")), &n).unwrap();
            *d.net(k) = json!(format!("net{k}.json"));
        }
    }
    let text = d.j.to_string();
    let file = model_dir.join("a model.json");
    let cwd = if here { model_dir.clone() } else { cwd };
    let mut args = vec![if several { "run-multi" } else { "run" }.to_string(), if here { "a model.json".into() } else { s(&file) }];
    let r = &mut c.rng;
    let mut threads = 1;
    let mut opts: Vec<Vec<String>> = vec![];
    if r.chance(0.4) {
        threads = r.us(1, 4);
        opts.push(text_args(&[*r.pick(&["-t", "--threads"]), &threads.to_string()]));
    }
    let mut ignore = false;
    if !several && r.chance(if ipm { 0.5 } else { 0.2 }) {
        ignore = true;
        opts.push(text_args(&[*r.pick(&["-i", "--ignore-feature-requirements"])]));
    }
    let solver = if ipm { "ipm-simd" } else { *r.pick(&["clp", "highs", "microlp"]) };
    if solver != "clp" || r.chance(0.5) {
        opts.push(text_args(&[*r.pick(&["-s", "--solver"]), solver]));
    }
    if data {
        opts.push(text_args(&[*r.pick(&["-d", "--data-path"]), &s(&data_dir)]));
    }
    if out {
        opts.push(text_args(&[*r.pick(&["-o", "--output-path"]), &s(&out_dir)]));
    }
    // what can be wrong
    let mut wrong = None;
    let mut written = text.clone();
    match r.us(0, 19) {
        0 => {
            opts.push(r.pick(&[text_args(&["--thread", "2"]), text_args(&["-x"]), text_args(&["--verbose"]), text_args(&["another.json"])]).clone());
            wrong = Some("an unknown argument");
        }
        1 => {
            written = text[..text.len() - 1].to_string();
            wrong = Some("a truncated file");
        }
        2 => {
            std::fs::remove_file(src.join("t.csv")).unwrap();
            wrong = Some("a missing data file");
        }
        3 if out => {
            std::fs::remove_dir_all(&out_dir).unwrap();
            wrong = Some("a missing output directory");
        }
        4 => {
            d.j["time"]["timestep"] = json!({"type": "Weeks"});
            written = d.j.to_string();
            wrong = Some("an unknown time-step");
        }
        5 => {
            opts.retain(|o| !o[0].contains('s') || o[0].contains("threads") || o[0].contains("ignore") || o[0].contains("path"));
            opts.push(text_args(&["-s", *r.pick(&["glpk", "HIGHS", "ipm", ""])]));
            wrong = Some("an unknown solver");
        }
        6 => {
            // (a network in a file of its own is no object)
            if d.net(k).is_object() {
                d.net(k)["nope"] = json!(1);
                written = d.j.to_string();
                wrong = Some("an unknown attribute");
            }
        }
        7 => {
            args[0] = if several { "run" } else { "run-multi" }.into();
            opts.retain(|o| !o[0].contains("-i"));
            wrong = Some("the other kind of model");
        }
        _ => {}
    }
    std::fs::write(&file, &written).unwrap();
    if r.chance(0.05) && wrong.is_none() {
        std::fs::remove_file(&file).unwrap();
        wrong = Some("a missing model");
    }
    r.shuffle(&mut opts);
    let before = r.chance(0.3) && wrong != Some("an unknown argument");
    if before {
        // the options first
        let m = args.pop().unwrap();
        args.extend(opts.into_iter().flatten());
        args.push(m);
    } else {
        args.extend(opts.into_iter().flatten());
    }
    if r.chance(0.1) {
        args.insert(0, "--debug".into());
    }
    c.desc["args"] = json!(args);
    let what = format!("{args:?}");
    let places: Vec<&PathBuf> = [&model_dir, &data_dir, &out_dir, &cwd].into_iter().collect();
    let was: Vec<_> = places.iter().map(|p| tree(p)).collect();
    let (code, says) = program(&cwd, &args);
    let target = if out { &out_dir } else { &cwd };
    let mut new = BTreeMap::new();
    for (p, w) in places.iter().zip(&was) {
        let now = tree(p);
        for (f, x) in w {
            ensure!(now.get(f) == Some(x), "input-changed", "{what}: the file {f:?} in {p:?} is changed");
        }
        let more: BTreeMap<_, _> = now.into_iter().filter(|(f, _)| !w.contains_key(f)).collect();
        if *p == target {
            new = more;
        } else {
            ensure!(more.is_empty(), "elsewhere", "{what}: {:?} are written to {p:?} instead of {target:?}", more.keys());
        }
    }
    if let Some(x) = wrong {
        failed(&format!("{what} with {x}"), code)?;
        if x != "a missing output directory" {
            ensure!(new.is_empty(), "wrong-arguments", "{what} with {x}: {:?} written", new.keys());
        }
        c.count("failures", 1);
        c.seen(("wrong", x, several, solver));
        return Ok(());
    }
    let sel = match (solver, threads) {
        ("ipm-simd", n) if ignore => SolverSel::IpmIgnoring(n),
        ("ipm-simd", n) => SolverSel::Ipm(n),
        ("microlp", n) => SolverSel::MicrolpSet(n, ignore),
        (_, 1) => SolverSel::Highs,
        (_, n) => SolverSel::HighsPar(n),
    };
    let model = load(several, &text, Some(src), Some(&rs)).map_err(|e| viol("model-rejected", format!("{e:?}")))?;
    let res = match &model {
        Loaded::One(m) => run::exec(m, sel).map(|_| ()),
        Loaded::Several(m) => run::exec_multi(m, sel).map(|_| ()),
    };
    drop(model);
    match res {
        Ok(()) => {
            ensure!(code == Some(0), "exit-code", "{what}: ends with {code:?}: {says}");
            let want = tree(&rs);
            for (f, w) in &want {
                ensure!(new.get(f).is_some(), "file-missing", "{what}: {f:?} is not written to {target:?}");
                ensure!(new[f] == *w, "file", "{what}: {f:?} is\n{}\ninstead of\n{}", String::from_utf8_lossy(&new[f]), String::from_utf8_lossy(w));
            }
            ensure!(new.len() == want.len(), "files", "{what}: {:?} instead of {:?}", new.keys(), want.keys());
            ensure!(want.contains_key(Path::new("zt.csv")), "files", "no output of the table's value");
            c.count("runs", 1);
            c.count("files_compared", want.len() as u64);
            c.seen((several, solver, threads, data, out, here, ignore));
        }
        Err(RunErr::Build(e)) => return Err(viol("outcome", e)),
        Err(_) => {
            failed(&what, code)?;
            c.count("runs_that_fail", 1);
            c.seen(("fails", several, solver, ignore));
        }
    }
    Ok(())
}

/// A file of version 1, and what is to be written for it (None: it can not be read) and whether there are errors.
fn old_document(c: &mut Case, network: bool) -> (Vec<u8>, Option<(Value, bool)>) {
    let mut a = v1::model(&mut c.rng, false).0;
    let r = &mut c.rng;
    let first = a["nodes"][0]["name"].as_str().unwrap().to_string();
    for i in 0..r.us(0, 2) {
        if let Some((_, "p", v)) = v1::bad(r, &first, None) {
            if a.get("parameters").is_none() {
                a["parameters"] = json!({});
            }
            a["parameters"][format!("zbad{i}")] = v;
        }
    }
    if network && r.chance(0.8) {
        for k in ["metadata", "timestepper", "scenarios"] {
            a.as_object_mut().unwrap().remove(k);
        }
    }
    let mut text = a.to_string();
    if r.chance(0.08) {
        text = r.pick(&["", "{\"nodes\": 1}", "[]", "null"]).to_string();
    }
    let want = guard(|| {
        if network {
            let v = serde_json::from_str::<pywr_v1_schema::PywrNetwork>(&text).ok()?;
            let (n, e) = NetworkSchema::from_v1(v);
            Some((serde_json::to_value(&n).unwrap(), !e.is_empty()))
        } else {
            let v = serde_json::from_str::<pywr_v1_schema::PywrModel>(&text).ok()?;
            let (m, e) = ModelSchema::from_v1(v);
            Some((serde_json::to_value(&m).unwrap(), !e.is_empty()))
        }
    });
    let mut bytes = text.into_bytes();
    let mut want = want.ok().flatten();
    if r.chance(0.03) {
        bytes.push(0xff);
        want = None;
    }
    (bytes, want)
}

fn conversions(c: &mut Case) -> Res {
    let (from, to, cwd) = (dir(c, "from"), dir(c, "to"), dir(c, "cwd"));
    let network = c.rng.chance(0.4);
    let stop = c.rng.chance(0.4);
    let many = c.rng.chance(0.5);
    let mut docs: BTreeMap<PathBuf, (Vec<u8>, Option<(Value, bool)>)> = BTreeMap::new();
    let names: &[&str] = if many { &["a.json", "b c.json", "d.v1.json"] } else { &["a.json"] };
    for n in names {
        docs.insert(from.join(n), old_document(c, network));
    }
    for (f, (b, _)) in &docs {
        std::fs::write(f, b).unwrap();
    }
    if many {
        // which are not converted
        let b = docs.values().next().unwrap().0.clone();
        std::fs::create_dir_all(from.join("more.json")).unwrap();
        for n in ["e.txt", "json", "f.json.bak", "more.json/g.json"] {
            std::fs::write(from.join(n), &b).unwrap();
        }
    }
    let r = &mut c.rng;
    let mut wrong = None;
    let (mut input, mut output) = if many { (from.clone(), to.clone()) } else { (from.join("a.json"), to.join("out.txt")) };
    let exists = r.chance(0.3);
    if exists {
        // longer than what is written
        for n in names {
            std::fs::write(if many { to.join(n) } else { output.clone() }, vec![b' '; 100_000]).unwrap();
        }
    }
    match r.us(0, 14) {
        0 => {
            input = from.join("not-there");
            wrong = Some("no input");
        }
        1 => {
            output = if many { to.join("not-there") } else { to.clone() };
            wrong = Some("no output");
        }
        2 if many && !exists => {
            std::fs::write(to.join("x"), "x").unwrap();
            output = to.join("x");
            wrong = Some("a file for a directory");
        }
        2 => {
            output = to.join("not-there").join("a.json");
            wrong = Some("no directory");
        }
        _ => {}
    }
    let mut args = text_args(&["convert", &s(&input), &s(&output)]);
    if stop {
        args.insert(r.us(1, args.len()), r.pick(&["-s", "--stop-on-error"]).to_string());
    }
    if network {
        args.insert(r.us(1, args.len()), r.pick(&["-n", "--network-only"]).to_string());
    }
    let what = format!("{args:?}");
    c.desc = json!({"args": args, "files": docs.iter().map(|(f, d)| (s(f), json!(String::from_utf8_lossy(&d.0)))).collect::<serde_json::Map<_, _>>()});
    let (was_from, was_to) = (tree(&from), tree(&to));
    let (code, says) = program(&cwd, &args);
    ensure!(tree(&from) == was_from, "input-changed", "{what}: the files it reads are changed");
    ensure!(tree(&cwd).is_empty(), "elsewhere", "{what}: files are written to the working directory");
    let now = tree(&to);
    if let Some(x) = wrong {
        failed(&format!("{what} with {x}"), code)?;
        ensure!(now == was_to, "written", "{what} with {x}: {:?}", now.keys());
        c.count("failures", 1);
        c.seen(("wrong", x, many));
        return Ok(());
    }
    let bad = docs.values().filter(|(_, w)| w.as_ref().is_none_or(|(_, errors)| stop && *errors)).count();
    if bad > 0 {
        failed(&what, code)?;
    } else {
        ensure!(code == Some(0), "exit-code", "{what}: ends with {code:?}: {says}");
    }
    let mut expected = 0;
    for (f, (_, w)) in &docs {
        let name = if many { PathBuf::from(f.file_name().unwrap()) } else { PathBuf::from("out.txt") };
        let got = now.get(&name).filter(|b| was_to.get(&name) != Some(b));
        match (w, got) {
            (Some((_, true)), Some(_)) if stop => return Err(viol("written", format!("{what}: {name:?} is written although there are errors"))),
            (None, Some(_)) => return Err(viol("written", format!("{what}: {name:?} is written although the file is not valid"))),
            (Some((v, _)), Some(b)) => {
                let g: Value = serde_json::from_slice(b).map_err(|e| viol("json", format!("{what}: {name:?}: {e}")))?;
                if let Some(x) = differs(&g, v, "") {
                    return Err(viol("conversion", format!("{what}: {name:?}: {x}")));
                }
                c.count("conversions", 1);
            }
            // it stops at the first
            (Some(_), None) => ensure!(bad > 0, "file-missing", "{what}: {name:?} is not written"),
            (None, None) => {}
        }
        expected += now.contains_key(&name) as usize;
    }
    ensure!(now.len() == expected, "files", "{what}: {:?} are written", now.keys());
    c.seen((network, stop, many, bad.min(1), exists));
    Ok(())
}

fn others(c: &mut Case) -> Res {
    let cwd = dir(c, "cwd");
    let r = &mut c.rng;
    match r.us(0, 3) {
        0 => {
            let there = r.chance(0.7);
            let f = if there { cwd.join("schema.json") } else { cwd.join("not-there").join("schema.json") };
            let args = text_args(&["export-schema", &s(&f)]);
            c.desc = json!({"args": args});
            let (code, says) = program(&cwd, &args);
            if !there {
                return failed("export-schema to no directory", code);
            }
            ensure!(code == Some(0), "exit-code", "export-schema ends with {code:?}: {says}");
            let got: Value = serde_json::from_slice(&std::fs::read(&f).unwrap_or_default()).map_err(|e| viol("json", e.to_string()))?;
            ensure!(got == serde_json::to_value(schemars::schema_for!(ModelSchema)).unwrap(), "export", "the exported schema differs");
            c.count("exported", 1);
        }
        1 => {
            let solver = *r.pick(&["highs", "microlp", "clp"]);
            let args = text_args(&["run-random", &r.us(2, 6).to_string(), &r.us(0, 100).to_string(), &r.us(1, 4).to_string(), "-s", solver]);
            c.desc = json!({"args": args});
            let (code, says) = program(&cwd, &args);
            ensure!(code == Some(0), "exit-code", "{args:?} ends with {code:?}: {says}");
            c.count("random_systems", 1);
        }
        _ => {
            let args = r
                .pick(&[
                    vec![],
                    vec!["nothing"],
                    vec!["Run", "a.json"],
                    vec!["run"],
                    vec!["run-multi"],
                    vec!["convert"],
                    vec!["convert", "a.json"],
                    vec!["export-schema"],
                    vec!["run-random", "1", "1"],
                    vec!["run-random", "one", "1", "1"],
                    vec!["run", "a.json", "-t", "-1"],
                    vec!["run", "a.json", "-t", "two"],
                    vec!["run", "a.json", "--threads"],
                    vec!["export-schema", "a", "b"],
                ])
                .clone();
            let args = text_args(&args);
            c.desc = json!({"args": args});
            let (code, _) = program(&cwd, &args);
            failed(&format!("{args:?}"), code)?;
            ensure!(tree(&cwd).is_empty(), "wrong-arguments", "{args:?} writes {:?}", tree(&cwd).keys());
            c.count("failures", 1);
            c.seen(args);
        }
    }
    Ok(())
}

fn c31(c: &mut Case) -> Res {
    match c.rng.us(0, 19) {
        0..=9 => runs(c),
        10..=16 => conversions(c),
        _ => others(c),
    }
}

const MEETS: &str = r#"
import threading

LOCK = threading.Lock()
THREADS = set()
BARRIER = None

def note(info, file, seconds):
    """Waits, the first time of each scenario, until it is calculated in two threads at once."""
    global BARRIER
    with LOCK:
        THREADS.add(threading.get_native_id())
        if BARRIER is None:
            BARRIER = threading.Barrier(2, timeout=seconds)
    if info.timestep.index == 0 and seconds > 0:
        try:
            BARRIER.wait()
            met = 1
        except threading.BrokenBarrierError:
            met = 0
    else:
        met = 2
    with open(file, "a") as f:
        f.write(f"{threading.get_native_id()} {met}\n")
    return 1.0
"#;

/// As many threads as are asked for.
fn threads(c: &mut Case) -> Res {
    for multi in [false, true] {
        for solver in ["highs", "ipm-simd", "microlp"] {
            // (0: not given)
            for n in [0, 1, 2, 4] {
                let d = dir(c, "model");
                let seen = d.join("seen.txt");
                std::fs::write(d.join("meets.py"), MEETS).unwrap();
                let net = json!({
                    "nodes": [
                        {"meta": {"name": "in"}, "type": "Input", "max_flow": {"type": "Literal", "value": 4.0}},
                        {"meta": {"name": "out"}, "type": "Output", "max_flow": {"type": "Literal", "value": 3.0}, "cost": {"type": "Literal", "value": -1.0}}
                    ],
                    "edges": [{"from_node": "in", "to_node": "out"}],
                    "parameters": [{"meta":{"name":"meets"},"type":"Python","source":{"type":"Path","path":"meets.py"},"object":{"type":"Function","function":"note"},"return_type":"Float","args":[s(&seen), if n > 1 { 60.0 } else { 0.0 }]}],
                });
                let mut j = json!({
                    "metadata": {"title": "a"},
                    "time": {"start": "2021-01-01", "end": "2021-01-03", "timestep": {"type": "Days", "days": 1}},
                    "scenarios": {"groups": [{"name": "g", "size": 16}]},
                });
                if multi {
                    j["networks"] = json!([{"name": "a", "network": net, "transfers": []}]);
                } else {
                    j["network"] = net;
                }
                c.desc = j.clone();
                let f = d.join("model.json");
                std::fs::write(&f, j.to_string()).unwrap();
                let mut args = text_args(&[if multi { "run-multi" } else { "run" }, &s(&f), "-s", solver]);
                if n > 0 {
                    args.extend(text_args(&["-t", &n.to_string()]));
                }
                let n = n.max(1);
                let (code, says) = program(&d, &args);
                ensure!(code == Some(0), "exit-code", "{args:?} ends with {code:?}: {says}");
                let text = std::fs::read_to_string(&seen).unwrap_or_default();
                let lines: Vec<&str> = text.lines().collect();
                ensure!(lines.len() == 48, "threads", "{args:?}: {} calculations instead of 48", lines.len());
                let ids: std::collections::BTreeSet<&str> = lines.iter().map(|l| l.split(' ').next().unwrap()).collect();
                ensure!(ids.len() <= n && (n == 1 || ids.len() >= 2 && lines.iter().any(|l| l.ends_with(" 1"))), "threads", "{args:?}: {} threads simulate sixteen scenarios", ids.len());
                c.count("threads_observed", ids.len() as u64);
                c.seen((multi, solver, n));
            }
        }
    }
    Ok(())
}

/// A random network of one system, which has nothing to be connected to.
fn one_system(c: &mut Case) -> Res {
    let cwd = dir(c, "cwd");
    let mut p = Command::new(std::env::current_exe().unwrap())
        .args(["run-random", "1", "50", "2", "-s", "highs"])
        .current_dir(&cwd)
        .env("PVMON_CLI", "1")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("start the program");
    for _ in 0..100 {
        if p.try_wait().is_ok_and(|s| s.is_some()) {
            return Ok(());
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    let _ = p.kill();
    let _ = p.wait();
    Err(viol("never-ends", "run-random with one system does not end within ten seconds"))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "distinct (command, options, kind of model, solver, threads, kind of mistake)",
        assumptions: &[
            "The program is compiled into the monitor from the repository's source, with the HiGHS, microlp and interior-point solvers; Clp is replaced by HiGHS, and no log is written.",
            "With the microlp solver the number of threads is observed, and not whether the allocation is the same as that of another solver.",
        ],
        quick: 2500,
        thorough: 40000,
        random: c31,
        directed: &[("threads", threads), ("one-system", one_system)],
        threads: 8,
    }]
}
