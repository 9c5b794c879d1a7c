//! External data: C20 tables (and checksums), C21 alignment of timeseries with the time-steps.
use super::domain::{Dom, Sub};
use crate::ensure;
use crate::fw::{Case, Prop, Res, Rng, guard, viol};
use crate::run::{self, RunErr, SolverSel, Trace};
use jiff::ToSpan;
use jiff::civil::{DateTime, date};
use md5::Md5;
use pywr_core::metric::UnresolvedMetricF64 as UM;
use pywr_schema::ModelSchema;
use serde_json::{Value, json};
use sha2::{Digest, Sha256};
use std::path::Path;
use std::str::FromStr;

fn load_and_run(j: &Value, dir: &Path, probes: Vec<(String, UM)>) -> Result<Trace, RunErr> {
    let schema = ModelSchema::from_str(&j.to_string()).map_err(|e| RunErr::Build(format!("schema: {e}")))?;
    let mb = guard(|| schema.create_model_builder(Some(dir), Some(dir)))
        .map_err(RunErr::Panic)?
        .map_err(|e| RunErr::Build(format!("{e:?}")))?;
    let (model, out) = run::build(mb, probes)?;
    run::exec(&model, SolverSel::Highs)?;
    let t = std::mem::take(&mut *out.lock().unwrap());
    Ok(t)
}

fn csv_field(s: &str, quote: bool) -> String {
    if quote || s.is_empty() || s.contains([',', '"', '\n', '\r']) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

fn csv_text(r: &mut Rng, rows: &[Vec<String>]) -> String {
    let crlf = r.chance(0.2);
    let quote = r.chance(0.15);
    let mut s = String::new();
    for (i, row) in rows.iter().enumerate() {
        if i > 0 {
            s += if crlf { "\r\n" } else { "\n" };
        }
        s += &row.iter().map(|f| csv_field(f, quote)).collect::<Vec<_>>().join(",");
    }
    if r.chance(0.8) {
        s += if crlf { "\r\n" } else { "\n" };
    }
    s
}

fn hash(kind: &str, data: &[u8]) -> String {
    if kind == "MD5" { hex::encode(Md5::digest(data)) } else { hex::encode(Sha256::digest(data)) }
}

fn checksum(r: &mut Rng, data: &[u8]) -> Option<Value> {
    if !r.chance(0.4) {
        return None;
    }
    let k = if r.chance(0.5) { "MD5" } else { "SHA256" };
    Some(json!({"type": k, "hash": hash(k, data)}))
}

// ------------------------------------------------------------------------------------------------ C20

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Form {
    SRow(usize),
    SCol(usize),
    SBoth(usize, usize),
    ARow(usize),
    ACol(usize),
}

impl Form {
    fn keys(&self) -> (usize, usize) {
        match self {
            Form::SRow(n) | Form::ARow(n) => (*n, 0),
            Form::SCol(n) | Form::ACol(n) => (0, *n),
            // R header rows (keys of the columns) and C key columns (keys of the rows)
            Form::SBoth(r, c) => (*c, *r),
        }
    }
    fn scalar(&self) -> bool {
        !matches!(self, Form::ARow(_) | Form::ACol(_))
    }
    fn json(&self) -> Value {
        let l = match self {
            Form::SRow(n) | Form::ARow(n) => json!({"type":"Row","cols":n}),
            Form::SCol(n) | Form::ACol(n) => json!({"type":"Col","rows":n}),
            Form::SBoth(r, c) => json!({"type":"Both","rows":r,"cols":c}),
        };
        json!({"format":"CSV","type": if self.scalar() {"Scalar"} else {"Array"}, "lookup": l})
    }
}

struct Table {
    name: String,
    form: Form,
    /// (row keys, column keys, values); None is a blank or a text
    entries: Vec<(Vec<String>, Vec<String>, Vec<Option<f64>>)>,
    text: String,
}

const KEYS: [&str; 18] =
    ["a", "b", "A", "1", "2", "1.0", "01", "a b", "é🐍", "x,y", "q\"t", "new\nline", "key", "value", " a", "a ", "-", "true"];

fn keyset(r: &mut Rng, n: usize, want: usize) -> Vec<Vec<String>> {
    let pool: Vec<&str> = {
        let mut k = KEYS.to_vec();
        r.shuffle(&mut k);
        k.truncate(r.us(2, 5).max(if n == 1 { want } else { 2 }));
        k
    };
    let mut out: Vec<Vec<String>> = vec![];
    for _ in 0..want * 4 {
        let mut k: Vec<String> = (0..n).map(|_| r.pick(&pool).to_string()).collect();
        if n > 1 && !out.is_empty() && r.chance(0.5) {
            // the same parts in another order
            k = r.pick(&out).clone();
            r.shuffle(&mut k);
        }
        if !out.contains(&k) {
            out.push(k);
        }
        if out.len() == want {
            break;
        }
    }
    out
}

fn number(r: &mut Rng, index: bool) -> (String, f64) {
    if index {
        let v = *r.pick(&[0.0, 1.0, 2.0, 3.0, 17.0, 1e6, 4503599627370497.0]);
        return (match r.us(0, 2) { 0 => format!("{v}"), 1 => format!("{v:.1}"), _ => format!("{v:.0}") }, v);
    }
    let v = match r.us(0, 4) {
        0 => r.int(0, 9) as f64,
        1 => r.q(-20.0, 20.0),
        2 => r.f(-5.0, 5.0),
        3 => r.f(0.0, 1.0) * 10f64.powi(r.int(-12, 12) as i32),
        _ => r.q(0.0, 500.0),
    };
    match r.us(0, 4) {
        0 => (format!("{v:e}"), v),
        1 => {
            let s = format!("{v:.3}");
            let w = s.parse().unwrap();
            (s, w)
        }
        2 if v > 0.0 => (format!("+{v}"), v),
        _ => (format!("{v}"), v),
    }
}

fn cell(r: &mut Rng, gaps: bool, index: bool) -> (String, Option<f64>) {
    if gaps && r.chance(0.12) {
        return (r.pick(&["", "n/a", "-", "1,5", "text"]).to_string(), None);
    }
    let (s, v) = number(r, index);
    (s, Some(v))
}

fn table(r: &mut Rng, i: usize, form: Form, len: usize, index: bool) -> Table {
    let (nr, nc) = form.keys();
    let mut rows: Vec<Vec<String>> = vec![];
    let mut entries = vec![];
    let label = |r: &mut Rng| r.pick(&["key", "", "value", "a", "1", "b"]).to_string();
    let want = r.us(1, 7);
    match form {
        Form::SRow(_) | Form::ARow(_) => {
            let ks = keyset(r, nr, want);
            rows.push((0..nr + if form.scalar() { 1 } else { len }).map(|_| label(r)).collect());
            for k in ks {
                let cs: Vec<_> = (0..if form.scalar() { 1 } else { len }).map(|_| cell(r, form.scalar(), index)).collect();
                rows.push(k.iter().cloned().chain(cs.iter().map(|c| c.0.clone())).collect());
                entries.push((k, vec![], cs.iter().map(|c| c.1).collect()));
            }
        }
        Form::SCol(_) | Form::ACol(_) => {
            let ks = keyset(r, nc, want.max(2));
            let n = if form.scalar() { 1 } else { len };
            let cs: Vec<Vec<_>> = ks.iter().map(|_| (0..n).map(|_| cell(r, form.scalar(), index)).collect()).collect();
            for h in 0..nc {
                rows.push(ks.iter().map(|k| k[h].clone()).collect());
            }
            for v in 0..n {
                rows.push(cs.iter().map(|c| c[v].0.clone()).collect());
            }
            for (k, c) in ks.into_iter().zip(cs) {
                entries.push((vec![], k, c.iter().map(|c| c.1).collect()));
            }
        }
        Form::SBoth(..) => {
            let ck = keyset(r, nc, r.clone().us(2, 5));
            let rk = keyset(r, nr, want);
            for h in 0..nc {
                rows.push((0..nr).map(|_| label(r)).chain(ck.iter().map(|k| k[h].clone())).collect());
            }
            for k in rk {
                let cs: Vec<_> = ck.iter().map(|_| cell(r, true, index)).collect();
                rows.push(k.iter().cloned().chain(cs.iter().map(|c| c.0.clone())).collect());
                for (c, v) in ck.iter().zip(cs) {
                    entries.push((k.clone(), c.clone(), vec![v.1]));
                }
            }
        }
    }
    // a record which is one empty field is not distinguishable from an empty line
    let text = csv_text(r, &rows);
    Table { name: format!("tbl{i}"), form, entries, text }
}

fn key_json(r: &mut Rng, k: &[String]) -> Option<Value> {
    match k.len() {
        0 => None,
        1 if r.chance(0.7) => Some(json!(k[0])),
        _ => Some(json!(k)),
    }
}

fn reference(r: &mut Rng, table: &str, row: &[String], col: &[String]) -> Value {
    let mut j = json!({"type":"Table","table":table});
    if let Some(k) = key_json(r, row) {
        j["row"] = k;
    }
    if let Some(k) = key_json(r, col) {
        j["column"] = k;
    }
    j
}

fn c20(c: &mut Case) -> Res {
    let dir = c.scratch.join("data");
    std::fs::create_dir_all(dir.join("sub dir")).unwrap();
    let len = c.rng.us(1, 6);
    let r = &mut c.rng;
    let start = date(2020, r.int(1, 12) as i8, r.int(1, 28) as i8);
    let nt = r.us(1, 3);
    let hours = r.chance(0.3);
    let mut params: Vec<Value> = vec![];
    let mut nodes: Vec<Value> = vec![];
    let mut edges: Vec<Value> = vec![];
    let mut tables: Vec<Table> = vec![];
    let mut defs: Vec<Value> = vec![];
    // probe name, how it is computed
    enum Want {
        Same(f64),
        Group(Vec<f64>),
        Month(Vec<f64>),
        Hour(Vec<f64>),
    }
    let mut want: Vec<(String, UM, Want)> = vec![];
    let ntab = r.us(1, 4);
    for i in 0..ntab {
        let form = match r.us(0, 9) {
            0 | 1 => Form::SRow(r.us(1, 4)),
            2 | 3 => Form::SCol(r.us(1, 4)),
            4..=6 => Form::SBoth(r.us(1, 2), r.us(1, 2)),
            7 => Form::ARow(r.us(1, 4)),
            _ => Form::ACol(r.us(1, 4)),
        };
        let index = form.scalar() && r.chance(0.3);
        // what the arrays are for
        let use_ = r.us(0, 2);
        let n = if form.scalar() { 1 } else { [len, 12, 24][use_] };
        let t = table(r, i, form, n, index);
        let mut d = form.json();
        d["meta"] = json!({"name":t.name});
        let sub = r.chance(0.3);
        let rel = if sub { format!("sub dir/t{i}.csv") } else { format!("t{i}.csv") };
        std::fs::write(dir.join(&rel), &t.text).unwrap();
        d["url"] = if r.chance(0.2) { json!(dir.join(&rel).to_str().unwrap()) } else { json!(rel) };
        if let Some(h) = checksum(r, t.text.as_bytes()) {
            d["checksum"] = h;
        }
        defs.push(d);
        for (e, (row, col, vals)) in t.entries.iter().enumerate() {
            let name = format!("p{i}-{e}");
            let rf = reference(r, &t.name, row, col);
            if !form.scalar() {
                let v: Vec<f64> = vals.iter().map(|v| v.unwrap()).collect();
                let um = UM::new_parameter_before(name.as_str());
                match use_ {
                    0 => {
                        params.push(json!({"meta":{"name":name},"type":"ConstantScenario","scenario_group":"g","values":rf}));
                        want.push((name, um, Want::Group(v)));
                    }
                    1 => {
                        params.push(json!({"meta":{"name":name},"type":"MonthlyProfile","values":rf}));
                        want.push((name, um, Want::Month(v)));
                    }
                    _ => {
                        params.push(json!({"meta":{"name":name},"type":"DiurnalProfile","values":rf}));
                        want.push((name, um, Want::Hour(v)));
                    }
                }
                continue;
            }
            let Some(v) = vals[0] else { continue };
            let um = UM::new_parameter_before(name.as_str());
            match r.us(0, if index { 4 } else { 2 }) {
                0 => {
                    params.push(json!({"meta":{"name":name},"type":"Constant","value":rf}));
                    want.push((name, um, Want::Same(v)));
                }
                1 => {
                    params.push(json!({"meta":{"name":name},"type":"Aggregated","phase":"Before","agg_func":{"type":"Sum"},"metrics":[rf]}));
                    want.push((name, um, Want::Same(v)));
                }
                2 if (0.0..1e4).contains(&v) && nodes.len() < 12 => {
                    let (a, b) = (format!("i{name}"), format!("o{name}"));
                    nodes.push(json!({"meta":{"name":a},"type":"Catchment","flow":rf}));
                    nodes.push(json!({"meta":{"name":b},"type":"Output"}));
                    edges.push(json!({"from_node":a,"to_node":b}));
                    let um = UM::EdgeFlow(pywr_core::network::UnresolvedEdge::new(a.as_str().into(), b.as_str().into()));
                    want.push((name, um, Want::Same(v)));
                }
                2 => {
                    params.push(json!({"meta":{"name":name},"type":"Max","parameter":rf,"threshold":-1e300}));
                    want.push((name, um, Want::Same(v)));
                }
                _ => {
                    params.push(json!({"meta":{"name":name},"type":"AggregatedIndex","phase":"Before","agg_func":{"type":"Sum"},"metrics":[rf]}));
                    want.push((name, um, Want::Same(v)));
                }
            }
        }
        tables.push(t);
    }
    if nodes.is_empty() {
        nodes.push(json!({"meta":{"name":"in"},"type":"Input","max_flow":{"type":"Literal","value":1.0}}));
        nodes.push(json!({"meta":{"name":"out"},"type":"Output"}));
        edges.push(json!({"from_node":"in","to_node":"out"}));
    }
    r.shuffle(&mut params);
    r.shuffle(&mut defs);
    let (end, step) = if hours {
        (start.at(0, 0, 0, 0).checked_add((nt as i64 * 5).hours()).unwrap(), json!({"type":"Hours","hours":5}))
    } else {
        (start.at(0, 0, 0, 0).checked_add((nt as i64 * 20).days()).unwrap(), json!({"type":"Days","days":20}))
    };
    let j = json!({
        "metadata":{"title":"tables"},
        "time":{"start":start.at(0,0,0,0).to_string(),"end":end.to_string(),"timestep":step},
        "scenarios":{"groups":[{"name":"g","size":len}]},
        "network":{"nodes":nodes,"edges":edges,"parameters":params,"tables":defs}
    });
    c.desc = json!({"model":j,"files":tables.iter().map(|t| json!([t.name, t.text])).collect::<Vec<_>>()});
    let probes = want.iter().map(|w| (w.0.clone(), w.1.clone())).collect();
    let tr = match load_and_run(&j, &dir, probes) {
        Ok(t) => t,
        Err(e) => return Err(viol(if e.is_panic() { "panic" } else { "rejected" }, e.text())),
    };
    ensure!(tr.scenarios.len() == len, "scenarios", "{} scenarios", tr.scenarios.len());
    c.count("runs", 1);
    for (k, (name, _, w)) in want.iter().enumerate() {
        for st in &tr.steps {
            for (s, sc) in st.scen.iter().enumerate() {
                let v = match w {
                    Want::Same(v) => *v,
                    Want::Group(v) => v[s],
                    Want::Month(v) => v[st.date.month() as usize - 1],
                    Want::Hour(v) => v[st.date.hour() as usize],
                };
                let tol = if name.starts_with('p') && matches!(want[k].1, UM::EdgeFlow(_)) { 1e-6 * (1.0 + v.abs()) } else { 0.0 };
                ensure!((sc.m[k] - v).abs() <= tol, "value", "{name} is {} at {}, scenario {s}; the table has {v}", sc.m[k], st.date);
                c.count("values_compared", 1);
            }
        }
    }
    for t in &tables {
        c.seen((t.form, t.entries.len().min(4), t.text.contains('"')));
    }
    if c.rng.chance(0.5) {
        return c20_refused(c, j, &tables, &dir, len);
    }
    Ok(())
}

/// The model made wrong in one way must be refused (by an error).
fn c20_refused(c: &mut Case, mut j: Value, tables: &[Table], dir: &Path, len: usize) -> Res {
    let r = &mut c.rng;
    let ti = r.us(0, tables.len() - 1);
    let t = &tables[ti];
    let di = j["network"]["tables"].as_array().unwrap().iter().position(|d| d["meta"]["name"] == json!(t.name)).unwrap();
    let (row, col, _) = r.pick(&t.entries).clone();
    let scalar = t.form.scalar();
    let scal_ref = |rf: Value| json!({"meta":{"name":"bad"},"type":"Constant","value":rf});
    let index_ref = |rf: Value| json!({"meta":{"name":"bad"},"type":"AggregatedIndex","phase":"Before","agg_func":{"type":"Sum"},"metrics":[rf]});
    let vec_ref = |rf: Value| json!({"meta":{"name":"bad"},"type":"ConstantScenario","scenario_group":"g","values":rf});
    let good = |rf: Value| if scalar { scal_ref(rf) } else { vec_ref(rf) };
    let mut bad = None;
    let small = |form: Value, text: &str| -> Value {
        std::fs::write(dir.join("bad.csv"), text).unwrap();
        let mut d = form;
        d["format"] = json!("CSV");
        d["meta"] = json!({"name":"badtbl"});
        d["url"] = json!("bad.csv");
        d
    };
    let kind = r.us(0, 14);
    let label = match kind {
        0 => {
            bad = Some(good(reference(r, "no-such-table", &row, &col)));
            "unknown table"
        }
        1 => {
            // a key that is not there: one part changed
            let (mut row2, mut col2) = (row.clone(), col.clone());
            let n = row2.len() + col2.len();
            let k = r.us(0, n - 1);
            let part = if k < row2.len() { &mut row2[k] } else { &mut col2[k - row.len()] };
            *part = match r.us(0, 3) {
                0 => format!("{part}x"),
                1 => format!("{part} "),
                2 => part.to_uppercase() + "q",
                _ => String::new(),
            };
            if t.entries.iter().any(|e| e.0 == row2 && e.1 == col2) {
                return Ok(());
            }
            bad = Some(good(reference(r, &t.name, &row2, &col2)));
            "unknown key"
        }
        2 => {
            // the parts of the key in another order
            let (mut row2, mut col2) = (row.clone(), col.clone());
            row2.reverse();
            col2.reverse();
            if t.entries.iter().any(|e| e.0 == row2 && e.1 == col2 && e.2[0].is_some()) {
                return Ok(());
            }
            bad = Some(good(reference(r, &t.name, &row2, &col2)));
            "parts of the key reversed"
        }
        3 => {
            let (mut row2, mut col2) = (row.clone(), col.clone());
            let k = if row2.is_empty() || (!col2.is_empty() && r.chance(0.5)) { &mut col2 } else { &mut row2 };
            if r.chance(0.5) { k.push("a".into()) } else { k.pop().map_or((), |_| ()) }
            bad = Some(good(reference(r, &t.name, &row2, &col2)));
            "wrong number of keys"
        }
        4 => {
            let rf = reference(r, &t.name, &row, &col);
            bad = Some(if scalar { vec_ref(rf) } else { scal_ref(rf) });
            "scalar from an array table or the reverse"
        }
        5 => {
            // blank entry
            let blanks: Vec<_> = tables.iter().flat_map(|t| t.entries.iter().filter(|e| e.2.iter().any(|v| v.is_none())).map(move |e| (t, e))).collect();
            if blanks.is_empty() {
                return Ok(());
            }
            let (t, e) = *r.pick(&blanks);
            let rf = reference(r, &t.name, &e.0, &e.1);
            bad = Some(if r.chance(0.5) { scal_ref(rf) } else { index_ref(rf) });
            "entry without a number"
        }
        6 => {
            let v = *r.pick(&["-1", "0.5", "-0.25", "1e300", "9007199254740993", "18446744073709551615", "NaN", "inf", "1e-9", "123456.75"]);
            let d = small(json!({"type":"Scalar","lookup":{"type":"Row","cols":1}}), &format!("k,v\na,{v}\n"));
            j["network"]["tables"].as_array_mut().unwrap().push(d);
            bad = Some(index_ref(json!({"type":"Table","table":"badtbl","row":"a"})));
            "index that is not a whole number which can be represented"
        }
        7 | 8 => {
            let d = &mut j["network"]["tables"][di];
            let k = if r.chance(0.5) { "MD5" } else { "SHA256" };
            let mut h = hash(k, t.text.as_bytes());
            match r.us(0, 3) {
                0 => {
                    // another digit
                    let i = r.us(0, h.len() - 1);
                    let x = u8::from_str_radix(&h[i..=i], 16).unwrap();
                    h.replace_range(i..=i, &format!("{:x}", (x + 1) % 16));
                }
                1 => h = hash(if k == "MD5" { "SHA256" } else { "MD5" }, t.text.as_bytes()),
                2 => h = h[..h.len() - 2].to_string(),
                _ => {
                    // the file has changed by one byte
                    let p = d["url"].as_str().unwrap().to_string();
                    let p = if Path::new(&p).is_absolute() { p.into() } else { dir.join(p) };
                    let mut b = t.text.clone().into_bytes();
                    b.push(b'\n');
                    std::fs::write(p, b).unwrap();
                }
            }
            d["checksum"] = json!({"type":k,"hash":h});
            "checksum does not match"
        }
        9 => {
            j["network"]["tables"][di]["url"] = json!("no-such-file.csv");
            "missing file"
        }
        10 => {
            let d = j["network"]["tables"][di].clone();
            j["network"]["tables"].as_array_mut().unwrap().push(d);
            "two tables of the same name"
        }
        11 => {
            let l = match r.us(0, 7) {
                0 => json!({"type":"Scalar","lookup":{"type":"Row","cols":5}}),
                1 => json!({"type":"Scalar","lookup":{"type":"Col","rows":5}}),
                2 => json!({"type":"Scalar","lookup":{"type":"Both","rows":3,"cols":3}}),
                3 => json!({"type":"Array","lookup":{"type":"Both","rows":1,"cols":1}}),
                4 => json!({"type":"Array","lookup":{"type":"Row","cols":5}}),
                5 => json!({"type":"Array","lookup":{"type":"Col","rows":5}}),
                6 => json!({"type":"Scalar","lookup":{"type":"Row","cols":0}}),
                _ => json!({"type":"Scalar","lookup":{"type":"Col","rows":0}}),
            };
            let d = small(l, "a,b,c,d,e,f\n1,2,3,4,5,6\n1,2,3,4,5,6\n1,2,3,4,5,6\n1,2,3,4,5,6\n1,2,3,4,5,6\n");
            j["network"]["tables"].as_array_mut().unwrap().push(d);
            "unsupported form of table"
        }
        12 => {
            let (l, s) = match r.us(0, 8) {
                0 => (json!({"type":"Scalar","lookup":{"type":"Row","cols":1}}), "k,v,w\na,1,2\n"),
                1 => (json!({"type":"Scalar","lookup":{"type":"Col","rows":1}}), "a,b\n1,2\n3,4\n"),
                2 => (json!({"type":"Scalar","lookup":{"type":"Row","cols":2}}), "k,l\na,b\n"),
                3 => (json!({"type":"Scalar","lookup":{"type":"Row","cols":3}}), "k,l\na,b\n"),
                4 => (json!({"type":"Array","lookup":{"type":"Row","cols":1}}), "k,v,w\na,1,x\n"),
                5 => (json!({"type":"Array","lookup":{"type":"Col","rows":1}}), "a,b\n1,2\n3,\n"),
                6 => (json!({"type":"Array","lookup":{"type":"Col","rows":3}}), "a,b\nc,d\n"),
                7 => (json!({"type":"Scalar","lookup":{"type":"Col","rows":1}}), "a,b\n"),
                _ => (json!({"type":"Scalar","lookup":{"type":"Row","cols":1}}), "k,v\na,1\nb,2,3\n"),
            };
            let d = small(l, s);
            j["network"]["tables"].as_array_mut().unwrap().push(d);
            "contents which do not fit the form of table"
        }
        13 => {
            // an array of the wrong length
            let n = if r.chance(0.5) { len + 1 } else { len + 3 };
            let v = vec!["1"; n].join(",");
            let d = small(json!({"type":"Array","lookup":{"type":"Row","cols":1}}), &format!("{}\na,{v}\n", vec!["h"; n + 1].join(",")));
            j["network"]["tables"].as_array_mut().unwrap().push(d);
            let rf = json!({"type":"Table","table":"badtbl","row":"a"});
            bad = Some(match r.us(0, 2) {
                0 => vec_ref(rf),
                1 if n != 12 => json!({"meta":{"name":"bad"},"type":"MonthlyProfile","values":rf}),
                _ => json!({"meta":{"name":"bad"},"type":"DiurnalProfile","values":rf}),
            });
            "array of the wrong length"
        }
        _ => {
            let rf = reference(r, &t.name, &row, &col);
            let mut rf = rf;
            rf["index"] = json!(0);
            bad = Some(good(rf));
            "unknown field in the reference"
        }
    };
    if let Some(b) = bad {
        j["network"]["parameters"].as_array_mut().unwrap().push(b);
    }
    c.desc["refused"] = json!({"what": label, "model": j});
    match load_and_run(&j, dir, vec![]) {
        Err(RunErr::Build(_)) => {
            c.count("refused", 1);
            c.seen((99u8, kind));
            Ok(())
        }
        Ok(_) => Err(viol(format!("accepted:{label}"), format!("model accepted although: {label}"))),
        Err(e) => Err(viol(format!("panic:{label}"), format!("{label}: {}", e.text()))),
    }
}

// ------------------------------------------------------------------------------------------------ C21
include!("data_ts.rs");

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        rule: "distinct (form of table, number of entries, quoting) tables read entirely through references, and distinct kinds of refused model",
        assumptions: &["The numbers and keys of the files are known because the harness wrote them."],
        quick: 12000,
        thorough: 200000,
        random: c20,
        directed: &[],
        threads: 8,
    },
    Prop {
        id: "C21",
        rule: "distinct (spacing of the data over the length of the step, column or scenario, whole numbers, use, data before the start, scenario subset, combinations) references compared at every step, and kinds of refused model",
        assumptions: &[
            "Means are compared with a tolerance of 1e-12, flows of nodes of 1e-6; all other values exactly.",
            "A model whose data do not cover it from its first time-step may be refused, but must not run with other values.",
        ],
        quick: 4000,
        thorough: 80000,
        random: c21,
        directed: &[],
        threads: 8,
    }]
}
