struct Series {
    name: String,
    /// seconds since 1970 of the rows, in the order of time
    at: Vec<i64>,
    cols: Vec<(String, Vec<f64>)>,
    time_col: String,
    /// spacing
    d: i64,
    whole: bool,
}

fn epoch(s: i64) -> DateTime {
    date(1970, 1, 1).at(0, 0, 0, 0).checked_add(s.seconds()).unwrap()
}

impl Series {
    /// value of a time-step, and whether the mean of several
    fn value(&self, col: usize, t0: i64, t1: i64) -> Option<f64> {
        let v = &self.cols[col].1;
        if self.d < t1 - t0 {
            let k: Vec<usize> = (0..self.at.len()).filter(|k| self.at[*k] >= t0 && self.at[*k] < t1).collect();
            if k.is_empty() {
                return None;
            }
            return Some(k.iter().map(|k| v[*k]).sum::<f64>() / k.len() as f64);
        }
        let k = (0..self.at.len()).rev().find(|k| self.at[*k] <= t0)?;
        // the value stands until the next would be given
        if t0 - self.at[k] >= self.d { None } else { Some(v[k]) }
    }
}

fn c21(c: &mut Case) -> Res {
    let dir = c.scratch.join("ts");
    std::fs::create_dir_all(&dir).unwrap();
    let r = &mut c.rng;
    // time domain
    let start = {
        let d = date(*r.pick(&[1960i16, 1999, 2000, 2019, 2020, 2021]), r.int(1, 12) as i8, r.int(1, 28) as i8);
        if r.chance(0.7) { d.at(0, 0, 0, 0) } else { d.at(r.int(0, 23) as i8, *r.pick(&[0, 0, 30]), 0, 0) }
    };
    let s0 = super::domain::secs(&start);
    let nt0 = if r.chance(0.1) { 1 } else { 2 };
    let nt = r.int(nt0, 20);
    let monthly = r.chance(0.08);
    let (step, len) = match r.us(0, 6) {
        _ if monthly => (json!({"type":"Frequency","freq":"1mo"}), 0),
        0..=2 => {
            let n = *r.pick(&[1i64, 1, 1, 2, 3, 5, 7, 10]);
            (json!({"type":"Days","days":n}), n * 86400)
        }
        3 | 4 => {
            let n = *r.pick(&[1i64, 3, 6, 12, 24, 36]);
            (json!({"type":"Hours","hours":n}), n * 3600)
        }
        5 => (json!({"type":"Frequency","freq":"30m"}), 1800),
        _ => (json!({"type":"Frequency","freq":"1d12h"}), 129600),
    };
    let date_of = |t: i64| if monthly { super::domain::plus(&start, 1, 0, t) } else { s0 + len * t };
    let last = date_of(nt - 1);
    let len0 = date_of(1) - s0;
    // scenarios
    let ng = r.us(0, 2);
    let sizes: Vec<usize> = (0..ng).map(|_| r.us(1, 4)).collect();
    let dom = Dom::generate(r, &sizes, 0.5);
    // data
    let mut series: Vec<Series> = vec![];
    let mut defs = vec![];
    let mut files = vec![];
    let mut sure = !monthly;
    let mut any_partial = false;
    for i in 0..r.us(1, 3) {
        let d = match r.us(0, 7) {
            0..=2 => len0,
            3 | 4 => len0 * *r.pick(&[2, 3, 4, 7]),
            5 => len0 * 3 / 2 * *r.pick(&[1, 1, 3, 5]),
            6 => {
                let k = *r.pick(&[2i64, 3, 4, 6, 12, 24]);
                if len0 % k == 0 { len0 / k } else { len0 }
            }
            _ => len0 * 2 / 3,
        };
        let mut before = r.int(0, 4);
        if r.chance(0.4) {
            before = 0;
        }
        let off = if r.chance(0.9) { 0 } else { *r.pick(&[d / 2, d / 4, 3600, 60, d - 1]) };
        let first = s0 - before * d + off * if r.chance(0.5) { -1 } else { 1 };
        // to the last time-step or beyond it
        let need = if d < len0 { last + len0 - d } else { last };
        let mut n = (need - first).div_euclid(d) + 1 + ((need - first).rem_euclid(d) != 0) as i64 + if r.chance(0.5) { 0 } else { r.int(0, 5) };
        if r.chance(0.06) {
            n -= r.int(1, 3);
        }
        let n = n.max(1);
        let at: Vec<i64> = (0..n).map(|k| first + k * d).collect();
        let after = at.iter().filter(|x| **x >= s0).count();
        let aligned = at.contains(&s0);
        let covers = *at.last().unwrap() >= need;
        sure &= aligned && covers && after >= 2;
        any_partial |= !(aligned && covers);
        let whole = r.chance(0.4) && d >= len0;
        let name = format!("ts{i}");
        // columns: either named ones, or one for each scenario of a group
        let mut cols: Vec<String> = vec![];
        let group = if ng > 0 && r.chance(0.5) { Some(r.us(0, ng - 1)) } else { None };
        match group {
            Some(g) => cols.extend((0..sizes[g]).map(|k| if k == 1 && r.chance(0.3) { format!("g{g}") } else { format!("x {}", (k * 7 + 3) % 10) })),
            None => cols.extend((0..r.us(1, 4)).map(|k| ["flow", "g0", "a b", "é", "x0"][(k + i) % 5].to_string())),
        }
        let cols: Vec<(String, Vec<f64>)> = cols
            .into_iter()
            .map(|n| {
                let neg = r.chance(0.3) && !whole;
                (n, at.iter().map(|_| if whole { r.int(0, 99) as f64 } else { r.f(if neg { -50.0 } else { 0.0 }, 50.0) }).collect())
            })
            .collect();
        let time_col = r.pick(&["date", "Time stamp", "index"]).to_string();
        let tpos = if r.chance(0.6) { 0 } else { r.us(0, cols.len()) };
        let fmt = if at.iter().all(|a| a.rem_euclid(86400) == 0) { r.us(0, 2) } else { r.us(1, 2) };
        let stamp = |a: i64| {
            let t = epoch(a);
            match fmt {
                0 => t.date().to_string(),
                1 => t.strftime("%Y-%m-%d %H:%M:%S").to_string(),
                _ => t.strftime("%Y-%m-%dT%H:%M:%S").to_string(),
            }
        };
        let mut order: Vec<usize> = (0..at.len()).collect();
        match r.us(0, 5) {
            0 => r.shuffle(&mut order),
            1 => order.reverse(),
            _ => (),
        }
        let mut rows: Vec<Vec<String>> = vec![];
        let mut head: Vec<String> = cols.iter().map(|x| x.0.clone()).collect();
        head.insert(tpos, time_col.clone());
        rows.push(head);
        for k in order {
            let mut row: Vec<String> = cols.iter().map(|x| if whole { format!("{}", x.1[k]) } else { format!("{:?}", x.1[k]) }).collect();
            row.insert(tpos, stamp(at[k]));
            rows.push(row);
        }
        let text = csv_text(r, &rows);
        let file = format!("{name}.{}", r.pick(&["csv", "csv", "CSV"]));
        std::fs::write(dir.join(&file), &text).unwrap();
        let mut def = json!({"meta":{"name":name},"type":"Polars","url":if r.chance(0.2) { json!(dir.join(&file).to_str().unwrap()) } else { json!(file) }});
        if tpos > 0 || r.chance(0.5) {
            def["time_col"] = json!(time_col);
        }
        if r.chance(0.2) {
            def["infer_schema_length"] = json!(1000);
        }
        if let Some(h) = checksum(r, text.as_bytes()) {
            def["checksum"] = h;
        }
        defs.push(def);
        files.push(text);
        series.push(Series { name, at, cols, time_col, d, whole });
    }
    // uses
    let mut params: Vec<Value> = vec![];
    let mut nodes: Vec<Value> = vec![];
    let mut edges: Vec<Value> = vec![];
    // name, metric, series, column or group
    let mut want: Vec<(String, UM, usize, Result<usize, usize>)> = vec![];
    for (i, s) in series.iter().enumerate() {
        for u in 0..r.us(1, 4) {
            let groups: Vec<usize> = (0..ng).filter(|g| sizes[*g] == s.cols.len()).collect();
            let (columns, w) = if !groups.is_empty() && r.chance(0.6) {
                let g = *r.pick(&groups);
                (json!({"type":"Scenario","name":format!("g{g}")}), Err(g))
            } else if s.cols.len() == 1 && r.chance(0.5) {
                (Value::Null, Ok(0))
            } else {
                let k = r.us(0, s.cols.len() - 1);
                (json!({"type":"Column","name":s.cols[k].0}), Ok(k))
            };
            let mut rf = json!({"type":"Timeseries","name":s.name});
            if !columns.is_null() {
                rf["columns"] = columns;
            }
            let name = format!("p{i}-{u}");
            let um = UM::new_parameter_before(name.as_str());
            let pos = match w {
                Ok(k) => s.cols[k].1.iter().all(|v| *v >= 0.0),
                Err(_) => s.cols.iter().all(|x| x.1.iter().all(|v| *v >= 0.0)),
            };
            match r.us(0, 3) {
                0 if s.whole => {
                    params.push(json!({"meta":{"name":name},"type":"AggregatedIndex","phase":"Before","agg_func":{"type":"Sum"},"metrics":[rf]}));
                    want.push((name, um, i, w));
                }
                1 if pos => {
                    let (a, b) = (format!("i{name}"), format!("o{name}"));
                    let mut a_node = json!({"meta":{"name":a},"type":"Catchment","flow":rf});
                    if r.chance(0.3) && series.iter().all(|s| nodes.iter().all(|n: &Value| n["meta"]["name"] != json!(s.name))) {
                        // a node which has the name of the timeseries, and its own parameter the name of a column
                        let tn = s.name.clone();
                        let lp = match w {
                            Ok(k) => s.cols[k].0.clone(),
                            Err(g) => format!("g{g}"),
                        };
                        a_node["meta"]["name"] = json!(tn);
                        a_node["parameters"] = json!([{"meta":{"name":lp},"type":"Constant","value":{"type":"Literal","value":77.5}}]);
                        edges.push(json!({"from_node":tn,"to_node":b}));
                        want.push((name, UM::EdgeFlow(pywr_core::network::UnresolvedEdge::new(tn.as_str().into(), b.as_str().into())), i, w));
                    } else {
                        edges.push(json!({"from_node":a,"to_node":b}));
                        want.push((name, UM::EdgeFlow(pywr_core::network::UnresolvedEdge::new(a.as_str().into(), b.as_str().into())), i, w));
                    }
                    nodes.push(a_node);
                    nodes.push(json!({"meta":{"name":b},"type":"Output"}));
                }
                _ => {
                    params.push(json!({"meta":{"name":name},"type":"Aggregated","phase":"Before","agg_func":{"type":"Sum"},"metrics":[rf]}));
                    want.push((name, um, i, w));
                }
            }
        }
    }
    if nodes.is_empty() {
        nodes.push(json!({"meta":{"name":"in"},"type":"Input","max_flow":{"type":"Literal","value":1.0}}));
        nodes.push(json!({"meta":{"name":"out"},"type":"Output"}));
        edges.push(json!({"from_node":"in","to_node":"out"}));
    }
    r.shuffle(&mut params);
    let mut j = json!({
        "metadata":{"title":"timeseries"},
        "time":{"start":start.to_string(),"end":epoch(last + if r.chance(0.5) { 0 } else { r.int(0, len0 / 2) }).to_string(),"timestep":step},
        "network":{"nodes":nodes,"edges":edges,"parameters":params,"timeseries":defs}
    });
    if ng > 0 {
        j["scenarios"] = dom.json();
    }
    c.desc = json!({"model":j,"files":files});
    let probes = want.iter().map(|w| (w.0.clone(), w.1.clone())).collect();
    let tr = match load_and_run(&j, &dir, probes) {
        Ok(t) => t,
        Err(RunErr::Build(e)) if !sure => {
            c.count("refused", 1);
            c.seen((98u8, monthly, any_partial, e.len() % 3));
            return Ok(());
        }
        Err(e) => return Err(viol(if e.is_panic() { "panic" } else { "rejected" }, e.text())),
    };
    c.count("runs", 1);
    ensure!(tr.steps.len() as i64 == nt, "steps", "{} time-steps, expected {nt}", tr.steps.len());
    for (k, (name, um, i, w)) in want.iter().enumerate() {
        let s = &series[*i];
        let tol = if matches!(um, UM::EdgeFlow(_)) { 1e-6 } else if s.d < len0 { 1e-12 } else { 0.0 };
        for (t, st) in tr.steps.iter().enumerate() {
            for (x, sc) in st.scen.iter().enumerate() {
                let col = match w {
                    Ok(k) => *k,
                    Err(g) => tr.scenarios[x].2[*g],
                };
                let v = s.value(col, date_of(t as i64), date_of(t as i64 + 1));
                match v {
                    None => return Err(viol("no-data", format!("{name}: step {t} ({}) got {} although the data have no value for it", st.date, sc.m[k]))),
                    Some(v) => {
                        ensure!((sc.m[k] - v).abs() <= tol * (1.0 + v.abs()), "value", "{name} is {} at step {t} ({}), scenario {x}; the value of the data is {v}", sc.m[k], st.date);
                    }
                }
                c.count("values_compared", 1);
            }
        }
        let ratio = (s.d as f64 / len0 as f64 * 1000.0) as i64;
        c.seen((ratio, w.is_ok(), s.whole, matches!(um, UM::EdgeFlow(_)), s.at[0] < s0, dom.groups.iter().any(|g| matches!(g.subset, Some(Sub::Idx(_)))), dom.combos.is_some()));
    }
    if sure && c.rng.chance(0.5) {
        return c21_refused(c, j, &series, &files, &dir, &sizes, s0, last, len0);
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn c21_refused(c: &mut Case, mut j: Value, series: &[Series], files: &[String], dir: &Path, sizes: &[usize], s0: i64, last: i64, len0: i64) -> Res {
    let r = &mut c.rng;
    let i = r.us(0, series.len() - 1);
    let s = &series[i];
    let use_ = |rf: Value| json!({"meta":{"name":"bad"},"type":"Aggregated","phase":"Before","agg_func":{"type":"Sum"},"metrics":[rf]});
    let mut bad = None;
    let kind = r.us(0, 13);
    let rewrite = |j: &mut Value, rows: Vec<Vec<String>>| {
        let text = rows.iter().map(|x| x.iter().map(|f| csv_field(f, false)).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join("\n") + "\n";
        std::fs::write(dir.join("bad.csv"), text).unwrap();
        let d = &mut j["network"]["timeseries"][i];
        d["url"] = json!("bad.csv");
        d["time_col"] = json!("t");
        d.as_object_mut().unwrap().remove("checksum");
    };
    let table = |f: &dyn Fn(usize, usize) -> String| -> Vec<Vec<String>> {
        let mut rows = vec![std::iter::once("t".to_string()).chain(s.cols.iter().map(|x| x.0.clone())).collect::<Vec<_>>()];
        for k in 0..s.at.len() {
            rows.push(std::iter::once(epoch(s.at[k]).to_string()).chain((0..s.cols.len()).map(|x| f(k, x))).collect());
        }
        rows
    };
    let plain = |k: usize, x: usize| format!("{:?}", s.cols[x].1[k]);
    // rows which are within the time-steps of the model, without the first and the last
    let inner: Vec<usize> = (0..s.at.len()).filter(|k| s.at[*k] > s0 && s.at[*k] < last).collect();
    let label = match kind {
        0 => {
            bad = Some(use_(json!({"type":"Timeseries","name":"no-such","columns":{"type":"Column","name":"flow"}})));
            "unknown timeseries"
        }
        1 => {
            let n = *r.pick(&["no-such", s.time_col.as_str(), "", "flow "]);
            bad = Some(use_(json!({"type":"Timeseries","name":s.name,"columns":{"type":"Column","name":n}})));
            "unknown column"
        }
        2 => {
            if s.cols.len() == 1 {
                return Ok(());
            }
            bad = Some(use_(json!({"type":"Timeseries","name":s.name})));
            "no column given for a timeseries of several columns"
        }
        3 => {
            bad = Some(use_(json!({"type":"Timeseries","name":s.name,"columns":{"type":"Scenario","name":"no-such"}})));
            "unknown scenario group"
        }
        4 => {
            let Some(g) = (0..sizes.len()).find(|g| sizes[*g] != s.cols.len()) else { return Ok(()) };
            bad = Some(use_(json!({"type":"Timeseries","name":s.name,"columns":{"type":"Scenario","name":format!("g{g}")}})));
            "number of columns differs from the size of the scenario group"
        }
        5 => {
            let d = j["network"]["timeseries"][i].clone();
            j["network"]["timeseries"].as_array_mut().unwrap().push(d);
            "two timeseries of the same name"
        }
        6 => {
            let u = match r.us(0, 3) {
                0 => "no-such.csv",
                1 => "bad.xyz",
                2 => "bad",
                _ => "bad.parquet",
            };
            std::fs::write(dir.join("bad.xyz"), &files[i]).unwrap();
            std::fs::write(dir.join("bad"), &files[i]).unwrap();
            std::fs::write(dir.join("bad.parquet"), &files[i]).unwrap();
            let d = &mut j["network"]["timeseries"][i];
            d["url"] = json!(u);
            d.as_object_mut().unwrap().remove("checksum");
            "file which is missing or of an unsupported format"
        }
        7 => {
            let k = if r.chance(0.5) { "MD5" } else { "SHA256" };
            let mut h = hash(k, files[i].as_bytes());
            let p = r.us(0, h.len() - 1);
            let x = u8::from_str_radix(&h[p..=p], 16).unwrap();
            h.replace_range(p..=p, &format!("{:x}", (x + 1) % 16));
            j["network"]["timeseries"][i]["checksum"] = json!({"type":k,"hash":h});
            "checksum does not match"
        }
        8 => {
            j["network"]["timeseries"][i]["time_col"] = json!("no-such");
            "unknown column of times"
        }
        9 => {
            if inner.is_empty() || s.at.iter().filter(|x| **x >= s0).count() < 4 {
                return Ok(());
            }
            let k = *r.pick(&inner);
            let mut rows = table(&plain);
            rows.remove(k + 1);
            rewrite(&mut j, rows);
            "row missing between others"
        }
        10 => {
            let Some(k) = inner.first() else { return Ok(()) };
            let mut rows = table(&plain);
            let d = rows[k + 1].clone();
            rows.push(d);
            rewrite(&mut j, rows);
            "two rows for the same time"
        }
        11 => {
            // a number missing for one of the time-steps, in each column
            if s.d != len0 || inner.is_empty() {
                return Ok(());
            }
            let k0 = *r.pick(&inner);
            let rows = table(&|k, x| if k == k0 { String::new() } else { plain(k, x) });
            rewrite(&mut j, rows);
            if !j.to_string().contains(&format!("\"name\":\"{}\"", s.name)) {
                return Ok(());
            }
            "number missing"
        }
        12 => {
            // the data start later than the model
            let Some(k) = s.at.iter().position(|x| *x > s0) else { return Ok(()) };
            let mut rows = table(&plain);
            rows.drain(1..=k);
            rewrite(&mut j, rows);
            "data which start after the model"
        }
        _ => {
            // the data end before the last time-step
            let k = s.at.iter().filter(|x| **x < if s.d < len0 { last } else { last - s.d + 1 }).count();
            if k < 2 {
                return Ok(());
            }
            let mut rows = table(&plain);
            rows.truncate(k + 1);
            rewrite(&mut j, rows);
            "data which end before the last time-step"
        }
    };
    if let Some(b) = bad {
        j["network"]["parameters"].as_array_mut().unwrap().push(b);
    }
    c.desc["refused"] = json!({"what": label, "model": j});
    match load_and_run(&j, dir, vec![]) {
        Err(RunErr::Build(_)) => {
            c.count("refused_invalid", 1);
            c.seen((99u8, kind));
            Ok(())
        }
        // the code reports it when the value is used
        Err(RunErr::Run(_)) if kind == 11 => {
            c.count("stopped_by_error", 1);
            Ok(())
        }
        Ok(_) => Err(viol(format!("accepted:{label}"), format!("model accepted although: {label}"))),
        Err(e) => Err(viol(format!("panic:{label}"), format!("{label}: {}", e.text()))),
    }
}
