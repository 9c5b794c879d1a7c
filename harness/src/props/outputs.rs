//! C15 outputs hold what the model computed; C16 aggregation of metric sets and memory outputs.
//!
//! The values of every metric are recorded by the probe (or derived from the node state it records) at the end of every
//! step; the monitor compares the files and results which the run leaves behind with them.
use super::domain::Dom;
use crate::ensure;
use crate::fw::{Case, Prop, Res, Rng, Violation, viol};
use crate::run::{self, SolverSel, Trace};
use jiff::civil::{DateTime, date};
use jiff::{SignedDuration, ToSpan};
use ndarray::Array2;
use pywr_core::metric::UnresolvedMetricF64 as UM;
use pywr_core::models::{ModelBuilder, ModelResult};
use pywr_core::parameters::Array2ParameterBuilder;
use pywr_core::recorders::RecorderFinalResult;
use pywr_schema::ModelSchema;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::str::FromStr;

// ------------------------------------------------------------------------------------------------ aggregation oracle

#[derive(Clone, Debug)]
enum F {
    Sum,
    Mean,
    Product,
    Min,
    Max,
    Count,
    Any(f64),
    /// a Python function with a constant
    Py(f64),
}
thread_local! {
    /// How often the functions generated are in Python.
    pub static PYTHON: std::cell::Cell<f64> = const { std::cell::Cell::new(0.04) };
}
impl F {
    fn gen_(r: &mut Rng) -> F {
        if r.chance(PYTHON.get()) {
            return F::Py(r.q(-9.0, 9.0));
        }
        match r.us(0, 7) {
            0 | 1 => F::Mean,
            2 => F::Sum,
            3 => F::Product,
            4 => F::Min,
            5 => F::Max,
            6 => F::Count,
            _ => F::Any(*r.pick(&[0.0, 0.5, 2.0])),
        }
    }
    fn json(&self) -> Value {
        match self {
            F::Sum => json!({"type":"Sum"}),
            F::Mean => json!({"type":"Mean"}),
            F::Product => json!({"type":"Product"}),
            F::Min => json!({"type":"Min"}),
            F::Max => json!({"type":"Max"}),
            F::Count => json!({"type":"CountNonZero"}),
            F::Any(t) => json!({"type":"AnyNonZero","tolerance":t}),
            F::Py(c) => json!({"type":"Python","source":{"type":"Module","module":"pvmod"},"object":"wsum","args":[c],"kwargs":{"weights":true}}),
        }
    }
    /// None: the mean of values which last no time
    fn of(&self, v: &[(f64, f64)]) -> Option<f64> {
        let x = v.iter().map(|p| p.1);
        if matches!(self, F::Mean) && v.iter().all(|p| p.0 == 0.0) {
            return None;
        }
        Some(match self {
            F::Sum => x.sum(),
            F::Mean => v.iter().map(|p| p.0 * p.1).sum::<f64>() / v.iter().map(|p| p.0).sum::<f64>(),
            F::Product => x.product(),
            F::Min => x.fold(f64::INFINITY, f64::min),
            F::Max => x.fold(f64::NEG_INFINITY, f64::max),
            F::Count => x.filter(|p| *p != 0.0).count() as f64,
            F::Py(c) => c + x.enumerate().map(|(j, x)| (j + 1) as f64 * 0.5 * x).sum::<f64>(),
            F::Any(t) => v.iter().any(|p| p.1.abs() > *t) as u8 as f64,
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Freq {
    Monthly,
    Annual,
    Days(i64),
}
impl Freq {
    fn min_len(&self) -> i64 {
        match self {
            Freq::Monthly => 28,
            Freq::Annual => 365,
            Freq::Days(n) => *n,
        }
    }
    fn max_len(&self) -> i64 {
        match self {
            Freq::Monthly => 31,
            Freq::Annual => 366,
            Freq::Days(n) => *n,
        }
    }
    fn json(&self) -> Value {
        match self {
            Freq::Monthly => json!({"type":"Monthly"}),
            Freq::Annual => json!({"type":"Annual"}),
            Freq::Days(n) => json!({"type":"Days","days":n}),
        }
    }
    /// end of the period which contains `d`; periods of fixed length are counted from `origin`
    fn end(&self, origin: DateTime, d: DateTime) -> DateTime {
        match self {
            Freq::Monthly => date(d.year(), d.month(), 1).at(0, 0, 0, 0) + 1.month(),
            Freq::Annual => date(d.year() + 1, 1, 1).at(0, 0, 0, 0),
            Freq::Days(n) => {
                let h = d.duration_since(origin).as_secs().div_euclid(n * 86400);
                origin.saturating_add(jiff::SignedDuration::from_hours((h + 1) * n * 24))
            }
        }
    }
}

#[derive(Clone, Debug)]
struct Level {
    freq: Option<Freq>,
    f: F,
}

type Pv = (DateTime, DateTime, f64);

fn days(a: DateTime, b: DateTime) -> f64 {
    b.duration_since(a).as_secs_f64() / 86400.0
}

/// Levels from the innermost (applied to the values of the steps) outwards. With `early` the last period of each level
/// ends at the start of its last value instead of its end (the recorded finding); a value that lasts no time then
/// falls in no period and has no weight.
fn aggregate(levels: &[Level], steps: &[Pv], early: bool) -> Vec<Pv> {
    let mut v = steps.to_vec();
    for l in levels {
        if v.is_empty() {
            break;
        }
        let origin = v[0].0;
        let mut groups: Vec<Vec<Pv>> = vec![];
        let mut cur_end: Option<DateTime> = None;
        for &(a, b, x) in &v {
            match &l.freq {
                None => {
                    if groups.is_empty() {
                        groups.push(vec![]);
                    }
                    groups[0].push((a, b, x));
                }
                Some(f) => {
                    let mut s = a;
                    while s < b {
                        let e = f.end(origin, s);
                        if cur_end != Some(e) {
                            groups.push(vec![]);
                            cur_end = Some(e);
                        }
                        groups.last_mut().unwrap().push((s, e.min(b), x));
                        s = e;
                    }
                }
            }
        }
        let n = groups.len();
        v = groups
            .iter()
            .enumerate()
            .filter_map(|(i, g)| {
                let w: Vec<(f64, f64)> = g.iter().map(|p| (days(p.0, p.1), p.2)).collect();
                let last = g.last().unwrap();
                Some((g[0].0, if early && i + 1 == n { last.0 } else { last.1 }, l.f.of(&w)?))
            })
            .collect();
    }
    v
}

// ------------------------------------------------------------------------------------------------------- generation

#[derive(Clone, Debug)]
enum Src {
    Node(String, &'static str),
    Edge(String, String),
    Vs(String, &'static str),
    Param(String, bool),
}

#[derive(Clone, Debug)]
struct M {
    src: Src,
    /// the attribute is not given, so that the default of the node is used
    default: bool,
}
impl M {
    fn json(&self) -> Value {
        match &self.src {
            Src::Node(n, _) if self.default => json!({"type":"Node","name":n}),
            Src::Node(n, a) => json!({"type":"Node","name":n,"attribute":a}),
            Src::Edge(a, b) => json!({"type":"Edge","edge":{"from_node":a,"to_node":b}}),
            Src::Vs(n, _) if self.default => json!({"type":"VirtualNode","name":n}),
            Src::Vs(n, a) => json!({"type":"VirtualNode","name":n,"attribute":a}),
            Src::Param(n, true) => json!({"type":"Parameter","name":n,"return_value":"After"}),
            Src::Param(n, false) if self.default => json!({"type":"Parameter","name":n}),
            Src::Param(n, false) => json!({"type":"Parameter","name":n,"return_value":"Before"}),
        }
    }
    fn name(&self) -> String {
        match &self.src {
            Src::Node(n, _) | Src::Vs(n, _) | Src::Param(n, _) => n.clone(),
            Src::Edge(a, b) => format!("{a}->{b}"),
        }
    }
    fn attribute(&self) -> String {
        match &self.src {
            Src::Node(_, a) | Src::Vs(_, a) => a.to_string(),
            Src::Edge(..) => "Flow".into(),
            Src::Param(_, after) => if *after { "after" } else { "before" }.into(),
        }
    }
    fn key(&self) -> (String, String) {
        (self.name(), self.attribute())
    }
    fn value(&self, tr: &Trace, t: usize, s: usize) -> f64 {
        let x = &tr.steps[t].scen[s];
        match &self.src {
            Src::Node(n, a) => {
                let i = tr.node(n, None);
                match *a {
                    "Inflow" => x.inflow[i],
                    "Outflow" => x.outflow[i],
                    "Volume" => x.vol[i],
                    "ProportionalVolume" => x.prop[i],
                    "MaxVolume" => x.maxvol[i],
                    _ => panic!("harness: attribute {a}"),
                }
            }
            Src::Edge(a, b) => {
                let (i, j) = (tr.node(a, None), tr.node(b, None));
                x.edge[tr.edges.iter().position(|e| *e == (i, j)).unwrap()]
            }
            Src::Vs(n, a) => {
                let i = tr.vs.iter().position(|v| v == n).unwrap();
                if *a == "Volume" { x.vs[i] } else { x.vs_prop[i] }
            }
            Src::Param(n, after) => x.m[tr.metric(&format!("{n}|{after}"))],
        }
    }
}

#[derive(Clone, Debug)]
struct Set {
    name: String,
    listed: Option<Vec<M>>,
    filters: [bool; 4],
    /// innermost first
    agg: Vec<Level>,
}

#[derive(Clone, Debug)]
enum Out {
    Long { file: String, sets: Vec<usize>, single: bool, places: Option<u32> },
    Wide { file: String, set: usize },
    Hdf { file: String, set: usize },
    Memory { set: usize, f: [Option<F>; 3], time_first: Option<bool> },
}

#[derive(Clone, Debug)]
struct Spec {
    start: DateTime,
    nsteps: usize,
    step: Value,
    max_step_days: i64,
    end: DateTime,
    dom: Dom,
    nodes: Vec<Value>,
    node_names: Vec<(String, &'static str)>,
    edges: Vec<(String, String)>,
    vss: Vec<(String, Vec<String>)>,
    params: Vec<(String, Value, bool, bool)>,
    arrays: Vec<(String, Option<usize>, Vec<Vec<f64>>)>,
    sets: Vec<Set>,
    outs: Vec<Out>,
}

const ODD: &[&str] = &["", " ", ",", "\"", "é", ";", "#", "\n", "'", "->", "."];

impl Spec {
    fn generate(r: &mut Rng, aggregate: bool, thorough: bool) -> Spec {
        // time
        let start_date = date(r.int(1999, 2024) as i16, r.int(1, 12) as i8, r.int(1, 28) as i8);
        let max_n = if thorough { 400 } else { 90 };
        let (step, max_step_days, hours, mut nsteps): (Value, i64, Option<i64>, usize) = match r.us(0, 9) {
            0 => (json!({"type":"Frequency","freq":"1mo"}), 31, None, r.us(2, 40)),
            1..=3 => {
                let h = *r.pick(&[1, 3, 6, 12, 18, 24, 36, 60]);
                (json!({"type":"Hours","hours":h}), (h + 23) / 24, Some(h), r.us(2, max_n))
            }
            4..=6 => {
                let d = *r.pick(&[1, 2, 3, 5, 7, 10, 13, 28]);
                (json!({"type":"Days","days":d}), d, Some(24 * d), r.us(2, max_n))
            }
            _ => (json!({"type":"Days","days":1}), 1, Some(24), r.us(2, max_n)),
        };
        if r.chance(0.05) {
            nsteps = 1;
        }
        let start = if hours.is_some() && r.chance(0.15) { start_date.at(r.int(1, 23) as i8, 0, 0, 0) } else { start_date.at(0, 0, 0, 0) };
        let end = match hours {
            Some(h) => start + SignedDuration::from_hours(h * (nsteps as i64 - 1)),
            None => start + (nsteps as i64 - 1).months(),
        };
        let ng = r.us(0, 2);
        let sizes: Vec<usize> = (0..ng).map(|_| r.us(1, 3)).collect();
        let dom = Dom::generate(r, &sizes, 0.4);
        let mut s = Spec {
            start,
            nsteps,
            step,
            max_step_days,
            end,
            dom,
            nodes: vec![],
            node_names: vec![],
            edges: vec![],
            vss: vec![],
            params: vec![],
            arrays: vec![],
            sets: vec![],
            outs: vec![],
        };
        // one or two rivers: catchment -> link -> (storage ->) output
        let mut k = 0;
        let mut nm = |r: &mut Rng, base: &str| {
            k += 1;
            format!("{base}{}{k}", if r.chance(0.3) { *r.pick(ODD) } else { "" })
        };
        for _ in 0..r.us(1, 2) {
            let p = s.array(r, 0.0, true);
            let (c, l, o) = (nm(r, "catchment"), nm(r, "link"), nm(r, "out"));
            s.nodes.push(json!({"meta":{"name":c},"type":"Catchment","flow":{"type":"Parameter","name":p}}));
            s.node_names.push((c.clone(), "Catchment"));
            s.nodes.push(json!({"meta":{"name":l},"type":"Link"}));
            s.node_names.push((l.clone(), "Link"));
            s.edges.push((c, l.clone()));
            let last = if r.chance(0.5) {
                let st = nm(r, "store");
                let spill = nm(r, "spill");
                s.nodes.push(json!({"meta":{"name":st},"type":"Storage","max_volume":{"type":"Literal","value":r.q(5.0, 60.0)},
                    "initial_volume":{"type":"Proportional","proportion":r.q(0.0,1.0)},"cost":{"type":"Literal","value":-5.0}}));
                s.node_names.push((st.clone(), "Storage"));
                s.nodes.push(json!({"meta":{"name":spill},"type":"Output"}));
                s.node_names.push((spill.clone(), "Output"));
                s.edges.push((l.clone(), st.clone()));
                s.edges.push((l.clone(), spill));
                st
            } else {
                l.clone()
            };
            let d = s.array(r, 0.0, true);
            let mut on = json!({"meta":{"name":o},"type":"Output","cost":{"type":"Literal","value":-10.0}});
            if last != l {
                on["max_flow"] = json!({"type":"Parameter","name":d});
            }
            s.nodes.push(on);
            s.node_names.push((o.clone(), "Output"));
            s.edges.push((last, o));
            if r.chance(0.5) {
                s.vss.push((nm(r, "licence"), vec![l]));
            }
        }
        for _ in 0..r.us(0, 3) {
            s.array(r, 0.3, false);
        }
        if r.chance(0.5) {
            // a parameter whose value at the end of a step differs from the one at its start
            let n = nm(r, "both");
            let (node, _) = s.node_names.iter().find(|n| n.1 == "Link").unwrap().clone();
            let phase = *r.pick(&["Both", "Both", "After"]);
            let v = json!({"meta":{"name":n},"type":"Aggregated","agg_func":{"type":"Sum"},"phase":phase,
                "metrics":[{"type":"Node","name":node,"attribute":"Outflow"},{"type":"Literal","value":0.5}]});
            s.params.push((n, v, phase == "Both", true));
        }
        r.shuffle(&mut s.nodes);
        // metric sets
        let all = s.all_metrics();
        for i in 0..r.us(1, 3) {
            let mut listed: Vec<M> = all.clone();
            r.shuffle(&mut listed);
            listed.truncate(r.us(1, 6.min(all.len())));
            for m in &mut listed {
                m.default = m.default && r.chance(0.5);
            }
            let mut filters = [false; 4];
            if r.chance(0.25) {
                for f in &mut filters {
                    *f = r.chance(0.5);
                }
            }
            let some = !s.filtered(&filters).is_empty();
            let listed = if some && r.chance(0.3) { None } else { Some(listed) };
            let mut agg = vec![];
            if if aggregate { i == 0 || r.chance(0.7) } else { r.chance(0.2) } {
                let mut len = s.max_step_days;
                for _ in 0..r.us(1, 3) {
                    let f = match r.us(0, 9) {
                        0..=2 if len <= 28 => Some(Freq::Monthly),
                        3 | 4 if len <= 365 => Some(Freq::Annual),
                        8 if len < 1_000_000 && r.chance(0.3) => Some(Freq::Days(*r.pick(&[1_000_000, 3_000_000, 7_304_484, 7_304_485, 4_000_000_000]))),
                        5..=8 if len < 1_000_000 => Some(Freq::Days(len + r.int(0, 10))),
                        _ => None,
                    };
                    let stop = f.is_none();
                    if let Some(f) = &f {
                        assert!(f.min_len() >= len);
                        len = f.max_len();
                    }
                    agg.push(Level { freq: f, f: F::gen_(r) });
                    if stop {
                        break;
                    }
                }
            }
            s.sets.push(Set { name: format!("set{}{i}", r.pick(ODD)), listed, filters, agg });
        }
        // outputs
        for i in 0..r.us(1, 4) {
            let set = r.us(0, s.sets.len() - 1);
            let o = match r.us(0, 9) {
                0..=2 => {
                    let single = r.chance(0.4);
                    let mut sets: Vec<usize> = (0..s.sets.len()).collect();
                    r.shuffle(&mut sets);
                    sets.truncate(if single { 1 } else { r.us(1, s.sets.len()) });
                    Out::Long { file: format!("long {i}.csv"), sets, single, places: if r.chance(0.5) { None } else { Some(r.us(0, 8) as u32) } }
                }
                3..=5 => Out::Wide { file: format!("wide{i}.csv"), set },
                6 if s.sets[set].agg.is_empty() => Out::Hdf { file: format!("{i}.h5"), set },
                _ => {
                    let mut f = [None, None, None];
                    for x in &mut f {
                        if r.chance(0.85) {
                            *x = Some(F::gen_(r));
                        }
                    }
                    Out::Memory { set, f, time_first: *r.pick(&[None, Some(true), Some(false)]) }
                }
            };
            s.outs.push(o);
        }
        s
    }

    /// A parameter of the schema with a value for every step and scenario
    fn array(&mut self, r: &mut Rng, neg: f64, flow: bool) -> String {
        let k = self.arrays.len();
        let group = if self.dom.groups.is_empty() || r.chance(0.2) { None } else { Some(r.us(0, self.dom.groups.len() - 1)) };
        let w = group.map(|g| self.dom.groups[g].size).unwrap_or(1);
        let style = if flow { r.us(0, 1) } else { r.us(0, 3) };
        let data: Vec<Vec<f64>> = (0..self.nsteps)
            .map(|_| {
                (0..w)
                    .map(|_| {
                        let x = match style {
                            0 => r.q(0.0, 10.0),
                            1 => r.f(0.0, 10.0),
                            2 => r.f(0.0, 1.0) * 10f64.powi(r.int(-9, 6) as i32),
                            _ => r.int(-3, 3) as f64 + *r.pick(&[0.0, 0.005, 0.015, 0.125]),
                        };
                        if r.chance(0.15) {
                            0.0
                        } else if r.chance(neg) {
                            -x
                        } else {
                            x
                        }
                    })
                    .collect()
            })
            .collect();
        let inner = format!("values{k}");
        self.arrays.push((inner.clone(), group, data));
        let name = format!("p{}{k}", r.pick(ODD));
        let v = json!({"meta":{"name":name},"type":"Aggregated","agg_func":{"type":"Sum"},"phase":"Before","metrics":[{"type":"Parameter","name":inner}]});
        self.params.push((name.clone(), v, true, false));
        name
    }

    fn filtered(&self, f: &[bool; 4]) -> Vec<M> {
        let mut v = vec![];
        if f[0] {
            for n in &self.nodes {
                let name = n["meta"]["name"].as_str().unwrap();
                let a = match n["type"].as_str().unwrap() {
                    "Output" => "Inflow",
                    "Storage" => "Volume",
                    _ => "Outflow",
                };
                v.push(M { src: Src::Node(name.into(), a), default: true });
            }
        }
        if f[1] {
            v.extend(self.vss.iter().map(|x| M { src: Src::Vs(x.0.clone(), "Volume"), default: true }));
        }
        if f[2] {
            for (n, _, before, after) in &self.params {
                if *before {
                    v.push(M { src: Src::Param(n.clone(), false), default: false });
                }
                if *after {
                    v.push(M { src: Src::Param(n.clone(), true), default: false });
                }
            }
        }
        if f[3] {
            v.extend(self.edges.iter().map(|e| M { src: Src::Edge(e.0.clone(), e.1.clone()), default: false }));
        }
        v
    }

    fn all_metrics(&self) -> Vec<M> {
        let mut v = vec![];
        for (n, k) in &self.node_names {
            let (d, o): (&'static str, &[&'static str]) = match *k {
                "Output" => ("Inflow", &[]),
                "Link" => ("Outflow", &["Inflow"]),
                "Storage" => ("Volume", &["ProportionalVolume", "MaxVolume"]),
                _ => ("Outflow", &[]),
            };
            v.push(M { src: Src::Node(n.clone(), d), default: true });
            v.extend(o.iter().map(|a| M { src: Src::Node(n.clone(), a), default: false }));
        }
        for e in &self.edges {
            v.push(M { src: Src::Edge(e.0.clone(), e.1.clone()), default: false });
        }
        for x in &self.vss {
            v.push(M { src: Src::Vs(x.0.clone(), "Volume"), default: true });
            v.push(M { src: Src::Vs(x.0.clone(), "ProportionalVolume"), default: false });
        }
        for (n, _, before, after) in &self.params {
            if *before {
                v.push(M { src: Src::Param(n.clone(), false), default: true });
            }
            if *after {
                v.push(M { src: Src::Param(n.clone(), true), default: false });
            }
        }
        v
    }

    /// the metrics of a set, in order
    fn metrics(&self, set: usize) -> Vec<M> {
        let s = &self.sets[set];
        let mut v = s.listed.clone().unwrap_or_default();
        for m in self.filtered(&s.filters) {
            if !v.iter().any(|x| x.key() == m.key()) {
                v.push(m);
            }
        }
        v
    }

    fn json(&self) -> Value {
        let sets: Vec<Value> = self
            .sets
            .iter()
            .map(|s| {
                let mut j = json!({"name":s.name});
                if let Some(l) = &s.listed {
                    j["metrics"] = json!(l.iter().map(|m| m.json()).collect::<Vec<_>>());
                }
                if s.filters.iter().any(|f| *f) {
                    j["filters"] = json!({"all_nodes":s.filters[0],"all_virtual_nodes":s.filters[1],"all_parameters":s.filters[2],"all_edges":s.filters[3]});
                }
                let mut a: Option<Value> = None;
                for l in &s.agg {
                    let mut x = json!({"func":l.f.json()});
                    if let Some(f) = &l.freq {
                        x["freq"] = f.json();
                    }
                    if let Some(c) = a {
                        x["child"] = c;
                    }
                    a = Some(x);
                }
                if let Some(a) = a {
                    j["aggregator"] = a;
                }
                j
            })
            .collect();
        let outs: Vec<Value> = self
            .outs
            .iter()
            .enumerate()
            .map(|(i, o)| match o {
                Out::Long { file, sets, single, places } => {
                    let ms = if *single { json!(self.sets[sets[0]].name) } else { json!(sets.iter().map(|s| &self.sets[*s].name).collect::<Vec<_>>()) };
                    let mut j = json!({"name":format!("o{i}"),"type":"CSV","format":"Long","filename":file,"metric_set":ms});
                    if let Some(p) = places {
                        j["decimal_places"] = json!(p);
                    }
                    j
                }
                Out::Wide { file, set } => json!({"name":format!("o{i}"),"type":"CSV","format":"Wide","filename":file,"metric_set":self.sets[*set].name}),
                Out::Hdf { file, set } => json!({"name":format!("o{i}"),"type":"HDF5","filename":file,"metric_set":self.sets[*set].name}),
                Out::Memory { set, f, time_first } => {
                    let mut j = json!({"name":format!("o{i}"),"type":"Memory","metric_set":self.sets[*set].name});
                    let mut a = json!({});
                    for (n, f) in ["scenario", "time", "metric"].iter().zip(f) {
                        if let Some(f) = f {
                            a[*n] = f.json();
                        }
                    }
                    if f.iter().any(|f| f.is_some()) {
                        j["aggregation"] = a;
                    }
                    if let Some(t) = time_first {
                        j["order"] = json!(if *t { "TimeMetricScenario" } else { "MetricTimeScenario" });
                    }
                    j
                }
            })
            .collect();
        let mut j = json!({
            "metadata":{"title":"outputs"},
            "time":{"start":self.start.to_string(),"end":self.end.to_string(),"timestep":self.step},
            "network":{
                "nodes":self.nodes,
                "edges":self.edges.iter().map(|(a,b)| json!({"from_node":a,"to_node":b})).collect::<Vec<_>>(),
                "virtual_nodes":self.vss.iter().map(|(n,nodes)| json!({"meta":{"name":n},"type":"VirtualStorage",
                    "nodes":nodes.iter().map(|n| json!({"name":n})).collect::<Vec<_>>(),
                    "max_volume":{"type":"Literal","value":1.0e7},"initial_volume":{"type":"Proportional","proportion":1.0},"reset":{"type":"Never"}})).collect::<Vec<_>>(),
                "parameters":self.params.iter().map(|p| p.1.clone()).collect::<Vec<_>>(),
                "metric_sets":sets,"outputs":outs}
        });
        if !self.dom.groups.is_empty() {
            j["scenarios"] = self.dom.json();
        }
        j
    }

    fn build(&self, dir: &Path) -> Result<ModelBuilder, String> {
        let schema = ModelSchema::from_str(&self.json().to_string()).map_err(|e| format!("schema: {e}"))?;
        let mut mb = schema.create_model_builder(None, Some(dir)).map_err(|e| format!("load: {e:?}"))?;
        for (n, g, d) in &self.arrays {
            let nb = mb.network_builder();
            match g {
                Some(g) => {
                    let a = Array2::from_shape_fn((d.len(), d[0].len()), |(i, j)| d[i][j]);
                    nb.parameters().f64(Box::new(Array2ParameterBuilder::new(n.as_str().into(), a, &self.dom.groups[*g].name)));
                }
                None => {
                    let a = ndarray::Array1::from(d.iter().map(|r| r[0]).collect::<Vec<_>>());
                    nb.parameters().f64(Box::new(pywr_core::parameters::Array1ParameterBuilder::new(n.as_str().into(), a)));
                }
            }
        }
        Ok(mb)
    }

    fn probes(&self) -> Vec<(String, UM)> {
        let mut v = vec![];
        for (n, _, before, after) in &self.params {
            if *before {
                v.push((format!("{n}|false"), UM::new_parameter_before(n.as_str())));
            }
            if *after {
                v.push((format!("{n}|true"), UM::new_parameter_after(n.as_str())));
            }
        }
        v
    }

    /// [scenario][metric] -> values
    fn expected(&self, tr: &Trace, set: usize, early: bool) -> Vec<Vec<Vec<Pv>>> {
        let ms = self.metrics(set);
        (0..tr.scenarios.len())
            .map(|s| {
                ms.iter()
                    .map(|m| {
                        let v: Vec<Pv> = (0..tr.steps.len())
                            .map(|t| {
                                let st = &tr.steps[t];
                                let e = st.date + SignedDuration::from_secs((st.days * 86400.0).round() as i64);
                                (st.date, e, m.value(tr, t, s))
                            })
                            .collect();
                        aggregate(&self.sets[set].agg, &v, early)
                    })
                    .collect()
            })
            .collect()
    }
}

fn eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

// ---------------------------------------------------------------------------------------------------------- checking

type Row = (String, usize, String, String, String, String, String);

/// Every (set, scenario, metric, period) once; `round` gives the tolerance of a value.
fn compare(c: &mut Case, what: &str, exp: Vec<(Row, f64)>, got: Vec<(Row, f64)>, tol: &dyn Fn(f64) -> f64) -> Res {
    let n = exp.len();
    ensure!(got.len() == n, "rows", "{what}: {} values, expected {n}", got.len());
    let mut g: BTreeMap<Row, Vec<f64>> = BTreeMap::new();
    for (k, v) in got {
        g.entry(k).or_default().push(v);
    }
    let mut e: BTreeMap<Row, Vec<f64>> = BTreeMap::new();
    for (k, v) in exp {
        e.entry(k).or_default().push(v);
    }
    for (k, v) in &e {
        let Some(x) = g.get(k) else {
            return Err(viol("missing", format!("{what}: no value for {k:?} (expected {v:?})")));
        };
        ensure!(x.len() == v.len(), "duplicate", "{what}: {} values for {k:?}, expected {}", x.len(), v.len());
        for (x, v) in x.iter().zip(v) {
            ensure!(eq(*x, *v) || (x - v).abs() <= tol(*v), "value", "{what}: {k:?} is {x:?}, expected {v:?}");
        }
    }
    c.count("values_compared", n as u64);
    Ok(())
}

fn exp_rows(sp: &Spec, tr: &Trace, sets: &[usize], early: bool) -> Vec<(Row, f64)> {
    let mut out = vec![];
    for &set in sets {
        let ms = sp.metrics(set);
        for (s, per) in sp.expected(tr, set, early).iter().enumerate() {
            let label = tr.scenarios[s].3.join("-");
            for (m, v) in ms.iter().zip(per) {
                for p in v {
                    out.push(((sp.sets[set].name.clone(), s, label.clone(), m.name(), m.attribute(), p.0.to_string(), p.1.to_string()), p.2));
                }
            }
        }
    }
    out
}

fn check_long(c: &mut Case, sp: &Spec, tr: &Trace, path: &Path, sets: &[usize], places: Option<u32>, early: bool) -> Res {
    let bad = |e: &dyn std::fmt::Display| viol("csv", format!("{}: {e}", path.display()));
    let mut rd = csv::Reader::from_path(path).map_err(|e| bad(&e))?;
    let h: Vec<String> = rd.headers().map_err(|e| bad(&e))?.iter().map(|s| s.to_string()).collect();
    ensure!(h.is_empty() && exp_rows(sp, tr, sets, early).is_empty() || h == ["time_start", "time_end", "simulation_id", "label", "metric_set", "name", "attribute", "value"], "header", "header {h:?}");
    let mut got = vec![];
    let mut last: HashMap<(String, String, String, String), DateTime> = HashMap::new();
    for rec in rd.records() {
        let rec = rec.map_err(|e| bad(&e))?;
        let f: Vec<&str> = rec.iter().collect();
        let id: usize = f[2].parse().map_err(|e| bad(&e))?;
        let v: f64 = f[7].parse().map_err(|e| bad(&e))?;
        let t: DateTime = f[0].parse().map_err(|e| bad(&e))?;
        let k = (f[2].to_string(), f[4].to_string(), f[5].to_string(), f[6].to_string());
        if let Some(p) = last.insert(k, t) {
            ensure!(p < t, "order", "{}: {} after {p}", path.display(), t);
        }
        got.push(((f[4].into(), id, f[3].into(), f[5].into(), f[6].into(), f[0].into(), f[1].into()), v));
    }
    let tol = move |v: f64| places.filter(|p| *p > 0).map(|p| 0.5 * 10f64.powi(-(p as i32)) * (1.0 + 1e-9) + v.abs() * 1e-12).unwrap_or(0.0);
    compare(c, "long CSV", exp_rows(sp, tr, sets, early), got.clone(), &tol)?;
    // rounded values have no further decimals
    if let Some(p) = places.filter(|p| *p > 0) {
        for (k, v) in &got {
            let x = v * 10f64.powi(p as i32);
            ensure!(!x.is_finite() || (x - x.round()).abs() <= 1e-6 * x.abs().max(1.0), "places", "long CSV: {k:?} is {v:?} with {p} decimal places");
        }
    }
    c.count("long_csv", 1);
    Ok(())
}

fn check_wide(c: &mut Case, sp: &Spec, tr: &Trace, path: &Path, set: usize, early: bool) -> Res {
    let bad = |e: &dyn std::fmt::Display| viol("csv", format!("{}: {e}", path.display()));
    let mut rd = csv::ReaderBuilder::new().has_headers(false).from_path(path).map_err(|e| bad(&e))?;
    let recs: Vec<Vec<String>> = rd
        .records()
        .map(|r| r.map(|r| r.iter().map(|s| s.to_string()).collect()))
        .collect::<Result<_, _>>()
        .map_err(|e| bad(&e))?;
    ensure!(recs.len() >= 4, "header", "wide CSV: {} rows", recs.len());
    for (i, n) in ["node", "attribute", "simulation_id", "label"].iter().enumerate() {
        ensure!(recs[i][0] == *n, "header", "wide CSV: header {i} is {:?}", recs[i][0]);
    }
    let ncol = sp.metrics(set).len() * tr.scenarios.len();
    let mut got = vec![];
    let ends: HashMap<String, String> = exp_rows(sp, tr, &[set], early).iter().map(|r| (r.0.5.clone(), r.0.6.clone())).collect();
    let mut last: Option<DateTime> = None;
    for r in &recs[4..] {
        ensure!(r.len() == ncol + 1, "columns", "wide CSV: {} columns, expected {}", r.len(), ncol + 1);
        let t: DateTime = r[0].parse().map_err(|e| bad(&e))?;
        ensure!(last.is_none_or(|l| l < t), "order", "wide CSV: {t} after {last:?}");
        last = Some(t);
        let e = ends.get(&r[0]).cloned().unwrap_or_default();
        for (j, v) in r.iter().enumerate().skip(1) {
            let v: f64 = v.parse().map_err(|e| bad(&e))?;
            let id: usize = recs[2][j].parse().map_err(|e| bad(&e))?;
            got.push(((sp.sets[set].name.clone(), id, recs[3][j].clone(), recs[0][j].clone(), recs[1][j].clone(), r[0].clone(), e.clone()), v));
        }
    }
    compare(c, "wide CSV", exp_rows(sp, tr, &[set], early), got, &|v: f64| 0.005 + v.abs() * 1e-12)?;
    c.count("wide_csv", 1);
    Ok(())
}

#[derive(hdf5_metno::H5Type, Copy, Clone, Debug)]
#[repr(C)]
struct HDate {
    index: usize,
    year: i16,
    month: u8,
    day: u8,
    hour: u8,
    minute: u8,
    second: u8,
}
#[derive(hdf5_metno::H5Type, Clone, PartialEq, Debug)]
#[repr(C)]
struct HScen {
    index: usize,
    indices: hdf5_metno::types::VarLenArray<usize>,
    label: hdf5_metno::types::VarLenUnicode,
}
#[derive(hdf5_metno::H5Type, Clone, PartialEq, Debug)]
#[repr(C)]
struct HGroup {
    name: hdf5_metno::types::VarLenUnicode,
    size: usize,
}

fn check_hdf(c: &mut Case, sp: &Spec, tr: &Trace, path: &Path, set: usize) -> Res {
    let bad = |e: hdf5_metno::Error| viol("hdf5", format!("{}: {e}", path.display()));
    let f = hdf5_metno::File::open(path).map_err(bad)?;
    let dates: Vec<HDate> = f.dataset("time").map_err(bad)?.read_raw().map_err(bad)?;
    let got: Vec<(usize, DateTime)> = dates
        .iter()
        .map(|d| (d.index, date(d.year, d.month as i8, d.day as i8).at(d.hour as i8, d.minute as i8, d.second as i8, 0)))
        .collect();
    let want: Vec<(usize, DateTime)> = tr.steps.iter().enumerate().map(|(i, s)| (i, s.date)).collect();
    ensure!(got == want, "time", "HDF5 time is {got:?}, expected {want:?}");
    let sc: Vec<HScen> = f.dataset("scenarios/indices").map_err(bad)?.read_raw().map_err(bad)?;
    ensure!(sc.len() == tr.scenarios.len(), "scenarios", "HDF5: {} scenarios", sc.len());
    for (i, s) in sc.iter().enumerate() {
        let t = &tr.scenarios[i];
        ensure!(
            s.index == t.0 && s.indices.as_slice() == t.1.as_slice() && s.label.as_str() == t.3.join("-"),
            "scenarios",
            "HDF5: scenario {i} is {s:?}, expected {t:?}"
        );
    }
    let gr: Vec<HGroup> = f.dataset("scenarios/groups").map_err(bad)?.read_raw().map_err(bad)?;
    let gr: Vec<&str> = gr.iter().map(|g| g.name.as_str()).collect();
    let want: Vec<&str> = sp.dom.groups.iter().map(|g| g.name.as_str()).collect();
    ensure!(gr == want || (want.is_empty() && gr.len() <= 1), "groups", "HDF5: groups {gr:?}, expected {want:?}");
    let exp = sp.expected(tr, set, false);
    for (j, m) in sp.metrics(set).iter().enumerate() {
        let ds = f.group(&m.name()).and_then(|g| g.dataset(&m.attribute())).map_err(bad)?;
        ensure!(ds.shape() == [tr.steps.len(), tr.scenarios.len()], "shape", "HDF5: {:?} has shape {:?}", m.key(), ds.shape());
        let a: Array2<f64> = ds.read_2d().map_err(bad)?;
        for t in 0..tr.steps.len() {
            for s in 0..tr.scenarios.len() {
                let v = exp[s][j][t].2;
                ensure!(eq(a[[t, s]], v), "value", "HDF5: {:?} step {t} scenario {s} is {:?}, expected {v:?}", m.key(), a[[t, s]]);
            }
        }
        c.count("values_compared", a.len() as u64);
    }
    c.count("hdf5", 1);
    Ok(())
}

fn check_memory(c: &mut Case, sp: &Spec, tr: &Trace, res: &dyn RecorderFinalResult, set: usize, f: &[Option<F>; 3], time_first: bool, agg: bool, early: bool) -> Res {
    {
        let df = res.to_dataframe().map_err(|e| viol("dataframe", e.to_string()))?;
        let n = df.height();
        let pe = |e: &dyn std::fmt::Display| viol("dataframe", e.to_string());
        let st = |k: &str| -> Result<Vec<String>, Violation> {
            let col = df.column(k).map_err(|e| pe(&e))?;
            let ca = col.str().map_err(|e| pe(&e))?;
            Ok((0..n).map(|i| ca.get(i).unwrap_or("<null>").to_string()).collect())
        };
        let (a, b, l, ms, nm, at) = (st("time_start")?, st("time_end")?, st("label")?, st("metric_set")?, st("name")?, st("attribute")?);
        let id = df.column("simulation_id").map_err(|e| pe(&e))?.u32().map_err(|e| pe(&e))?.clone();
        let v = df.column("value").map_err(|e| pe(&e))?.f64().map_err(|e| pe(&e))?.clone();
        let _ = ms; // holds the name of the output, which the statement does not fix
        let set_name = &sp.sets[set].name;
        let got = (0..n)
            .map(|i| {
                (
                    (set_name.clone(), id.get(i).unwrap() as usize, l[i].clone(), nm[i].clone(), at[i].clone(), a[i].clone(), b[i].clone()),
                    v.get(i).unwrap(),
                )
            })
            .collect();
        compare(c, "memory output", exp_rows(sp, tr, &[set], early), got, &|_| 0.0)?;
        c.count("memory_frames", 1);
    }
    if agg {
        let exp = sp.expected(tr, set, early);
        if exp[0][0].is_empty() {
            c.count("memory_without_periods", 1);
            return Ok(());
        }
        // None: more than one value and no function
        let ap = |f: &Option<F>, v: &[(f64, f64)]| -> Option<f64> { if v.len() == 1 { Some(v[0].1) } else { f.as_ref().and_then(|f| f.of(v)) } };
        let one = |x: &Vec<Vec<Pv>>| -> Option<f64> {
            if time_first {
                let m: Option<Vec<(f64, f64)>> =
                    x.iter().map(|v| ap(&f[1], &v.iter().map(|p| (days(p.0, p.1), p.2)).collect::<Vec<_>>()).map(|y| (1.0, y))).collect();
                ap(&f[2], &m?)
            } else {
                let t: Option<Vec<(f64, f64)>> = (0..x[0].len())
                    .map(|t| ap(&f[2], &x.iter().map(|v| (1.0, v[t].2)).collect::<Vec<_>>()).map(|y| (days(x[0][t].0, x[0][t].1), y)))
                    .collect();
                ap(&f[1], &t?)
            }
        };
        let sc: Option<Vec<(f64, f64)>> = exp.iter().map(|x| one(x).map(|v| (1.0, v))).collect();
        let want = sc.and_then(|v| ap(&f[0], &v));
        let got = res.aggregated_value();
        match (want, got) {
            (Some(w), Ok(g)) => {
                ensure!(eq(w, g) || crate::fw::close(w, g, 1e-9), "aggregated", "aggregated value {g:?}, expected {w:?}");
                c.count("memory_aggregated", 1);
                if f.iter().filter(|f| f.is_some()).count() >= 2 {
                    c.count("memory_aggregated_with_functions", 1);
                }
            }
            (None, Err(_)) => c.count("memory_missing_function", 1),
            (Some(w), Err(e)) => return Err(viol("aggregated", format!("aggregated value fails ({e:?}), expected {w:?}"))),
            (None, Ok(g)) => return Err(viol("aggregated", format!("aggregated value {g:?} without the function it needs"))),
        }
    }
    Ok(())
}

/// Replace the length of a period by one that is not positive.
fn odd_period(r: &mut Rng, v: &mut Value) -> bool {
    match v {
        Value::Array(a) => a.iter_mut().any(|x| odd_period(r, x)),
        Value::Object(o) => {
            if o.get("type") == Some(&json!("Days")) && o.contains_key("days") {
                let d = o["days"].as_i64().unwrap_or(1);
                o["days"] = json!(r.pick(&[0, -1, -d]));
                return true;
            }
            o.values_mut().any(|x| odd_period(r, x))
        }
        _ => false,
    }
}

fn case(c: &mut Case, aggregate: bool) -> Res {
    let r = &mut c.rng;
    let sp = Spec::generate(r, aggregate, c.thorough);
    let sel = *r.pick(&[SolverSel::Highs, SolverSel::Highs, SolverSel::HighsPar(3), SolverSel::Microlp]);
    c.desc = json!({"model": sp.json(), "arrays": sp.arrays, "solver": format!("{sel:?}")});
    let dir = tempfile::Builder::new().prefix("o").tempdir_in(&c.scratch).map_err(|e| viol("harness", e.to_string()))?;
    let mb = sp.build(dir.path()).map_err(|e| viol("rejected", format!("model is rejected: {e}")))?;
    let mut j = sp.json();
    if aggregate && odd_period(&mut c.rng, &mut j["network"]["metric_sets"]) {
        c.count("odd_periods_refused", 1);
        let res = crate::fw::guard(|| {
            ModelSchema::from_str(&j.to_string())
                .map_err(|e| e.to_string())
                .and_then(|s| s.create_model_builder(Some(dir.path()), Some(dir.path())).map_err(|e| e.to_string()))
                .and_then(|b| b.build().map_err(|e| e.to_string()))
                .is_ok()
        });
        match res {
            Ok(false) => {}
            Ok(true) => return Err(viol("odd-period", format!("an aggregation period that is not positive is accepted: {}", j["network"]["metric_sets"]))),
            Err(p) => return Err(viol("panic", p)),
        }
    }
    let (model, out) = run::build(mb, sp.probes()).map_err(|e| viol("rejected", e.text()))?;
    let result: ModelResult = match run::exec(&model, sel) {
        Ok(r) => r,
        Err(e) if super::alloc::solver_precision(&e.text()) => {
            c.count("stopped_by_solver_precision", 1);
            return Ok(());
        }
        Err(e) => return Err(viol("run", format!("run fails: {}", e.text()))),
    };
    let tr = std::mem::take(&mut *out.lock().unwrap());
    ensure!(tr.errors.is_empty(), "probe", "{:?}", tr.errors.first());
    ensure!(tr.steps.len() == sp.nsteps, "steps", "{} steps, expected {}", tr.steps.len(), sp.nsteps);
    // The flow into and out of a link can differ by the rounding of the solver, which counting functions amplify.
    let link: Vec<usize> = sp.node_names.iter().filter(|n| n.1 == "Link").map(|n| tr.node(&n.0, None)).collect();
    if tr.steps.iter().flat_map(|s| &s.scen).any(|x| link.iter().any(|i| x.inflow[*i] != x.outflow[*i])) {
        c.count("runs_with_rounding_in_links_skipped", 1);
        return Ok(());
    }
    c.count("runs", 1);
    c.count("steps_observed", tr.steps.len() as u64);
    let mut finding = None;
    for (i, o) in sp.outs.iter().enumerate() {
        let agg_of = |s: usize| !sp.sets[s].agg.is_empty();
        let one = |c: &mut Case, early: bool| -> Res {
            match o {
                Out::Long { file, sets, places, .. } => check_long(c, &sp, &tr, &dir.path().join(file), sets, *places, early),
                Out::Wide { file, set } => check_wide(c, &sp, &tr, &dir.path().join(file), *set, early),
                Out::Hdf { file, set } => check_hdf(c, &sp, &tr, &dir.path().join(file), *set),
                Out::Memory { set, f, time_first } => {
                    let Some(res) = result.network_result.get(&format!("o{i}")) else {
                        return Err(viol("missing-output", format!("no result for memory output o{i}")));
                    };
                    check_memory(c, &sp, &tr, res, *set, f, time_first.unwrap_or(false), aggregate, early)
                }
            }
        };
        let plain = match o {
            Out::Long { sets, .. } => !sets.iter().any(|s| agg_of(*s)),
            Out::Wide { set, .. } | Out::Memory { set, .. } => !agg_of(*set),
            Out::Hdf { .. } => true,
        };
        if let Err(e) = one(c, false) {
            if plain {
                return Err(e);
            }
            // Is it the recorded finding, and nothing else?
            one(c, true).map_err(|_| e)?;
            c.count("last_period_ends_early", 1);
            finding = Some(viol("last-period-ends-early", "the last aggregated period ends at the start of its last value"));
        }
        let sets: Vec<usize> = match o {
            Out::Long { sets, .. } => sets.clone(),
            Out::Wide { set, .. } | Out::Hdf { set, .. } | Out::Memory { set, .. } => vec![*set],
        };
        for s in sets {
            c.count(if agg_of(s) { "aggregated_sets" } else { "plain_sets" }, 1);
            let e = sp.expected(&tr, s, false);
            c.count("periods", e[0][0].len() as u64);
            if sp.sets[s].agg.len() > 1 {
                c.count("nested_sets", 1);
            }
            for (k, l) in sp.sets[s].agg.iter().enumerate() {
                c.seen((k, format!("{:?}", l.freq), format!("{:?}", l.f), e[0][0].len(), sp.step.to_string()));
            }
        }
        c.seen((format!("{o:?}").split(' ').next().unwrap_or("").to_string(), sp.dom.groups.len(), tr.scenarios.len(), sp.metrics(0).len(), sp.step.to_string()));
    }
    finding.map_or(Ok(()), Err)
}

fn c15(c: &mut Case) -> Res {
    case(c, false)
}
pub fn c16(c: &mut Case) -> Res {
    case(c, true)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            rule: "every value in the CSV, HDF5 and memory outputs against the value the probe saw at the end of that step, with its names, scenario and times, each exactly once",
            assumptions: &["HDF5 outputs of metric sets with an aggregator are not examined"],
            quick: 1500,
            thorough: 20000,
            random: c15,
            directed: &[],
            threads: 8,
        },
        Prop {
            id: "C16",
            rule: "aggregated values in the outputs against the aggregation of the values the probe saw in every step",
            assumptions: &["no value spans more than two periods (the model stops otherwise, as documented)"],
            quick: 1500,
            thorough: 20000,
            random: c16,
            directed: &[],
            threads: 8,
        },
    ]
}
