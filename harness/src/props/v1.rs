//! C25: conversion of models of Pywr 1.
//!
//! Each component is generated twice: as Pywr 1 writes it and as this version does. The converted model has to run as the
//! one that was written directly.
use crate::ensure;
use crate::fw::{Case, Prop, Res, Rng, guard, viol};
use crate::run::{self, RunErr, SolverSel, Trace};
use pywr_core::metric::UnresolvedMetricF64 as UM;
use pywr_schema::{ComponentConversionError, ModelSchema};
use serde_json::{Map, Value, json};
use std::str::FromStr;

/// A value in both forms.
#[derive(Clone)]
struct V {
    a: Value,
    b: Value,
}

struct G<'a> {
    r: &'a mut Rng,
    /// parameters in both forms
    pa: Map<String, Value>,
    pb: Vec<Value>,
    /// names of the parameters that may be referred to
    fs: Vec<String>,
    /// index parameters and their largest value
    is: Vec<(String, usize)>,
    /// (name, is virtual, volume)
    stores: Vec<(String, bool, f64)>,
    /// (name, default attribute, is virtual)
    flows: Vec<(String, &'static str, bool)>,
    groups: Vec<(String, usize)>,
    series: Vec<Value>,
    csv: Vec<(String, String)>,
    dates: Vec<String>,
    n: usize,
    kinds: Vec<&'static str>,
    /// parameters to observe, and the number of steps after which they are comparable
    seen: Vec<(String, usize)>,
}

fn lit(x: f64) -> Value {
    json!({"type":"Literal","value":x})
}

impl G<'_> {
    fn new_name(&mut self) -> String {
        self.n += 1;
        format!("x{}", self.n)
    }

    fn num(&mut self) -> f64 {
        self.r.q(-5.0, 20.0)
    }

    /// The spelling of a type.
    fn ty(&mut self, t: &'static str) -> String {
        self.kinds.push(t);
        match self.r.us(0, 3) {
            0 => t.to_string(),
            1 => t.to_lowercase(),
            2 => format!("{t}Parameter"),
            _ => format!("{}parameter", t.to_lowercase()),
        }
    }

    /// A parameter that is written where it is used.
    fn inline(&mut self, p: V) -> V {
        let name = self.new_name();
        let mut a = p.a;
        if self.r.chance(0.2) {
            a["name"] = json!(name);
        }
        if self.r.chance(0.1) {
            a["comment"] = json!("c");
        }
        let mut b = p.b;
        b["meta"] = json!({"name":name});
        self.pb.push(b);
        V { a, b: json!({"type":"Parameter","name":name}) }
    }

    fn global(&mut self, p: V) -> String {
        let mut name = self.new_name();
        if self.r.chance(0.15) {
            // nodes may have the same name
            let n = self.r.pick(&["s0", "d0", "n00", "n01", "s1", "vs0"]).to_string();
            if !self.pa.contains_key(&n) {
                name = n;
            }
        }
        self.pa.insert(name.clone(), p.a);
        let mut b = p.b;
        b["meta"] = json!({"name":name});
        self.pb.push(b);
        name
    }

    fn constant(&mut self, x: f64) -> V {
        V { a: json!(x), b: lit(x) }
    }

    fn val(&mut self, d: usize) -> V {
        match self.r.us(0, 9) {
            0..=2 if !self.fs.is_empty() => {
                let n = self.r.pick(&self.fs).clone();
                // a timeseries
                if let Some(t) = self.series.iter().find(|s| s["par"] == json!(n)) {
                    return V { a: json!(n), b: t["ref"].clone() };
                }
                V { a: json!(n), b: json!({"type":"Parameter","name":n}) }
            }
            3..=6 if d < 3 => {
                if self.r.chance(0.12) {
                    let s = self.frame();
                    return self.inline_frame(s);
                }
                let p = self.par(d + 1);
                self.inline(p)
            }
            _ => {
                let x = self.num();
                self.constant(x)
            }
        }
    }

    fn vals(&mut self, n: usize, d: usize) -> (Vec<Value>, Vec<Value>) {
        (0..n).map(|_| self.val(d)).map(|v| (v.a, v.b)).unzip()
    }

    /// At least `lo`.
    fn at_least(&mut self, lo: f64, hi: f64) -> V {
        if self.r.chance(0.5) {
            let x = self.r.q(lo, hi);
            return self.constant(x);
        }
        let v = self.val(1);
        let t = self.ty("Max");
        let p = V { a: json!({"type":t,"parameter":v.a,"threshold":lo}), b: json!({"type":"Max","parameter":v.b,"threshold":lo}) };
        let p = self.inline(p);
        let t = self.ty("Min");
        let p = V { a: json!({"type":t,"parameter":p.a,"threshold":hi}), b: json!({"type":"Min","parameter":p.b,"threshold":hi}) };
        self.inline(p)
    }

    fn store(&mut self) -> (String, bool, f64) {
        self.r.pick(&self.stores.clone()).clone()
    }

    fn volume(s: &(String, bool, f64), attr: &str) -> Value {
        json!({"type": if s.1 { "VirtualNode" } else { "Node" },"name":s.0,"attribute":attr})
    }

    fn curves(&mut self, d: usize, single: bool) -> (Value, Vec<Value>, usize) {
        let n = if single { 1 } else { self.r.us(1, 3) };
        let mut c: Vec<f64> = (0..n).map(|_| self.r.q(0.0, 1.0)).collect();
        c.sort_by(|a, b| b.total_cmp(a));
        let (mut a, mut b) = (vec![], vec![]);
        for x in c {
            let v = if d < 3 && self.r.chance(0.3) {
                let t = self.ty("Constant");
                let p = V { a: json!({"type":t,"value":x}), b: json!({"type":"Constant","value":lit(x)}) };
                self.inline(p)
            } else {
                self.constant(x)
            };
            a.push(v.a);
            b.push(v.b);
        }
        (if single { a[0].clone() } else { json!(a) }, b, n)
    }

    /// A file and a reference to it.
    fn frame(&mut self) -> (Map<String, Value>, Value, String) {
        let file = format!("{}.csv", self.new_name());
        let g = if !self.groups.is_empty() && self.r.chance(0.4) { Some(self.r.pick(&self.groups.clone()).clone()) } else { None };
        let cols: Vec<String> = match &g {
            Some(g) => (0..g.1).map(|i| format!("m{i}")).collect(),
            None => (0..self.r.us(1, 3)).map(|i| format!("c{i}")).collect(),
        };
        let mut text = format!("date,{}\n", cols.join(","));
        for d in &self.dates.clone() {
            let row: Vec<String> = cols.iter().map(|_| format!("{:?}", self.r.q(0.0, 20.0) + 0.5)).collect();
            text += &format!("{d},{}\n", row.join(","));
        }
        self.csv.push((file.clone(), text));
        let mut a = Map::new();
        a.insert("type".into(), json!(self.ty("DataFrame")));
        a.insert("url".into(), json!(file));
        a.insert("index_col".into(), json!("date"));
        if self.r.chance(0.5) {
            a.insert("parse_dates".into(), json!(true));
        }
        let col = match g {
            Some(g) => {
                a.insert("scenario".into(), json!(g.0));
                json!({"type":"Scenario","name":g.0})
            }
            None => {
                let c = self.r.pick(&cols).clone();
                a.insert("column".into(), json!(c));
                json!({"type":"Column","name":c})
            }
        };
        (a, col, file)
    }

    fn inline_frame(&mut self, (a, col, file): (Map<String, Value>, Value, String)) -> V {
        let name = self.new_name();
        self.series.push(json!({"par":"","ts":{"meta":{"name":name},"type":"Polars","time_col":"date","url":file}}));
        V { a: json!(a), b: json!({"type":"Timeseries","name":name,"columns":col}) }
    }

    fn opt(&mut self, a: &mut Value, b: &mut Value, ka: &str, kb: &str, p: f64, v: impl FnOnce(&mut Self) -> V) {
        if self.r.chance(p) {
            let v = v(self);
            a[ka] = v.a;
            b[kb] = v.b;
        }
    }

    fn values(&mut self, n: usize) -> Vec<f64> {
        (0..n).map(|_| self.num()).collect()
    }

    fn predicate(&mut self, a: &mut Value, b: &mut Value) {
        let (x, y) = *self.r.pick(&[("<", "LT"), (">", "GT"), ("==", "EQ"), ("<=", "LE"), (">=", "GE"), ("LT", "LT"), ("GT", "GT"), ("le", "LE"), ("", "LT")]);
        if !x.is_empty() {
            a["predicate"] = json!(x);
        }
        b["predicate"] = json!(y);
    }

    /// A parameter of numbers.
    fn par(&mut self, d: usize) -> V {
        let k = self.r.us(0, 26);
        match k {
            0 => {
                let x = self.num();
                let t = self.ty("Constant");
                let key = *self.r.pick(&["value", "values"]);
                V { a: json!({"type":t,key:x}), b: json!({"type":"Constant","value":lit(x)}) }
            }
            1 if !self.groups.is_empty() => {
                let (g, n) = self.r.pick(&self.groups.clone()).clone();
                let v = self.values(n);
                let t = self.ty("ConstantScenario");
                V { a: json!({"type":t,"scenario":g,"values":v}), b: json!({"type":"ConstantScenario","scenario_group":g,"values":{"type":"Literal","values":v}}) }
            }
            2 | 3 => {
                let v = self.values(12);
                let t = self.ty("MonthlyProfile");
                let (mut a, mut b) = (json!({"type":t,"values":v}), json!({"type":"MonthlyProfile","values":{"type":"Literal","values":v}}));
                if self.r.chance(0.5) {
                    let (x, y) = *self.r.pick(&[("first", "First"), ("last", "Last")]);
                    a["interp_day"] = json!(x);
                    b["interp_day"] = json!(y);
                }
                V { a, b }
            }
            4 => {
                let v = self.values(366);
                let t = self.ty("DailyProfile");
                V { a: json!({"type":t,"values":v}), b: json!({"type":"DailyProfile","values":{"type":"Literal","values":v}}) }
            }
            5 => {
                let n = self.r.us(52, 53);
                let v = self.values(n);
                let t = self.ty("WeeklyProfile");
                V { a: json!({"type":t,"values":v}), b: json!({"type":"WeeklyProfile","values":{"type":"Literal","values":v}}) }
            }
            6 => {
                let t = self.ty("UniformDrawdownProfile");
                let (mut a, mut b) = (json!({"type":t}), json!({"type":"UniformDrawdownProfile"}));
                let x = [self.r.us(1, 28), self.r.us(1, 12), self.r.us(0, 100)];
                for (k, x) in ["reset_day", "reset_month", "residual_days"].iter().zip(x) {
                    if self.r.chance(0.6) {
                        a[k] = json!(x);
                        b[k] = json!({"type":"Literal","value":x});
                    } else if *k != "residual_days" {
                        b[k] = json!({"type":"Literal","value":1});
                    }
                }
                V { a, b }
            }
            7 | 8 => {
                let n = self.r.us(1, 3);
                let (a, b) = self.vals(n, d);
                let (f, g) = *self.r.pick(&[("sum", "Sum"), ("product", "Product"), ("max", "Max"), ("min", "Min")]);
                let t = self.ty("Aggregated");
                V { a: json!({"type":t,"agg_func":f,"parameters":a}), b: json!({"type":"Aggregated","agg_func":{"type":g},"metrics":b,"phase":"Before"}) }
            }
            9..=12 => {
                let v = self.val(d);
                let (n, m) = [("Max", "parameter"), ("Min", "parameter"), ("NegativeMax", "metric"), ("NegativeMin", "metric")][k - 9];
                let t = self.ty(n);
                let mut a = json!({"type":t,"parameter":v.a});
                let mut b = json!({"type":n,m:v.b,"threshold":0.0});
                if self.r.chance(0.7) {
                    let x = self.num();
                    a["threshold"] = json!(x);
                    b["threshold"] = json!(x);
                }
                V { a, b }
            }
            13 => {
                let v = self.val(d);
                let t = self.ty("Negative");
                V { a: json!({"type":t,"parameter":v.a}), b: json!({"type":"Negative","parameter":v.b}) }
            }
            14 => {
                let v = self.val(d);
                let x = self.r.q(0.5, 9.0);
                let t = self.ty("Division");
                V { a: json!({"type":t,"numerator":v.a,"denominator":x}), b: json!({"type":"Division","numerator":v.b,"denominator":lit(x),"phase":"Before"}) }
            }
            15 => {
                let (x, y) = (self.r.q(0.0, 0.25), self.r.us(2010, 2022));
                let t = self.ty("DiscountFactor");
                V { a: json!({"type":t,"rate":x,"base_year":y}), b: json!({"type":"DiscountFactor","discount_rate":lit(x),"base_year":y}) }
            }
            16..=18 if !self.stores.is_empty() => {
                let s = self.store();
                let single = self.r.chance(0.4);
                let (ca, cb, n) = self.curves(d, single);
                let ck = if single { "control_curve" } else { "control_curves" };
                let m = Self::volume(&s, "ProportionalVolume");
                if k == 18 && self.r.chance(0.5) {
                    let v: Vec<[f64; 2]> = (0..n + 1).map(|_| [self.num(), self.num()]).collect();
                    let min = self.r.q(0.0, 0.2) - 0.1;
                    let t = self.ty("ControlCurvePiecewiseInterpolated");
                    let mut a = json!({"type":t,"storage_node":s.0,"values":v});
                    a[ck] = ca;
                    let mut b = json!({"type":"ControlCurvePiecewiseInterpolated","storage_metric":m,"control_curves":cb,"values":v});
                    if self.r.chance(0.5) {
                        a["minimum"] = json!(min);
                        b["minimum"] = json!(min);
                    }
                    return V { a, b };
                }
                let (n, name) = if k == 16 { (n + 1, "ControlCurve") } else { (n + 2, "ControlCurveInterpolated") };
                let (va, vb, key) = if self.r.chance(0.5) {
                    let v = self.values(n);
                    (json!(v), v.iter().map(|x| lit(*x)).collect(), "values")
                } else {
                    let (a, b) = self.vals(n, d);
                    (json!(a), b, "parameters")
                };
                let t = self.ty(name);
                let mut a = json!({"type":t,"storage_node":s.0,key:va});
                a[ck] = ca;
                V { a, b: json!({"type":name,"storage_metric":m,"control_curves":cb,"values":vb}) }
            }
            19 if !self.stores.is_empty() => {
                let s = self.store();
                let n = self.r.us(1, 3);
                let c: Vec<f64> = (0..n).map(|_| self.r.q(-2.0, 2.0)).collect();
                let prop = self.r.chance(0.5);
                let t = self.ty("Polynomial1D");
                let mut a = json!({"type":t,"storage_node":s.0,"coefficients":c,"use_proportional_volume":prop});
                let mut b = json!({"type":"Polynomial1D","metric":Self::volume(&s, if prop { "ProportionalVolume" } else { "Volume" }),"coefficients":c});
                for (k, x) in [("scale", self.r.q(0.5, 2.0)), ("offset", self.num())] {
                    if self.r.chance(0.5) {
                        a[k] = json!(x);
                        b[k] = json!(x);
                    }
                }
                V { a, b }
            }
            20 if !self.stores.is_empty() => {
                let s = self.store();
                let n = self.r.us(2, 4);
                let xs: Vec<f64> = (0..n).map(|i| s.2 * 1.5 * i as f64 / (n - 1) as f64 - 1.0).collect();
                let (va, vb) = self.vals(n, d);
                let t = self.ty("InterpolatedVolume");
                let mut a = json!({"type":t,"node":s.0,"volumes":xs,"values":va});
                let mut b = json!({"type":"Interpolated","x":Self::volume(&s, "Volume"),"xp":xs.iter().map(|x| lit(*x)).collect::<Vec<_>>(),"fp":vb});
                self.bounds(&mut a, &mut b);
                V { a, b }
            }
            21 if !self.flows.is_empty() => {
                let f = self.r.pick(&self.flows.clone()).clone();
                let n = self.r.us(2, 4);
                let xs: Vec<f64> = (0..n).map(|i| 200.0 * i as f64 / (n - 1) as f64 - 1.0).collect();
                let (va, vb) = self.vals(n, d);
                let t = self.ty("InterpolatedFlow");
                let mut a = json!({"type":t,"node":f.0,"flows":xs,"values":va});
                let mut b = json!({"type":"Interpolated","x":flow(&f),"xp":xs.iter().map(|x| lit(*x)).collect::<Vec<_>>(),"fp":vb});
                self.bounds(&mut a, &mut b);
                V { a, b }
            }
            22 => {
                let v = self.values(2);
                let mut p = self.threshold(d);
                p.a["values"] = json!(v);
                p.b["returned_metrics"] = json!([lit(v[0]), lit(v[1])]);
                p
            }
            23 if !self.is.is_empty() || d < 3 => {
                let (i, max) = self.index(d);
                let (va, vb) = self.vals(max + 1, d);
                let t = self.ty("IndexedArray");
                let key = *self.r.pick(&["parameters", "params"]);
                V { a: json!({"type":t,"index_parameter":i.a,key:va}), b: json!({"type":"IndexedArray","index_parameter":i.b,"metrics":vb}) }
            }
            24 => {
                let v = self.at_least(0.0, 30.0);
                let t = self.ty("HydropowerTarget");
                let mut a = json!({"type":t,"target":v.a});
                let mut b = json!({"type":"HydropowerTarget","target":v.b});
                let e = self.r.q(20.0, 60.0);
                a["water_elevation_parameter"] = json!(e);
                b["water_elevation"] = lit(e);
                for (ka, kb, x, def) in [
                    ("turbine_elevation", "turbine_elevation", self.r.q(0.0, 15.0), 0.0),
                    ("efficiency", "efficiency", self.r.q(0.5, 1.0), 1.0),
                    ("density", "water_density", self.r.q(900.0, 1100.0), 1000.0),
                    ("min_head", "min_head", self.r.q(0.0, 60.0), 0.0),
                    ("flow_unit_conversion", "flow_unit_conversion", self.r.q(0.5, 2.0), 1.0),
                    ("energy_unit_conversion", "energy_unit_conversion", *self.r.pick(&[1e-6, 1e-5, 2e-5]), 1e-6),
                ] {
                    b[kb] = json!(def);
                    if self.r.chance(0.4) {
                        a[ka] = json!(x);
                        b[kb] = json!(x);
                    }
                }
                self.opt(&mut a, &mut b, "min_flow", "min_flow", 0.3, |g| g.at_least(0.0, 5.0));
                self.opt(&mut a, &mut b, "max_flow", "max_flow", 0.3, |g| g.at_least(5.0, 50.0));
                V { a, b }
            }
            25 => {
                let n = self.r.us(2, 4);
                let days = super::vars::points(self.r, n);
                let (x, y): (Vec<u32>, Vec<f64>) = days.iter().cloned().unzip();
                let e = *self.r.pick(&[0.02, 0.03125, 0.05]);
                let (f, g) = *self.r.pick(&[("multiquadric", "MultiQuadric"), ("inverse", "InverseMultiQuadric"), ("gaussian", "Gaussian"), ("linear", "Linear"), ("cubic", "Cubic"), ("thin_plate", "ThinPlateSpline"), ("", "MultiQuadric")]);
                let t = self.ty("RbfProfile");
                let mut kw = Map::new();
                if !f.is_empty() {
                    kw.insert("function".into(), json!(f));
                }
                let mut fun = json!({"type":g});
                if g.contains("uadric") || g == "Gaussian" {
                    kw.insert("epsilon".into(), json!(e));
                    fun["epsilon"] = json!(e);
                }
                V { a: json!({"type":t,"days_of_year":x,"values":y,"rbf_kwargs":kw}), b: json!({"type":"RbfProfile","points":days,"function":fun}) }
            }
            _ => {
                let x = self.num();
                let t = self.ty("Constant");
                V { a: json!({"type":t,"value":x}), b: json!({"type":"Constant","value":lit(x)}) }
            }
        }
    }

    fn bounds(&mut self, a: &mut Value, b: &mut Value) {
        match self.r.us(0, 3) {
            0 => {
                let x = self.r.chance(0.5);
                a["interp_kwargs"] = json!({"bounds_error":x,"kind":"linear"});
                b["error_on_bounds"] = json!(x);
            }
            1 => a["interp_kwargs"] = json!({"kind":"linear"}),
            _ => {}
        }
    }

    /// A threshold without values.
    fn threshold(&mut self, d: usize) -> V {
        let (mut a, mut b) = match self.r.us(0, 2) {
            0 if !self.stores.is_empty() => {
                let s = self.store();
                let x = self.r.q(0.0, s.2);
                let ty = self.ty("StorageThreshold");
                (json!({"type":ty,"storage_node":s.0,"threshold":x}), json!({"type":"Threshold","metric":Self::volume(&s, "Volume"),"threshold":lit(x)}))
            }
            1 if !self.flows.is_empty() => {
                let f = self.r.pick(&self.flows.clone()).clone();
                let t = self.val(d);
                let ty = self.ty("NodeThreshold");
                (json!({"type":ty,"node":f.0,"threshold":t.a}), json!({"type":"Threshold","metric":flow(&f),"threshold":t.b}))
            }
            _ => {
                let m = self.val(d);
                let t = self.val(d);
                let ty = self.ty("ParameterThreshold");
                (json!({"type":ty,"parameter":m.a,"threshold":t.a}), json!({"type":"Threshold","metric":m.b,"threshold":t.b}))
            }
        };
        self.predicate(&mut a, &mut b);
        b["ratchet"] = json!(false);
        V { a, b }
    }

    /// An index and its largest value.
    fn index(&mut self, d: usize) -> (V, usize) {
        match self.r.us(0, 3) {
            0 | 1 if !self.is.is_empty() => {
                let (n, m) = self.r.pick(&self.is.clone()).clone();
                (V { a: json!(n), b: json!({"type":"Parameter","name":n}) }, m)
            }
            2 | 3 if d < 3 => {
                let (p, m) = self.index_par(d + 1);
                (self.inline(p), m)
            }
            _ => {
                let x = self.r.us(0, 2);
                (V { a: json!(x as f64), b: json!({"type":"Constant","value":x}) }, x)
            }
        }
    }

    fn index_par(&mut self, d: usize) -> (V, usize) {
        match self.r.us(0, 6) {
            0 if !self.stores.is_empty() => {
                let s = self.store();
                let (ca, cb, n) = self.curves(d, false);
                let t = if self.r.chance(0.5) { self.ty("ControlCurveIndex") } else { self.ty("ControlCurve") };
                (V { a: json!({"type":t,"storage_node":s.0,"control_curves":ca}), b: json!({"type":"ControlCurveIndex","storage_metric":Self::volume(&s, "ProportionalVolume"),"control_curves":cb}) }, n)
            }
            1 => {
                let n = self.r.us(1, 3);
                let mut max = vec![];
                let (mut a, mut b) = (vec![], vec![]);
                for _ in 0..n {
                    let (v, m) = self.index(d);
                    a.push(v.a);
                    b.push(v.b);
                    max.push(m);
                }
                let (f, g) = *self.r.pick(&[("sum", "Sum"), ("product", "Product"), ("max", "Max"), ("min", "Min"), ("any", "Any"), ("all", "All")]);
                let m = match g {
                    "Sum" => max.iter().sum(),
                    "Product" => max.iter().product(),
                    "Max" => *max.iter().max().unwrap(),
                    "Min" => *max.iter().min().unwrap(),
                    _ => 1,
                };
                let t = self.ty("AggregatedIndex");
                (V { a: json!({"type":t,"agg_func":f,"parameters":a}), b: json!({"type":"AggregatedIndex","agg_func":{"type":g},"metrics":b,"phase":"Before"}) }, m)
            }
            2 => {
                let (x, _) = self.index(d);
                let (y, _) = self.index(d);
                let t = self.ty("AsymmetricSwitchIndex");
                (V { a: json!({"type":t,"on_index_parameter":x.a,"off_index_parameter":y.a}), b: json!({"type":"AsymmetricSwitchIndex","on_index_parameter":x.b,"off_index_parameter":y.b}) }, 1)
            }
            3 | 4 => {
                let n = self.r.us(1, 3);
                let mut c: Vec<f64> = (0..n).map(|_| self.r.q(-5.0, 30.0)).collect();
                c.sort_by(|a, b| a.total_cmp(b));
                let (ma, mb, key, ty) = if !self.flows.is_empty() && self.r.chance(0.5) {
                    let f = self.r.pick(&self.flows.clone()).clone();
                    (json!(f.0), flow(&f), "node", "MultipleThresholdIndex")
                } else {
                    let v = self.val(d);
                    (v.a, v.b, "parameter", "MultipleThresholdParameterIndex")
                };
                let mut t = self.ty(ty);
                if t == "MultipleThresholdParameterIndexParameter" {
                    t = ty.to_string();
                }
                let (mut ta, mut tb) = (vec![], vec![]);
                for x in c {
                    ta.push(json!(x));
                    tb.push(lit(x));
                }
                (V { a: json!({"type":t,key:ma,"thresholds":ta}), b: json!({"type":"MultiThreshold","metric":mb,"thresholds":tb,"predicate":"GE","ratchet":false}) }, n)
            }
            _ => (self.threshold(d), 1),
        }
    }
}

fn flow(f: &(String, &'static str, bool)) -> Value {
    json!({"type": if f.2 { "VirtualNode" } else { "Node" },"name":f.0,"attribute":f.1})
}

/// Generate both forms of a model.
pub fn model(r: &mut Rng, thorough: bool) -> (Value, Value, Vec<(String, String)>, Vec<(String, usize)>, Vec<&'static str>) {
    let (y, m, d) = (r.us(2014, 2020), r.us(1, 12), r.us(1, 28));
    let first = jiff::civil::Date::new(y as i16, m as i8, d as i8).unwrap();
    let days = *r.pick(&[1usize, 1, 1, 1, 7, 10]);
    let steps = r.us(2, if thorough { 40 } else { 12 });
    let last = first.checked_add(jiff::Span::new().days((days * (steps - 1)) as i64)).unwrap();
    // scenarios
    let ng = *r.pick(&[0usize, 0, 1, 1, 2]);
    let (mut sa, mut sb, mut groups) = (vec![], vec![], vec![]);
    let mut sliced = false;
    for g in 0..ng {
        let size = r.us(1, 4);
        let (mut a, mut b) = (json!({"name":format!("g{g}"),"size":size}), json!({"name":format!("g{g}"),"size":size}));
        if r.chance(0.3) {
            let l: Vec<String> = (0..size).map(|i| format!("l{i}")).collect();
            a["ensemble_names"] = json!(l);
            b["labels"] = json!(l);
        }
        if r.chance(0.5) {
            sliced = true;
            let start = r.us(0, size - 1);
            let stop = r.us(start + 1, size);
            let opt = |r: &mut Rng, x: usize, default: usize| if x == default && r.chance(0.5) { Value::Null } else { json!(x) };
            match r.us(0, 2) {
                0 => {
                    let n = r.us(1, size);
                    a["slice"] = json!([opt(r, n, size)]);
                    b["subset"] = json!({"type":"Slice","start":0,"end":n});
                }
                1 => {
                    a["slice"] = json!([opt(r, start, 0), opt(r, stop, size)]);
                    b["subset"] = json!({"type":"Slice","start":start,"end":stop});
                }
                _ => {
                    let step = r.us(1, 3);
                    a["slice"] = json!([opt(r, start, 0), opt(r, stop, size), opt(r, step, 1)]);
                    b["subset"] = json!({"type":"Indices","indices":(start..stop).step_by(step).collect::<Vec<_>>()});
                }
            }
        }
        groups.push((format!("g{g}"), size));
        sa.push(a);
        sb.push(b);
    }
    let mut combos = None;
    if ng > 0 && !sliced && r.chance(0.4) {
        let mut all: Vec<Vec<usize>> = vec![];
        for _ in 0..r.us(1, 3) {
            let c: Vec<usize> = groups.iter().map(|g| r.us(0, g.1 - 1)).collect();
            if !all.contains(&c) {
                all.push(c);
            }
        }
        combos = Some(all);
    }
    let dates = (0..steps).map(|i| first.checked_add(jiff::Span::new().days((i * days) as i64)).unwrap().to_string()).collect();
    let mut g = G { r, pa: Map::new(), pb: vec![], fs: vec![], is: vec![], stores: vec![], flows: vec![], groups, series: vec![], csv: vec![], dates, n: 0, kinds: vec![], seen: vec![] };

    // names and connections
    let mut nodes: Vec<(String, &'static str)> = vec![];
    let mut ea: Vec<Value> = vec![];
    let mut eb: Vec<Value> = vec![];
    let mut ends: Vec<String> = vec![];
    let mut starts: Vec<String> = vec![];
    let mut virt: Vec<(String, &'static str, Vec<String>)> = vec![];
    let mut extra: Vec<(String, Value, Value)> = vec![];
    fn link(ea: &mut Vec<Value>, eb: &mut Vec<Value>, a: &str, b: &str) {
        ea.push(json!([a, b]));
        eb.push(json!({"from_node":a,"to_node":b}));
    }
    let chains = g.r.us(1, 3);
    for c in 0..chains {
        let mut last = format!("s{c}");
        let cat = g.r.chance(0.4);
        nodes.push((last.clone(), if cat { "Catchment" } else { "Input" }));
        if !cat {
            g.flows.push((last.clone(), "Outflow", false));
        }
        starts.push(last.clone());
        if cat {
            nodes.push((format!("w{c}"), "Waste"));
            link(&mut ea, &mut eb, &last, &format!("w{c}"));
        }
        for k in 0..g.r.us(0, 3) {
            let n = format!("n{c}{k}");
            let t = *g.r.pick(&["Link", "Link", "BreakLink", "RiverGauge", "LossLink", "River", "PiecewiseLink", "Delay", "Storage", "Reservoir", "RiverSplitWithGauge"]);
            nodes.push((n.clone(), t));
            link(&mut ea, &mut eb, &last, &n);
            match t {
                "Link" | "BreakLink" => g.flows.push((n.clone(), "Outflow", false)),
                "Delay" => {
                    nodes.push((format!("w{c}{k}"), "Waste"));
                    link(&mut ea, &mut eb, &n, &format!("w{c}{k}"));
                }
                "Storage" | "Reservoir" => {
                    let v = g.r.q(20.0, 200.0);
                    g.stores.push((n.clone(), false, v));
                    // so that the catchments and delays above never overfill it
                    nodes.push((format!("w{c}{k}"), "Waste"));
                    link(&mut ea, &mut eb, &n, &format!("w{c}{k}"));
                }
                "RiverSplitWithGauge" => {
                    nodes.push((format!("w{c}{k}"), "Waste"));
                    let e = if g.r.chance(0.5) { json!([n, format!("w{c}{k}")]) } else { json!([n, format!("w{c}{k}"), "river", null]) };
                    ea.push(e);
                    eb.push(json!({"from_node":n,"to_node":format!("w{c}{k}"),"from_slot":{"type":"River"}}));
                }
                _ => {}
            }
            // what follows comes from the split
            last = n;
        }
        nodes.push((format!("d{c}"), "Output"));
        ends.push(format!("d{c}"));
        g.flows.push((format!("d{c}"), "Inflow", false));
        if let Some((_, "RiverSplitWithGauge")) = nodes.iter().find(|n| n.0 == last) {
            ea.push(json!([last, format!("d{c}"), "abstraction", null]));
            eb.push(json!({"from_node":last,"to_node":format!("d{c}"),"from_slot":{"type":"Split","position":0}}));
        } else {
            link(&mut ea, &mut eb, &last, &format!("d{c}"));
        }
    }
    // the way on from a split that is not the last is its first branch
    for (a, b) in ea.iter_mut().zip(eb.iter_mut()) {
        let from = b["from_node"].as_str().unwrap().to_string();
        let to = b["to_node"].as_str().unwrap();
        if nodes.iter().any(|n| n.0 == from && n.1 == "RiverSplitWithGauge") && !to.starts_with('w') && b.get("from_slot").is_none() {
            *a = json!([from, to, "abstraction", null]);
            *b = json!({"from_node":from,"to_node":to,"from_slot":{"type":"Split","position":0}});
        }
    }
    // virtual nodes
    if g.stores.len() > 1 && g.r.chance(0.6) {
        let s: Vec<String> = g.stores.iter().map(|s| s.0.clone()).collect();
        virt.push(("as".into(), "AggregatedStorage", s));
    }
    if chains > 1 && g.r.chance(0.5) {
        virt.push(("ag".into(), "Aggregated", if g.r.chance(0.5) { ends.clone() } else { starts.clone() }));
    }
    for k in 0..g.r.us(0, 2) {
        let t = *g.r.pick(&["VirtualStorage", "AnnualVirtualStorage", "MonthlyVirtualStorage", "SeasonalVirtualStorage", "RollingVirtualStorage"]);
        let of: Vec<String> = g.flows.iter().map(|f| f.0.clone()).filter(|f| !f.starts_with('n')).collect();
        let n = g.r.us(1, of.len().min(2));
        let mut of2 = of.clone();
        g.r.shuffle(&mut of2);
        of2.truncate(n);
        // catchments have to flow
        of2.retain(|f| !nodes.iter().any(|n| n.0 == *f && n.1 == "Catchment"));
        if of2.is_empty() {
            of2.push(ends[0].clone());
        }
        virt.push((format!("vs{k}"), t, of2));
    }
    let mut vsize = vec![];
    for (n, t, of) in &virt {
        let v = match *t {
            "AggregatedStorage" => g.stores.iter().filter(|s| of.contains(&s.0)).map(|s| s.2).sum(),
            "Aggregated" => {
                g.flows.push((n.clone(), if of[0].starts_with('d') { "Inflow" } else { "Outflow" }, true));
                0.0
            }
            _ => g.r.q(20.0, 400.0),
        };
        vsize.push(v);
    }
    for ((n, t, _), v) in virt.iter().zip(&vsize) {
        if *t != "Aggregated" {
            g.stores.push((n.clone(), true, *v));
        }
    }
    // An aggregated node has no default between inflow and outflow that both versions share.
    g.flows.retain(|f| !f.2);

    // parameters
    for _ in 0..g.r.us(0, 6) {
        match g.r.us(0, 9) {
            0 => {
                let (a, col, file) = g.frame();
                let name = g.new_name();
                g.pa.insert(name.clone(), json!(a));
                let ts = json!({"meta":{"name":name},"type":"Polars","time_col":"date","url":file});
                g.series.push(json!({"par":name,"ref":{"type":"Timeseries","name":name,"columns":col},"ts":ts}));
                g.fs.push(name);
            }
            1 | 2 => {
                let (p, max) = g.index_par(0);
                let name = g.global(p);
                g.is.push((name, max));
            }
            3 if !g.flows.is_empty() => {
                let f = g.r.pick(&g.flows.clone()).clone();
                let n = g.r.us(1, 4);
                let x = g.num();
                let t = g.ty("RollingMeanFlowNode");
                let p = V {
                    a: json!({"type":t,"node":f.0,"timesteps":n,"initial_flow":x}),
                    b: json!({"type":"Rolling","metric":flow(&f),"window_size":n,"initial_value":x,"agg_func":{"type":"Mean"}}),
                };
                let name = g.global(p);
                // both ways of treating an incomplete window are fine
                g.seen.push((name, if n == 1 { 0 } else { n }));
            }
            _ => {
                let p = g.par(0);
                let name = g.global(p);
                g.fs.push(name.clone());
                g.seen.push((name, 0));
            }
        }
    }
    for (i, max) in g.is.clone() {
        let v: Vec<f64> = (0..=max).map(|k| 10.0 * k as f64).collect();
        let t = g.ty("IndexedArray");
        let p = V { a: json!({"type":t,"index_parameter":i,"params":v}), b: json!({"type":"IndexedArray","index_parameter":{"type":"Parameter","name":i},"metrics":v.iter().map(|x| lit(*x)).collect::<Vec<_>>()}) };
        let n = g.global(p);
        g.seen.push((n, 0));
    }

    // nodes
    let mut na = vec![];
    let mut nb = vec![];
    let mut vb = vec![];
    for (n, t) in &nodes {
        g.kinds.push(t);
        let (mut a, mut b) = (json!({"name":n}), json!({"meta":{"name":n}}));
        let mut ty = t.to_string();
        match *t {
            "Input" => {
                b["type"] = json!("Input");
                g.opt(&mut a, &mut b, "max_flow", "max_flow", 1.0, |g| g.at_least(0.0, 60.0));
                g.opt(&mut a, &mut b, "cost", "cost", 0.5, |g| g.val(1));
                if g.r.chance(0.05) {
                    g.opt(&mut a, &mut b, "min_flow", "min_flow", 1.0, |g| g.at_least(0.0, 2.0));
                }
            }
            "Catchment" => {
                b["type"] = json!("Catchment");
                g.opt(&mut a, &mut b, "flow", "flow", 1.0, |g| g.at_least(0.0, 60.0));
                g.opt(&mut a, &mut b, "cost", "cost", 0.2, |g| g.val(1));
            }
            "Waste" => {
                ty = "Output".into();
                b["type"] = json!("Output");
            }
            "Output" => {
                b["type"] = json!("Output");
                g.opt(&mut a, &mut b, "max_flow", "max_flow", 1.0, |g| g.at_least(0.0, 60.0));
                g.opt(&mut a, &mut b, "cost", "cost", 0.9, |g| {
                    if g.r.chance(0.6) {
                        let x = -g.r.q(0.0, 30.0);
                        g.constant(x)
                    } else {
                        g.val(1)
                    }
                });
                if g.r.chance(0.05) {
                    g.opt(&mut a, &mut b, "min_flow", "min_flow", 1.0, |g| g.at_least(0.0, 2.0));
                }
            }
            "Link" | "BreakLink" => {
                b["type"] = json!("Link");
                g.opt(&mut a, &mut b, "max_flow", "max_flow", 0.5, |g| g.at_least(0.0, 60.0));
                g.opt(&mut a, &mut b, "cost", "cost", 0.4, |g| g.val(1));
                if g.r.chance(0.05) {
                    g.opt(&mut a, &mut b, "min_flow", "min_flow", 1.0, |g| g.at_least(0.0, 2.0));
                }
            }
            "RiverGauge" => {
                b["type"] = json!("RiverGauge");
                g.opt(&mut a, &mut b, "mrf", "mrf", 0.8, |g| g.at_least(0.0, 40.0));
                g.opt(&mut a, &mut b, "mrf_cost", "mrf_cost", 0.8, |g| g.val(1));
                g.opt(&mut a, &mut b, "cost", "bypass_cost", 0.4, |g| g.val(1));
            }
            "LossLink" => {
                b["type"] = json!("LossLink");
                g.opt(&mut a, &mut b, "max_flow", "max_net_flow", 0.5, |g| g.at_least(0.0, 60.0));
                g.opt(&mut a, &mut b, "cost", "net_cost", 0.4, |g| g.val(1));
                g.opt(&mut a, &mut b, "min_flow", "min_net_flow", 0.05, |g| g.at_least(0.0, 2.0));
                if g.r.chance(0.8) {
                    let x = g.r.q(0.0, 0.5);
                    a["loss_factor"] = json!(x);
                    b["loss_factor"] = json!({"type":"Net","factor":lit(x)});
                }
            }
            "River" => {
                b["type"] = json!("River");
            }
            "PiecewiseLink" => {
                b["type"] = json!("PiecewiseLink");
                let k = g.r.us(1, 3);
                a["nsteps"] = json!(k);
                let mut st: Vec<Value> = vec![json!({}); k];
                if g.r.chance(0.8) {
                    let mut l = vec![];
                    for s in st.iter_mut() {
                        let v = g.val(1);
                        l.push(v.a);
                        s["cost"] = v.b;
                    }
                    a["costs"] = json!(l);
                }
                if g.r.chance(0.8) {
                    let mut l = vec![];
                    for s in st.iter_mut() {
                        if g.r.chance(0.3) {
                            l.push(Value::Null);
                        } else {
                            let v = g.at_least(0.0, 30.0);
                            l.push(v.a);
                            s["max_flow"] = v.b;
                        }
                    }
                    a["max_flows"] = json!(l);
                }
                b["steps"] = json!(st);
            }
            "Delay" => {
                ty = "DelayNode".into();
                b["type"] = json!("Delay");
                let k = g.r.us(1, 3);
                // a delay in days is only meant for steps of one day
                a[if days == 1 { *g.r.pick(&["days", "timesteps"]) } else { "timesteps" }] = json!(k);
                b["delay"] = json!({"type":"Literal","value":k});
                b["initial_value"] = lit(0.0);
                if g.r.chance(0.6) {
                    let x = g.r.q(0.0, 20.0);
                    a["initial_flow"] = json!(x);
                    b["initial_value"] = lit(x);
                }
                if days != 1 {
                    a.as_object_mut().unwrap().remove("days");
                    a["timesteps"] = json!(k);
                }
            }
            "Storage" | "Reservoir" => {
                b["type"] = json!("Storage");
                let v = g.stores.iter().find(|s| s.0 == *n).unwrap().2;
                store(&mut g, &mut a, &mut b, v);
            }
            "RiverSplitWithGauge" => {
                b["type"] = json!("RiverSplitWithGauge");
                g.opt(&mut a, &mut b, "mrf", "mrf", 0.8, |g| g.at_least(0.0, 40.0));
                g.opt(&mut a, &mut b, "mrf_cost", "mrf_cost", 0.8, |g| g.val(1));
                let (x, y) = (g.r.q(0.5, 5.0), g.r.q(0.5, 5.0));
                a["factors"] = json!([x, y]);
                a["slot_names"] = json!(["river", "abstraction"]);
                b["splits"] = json!([{"factor":lit(y / (y + x)),"slot_name":"abstraction"}]);
            }
            _ => unreachable!(),
        }
        if g.r.chance(0.3) {
            ty = ty.to_lowercase();
        }
        a["type"] = json!(ty);
        if g.r.chance(0.2) {
            let x = g.num() as f32;
            a["position"] = json!({"schematic":[x, 1.5]});
            b["meta"]["position"] = json!({"schematic":[x, 1.5]});
        }
        if g.r.chance(0.2) {
            a["comment"] = json!("some words");
            b["meta"]["comment"] = json!("some words");
        }
        if g.r.chance(0.1) {
            a["tags"] = json!({"k":"v"});
            b["meta"]["tags"] = json!({"k":"v"});
        }
        na.push(a);
        nb.push(b);
    }
    for ((n, t, of), size) in virt.iter().zip(&vsize) {
        g.kinds.push(t);
        let (mut a, mut b) = (json!({"name":n}), json!({"meta":{"name":n}}));
        let refs: Vec<Value> = of.iter().map(|n| json!({"name":n})).collect();
        let mut ty = t.to_string();
        match *t {
            "AggregatedStorage" => {
                a["storage_nodes"] = json!(of);
                b["storage_nodes"] = json!(refs);
                b["type"] = json!("AggregatedStorage");
            }
            "Aggregated" => {
                ty = "AggregatedNode".into();
                a["nodes"] = json!(of);
                b["nodes"] = json!(refs);
                b["type"] = json!("Aggregated");
                let cat = of.iter().any(|o| nodes.iter().any(|n| n.0 == *o && n.1 == "Catchment"));
                if !cat {
                    g.opt(&mut a, &mut b, "max_flow", "max_flow", 0.7, |g| g.at_least(0.0, 80.0));
                    if g.r.chance(0.1) {
                        g.opt(&mut a, &mut b, "min_flow", "min_flow", 1.0, |g| g.at_least(0.0, 2.0));
                    }
                    if g.r.chance(0.5) {
                        let f: Vec<f64> = of.iter().map(|_| g.r.q(0.5, 4.0)).collect();
                        a["factors"] = json!(f);
                        b["relationship"] = json!({"type":"Ratio","factors":f.iter().map(|x| lit(*x)).collect::<Vec<_>>()});
                    }
                }
            }
            _ => {
                b["type"] = json!("VirtualStorage");
                a["nodes"] = json!(of);
                b["nodes"] = json!(refs);
                if g.r.chance(0.6) {
                    let f: Vec<f64> = of.iter().map(|_| g.r.q(0.5, 2.0)).collect();
                    a["factors"] = json!(f);
                    b["factors"] = json!(f);
                }
                store(&mut g, &mut a, &mut b, *size);
                if *t == "RollingVirtualStorage" {
                    let k = g.r.us(2, 5);
                    if g.r.chance(0.5) {
                        a["days"] = json!(k * days);
                        b["window"] = json!({"type":"Days","days":k * days});
                    } else {
                        a["timesteps"] = json!(k);
                        b["window"] = json!({"type":"Timesteps","timesteps":k});
                    }
                } else if *t != "VirtualStorage" {
                    b["reset_volume"] = json!("Max");
                    match g.r.us(0, 2) {
                        0 => {
                            a["reset_to_initial_volume"] = json!(true);
                            b["reset_volume"] = json!("Initial");
                        }
                        1 => a["reset_to_initial_volume"] = json!(false),
                        _ => {}
                    }
                    if *t == "MonthlyVirtualStorage" {
                        let k = g.r.us(1, 3);
                        b["reset"] = json!({"type":"Monthly","months":k});
                        if k > 1 || g.r.chance(0.5) {
                            a["months"] = json!(k);
                        }
                    } else {
                        // near the beginning of the run, so that it happens
                        let (d, m) = if g.r.chance(0.3) { (1, 1) } else { let x = first.checked_add(jiff::Span::new().days(g.r.us(0, days * steps) as i64)).unwrap(); (x.day().min(28) as usize, x.month() as usize) };
                        if (d, m) != (1, 1) || g.r.chance(0.5) {
                            a["reset_day"] = json!(d);
                            a["reset_month"] = json!(m);
                        }
                        b["reset"] = json!({"type":"Annual","day":d,"month":m});
                        if *t == "SeasonalVirtualStorage" {
                            let (e, f) = if g.r.chance(0.4) { (31, 12) } else { (g.r.us(1, 28), g.r.us(1, 12)) };
                            if (e, f) != (31, 12) || g.r.chance(0.5) {
                                a["end_day"] = json!(e);
                                a["end_month"] = json!(f);
                            }
                            b["reset"] = json!({"type":"Seasonal","start_day":d,"start_month":m,"end_day":e,"end_month":f});
                        }
                    }
                }
            }
        }
        if g.r.chance(0.3) {
            ty = ty.to_lowercase();
        }
        a["type"] = json!(ty);
        extra.push((n.clone(), a, b));
    }
    // virtual nodes may be anywhere among the nodes
    for (_, a, b) in extra {
        let i = g.r.us(0, na.len());
        na.insert(i, a);
        vb.push((i, b));
    }
    // those that were inserted later in front of others come first
    let order: Vec<String> = na.iter().map(|a| a["name"].as_str().unwrap().to_string()).collect();
    vb.sort_by_key(|(_, b)| order.iter().position(|n| *n == b["meta"]["name"]));
    let vb: Vec<Value> = vb.into_iter().map(|v| v.1).collect();

    let ts = if days > 1 && g.r.chance(0.4) { json!(format!("{days}d")) } else { json!(days) };
    let tb = if ts.is_string() { json!({"type":"Frequency","freq":ts}) } else { json!({"type":"Days","days":days}) };
    let mut a = json!({"metadata":{"title":"a title","description":"words","minimum_version":"0.1"},"timestepper":{"start":first.to_string(),"end":last.to_string(),"timestep":ts},
        "nodes":na,"edges":ea});
    if !g.pa.is_empty() || g.r.chance(0.5) {
        a["parameters"] = json!(g.pa);
    }
    let mut b = json!({"metadata":{"title":"a title","description":"words","minimum_version":"0.1"},"time":{"start":first.to_string(),"end":last.to_string(),"timestep":tb},
        "network":{"nodes":nb,"edges":eb,"virtual_nodes":vb,"parameters":g.pb,"timeseries":g.series.iter().map(|s| s["ts"].clone()).collect::<Vec<_>>()}});
    if ng > 0 {
        a["scenarios"] = json!(sa);
        b["scenarios"] = json!({"groups":sb});
        if let Some(c) = combos {
            a["scenario_combinations"] = json!(c);
            b["scenarios"]["combinations"] = json!(c);
        }
    }
    (a, b, g.csv, g.seen, g.kinds)
}

fn store(g: &mut G, a: &mut Value, b: &mut Value, v: f64) {
    if g.r.chance(0.3) {
        let t = g.ty("Constant");
        let p = V { a: json!({"type":t,"value":v}), b: json!({"type":"Constant","value":lit(v)}) };
        let p = g.inline(p);
        a["max_volume"] = p.a;
        b["max_volume"] = p.b;
    } else {
        a["max_volume"] = json!(v);
        b["max_volume"] = lit(v);
    }
    if g.r.chance(0.3) {
        let x = g.r.q(0.0, v * 0.2);
        a["min_volume"] = json!(x);
        b["min_volume"] = lit(x);
    }
    g.opt(a, b, "cost", "cost", 0.5, |g| g.val(1));
    let x = g.r.q(0.25, 1.0);
    if g.r.chance(0.5) {
        a["initial_volume"] = json!(x * v);
        b["initial_volume"] = json!({"type":"Absolute","volume":x * v});
    } else {
        a["initial_volume_pc"] = json!(x);
        b["initial_volume"] = json!({"type":"Proportional","proportion":x});
    }
}

fn trace(text: &str, dir: &std::path::Path, seen: &[(String, usize)]) -> Result<(Trace, Option<RunErr>), String> {
    let m = ModelSchema::from_str(text).map_err(|e| e.to_string())?;
    let mb = m.create_model_builder(Some(dir), None).map_err(|e| format!("{e:?}"))?;
    let probes = seen.iter().map(|(n, _)| (n.clone(), UM::new_parameter_before(n.as_str()))).collect();
    let (model, out) = run::build(mb, probes).map_err(|e| e.text())?;
    let res = run::exec(&model, SolverSel::Highs).err();
    let tr = out.lock().unwrap().clone();
    Ok((tr, res))
}

/// Convert a file of version 1.
fn convert(a: &Value) -> Result<(Value, Vec<(String, String)>), crate::fw::Violation> {
    let (m, errors) = guard(|| ModelSchema::from_v1_str(&a.to_string())).map_err(|p| viol("panic", format!("conversion: {p}")))?.map_err(|e| viol("v1-refused", e.to_string()))?;
    let j = serde_json::to_value(&m).map_err(|e| viol("v1-serialise", e.to_string()))?;
    // each error with the component that it is about
    let named = |e: &ComponentConversionError| match e {
        ComponentConversionError::Node { name, .. } => format!("node {name}"),
        ComponentConversionError::Parameter { name, .. } => format!("parameter {name}"),
        ComponentConversionError::Table { name, .. } => format!("table {name}"),
        ComponentConversionError::Edge { from_node, to_node, .. } => format!("edge {from_node} {to_node}"),
        ComponentConversionError::Scenarios { .. } => "scenarios".to_string(),
    };
    Ok((j, errors.iter().map(|e| (named(e), format!("{e:?}"))).collect()))
}

/// Something that this version does not have or that is not complete: what it is, where it goes, and how it is written.
pub fn bad(r: &mut Rng, node: &str, store: Option<&str>) -> Option<(String, &'static str, Value)> {
    let st = store.unwrap_or("nowhere");
    let prof: Vec<f64> = vec![1.0; 12];
    let unsupported = r.pick(&[json!({"type":"mything","x":1}), json!({"type":"deficit","node":node}), json!({"type":"flow","node":node}), json!({"type":"storage","storage_node":st})]).clone();
    let all: Vec<(&str, &'static str, Value)> = vec![
        ("custom node", "n", json!({"type":"MyNode","x":1})),
        ("multi split", "n", json!({"type":"MultiSplitLink","factors":[1.0,2.0],"slot_names":["a","b"]})),
        ("river split", "n", json!({"type":"RiverSplit","factors":[1.0,2.0],"slot_names":["a","b"]})),
        ("node tags", "n", json!({"type":"Link","tags":{"a":r.us(0, 3)}})),
        ("no initial volume", "n", json!({"type":"Storage","max_volume":10.0})),
        ("unsupported cost", "n", json!({"type":"Link","cost":unsupported})),
        ("unsupported max flow", "n", json!({"type":"Output","max_flow":{"type":"max","parameter":unsupported,"threshold":1.0}})),
        ("unsupported step", "n", json!({"type":"PiecewiseLink","nsteps":2,"costs":[1.0, unsupported]})),
        ("fewer costs", "n", json!({"type":"PiecewiseLink","nsteps":3,"costs":[1.0, 2.0]})),
        ("more flows", "n", json!({"type":"PiecewiseLink","nsteps":1,"max_flows":[1.0, 2.0]})),
        ("no delay", "n", json!({"type":"DelayNode"})),
        ("negative delay", "n", json!({"type":"DelayNode","timesteps":-1 - r.int(0, 5)})),
        ("split cost", "n", json!({"type":"RiverSplitWithGauge","cost":1.0,"factors":[1.0,2.0],"slot_names":["a","b"]})),
        ("split names", "n", json!({"type":"RiverSplitWithGauge","factors":[1.0,2.0,3.0],"slot_names":["a","b"]})),
        ("split factors", "n", json!({"type":"RiverSplitWithGauge","factors":[1.0,{"type":"monthlyprofile","values":prof}],"slot_names":["a","b"]})),
        ("flow weights", "n", json!({"type":"AggregatedNode","nodes":[node],"max_flow":100.0,"flow_weights":[2.0]})),
        ("empty window", "n", json!({"type":"RollingVirtualStorage","nodes":[node],"max_volume":10.0,"initial_volume":1.0,"days":0})),
        ("negative window", "n", json!({"type":"RollingVirtualStorage","nodes":[node],"max_volume":10.0,"initial_volume":1.0,"timesteps":-3})),
        ("no window", "n", json!({"type":"RollingVirtualStorage","nodes":[node],"max_volume":10.0,"initial_volume":1.0})),
        ("custom parameter", "p", json!({"type":"mything","x":1})),
        ("deficit", "p", json!({"type":"deficit","node":node})),
        ("flow", "p", json!({"type":"flow","node":node})),
        ("storage", "p", json!({"type":"storage","storage_node":st})),
        ("scenario wrapper", "p", json!({"type":"ScenarioWrapper","scenario":"g0","parameters":[1.0]})),
        ("year threshold", "p", json!({"type":"CurrentYearThreshold","threshold":2016.0,"values":[0.0,1.0]})),
        ("day threshold", "p", json!({"type":"CurrentOrdinalDayThreshold","threshold":2016.0,"values":[0.0,1.0]})),
        ("parameter tags", "p", json!({"type":"constant","value":1.0,"tags":{"a":[1]}})),
        ("external constant", "p", json!({"type":"constant","url":"other.csv","column":"a","index":"b"})),
        ("external profile", "p", json!({"type":"monthlyprofile","url":"other.csv","index":"b"})),
        ("external scenarios", "p", json!({"type":"constantscenario","scenario":"g0","url":"other.csv"})),
        ("no values", "p", json!({"type":*r.pick(&["monthlyprofile", "dailyprofile", "weeklyprofile"])})),
        ("both values", "p", json!({"type":"controlcurveinterpolated","storage_node":st,"control_curve":0.5,"values":[1.0,2.0,3.0],"parameters":[1.0,2.0,3.0]})),
        ("no curve values", "p", json!({"type":"controlcurveinterpolated","storage_node":st,"control_curve":0.5})),
        ("no curves", "p", json!({"type":*r.pick(&["controlcurve", "controlcurveinterpolated"]),"storage_node":st,"values":[1.0,2.0]})),
        ("nested", "p", json!({"type":"aggregated","agg_func":"sum","parameters":[1.0, {"type":"negative","parameter":unsupported}]})),
        ("nested index", "p", json!({"type":"aggregatedindex","agg_func":"sum","parameters":[unsupported]})),
        ("index of number", "p", json!({"type":"aggregatedindex","agg_func":"sum","parameters":[1.5]})),
        ("three values", "p", json!({"type":"parameterthreshold","parameter":1.0,"threshold":2.0,"values":[1.0,2.0,3.0]})),
        ("one value", "p", json!({"type":"storagethreshold","storage_node":st,"threshold":2.0,"values":[1.0]})),
        ("node values", "p", json!({"type":"nodethreshold","node":node,"threshold":2.0,"values":[1.0]})),
        ("rbf", "p", json!({"type":"rbfprofile","days_of_year":[1, 100, 200],"values":[1.0, 2.0, 3.0],"rbf_kwargs":r.pick(&[json!({"smooth":0.1}), json!({"norm":"euclidean"}), json!({"function":"quintic"}), json!({"function":1}), json!({"epsilon":"a"})])})),
        ("rbf limits", "p", json!({"type":"rbfprofile","days_of_year":[1, 100, 200],"values":[1.0, 2.0, 3.0],(*r.pick(&["min_value", "max_value"])):2.0,"rbf_kwargs":{}})),
        ("rbf values", "p", json!({"type":"rbfprofile","days_of_year":[1, 100, 200],"values":[1.0, 2.0],"rbf_kwargs":{}})),
        ("interpolation", "p", json!({"type":*r.pick(&["interpolatedvolume", "interpolatedflow"]),"node":node,"volumes":[1.0, 2.0],"flows":[1.0, 2.0],"values":[1.0,2.0],"interp_kwargs":{"kind":"cubic"}})),
        ("rolling days", "p", json!({"type":"rollingmeanflownode","node":node,"days":3})),
        ("rolling both", "p", json!({"type":"rollingmeanflownode","node":node,"days":3,"timesteps":3})),
        ("rolling none", "p", json!({"type":"rollingmeanflownode","node":node})),
        ("rolling negative", "p", json!({"type":"rollingmeanflownode","node":node,"timesteps":-2})),
        ("series column", "p", json!({"type":"dataframe","url":"a.csv","column":"a","scenario":"g0"})),
        ("series source", "p", json!({"type":"dataframe","column":"a"})),
        ("series offset", "p", json!({"type":"dataframe","url":"a.csv","column":"a","timestep_offset":1})),
        ("series checksum", "p", json!({"type":"dataframe","url":"a.csv","column":"a","checksum":{"crc":"00"}})),
        ("table", "t", json!({"url":"a.csv"})),
        ("slot", "e", json!([node, node, "somewhere", null])),
        ("step", "s", json!({"name":"zbad","size":3,"slice":[0, 3, 0]})),
    ];
    let (what, place, v) = r.pick(&all).clone();
    if v.to_string().contains("nowhere") {
        return None;
    }
    Some((what.to_string(), place, v))
}

/// Components that can not be converted are named and all others are as they are without them.
fn c25_bad(c: &mut Case, a: &Value, plain: &Value) -> Res {
    let first = a["nodes"].as_array().unwrap().iter().find(|n| n["type"].as_str().unwrap().to_lowercase() == "output").unwrap()["name"].as_str().unwrap().to_string();
    let store = plain["network"]["nodes"].as_array().unwrap().iter().find(|n| n["type"] == "Storage").map(|n| n["meta"]["name"].as_str().unwrap().to_string());
    let mut a = a.clone();
    let mut placed: Vec<(String, &str, String)> = vec![];
    for i in 0..c.rng.int(1, 4) {
        let Some((what, place, v)) = bad(&mut c.rng, &first, store.as_deref()) else { continue };
        let name = format!("zbad{i}");
        let mut v = v;
        let mut about = format!("node {name}");
        match place {
            "n" => {
                v["name"] = json!(name);
                let at = c.rng.us(0, a["nodes"].as_array().unwrap().len());
                a["nodes"].as_array_mut().unwrap().insert(at, v);
            }
            "p" => {
                if a.get("parameters").is_none() {
                    a["parameters"] = json!({});
                }
                a["parameters"][&name] = v;
                about = format!("parameter {name}");
            }
            "t" => {
                if a.get("tables").is_none() {
                    a["tables"] = json!({});
                }
                a["tables"][&name] = v;
                about = format!("table {name}");
            }
            "e" => {
                // to a node with named slots
                if !a["nodes"].as_array().unwrap().iter().any(|n| n["type"].as_str().unwrap().to_lowercase() == "riversplitwithgauge") || placed.iter().any(|p| p.1 == "e") {
                    continue;
                }
                a["edges"].as_array_mut().unwrap().push(v);
                about = format!("edge {first} {first}");
            }
            _ => {
                if a.get("scenario_combinations").is_some() || placed.iter().any(|p| p.1 == "s") {
                    continue;
                }
                if a.get("scenarios").is_none() {
                    a["scenarios"] = json!([]);
                }
                a["scenarios"].as_array_mut().unwrap().push(v);
                about = "scenarios".to_string();
            }
        }
        placed.push((what, place, about));
    }
    if placed.is_empty() {
        return Ok(());
    }
    c.desc["v1"] = a.clone();
    let (j, errors) = convert(&a)?;
    c.count("components that can not be converted", placed.len() as u64);
    let what = placed.iter().map(|p| p.0.as_str()).collect::<Vec<_>>().join(", ");
    for (what, place, about) in &placed {
        c.seen(("bad", what.clone()));
        let own = |e: &str| e == about || *place == "p" && e.strip_prefix(about.as_str()).is_some_and(|rest| !rest.starts_with(|ch: char| ch.is_ascii_digit()));
        ensure!(errors.iter().any(|e| own(&e.0)), "unreported", "{what}: converted without an error about {about}: {errors:?}");
    }
    for e in &errors {
        ensure!(placed.iter().any(|p| e.0.starts_with(p.2.as_str())), "unnamed", "{what}: {e:?} does not name a component that is defective");
    }
    let place = if placed.iter().any(|p| p.1 == "s") { "s" } else { "" };
    // an edge with a name that is not known is still an edge of this version
    for part in ["nodes", "virtual_nodes", "parameters", "timeseries", "edges"] {
        let empty = vec![];
        let x = j["network"][part].as_array().unwrap_or(&empty);
        let y = plain["network"][part].as_array().unwrap_or(&empty);
        let mut k = 0;
        for n in y {
            while k < x.len() && x[k] != *n {
                let m = &x[k];
                // extracted from the component itself
                let own = m["meta"]["name"].as_str().is_some_and(|m| m.starts_with("zbad") || m.starts_with("unnamed"));
                ensure!(own, "others", "{what}: {m} where {n} was expected in {part}");
                k += 1;
            }
            ensure!(k < x.len(), "others", "{what}: {n} is missing from {part}");
            k += 1;
        }
        ensure!(part == "timeseries" || !x.iter().any(|m| m["meta"]["name"].as_str().is_some_and(|n| n.strip_prefix("zbad").is_some_and(|d| d.len() == 1))), "kept", "{what}: the component is in {part} all the same");
    }
    if place != "s" {
        ensure!(j["scenarios"] == plain["scenarios"], "others", "{what}: scenarios {} instead of {}", j["scenarios"], plain["scenarios"]);
    }
    ensure!(j["time"] == plain["time"], "others", "{what}: time {} instead of {}", j["time"], plain["time"]);
    Ok(())
}

fn c25(c: &mut Case) -> Res {
    let thorough = c.thorough;
    let (a, b, csv, seen, kinds) = model(&mut c.rng, thorough);
    c.desc = json!({"v1": a, "v2": b});
    let dir = c.scratch.clone();
    for (f, text) in &csv {
        std::fs::write(dir.join(f), text).unwrap();
    }
    let (mut j, errors) = convert(&a)?;
    ensure!(errors.is_empty(), "error", "conversion of a complete model gives {errors:?}");
    if c.rng.chance(0.6) {
        c25_bad(c, &a, &j)?;
        c.desc["v1"] = a.clone();
    }
    // what does not take part in the run
    ensure!(j["metadata"] == b["metadata"], "metadata", "{} instead of {}", j["metadata"], b["metadata"]);
    for n in b["network"]["nodes"].as_array().unwrap() {
        let m = j["network"]["nodes"].as_array().unwrap().iter().find(|m| m["meta"]["name"] == n["meta"]["name"]);
        let Some(m) = m else { return Err(viol("missing", format!("no node {}", n["meta"]["name"]))) };
        for k in ["comment", "tags", "position"] {
            ensure!(m["meta"][k] == n["meta"][k] || k == "position" && m["meta"][k]["schematic"] == n["meta"][k]["schematic"], "meta", "node {}: {k} is {} instead of {}", n["meta"]["name"], m["meta"][k], n["meta"][k]);
        }
    }
    // series are read with pandas, which there may not be; the same files are read in another way instead
    if let Some(ts) = j["network"]["timeseries"].as_array_mut() {
        ensure!(ts.len() == csv.len(), "series", "{} series from {} files", ts.len(), csv.len());
        for t in ts {
            ensure!(t["type"] == "Pandas" && t["time_col"] == "date" && t["kwargs"].as_object().is_none_or(|k| k.is_empty()), "series", "{t}");
            *t = json!({"type":"Polars","meta":t["meta"],"time_col":"date","url":t["url"]});
        }
    }
    let y = trace(&b.to_string(), &dir, &seen).map_err(|e| viol("harness", format!("the model of this version: {e}")))?;
    let x = trace(&j.to_string(), &dir, &seen).map_err(|e| viol("not-buildable", format!("the converted model: {e}\n{j}")))?;
    ensure!(x.1.is_some() == y.1.is_some() && x.0.steps.len() == y.0.steps.len(), "outcome", "converted: {:?} after {} steps; directly: {:?} after {}", x.1, x.0.steps.len(), y.1, y.0.steps.len());
    if y.1.is_some() {
        c.count("stopped", 1);
    }
    if y.0.steps.is_empty() {
        return Ok(());
    }
    let (x, y) = (x.0, y.0);
    ensure!(x.scenarios == y.scenarios, "scenarios", "{:?} instead of {:?}", x.scenarios, y.scenarios);
    ensure!(x.nodes == y.nodes && x.edges == y.edges && x.vs == y.vs, "structure", "nodes {:?} instead of {:?}", x.nodes, y.nodes);
    for (p, q) in x.steps.iter().zip(&y.steps) {
        ensure!(p.date == q.date && p.days == q.days, "time", "{} instead of {}", p.date, q.date);
        for (s, (u, v)) in p.scen.iter().zip(&q.scen).enumerate() {
            for (i, (n, from)) in seen.iter().enumerate() {
                if p.index >= *from {
                    ensure!(same(u.m[i], v.m[i]), "parameter", "{n} is {} instead of {} in scenario {s} on {}", u.m[i], v.m[i], p.date);
                    c.count("parameter values", 1);
                }
            }
            for (what, f, g) in [("inflow", &u.inflow, &v.inflow), ("outflow", &u.outflow, &v.outflow), ("volume", &u.vol, &v.vol), ("virtual volume", &u.vs, &v.vs)] {
                for (i, (f, g)) in f.iter().zip(g).enumerate() {
                    ensure!(same(*f, *g), "state", "{what} {i} ({:?}) is {f} instead of {g} in scenario {s} on {}", x.nodes.get(i), p.date);
                    c.count("node values", 1);
                }
            }
        }
    }
    for k in &kinds {
        c.seen(k);
        c.count(&format!("type {k}"), 1);
    }
    let mut k2 = kinds.clone();
    k2.sort();
    k2.dedup();
    c.seen((k2, x.scenarios.len(), x.steps.len()));
    Ok(())
}

fn same(x: f64, y: f64) -> bool {
    x == y || x.is_nan() && y.is_nan() || (x - y).abs() <= 1e-6 * (1.0 + y.abs())
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C25", rule: "distinct types of components, and combinations of them with numbers of scenarios and steps", assumptions: &[], quick: 3000, thorough: 60000, random: c25, directed: &[], threads: 8 }]
}
