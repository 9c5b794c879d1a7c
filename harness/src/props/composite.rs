//! Composite nodes (C22) and the quantities their attributes and components stand for (C23).
//!
//! Every composite is expanded here, from its documentation, into basic nodes with time-varying bounds, edges and
//! linear relations. The real model is built from the composite's JSON; the monitor compares the network that was
//! built with the documented one, and in every step decides whether the flows satisfy the documented constraints,
//! whether their cost is the optimum of the documented allocation problem, and whether storage and routing state
//! evolve as documented.
use super::alloc::solver_precision;
use crate::ensure;
use crate::fw::{Case, Prop, Res, Rng, close, viol};
use crate::lp::{Lp, Sol};
use crate::run::{self, RunErr, SolverSel, Trace};
use jiff::ToSpan;
use jiff::civil::{Date, date};
use ndarray::Array1;
use pywr_core::metric::UnresolvedMetricF64 as UM;
use pywr_core::models::ModelBuilder;
use pywr_core::parameters as cp;
use pywr_schema::ModelSchema;
use serde_json::{Value, json};
use std::str::FromStr;

#[derive(Clone, Debug)]
pub enum V {
    C(f64),
    A(String, Vec<f64>),
}
impl V {
    fn at(&self, t: usize) -> f64 {
        match self {
            V::C(x) => *x,
            V::A(_, v) => v[t],
        }
    }
    pub fn json(&self) -> Value {
        match self {
            V::C(x) => json!({"type":"Literal","value":x}),
            V::A(n, _) => json!({"type":"Parameter","name":n}),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K {
    In,
    Out,
    Link,
    Store,
}

#[derive(Clone, Debug)]
enum Area {
    Interp(Vec<(f64, f64)>),
    Poly(Vec<f64>),
}
impl Area {
    fn at(&self, x: f64) -> f64 {
        match self {
            Area::Poly(c) => c.iter().enumerate().map(|(i, c)| c * x.powi(i as i32)).sum(),
            Area::Interp(p) => {
                for w in p.windows(2) {
                    if x <= w[1].0 {
                        let f = (x - w[0].0) / (w[1].0 - w[0].0);
                        return w[0].1 + f * (w[1].1 - w[0].1);
                    }
                }
                p.last().unwrap().1
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Bd {
    None,
    V(V),
    /// flow into `node` `n` steps ago
    Delay { node: usize, n: usize, init: f64 },
    /// depth x surface area of the store at the start of the step
    Surface { depth: V, store: usize, area: Area, proportional: bool, max_area: bool },
    Hydro(Hydro),
    /// zone between two control curves
    Zone { total: V, lo: Option<V>, up: Option<V> },
    /// part of the total minimum volume which falls in this zone
    ZoneMin { min: V, total: V, curves: Vec<V>, i: usize },
}

#[derive(Clone, Debug)]
struct Hydro {
    target: V,
    elev: Option<V>,
    turbine: f64,
    min_head: f64,
    eff: f64,
    dens: f64,
    fc: f64,
    ec: f64,
}
impl Hydro {
    fn head(&self, t: usize) -> f64 {
        match &self.elev {
            Some(e) => e.at(t) - self.turbine,
            None => self.turbine,
        }
    }
    fn k(&self) -> f64 {
        self.ec * self.dens * 9.81 * self.eff * self.fc
    }
}

#[derive(Clone, Debug)]
struct Nd {
    name: String,
    sub: Option<String>,
    kind: K,
    lo: Bd,
    hi: Bd,
    cost: Option<V>,
    init: f64,
}

#[derive(Clone, Debug)]
enum Rel {
    /// b is a proportion of a + b
    Prop(usize, usize, V),
    /// b is a multiple of a
    Ratio(Vec<usize>, Vec<usize>, V),
    Sum(Vec<usize>, Option<V>, Option<V>),
    Musk { inp: usize, out: usize, k: V, x: V, init: Option<(f64, f64)> },
}

#[derive(Clone, Debug)]
pub enum Ex {
    In(Vec<usize>),
    Out(Vec<usize>),
    Zero,
    Vol(Vec<usize>),
    MaxVol(usize),
    PropVol(Vec<usize>),
    Power(usize, Hydro),
    Deficit(usize, V),
}

#[derive(Default, Clone, Debug)]
pub struct M {
    start: Option<Date>,
    steps: usize,
    days: usize,
    nodes: Vec<Nd>,
    edges: Vec<(usize, usize)>,
    rels: Vec<Rel>,
    pub arrays: Vec<(String, Vec<f64>)>,
    jnodes: Vec<Value>,
    jedges: Vec<Value>,
    jvirt: Vec<Value>,
    jparams: Vec<Value>,
    /// probe name, what, expected
    pub attrs: Vec<(String, String, Ex)>,
    /// node name, component, nodes; may be aggregated
    comps: Vec<(String, Option<&'static str>, Vec<usize>)>,
    stores: Vec<(String, Vec<usize>)>,
    /// (name, [(nodes, factor)], max volume)
    vs: Vec<(String, Vec<(Vec<usize>, f64)>, f64)>,
    kinds: Vec<&'static str>,
}

/// connectors of a composite
struct Conn {
    name: String,
    ins: Vec<usize>,
    /// slot, connectors; the first is the default
    outs: Vec<(Option<Value>, Vec<usize>)>,
    /// an inflow is optional (e.g. reservoirs can start full)
    #[allow(dead_code)]
    store: bool,
}

struct G<'a> {
    r: &'a mut Rng,
    m: M,
}

fn put(j: &mut Value, key: &str, v: &Option<V>) {
    if let Some(v) = v {
        j[key] = v.json();
    }
}

impl G<'_> {
    fn v(&mut self, lo: f64, hi: f64) -> V {
        let one = |r: &mut Rng| (r.f(lo, hi) * 64.0).round() / 64.0;
        if self.r.chance(0.45) {
            let a: Vec<f64> = (0..self.m.steps).map(|_| one(self.r)).collect();
            let n = format!("a{}", self.m.arrays.len());
            self.m.arrays.push((n.clone(), a.clone()));
            V::A(n, a)
        } else {
            V::C(one(self.r))
        }
    }
    fn ov(&mut self, p: f64, lo: f64, hi: f64) -> Option<V> {
        if self.r.chance(p) { Some(self.v(lo, hi)) } else { None }
    }
    fn node(&mut self, name: &str, sub: Option<&str>, kind: K, lo: Bd, hi: Bd, cost: Option<V>) -> usize {
        self.m.nodes.push(Nd { name: name.into(), sub: sub.map(|s| s.into()), kind, lo, hi, cost, init: 0.0 });
        self.m.nodes.len() - 1
    }
    fn b(v: &Option<V>) -> Bd {
        match v {
            Some(v) => Bd::V(v.clone()),
            None => Bd::None,
        }
    }
    fn attr(&mut self, node: &str, attr: Option<&str>, ex: Ex) {
        let p = format!("probe{}", self.m.attrs.len());
        let mut mj = json!({"type":"Node","name":node});
        if let Some(a) = attr {
            mj["attribute"] = json!(a);
        }
        self.m.jparams.push(json!({"meta":{"name":p},"type":"Aggregated","phase":"After","agg_func":{"type":"Sum"},"metrics":[mj]}));
        self.m.attrs.push((p, format!("{node}.{}", attr.unwrap_or("(default)")), ex));
    }
    fn vattr(&mut self, node: &str, attr: Option<&str>, ex: Ex) {
        let p = format!("probe{}", self.m.attrs.len());
        let mut mj = json!({"type":"VirtualNode","name":node});
        if let Some(a) = attr {
            mj["attribute"] = json!(a);
        }
        self.m.jparams.push(json!({"meta":{"name":p},"type":"Aggregated","phase":"After","agg_func":{"type":"Sum"},"metrics":[mj]}));
        self.m.attrs.push((p, format!("{node}.{}", attr.unwrap_or("(default)")), ex));
    }
    fn comp(&mut self, node: &str, c: Option<&'static str>, n: Vec<usize>) {
        self.m.comps.push((node.into(), c, n));
    }

    /// Loss factor JSON; adds the relation or the zero bound.
    fn loss(&mut self, j: &mut Value, name: &str, net: usize) -> Option<usize> {
        if self.r.chance(0.2) {
            return None;
        }
        let zero = self.r.chance(0.15);
        let gross = self.r.chance(0.5);
        let f = if zero { V::C(0.0) } else { self.v(0.05, if gross { 0.7 } else { 1.5 }) };
        let loss = self.node(name, Some("loss"), K::Out, Bd::None, if zero { Bd::V(V::C(0.0)) } else { Bd::None }, None);
        j["loss_factor"] = json!({"type": if gross {"Gross"} else {"Net"}, "factor": f.json()});
        if !zero {
            self.m.rels.push(if gross { Rel::Prop(net, loss, f) } else { Rel::Ratio(vec![net], vec![loss], f) });
        }
        Some(loss)
    }

    fn composite(&mut self, i: usize, kind: usize) -> Conn {
        let name = format!("X{i}");
        let n = name.as_str();
        let mut j = json!({"meta":{"name":n}});
        let c = match kind {
            0 => {
                self.m.kinds.push("Link");
                j["type"] = json!("Link");
                let cost = self.ov(0.8, -20.0, 20.0);
                let max = self.ov(0.6, 10.0, 60.0);
                let min = self.ov(0.15, 0.0, 5.0);
                put(&mut j, "cost", &cost);
                put(&mut j, "max_flow", &max);
                put(&mut j, "min_flow", &min);
                let (smin, smax) = (self.r.chance(0.65), self.r.chance(0.65));
                let (mut a, mut b) = ((None, None), (None, None));
                if smin {
                    a = (self.ov(0.85, 0.0, 30.0), self.ov(0.85, -30.0, 5.0));
                    let mut s = json!({});
                    put(&mut s, "flow", &a.0);
                    put(&mut s, "cost", &a.1);
                    j["soft_min"] = s;
                }
                if smax {
                    b = (self.ov(0.85, 5.0, 40.0), self.ov(0.85, -5.0, 30.0));
                    let mut s = json!({});
                    put(&mut s, "flow", &b.0);
                    put(&mut s, "cost", &b.1);
                    j["soft_max"] = s;
                }
                let all = match (smin, smax) {
                    (false, false) => vec![self.node(n, None, K::Link, Self::b(&min), Self::b(&max), cost)],
                    (true, false) => {
                        let l = self.node(n, None, K::Link, Bd::None, Bd::None, cost);
                        let s = self.node(n, Some("soft_min"), K::Link, Bd::None, Self::b(&a.0), a.1);
                        self.m.rels.push(Rel::Sum(vec![l, s], min, max));
                        vec![l, s]
                    }
                    (false, true) => {
                        let l = self.node(n, None, K::Link, Bd::None, Bd::None, b.1);
                        let s = self.node(n, Some("soft_max"), K::Link, Bd::None, Self::b(&b.0), cost);
                        self.m.rels.push(Rel::Sum(vec![l, s], min, max));
                        vec![l, s]
                    }
                    (true, true) => {
                        let l = self.node(n, None, K::Link, Bd::None, Bd::None, cost);
                        let s = self.node(n, Some("soft_min"), K::Link, Bd::None, Self::b(&a.0), a.1);
                        let h = self.node(n, Some("soft_max"), K::Link, Bd::None, Bd::None, b.1);
                        self.m.rels.push(Rel::Sum(vec![l, s, h], min, max));
                        self.m.rels.push(Rel::Sum(vec![l, s], None, b.0));
                        vec![l, s, h]
                    }
                };
                self.attr(n, Some("Inflow"), Ex::In(all.clone()));
                self.attr(n, Some("Outflow"), Ex::Out(all.clone()));
                self.attr(n, None, Ex::Out(all.clone()));
                self.comp(n, Some("Inflow"), all.clone());
                self.comp(n, None, all.clone());
                Conn { name: n.into(), ins: all.clone(), outs: vec![(None, all)], store: false }
            }
            1 => {
                self.m.kinds.push("LossLink");
                j["type"] = json!("LossLink");
                let cost = self.ov(0.7, -20.0, 20.0);
                let max = self.ov(0.6, 10.0, 50.0);
                let min = self.ov(0.15, 0.0, 5.0);
                put(&mut j, "net_cost", &cost);
                put(&mut j, "max_net_flow", &max);
                put(&mut j, "min_net_flow", &min);
                let net = self.node(n, Some("net"), K::Link, Self::b(&min), Self::b(&max), cost);
                let loss = self.loss(&mut j, n, net);
                let ins: Vec<usize> = [Some(net), loss].into_iter().flatten().collect();
                self.attr(n, Some("Inflow"), Ex::In(ins.clone()));
                self.attr(n, Some("Outflow"), Ex::Out(vec![net]));
                self.attr(n, None, Ex::Out(vec![net]));
                self.attr(n, Some("Loss"), loss.map(|l| Ex::In(vec![l])).unwrap_or(Ex::Zero));
                self.comp(n, Some("Inflow"), ins.clone());
                self.comp(n, Some("Outflow"), vec![net]);
                self.comp(n, None, vec![net]);
                self.comp(n, Some("Loss"), loss.into_iter().collect());
                Conn { name: n.into(), ins, outs: vec![(None, vec![net])], store: false }
            }
            2 => {
                self.m.kinds.push("WaterTreatmentWorks");
                j["type"] = json!("WaterTreatmentWorks");
                let cost = self.ov(0.7, -20.0, 20.0);
                let max = self.ov(0.6, 10.0, 50.0);
                let min = self.ov(0.15, 0.0, 5.0);
                let smin = self.ov(0.7, 0.0, 30.0);
                let scost = self.ov(0.8, -30.0, 10.0);
                put(&mut j, "cost", &cost);
                put(&mut j, "max_flow", &max);
                put(&mut j, "min_flow", &min);
                put(&mut j, "soft_min_flow", &smin);
                put(&mut j, "soft_min_flow_cost", &scost);
                let net = self.node(n, Some("net"), K::Link, Self::b(&min), Self::b(&max), cost);
                let soft = self.node(n, Some("net_soft_min_flow"), K::Link, Bd::None, Self::b(&smin), scost);
                let above = self.node(n, Some("net_above_soft_min_flow"), K::Link, Bd::None, Bd::None, None);
                self.m.edges.push((net, soft));
                self.m.edges.push((net, above));
                let loss = self.loss(&mut j, n, net);
                let ins: Vec<usize> = [Some(net), loss].into_iter().flatten().collect();
                self.attr(n, Some("Inflow"), Ex::In(ins.clone()));
                self.attr(n, Some("Outflow"), Ex::Out(vec![net]));
                self.attr(n, None, Ex::Out(vec![net]));
                self.attr(n, Some("Loss"), loss.map(|l| Ex::In(vec![l])).unwrap_or(Ex::Zero));
                self.comp(n, Some("Inflow"), ins.clone());
                self.comp(n, Some("Outflow"), vec![net]);
                self.comp(n, None, vec![net]);
                self.comp(n, Some("Loss"), loss.into_iter().collect());
                Conn { name: n.into(), ins, outs: vec![(None, vec![soft, above])], store: false }
            }
            3 => {
                self.m.kinds.push("River");
                j["type"] = json!("River");
                let routing = self.r.us(0, 2);
                if routing == 0 {
                    let net = self.node(n, Some("net"), K::Link, Bd::None, Bd::None, None);
                    let loss = self.loss(&mut j, n, net);
                    let ins: Vec<usize> = [Some(net), loss].into_iter().flatten().collect();
                    self.attr(n, Some("Inflow"), Ex::In(ins.clone()));
                    self.attr(n, Some("Outflow"), Ex::Out(vec![net]));
                    self.attr(n, None, Ex::Out(vec![net]));
                    self.attr(n, Some("Loss"), loss.map(|l| Ex::In(vec![l])).unwrap_or(Ex::Zero));
                    self.comp(n, Some("Inflow"), ins.clone());
                    self.comp(n, Some("Outflow"), vec![net]);
                    self.comp(n, Some("Loss"), loss.into_iter().collect());
                    Conn { name: n.into(), ins, outs: vec![(None, vec![net])], store: false }
                } else {
                    let inp = self.node(n, Some("inflow"), K::Out, Bd::None, Bd::None, None);
                    let out = self.node(n, Some("outflow"), K::In, Bd::None, Bd::None, None);
                    if routing == 1 {
                        let d = self.r.us(1, 4);
                        let init = self.r.q(0.0, 20.0);
                        j["routing_method"] = json!({"type":"Delay","delay":d,"initial_value":{"type":"Literal","value":init}});
                        let b = Bd::Delay { node: inp, n: d, init };
                        self.m.nodes[out].lo = b.clone();
                        self.m.nodes[out].hi = b;
                    } else {
                        let k = self.v(0.5, 3.0);
                        let x = self.v(0.0, 0.5);
                        let init = if self.r.chance(0.5) { None } else { Some((self.r.q(0.0, 20.0), self.r.q(0.0, 20.0))) };
                        j["routing_method"] = json!({"type":"Muskingum","travel_time":k.json(),"weight":x.json(),
                            "initial_condition": match init { None => json!({"type":"SteadyState"}), Some((i,o)) => json!({"type":"Specified","inflow":i,"outflow":o}) }});
                        self.m.rels.push(Rel::Musk { inp, out, k, x, init });
                    }
                    let mut jj = json!({});
                    let mut net = None;
                    let mut loss = None;
                    if self.r.chance(0.6) {
                        let nn = self.node(n, Some("net"), K::Link, Bd::None, Bd::None, None);
                        loss = self.loss(&mut jj, n, nn);
                        if loss.is_some() {
                            j["loss_factor"] = jj["loss_factor"].clone();
                            net = Some(nn);
                            self.m.edges.push((out, nn));
                            self.m.edges.push((out, loss.unwrap()));
                        } else {
                            self.m.nodes.pop();
                        }
                    }
                    let last = net.unwrap_or(out);
                    self.attr(n, Some("Inflow"), Ex::In(vec![inp]));
                    self.attr(n, Some("Outflow"), Ex::Out(vec![last]));
                    self.attr(n, None, Ex::Out(vec![last]));
                    self.attr(n, Some("Loss"), loss.map(|l| Ex::In(vec![l])).unwrap_or(Ex::Zero));
                    self.comp(n, Some("Inflow"), vec![inp]);
                    self.comp(n, Some("Outflow"), vec![last]);
                    self.comp(n, Some("Loss"), loss.into_iter().collect());
                    Conn { name: n.into(), ins: vec![inp], outs: vec![(None, vec![last])], store: false }
                }
            }
            4 => {
                self.m.kinds.push("RiverGauge");
                j["type"] = json!("RiverGauge");
                let mrf = self.ov(0.85, 0.0, 40.0);
                let mc = self.ov(0.8, -40.0, 5.0);
                let bc = self.ov(0.6, -10.0, 20.0);
                put(&mut j, "mrf", &mrf);
                put(&mut j, "mrf_cost", &mc);
                put(&mut j, "bypass_cost", &bc);
                let a = self.node(n, Some("mrf"), K::Link, Bd::None, Self::b(&mrf), mc);
                let b = self.node(n, Some("bypass"), K::Link, Bd::None, Bd::None, bc);
                let all = vec![a, b];
                self.attr(n, Some("Inflow"), Ex::In(all.clone()));
                self.attr(n, Some("Outflow"), Ex::Out(all.clone()));
                self.attr(n, None, Ex::Out(all.clone()));
                self.comp(n, Some("Inflow"), all.clone());
                self.comp(n, None, all.clone());
                Conn { name: n.into(), ins: all.clone(), outs: vec![(None, all)], store: false }
            }
            5 => {
                self.m.kinds.push("RiverSplitWithGauge");
                j["type"] = json!("RiverSplitWithGauge");
                let mrf = self.ov(0.85, 0.0, 40.0);
                let mc = self.ov(0.8, -40.0, 5.0);
                put(&mut j, "mrf", &mrf);
                put(&mut j, "mrf_cost", &mc);
                let a = self.node(n, Some("mrf"), K::Link, Bd::None, Self::b(&mrf), mc);
                let b = self.node(n, Some("bypass"), K::Link, Bd::None, Bd::None, None);
                let mut all = vec![a, b];
                let k = self.r.us(1, 3);
                let mut js = vec![];
                let mut outs = vec![];
                for s in 0..k {
                    let f = self.v(0.05, 0.8 / k as f64);
                    let l = self.node(n, Some(&format!("split-{s}")), K::Link, Bd::None, Bd::None, None);
                    let mut e = json!({"factor": f.json()});
                    let slot = if self.r.chance(0.5) {
                        e["slot_name"] = json!(format!("s{s}"));
                        json!({"type":"User","name":format!("s{s}")})
                    } else {
                        json!({"type":"Split","position":s})
                    };
                    js.push(e);
                    self.m.rels.push(Rel::Prop(b, l, f));
                    all.push(l);
                    outs.push((Some(slot), vec![l]));
                }
                j["splits"] = json!(js);
                self.attr(n, Some("Inflow"), Ex::In(all.clone()));
                self.attr(n, Some("Outflow"), Ex::Out(all.clone()));
                self.attr(n, None, Ex::Out(all.clone()));
                self.comp(n, Some("Inflow"), all.clone());
                self.comp(n, None, all.clone());
                let mut o = vec![(if self.r.chance(0.5) { None } else { Some(json!({"type":"River"})) }, all.clone())];
                o.extend(outs);
                Conn { name: n.into(), ins: all, outs: o, store: false }
            }
            6 => {
                self.m.kinds.push("Abstraction");
                j["type"] = json!("Abstraction");
                let mrf = self.ov(0.75, 0.0, 40.0);
                let mc = if mrf.is_some() { self.ov(0.8, -40.0, 5.0) } else { None };
                let ac = self.ov(0.7, -20.0, 20.0);
                let amax = self.ov(0.7, 5.0, 40.0);
                let amin = self.ov(0.15, 0.0, 3.0);
                put(&mut j, "mrf", &mrf);
                put(&mut j, "mrf_cost", &mc);
                put(&mut j, "abs_cost", &ac);
                put(&mut j, "abs_max_flow", &amax);
                put(&mut j, "abs_min_flow", &amin);
                let mut river = vec![];
                if mrf.is_some() {
                    river.push(self.node(n, Some("mrf"), K::Link, Bd::None, Self::b(&mrf), mc));
                }
                river.push(self.node(n, Some("bypass"), K::Link, Bd::None, Bd::None, None));
                let abs = self.node(n, Some("abstraction"), K::Link, Self::b(&amin), Self::b(&amax), ac);
                let mut all = river.clone();
                all.push(abs);
                self.attr(n, Some("Inflow"), Ex::In(all.clone()));
                self.attr(n, Some("Outflow"), Ex::Out(river.clone()));
                self.attr(n, Some("Abstraction"), Ex::Out(vec![abs]));
                self.attr(n, None, Ex::Out(vec![abs]));
                self.comp(n, Some("Inflow"), all.clone());
                self.comp(n, Some("Outflow"), river.clone());
                self.comp(n, Some("Abstraction"), vec![abs]);
                self.comp(n, None, vec![abs]);
                Conn {
                    name: n.into(),
                    ins: all,
                    outs: vec![
                        (if self.r.chance(0.5) { None } else { Some(json!({"type":"River"})) }, river),
                        (Some(json!({"type":"Abstraction"})), vec![abs]),
                    ],
                    store: false,
                }
            }
            7 => {
                self.m.kinds.push("PiecewiseLink");
                j["type"] = json!("PiecewiseLink");
                let k = self.r.us(1, 4);
                let mut js = vec![];
                let mut all = vec![];
                for s in 0..k {
                    let cost = self.ov(0.8, -30.0, 30.0);
                    let max = self.ov(0.8, 2.0, 25.0);
                    let min = self.ov(0.1, 0.0, 2.0);
                    let mut e = json!({});
                    put(&mut e, "cost", &cost);
                    put(&mut e, "max_flow", &max);
                    put(&mut e, "min_flow", &min);
                    js.push(e);
                    all.push(self.node(n, Some(&format!("step-{s:02}")), K::Link, Self::b(&min), Self::b(&max), cost));
                }
                j["steps"] = json!(js);
                self.attr(n, Some("Inflow"), Ex::In(all.clone()));
                self.attr(n, Some("Outflow"), Ex::Out(all.clone()));
                self.attr(n, None, Ex::Out(all.clone()));
                self.comp(n, Some("Inflow"), all.clone());
                self.comp(n, None, all.clone());
                Conn { name: n.into(), ins: all.clone(), outs: vec![(None, all)], store: false }
            }
            8 => {
                self.m.kinds.push("Delay");
                j["type"] = json!("Delay");
                let d = self.r.us(1, 4);
                let init = self.r.q(0.0, 20.0);
                j["delay"] = json!({"type":"Literal","value":d});
                j["initial_value"] = json!({"type":"Literal","value":init});
                let inp = self.node(n, Some("inflow"), K::Out, Bd::None, Bd::None, None);
                let b = Bd::Delay { node: inp, n: d, init };
                let out = self.node(n, Some("outflow"), K::In, b.clone(), b, None);
                self.attr(n, Some("Inflow"), Ex::In(vec![inp]));
                self.attr(n, Some("Outflow"), Ex::Out(vec![out]));
                self.attr(n, None, Ex::Out(vec![out]));
                self.comp(n, Some("Inflow"), vec![inp]);
                self.comp(n, None, vec![out]);
                Conn { name: n.into(), ins: vec![inp], outs: vec![(None, vec![out])], store: false }
            }
            9 => {
                self.m.kinds.push("Turbine");
                j["type"] = json!("Turbine");
                let cost = self.ov(0.7, -20.0, 20.0);
                put(&mut j, "cost", &cost);
                let elev = self.ov(0.8, 2.0, 40.0);
                let h = Hydro {
                    target: self.v(0.0, 4.0),
                    turbine: if elev.is_none() || self.r.chance(0.6) { self.r.q(0.0, 10.0) + if elev.is_none() { 1.0 } else { 0.0 } } else { 0.0 },
                    elev,
                    min_head: if self.r.chance(0.5) { self.r.q(0.0, 8.0) } else { 0.0 },
                    eff: if self.r.chance(0.5) { self.r.q(0.25, 1.0) } else { 1.0 },
                    dens: if self.r.chance(0.3) { 998.0 } else { 1000.0 },
                    fc: if self.r.chance(0.4) { 1.5 } else { 1.0 },
                    ec: if self.r.chance(0.3) { 2e-6 } else { 1e-6 },
                };
                put(&mut j, "water_elevation", &h.elev);
                j["turbine_elevation"] = json!(h.turbine);
                j["min_head"] = json!(h.min_head);
                j["efficiency"] = json!(h.eff);
                j["water_density"] = json!(h.dens);
                j["flow_unit_conversion"] = json!(h.fc);
                j["energy_unit_conversion"] = json!(h.ec);
                let (mut lo, mut hi) = (Bd::None, Bd::None);
                // scaled so that targets come to some tens of units of flow
                let k = h.k();
                let h = Hydro { target: match h.target.clone() {
                    V::C(x) => V::C(x * k * 10.0),
                    V::A(n, v) => { let v: Vec<f64> = v.iter().map(|x| x * k * 10.0).collect(); let e = self.m.arrays.iter_mut().find(|a| a.0 == n).unwrap(); e.1 = v.clone(); V::A(n, v) }
                }, ..h };
                if self.r.chance(0.85) {
                    j["target"] = h.target.json();
                    match self.r.us(0, 5) {
                        0 => hi = Bd::Hydro(h.clone()),
                        1 | 2 => {
                            j["target_type"] = json!("MaxFlow");
                            hi = Bd::Hydro(h.clone());
                        }
                        3 => {
                            j["target_type"] = json!("MinFlow");
                            lo = Bd::Hydro(h.clone());
                        }
                        _ => {
                            j["target_type"] = json!("Both");
                            hi = Bd::Hydro(h.clone());
                            lo = hi.clone();
                        }
                    }
                }
                let l = self.node(n, None, K::Link, lo, hi, cost);
                self.attr(n, Some("Inflow"), Ex::In(vec![l]));
                self.attr(n, Some("Outflow"), Ex::Out(vec![l]));
                self.attr(n, None, Ex::Out(vec![l]));
                self.attr(n, Some("Power"), Ex::Power(l, h));
                self.comp(n, Some("Inflow"), vec![l]);
                self.comp(n, None, vec![l]);
                Conn { name: n.into(), ins: vec![l], outs: vec![(None, vec![l])], store: false }
            }
            10 => {
                self.m.kinds.push("Reservoir");
                j["type"] = json!("Reservoir");
                let max = V::C(self.r.q(60.0, 200.0));
                let cost = self.ov(0.8, -15.0, 5.0);
                let minv = self.ov(0.3, 0.0, 20.0);
                j["max_volume"] = max.json();
                put(&mut j, "cost", &cost);
                put(&mut j, "min_volume", &minv);
                let f = self.r.q(0.25, 1.0);
                j["initial_volume"] = json!({"type":"Proportional","proportion":f});
                let s = self.node(n, None, K::Store, Self::b(&minv), Bd::V(max.clone()), cost);
                self.m.nodes[s].init = f * max.at(0);
                let mut outs = vec![(if self.r.chance(0.5) { None } else { Some(json!({"type":"Storage"})) }, vec![s])];
                let mut comp = None;
                let mut spill = None;
                if self.r.chance(0.6) {
                    let v = self.v(0.0, 6.0);
                    j["compensation"] = v.json();
                    let k = self.node(n, Some("compensation"), K::Link, Bd::V(v), Bd::None, None);
                    self.m.edges.push((s, k));
                    comp = Some(k);
                }
                match self.r.us(0, 2) {
                    0 => {}
                    1 => {
                        j["spill"] = json!("OutputNode");
                        let k = self.node(n, Some("spill"), K::Out, Bd::None, Bd::None, None);
                        self.m.edges.push((s, k));
                        spill = Some(k);
                    }
                    _ => {
                        j["spill"] = json!("LinkNode");
                        let k = self.node(n, Some("spill"), K::Link, Bd::None, Bd::None, None);
                        self.m.edges.push((s, k));
                        spill = Some(k);
                        outs.push((Some(json!({"type":"Spill"})), vec![k]));
                    }
                }
                let conn = match self.r.us(0, 2) {
                    0 => true,
                    1 => {
                        j["connect_compensation_to_spill"] = json!(true);
                        true
                    }
                    _ => {
                        j["connect_compensation_to_spill"] = json!(false);
                        false
                    }
                };
                if let Some(k) = comp {
                    match spill {
                        Some(sp) if conn => self.m.edges.push((k, sp)),
                        _ => outs.push((Some(json!({"type":"Compensation"})), vec![k])),
                    }
                }
                let (mut rain, mut evap, mut leak) = (None, None, None);
                if self.r.chance(0.7) {
                    let proportional = self.r.chance(0.5);
                    let area = if self.r.chance(0.5) {
                        let top = if proportional { 1.0 } else { max.at(0) };
                        let k = self.r.us(1, 3);
                        let mut a = self.r.q(0.5, 3.0);
                        Area::Interp((0..=k).map(|i| { let p = (top * i as f64 / k as f64, a); a += self.r.q(0.25, 4.0); p }).collect())
                    } else {
                        let s = if proportional { 1.0 } else { 1.0 / max.at(0) };
                        Area::Poly(vec![self.r.q(0.5, 3.0), self.r.q(0.0, 4.0) * s, self.r.q(0.0, 4.0) * s * s])
                    };
                    j["surface_area"] = json!({"is_storage_proportional": proportional, "data": match &area {
                        Area::Interp(p) => json!({"Interpolated":{"storage":{"type":"Literal","values":p.iter().map(|p| p.0).collect::<Vec<_>>()},"area":{"type":"Literal","values":p.iter().map(|p| p.1).collect::<Vec<_>>()}}}),
                        Area::Poly(c) => json!({"Polynomial":c}),
                    }});
                    if self.r.chance(0.7) {
                        let depth = self.v(0.0, 2.0);
                        let mut e = json!({"data":depth.json()});
                        let max_area = self.r.chance(0.4);
                        if max_area || self.r.chance(0.3) {
                            e["use_max_area"] = json!(max_area);
                        }
                        j["rainfall"] = e;
                        let b = Bd::Surface { depth, store: s, area: area.clone(), proportional, max_area };
                        let k = self.node(n, Some("rainfall"), K::In, b.clone(), b, None);
                        self.m.edges.push((k, s));
                        rain = Some(k);
                    }
                    if self.r.chance(0.7) {
                        let depth = self.v(0.0, 2.0);
                        let mut e = json!({"data":depth.json()});
                        let max_area = self.r.chance(0.4);
                        if max_area || self.r.chance(0.3) {
                            e["use_max_area"] = json!(max_area);
                        }
                        let cost = self.ov(0.8, -40.0, 2.0);
                        put(&mut e, "cost", &cost);
                        j["evaporation"] = e;
                        let b = Bd::Surface { depth, store: s, area: area.clone(), proportional, max_area };
                        let k = self.node(n, Some("evaporation"), K::Out, Bd::None, b, cost);
                        self.m.edges.push((s, k));
                        evap = Some(k);
                    }
                }
                if self.r.chance(0.5) {
                    let l = self.v(0.0, 6.0);
                    let cost = self.ov(0.8, -40.0, 2.0);
                    let mut e = json!({"loss":l.json()});
                    put(&mut e, "cost", &cost);
                    j["leakage"] = e;
                    let k = self.node(n, Some("leakage"), K::Out, Bd::None, Bd::V(l), cost);
                    self.m.edges.push((s, k));
                    leak = Some(k);
                }
                self.attr(n, None, Ex::Vol(vec![s]));
                self.attr(n, Some("Volume"), Ex::Vol(vec![s]));
                self.attr(n, Some("MaxVolume"), Ex::MaxVol(s));
                self.attr(n, Some("ProportionalVolume"), Ex::PropVol(vec![s]));
                self.attr(n, Some("Compensation"), comp.map(|k| Ex::Out(vec![k])).unwrap_or(Ex::Zero));
                self.attr(n, Some("Rainfall"), rain.map(|k| Ex::Out(vec![k])).unwrap_or(Ex::Zero));
                self.attr(n, Some("Evaporation"), evap.map(|k| Ex::In(vec![k])).unwrap_or(Ex::Zero));
                if let Some(k) = comp {
                    self.comp(n, Some("Compensation"), vec![k]);
                    self.comp(n, None, vec![k]);
                }
                if let Some(k) = rain {
                    self.comp(n, Some("Rainfall"), vec![k]);
                }
                if let Some(k) = evap {
                    self.comp(n, Some("Evaporation"), vec![k]);
                }
                if let Some(k) = leak {
                    self.comp(n, Some("Loss"), vec![k]);
                }
                self.m.stores.push((n.into(), vec![s]));
                Conn { name: n.into(), ins: vec![s], outs, store: true }
            }
            _ => {
                self.m.kinds.push("PiecewiseStorage");
                j["type"] = json!("PiecewiseStorage");
                let total = V::C(self.r.q(60.0, 200.0));
                j["max_volume"] = total.json();
                let minv = self.ov(0.4, 0.0, 50.0);
                put(&mut j, "min_volume", &minv);
                let topcost = self.ov(0.8, -10.0, 5.0);
                put(&mut j, "cost", &topcost);
                let k = self.r.us(1, 3);
                let mut lo = 0.05;
                let mut curves = vec![];
                let mut js = vec![];
                let mut costs = vec![];
                for i in 0..k {
                    let hi = lo + (0.9 - lo) / (k - i) as f64;
                    // control curves which change in time move water between zones; keep most of them constant
                    let lo64 = (lo * 64.0_f64).ceil() / 64.0; // values are rounded to 1/64: keep the curves in ascending order
                    let c = if self.r.chance(0.7) { V::C(self.r.f(lo, hi.max(lo))) } else { self.v(lo64, hi.max(lo64)) };
                    lo = match &c {
                        V::C(x) => *x,
                        V::A(_, v) => v.iter().cloned().fold(0.0, f64::max),
                    };
                    let cost = self.ov(0.8, -20.0, 5.0);
                    let mut e = json!({"control_curve": c.json()});
                    put(&mut e, "cost", &cost);
                    js.push(e);
                    curves.push(c);
                    costs.push(cost);
                }
                costs.push(topcost);
                j["steps"] = json!(js);
                let init = if self.r.chance(0.5) {
                    let f = self.r.q(0.25, 1.0);
                    j["initial_volume"] = json!({"type":"Proportional","proportion":f});
                    f * total.at(0)
                } else {
                    let v = self.r.q(0.0, 60.0);
                    j["initial_volume"] = json!({"type":"Absolute","volume":v});
                    v
                };
                let mut st = vec![];
                let mut left = init;
                for (i, cost) in costs.into_iter().enumerate() {
                    let zone = Bd::Zone { total: total.clone(), lo: if i > 0 { Some(curves[i - 1].clone()) } else { None }, up: curves.get(i).cloned() };
                    let min = match &minv {
                        Some(m) => Bd::ZoneMin { min: m.clone(), total: total.clone(), curves: curves.clone(), i },
                        None => Bd::None,
                    };
                    let size = zone_size(&total, &curves, i, 0);
                    let s = self.node(n, Some(&format!("store-{i:02}")), K::Store, min, zone, cost);
                    self.m.nodes[s].init = left.max(0.0).min(size);
                    left -= size;
                    if let Some(p) = st.last() {
                        self.m.edges.push((s, *p));
                        self.m.edges.push((*p, s));
                    }
                    st.push(s);
                }
                self.attr(n, None, Ex::Vol(st.clone()));
                self.attr(n, Some("Volume"), Ex::Vol(st.clone()));
                self.attr(n, Some("ProportionalVolume"), Ex::PropVol(st.clone()));
                self.m.stores.push((n.into(), st.clone()));
                let con = st[..k].to_vec();
                Conn { name: n.into(), ins: con.clone(), outs: vec![(None, con)], store: true }
            }
        };
        self.m.jnodes.push(j);
        c
    }

    fn connect(&mut self, from: &str, fs: &[usize], slot: &Option<Value>, to: &str, ts: &[usize]) {
        for f in fs {
            for t in ts {
                self.m.edges.push((*f, *t));
            }
        }
        let mut e = json!({"from_node":from,"to_node":to});
        if let Some(s) = slot {
            e["from_slot"] = s.clone();
        }
        self.m.jedges.push(e);
    }

    fn basic(&mut self, name: &str, ty: &str, max: Option<V>, min: Option<V>, cost: Option<V>) -> usize {
        let mut j = json!({"meta":{"name":name},"type":ty});
        put(&mut j, "max_flow", &max);
        put(&mut j, "min_flow", &min);
        put(&mut j, "cost", &cost);
        self.m.jnodes.push(j);
        let k = match ty {
            "Input" => K::In,
            "Output" => K::Out,
            _ => K::Link,
        };
        let i = self.node(name, None, k, Self::b(&min), Self::b(&max), cost);
        match k {
            K::In => self.attr(name, None, Ex::Out(vec![i])),
            _ => self.attr(name, None, if k == K::Out { Ex::In(vec![i]) } else { Ex::Out(vec![i]) }),
        }
        i
    }
}

fn zone_size(total: &V, curves: &[V], i: usize, t: usize) -> f64 {
    let lo = if i > 0 { curves[i - 1].at(t) } else { 0.0 };
    let up = curves.get(i).map(|c| c.at(t)).unwrap_or(1.0);
    total.at(t) * (up - lo)
}

pub fn generate(r: &mut Rng, thorough: bool) -> M {
    let start = date(2019, 1, 1) + (r.int(0, 1200)).days();
    let m = M { start: Some(start), steps: if thorough { r.us(4, 20) } else { r.us(3, 9) }, days: *r.pick(&[1, 1, 1, 1, 2, 7]), ..M::default() };
    let mut g = G { r, m };
    let k = g.r.us(1, 3);
    let src = {
        if g.r.chance(0.3) {
            // a catchment: minimum and maximum equal its flow
            let f = g.v(0.0, 60.0);
            let cost = g.ov(0.4, -3.0, 3.0);
            let mut j = json!({"meta":{"name":"src"},"type":"Catchment","flow":f.json()});
            put(&mut j, "cost", &cost);
            g.m.jnodes.push(j);
            let i = g.node("src", None, K::In, Bd::V(f.clone()), Bd::V(f), cost);
            g.attr("src", Some("Outflow"), Ex::Out(vec![i]));
            i
        } else {
            let max = g.v(20.0, 120.0);
            let cost = g.ov(0.5, -3.0, 5.0);
            g.basic("src", "Input", Some(max), None, cost)
        }
    };
    let dmax = g.v(10.0, 60.0);
    let dcost = g.v(-60.0, -10.0);
    let dem = g.basic("dem", "Output", Some(dmax.clone()), None, Some(dcost));
    g.attr("dem", Some("Deficit"), Ex::Deficit(dem, dmax));
    let sc = g.ov(0.5, -4.0, 4.0);
    let sink = g.basic("sink", "Output", None, None, sc);
    let conns: Vec<Conn> = (0..k)
        .map(|i| {
            let kind = g.r.us(0, 11);
            g.composite(i, kind)
        })
        .collect();
    // the source feeds the first; the default output of each feeds the next and the sink
    g.connect("src", &[src], &None, "sink", &[sink]);
    for (i, c) in conns.iter().enumerate() {
        if i == 0 {
            g.connect("src", &[src], &None, &c.name, &c.ins);
        } else {
            let p = &conns[i - 1];
            g.connect(&p.name, &p.outs[0].1, &p.outs[0].0, &c.name, &c.ins);
        }
        g.connect(&c.name, &c.outs[0].1, &c.outs[0].0, "sink", &[sink]);
        for (s, (slot, nodes)) in c.outs.iter().enumerate().skip(1) {
            let o = format!("o{i}-{s}");
            let max = g.ov(0.4, 2.0, 50.0);
            let cost = g.ov(0.9, -40.0, 10.0);
            let oi = g.basic(&o, "Output", max, None, cost);
            g.connect(&c.name, nodes, slot, &o, &[oi]);
        }
    }
    let l = conns.last().unwrap();
    g.connect(&l.name, &l.outs[0].1, &l.outs[0].0, "dem", &[dem]);
    // virtual nodes over components
    let comps: Vec<_> = g.m.comps.clone().into_iter().filter(|c| !c.2.is_empty()).collect();
    let reff = |c: &(String, Option<&'static str>, Vec<usize>)| {
        let mut j = json!({"name":c.0});
        if let Some(x) = c.1 {
            j["component"] = json!(x);
        }
        j
    };
    if !comps.is_empty() && g.r.chance(0.6) {
        let c = g.r.pick(&comps).clone();
        let mut j = json!({"meta":{"name":"agg"},"type":"Aggregated","nodes":[reff(&c)]});
        let max = g.ov(0.8, 3.0, 40.0);
        let min = g.ov(0.1, 0.0, 2.0);
        put(&mut j, "max_flow", &max);
        put(&mut j, "min_flow", &min);
        g.m.rels.push(Rel::Sum(c.2.clone(), min, max));
        g.m.jvirt.push(j);
        g.vattr("agg", Some("Inflow"), Ex::In(c.2.clone()));
        g.vattr("agg", Some("Outflow"), Ex::Out(c.2.clone()));
        g.vattr("agg", None, Ex::Out(c.2));
    }
    if comps.len() > 1 && g.r.chance(0.3) {
        let a = g.r.pick(&comps).clone();
        let b = g.r.pick(&comps).clone();
        if !a.2.iter().any(|x| b.2.contains(x)) {
            let f = g.v(0.25, 2.0);
            let j = json!({"meta":{"name":"ratio"},"type":"Aggregated","nodes":[reff(&a), reff(&b)],"relationship":{"type":"Ratio","factors":[{"type":"Literal","value":1.0}, f.json()]}});
            g.m.jvirt.push(j);
            g.m.rels.push(Rel::Ratio(a.2, b.2, f));
        }
    }
    if !comps.is_empty() && g.r.chance(0.5) {
        let n = g.r.us(1, 2);
        let mut refs = vec![];
        let mut js = vec![];
        let mut fs = vec![];
        let unit = g.r.chance(0.3);
        for _ in 0..n {
            let c = g.r.pick(&comps).clone();
            if refs.iter().any(|(x, _): &(Vec<usize>, f64)| x.iter().any(|i| c.2.contains(i))) {
                continue;
            }
            let f = if unit { 1.0 } else { g.r.q(0.25, 2.0) };
            js.push(reff(&c));
            fs.push(f);
            refs.push((c.2, f));
        }
        let max = g.r.q(20.0, 400.0);
        let mut j = json!({"meta":{"name":"vs"},"type":"VirtualStorage","nodes":js,"max_volume":{"type":"Literal","value":max},
            "initial_volume":{"type":"Proportional","proportion":1.0}});
        if !unit {
            j["factors"] = json!(fs);
        }
        g.m.jvirt.push(j);
        g.m.vs.push(("vs".into(), refs, max));
    }
    if !g.m.stores.is_empty() && g.r.chance(0.7) {
        let all: Vec<(String, Vec<usize>)> = g.m.stores.clone();
        let nodes: Vec<usize> = all.iter().flat_map(|s| s.1.clone()).collect();
        g.m.jvirt.push(json!({"meta":{"name":"aggst"},"type":"AggregatedStorage","storage_nodes":all.iter().map(|s| json!({"name":s.0})).collect::<Vec<_>>()}));
        g.vattr("aggst", None, Ex::Vol(nodes.clone()));
        g.vattr("aggst", Some("Volume"), Ex::Vol(nodes.clone()));
        g.vattr("aggst", Some("ProportionalVolume"), Ex::PropVol(nodes));
    }
    let mut m = g.m;
    // the order in which things are listed must not matter
    r.shuffle(&mut m.jnodes);
    r.shuffle(&mut m.jparams);
    m
}

impl M {
    pub fn json(&self) -> Value {
        let s = self.start.unwrap();
        let end = s + ((self.steps - 1) as i64 * self.days as i64).days();
        json!({"metadata":{"title":"composite"},
            "time":{"start":s.to_string(),"end":end.to_string(),"timestep":{"type":"Days","days":self.days}},
            "network":{"nodes":self.jnodes,"edges":self.jedges,"parameters":self.jparams,"virtual_nodes":self.jvirt}})
    }
    fn builder(&self) -> Result<ModelBuilder, String> {
        let schema = ModelSchema::from_str(&self.json().to_string()).map_err(|e| format!("schema: {e}"))?;
        let mut mb = schema.create_model_builder(None, None).map_err(|e| format!("load: {e:?}"))?;
        self.inject(&mut mb);
        Ok(mb)
    }
    pub fn inject(&self, mb: &mut ModelBuilder) {
        for (n, a) in &self.arrays {
            mb.network_builder().parameters().f64(Box::new(cp::Array1ParameterBuilder::new(n.as_str().into(), Array1::from(a.clone()))));
        }
    }
    fn bound(&self, b: &Bd, def: f64, t: usize, vol: &[f64], hist: &[Vec<f64>]) -> f64 {
        match b {
            Bd::None => def,
            Bd::V(v) => v.at(t),
            Bd::Delay { node, n, init } => {
                if t >= *n {
                    hist[t - n][*node]
                } else {
                    *init
                }
            }
            Bd::Surface { depth, store, area, proportional, max_area } => {
                let max = self.bound(&self.nodes[*store].hi, 0.0, t, vol, hist);
                let x = match (proportional, max_area) {
                    (false, false) => vol[*store],
                    (true, false) => vol[*store] / max,
                    (false, true) => max,
                    (true, true) => 1.0,
                };
                depth.at(t) * area.at(x)
            }
            Bd::Hydro(h) => {
                let head = h.head(t);
                if head <= h.min_head { 0.0 } else { h.target.at(t) / (h.k() * head) }
            }
            Bd::Zone { total, lo, up } => {
                total.at(t) * (up.as_ref().map(|u| u.at(t)).unwrap_or(1.0) - lo.as_ref().map(|u| u.at(t)).unwrap_or(0.0))
            }
            Bd::ZoneMin { min, total, curves, i } => {
                let below: f64 = (0..*i).map(|k| zone_size(total, curves, k, t)).sum();
                (min.at(t) - below).max(0.0).min(zone_size(total, curves, *i, t))
            }
        }
    }
    fn cols(&self, i: usize, f: f64) -> Vec<(usize, f64)> {
        let out = self.nodes[i].kind != K::Out;
        self.edges.iter().enumerate().filter(|(_, e)| if out { e.0 == i } else { e.1 == i }).map(|(k, _)| (k, f)).collect()
    }
    fn net(&self, i: usize) -> Vec<(usize, f64)> {
        let mut c = vec![];
        for (k, e) in self.edges.iter().enumerate() {
            if e.1 == i {
                c.push((k, 1.0));
            }
            if e.0 == i {
                c.push((k, -1.0));
            }
        }
        c
    }
    /// The documented allocation problem of step `t`.
    fn lp(&self, t: usize, vol: &[f64], vs: &[f64], hist: &[Vec<f64>]) -> Lp {
        let dt = self.days as f64;
        let mut lp = Lp::new(self.edges.len());
        for (i, n) in self.nodes.iter().enumerate() {
            let what = format!("{}{}", n.name, n.sub.as_ref().map(|s| format!(".{s}")).unwrap_or_default());
            let c = n.cost.as_ref().map(|c| c.at(t)).unwrap_or(0.0);
            let lo = self.bound(&n.lo, 0.0, t, vol, hist);
            let hi = self.bound(&n.hi, f64::INFINITY, t, vol, hist);
            if n.kind == K::Store {
                let net = self.net(i);
                for (k, s) in &net {
                    lp.cost[*k] += c * s;
                }
                lp.row(format!("volume of {what}"), &net, (lo - vol[i]) / dt, (hi - vol[i]) / dt);
            } else {
                let co = self.cols(i, 1.0);
                for (k, _) in &co {
                    lp.cost[*k] += c;
                }
                lp.row(format!("flow bounds of {what}"), &co, lo, hi);
                if n.kind == K::Link {
                    lp.row(format!("balance of {what}"), &self.net(i), 0.0, 0.0);
                }
            }
        }
        for r in &self.rels {
            match r {
                Rel::Prop(a, b, f) => {
                    let f = f.at(t);
                    let mut co = self.cols(*a, f);
                    co.extend(self.cols(*b, f - 1.0));
                    lp.row(format!("proportion {r:?}"), &co, 0.0, 0.0);
                }
                Rel::Ratio(a, b, f) => {
                    let mut co: Vec<_> = a.iter().flat_map(|a| self.cols(*a, f.at(t))).collect();
                    co.extend(b.iter().flat_map(|b| self.cols(*b, -1.0)));
                    lp.row(format!("ratio {r:?}"), &co, 0.0, 0.0);
                }
                Rel::Sum(n, lo, hi) => {
                    let co: Vec<_> = n.iter().flat_map(|i| self.cols(*i, 1.0)).collect();
                    lp.row(format!("total {r:?}"), &co, lo.as_ref().map(|v| v.at(t)).unwrap_or(0.0), hi.as_ref().map(|v| v.at(t)).unwrap_or(f64::INFINITY));
                }
                Rel::Musk { inp, out, k, x, init } => {
                    let (k, x) = (k.at(t), x.at(t));
                    let d = 2.0 * k * (1.0 - x) + 1.0;
                    let (c0, rhs) = if t == 0 && init.is_none() {
                        (1.0, 0.0)
                    } else {
                        let (i, o) = if t == 0 { init.unwrap() } else { (hist[t - 1][*inp], hist[t - 1][*out]) };
                        ((1.0 - 2.0 * k * x) / d, (1.0 + 2.0 * k * x) / d * i + (2.0 * k * (1.0 - x) - 1.0) / d * o)
                    };
                    let mut co = self.cols(*out, 1.0);
                    co.extend(self.cols(*inp, -c0));
                    lp.row("Muskingum routing", &co, rhs, rhs);
                }
            }
        }
        for (k, (n, refs, _)) in self.vs.iter().enumerate() {
            let co: Vec<_> = refs.iter().flat_map(|(ns, f)| ns.iter().flat_map(|i| self.cols(*i, -*f)).collect::<Vec<_>>()).collect();
            lp.row(format!("virtual storage {n}"), &co, -vs[k] / dt, (self.vs[k].2 - vs[k]).max(0.0) / dt);
        }
        lp
    }
}

fn go(c: &mut Case, attrs: bool) -> Res {
    let mut m = generate(&mut c.rng, c.thorough);
    // most cases should be able to complete at least one step
    for _ in 0..4 {
        let vol: Vec<f64> = m.nodes.iter().map(|n| n.init).collect();
        let vs: Vec<f64> = m.vs.iter().map(|v| v.2).collect();
        if matches!(m.lp(0, &vol, &vs, &[]).solve(), Sol::Opt(..)) || c.rng.chance(0.1) {
            break;
        }
        m = generate(&mut c.rng, c.thorough);
    }
    c.desc = json!({"model": m.json(), "arrays": m.arrays});
    for k in &m.kinds {
        c.count(&format!("kind_{k}"), 1);
    }
    let mb = m.builder().map_err(|e| viol("model-rejected", e))?;
    let metrics = m.attrs.iter().map(|a| (a.0.clone(), UM::new_parameter_after(a.0.as_str()))).collect();
    let (model, out) = run::build(mb, metrics).map_err(|e| viol("model-rejected", e.text()))?;
    let sel = if c.rng.chance(0.2) { SolverSel::Microlp } else { SolverSel::Highs };
    let r = run::exec(&model, sel);
    let tr = std::mem::take(&mut *out.lock().unwrap());
    c.count("runs", 1);
    c.count("steps_observed", tr.steps.len() as u64);
    let err = match r {
        Ok(_) => None,
        Err(RunErr::Panic(p)) if solver_precision(&p) => {
            c.count("stopped_by_solver_precision", 1);
            return check(c, &m, &tr, None, attrs, false);
        }
        Err(RunErr::Panic(p)) => return Err(viol(format!("panic:{}", p.rsplit(" @ ").next().unwrap_or("")), p)),
        Err(e) => Some(e.text()),
    };
    check(c, &m, &tr, err, attrs, true)
}

fn check(c: &mut Case, m: &M, tr: &Trace, err: Option<String>, attrs: bool, complete: bool) -> Res {
    let dt = m.days as f64;
    let mut vol: Vec<f64> = m.nodes.iter().map(|n| n.init).collect();
    let mut vs: Vec<f64> = m.vs.iter().map(|v| v.2).collect();
    let mut hist: Vec<Vec<f64>> = vec![];
    let mut emap = vec![];
    let mut nmap = vec![];
    if !tr.nodes.is_empty() {
        for n in &m.nodes {
            match tr.find(&n.name, n.sub.as_deref()) {
                Some(i) => nmap.push(i),
                None => return Err(viol("structure", format!("no node {}/{:?} in the network", n.name, n.sub))),
            }
        }
        for e in &m.edges {
            let x = (nmap[e.0], nmap[e.1]);
            let nm = |i: usize| format!("{}/{:?}", m.nodes[i].name, m.nodes[i].sub);
            match tr.edges.iter().position(|y| *y == x) {
                Some(i) => emap.push(i),
                None => return Err(viol("structure", format!("no edge {} -> {}", nm(e.0), nm(e.1)))),
            }
        }
        ensure!(tr.edges.len() == m.edges.len(), "structure", "{} edges in the network, {} documented", tr.edges.len(), m.edges.len());
        ensure!(tr.nodes.len() == m.nodes.len(), "structure", "{} nodes in the network, {} documented", tr.nodes.len(), m.nodes.len());
    }
    ensure!(tr.errors.is_empty(), "metric-error", "{:?}", tr.errors);
    for (t, st) in tr.steps.iter().enumerate() {
        let s = &st.scen[0];
        let at = format!("t={t}");
        let x: Vec<f64> = emap.iter().map(|e| s.edge[*e]).collect();
        let lp = m.lp(t, &vol, &vs, &hist);
        let flow = |i: usize| if m.nodes[i].kind == K::Out { s.inflow[nmap[i]] } else { s.outflow[nmap[i]] };
        if !attrs {
            if let Some((w, v, lo, hi)) = lp.violated(&x, 1e-5) {
                return Err(viol("documented-constraint", format!("{at}: {w}: {v} outside [{lo}, {hi}]; edges {:?} flows {x:?}", m.edges)));
            }
            c.count("steps_feasible", 1);
            let got = lp.value(&x);
            let scale: f64 = 1.0 + lp.cost.iter().zip(&x).map(|(c, x)| (c * x).abs()).sum::<f64>();
            match lp.solve() {
                Sol::Opt(best, y) if lp.violated(&y, 1e-6).is_none() => {
                    ensure!(got <= best + 1e-5 * scale, "documented-priorities",
                        "{at}: allocation costs {got}, the documented network allows {best}: flows {x:?}, better {y:?}, edges {:?}", m.edges);
                    if got < best - 1e-4 * scale {
                        c.count("oracle_beaten", 1);
                    } else {
                        c.count("optimality_confirmed", 1);
                        if x.iter().any(|f| *f > 1e-6) {
                            c.seen((m.kinds.clone(), (best * 4.0) as i64, x.iter().map(|f| (f * 4.0) as i64).collect::<Vec<_>>()));
                        }
                    }
                }
                Sol::Unbounded => return Err(viol("documented-priorities", format!("{at}: the documented problem is unbounded, but was solved"))),
                _ => c.count("oracle_uncertified", 1),
            }
        }
        let mut v1 = vol.clone();
        for (i, n) in m.nodes.iter().enumerate() {
            if n.kind == K::Store {
                let net: f64 = m.net(i).iter().map(|(k, s)| s * x[*k]).sum();
                let exp = vol[i] + net * dt;
                v1[i] = s.vol[nmap[i]];
                if !attrs {
                    ensure!((v1[i] - exp).abs() < 1e-5 * (1.0 + exp.abs()), "store-volume", "{at}: {}/{:?} volume {} expected {exp}", n.name, n.sub, v1[i]);
                }
            }
        }
        let mut vs1 = vs.clone();
        for (k, (n, refs, max)) in m.vs.iter().enumerate() {
            let used: f64 = refs.iter().map(|(ns, f)| ns.iter().map(|i| flow(*i)).sum::<f64>() * f * dt).sum();
            let i = tr.vs.iter().position(|x| x == n).expect("virtual storage");
            vs1[k] = s.vs[i];
            if attrs {
                c.count("virtual_storage_uses", 1);
                let exp = (vs[k] - used).clamp(0.0, *max);
                ensure!((vs1[k] - exp).abs() < 1e-5 * (1.0 + exp), "virtual-storage-use", "{at}: virtual storage {n} holds {} after {}, its components used {used} ({refs:?})", vs1[k], vs[k]);
            }
        }
        vol = v1;
        vs = vs1;
        if attrs {
            for r in &m.rels {
                if let Rel::Sum(ns, lo, hi) = r {
                    let f: f64 = ns.iter().map(|i| flow(*i)).sum();
                    let lo = lo.as_ref().map(|v| v.at(t)).unwrap_or(0.0);
                    let hi = hi.as_ref().map(|v| v.at(t)).unwrap_or(f64::INFINITY);
                    ensure!(f >= lo - 1e-5 && f <= hi + 1e-5, "component-constraint", "{at}: total flow {f} of {ns:?} outside [{lo}, {hi}]");
                }
            }
            for (k, (_, what, ex)) in m.attrs.iter().enumerate() {
                let exp = match ex {
                    Ex::In(n) => n.iter().map(|i| s.inflow[nmap[*i]]).sum(),
                    Ex::Out(n) => n.iter().map(|i| s.outflow[nmap[*i]]).sum(),
                    Ex::Zero => 0.0,
                    Ex::Vol(n) => n.iter().map(|i| vol[*i]).sum::<f64>(),
                    Ex::MaxVol(n) => m.bound(&m.nodes[*n].hi, f64::INFINITY, t, &vol, &hist),
                    Ex::PropVol(n) => {
                        let v: f64 = n.iter().map(|i| vol[*i]).sum();
                        let mx: f64 = n.iter().map(|i| m.bound(&m.nodes[*i].hi, f64::INFINITY, t, &vol, &hist)).sum();
                        v / mx
                    }
                    Ex::Power(n, h) => {
                        let head = h.head(t);
                        if head <= h.min_head { 0.0 } else { flow(*n) * head * h.k() }
                    }
                    Ex::Deficit(n, d) => d.at(t) - flow(*n),
                };
                let got = s.m[k];
                ensure!((got - exp).abs() < 1e-8 * (1.0 + exp.abs()), "attribute", "{at}: {what} reports {got}, expected {exp}");
                c.count("attributes_compared", 1);
                if exp.abs() > 1e-6 {
                    c.seen((what.clone(), m.kinds.clone(), (exp * 16.0) as i64));
                    c.count("attributes_nonzero", 1);
                }
            }
        }
        hist.push((0..m.nodes.len()).map(flow).collect());
    }
    if let Some(e) = err {
        let t = tr.steps.len();
        ensure!(t < m.steps, "error-after-end", "{e}");
        let lp = m.lp(t, &vol, &vs, &hist);
        c.count("runs_stopped", 1);
        if let Sol::Opt(_, x) = lp.tightened(1e-6).solve()
            && lp.violated(&x, 1e-7).is_none()
        {
            return Err(viol("feasible-step-failed", format!("step {t}: the documented network has a feasible allocation but the run failed: {e}")));
        }
        return Ok(());
    }
    ensure!(!complete || tr.steps.len() == m.steps, "timestep-count", "{} steps, expected {}", tr.steps.len(), m.steps);
    let _ = close;
    Ok(())
}

fn c22(c: &mut Case) -> Res {
    go(c, false)
}
fn c23(c: &mut Case) -> Res {
    go(c, true)
}

pub fn props() -> Vec<Prop> {
    let a: &[&str] = &[
        "Values compared with tolerances around the solver's feasibility tolerance (1e-5 for flows, 1e-8 for values derived from reported flows).",
        "Loss and split factors are positive; a constant zero loss factor is tested, a varying one that becomes zero is not.",
    ];
    vec![
        Prop { id: "C22", rule: "distinct (composites, optimal cost, edge flows) steps confirmed optimal with flow", assumptions: a, quick: 4000, thorough: 80000, random: c22, directed: &[], threads: 8 },
        Prop { id: "C23", rule: "distinct (attribute, composites, non-zero value) observations", assumptions: a, quick: 4000, thorough: 80000, random: c23, directed: &[], threads: 8 },
    ]
}
