//! Random network generator. A `Net` is the specification; it is rendered to the JSON schema (so the
//! complete schema -> core -> solver path is exercised) and independently interpreted by the oracles.
use crate::fw::Rng;
use jiff::ToSpan;
use jiff::civil::{Date, date};
use ndarray::{Array1, Array2};
use pywr_core::models::ModelBuilder;
use pywr_core::network::NetworkBuilder;
use pywr_core::node::{CostAggFunc, UnresolvedNode};
use pywr_core::parameters::{Array1ParameterBuilder, Array2ParameterBuilder};
use pywr_schema::ModelSchema;
use serde_json::{Value, json};
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Input,
    Output,
    Link,
    Storage,
    Catchment,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(f64),
    P(usize),
}

#[derive(Clone, Debug)]
pub enum Init {
    Abs(f64),
    Prop(f64),
}

#[derive(Clone, Debug)]
pub enum PSrc {
    Const(f64),
    /// Injected core array parameter: rows are time-steps, columns scenarios of the group (or one column)
    Array { group: Option<usize>, data: Vec<Vec<f64>> },
    Monthly([f64; 12]),
    Scen { group: usize, vals: Vec<f64> },
    Sum(usize, usize),
    Scaled(usize, f64),
    /// A parameter that depends on the state of a node (so it is computed in the general phase) but
    /// has the value of another parameter.
    General { of: usize, node: usize, attr: &'static str },
}

#[derive(Clone, Debug)]
pub struct GParam {
    pub name: String,
    pub src: PSrc,
}

#[derive(Clone, Debug)]
pub struct GNode {
    pub name: String,
    pub kind: Kind,
    pub min: Option<Val>,
    pub max: Option<Val>,
    pub cost: Option<Val>,
    pub init: Init,
    /// 0 none, 1 sum, 2 max, 3 min
    pub cost_agg: u8,
}

#[derive(Clone, Debug)]
pub enum Rel {
    Bounds,
    Ratio(Vec<Val>),
    Proportion(Vec<Val>),
    Coef(Vec<Val>, Option<Val>),
    Exclusive(u64, u64),
}

#[derive(Clone, Debug)]
pub struct GAgg {
    pub name: String,
    pub nodes: Vec<usize>,
    pub min: Option<Val>,
    pub max: Option<Val>,
    pub rel: Rel,
}

#[derive(Clone, Debug)]
pub enum Reset {
    None,
    Never,
    Annual(i8, i8),
    Monthly(u8),
    Seasonal(i8, i8, i8, i8),
}

#[derive(Clone, Debug)]
pub struct GVs {
    pub name: String,
    pub nodes: Vec<usize>,
    pub factors: Option<Vec<f64>>,
    pub max: Val,
    pub min: Option<Val>,
    pub cost: Option<Val>,
    pub init: Init,
    pub reset: Reset,
    /// None: default (initial), Some(true): Max
    pub reset_max: Option<bool>,
    /// time-steps
    pub window: Option<usize>,
    pub window_in_days: bool,
}

#[derive(Clone, Debug)]
pub struct Net {
    pub nodes: Vec<GNode>,
    pub edges: Vec<(usize, usize)>,
    pub params: Vec<GParam>,
    pub aggs: Vec<GAgg>,
    pub vss: Vec<GVs>,
    pub groups: Vec<usize>,
    pub start: Date,
    pub nsteps: usize,
    pub step_days: i64,
    /// the order in which the nodes are listed in the file (as they are, if empty)
    pub listed: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct GenOpts {
    pub max_links: usize,
    pub storages: usize,
    pub aggs: usize,
    pub excl: bool,
    pub factors: bool,
    pub vs: usize,
    pub min_flow: f64,
    pub dynamic: f64,
    pub scenarios: bool,
    pub steps: (usize, usize),
    pub catchments: bool,
    /// Only features every solver supports (no minimum flows, aggregates or virtual storage)
    pub ipm_only: bool,
    pub cost_agg: bool,
}

impl Default for GenOpts {
    fn default() -> Self {
        GenOpts {
            max_links: 6,
            storages: 2,
            aggs: 1,
            excl: false,
            factors: true,
            vs: 1,
            min_flow: 0.2,
            dynamic: 0.4,
            scenarios: true,
            steps: (4, 14),
            catchments: true,
            ipm_only: false,
            cost_agg: true,
        }
    }
}

struct Gen<'a> {
    r: &'a mut Rng,
    o: &'a GenOpts,
    net: Net,
    /// values are multiples of 1/grid
    grid: f64,
}

impl Gen<'_> {
    fn q(&mut self, lo: f64, hi: f64) -> f64 {
        let g = self.grid;
        let v = (self.r.f(lo, hi) * g).round() / g;
        v.max((lo * g).ceil() / g)
    }

    fn new_param(&mut self, src: PSrc) -> usize {
        let i = self.net.params.len();
        self.net.params.push(GParam {
            name: format!("p{i}"),
            src,
        });
        i
    }

    /// A value in lo..hi, constant or varying by time-step/scenario. `general` permits parameters that
    /// depend on network state.
    fn val(&mut self, lo: f64, hi: f64, general: bool) -> Val {
        if !self.r.chance(self.o.dynamic) {
            return Val::C(self.q(lo, hi));
        }
        let n = self.net.nsteps;
        let src = match self.r.us(0, 6) {
            0 => PSrc::Const(self.q(lo, hi)),
            1 => {
                let mut m = [0.0; 12];
                for x in m.iter_mut() {
                    *x = self.q(lo, hi);
                }
                PSrc::Monthly(m)
            }
            2 if !self.net.groups.is_empty() => {
                let group = self.r.us(0, self.net.groups.len() - 1);
                let vals = (0..self.net.groups[group]).map(|_| self.q(lo, hi)).collect();
                PSrc::Scen { group, vals }
            }
            3 => {
                let a = PSrc::Array {
                    group: None,
                    data: (0..n).map(|_| vec![self.q(lo / 2.0, hi / 2.0)]).collect(),
                };
                let a = self.new_param(a);
                let b = PSrc::Const(self.q(lo / 2.0, hi / 2.0));
                let b = self.new_param(b);
                PSrc::Sum(a, b)
            }
            4 => {
                let k = *self.r.pick(&[0.25, 0.5, 2.0, 4.0]);
                let a = PSrc::Array {
                    group: None,
                    data: (0..n).map(|_| vec![self.q(lo / k, hi / k)]).collect(),
                };
                let a = self.new_param(a);
                PSrc::Scaled(a, k)
            }
            _ => {
                let group = if !self.net.groups.is_empty() && self.r.chance(0.7) {
                    Some(self.r.us(0, self.net.groups.len() - 1))
                } else {
                    None
                };
                let w = group.map(|g| self.net.groups[g]).unwrap_or(1);
                PSrc::Array {
                    group,
                    data: (0..n).map(|_| (0..w).map(|_| self.q(lo, hi)).collect()).collect(),
                }
            }
        };
        let mut p = self.new_param(src);
        if general && self.r.chance(0.4) {
            let node = self.r.us(0, self.net.nodes.len() - 1);
            let attr = match self.net.nodes[node].kind {
                Kind::Storage => *self.r.pick(&["Volume", "ProportionalVolume"]),
                Kind::Output => "Inflow",
                _ => "Outflow",
            };
            p = self.new_param(PSrc::General { of: p, node, attr });
        }
        Val::P(p)
    }

    fn opt(&mut self, p: f64, lo: f64, hi: f64, general: bool) -> Option<Val> {
        if self.r.chance(p) { Some(self.val(lo, hi, general)) } else { None }
    }
}

pub fn generate(r: &mut Rng, o: &GenOpts) -> Net {
    let groups = if o.scenarios {
        match r.us(0, 3) {
            0 => vec![],
            1 => vec![r.us(1, if o.ipm_only { 13 } else { 5 })],
            _ => vec![r.us(1, 3), r.us(1, 3)],
        }
    } else {
        vec![]
    };
    let start = date(r.int(1999, 2024) as i16, r.int(1, 12) as i8, r.int(1, 28) as i8);
    let nsteps = r.us(o.steps.0, o.steps.1);
    let step_days = *r.pick(&[1, 1, 1, 7, 3]);
    let mut g = Gen {
        net: Net {
            nodes: vec![],
            edges: vec![],
            params: vec![],
            aggs: vec![],
            vss: vec![],
            groups,
            start,
            nsteps,
            step_days,
            listed: vec![],
        },
        r,
        o,
        grid: 4.0,
    };
    let n_in = g.r.us(1, 3);
    let n_out = g.r.us(1, 3);
    let n_link = g.r.us(1, o.max_links);
    let n_st = g.r.us(0, o.storages);
    let mut kinds = vec![];
    for _ in 0..n_in {
        kinds.push(if o.catchments && g.r.chance(0.25) { Kind::Catchment } else { Kind::Input });
    }
    if kinds.iter().all(|k| *k == Kind::Catchment) {
        kinds.push(Kind::Input);
    }
    let n_src = kinds.len();
    let mut mid = vec![Kind::Link; n_link];
    mid.extend(vec![Kind::Storage; n_st]);
    g.r.shuffle(&mut mid);
    kinds.extend(mid);
    let n_mid_end = kinds.len();
    kinds.extend(vec![Kind::Output; n_out]);
    for (i, k) in kinds.iter().enumerate() {
        g.net.nodes.push(GNode {
            name: format!("{}{}", match k {
                Kind::Input => "in",
                Kind::Output => "out",
                Kind::Link => "link",
                Kind::Storage => "res",
                Kind::Catchment => "cat",
            }, i),
            kind: *k,
            min: None,
            max: None,
            cost: None,
            init: Init::Abs(0.0),
            cost_agg: 0,
        });
    }
    let n = kinds.len();
    let mut edges: Vec<(usize, usize)> = vec![];
    let add = |edges: &mut Vec<(usize, usize)>, a: usize, b: usize| {
        if !edges.contains(&(a, b)) {
            edges.push((a, b));
        }
    };
    // every middle node gets an upstream among the previous nodes, and everything a downstream
    for b in n_src..n_mid_end {
        let k = if g.r.chance(0.65) { 1 } else { 2 };
        for _ in 0..k {
            let a = g.r.us(0, b - 1);
            add(&mut edges, a, b);
        }
    }
    for b in n_mid_end..n {
        let k = if g.r.chance(0.6) { 1 } else { 2 };
        for _ in 0..k {
            let a = g.r.us(0, n_mid_end - 1);
            add(&mut edges, a, b);
        }
    }
    for a in 0..n_mid_end {
        if !edges.iter().any(|e| e.0 == a) {
            // storages may be terminal
            if kinds[a] == Kind::Storage && g.r.chance(0.15) {
                continue;
            }
            let b = if a < n_src { g.r.us(n_src, n - 1) } else { g.r.us(a + 1, n - 1) };
            add(&mut edges, a, b);
        }
    }
    g.r.shuffle(&mut edges);
    g.net.edges = edges;

    let all_in_bounded = g.r.chance(0.9);
    for i in 0..n {
        let kind = kinds[i];
        let mut nd = g.net.nodes[i].clone();
        match kind {
            Kind::Input => {
                nd.max = if all_in_bounded { Some(g.val(2.0, 30.0, true)) } else { None };
                if !o.ipm_only {
                    nd.min = g.opt(o.min_flow * 0.3, 0.0, 1.5, true);
                }
                nd.cost = g.opt(0.7, if all_in_bounded { -4.0 } else { 0.0 }, 8.0, true);
            }
            Kind::Catchment => {
                nd.max = Some(g.val(0.0, 12.0, true));
                nd.cost = g.opt(0.2, -2.0, 2.0, true);
            }
            Kind::Link => {
                nd.max = g.opt(0.6, 1.0, 20.0, true);
                if !o.ipm_only {
                    nd.min = g.opt(o.min_flow, 0.0, 2.0, true);
                }
                nd.cost = g.opt(0.5, -3.0, 5.0, true);
            }
            Kind::Output => {
                nd.max = if all_in_bounded { g.opt(0.85, 1.0, 20.0, true) } else { Some(g.val(1.0, 20.0, true)) };
                if !o.ipm_only {
                    nd.min = g.opt(o.min_flow, 0.0, 2.0, true);
                }
                nd.cost = g.opt(0.85, -20.0, 2.0, true);
            }
            Kind::Storage => {
                nd.max = Some(if g.r.chance(0.85) { Val::C(g.r.q(10.0, 120.0)) } else { g.val(40.0, 80.0, false) });
                nd.min = if g.r.chance(0.35) { Some(if g.r.chance(0.8) { Val::C(g.r.q(0.0, 9.0)) } else { g.val(0.0, 8.0, false) }) } else { None };
                nd.init = if g.r.chance(0.5) { Init::Prop(*g.r.pick(&[0.25, 0.5, 0.75, 1.0])) } else { Init::Abs(g.r.q(9.0, 10.0)) };
                nd.cost = g.opt(0.7, -12.0, 4.0, true);
            }
        }
        if !o.ipm_only && g.r.chance(0.06) && matches!(kind, Kind::Link | Kind::Output) {
            // a closed node
            nd.max = Some(Val::C(0.0));
            nd.min = None;
        }
        g.net.nodes[i] = nd;
    }
    if !o.ipm_only {
        let flow_nodes: Vec<usize> = (0..n).filter(|i| kinds[*i] != Kind::Storage && kinds[*i] != Kind::Catchment).collect();
        let na = g.r.us(0, o.aggs);
        for k in 0..na {
            let mut c = flow_nodes.clone();
            g.r.shuffle(&mut c);
            let m = g.r.us(2, 3.min(c.len()).max(2)).min(c.len());
            if m < 2 {
                break;
            }
            let nodes: Vec<usize> = c[..m].to_vec();
            let rel = match g.r.us(0, 5) {
                0 | 1 => Rel::Bounds,
                2 if o.factors => Rel::Ratio((0..m).map(|_| g.val(0.5, 4.0, true)).collect()),
                3 if o.factors => {
                    g.grid = 16.0;
                    let f = (0..m - 1).map(|_| g.val(0.125, 0.75 / (m as f64 - 1.0), true)).collect();
                    g.grid = 4.0;
                    Rel::Proportion(f)
                }
                4 if o.factors && m == 2 => {
                    let f1 = g.val(0.5, 3.0, true);
                    let f2 = match g.val(0.5, 3.0, true) {
                        Val::C(c) if g.r.chance(0.5) => Val::C(-c),
                        v => v,
                    };
                    let rhs = g.opt(0.5, 0.0, 4.0, true);
                    Rel::Coef(vec![f1, f2], rhs)
                }
                _ => Rel::Bounds,
            };
            let max = match rel {
                Rel::Bounds => g.opt(0.85, 1.0, 25.0, true),
                _ => g.opt(0.25, 3.0, 25.0, true),
            };
            let min = g.opt(o.min_flow, 0.0, 2.0, true);
            g.net.aggs.push(GAgg {
                name: format!("agg{k}"),
                nodes,
                min,
                max,
                rel,
            });
        }
        if o.excl {
            for k in 0..g.r.us(1, 2) {
                let mut c = flow_nodes.clone();
                g.r.shuffle(&mut c);
                let m = g.r.us(2, 4).min(c.len());
                if m < 2 {
                    break;
                }
                let nodes: Vec<usize> = c[..m].to_vec();
                let hi = g.r.us(1, (m - 1).max(1)) as u64;
                let lo = if g.r.chance(0.25) { g.r.us(0, hi as usize) as u64 } else { 0 };
                // a minimum flow is what distinguishes "on" from "off"
                for i in &nodes {
                    if g.r.chance(0.4) {
                        let v = g.val(0.5, 3.0, true);
                        g.net.nodes[*i].min = Some(v);
                    }
                    if g.r.chance(0.8) && g.net.nodes[*i].max.is_none() {
                        let v = g.val(4.0, 15.0, true);
                        g.net.nodes[*i].max = Some(v);
                    }
                }
                g.net.aggs.push(GAgg {
                    name: format!("excl{k}"),
                    nodes,
                    min: None,
                    max: None,
                    rel: Rel::Exclusive(lo, hi),
                });
            }
        }
        let nv = g.r.us(0, o.vs);
        for k in 0..nv {
            let mut c: Vec<usize> = (0..n).filter(|i| kinds[*i] != Kind::Storage).collect();
            g.r.shuffle(&mut c);
            let m = g.r.us(1, 3).min(c.len());
            let nodes: Vec<usize> = c[..m].to_vec();
            let factors = if g.r.chance(0.6) {
                let mut f: Vec<f64> = (0..m).map(|_| *g.r.pick(&[0.5, 1.0, 2.0, 1.5, 0.25])).collect();
                // flows of some nodes may fill the storage
                if g.r.chance(0.15) {
                    let i = g.r.us(0, m - 1);
                    f[i] = -f[i];
                }
                Some(f)
            } else {
                None
            };
            let fills = factors.as_ref().is_some_and(|f: &Vec<f64>| f.iter().any(|x| *x < 0.0));
            let max = Val::C(g.r.q(20.0, 150.0));
            let maxc = if let Val::C(c) = max { c } else { 0.0 };
            let init = match g.r.us(0, 2) {
                0 => Init::Prop(1.0),
                1 => Init::Prop(*g.r.pick(&[0.5, 0.75])),
                _ => Init::Abs((maxc * *g.r.pick(&[0.5, 1.0]) * 4.0).floor() / 4.0),
            };
            let d0 = g.net.start.checked_add((g.r.int(1, (nsteps as i64) * step_days).max(1)).days()).unwrap();
            // also seasons that wrap over the year end, with both ends in the same month or not
            let d1 = d0.checked_add(g.r.int(-20, 20).days()).unwrap();
            let reset = match g.r.us(0, 5) {
                0 => Reset::None,
                1 => Reset::Never,
                2 => {
                    // on an actual time-step so that it triggers
                    let t = g.r.int(0, nsteps as i64 - 1);
                    let d = g.net.start.checked_add((t * step_days).days()).unwrap();
                    Reset::Annual(d.day(), d.month())
                }
                3 => Reset::Monthly(g.r.int(1, 3) as u8),
                4 => Reset::Seasonal(d0.day(), d0.month(), d1.day(), d1.month()),
                _ => Reset::Never,
            };
            let window = if g.r.chance(0.35) && !fills { Some(g.r.us(1, 6)) } else { None };
            let cost = g.opt(0.4, -6.0, 8.0, true);
            let min = if g.r.chance(0.3) { Some(Val::C(g.r.q(0.0, 6.0))) } else { None };
            g.net.vss.push(GVs {
                name: format!("vs{k}"),
                nodes: nodes.clone(),
                factors,
                max,
                min,
                cost,
                init,
                reset,
                reset_max: *g.r.pick(&[None, Some(false), Some(true)]),
                window,
                window_in_days: g.r.chance(0.5),
            });
            if o.cost_agg {
                for i in nodes {
                    if g.r.chance(0.6) && all_in_bounded {
                        g.net.nodes[i].cost_agg = g.r.us(1, 3) as u8;
                    }
                }
            }
        }
    }
    if g.r.chance(0.6) {
        let mut l: Vec<usize> = (0..g.net.nodes.len()).collect();
        g.r.shuffle(&mut l);
        g.net.listed = l;
    }
    g.net
}

impl Net {
    pub fn date(&self, t: usize) -> Date {
        self.start.checked_add((self.step_days * t as i64).days()).unwrap()
    }
    pub fn n_scen(&self) -> usize {
        self.groups.iter().product::<usize>().max(1)
    }
    /// simulation indices of scenario s (first group varies slowest)
    pub fn scen_idx(&self, s: usize) -> Vec<usize> {
        let mut out = vec![0; self.groups.len()];
        let mut r = s;
        for (i, g) in self.groups.iter().enumerate().rev() {
            out[i] = r % g;
            r /= g;
        }
        out
    }
    pub fn pval(&self, p: usize, t: usize, si: &[usize]) -> f64 {
        match &self.params[p].src {
            PSrc::Const(c) => *c,
            PSrc::Array { group, data } => data[t][group.map(|g| si[g]).unwrap_or(0)],
            PSrc::Monthly(m) => m[self.date(t).month() as usize - 1],
            PSrc::Scen { group, vals } => vals[si[*group]],
            PSrc::Sum(a, b) => self.pval(*a, t, si) + self.pval(*b, t, si),
            PSrc::Scaled(a, k) => self.pval(*a, t, si) * k,
            PSrc::General { of, .. } => self.pval(*of, t, si),
        }
    }
    pub fn v(&self, v: &Val, t: usize, si: &[usize]) -> f64 {
        match v {
            Val::C(c) => *c,
            Val::P(p) => self.pval(*p, t, si),
        }
    }
    pub fn ov(&self, v: &Option<Val>, def: f64, t: usize, si: &[usize]) -> f64 {
        v.as_ref().map(|v| self.v(v, t, si)).unwrap_or(def)
    }
    fn jval(&self, v: &Val) -> Value {
        match v {
            Val::C(c) => json!({"type":"Literal","value":c}),
            Val::P(p) => json!({"type":"Parameter","name":self.params[*p].name}),
        }
    }
    pub fn json(&self) -> Value {
        let mut nodes = vec![];
        for n in &self.nodes {
            let mut j = json!({"meta":{"name":n.name}});
            let o = j.as_object_mut().unwrap();
            let (ty, mn, mx) = match n.kind {
                Kind::Input => ("Input", "min_flow", "max_flow"),
                Kind::Output => ("Output", "min_flow", "max_flow"),
                Kind::Link => ("Link", "min_flow", "max_flow"),
                Kind::Storage => ("Storage", "min_volume", "max_volume"),
                Kind::Catchment => ("Catchment", "-", "flow"),
            };
            o.insert("type".into(), json!(ty));
            if let Some(v) = &n.min {
                o.insert(mn.into(), self.jval(v));
            }
            if let Some(v) = &n.max {
                o.insert(mx.into(), self.jval(v));
            }
            if let Some(v) = &n.cost {
                o.insert("cost".into(), self.jval(v));
            }
            if n.kind == Kind::Storage {
                o.insert(
                    "initial_volume".into(),
                    match n.init {
                        Init::Abs(v) => json!({"type":"Absolute","volume":v}),
                        Init::Prop(v) => json!({"type":"Proportional","proportion":v}),
                    },
                );
            }
            nodes.push(j);
        }
        if self.listed.len() == nodes.len() {
            nodes = self.listed.iter().map(|i| nodes[*i].clone()).collect();
        }
        let mut virt = vec![];
        for a in &self.aggs {
            let mut j = json!({"meta":{"name":a.name},"type":"Aggregated",
                "nodes": a.nodes.iter().map(|i| json!({"name":self.nodes[*i].name})).collect::<Vec<_>>()});
            let o = j.as_object_mut().unwrap();
            if let Some(v) = &a.min {
                o.insert("min_flow".into(), self.jval(v));
            }
            if let Some(v) = &a.max {
                o.insert("max_flow".into(), self.jval(v));
            }
            let js = |f: &Vec<Val>| f.iter().map(|v| self.jval(v)).collect::<Vec<_>>();
            match &a.rel {
                Rel::Bounds => {}
                Rel::Ratio(f) => {
                    o.insert("relationship".into(), json!({"type":"Ratio","factors":js(f)}));
                }
                Rel::Proportion(f) => {
                    o.insert("relationship".into(), json!({"type":"Proportion","factors":js(f)}));
                }
                Rel::Coef(f, rhs) => {
                    let mut r = json!({"type":"Coefficients","factors":js(f)});
                    if let Some(v) = rhs {
                        r.as_object_mut().unwrap().insert("rhs".into(), self.jval(v));
                    }
                    o.insert("relationship".into(), r);
                }
                Rel::Exclusive(lo, hi) => {
                    o.insert("relationship".into(), json!({"type":"Exclusive","min_active":lo,"max_active":hi}));
                }
            }
            virt.push(j);
        }
        for a in &self.vss {
            let mut j = json!({"meta":{"name":a.name},"type":"VirtualStorage",
                "nodes": a.nodes.iter().map(|i| json!({"name":self.nodes[*i].name})).collect::<Vec<_>>(),
                "max_volume": self.jval(&a.max),
                "initial_volume": match a.init {
                    Init::Abs(v) => json!({"type":"Absolute","volume":v}),
                    Init::Prop(v) => json!({"type":"Proportional","proportion":v}),
                }});
            let o = j.as_object_mut().unwrap();
            if let Some(f) = &a.factors {
                o.insert("factors".into(), json!(f));
            }
            if let Some(v) = &a.min {
                o.insert("min_volume".into(), self.jval(v));
            }
            if let Some(v) = &a.cost {
                o.insert("cost".into(), self.jval(v));
            }
            match &a.reset {
                Reset::None => {}
                Reset::Never => {
                    o.insert("reset".into(), json!({"type":"Never"}));
                }
                Reset::Annual(d, m) => {
                    o.insert("reset".into(), json!({"type":"Annual","day":d,"month":m}));
                }
                Reset::Monthly(m) => {
                    o.insert("reset".into(), json!({"type":"Monthly","months":m}));
                }
                Reset::Seasonal(a, b, c, d) => {
                    o.insert("reset".into(), json!({"type":"Seasonal","start_day":a,"start_month":b,"end_day":c,"end_month":d}));
                }
            }
            if let Some(b) = a.reset_max {
                o.insert("reset_volume".into(), json!(if b { "Max" } else { "Initial" }));
            }
            if let Some(w) = a.window {
                o.insert(
                    "window".into(),
                    if a.window_in_days {
                        json!({"type":"Days","days": w as i64 * self.step_days})
                    } else {
                        json!({"type":"Timesteps","timesteps":w})
                    },
                );
            }
            virt.push(j);
        }
        let mut params = vec![];
        for p in &self.params {
            let meta = json!({"name":p.name});
            let r = |i: usize| json!({"type":"Parameter","name":self.params[i].name});
            match &p.src {
                PSrc::Const(c) => params.push(json!({"meta":meta,"type":"Constant","value":{"type":"Literal","value":c}})),
                PSrc::Array { .. } => {}
                PSrc::Monthly(m) => {
                    params.push(json!({"meta":meta,"type":"MonthlyProfile","values":{"type":"Literal","values":m}}))
                }
                PSrc::Scen { group, vals } => params.push(
                    json!({"meta":meta,"type":"ConstantScenario","scenario_group":format!("g{group}"),"values":{"type":"Literal","values":vals}}),
                ),
                PSrc::Sum(a, b) => params.push(
                    json!({"meta":meta,"type":"Aggregated","phase":"Before","agg_func":{"type":"Sum"},"metrics":[r(*a),r(*b)]}),
                ),
                PSrc::Scaled(a, k) => params.push(
                    json!({"meta":meta,"type":"Aggregated","phase":"Before","agg_func":{"type":"Product"},"metrics":[{"type":"Literal","value":k},r(*a)]}),
                ),
                PSrc::General { of, node, attr } => {
                    let z = format!("{}z", p.name);
                    params.push(json!({"meta":{"name":z},"type":"Aggregated","phase":"Before","agg_func":{"type":"Product"},
                        "metrics":[{"type":"Node","name":self.nodes[*node].name,"attribute":attr},{"type":"Literal","value":0.0}]}));
                    params.push(json!({"meta":meta,"type":"Aggregated","phase":"Before","agg_func":{"type":"Sum"},"metrics":[r(*of),{"type":"Parameter","name":z}]}));
                }
            }
        }
        let end = self.date(self.nsteps - 1);
        let mut j = json!({
            "metadata":{"title":"generated"},
            "time":{"start":self.start.to_string(),"end":end.to_string(),"timestep":{"type":"Days","days":self.step_days}},
            "network":{"nodes":nodes,
                "edges": self.edges.iter().map(|(a,b)| json!({"from_node":self.nodes[*a].name,"to_node":self.nodes[*b].name})).collect::<Vec<_>>(),
                "parameters":params, "virtual_nodes":virt},
        });
        if !self.groups.is_empty() {
            j["scenarios"] = json!({"groups": self.groups.iter().enumerate().map(|(i,n)| json!({"name":format!("g{i}"),"size":n})).collect::<Vec<_>>()});
        }
        j
    }

    /// Description including injected arrays, for replay files.
    pub fn describe(&self) -> Value {
        let arr: Vec<Value> = self
            .params
            .iter()
            .filter_map(|p| match &p.src {
                PSrc::Array { group, data } => Some(json!({"name":p.name,"group":group,"data":data})),
                _ => None,
            })
            .collect();
        let ca: Vec<Value> = self.nodes.iter().filter(|n| n.cost_agg != 0).map(|n| json!([n.name, n.cost_agg])).collect();
        json!({"model": self.json(), "arrays": arr, "cost_agg": ca})
    }

    pub fn builder(&self) -> Result<ModelBuilder, String> {
        let js = self.json().to_string();
        let schema = ModelSchema::from_str(&js).map_err(|e| format!("schema: {e}"))?;
        let mut mb = schema.create_model_builder(None, None).map_err(|e| format!("load: {e:?}"))?;
        self.inject(&mut mb);
        Ok(mb)
    }

    pub fn inject(&self, mb: &mut ModelBuilder) {
        self.inject_params(mb.network_builder());
    }

    pub fn inject_params(&self, nb: &mut NetworkBuilder) {
        for p in &self.params {
            if let PSrc::Array { group, data } = &p.src {
                match group {
                    None => {
                        let a = Array1::from(data.iter().map(|r| r[0]).collect::<Vec<_>>());
                        nb.parameters().f64(Box::new(Array1ParameterBuilder::new(p.name.as_str().into(), a)));
                    }
                    Some(g) => {
                        let a = Array2::from_shape_fn((data.len(), data[0].len()), |(i, j)| data[i][j]);
                        nb.parameters().f64(Box::new(Array2ParameterBuilder::new(p.name.as_str().into(), a, &format!("g{g}"))));
                    }
                }
            }
        }
        for n in &self.nodes {
            let f = match n.cost_agg {
                1 => CostAggFunc::Sum,
                2 => CostAggFunc::Max,
                3 => CostAggFunc::Min,
                _ => continue,
            };
            nb.node_builder(&UnresolvedNode::new(&n.name, None)).expect("node").cost_agg_func(f);
        }
    }
}

impl Net {
    fn scale_val(&mut self, v: &Option<Val>, k: f64, done: &mut Vec<usize>) -> Option<Val> {
        match v {
            Some(Val::C(x)) => Some(Val::C(x * k)),
            Some(Val::P(p)) => {
                self.scale_param(*p, k, done);
                Some(Val::P(*p))
            }
            None => None,
        }
    }
    fn scale_param(&mut self, p: usize, k: f64, done: &mut Vec<usize>) {
        assert!(!done.contains(&p), "a parameter is used for two quantities");
        done.push(p);
        let mut next = vec![];
        match &mut self.params[p].src {
            PSrc::Const(x) => *x *= k,
            PSrc::Array { data, .. } => data.iter_mut().flatten().for_each(|x| *x *= k),
            PSrc::Monthly(m) => m.iter_mut().for_each(|x| *x *= k),
            PSrc::Scen { vals, .. } => vals.iter_mut().for_each(|x| *x *= k),
            PSrc::Sum(a, b) => next = vec![*a, *b],
            PSrc::Scaled(a, _) => next = vec![*a],
            PSrc::General { of, .. } => next = vec![*of],
        }
        for n in next {
            self.scale_param(n, k, done);
        }
    }
    /// The same model in other units: flows and volumes multiplied by `fs`, costs by `cs`.
    pub fn rescale(&mut self, fs: f64, cs: f64) {
        let mut done = vec![];
        let init = |i: &mut Init| {
            if let Init::Abs(x) = i {
                *x *= fs
            }
        };
        for i in 0..self.nodes.len() {
            let n = self.nodes[i].clone();
            self.nodes[i].min = self.scale_val(&n.min, fs, &mut done);
            self.nodes[i].max = self.scale_val(&n.max, fs, &mut done);
            self.nodes[i].cost = self.scale_val(&n.cost, cs, &mut done);
            init(&mut self.nodes[i].init);
        }
        for i in 0..self.aggs.len() {
            let a = self.aggs[i].clone();
            self.aggs[i].min = self.scale_val(&a.min, fs, &mut done);
            self.aggs[i].max = self.scale_val(&a.max, fs, &mut done);
            if let Rel::Coef(f, rhs) = a.rel {
                let rhs = self.scale_val(&rhs, fs, &mut done);
                self.aggs[i].rel = Rel::Coef(f, rhs);
            }
        }
        for i in 0..self.vss.len() {
            let v = self.vss[i].clone();
            self.vss[i].max = self.scale_val(&Some(v.max.clone()), fs, &mut done).unwrap();
            self.vss[i].min = self.scale_val(&v.min, fs, &mut done);
            self.vss[i].cost = self.scale_val(&v.cost, cs, &mut done);
            init(&mut self.vss[i].init);
        }
    }
}
