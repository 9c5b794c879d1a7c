//! Reference semantics of a generated network: per time-step and scenario, the documented constraints and
//! costs are stated from the specification and the observed (previous) state.
use crate::ensure;
use crate::fw::{Case, Res, close, viol};
use crate::lp::{Lp, Sol};
use crate::netgen::*;
use crate::run::{Snap, Trace};
use jiff::civil::Date;
use std::collections::VecDeque;

pub const TOL: f64 = 2e-6;

#[derive(Clone, Debug)]
pub struct VsState {
    pub vol: f64,
    pub hist: VecDeque<f64>,
    pub last_reset: Option<Date>,
}

#[derive(Clone, Debug)]
pub struct ScenState {
    /// volumes of the storage nodes at the end of the previous step
    pub vol: Vec<f64>,
    pub vs: Vec<VsState>,
}

pub fn vs_active(v: &GVs, d: Date) -> bool {
    match v.reset {
        Reset::Seasonal(sd, sm, ed, em) => {
            let s = (sm, sd);
            let e = (em, ed);
            let c = (d.month(), d.day());
            if s <= e { c >= s && c <= e } else { c >= s || c <= e }
        }
        _ => true,
    }
}

/// Edge index lookup: trace edges are in the order of the specification unless the code re-orders them.
pub struct Map {
    pub node: Vec<usize>,
    pub edge: Vec<usize>,
    pub vs: Vec<usize>,
}

pub fn map(net: &Net, tr: &Trace) -> Result<Map, String> {
    let node: Vec<usize> = net
        .nodes
        .iter()
        .map(|n| tr.find(&n.name, None).ok_or(format!("node {} missing from the built network", n.name)))
        .collect::<Result<_, _>>()?;
    let edge = net
        .edges
        .iter()
        .map(|(a, b)| {
            let t = (node[*a], node[*b]);
            tr.edges.iter().position(|e| *e == t).ok_or(format!("edge {a}->{b} missing from the built network"))
        })
        .collect::<Result<_, _>>()?;
    let vs = net
        .vss
        .iter()
        .map(|v| tr.vs.iter().position(|n| *n == v.name).ok_or(format!("virtual storage {} missing", v.name)))
        .collect::<Result<_, _>>()?;
    Ok(Map { node, edge, vs })
}

pub struct StepSpec {
    pub lp: Lp,
    /// rows by category start index
    pub excl: Vec<(Vec<usize>, u64, u64)>,
    pub bounds: Vec<(f64, f64)>,
    pub cost: Vec<f64>,
    /// volume at the start of the step (after initialisation), per node
    pub vol0: Vec<f64>,
    pub dt: f64,
}

impl Net {
    pub fn init_state(&self, s: usize) -> ScenState {
        let si = self.scen_idx(s);
        ScenState {
            vol: self
                .nodes
                .iter()
                .map(|n| {
                    if n.kind != Kind::Storage {
                        return f64::NAN;
                    }
                    match n.init {
                        Init::Abs(v) => v,
                        Init::Prop(p) => p * self.ov(&n.max, f64::INFINITY, 0, &si),
                    }
                })
                .collect(),
            vs: self
                .vss
                .iter()
                .map(|_| VsState {
                    vol: 0.0,
                    hist: VecDeque::new(),
                    last_reset: None,
                })
                .collect(),
        }
    }

    /// Resets and rolling-window recovery at the start of a step.
    pub fn vs_before(&self, st: &mut ScenState, t: usize, si: &[usize]) {
        let d = self.date(t);
        let dt = self.step_days as f64;
        for (v, s) in self.vss.iter().zip(st.vs.iter_mut()) {
            let max = self.v(&v.max, t, si);
            let init = match v.init {
                Init::Abs(x) => x,
                Init::Prop(p) => p * max,
            };
            let due = t == 0
                || !vs_active(v, d)
                || match v.reset {
                    Reset::None | Reset::Never => false,
                    Reset::Annual(dd, mm) => d.day() == dd && d.month() == mm,
                    Reset::Seasonal(dd, mm, _, _) => d.day() == dd && d.month() == mm,
                    Reset::Monthly(n) => {
                        let l = s.last_reset.unwrap();
                        (d.year() - l.year()) as i32 * 12 + d.month() as i32 - l.month() as i32 >= n as i32
                    }
                };
            if due {
                let to = if v.reset_max == Some(true) { max } else { init };
                s.vol = to;
                s.last_reset = Some(d);
                if let Some(w) = v.window {
                    s.hist = std::iter::repeat_n((max - to) / w as f64, w).collect();
                }
            }
            if v.window.is_some() {
                if s.hist.len() >= v.window.unwrap() {
                    s.vol += s.hist.pop_front().unwrap();
                }
            }
        }
        let _ = dt;
    }

    /// Flow "through" a node as a combination of edge columns.
    pub fn flow_cols(&self, i: usize, f: f64) -> Vec<(usize, f64)> {
        let outgoing = !matches!(self.nodes[i].kind, Kind::Output);
        self.edges
            .iter()
            .enumerate()
            .filter(|(_, e)| if outgoing { e.0 == i } else { e.1 == i })
            .map(|(k, _)| (k, f))
            .collect()
    }

    pub fn vs_factor(&self, v: &GVs, k: usize) -> f64 {
        v.factors.as_ref().map(|f| f[k]).unwrap_or(1.0)
    }

    pub fn spec(&self, st: &ScenState, t: usize, si: &[usize]) -> StepSpec {
        let dt = self.step_days as f64;
        let d = self.date(t);
        let mut lp = Lp::new(self.edges.len());
        let mut bounds = vec![];
        let mut cost = vec![];
        let mut in_excl = vec![false; self.nodes.len()];
        let mut excl = vec![];
        for a in &self.aggs {
            if let Rel::Exclusive(lo, hi) = a.rel {
                for n in &a.nodes {
                    in_excl[*n] = true;
                }
                excl.push((a.nodes.clone(), lo, hi));
            }
        }
        for (i, n) in self.nodes.iter().enumerate() {
            let mut c = self.ov(&n.cost, 0.0, t, si);
            if n.cost_agg != 0 {
                for v in self.vss.iter().filter(|v| v.nodes.contains(&i)) {
                    let vc = self.ov(&v.cost, 0.0, t, si);
                    c = match n.cost_agg {
                        1 => c + vc,
                        2 => c.max(vc),
                        _ => c.min(vc),
                    };
                }
            }
            cost.push(c);
            match n.kind {
                Kind::Storage => {
                    let mut co = vec![];
                    for (k, e) in self.edges.iter().enumerate() {
                        if e.1 == i {
                            co.push((k, 1.0));
                            lp.cost[k] += c;
                        }
                        if e.0 == i {
                            co.push((k, -1.0));
                            lp.cost[k] -= c;
                        }
                    }
                    let lo = self.ov(&n.min, 0.0, t, si);
                    let hi = self.ov(&n.max, f64::INFINITY, t, si);
                    bounds.push((lo, hi));
                    lp.row(format!("volume of {}", n.name), &co, (lo - st.vol[i]) / dt, (hi - st.vol[i]) / dt);
                }
                _ => {
                    let (lo, hi) = if n.kind == Kind::Catchment {
                        let f = self.ov(&n.max, 0.0, t, si);
                        (f, f)
                    } else {
                        (self.ov(&n.min, 0.0, t, si), self.ov(&n.max, f64::INFINITY, t, si))
                    };
                    bounds.push((lo, hi));
                    let co = self.flow_cols(i, 1.0);
                    for (k, _) in &co {
                        lp.cost[*k] += c;
                    }
                    if !in_excl[i] {
                        lp.row(format!("flow bounds of {}", n.name), &co, lo, hi);
                    }
                    if n.kind == Kind::Link {
                        let mut co = vec![];
                        for (k, e) in self.edges.iter().enumerate() {
                            if e.1 == i {
                                co.push((k, 1.0));
                            }
                            if e.0 == i {
                                co.push((k, -1.0));
                            }
                        }
                        lp.row(format!("balance of {}", n.name), &co, 0.0, 0.0);
                    }
                }
            }
        }
        for a in &self.aggs {
            let all: Vec<(usize, f64)> = a.nodes.iter().flat_map(|i| self.flow_cols(*i, 1.0)).collect();
            lp.row(
                format!("aggregated bounds of {}", a.name),
                &all,
                self.ov(&a.min, 0.0, t, si),
                self.ov(&a.max, f64::INFINITY, t, si),
            );
            match &a.rel {
                Rel::Bounds | Rel::Exclusive(..) => {}
                Rel::Ratio(f) => {
                    let f0 = self.v(&f[0], t, si);
                    for k in 1..a.nodes.len() {
                        let fk = self.v(&f[k], t, si);
                        let mut co = self.flow_cols(a.nodes[0], fk);
                        co.extend(self.flow_cols(a.nodes[k], -f0));
                        lp.row(format!("ratio {} of {}", k, a.name), &co, 0.0, 0.0);
                    }
                }
                Rel::Proportion(f) => {
                    for k in 1..a.nodes.len() {
                        let fk = self.v(&f[k - 1], t, si);
                        let mut co: Vec<(usize, f64)> = a.nodes.iter().flat_map(|i| self.flow_cols(*i, fk)).collect();
                        co.extend(self.flow_cols(a.nodes[k], -1.0));
                        lp.row(format!("proportion {} of {}", k, a.name), &co, 0.0, 0.0);
                    }
                }
                Rel::Coef(f, rhs) => {
                    let r = self.ov(rhs, 0.0, t, si);
                    let mut co = vec![];
                    for k in 0..a.nodes.len() {
                        co.extend(self.flow_cols(a.nodes[k], self.v(&f[k], t, si)));
                    }
                    lp.row(format!("coefficients of {}", a.name), &co, r, r);
                }
            }
        }
        for (v, s) in self.vss.iter().zip(&st.vs) {
            if !vs_active(v, d) {
                continue;
            }
            let mut co = vec![];
            for (k, i) in v.nodes.iter().enumerate() {
                co.extend(self.flow_cols(*i, -self.vs_factor(v, k)));
            }
            let lo = self.ov(&v.min, 0.0, t, si);
            let hi = self.v(&v.max, t, si);
            lp.row(
                format!("virtual storage {}", v.name),
                &co,
                -(s.vol - lo).max(0.0) / dt,
                (hi - s.vol).max(0.0) / dt,
            );
        }
        StepSpec {
            lp,
            excl,
            bounds,
            cost,
            vol0: st.vol.clone(),
            dt,
        }
    }

    /// Optimal value over all on/off combinations.
    pub fn solve_spec(&self, sp: &StepSpec) -> Sol {
        if sp.excl.is_empty() {
            return sp.lp.solve();
        }
        let mut set: Vec<usize> = sp.excl.iter().flat_map(|e| e.0.clone()).collect();
        set.sort();
        set.dedup();
        let mut best: Option<(f64, Vec<f64>)> = None;
        let mut unknown = None;
        for mask in 0..(1u32 << set.len()) {
            let on = |i: usize| mask >> set.iter().position(|x| *x == i).unwrap() & 1 == 1;
            if !sp.excl.iter().all(|(n, lo, hi)| {
                let c = n.iter().filter(|i| on(**i)).count() as u64;
                c >= *lo && c <= *hi
            }) {
                continue;
            }
            let mut lp = sp.lp.clone();
            for i in &set {
                let (lo, hi) = if on(*i) { sp.bounds[*i] } else { (0.0, 0.0) };
                lp.row("on/off", &self.flow_cols(*i, 1.0), lo, hi);
            }
            match lp.solve() {
                Sol::Opt(v, x) => {
                    if best.as_ref().is_none_or(|b| v < b.0) {
                        best = Some((v, x));
                    }
                }
                Sol::Infeasible => {}
                o => unknown = Some(o),
            }
        }
        match (best, unknown) {
            (Some((v, x)), _) => Sol::Opt(v, x),
            (None, Some(u)) => u,
            _ => Sol::Infeasible,
        }
    }
    /// is a feasible point of the on/off constraints (given the LP rows hold)
    pub fn excl_ok(&self, sp: &StepSpec, x: &[f64], tol: f64) -> Option<String> {
        for (nodes, lo, hi) in &sp.excl {
            let mut must = 0u64;
            let mut may = 0u64;
            for i in nodes {
                let f: f64 = self.flow_cols(*i, 1.0).iter().map(|(k, c)| c * x[*k]).sum();
                let (mn, mx) = sp.bounds[*i];
                if f > tol {
                    must += 1;
                    may += 1;
                    if f < mn - tol * (1.0 + mn) || f > mx + tol * (1.0 + mx.abs()) {
                        return Some(format!("node {} carries {f} while its bounds are [{mn}, {mx}]", self.nodes[*i].name));
                    }
                } else if mn <= tol {
                    may += 1;
                }
            }
            if must > *hi {
                return Some(format!("{must} nodes are active, at most {hi} allowed"));
            }
            if may < *lo {
                return Some(format!("only {may} nodes can count as active, at least {lo} required"));
            }
        }
        None
    }
}

/// Which guarantees to check on a trace.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum What {
    Balance,
    Bounds,
    Optimal,
    Agg,
    Excl,
    Vs,
}

pub fn edge_flows(m: &Map, s: &Snap) -> Vec<f64> {
    m.edge.iter().map(|e| s.edge[*e]).collect()
}

/// Walk a trace against the specification. `err` is the run error, if the run stopped early.
pub fn check(c: &mut Case, net: &Net, tr: &Trace, err: Option<&str>, what: What) -> Res {
    let ns = net.n_scen();
    if tr.steps.is_empty() && tr.nodes.is_empty() {
        if c.counters.contains_key("stopped_by_solver_precision") {
            return Ok(());
        }
        // failed on the first step
        return check_failure(c, net, &(0..ns).map(|s| net.init_state(s)).collect::<Vec<_>>(), 0, err.unwrap_or("no error"), what);
    }
    let m = map(net, tr).map_err(|e| viol("network-structure", e))?;
    ensure!(tr.steps[0].scen.len() == ns, "scenario-count", "{} scenarios simulated, {} specified", tr.steps[0].scen.len(), ns);
    ensure!(err.is_some() || tr.steps.len() == net.nsteps || c.counters.contains_key("stopped_by_solver_precision"), "timestep-count", "{} steps, {} specified", tr.steps.len(), net.nsteps);
    let mut st: Vec<ScenState> = (0..ns).map(|s| net.init_state(s)).collect();
    for (t, step) in tr.steps.iter().enumerate() {
        for s in 0..ns {
            let si = net.scen_idx(s);
            let snap = &step.scen[s];
            let at = format!("t={t} scenario={s}");
            net.vs_before(&mut st[s], t, &si);
            let sp = net.spec(&st[s], t, &si);
            let x = edge_flows(&m, snap);
            match what {
                What::Balance => balance(c, net, &m, &sp, snap, &at)?,
                What::Bounds => bounds(c, net, &m, &sp, snap, t, &si, &at)?,
                What::Optimal => optimal(c, net, &sp, &x, &at)?,
                What::Agg => agg(c, net, &m, snap, t, &si, &at)?,
                What::Excl => {
                    for (nodes, _, _) in &sp.excl {
                        let mask: Vec<bool> = nodes.iter().map(|i| net.flow_cols(*i, 1.0).iter().map(|(k, _)| x[*k]).sum::<f64>() > 1e-6).collect();
                        c.count(&format!("active_{}", mask.iter().filter(|b| **b).count()), 1);
                        c.seen((mask, nodes.clone(), t));
                    }
                    if let Some(e) = net.excl_ok(&sp, &x, 1e-5) {
                        return Err(viol("exclusivity", format!("{at}: {e}")));
                    }
                }
                What::Vs => {}
            }
            // advance the reference state from what was observed
            for (i, n) in net.nodes.iter().enumerate() {
                if n.kind == Kind::Storage {
                    st[s].vol[i] = snap.vol[m.node[i]];
                }
            }
            for (k, v) in net.vss.iter().enumerate() {
                let active = vs_active(v, net.date(t));
                let used: f64 = v
                    .nodes
                    .iter()
                    .enumerate()
                    .map(|(j, i)| net.vs_factor(v, j) * net.flow_cols(*i, 1.0).iter().map(|(k, _)| x[*k]).sum::<f64>())
                    .sum::<f64>()
                    * net.step_days as f64;
                let max = net.v(&v.max, t, &si);
                let min = net.ov(&v.min, 0.0, t, &si);
                let before = st[s].vs[k].vol;
                let obs = snap.vs[m.vs[k]];
                let mut exp = before;
                if active {
                    exp -= used;
                    if v.window.is_some() {
                        st[s].vs[k].hist.push_back(used);
                    }
                }
                let clamped = exp.clamp(min.min(max), max);
                if what == What::Vs {
                    c.count("vs_steps", 1);
                    if used > 1e-9 {
                        c.seen((format!("{:?}", v.reset), v.window, active, (before * 4.0) as i64, (used * 4.0) as i64));
                        c.count("vs_steps_with_use", 1);
                    }
                    if !active {
                        c.count("vs_inactive_steps", 1);
                    }
                    ensure!((exp - clamped).abs() < 1e-5, "vs-out-of-bounds",
                        "{at}: {}: {before} at the start minus use {used} leaves [{min}, {max}]", v.name);
                    ensure!(close(obs, clamped, 1e-6), "vs-volume",
                        "{at}: {}: volume {obs}, expected {clamped} (start {before}, used {used}, active {active}, reset {:?}, window {:?})", v.name, v.reset, v.window);
                    ensure!(obs >= min - 1e-6 && obs <= max + 1e-6, "vs-limits", "{at}: {} volume {obs} outside [{min}, {max}]", v.name);
                    let p = snap.vs_prop[m.vs[k]];
                    let ep = if max == 0.0 { 1.0 } else { obs / max };
                    ensure!(close(p, ep, 1e-9), "vs-proportional", "{at}: {} proportional volume {p}, expected {ep}", v.name);
                }
                st[s].vs[k].vol = clamped;
            }
        }
    }
    if let Some(e) = err {
        return check_failure(c, net, &st, tr.steps.len(), e, what);
    }
    Ok(())
}

/// The run stopped at step `t`: some scenario must really be infeasible there.
fn check_failure(c: &mut Case, net: &Net, st: &[ScenState], t: usize, err: &str, what: What) -> Res {
    ensure!(t < net.nsteps, "error-after-end", "run failed after all steps: {err}");
    let mut all_ok = true;
    let mut txt = String::new();
    for (s, st) in st.iter().enumerate() {
        let si = net.scen_idx(s);
        let mut st = st.clone();
        net.vs_before(&mut st, t, &si);
        let sp = net.spec(&st, t, &si);
        match net.solve_spec(&sp) {
            // a certificate is needed before blaming the code
            Sol::Opt(_, x) if sp.lp.violated(&x, TOL).is_none() && net.excl_ok(&sp, &x, 1e-6).is_none() => {}
            o => {
                all_ok = false;
                txt = format!("{o:?}");
            }
        }
    }
    let _ = txt;
    c.count("steps_rejected_as_infeasible", 1);
    if all_ok && matches!(what, What::Optimal | What::Excl | What::Agg | What::Vs) {
        return Err(viol(
            "feasible-step-failed",
            format!("step {t}: every scenario has a feasible allocation but the run failed: {err}"),
        ));
    }
    Ok(())
}

pub fn balance(c: &mut Case, net: &Net, m: &Map, sp: &StepSpec, s: &Snap, at: &str) -> Res {
    let x = edge_flows(m, s);
    for (k, f) in x.iter().enumerate() {
        ensure!(f.is_finite() && *f >= -1e-7, "negative-edge-flow", "{at}: edge {k} carries {f}");
    }
    for (i, n) in net.nodes.iter().enumerate() {
        let ti = m.node[i];
        let fin: f64 = net.edges.iter().zip(&x).filter(|(e, _)| e.1 == i).map(|(_, f)| f).sum();
        let fout: f64 = net.edges.iter().zip(&x).filter(|(e, _)| e.0 == i).map(|(_, f)| f).sum();
        ensure!(close(s.inflow[ti], fin, 1e-9), "node-inflow", "{at}: {} reports inflow {}, its edges carry {fin}", n.name, s.inflow[ti]);
        ensure!(close(s.outflow[ti], fout, 1e-9), "node-outflow", "{at}: {} reports outflow {}, its edges carry {fout}", n.name, s.outflow[ti]);
        match n.kind {
            Kind::Link => {
                ensure!(close(fin, fout, TOL), "link-balance", "{at}: {} receives {fin} and releases {fout}", n.name);
                c.count("link_balances", 1);
                if fin > 1e-6 {
                    c.seen((i, net.edges.len(), (fin * 64.0) as i64, net.edges.iter().filter(|e| e.1 == i).count(), net.edges.iter().filter(|e| e.0 == i).count()));
                }
            }
            Kind::Storage => {
                let exp = sp.vol0[i] + (fin - fout) * sp.dt;
                ensure!((s.vol[ti] - exp).abs() <= 1e-5 * (1.0 + (fin + fout) * sp.dt), "storage-balance",
                    "{at}: {} volume {} after {} with net inflow {} over {} days", n.name, s.vol[ti], sp.vol0[i], fin - fout, sp.dt);
                c.count("storage_balances", 1);
                if fin + fout > 1e-6 {
                    c.seen((i, 7u8, (fin * 64.0) as i64, (fout * 64.0) as i64, sp.dt as i64));
                }
            }
            _ => {}
        }
    }
    // whole system: what enters is what leaves plus the change in storage
    let src: f64 = net.nodes.iter().enumerate().filter(|(_, n)| matches!(n.kind, Kind::Input | Kind::Catchment)).map(|(i, _)| s.outflow[m.node[i]]).sum();
    let snk: f64 = net.nodes.iter().enumerate().filter(|(_, n)| n.kind == Kind::Output).map(|(i, _)| s.inflow[m.node[i]]).sum();
    let dv: f64 = net.nodes.iter().enumerate().filter(|(_, n)| n.kind == Kind::Storage).map(|(i, _)| s.vol[m.node[i]] - sp.vol0[i]).sum();
    ensure!((src - snk - dv / sp.dt).abs() < 1e-5 * (1.0 + src + snk), "system-balance", "{at}: sources {src}, sinks {snk}, storage change {dv} over {} days", sp.dt);
    c.count("system_balances", 1);
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn bounds(c: &mut Case, net: &Net, m: &Map, sp: &StepSpec, s: &Snap, _t: usize, _si: &[usize], at: &str) -> Res {
    let in_excl = |i: usize| sp.excl.iter().any(|e| e.0.contains(&i));
    for (i, n) in net.nodes.iter().enumerate() {
        let ti = m.node[i];
        let (lo, hi) = sp.bounds[i];
        if n.kind == Kind::Storage {
            let v = s.vol[ti];
            ensure!(v >= lo - 1e-6 && v <= hi + 1e-6, "volume-bounds", "{at}: {} volume {v} outside [{lo}, {hi}]", n.name);
            ensure!(close(s.maxvol[ti], hi, 1e-9), "max-volume", "{at}: {} max volume {} expected {hi}", n.name, s.maxvol[ti]);
            let p = if hi == 0.0 { 1.0 } else { v / hi };
            ensure!(close(s.prop[ti], p, 1e-9), "proportional-volume", "{at}: {} proportional volume {} expected {p}", n.name, s.prop[ti]);
            c.count("volume_bounds", 1);
            if (v - hi).abs() < 1e-6 || (v - lo).abs() < 1e-6 {
                c.count("volume_bounds_tight", 1);
                c.seen((i, (lo * 4.0) as i64, (hi * 4.0) as i64, (v - hi).abs() < 1e-6));
            }
            continue;
        }
        let f = if n.kind == Kind::Output { s.inflow[ti] } else { s.outflow[ti] };
        if in_excl(i) {
            ensure!(f <= hi.max(0.0) + TOL * (1.0 + hi.abs()), "flow-max", "{at}: {} flow {f} above {hi}", n.name);
            ensure!(f <= 1e-5 || f >= lo - TOL * (1.0 + lo), "flow-min-when-active", "{at}: {} flow {f} below {lo}", n.name);
            continue;
        }
        ensure!(f <= hi + TOL * (1.0 + hi.abs()), "flow-max", "{at}: {} flow {f} above {hi}", n.name);
        ensure!(f >= lo - TOL * (1.0 + lo.abs()), "flow-min", "{at}: {} flow {f} below {lo}", n.name);
        c.count("flow_bounds", 1);
        if n.kind == Kind::Catchment {
            ensure!(close(f, hi, TOL), "catchment-flow", "{at}: {} flow {f}, specified {hi}", n.name);
        }
        if (f - hi).abs() < 1e-6 || (lo > 0.0 && (f - lo).abs() < 1e-6) {
            c.count("flow_bounds_tight", 1);
            c.seen((i, (lo * 4.0) as i64, (hi * 4.0) as i64, (f * 4.0) as i64));
        }
    }
    Ok(())
}

fn optimal(c: &mut Case, net: &Net, sp: &StepSpec, x: &[f64], at: &str) -> Res {
    if let Some((w, v, lo, hi)) = sp.lp.violated(x, 1e-5) {
        return Err(viol("infeasible-allocation", format!("{at}: {w}: {v} outside [{lo}, {hi}]")));
    }
    if let Some(e) = net.excl_ok(sp, x, 1e-5) {
        return Err(viol("infeasible-allocation", format!("{at}: {e}")));
    }
    let got = sp.lp.value(x);
    let scale: f64 = 1.0 + sp.lp.cost.iter().zip(x).map(|(c, x)| (c * x).abs()).sum::<f64>();
    match net.solve_spec(sp) {
        Sol::Opt(best, y) => {
            let certified = sp.lp.violated(&y, TOL).is_none() && net.excl_ok(sp, &y, 1e-6).is_none();
            if certified && got > best + 1e-5 * scale {
                return Err(viol(
                    "not-optimal",
                    format!("{at}: allocation costs {got}, a feasible one costs {best}: edges {:?}, observed {x:?}, better {y:?}", net.edges),
                ));
            }
            if !certified {
                c.count("oracle_uncertified", 1);
            } else if got < best - 1e-4 * scale {
                // the reference solver stopped early; the observed allocation is feasible and better
                c.count("oracle_beaten", 1);
            } else {
                c.count("optimality_confirmed", 1);
                if scale > 1.0 + 1e-6 {
                    c.count("optimality_nontrivial", 1);
                    c.seen((net.edges.len(), (best * 16.0) as i64, (scale * 16.0) as i64));
                }
            }
        }
        Sol::Unbounded => {
            return Err(viol("unbounded-accepted", format!("{at}: the allocation problem is unbounded but a solution was reported")));
        }
        Sol::Infeasible | Sol::Unknown(_) => c.count("oracle_uncertified", 1),
    }
    Ok(())
}

fn agg(c: &mut Case, net: &Net, m: &Map, s: &Snap, t: usize, si: &[usize], at: &str) -> Res {
    let flow = |i: usize| {
        let ti = m.node[i];
        if net.nodes[i].kind == Kind::Output { s.inflow[ti] } else { s.outflow[ti] }
    };
    for a in &net.aggs {
        let f: Vec<f64> = a.nodes.iter().map(|i| flow(*i)).collect();
        let tot: f64 = f.iter().sum();
        let lo = net.ov(&a.min, 0.0, t, si);
        let hi = net.ov(&a.max, f64::INFINITY, t, si);
        let tol = 1e-5 * (1.0 + tot.abs());
        ensure!(tot <= hi + tol, "agg-max", "{at}: {} total {tot} above {hi}", a.name);
        ensure!(tot >= lo - tol, "agg-min", "{at}: {} total {tot} below {lo}", a.name);
        c.count("agg_bounds", 1);
        if (tot - hi).abs() < 1e-6 {
            c.count("agg_bounds_tight", 1);
        }
        let k = match &a.rel {
            Rel::Bounds => "bounds",
            Rel::Exclusive(..) => "excl",
            Rel::Ratio(_) => "ratio",
            Rel::Proportion(_) => "proportion",
            Rel::Coef(..) => "coef",
        };
        if tot > 1e-6 {
            c.seen((k, (tot * 16.0) as i64, (hi * 4.0) as i64, (f[0] * 16.0) as i64));
            c.count(&format!("{k}_with_flow"), 1);
        }
        match &a.rel {
            Rel::Bounds | Rel::Exclusive(..) => {}
            Rel::Ratio(r) => {
                let r: Vec<f64> = r.iter().map(|v| net.v(v, t, si)).collect();
                for k in 1..f.len() {
                    ensure!((f[0] * r[k] - f[k] * r[0]).abs() < tol * 10.0, "agg-ratio", "{at}: {} flows {f:?} are not in ratio {r:?}", a.name);
                }
            }
            Rel::Proportion(r) => {
                let r: Vec<f64> = r.iter().map(|v| net.v(v, t, si)).collect();
                for k in 1..f.len() {
                    ensure!((f[k] - r[k - 1] * tot).abs() < tol * 10.0, "agg-proportion", "{at}: {} flows {f:?} do not follow proportions {r:?}", a.name);
                }
            }
            Rel::Coef(r, rhs) => {
                let r: Vec<f64> = r.iter().map(|v| net.v(v, t, si)).collect();
                let b = net.ov(rhs, 0.0, t, si);
                let v: f64 = r.iter().zip(&f).map(|(a, b)| a * b).sum();
                ensure!((v - b).abs() < tol * 10.0, "agg-coefficients", "{at}: {} flows {f:?} with coefficients {r:?} give {v}, expected {b}", a.name);
            }
        }
    }
    Ok(())
}
