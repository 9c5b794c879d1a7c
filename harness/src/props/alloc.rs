//! Properties of the allocation made in every time-step (C01 - C06).
use crate::fw::{Case, Prop, Res, viol};
use crate::netgen::{GParam, GenOpts, Net, PSrc, Rel, Val, generate};
use crate::oracle::{self, What};
use crate::run::{self, RunErr, SolverSel};
use serde_json::json;
use std::str::FromStr;

/// Run a generated network; returns the trace and the error if the run stopped.
pub fn execute(c: &mut Case, net: &Net, sel: SolverSel) -> Result<(run::Trace, Option<String>), crate::fw::Violation> {
    c.desc = net.describe();
    let mb = net.builder().map_err(|e| viol("model-rejected", e))?;
    let (model, out) = run::build(mb, vec![]).map_err(|e| viol("model-rejected", e.text()))?;
    let r = run::exec(&model, sel);
    let tr = std::mem::take(&mut *out.lock().unwrap());
    c.count("runs", 1);
    c.count("steps_observed", tr.steps.len() as u64);
    c.count("scenario_steps_observed", tr.steps.iter().map(|s| s.scen.len() as u64).sum());
    match r {
        Ok(_) => Ok((tr, None)),
        Err(RunErr::Panic(p)) if solver_precision(&p) => {
            c.count("stopped_by_solver_precision", 1);
            Ok((tr, None))
        }
        Err(RunErr::Panic(p)) => {
            // Parallel stepping reports solver failures by panicking; for the serial runner a panic is never acceptable.
            if matches!(sel, SolverSel::HighsPar(_) | SolverSel::Ipm(_) | SolverSel::IpmIgnoring(_)) {
                Ok((tr, Some(p)))
            } else {
                Err(viol(format!("panic:{}", p.rsplit(" @ ").next().unwrap_or("")), p))
            }
        }
        Err(e) => Ok((tr, Some(e.text()))),
    }
}

/// The volume guard is an absolute tolerance of 1e-6, which is close to the feasibility tolerance of the solvers
/// multiplied by the length of a time-step. A run stopped by a deviation of that size is inconclusive.
pub fn solver_precision(msg: &str) -> bool {
    if !msg.contains("Mass-balance error") {
        return false;
    }
    let nums: Vec<f64> = msg.split(['(', ')']).skip(1).step_by(2).filter_map(|s| s.parse().ok()).collect();
    nums.len() >= 2 && (nums[0] - nums[1]).abs() < 2e-5
}

fn solver(c: &mut Case) -> SolverSel {
    match c.rng.us(0, 9) {
        0 => SolverSel::HighsPar(3),
        1 | 2 => SolverSel::Microlp,
        _ => SolverSel::Highs,
    }
}

fn go(c: &mut Case, o: GenOpts, what: What) -> Res {
    let o = GenOpts {
        steps: if c.thorough { (4, 40) } else { o.steps },
        ..o
    };
    let mut net = generate(&mut c.rng, &o);
    // Most networks should not be infeasible at once: drop minimum flows from those which are.
    for _ in 0..4 {
        let si = net.scen_idx(0);
        let mut st = net.init_state(0);
        net.vs_before(&mut st, 0, &si);
        if matches!(net.solve_spec(&net.spec(&st, 0, &si)), crate::lp::Sol::Opt(..)) || c.rng.chance(0.1) {
            break;
        }
        net = generate(&mut c.rng, &o);
    }
    // Some models in other units: very small or large flows, and large or small costs.
    if !o.excl && c.rng.chance(0.3) {
        let fs = *c.rng.pick(&[1.0, 1.0, 1.0 / 16384.0, 1.0 / 128.0, 64.0]);
        let cs = *c.rng.pick(&[1.0, 1.0, 1.0 / 64.0, 512.0, 65536.0]);
        net.rescale(fs, cs);
        c.count("models_in_other_units", 1);
    }
    let sel = solver(c);
    let (tr, err) = execute(c, &net, sel)?;
    c.count(&format!("solver_{sel:?}"), 1);
    // Rarely (1 in some 20000 of these models) HiGHS reports a MIP as solved to optimality with values that are not
    // numbers; another solver, given the same problem, shows whether the problem was at fault.
    if o.excl && !matches!(sel, SolverSel::Microlp) && tr.steps.iter().any(|s| s.scen.iter().any(|x| x.edge.iter().any(|f| f.is_nan()))) {
        c.count("highs_mip_not_a_number", 1);
        let (tr, err) = execute(c, &net, SolverSel::Microlp)?;
        return oracle::check(c, &net, &tr, err.as_deref(), what);
    }
    let r = oracle::check(c, &net, &tr, err.as_deref(), what);
    if let Err(v) = &r {
        // The MIP presolve of the bundled HiGHS reports some feasible problems as infeasible (about 1 in 3000 of these
        // models; the problem handed to it is right and is solved with presolve off). The failure is only blamed on
        // the code here if another solver, given the same problem, fails as well.
        if v.sig == "feasible-step-failed" && o.excl && !matches!(sel, SolverSel::Microlp) {
            let (tr2, err2) = execute(c, &net, SolverSel::Microlp)?;
            if err2.is_none() || tr2.steps.len() > tr.steps.len() {
                c.count("highs_mip_false_infeasible", 1);
                return oracle::check(c, &net, &tr2, err2.as_deref(), what);
            }
        }
    }
    r
}

fn c01(c: &mut Case) -> Res {
    go(c, GenOpts { excl: false, storages: 3, ..Default::default() }, What::Balance)
}
fn c02(c: &mut Case) -> Res {
    let excl = c.rng.chance(0.15);
    go(c, GenOpts { excl, dynamic: 0.55, ..Default::default() }, What::Bounds)
}
fn c03(c: &mut Case) -> Res {
    let excl = c.rng.chance(0.15);
    go(c, GenOpts { excl, aggs: 2, vs: 2, ..Default::default() }, What::Optimal)
}
/// Factors that are no relationship: the run stops with an error at the time-step in which they are.
fn bad_factors(c: &mut Case) -> Res {
    let o = GenOpts { aggs: 3, vs: 0, storages: 1, dynamic: 0.3, min_flow: 0.0, catchments: false, ..Default::default() };
    let (mut net, k) = loop {
        let net = generate(&mut c.rng, &o);
        if let Some(k) = (0..net.aggs.len()).find(|k| matches!(net.aggs[*k].rel, Rel::Ratio(_) | Rel::Proportion(_))) {
            break (net, k);
        }
    };
    let (t0, s0) = (c.rng.us(0, net.nsteps - 1), c.rng.us(0, net.n_scen() - 1));
    let rel = net.aggs[k].rel.clone();
    let (ratio, old) = match &rel {
        Rel::Ratio(f) => (true, f.clone()),
        Rel::Proportion(f) => (false, f.clone()),
        _ => unreachable!(),
    };
    // what is wrong with the value of one of them
    let i = c.rng.us(0, old.len() - 1);
    let kind = c.rng.us(0, 3);
    let bad = match kind {
        0 => -c.rng.q(0.25, 2.0),
        1 if !ratio => 1.0,
        2 if !ratio => 1.0 + c.rng.q(0.0, 3.0),
        _ if ratio && i == 0 => -0.25,
        _ => 0.0,
    };
    let constant = c.rng.chance(0.3);
    let mut new = old.clone();
    let from = if constant {
        new[i] = Val::C(bad);
        0
    } else {
        // as it was until then, and only wrong in one scenario
        let cols = net.groups.first().copied().unwrap_or(1);
        let fine = c.rng.f(0.0625, 0.125);
        let mut data = vec![vec![fine; cols]; net.nsteps + 1];
        data[t0][if net.groups.is_empty() { 0 } else { net.scen_idx(s0)[0] }] = bad;
        let group = (!net.groups.is_empty()).then_some(0);
        let name = "wrong-factor".to_string();
        net.params.push(GParam { name, src: PSrc::Array { group, data } });
        new[i] = Val::P(net.params.len() - 1);
        t0
    };
    net.aggs[k].rel = if ratio { Rel::Ratio(new) } else { Rel::Proportion(new) };
    let sel = solver(c);
    let (tr, err) = match execute(c, &net, sel) {
        Err(v) if v.sig == "model-rejected" => (run::Trace::default(), Some(v.msg)),
        r => r?,
    };
    crate::ensure!(err.is_some(), "wrong-factors-accepted", "factor {i} of aggregated node {k} is {bad} at step {from} in scenario {s0}, but the run went on to its end");
    crate::ensure!(tr.steps.len() <= from, "wrong-factors-accepted", "factor {i} of aggregated node {k} is {bad} at step {from}, but the run stopped after {} steps only: {err:?}", tr.steps.len());
    c.count("wrong_factors_refused", 1);
    if tr.steps.len() == from {
        c.count("wrong_factors_refused_at_their_step", 1);
    }
    c.seen((7u8, ratio, i, kind, constant, from));
    Ok(())
}

fn c04(c: &mut Case) -> Res {
    if c.rng.chance(0.1) {
        return bad_factors(c);
    }
    go(c, GenOpts { aggs: 3, vs: 0, storages: 1, dynamic: 0.5, min_flow: 0.1, ..Default::default() }, What::Agg)
}
/// A sub-node of a route of `exclusive_sets`.
struct Sub {
    name: String,
    sub: Option<String>,
    max: Option<[f64; 2]>,
    cost: [f64; 2],
    to_dem: bool,
}

/// Exclusive relationships between sets of nodes: components of composite nodes, which may overlap.
fn exclusive_sets(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut nodes = vec![];
    let mut edges = vec![];
    let mut params = vec![];
    let mut subs: Vec<Sub> = vec![];
    // reference (name, component) and the sub-nodes it stands for
    let mut refs: Vec<(serde_json::Value, Vec<usize>)> = vec![];
    let mut val = |r: &mut crate::fw::Rng, lo: f64, hi: f64| -> (serde_json::Value, [f64; 2]) {
        let a = r.q(lo, hi);
        if r.chance(0.5) {
            (json!({"type":"Literal","value":a}), [a, a])
        } else {
            let b = r.q(lo, hi);
            let n = format!("p{}", params.len());
            let mut v = vec![b; 12];
            v[0] = a;
            params.push(json!({"meta":{"name":n},"type":"MonthlyProfile","values":{"type":"Literal","values":v}}));
            (json!({"type":"Parameter","name":n}), [a, b])
        }
    };
    let (inj, inmax) = val(r, 20.0, 80.0);
    let (outj, outmax) = val(r, 5.0, 40.0);
    let (ocj, ocost) = val(r, -60.0, -20.0);
    let (dcj, dcost) = val(r, -40.0, 5.0);
    nodes.push(json!({"meta":{"name":"in"},"type":"Input","max_flow":inj}));
    nodes.push(json!({"meta":{"name":"out"},"type":"Output","max_flow":outj,"cost":ocj}));
    nodes.push(json!({"meta":{"name":"dem"},"type":"Output","cost":dcj}));
    let k = r.us(2, 4);
    for i in 0..k {
        let name = format!("r{i}");
        edges.push(json!({"from_node":"in","to_node":name}));
        edges.push(json!({"from_node":name,"to_node":"out"}));
        let s0 = subs.len();
        let sub = |s: &str| Some(s.to_string());
        match if i == 0 { 2 } else { r.us(0, 3) } {
            0 => {
                let (m, mv) = val(r, 1.0, 20.0);
                let (co, cv) = val(r, -5.0, 5.0);
                nodes.push(json!({"meta":{"name":name},"type":"Link","max_flow":m,"cost":co}));
                subs.push(Sub { name: name.clone(), sub: None, max: Some(mv), cost: cv, to_dem: false });
                refs.push((json!({"name":name}), vec![s0]));
            }
            1 => {
                let n = r.us(2, 3);
                let mut steps = vec![];
                for s in 0..n {
                    let (m, mv) = val(r, 1.0, 10.0);
                    let (co, cv) = val(r, -5.0, 5.0);
                    steps.push(json!({"max_flow":m,"cost":co}));
                    subs.push(Sub { name: name.clone(), sub: Some(format!("step-{s:02}")), max: Some(mv), cost: cv, to_dem: false });
                }
                nodes.push(json!({"meta":{"name":name},"type":"PiecewiseLink","steps":steps}));
                refs.push((json!({"name":name}), (s0..s0 + n).collect()));
            }
            _ => {
                let (m, mv) = val(r, 1.0, 15.0);
                let (co, cv) = val(r, -5.0, 5.0);
                let mut j = json!({"meta":{"name":name},"type":"Abstraction","abs_max_flow":m,"abs_cost":co});
                subs.push(Sub { name: name.clone(), sub: sub("abstraction"), max: Some(mv), cost: cv, to_dem: true });
                subs.push(Sub { name: name.clone(), sub: sub("bypass"), max: None, cost: [0.0; 2], to_dem: false });
                let mut outs = vec![s0 + 1];
                if r.chance(0.5) {
                    let (m, mv) = val(r, 1.0, 15.0);
                    let (co, cv) = val(r, -8.0, 2.0);
                    j["mrf"] = m;
                    j["mrf_cost"] = co;
                    subs.push(Sub { name: name.clone(), sub: sub("mrf"), max: Some(mv), cost: cv, to_dem: false });
                    outs.push(s0 + 2);
                }
                nodes.push(j);
                edges.push(json!({"from_node":name,"to_node":"dem","from_slot":{"type":"Abstraction"}}));
                refs.push((json!({"name":name,"component":"Inflow"}), (s0..subs.len()).collect()));
                refs.push((json!({"name":name,"component":"Outflow"}), outs));
                refs.push((json!({"name":name,"component":"Abstraction"}), vec![s0]));
            }
        }
    }
    let mut excl: Vec<(Vec<Vec<usize>>, u64, u64)> = vec![];
    let mut virt = vec![];
    for e in 0..r.us(1, 3) {
        let mut rs = refs.clone();
        r.shuffle(&mut rs);
        rs.truncate(r.us(2, 3).min(refs.len()));
        let hi = r.us(1, rs.len() - 1) as u64;
        let lo = if r.chance(0.3) { r.us(0, hi as usize) as u64 } else { 0 };
        let mut rel = json!({"type":"Exclusive"});
        if hi != 1 || r.chance(0.5) {
            rel["max_active"] = json!(hi);
        }
        if lo != 0 || r.chance(0.5) {
            rel["min_active"] = json!(lo);
        }
        virt.push(json!({"meta":{"name":format!("e{e}")},"type":"Aggregated","nodes":rs.iter().map(|x| x.0.clone()).collect::<Vec<_>>(),"relationship":rel}));
        excl.push((rs.into_iter().map(|x| { let mut v = x.1; v.sort(); v }).collect(), lo, hi));
    }
    r.shuffle(&mut nodes);
    let model = json!({"metadata":{"title":"generated"},"time":{"start":"2020-01-30","end":"2020-02-03","timestep":{"type":"Days","days":1}},
        "network":{"nodes":nodes,"edges":edges,"parameters":params,"virtual_nodes":virt}});
    c.desc = json!({"model": model});
    let mut sets: Vec<Vec<usize>> = excl.iter().flat_map(|e| e.0.clone()).collect();
    sets.sort();
    sets.dedup();
    // reference: the least cost over all on/off patterns of the sets
    let best = |m: usize| -> f64 {
        let mut best = f64::INFINITY;
        for mask in 0..(1u32 << sets.len()) {
            let on = |s: &Vec<usize>| mask >> sets.iter().position(|x| x == s).unwrap() & 1 == 1;
            if !excl.iter().all(|(ss, lo, hi)| {
                let n = ss.iter().filter(|s| on(s)).count() as u64;
                n >= *lo && n <= *hi
            }) {
                continue;
            }
            let mut lp = crate::lp::Lp::new(subs.len());
            let all = |f: &dyn Fn(&Sub) -> bool| -> Vec<(usize, f64)> { subs.iter().enumerate().filter(|(_, s)| f(s)).map(|(i, _)| (i, 1.0)).collect() };
            lp.row("in", &all(&|_| true), 0.0, inmax[m]);
            lp.row("out", &all(&|s| !s.to_dem), 0.0, outmax[m]);
            for (i, s) in subs.iter().enumerate() {
                lp.cost[i] = s.cost[m] + if s.to_dem { dcost[m] } else { ocost[m] };
                let off = sets.iter().any(|x| x.contains(&i) && !on(x));
                lp.row("sub", &[(i, 1.0)], 0.0, if off { 0.0 } else { s.max.map(|x| x[m]).unwrap_or(1e6) });
            }
            if let crate::lp::Sol::Opt(v, _) = lp.solve() {
                best = best.min(v);
            }
        }
        best
    };
    let best = [best(0), best(1)];
    let first = solver(c);
    for sel in [first, SolverSel::Microlp] {
        let mb = pywr_schema::ModelSchema::from_str(&model.to_string())
            .map_err(|e| viol("model-rejected", format!("{e:?}")))?
            .create_model_builder(None, None)
            .map_err(|e| viol("model-rejected", format!("{e:?}")))?;
        let (m, out) = run::build(mb, vec![]).map_err(|e| viol("model-rejected", e.text()))?;
        let res = run::exec(&m, sel);
        let tr = std::mem::take(&mut *out.lock().unwrap());
        if let Err(e) = res {
            // The same sets can be asked to be more active in one relationship than another allows.
            if best.iter().any(|b| b.is_infinite()) {
                c.count("contradictory_sets", 1);
                continue;
            }
            // see `go` about HiGHS and false reports of infeasibility
            if matches!(sel, SolverSel::Microlp) {
                return Err(viol("feasible-step-failed", format!("no flow at all is feasible, but the run failed: {}", e.text())));
            }
            c.count("highs_mip_false_infeasible", 1);
            continue;
        }
        c.count("set_runs", 1);
        for (t, st) in tr.steps.iter().enumerate() {
            let mth = (t >= 2) as usize;
            let s = &st.scen[0];
            let f: Vec<f64> = subs.iter().map(|x| s.inflow[tr.find(&x.name, x.sub.as_deref()).expect("sub-node")]).collect();
            // a flow that is within the solver's integrality tolerance of its on/off variable is not active
            let act = |x: &Vec<usize>| x.iter().any(|i| f[*i] > subs[*i].max.map(|m| 1e-4 + 1e-5 * m[mth]).unwrap_or(1.5));
            for (ss, _, hi) in &excl {
                let n = ss.iter().filter(|x| act(x)).count() as u64;
                crate::ensure!(n <= *hi, "exclusive-sets", "t={t}: {n} of {ss:?} active, at most {hi} allowed: flows {f:?}");
            }
            let got: f64 = subs.iter().zip(&f).map(|(s, f)| f * (s.cost[mth] + if s.to_dem { dcost[mth] } else { ocost[mth] })).sum();
            // (tied sets of equal nodes allow trickles, which only make the result better)
            crate::ensure!(got <= best[mth] + 1e-4 * (1.0 + best[mth].abs()), "exclusive-not-optimal", "t={t}: allocation costs {got}, the best one {}: flows {f:?}", best[mth]);
            c.count("set_steps", 1);
            c.seen((5u8, sets.len(), sets.iter().map(act).collect::<Vec<_>>(), (got * 8.0) as i64));
        }
        break;
    }
    Ok(())
}

fn c05(c: &mut Case) -> Res {
    if c.rng.chance(0.3) {
        return exclusive_sets(c);
    }
    go(c, GenOpts { excl: true, aggs: 0, vs: 0, storages: 1, min_flow: 0.0, steps: (2, 6), ..Default::default() }, What::Excl)
}
fn c06(c: &mut Case) -> Res {
    go(c, GenOpts { vs: 3, aggs: 0, storages: 1, min_flow: 0.03, steps: (8, 30), ..Default::default() }, What::Vs)
}

pub fn props() -> Vec<Prop> {
    let a: &[&str] = &[
        "Values compared with an absolute and relative tolerance around the LP solver's feasibility tolerance (1e-7 to 1e-5).",
        "The reference allocation is accepted as better only with a feasibility certificate checked against the specification.",
    ];
    vec![
        Prop { id: "C01", rule: "distinct (node, edge structure, flow quantised to 1/64) observations with non-zero flow through a link or storage", assumptions: a, quick: 5000, thorough: 120000, random: c01, directed: &[], threads: 8 },
        Prop { id: "C02", rule: "distinct (node, bounds, flow) observations in which a bound was tight", assumptions: a, quick: 3000, thorough: 60000, random: c02, directed: &[], threads: 8 },
        Prop { id: "C03", rule: "distinct (structure, optimal cost) steps confirmed optimal with a non-zero cost", assumptions: a, quick: 2500, thorough: 45000, random: c03, directed: &[], threads: 8 },
        Prop { id: "C04", rule: "distinct (relationship, total, limit, first flow) observations of an aggregate that carried flow", assumptions: a, quick: 5000, thorough: 120000, random: c04, directed: &[], threads: 8 },
        Prop { id: "C05", rule: "distinct on/off patterns observed per set of nodes and step", assumptions: a, quick: 1200, thorough: 14000, random: c05, directed: &[], threads: 8 },
        Prop { id: "C06", rule: "distinct (reset, window, activity, volume, use) virtual storage steps with non-zero use", assumptions: a, quick: 5000, thorough: 120000, random: c06, directed: &[], threads: 8 },
    ]
}
