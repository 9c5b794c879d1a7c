//! The interior-point solver (C29).
use super::alloc::execute;
use crate::ensure;
use crate::fw::{Case, Prop, Res, viol};
use crate::netgen::{GenOpts, Kind, Net, generate};
use crate::oracle;
use crate::run::{self, SolverSel, Trace};

/// The allocation of every completed time-step satisfies the constraints, up to the tolerances of the solver, and no
/// other one is better.
fn allocations(c: &mut Case, net: &Net, tr: &Trace) -> Res {
    if tr.steps.is_empty() {
        return Ok(());
    }
    let m = oracle::map(net, tr).map_err(|e| viol("network-structure", e))?;
    let ns = net.n_scen();
    ensure!(tr.steps[0].scen.len() == ns, "scenario-count", "{} scenarios simulated, {ns} specified", tr.steps[0].scen.len());
    let mut st: Vec<_> = (0..ns).map(|s| net.init_state(s)).collect();
    for (t, step) in tr.steps.iter().enumerate() {
        for s in 0..ns {
            let si = net.scen_idx(s);
            let snap = &step.scen[s];
            let at = format!("t={t} scenario={s} of {ns}");
            let sp = net.spec(&st[s], t, &si);
            let x = oracle::edge_flows(&m, snap);
            if let Some((w, v, lo, hi)) = sp.lp.violated(&x, 1e-5) {
                return Err(viol("infeasible", format!("{at}: {w} is {v}, limits [{lo}, {hi}]")));
            }
            oracle::balance(c, net, &m, &sp, snap, &at)?;
            c.count("allocations", 1);
            if let crate::lp::Sol::Opt(best, y) = net.solve_spec(&sp) {
                let got: f64 = x.iter().zip(&sp.lp.cost).map(|(a, b)| a * b).sum();
                let scale = 1.0 + x.iter().chain(&y).zip(sp.lp.cost.iter().chain(&sp.lp.cost)).map(|(a, b)| (a * b).abs()).sum::<f64>();
                // where nothing can or should flow the method only comes close to zero
                let tol = if best.abs() < 0.1 { 0.1 } else { 1e-2 * scale };
                ensure!(sp.lp.violated(&y, 1e-7).is_some() || got <= best + tol, "not-optimal", "{at}: costs {got}, an allocation costs {best}: flows {x:?} instead of {y:?}");
                if scale > 1.0 + 1e-6 {
                    c.count("allocations_with_cost", 1);
                    c.seen((ns, s % 4, (got * 8.0) as i64));
                }
            }
            for (i, n) in net.nodes.iter().enumerate() {
                if n.kind == Kind::Storage {
                    st[s].vol[i] = snap.vol[m.node[i]];
                }
            }
        }
    }
    Ok(())
}

fn c29(c: &mut Case) -> Res {
    let base = GenOpts { steps: if c.thorough { (4, 30) } else { (3, 10) }, dynamic: 0.5, ..Default::default() };
    let sel = SolverSel::Ipm(c.rng.us(1, 4));
    match c.rng.us(0, 9) {
        0..=6 => {
            let net = generate(&mut c.rng, &GenOpts { ipm_only: true, catchments: false, min_flow: 0.0, aggs: 0, vs: 0, ..base });
            let (tr, err) = execute(c, &net, sel)?;
            ensure!(err.is_some() || tr.steps.len() == net.nsteps, "timestep-count", "{} steps, {} specified", tr.steps.len(), net.nsteps);
            if let Some(e) = &err {
                // the method does not always find a solution, and says so
                ensure!(e.contains("NaN encountered") || e.contains("failed to converged") || e.contains("Non-finite") || e.contains("Mass-balance"), "stopped", "{e}");
                c.count("stopped_without_solution", 1);
            }
            allocations(c, &net, &tr)
        }
        _ => {
            // models with what it does not have
            let excl = c.rng.chance(0.3);
            let net = loop {
                let net = generate(&mut c.rng, &GenOpts { aggs: 2, vs: 1, excl, min_flow: 0.0, catchments: false, ..base });
                if !net.aggs.is_empty() || !net.vss.is_empty() {
                    break net;
                }
            };
            if c.rng.chance(0.3) {
                // told to ignore this, it runs them as if these were not there
                let j = net.json();
                let sel = SolverSel::IpmIgnoring(c.rng.us(1, 4));
                let (tr, err) = execute(c, &net, sel)?;
                match err {
                    None => ensure!(tr.steps.len() == net.nsteps, "timestep-count", "{} steps, {} specified", tr.steps.len(), net.nsteps),
                    Some(e) => ensure!(!e.to_lowercase().contains("missing solver features"), "ignoring-refused", "{e} in {j}"),
                }
                c.count("run_without_features", 1);
                return Ok(());
            }
            let (tr, err) = execute(c, &net, sel)?;
            let Some(e) = err else {
                return Err(viol("feature-ignored", format!("a model with {} aggregated nodes and {} virtual storages is run without them", net.aggs.len(), net.vss.len())));
            };
            ensure!(tr.steps.is_empty() && e.to_lowercase().contains("missing solver features"), "feature-ignored", "stopped after {} steps: {e}", tr.steps.len());
            c.count("refused_for_features", 1);
            c.seen((net.aggs.iter().map(|a| std::mem::discriminant(&a.rel)).collect::<Vec<_>>(), net.vss.len()));
            Ok(())
        }
    }
}

/// A catchment, of which the flow has to be taken although there is a cost.
fn minimum_flow(c: &mut Case) -> Res {
    let m = serde_json::json!({
        "metadata": {"title": "a"},
        "time": {"start": "2021-01-01", "end": "2021-01-03", "timestep": {"type": "Days", "days": 1}},
        "network": {
            "nodes": [
                {"meta": {"name": "in"}, "type": "Catchment", "flow": {"type": "Literal", "value": 4.0}},
                {"meta": {"name": "out"}, "type": "Output", "cost": {"type": "Literal", "value": 1.0}}
            ],
            "edges": [{"from_node": "in", "to_node": "out"}]
        }
    });
    c.desc = m.clone();
    let schema: pywr_schema::ModelSchema = m.to_string().parse().map_err(|e| viol("model-rejected", format!("{e:?}")))?;
    let mb = schema.create_model_builder(None, None).map_err(|e| viol("model-rejected", format!("{e:?}")))?;
    let (model, out) = run::build(mb, vec![]).map_err(|e| viol("model-rejected", e.text()))?;
    let r = run::exec(&model, SolverSel::Ipm(1));
    let tr = std::mem::take(&mut *out.lock().unwrap());
    for st in &tr.steps {
        let f = st.scen[0].edge[0];
        ensure!((f - 4.0).abs() < 1e-3, "below-minimum", "the catchment delivers {f} instead of 4 on {}", st.date);
    }
    // (an error would do)
    c.count(if r.is_ok() { "minimum_kept" } else { "minimum_refused" }, 1);
    Ok(())
}

/// The method finds a solution nearly always: of a hundred networks at most fifteen may stop without one (about two do).
fn mostly_solved(c: &mut Case) -> Res {
    c.desc = serde_json::json!("a hundred networks");
    let mut stops = vec![];
    for k in 0..100 {
        let net = generate(&mut c.rng, &GenOpts { ipm_only: true, catchments: false, min_flow: 0.0, aggs: 0, vs: 0, steps: (3, 6), dynamic: 0.5, ..Default::default() });
        let sel = SolverSel::Ipm(1 + k % 3);
        let (_, err) = execute(c, &net, sel)?;
        if let Some(e) = err {
            stops.push(e);
        }
    }
    c.count("runs_of_the_hundred_stopped", stops.len() as u64);
    ensure!(stops.len() <= 15, "seldom-solved", "{} of a hundred networks stop without a solution, the first with {}", stops.len(), stops[0]);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "distinct (number of scenarios, place in a group of four, cost) of allocations with a cost confirmed as least, and distinct models refused",
        assumptions: &["The interior-point method may stop without a solution (the run then fails with an error); the frequency of this is reported."],
        quick: 4000,
        thorough: 60000,
        random: c29,
        directed: &[("minimum-flow", minimum_flow), ("mostly-solved-1", mostly_solved), ("mostly-solved-2", mostly_solved)],
        threads: 8,
    }]
}
