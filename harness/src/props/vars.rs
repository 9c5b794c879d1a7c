//! C26: values set through the variable API.
use super::params::rbf_profile;
use crate::fw::{Case, Prop, Res, guard, viol};
use crate::run;
use crate::ensure;
use pywr_core::metric::UnresolvedMetricF64 as UM;
use pywr_core::parameters::{ActivationFunction, RbfProfileVariableConfig};
use pywr_core::solvers::{HighsSolver, HighsSolverSettings};
use pywr_core::models::ModelTimings;
use pywr_core::network::NetworkTimings;
use pywr_schema::ModelSchema;
use serde_json::{Value, json};
use std::str::FromStr;

#[derive(Clone, Debug)]
enum Var {
    Constant(f64),
    /// base value by scenario
    Offset(Vec<f64>, f64),
    Rbf(Vec<(u32, f64)>, &'static str, f64),
}

/// What was set in a scenario.
#[derive(Clone, Debug, Default, PartialEq)]
struct Set {
    f: Option<Vec<f64>>,
    u: Option<Vec<u32>>,
}

fn apply(a: &ActivationFunction, x: f64) -> f64 {
    match a {
        ActivationFunction::Unit { min, max } => x.max(*min).min(*max),
        ActivationFunction::Rectifier { min, max, neg_value } => {
            if x <= 0.0 {
                *neg_value
            } else {
                min + x.min(1.0) * (max - min)
            }
        }
        ActivationFunction::BinaryStep { pos_value, neg_value } => {
            if x <= 0.0 {
                *neg_value
            } else {
                *pos_value
            }
        }
        ActivationFunction::Logistic { growth_rate, max } => max / (1.0 + (-growth_rate * x.clamp(-6.0, 6.0)).exp()),
    }
}

fn c26(c: &mut Case) -> Res {
    let r = &mut c.rng;
    // model
    let groups: Vec<usize> = (0..r.us(0, 2)).map(|_| r.us(1, 4)).collect();
    let ns: usize = groups.iter().product();
    let nv = r.us(1, 4);
    let mut vars = vec![];
    let mut pars: Vec<Value> = vec![];
    let mut nodes = vec![];
    let mut edges = vec![];
    for i in 0..nv {
        let name = format!("p{i}");
        let v = match r.us(0, 4) {
            0 => {
                let x = r.q(0.0, 20.0);
                pars.push(json!({"meta":{"name":name},"type":"Constant","value":{"type":"Literal","value":x}}));
                Var::Constant(x)
            }
            1 | 2 => {
                let off = r.q(-5.0, 20.0);
                let (base, metric) = if !groups.is_empty() && r.chance(0.7) {
                    let g = r.us(0, groups.len() - 1);
                    let vals: Vec<f64> = (0..groups[g]).map(|_| r.q(-10.0, 20.0)).collect();
                    pars.push(json!({"meta":{"name":format!("b{i}")},"type":"ConstantScenario","scenario_group":format!("g{g}"),"values":{"type":"Literal","values":vals}}));
                    let after: usize = groups[g + 1..].iter().product();
                    ((0..ns).map(|s| vals[s / after % groups[g]]).collect(), json!({"type":"Parameter","name":format!("b{i}")}))
                } else {
                    let x = r.q(-10.0, 20.0);
                    (vec![x; ns], json!({"type":"Literal","value":x}))
                };
                pars.push(json!({"meta":{"name":name},"type":"Offset","offset":{"type":"Literal","value":off},"metric":metric}));
                Var::Offset(base, off)
            }
            _ => {
                let n = r.us(1, 4);
                let pts = points(r, n);
                let f = *r.pick(&["Linear", "Cubic", "Gaussian", "MultiQuadric", "InverseMultiQuadric"]);
                let e = *r.pick(&[0.02, 0.03125, 0.05]);
                let mut fj = json!({"type":f});
                if !matches!(f, "Linear" | "Cubic") {
                    fj["epsilon"] = json!(e);
                }
                pars.push(json!({"meta":{"name":name},"type":"RbfProfile","points":pts,"function":fj}));
                Var::Rbf(pts, f, e)
            }
        };
        vars.push(v);
        // a node that the value limits
        pars.push(json!({"meta":{"name":format!("m{i}")},"type":"Max","parameter":{"type":"Parameter","name":name},"threshold":0.0}));
        let limit = r.us(0, 2);
        let mut a = json!({"meta":{"name":format!("in{i}")},"type":"Input"});
        let mut b = json!({"meta":{"name":format!("out{i}")},"type":"Output","cost":{"type":"Literal","value":-1.0}});
        (if limit == 0 { &mut a } else { &mut b })["max_flow"] = json!({"type":"Parameter","name":format!("m{i}")});
        if limit == 2 {
            b["min_flow"] = json!({"type":"Parameter","name":format!("m{i}")});
        }
        nodes.push(a);
        nodes.push(b);
        edges.push(json!({"from_node":format!("in{i}"),"to_node":format!("out{i}")}));
    }
    let steps = r.us(2, if c.thorough { 24 } else { 8 });
    let hop = *r.pick(&[1usize, 1, 7, 30]);
    let start = r.us(1, 28);
    let month = r.us(1, 12);
    let first = jiff_date(2019 + r.us(0, 2) as i16, month as i8, start as i8);
    let last = first.checked_add(jiff::Span::new().days(((steps - 1) * hop) as i64)).unwrap();
    let mut j = json!({"metadata":{"title":"t"},"time":{"start":first.to_string(),"end":last.to_string(),"timestep":{"type":"Days","days":hop}},
        "network":{"nodes":nodes,"edges":edges,"parameters":pars}});
    if !groups.is_empty() {
        j["scenarios"] = json!({"groups":groups.iter().enumerate().map(|(i, n)| json!({"name":format!("g{i}"),"size":n})).collect::<Vec<_>>()});
    }
    c.desc = json!({"model": j});
    let m = ModelSchema::from_str(&j.to_string()).map_err(|e| viol("file-rejected", e.to_string()))?;
    let mb = m.create_model_builder(None, None).map_err(|e| viol("build", format!("{e:?}")))?;
    let probes = (0..nv).map(|i| (format!("p{i}"), UM::new_parameter_before(format!("p{i}").as_str()))).collect();
    let (model, out) = run::build(mb, probes).map_err(|e| viol("build", e.text()))?;
    let settings = HighsSolverSettings::default();
    let mut state = guard(|| model.setup::<HighsSolver>(&settings)).map_err(|p| viol("panic", p))?.map_err(|e| viol("setup", format!("{e:?}")))?;
    let idx: Vec<_> = (0..nv).map(|i| model.network().get_parameter_index_by_name(&format!("p{i}").as_str().into()).expect("index")).collect();
    let scenarios = model.domain().scenarios().indices().to_vec();
    ensure!(scenarios.len() == ns, "scenarios", "{} scenarios", scenarios.len());
    let mut set = vec![vec![Set::default(); ns]; nv];
    let mut ops: Vec<String> = vec![];
    let mut const_without_effect = None;
    let mut rest = false;
    let mut t = 0;
    while t < steps {
        for _ in 0..c.rng.us(0, if t == 0 { 5 } else { 2 }) {
            let r = &mut c.rng;
            let (v, s) = (r.us(0, nv - 1), r.us(0, ns - 1));
            let all = r.chance(0.4);
            let wrong = r.chance(0.12);
            let net = model.network();
            let st = state.network_state_mut();
            let (res, what): (Result<(), String>, String) = match &vars[v] {
                Var::Rbf(pts, ..) if r.chance(0.5) => {
                    let mut x: Vec<u32> = points(r, pts.len()).iter().map(|p| p.0).collect();
                    if wrong {
                        if r.chance(0.5) { x.push(99) } else { x.pop(); }
                    }
                    let cfg = RbfProfileVariableConfig::new(Some(r.us(1, 200) as u32), 100.0, -100.0);
                    let res = guard(|| if all { net.set_u32_parameter_variable_values(idx[v], &x, &cfg, st) } else { net.set_u32_parameter_variable_values_for_scenario(idx[v], scenarios[s].clone(), &x, &cfg, st) });
                    let what = format!("t{t} p{v} {} days {x:?}", if all { "all".to_string() } else { s.to_string() });
                    for k in 0..ns {
                        if (all || k == s) && !wrong {
                            set[v][k].u = Some(x.clone());
                        }
                    }
                    (res.map_err(|p| viol("panic", p))?.map_err(|e| e.to_string()), what)
                }
                Var::Rbf(pts, ..) => {
                    let mut y: Vec<f64> = pts.iter().map(|_| r.q(-10.0, 30.0)).collect();
                    if wrong {
                        if r.chance(0.5) { y.push(9.0) } else { y.pop(); }
                    }
                    let cfg = RbfProfileVariableConfig::new(None, 100.0, -100.0);
                    let res = guard(|| if all { net.set_f64_parameter_variable_values(idx[v], &y, &cfg, st) } else { net.set_f64_parameter_variable_values_for_scenario(idx[v], scenarios[s].clone(), &y, &cfg, st) });
                    let what = format!("t{t} p{v} {} values {y:?}", if all { "all".to_string() } else { s.to_string() });
                    for k in 0..ns {
                        if (all || k == s) && !wrong {
                            set[v][k].f = Some(y.clone());
                        }
                    }
                    (res.map_err(|p| viol("panic", p))?.map_err(|e| e.to_string()), what)
                }
                _ => {
                    let lo = r.q(-10.0, 10.0);
                    let a = match r.us(0, 3) {
                        0 => ActivationFunction::Unit { min: lo, max: lo + r.q(0.0, 20.0) },
                        1 => ActivationFunction::Rectifier { min: lo, max: lo + r.q(0.0, 20.0), neg_value: r.q(-9.0, 9.0) },
                        2 => ActivationFunction::BinaryStep { pos_value: r.q(0.0, 9.0), neg_value: r.q(-9.0, 9.0) },
                        _ => ActivationFunction::Logistic { growth_rate: r.q(0.1, 3.0), max: r.q(0.5, 20.0) },
                    };
                    let x = match r.us(0, 3) {
                        0 => 0.0,
                        1 => r.f(-1.5, 1.5),
                        2 => r.f(-30.0, 30.0),
                        _ => r.f(-8.0, 8.0),
                    };
                    let (lb, ub) = match &a {
                        ActivationFunction::Unit { min, max } => (*min, *max),
                        ActivationFunction::Logistic { .. } => (-6.0, 6.0),
                        _ => (-1.0, 1.0),
                    };
                    let p = net.get_parameter(idx[v]).unwrap().as_f64_variable().expect("variable");
                    ensure!(p.size(&a) == 1 && p.get_lower_bounds(&a) == Some(vec![lb]) && p.get_upper_bounds(&a) == Some(vec![ub]), "bounds", "bounds {:?} {:?} instead of {lb} {ub}", p.get_lower_bounds(&a), p.get_upper_bounds(&a));
                    let x = if wrong { if r.chance(0.5) { vec![] } else { vec![x, 1.0] } } else { vec![x] };
                    let res = guard(|| if all { net.set_f64_parameter_variable_values(idx[v], &x, &a, st) } else { net.set_f64_parameter_variable_values_for_scenario(idx[v], scenarios[s].clone(), &x, &a, st) });
                    let what = format!("t{t} p{v} {} value {x:?}", if all { "all".to_string() } else { s.to_string() });
                    for k in 0..ns {
                        if (all || k == s) && !wrong {
                            set[v][k].f = Some(vec![apply(&a, x[0])]);
                        }
                    }
                    (res.map_err(|p| viol("panic", p))?.map_err(|e| e.to_string()), what)
                }
            };
            ops.push(what.clone());
            c.desc = json!({"model": j, "ops": ops});
            match (wrong, res) {
                (true, Ok(())) => return Err(viol("wrong-number-accepted", what)),
                (false, Err(e)) => return Err(viol("refused", format!("{what}: {e}"))),
                (true, _) => c.count("refused", 1),
                _ => c.count(if all { "set in all scenarios" } else { "set in one scenario" }, 1),
            }
        }
        // what is set can be read back
        let net = model.network();
        let st = state.network_state();
        for v in 0..nv {
            if let Var::Rbf(pts, ..) = &vars[v] {
                let (hi, range) = (c.rng.q(-10.0, 90.0), if c.rng.chance(0.3) { None } else { Some(c.rng.us(0, 400) as u32) });
                let lo = hi - c.rng.q(0.0, 50.0);
                let cfg = RbfProfileVariableConfig::new(range, hi, lo);
                let p = net.get_parameter(idx[v]).unwrap();
                let n = pts.len();
                let f = p.as_f64_variable().expect("variable");
                ensure!(f.size(&cfg) == n && f.get_lower_bounds(&cfg) == Some(vec![lo; n]) && f.get_upper_bounds(&cfg) == Some(vec![hi; n]), "bounds", "values of p{v}: {:?} {:?} instead of {lo} {hi}", f.get_lower_bounds(&cfg), f.get_upper_bounds(&cfg));
                let u = p.as_u32_variable().expect("variable");
                let lb = range.map(|g| pts.iter().map(|p| (p.0 as i64 - g as i64).max(1) as u32).collect::<Vec<_>>());
                let ub = range.map(|g| pts.iter().map(|p| (p.0 + g).min(365)).collect::<Vec<_>>());
                ensure!(u.size(&cfg) == if range.is_some() { n } else { 0 } && u.get_lower_bounds(&cfg) == lb && u.get_upper_bounds(&cfg) == ub, "bounds", "days of p{v} (range {range:?}, points {pts:?}): {:?} {:?} instead of {lb:?} {ub:?}", u.get_lower_bounds(&cfg), u.get_upper_bounds(&cfg));
            }
            let all = net.get_f64_parameter_variable_values(idx[v], st).map_err(|e| viol("read", e.to_string()))?;
            ensure!(all.len() == ns, "read-back", "{} scenarios", all.len());
            for s in 0..ns {
                let one = net.get_f64_parameter_variable_values_for_scenario(idx[v], scenarios[s].clone(), st).map_err(|e| viol("read", e.to_string()))?;
                let close = |a: &Option<Vec<f64>>| match (a, &set[v][s].f) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-12 * (1.0 + y.abs())),
                    _ => false,
                };
                ensure!(close(&one) && close(&all[s]), "read-back", "after {ops:?}: p{v} scenario {s}: {one:?}, {:?} instead of {:?}", all[s], set[v][s].f);
                if matches!(vars[v], Var::Rbf(..)) {
                    let one = net.get_u32_parameter_variable_values_for_scenario(idx[v], scenarios[s].clone(), st).map_err(|e| viol("read", e.to_string()))?;
                    ensure!(one == set[v][s].u, "read-back", "after {ops:?}: p{v} scenario {s}: {one:?} instead of {:?}", set[v][s].u);
                } else {
                    ensure!(net.get_u32_parameter_variable_values_for_scenario(idx[v], scenarios[s].clone(), st).is_err(), "read-back", "p{v} has days");
                }
                c.count("read back", 1);
            }
        }
        // the step, or all that are left
        rest = c.rng.chance(0.1);
        let res = guard(|| {
            if rest {
                let mut timings = ModelTimings::new_with_component_timings(model.network());
                model.run_with_state::<HighsSolver>(&mut state, &settings, &mut timings).map_err(|e| format!("{e:?}"))
            } else {
                let mut timings = NetworkTimings::new_without_component_timings();
                model.step(&mut state, None, &mut timings).map_err(|e| format!("{e:?}"))
            }
        });
        res.map_err(|p| viol("panic", p))?.map_err(|e| viol("run", e))?;
        let tr = out.lock().unwrap().clone();
        ensure!(tr.steps.len() == if rest { steps } else { t + 1 }, "steps", "{} steps after step {t}", tr.steps.len());
        for k in t..tr.steps.len() {
            let step = &tr.steps[k];
            let doy = step.date.date().day_of_year() as usize - 1;
            let leap = step.date.date().in_leap_year();
            let doy = if !leap && doy >= 59 { doy + 1 } else { doy };
            for v in 0..nv {
                for s in 0..ns {
                    let got = step.scen[s].m[tr.metric(&format!("p{v}"))];
                    let now = &set[v][s];
                    let (exp, tol) = match &vars[v] {
                        Var::Constant(x) => {
                            let e = now.f.as_ref().map_or(*x, |f| f[0]);
                            if got == *x && (e - x).abs() > 1e-9 {
                                const_without_effect = Some(format!("{ops:?}: p{v} is {got} instead of {e} on {}", step.date));
                            }
                            (if got == *x { *x } else { e }, 1e-12)
                        }
                        Var::Offset(b, o) => (b[s] + now.f.as_ref().map_or(*o, |f| f[0]), 1e-12),
                        Var::Rbf(pts, f, e) => {
                            let p: Vec<(u32, f64)> = pts.iter().enumerate().map(|(i, p)| (now.u.as_ref().map_or(p.0, |u| u[i]), now.f.as_ref().map_or(p.1, |f| f[i]))).collect();
                            let x = rbf_profile(&p, f, Some(*e))[doy];
                            if !x.is_finite() {
                                continue;
                            }
                            (x, 1e-6)
                        }
                    };
                    let scale = 1.0 + exp.abs() + if let Var::Rbf(..) = vars[v] { 40.0 } else { 0.0 };
                    ensure!((got - exp).abs() <= tol * scale, "value", "after {ops:?}: p{v} scenario {s} on {}: {got} instead of {exp}", step.date);
                    let flow = step.scen[s].inflow[tr.node(&format!("out{v}"), None)];
                    ensure!((flow - got.max(0.0)).abs() <= 1e-6 * scale, "flow", "after {ops:?}: flow {flow} with p{v} = {got} in scenario {s} on {}", step.date);
                    c.count(if *now == Set::default() { "values as in the file" } else { "values as set" }, 1);
                }
            }
        }
        t = tr.steps.len();
    }
    for v in 0..nv {
        for s in 0..ns {
            if set[v][s] != Set::default() {
                c.seen((format!("{:?}", std::mem::discriminant(&vars[v])), set[v][s].f.is_some(), set[v][s].u.is_some(), ns, steps, hop, ops.len(), s, rest));
            }
        }
    }
    match const_without_effect {
        Some(e) => Err(viol("constant-without-effect", e)),
        None => Ok(()),
    }
}

fn jiff_date(y: i16, m: i8, d: i8) -> jiff::civil::Date {
    jiff::civil::Date::new(y, m, d).unwrap()
}

/// Points on different days, not too close to each other.
pub fn points(r: &mut crate::fw::Rng, n: usize) -> Vec<(u32, f64)> {
    let mut days: Vec<u32> = vec![];
    while days.len() < n {
        let d = r.us(1, 364) as u32;
        if days.iter().all(|x| x.abs_diff(d) >= 20 && x.abs_diff(d) <= 345) {
            days.push(d);
        }
    }
    days.into_iter().map(|d| (d, r.q(-10.0, 30.0))).collect()
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C26", rule: "distinct (kind of parameter, what was set, number of scenarios, of steps and of settings, scenario)", assumptions: &[], quick: 8000, thorough: 150000, random: c26, directed: &[], threads: 8 }]
}
