//! Build and run models with a probe that records the complete observable state after every timestep.
use crate::fw::guard;
use jiff::civil::DateTime;
use pywr_core::metric::{MetricConsumerPhase, MetricF64, UnresolvedMetricF64};
use pywr_core::models::{Model, ModelBuilder, ModelResult, MultiNetworkModel, MultiNetworkModelResult};
use pywr_core::network::{Network, ResolutionMaps};
use pywr_core::recorders::{
    MetricSetState, Recorder, RecorderBuilder, RecorderBuilderError, RecorderInternalState, RecorderMeta,
    RecorderSaveError,
};
use pywr_core::scenario::ScenarioIndex;
use pywr_core::solvers::{
    HighsSolver, HighsSolverSettings, HighsSolverSettingsBuilder, MicroLpSolver, MicroLpSolverSettings, MicroLpSolverSettingsBuilder,
    SimdIpmF64Solver, SimdIpmSolverSettings, SimdIpmSolverSettingsBuilder,
};
use pywr_core::state::State;
use pywr_core::timestep::Timestep;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct NodeDesc {
    pub name: String,
    pub sub: Option<String>,
    pub kind: String,
}

#[derive(Clone, Debug)]
pub struct Snap {
    pub inflow: Vec<f64>,
    pub outflow: Vec<f64>,
    pub vol: Vec<f64>,
    pub maxvol: Vec<f64>,
    pub prop: Vec<f64>,
    pub edge: Vec<f64>,
    pub vs: Vec<f64>,
    pub vs_prop: Vec<f64>,
    pub m: Vec<f64>,
}

#[derive(Clone, Debug)]
pub struct Step {
    pub date: DateTime,
    pub index: usize,
    pub days: f64,
    pub scen: Vec<Snap>,
}

#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub nodes: Vec<NodeDesc>,
    pub edges: Vec<(usize, usize)>,
    pub vs: Vec<String>,
    pub metric_names: Vec<String>,
    /// (simulation id, simulation indices, schema indices, labels)
    pub scenarios: Vec<(usize, Vec<usize>, Vec<usize>, Vec<String>)>,
    pub steps: Vec<Step>,
    pub errors: Vec<String>,
}

impl Trace {
    pub fn node(&self, name: &str, sub: Option<&str>) -> usize {
        self.nodes
            .iter()
            .position(|n| n.name == name && n.sub.as_deref() == sub)
            .unwrap_or_else(|| panic!("harness: node {name:?}/{sub:?} not in trace"))
    }
    pub fn find(&self, name: &str, sub: Option<&str>) -> Option<usize> {
        self.nodes.iter().position(|n| n.name == name && n.sub.as_deref() == sub)
    }
    pub fn metric(&self, name: &str) -> usize {
        self.metric_names
            .iter()
            .position(|n| n == name)
            .unwrap_or_else(|| panic!("harness: metric {name:?} not probed"))
    }
    /// series of a probed metric for scenario `s`
    pub fn m(&self, name: &str, s: usize) -> Vec<f64> {
        let i = self.metric(name);
        self.steps.iter().map(|st| st.scen[s].m[i]).collect()
    }
}

#[derive(Debug)]
pub struct ProbeBuilder {
    pub name: String,
    pub metrics: Vec<(String, UnresolvedMetricF64)>,
    pub out: Arc<Mutex<Trace>>,
}

#[derive(Debug)]
pub struct Probe {
    meta: RecorderMeta,
    metrics: Vec<(String, MetricF64)>,
    out: Arc<Mutex<Trace>>,
}

impl RecorderBuilder for ProbeBuilder {
    fn name(&self) -> &str {
        &self.name
    }
    fn build(self: Box<Self>, maps: &ResolutionMaps) -> Result<Box<dyn Recorder>, RecorderBuilderError> {
        let mut metrics = vec![];
        for (n, m) in &self.metrics {
            let r = m
                .resolve(maps, MetricConsumerPhase::After)
                .map_err(|source| RecorderBuilderError::ResolveMetricF64Error {
                    attr: n.clone(),
                    source,
                })?;
            metrics.push((n.clone(), r));
        }
        Ok(Box::new(Probe {
            meta: RecorderMeta {
                name: self.name.clone(),
                comment: String::new(),
            },
            metrics,
            out: self.out.clone(),
        }))
    }
}

impl Recorder for Probe {
    fn meta(&self) -> &RecorderMeta {
        &self.meta
    }
    fn save(
        &self,
        timestep: &Timestep,
        scenario_indices: &[ScenarioIndex],
        network: &Network,
        state: &[State],
        _ms: &[Vec<MetricSetState>],
        _st: &mut Option<Box<dyn RecorderInternalState>>,
    ) -> Result<(), RecorderSaveError> {
        let mut t = self.out.lock().unwrap();
        if t.nodes.is_empty() && t.steps.is_empty() {
            t.nodes = network
                .nodes()
                .iter()
                .map(|n| NodeDesc {
                    name: n.name().to_string(),
                    sub: n.sub_name().map(|s| s.to_string()),
                    kind: format!("{:?}", n.node_type()),
                })
                .collect();
            t.edges = network
                .edges()
                .iter()
                .map(|e| (*e.from_node_index(), *e.to_node_index()))
                .collect();
            t.vs = network.virtual_storage_nodes().iter().map(|v| v.name().to_string()).collect();
            t.metric_names = self.metrics.iter().map(|m| m.0.clone()).collect();
            t.scenarios = scenario_indices
                .iter()
                .map(|s| {
                    let ng = s.simulation_indices().len();
                    (
                        s.simulation_id(),
                        s.simulation_indices().to_vec(),
                        (0..ng).map(|g| s.schema_index_for_group(g)).collect(),
                        s.labels().to_vec(),
                    )
                })
                .collect();
        }
        let mut scen = vec![];
        for si in scenario_indices {
            let st = &state[si.simulation_id()];
            let ns = st.get_network_state();
            let nn = network.nodes();
            let mut errs: Vec<String> = vec![];
            let m = self
                .metrics
                .iter()
                .map(|(n, m)| match m.get_value(network, st) {
                    Ok(v) => v,
                    Err(e) => {
                        errs.push(format!("{n}: {e}"));
                        f64::NAN
                    }
                })
                .collect();
            scen.push(Snap {
                inflow: nn.iter().map(|n| ns.get_node_in_flow(&n.index()).unwrap_or(f64::NAN)).collect(),
                outflow: nn.iter().map(|n| ns.get_node_out_flow(&n.index()).unwrap_or(f64::NAN)).collect(),
                vol: nn.iter().map(|n| ns.get_node_volume(&n.index()).unwrap_or(f64::NAN)).collect(),
                maxvol: nn.iter().map(|n| ns.get_node_max_volume(&n.index()).unwrap_or(f64::NAN)).collect(),
                prop: nn
                    .iter()
                    .map(|n| ns.get_node_proportional_volume(&n.index()).unwrap_or(f64::NAN))
                    .collect(),
                edge: network
                    .edges()
                    .iter()
                    .map(|e| ns.get_edge_flow(&e.index()).unwrap_or(f64::NAN))
                    .collect(),
                vs: network
                    .virtual_storage_nodes()
                    .iter()
                    .map(|v| ns.get_virtual_storage_volume(&v.index()).unwrap_or(f64::NAN))
                    .collect(),
                vs_prop: network
                    .virtual_storage_nodes()
                    .iter()
                    .map(|v| ns.get_virtual_storage_proportional_volume(&v.index()).unwrap_or(f64::NAN))
                    .collect(),
                m,
            });
            t.errors.extend(errs);
        }
        t.steps.push(Step {
            date: timestep.date,
            index: timestep.index,
            days: timestep.days(),
            scen,
        });
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SolverSel {
    Highs,
    HighsPar(usize),
    Microlp,
    /// number of threads, told to run models of which it lacks features
    MicrolpSet(usize, bool),
    Ipm(usize),
    /// told to run models of which it lacks features
    IpmIgnoring(usize),
}

#[derive(Debug, Clone)]
pub enum RunErr {
    Build(String),
    Run(String),
    Panic(String),
}

impl RunErr {
    pub fn text(&self) -> String {
        match self {
            RunErr::Build(s) => format!("build error: {s}"),
            RunErr::Run(s) => format!("run error: {s}"),
            RunErr::Panic(s) => format!("panic: {s}"),
        }
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, RunErr::Panic(_))
    }
}

pub struct Run {
    pub trace: Trace,
    pub result: ModelResult,
}

fn chain(e: &dyn std::error::Error) -> String {
    // the innermost message is what matters; the outer ones repeat it
    let mut s = e.to_string();
    let mut c = e.source();
    let mut all = s.clone();
    while let Some(x) = c {
        s = x.to_string();
        all = format!("{all}: {s}");
        c = x.source();
    }
    LAST_ERROR.with(|l| *l.borrow_mut() = all);
    s
}
thread_local! {
    /// All messages of the last error of this thread.
    pub static LAST_ERROR: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn exec(model: &Model, sel: SolverSel) -> Result<ModelResult, RunErr> {
    let r = guard(|| match sel {
        SolverSel::Highs => model.run::<HighsSolver>(&HighsSolverSettings::default()),
        SolverSel::HighsPar(n) => {
            let mut b = HighsSolverSettingsBuilder::default();
            b = b.parallel().threads(n);
            model.run::<HighsSolver>(&b.build())
        }
        SolverSel::Microlp => model.run::<MicroLpSolver>(&MicroLpSolverSettings::default()),
        SolverSel::MicrolpSet(n, ignore) => {
            let mut b = MicroLpSolverSettingsBuilder::default();
            if n > 1 {
                b = b.parallel().threads(n);
            }
            if ignore {
                b = b.ignore_feature_requirements();
            }
            model.run::<MicroLpSolver>(&b.build())
        }
        SolverSel::Ipm(n) | SolverSel::IpmIgnoring(n) => {
            let mut b = SimdIpmSolverSettingsBuilder::default();
            if matches!(sel, SolverSel::IpmIgnoring(_)) {
                b = b.ignore_feature_requirements();
            }
            let s: SimdIpmSolverSettings = if n > 1 { b.parallel().threads(n).build() } else { b.build() };
            model.run_multi_scenario::<SimdIpmF64Solver>(&s)
        }
    });
    match r {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(RunErr::Run(chain(&e))),
        Err(p) => Err(RunErr::Panic(p)),
    }
}

/// Add a probe to `mb`, build and run it.
pub fn run(mb: ModelBuilder, metrics: Vec<(String, UnresolvedMetricF64)>, sel: SolverSel) -> Result<Run, RunErr> {
    let (model, out) = build(mb, metrics)?;
    let result = exec(&model, sel)?;
    let trace = std::mem::take(&mut *out.lock().unwrap());
    Ok(Run { trace, result })
}

pub fn build(
    mut mb: ModelBuilder,
    metrics: Vec<(String, UnresolvedMetricF64)>,
) -> Result<(Model, Arc<Mutex<Trace>>), RunErr> {
    let out = Arc::new(Mutex::new(Trace::default()));
    mb.network_builder().recorder(Box::new(ProbeBuilder {
        name: "pvmon-probe".into(),
        metrics,
        out: out.clone(),
    }));
    match guard(|| mb.build()) {
        Ok(Ok(m)) => Ok((m, out)),
        Ok(Err(e)) => Err(RunErr::Build(chain(&e))),
        Err(p) => Err(RunErr::Panic(p)),
    }
}

pub fn exec_multi(model: &MultiNetworkModel, sel: SolverSel) -> Result<MultiNetworkModelResult, RunErr> {
    let r = guard(|| match sel {
        SolverSel::Highs => model.run::<HighsSolver>(&HighsSolverSettings::default()),
        SolverSel::HighsPar(n) => {
            let b = HighsSolverSettingsBuilder::default();
            model.run::<HighsSolver>(&b.parallel().threads(n).build())
        }
        SolverSel::Microlp => model.run::<MicroLpSolver>(&MicroLpSolverSettings::default()),
        SolverSel::MicrolpSet(n, ignore) => {
            let mut b = MicroLpSolverSettingsBuilder::default();
            if n > 1 {
                b = b.parallel().threads(n);
            }
            if ignore {
                b = b.ignore_feature_requirements();
            }
            model.run::<MicroLpSolver>(&b.build())
        }
        SolverSel::Ipm(n) | SolverSel::IpmIgnoring(n) => {
            let mut b = SimdIpmSolverSettingsBuilder::default();
            if matches!(sel, SolverSel::IpmIgnoring(_)) {
                b = b.ignore_feature_requirements();
            }
            let s: SimdIpmSolverSettings = if n > 1 { b.parallel().threads(n).build() } else { b.build() };
            model.run_multi_scenario::<SimdIpmF64Solver>(&s)
        }
    });
    match r {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(RunErr::Run(chain(&e))),
        Err(p) => Err(RunErr::Panic(p)),
    }
}
