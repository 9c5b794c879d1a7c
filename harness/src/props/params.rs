//! Parameter values against independent reference functions (C07 functions of current inputs, C08 functions of
//! history, C09 calendar profiles).
//!
//! A small fixed network is driven by random inputs. A random DAG of parameters is added in shuffled order; every
//! value of every parameter is recorded and compared with a reference which takes only the specification, and the
//! recorded flows and volumes of the network, as its inputs.
use crate::ensure;
use crate::fw::{Case, Prop, Res, Rng, guard, viol};
use crate::run::{self, RunErr, SolverSel, Trace};
use jiff::civil::{Date, DateTime};
use jiff::{Span, ToSpan};
use ndarray::{Array1, Array2};
use pywr_core::metric::UnresolvedMetricF64 as UM;
use pywr_core::models::ModelBuilder;
use pywr_core::parameters as cp;
use pywr_schema::ModelSchema;
use serde_json::{Value, json};
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ret {
    Before,
    After,
    AfterInit,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Phase {
    Before,
    After,
    Both,
}
#[derive(Clone, Debug)]
pub enum Src {
    Lit(f64),
    Par(usize, Ret),
    Key(usize, &'static str, Ret),
    In(&'static str),
    Out(&'static str),
    Vol,
    Prop,
    Edge(&'static str, &'static str),
}
#[derive(Clone, Debug)]
pub enum ISrc {
    Lit(u64),
    Par(usize, Ret),
    Key(usize, &'static str, Ret),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Func {
    Sum,
    Mean,
    Product,
    Min,
    Max,
    CountNonZero,
    AnyNonZero(Option<u32>),
    /// a Python function: file, with weights, constant in quarters
    Py(usize, bool, i32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum UFunc {
    Sum,
    Product,
    Min,
    Max,
    Any,
    All,
    /// a Python function: file, modulus
    Py(usize, u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Lt,
    Gt,
    Eq,
    Le,
    Ge,
}

/// A Python parameter: see data/pvmod.py.
#[derive(Clone, Debug)]
pub struct PyPar {
    func: bool,
    ret: &'static str,
    m: Vec<Src>,
    i: Vec<ISrc>,
    c: Vec<f64>,
    ic: Vec<u64>,
    a: f64,
    k: Option<f64>,
    ts: u8,
    scen: bool,
    acc: bool,
    md: u64,
    file: usize,
    log: bool,
    opts: bool,
}
/// Something wrong with a Python parameter.
#[derive(Clone, Debug)]
pub enum Fault {
    Load(usize, &'static str),
    Init(usize),
    Run { p: usize, how: &'static str, t: usize, s: usize, after: bool },
    Func(usize),
}

#[derive(Clone, Debug)]
pub enum Kind {
    Py(Box<PyPar>),
    Arr1(Vec<f64>, Option<i32>),
    Arr2(Vec<Vec<f64>>, usize, Option<i32>),
    ArrU(Vec<u64>),
    Vector(Vec<f64>),
    Const(f64),
    ConstScen(Vec<f64>, usize),
    Agg { f: Func, phase: Phase, m: Vec<Src> },
    AggU { f: UFunc, phase: Phase, m: Vec<ISrc> },
    Max(Src, Option<f64>),
    Min(Src, Option<f64>),
    Neg(Src),
    NegMax(Src, Option<f64>),
    NegMin(Src, Option<f64>),
    Div { phase: Phase, n: Src, d: Src },
    Disc { rate: Src, base: i16 },
    Hydro { target: Option<Src>, actual: Option<Src>, we: Option<Src>, te: Option<f64>, mh: Option<f64>, maxf: Option<Src>, minf: Option<Src>, eff: Option<f64>, dens: Option<f64>, fc: Option<f64>, ec: Option<f64> },
    Indexed { idx: ISrc, m: Vec<Src> },
    Interp { x: Src, xp: Vec<Src>, fp: Vec<Src>, err: Option<bool> },
    Offset(Src, f64),
    Poly { m: Src, c: Vec<f64>, scale: Option<f64>, offset: Option<f64> },
    Daily(Vec<f64>),
    Monthly(Vec<f64>, Option<bool>),
    Weekly(Vec<f64>, Option<bool>),
    Diurnal(Vec<f64>),
    Draw { day: Option<u64>, month: Option<u64>, residual: Option<u64> },
    Rbf(Vec<(u32, f64)>, &'static str, Option<f64>),
    CcInterp { x: Src, cc: Vec<Src>, v: Vec<Src> },
    CcIndex { x: Src, cc: Vec<Src> },
    Cc { x: Src, cc: Vec<Src>, v: Vec<Src> },
    CcPiece { x: Src, cc: Vec<Src>, v: Vec<[f64; 2]>, max: Option<f64>, min: Option<f64> },
    Thr { x: Src, t: Src, p: Pred, ret: Option<Vec<Src>>, ratchet: bool },
    MThr { x: Src, t: Vec<Src>, p: Pred, ret: Option<Vec<Src>>, ratchet: bool },
    Asym { on: ISrc, off: ISrc },
    Delay { x: Src, n: u64, init: f64 },
    DelayU { x: ISrc, n: u64, init: u64 },
    Roll { x: Src, w: u64, init: f64, min: Option<u64>, f: Func },
    RollU { x: ISrc, w: u64, init: u64, min: Option<u64>, f: UFunc },
    Deficit { flow: Src, max: Src },
    Diff { a: Src, b: Src, min: Option<Src>, max: Option<Src> },
    Apportion { x: Src, cc: Src },
    Musk { i: Src, o: Src, tt: Src, w: Src, init: Option<(f64, f64)> },
    VolBetween { total: Src, lower: Option<Src>, upper: Option<Src> },
}

pub const FUNC: u8 = 0;
pub const HIST: u8 = 1;
pub const CAL: u8 = 2;
pub const PY: u8 = 3;

impl Kind {
    fn tag(&self) -> &'static str {
        match self {
            Kind::Py(..) => "Python",
            Kind::Arr1(..) => "Array1",
            Kind::Arr2(..) => "Array2",
            Kind::ArrU(..) => "Array1U64",
            Kind::Vector(..) => "Vector",
            Kind::Const(..) => "Constant",
            Kind::ConstScen(..) => "ConstantScenario",
            Kind::Agg { .. } => "Aggregated",
            Kind::AggU { .. } => "AggregatedIndex",
            Kind::Max(..) => "Max",
            Kind::Min(..) => "Min",
            Kind::Neg(..) => "Negative",
            Kind::NegMax(..) => "NegativeMax",
            Kind::NegMin(..) => "NegativeMin",
            Kind::Div { .. } => "Division",
            Kind::Disc { .. } => "DiscountFactor",
            Kind::Hydro { .. } => "HydropowerTarget",
            Kind::Indexed { .. } => "IndexedArray",
            Kind::Interp { .. } => "Interpolated",
            Kind::Offset(..) => "Offset",
            Kind::Poly { .. } => "Polynomial1D",
            Kind::Daily(..) => "DailyProfile",
            Kind::Monthly(..) => "MonthlyProfile",
            Kind::Weekly(..) => "WeeklyProfile",
            Kind::Diurnal(..) => "DiurnalProfile",
            Kind::Draw { .. } => "UniformDrawdownProfile",
            Kind::Rbf(..) => "RbfProfile",
            Kind::CcInterp { .. } => "ControlCurveInterpolated",
            Kind::CcIndex { .. } => "ControlCurveIndex",
            Kind::Cc { .. } => "ControlCurve",
            Kind::CcPiece { .. } => "ControlCurvePiecewiseInterpolated",
            Kind::Thr { .. } => "Threshold",
            Kind::MThr { .. } => "MultiThreshold",
            Kind::Asym { .. } => "AsymmetricSwitchIndex",
            Kind::Delay { .. } => "Delay",
            Kind::DelayU { .. } => "DelayIndex",
            Kind::Roll { .. } => "Rolling",
            Kind::RollU { .. } => "RollingIndex",
            Kind::Deficit { .. } => "Deficit",
            Kind::Diff { .. } => "Difference",
            Kind::Apportion { .. } => "Apportion",
            Kind::Musk { .. } => "Muskingum",
            Kind::VolBetween { .. } => "VolumeBetweenControlCurves",
        }
    }
    fn class(&self) -> u8 {
        match self {
            Kind::Py(..) | Kind::Agg { f: Func::Py(..), .. } | Kind::AggU { f: UFunc::Py(..), .. } | Kind::Roll { f: Func::Py(..), .. } | Kind::RollU { f: UFunc::Py(..), .. } => PY,
            Kind::Daily(..) | Kind::Monthly(..) | Kind::Weekly(..) | Kind::Diurnal(..) | Kind::Draw { .. } | Kind::Rbf(..) => CAL,
            Kind::Thr { .. } | Kind::MThr { .. } | Kind::Asym { .. } | Kind::Delay { .. } | Kind::DelayU { .. } | Kind::Roll { .. } | Kind::RollU { .. } => HIST,
            _ => FUNC,
        }
    }
}

#[derive(Clone, Debug)]
pub struct P {
    pub name: String,
    pub kind: Kind,
    /// yields an unsigned integer
    pub int: bool,
    pub before: bool,
    pub after: bool,
    /// bound of the index (int only)
    pub maxv: u64,
    /// static bound on the magnitude
    pub mag: f64,
    /// keys of a multi-valued parameter
    pub keys: &'static [&'static str],
    /// can be evaluated from constants and simple parameters alone
    pub simple: bool,
}

pub struct Spec {
    pub ps: Vec<P>,
    pub groups: Vec<usize>,
    pub start: DateTime,
    pub hours: i64,
    pub nsteps: usize,
    pub flow: Vec<f64>,
    pub demand: Vec<f64>,
    pub init: f64,
    pub maxv: f64,
    pub order: Vec<usize>,
    pub may_fail: bool,
    /// Python sources: the path below the data directory (None: a module) and the constant in them
    pub files: Vec<(Option<&'static str>, f64)>,
    pub log: Option<String>,
    pub fault: Option<Fault>,
}

#[derive(Clone, Copy, Debug)]
pub struct V {
    x: f64,
    /// bound of the absolute error of `x`; 0 if the bits are known
    e: f64,
    /// on a coarse binary grid, so that sums are exact
    g: bool,
}
impl V {
    fn grid(x: f64) -> V {
        V { x, e: 0.0, g: true }
    }
    fn bits(x: f64) -> V {
        V { x, e: 0.0, g: false }
    }
    fn ap(x: f64, e: f64) -> V {
        V { x, e: e + 1e-13 * x.abs() + 1e-15, g: false }
    }
}
/// compare; None if too close to call
fn lt(a: V, b: V) -> Option<bool> {
    let d = a.x - b.x;
    if a.e == 0.0 && b.e == 0.0 {
        return Some(a.x < b.x);
    }
    if d.abs() <= 4.0 * (a.e + b.e) { None } else { Some(d < 0.0) }
}
fn ge(a: V, b: V) -> Option<bool> {
    lt(a, b).map(|x| !x)
}
fn le(a: V, b: V) -> Option<bool> {
    ge(b, a)
}
fn pred(p: Pred, a: V, b: V) -> Option<bool> {
    match p {
        Pred::Lt => lt(a, b),
        Pred::Gt => lt(b, a),
        Pred::Le => le(a, b),
        Pred::Ge => ge(a, b),
        Pred::Eq => {
            // equal within a small tolerance, which is not part of the specification
            let d = (a.x - b.x).abs();
            if d <= 1e-15 {
                Some(true)
            } else if d > 1e-4 {
                Some(false)
            } else {
                None
            }
        }
    }
}
fn minmax(a: V, b: V, max: bool) -> V {
    let first = if max { a.x >= b.x } else { a.x <= b.x };
    let (w, o) = if first { (a, b) } else { (b, a) };
    if (a.x - b.x).abs() <= 4.0 * (a.e + b.e) && (a.e > 0.0 || b.e > 0.0) { V { x: w.x, e: w.e.max(o.e), g: false } } else { w }
}
fn add(a: V, b: V) -> V {
    if a.g && b.g { V::grid(a.x + b.x) } else { V::ap(a.x + b.x, a.e + b.e + 1e-13 * (a.x.abs() + b.x.abs())) }
}
fn mul(a: V, b: V) -> V {
    V::ap(a.x * b.x, a.e * b.x.abs() + b.e * a.x.abs() + a.e * b.e)
}

type Ev<T> = Result<Option<T>, String>;

fn agg(f: Func, vs: &[V]) -> Option<V> {
    Some(match f {
        Func::Sum => vs.iter().fold(V::grid(0.0), |a, b| add(a, *b)),
        Func::Mean => {
            if vs.is_empty() {
                return Some(V::grid(0.0));
            }
            let s = vs.iter().fold(V::grid(0.0), |a, b| add(a, *b));
            V::ap(s.x / vs.len() as f64, s.e / vs.len() as f64)
        }
        Func::Product => vs.iter().fold(V::grid(1.0), |a, b| mul(a, *b)),
        Func::Min => vs[1..].iter().fold(vs[0], |a, b| minmax(a, *b, false)),
        Func::Max => vs[1..].iter().fold(vs[0], |a, b| minmax(a, *b, true)),
        Func::Py(_, w, c) => {
            let v = vs.iter().enumerate().fold(V::grid(0.0), |a, (j, b)| add(a, mul(V::grid(if w { (j + 1) as f64 * 0.5 } else { 0.5 }), *b)));
            add(v, V::grid(c as f64 * 0.25))
        }
        Func::CountNonZero => {
            let mut n = 0.0;
            for v in vs {
                if v.e > 0.0 && v.x.abs() <= 4.0 * v.e {
                    return None;
                }
                if v.x != 0.0 {
                    n += 1.0
                }
            }
            V::grid(n)
        }
        Func::AnyNonZero(t) => {
            let tol = t.map(|t| t as f64 / 4.0).unwrap_or(1e-6);
            let mut any = false;
            for v in vs {
                if v.e > 0.0 && (v.x.abs() - tol).abs() <= 4.0 * v.e {
                    return None;
                }
                any |= v.x.abs() > tol;
            }
            V::grid(any as u8 as f64)
        }
    })
}
fn uagg(f: UFunc, vs: &[u64]) -> u64 {
    match f {
        UFunc::Sum => vs.iter().sum(),
        UFunc::Product => vs.iter().product(),
        UFunc::Min => *vs.iter().min().unwrap(),
        UFunc::Max => *vs.iter().max().unwrap(),
        UFunc::Py(_, m) => (vs.iter().enumerate().map(|(j, v)| (j as u64 + 1) * v).sum::<u64>() + vs.len() as u64) % m,
        UFunc::Any => vs.iter().any(|v| *v > 0) as u64,
        UFunc::All => vs.iter().all(|v| *v > 0) as u64,
    }
}
/// Linear interpolation between (x0,y0) and (x1,y1) with clamping, as documented.
fn lerp(x: V, x0: V, x1: V, y0: V, y1: V) -> Option<V> {
    if le(x, x0)? {
        return Some(y0);
    }
    if ge(x, x1)? {
        return Some(y1);
    }
    let w = x1.x - x0.x;
    if w < 1e-3 {
        return None;
    }
    let f = (x.x - x0.x) / w;
    let ef = (x.e + x0.e + 2.0 * (x1.e + x0.e)) / w + 1e-13;
    let y = y0.x + (y1.x - y0.x) * f;
    Some(V::ap(y, y0.e + y1.e + ef * (y1.x - y0.x).abs() + 1e-13 * (y0.x.abs() + y1.x.abs())))
}

fn leap(y: i16) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn midnight(d: DateTime) -> DateTime {
    d.date().at(0, 0, 0, 0)
}
/// Zero-based day of a 366 day year.
pub fn doy(d: Date) -> usize {
    let i = d.day_of_year() as usize - 1;
    if !leap(d.year()) && i >= 59 { i + 1 } else { i }
}
fn days_between(a: DateTime, b: DateTime) -> f64 {
    b.duration_since(a).as_secs_f64() / 86400.0
}

fn solve(mut a: Vec<Vec<f64>>, mut b: Vec<f64>) -> Vec<f64> {
    let n = b.len();
    for k in 0..n {
        let p = (k..n).max_by(|i, j| a[*i][k].abs().partial_cmp(&a[*j][k].abs()).unwrap()).unwrap();
        a.swap(k, p);
        b.swap(k, p);
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n {
                a[i][j] -= f * a[k][j];
            }
            b[i] -= f * b[k];
        }
    }
    let mut x = vec![0.0; n];
    for k in (0..n).rev() {
        let s: f64 = (k + 1..n).map(|j| a[k][j] * x[j]).sum();
        x[k] = (b[k] - s) / a[k][k];
    }
    x
}

pub fn rbf_profile(pts: &[(u32, f64)], f: &str, eps: Option<f64>) -> Vec<f64> {
    // Without epsilon an unspecified estimate is used: only the given points themselves are determined.
    let only_points = eps.is_none() && matches!(f, "Gaussian" | "MultiQuadric" | "InverseMultiQuadric");
    let eps = eps.unwrap_or(1.0);
    let phi = |r: f64| match f {
        "Linear" => r,
        "Cubic" => r * r * r,
        "Quintic" => r.powi(5),
        "ThinPlateSpline" => {
            if r == 0.0 {
                0.0
            } else {
                r * r * r.ln()
            }
        }
        "Gaussian" => (-(eps * r) * (eps * r)).exp(),
        "MultiQuadric" => (1.0 + (eps * r) * (eps * r)).sqrt(),
        _ => 1.0 / (1.0 + (eps * r) * (eps * r)).sqrt(),
    };
    let mut all = vec![];
    for off in [-365.0, 0.0, 365.0] {
        all.extend(pts.iter().map(|p| (p.0 as f64 + off, p.1)));
    }
    let a = all.iter().map(|p| all.iter().map(|q| phi((p.0 - q.0).abs())).collect()).collect();
    let w = solve(a, all.iter().map(|p| p.1).collect());
    let v = |d: f64| all.iter().zip(&w).map(|(p, w)| w * phi((d - p.0).abs())).sum::<f64>();
    let mut out: Vec<f64> = (0..365).map(|d| if !only_points || pts.iter().any(|p| p.0 == d) { v(d as f64) } else { f64::NAN }).collect();
    out.insert(59, out[58]);
    out
}

/// State of the reference for one scenario.
struct Ref<'a> {
    sp: &'a Spec,
    tr: &'a Trace,
    s: usize,
    /// before[t][p], after[t][p]
    b: Vec<Vec<Ev<V>>>,
    a: Vec<Vec<Ev<V>>>,
    /// history of the watched metric of delays and rolling windows
    hist: Vec<Vec<Option<V>>>,
    latch: Vec<Option<u64>>,
    multi: Vec<Vec<(&'static str, Ev<V>)>>,
    /// by phase and step
    mb: Vec<Vec<Vec<(&'static str, Ev<V>)>>>,
    ma: Vec<Vec<Vec<(&'static str, Ev<V>)>>>,
    /// accumulated value and calls of Python instances
    inst: Vec<(Option<V>, [u64; 2])>,
    rbf: Vec<Vec<f64>>,
}

macro_rules! get {
    ($e:expr) => {
        match $e? {
            Some(v) => v,
            None => return Ok(None),
        }
    };
}
macro_rules! opt {
    ($e:expr) => {
        match $e {
            Some(v) => v,
            None => return Ok(None),
        }
    };
}

impl<'a> Ref<'a> {
    fn new(sp: &'a Spec, tr: &'a Trace, s: usize) -> Self {
        let n = sp.ps.len();
        Ref {
            sp,
            tr,
            s,
            b: vec![],
            a: vec![],
            hist: vec![vec![]; n],
            latch: vec![Some(0); n],
            multi: vec![vec![]; n],
            mb: vec![],
            ma: vec![],
            inst: vec![(Some(V::grid(0.0)), [0, 0]); n],
            rbf: sp
                .ps
                .iter()
                .map(|p| match &p.kind {
                    Kind::Rbf(pts, f, e) => rbf_profile(pts, f, *e),
                    _ => vec![],
                })
                .collect(),
        }
    }
    fn date(&self, t: usize) -> DateTime {
        self.sp.start.checked_add(Span::new().hours(self.sp.hours * t as i64)).unwrap()
    }
    /// Value of a source at step `t`; `after` tells whether the flows of this step are known already.
    fn src(&self, s: &Src, t: usize, after: bool) -> Ev<V> {
        let snap = |t: usize| &self.tr.steps[t].scen[self.s];
        let flow = |f: &dyn Fn(usize) -> f64| -> Ev<V> {
            if after {
                Ok(Some(V::bits(f(t))))
            } else if t == 0 {
                Ok(Some(V::grid(0.0)))
            } else {
                Ok(Some(V::bits(f(t - 1))))
            }
        };
        // The inflow and outflow of a link agree up to rounding, and either may be reported for the other.
        let link = |v: Ev<V>| -> Ev<V> {
            let i = self.tr.node("l", None);
            let n = if after { t } else { t.max(1) - 1 };
            Ok(v?.map(|v| if snap(n).inflow[i] != snap(n).outflow[i] { V::ap(v.x, 1e-12) } else { v }))
        };
        match s {
            Src::Lit(x) => Ok(Some(V::grid(*x))),
            Src::Par(p, Ret::Before) => self.b[t][*p].clone(),
            Src::Par(p, Ret::After) => self.a[t][*p].clone(),
            Src::Par(p, Ret::AfterInit) => {
                if after {
                    self.a[t][*p].clone()
                } else if t == 0 {
                    Ok(Some(V::grid(0.0)))
                } else {
                    self.a[t - 1][*p].clone()
                }
            }
            Src::Key(p, k, r) => {
                let l = match r {
                    Ret::Before => &self.mb[t][*p],
                    Ret::After => &self.ma[t][*p],
                    Ret::AfterInit if after => &self.ma[t][*p],
                    Ret::AfterInit if t == 0 => return Ok(Some(V::grid(0.0))),
                    Ret::AfterInit => &self.ma[t - 1][*p],
                };
                l.iter().find(|(n, _)| n == k).unwrap().1.clone()
            }
            Src::In(n) => {
                let i = self.tr.node(n, None);
                let v = flow(&|t| snap(t).inflow[i]);
                if *n == "l" { link(v) } else { v }
            }
            Src::Out(n) => {
                let i = self.tr.node(n, None);
                let v = flow(&|t| snap(t).outflow[i]);
                if *n == "l" { link(v) } else { v }
            }
            Src::Edge(a, b) => {
                let (a, b) = (self.tr.node(a, None), self.tr.node(b, None));
                let e = self.tr.edges.iter().position(|e| *e == (a, b)).unwrap();
                flow(&|t| snap(t).edge[e])
            }
            Src::Vol | Src::Prop => {
                let i = self.tr.node("st", None);
                let vol = if after {
                    snap(t).vol[i]
                } else if t == 0 {
                    self.sp.init
                } else {
                    snap(t - 1).vol[i]
                };
                Ok(Some(if matches!(s, Src::Vol) { V::bits(vol) } else { V::ap(vol / self.sp.maxv, 1e-14) }))
            }
        }
    }
    fn isrc(&self, s: &ISrc, t: usize, after: bool) -> Ev<u64> {
        match s {
            ISrc::Lit(x) => Ok(Some(*x)),
            ISrc::Par(p, r) => Ok(self.src(&Src::Par(*p, *r), t, after)?.map(|v| v.x as u64)),
            ISrc::Key(p, k, r) => Ok(self.src(&Src::Key(*p, k, *r), t, after)?.map(|v| v.x as u64)),
        }
    }
    fn srcs(&self, s: &[Src], t: usize, after: bool) -> Ev<Vec<V>> {
        let mut out = vec![];
        let mut amb = false;
        for x in s {
            match self.src(x, t, after)? {
                Some(v) => out.push(v),
                None => amb = true,
            }
        }
        Ok(if amb { None } else { Some(out) })
    }
    fn head(&self, we: &Option<Src>, te: Option<f64>, t: usize, after: bool) -> Ev<V> {
        let te = te.unwrap_or(0.0);
        let h = match we {
            Some(w) => add(get!(self.src(w, t, after)), V::grid(-te)),
            None => V::grid(te),
        };
        Ok(Some(minmax(h, V::grid(0.0), true)))
    }

    fn eval(&mut self, p: usize, t: usize, after: bool) -> Ev<V> {
        let sp = self.sp;
        let kind = &sp.ps[p].kind;
        let date = self.date(t);
        let day = date.date();
        let si = |g: usize| self.tr.scenarios[self.s].1[g];
        let scale = |v: f64| V::grid(v);
        Ok(Some(match kind {
            Kind::Py(y) => {
                let (past, calls) = self.inst[p];
                let mut ms = vec![];
                for m in &y.m {
                    ms.push(self.src(m, t, after)?);
                }
                let mut is = vec![];
                for i in &y.i {
                    is.push(self.isrc(i, t, after)?);
                }
                let x0 = if y.m.is_empty() { Some(V::grid(y.a)) } else { ms[0] };
                self.inst[p].1[after as usize] += 1;
                self.inst[p].0 = match (past, x0) {
                    (Some(a), Some(b)) => Some(add(mul(V::grid(0.5), a), mul(V::grid(0.25), b))),
                    _ => None,
                };
                let mut n = t as u64 + self.tr.scenarios[self.s].0 as u64 + if y.acc { calls[0] + 2 * calls[1] } else { 0 };
                for (i, c) in is.iter().zip(&y.ic) {
                    n += c * opt!(*i);
                }
                let n = n % y.md;
                let iv = V::grid(n as f64);
                if y.ret == "Int" {
                    return Ok(Some(iv));
                }
                let mut v = V::grid(y.a + y.k.unwrap_or(0.0) + sp.files[y.file].1 + n as f64 * 0.25);
                let d = self.date(t);
                let ordinal = d.date().duration_since(Date::new(1, 1, 1).unwrap()).as_hours() / 24 + 1;
                v = add(v, match y.ts {
                    1 => V::grid(t as f64 * 0.25),
                    2 => V::grid(day.day() as f64),
                    3 => V::grid(day.month() as f64),
                    4 => V::grid(day.year() as f64 - 2000.0),
                    5 => V::grid(day.day_of_year() as f64),
                    6 => V::grid(doy(day) as f64),
                    7 => V::ap(doy(day) as f64 + days_between(midnight(d), d), 1e-12),
                    8 => V::grid(if t == 0 { 4.0 } else { 0.0 }),
                    9 => V::ap(sp.hours as f64 / 24.0, 1e-12),
                    10 => V::grid(if leap(day.year()) { 2.0 } else { 1.0 }),
                    11 => V::grid((ordinal % 64) as f64 + d.hour() as f64 + d.minute() as f64 / 64.0),
                    _ => V::grid(0.0),
                });
                if y.scen {
                    let (id, ix, ..) = &self.tr.scenarios[self.s];
                    v = add(v, V::grid(*id as f64 * 0.5));
                    for (j, x) in ix.iter().enumerate() {
                        v = add(v, V::grid((j + 1) as f64 * 0.25 * *x as f64));
                    }
                }
                if y.acc {
                    v = add(v, opt!(past));
                }
                for (m, c) in ms.iter().zip(&y.c) {
                    v = add(v, mul(V::grid(*c), opt!(*m)));
                }
                if y.ret == "Dict" {
                    let w = add(mul(V::grid(0.5), v), V::grid(y.a));
                    self.multi[p] = vec![("v", Ok(Some(v))), ("w", Ok(Some(w))), ("i", Ok(Some(iv)))];
                    return Ok(Some(V::grid(0.0)));
                }
                v
            }
            Kind::Arr1(v, off) => V::grid(v[(t as i64 + off.unwrap_or(0) as i64).clamp(0, v.len() as i64 - 1) as usize]),
            Kind::Arr2(v, g, off) => V::grid(v[(t as i64 + off.unwrap_or(0) as i64).clamp(0, v.len() as i64 - 1) as usize][si(*g)]),
            Kind::ArrU(v) => V::grid(v[t] as f64),
            Kind::Vector(v) => V::grid(v[t]),
            Kind::Const(c) => V::grid(*c),
            Kind::ConstScen(v, g) => V::grid(v[si(*g)]),
            Kind::Agg { f, m, .. } => {
                let vs = get!(self.srcs(m, t, after));
                opt!(agg(*f, &vs))
            }
            Kind::AggU { f, m, .. } => {
                let mut vs = vec![];
                for x in m {
                    vs.push(get!(self.isrc(x, t, after)));
                }
                V::grid(uagg(*f, &vs) as f64)
            }
            Kind::Max(m, th) => minmax(get!(self.src(m, t, after)), scale(th.unwrap_or(0.0)), true),
            Kind::Min(m, th) => minmax(get!(self.src(m, t, after)), scale(th.unwrap_or(0.0)), false),
            Kind::Neg(m) => {
                let v = get!(self.src(m, t, after));
                V { x: -v.x, ..v }
            }
            Kind::NegMax(m, th) => {
                let v = get!(self.src(m, t, after));
                minmax(V { x: -v.x, ..v }, scale(th.unwrap_or(0.0)), true)
            }
            Kind::NegMin(m, th) => {
                let v = get!(self.src(m, t, after));
                minmax(V { x: -v.x, ..v }, scale(th.unwrap_or(0.0)), false)
            }
            Kind::Div { n, d, .. } => {
                let d = get!(self.src(d, t, after));
                if d.x.abs() <= 4.0 * d.e && d.e > 0.0 {
                    return Ok(None);
                }
                if d.x == 0.0 {
                    return Err("division by zero".into());
                }
                let n = get!(self.src(n, t, after));
                V::ap(n.x / d.x, (n.e + (n.x / d.x).abs() * d.e) / d.x.abs())
            }
            Kind::Disc { rate, base } => {
                let r = get!(self.src(rate, t, after));
                let n = (day.year() - base) as f64;
                let y = (1.0 + r.x).powf(-n);
                V::ap(y, y.abs() * (n.abs() * r.e / (1.0 + r.x).abs() + 1e-11))
            }
            Kind::Hydro { target, actual, we, te, mh, maxf, minf, eff, dens, fc, ec } => {
                let h = get!(self.head(we, *te, t, after));
                if opt!(le(h, V::grid(mh.unwrap_or(0.0)))) {
                    return Ok(Some(V::grid(0.0)));
                }
                let k = ec.unwrap_or(1e-6) * dens.unwrap_or(1000.0) * 9.81 * eff.unwrap_or(1.0) * fc.unwrap_or(1.0);
                if after {
                    let q = get!(self.src(actual.as_ref().unwrap(), t, after));
                    let m = mul(q, h);
                    V::ap(m.x * k, m.e * k + 1e-12 * (m.x * k).abs())
                } else {
                    let w = get!(self.src(target.as_ref().unwrap(), t, after));
                    let x = w.x / (k * h.x);
                    let mut q = V::ap(x, w.e / (k * h.x).abs() + x.abs() * (h.e / h.x + 1e-12));
                    if let Some(m) = maxf {
                        q = minmax(q, get!(self.src(m, t, after)), false);
                    }
                    if let Some(m) = minf {
                        q = minmax(q, get!(self.src(m, t, after)), true);
                    }
                    if q.x < 0.0 {
                        return Err("negative flow".into());
                    }
                    q
                }
            }
            Kind::Indexed { idx, m } => {
                let i = get!(self.isrc(idx, t, after)) as usize;
                if i >= m.len() {
                    return Err("index out of range".into());
                }
                get!(self.src(&m[i], t, after))
            }
            Kind::Interp { x, xp, fp, err } => {
                let x = get!(self.src(x, t, after));
                let xs = get!(self.srcs(xp, t, after));
                let ys = get!(self.srcs(fp, t, after));
                let e = err.unwrap_or(true);
                if opt!(lt(x, xs[0])) {
                    if e {
                        return Err("below range".into());
                    }
                    return Ok(Some(ys[0]));
                }
                let n = xs.len();
                if opt!(lt(xs[n - 1], x)) {
                    if e {
                        return Err("above range".into());
                    }
                    return Ok(Some(ys[n - 1]));
                }
                let mut out = None;
                for k in 0..n - 1 {
                    if opt!(le(x, xs[k + 1])) {
                        out = Some(opt!(lerp(x, xs[k], xs[k + 1], ys[k], ys[k + 1])));
                        break;
                    }
                }
                out.unwrap()
            }
            Kind::Offset(m, o) => add(get!(self.src(m, t, after)), V::grid(*o)),
            Kind::Poly { m, c, scale, offset } => {
                let x = get!(self.src(m, t, after));
                let (s, o) = (scale.unwrap_or(1.0), offset.unwrap_or(0.0));
                let z = x.x * s + o;
                let ez = x.e * s.abs() + 1e-13 * ((x.x * s).abs() + o.abs());
                let (mut y, mut e) = (0.0, 0.0);
                for (i, c) in c.iter().enumerate() {
                    let term = c * z.powi(i as i32);
                    y += term;
                    e += 1e-12 * term.abs() + if i > 0 { (c * i as f64 * z.powi(i as i32 - 1)).abs() * ez } else { 0.0 };
                }
                V::ap(y, e)
            }
            Kind::Daily(v) => {
                if v.len() == 366 {
                    V::grid(v[doy(day)])
                } else {
                    // 29th February takes the value of the 28th
                    let d = if day.month() == 2 && day.day() == 29 { day.yesterday().unwrap() } else { day };
                    let i = d.day_of_year() as usize - 1;
                    V::grid(v[if leap(d.year()) && i > 59 { i - 1 } else { i }])
                }
            }
            Kind::Monthly(v, interp) => {
                let m = day.month() as usize - 1;
                match interp {
                    None => V::grid(v[m]),
                    Some(true) => {
                        let a = day.first_of_month().at(0, 0, 0, 0);
                        let b = day.last_of_month().tomorrow().unwrap().at(0, 0, 0, 0);
                        let f = days_between(a, date) / days_between(a, b);
                        V::ap(v[m] + (v[(m + 1) % 12] - v[m]) * f, 1e-11)
                    }
                    Some(false) => {
                        let b = day.last_of_month().at(0, 0, 0, 0);
                        if date > b {
                            // within the last day of a month
                            return Ok(None);
                        }
                        let a = day.first_of_month().yesterday().unwrap().at(0, 0, 0, 0);
                        let f = days_between(a, date) / days_between(a, b);
                        V::ap(v[(m + 11) % 12] + (v[m] - v[(m + 11) % 12]) * f, 1e-11)
                    }
                }
            }
            Kind::Weekly(v, interp) => {
                let n = v.len();
                let d = doy(day);
                let w = (d / 7).min(n - 1);
                match interp {
                    None => V::grid(v[w]),
                    Some(first) => {
                        if d >= n * 7 {
                            return Ok(None);
                        }
                        let f = (d - w * 7) as f64 / 7.0 + days_between(midnight(date), date) / 7.0;
                        let (a, b) = if *first { (v[w], v[(w + 1) % n]) } else { (v[(w + n - 1) % n], v[w]) };
                        V::ap(a + (b - a) * f, 1e-11)
                    }
                }
            }
            Kind::Diurnal(v) => V::grid(v[date.hour() as usize]),
            Kind::Draw { day: rd, month: rm, residual } => {
                let (rd, rm) = (rd.unwrap_or(1) as i8, rm.unwrap_or(1) as i8);
                let at = |y: i16| Date::new(y, rm, rd).unwrap();
                let y = if at(day.year()) <= day { day.year() } else { day.year() - 1 };
                let total = days_between(at(y).at(0, 0, 0, 0), at(y + 1).at(0, 0, 0, 0));
                let into = days_between(at(y).at(0, 0, 0, 0), midnight(date));
                let res = residual.unwrap_or(0) as f64 / total;
                V::ap(1.0 + (res - 1.0) * into / total, 1e-11)
            }
            Kind::Rbf(pts, _, _) => {
                let m = pts.iter().map(|p| p.1.abs()).fold(1.0, f64::max);
                if self.rbf[p][doy(day)].is_nan() {
                    return Ok(None);
                }
                V::ap(self.rbf[p][doy(day)], 1e-6 * m)
            }
            Kind::CcIndex { x, cc } => {
                let x = get!(self.src(x, t, after));
                let mut k = 0;
                for c in cc {
                    if opt!(ge(x, get!(self.src(c, t, after)))) {
                        break;
                    }
                    k += 1;
                }
                V::grid(k as f64)
            }
            Kind::Cc { x, cc, v } => {
                let x = get!(self.src(x, t, after));
                let mut k = 0;
                for c in cc {
                    if opt!(ge(x, get!(self.src(c, t, after)))) {
                        break;
                    }
                    k += 1;
                }
                get!(self.src(&v[k], t, after))
            }
            Kind::CcInterp { x, cc, v } => {
                let x = get!(self.src(x, t, after));
                let mut upper = V::grid(1.0);
                for (k, c) in cc.iter().enumerate() {
                    let c = get!(self.src(c, t, after));
                    if opt!(ge(x, c)) {
                        let (hi, lo) = (get!(self.src(&v[k], t, after)), get!(self.src(&v[k + 1], t, after)));
                        return Ok(lerp(x, c, upper, lo, hi));
                    }
                    upper = c;
                }
                let n = v.len();
                let (hi, lo) = (get!(self.src(&v[n - 2], t, after)), get!(self.src(&v[n - 1], t, after)));
                return Ok(lerp(x, V::grid(0.0), upper, lo, hi));
            }
            Kind::CcPiece { x, cc, v, max, min } => {
                let x = get!(self.src(x, t, after));
                let mut upper = V::grid(max.unwrap_or(1.0));
                for (k, c) in cc.iter().enumerate() {
                    let c = get!(self.src(c, t, after));
                    if opt!(ge(x, c)) {
                        return Ok(lerp(x, c, upper, V::grid(v[k][1]), V::grid(v[k][0])));
                    }
                    upper = c;
                }
                let l = v.last().unwrap();
                return Ok(lerp(x, V::grid(min.unwrap_or(0.0)), upper, V::grid(l[1]), V::grid(l[0])));
            }
            Kind::Thr { x, t: th, p: pr, ret, ratchet } => {
                // once triggered, a ratcheting threshold stays triggered
                let now = match (self.src(x, t, after)?, self.src(th, t, after)?) {
                    (Some(x), Some(y)) => pred(*pr, x, y),
                    _ => None,
                };
                let held = *ratchet && self.latch[p] == Some(1);
                let v = if held { Some(1) } else if *ratchet && self.latch[p].is_none() && now != Some(true) { None } else { now.map(|b| b as u64) };
                self.latch[p] = v;
                let v = opt!(v);
                match ret {
                    None => V::grid(v as f64),
                    Some(r) => get!(self.src(&r[v as usize], t, after)),
                }
            }
            Kind::MThr { x, t: ths, p: pr, ret, ratchet } => {
                let mut k = Some(0u64);
                let x = self.src(x, t, after)?;
                for th in ths {
                    let th = self.src(th, t, after)?;
                    match (x, th) {
                        (Some(x), Some(th)) => match pred(*pr, x, th) {
                            Some(true) => break,
                            Some(false) => k = k.map(|k| k + 1),
                            None => {
                                k = None;
                                break;
                            }
                        },
                        _ => {
                            k = None;
                            break;
                        }
                    }
                }
                if *ratchet {
                    k = match (k, self.latch[p]) {
                        (Some(a), Some(b)) => Some(a.max(b)),
                        _ => None,
                    };
                    self.latch[p] = k;
                }
                let k = opt!(k);
                match ret {
                    None => V::grid(k as f64),
                    Some(r) => get!(self.src(&r[k as usize], t, after)),
                }
            }
            Kind::Asym { on, off } => {
                let on = self.isrc(on, t, after)?;
                let off = self.isrc(off, t, after)?;
                let st = match (on, off, self.latch[p]) {
                    (Some(n), _, _) if n > 0 => Some(1),
                    (Some(_), Some(0), _) => Some(0),
                    (Some(_), _, Some(0)) => Some(0),
                    (Some(_), Some(_), s) => s,
                    (None, Some(f), Some(1)) if f > 0 => Some(1),
                    _ => None,
                };
                self.latch[p] = st;
                V::grid(opt!(st) as f64)
            }
            Kind::Delay { n, init, .. } => {
                let n = *n as usize;
                if t < n { V::grid(*init) } else { opt!(self.hist[p][t - n]) }
            }
            Kind::DelayU { n, init, .. } => {
                let n = *n as usize;
                if t < n { V::grid(*init as f64) } else { opt!(self.hist[p][t - n]) }
            }
            Kind::Roll { w, init, min, f, .. } => {
                if (t as u64) < min.unwrap_or(*w) {
                    V::grid(*init)
                } else {
                    let from = t.saturating_sub(*w as usize);
                    let vs: Option<Vec<V>> = self.hist[p][from..t].iter().cloned().collect();
                    opt!(agg(*f, &opt!(vs)))
                }
            }
            Kind::RollU { w, init, min, f, .. } => {
                if (t as u64) < min.unwrap_or(*w) {
                    V::grid(*init as f64)
                } else {
                    let from = t.saturating_sub(*w as usize);
                    let vs: Option<Vec<V>> = self.hist[p][from..t].iter().cloned().collect();
                    let vs: Vec<u64> = opt!(vs).iter().map(|v| v.x as u64).collect();
                    V::grid(uagg(*f, &vs) as f64)
                }
            }
            Kind::Deficit { flow, max } => {
                let f = get!(self.src(flow, t, after));
                let m = get!(self.src(max, t, after));
                minmax(add(m, V { x: -f.x, ..f }), V::grid(0.0), true)
            }
            Kind::Diff { a, b, min, max } => {
                let a = get!(self.src(a, t, after));
                let b = get!(self.src(b, t, after));
                let mut d = add(a, V { x: -b.x, ..b });
                if let Some(m) = min {
                    d = minmax(d, get!(self.src(m, t, after)), true);
                }
                if let Some(m) = max {
                    d = minmax(d, get!(self.src(m, t, after)), false);
                }
                d
            }
            Kind::Apportion { x, cc } => {
                let x = get!(self.src(x, t, after));
                let c = minmax(minmax(get!(self.src(cc, t, after)), V::grid(0.0), true), V::grid(1.0), false);
                let lo = mul(x, c);
                let hi = mul(x, add(V::grid(1.0), V { x: -c.x, ..c }));
                self.multi[p] = vec![("lower", Ok(Some(lo))), ("upper", Ok(Some(hi)))];
                V::grid(0.0)
            }
            Kind::Musk { i, o, tt, w, init } => {
                let k = get!(self.src(tt, t, after));
                let x = get!(self.src(w, t, after));
                let d = 2.0 * k.x * (1.0 - x.x) + 1.0;
                let (fi, rhs, e) = if t == 0 && init.is_none() {
                    // inflow equals outflow
                    (-1.0, 0.0, 1e-11)
                } else {
                    let (i, o) = match init {
                        Some((i, o)) if t == 0 => (V::grid(*i), V::grid(*o)),
                        _ => (get!(self.src(i, t, after)), get!(self.src(o, t, after))),
                    };
                    let c0 = (1.0 - 2.0 * k.x * x.x) / d;
                    let c1 = (1.0 + 2.0 * k.x * x.x) / d;
                    let c2 = (2.0 * k.x * (1.0 - x.x) - 1.0) / d;
                    (-c0, c1 * i.x + c2 * o.x, (i.e + o.e + k.e + x.e) * 10.0 + 1e-11 * (1.0 + i.x.abs() + o.x.abs()))
                };
                self.multi[p] = vec![("inflow_factor", Ok(Some(V::ap(fi, e)))), ("rhs", Ok(Some(V::ap(rhs, e))))];
                V::grid(0.0)
            }
            Kind::VolBetween { total, lower, upper } => {
                let tot = get!(self.src(total, t, after));
                let lo = match lower {
                    Some(l) => get!(self.src(l, t, after)),
                    None => V::grid(0.0),
                };
                let up = match upper {
                    Some(l) => get!(self.src(l, t, after)),
                    None => V::grid(1.0),
                };
                mul(tot, add(up, V { x: -lo.x, ..lo }))
            }
        }))
    }

    fn watch(&mut self, p: usize, t: usize) {
        let sp = self.sp;
        let v = match &sp.ps[p].kind {
            Kind::Delay { x, .. } | Kind::Roll { x, .. } => self.src(x, t, true),
            Kind::DelayU { x, .. } | Kind::RollU { x, .. } => self.isrc(x, t, true).map(|v| v.map(|v| V::grid(v as f64))),
            _ => return,
        };
        self.hist[p].push(v.unwrap_or(None));
    }

    fn keyed(&mut self, p: usize, v: &Ev<V>) -> Vec<(&'static str, Ev<V>)> {
        if v.is_err() || v.as_ref().is_ok_and(|v| v.is_none()) {
            return self.sp.ps[p].keys.iter().chain(&["i"]).map(|k| (*k, v.clone())).collect();
        }
        std::mem::take(&mut self.multi[p])
    }
    /// Evaluate the before phase of step `t`. Returns the parameter and error if one must fail.
    fn before(&mut self, t: usize) -> Option<(usize, String)> {
        self.b.push(vec![]);
        self.mb.push(vec![]);
        let mut fail = None;
        for p in 0..self.sp.ps.len() {
            let v = if self.sp.ps[p].before { self.eval(p, t, false) } else { Ok(None) };
            let l = self.keyed(p, &v);
            self.mb[t].push(l);
            if let Err(e) = &v {
                if fail.is_none() {
                    fail = Some((p, e.clone()));
                }
            }
            self.b[t].push(v);
        }
        fail
    }
    fn after(&mut self, t: usize) -> Option<(usize, String)> {
        self.a.push(vec![]);
        self.ma.push(vec![]);
        let mut fail = None;
        for p in 0..self.sp.ps.len() {
            let v = if self.sp.ps[p].after { self.eval(p, t, true) } else { Ok(None) };
            let l = self.keyed(p, &v);
            self.ma[t].push(l);
            if let Err(e) = &v {
                if fail.is_none() {
                    fail = Some((p, e.clone()));
                }
            }
            self.a[t].push(v);
            self.watch(p, t);
        }
        fail
    }
}

// ---------------------------------------------------------------------------------------------- generation

pub struct Gen<'r> {
    r: &'r mut Rng,
    sp: Spec,
    class: u8,
}

const FUNCS: [Func; 8] = [Func::Sum, Func::Mean, Func::Product, Func::Min, Func::Max, Func::CountNonZero, Func::AnyNonZero(None), Func::AnyNonZero(Some(6))];
const UFUNCS: [UFunc; 6] = [UFunc::Sum, UFunc::Product, UFunc::Min, UFunc::Max, UFunc::Any, UFunc::All];
const PREDS: [Pred; 5] = [Pred::Lt, Pred::Gt, Pred::Eq, Pred::Le, Pred::Ge];

impl Gen<'_> {
    fn lit(&mut self) -> f64 {
        if self.r.chance(0.1) { 0.0 } else { self.r.q(-20.0, 20.0) }
    }
    /// simple: only constants and simple parameters allowed
    fn pick_par(&mut self, int: Option<bool>, phase: Phase, simple: bool) -> Option<(usize, Ret)> {
        let c: Vec<(usize, Ret)> = self
            .sp
            .ps
            .iter()
            .enumerate()
            .filter(|(_, p)| p.keys.is_empty() && int.is_none_or(|i| p.int == i) && (!simple || p.simple))
            .flat_map(|(i, p)| {
                let mut v = vec![];
                if p.before {
                    v.push((i, Ret::Before));
                    v.push((i, Ret::Before));
                }
                if p.after && phase == Phase::After {
                    v.push((i, Ret::After));
                    v.push((i, Ret::After));
                }
                if p.after {
                    v.push((i, Ret::AfterInit));
                }
                v
            })
            .collect();
        if c.is_empty() {
            return None;
        }
        // prefer recent parameters: deeper graphs
        let k = if self.r.chance(0.5) { self.r.us(c.len() * 2 / 3, c.len() - 1) } else { self.r.us(0, c.len() - 1) };
        Some(c[k])
    }
    fn src(&mut self, phase: Phase, simple: bool) -> Src {
        let k = self.r.us(0, 99);
        if k < 15 {
            return Src::Lit(self.lit());
        }
        if !simple && k < 40 {
            return match self.r.us(0, 9) {
                0 => Src::In("l"),
                1 => Src::Out("l"),
                2 => Src::In("d"),
                3 => Src::Out("c"),
                4 => Src::Edge("l", "st"),
                5 => Src::Edge("l", "x"),
                6 | 7 => Src::Vol,
                8 => Src::In("x"),
                _ => Src::Prop,
            };
        }
        if !simple && k < 46 {
            if let Some((p, r)) = self.pick_multi(phase, false) {
                return Src::Key(p, *self.r.pick(self.sp.ps[p].keys), r);
            }
        }
        let int = if self.r.chance(0.1) { None } else { Some(false) };
        match self.pick_par(int, phase, simple) {
            Some((p, r)) => Src::Par(p, r),
            None => Src::Lit(self.lit()),
        }
    }
    /// A parameter with several values, and which of them can be referred to.
    fn pick_multi(&mut self, phase: Phase, index: bool) -> Option<(usize, Ret)> {
        let m: Vec<(usize, Ret)> = self
            .sp
            .ps
            .iter()
            .enumerate()
            .filter(|(_, p)| !p.keys.is_empty() && (!index || matches!(p.kind, Kind::Py(..))))
            .flat_map(|(i, p)| {
                let mut v = vec![];
                if p.before {
                    v.push((i, Ret::Before));
                }
                if p.after {
                    v.push((i, Ret::AfterInit));
                    if phase == Phase::After {
                        v.push((i, Ret::After));
                    }
                }
                v
            })
            .collect();
        if m.is_empty() { None } else { Some(*self.r.pick(&m)) }
    }
    fn isrc(&mut self, phase: Phase) -> ISrc {
        if self.class == PY && self.r.chance(0.15) {
            if let Some((p, r)) = self.pick_multi(phase, true) {
                return ISrc::Key(p, "i", r);
            }
        }
        if self.r.chance(0.1) {
            return ISrc::Lit(self.r.us(0, 3) as u64);
        }
        match self.pick_par(Some(true), phase, false) {
            Some((p, r)) => ISrc::Par(p, r),
            None => ISrc::Lit(self.r.us(0, 3) as u64),
        }
    }
    fn mag(&self, s: &Src) -> f64 {
        match s {
            Src::Lit(x) => x.abs(),
            Src::Par(p, _) | Src::Key(p, ..) => self.sp.ps[*p].mag,
            Src::Prop => 1.0,
            _ => 200.0,
        }
    }
    fn imax(&self, s: &ISrc) -> u64 {
        match s {
            ISrc::Lit(x) => *x,
            ISrc::Par(p, _) | ISrc::Key(p, ..) => self.sp.ps[*p].maxv,
        }
    }
    fn is_simple(&self, s: &Src) -> bool {
        match s {
            Src::Lit(_) => true,
            Src::Par(p, Ret::Before) => self.sp.ps[*p].simple,
            _ => false,
        }
    }
    fn is_isimple(&self, s: &ISrc) -> bool {
        match s {
            ISrc::Lit(_) => true,
            ISrc::Par(p, Ret::Before) => self.sp.ps[*p].simple,
            _ => false,
        }
    }
    fn nsrc(&mut self, n: usize, phase: Phase) -> Vec<Src> {
        let simple = self.r.chance(0.35);
        (0..n).map(|_| self.src(phase, simple)).collect()
    }
    fn phase(&mut self) -> Phase {
        match self.r.us(0, 9) {
            0..=6 => Phase::Before,
            7 | 8 => Phase::After,
            _ => Phase::Both,
        }
    }
    fn push(&mut self, kind: Kind, int: bool, phase: Phase, maxv: u64, mag: f64, keys: &'static [&'static str], simple: bool) -> usize {
        let name = format!("p{}", self.sp.ps.len());
        let mag = if int { maxv as f64 } else { mag.max(1.0) };
        self.sp.ps.push(P { name, kind, int, before: phase != Phase::After, after: phase != Phase::Before, maxv, mag, keys, simple });
        self.sp.ps.len() - 1
    }
    /// something compared with a control curve or a threshold
    fn xsrc(&mut self) -> Src {
        match self.r.us(0, 5) {
            0 | 1 => Src::Prop,
            _ => self.src(Phase::Before, false),
        }
    }
    fn curve(&mut self, x: &Src) -> Src {
        if matches!(x, Src::Prop) {
            Src::Lit(*self.r.pick(&[0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875]))
        } else if self.r.chance(0.5) {
            let m = self.mag(x).min(30.0);
            Src::Lit(self.r.q(-m, m))
        } else {
            self.src(Phase::Before, false)
        }
    }

    fn one(&mut self) {
        let k = match self.class {
            FUNC => self.r.us(0, 99),
            PY if self.r.chance(0.6) => 200,
            PY => self.r.us(0, 149),
            HIST => {
                if self.r.chance(0.5) {
                    self.r.us(100, 149)
                } else {
                    self.r.us(0, 99)
                }
            }
            _ => {
                if self.r.chance(0.6) {
                    self.r.us(150, 199)
                } else {
                    self.r.us(0, 99)
                }
            }
        };
        let b = Phase::Before;
        match k {
            0..=11 => {
                let phase = self.phase();
                let f = *self.r.pick(&FUNCS);
                let n = self.r.us(1, 4);
                let m = self.nsrc(n, phase);
                let mag: f64 = match f {
                    Func::Product => m.iter().map(|s| self.mag(s).max(1.0)).product(),
                    Func::Sum => m.iter().map(|s| self.mag(s)).sum(),
                    _ => m.iter().map(|s| self.mag(s)).fold(4.0, f64::max),
                };
                if mag < 1e8 {
                    let simple = phase == b && m.iter().all(|s| self.is_simple(s));
                    self.push(Kind::Agg { f, phase, m }, false, phase, 0, mag, &[], simple);
                }
            }
            12..=18 => {
                let phase = self.phase();
                let f = *self.r.pick(&UFUNCS);
                let m: Vec<ISrc> = (0..self.r.us(1, 4)).map(|_| self.isrc(phase)).collect();
                let mx: Vec<u64> = m.iter().map(|s| self.imax(s)).collect();
                let maxv = match f {
                    UFunc::Sum => mx.iter().sum(),
                    UFunc::Product => mx.iter().product(),
                    UFunc::Min | UFunc::Max => *mx.iter().max().unwrap(),
                    _ => 1,
                };
                if maxv <= 200 {
                    let simple = phase == b && m.iter().all(|s| self.is_isimple(s));
                    self.push(Kind::AggU { f, phase, m }, true, phase, maxv, 0.0, &[], simple);
                }
            }
            19..=28 => {
                let s = self.src(b, false);
                let th = if self.r.chance(0.3) { None } else { Some(self.lit()) };
                let mag = self.mag(&s).max(20.0);
                let kind = match k {
                    19 | 20 => Kind::Max(s, th),
                    21 | 22 => Kind::Min(s, th),
                    23 | 24 => Kind::Neg(s),
                    25 | 26 => Kind::NegMax(s, th),
                    _ => Kind::NegMin(s, th),
                };
                self.push(kind, false, b, 0, mag, &[], false);
            }
            29..=33 => {
                let phase = self.phase();
                let n = self.src(phase, false);
                let may_zero = self.sp.may_fail && self.r.chance(0.2);
                let d = if may_zero {
                    self.src(phase, false)
                } else if self.r.chance(0.3) {
                    Src::Lit(*self.r.pick(&[0.5, 2.0, -4.0, 3.0]))
                } else {
                    // keep away from zero
                    let s = self.src(b, false);
                    let mag = self.mag(&s).max(20.0);
                    let i = self.push(Kind::Max(s, Some(0.5)), false, b, 0, mag, &[], false);
                    Src::Par(i, Ret::Before)
                };
                let mag = self.mag(&n) * 2.0;
                if mag < 1e8 {
                    self.push(Kind::Div { phase, n, d }, false, phase, 0, if may_zero { 1e9 } else { mag }, &[], false);
                }
            }
            34..=36 => {
                let rate = if self.r.chance(0.5) { Src::Lit(0.035) } else { self.any_simple_unit() };
                let base = self.sp.start.year() + self.r.us(0, 12) as i16 - 8;
                self.push(Kind::Disc { rate, base }, false, b, 0, 1e4, &[], false);
            }
            37..=42 => {
                let both = self.r.us(0, 2);
                let target = if both != 1 { Some(Src::Lit(self.r.q(0.0, 40.0))) } else { None };
                let target = if target.is_some() && self.r.chance(0.5) {
                    let s = self.src(b, false);
                    let mag = self.mag(&s).max(1.0);
                    let i = self.push(Kind::Max(s, None), false, b, 0, mag, &[], false);
                    Some(Src::Par(i, Ret::Before))
                } else {
                    target
                };
                let actual = if both != 0 { Some(Src::In("l")) } else { None };
                let phase = [b, Phase::After, Phase::Both][both];
                let we = if self.r.chance(0.7) { Some(if self.r.chance(0.5) { Src::Vol } else { self.src(b, false) }) } else { None };
                let o = |r: &mut Rng, lo: f64, hi: f64| if r.chance(0.6) { Some(r.q(lo, hi)) } else { None };
                let te = o(self.r, 0.0, 30.0);
                let mh = o(self.r, 0.0, 10.0);
                let eff = if self.r.chance(0.6) { Some(0.85) } else { None };
                let dens = if self.r.chance(0.3) { Some(998.0) } else { None };
                let fc = if self.r.chance(0.5) { Some(self.r.q(0.5, 12.0)) } else { None };
                let ec = if self.r.chance(0.5) { Some(*self.r.pick(&[1e-3, 2e-6, 1e-6])) } else { None };
                let (mut maxf, mut minf) = (None, None);
                if both != 1 {
                    maxf = if self.r.chance(0.7) { Some(Src::Lit(self.r.q(5.0, 50.0))) } else { None };
                    minf = if self.r.chance(0.4) { Some(Src::Lit(self.r.q(0.0, 5.0))) } else { None };
                }
                self.push(Kind::Hydro { target, actual, we, te, mh, maxf, minf, eff, dens, fc, ec }, false, phase, 0, 1e7, &[], false);
            }
            43..=47 => {
                let idx = self.isrc(b);
                let n = self.imax(&idx) as usize + 1;
                if n <= 7 {
                    let n = if self.sp.may_fail && n > 1 && self.r.chance(0.2) { n - 1 } else { n + self.r.us(0, 1) };
                    let m = self.nsrc(n, b);
                    let mag = m.iter().map(|s| self.mag(s)).fold(1.0, f64::max);
                    self.push(Kind::Indexed { idx, m }, false, b, 0, mag, &[], false);
                }
            }
            48..=54 => {
                let x = self.src(b, false);
                let n = self.r.us(2, 5);
                let mut v = self.r.q(-10.0, 10.0);
                let mut xp = vec![];
                for _ in 0..n {
                    xp.push(Src::Lit(v));
                    v += self.r.q(0.5, 15.0).max(0.25);
                }
                let fp = self.nsrc(n, b);
                let err = if self.sp.may_fail && self.r.chance(0.2) { *self.r.pick(&[None, Some(true)]) } else { Some(false) };
                let mag = fp.iter().map(|s| self.mag(s)).fold(1.0, f64::max);
                self.push(Kind::Interp { x, xp, fp, err }, false, b, 0, mag, &[], false);
            }
            55..=58 => {
                let s = self.src(b, false);
                let o = self.lit();
                let mag = self.mag(&s) + 20.0;
                self.push(Kind::Offset(s, o), false, b, 0, mag, &[], false);
            }
            59..=63 => {
                let m = self.src(b, false);
                let c: Vec<f64> = (0..self.r.us(1, 4)).map(|_| self.r.q(-3.0, 3.0)).collect();
                let scale = if self.r.chance(0.6) { Some(*self.r.pick(&[0.1, 0.5, 2.0, -1.0])) } else { None };
                let offset = if self.r.chance(0.6) { Some(self.r.q(-5.0, 5.0)) } else { None };
                let z = self.mag(&m) * scale.unwrap_or(1.0_f64).abs() + 5.0;
                let mag = 3.0 * z.max(1.0).powi(c.len() as i32 - 1) * c.len() as f64;
                if mag < 1e8 {
                    self.push(Kind::Poly { m, c, scale, offset }, false, b, 0, mag, &[], false);
                }
            }
            64..=68 => {
                let x = self.xsrc();
                let cc = self.curves(&x, true);
                let v = self.nsrc(cc.len() + 2, b);
                let n = cc.len() + 1;
                // n + 1 values for n curves (the lowest value applies at zero)
                let v = v[..n + 1].to_vec();
                let mag = v.iter().map(|s| self.mag(s)).fold(1.0, f64::max);
                let _ = n;
                self.push(Kind::CcInterp { x, cc, v }, false, b, 0, mag, &[], false);
            }
            69..=72 => {
                let x = self.xsrc();
                let cc = self.curves(&x, false);
                let n = cc.len() as u64;
                self.push(Kind::CcIndex { x, cc }, true, b, n, 0.0, &[], false);
            }
            73..=77 => {
                let x = self.xsrc();
                let cc = self.curves(&x, false);
                let v = self.nsrc(cc.len() + 1, b);
                let mag = v.iter().map(|s| self.mag(s)).fold(1.0, f64::max);
                self.push(Kind::Cc { x, cc, v }, false, b, 0, mag, &[], false);
            }
            78..=81 => {
                let x = self.xsrc();
                let cc = self.curves(&x, true);
                let v = (0..cc.len() + 1).map(|_| [self.lit(), self.lit()]).collect();
                let (max, min) = if matches!(x, Src::Prop) {
                    (*self.r.pick(&[None, Some(1.0), Some(0.9375)]), *self.r.pick(&[None, Some(0.0625)]))
                } else {
                    (Some(self.r.q(20.0, 60.0)), Some(self.r.q(-60.0, -20.0)))
                };
                self.push(Kind::CcPiece { x, cc, v, max, min }, false, b, 0, 20.0, &[], false);
            }
            82..=84 => {
                let flow = Src::In("d");
                let max = self.src(Phase::After, false);
                let mag = self.mag(&max) + 200.0;
                self.push(Kind::Deficit { flow, max }, false, Phase::After, 0, mag, &[], false);
            }
            85..=89 => {
                let simple = self.r.chance(0.5);
                let a = self.src(b, simple);
                let bb = self.src(b, simple);
                let min = if self.r.chance(0.5) { Some(Src::Lit(self.r.q(-10.0, 0.0))) } else { None };
                let max = if self.r.chance(0.5) { Some(Src::Lit(self.r.q(0.0, 10.0))) } else { None };
                let mag = self.mag(&a) + self.mag(&bb);
                let s = self.is_simple(&a) && self.is_simple(&bb);
                self.push(Kind::Diff { a, b: bb, min, max }, false, b, 0, mag, &[], s);
            }
            90..=92 => {
                let x = self.src(b, false);
                let cc = if self.r.chance(0.5) { Src::Lit(self.r.q(-0.5, 1.5)) } else { self.src(b, false) };
                let mag = self.mag(&x);
                self.push(Kind::Apportion { x, cc }, false, b, 0, mag, &["lower", "upper"], false);
            }
            93..=95 => {
                let tt = if self.r.chance(0.5) { Src::Lit(self.r.q(0.5, 4.0)) } else { self.pos_profile() };
                let w = Src::Lit(*self.r.pick(&[0.0, 0.25, 0.5, 0.125]));
                let init = if self.r.chance(0.5) { Some((self.r.q(0.0, 20.0), self.r.q(0.0, 20.0))) } else { None };
                let i = Src::In("l");
                let o = self.r.pick(&[Src::In("d"), Src::Out("l")]).clone();
                self.push(Kind::Musk { i, o, tt, w, init }, false, b, 0, 1e4, &["inflow_factor", "rhs"], false);
            }
            96..=99 => {
                let total = self.src(b, true);
                let lower = if self.r.chance(0.7) { Some(self.src(b, true)) } else { None };
                let upper = if self.r.chance(0.7) { Some(self.src(b, true)) } else { None };
                let mag = self.mag(&total).max(1.0) * (2.0 + lower.as_ref().map_or(0.0, |s| self.mag(s)) + upper.as_ref().map_or(0.0, |s| self.mag(s)));
                if mag < 1e8 {
                    self.push(Kind::VolBetween { total, lower, upper }, false, b, 0, mag, &[], true);
                }
            }
            // history
            100..=108 => {
                let x = self.xsrc();
                let t = self.curve(&x);
                let p = *self.r.pick(&PREDS);
                let ret = if self.r.chance(0.4) { Some(self.nsrc(2, b)) } else { None };
                let ratchet = self.r.chance(0.5);
                let int = ret.is_none();
                let mag = ret.iter().flatten().map(|s| self.mag(s)).fold(1.0, f64::max);
                self.push(Kind::Thr { x, t, p, ret, ratchet }, int, b, 1, mag, &[], false);
            }
            109..=117 => {
                let x = self.xsrc();
                let n = self.r.us(1, 4);
                let t: Vec<Src> = (0..n).map(|_| self.curve(&x)).collect();
                let p = *self.r.pick(&PREDS);
                let ret = if self.r.chance(0.4) { Some(self.nsrc(n + 1, b)) } else { None };
                let ratchet = self.r.chance(0.5);
                let int = ret.is_none();
                let mag = ret.iter().flatten().map(|s| self.mag(s)).fold(1.0, f64::max);
                self.push(Kind::MThr { x, t, p, ret, ratchet }, int, b, n as u64, mag, &[], false);
            }
            118..=124 => {
                let on = self.isrc(b);
                let off = self.isrc(b);
                self.push(Kind::Asym { on, off }, true, b, 1, 0.0, &[], false);
            }
            125..=131 => {
                let x = { let s = self.r.chance(0.3); self.src(Phase::After, s) };
                let n = self.r.us(1, 8) as u64;
                let init = self.lit();
                let mag = self.mag(&x).max(20.0);
                let s = self.is_simple(&x);
                self.push(Kind::Delay { x, n, init }, false, b, 0, mag, &[], s);
            }
            132..=136 => {
                let x = self.isrc(Phase::After);
                let n = self.r.us(1, 8) as u64;
                let init = self.r.us(0, 3) as u64;
                let m = self.imax(&x).max(3);
                let s = self.is_isimple(&x);
                self.push(Kind::DelayU { x, n, init }, true, b, m, 0.0, &[], s);
            }
            137..=143 => {
                let x = { let s = self.r.chance(0.3); self.src(Phase::After, s) };
                let w = self.r.us(1, 8) as u64;
                let min = if self.r.chance(0.6) { Some(self.r.us(1, w as usize) as u64) } else { None };
                let f = *self.r.pick(&FUNCS);
                let f = if f == Func::Product && self.mag(&x).max(1.0).powi(w as i32) > 1e8 { Func::Sum } else { f };
                let mag = match f {
                    Func::Product => self.mag(&x).max(1.0).powi(w as i32),
                    _ => self.mag(&x) * w as f64,
                };
                if mag < 1e8 {
                    let s = self.is_simple(&x);
                    let init = self.lit();
                    self.push(Kind::Roll { x, w, init, min, f }, false, b, 0, mag.max(20.0), &[], s);
                }
            }
            144..=149 => {
                let x = self.isrc(Phase::After);
                let w = self.r.us(1, 5) as u64;
                let min = if self.r.chance(0.6) { Some(self.r.us(1, w as usize) as u64) } else { None };
                let f = *self.r.pick(&UFUNCS);
                let m = self.imax(&x);
                let maxv = match f {
                    UFunc::Sum => m * w,
                    UFunc::Product => m.saturating_pow(w as u32),
                    _ => m,
                }
                .max(3);
                if maxv <= 200 {
                    let s = self.is_isimple(&x);
                    let init = self.r.us(0, 3) as u64;
                    self.push(Kind::RollU { x, w, init, min, f }, true, b, maxv, 0.0, &[], s);
                }
            }
            // calendar
            150..=199 => {
                self.profile();
            }
            200 => self.python(),
            _ => unreachable!(),
        }
    }
    fn python(&mut self) {
        let file = self.r.us(0, self.sp.files.len() - 1);
        match self.r.us(0, 9) {
            0 => {
                let phase = self.phase();
                let f = Func::Py(file, self.r.chance(0.6), self.r.us(0, 80) as i32 - 40);
                let n = self.r.us(1, 4);
                let m = self.nsrc(n, phase);
                let mag: f64 = m.iter().map(|s| 2.0 * self.mag(s)).sum::<f64>() + 20.0;
                if mag < 1e8 {
                    let simple = phase == Phase::Before && m.iter().all(|s| self.is_simple(s));
                    self.push(Kind::Agg { f, phase, m }, false, phase, 0, mag, &[], simple);
                }
            }
            1 => {
                let phase = self.phase();
                let md = self.r.us(2, 6) as u64;
                let m: Vec<ISrc> = (0..self.r.us(1, 4)).map(|_| self.isrc(phase)).collect();
                let simple = phase == Phase::Before && m.iter().all(|s| self.is_isimple(s));
                self.push(Kind::AggU { f: UFunc::Py(file, md), phase, m }, true, phase, md - 1, 0.0, &[], simple);
            }
            2 => {
                let w = self.r.us(1, 5) as u64;
                let min = if self.r.chance(0.6) { Some(self.r.us(1, w as usize) as u64) } else { None };
                if self.r.chance(0.5) {
                    let x = self.src(Phase::After, false);
                    let f = Func::Py(file, self.r.chance(0.6), self.r.us(0, 80) as i32 - 40);
                    let (init, s) = (self.lit(), self.is_simple(&x));
                    let mag = 2.0 * w as f64 * self.mag(&x) + 40.0;
                    if mag < 1e8 {
                        self.push(Kind::Roll { x, w, init, min, f }, false, Phase::Before, 0, mag, &[], s);
                    }
                } else {
                    let x = self.isrc(Phase::After);
                    let md = self.r.us(2, 6) as u64;
                    let (init, s) = (self.r.us(0, 3) as u64, self.is_isimple(&x));
                    self.push(Kind::RollU { x, w, init, min, f: UFunc::Py(file, md) }, true, Phase::Before, md.max(4) - 1, 0.0, &[], s);
                }
            }
            _ => {
                let func = self.r.chance(0.4);
                let phase = if func { Phase::Before } else { *self.r.pick(&[Phase::Before, Phase::Before, Phase::After, Phase::Both]) };
                let ret = *self.r.pick(&["Float", "Float", "Int", "Dict"]);
                let n = self.r.us(0, 3);
                let m: Vec<Src> = (0..n).map(|_| self.src(phase, false)).collect();
                let n = self.r.us(0, 2);
                let i: Vec<ISrc> = (0..n).map(|_| self.isrc(phase)).collect();
                let c: Vec<f64> = m.iter().map(|_| self.r.q(-2.0, 2.0)).collect();
                let mag: f64 = m.iter().zip(&c).map(|(s, c)| self.mag(s) * c.abs()).sum::<f64>() + m.first().map(|s| self.mag(s)).unwrap_or(20.0) + 3000.0;
                if mag > 1e8 {
                    return;
                }
                let md = self.r.us(2, 6) as u64;
                let y = PyPar {
                    func,
                    ret,
                    ic: i.iter().map(|_| self.r.us(0, 3) as u64).collect(),
                    m,
                    i,
                    c,
                    a: self.lit(),
                    k: if self.r.chance(0.5) { Some(self.lit()) } else { None },
                    ts: self.r.us(0, 11) as u8,
                    scen: self.r.chance(0.5),
                    acc: !func && self.r.chance(0.6),
                    md,
                    file,
                    log: self.r.chance(0.3),
                    opts: self.r.chance(0.3),
                };
                let keys: &'static [&'static str] = if ret == "Dict" { &["v", "w"] } else { &[] };
                let p = self.push(Kind::Py(Box::new(y)), ret == "Int", phase, md - 1, mag, keys, false);
                self.sp.ps[p].maxv = md - 1;
            }
        }
    }
    fn curves(&mut self, x: &Src, ordered: bool) -> Vec<Src> {
        let n = self.r.us(1, 3);
        if matches!(x, Src::Prop) {
            let mut c = vec![0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875];
            self.r.shuffle(&mut c);
            c.truncate(n);
            c.sort_by(|a, b| b.partial_cmp(a).unwrap());
            return c.into_iter().map(Src::Lit).collect();
        }
        if ordered {
            let mut c: Vec<f64> = (0..n).map(|_| self.r.q(-15.0, 15.0)).collect();
            c.sort_by(|a, b| b.partial_cmp(a).unwrap());
            return c.into_iter().map(Src::Lit).collect();
        }
        (0..n).map(|_| self.curve(x)).collect()
    }
    fn any_simple_unit(&mut self) -> Src {
        let v = (0..12).map(|_| self.r.q(0.0, 1.0)).collect();
        let i = self.push(Kind::Monthly(v, None), false, Phase::Before, 0, 1.0, &[], true);
        Src::Par(i, Ret::Before)
    }
    fn pos_profile(&mut self) -> Src {
        let v = (0..12).map(|_| self.r.q(0.5, 4.0)).collect();
        let i = self.push(Kind::Monthly(v, None), false, Phase::Before, 0, 4.0, &[], true);
        Src::Par(i, Ret::Before)
    }
    fn profile(&mut self) -> usize {
        let b = Phase::Before;
        let r = &mut *self.r;
        let mut vals = |n: usize| (0..n).map(|_| r.q(-20.0, 20.0)).collect::<Vec<f64>>();
        let pick = [vals(366), vals(365), vals(12), vals(52), vals(53), vals(24)];
        let interp = *self.r.pick(&[None, Some(true), Some(false)]);
        let kind = match self.r.us(0, 13) {
            0 | 1 => Kind::Daily(pick[0].clone()),
            2 => Kind::Daily(pick[1].clone()),
            3..=5 => Kind::Monthly(pick[2].clone(), interp),
            6 | 7 => Kind::Weekly(pick[3].clone(), interp),
            8 => Kind::Weekly(pick[4].clone(), interp),
            9 => Kind::Diurnal(pick[5].clone()),
            10 | 11 => {
                let r = &mut *self.r;
                let (d, m) = (r.us(1, 28) as u64, r.us(1, 12) as u64);
                let (d, m) = if r.chance(0.1) { (1, 3) } else { (d, m) };
                Kind::Draw {
                    day: if r.chance(0.8) { Some(d) } else { None },
                    month: if r.chance(0.8) { Some(m) } else { None },
                    residual: if r.chance(0.6) { Some(r.us(0, 200) as u64) } else { None },
                }
            }
            _ => {
                let n = self.r.us(2, 5);
                let mut d = self.r.us(1, 60) as u32;
                let mut pts = vec![];
                for _ in 0..n {
                    pts.push((d, self.r.q(0.0, 10.0)));
                    d += self.r.us(35, 60) as u32;
                }
                let f = *self.r.pick(&["Linear", "Cubic", "Quintic", "ThinPlateSpline", "Gaussian", "MultiQuadric", "InverseMultiQuadric"]);
                let e = match f {
                    "Gaussian" | "MultiQuadric" | "InverseMultiQuadric" => {
                        if f != "Gaussian" && self.r.chance(0.2) {
                            None
                        } else {
                            Some(*self.r.pick(&[0.02, 0.03125, 0.05]))
                        }
                    }
                    _ => None,
                };
                Kind::Rbf(pts, f, e)
            }
        };
        self.push(kind, false, b, 0, 50.0, &[], true)
    }
}

pub fn generate(r: &mut Rng, class: u8, thorough: bool) -> Spec {
    let hours = match r.us(0, 9) {
        0..=5 => 24,
        6 => 24 * r.us(2, 10) as i64,
        7 => 24 * r.us(11, 40) as i64,
        _ => *r.pick(&[1i64, 3, 6, 12, 36, 5]),
    };
    let y = r.us(1999, 2032) as i16;
    let start = match r.us(0, 5) {
        0 => Date::new(y, 2, r.us(20, 28) as i8).unwrap(),
        1 => Date::new(y, 12, r.us(20, 31) as i8).unwrap(),
        2 => Date::new(y, 1, 1).unwrap(),
        _ => Date::new(y, r.us(1, 12) as i8, r.us(1, 28) as i8).unwrap(),
    };
    let nsteps = if thorough { r.us(5, 60) } else { r.us(5, 25) };
    let groups = match r.us(0, 2) {
        0 => vec![],
        1 => vec![r.us(1, 4)],
        _ => vec![r.us(1, 3), r.us(1, 3)],
    };
    let maxv = *r.pick(&[64.0, 100.0, 128.0]);
    let sp = Spec {
        ps: vec![],
        groups,
        start: start.at(0, 0, 0, 0),
        hours,
        nsteps,
        flow: (0..nsteps).map(|_| if r.chance(0.2) { 0.0 } else { r.q(0.0, 40.0) }).collect(),
        demand: (0..nsteps).map(|_| if r.chance(0.2) { 0.0 } else { r.q(0.0, 40.0) }).collect(),
        init: r.q(0.0, maxv),
        maxv,
        order: vec![],
        may_fail: r.chance(0.1) && class != PY,
        files: vec![],
        log: None,
        fault: None,
    };
    let mut g = Gen { r, sp, class };
    // drivers
    let b = Phase::Before;
    for _ in 0..2 {
        let v: Vec<f64> = (0..nsteps).map(|_| g.lit()).collect();
        let off = if g.r.chance(0.3) { Some(g.r.us(0, 8) as i32 - 4) } else { None };
        g.push(Kind::Arr1(v, off), false, b, 0, 20.0, &[], true);
    }
    let v: Vec<u64> = (0..nsteps).map(|_| if g.r.chance(0.4) { 0 } else { g.r.us(0, 4) as u64 }).collect();
    g.push(Kind::ArrU(v), true, b, 4, 0.0, &[], true);
    let v: Vec<u64> = (0..nsteps).map(|_| if g.r.chance(0.5) { 0 } else { 1 }).collect();
    g.push(Kind::ArrU(v), true, b, 1, 0.0, &[], true);
    let c = g.lit();
    g.push(Kind::Const(c), false, b, 0, 20.0, &[], true);
    if g.r.chance(0.3) {
        let v: Vec<f64> = (0..nsteps).map(|_| g.lit()).collect();
        g.push(Kind::Vector(v), false, b, 0, 20.0, &[], false);
    }
    for gi in 0..g.sp.groups.len() {
        let n = g.sp.groups[gi];
        let v: Vec<Vec<f64>> = (0..nsteps).map(|_| (0..n).map(|_| g.lit()).collect()).collect();
        let off = if g.r.chance(0.2) { Some(g.r.us(0, 8) as i32 - 4) } else { None };
        g.push(Kind::Arr2(v, gi, off), false, b, 0, 20.0, &[], true);
        let v: Vec<f64> = (0..n).map(|_| g.lit()).collect();
        g.push(Kind::ConstScen(v, gi), false, b, 0, 20.0, &[], true);
    }
    if class != CAL {
        g.profile();
    }
    if class == PY {
        // the same file name in different directories
        for f in [Some("calc.py"), Some("a/calc.py"), Some("b/calc.py"), None] {
            let shift = if f.is_none() { 0.0 } else { g.r.q(-20.0, 20.0) };
            g.sp.files.push((f, shift));
        }
    }
    let n = g.r.us(6, 18);
    for _ in 0..n {
        g.one();
    }
    let mut sp = g.sp;
    sp.order = (0..sp.ps.len()).collect();
    r.shuffle(&mut sp.order);
    sp
}

// ---------------------------------------------------------------------------------------------- emission

impl Spec {
    fn ret(r: Ret) -> &'static str {
        match r {
            Ret::Before => "Before",
            Ret::After => "After",
            Ret::AfterInit => "AfterOrElseInitial",
        }
    }
    fn jsrc(&self, s: &Src) -> Value {
        match s {
            Src::Lit(x) => json!({"type":"Literal","value":x}),
            Src::Par(p, Ret::Before) => json!({"type":"Parameter","name":self.ps[*p].name}),
            Src::Par(p, r) => json!({"type":"Parameter","name":self.ps[*p].name,"return_value":Self::ret(*r)}),
            Src::Key(p, k, Ret::Before) => json!({"type":"Parameter","name":self.ps[*p].name,"key":k}),
            Src::Key(p, k, r) => json!({"type":"Parameter","name":self.ps[*p].name,"key":k,"return_value":Self::ret(*r)}),
            Src::In(n) => json!({"type":"Node","name":n,"attribute":"Inflow"}),
            Src::Out(n) => json!({"type":"Node","name":n,"attribute":"Outflow"}),
            Src::Edge(a, b) => json!({"type":"Edge","edge":{"from_node":a,"to_node":b}}),
            Src::Vol => json!({"type":"Node","name":"st","attribute":"Volume"}),
            Src::Prop => json!({"type":"Node","name":"st","attribute":"ProportionalVolume"}),
        }
    }
    fn jisrc(&self, s: &ISrc) -> Value {
        match s {
            ISrc::Lit(x) => json!({"type":"Constant","value":x}),
            ISrc::Par(p, r) => self.jsrc(&Src::Par(*p, *r)),
            ISrc::Key(p, k, r) => self.jsrc(&Src::Key(*p, k, *r)),
        }
    }
    fn usrc(&self, s: &Src) -> UM {
        match s {
            Src::Lit(x) => (*x).into(),
            Src::Par(p, r) => UM::ParameterValue { name: self.ps[*p].name.as_str().into(), return_value: core_ret(*r) },
            Src::Key(p, k, r) => UM::MultiParameterValue { name: self.ps[*p].name.as_str().into(), key: k.to_string(), return_value: core_ret(*r) },
            Src::In(n) => UM::NodeInFlow((*n).into()),
            Src::Out(n) => UM::NodeOutFlow((*n).into()),
            Src::Edge(a, b) => UM::EdgeFlow(pywr_core::network::UnresolvedEdge::new((*a).into(), (*b).into())),
            Src::Vol => UM::NodeVolume("st".into()),
            Src::Prop => UM::NodeProportionalVolume("st".into()),
        }
    }
    fn jparam(&self, i: usize) -> Option<Value> {
        let p = &self.ps[i];
        let meta = json!({"name":p.name});
        let js = |v: &[Src]| v.iter().map(|s| self.jsrc(s)).collect::<Vec<_>>();
        let lits = |v: &[f64]| json!({"type":"Literal","values":v});
        let ph = |p: &Phase| format!("{p:?}");
        let mut o = match &p.kind {
            Kind::Arr1(..) | Kind::Arr2(..) | Kind::ArrU(..) | Kind::Vector(..) | Kind::Deficit { .. } | Kind::Diff { .. } | Kind::Apportion { .. } | Kind::Musk { .. } | Kind::VolBetween { .. } => return None,
            Kind::Py(y) => {
                let name = |c: &str, n: usize| format!("{c}{n}");
                let coefs: serde_json::Map<String, Value> = y.c.iter().enumerate().map(|(j, c)| (name("m", j), json!(c))).collect();
                let icoefs: serde_json::Map<String, Value> = y.ic.iter().enumerate().map(|(j, c)| (name("i", j), json!(c))).collect();
                let mut kw = json!({"mod":y.md,"name":p.name});
                let mut put = |c: bool, k: &str, v: Value| {
                    if c {
                        kw[k] = v;
                    }
                };
                put(y.k.is_some(), "k", json!(y.k));
                put(y.ts > 0, "ts", json!(y.ts));
                put(y.scen, "scen", json!(true));
                put(y.acc, "acc", json!(true));
                put(y.ret != "Float", "ret", json!(y.ret));
                put(y.log && self.log.is_some(), "log", json!(self.log));
                put(y.opts, "opts", json!({"none":null,"flag":true,"off":false,"text":"h\u{e9}llo \u{2603} \"x\"","big":9007199254740993u64,"neg":-7,"top":u64::MAX,"nested":[1,[2.5,null,2.0],{"x":[],"y":{"z":"w"}}]}));
                match &self.fault {
                    Some(Fault::Run { p, how, t, s, after }) if *p == i => put(true, "boom", json!({"step":t,"scen":s,"phase":if *after {"after"} else {"before"},"how":how})),
                    Some(Fault::Init(p)) if *p == i => put(true, "boom", json!({"step":0,"scen":0,"phase":"","how":"init"})),
                    _ => {}
                }
                let object = if y.func {
                    json!({"type":"Function","function":"func"})
                } else {
                    json!({"type":"Class","class":match (p.before, p.after) { (true, true) => "AB", (true, false) => "B", _ => "A" }})
                };
                let mut j = json!({"source":self.jfile(y.file),"object":object,"args":[y.a,coefs,icoefs],"kwargs":kw,
                    "return_type":if y.ret == "Float" && y.acc { Value::Null } else { json!(y.ret) },
                    "metrics":y.m.iter().enumerate().map(|(j, s)| (name("m", j), self.jsrc(s))).collect::<serde_json::Map<_, _>>(),
                    "indices":y.i.iter().enumerate().map(|(j, s)| (name("i", j), self.jisrc(s))).collect::<serde_json::Map<_, _>>()});
                if let Some(Fault::Load(q, how)) = &self.fault {
                    if *q == i {
                        match *how {
                            "no-file" => j["source"] = json!({"type":"Path","path":"calc2.py"}),
                            "directory" => j["source"] = json!({"type":"Path","path":"a"}),
                            "no-module" => j["source"] = json!({"type":"Module","module":"pvmod_not_there"}),
                            "syntax" => j["source"] = json!({"type":"Path","path":"syntax.py"}),
                            "raises" => j["source"] = json!({"type":"Path","path":"raises.py"}),
                            "nul" => j["source"] = json!({"type":"Path","path":"nul.py"}),
                            "latin" => j["source"] = json!({"type":"Path","path":"latin.py"}),
                            "no-class" => j["object"] = json!({"type":"Class","class":"Missing"}),
                            "no-function" => j["object"] = json!({"type":"Function","function":"missing"}),
                            "no-phase" => j["object"] = json!({"type":"Class","class":"Nothing"}),
                            _ => unreachable!(),
                        }
                    }
                }
                j
            }
            Kind::Const(c) => json!({"value":{"type":"Literal","value":c}}),
            Kind::ConstScen(v, g) => json!({"scenario_group":format!("g{g}"),"values":lits(v)}),
            Kind::Agg { f, phase, m } => json!({"phase":ph(phase),"agg_func":self.jfunc(*f, i),"metrics":js(m)}),
            Kind::AggU { f, phase, m } => json!({"phase":ph(phase),"agg_func":self.jufunc(*f, i),"metrics":m.iter().map(|s| self.jisrc(s)).collect::<Vec<_>>()}),
            Kind::Max(s, t) | Kind::Min(s, t) => json!({"parameter":self.jsrc(s),"threshold":t}),
            Kind::Neg(s) => json!({"parameter":self.jsrc(s)}),
            Kind::NegMax(s, t) | Kind::NegMin(s, t) => json!({"metric":self.jsrc(s),"threshold":t}),
            Kind::Div { phase, n, d } => json!({"phase":ph(phase),"numerator":self.jsrc(n),"denominator":self.jsrc(d)}),
            Kind::Disc { rate, base } => json!({"discount_rate":self.jsrc(rate),"base_year":base}),
            Kind::Hydro { target, actual, we, te, mh, maxf, minf, eff, dens, fc, ec } => json!({
                "target":target.as_ref().map(|s| self.jsrc(s)),"actual_flow":actual.as_ref().map(|s| self.jsrc(s)),
                "water_elevation":we.as_ref().map(|s| self.jsrc(s)),"turbine_elevation":te,"min_head":mh,
                "max_flow":maxf.as_ref().map(|s| self.jsrc(s)),"min_flow":minf.as_ref().map(|s| self.jsrc(s)),
                "efficiency":eff,"water_density":dens,"flow_unit_conversion":fc,"energy_unit_conversion":ec}),
            Kind::Indexed { idx, m } => json!({"index_parameter":self.jisrc(idx),"metrics":js(m)}),
            Kind::Interp { x, xp, fp, err } => json!({"x":self.jsrc(x),"xp":js(xp),"fp":js(fp),"error_on_bounds":err}),
            Kind::Offset(s, c) => json!({"metric":self.jsrc(s),"offset":{"type":"Literal","value":c}}),
            Kind::Poly { m, c, scale, offset } => json!({"metric":self.jsrc(m),"coefficients":c,"scale":scale,"offset":offset}),
            Kind::Daily(v) => json!({"values":lits(v)}),
            Kind::Monthly(v, i) | Kind::Weekly(v, i) => json!({"values":lits(v),"interp_day":i.map(|f| if f {"First"} else {"Last"})}),
            Kind::Diurnal(v) => json!({"values":lits(v)}),
            Kind::Draw { day, month, residual } => {
                let c = |v: &Option<u64>| v.map(|v| json!({"type":"Literal","value":v}));
                json!({"reset_day":c(day),"reset_month":c(month),"residual_days":c(residual)})
            }
            Kind::Rbf(pts, f, e) => {
                let mut fj = json!({"type":f});
                if matches!(*f, "Gaussian" | "MultiQuadric" | "InverseMultiQuadric") {
                    if let Some(e) = e {
                        fj["epsilon"] = json!(e);
                    }
                }
                json!({"points":pts,"function":fj})
            }
            Kind::CcInterp { x, cc, v } | Kind::Cc { x, cc, v } => json!({"storage_metric":self.jsrc(x),"control_curves":js(cc),"values":js(v)}),
            Kind::CcIndex { x, cc } => json!({"storage_metric":self.jsrc(x),"control_curves":js(cc)}),
            Kind::CcPiece { x, cc, v, max, min } => json!({"storage_metric":self.jsrc(x),"control_curves":js(cc),"values":v,"maximum":max,"minimum":min}),
            Kind::Thr { x, t, p, ret, ratchet } => json!({"metric":self.jsrc(x),"threshold":self.jsrc(t),"predicate":jpred(*p),"returned_metrics":ret.as_ref().map(|r| js(r)),"ratchet":ratchet}),
            Kind::MThr { x, t, p, ret, ratchet } => json!({"metric":self.jsrc(x),"thresholds":js(t),"predicate":jpred(*p),"returned_metrics":ret.as_ref().map(|r| js(r)),"ratchet":ratchet}),
            Kind::Asym { on, off } => json!({"on_index_parameter":self.jisrc(on),"off_index_parameter":self.jisrc(off)}),
            Kind::Delay { x, n, init } => json!({"metric":self.jsrc(x),"delay":n,"initial_value":init}),
            Kind::DelayU { x, n, init } => json!({"metric":self.jisrc(x),"delay":n,"initial_value":init}),
            Kind::Roll { x, w, init, min, f } => json!({"metric":self.jsrc(x),"window_size":w,"initial_value":init,"min_values":min,"agg_func":self.jfunc(*f, i)}),
            Kind::RollU { x, w, init, min, f } => json!({"metric":self.jisrc(x),"window_size":w,"initial_value":init,"min_values":min,"agg_func":self.jufunc(*f, i)}),
        };
        let m = o.as_object_mut().unwrap();
        m.retain(|_, v| !v.is_null());
        m.insert("meta".into(), meta);
        m.insert("type".into(), json!(p.kind.tag()));
        Some(o)
    }
    fn jfile(&self, f: usize) -> Value {
        match self.files[f].0 {
            Some(p) => json!({"type":"Path","path":p}),
            None => json!({"type":"Module","module":"pvmod"}),
        }
    }
    fn jfunc(&self, f: Func, i: usize) -> Value {
        let boom = matches!(&self.fault, Some(Fault::Func(p)) if *p == i);
        match f {
            Func::AnyNonZero(None) => json!({"type":"AnyNonZero"}),
            Func::AnyNonZero(Some(t)) => json!({"type":"AnyNonZero","tolerance":t as f64 / 4.0}),
            Func::Py(f, w, c) => json!({"type":"Python","source":self.jfile(f),"object":"wsum","args":[c as f64 * 0.25],"kwargs":{"weights":w,"boom":boom}}),
            f => json!({"type":format!("{f:?}")}),
        }
    }
    fn jufunc(&self, f: UFunc, i: usize) -> Value {
        let boom = matches!(&self.fault, Some(Fault::Func(p)) if *p == i);
        match f {
            UFunc::Py(f, m) => json!({"type":"Python","source":self.jfile(f),"object":"modulo","args":[m],"kwargs":{"boom":boom}}),
            f => json!({"type":format!("{f:?}")}),
        }
    }
    /// Names of the parameters that injected ones refer to.
    pub fn pinned(&self) -> std::collections::BTreeSet<String> {
        let mut out = std::collections::BTreeSet::new();
        for (i, p) in self.ps.iter().enumerate().filter(|(i, _)| self.jparam(*i).is_none()) {
            let t = format!("{:?}", p.kind);
            for k in ["Par(", "Key("] {
                for x in t.split(k).skip(1) {
                    let n: String = x.chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Ok(n) = n.parse::<usize>() {
                        out.insert(self.ps[n].name.clone());
                    }
                }
            }
            let _ = i;
        }
        out
    }
    /// Names of the parameters with a number before the allocation.
    pub fn float_befores(&self) -> Vec<String> {
        self.ps.iter().filter(|p| p.before && !p.int && p.keys.is_empty()).map(|p| p.name.clone()).collect()
    }
    pub fn inject(&self, mb: &mut ModelBuilder) {
        let nb = mb.network_builder();
        let ps = nb.parameters();
        for i in &self.order {
            let p = &self.ps[*i];
            let name = || cp::ParameterName::from(p.name.as_str());
            match &p.kind {
                Kind::Arr1(v, off) => {
                    let mut b = cp::Array1ParameterBuilder::new(name(), Array1::from(v.clone()));
                    if let Some(o) = off {
                        b.timestep_offset(*o);
                    }
                    ps.f64(Box::new(b));
                }
                Kind::Arr2(v, g, off) => {
                    let a = Array2::from_shape_fn((v.len(), v[0].len()), |(i, j)| v[i][j]);
                    let mut b = cp::Array2ParameterBuilder::new(name(), a, &format!("g{g}"));
                    if let Some(o) = off {
                        b.timestep_offset(*o);
                    }
                    ps.f64(Box::new(b));
                }
                Kind::ArrU(v) => {
                    ps.u64(Box::new(cp::Array1ParameterBuilder::new(name(), Array1::from(v.clone()))));
                }
                Kind::Vector(v) => {
                    ps.f64(Box::new(cp::VectorParameterBuilder::new(name(), v)));
                }
                Kind::Deficit { flow, max } => {
                    ps.f64(Box::new(cp::DeficitParameterBuilder::new(name(), self.usrc(flow), self.usrc(max))));
                }
                Kind::Diff { a, b, min, max } => {
                    let mut d = cp::DifferenceParameterBuilder::new(name(), self.usrc(a), self.usrc(b));
                    if let Some(m) = min {
                        d.min(self.usrc(m));
                    }
                    if let Some(m) = max {
                        d.max(self.usrc(m));
                    }
                    ps.f64(Box::new(d));
                }
                Kind::Apportion { x, cc } => {
                    ps.multi(Box::new(cp::ApportionParameterBuilder::before(name(), self.usrc(x), self.usrc(cc))));
                }
                Kind::Musk { i, o, tt, w, init } => {
                    let ic = match init {
                        Some((i, o)) => cp::MuskingumInitialCondition::Specified { inflow: *i, outflow: *o },
                        None => cp::MuskingumInitialCondition::SteadyState,
                    };
                    ps.multi(Box::new(cp::MuskingumParameterBuilder::new(name(), self.usrc(i), self.usrc(o), self.usrc(tt), self.usrc(w), ic)));
                }
                Kind::VolBetween { total, lower, upper } => {
                    let mut b = cp::VolumeBetweenControlCurvesParameterBuilder::new(name(), self.usrc(total));
                    if let Some(m) = lower {
                        b.lower(self.usrc(m));
                    }
                    if let Some(m) = upper {
                        b.upper(self.usrc(m));
                    }
                    ps.f64(Box::new(b));
                }
                _ => {}
            }
        }
        ps.f64(Box::new(cp::Array1ParameterBuilder::new("drv-flow".into(), Array1::from(self.flow.clone()))));
        ps.f64(Box::new(cp::Array1ParameterBuilder::new("drv-demand".into(), Array1::from(self.demand.clone()))));
    }
    pub fn json(&self) -> Value {
        let end = self.start.checked_add((self.hours * (self.nsteps as i64 - 1)).hours()).unwrap();
        let ts = if self.hours % 24 == 0 { json!({"type":"Days","days":self.hours / 24}) } else { json!({"type":"Hours","hours":self.hours}) };
        let fmt = |d: DateTime| if self.hours % 24 == 0 { d.date().to_string() } else { d.to_string() };
        let par = |n: &str| json!({"type":"Parameter","name":n});
        let lit = |v: f64| json!({"type":"Literal","value":v});
        let e = |a: &str, b: &str| json!({"from_node":a,"to_node":b});
        let mut j = json!({
            "metadata":{"title":"generated"},
            "time":{"start":fmt(self.start),"end":fmt(end),"timestep":ts},
            "network":{
                "nodes":[
                    {"meta":{"name":"c"},"type":"Catchment","flow":par("drv-flow")},
                    {"meta":{"name":"l"},"type":"Link"},
                    {"meta":{"name":"st"},"type":"Storage","max_volume":lit(self.maxv),"cost":lit(-1.0),"initial_volume":{"type":"Absolute","volume":self.init}},
                    {"meta":{"name":"d"},"type":"Output","max_flow":par("drv-demand"),"cost":lit(-10.0)},
                    {"meta":{"name":"x"},"type":"Output","cost":lit(5.0)},
                ],
                "edges":[e("c","l"),e("l","st"),e("l","x"),e("st","d")],
                "parameters": self.order.iter().filter_map(|i| self.jparam(*i)).collect::<Vec<_>>(),
            },
        });
        if !self.groups.is_empty() {
            j["scenarios"] = json!({"groups": self.groups.iter().enumerate().map(|(i,n)| json!({"name":format!("g{i}"),"size":n})).collect::<Vec<_>>()});
        }
        j
    }
    pub fn describe(&self) -> Value {
        json!({"model":self.json(),"flow":self.flow,"demand":self.demand,
            "injected":self.ps.iter().enumerate().filter(|(i,_)| self.jparam(*i).is_none()).map(|(_,p)| format!("{}: {:?}", p.name, p.kind)).collect::<Vec<_>>()})
    }
    pub fn metrics(&self) -> Vec<(String, UM)> {
        let mut out = vec![];
        for p in &self.ps {
            if p.keys.is_empty() {
                if p.before {
                    out.push((format!("{}/b", p.name), UM::new_parameter_before(p.name.as_str())));
                }
                if p.after {
                    out.push((format!("{}/a", p.name), UM::new_parameter_after(p.name.as_str())));
                }
            } else {
                for k in p.keys {
                    if p.before {
                        out.push((format!("{}/{k}/b", p.name), UM::new_parameter_before_key(p.name.as_str(), k)));
                    }
                    if p.after {
                        out.push((format!("{}/{k}/a", p.name), UM::MultiParameterValue { name: p.name.as_str().into(), key: k.to_string(), return_value: cp::ParameterReturnValue::After }));
                    }
                }
            }
        }
        out
    }
}
fn core_ret(r: Ret) -> cp::ParameterReturnValue {
    match r {
        Ret::Before => cp::ParameterReturnValue::Before,
        Ret::After => cp::ParameterReturnValue::After,
        Ret::AfterInit => cp::ParameterReturnValue::AfterOrElseInitial,
    }
}
fn jpred(p: Pred) -> &'static str {
    match p {
        Pred::Lt => "LT",
        Pred::Gt => "GT",
        Pred::Eq => "EQ",
        Pred::Le => "LE",
        Pred::Ge => "GE",
    }
}

// ---------------------------------------------------------------------------------------------- check

const PYMOD: &str = include_str!("../../data/pvmod.py");

/// The directory that `PYTHONPATH` refers to.
pub fn python_path(dir: &std::path::Path) -> std::io::Result<()> {
    std::fs::create_dir_all(dir)?;
    std::fs::write(dir.join("pvmod.py"), PYMOD)
}

fn python_files(c: &mut Case, sp: &mut Spec) {
    for (f, shift) in &sp.files {
        if let Some(f) = f {
            let p = c.scratch.join(f);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, format!("import pvmod\n\nexec(pvmod.CODE, globals())\nSHIFT = {shift}\n")).unwrap();
        }
    }
    let w = |n: &str, t: &[u8]| std::fs::write(c.scratch.join(n), t).unwrap();
    w("syntax.py", format!("{PYMOD}\ndef f(:\n").as_bytes());
    w("raises.py", format!("{PYMOD}\nraise ValueError('on purpose')\n").as_bytes());
    w("nul.py", format!("{PYMOD}\n# \0\n").as_bytes());
    w("latin.py", &[PYMOD.as_bytes(), b"\n# \xe9\n"].concat());
    sp.log = Some(c.scratch.join("calls.log").display().to_string());
}

fn python_fault(r: &mut Rng, sp: &Spec) -> Option<Fault> {
    let l: Vec<usize> = (0..sp.ps.len()).filter(|i| sp.ps[*i].kind.class() == PY).collect();
    if l.is_empty() {
        return None;
    }
    let p = *r.pick(&l);
    let nsc = sp.groups.iter().product::<usize>();
    Some(match &sp.ps[p].kind {
        Kind::Py(y) => match r.us(0, 9) {
            0..=3 => {
                let k = *r.pick(&["no-file", "directory", "no-module", "syntax", "raises", "nul", "latin", "no-class", "no-function", "no-phase"]);
                Fault::Load(p, k)
            }
            4 if !y.func => Fault::Init(p),
            _ => {
                let hows: &[&str] = match y.ret {
                    "Float" => &["raise", "metric", "index", "text", "none", "list", "nan"],
                    "Int" => &["raise", "metric", "index", "text", "none", "list", "nan", "negative"],
                    _ => &["raise", "metric", "index", "text", "none", "list", "nan", "negative", "nested"],
                };
                let q = &sp.ps[p];
                let after = if q.before && q.after { r.chance(0.5) } else { q.after };
                Fault::Run { p, how: r.pick(hows), t: r.us(0, sp.nsteps - 1), s: r.us(0, nsc - 1), after }
            }
        },
        Kind::Agg { .. } | Kind::AggU { .. } => Fault::Func(p),
        _ => return None,
    })
}

/// What the log of calls and the end of the run must look like, and that another run starts anew.
fn python_checks(c: &mut Case, sp: &Spec, model: &pywr_core::models::Model, out: &std::sync::Arc<std::sync::Mutex<Trace>>, sel: SolverSel, r: &Result<pywr_core::models::ModelResult, RunErr>, tr: &Trace) -> Res {
    let read = || std::fs::read_to_string(sp.log.as_ref().unwrap()).unwrap_or_default();
    let calls = read();
    if let Some(f) = &sp.fault {
        let (p, want, tag) = match f {
            Fault::Load(..) => unreachable!(),
            Fault::Init(p) => (*p, 0, "init"),
            Fault::Func(p) => (*p, 0, "function"),
            Fault::Run { p, t, how, .. } => (*p, *t, *how),
        };
        let Err(e) = r else {
            return Err(viol("fault-accepted", format!("the run completes although {f:?}")));
        };
        ensure!(!(e.is_panic() && matches!(sel, SolverSel::Highs)), "panic", "{f:?}: {}", e.text());
        ensure!(tr.steps.len() == want, "fault-step", "{} steps were completed although {f:?}: {}", tr.steps.len(), e.text());
        let all = if e.is_panic() { e.text() } else { run::LAST_ERROR.with(|l| l.borrow().clone()) };
        let named = all.split(|c: char| !c.is_ascii_alphanumeric()).any(|w| w == sp.ps[p].name);
        ensure!(named, "fault-not-named", "{f:?} is reported without the name of {}: {}", sp.ps[p].name, all);
        c.count(&format!("fault_{tag}"), 1);
        return Ok(());
    }
    if r.is_err() {
        return Ok(());
    }
    let mut want = std::collections::BTreeMap::new();
    for p in &sp.ps {
        if let Kind::Py(y) = &p.kind {
            if y.log {
                for s in 0..tr.scenarios.len() {
                    let mut l = vec![];
                    for t in 0..sp.nsteps {
                        if p.before {
                            l.push(("before".to_string(), t));
                        }
                        if p.after {
                            l.push(("after".to_string(), t));
                        }
                    }
                    want.insert((p.name.clone(), s), l);
                }
            }
        }
    }
    let parse = |text: &str| -> Result<std::collections::BTreeMap<(String, usize), Vec<(String, usize)>>, crate::fw::Violation> {
        let mut m = std::collections::BTreeMap::<_, Vec<_>>::new();
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let n = |s: &str| s.parse::<usize>().map_err(|_| viol("call-log", l.to_string()));
            ensure!(w.len() == 4, "call-log", "{l}");
            m.entry((w[0].to_string(), n(w[2])?)).or_default().push((w[1].to_string(), n(w[3])?));
        }
        Ok(m)
    };
    let got = parse(&calls)?;
    for (k, w) in &want {
        let g = got.get(k).cloned().unwrap_or_default();
        let at = g.iter().zip(w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
        ensure!(&g == w, "calls", "{} in scenario {}: {} calls, {} expected; call {at} is {:?}, expected {:?}", k.0, k.1, g.len(), w.len(), g.get(at), w.get(at));
    }
    ensure!(got.len() == want.len(), "calls", "calls of {:?}, expected those of {:?}", got.keys(), want.keys());
    c.count("calls_observed", calls.lines().count() as u64);
    if c.rng.chance(0.2) {
        *out.lock().unwrap() = Trace::default();
        run::exec(model, sel).map_err(|e| viol("second-run", e.text()))?;
        let again = std::mem::take(&mut *out.lock().unwrap());
        super::repro::compare_traces(c, "the second run of the model", tr, &again)?;
        c.count("second_runs", 1);
    }
    Ok(())
}

fn go(c: &mut Case, class: u8) -> Res {
    let mut sp = generate(&mut c.rng, class, c.thorough);
    if class == PY {
        python_files(c, &mut sp);
        if c.rng.chance(0.4) {
            sp.fault = python_fault(&mut c.rng, &sp);
        }
    }
    c.desc = sp.describe();
    let schema = ModelSchema::from_str(&sp.json().to_string()).map_err(|e| viol("model-rejected", format!("schema: {e}")))?;
    let mb = guard(|| schema.create_model_builder(Some(&c.scratch), None)).map_err(|e| viol("panic", format!("load: {e}")))?;
    let mut mb = match (mb, &sp.fault) {
        (Ok(mb), _) => mb,
        (Err(_), Some(Fault::Load(_, k))) => {
            c.count(&format!("fault_{k}"), 1);
            return Ok(());
        }
        (Err(e), _) => return Err(viol("model-rejected", format!("load: {e:?}"))),
    };
    sp.inject(&mut mb);
    let (model, out) = match (run::build(mb, sp.metrics()), &sp.fault) {
        (Ok(m), Some(Fault::Load(_, k))) => {
            let _ = m;
            return Err(viol("fault-accepted", format!("the model is built with a Python parameter with fault {k}")));
        }
        (Ok(m), _) => m,
        (Err(e), Some(Fault::Load(_, k))) if !e.is_panic() => {
            c.count(&format!("fault_{k}"), 1);
            return Ok(());
        }
        (Err(e), _) => return Err(viol("model-rejected", e.text())),
    };
    let sel = if c.rng.chance(0.2) { SolverSel::HighsPar(2) } else { SolverSel::Highs };
    let r = run::exec(&model, sel);
    let tr = std::mem::take(&mut *out.lock().unwrap());
    if class == PY {
        python_checks(c, &sp, &model, &out, sel, &r, &tr)?;
    }
    c.count("runs", 1);
    c.count("steps_observed", tr.steps.len() as u64);
    ensure!(tr.errors.is_empty(), "value-not-available", "{:?}", tr.errors);
    // a run that stops reports an error; only the parallel stepper may panic with it
    let failed = match &r {
        Ok(_) => None,
        Err(e) => {
            ensure!(!(e.is_panic() && matches!(sel, SolverSel::Highs)), "panic", "{}", e.text());
            Some(e.text())
        }
    };
    let nsc = if tr.scenarios.is_empty() { 0 } else { tr.scenarios.len() };
    if nsc == 0 {
        if sp.fault.is_some() {
            return Ok(());
        }
        // stopped in the first step: nothing observed, but the scenario indices are known without groups
        if sp.may_fail {
            c.count("failed_in_first_step", 1);
            return Ok(());
        }
        return Err(viol("run-failed", failed.unwrap_or_default()));
    }
    let mut refs: Vec<Ref> = (0..nsc).map(|s| Ref::new(&sp, &tr, s)).collect();
    let mut expected_fail = None;
    for t in 0..tr.steps.len() {
        for s in 0..nsc {
            let rf = &mut refs[s];
            let f = rf.before(t);
            let f = rf.after(t).or(f);
            if let Some((p, e)) = f {
                return Err(viol(
                    format!("missing-error:{}", sp.ps[p].kind.tag()),
                    format!("step {t} scenario {s}: {} ({:?}) must be an error ({e}) but the step completed", sp.ps[p].name, sp.ps[p].kind),
                ));
            }
            for (i, p) in sp.ps.iter().enumerate() {
                let mut vals: Vec<(String, Ev<V>)> = vec![];
                if p.keys.is_empty() {
                    if p.before {
                        vals.push((format!("{}/b", p.name), rf.b[t][i].clone()));
                    }
                    if p.after {
                        vals.push((format!("{}/a", p.name), rf.a[t][i].clone()));
                    }
                } else {
                    for (on, l, x) in [(p.before, &rf.mb, "b"), (p.after, &rf.ma, "a")] {
                        if on {
                            vals.extend(l[t][i].iter().filter(|(k, _)| p.keys.contains(k)).map(|(k, v)| (format!("{}/{k}/{x}", p.name), v.clone())));
                        }
                    }
                }
                for (n, v) in vals {
                    let got = tr.steps[t].scen[s].m[tr.metric(&n)];
                    let Ok(Some(v)) = v else {
                        c.count("too_close_to_call", 1);
                        continue;
                    };
                    c.count(&format!("values_{}", p.kind.tag()), 1);
                    if p.kind.class() == class && v.x != 0.0 {
                        c.seen((p.kind.tag(), v.x.to_bits(), t % 7));
                    }
                    let tol = 1e-9 * v.x.abs().max(1.0) + 10.0 * v.e;
                    if !((got - v.x).abs() <= tol) {
                        // The first parameter in dependency order is the culprit. Other properties judge other kinds.
                        if p.kind.class() != class {
                            c.count("stopped_by_other_property", 1);
                            return Ok(());
                        }
                        return Err(viol(
                            format!("value:{}", p.kind.tag()),
                            format!("step {t} ({}) scenario {s}: {n} = {got}, expected {} +- {tol:e}; {:?}", tr.steps[t].date, v.x, p.kind),
                        ));
                    }
                }
            }
        }
    }
    if sp.fault.is_some() {
        // judged by python_checks
        return Ok(());
    }
    // what comes next, if the run stopped
    if failed.is_some() && tr.steps.len() < sp.nsteps {
        let t = tr.steps.len();
        let mut unknown = false;
        for rf in refs.iter_mut() {
            // flows of this step are not known: only the before phase can be predicted
            if let Some((_, e)) = rf.before(t) {
                expected_fail = Some(e);
            }
            unknown |= rf.b[t].iter().any(|v| matches!(v, Ok(None)));
        }
        // an error in the after phase depends on flows which were not recorded
        let after_div = sp.ps.iter().any(|p| p.after);
        if expected_fail.is_none() && !(sp.may_fail && (unknown || after_div)) {
            return Err(viol("run-failed", format!("step {t}: {}", failed.unwrap_or_default())));
        }
        c.count("expected_errors_seen", expected_fail.is_some() as u64);
        return Ok(());
    }
    ensure!(failed.is_none(), "run-failed", "{}", failed.unwrap_or_default());
    ensure!(tr.steps.len() == sp.nsteps, "steps", "{} steps recorded, {} expected", tr.steps.len(), sp.nsteps);
    Ok(())
}

fn c07(c: &mut Case) -> Res {
    go(c, FUNC)
}
fn c08(c: &mut Case) -> Res {
    go(c, HIST)
}
fn c09(c: &mut Case) -> Res {
    go(c, CAL)
}
fn c28(c: &mut Case) -> Res {
    if c.rng.chance(0.25) {
        // the aggregators of metric sets and outputs
        super::outputs::PYTHON.set(0.7);
        let r = super::outputs::c16(c);
        super::outputs::PYTHON.set(0.04);
        c.count("runs_with_aggregated_outputs", 1);
        // a finding of its own (C16)
        return r.or_else(|v| if v.sig == "last-period-ends-early" { Ok(()) } else { Err(v) });
    }
    go(c, PY)
}

/// An exception in the Python function of a metric set's aggregator must end the run with an error.
fn c28_aggregator_exception(c: &mut Case) -> Res {
    let m = serde_json::json!({
        "metadata": {"title": "a"},
        "time": {"start": "2021-01-01", "end": "2021-01-09", "timestep": {"type": "Days", "days": 1}},
        "network": {
            "nodes": [
                {"meta": {"name": "in"}, "type": "Input", "max_flow": {"type": "Literal", "value": 4.0}, "cost": {"type": "Literal", "value": -1.0}},
                {"meta": {"name": "out"}, "type": "Output"}
            ],
            "edges": [{"from_node": "in", "to_node": "out"}],
            "parameters": [],
            "metric_sets": [{"name": "ms", "metrics": [{"type": "Node", "name": "in"}],
                "aggregator": {"freq": {"type": "Days", "days": 3}, "func": {"type": "Python", "source": {"type": "Module", "module": "pvmod"}, "object": "wsum", "args": [0.0], "kwargs": {"boom": true}}}}],
            "outputs": [{"name": "o", "type": "Memory", "metric_set": "ms"}]
        }
    });
    let schema: pywr_schema::ModelSchema = m.to_string().parse().map_err(|e| viol("model-rejected", format!("{e:?}")))?;
    let mb = schema.create_model_builder(Some(&c.scratch), Some(&c.scratch)).map_err(|e| viol("model-rejected", format!("{e:?}")))?;
    let (model, _) = run::build(mb, vec![]).map_err(|e| viol("model-rejected", e.text()))?;
    match run::exec(&model, SolverSel::Highs) {
        Ok(_) => Err(viol("fault-accepted", "the run completes although the aggregator raises".to_string())),
        Err(e) => {
            ensure!(!e.is_panic(), "panic", "{}", e.text());
            Ok(())
        }
    }
}

pub fn props() -> Vec<Prop> {
    let a: &[&str] = &[
        "Flows and volumes that parameters refer to are taken from the recorded trace (their correctness is C01-C06).",
        "A comparison closer than the accumulated rounding error is not judged.",
    ];
    vec![
        Prop { id: "C07", rule: "distinct (parameter type, non-zero value, step mod 7) compared with the reference", assumptions: a, quick: 10000, thorough: 180000, random: c07, directed: &[], threads: 8 },
        Prop { id: "C08", rule: "distinct (history parameter type, non-zero value, step mod 7) compared with the reference", assumptions: a, quick: 10000, thorough: 180000, random: c08, directed: &[], threads: 8 },
        Prop { id: "C09", rule: "distinct (profile type, non-zero value, step mod 7) compared with the reference", assumptions: a, quick: 10000, thorough: 180000, random: c09, directed: &[], threads: 8 },
        Prop { id: "C28", rule: "distinct (Python parameter or function, non-zero value, step mod 7) compared with the reference", assumptions: a, quick: 1400, thorough: 20000, random: c28, directed: &[("aggregator-exception", c28_aggregator_exception)], threads: 3 },
    ]
}
