//! Independent reference LP (solved with the microlp crate, densely stated from the model specification).
use microlp::{ComparisonOp, OptimizationDirection, Problem};

#[derive(Clone, Debug, Default)]
pub struct Lp {
    pub n: usize,
    pub cost: Vec<f64>,
    /// (description, coefficients, lower, upper)
    pub rows: Vec<Row>,
}

#[derive(Clone, Debug)]
pub struct Row {
    pub what: String,
    pub coef: Vec<(usize, f64)>,
    pub lo: f64,
    pub hi: f64,
}

#[derive(Clone, Debug)]
pub enum Sol {
    Opt(f64, Vec<f64>),
    Infeasible,
    Unbounded,
    Unknown(String),
}

impl Lp {
    pub fn new(n: usize) -> Self {
        Lp {
            n,
            cost: vec![0.0; n],
            rows: vec![],
        }
    }
    pub fn row(&mut self, what: impl Into<String>, coef: &[(usize, f64)], lo: f64, hi: f64) {
        // accumulate duplicated columns
        let mut c: Vec<(usize, f64)> = vec![];
        for &(i, v) in coef {
            match c.iter_mut().find(|x| x.0 == i) {
                Some(x) => x.1 += v,
                None => c.push((i, v)),
            }
        }
        c.retain(|x| x.1 != 0.0);
        self.rows.push(Row {
            what: what.into(),
            coef: c,
            lo,
            hi,
        });
    }
    pub fn value(&self, x: &[f64]) -> f64 {
        self.cost.iter().zip(x).map(|(c, x)| c * x).sum()
    }
    /// Largest violated row of a point, if any is violated by more than the tolerance.
    pub fn violated(&self, x: &[f64], tol: f64) -> Option<(String, f64, f64, f64)> {
        for (i, v) in x.iter().enumerate() {
            if !(*v >= -tol) {
                return Some((format!("edge {i} non-negative"), *v, 0.0, f64::INFINITY));
            }
        }
        for r in &self.rows {
            let v: f64 = r.coef.iter().map(|(i, c)| c * x[*i]).sum();
            let scale = 1.0 + r.coef.iter().map(|(i, c)| (c * x[*i]).abs()).fold(0.0, f64::max);
            if !(v >= r.lo - tol * scale && v <= r.hi + tol * scale) {
                return Some((r.what.clone(), v, r.lo, r.hi));
            }
        }
        None
    }
    pub fn solve(&self) -> Sol {
        let mut p = Problem::new(OptimizationDirection::Minimize);
        let vars: Vec<_> = self.cost.iter().map(|c| p.add_var(*c, (0.0, f64::INFINITY))).collect();
        for r in &self.rows {
            if r.lo > r.hi + 1e-9 {
                return Sol::Infeasible;
            }
            if r.coef.is_empty() {
                if r.lo > 1e-9 || r.hi < -1e-9 {
                    return Sol::Infeasible;
                }
                continue;
            }
            let e: Vec<_> = r.coef.iter().map(|(i, c)| (vars[*i], *c)).collect();
            if r.lo.is_finite() && r.hi.is_finite() && (r.hi - r.lo).abs() < 1e-12 {
                p.add_constraint(&e, ComparisonOp::Eq, r.lo);
            } else {
                if r.lo.is_finite() && r.lo.abs() < 1e300 {
                    p.add_constraint(&e, ComparisonOp::Ge, r.lo);
                }
                if r.hi.is_finite() && r.hi.abs() < 1e300 {
                    p.add_constraint(&e, ComparisonOp::Le, r.hi);
                }
            }
        }
        match p.solve() {
            Ok(o) => match o.into_solution() {
                Ok(s) => {
                    let x: Vec<f64> = vars.iter().map(|v| s.var_value(*v)).collect();
                    Sol::Opt(self.value(&x), x)
                }
                Err(e) => Sol::Unknown(format!("{e:?}")),
            },
            Err(microlp::Error::Infeasible) => Sol::Infeasible,
            Err(microlp::Error::Unbounded) => Sol::Unbounded,
            Err(e) => Sol::Unknown(format!("{e:?}")),
        }
    }
    /// The same problem with every range constraint tightened by a small margin on both sides (equalities stay as
    /// they are). A problem that is feasible like this is feasible beyond doubt, whatever tolerance it is solved with.
    pub fn tightened(&self, eps: f64) -> Lp {
        let mut p = self.clone();
        for r in p.rows.iter_mut() {
            if (r.hi - r.lo).abs() > 1e-12 {
                let m = eps * (1.0 + r.coef.iter().map(|c| c.1.abs()).fold(0.0, f64::max));
                r.lo += m;
                r.hi -= m;
            }
        }
        p
    }
}
