//! Framework: deterministic RNG, case runner, violation and evidence bookkeeping.
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{LazyLock, Mutex};
use std::time::Instant;

/// SplitMix64 based generator; the whole workload is a function of (seed, property, case index).
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Integer in `lo..=hi`
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as i64, hi as i64) as usize
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + self.unit() * (hi - lo)
    }
    /// A float rounded to a quarter: exactly representable, which keeps oracles exact.
    pub fn q(&mut self, lo: f64, hi: f64) -> f64 {
        (self.f(lo, hi) * 4.0).round() / 4.0
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(0, xs.len() - 1)]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.us(0, i);
            xs.swap(i, j);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable identification of what failed (used to match known findings).
    pub sig: String,
    pub msg: String,
    pub case: Value,
}

pub type Res = Result<(), Violation>;

pub fn viol(sig: impl Into<String>, msg: impl Into<String>) -> Violation {
    Violation {
        sig: sig.into(),
        msg: msg.into(),
        case: Value::Null,
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::fw::viol($sig, format!($($arg)*)));
        }
    };
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub counters: BTreeMap<String, u64>,
    /// Signatures of distinct, non-trivial situations seen.
    pub seen: HashSet<u64>,
    /// A description of the case, for replays and samples.
    pub desc: Value,
    pub scratch: std::path::PathBuf,
}

impl Case {
    pub fn count(&mut self, key: &str, n: u64) {
        *self.counters.entry(key.to_string()).or_insert(0) += n;
    }
    pub fn seen<T: Hash>(&mut self, t: T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.seen.insert(h.finish());
    }
}

pub type CaseFn = fn(&mut Case) -> Res;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub random: CaseFn,
    pub directed: &'static [(&'static str, CaseFn)],
    /// Directed cases that reproduce recorded findings. They are reported as known findings.
    pub threads: usize,
}

static PANICS: LazyLock<Mutex<HashMap<String, String>>> = LazyLock::new(|| Mutex::new(HashMap::new()));

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("PVMON_TRACE").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        let mut p = PANICS.lock().unwrap();
        if p.len() < 10_000 {
            p.insert(msg, loc);
        }
    }));
}

pub fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".to_string()
    }
}

/// Run `f`, turning a panic into Err("message @ file:line").
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let msg = payload_str(p.as_ref());
            let loc = PANICS.lock().unwrap().get(&msg).cloned().unwrap_or_default();
            Err(format!("{msg} @ {loc}"))
        }
    }
}

pub fn prop_seed(prop: &str, seed: u64) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ seed.wrapping_mul(0xA24B_AED4_963E_E407)
}

fn run_one(p: &Prop, seed: u64, tier: &str, which: &CaseSel, scratch_root: &std::path::Path) -> (Case, Res) {
    let (idx, f) = match which {
        CaseSel::Random(i) => (*i, p.random),
        CaseSel::Directed(i) => (1_000_000_000 + *i as u64, p.directed[*i].1),
    };
    let scratch = scratch_root.join(format!("c{idx}"));
    let _ = std::fs::create_dir_all(&scratch);
    let mut case = Case {
        rng: Rng::new(prop_seed(p.id, seed) ^ idx.wrapping_mul(0x2545_F491_4F6C_DD1D)),
        idx,
        thorough: tier == "thorough",
        counters: BTreeMap::new(),
        seen: HashSet::new(),
        desc: Value::Null,
        scratch: scratch.clone(),
    };
    let r = match guard(|| f(&mut case)) {
        Ok(r) => r,
        Err(m) => {
            let loc = m.rsplit(" @ ").next().unwrap_or("").to_string();
            Err(viol(format!("panic:{loc}"), format!("panicked: {m}")))
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    let r = r.map_err(|mut v| {
        if v.case.is_null() {
            v.case = case.desc.clone();
        }
        if let CaseSel::Directed(i) = which {
            v.sig = format!("{}/{}", p.directed[*i].0, v.sig);
        }
        v
    });
    (case, r)
}

/// Some cases of a check one after another, without reporting: what another monitor watches from outside.
pub fn run_quietly(p: &Prop, seed: u64, cases: u64, secs: f64) {
    let t0 = Instant::now();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let root = std::env::current_dir().unwrap();
    let mut n = 0;
    while n < cases && (n == 0 || t0.elapsed().as_secs_f64() < secs) {
        let (case, r) = run_one(p, seed, "quick", &CaseSel::Random(n), &root);
        n += 1;
        for (k, v) in case.counters {
            *counters.entry(k).or_insert(0) += v;
        }
        if r.is_err() {
            *counters.entry("other_monitor_reported".into()).or_insert(0) += 1;
        }
    }
    println!("{}", json!({"cases": n, "observed": counters}));
}

#[derive(Clone, Debug, PartialEq)]
pub enum CaseSel {
    Random(u64),
    Directed(usize),
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}

pub fn load_known(path: &std::path::Path) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(path) else {
        return vec![];
    };
    let v: Value = serde_json::from_str(&s).expect("known findings file is valid JSON");
    v["known"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|k| Known {
            property: k["property"].as_str().unwrap_or("").into(),
            sig: k["sig"].as_str().unwrap_or("").into(),
            text: k["text"].as_str().unwrap_or("").into(),
        })
        .collect()
}

pub struct RunArgs {
    pub tier: String,
    pub seed: u64,
    pub verif: std::path::PathBuf,
    pub only: Option<CaseSel>,
    pub cases: Option<u64>,
    pub skip: Vec<CaseSel>,
}

struct Acc {
    counters: BTreeMap<String, u64>,
    seen: HashSet<u64>,
    samples: Vec<Value>,
    viols: Vec<(CaseSel, Violation)>,
    evals: u64,
    inflight: BTreeMap<usize, String>,
}

pub fn run_prop(p: &Prop, a: &RunArgs) -> ! {
    let t0 = Instant::now();
    let n_random = a.cases.unwrap_or(if a.tier == "thorough" { p.thorough } else { p.quick });
    let mut sels: Vec<CaseSel> = vec![];
    match &a.only {
        Some(s) => sels.push(s.clone()),
        None => {
            for i in 0..p.directed.len() {
                sels.push(CaseSel::Directed(i));
            }
            for i in 0..n_random {
                sels.push(CaseSel::Random(i));
            }
        }
    }
    sels.retain(|s| !a.skip.contains(s));
    let scratch_root = std::env::current_dir().unwrap();
    let next = AtomicUsize::new(0);
    let done = AtomicU64::new(0);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let acc = Mutex::new(Acc {
        counters: BTreeMap::new(),
        seen: HashSet::new(),
        samples: vec![],
        viols: vec![],
        evals: 0,
        inflight: BTreeMap::new(),
    });
    let known = load_known(&a.verif.join("known_findings.json"));
    let is_known = |v: &Violation| known.iter().find(|k| k.property == p.id && k.sig == v.sig);
    let workers = p.threads.max(1);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, done, stop, acc, sels, scratch_root, is_known) =
                (&next, &done, &stop, &acc, &sels, &scratch_root, &is_known);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= sels.len() {
                            break;
                        }
                        acc.lock().unwrap().inflight.insert(w, format!("{:?}", sels[i]));
                        let _ = std::fs::write(scratch_root.join(format!("{INFLIGHT}{w}")), format!("{:?}", sels[i]));
                        let (case, r) = run_one(p, a.seed, &a.tier, &sels[i], scratch_root);
                        let mut ac = acc.lock().unwrap();
                        ac.inflight.remove(&w);
                        ac.evals += 1;
                        for (k, v) in &case.counters {
                            *ac.counters.entry(k.clone()).or_insert(0) += v;
                        }
                        ac.seen.extend(case.seen.iter());
                        if ac.samples.len() < 4 && !case.desc.is_null() && !case.seen.is_empty() {
                            ac.samples.push(shorten(&case.desc));
                        }
                        if let Err(v) = r {
                            let known = is_known(&v).is_some();
                            ac.viols.push((sels[i].clone(), v));
                            if !known && ac.viols.iter().filter(|(_, v)| is_known(v).is_none()).count() >= 20 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                    // HiGHS's scheduler now and then crashes where a thread ends: they all end with the process
                    loop {
                        std::thread::park();
                    }
                })
                .unwrap();
        }
        // Watchdog: a run in which nothing completes for a very long time is reported rather than left hanging.
        let mut last = 0;
        let mut last_t = Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(50));
            let d = done.load(Ordering::Relaxed);
            let ac = acc.lock().unwrap();
            if d >= sels.len() as u64 || stop.load(Ordering::Relaxed) && ac.inflight.is_empty() {
                leave(finish(p, a, &ac, &known, t0));
            }
            if d != last {
                last = d;
                last_t = Instant::now();
            } else if last_t.elapsed().as_secs() > STALL_SECS {
                // Nothing completes any more. Cases that are still running are inconclusive (HiGHS is known to
                // loop in its MIP presolve once in several thousand models), unless it is happening to many.
                leave(finish(p, a, &ac, &known, t0));
            }
        }
    })
}

/// End the process, and nothing else.
fn leave(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    unsafe { libc::_exit(code) }
}

/// Files of the worker's scratch directory that name the case each of its threads is running.
const INFLIGHT: &str = ".inflight-";

/// The cases that were running when a worker died in `dir`.
pub fn inflight_cases(dir: &std::path::Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .into_iter()
        .flatten()
        .flatten()
        .filter(|e| e.file_name().to_string_lossy().starts_with(INFLIGHT))
        .filter_map(|e| std::fs::read_to_string(e.path()).ok())
        // (the worker may have died while it wrote this)
        .filter(|x| x.ends_with(')'))
        .collect();
    v.sort();
    v.dedup();
    v
}

const STALL_SECS: u64 = 100;
const MAX_STALLED: usize = 3;

fn finish(p: &Prop, a: &RunArgs, ac: &Acc, known: &[Known], t0: Instant) -> i32 {
    let is_known = |v: &Violation| known.iter().find(|k| k.property == p.id && k.sig == v.sig);
    let mut printed_known: HashSet<String> = HashSet::new();
    let mut n_viol = 0;
    let mut code = 0;
    for (sel, v) in &ac.viols {
        if let Some(k) = is_known(v) {
            if printed_known.insert(k.sig.clone()) {
                println!("KNOWN-FINDING: property={} {} [{}]", p.id, k.text, k.sig);
            }
            continue;
        }
        n_viol += 1;
        code = 1;
        if n_viol <= 10 {
            let path = write_replay(&a.verif, p.id, a, &format!("{sel:?}"), &format!("{}: {}", v.sig, v.msg), &v.case);
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  case {:?} [{}] {}", sel, v.sig, v.msg.chars().take(400).collect::<String>().replace('\n', " "));
        }
    }
    let stalled: Vec<String> = ac.inflight.values().cloned().collect();
    if !stalled.is_empty() {
        println!("INCONCLUSIVE {} cases did not complete: {stalled:?}", stalled.len());
    }
    if stalled.len() > MAX_STALLED {
        n_viol += 1;
        code = 1;
        let path = write_replay(&a.verif, p.id, a, &stalled[0], &format!("cases never completed: {stalled:?}"), &Value::Null);
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    if a.only.is_none() {
        let evidence = json!({
            "property": p.id,
            "tier": a.tier,
            "seed": a.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": ac.evals,
                "distinct_nontrivial": ac.seen.len(),
                "rule": p.rule,
                "samples": if ac.samples.is_empty() { vec![json!("no sample captured")] } else { ac.samples.clone() },
                "observed": ac.counters,
                "inconclusive_cases": stalled,
                "crash_not_repeated": std::env::var("PVMON_CRASHED").is_ok() && a.skip.is_empty(),
                "crashes_of_highs_presolve": a.skip.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>(),
            },
            "assumptions": p.assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": n_viol,
        });
        let dir = a.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    }
    println!(
        "{} tier={} seed={} cases={} distinct={} violations={} known={} wall={:.1}s observed={}",
        p.id,
        a.tier,
        a.seed,
        ac.evals,
        ac.seen.len(),
        n_viol,
        printed_known.len(),
        t0.elapsed().as_secs_f64(),
        serde_json::to_string(&ac.counters).unwrap()
    );
    code
}

fn shorten(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() > 4000 {
        Value::String(s.chars().take(4000).collect::<String>() + "...")
    } else {
        v.clone()
    }
}

pub fn write_replay(verif: &std::path::Path, id: &str, a: &RunArgs, sel: &str, msg: &str, case: &Value) -> String {
    let dir = verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (sel, msg, a.seed).hash(&mut h);
    let path = dir.join(format!("{id}-{:016x}.json", h.finish()));
    let body = json!({"property": id, "seed": a.seed, "tier": a.tier, "case": sel, "message": msg, "input": case,
        "replay_cmd": format!("./check.sh {id} {} --only '{}' --seed {}", a.tier, sel, a.seed)});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    path.to_string_lossy().into_owned()
}

/// Approximate equality with absolute and relative tolerance.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return false;
    }
    if a == b {
        return true;
    }
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
