mod crash;
mod fw;
mod lp;
mod netgen;
mod oracle;
mod props;
mod run;

use std::process::{Command, exit};

fn usage() -> ! {
    eprintln!("usage: pvmon run <ID> [--tier quick|thorough] [--seed N] [--only 'Random(3)'|'Directed(0)'] [--cases N] [--verif DIR]");
    exit(2)
}

fn sel(v: &str) -> fw::CaseSel {
    let n = v.trim_end_matches(')').rsplit('(').next().unwrap().parse().unwrap();
    if v.starts_with('D') { fw::CaseSel::Directed(n as usize) } else { fw::CaseSel::Random(n) }
}

/// For the command-line program.
mod tracing {
    pub fn setup_tracing(_: bool) -> Result<(), std::convert::Infallible> {
        Ok(())
    }
}

fn main() -> std::process::ExitCode {
    if std::env::var_os("PVMON_CLI").is_some() {
        // it ends with the monitor, and in any case
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::setrlimit(libc::RLIMIT_CPU, &libc::rlimit { rlim_cur: 100, rlim_max: 100 });
        }
        return props::pywr_cli::program();
    }
    monitor();
    std::process::ExitCode::SUCCESS
}

fn monitor() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        usage();
    }
    if args[1] == "list" {
        for p in props::all() {
            println!("{} quick={} thorough={} directed={}", p.id, p.quick, p.thorough, p.directed.len());
        }
        return;
    }
    if args.len() < 3 {
        usage();
    }
    let id = args[2].clone();
    let mut a = fw::RunArgs {
        tier: std::env::var("VERIF_TIER").unwrap_or("quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        verif: "/verif".into(),
        only: None,
        cases: None,
        skip: vec![],
    };
    let mut secs = 10.0;
    let mut i = 3;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--tier" => a.tier = v,
            "--seed" => a.seed = v.parse().unwrap(),
            "--verif" => a.verif = v.into(),
            "--secs" => secs = v.parse().unwrap(),
            "--cases" => a.cases = Some(v.parse().unwrap()),
            "--only" => a.only = Some(sel(&v)),
            "--skip" => a.skip.push(sel(&v)),
            _ => usage(),
        }
        i += 2;
    }
    let prop = props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| usage());
    match args[1].as_str() {
        // The worker: runs in its own scratch directory.
        "worker" => {
            fw::install_panic_hook();
            crash::install();
            fw::run_prop(&prop, &a);
        }
        "mem" => {
            fw::install_panic_hook();
            let n = a.cases.unwrap_or(1000);
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                // the interpreter of Python would be most of what Valgrind sees
                props::outputs::PYTHON.set(0.0);
                fw::run_quietly(&prop, a.seed, n, secs)
            }).unwrap().join().unwrap();
        }
        // The parent: a worker which dies (abort, segfault, stack overflow) is a violation, not a lost check.
        "run" => {
            let scratch = tempfile::Builder::new().prefix("pvmon-").tempdir().unwrap();
            let pymods = scratch.path().join("pymods");
            props::params::python_path(&pymods).expect("write the Python module");
            let worker = |extra: &[String], crashed: bool| {
                let mut cmd = Command::new(std::env::current_exe().unwrap());
                cmd.arg("worker").args(&args[2..]).args(extra).current_dir(scratch.path());
                cmd.env("RUST_BACKTRACE", "0").env("TMPDIR", scratch.path());
                cmd.env("PYTHONPATH", &pymods).env("PYTHONDONTWRITEBYTECODE", "1");
                if crashed {
                    cmd.env("PVMON_CRASHED", "1");
                }
                cmd.status().expect("start worker")
            };
            let died = |st: &std::process::ExitStatus, case: &str| {
                let path = fw::write_replay(&a.verif, prop.id, &a, case, &format!("worker process died: {st:?}"), &serde_json::Value::Null);
                println!("VIOLATION property={} replay={}", prop.id, path);
                println!("  worker process died: {st:?} in case {case}");
                1
            };
            let ok = |st: &std::process::ExitStatus| st.code().filter(|c| *c == 0 || *c == 1);
            let mut skip: Vec<String> = vec![];
            let mut crashed = false;
            let mut runs = 0;
            let code = loop {
                runs += 1;
                let mut extra = vec![];
                for x in &skip {
                    extra.extend(["--skip".to_string(), x.clone()]);
                }
                crash::clear(scratch.path());
                let st = worker(&extra, crashed);
                if let Some(c) = ok(&st) {
                    break c;
                }
                if a.only.is_some() {
                    if crash::in_presolve(scratch.path()) || crash::at_thread_end(scratch.path()) {
                        println!("NOTE: HiGHS crashed");
                        break 0;
                    }
                    break died(&st, "worker");
                }
                let cases = fw::inflight_cases(scratch.path());
                if crashed && (runs > 4 || !crash::in_presolve(scratch.path()) && !crash::at_thread_end(scratch.path())) {
                    break died(&st, &cases.join(" or "));
                }
                // Find the case: those that were running are run again, each on its own, and then all of them.
                // A crash that none of this repeats is reported in the evidence, but it is no replayable violation;
                // nor is one inside the presolve of HiGHS, which is known to be faulty: the case is left out.
                println!("NOTE: worker process died: {st:?}; running its cases again");
                crash::show(scratch.path());
                crashed = true;
                let mut code = 0;
                for x in cases {
                    crash::clear(scratch.path());
                    let st = worker(&["--only".into(), x.clone()], true);
                    match ok(&st) {
                        Some(c) => code = code.max(c),
                        None if crash::in_presolve(scratch.path()) && skip.len() < 3 => {
                            println!("NOTE: HiGHS crashed in its presolve in case {x}, which is left out");
                            skip.push(x);
                        }
                        None if crash::at_thread_end(scratch.path()) => {}
                        None => code = died(&st, &x),
                    }
                    if code != 0 {
                        break;
                    }
                }
                if code != 0 {
                    break code;
                }
            };
            drop(scratch);
            exit(code)
        }
        _ => usage(),
    }
}
