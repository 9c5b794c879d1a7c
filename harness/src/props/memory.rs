//! C24: no memory errors and no lost memory, by running cases of the other checks under Valgrind's memcheck.
use crate::fw::{Case, Prop, Res, viol};
use serde_json::{Value, json};
use std::process::Command;

const WORKLOADS: [&str; 20] = [
    "C01", "C05", "C15", "C17", "C12", "C07", "C22", "C06", "C21", "C08", "C03", "C23", "C20", "C09", "C10", "C16", "C02", "C11", "C18", "C19",
];

const KINDS: [&str; 9] = [
    "Invalid read", "Invalid write", "Invalid free", "Mismatched free", "Conditional jump", "Use of uninitialised", "Syscall param", "Source and destination overlap", "Process terminating",
];

/// Errors in a log of memcheck: (kind, frames).
fn errors(log: &str) -> Vec<(String, Vec<String>)> {
    let mut out: Vec<(String, Vec<String>)> = vec![];
    let mut open = false;
    for l in log.lines() {
        let Some((_, l)) = l.strip_prefix("==").and_then(|x| x.split_once("== ")) else {
            open = false;
            continue;
        };
        let t = l.trim();
        if t.starts_with("at 0x") || t.starts_with("by 0x") {
            if open {
                out.last_mut().unwrap().1.push(t.split_once(": ").map_or(t, |x| x.1).to_string());
            }
        } else if let Some(k) = KINDS.iter().find(|k| t.starts_with(*k)) {
            out.push((k.to_string(), vec![]));
            open = true;
        } else if t.contains("are definitely lost in loss record") {
            out.push((format!("Lost memory: {}", t.split(" in loss record").next().unwrap()), vec![]));
            open = true;
        } else {
            open = false;
        }
    }
    out
}

fn c24(c: &mut Case) -> Res {
    let id = WORKLOADS[(c.idx as usize) % WORKLOADS.len()];
    let seed = c.rng.us(1, 1_000_000);
    c.desc = json!({"workload": id, "seed": seed});
    let log = c.scratch.join("log");
    let secs = if c.thorough { "60" } else { "10" };
    let exe = std::env::current_exe().unwrap();
    let out = Command::new("timeout")
        .args(["-s", "KILL", "400", "valgrind", "--leak-check=full", "--show-leak-kinds=definite", "--num-callers=40", "--fair-sched=yes"])
        .arg(format!("--log-file={}", log.display()))
        .arg(&exe)
        .args(["mem", id, "--seed", &seed.to_string(), "--secs", secs])
        .current_dir(&c.scratch)
        .env("TMPDIR", &c.scratch)
        .output()
        .expect("valgrind");
    let log = std::fs::read_to_string(&log).unwrap_or_default();
    let text = String::from_utf8_lossy(&out.stdout);
    let done: Value = text.lines().rev().find_map(|l| serde_json::from_str(l).ok()).unwrap_or(Value::Null);
    for (kind, frames) in errors(&log) {
        // The bytes between the fields of a structure have no value, and are written to HDF5 files with it.
        if kind == "Syscall param" && frames.iter().any(|f| f.starts_with("H5FD_write")) {
            c.count("writes of padding", 1);
            continue;
        }
        let own = frames.iter().find(|f| f.contains("pywr_") || f.contains("ipm_")).cloned().unwrap_or_default();
        return Err(viol(format!("{}:{}", kind.split(':').next().unwrap(), own.split(" (").next().unwrap()), format!("{kind}: {}", frames.join(" < "))));
    }
    if done.is_null() {
        c.count("did not finish", 1);
        return Ok(());
    }
    c.count("programs watched", 1);
    c.count("cases watched", done["cases"].as_u64().unwrap_or(0));
    for (k, v) in done["observed"].as_object().into_iter().flatten() {
        c.count(&format!("{id}: {k}"), v.as_u64().unwrap_or(0));
    }
    let grab = |what: &str| log.lines().find_map(|l| l.split_once(what).map(|x| x.1.trim().split(' ').next().unwrap_or("").replace(',', "").parse::<u64>().unwrap_or(0)));
    if let Some(n) = grab("total heap usage:") {
        c.count("allocations watched", n);
    }
    c.seen((id, seed));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "distinct (workload, seed) run under memcheck to the end",
        assumptions: &["Valgrind 3.22 memcheck sees the same execution as the processor (its CPU has no AVX-512)"],
        quick: 20,
        thorough: 120,
        random: c24,
        directed: &[],
        threads: 8,
    }]
}
