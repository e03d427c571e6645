//! asssim: deterministic simulation of the ass-rs workspace with fault injection.
#![allow(dead_code)]
mod checks;
mod engine;
mod gen;
mod lin;
mod rt;

use engine::{Agg, Check, Replay};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;

fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("ASSSIM_VERIF").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn disable_aslr() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("ASSSIM_REEXEC").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                std::env::set_var("ASSSIM_REEXEC", "1");
                use std::os::unix::process::CommandExt;
                let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
            }
        }
    }
}

fn main() {
    disable_aslr();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(String::as_str) {
        Some("check") => check(&a[2..]),
        Some("replay") => replay(&a[2]),
        Some("hashes") => hashes(&a[2..]),
        Some("one") => one(&a[2..]),
        Some("survey") => survey(&a[2..]),
        Some("min") => min(&a[2..]),
        Some("list") => {
            for c in checks::all() {
                println!("{} {}", c.id, c.parts.iter().map(|p| p.sc.name()).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: asssim check <ID> [--tier T] [--seed N] [--scale F] [--only SCENARIO] | replay <file> | hashes <ID> [--runs N] [--seed N] | one <ID> <scenario> <seed> | list");
            2
        }
    };
    std::process::exit(code);
}

fn opt(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
fn find(id: &str) -> Check {
    match checks::all().into_iter().find(|c| c.id == id) {
        Some(c) => {
            c.parts.iter().for_each(|p| p.sc.prepare_parent());
            c
        }
        None => {
            eprintln!("asssim: no check for {id}");
            std::process::exit(2)
        }
    }
}

struct Known {
    replay: String,
    what: String,
}
fn known(id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let mut w = l.splitn(3, ' ');
            let p = w.next()?.strip_prefix("property=")?;
            let r = w.next()?.strip_prefix("replay=")?;
            (p == id).then(|| Known { replay: r.into(), what: w.next().unwrap_or("").into() })
        })
        .collect()
}

fn check(a: &[String]) -> i32 {
    let id = &a[0];
    let tier = opt(a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let base: u64 = opt(a, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let scale: f64 = opt(a, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = opt(a, "--only");
    let c = find(id);
    println!("asssim: property {id}, tier {tier}, VERIF_SEED {base}, {} workers", engine::workers());
    let t0 = Instant::now();
    let cap = if tier == "quick" { Duration::from_secs(420) } else { Duration::from_secs(3 * 3600) };
    let mut agg = Agg::default();
    let mut per = vec![];
    let mut known_lines = vec![];
    for k in known(id) {
        let path = verif_dir().join(&k.replay);
        match std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str::<Replay>(&t).ok()) {
            Some(r) => {
                if let Some(p) = c.parts.iter().find(|p| p.sc.name() == r.scenario) {
                    let o = engine::run_replay(&*p.sc, &r);
                    if o.sig.as_deref() == Some(&r.sig) {
                        println!("KNOWN-FINDING: property={id} {}", k.what);
                        known_lines.push(k.what.clone());
                    } else {
                        println!("note: known finding {} no longer reproduces (got {:?})", k.replay, o.sig);
                    }
                }
            }
            None => {
                eprintln!("asssim: cannot read known finding {}", path.display());
                return 3;
            }
        }
    }
    let mut viol: Option<(usize, u64)> = None;
    for (pi, p) in c.parts.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != p.sc.name()) {
            continue;
        }
        let n = if tier == "quick" { p.quick } else { p.thorough };
        let n = ((n as f64) * scale).max(1.0) as u64;
        let t = Instant::now();
        let g = engine::explore(&*p.sc, pi, base, n, t0 + cap);
        let w = t.elapsed().as_secs_f64();
        println!(
            "  {}: {} runs in {:.1}s, {} distinct schedules, {} nontrivial, avg steps {}, audit {}/{} mismatched, inconclusive {}",
            p.sc.name(), g.runs, w, g.schedules.len(), g.nontrivial,
            g.stats.get("steps").unwrap_or(&0) / g.runs.max(1), g.audit_mismatch, g.audited, g.inconclusive
        );
        if a.iter().any(|x| x == "-v") {
            println!("    fired {:?}\n    probes {:?}\n    stats {:?}", g.fired, g.probes, g.stats);
        }
        if g.inconclusive > 0 {
            println!("    inconclusive: {:?}", &g.inconclusive_msgs);
        }
        if g.audit_mismatch > 0 {
            println!("    WARNING: determinism audit mismatches at seeds {:?}", &g.audit_samples[..g.audit_samples.len().min(5)]);
        }
        per.push(json!({"scenario": p.sc.name(), "runs": g.runs, "wall_s": w, "runs_per_hour": (g.runs as f64 / w.max(0.001) * 3600.0) as u64,
            "distinct_schedules": g.schedules.len(), "distinct_executions": g.executions.len(), "nontrivial_runs": g.nontrivial,
            "faults_fired": g.fired, "runs_with_fault": g.runs_with, "probes": g.probes, "simulated_seconds": g.stats.get("sim_ns").unwrap_or(&0) / 1_000_000_000,
            "max_steps": g.max_steps}));
        let v = g.violation;
        let mut g = g;
        g.violation = None;
        merge(&mut agg, g);
        if let Some((_, seed)) = v {
            viol = Some((pi, seed));
            break;
        }
    }
    let mut code = 0;
    let mut vjson = Value::Null;
    if let Some((pi, seed)) = viol {
        let sc = &*c.parts[pi].sc;
        println!("violation found by {} at seed {seed}; minimising", sc.name());
        let r = engine::minimise(id, sc, seed, Duration::from_secs(45));
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}-{}-{seed:016x}.json", sc.name()));
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        // replay in a fresh process; it must fail the same way
        let st = std::process::Command::new("/proc/self/exe").arg("replay").arg(&path).output();
        let again = st.map(|o| o.status.code() == Some(1)).unwrap_or(false);
        println!("  class: {}\n  what: {}", r.sig, r.message);
        println!("  minimised: plan {} bytes, {} schedule switches, {} faults; reproduces in a fresh process: {again}", r.plan.to_string().len(), r.sched.len(), r.faults.len());
        for h in r.history.iter().rev().take(25).rev() {
            println!("    {}", h.chars().take(300).collect::<String>());
        }
        println!("VIOLATION property={id} replay={}", path.display());
        vjson = json!({"class": r.sig, "message": r.message, "replay": path, "seed": seed.to_string(), "reproduced_in_fresh_process": again});
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": id, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.nt_exec.len(),
            "rule": format!("One evaluation is one simulated run: a workload plan, a schedule and a fault sequence all derived from one seed. Distinct = distinct (plan, schedule+fault hash, recorded history hash). Non-trivial: {}", c.rule),
            "samples": agg.samples.iter().take(6).collect::<Vec<_>>(),
            "runs_per_hour": (agg.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (agg.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "simulated_seconds": agg.stats.get("sim_ns").unwrap_or(&0) / 1_000_000_000,
            "distinct_schedules": agg.schedules.len(),
            "distinct_executions": agg.executions.len(),
            "schedule_measure": "hash of the sequence of (step, thread) context switches and injected faults",
            "preemptions": agg.stats.get("preemptions"), "context_switches": agg.stats.get("switches"),
            "preemption_points": agg.points, "futex_waits": agg.stats.get("futex_waits"), "clock_reads": agg.stats.get("clock_reads"), "simulated_io_calls": agg.stats.get("io_calls"),
            "faults_fired": agg.fired, "runs_with_fault": agg.runs_with, "probes": agg.probes,
            "determinism_audit": {"reruns": agg.audited, "mismatches": agg.audit_mismatch},
            "inconclusive_runs": agg.inconclusive,
            "per_scenario": per,
            "real_components": c.real, "stubbed_components": c.stub,
            "known_findings_reproduced": known_lines,
            "violation": vjson,
        },
        "assumptions": ["sequentially consistent memory: atomics are executed seq-cst, one thread at a time", "preemption only at atomics, allocations, lock operations, I/O calls and harness callbacks"],
        "wall_s": wall, "violations": code,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if only.is_none() || code == 1 {
        std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!("{id}: {} runs, {:.1}s, {}", agg.runs, wall, if code == 0 { "no violation" } else { "VIOLATED" });
    if code == 0 && agg.runs > 0 && agg.inconclusive * 2 > agg.runs {
        eprintln!("asssim: most runs were inconclusive");
        return 3;
    }
    code
}
fn merge(a: &mut Agg, g: Agg) {
    a.absorb(g)
}

fn replay(path: &str) -> i32 {
    let r: Replay = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("asssim: {path}: {e}");
            return 2;
        }
    };
    let c = find(&r.property);
    let Some(p) = c.parts.iter().find(|p| p.sc.name() == r.scenario) else {
        eprintln!("asssim: unknown scenario {}", r.scenario);
        return 2;
    };
    let o = engine::run_replay(&*p.sc, &r);
    for h in &o.history {
        println!("  {h}");
    }
    match &o.sig {
        Some(s) => {
            println!("class: {s}\nwhat: {}", o.msg);
            println!("execution hash {:016x} history hash {:016x}", o.rt_hash, o.history_hash);
            if *s == r.sig {
                println!("VIOLATION property={} replay={path}", r.property);
                1
            } else {
                println!("different class than recorded ({})", r.sig);
                1
            }
        }
        None => {
            println!("no violation{}", if o.inconclusive { " (inconclusive)" } else { "" });
            0
        }
    }
}

fn hashes(a: &[String]) -> i32 {
    let c = find(&a[0]);
    let n: u64 = opt(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(50);
    let base: u64 = opt(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    for p in &c.parts {
        for i in 0..n {
            let seed = gen::Gen::new(base * 1000 + i).u64();
            let o = engine::run_seed(&*p.sc, seed, false);
            println!("{} {seed:016x} {:016x} {:016x} {:?} {}", p.sc.name(), o.rt_hash, o.history_hash, o.sig, o.stats.get("steps").unwrap_or(&0));
        }
    }
    0
}

fn one(a: &[String]) -> i32 {
    let c = find(&a[0]);
    let p = c.parts.iter().find(|p| p.sc.name() == a[1]).expect("scenario");
    let seed: u64 = a[2].parse().or_else(|_| u64::from_str_radix(a[2].trim_start_matches("0x"), 16)).unwrap();
    let (plan, cfg) = engine::spec_for(&*p.sc, seed);
    println!("plan {plan}\ncfg {}", serde_json::to_string(&cfg).unwrap());
    let o = engine::run_seed(&*p.sc, seed, true);
    for h in &o.history {
        println!("  {h}");
    }
    println!("{:?} {}\nstats {:?}\npoints {:?}\nprobes {:?}\nfired {:?}\nhash {:x} {:x}", o.sig, o.msg, o.stats, o.points, o.probes, o.fired, o.rt_hash, o.history_hash);
    0
}

/// Count every class of violation over many seeds (a triage aid, not a check).
fn survey(a: &[String]) -> i32 {
    let c = find(&a[0]);
    let n: u64 = opt(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(2000);
    let base: u64 = opt(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(77);
    let only = opt(a, "--only");
    for (pi, p) in c.parts.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != p.sc.name()) {
            continue;
        }
        println!("{}", p.sc.name());
        for (sig, (k, seed, msg)) in engine::survey(&*p.sc, pi, base, n) {
            println!("  {k:6} {sig}  seed {seed}\n         {}", msg.replace('\n', "\n         ").chars().take(700).collect::<String>());
        }
    }
    0
}
fn min(a: &[String]) -> i32 {
    let c = find(&a[0]);
    let p = c.parts.iter().find(|p| p.sc.name() == a[1]).expect("scenario");
    let r = engine::minimise(&a[0], &*p.sc, a[2].parse().unwrap(), Duration::from_secs(30));
    println!("{}\n{}\nplan {}\nsched {} faults {:?}", r.sig, r.message, r.plan, r.sched.len(), r.faults.len());
    for h in r.history.iter().rev().take(40).rev() {
        println!("  {h}");
    }
    if let Some(f) = a.get(3) {
        std::fs::write(f, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    }
    0
}
