//! Deterministic simulation of foca: see /verif/DESIGN.md.
mod c20;
mod cgen;
mod cluster;
mod extreme;
mod inst;
mod model;
mod mon;
mod multi;
mod prng;
mod props;
mod sock;
mod solo;
mod types;
mod wire;

use props::Scenario;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use solo::Stats;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use types::Violation;

/// the work of one process, and what came of it
#[derive(Serialize, Deserialize, Default)]
struct Part {
    counts: BTreeMap<String, u64>,
    sim_ms: u64,
    steps: u64,
    runs: u64,
    distinct: u64,
    shapes: Vec<u64>,
    /// shapes first seen in the second half of the runs: how saturated the search is
    late_shapes: u64,
    samples: Vec<Value>,
    found: Option<Found>,
    wall_s: f64,
    cut_short: bool,
}
#[derive(Serialize, Deserialize, Clone)]
struct Found {
    run: u64,
    violation: Violation,
    scenario: Scenario,
    minimised: bool,
    tries: u64,
}
/// what a replay file holds
#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    message: String,
    seed: u64,
    tier: String,
    run: u64,
    /// which build of the simulator it needs: release or checked
    build: String,
    minimised: bool,
    minimisation_attempts: u64,
    scenario: Scenario,
}

struct Plan {
    prop: String,
    tier: String,
    seed: u64,
    runs: u64,
    secs: u64,
}
fn hang_limit(prop: &str) -> u64 {
    match prop {
        "C06" | "C07" => 300,
        _ => 150,
    }
}

/// Execute the runs of a plan on all cores; the reported violation is the one with the lowest run number.
fn work(p: &Plan, status: Option<&Path>) -> Part {
    let t0 = Instant::now();
    let threads = std::env::var("SIM_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8));
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(u64::MAX);
    let done = AtomicBool::new(false);
    let cut = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let total: Mutex<(Stats, HashSet<u64>, u64, Vec<(u64, Value)>, Vec<(u64, u64)>)> = Mutex::new(Default::default());
    let started: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let file = status.map(|s| std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(s).expect("status file"));
    let limit = hang_limit(&p.prop) * 1000;
    std::thread::scope(|sc| {
        let (next, stop, done, cut, found, total, started, file) = (&next, &stop, &done, &cut, &found, &total, &started, &file);
        let mut hs = vec![];
        for k in 0..threads {
            let b = std::thread::Builder::new().stack_size(64 << 20);
            hs.push(
                b.spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    let mut seen: HashSet<u64> = HashSet::new();
                    let mut first: BTreeMap<u64, u64> = BTreeMap::new();
                    let mut n = 0;
                    let mut samples = vec![];
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= p.runs || i > stop.load(SeqCst) {
                            break;
                        }
                        if t0.elapsed().as_secs() >= p.secs {
                            cut.store(true, SeqCst);
                            break;
                        }
                        if let Some(f) = file {
                            let _ = f.write_all_at(&(i + 1).to_le_bytes(), 8 * k as u64);
                        }
                        started[k].1.store(i, SeqCst);
                        started[k].0.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                        let mut rs = Stats::default();
                        let (scn, c) = props::explore(&p.prop, &p.tier, p.seed, i, &mut rs);
                        started[k].0.store(0, SeqCst);
                        n += 1;
                        if rs.nontrivial {
                            seen.insert(rs.digest);
                        }
                        for s in rs.shapes.drain() {
                            let e = first.entry(s).or_insert(i);
                            *e = (*e).min(i);
                        }
                        st.merge(&rs);
                        if i < 3 {
                            let mut t = serde_json::to_string(&scn).unwrap_or_default();
                            if t.len() > 1500 {
                                let mut e = 1500;
                                while !t.is_char_boundary(e) {
                                    e -= 1;
                                }
                                t.truncate(e);
                                t.push_str(" ...");
                            }
                            samples.push((i, json!({"run": i, "scenario": t, "calls_executed": rs.steps, "simulated_ms": rs.sim_ms, "history_digest": format!("{:016x}", rs.digest)})));
                        }
                        if let Err(v) = c {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map(|f| f.run > i).unwrap_or(true) {
                                *f = Some(Found { run: i, violation: v, scenario: scn, minimised: false, tries: 0 });
                                stop.fetch_min(i, SeqCst);
                            }
                        }
                    }
                    if let Some(f) = file {
                        let _ = f.write_all_at(&0u64.to_le_bytes(), 8 * k as u64);
                    }
                    let mut t = total.lock().unwrap();
                    t.0.merge(&st);
                    t.1.extend(seen);
                    t.2 += n;
                    t.3.extend(samples);
                    t.4.extend(first);
                })
                .expect("thread"),
            );
        }
        // a run that never ends
        let (pp, status) = (p, status);
        let dog = sc.spawn(move || {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64;
                for s in started {
                    let at = s.0.load(SeqCst);
                    if at != 0 && now > at + limit {
                        // leave the verdict to the supervisor
                        let run = s.1.load(SeqCst);
                        eprintln!("run {run} of {} has not ended after {} s", pp.prop, limit / 1000);
                        if let Some(f) = status {
                            let _ = std::fs::write(f.with_extension("hang"), run.to_string());
                        }
                        std::process::exit(86);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, SeqCst);
        let _ = dog.join();
    });
    let (st, seen, runs, mut samples, first) = total.into_inner().unwrap();
    samples.sort_by_key(|s| s.0);
    let mut sh: BTreeMap<u64, u64> = BTreeMap::new();
    for (s, i) in first {
        let e = sh.entry(s).or_insert(i);
        *e = (*e).min(i);
    }
    Part {
        counts: st.c,
        sim_ms: st.sim_ms,
        steps: st.steps,
        runs,
        distinct: seen.len() as u64,
        late_shapes: sh.values().filter(|i| **i >= runs / 2).count() as u64,
        shapes: sh.into_keys().collect(),
        samples: samples.into_iter().map(|s| s.1).collect(),
        found: found.into_inner().unwrap(),
        wall_s: t0.elapsed().as_secs_f64(),
        cut_short: cut.load(SeqCst),
    }
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
fn build_name() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}
fn exe(build: &str) -> PathBuf {
    let me = std::env::current_exe().expect("exe");
    if build == build_name() {
        return me;
    }
    // target/{release,checked}/sim
    me.parent().and_then(|d| d.parent()).map(|d| d.join(build).join("sim")).expect("target dir")
}
/// (property, id) of the findings recorded as known
fn known_findings() -> Vec<(String, String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(root().join("KNOWN_FINDINGS")).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: property=") {
            let mut w = r.splitn(3, ' ');
            if let (Some(p), Some(i), Some(d)) = (w.next(), w.next(), w.next()) {
                v.push((p.to_string(), i.trim_start_matches("id=").to_string(), d.to_string()));
            }
        }
    }
    v
}
fn listed(prop: &str, id: &str) -> bool {
    known_findings().iter().any(|(p, i, _)| p == prop && i == id)
}
fn arg(a: &[String], name: &str) -> Option<String> {
    a.iter().position(|x| x == name).and_then(|k| a.get(k + 1)).cloned()
}

/// runs and seconds of a check
fn budget(prop: &str, tier: &str, build: &str) -> (u64, u64) {
    let quick = match prop {
        "C01" => 600_000,
        "C02" => 16_000,
        "C03" => 60_000,
        "C04" => 40_000,
        "C05" => 14_000,
        "C06" => 70_000,
        "C07" => 100_000,
        "C17" => 200_000,
        "C18" => 3_000_000,
        "C20" => 220_000,
        _ => 350_000,
    };
    let quick = if build == "checked" { quick / 2 } else { quick };
    match tier {
        "thorough" => (u64::MAX, std::env::var("SIM_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(600)),
        _ => (quick, 240),
    }
}
/// builds of foca that take part in a check
fn builds(prop: &str, tier: &str) -> Vec<&'static str> {
    if prop == "C06" || tier == "thorough" {
        vec!["release", "checked"]
    } else {
        vec!["release"]
    }
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("focasim.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

/// one process per part; a part that dies is investigated
fn run_part(p: &Plan, build: &str, dir: &Path) -> Result<Part, String> {
    let out = dir.join(format!("{build}.json"));
    let status = dir.join(format!("{build}.status"));
    let mut c = Command::new(exe(build));
    c.arg("part").arg(&p.prop).arg("--tier").arg(&p.tier).arg("--seed").arg(p.seed.to_string());
    c.arg("--runs").arg(p.runs.to_string()).arg("--secs").arg(p.secs.to_string());
    c.arg("--out").arg(&out).arg("--status").arg(&status);
    let s = c.stdin(Stdio::null()).status().map_err(|e| format!("cannot start {build}: {e}"))?;
    if s.success() {
        let t = std::fs::read_to_string(&out).map_err(|e| e.to_string())?;
        return serde_json::from_str(&t).map_err(|e| format!("{build}: {e}"));
    }
    // find out which of the runs in flight did it
    let hang: Option<u64> = std::fs::read_to_string(status.with_extension("hang")).ok().and_then(|x| x.parse().ok());
    let mut cands: Vec<u64> = match hang {
        Some(r) => vec![r],
        None => std::fs::read(&status)
            .unwrap_or_default()
            .chunks_exact(8)
            .filter_map(|c| u64::from_le_bytes(c.try_into().unwrap()).checked_sub(1))
            .collect(),
    };
    cands.sort();
    let why = match s.signal() {
        Some(n) => format!("signal {n}"),
        None => format!("exit status {:?}", s.code()),
    };
    for run in cands {
        let scn = Scenario::Seeded { prop: p.prop.clone(), tier: p.tier.clone(), seed: p.seed, run };
        let v = |class: &str, m: String| Found { run, violation: types::viol(&p.prop, class, m), scenario: scn.clone(), minimised: false, tries: 0 };
        let mut part = Part::default();
        if hang.is_some() {
            part.found = Some(v("never-ends", format!("run {run} did not end within {} s", hang_limit(&p.prop))));
            return Ok(part);
        }
        match one_in_child(build, p, run) {
            End::Died(how) => {
                part.found = Some(v("abort", format!("run {run} ended the process: {how}")));
                return Ok(part);
            }
            End::Exit(1, msg) => {
                part.found = Some(v("abort", msg));
                return Ok(part);
            }
            _ => {}
        }
    }
    Err(format!("part {build} ended with {why}, and none of the runs in flight does so on its own"))
}
enum End {
    Exit(i32, String),
    Died(String),
}
fn one_in_child(build: &str, p: &Plan, run: u64) -> End {
    let mut c = Command::new(exe(build));
    c.arg("one").arg(&p.prop).arg("--tier").arg(&p.tier).arg("--seed").arg(p.seed.to_string()).arg("--run").arg(run.to_string());
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    match c.output() {
        Ok(o) => match (o.status.code(), o.status.signal()) {
            (Some(c), _) if c == 0 || c == 1 => End::Exit(c, String::from_utf8_lossy(&o.stdout).trim().to_string()),
            (Some(c), _) => End::Died(format!("exit status {c}")),
            (None, s) => End::Died(format!("signal {}", s.unwrap_or(0))),
        },
        Err(e) => End::Died(e.to_string()),
    }
}

fn check(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let t0 = Instant::now();
    let tier = arg(a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).filter(|t| t == "thorough").unwrap_or_else(|| "quick".into());
    let seed: u64 = arg(a, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|x| x.parse().ok()).unwrap_or(1);
    let dir = scratch();
    let r = check_in(a, &prop, &tier, seed, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn check_in(a: &[String], prop: &str, tier: &str, seed: u64, dir: &Path, t0: Instant) -> i32 {
    let mut parts = vec![];
    let mut found: Option<(&'static str, Found)> = None;
    for b in builds(prop, tier) {
        let (runs, secs) = budget(prop, tier, b);
        let runs = arg(a, "--runs").and_then(|x| x.parse().ok()).unwrap_or(runs);
        let secs = arg(a, "--secs").and_then(|x| x.parse().ok()).unwrap_or(secs);
        let plan = Plan { prop: prop.into(), tier: tier.into(), seed, runs, secs };
        match run_part(&plan, b, dir) {
            Ok(p) => {
                if let Some(f) = p.found.clone() {
                    found = Some((b, f));
                }
                parts.push((b, p));
            }
            Err(e) => {
                eprintln!("error: {e}");
                return 2;
            }
        }
        if found.is_some() {
            break;
        }
    }
    let mut extra = BTreeMap::new();
    // C17: the same runs in another process
    if prop == "C17" && found.is_none() {
        match other_process(tier, seed, if tier == "thorough" { 20_000 } else { 2_000 }) {
            Ok((n, None)) => {
                extra.insert("runs_repeated_in_second_process".to_string(), n);
            }
            Ok((_, Some(run))) => {
                let scn = Scenario::Seeded { prop: prop.into(), tier: tier.into(), seed, run };
                let v = types::viol(prop, "nondeterministic", format!("run {run} gave different histories in two processes"));
                found = Some(("release", Found { run, violation: v, scenario: scn, minimised: false, tries: 0 }));
            }
            Err(e) => {
                eprintln!("error: {e}");
                return 2;
            }
        }
    }
    // known findings
    let mut known = vec![];
    if prop == "C20" && found.is_none() {
        if let Some(m) = c20::finding_unlimited_bincode() {
            if listed(prop, "bincode-unlimited") {
                known.push(format!("id=bincode-unlimited: {m}"));
            } else {
                let v = types::viol(prop, "bincode-unlimited", m);
                found = Some(("release", Found { run: 0, violation: v, scenario: Scenario::Finding { id: "bincode-unlimited".into() }, minimised: true, tries: 0 }));
            }
        }
    }
    if prop == "C02" {
        let n: u64 = parts.iter().map(|p| p.1.counts.get("known_c02_exhausted_dissemination").copied().unwrap_or(0)).sum();
        match pinned_c02(n) {
            Ok(Some(m)) => known.push(m),
            Ok(None) => {}
            Err(f) if found.is_none() => found = Some(("release", *f)),
            Err(_) => {}
        }
    }
    for k in &known {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let replay = found.as_ref().map(|(b, f)| (write_replay(prop, tier, seed, b, f), f));
    evidence(prop, tier, seed, &parts, &extra, &known, replay.is_some() as u64, t0);
    if let Some((path, f)) = replay {
        println!("{}", f.violation.msg);
        println!("run {} of seed {seed} ({}), class {}, minimised: {}", f.run, tier, f.violation.class, f.minimised);
        println!("VIOLATION property={prop} replay={}", path.display());
        return 1;
    }
    let n: u64 = parts.iter().map(|p| p.1.runs).sum();
    println!("{prop}: {n} runs, {:.1} s, no violation", t0.elapsed().as_secs_f64());
    0
}
/// the history behind the C02 finding
fn pinned_c02(seen: u64) -> Result<Option<String>, Box<Found>> {
    let Ok(t) = std::fs::read_to_string(root().join("known/C02-exhausted-dissemination.json")) else { return Ok(None) };
    let Ok(scn) = serde_json::from_str::<Scenario>(&t) else { return Ok(None) };
    cluster::EXCUSE.store(listed("C02", "exhausted-dissemination"), SeqCst);
    let mut st = Stats::default();
    let c = inst::guarded(|| props::run(&scn, "C02", &mut st));
    match c {
        Ok(Ok(())) if st.c.contains_key("known_c02_exhausted_dissemination") || seen > 0 => Ok(Some(format!(
            "id=exhausted-dissemination: without periodic_announce concurrently joined members never hear of each other once max_transmissions is exhausted (pinned history fails: {}, seen in {seen} runs)",
            st.c.contains_key("known_c02_exhausted_dissemination")
        ))),
        Ok(Ok(())) => Ok(None),
        Ok(Err(v)) => Err(Box::new(Found { run: 0, violation: v, scenario: scn, minimised: false, tries: 0 })),
        Err(e) => Err(Box::new(Found { run: 0, violation: types::viol("C02", "panic", e), scenario: scn, minimised: false, tries: 0 })),
    }
}
fn other_process(tier: &str, seed: u64, n: u64) -> Result<(u64, Option<u64>), String> {
    let go = |threads: &str| -> Result<Vec<String>, String> {
        let o = Command::new(exe("release"))
            .args(["digests", "C17", "--tier", tier, "--seed", &seed.to_string(), "--runs", &n.to_string()])
            .env("SIM_THREADS", threads)
            .stderr(Stdio::null())
            .output()
            .map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err("digest process failed".into());
        }
        Ok(String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect())
    };
    // different processes, different numbers of threads: address space, hash seeds and timing all differ
    let (x, y) = std::thread::scope(|s| {
        let h = s.spawn(|| go("3"));
        (go("5"), h.join().unwrap_or(Err("thread".into())))
    });
    let (x, y) = (x?, y?);
    let d = x.iter().zip(&y).position(|(a, b)| a != b).map(|k| k as u64);
    Ok((x.len() as u64, d))
}
fn digests(a: &[String]) -> i32 {
    let p = plan_of(a);
    let threads: usize = std::env::var("SIM_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(4);
    let out: Mutex<BTreeMap<u64, u64>> = Mutex::new(BTreeMap::new());
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= p.runs {
                    break;
                }
                let mut st = Stats::default();
                let _ = props::explore(&p.prop, &p.tier, p.seed, i, &mut st);
                out.lock().unwrap().insert(i, st.digest);
            });
        }
    });
    for (i, d) in out.into_inner().unwrap() {
        println!("{i} {d:016x}");
    }
    0
}

fn write_replay(prop: &str, tier: &str, seed: u64, build: &str, f: &Found) -> PathBuf {
    let d = root().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let path = d.join(format!("{prop}-{seed}-{}-{}.json", f.run, f.violation.class));
    let r = Replay {
        property: prop.into(),
        class: f.violation.class.clone(),
        message: f.violation.msg.clone(),
        seed,
        tier: tier.into(),
        run: f.run,
        build: build.into(),
        minimised: f.minimised,
        minimisation_attempts: f.tries,
        scenario: f.scenario.clone(),
    };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap_or_default());
    path
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, parts: &[(&str, Part)], extra: &BTreeMap<String, u64>, known: &[String], violations: u64, t0: Instant) {
    let wall = t0.elapsed().as_secs_f64();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    for (_, p) in parts {
        for (k, v) in &p.counts {
            let e = counts.entry(k.clone()).or_default();
            if k.starts_with("max_") {
                *e = (*e).max(*v);
            } else {
                *e += v;
            }
        }
        shapes.extend(&p.shapes);
    }
    let sub = |pre: &[&str]| -> BTreeMap<&String, &u64> { counts.iter().filter(|(k, _)| pre.iter().any(|p| k.starts_with(p))).collect() };
    let runs: u64 = parts.iter().map(|p| p.1.runs).sum();
    let steps: u64 = parts.iter().map(|p| p.1.steps).sum();
    let sim_ms: u64 = parts.iter().map(|p| p.1.sim_ms).sum();
    let work: f64 = parts.iter().map(|p| p.1.wall_s).sum::<f64>().max(0.001);
    let distinct: u64 = parts.iter().map(|p| p.1.distinct).max().unwrap_or(0);
    let e = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": violations,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct,
            "rule": format!("{}. Distinct: different digest of the complete history (calls, results, datagrams, timers, notifications, membership after each call) within one build", props::rule(prop)),
            "samples": parts.iter().flat_map(|p| p.1.samples.clone()).take(3).collect::<Vec<_>>(),
            "builds": parts.iter().map(|(b, p)| json!({"build": b, "debug_assertions_and_overflow_checks": *b == "checked", "runs": p.runs, "wall_s": p.wall_s, "stopped_by_time_limit": p.cut_short})).collect::<Vec<_>>(),
            "runs_and_seeds_per_hour": (runs as f64 / work * 3600.0) as u64,
            "calls_into_foca": steps,
            "simulated_hours": sim_ms as f64 / 3_600_000.0,
            "distinct_step_shapes": shapes.len(),
            "distinct_step_shapes_first_seen_in_second_half": parts.iter().map(|p| p.1.late_shapes).max().unwrap_or(0),
            "step_shape_measure": "(call and message kind, result, relation of the sender to its record, number of active / down records and pending broadcasts up to 3, set of record transitions, sequence of effect kinds)",
            "faults_and_adversarial_inputs": sub(&["fault_", "timers_", "in_bad", "in_too", "in_from", "in_not", "net_"]),
            "environment_events": sub(&["ev_", "op_", "in_processed"]),
            "scenario_kinds": sub(&["runs_"]),
            "situations_reached": sub(&["probe_", "max_", "known_", "big_", "config_"]),
            "other_counts": counts.iter().filter(|(k, _)| !["fault_", "timers_", "in_", "net_", "ev_", "op_", "runs_", "probe_", "max_", "known_", "big_", "config_"].iter().any(|p| k.starts_with(p))).collect::<BTreeMap<_, _>>(),
            "extra": extra,
            "known_findings_seen": known,
            "components_real": ["foca (all of /repo/src, compiled from the working tree)", "AccumulatingRuntime (C08, C06)", "BincodeCodec and PostcardCodec with bincode and postcard", "bytes"],
            "components_stub": ["Runtime (records effects, plays them out on a simulated clock and network)", "random number generator given to foca (seeded)", "Identity", "BroadcastHandler", "two of five codecs", "no operating system time, sockets, threads or disk take part"]
        },
        "assumptions": [
            "the recording runtime, the simulated network and the oracles (sim/src) are right; they're exercised by planted bugs",
            "what was not generated was not checked: this is a seeded search"
        ]
    });
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{prop}.json")), serde_json::to_string_pretty(&e).unwrap_or_default());
}

fn plan_of(a: &[String]) -> Plan {
    Plan {
        prop: a[0].clone(),
        tier: arg(a, "--tier").unwrap_or("quick".into()),
        seed: arg(a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        runs: arg(a, "--runs").and_then(|x| x.parse().ok()).unwrap_or(1000),
        secs: arg(a, "--secs").and_then(|x| x.parse().ok()).unwrap_or(u64::MAX),
    }
}
fn part(a: &[String]) -> i32 {
    let p = plan_of(a);
    cluster::EXCUSE.store(listed("C02", "exhausted-dissemination"), SeqCst);
    let status = arg(a, "--status").map(PathBuf::from);
    let mut part = work(&p, status.as_deref());
    if let Some(mut f) = part.found.take() {
        // the written-out scenario has to fail the same way as the exploration that produced it
        let again = inst::guarded(|| {
            let mut st = Stats::default();
            props::run(&f.scenario, &p.prop, &mut st)
        });
        if matches!(&again, Ok(Err(v)) if v.class == f.violation.class) {
            let ms = std::env::var("SIM_SHRINK_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(20_000);
            let (s, v, n) = props::minimise(f.scenario.clone(), f.violation.clone(), &p.prop, ms);
            f = Found { run: f.run, violation: v, scenario: s, minimised: n > 0, tries: n };
        } else {
            eprintln!("note: the written-out scenario does not reproduce ({:?}); reporting the seed", again.err());
            f.scenario = Scenario::Seeded { prop: p.prop.clone(), tier: p.tier.clone(), seed: p.seed, run: f.run };
        }
        part.found = Some(f);
    }
    let t = serde_json::to_string(&part).unwrap_or_default();
    match arg(a, "--out") {
        Some(o) => std::fs::write(o, t).map(|_| 0).unwrap_or(2),
        None => {
            let mut p2 = part;
            p2.shapes.clear();
            p2.samples.clear();
            println!("{}", serde_json::to_string_pretty(&p2).unwrap_or_default());
            p2.found.is_some() as i32
        }
    }
}
fn one(a: &[String]) -> i32 {
    let p = plan_of(a);
    cluster::EXCUSE.store(listed("C02", "exhausted-dissemination"), SeqCst);
    let run: u64 = arg(a, "--run").and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut st = Stats::default();
    let (s, c) = props::explore(&p.prop, &p.tier, p.seed, run, &mut st);
    if arg(a, "--dump").is_some() {
        println!("{}", serde_json::to_string_pretty(&s).unwrap_or_default());
    }
    match c {
        Ok(()) => {
            println!("ok digest {:016x} steps {} {:?}", st.digest, st.steps, st.c.iter().filter(|(k, _)| k.starts_with("known")).collect::<Vec<_>>());
            0
        }
        Err(v) => {
            println!("{} {}\n{}", v.prop, v.class, v.msg);
            1
        }
    }
}
fn replay(a: &[String]) -> i32 {
    cluster::EXCUSE.store(listed("C02", "exhausted-dissemination"), SeqCst);
    let r: Replay = match std::fs::read_to_string(&a[0]).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {e}", a[0]);
            return 2;
        }
    };
    if r.build != build_name() {
        let s = Command::new(exe(&r.build)).arg("replay").args(a).status();
        return s.ok().and_then(|s| s.code()).unwrap_or(1);
    }
    println!("replaying {} (seed {} run {}, {})", r.property, r.seed, r.run, r.scenario.name());
    // deaths and endless runs are judged from outside
    if matches!(r.scenario, Scenario::Seeded { .. }) && arg(a, "--inside").is_none() {
        if r.class == "nondeterministic" {
            let d = other_process(&r.tier, r.seed, r.run + 1);
            let bad = matches!(d, Ok((_, Some(_))));
            println!("{d:?}");
            if bad {
                println!("VIOLATION property={} replay={}", r.property, a[0]);
            }
            return bad as i32;
        }
        let mut c = match Command::new(exe(build_name())).arg("replay").args(a).arg("--inside").arg("1").spawn() {
            Ok(c) => c,
            Err(_) => return 2,
        };
        let t0 = Instant::now();
        loop {
            match c.try_wait() {
                Ok(Some(s)) => {
                    if s.code() == Some(0) {
                        return 0;
                    }
                    if s.code() != Some(1) {
                        println!("the process ended: {s}");
                        println!("VIOLATION property={} replay={}", r.property, a[0]);
                    }
                    return 1;
                }
                Ok(None) if t0.elapsed().as_secs() > hang_limit(&r.property) => {
                    let _ = c.kill();
                    println!("did not end\nVIOLATION property={} replay={}", r.property, a[0]);
                    return 1;
                }
                _ => std::thread::sleep(Duration::from_millis(50)),
            }
        }
    }
    let mut st = Stats::default();
    inst::LOG.with(|l| l.set(arg(a, "--log").is_some()));
    let c = match inst::guarded(|| props::run(&r.scenario, &r.property, &mut st)) {
        Ok(c) => c,
        Err(e) => Err(types::viol(&r.property, "panic", e)),
    };
    match c {
        Ok(()) => {
            println!("no violation (digest {:016x})", st.digest);
            0
        }
        Err(v) => {
            println!("{}: {}", v.class, v.msg);
            if v.class == r.class && v.msg == r.message {
                println!("(exactly as recorded)");
            }
            println!("VIOLATION property={} replay={}", r.property, a[0]);
            1
        }
    }
}

fn main() {
    inst::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") if a.len() > 1 && props::PROPS.contains(&a[1].as_str()) => check(&a[1..]),
        Some("part") if a.len() > 1 => part(&a[1..]),
        Some("one") if a.len() > 1 => one(&a[1..]),
        Some("replay") if a.len() > 1 => replay(&a[1..]),
        Some("digests") if a.len() > 1 => digests(&a[1..]),
        _ => {
            eprintln!("usage: sim check Cxx [--tier quick|thorough] [--seed N] [--runs N] [--secs S]\n       sim replay FILE [--log 1]\n       sim one Cxx --run N [--seed N] [--tier T] [--dump 1]\n       sim part Cxx [--runs N] [--seed N]\n       sim digests Cxx --runs N");
            2
        }
    };
    std::process::exit(code);
}
