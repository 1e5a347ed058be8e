//! Command line of the check binaries: explore, minimise, replay, self-check, evidence.

use crate::minimise::shrink;
use crate::run::*;
use crate::{fnv, mix, FNV0};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Property {
    pub id: &'static str,
    pub scenario: fn(),
    /// Runs of the quick tier; the thorough tier does `thorough` times as many.
    pub runs: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Probes that must have fired in a full quick run; a check that no longer reaches them is blind.
    pub must_reach: &'static [&'static str],
}

const HANG_S: u64 = 60;
const HASHED: u64 = 40;

fn run_seed(master: u64, id: &str, idx: u64) -> u64 {
    mix(mix(master ^ fnv(FNV0, id.as_bytes())) ^ idx.wrapping_mul(0x2545_F491_4F6C_DD1D))
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

#[derive(Clone, Debug)]
struct Known {
    class: String,
    what: String,
}

/// Lines `known: property=<id> class=<class> :: <what>`.
fn load_known(id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={id} class=")) {
            if let Some((class, what)) = rest.split_once(" :: ") {
                out.push(Known { class: class.trim().into(), what: what.trim().into() });
            }
        }
    }
    out
}

#[derive(Default)]
struct Agg {
    runs: u64,
    ops: u64,
    steps: u64,
    sim_ns: u64,
    switches: u64,
    decisions: u64,
    faults: BTreeMap<String, u64>,
    faulted_runs: u64,
    probes: BTreeMap<String, u64>,
    nontrivial: BTreeSet<u64>,
    scheds: BTreeSet<u64>,
    hashes: BTreeMap<u64, u64>,
    sample_idx: Vec<u64>,
    /// class -> (first index, count, detail)
    violations: BTreeMap<String, (u64, u64, String)>,
    harness: BTreeMap<u64, String>,
    /// Control-flow edges of the code under test that were reached.
    edges: BTreeSet<u64>,
}

impl Agg {
    fn add(&mut self, idx: u64, o: &Outcome) {
        self.runs += 1;
        self.ops += o.ops;
        self.steps += o.steps;
        self.sim_ns = self.sim_ns.saturating_add(o.sim_ns);
        self.switches += o.switches;
        self.decisions += o.decisions;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        if !o.faults.is_empty() {
            self.faulted_runs += 1;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        if o.ops >= 2 && (!o.faults.is_empty() || o.switches > 0) {
            self.nontrivial.insert(o.log_hash);
            if self.sample_idx.len() < 2 {
                self.sample_idx.push(idx);
            }
        }
        if o.switches > 0 {
            self.scheds.insert(o.sched_hash);
        }
        if idx < HASHED {
            self.hashes.insert(idx, o.log_hash);
        }
        if let Some(v) = &o.violation {
            let e = self
                .violations
                .entry(v.class.clone())
                .or_insert((idx, 0, v.detail.clone()));
            e.1 += 1;
        }
        if let Some(h) = &o.harness_error {
            self.harness.insert(idx, h.clone());
        }
    }

    fn to_json(&self) -> Value {
        json!({
            "runs": self.runs, "ops": self.ops, "steps": self.steps, "sim_ns": self.sim_ns,
            "switches": self.switches, "decisions": self.decisions, "faults": self.faults,
            "faulted_runs": self.faulted_runs, "probes": self.probes,
            "nontrivial": self.nontrivial, "scheds": self.scheds, "hashes": self.hashes.iter().collect::<Vec<_>>(),
            "sample_idx": self.sample_idx, "edges": self.edges,
            "violations": self.violations.iter().map(|(k, v)| json!([k, v.0, v.1, v.2])).collect::<Vec<_>>(),
            "harness": self.harness.iter().collect::<Vec<_>>(),
        })
    }

    fn merge(&mut self, v: &Value) {
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        self.runs += n("runs");
        self.ops += n("ops");
        self.steps += n("steps");
        self.sim_ns = self.sim_ns.saturating_add(n("sim_ns"));
        self.switches += n("switches");
        self.decisions += n("decisions");
        self.faulted_runs += n("faulted_runs");
        for (name, map) in [("faults", &mut self.faults), ("probes", &mut self.probes)] {
            if let Some(o) = v[name].as_object() {
                for (k, c) in o {
                    *map.entry(k.clone()).or_insert(0) += c.as_u64().unwrap_or(0);
                }
            }
        }
        for (name, set) in [("nontrivial", &mut self.nontrivial), ("scheds", &mut self.scheds), ("edges", &mut self.edges)] {
            if let Some(a) = v[name].as_array() {
                set.extend(a.iter().filter_map(|x| x.as_u64()));
            }
        }
        if let Some(a) = v["hashes"].as_array() {
            for p in a {
                self.hashes.insert(p[0].as_u64().unwrap_or(0), p[1].as_u64().unwrap_or(0));
            }
        }
        if let Some(a) = v["sample_idx"].as_array() {
            self.sample_idx.extend(a.iter().filter_map(|x| x.as_u64()));
            self.sample_idx.sort();
        }
        if let Some(a) = v["violations"].as_array() {
            for p in a {
                let (c, i, k, d) = (
                    p[0].as_str().unwrap_or("?").to_string(),
                    p[1].as_u64().unwrap_or(0),
                    p[2].as_u64().unwrap_or(0),
                    p[3].as_str().unwrap_or("").to_string(),
                );
                let e = self.violations.entry(c).or_insert((i, 0, d.clone()));
                e.1 += k;
                if i < e.0 {
                    e.0 = i;
                    e.2 = d;
                }
            }
        }
        if let Some(a) = v["harness"].as_array() {
            for p in a {
                self.harness
                    .insert(p[0].as_u64().unwrap_or(0), p[1].as_str().unwrap_or("?").into());
            }
        }
    }
}

fn usage() -> ! {
    eprintln!("usage: BIN check ID | replay FILE | worker ... | show ID IDX | determinism ID N | list");
    exit(2)
}

pub fn main_with(crate_name: &'static str, props: &'static [Property], prewarm: fn()) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| -> &'static Property {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            exit(2)
        })
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            exit(0)
        }
        Some("worker") if args.len() == 7 => {
            prewarm();
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            worker(find(&args[1]), n(2), n(3), n(4), n(5), n(6))
        }
        Some("check") if args.len() == 2 => {
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
            prewarm();
            check(crate_name, find(&args[1]), seed, thorough)
        }
        // every edge: whether `worker` output on stdin lists it, and its address
        Some("edges") => {
            let mut hit = BTreeSet::new();
            for l in std::io::stdin().lines().map_while(Result::ok) {
                if let Some(v) = l.strip_prefix("j ").and_then(|j| serde_json::from_str::<Value>(j).ok()) {
                    hit.extend(v["edges"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
                }
            }
            for e in 1..=crate::preempt::coverage().0 {
                {
                    println!("{} {:#x}", u8::from(hit.contains(&(e as u64))), crate::preempt::address(e as u32).unwrap_or(0));
                }
            }
            exit(0)
        }
        Some("show") if args.len() >= 3 => {
            prewarm();
            let p = find(&args[1]);
            let o = execute(p.scenario, Source::Seed(run_seed(seed, p.id, args[2].parse().unwrap())), HANG_S, true);
            match o {
                Ok(o) => {
                    for l in &o.log {
                        println!("{l}");
                    }
                    println!("violation: {:?}\nharness: {:?}\nfaults: {:?}\nprobes: {:?}\ntape: {}", o.violation, o.harness_error, o.faults, o.probes, o.tape.len());
                    if args.len() > 3 {
                        println!("{:?}", o.tape.iter().zip(o.labels.iter()).collect::<Vec<_>>());
                    }
                }
                Err(d) => println!("{d:?}"),
            }
            std::io::stdout().flush().ok();
            exit(0)
        }
        Some("determinism") if args.len() == 3 => {
            // Prints one fingerprint per run; diffed across processes by selfcheck.sh.
            prewarm();
            let p = find(&args[1]);
            let mut all = FNV0;
            for i in 0..args[2].parse::<u64>().unwrap() {
                let o = execute(p.scenario, Source::Seed(run_seed(seed, p.id, i)), HANG_S, false).expect("died");
                all = fnv(all, &o.log_hash.to_le_bytes());
                println!("{} seed={} run={} {:016x} {:016x} {}", p.id, seed, i, o.log_hash, o.sched_hash, o.decisions);
            }
            println!("{} total {:016x}", p.id, all);
            exit(0)
        }
        Some("replay") if args.len() == 2 => {
            let text = std::fs::read_to_string(&args[1]).unwrap_or_else(|e| {
                eprintln!("{}: {e}", args[1]);
                exit(2)
            });
            let v: Value = serde_json::from_str(&text).expect("replay file");
            prewarm();
            let p = find(v["property"].as_str().unwrap_or(""));
            let src = match v["tape"].as_array() {
                Some(t) => Source::Tape(t.iter().map(|x| x.as_u64().unwrap_or(0)).collect()),
                None => Source::Seed(v["run_seed"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0)),
            };
            match execute(p.scenario, src, HANG_S, true) {
                Err(d) => {
                    println!("class: {}", d.class());
                    println!("VIOLATION property={} replay={}", p.id, args[1]);
                    exit(1)
                }
                Ok(o) => {
                    for l in &o.log {
                        println!("{l}");
                    }
                    if let Some(v) = o.violation {
                        println!("class: {}", v.class);
                        println!("detail: {}", v.detail);
                        println!("log-hash: {:016x}", o.log_hash);
                        println!("VIOLATION property={} replay={}", p.id, args[1]);
                        exit(1)
                    }
                    println!("no violation; log-hash: {:016x}", o.log_hash);
                    exit(0)
                }
            }
        }
        _ => usage(),
    }
}

fn worker(p: &'static Property, seed: u64, start: u64, stride: u64, count: u64, secs: u64) -> ! {
    let known = load_known(p.id);
    crate::preempt::note_coverage();
    let end = Instant::now() + Duration::from_secs(secs);
    let mut agg = Agg::default();
    let out = std::io::stdout();
    let mut idx = start;
    while idx < count && Instant::now() < end {
        match execute(p.scenario, Source::Seed(run_seed(seed, p.id, idx)), HANG_S, false) {
            Ok(o) => {
                agg.add(idx, &o);
                let stop = o.harness_error.is_some()
                    || o.violation.as_ref().map(|v| !known.iter().any(|k| k.class == v.class)).unwrap_or(false);
                if stop {
                    break;
                }
            }
            Err(d) => {
                agg.runs += 1;
                let what = match d {
                    Died::Hang => format!("the run did not end within {HANG_S} s"),
                    Died::Death(st) => format!("the run ended the process (wait status {st}): stack overflow, abort, double panic or out of memory"),
                };
                let e = agg.violations.entry(d.class().into()).or_insert((idx, 0, what));
                e.1 += 1;
                if !known.iter().any(|k| k.class == d.class()) {
                    break;
                }
            }
        }
        idx += stride;
    }
    agg.edges = crate::preempt::coverage().1.into_iter().map(u64::from).collect();
    {
        let mut o = out.lock();
        let _ = writeln!(o, "j {}", agg.to_json());
        let _ = o.flush();
    }
    unsafe { libc::_exit(0) }
}

fn check(crate_name: &str, p: &'static Property, seed: u64, thorough: bool) -> ! {
    let t0 = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    println!("SEED {seed} property={} tier={tier}", p.id);
    let count = if thorough { p.runs * p.thorough } else { p.runs };
    let secs: u64 = std::env::var("SIM_SECONDS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3600 } else { 120 });
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8) as u64;
    let exe = std::env::current_exe().expect("current exe");
    let mut agg = Agg::default();
    let results: Vec<(u64, Vec<Value>, Option<i32>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                let exe = exe.clone();
                sc.spawn(move || {
                    let mut child = Command::new(exe)
                        .args(["worker", p.id])
                        .args([seed, w, workers, count, secs].map(|x| x.to_string()))
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn()
                        .expect("spawn worker");
                    let mut vals = Vec::new();
                    for l in BufReader::new(child.stdout.take().unwrap()).lines() {
                        let Ok(l) = l else { break };
                        if let Some(j) = l.strip_prefix("j ") {
                            if let Ok(v) = serde_json::from_str(j) {
                                vals.push(v);
                            }
                        }
                    }
                    let st = child.wait().expect("wait");
                    (w, vals, st.code())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut lost = None;
    for (w, vals, code) in &results {
        for v in vals {
            agg.merge(v);
        }
        if vals.is_empty() || *code != Some(0) {
            lost = Some(*w);
        }
    }
    if let Some(w) = lost {
        agg.harness.insert(0, format!("worker {w} was lost"));
    }

    let known = load_known(p.id);
    let mut fresh: Vec<(String, u64, String)> = Vec::new();
    for (class, (idx, n, detail)) in &agg.violations {
        if let Some(k) = known.iter().find(|k| k.class == *class) {
            println!("KNOWN-FINDING: property={} {} [{} runs, first {}]", p.id, k.what, n, idx);
        } else {
            fresh.push((class.clone(), *idx, detail.clone()));
        }
    }
    fresh.sort_by_key(|f| f.1);

    // Determinism: the first runs again, in this process, in one sequence.
    let mut mismatch = None;
    if fresh.is_empty() && agg.harness.is_empty() {
        for (idx, h) in &agg.hashes {
            match execute(p.scenario, Source::Seed(run_seed(seed, p.id, *idx)), HANG_S, false) {
                Ok(o) if o.log_hash == *h => {}
                _ => {
                    mismatch = Some(*idx);
                    break;
                }
            }
        }
    }

    let mut samples = Vec::new();
    if fresh.is_empty() {
        for idx in agg.sample_idx.iter().take(2) {
            if let Ok(o) = execute(p.scenario, Source::Seed(run_seed(seed, p.id, *idx)), HANG_S, true) {
                let n = o.log.len().min(60);
                samples.push(json!({
                    "run": idx, "run_seed": run_seed(seed, p.id, *idx).to_string(),
                    "decisions": o.tape.len(), "log_lines": o.log.len(), "log": o.log[..n],
                }));
            }
        }
    }

    let mut violation_line = None;
    if let Some((class, idx, detail)) = fresh.first() {
        let rs = run_seed(seed, p.id, *idx);
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let first = if class == "process-death" || class == "hang" {
            None
        } else {
            execute(p.scenario, Source::Seed(rs), HANG_S, true).ok()
        };
        let path = dir.join(format!("{}-{:016x}.json", p.id, rs));
        let write = |o: Option<&Outcome>, attempts: u64, path: &Path| {
            let v = json!({
                "property": p.id, "crate": crate_name, "master_seed": seed, "run": idx,
                "run_seed": rs.to_string(), "class": class,
                "detail": o.and_then(|o| o.violation.as_ref()).map(|v| v.detail.clone()).unwrap_or(detail.clone()),
                "minimiser_attempts": attempts,
                "tape": o.map(|o| trim(&o.tape)),
                "decisions": o.map(|o| o.labels.iter().zip(o.tape.iter()).map(|(l, v)| format!("{l}={v}")).collect::<Vec<_>>()),
                "faults": o.map(|o| &o.faults),
                "log_hash": o.map(|o| format!("{:016x}", o.log_hash)),
                "log": o.map(|o| &o.log),
            });
            let _ = std::fs::write(path, serde_json::to_string_pretty(&v).unwrap());
        };
        match first {
            Some(o) if o.violation.as_ref().map(|v| &v.class) == Some(class) => {
                let full = o.clone();
                let s = shrink(p.scenario, class, o, Duration::from_secs(if thorough { 60 } else { 25 }));
                write(Some(&s.outcome), s.attempts, &path);
                if !reproduces(&exe, &path, class) {
                    println!("note: the minimised replay does not reproduce in a fresh process; writing the full tape");
                    write(Some(&full), s.attempts, &path);
                    if !reproduces(&exe, &path, class) {
                        println!("note: the full tape does not reproduce either: nondeterminism outside the seams");
                    }
                }
                println!("violated: {} in run {} (run seed {}): {}", class, idx, rs, s.outcome.violation.as_ref().unwrap().detail);
                println!("minimised to {} decisions in {} attempts:", trim(&s.outcome.tape).len(), s.attempts);
                for l in s.outcome.log.iter().take(80) {
                    println!("  {l}");
                }
            }
            _ => {
                write(None, 0, &path);
                println!("violated: {class} in run {idx} (run seed {rs}): {detail}");
            }
        }
        violation_line = Some(format!("VIOLATION property={} replay={}", p.id, path.display()));
    }

    let wall = t0.elapsed().as_secs_f64();
    let blind: Vec<&str> = p
        .must_reach
        .iter()
        .filter(|m| !agg.probes.contains_key(**m) && !agg.faults.contains_key(**m))
        .copied()
        .collect();
    let per_h = |n: u64| (n as f64 / wall.max(0.001) * 3600.0) as u64;
    let evidence = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.nontrivial.len(),
            "rule": format!("{} Non-trivial: at least two operations on the code under test and at least one injected fault or one task switch; distinct: different fingerprint of the complete event log (operations, arguments, results, faults, switches).", p.rule),
            "samples": samples,
            "runs_per_hour": per_h(agg.runs),
            "seeds_per_hour": per_h(agg.runs),
            "operations": agg.ops,
            "decisions": agg.decisions,
            "simulated_steps": agg.steps,
            "simulated_seconds": agg.sim_ns as f64 / 1e9,
            "task_switches": agg.switches,
            "distinct_interleavings": agg.scheds.len(),
            "edges_of_the_code_under_test_reached": agg.edges.len(),
            "edges_of_the_code_under_test": crate::preempt::coverage().0,
            "faults_injected": agg.faults,
            "runs_with_a_fault": agg.faulted_runs,
            "probes": agg.probes,
            "probes_not_reached": blind,
            "workers": workers,
            "determinism_recheck": { "runs": agg.hashes.len(), "mismatch": mismatch },
            "real_components": p.real,
            "stubbed_components": p.stubs,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": fresh.len(),
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&evidence).unwrap())
        .expect("write evidence");
    println!(
        "{}: {} runs, {} distinct non-trivial, {} faults in {} runs, {} switches ({} interleavings), {:.1} simulated s, {:.1} s",
        p.id, agg.runs, agg.nontrivial.len(), agg.faults.values().sum::<u64>(), agg.faulted_runs,
        agg.switches, agg.scheds.len(), agg.sim_ns as f64 / 1e9, wall
    );
    for b in &blind {
        println!("note: probe never reached: {b}");
    }
    if let Some(l) = violation_line {
        println!("{l}");
        std::io::stdout().flush().ok();
        unsafe { libc::_exit(1) }
    }
    if let Some((idx, h)) = agg.harness.iter().next() {
        eprintln!("harness error in run {idx}: {h}");
        unsafe { libc::_exit(2) }
    }
    if let Some(idx) = mismatch {
        eprintln!("nondeterminism: run {idx} had a different event log when repeated");
        unsafe { libc::_exit(2) }
    }
    std::io::stdout().flush().ok();
    unsafe { libc::_exit(0) }
}

fn trim(t: &[u64]) -> Vec<u64> {
    let n = t.len() - t.iter().rev().take_while(|v| **v == 0).count();
    t[..n].to_vec()
}

fn reproduces(exe: &Path, path: &Path, class: &str) -> bool {
    let o = Command::new(exe).arg("replay").arg(path).stderr(Stdio::null()).output();
    match o {
        Ok(o) => {
            o.status.code() == Some(1)
                && String::from_utf8_lossy(&o.stdout).lines().any(|l| l == format!("class: {class}"))
        }
        Err(_) => false,
    }
}
