mod alloc;
mod api;
mod case;
mod cel;
mod cert;
mod gen;
mod node;
mod props;
mod refv;
mod world;
mod rng;
mod spec;

use case::{Case, Stats, Violation};
use rng::{mix, Rng};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub struct Workload {
    pub name: &'static str,
    pub f: fn(&mut Case),
    /// number of cases in the quick and in the thorough tier
    pub quick: u64,
    pub thorough: u64,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must be non-zero at the end, otherwise the run observed too little
    pub must_observe: &'static [&'static str],
    pub workloads: &'static [Workload],
}

/// a message on one line, without control characters
fn printable(s: &str) -> String {
    s.chars().map(|c| if c.is_control() { c.escape_default().to_string() } else { c.to_string() }).collect()
}

fn name_hash(s: &str) -> u64 {
    rng::hash_bytes(s.as_bytes())
}
fn case_rng(seed: u64, prop: &str, wl: &str, idx: u64) -> Rng {
    Rng::new(mix(&[seed, name_hash(prop), name_hash(wl), idx]))
}
fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn cpu_ns() -> u64 {
    // process CPU time, so that a loaded machine cannot make a case look like a hang
    let s = std::fs::read_to_string("/proc/self/schedstat").unwrap_or_default();
    s.split_whitespace().next().and_then(|x| x.parse().ok()).unwrap_or(0)
}

fn run_case(p: &Property, w: &Workload, seed: u64, idx: u64, thorough: bool, stats: &mut Stats, distinct: &mut HashSet<u64>) {
    let rng = case_rng(seed, p.id, w.name, idx);
    stats.cases += 1;
    let r = {
        let mut c = Case::new(rng, idx, w.name, thorough, stats, distinct);
        case::quiet_catch(|| (w.f)(&mut c))
    };
    if let Err(pi) = r {
        let (key, what) = if pi.in_harness() {
            (format!("step:{}", w.name), "a step that has to succeed did not")
        } else {
            (format!("panic:{}", w.name), "the code under test panicked")
        };
        if stats.violations.iter().filter(|v| v.key == key).count() < 25 {
            stats.violations.push(Violation { key, msg: format!("{what}: {}", pi.text), workload: w.name.to_string(), idx });
        }
    }
}

/// worker <ID> <tier> <seed> <w> <n> <start_wl> <start_idx> <dir>
fn worker(args: &[String]) -> i32 {
    let p = props::find(&args[0]).expect("property");
    let thorough = args[1] == "thorough";
    let seed: u64 = args[2].parse().unwrap();
    let wi: u64 = args[3].parse().unwrap();
    let n: u64 = args[4].parse().unwrap();
    let swl: usize = args[5].parse().unwrap();
    let sidx: u64 = args[6].parse().unwrap();
    let dir = Path::new(&args[7]);
    let tag = format!("{wi}-{swl}-{sidx}");
    case::install_hook();
    let journal = std::fs::OpenOptions::new()
        .create(true).write(true).truncate(false)
        .open(dir.join(format!("journal-{wi}"))).unwrap();
    let budget = Duration::from_secs(std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3000 } else { 420 }));
    let t0 = Instant::now();
    watchdog();
    // for experiments: all workers end once one has a violation that is not a known one
    let first = std::env::var_os("VERIF_FIRST").map(|_| (dir.join("first"), known_findings(p.id)));
    let mut stats = Stats::default();
    let mut distinct = HashSet::new();
    let child = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let mut capped = false;
        let total: usize = p.workloads.len();
        'outer: for (k, w) in p.workloads.iter().enumerate().skip(swl) {
            let cnt = if thorough { w.thorough } else { w.quick };
            let start = if k == swl { sidx } else { 0 };
            let mut idx = start + ((wi + n - start % n) % n);
            while idx < cnt {
                let mut j = [0u8; 16];
                j[..8].copy_from_slice(&(k as u64).to_le_bytes());
                j[8..].copy_from_slice(&idx.to_le_bytes());
                journal.write_all_at(&j, 0).unwrap();
                PROGRESS.fetch_add(1, Ordering::Relaxed);
                run_case(p, w, seed, idx, thorough, &mut stats, &mut distinct);
                idx += n;
                if let Some((mark, known)) = &first {
                    if stats.violations.iter().any(|v| !known.iter().any(|k| k.0 == v.key)) {
                        let _ = std::fs::write(mark, "");
                    }
                    if mark.exists() {
                        break 'outer;
                    }
                }
                // the time budget is shared out over the workloads
                if t0.elapsed() > budget.mul_f64((k + 1 - swl) as f64 / (total - swl) as f64) {
                    capped = true;
                    if k + 1 == total {
                        break 'outer;
                    }
                    break;
                }
            }
        }
        if capped {
            *stats.counters.entry("time_budget_capped_workers".into()).or_insert(0) += 1;
        }
        (stats, distinct)
    }).unwrap();
    let (stats, distinct) = child.join().unwrap();
    let mut f = std::fs::File::create(dir.join(format!("distinct-{tag}"))).unwrap();
    let mut buf = Vec::with_capacity(distinct.len() * 8);
    for d in &distinct {
        buf.extend_from_slice(&d.to_le_bytes());
    }
    f.write_all(&buf).unwrap();
    std::fs::write(dir.join(format!("stats-{tag}.json")), serde_json::to_vec(&stats).unwrap()).unwrap();
    0
}

/// CPU time one case may use, and how long (in half seconds) it may do nothing at all.
const CASE_CPU_S: u64 = 60;
const CASE_IDLE_TICKS: u32 = 300;
const HUNG: i32 = 97;

/// Ends the process when one case uses too much CPU time, so that a loaded machine cannot
/// make a case look like a hang, or when it uses none for long: a deadlock.
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0u64);
        let (mut idle, mut prev) = (0u32, 0u64);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::Relaxed);
            let c = cpu_all_ns();
            if p != last.0 {
                last = (p, c);
                idle = 0;
            } else if c.saturating_sub(last.1) > CASE_CPU_S * 1_000_000_000 {
                eprintln!("the case used more than {CASE_CPU_S} s of CPU time");
                std::process::exit(HUNG);
            }
            // the watchdog itself uses some tens of microseconds per tick
            if c.saturating_sub(prev) > 5_000_000 {
                idle = 0;
            } else {
                idle += 1;
            }
            prev = c;
            if idle > CASE_IDLE_TICKS {
                eprintln!("the case did nothing for {} s", CASE_IDLE_TICKS / 2);
                std::process::exit(HUNG);
            }
        }
    });
}

/// Runs one case alone; the outcome that confirms a death of a worker, if it is one.
fn confirm(exe: &Path, a: &[&str], stop: &AtomicBool) -> Option<Outcome> {
    use std::os::unix::process::ExitStatusExt;
    let mut child = Command::new(exe).arg("one").args(a)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let start = Instant::now();
    loop {
        match child.try_wait().unwrap() {
            Some(s) => {
                return Some(match (s.signal(), s.code()) {
                    (Some(6) | Some(11) | Some(7) | Some(4), _) => Outcome::Abort,
                    (_, Some(HUNG)) => Outcome::Hang,
                    (_, Some(1)) => Outcome::Violation,
                    _ => Outcome::Other(format!("{s:?}")),
                })
            }
            None if stop.load(Ordering::Relaxed) || start.elapsed() > Duration::from_secs(330) => {
                let _ = child.kill();
                let _ = child.wait();
                return if stop.load(Ordering::Relaxed) { None } else { Some(Outcome::Other("no end in 330 s".into())) };
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}
enum Outcome {
    Abort,
    Hang,
    Violation,
    Other(String),
}

fn cpu_all_ns() -> u64 {
    let mut t = 0;
    if let Ok(rd) = std::fs::read_dir("/proc/self/task") {
        for e in rd.flatten() {
            let s = std::fs::read_to_string(e.path().join("schedstat")).unwrap_or_default();
            t += s.split_whitespace().next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        }
    }
    if t == 0 {
        t = cpu_ns();
    }
    t
}

/// one <ID> <tier> <seed> <workload> <idx>: runs a single case, prints its violations
fn one(args: &[String]) -> i32 {
    let p = props::find(&args[0]).expect("property");
    let thorough = args[1] == "thorough";
    let seed: u64 = args[2].parse().unwrap();
    let w = p.workloads.iter().find(|w| w.name == args[3]).expect("workload");
    let idx: u64 = args[4].parse().unwrap();
    case::install_hook();
    watchdog();
    let (stats, _) = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let mut stats = Stats::default();
        let mut distinct = HashSet::new();
        run_case(p, w, seed, idx, thorough, &mut stats, &mut distinct);
        (stats, distinct)
    }).unwrap().join().unwrap();
    for v in &stats.violations {
        println!("VIOLATION-DETAIL key={} {}", v.key, printable(&v.msg));
    }
    for e in &stats.harness_errors {
        println!("HARNESS-ERROR {e}");
    }
    println!("{}", serde_json::to_string(&stats.counters).unwrap());
    if !stats.harness_errors.is_empty() {
        2
    } else if stats.violations.is_empty() {
        0
    } else {
        1
    }
}

/// (key, what) of the findings recorded for a property
fn known_findings(id: &str) -> Vec<(String, String)> {
    std::fs::read_to_string(verif_dir().join("known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok())
        .and_then(|v| v.get("findings").and_then(|f| f.as_array()).cloned())
        .unwrap_or_default()
        .iter()
        .filter(|f| f["status"] == "known" && f["property"] == id)
        .map(|f| (f["key"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string()))
        .collect()
}

fn check(args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let id = &args[0];
    let p = props::find(id).expect("unknown property");
    let tier = args.get(1).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed = env_seed();
    let t0 = Instant::now();
    let vdir = verif_dir();
    let dir = std::env::temp_dir().join(format!("mon-{}-{}-{}", id, std::process::id(), seed));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let n: u64 = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut violations: Vec<Violation> = vec![];
    let mut harness_errors: Vec<String> = vec![];
    let mut aborts = 0u64;
    // set as soon as one death is confirmed: the others need not go on
    let stop = Arc::new(AtomicBool::new(false));
    let handles: Vec<_> = (0..n).map(|wi| {
        let (exe, dir, id, tier, stop) = (exe.clone(), dir.clone(), id.clone(), tier.to_string(), stop.clone());
        std::thread::spawn(move || {
            let mut found: Vec<Violation> = vec![];
            let mut errors: Vec<String> = vec![];
            let mut deaths = 0u64;
            let (mut swl, mut sidx) = (0usize, 0u64);
            while !stop.load(Ordering::Relaxed) {
                let errfile = dir.join(format!("stderr-{wi}"));
                let mut child = Command::new(&exe).arg("worker")
                    .args([id.as_str(), &tier, &seed.to_string(), &wi.to_string(), &n.to_string(), &swl.to_string(), &sidx.to_string()])
                    .arg(&dir)
                    .stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(&errfile).unwrap())
                    .spawn().unwrap();
                let status = loop {
                    if let Some(s) = child.try_wait().unwrap() {
                        break Some(s);
                    }
                    if stop.load(Ordering::Relaxed) {
                        let _ = child.kill();
                        let _ = child.wait();
                        break None;
                    }
                    std::thread::sleep(Duration::from_millis(10));
                };
                let Some(status) = status else { break };
                if status.success() {
                    break;
                }
                let err = String::from_utf8_lossy(&std::fs::read(&errfile).unwrap_or_default()).to_string();
                let tail: String = err.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
                let how = match (status.signal(), status.code()) {
                    (Some(s), _) => format!("signal {s}: {}", tail.trim()),
                    (_, Some(c)) => format!("exit {c}: {}", tail.trim()),
                    _ => "?".into(),
                };
                let j = std::fs::read(dir.join(format!("journal-{wi}"))).unwrap_or_default();
                if j.len() < 16 {
                    errors.push(format!("worker {wi} died early: {how}"));
                    break;
                }
                let k = u64::from_le_bytes(j[..8].try_into().unwrap()) as usize;
                let i = u64::from_le_bytes(j[8..16].try_into().unwrap());
                let w = &props::find(&id).unwrap().workloads[k];
                deaths += 1;
                // confirm the death in isolation before believing it
                let (key, msg) = match confirm(&exe, &[id.as_str(), &tier, &seed.to_string(), w.name, &i.to_string()], &stop) {
                    None => break,
                    Some(Outcome::Abort) => ("abort", format!("the process was aborted while running this case, and again when it ran alone ({how})")),
                    Some(Outcome::Hang) => ("hang", format!("the case did not end, and again when it ran alone ({how})")),
                    Some(Outcome::Violation) => ("dies", format!("a violation when the case ran alone; the process had ended while running it among others ({how})")),
                    Some(Outcome::Other(o)) => {
                        errors.push(format!("worker death on {} #{} not reproduced ({how}; alone: {o})", w.name, i));
                        if deaths >= 3 {
                            break;
                        }
                        swl = k;
                        sidx = i + 1;
                        continue;
                    }
                };
                found.push(Violation { key: format!("{key}:{}", w.name), msg, workload: w.name.into(), idx: i });
                stop.store(true, Ordering::Relaxed);
            }
            (found, errors, deaths)
        })
    }).collect();
    for h in handles {
        let (f, e, d) = h.join().unwrap();
        violations.extend(f);
        harness_errors.extend(e);
        aborts += d;
    }
    // collect
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let (mut evaluations, mut cases) = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        let name = e.file_name().to_string_lossy().to_string();
        if name.starts_with("stats-") {
            let s: Stats = serde_json::from_slice(&std::fs::read(e.path()).unwrap()).unwrap();
            evaluations += s.evaluations;
            cases += s.cases;
            for (k, v) in s.counters {
                *counters.entry(k).or_insert(0) += v;
            }
            samples.extend(s.samples);
            violations.extend(s.violations);
            harness_errors.extend(s.harness_errors);
        } else if name.starts_with("distinct-") {
            for c in std::fs::read(e.path()).unwrap().chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // a failed step of a workload counts when it fails again alone: the machine was not the reason
    let (steps, rest): (Vec<Violation>, Vec<Violation>) = violations.into_iter().partition(|v| v.key.starts_with("step:"));
    violations = rest;
    let never = AtomicBool::new(false);
    for v in steps.into_iter().take(3) {
        match confirm(&exe, &[id.as_str(), tier, &seed.to_string(), &v.workload, &v.idx.to_string()], &never) {
            Some(Outcome::Violation | Outcome::Abort | Outcome::Hang) => violations.push(v),
            _ => harness_errors.push(format!("{} #{}, not again when alone: {}", v.workload, v.idx, v.msg)),
        }
    }
    samples.sort();
    samples.dedup();
    // one sample per workload first
    let mut chosen: Vec<String> = vec![];
    for w in p.workloads {
        if let Some(s) = samples.iter().find(|s| s.starts_with(&format!("[{} #", w.name))) {
            chosen.push(s.clone());
        }
    }
    let known = known_findings(id);
    let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
    let mut fresh: Vec<Violation> = vec![];
    for v in violations {
        if known.iter().any(|(k, _)| *k == v.key) {
            *seen_known.entry(v.key.clone()).or_insert(0) += 1;
        } else {
            fresh.push(v);
        }
    }
    fresh.sort_by(|a, b| (&a.key, a.idx).cmp(&(&b.key, b.idx)));
    for (k, what) in &known {
        println!("KNOWN-FINDING: property={id} {what} [{k}; seen {} times in this run]", seen_known.get(k).copied().unwrap_or(0));
    }
    let wall = t0.elapsed().as_secs_f64();
    let missing: Vec<&str> = p.must_observe.iter().copied().filter(|c| counters.get(*c).copied().unwrap_or(0) == 0).collect();
    // what the workloads make the code do is the same on every run: if none of it is seen although
    // every case ran, the code no longer does it
    if !missing.is_empty() && harness_errors.is_empty() && !counters.contains_key("time_budget_capped_workers") && aborts == 0 {
        for m in &missing {
            fresh.push(Violation { key: format!("unobserved:{m}"), msg: format!("{cases} cases ran and {m} was never observed"), workload: String::new(), idx: 0 });
        }
    }
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "samples": chosen,
            "cases": cases,
            "observed": counters,
            "worker_aborts": aborts,
            "known_findings_seen": seen_known,
            "workloads": p.workloads.iter().map(|w| json!({"name": w.name, "cases": if tier == "thorough" { w.thorough } else { w.quick }})).collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": fresh.len(),
    });
    let _ = std::fs::create_dir_all(vdir.join("evidence"));
    std::fs::write(vdir.join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "property={id} tier={tier} seed={seed} cases={cases} evaluations={evaluations} distinct_nontrivial={} wall_s={wall:.1}",
        distinct.len()
    );
    for (k, v) in &counters {
        println!("  observed {k} = {v}");
    }
    if !fresh.is_empty() {
        let rdir = vdir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let mut keys: HashSet<String> = HashSet::new();
        for v in &fresh {
            if !keys.insert(v.key.clone()) || keys.len() > 5 {
                continue;
            }
            let safe: String = v.key.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(60).collect();
            let path = rdir.join(format!("{id}-{safe}.json"));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({
                "property": id, "tier": tier, "seed": seed, "workload": v.workload, "idx": v.idx, "key": v.key, "what": v.msg,
                "replay": format!("cd /verif && ./run.sh replay {}", path.display()),
            })).unwrap());
            println!("  {}: {}", v.key, printable(&v.msg));
            println!("VIOLATION property={id} replay={}", path.display());
        }
        return 1;
    }
    if !harness_errors.is_empty() {
        for e in harness_errors.iter().take(10) {
            println!("HARNESS-ERROR {e}");
        }
        return 2;
    }
    if !missing.is_empty() || evaluations == 0 {
        println!("INCONCLUSIVE: nothing was observed of {missing:?}");
        return 3;
    }
    0
}

fn replay(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).unwrap();
    if v["workload"] == "" {
        // about the whole run
        std::env::set_var("VERIF_SEED", v["seed"].to_string());
        return check(&[v["property"].as_str().unwrap().to_string(), v["tier"].as_str().unwrap().to_string()]);
    }
    one(&[
        v["property"].as_str().unwrap().to_string(),
        v["tier"].as_str().unwrap().to_string(),
        v["seed"].to_string(),
        v["workload"].as_str().unwrap().to_string(),
        v["idx"].to_string(),
    ])
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("worker") => worker(&args[1..]),
        Some("one") => one(&args[1..]),
        Some("check") => check(&args[1..]),
        Some("replay") => replay(&args[1]),
        Some("list") => {
            for p in props::ALL {
                println!("{} {}", p.id, p.workloads.iter().map(|w| w.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: monitor check <ID> [quick|thorough] | replay <file> | one <ID> <tier> <seed> <workload> <idx> | list");
            64
        }
    };
    std::process::exit(code);
}
