//! ripsim: deterministic simulation of ripcalc with fault injection.
//!
//!   ripsim check PROPERTY       explore; exit 0, or 1 with a VIOLATION line and a replay file
//!   ripsim replay FILE          run one recorded case again; exit 1 if it fails as recorded
//!   ripsim determinism N        run N cases of every property and print a digest of all event logs
//!   ripsim one PROPERTY INDEX   show one generated case and its event log

mod concurrent;
mod dict;
mod gen;
mod net;
mod oracle;
mod props;
mod rng;
mod shrink;
mod world;

use props::{Case, PROPS};
use rng::{hash_bytes, mix, Rng};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use world::*;

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok()
}

fn paths() -> Paths {
    let p = |k: &str| PathBuf::from(env(k).unwrap_or_else(|| harness_error(&format!("{} is not set; use check.sh", k))));
    Paths { builds: p("RIPSIM_BUILDS"), world: p("RIPSIM_WORLD") }
}

fn case_rng(seed: u64, prop: &str, i: u64) -> Rng {
    Rng::new(mix(mix(seed, hash_bytes(17, prop.as_bytes())), i))
}

/// Cases and seconds for one check.
fn plan(prop: &str, tier: &str) -> (u64, f64) {
    let n = match prop {
        "C06" => 7_000,
        "C16" => 36_000,
        "C14" | "C13" => 150_000,
        _ => 80_000,
    };
    let (mut n, mut s) = (n, 100.0);
    if tier == "thorough" {
        n *= 15;
        s = 780.0;
    }
    if let Some(x) = env("RIPSIM_CASES").and_then(|v| v.parse().ok()) {
        n = x;
    }
    if let Some(x) = env("RIPSIM_SECONDS").and_then(|v| v.parse().ok()) {
        s = x;
    }
    (n, s)
}

fn case_text(c: &Case) -> String {
    let mut t = format!("property {}\nscenario {}\n", c.prop, c.scen);
    for a in &c.cmds {
        t += "command";
        for x in a {
            t += " ";
            t += &enc(x);
        }
        t += "\n";
    }
    for w in &c.worlds {
        let _ = writeln!(t, "world {}", w.to_text());
    }
    if !c.sched.is_empty() {
        let _ = writeln!(t, "schedule {}", c.sched.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
    }
    t
}

fn parse_case(t: &str) -> Option<(Case, String, String)> {
    let mut c = Case { prop: String::new(), scen: String::new(), cmds: vec![], worlds: vec![], sched: vec![] };
    let (mut class, mut digest) = (String::new(), String::new());
    for l in t.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => c.prop = v.into(),
            "scenario" => c.scen = v.into(),
            "class" => class = v.into(),
            "digest" => digest = v.into(),
            "command" => c.cmds.push(v.split(' ').filter(|x| !x.is_empty()).map(dec).collect()),
            "world" => c.worlds.push(World::from_text(v)?),
            "schedule" => c.sched = v.split(',').map(|x| x.parse().ok()).collect::<Option<_>>()?,
            _ => {}
        }
    }
    Some((c, class, digest))
}

/// Runs one case with full logging; the digest covers every event of every execution in it.
fn logged(c: &Case) -> (oracle::Verdict, Vec<String>, String) {
    let mut sim = Sim::new(paths());
    sim.keep_logs = true;
    let v = props::check(&mut sim, c);
    let mut h = 99;
    for l in &sim.logs {
        h = hash_bytes(h, l.as_bytes());
    }
    (v, sim.logs.clone(), format!("{:016x}", h))
}

struct Found {
    index: u64,
    case: Case,
    violation: oracle::Violation,
}

#[derive(Default)]
struct Total {
    stats: Stats,
    cases: u64,
    vacuous: u64,
    disturbed: HashSet<u64>,
    samples: Vec<(u64, String)>,
}

fn disturbed_key(c: &Case) -> u64 {
    hash_bytes(5, case_text(c).as_bytes())
}

fn explore(prop: &str, seed: u64, cases: u64, seconds: f64, workers: usize) -> (Total, Option<Found>, f64) {
    let next = AtomicU64::new(0);
    let stop_from = AtomicU64::new(u64::MAX);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let total: Mutex<Total> = Mutex::new(Total::default());
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| {
                let mut sim = Sim::new(paths());
                let mut t = Total::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases || i >= stop_from.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > seconds {
                        break;
                    }
                    let mut r = case_rng(seed, prop, i);
                    let fired0: u64 = sim.stats.fired.iter().sum();
                    let Some(c) = props::generate(prop, &mut sim, &mut r) else {
                        t.vacuous += 1;
                        continue;
                    };
                    let verdict = props::check(&mut sim, &c);
                    t.cases += 1;
                    let fired: u64 = sim.stats.fired.iter().sum();
                    if fired > fired0 || c.worlds.windows(2).any(|w| w[0] != w[1]) {
                        t.disturbed.insert(disturbed_key(&c));
                    }
                    if i < 3 {
                        t.samples.push((i, case_text(&c)));
                    }
                    if let Err(violation) = verdict {
                        stop_from.fetch_min(i, Ordering::SeqCst);
                        let mut f = found.lock().unwrap();
                        if f.as_ref().is_none_or(|f| i < f.index) {
                            *f = Some(Found { index: i, case: c, violation });
                        }
                    }
                }
                t.stats = sim.stats.clone();
                let mut g = total.lock().unwrap();
                g.cases += t.cases;
                g.vacuous += t.vacuous;
                g.disturbed.extend(t.disturbed);
                g.samples.extend(t.samples);
                g.stats.merge(t.stats);
            });
        }
    });
    let mut t = total.into_inner().unwrap();
    t.samples.sort();
    (t, found.into_inner().unwrap(), t0.elapsed().as_secs_f64())
}

fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r + "\""
}

fn write_evidence(prop: &str, tier: &str, seed: u64, t: &Total, explore_s: f64, wall: f64, workers: usize, violations: u64) {
    let dir = env("RIPSIM_EVIDENCE").unwrap_or_else(|| "evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    let s = &t.stats;
    let mut j = String::from("{\n");
    let _ = writeln!(j, " \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",", prop, tier, seed);
    let _ = writeln!(j, " \"wall_s\": {:.2},\n \"violations\": {},", wall, violations);
    j += " \"coverage\": {\n";
    let _ = writeln!(j, "  \"evaluations\": {},", t.cases);
    let _ = writeln!(j, "  \"distinct_nontrivial\": {},", t.disturbed.len());
    let _ = writeln!(j, "  \"rule\": {},", json_str("A case is one or more command lines together with the simulated machines (and, with several instances, the schedule) they run on, all drawn from VERIF_SEED, the property and the case number. It is counted as distinct and non-trivial when its text differs from every other case's and, in it, at least one fault or disturbance actually fired or the machines compared differ."));
    let _ = writeln!(j, "  \"samples\": [{}],", t.samples.iter().map(|(i, c)| json_str(&format!("case {}\n{}", i, c.chars().take(1500).collect::<String>()))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(j, "  \"simulated_runs\": {},", s.runs);
    let _ = writeln!(j, "  \"runs_per_hour\": {},", (s.runs as f64 / explore_s.max(0.001) * 3600.0) as u64);
    let _ = writeln!(j, "  \"case_seeds_per_hour\": {},", (t.cases as f64 / explore_s.max(0.001) * 3600.0) as u64);
    let _ = writeln!(j, "  \"cases_without_subject\": {},", t.vacuous);
    let _ = writeln!(j, "  \"workers\": {},", workers);
    let _ = writeln!(j, "  \"simulated_seconds\": {:.3},", s.sim_us as f64 / 1e6);
    let _ = writeln!(j, "  \"events\": {},", s.events);
    let _ = writeln!(j, "  \"distinct_executions\": {{\"measure\": \"different event sequences (writes with sizes and results, random draws, terminal queries, allocation failures, kills, simulated time) plus end states\", \"count\": {}}},", s.traces.len());
    let _ = writeln!(j, "  \"bytes_delivered\": {},", s.bytes_out);
    let _ = writeln!(j, "  \"write_calls\": {},\n  \"random_draws\": {},", s.writes, s.random_calls);
    let _ = writeln!(j, "  \"threads_started_by_the_program\": {},", s.threads);
    let faults: Vec<String> = (0..FAULTS.len()).filter(|i| s.fired[*i] > 0).map(|i| format!("{}: {{\"fired\": {}, \"runs\": {}}}", json_str(FAULTS[i]), s.fired[i], s.runs_with[i])).collect();
    let _ = writeln!(j, "  \"faults\": {{{}}},", faults.join(", "));
    let ends: Vec<String> = s.ends.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let _ = writeln!(j, "  \"run_ends\": {{{}}},", ends.join(", "));
    let probes: Vec<String> = s.probes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let _ = writeln!(j, "  \"reached\": {{{}}},", probes.join(", "));
    j += "  \"real_code\": [\"the whole ripcalc executable, built unmodified from /repo's working tree (dev profile with overflow checks, and release profile; for C23 also without one or both optional features)\", \"Rust standard library\", \"glibc (formatting, heap, process start and exit)\"],\n";
    j += "  \"stubs\": [\"standard output and standard error\", \"terminal queries\", \"getrandom\", \"clocks and sleeping\", \"success or failure of each allocation\", \"process and thread ids\", \"the process's death by a crash\", \"the arrival of signals\", \"the order in which threads run\", \"variables and files the program asks for, standard input\", \"whatever would change the world outside: writing files, starting processes, networking, signalling (recorded, not done)\"]\n";
    j += " },\n \"assumptions\": [\"Linux on x86-64 with glibc; the program's only contact with the outside is through the interposed C library functions\", \"sampling: what no drawn case reaches is not covered\"]\n}\n";
    let path = format!("{}/{}.json", dir, prop);
    if std::fs::write(&path, j).is_err() {
        harness_error(&format!("cannot write {}", path));
    }
}

fn run_check(prop: &str) -> i32 {
    if !PROPS.contains(&prop) {
        harness_error(&format!("no such property: {}", prop));
    }
    let t0 = Instant::now();
    let tier = env("VERIF_TIER").unwrap_or_else(|| "quick".into());
    let seed: u64 = env("VERIF_SEED").and_then(|v| v.parse().ok()).unwrap_or(1);
    let workers: usize = env("RIPSIM_WORKERS").and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    println!("ripsim: property {} seed {} tier {}", prop, seed, tier);
    let (cases, seconds) = plan(prop, &tier);
    let (t, found, explore_s) = explore(prop, seed, cases, seconds, workers);
    println!(
        "ripsim: {} cases, {} simulated runs, {} distinct executions in {:.1} s ({} runs/s), {:.0} simulated seconds",
        t.cases, t.stats.runs, t.stats.traces.len(), explore_s, (t.stats.runs as f64 / explore_s) as u64, t.stats.sim_us as f64 / 1e6
    );
    let mut code = 0;
    if let Some(f) = &found {
        println!("ripsim: case {} fails: {}: {}", f.index, f.violation.class, f.violation.detail);
        let mut sim = Sim::new(paths());
        let (small, tried) = shrink::shrink(&mut sim, &f.case, &f.violation.class, Duration::from_secs(env("RIPSIM_SHRINK").and_then(|v| v.parse().ok()).unwrap_or(25)));
        let (v, logs, digest) = logged(&small);
        let Err(v) = v else { harness_error("a failing case passes when it is run again") };
        println!("ripsim: minimised after {} attempts: {}: {}", tried, v.class, v.detail);
        let dir = env("RIPSIM_REPLAYS").unwrap_or_else(|| "replays".into());
        let _ = std::fs::create_dir_all(&dir);
        let text = format!(
            "# ripsim replay file: ./check.sh replay <this file>\n# seed {} case {}\n# {}\n{}class {}\ndigest {}\n{}",
            seed, f.index, v.detail.replace('\n', " "), case_text(&small), v.class, digest,
            logs.iter().flat_map(|l| l.lines()).take(400).map(|l| format!("#| {}\n", l)).collect::<String>()
        );
        let path = format!("{}/{}-{:016x}.replay", dir, prop, hash_bytes(1, case_text(&small).as_bytes()));
        if std::fs::write(&path, text).is_err() {
            harness_error(&format!("cannot write {}", path));
        }
        // the file has to reproduce it, in a fresh process
        let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output();
        match again {
            Ok(o) if o.status.code() == Some(1) => {}
            Ok(o) => harness_error(&format!("the replay file does not reproduce the violation: {}", String::from_utf8_lossy(&o.stdout))),
            Err(e) => harness_error(&format!("cannot replay: {}", e)),
        }
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    } else {
        if t.cases == 0 {
            harness_error("no case was run");
        }
        println!("ripsim: {} held on everything explored", prop);
    }
    write_evidence(prop, &tier, seed, &t, explore_s, t0.elapsed().as_secs_f64(), workers, u64::from(found.is_some()));
    code
}

fn run_replay(path: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else { harness_error(&format!("cannot read {}", path)) };
    let Some((c, class, digest)) = parse_case(&t) else { harness_error("not a replay file") };
    let (v, logs, d) = logged(&c);
    if env("RIPSIM_VERBOSE").is_some() {
        for l in &logs {
            print!("{}", l);
        }
    }
    match v {
        Ok(()) => {
            println!("ripsim: the recorded case passes");
            0
        }
        Err(v) => {
            println!("ripsim: {}: {}", v.class, v.detail);
            println!("ripsim: event logs {} {}", d, if d == digest { "exactly as recorded" } else { "differ from the recording" });
            println!("VIOLATION property={} replay={}", c.prop, path);
            if v.class == class && d == digest { 1 } else { 2 }
        }
    }
}

/// Event logs of N cases of every property, as one digest per case, in order.
fn run_determinism(n: u64) -> i32 {
    let seed: u64 = env("VERIF_SEED").and_then(|v| v.parse().ok()).unwrap_or(1);
    let workers: usize = env("RIPSIM_WORKERS").and_then(|v| v.parse().ok()).unwrap_or(8);
    let jobs: Vec<(&str, u64)> = PROPS.iter().flat_map(|p| (0..n).map(move |i| (*p, i))).collect();
    let next = AtomicU64::new(0);
    let out: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| {
                let mut sim = Sim::new(paths());
                sim.keep_logs = true;
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst) as usize;
                    let Some((p, i)) = jobs.get(k) else { break };
                    let mut r = case_rng(seed, p, *i);
                    sim.logs.clear();
                    let line = match props::generate(p, &mut sim, &mut r) {
                        None => format!("{} {} -", p, i),
                        Some(c) => {
                            let v = props::check(&mut sim, &c);
                            let mut h = hash_bytes(1, case_text(&c).as_bytes());
                            for l in &sim.logs {
                                h = hash_bytes(h, l.as_bytes());
                            }
                            format!("{} {} {:016x} {}", p, i, h, v.err().map_or("ok".into(), |v| v.class))
                        }
                    };
                    out.lock().unwrap().push((k, line));
                }
            });
        }
    });
    let mut o = out.into_inner().unwrap();
    o.sort();
    for (_, l) in o {
        println!("{}", l);
    }
    0
}

/// Every answer is damaged a little (a byte, a line, the status) with some probability: does the
/// oracle notice, and does it survive whatever it is given?
fn run_selftest(n: u64) -> i32 {
    for p in PROPS {
        let mut sim = Sim::new(paths());
        let (mut cases, mut seen) = (0u64, 0u64);
        let mut missed: std::collections::BTreeMap<String, u64> = Default::default();
        for i in 0..n {
            let mut r = case_rng(77, p, i);
            sim.damage = None;
            let Some(c) = props::generate(p, &mut sim, &mut r) else { continue };
            sim.damage = Some(r);
            sim.damaged = 0;
            let v = props::check(&mut sim, &c);
            if sim.damaged > 0 {
                cases += 1;
                seen += u64::from(v.is_err());
                if v.as_ref().is_err_and(|v| v.class == "judge.confused") {
                    println!("{} {}: {:?}", p, i, v);
                }
                if v.is_ok() {
                    *missed.entry(c.scen.clone()).or_default() += 1;
                }
            }
        }
        println!("{}: {} damaged, {} noticed; missed {:?}", p, cases, seen, missed);
    }
    0
}

fn run_one(prop: &str, i: u64) -> i32 {
    let seed: u64 = env("VERIF_SEED").and_then(|v| v.parse().ok()).unwrap_or(1);
    let mut sim = Sim::new(paths());
    let mut r = case_rng(seed, prop, i);
    match props::generate(prop, &mut sim, &mut r) {
        None => println!("no case"),
        Some(c) => {
            print!("{}", case_text(&c));
            let (v, logs, d) = logged(&c);
            for l in logs {
                print!("{}", l);
            }
            println!("{:?} digest {}", v, d);
        }
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let code = match arg(1) {
        "check" => run_check(arg(2)),
        // nothing could be run, as a build the property is about could not be made
        "unbuildable" => {
            let seed: u64 = env("VERIF_SEED").and_then(|v| v.parse().ok()).unwrap_or(1);
            write_evidence(arg(2), &env("VERIF_TIER").unwrap_or_else(|| "quick".into()), seed, &Total::default(), 0.0, 0.0, 0, 1);
            1
        }
        "replay" => run_replay(arg(2)),
        "determinism" => run_determinism(arg(2).parse().unwrap_or(50)),
        "selftest" => run_selftest(arg(2).parse().unwrap_or(300)),
        "one" => run_one(arg(2), arg(3).parse().unwrap_or(0)),
        _ => harness_error("usage: ripsim check PROPERTY | replay FILE | determinism N | one PROPERTY INDEX"),
    };
    std::process::exit(code);
}
