//! Runs seeds, minimises failures, writes replay and evidence files.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::json;

use crate::chooser::{hash, hash_bytes, Chooser};
use crate::props::{self, Prop};
use crate::scenario::run_scenario;
use crate::stats::{Replay, RunOut, Violation};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = text);
    }));
}

pub fn root() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

/// One run. A panic of the harness itself is an `Err`.
pub fn one(scenario: &str, ch: Chooser, trace: bool) -> Result<RunOut, String> {
    let c = ch.clone();
    catch_unwind(AssertUnwindSafe(|| run_scenario(scenario, ch, trace)))
        .map(|mut o| {
            o.choices = c.recorded();
            o
        })
        .map_err(|_| last_panic())
}

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    hash(&[base, hash_bytes(prop.as_bytes()), i])
}

struct Totals {
    runs: u64,
    counts: BTreeMap<String, u64>,
    situations: BTreeSet<u64>,
    fingerprints: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    steps: u64,
    sim_us: u64,
    choices: u64,
    scenarios: BTreeMap<String, u64>,
    failures: BTreeMap<u64, (String, Violation)>,
    errors: Vec<(u64, String, String)>,
    first: Option<u64>,
    /// Violations of other properties seen on the way.
    others: BTreeMap<String, (u64, u64, String)>,
}

fn hits<'a>(out: &'a RunOut, prop: &str) -> Option<&'a Violation> {
    out.violations.iter().find(|v| v.props.contains(&prop))
}

pub struct Job {
    pub prop: &'static Prop,
    pub tier: String,
    pub base: u64,
    pub runs: u64,
    pub cap: Duration,
    pub from: u64,
    pub keep_going: bool,
}

pub fn explore(job: &Job) -> i32 {
    let start = Instant::now();
    let prop = job.prop;
    let next = AtomicU64::new(job.from);
    let end = job.from + job.runs;
    let stop_at = AtomicU64::new(u64::MAX);
    let t = Mutex::new(Totals {
        runs: 0,
        counts: BTreeMap::new(),
        situations: BTreeSet::new(),
        fingerprints: BTreeSet::new(),
        nontrivial: BTreeSet::new(),
        steps: 0,
        sim_us: 0,
        choices: 0,
        scenarios: BTreeMap::new(),
        failures: BTreeMap::new(),
        errors: Vec::new(),
        first: None,
        others: BTreeMap::new(),
    });
    let threads = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    // What every worker is at, for the watchdog.
    let at: Vec<Mutex<Option<(u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let finished = AtomicU64::new(0);
    std::thread::scope(|s| {
        for slot in at.iter() {
            let (next, stop_at, t, finished) = (&next, &stop_at, &t, &finished);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= end || i > stop_at.load(Ordering::SeqCst) || start.elapsed() > job.cap {
                            break;
                        }
                        let scenario = prop.scenario(i);
                        let seed = seed_of(job.base, prop.id, i);
                        *slot.lock().unwrap() = Some((i, Instant::now()));
                        let out = one(&scenario, Chooser::new(seed), false);
                        *slot.lock().unwrap() = None;
                        let mut t = t.lock().unwrap();
                        match out {
                            Err(e) => {
                                stop_at.fetch_min(i, Ordering::SeqCst);
                                t.errors.push((i, scenario, e));
                            }
                            Ok(out) => {
                                t.runs += 1;
                                for (k, v) in &out.stats.counts {
                                    *t.counts.entry(k.clone()).or_default() += v;
                                }
                                t.situations.extend(out.stats.situations.iter());
                                t.fingerprints.insert(out.stats.fingerprint);
                                if prop.nontrivial(&out.stats) {
                                    t.nontrivial.insert(out.stats.fingerprint);
                                    if t.first.is_none_or(|f| i < f) {
                                        t.first = Some(i);
                                    }
                                }
                                t.steps += out.stats.steps;
                                t.sim_us += out.stats.sim_us;
                                t.choices += out.choices.len() as u64;
                                *t.scenarios.entry(scenario.clone()).or_default() += 1;
                                for v in &out.violations {
                                    let e = t
                                        .others
                                        .entry(format!("{:?} {}", v.props, v.kind))
                                        .or_insert((0, u64::MAX, String::new()));
                                    e.0 += 1;
                                    if out.stats.steps < e.1 {
                                        e.1 = out.stats.steps;
                                        e.2 = format!("{scenario} {}: {}", seed_of(job.base, prop.id, i), v.detail);
                                    }
                                }
                                if let Some(v) = hits(&out, prop.id) {
                                    t.failures.insert(i, (scenario, v.clone()));
                                    if !job.keep_going {
                                        stop_at.fetch_min(i, Ordering::SeqCst);
                                    }
                                }
                            }
                        }
                    }
                    finished.fetch_add(1, Ordering::SeqCst);
                })
                .expect("thread");
        }
        // A run that does not come back is itself a finding. (Looks are counted along with the
        // time, so that it does not matter if the whole process is suspended for a while.)
        let mut looks: Vec<(u64, u32)> = vec![(u64::MAX, 0); threads];
        while finished.load(Ordering::SeqCst) < threads as u64 {
            std::thread::sleep(Duration::from_millis(50));
            for (slot, look) in at.iter().zip(&mut looks) {
                let s = *slot.lock().unwrap();
                if let Some((i, since)) = s {
                    *look = (i, if look.0 == i { look.1 + 1 } else { 0 });
                    if since.elapsed() > Duration::from_secs(60) && look.1 > 600 {
                        let scenario = prop.scenario(i);
                        let v = Violation {
                            props: vec![prop.id],
                            kind: "hang".into(),
                            detail: "an operation of the library does not return".into(),
                        };
                        if prop.hang_counts {
                            report(job, &scenario, seed_of(job.base, prop.id, i), Vec::new(), &v, Vec::new(), 0);
                            std::process::exit(1);
                        }
                        println!("ERROR: run {i} ({scenario}) does not come back");
                        std::process::exit(2);
                    }
                }
            }
        }
    });
    let t = t.into_inner().unwrap();
    let explore_s = start.elapsed().as_secs_f64();
    let mut code = 0;
    let mut viol_count = 0;
    if let Some((i, sc, e)) = t.errors.iter().min() {
        println!(
            "ERROR: the harness failed in run {i} ({sc}, seed {}): {e}",
            seed_of(job.base, prop.id, *i)
        );
        code = 2;
    }
    if let Some((i, (scenario, v))) = t.failures.iter().next() {
        viol_count = t.failures.len();
        let seed = seed_of(job.base, prop.id, *i);
        println!("run {i} ({scenario}, seed {seed}): {}: {}", v.kind, v.detail);
        if job.keep_going {
            for (k, n) in &t.others {
                println!("  {:6} {k}\n             {}", n.0, n.2);
            }
        }
        let choices = one(scenario, Chooser::new(seed), false).map(|o| o.choices).unwrap_or_default();
        let minimise_secs = std::env::var("DST_MINIMISE_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(25);
        let (choices, v) = minimise(scenario, seed, choices, prop.id, &v.kind, Duration::from_secs(minimise_secs));
        let out = one(scenario, Chooser::replay(seed, choices.clone()), true).unwrap_or_default();
        report(job, scenario, seed, choices, &v, out.trace, out.stats.fingerprint);
        code = 1;
    } else if job.keep_going {
        for (k, n) in &t.others {
            println!("  {:6} {k}\n             {}", n.0, n.2);
        }
    }
    // The same seed gives the same run.
    if code == 0 {
        for k in 0..3u64 {
            let i = job.from + k * (job.runs / 3).max(1);
            let sc = prop.scenario(i);
            let seed = seed_of(job.base, prop.id, i);
            let a = one(&sc, Chooser::new(seed), true);
            let b = a
                .as_ref()
                .ok()
                .map(|a| one(&sc, Chooser::replay(seed, a.choices.clone()), true));
            match (a, b) {
                (Ok(a), Some(Ok(b))) if a.trace == b.trace && a.stats.fingerprint == b.stats.fingerprint => {}
                (a, b) => {
                    let d = match (&a, &b) {
                        (Ok(a), Some(Ok(b))) => a
                            .trace
                            .iter()
                            .zip(&b.trace)
                            .find(|(x, y)| x != y)
                            .map(|(x, y)| format!("{x} / {y}"))
                            .unwrap_or_default(),
                        _ => "no result".into(),
                    };
                    println!("ERROR: run {i} ({sc}) is not repeatable: {d}");
                    code = 2;
                }
            }
        }
    }
    let done = t.runs == job.runs || code != 0;
    if !done {
        println!("note: {} of {} runs before the time ran out", t.runs, job.runs);
    }
    // Evidence
    let faults: BTreeMap<&String, &u64> = t
        .counts
        .iter()
        .filter(|(k, _)| k.starts_with("fault_") || k.starts_with("byz_"))
        .collect();
    let rest: BTreeMap<&String, &u64> = t
        .counts
        .iter()
        .filter(|(k, _)| !(k.starts_with("fault_") || k.starts_with("byz_")))
        .collect();
    let sample = t
        .first
        .map(|i| {
            let sc = prop.scenario(i);
            let seed = seed_of(job.base, prop.id, i);
            let out = one(&sc, Chooser::new(seed), true).unwrap_or_default();
            let mut tr = out.trace;
            tr.truncate(60);
            json!({"run": i, "scenario": sc, "seed": seed, "label": out.label, "trace_head": tr})
        })
        .into_iter()
        .collect::<Vec<_>>();
    let wall = start.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop.id,
        "tier": job.tier,
        "seed": job.base,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": format!("One evaluation is one simulated run: a protocol, topology, fault mix and schedule drawn from the seed. Distinct means a distinct hash of the whole interleaving (order of sends, deliveries with outcome, processing, finalizations). Non-trivial: {}.", prop.rule),
            "samples": sample,
            "exhaustive": false,
            "runs_per_hour": (t.runs as f64 / explore_s.max(0.001) * 3600.0) as u64,
            "seeds": {"base": job.base, "first_index": job.from, "count": t.runs},
            "distinct_interleavings": t.fingerprints.len(),
            "distinct_situations": t.situations.len(),
            "situations_measure": "hash of (relation of the message's round to the receiver's, echo or not, parts of the round, provenance and tampering of the message, answer of the session, sender excluded or already heard)",
            "scheduler_steps": t.steps,
            "choices": t.choices,
            "simulated_time_s": t.sim_us as f64 / 1e6,
            "faults_injected": faults,
            "counters": rest,
            "scenarios": t.scenarios,
            "violations_of_other_properties_seen": t.others.len(),
            "real_code": prop.real,
            "stubs": prop.stubs,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": viol_count,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Ok(mut f) = std::fs::File::create(dir.join(format!("{}.json", prop.id))) {
        let _ = f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes());
    }
    println!(
        "{}: {} runs, {} distinct non-trivial interleavings, {} situations, {} steps, {:.1} s",
        prop.id,
        t.runs,
        t.nontrivial.len(),
        t.situations.len(),
        t.steps,
        wall
    );
    if code == 0 && t.nontrivial.is_empty() {
        println!("ERROR: nothing was exercised");
        code = 2;
    }
    code
}

fn report(
    job: &Job,
    scenario: &str,
    seed: u64,
    choices: Vec<u32>,
    v: &Violation,
    trace: Vec<String>,
    fingerprint: u64,
) {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", job.prop.id, seed));
    let faults: Vec<&String> = trace.iter().take(8).collect();
    let _ = faults;
    let r = Replay {
        property: job.prop.id.into(),
        scenario: scenario.into(),
        seed,
        choices,
        kind: v.kind.clone(),
        detail: v.detail.clone(),
        fingerprint,
        trace,
    };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
    println!("violation: {}: {}", v.kind, v.detail);
    println!("minimised to {} non-default choices of {}", r.choices.iter().filter(|c| **c != 0).count(), r.choices.len());
    println!("replay with: ./check.sh replay {}", path.display());
    println!("VIOLATION property={} replay={}", job.prop.id, path.display());
    let _ = std::io::stdout().flush();
}

/// Shrinks the sequence of choices as long as the same violation remains.
pub fn minimise(
    scenario: &str,
    seed: u64,
    choices: Vec<u32>,
    prop: &str,
    kind: &str,
    budget: Duration,
) -> (Vec<u32>, Violation) {
    let end = Instant::now() + budget;
    let test = |c: &[u32]| -> Option<(Vec<u32>, Violation)> {
        let out = one(scenario, Chooser::replay(seed, c.to_vec()), false).ok()?;
        let v = out.violations.iter().find(|v| v.props.contains(&prop) && v.kind == kind)?.clone();
        Some((out.choices, v))
    };
    let trim = |mut c: Vec<u32>| {
        while c.last() == Some(&0) {
            c.pop();
        }
        c
    };
    let Some((mut cur, mut best)) = test(&choices) else {
        return (
            choices,
            Violation {
                props: vec![],
                kind: kind.into(),
                detail: "could not be repeated from the recorded choices".into(),
            },
        );
    };
    cur = trim(cur);
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        // Cut off the end, remove blocks, set blocks to zero
        let mut size = cur.len().max(1);
        while size > 0 && Instant::now() < end {
            let mut i = 0;
            while i < cur.len() && Instant::now() < end {
                let j = (i + size).min(cur.len());
                let mut cand = cur.clone();
                cand.drain(i..j);
                let mut accepted = false;
                if let Some((c, v)) = test(&cand) {
                    let c = trim(c);
                    if (c.len(), &c) < (cur.len(), &cur) {
                        cur = c;
                        best = v;
                        accepted = true;
                        progress = true;
                    }
                }
                if !accepted && cur[i..j.min(cur.len())].iter().any(|x| *x != 0) {
                    let mut cand = cur.clone();
                    cand[i..j].fill(0);
                    if let Some((c, v)) = test(&cand) {
                        let c = trim(c);
                        let nz = |x: &[u32]| (x.iter().filter(|a| **a != 0).count(), x.len());
                        if nz(&c) < nz(&cur) {
                            cur = c;
                            best = v;
                            progress = true;
                        }
                    }
                }
                if !accepted {
                    i += size;
                }
            }
            size /= 2;
        }
        // Lower single choices
        for i in 0..cur.len() {
            if i >= cur.len() || Instant::now() > end {
                break;
            }
            if cur[i] > 1 {
                let mut cand = cur.clone();
                cand[i] = 1;
                if let Some((c, v)) = test(&cand) {
                    let c = trim(c);
                    if c.len() <= cur.len() {
                        cur = c;
                        best = v;
                    }
                }
            }
        }
    }
    (cur, best)
}

pub fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("ERROR: {path}: {e}");
            return 2;
        }
    };
    let r: Replay = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => {
            println!("ERROR: {path}: {e}");
            return 2;
        }
    };
    let ch = if r.choices.is_empty() {
        Chooser::new(r.seed)
    } else {
        Chooser::replay(r.seed, r.choices.clone())
    };
    match one(&r.scenario, ch, true) {
        Err(e) => {
            println!("ERROR: the harness failed: {e}");
            2
        }
        Ok(out) => {
            for l in &out.trace {
                println!("{l}");
            }
            println!("fingerprint {:016x} (recorded {:016x})", out.stats.fingerprint, r.fingerprint);
            match out.violations.iter().find(|v| v.props.iter().any(|p| *p == r.property)) {
                Some(v) => {
                    println!("{}: {}", v.kind, v.detail);
                    println!("VIOLATION property={} replay={path}", r.property);
                    1
                }
                None => {
                    println!("no violation of {}", r.property);
                    0
                }
            }
        }
    }
}

pub fn find(id: &str) -> Option<&'static Prop> {
    props::PROPS.iter().find(|p| p.id == id)
}

#[allow(dead_code)]
pub type Shared<T> = Arc<Mutex<T>>;
