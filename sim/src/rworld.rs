//! The in-process runners of `manul::dev`: all parties are handed over to `run_sync()`, or to
//! `run_async()` under the simulated runtime, and what the protocol code of every party saw is
//! compared with the reports that come back.

use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use manul::dev::{run_sync, tokio::run_async, ExecutionResult};
use manul::session::SessionOutcome;
use rand_chacha::ChaCha8Rng;
use rand_core::SeedableRng;

use crate::asim::{self, Driven, Sim, Weather};
use crate::aworld::{check_events, freshness, full_text, summary};
use crate::chooser::{hash, mix64, Chooser};
use crate::mix::{model, Ev, Kit, KitCfg, Probe, ProbeCtl};
use crate::params::{SignedLog, SimFormat, SimSP, Sk, Vk};
use crate::spec::{describe, gen, gen_star, Shape};
use crate::stats::{RunOut, Violation};
use crate::world::{check_brief, check_evidence, panic_text};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Runner {
    Sync,
    Async,
    Par,
}

/// What the parties do.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Conduct {
    Honest,
    /// Some spoil the contents of what they send.
    Spoil,
    /// Some have another idea of who talks to whom in which rounds.
    Stray,
}

type Out<K, F> = ExecutionResult<<K as Kit>::P, SimSP<F>>;

enum Ended<K: Kit, F: SimFormat> {
    Ok(Out<K, F>),
    Err(String),
    Panic(String),
    /// Everything is at rest but the runner has not returned.
    Stuck,
    /// Steps ran out.
    Busy,
}

pub fn run<K: Kit, F: SimFormat>(ch: Chooser, how: Runner, conduct: Conduct, trace: bool) -> RunOut {
    let mut shape = Shape::new(K::SEGS, K::ENTRY_MASKS);
    shape.n_min = if ch.chance(60) { 1 } else { 2 };
    shape.n_max = if shape.n_min == 1 { 1 } else { 6 };
    shape.echo = 350;
    let wide = shape.entry_masks.iter().flatten().all(|m| m & 2 == 0) && ch.chance(if how == Runner::Sync { 10 } else { 25 });
    let cfg = Arc::new(if wide { gen_star(&ch, &shape) } else { gen(&ch, &shape) });
    let n = cfg.n();
    let seed = ch.salt();
    let strays = conduct == Conduct::Stray;
    let bads: BTreeSet<u16> = if strays || conduct == Conduct::Spoil && ch.chance(700) {
        let all: Vec<u16> = (0..n).collect();
        let mut s: BTreeSet<u16> = ch.subset(&all, if wide { 20 } else { 300 }).into_iter().collect();
        if s.is_empty() {
            s.insert(ch.pick(n as usize) as u16);
        }
        s
    } else {
        BTreeSet::new()
    };
    // All parties write into one log, so that we know the interleaving.
    let order: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));
    let count: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));
    let lines: Option<Arc<Mutex<Vec<String>>>> = trace.then(Default::default);
    let mut probes = Vec::new();
    let mut logs: Vec<SignedLog> = Vec::new();
    let mut entries: Vec<(Sk, K::EP)> = Vec::new();
    for id in 0..n {
        let (order, count, lines) = (order.clone(), count.clone(), lines.clone());
        let ctl = ProbeCtl {
            bad: (bads.contains(&id) && (!strays || ch.chance(300))).then(|| hash(&[seed, 12, id as u64])),
            script: BTreeMap::new(),
            on_event: Some(Box::new(move |ev, k| {
                count.fetch_add(1, Ordering::SeqCst);
                order.store(mix64(order.load(Ordering::SeqCst) ^ hash(&[id as u64, k as u64])), Ordering::SeqCst);
                if let Some(l) = &lines {
                    l.lock().unwrap().push(format!("{id}: {}", brief(ev)));
                }
                asim::preempt();
            })),
            ..Default::default()
        };
        let probe = Probe(Default::default(), Arc::new(ctl));
        let log: SignedLog = Default::default();
        let own = if strays && bads.contains(&id) { stray(&ch, &cfg, id) } else { cfg.clone() };
        entries.push((Sk::recorded(id, log.clone()), K::entry(&own, &probe)));
        probes.push(probe);
        logs.push(log);
    }
    // The runners do not depend on the order in which the parties are given.
    if ch.chance(500) {
        for i in (1..entries.len()).rev() {
            entries.swap(i, ch.pick(i + 1));
        }
    }
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let mut out = RunOut::default();
    let ended: Ended<K, F> = match how {
        Runner::Sync => match catch_unwind(AssertUnwindSafe(|| run_sync::<_, SimSP<F>>(&mut rng, entries))) {
            Ok(Ok(r)) => Ended::Ok(r),
            Ok(Err(e)) => Ended::Err(format!("{e:?}")),
            Err(p) => Ended::Panic(panic_text(p)),
        },
        Runner::Async | Runner::Par => {
            let weather = match ch.pick(4) {
                0 => Weather::default(),
                1 => Weather {
                    shuffle: 1000,
                    lifo: 0,
                    late: 300,
                    preempt: 150,
                },
                2 => Weather {
                    shuffle: 500,
                    lifo: 300,
                    late: 700,
                    preempt: 400,
                },
                _ => Weather {
                    shuffle: 100,
                    lifo: 800,
                    late: 200,
                    preempt: 300,
                },
            };
            let sim = Sim::new(ch.clone(), weather, 600_000 + n as u64 * 20_000);
            let par = how == Runner::Par;
            let count2 = count.clone();
            let ended = sim.run(async move {
                let main = Driven {
                    party: 0,
                    fut: Box::pin(run_async::<_, SimSP<F>>(&mut rng, entries, par)),
                    polls: Default::default(),
                    at_poll: None,
                };
                // At rest: nothing has happened in the protocol code for a long time.
                let rest = async {
                    let mut last = u64::MAX;
                    loop {
                        tokio::time::sleep(Duration::from_secs(60)).await;
                        let now = count2.load(Ordering::SeqCst);
                        if now == last {
                            break;
                        }
                        last = now;
                    }
                };
                tokio::select! {
                    biased;
                    r = main => match r {
                        Ok(Ok(r)) => Ended::Ok(r),
                        Ok(Err(e)) => Ended::Err(format!("{e:?}")),
                        Err(p) => Ended::Panic(panic_text(p)),
                    },
                    _ = rest => Ended::Stuck,
                }
            });
            out.stats.steps = sim.steps.get();
            out.stats.fingerprint = sim.fingerprint.get();
            out.stats.add("workers_started", sim.workers_started.get());
            out.stats.add("fault_worker_preempted", sim.preempted.get());
            out.stats.add("fault_worker_late", sim.late.get());
            ended.unwrap_or(Ended::Busy)
        }
    };
    out.stats.steps += count.load(Ordering::SeqCst);
    out.stats.fingerprint ^= order.load(Ordering::SeqCst);
    out.stats.add("parties", n as u64);
    if wide {
        out.stats.add("runs_with_over_100_parties", 1);
    }
    if n == 1 {
        out.stats.add("runs_with_one_party", 1);
    }

    // Judgement
    let mut viols: Vec<(Vec<&'static str>, &str, String)> = Vec::new();
    let events: Vec<Vec<Ev>> = probes.iter().map(|p| p.events()).collect();
    let errors: usize = events.iter().flatten().filter(|e| matches!(e, Ev::Recv { err: Some(_), .. })).count();
    if errors > 0 {
        out.stats.add("runs_with_errors", 1);
    }
    let waits = excusable(&cfg, &events);
    let unfinished: Vec<u16> = (0..n).filter(|id| !has_result(&cfg, &events[*id as usize])).collect();
    match ended {
        Ended::Err(e) => viols.push((vec!["P20"], "local error", e)),
        Ended::Panic(e) => viols.push((vec!["P20"], "panic", e)),
        Ended::Busy => viols.push((vec!["P20"], "no progress", format!("still busy after {} steps", out.stats.steps))),
        Ended::Stuck => {
            out.stats.add("runs_waiting_for_failed_parties", 1);
            let erring = |id: u16| events[id as usize].iter().any(|e| matches!(e, Ev::Recv { err: Some(_), .. }));
            let why: Vec<u16> = unfinished.iter().copied().filter(|id| !waits.contains(id) && !erring(*id)).collect();
            if !strays && (waits.is_empty() || !why.is_empty()) {
                viols.push((
                    vec!["P20"],
                    "does not come to an end",
                    format!("unfinished: {unfinished:?}, of which {why:?} do not wait for anybody who has failed"),
                ));
            }
        }
        Ended::Ok(r) => {
            out.stats.add("finished_runs", 1);
            let ids: BTreeSet<u16> = r.reports.keys().map(|v| v.0).collect();
            if ids != (0..n).collect() {
                viols.push((vec!["P20"], "reports", format!("for {ids:?} of {n} parties")));
            }
            let sid = events.iter().flatten().find_map(|e| match e {
                Ev::Make { body, .. } => Some(body.sid),
                _ => None,
            });
            let m = sid.map(|s| model(&cfg, s));
            let mut failed = Vec::new();
            let mut hists = BTreeMap::new();
            for (v, report) in &r.reports {
                let id = v.0;
                let Some(ev) = events.get(id as usize) else { continue };
                let mut bad = |kind: &'static str, d: String| viols.push((vec!["P20"], kind, format!("party {id}: {d}")));
                if strays {
                    out.stats.add("reports_among_strays", 1);
                    if bads.contains(&id) {
                        match &report.outcome {
                            SessionOutcome::Result(r) => drop(hists.insert(id, r.hist)),
                            _ => failed.push(id),
                        }
                        continue;
                    }
                }
                check_events(&cfg, id, ev, Some(&summary::<K, F>(report)), &mut |_, d| bad("report", d));
                let text = full_text::<K, F>(report);
                let erring: BTreeSet<u16> = ev
                    .iter()
                    .filter_map(|e| match e {
                        Ev::Recv { from, err: Some(_), .. } => Some(*from),
                        _ => None,
                    })
                    .collect();
                let named: BTreeSet<u16> = report.provable_errors.keys().chain(report.unprovable_errors.keys()).map(|v| v.0).collect();
                if if strays { !erring.is_subset(&named) } else { named != erring } {
                    bad("report", format!("errors of {erring:?} were seen, those of {named:?} reported"));
                }
                match &report.outcome {
                    SessionOutcome::Result(res) => {
                        hists.insert(id, res.hist);
                        if strays && !named.is_empty() {
                            out.stats.add("result_without_strays", 1);
                        }
                        let right = m.as_ref().is_none_or(|m| !bads.is_empty() || m.results[&id] == res.hist);
                        if !right || res.me != id {
                            bad("wrong result", text.clone());
                        }
                        if !erring.is_empty() {
                            bad("result in spite of errors", text.clone());
                        }
                    }
                    SessionOutcome::NotEnoughMessages => {
                        failed.push(id);
                        if if strays { named.is_empty() } else { erring.is_empty() || waits.contains(&id) } {
                            bad("failed without an error", text.clone());
                        }
                    }
                    SessionOutcome::Terminated => {
                        failed.push(id);
                        if how != Runner::Sync {
                            bad("terminated by nobody", text.clone());
                        } else if strays {
                            let missing: BTreeSet<u16> = summary::<K, F>(report).missing.into_values().flatten().collect();
                            if missing.is_subset(&named) {
                                bad("terminated while it did not wait for anybody", text.clone());
                            }
                            out.stats.add("terminated", 1);
                        } else if !waits.contains(&id) {
                            bad("terminated while it could go on", text.clone());
                        } else {
                            out.stats.add("terminated", 1);
                        }
                    }
                }
                if let Err(e) = check_brief::<K, F>(report) {
                    viols.push((vec!["P13", "P20"], "brief", format!("party {id}: {e}")));
                }
                for k in report.provable_errors.keys().filter(|k| !bads.contains(&id) && !bads.contains(&k.0)) {
                    viols.push((vec!["P05", "P20"], "honest party convicted", format!("party {id} against {k:?}: {text}")));
                }
                for (k, e) in report.provable_errors.iter().filter(|_| !bads.contains(&id)) {
                    out.stats.add("evidence_checked", 1);
                    if let Err(e) = check_evidence::<K, F>(e, &K::shared(&cfg)) {
                        viols.push((vec!["P06", "P20"], "evidence", format!("party {id} against {k:?}: {e}")));
                    }
                }
            }
            if bads.is_empty() && !failed.is_empty() {
                viols.push((vec!["P20"], "no result", format!("of {failed:?} though everybody is honest")));
            }
            match r.results() {
                Ok(all) => {
                    let all: BTreeMap<u16, u64> = all.into_iter().map(|(k, v)| (k.0, v.hist)).collect();
                    if !failed.is_empty() || all != hists {
                        viols.push((vec!["P20"], "results", format!("{all:x?} given, {failed:?} have failed")));
                    }
                }
                Err(text) => {
                    if failed.is_empty() {
                        viols.push((vec!["P20"], "results", format!("refused: {text}")));
                    }
                    for id in &failed {
                        if !text.contains(&format!("{:?}", Vk(*id))) {
                            viols.push((vec!["P20"], "results", format!("{id} is not mentioned: {text}")));
                        }
                    }
                }
            }
        }
    }
    let used: Vec<_> = events
        .into_iter()
        .zip(&logs)
        .map(|(e, l)| (e, l.lock().unwrap().iter().map(|x| x.1).collect::<Vec<_>>()))
        .collect();
    out.stats.add("random_values", used.iter().map(|l| l.0.len() as u64 + l.1.len() as u64).sum());
    if let Some(e) = freshness(&used) {
        viols.push((vec!["P17"], "randomness used twice", e));
    }
    out.label = format!("{} {n} parties, wire format {}, {how:?}", K::NAME, F::NAME);
    for (props, kind, detail) in viols {
        out.violations.push(Violation {
            props,
            kind: kind.into(),
            detail,
        });
    }
    if let Some(l) = lines {
        out.trace = describe(&cfg).into_iter().take(40).chain(l.lock().unwrap().iter().cloned()).collect();
    }
    out
}

/// The protocol as a party understands it that got it wrong.
fn stray(ch: &Chooser, cfg: &Arc<KitCfg>, id: u16) -> Arc<KitCfg> {
    let me = id as usize;
    let mut cfg = (**cfg).clone();
    let seg = ch.pick(cfg.segs.len());
    let mut spec = (*cfg.segs[seg]).clone();
    for _ in 0..1 + ch.pick(2) {
        let path = spec.paths[me].clone();
        if path.is_empty() {
            break;
        }
        let others: Vec<u16> = (0..spec.n).filter(|x| *x != id).collect();
        let r = path[ch.pick(path.len())] as usize;
        match ch.pick(6) {
            // Silent towards some
            0 => {
                let d: Vec<u16> = spec.rounds[r].dests[me].iter().copied().collect();
                spec.rounds[r].dests[me] = ch.subset(&d, 500).into_iter().collect();
            }
            // Talks to everyone
            1 => spec.rounds[r].dests[me] = others.iter().copied().collect(),
            // Expects less or more
            2 => {
                for x in ch.subset(&others, 500) {
                    spec.rounds[r].dests[x as usize].remove(&id);
                }
            }
            3 => {
                for x in ch.subset(&others, 300) {
                    spec.rounds[r].dests[x as usize].insert(id);
                }
            }
            // Leaves out a round
            4 if path.len() > 2 => {
                let k = 1 + ch.pick(path.len() - 2);
                let (before, after) = (path[k - 1], path[k + 1]);
                spec.paths[me].remove(k);
                spec.rounds[before as usize].children.insert(after);
                spec.rounds[after as usize].parents.insert(before);
            }
            // Stops early
            _ if path.len() > 1 => {
                let k = 1 + ch.pick(path.len() - 1);
                spec.paths[me].truncate(k);
                spec.rounds[path[k - 1] as usize].may_result = true;
            }
            _ => {}
        }
    }
    for r in &mut spec.rounds {
        (r.link, r.split, r.sum) = (None, None, None);
    }
    cfg.segs[seg] = Arc::new(spec);
    Arc::new(cfg)
}

fn brief(ev: &Ev) -> String {
    match ev {
        Ev::New { seg, idx } => format!("enters round {seg}/{idx}"),
        Ev::Make { seg, idx, part, dest, .. } => format!("makes part {part} of round {seg}/{idx} for {dest:?}"),
        Ev::Recv { seg, idx, from, err, .. } => format!("processes the message of {from} in round {seg}/{idx}: {err:?}"),
        Ev::Fin { seg, idx, .. } => format!("finalizes round {seg}/{idx}"),
        Ev::Result { hist } => format!("gets the result {hist:x}"),
    }
}

fn has_result(cfg: &KitCfg, events: &[Ev]) -> bool {
    events.iter().filter(|e| matches!(e, Ev::Result { .. })).count() == cfg.segs.len()
}

/// Parties which wait, directly or not, for a message that was never sent because of a party that
/// has seen an error.
fn excusable(cfg: &KitCfg, events: &[Vec<Ev>]) -> BTreeSet<u16> {
    let n = cfg.n();
    let rounds = |pick: fn(&Ev) -> Option<(u8, u8)>| -> Vec<BTreeSet<(u8, u8)>> {
        events.iter().map(|l| l.iter().filter_map(pick).collect()).collect()
    };
    let new = |e: &Ev| match e {
        Ev::New { seg, idx } => Some((*seg, *idx)),
        _ => None,
    };
    let entered = rounds(new);
    let left = rounds(|e| match e {
        Ev::Fin { seg, idx, .. } => Some((*seg, *idx)),
        _ => None,
    });
    let erring: BTreeSet<u16> = (0..n)
        .filter(|id| events[*id as usize].iter().any(|e| matches!(e, Ev::Recv { err: Some(_), .. })))
        .collect();
    let mut waits: BTreeSet<u16> = BTreeSet::new();
    loop {
        let blocked = |s: u16| erring.contains(&s) || waits.contains(&s);
        let more: Vec<u16> = (0..n)
            .filter(|id| !waits.contains(id))
            .filter(|id| {
                let Some((seg, idx)) = events[*id as usize].iter().rev().find_map(new) else { return false };
                if left[*id as usize].contains(&(seg, idx)) {
                    return false;
                }
                let spec = &cfg.segs[seg as usize];
                let main = spec
                    .expects(idx, *id)
                    .into_iter()
                    .any(|s| blocked(s) && !entered[s as usize].contains(&(seg, idx)));
                let echo = !erring.contains(id)
                    && spec
                        .echo_targets(idx, *id)
                        .into_iter()
                        .any(|s| blocked(s) && !left[s as usize].contains(&(seg, idx)));
                main || echo
            })
            .collect();
        if more.is_empty() {
            return waits;
        }
        waits.extend(more);
    }
}
