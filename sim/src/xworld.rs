//! Extensions (`manul::dev::ExtendableEntryPoint`): the same execution is carried out twice, once
//! with parties wrapped in extensions, once with the plain protocol in which the same changes are
//! built in. Nobody is supposed to be able to tell the difference.
//!
//! Besides, the misbehaviour checker (`manul::dev::check_evidence_with_extensions`).

use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use manul::dev::{check_evidence_with_extensions, extend_one, run_sync};
use manul::session::{CanFinalize, Message, PreprocessOutcome, RoundAccumulator, RoundOutcome, Session, SessionId};
use rand_chacha::ChaCha8Rng;
use rand_core::SeedableRng;

use crate::chooser::{hash, mix64, Chooser};
use crate::mix::*;
use crate::params::{SimFormat, SimSP, Sk, Vk};
use crate::spec::{describe, gen, Shape};
use crate::stats::{RunOut, RunStats, Violation};
use crate::world::{check_evidence, panic_text, report_text};
use crate::xmix::{check_one, extend, Plan, Which, XCtl, XKit};

type Report<K, F> = manul::session::SessionReport<<K as Kit>::P, SimSP<F>>;

/// The choices of the first execution are used for the second one.
struct Dice {
    ch: Option<Chooser>,
    taken: Vec<usize>,
    pos: usize,
}
impl Dice {
    fn pick(&mut self, n: usize) -> usize {
        match &self.ch {
            Some(ch) => {
                let x = ch.pick(n);
                self.taken.push(x);
                x
            }
            None => {
                let x = self.taken.get(self.pos).copied().unwrap_or(0).min(n - 1);
                self.pos += 1;
                x
            }
        }
    }
    fn chance(&mut self, permille: u32) -> bool {
        match &self.ch {
            Some(ch) => {
                let x = ch.chance(permille);
                self.taken.push(x as usize);
                x
            }
            None => {
                let x = self.taken.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                x == 1
            }
        }
    }
}

struct Party<K: Kit, F: SimFormat> {
    id: u16,
    rng: ChaCha8Rng,
    session: Option<Session<K::P, SimSP<F>>>,
    accum: Option<RoundAccumulator<K::P, SimSP<F>>>,
    dests: Vec<Vk>,
    todo: Vec<manul::session::VerifiedMessage<Vk>>,
    report: Option<Report<K, F>>,
}

#[derive(Clone, Copy)]
enum Act {
    Make(usize),
    Deliver(usize),
    Process(usize),
    Add(usize),
    Finalize(usize),
}

struct Faults {
    drop: u32,
    dup: u32,
    spoof: u32,
    late: u32,
}

/// Runs all parties to the end. Everything that can be seen from outside goes to the log.
fn execute<K: Kit, F: SimFormat>(
    n: u16,
    seed: u64,
    faults: &Faults,
    dice: &mut Dice,
    mut start: impl FnMut(u16, &mut ChaCha8Rng, &SessionId) -> Result<Session<K::P, SimSP<F>>, String>,
    stats: &mut RunStats,
) -> (Vec<String>, Vec<Option<Report<K, F>>>) {
    let sid = SessionId::from_seed::<SimSP<F>>(&seed.to_be_bytes());
    let mut log: Vec<String> = Vec::new();
    let mut parties: Vec<Party<K, F>> = Vec::new();
    for id in 0..n {
        let mut rng = ChaCha8Rng::seed_from_u64(hash(&[seed, 21, id as u64]));
        let session = match start(id, &mut rng, &sid) {
            Ok(s) => Some(s),
            Err(e) => {
                log.push(format!("{id}: cannot start: {e}"));
                None
            }
        };
        let accum = session.as_ref().map(|s| s.make_accumulator());
        let dests = session.as_ref().map(|s| s.message_destinations().iter().copied().collect()).unwrap_or_default();
        parties.push(Party {
            id,
            rng,
            session,
            accum,
            dests,
            todo: vec![],
            report: None,
        });
    }
    // Processed, but not added yet
    let mut done: Vec<Vec<_>> = (0..n).map(|_| Vec::new()).collect();
    let mut flying: Vec<(u16, u16, Message<Vk>)> = Vec::new();
    for _step in 0..4000 {
        let mut acts = Vec::new();
        for (i, p) in parties.iter().enumerate() {
            let (Some(s), Some(a)) = (&p.session, &p.accum) else { continue };
            if !p.dests.is_empty() {
                acts.push(Act::Make(i));
            }
            if !p.todo.is_empty() {
                acts.push(Act::Process(i));
            }
            if !done[i].is_empty() {
                acts.push(Act::Add(i));
            }
            // The round is over only when the messages have been sent.
            if p.dests.is_empty() && p.todo.is_empty() && done[i].is_empty() && s.can_finalize(a) != CanFinalize::NotYet {
                acts.push(Act::Finalize(i));
            }
        }
        if !flying.is_empty() {
            acts.push(Act::Deliver(0));
            acts.push(Act::Deliver(0));
        }
        if acts.is_empty() {
            break;
        }
        stats.steps += 1;
        let act = acts[dice.pick(acts.len())];
        match act {
            Act::Make(i) => {
                let k = dice.pick(parties[i].dests.len());
                let p = &mut parties[i];
                let d = p.dests.remove(k);
                let (Some(s), Some(a)) = (&p.session, &mut p.accum) else { continue };
                match s.make_message(&mut p.rng, &d) {
                    Ok((m, art)) => {
                        log.push(format!("{}: for {}: {}", p.id, d.0, serde_json::to_string(&m).unwrap_or_default()));
                        if let Err(e) = s.add_artifact(a, art) {
                            log.push(format!("{}: {e:?}", p.id));
                            p.session = None;
                        }
                        flying.push((p.id, d.0, m));
                    }
                    Err(e) => {
                        log.push(format!("{}: cannot make a message for {}: {e:?}", p.id, d.0));
                        p.session = None;
                    }
                }
            }
            Act::Deliver(_) => {
                let k = dice.pick(flying.len());
                let (mut from, to, m) = flying.remove(k);
                if dice.chance(faults.drop) {
                    stats.add("fault_drop", 1);
                    log.push(format!("lost: {from} to {to}"));
                    continue;
                }
                if dice.chance(faults.dup) {
                    stats.add("fault_duplicate", 1);
                    flying.push((from, to, m.clone()));
                }
                if dice.chance(faults.late) {
                    stats.add("fault_delay", 1);
                    flying.push((from, to, m));
                    continue;
                }
                if dice.chance(faults.spoof) {
                    stats.add("fault_spoof", 1);
                    from = dice.pick(n as usize) as u16;
                }
                let p = &mut parties[to as usize];
                let (Some(s), Some(a)) = (&p.session, &mut p.accum) else { continue };
                stats.add("delivered", 1);
                match s.preprocess_message(a, &Vk(from), m) {
                    Ok(o) => {
                        log.push(format!(
                            "{to}: from {from}: {}",
                            match &o {
                                PreprocessOutcome::ToProcess(_) => "to process".to_string(),
                                PreprocessOutcome::Cached => "kept".to_string(),
                                PreprocessOutcome::Error(e) => format!("{e:?}"),
                            }
                        ));
                        if let PreprocessOutcome::ToProcess(v) = o {
                            p.todo.push(*v);
                        }
                    }
                    Err(e) => {
                        log.push(format!("{to}: from {from}: {e:?}"));
                        p.session = None;
                    }
                }
            }
            Act::Process(i) => {
                let k = dice.pick(parties[i].todo.len());
                let p = &mut parties[i];
                let m = p.todo.remove(k);
                let Some(s) = &p.session else { continue };
                done[i].push(s.process_message(m));
            }
            Act::Add(i) => {
                let k = dice.pick(done[i].len());
                let p = &mut parties[i];
                let m = done[i].remove(k);
                let (Some(s), Some(a)) = (&p.session, &mut p.accum) else { continue };
                match s.add_processed_message(a, m) {
                    Ok(()) => log.push(format!("{}: {:?}", p.id, s.can_finalize(a))),
                    Err(e) => {
                        log.push(format!("{}: {e:?}", p.id));
                        p.session = None;
                    }
                }
            }
            Act::Finalize(i) => {
                let p = &mut parties[i];
                let (Some(s), Some(a)) = (p.session.take(), p.accum.take()) else { continue };
                let res = if s.can_finalize(&a) == CanFinalize::Yes {
                    s.finalize_round(&mut p.rng, a)
                } else {
                    s.terminate_due_to_errors(a).map(RoundOutcome::Finished)
                };
                match res {
                    Ok(RoundOutcome::Finished(r)) => {
                        log.push(format!("{}: {}", p.id, report_text::<K, F>(&r)));
                        p.report = Some(r);
                    }
                    Ok(RoundOutcome::AnotherRound {
                        session,
                        cached_messages,
                    }) => {
                        log.push(format!("{}: round {} with {} messages", p.id, session.round_id(), cached_messages.len()));
                        p.accum = Some(session.make_accumulator());
                        p.dests = session.message_destinations().iter().copied().collect();
                        p.todo = cached_messages;
                        p.session = Some(*session);
                    }
                    Err(e) => log.push(format!("{}: cannot finalize: {e:?}", p.id)),
                }
            }
        }
    }
    for p in &mut parties {
        if let (Some(s), Some(a)) = (p.session.take(), p.accum.take()) {
            match s.terminate(a) {
                Ok(r) => {
                    log.push(format!("{}: {}", p.id, report_text::<K, F>(&r)));
                    p.report = Some(r);
                }
                Err(e) => log.push(format!("{}: cannot terminate: {e:?}", p.id)),
            }
        }
    }
    (log, parties.into_iter().map(|p| p.report).collect())
}

/// Extensions for one party.
fn gen_plan(ch: &Chooser, cfg: &KitCfg, id: u16, overs: bool) -> Plan {
    let mut plan = Plan::default();
    for w in &mut plan.which {
        *w = [Which::Free, Which::Empty, Which::All][ch.pick(3)];
    }
    plan.order = (0..8).collect();
    for i in (1..8).rev() {
        plan.order.swap(i, ch.pick(i + 1));
    }
    if overs {
        let path = cfg.path(id);
        for _ in 0..1 + ch.pick(2) {
            let (seg, idx) = path[ch.pick(path.len())];
            let mask = cfg.segs[seg as usize].rounds[idx as usize].mask;
            let ops: Vec<usize> = (0..3usize).filter(|p| mask & (1 << p) != 0).chain([FINALIZE]).collect();
            let op = ops[ch.pick(ops.len())];
            let k = ch.salt() ^ ch.pick(64) as u64;
            let how = match ch.weighted(&[12, 2, 2, 1, 1]) {
                0 => How::Edit(k),
                1 => How::Draw,
                2 => How::Instead(k),
                3 => How::Fail,
                _ => How::FailAfter,
            };
            if !plan.over.iter().any(|o| (o.seg, o.idx, o.op) == (seg, idx, op)) {
                plan.over.push(Over { seg, idx, op, how });
                plan.which[mask as usize] = Which::All;
            }
        }
    }
    plan
}

pub fn run<K: XKit, F: SimFormat>(ch: Chooser, trace: bool) -> RunOut {
    let mut shape = Shape::new(K::SEGS, K::ENTRY_MASKS);
    shape.n_max = 4;
    let cfg = Arc::new(gen(&ch, &shape));
    let n = cfg.n();
    let seed = ch.salt();
    let mut out = RunOut::default();
    let mut plans: BTreeMap<u16, Plan> = BTreeMap::new();
    for id in 0..n {
        if ch.chance(600) {
            let overs = ch.chance(450);
            plans.insert(id, gen_plan(&ch, &cfg, id, overs));
        }
    }
    if plans.is_empty() {
        plans.insert(0, gen_plan(&ch, &cfg, 0, true));
    }
    let bad_weather = ch.chance(350);
    let faults = Faults {
        drop: if bad_weather { 30 } else { 0 },
        dup: if bad_weather { 80 } else { 0 },
        spoof: if bad_weather { 30 } else { 0 },
        late: 250,
    };
    let mut dice = Dice {
        ch: Some(ch.clone()),
        taken: vec![],
        pos: 0,
    };
    let mut viols: Vec<(&'static str, String)> = Vec::new();
    let probes = |over: bool| -> Vec<Probe> {
        (0..n)
            .map(|id| {
                let over = match plans.get(&id) {
                    Some(p) if over => p.over.clone(),
                    _ => vec![],
                };
                Probe(
                    Default::default(),
                    Arc::new(ProbeCtl {
                        over,
                        ..Default::default()
                    }),
                )
            })
            .collect()
    };
    let ctls: BTreeMap<u16, Arc<XCtl>> = plans
        .iter()
        .map(|(id, plan)| {
            let ctl = XCtl {
                plan: plan.clone(),
                ..Default::default()
            };
            (*id, Arc::new(ctl))
        })
        .collect();

    let probes1 = probes(false);
    let first = catch_unwind(AssertUnwindSafe(|| {
        execute::<K, F>(
            n,
            seed,
            &faults,
            &mut dice,
            |id, rng, sid| {
                let signer = Sk::new(id);
                match ctls.get(&id) {
                    Some(ctl) => Session::new(rng, sid.clone(), signer, K::extended(&cfg, &probes1[id as usize], ctl)),
                    None => Session::new(rng, sid.clone(), signer, K::entry(&cfg, &probes1[id as usize])),
                }
                .map_err(|e| format!("{e:?}"))
            },
            &mut out.stats,
        )
    }));
    dice.ch = None;
    let probes2 = probes(true);
    let mut other = RunStats::default();
    let second = catch_unwind(AssertUnwindSafe(|| {
        execute::<K, F>(
            n,
            seed,
            &faults,
            &mut dice,
            |id, rng, sid| {
                Session::new(rng, sid.clone(), Sk::new(id), K::entry(&cfg, &probes2[id as usize]))
                    .map_err(|e| format!("{e:?}"))
            },
            &mut other,
        )
    }));
    let empty = || (Vec::new(), Vec::new());
    let ((log1, reports1), (log2, reports2)) = match (first, second) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), Ok(b)) => {
            viols.push(("panic with extensions", panic_text(e)));
            (empty(), b)
        }
        // Not the fault of the extensions
        (_, Err(e)) => {
            viols.push(("panic without extensions", panic_text(e)));
            (empty(), empty())
        }
    };
    out.stats.add("executions_compared", 1);
    out.stats.add("parties_extended", plans.len() as u64);
    out.stats.add("operations_overridden", plans.values().map(|p| p.over.len() as u64).sum());
    out.stats.fingerprint = log1.iter().fold(0, |h, l| mix64(h ^ crate::chooser::hash_bytes(l.as_bytes())));
    if viols.is_empty() {
        if log1 != log2 {
            let i = log1.iter().zip(&log2).position(|(a, b)| a != b).unwrap_or(log1.len().min(log2.len()));
            let cut = |l: &[String]| l.get(i).map(|s| s.chars().take(700).collect::<String>());
            viols.push((
                "differs from the same change without extensions",
                format!("entry {i}: {:?} with extensions, {:?} without", cut(&log1), cut(&log2)),
            ));
        } else {
            for id in 0..n {
                let (a, b) = (probes1[id as usize].events(), probes2[id as usize].events());
                if a != b {
                    let i = a.iter().zip(&b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
                    viols.push((
                        "the protocol sees something else",
                        format!("party {id}, event {i}: {:?} with extensions, {:?} without", a.get(i), b.get(i)),
                    ));
                }
            }
        }
        // The extensions are called for their rounds and for nothing else.
        for (id, ctl) in &ctls {
            let calls: Vec<Slot> = ctl.calls.lock().unwrap().clone();
            let want: Vec<Slot> = probes2[*id as usize]
                .1
                .calls
                .lock()
                .unwrap()
                .iter()
                .filter(|(seg, idx, ..)| {
                    ctl.plan.which[cfg.segs[*seg as usize].rounds[*idx as usize].mask as usize] == Which::All
                })
                .copied()
                .collect();
            out.stats.add("overridden_calls", calls.len() as u64);
            if calls != want {
                let i = calls.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(calls.len().min(want.len()));
                viols.push((
                    "extension calls",
                    format!("party {id}: call {i} is {:?}, expected {:?}", calls.get(i), want.get(i)),
                ));
            }
            if ctl.owners.lock().unwrap().iter().any(|o| o != id) {
                viols.push(("extension calls", format!("party {id}: called for somebody else's rounds")));
            }
        }
        for (id, (r1, r2)) in reports1.iter().zip(&reports2).enumerate() {
            let (Some(r1), Some(r2)) = (r1, r2) else { continue };
            for (k, e1) in &r1.provable_errors {
                out.stats.add("evidence_checked", 1);
                let mine = check_evidence::<K, F>(e1, &K::shared(&cfg)).map(|v| v.to_string());
                let Some(e2) = r2.provable_errors.get(k) else { continue };
                let theirs = check_evidence::<K, F>(e2, &K::shared(&cfg)).map(|v| v.to_string());
                if mine != theirs {
                    viols.push(("evidence", format!("party {id} against {k:?}: {mine:?}, without extensions {theirs:?}")));
                }
                if e1.description() != e2.description() || e1.guilty_party() != e2.guilty_party() {
                    viols.push(("evidence", format!("{:?} instead of {:?}", e1.description(), e2.description())));
                }
                if let (Err(e), false) = (&mine, plans.get(&(id as u16)).is_some_and(|p| !p.over.is_empty())) {
                    viols.push(("evidence", format!("party {id} against {k:?}: {e}")));
                }
            }
        }
    }
    out.stats.add("parties", n as u64);
    out.label = format!("{} {n} parties, wire format {}", K::NAME, F::NAME);
    for (kind, detail) in viols {
        out.violations.push(Violation {
            props: vec!["P19"],
            kind: kind.into(),
            detail,
        });
    }
    if trace {
        let cut = |s: &String| s.chars().take(200).collect::<String>();
        out.trace = describe(&cfg)
            .into_iter()
            .chain(plans.iter().map(|(id, p)| format!("extensions of {id}: {p:?}")))
            .chain(log1.iter().map(cut))
            .collect();
    }
    out
}

type Ep = MixEntry<0>;

/// The checker of misbehaviour passes exactly when everybody else proves the offence expected.
pub fn run_checker<F: SimFormat>(ch: Chooser, trace: bool) -> RunOut {
    let mut shape = Shape::new(KMix::SEGS, KMix::ENTRY_MASKS);
    shape.n_min = if ch.chance(50) { 1 } else { 2 };
    shape.n_max = if shape.n_min == 1 { 1 } else { 4 };
    shape.rules = 700;
    let cfg = Arc::new(gen(&ch, &shape));
    let n = cfg.n();
    let seed = ch.salt();
    let mut order: Vec<u16> = (0..n).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, ch.pick(i + 1));
    }
    // Any of the parties may be the one with the extensions.
    let mut plan = gen_plan(&ch, &cfg, order[order.len() - 1], ch.chance(950));
    for o in &mut plan.over {
        // Mostly offences which can be proven
        if ch.chance(700) {
            let p = [2u64, 4, 3, 9, 7][ch.pick(5)];
            o.how = How::Edit(ch.salt() / 44 * 44 + p);
        }
    }
    // With a single extension there is a simpler way.
    let only = plan.over.first().filter(|_| ch.chance(300)).map(|o| cfg.segs[0].rounds[o.idx as usize].mask);
    if let Some(m) = only {
        plan.which = [Which::Free; 8];
        plan.which[m as usize] = Which::All;
        plan.over.retain(|o| cfg.segs[0].rounds[o.idx as usize].mask == m);
    }
    // Now and then somebody else misbehaves as well.
    let other_bad = ch.chance(200).then(|| order[ch.pick(order.len())]);
    let mut out = RunOut::default();
    let mut viols: Vec<(&'static str, String)> = Vec::new();
    let make = || {
        order
            .iter()
            .map(|id| {
                let ctl = ProbeCtl {
                    bad: (other_bad == Some(*id)).then_some(seed),
                    ..Default::default()
                };
                (Sk::new(*id), KMix::entry(&cfg, &Probe(Default::default(), Arc::new(ctl))))
            })
            .collect::<Vec<(Sk, Ep)>>()
    };
    let new_ctl = || {
        Arc::new(XCtl {
            plan: plan.clone(),
            ..Default::default()
        })
    };
    // What really happens
    let ctl = new_ctl();
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let truth = catch_unwind(AssertUnwindSafe(|| {
        let (target, eps) = extend_one::<SimSP<F>, Ep>(make(), |ep| extend(ep, &ctl)).map_err(|e| format!("{e:?}"))?;
        let len = eps.len();
        let r = run_sync::<_, SimSP<F>>(&mut rng, eps).map_err(|e| format!("{e:?}"))?;
        Ok::<_, String>((target, len, r))
    }));
    out.stats.add("parties", n as u64);
    // What the evidence is verified with may not be what it was made for.
    let other_shared = ch.chance(200);
    let shared = || {
        let mut s = KMix::shared(&cfg);
        if other_shared {
            let mut spec = (*s.spec).clone();
            spec.tag ^= 1;
            for r in &mut spec.rounds {
                r.split = None;
            }
            s.spec = Arc::new(spec);
        }
        s
    };
    let (target, result) = match truth {
        Ok(Ok((t, len, r))) => {
            if len != n as usize || r.reports.len() != n as usize {
                viols.push(("parties lost", format!("{len} of {n}, {} reports", r.reports.len())));
            }
            (Some(t), Some(r))
        }
        Ok(Err(e)) => {
            // The party has been told to fail.
            if !plan.over.iter().any(|o| matches!(o.how, How::Fail | How::FailAfter)) {
                viols.push(("local error", e));
            }
            (None, None)
        }
        Err(e) => {
            viols.push(("panic", panic_text(e)));
            (None, None)
        }
    };
    let owners: BTreeSet<u16> = ctl.owners.lock().unwrap().iter().copied().collect();
    if let Some(t) = target {
        if owners.iter().any(|o| *o != t.0) {
            viols.push(("wrong party", format!("{t:?} is reported as modified, extensions of {owners:?} were called")));
        }
    }
    if let (Some(t), Some(r)) = (target, result) {
        let seen: Vec<String> = r
            .reports
            .iter()
            .filter_map(|(k, x)| x.provable_errors.get(&t).filter(|_| *k != t).map(|e| e.description().to_string()))
            .collect();
        let expected = match (ch.pick(6), seen.first()) {
            (5, Some(d)) => format!("{d} "),
            (0..=2, Some(d)) => d.clone(),
            (3, Some(d)) => d.chars().skip(1).take(4).collect(),
            (4, Some(_)) => ["", "Tag", "Sum", "Code(0)", "Code(1)"][ch.pick(5)].to_string(),
            _ => ["", "Invalid"][ch.pick(2)].to_string(),
        };
        let fine = r.reports.iter().filter(|(k, _)| **k != t).all(|(_, x)| {
            x.provable_errors.len() == 1
                && x.provable_errors
                    .get(&t)
                    .is_some_and(|e| e.description().contains(&expected) && e.verify(&shared()).is_ok())
        });
        let own = !r.reports[&t].provable_errors.is_empty();
        let ctl = new_ctl();
        let mut rng = ChaCha8Rng::seed_from_u64(seed);
        let verdict = catch_unwind(AssertUnwindSafe(|| {
            if let Some(m) = only {
                return check_one::<F>(m, &mut rng, (make(), shared()), &ctl, &expected);
            }
            check_evidence_with_extensions::<SimSP<F>, Ep>(
                &mut rng,
                (make(), shared()),
                |ep| extend(ep, &ctl),
                &expected,
            )
        }));
        out.stats.add("verdicts", 1);
        out.stats.add(if fine { "offence_proven_by_all" } else { "offence_not_proven_by_all" }, 1);
        let text = format!(
            "expected {expected:?}, proven {seen:?} by {} of {}: {verdict:?}",
            seen.len(),
            n - 1,
            verdict = verdict.as_ref().map_err(|_| "panic")
        );
        match verdict {
            // It insists that the party itself proves nothing against others.
            Err(_) if own => out.stats.add("party_blames_others", 1),
            Ok(_) if own => {}
            Err(e) => viols.push(("panic", panic_text(e))),
            Ok(v) => {
                if v.is_ok() != fine {
                    viols.push(("wrong verdict", text));
                }
            }
        }
        out.stats.fingerprint = hash(&[seed, fine as u64, seen.len() as u64]);
    }
    out.stats.steps += ctl.calls.lock().unwrap().len() as u64;
    out.label = format!("{} {n} parties, wire format {}", KMix::NAME, F::NAME);
    for (kind, detail) in viols {
        out.violations.push(Violation {
            props: vec!["P23"],
            kind: kind.into(),
            detail,
        });
    }
    if trace {
        out.trace = describe(&cfg).into_iter().chain([format!("extensions: {plan:?}")]).collect();
    }
    out
}
