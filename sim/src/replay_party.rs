//! The recorded inputs of one party executed again, exactly and with another processing order.

use std::sync::Arc;

use manul::session::{CanFinalize, PreprocessOutcome, RoundOutcome, Session, SessionId};
use rand_chacha::ChaCha8Rng;
use rand_core::SeedableRng;

use crate::chooser::Chooser;
use crate::mix::{Kit, KitCfg, Probe};
use crate::params::{SimFormat, SimSP, Sk, Vk};
use crate::stats::{RunStats, Violation};
use crate::world::{report_text, Op, Recording};

fn execute<K: Kit, F: SimFormat>(
    cfg: &Arc<KitCfg>,
    sid: &SessionId,
    rec: &Recording,
    ops: &[Op],
) -> Result<Vec<String>, String> {
    let probe = Probe::default();
    let mut rng = ChaCha8Rng::seed_from_u64(rec.rng_seed);
    let mut log = Vec::new();
    let e = |e| format!("{e:?}");
    let mut session =
        Session::<K::P, SimSP<F>>::new(&mut rng, sid.clone(), Sk::new(rec.id), K::entry(cfg, &probe)).map_err(e)?;
    let mut accum = session.make_accumulator();
    let mut arts = Vec::new();
    let mut seq = Vec::new();
    let mut done = Vec::new();
    for op in ops {
        match op {
            Op::Make(d) => {
                let (m, a) = session.make_message(&mut rng, &Vk(*d)).map_err(e)?;
                log.push(format!("make {}", serde_json::to_string(&m).unwrap_or_default()));
                arts.push(a);
            }
            Op::Art(i) => {
                let a = arts.remove(*i as usize);
                session.add_artifact(&mut accum, a).map_err(e)?;
            }
            Op::Pre(from, m) => {
                let o = session.preprocess_message(&mut accum, &Vk(*from), m.clone()).map_err(e)?;
                log.push(format!(
                    "pre {}",
                    match &o {
                        PreprocessOutcome::ToProcess(_) => "to process".to_string(),
                        PreprocessOutcome::Cached => "kept".to_string(),
                        PreprocessOutcome::Error(e) => format!("{e:?}"),
                    }
                ));
                if let PreprocessOutcome::ToProcess(v) = o {
                    seq.push(Some(*v));
                }
                log.push(format!("can {:?}", session.can_finalize(&accum)));
            }
            Op::Proc(k) => {
                let v = seq.get_mut(*k).and_then(|x| x.take()).ok_or("nothing to process")?;
                done.push((*k, session.process_message(v)));
            }
            Op::Add(k) => {
                let i = done.iter().position(|d| d.0 == *k).ok_or("nothing to add")?;
                let (_, p) = done.remove(i);
                session.add_processed_message(&mut accum, p).map_err(e)?;
                log.push(format!("can {:?}", session.can_finalize(&accum)));
            }
            Op::Fin => {
                if session.can_finalize(&accum) != CanFinalize::Yes {
                    return Err("cannot finalize".into());
                }
                match session.finalize_round(&mut rng, accum).map_err(e)? {
                    RoundOutcome::Finished(r) => {
                        log.push(report_text::<K, F>(&r));
                        return Ok(log);
                    }
                    RoundOutcome::AnotherRound {
                        session: s,
                        cached_messages,
                    } => {
                        log.push(format!("round {:?} kept {}", s.round_id(), cached_messages.len()));
                        session = *s;
                        accum = session.make_accumulator();
                        arts.clear();
                        done.clear();
                        seq = cached_messages.into_iter().map(Some).collect();
                    }
                }
            }
            Op::TermErr => {
                let r = session.terminate_due_to_errors(accum).map_err(e)?;
                log.push(report_text::<K, F>(&r));
                return Ok(log);
            }
            Op::Term => {
                let r = session.terminate(accum).map_err(e)?;
                log.push(report_text::<K, F>(&r));
                return Ok(log);
            }
        }
    }
    Ok(log)
}

/// Within every completed round, all messages are processed at the end in a random order.
fn permuted(ch: &Chooser, ops: &[Op]) -> Vec<Op> {
    let mut out = Vec::new();
    let mut cur: Vec<Op> = Vec::new();
    for op in ops {
        if matches!(op, Op::Fin) {
            let mut adds: Vec<usize> = cur.iter().filter_map(|o| if let Op::Add(k) = o { Some(*k) } else { None }).collect();
            out.extend(cur.iter().filter(|o| !matches!(o, Op::Proc(_) | Op::Add(_))).cloned());
            let mut procs = adds.clone();
            for v in [&mut adds, &mut procs] {
                for i in (1..v.len()).rev() {
                    v.swap(i, ch.pick(i + 1));
                }
            }
            // Processed in one order, added in another
            out.extend(procs.into_iter().map(Op::Proc));
            out.extend(adds.into_iter().map(Op::Add));
            out.push(Op::Fin);
            cur.clear();
        } else {
            cur.push(op.clone());
        }
    }
    out.extend(cur);
    out
}

pub fn check<K: Kit, F: SimFormat>(
    ch: &Chooser,
    cfg: &Arc<KitCfg>,
    sid: &SessionId,
    rec: &Recording,
    ended: bool,
    stats: &mut RunStats,
) -> Vec<Violation> {
    let mut viols = Vec::new();
    let mut bad = |kind: &str, detail: String| {
        viols.push(Violation {
            props: vec!["P22"],
            kind: kind.into(),
            detail: format!("party {}: {detail}", rec.id),
        })
    };
    let diff = |a: &[String], b: &[String]| -> String {
        let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let cut = |s: Option<&String>| s.map(|s| s.chars().take(600).collect::<String>());
        format!("entry {i}: {:?} against {:?}", cut(a.get(i)), cut(b.get(i)))
    };
    let run = |ops: &[Op]| -> Result<Vec<String>, String> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute::<K, F>(cfg, sid, rec, ops)))
            .unwrap_or_else(|e| Err(crate::world::panic_text(e)))
    };
    stats.add("executions_repeated", 1);
    match run(&rec.ops) {
        Ok(log) if log == rec.log => {}
        Ok(log) => bad("another outcome for the same inputs", diff(&rec.log, &log)),
        Err(e) => bad("another outcome for the same inputs", e),
    }
    if ended && viols.is_empty() {
        let ops = permuted(ch, &rec.ops);
        stats.add("executions_permuted", 1);
        let mut bad = |kind: &str, detail: String| {
            viols.push(Violation {
                props: vec!["P22"],
                kind: kind.into(),
                detail: format!("party {}: {detail}", rec.id),
            })
        };
        let keep = |l: &[String]| -> Vec<String> { l.iter().filter(|s| !s.starts_with("can ")).cloned().collect() };
        match run(&ops) {
            Ok(log) if keep(&log) == keep(&rec.log) => {}
            Ok(log) => bad("the processing order matters", diff(&keep(&rec.log), &keep(&log))),
            Err(e) => bad("the processing order matters", e),
        }
    }
    viols
}
