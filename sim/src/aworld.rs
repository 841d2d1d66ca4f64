//! The asynchronous world: the drivers from `manul::session::tokio` run as tasks of a simulated
//! single-threaded runtime, their workers as coroutines, the channels are real, and a simulated
//! router with delays, stalls, losses and other faults lies between the outgoing and the incoming
//! channels.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use manul::protocol::LocalError;
use manul::session::tokio::{par_run_session, run_session, MessageIn, MessageOut};
use manul::session::{CanFinalize, Message, RoundOutcome, Session, SessionId, SessionOutcome, SessionReport};
use rand_chacha::ChaCha8Rng;
use rand_core::SeedableRng;
use tokio::sync::mpsc;
use tokio_util::sync::CancellationToken;

use crate::asim::{self, spawn, AssertSend, Driven, Sim, Weather};
use crate::chooser::{hash, hash_bytes, Chooser};
use crate::mix::{art_of, model, Ev, Kit, KitCfg, Probe, ProbeCtl, Slot, DIRECT};
use crate::params::{SignedLog, SimFormat, SimSP, Sk, Vk};
use crate::spec::{describe, gen, gen_star, Shape};
use crate::stats::{RunOut, RunStats, Violation};
use crate::wire::{MMsg, MRoundId};
use crate::world::{check_evidence, lockstep, panic_text, report_text, Pos, Traffic};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Driver {
    Seq,
    Par,
    Mix,
}

/// What may happen in a run, in permille of runs.
#[derive(Debug, Clone)]
pub struct AProfile {
    pub driver: Driver,
    /// Some parties misbehave.
    pub bad: u32,
    /// Messages are duplicated, corrupted, replayed.
    pub transport: u32,
    /// Messages are lost.
    pub loss: u32,
    pub crash: u32,
    pub cancel: u32,
    /// Cancellation comes together with lots of messages.
    pub flood: u32,
    /// The router stops for a while or forever.
    pub stall: u32,
    pub close: u32,
    /// One party in the centre of many.
    pub star: u32,
    pub n_max: u16,
}

impl AProfile {
    pub fn named(name: &str, driver: Driver) -> Self {
        let plain = Self {
            driver,
            bad: 0,
            transport: 0,
            loss: 0,
            crash: 0,
            cancel: 0,
            flood: 0,
            stall: 300,
            close: 0,
            star: 0,
            n_max: 5,
        };
        match name {
            "plain" => plain,
            "star" => Self {
                star: 1000,
                cancel: 150,
                ..plain
            },
            "weather" => Self {
                loss: 250,
                crash: 350,
                cancel: 200,
                stall: 500,
                close: 200,
                ..plain
            },
            "byz" => Self {
                bad: 700,
                transport: 500,
                crash: 150,
                cancel: 100,
                loss: 100,
                ..plain
            },
            "cancel" => Self {
                bad: 250,
                transport: 250,
                crash: 100,
                cancel: 1000,
                flood: 250,
                stall: 500,
                star: 30,
                ..plain
            },
            p => panic!("no such profile: {p}"),
        }
    }
}

type Out<F> = MessageOut<SimSP<F>>;
type In<F> = MessageIn<SimSP<F>>;
type Report<K, F> = SessionReport<<K as Kit>::P, SimSP<F>>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Prov {
    Genuine,
    Fault,
}

struct Delivered {
    from: u16,
    msg: Message<Vk>,
    prov: Prov,
}

struct Sent {
    from: u16,
    to: u16,
    round: Option<MRoundId>,
}

struct Cancelled {
    /// How many messages had been taken from the channel at that moment.
    taken: usize,
    polls: u64,
    after_all: bool,
}

enum Ended<K: Kit, F: SimFormat> {
    Ok(Box<Report<K, F>>),
    Err(String),
    Panic(String),
}

/// What is known about a party.
struct Seat<K: Kit, F: SimFormat> {
    par: bool,
    probe: Probe,
    signed: SignedLog,
    token: CancellationToken,
    delivered: Vec<Delivered>,
    cancelled: Option<Cancelled>,
    in_closed: bool,
    out_closed: bool,
    crashed: bool,
    polls: Rc<Cell<u64>>,
    /// Time and result.
    ended: Option<Ended<K, F>>,
    /// Messages left in the channel after the end.
    left: usize,
    workers_left: usize,
    stuck: bool,
}

struct Net<K: Kit, F: SimFormat> {
    seats: Vec<Seat<K, F>>,
    ins: Vec<Option<mpsc::Sender<In<F>>>>,
    in_cap: usize,
    sent: Vec<Sent>,
    odd: Vec<(Vec<&'static str>, String, String)>,
    stats: BTreeMap<&'static str, u64>,
    trace: Option<Vec<String>>,
    start: Option<tokio::time::Instant>,
    last_us: u64,
    sid: SessionId,
    garbage: Vec<(u16, Message<Vk>)>,
    finished: usize,
}

type Shared<K, F> = Rc<RefCell<Net<K, F>>>;

impl<K: Kit, F: SimFormat> Net<K, F> {
    fn note(&mut self, sim: &Sim, code: u64, line: impl FnOnce() -> String) {
        let us = self.start.map_or(0, |s| s.elapsed().as_micros() as u64);
        // The waiting for things to come to rest does not count.
        if us < 50_000_000_000 {
            self.last_us = self.last_us.max(us);
        }
        sim.note(code);
        if let Some(t) = &mut self.trace {
            t.push(format!("[{} ms] {}", us / 1000, line()));
        }
    }
    fn count(&mut self, what: &'static str) {
        *self.stats.entry(what).or_default() += 1;
    }
    /// How many messages a party has taken from its channel.
    fn taken(&self, id: u16) -> usize {
        let queued = match &self.ins[id as usize] {
            Some(tx) if !tx.is_closed() => tx.max_capacity() - tx.capacity(),
            _ => self.seats[id as usize].left,
        };
        self.seats[id as usize].delivered.len().saturating_sub(queued)
    }
}

fn cancel<K: Kit, F: SimFormat>(net: &Shared<K, F>, sim: &Sim, id: u16, after_all: bool) {
    let token = {
        let mut n = net.borrow_mut();
        if n.seats[id as usize].cancelled.is_some() || n.seats[id as usize].ended.is_some() {
            return;
        }
        let taken = n.taken(id);
        let polls = n.seats[id as usize].polls.get();
        n.seats[id as usize].cancelled = Some(Cancelled {
            taken,
            polls,
            after_all,
        });
        if !after_all {
            n.count("fault_cancel");
        }
        n.note(sim, hash(&[50, id as u64]), || format!("party {id} is cancelled"));
        n.seats[id as usize].token.clone()
    };
    token.cancel();
}

/// Fills the channel of a party with messages that are of no use.
fn flood<K: Kit, F: SimFormat>(net: &Shared<K, F>, sim: &Sim, id: u16, count: usize) {
    let mut n = net.borrow_mut();
    let Some(tx) = n.ins[id as usize].clone() else { return };
    if n.garbage.is_empty() {
        return;
    }
    n.count("fault_flood");
    n.note(sim, hash(&[51, id as u64]), || format!("party {id} is flooded"));
    for i in 0..count {
        let k = i % n.garbage.len();
        let (from, msg) = n.garbage[k].clone();
        if tx
            .try_send(MessageIn {
                from: Vk(from),
                message: msg.clone(),
            })
            .is_err()
        {
            break;
        }
        n.seats[id as usize].delivered.push(Delivered {
            from,
            msg,
            prov: Prov::Fault,
        });
    }
}

fn deliver<K: Kit, F: SimFormat>(net: Shared<K, F>, sim: Rc<Sim>, to: u16, d: Delivered, delay: u64) {
    spawn(async move {
        if delay > 0 {
            tokio::time::sleep(Duration::from_millis(delay)).await;
        }
        let tx = net.borrow().ins[to as usize].clone();
        let Some(tx) = tx else { return };
        let waits = tx.capacity() == 0;
        if waits {
            net.borrow_mut().count("deliveries_waited");
        }
        let Ok(permit) = tx.reserve().await else {
            net.borrow_mut().count("deliveries_too_late");
            return;
        };
        let mut n = net.borrow_mut();
        let from = d.from;
        n.note(&sim, hash(&[52, to as u64, from as u64]), || {
            format!("{from} -> {to} delivered ({:?})", d.prov)
        });
        permit.send(MessageIn {
            from: Vk(d.from),
            message: d.msg.clone(),
        });
        n.count("delivered");
        n.seats[to as usize].delivered.push(d);
    });
}

/// The adversities of the router in a run.
#[derive(Debug, Clone, Default)]
struct Faults {
    delay: u32,
    max_delay: usize,
    slow_router: u32,
    stall: Option<(u64, Option<u64>)>,
    loss: u32,
    dup: u32,
    corrupt: u32,
    garbage: u32,
}

/// Changes something in the message.
fn corrupted(ch: &Chooser, msg: &Message<Vk>) -> Option<Message<Vk>> {
    let mut m = MMsg::of(msg)?;
    let k = ch.pick(3);
    match ch.pick(5) {
        0 => m.destination = Vk(m.destination.0 ^ 1),
        1 => {
            let sig = &mut m.part_mut(k).signature.0;
            if let Some(b) = sig.last_mut() {
                *b ^= 1;
            }
        }
        2 => {
            let p = &mut m.part_mut(k).message_with_metadata;
            match &mut p.message {
                Some(b) if !b.0.is_empty() => {
                    let i = ch.pick(b.0.len());
                    b.0[i] ^= 1;
                }
                other => *other = None,
            }
        }
        3 => {
            let sid = &mut m.part_mut(k).message_with_metadata.metadata.session_id.0;
            if let Some(b) = sig_byte(sid) {
                *b ^= 1;
            }
        }
        _ => {
            let r = &mut m.part_mut(k).message_with_metadata.metadata.round_id;
            r.is_echo = !r.is_echo;
        }
    }
    m.to_msg()
}
fn sig_byte(b: &mut [u8]) -> Option<&mut u8> {
    b.last_mut()
}

async fn router<K: Kit, F: SimFormat>(
    net: Shared<K, F>,
    sim: Rc<Sim>,
    mut rx: mpsc::Receiver<Out<F>>,
    faults: Faults,
    close: Option<u64>,
    mine: Vec<u16>,
) {
    let start = tokio::time::Instant::now();
    let ch = sim.ch.clone();
    loop {
        let now = start.elapsed().as_millis() as u64;
        if let Some((from, until)) = faults.stall {
            if now >= from && until.is_none_or(|u| now < u) {
                net.borrow_mut().count("fault_stall");
                match until {
                    None => std::future::pending::<()>().await,
                    Some(u) => tokio::time::sleep(Duration::from_millis(u - now)).await,
                }
            }
        }
        if faults.slow_router > 0 && ch.chance(faults.slow_router) {
            tokio::time::sleep(Duration::from_millis(1 + ch.pick(20) as u64)).await;
        }
        let out = tokio::select! {
            biased;
            _ = async {
                match close {
                    Some(t) => tokio::time::sleep_until(start + Duration::from_millis(t)).await,
                    None => std::future::pending().await,
                }
            } => {
                let mut n = net.borrow_mut();
                n.count("fault_close_out");
                n.note(&sim, 53, || format!("the outgoing channel of {mine:?} is closed"));
                for id in &mine {
                    n.seats[*id as usize].out_closed = true;
                }
                return;
            }
            m = rx.recv() => match m {
                Some(m) => m,
                None => return,
            },
        };
        let mut n = net.borrow_mut();
        let (from, to) = (out.from.0, out.to.0);
        if !mine.contains(&from) || out.session_id != n.sid {
            n.odd.push((
                vec!["P14", "P15"],
                "mislabelled message".into(),
                format!("a message of one of {mine:?} is labelled as from {from}, {:?}", out.session_id),
            ));
        }
        let m = MMsg::of(&out.message);
        if let Some(m) = &m {
            if m.destination.0 != to {
                n.odd.push((
                    vec!["P14", "P15"],
                    "mislabelled message".into(),
                    format!("a message of {from} for {:?} is labelled as for {to}", m.destination),
                ));
            }
        }
        let round = m.as_ref().map(|m| m.round().clone());
        n.note(&sim, hash(&[54, from as u64, to as u64]), || format!("{from} -> {to} sent, {round:?}"));
        n.sent.push(Sent { from, to, round });
        if to as usize >= n.seats.len() {
            n.odd.push((
                vec!["P14", "P15"],
                "mislabelled message".into(),
                format!("a message of {from} is labelled as for {to}"),
            ));
            continue;
        }
        n.count("messages_sent");
        let mut go: Vec<Delivered> = Vec::new();
        if faults.loss > 0 && ch.chance(faults.loss) {
            n.count("fault_loss");
        } else if faults.corrupt > 0 && ch.chance(faults.corrupt) {
            match corrupted(&ch, &out.message) {
                None => {}
                Some(msg) => {
                    n.count("fault_corrupt");
                    go.push(Delivered {
                        from,
                        msg,
                        prov: Prov::Fault,
                    });
                }
            }
        } else {
            go.push(Delivered {
                from,
                msg: out.message.clone(),
                prov: Prov::Genuine,
            });
        }
        if faults.dup > 0 && ch.chance(faults.dup) {
            n.count("fault_duplicate");
            go.push(Delivered {
                from,
                msg: out.message.clone(),
                prov: Prov::Fault,
            });
        }
        if faults.garbage > 0 && ch.chance(faults.garbage) && !n.garbage.is_empty() {
            n.count("fault_replay");
            let (f, msg) = n.garbage[ch.pick(n.garbage.len())].clone();
            let f = if ch.chance(300) { from } else { f };
            go.push(Delivered {
                from: f,
                msg,
                prov: Prov::Fault,
            });
        }
        if n.garbage.len() < 400 {
            n.garbage.push((from, out.message));
        }
        drop(n);
        for d in go {
            let delay = if faults.delay > 0 && ch.chance(faults.delay) {
                1 + ch.pick(faults.max_delay) as u64
            } else {
                0
            };
            deliver(net.clone(), sim.clone(), to, d, delay);
        }
    }
}

pub fn run<K: Kit, F: SimFormat>(ch: Chooser, prof: &AProfile, trace: bool) -> RunOut {
    let mut shape = Shape::new(K::SEGS, K::ENTRY_MASKS);
    shape.n_max = prof.n_max;
    shape.echo = 350;
    shape.partial = 350;
    let star = prof.star > 0 && shape.entry_masks.iter().flatten().all(|m| m & 2 == 0) && ch.chance(prof.star);
    let cfg = Arc::new(if star {
        gen_star(&ch, &shape)
    } else {
        gen(&ch, &shape)
    });
    let n = cfg.n();
    let seed = ch.salt();
    let sid = SessionId::from_seed::<SimSP<F>>(&seed.to_be_bytes());
    let sid_num = hash_bytes(sid.as_ref());

    // The mixture of this run
    let weather = match ch.pick(4) {
        0 => Weather::default(),
        1 => Weather {
            shuffle: 1000,
            lifo: 0,
            late: 300,
            preempt: 150,
        },
        2 => Weather {
            shuffle: 500,
            lifo: 300,
            late: 700,
            preempt: 400,
        },
        _ => Weather {
            shuffle: 100,
            lifo: 800,
            late: 200,
            preempt: 300,
        },
    };
    let sim = Sim::new(ch.clone(), weather, 400_000 + n as u64 * 4_000);
    let has_bad = ch.chance(prof.bad);
    let has_transport = ch.chance(prof.transport);
    let has_crash = ch.chance(prof.crash);
    let has_cancel = ch.chance(prof.cancel);
    let has_close = ch.chance(prof.close);
    let has_loss = ch.chance(prof.loss);
    let has_flood = has_cancel && ch.chance(prof.flood);
    let few = |p: u32| [p, p / 3, p / 10][ch.pick(3)];
    let faults = Faults {
        delay: [0, 300, 800, 1000][ch.pick(4)],
        max_delay: [1, 5, 50, 400][ch.pick(4)],
        slow_router: [0, 0, 200, 900][ch.pick(4)],
        stall: None,
        loss: if has_loss { few(300) } else { 0 },
        dup: if has_transport { few(150) } else { 0 },
        corrupt: if has_transport { few(100) } else { 0 },
        garbage: if has_transport { few(150) } else { 0 },
    };
    let caps: [usize; 6] = [100, 1, 2, 3, 8, 1000];
    let out_cap = caps[ch.pick(6)];
    let in_cap = if has_flood { 600 } else { caps[ch.pick(6)] };
    let shared_out = !ch.chance(500);
    let bads: BTreeSet<u16> = if has_bad {
        let all: Vec<u16> = (0..n).collect();
        let mut s: BTreeSet<u16> = ch.subset(&all, if star { 20 } else { 300 }).into_iter().collect();
        if s.is_empty() {
            s.insert(ch.pick(n as usize) as u16);
        }
        s
    } else {
        BTreeSet::new()
    };
    let hub_only = star;

    let net: Shared<K, F> = Rc::new(RefCell::new(Net {
        seats: Vec::new(),
        ins: Vec::new(),
        in_cap,
        sent: Vec::new(),
        odd: Vec::new(),
        stats: BTreeMap::new(),
        trace: trace.then(Vec::new),
        start: None,
        last_us: 0,
        sid: sid.clone(),
        garbage: Vec::new(),
        finished: 0,
    }));
    if has_flood || has_transport {
        let other = SessionId::from_seed::<SimSP<F>>(&(seed ^ 1).to_be_bytes());
        let shadow: Traffic = lockstep::<K, F>(&cfg, &other, ch.salt(), true);
        net.borrow_mut().garbage = shadow
            .into_iter()
            .take(50)
            .filter_map(|(f, _, m)| m.to_msg().map(|m| (f, m)))
            .collect();
    }

    let sim2 = sim.clone();
    let net2 = net.clone();
    let cfg2 = cfg.clone();
    let (bads2, sid2) = (bads.clone(), sid.clone());
    let finished = sim.run(async move {
        let (sim, net, cfg, bads, sid) = (sim2, net2, cfg2, bads2, sid2);
        let ch = sim.ch.clone();
        net.borrow_mut().start = Some(tokio::time::Instant::now());
        // Outgoing channels and their routers
        let mut faults = faults;
        let close_out = has_close && ch.chance(400);
        let mut outs: Vec<mpsc::Sender<Out<F>>> = Vec::new();
        let mut routers = Vec::new();
        let stalls = ch.chance(prof.stall);
        let mut stalled_forever: BTreeSet<u16> = BTreeSet::new();
        let mut one = |ids: Vec<u16>| -> mpsc::Sender<Out<F>> {
            let (tx, rx) = mpsc::channel(out_cap);
            faults.stall = if stalls && ch.chance(700) {
                let from = [0, 1, 10, 100][ch.pick(4)];
                // For ever only if that is not expected to end well.
                let forever = has_cancel && ch.chance(300);
                if forever {
                    stalled_forever.extend(&ids);
                }
                Some((from, (!forever).then(|| from + 1 + ch.pick(500) as u64)))
            } else {
                None
            };
            let close = (close_out && ch.chance(500)).then(|| ch.pick(100) as u64);
            routers.push(spawn(router::<K, F>(net.clone(), sim.clone(), rx, faults.clone(), close, ids)));
            tx
        };
        if shared_out {
            let tx = one((0..n).collect());
            outs = (0..n).map(|_| tx.clone()).collect();
        } else {
            for id in 0..n {
                outs.push(one(vec![id]));
            }
        }
        drop(one);
        // Parties
        let mut handles = Vec::new();
        let mut outs = outs.into_iter();
        for id in 0..n {
            let tx = outs.next().expect("one for each");
            let (in_tx, mut rx) = mpsc::channel::<In<F>>(in_cap);
            let par = match prof.driver {
                Driver::Seq => false,
                Driver::Par => true,
                Driver::Mix => ch.chance(500),
            };
            let token = CancellationToken::new();
            let central = !hub_only || id == 0;
            // 0: none, 1: before a poll, 2: in an event, 3: at a time
            let how = if has_cancel && central && ch.chance(if hub_only { 900 } else { 500 }) {
                1 + ch.pick(3)
            } else {
                0
            };
            let (at_poll, at_event, at_time) = match how {
                1 => (Some(1 + [ch.pick(4), ch.pick(20), ch.pick(60)][ch.pick(3)] as u64), None, None),
                2 => (None, Some([ch.pick(5), ch.pick(30), ch.pick(200)][ch.pick(3)]), None),
                3 => (None, None, Some([0, ch.pick(10) as u64, ch.pick(600) as u64][ch.pick(3)])),
                _ => (None, None, None),
            };
            let drown = has_flood && how == 1;
            let polls = Rc::new(Cell::new(0));
            let me = AssertSend((net.clone(), sim.clone()));
            let ctl = ProbeCtl {
                bad: bads.contains(&id).then(|| hash(&[seed, 12, id as u64])),
                script: BTreeMap::new(),
                on_event: Some(Box::new(move |_ev, k| {
                    let me = &me;
                    if at_event == Some(k) {
                        cancel(&me.0 .0, &me.0 .1, id, false);
                    }
                    asim::preempt();
                })),
                ..Default::default()
            };
            let probe = Probe(Default::default(), Arc::new(ctl));
            let signed: SignedLog = Arc::new(Mutex::new(Vec::new()));
            {
                let mut net = net.borrow_mut();
                net.ins.push(Some(in_tx));
                net.seats.push(Seat {
                    par,
                    probe: probe.clone(),
                    signed: signed.clone(),
                    token: token.clone(),
                    delivered: Vec::new(),
                    cancelled: None,
                    in_closed: false,
                    out_closed: false,
                    crashed: false,
                    polls: polls.clone(),
                    ended: None,
                    left: 0,
                    workers_left: 0,
                    stuck: false,
                });
            }
            let mut rng = ChaCha8Rng::seed_from_u64(hash(&[seed, 13, id as u64]));
            let session = Session::<K::P, SimSP<F>>::new(&mut rng, sid.clone(), Sk::recorded(id, signed), K::entry(&cfg, &probe));
            let session = match session {
                Ok(s) => s,
                Err(e) => {
                    net.borrow_mut().odd.push((
                        vec!["P14", "P15", "P08"],
                        "local error".into(),
                        format!("Session::new: {e:?}"),
                    ));
                    continue;
                }
            };
            let late = if ch.chance(250) { ch.pick(100) as u64 } else { 0 };
            let (net3, sim3) = (net.clone(), sim.clone());
            let handle = spawn(async move {
                if late > 0 {
                    tokio::time::sleep(Duration::from_millis(late)).await;
                }
                let token2 = token.clone();
                let fut = async {
                    let r: Result<Report<K, F>, LocalError> = if par {
                        par_run_session(&mut rng, &tx, &mut rx, token2, session).await
                    } else {
                        run_session(&mut rng, &tx, &mut rx, token2, session).await
                    };
                    r
                };
                let (net4, sim4) = (net3.clone(), sim3.clone());
                let r = Driven {
                    party: id,
                    fut: Box::pin(fut),
                    polls,
                    at_poll: at_poll.map(|k| {
                        let f: Box<dyn FnOnce()> = Box::new(move || {
                            let late = net4.borrow().seats[id as usize].cancelled.is_some();
                            if drown && !late {
                                flood(&net4, &sim4, id, 300);
                            }
                            cancel(&net4, &sim4, id, false)
                        });
                        (k, f)
                    }),
                }
                .await;
                rx.close();
                let mut left = 0;
                while rx.try_recv().is_ok() {
                    left += 1;
                }
                let mut n = net3.borrow_mut();
                n.seats[id as usize].left = left;
                n.seats[id as usize].workers_left = sim3.live_of(id);
                let ended = match r {
                    Ok(Ok(r)) => Ended::Ok(Box::new(r)),
                    Ok(Err(e)) => Ended::Err(format!("{e:?}")),
                    Err(p) => Ended::Panic(panic_text(p)),
                };
                n.note(&sim3, hash(&[55, id as u64]), || {
                    format!(
                        "party {id} ends: {}",
                        match &ended {
                            Ended::Ok(r) => r.outcome.brief(),
                            Ended::Err(e) => e.clone(),
                            Ended::Panic(e) => e.clone(),
                        }
                    )
                });
                n.seats[id as usize].ended = Some(ended);
                n.finished += 1;
            });
            if let Some(t) = at_time {
                let (net, sim) = (net.clone(), sim.clone());
                spawn(async move {
                    tokio::time::sleep(Duration::from_millis(t)).await;
                    cancel(&net, &sim, id, false);
                });
            }
            if has_crash && ch.chance(if hub_only { 30 } else { 350 }) {
                let t = [0, ch.pick(10) as u64, ch.pick(300) as u64][ch.pick(3)];
                let abort = handle.abort_handle();
                let (net, sim) = (net.clone(), sim.clone());
                spawn(async move {
                    tokio::time::sleep(Duration::from_millis(t)).await;
                    let mut n = net.borrow_mut();
                    if n.seats[id as usize].ended.is_none() {
                        n.count("fault_crash");
                        n.note(&sim, hash(&[56, id as u64]), || format!("party {id} crashes"));
                        n.seats[id as usize].crashed = true;
                        n.finished += 1;
                        drop(n);
                        abort.abort();
                    }
                });
            }
            if has_close && central && ch.chance(300) {
                let t = [0, ch.pick(10) as u64, ch.pick(300) as u64][ch.pick(3)];
                let (net, sim) = (net.clone(), sim.clone());
                spawn(async move {
                    tokio::time::sleep(Duration::from_millis(t)).await;
                    let mut n = net.borrow_mut();
                    if n.seats[id as usize].ended.is_none() {
                        n.count("fault_close_in");
                        n.note(&sim, hash(&[57, id as u64]), || format!("the incoming channel of {id} is closed"));
                        n.seats[id as usize].in_closed = true;
                        let tx = n.ins[id as usize].take();
                        drop(n);
                        drop(tx);
                    }
                });
            }
            handles.push(handle);
        }
        // Let everything come to rest.
        let all = async {
            while net.borrow().finished < n as usize {
                tokio::time::sleep(Duration::from_millis(500)).await;
                if net.borrow().start.is_some_and(|s| s.elapsed().as_secs() > 60) {
                    break;
                }
            }
        };
        all.await;
        // The routers have to get everything.
        tokio::time::sleep(Duration::from_secs(60)).await;
        let waiting: Vec<u16> = {
            let mut net = net.borrow_mut();
            (0..n)
                .filter(|id| {
                    let s = &mut net.seats[*id as usize];
                    s.stuck = s.ended.is_none() && !s.crashed;
                    s.stuck
                })
                .collect()
        };
        if !waiting.is_empty() {
            for id in &waiting {
                cancel(&net, &sim, *id, true);
            }
            tokio::time::sleep(Duration::from_secs(60)).await;
        }
        for h in &handles {
            h.abort();
        }
        for h in &routers {
            h.abort();
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
        stalled_forever
    });

    // Judgement
    let mut out = RunOut::default();
    let mut net = net.borrow_mut();
    let mut viols: Vec<(Vec<&'static str>, String, String)> = std::mem::take(&mut net.odd);
    let stats = &mut out.stats;
    let Some(stalled_forever) = finished else {
        viols.push((
            vec!["P14", "P15", "P16"],
            "no progress".into(),
            format!("the tasks are still busy after {} steps", sim.steps.get()),
        ));
        finish(&mut out, &net, &sim, viols, &cfg, K::NAME, F::NAME);
        return out;
    };
    let calm = bads.is_empty() && !has_transport;
    let clean = calm && !has_cancel && !has_crash && !has_close && !has_loss;
    let known = Known::new::<K, F>(&cfg, &sid, seed);
    let m = model(&cfg, sid_num);
    for id in 0..n {
        let Some(seat) = net.seats.get(id as usize) else { continue };
        let events = seat.probe.events();
        stats.add("events", events.len() as u64);
        let dp = if seat.par { "P15" } else { "P14" };
        let mut bad = |props: &[&'static str], kind: &str, detail: String| {
            viols.push((props.to_vec(), kind.into(), format!("party {id} ({}): {detail}", if seat.par { "par" } else { "seq" })));
        };
        let real_cancel = seat.cancelled.as_ref().is_some_and(|c| !c.after_all);
        let props: Vec<&'static str> = if real_cancel { vec![dp, "P16"] } else { vec![dp] };
        stats.add(if seat.par { "par_parties" } else { "seq_parties" }, 1);
        // Sending
        let mine: Vec<&Sent> = net.sent.iter().filter(|s| s.from == id).collect();
        let lossless = !seat.crashed && !real_cancel && !seat.out_closed && !stalled_forever.contains(&id) && !matches!(seat.ended, Some(Ended::Err(_)));
        if let Err(e) = known.check_sent(&cfg, id, &mine, &events, lossless) {
            bad(&props, "sending", e);
        }
        if seat.crashed {
            stats.add("crashed", 1);
            continue;
        }
        let taken = seat.delivered.len() - seat.left.min(seat.delivered.len());
        if let (Some(c), true) = (&seat.cancelled, seat.ended.is_some()) {
            let more = taken.saturating_sub(c.taken);
            stats.add("cancelled_returned", 1);
            if more > 100 {
                bad(&["P16"], "late return", format!("{more} messages were taken after the cancellation"));
            }
            if seat.polls.get() > c.polls + 5000 {
                bad(&["P16"], "late return", format!("{} polls after the cancellation", seat.polls.get() - c.polls));
            }
        }
        match &seat.ended {
            None => {
                bad(&["P16", dp], "no return", "does not return after having been cancelled".into());
                continue;
            }
            Some(Ended::Panic(e)) => {
                bad(&props, "panic", e.clone());
                continue;
            }
            _ => {}
        }
        if seat.stuck && real_cancel {
            bad(&["P16"], "no return", "did not return in time after having been cancelled".into());
        }
        check_events(&cfg, id, &events, None, &mut |k, d| bad(&props, k, d));
        // What the session itself makes of the same messages
        let script: BTreeMap<Slot, u64> = events
            .iter()
            .filter_map(|e| match e {
                Ev::Make {
                    seg, idx, part, dest, body,
                } => Some(((*seg, *idx, *part, *dest), body.token)),
                _ => None,
            })
            .collect();
        let nonces: BTreeMap<Vec<u8>, [u8; 16]> = seat.signed.lock().unwrap().iter().cloned().collect();
        let reference = Reference::<K, F> {
            cfg: &cfg,
            sid: &sid,
            id,
            script,
            nonces: Arc::new(nonces),
            bad: bads.contains(&id).then(|| hash(&[seed, 12, id as u64])),
            input: &seat.delivered[..taken.min(seat.delivered.len())],
            _p: Default::default(),
        };
        let exact = !seat.par || (calm && seat.delivered.iter().all(|d| d.prov == Prov::Genuine));
        let plain = if exact || seat.stuck { Some(reference.run(None, seat.par)) } else { None };
        if let Some(Err(e)) = &plain {
            bad(&["P14", "P15"], "local error", format!("in the session: {e}"));
            continue;
        }
        let plain = plain.and_then(|p| p.ok());
        match &seat.ended {
            Some(Ended::Err(e)) => {
                if !seat.in_closed && !seat.out_closed {
                    bad(&props, "local error", e.clone());
                } else if !seat.out_closed && !seat.par && !real_cancel {
                    stats.add("failed_by_closing", 1);
                    if let Some(RefEnd::Finished(t)) = &plain {
                        bad(&props, "result lost", format!("failed with {e} instead of {t}"));
                    }
                }
            }
            Some(Ended::Ok(report)) => {
                let text = full_text::<K, F>(report);
                if seat.workers_left > 0 {
                    bad(
                        &["P16", "P15"],
                        "workers left",
                        format!("{} workers are still there after the return", seat.workers_left),
                    );
                }
                check_events(&cfg, id, &events, Some(&summary::<K, F>(report)), &mut |k, d| bad(&props, k, d));
                let kind = match &report.outcome {
                    SessionOutcome::Result(_) => "ended_result",
                    SessionOutcome::NotEnoughMessages => "ended_not_enough",
                    SessionOutcome::Terminated => "ended_terminated",
                };
                stats.add(kind, 1);
                if matches!(report.outcome, SessionOutcome::Terminated) && seat.cancelled.is_none() {
                    bad(&["P16", dp], "terminated by nobody", text.clone());
                }
                if clean && !stalled_forever.contains(&id) {
                    match &report.outcome {
                        SessionOutcome::Result(r) if r.hist == m.results[&id] && r.me == id => {}
                        o => bad(&props, "wrong result", format!("{} instead of {:x}", o.brief(), m.results[&id])),
                    }
                }
                if exact {
                    let mut allowed: Vec<String> = Vec::new();
                    match &plain {
                        Some(RefEnd::Finished(t)) => allowed.push(t.clone()),
                        Some(RefEnd::Waiting(t)) if seat.cancelled.is_some() => allowed.push(t.clone()),
                        _ => {}
                    }
                    let mut ok = allowed.contains(&text);
                    if !ok && seat.cancelled.is_some() {
                        for k in 0..10_000 {
                            match reference.run(Some(k), seat.par) {
                                Ok(RefEnd::Stopped(t)) => {
                                    ok = ok || t == text;
                                    if ok {
                                        break;
                                    }
                                    allowed.push(t);
                                }
                                _ => break,
                            }
                        }
                    }
                    stats.add("reports_compared", 1);
                    if !ok {
                        allowed.truncate(3);
                        bad(&props, "report", format!("{text} instead of {allowed:#?}"));
                    }
                }
                for (k, ev) in report.provable_errors.iter().filter(|_| !bads.contains(&id)) {
                    stats.add("evidence_checked", 1);
                    if let Err(e) = check_evidence::<K, F>(ev, &K::shared(&cfg)) {
                        bad(&["P06", dp], "evidence", format!("against {k:?}: {e}"));
                    }
                }
            }
            _ => {}
        }
        // Waiting for something that never comes?
        if seat.stuck && !real_cancel && !stalled_forever.contains(&id) {
            stats.add("waited_in_vain", 1);
            if taken != seat.delivered.len() {
                bad(&props, "stuck", format!("{} messages are not taken from the channel", seat.delivered.len() - taken));
            } else if seat.in_closed {
                bad(&props, "stuck", "does not notice that the channel is closed".into());
            } else if exact {
                if let Some(RefEnd::Finished(t)) = &plain {
                    bad(&props, "stuck", format!("instead of {t}"));
                }
            } else if let Some(Ended::Ok(report)) = &seat.ended {
                let justified = report.missing_messages.iter().any(|(r, who)| {
                    let r = MRoundId::of(r);
                    who.iter().any(|w| {
                        r.is_none()
                            || !seat.delivered.iter().any(|d| {
                                d.from == w.0
                                    && d.prov == Prov::Genuine
                                    && MMsg::of(&d.msg).map(|m| m.round().clone()) == r
                            })
                    })
                });
                if !justified {
                    bad(&props, "stuck", format!("though everything has arrived: {}", full_text::<K, F>(report)));
                }
            }
        }
    }
    // Freshness
    let logs: Vec<_> = net.seats.iter().map(|s| (s.probe.events(), s.signed.lock().unwrap().iter().map(|x| x.1).collect::<Vec<_>>())).collect();
    stats.add("random_values", logs.iter().map(|l| l.0.len() as u64 + l.1.len() as u64).sum());
    if let Some(e) = freshness(&logs) {
        viols.push((vec!["P17"], "randomness used twice".into(), e));
    }
    stats.add("finished_runs", 1);
    if clean {
        stats.add("plain_runs", 1);
    }
    finish(&mut out, &net, &sim, viols, &cfg, K::NAME, F::NAME);
    out
}

/// Whether any random value was used twice.
pub fn freshness(logs: &[(Vec<Ev>, Vec<[u8; 16]>)]) -> Option<String> {
    let mut seen: BTreeMap<u64, String> = BTreeMap::new();
    for (id, (events, nonces)) in logs.iter().enumerate() {
        let mut made: BTreeSet<Slot> = BTreeSet::new();
        let tokens = events.iter().filter_map(|e| match e {
            Ev::Make {
                seg, idx, part, dest, body,
            } => {
                let slot = (*seg, *idx, *part, *dest);
                let again = !made.insert(slot);
                Some((body.token, format!("the message {slot:?} of {id}{}", if again { " (made again)" } else { "" })))
            }
            _ => None,
        });
        let nonces = nonces.iter().enumerate().flat_map(|(i, n)| {
            let w = |k: usize| u64::from_le_bytes(n[8 * k..8 * k + 8].try_into().unwrap());
            [(w(0), format!("signature {i} of {id}")), (w(1), format!("signature {i} of {id}"))]
        });
        for (v, what) in tokens.chain(nonces) {
            if let Some(other) = seen.get(&v) {
                return Some(format!("{other} and {what}"));
            }
            seen.insert(v, what);
        }
    }
    None
}

fn finish<K: Kit, F: SimFormat>(
    out: &mut RunOut,
    net: &Net<K, F>,
    sim: &Sim,
    viols: Vec<(Vec<&'static str>, String, String)>,
    cfg: &KitCfg,
    kit: &str,
    format: &str,
) {
    for (k, v) in &net.stats {
        out.stats.add(k, *v);
    }
    out.stats.add("workers_started", sim.workers_started.get());
    out.stats.add("workers_blocked_on_a_channel", sim.blocked.get());
    out.stats.add("fault_worker_preempted", sim.preempted.get());
    out.stats.add("fault_worker_late", sim.late.get());
    if sim.max_live.get() > 100 {
        out.stats.add("runs_with_over_100_workers_at_once", 1);
    }
    out.stats.steps = sim.steps.get();
    out.stats.fingerprint = sim.fingerprint.get();
    out.stats.sim_us = net.last_us;
    out.label = format!("{kit} {} parties, wire format {format}, channels of {}", cfg.n(), net.in_cap);
    for (props, kind, detail) in viols {
        out.violations.push(Violation { props, kind, detail });
    }
    if let Some(t) = &net.trace {
        out.trace = describe(cfg).into_iter().take(40).chain(t.iter().cloned()).collect();
    }
}

pub fn full_text<K: Kit, F: SimFormat>(r: &Report<K, F>) -> String {
    let result = match &r.outcome {
        SessionOutcome::Result(r) => format!(" with {r:?}"),
        _ => String::new(),
    };
    format!("{}{result}", report_text::<K, F>(r))
}

/// A report without its types.
pub struct Summary {
    pub result: Option<u64>,
    pub errors: BTreeSet<u16>,
    pub missing: BTreeMap<Option<MRoundId>, BTreeSet<u16>>,
}

pub fn summary<K: Kit, F: SimFormat>(r: &Report<K, F>) -> Summary {
    Summary {
        result: match &r.outcome {
            SessionOutcome::Result(r) => Some(r.hist),
            _ => None,
        },
        errors: r
            .provable_errors
            .keys()
            .chain(r.unprovable_errors.keys())
            .map(|v| v.0)
            .collect(),
        missing: r
            .missing_messages
            .iter()
            .map(|(k, v)| (MRoundId::of(k), v.iter().map(|x| x.0).collect()))
            .collect(),
    }
}

/// What the protocol code saw has to be consistent in itself and with the report.
pub fn check_events(
    cfg: &KitCfg,
    id: u16,
    events: &[Ev],
    report: Option<&Summary>,
    bad: &mut dyn FnMut(&str, String),
) {
    let mut made: BTreeMap<Slot, u64> = BTreeMap::new();
    let mut heard: BTreeMap<(u8, u8), BTreeMap<u16, (&Option<String>, &[Option<crate::mix::Body>; 3])>> = BTreeMap::new();
    let mut results = Vec::new();
    let mut path: Vec<(u8, u8)> = Vec::new();
    for e in events {
        match e {
            Ev::New { seg, idx } => path.push((*seg, *idx)),
            Ev::Make {
                seg, idx, part, dest, body,
            } => {
                if made.insert((*seg, *idx, *part, *dest), body.val).is_some() {
                    bad("message made twice", format!("round {seg}/{idx}, part {part}, for {dest:?}"));
                }
            }
            Ev::Recv {
                seg, idx, from, err, parts,
            } => {
                if heard.entry((*seg, *idx)).or_default().insert(*from, (err, parts)).is_some() {
                    bad("message processed twice", format!("round {seg}/{idx}, from {from}"));
                }
                if let (Some(e), Some(r)) = (err, report) {
                    if !r.errors.contains(from) {
                        bad("error lost", format!("{e} by {from} in round {seg}/{idx} is not in the report"));
                    }
                }
            }
            Ev::Fin {
                seg,
                idx,
                payloads,
                artifacts,
            } => {
                let spec = &cfg.segs[*seg as usize];
                let want = spec.dests(*idx, id);
                let got: BTreeSet<u16> = artifacts.keys().copied().collect();
                if want != got {
                    bad("artifacts", format!("round {seg}/{idx}: for {got:?} instead of {want:?}"));
                }
                let direct = spec.rounds[*idx as usize].has(DIRECT);
                for (d, a) in artifacts {
                    let want = direct.then(|| made.get(&(*seg, *idx, DIRECT, Some(*d))).map(|v| art_of(*v))).flatten();
                    if *a != want {
                        bad("artifacts", format!("round {seg}/{idx}: wrong one for {d}"));
                    }
                }
                let want = spec.expects(*idx, id);
                let got: BTreeSet<u16> = payloads.keys().copied().collect();
                if want != got {
                    bad("payloads", format!("round {seg}/{idx}: from {got:?} instead of {want:?}"));
                }
                let h = heard.get(&(*seg, *idx));
                for (f, p) in payloads {
                    match h.and_then(|h| h.get(f)) {
                        Some((None, parts)) if *parts == p => {}
                        _ => bad("payloads", format!("round {seg}/{idx}: from {f} though not received like that")),
                    }
                }
            }
            Ev::Result { hist } => results.push(*hist),
        }
    }
    // Every part of a chain gives a result.
    let result = if results.len() == cfg.segs.len() { results.last().copied() } else { None };
    if let Some(r) = report {
        if r.result != result {
            bad("outcome", format!("the report says {:?}, the protocol gave {result:?}", r.result));
        }
        if let (None, Some((seg, idx))) = (r.result, path.last()) {
            if let Some(h) = heard.get(&(*seg, *idx)) {
                let num = cfg.segs[*seg as usize].num(*idx);
                for (round, who) in &r.missing {
                    if round.as_ref().is_some_and(|r| r.round == num && !r.is_echo) {
                        for w in who {
                            if h.contains_key(w) {
                                bad("processed party listed as missing", format!("{w} in round {seg}/{idx}"));
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Which rounds there are and how they are called on the wire.
pub struct Known {
    pub rounds: BTreeMap<(u16, MRoundId), Pos>,
}

impl Known {
    pub fn new<K: Kit, F: SimFormat>(cfg: &Arc<KitCfg>, sid: &SessionId, seed: u64) -> Self {
        let traffic = lockstep::<K, F>(cfg, sid, seed, false);
        let mut rounds = BTreeMap::new();
        for id in 0..cfg.n() {
            let mut order: Vec<MRoundId> = Vec::new();
            for (f, _, m) in &traffic {
                if *f == id && order.last() != Some(m.round()) {
                    order.push(m.round().clone());
                }
            }
            let mut order = order.into_iter();
            for (seg, idx) in cfg.path(id) {
                let spec = &cfg.segs[seg as usize];
                if !spec.dests(idx, id).is_empty() {
                    if let Some(r) = order.next() {
                        rounds.insert((id, r), Pos { seg, idx, echo: false });
                    }
                }
                if spec.echoes(idx, id) && !spec.echo_targets(idx, id).is_empty() {
                    if let Some(r) = order.next() {
                        rounds.insert((id, r), Pos { seg, idx, echo: true });
                    }
                }
            }
        }
        Self { rounds }
    }

    fn check_sent(&self, cfg: &KitCfg, id: u16, sent: &[&Sent], events: &[Ev], complete: bool) -> Result<(), String> {
        let mut by_pos: BTreeMap<Pos, Vec<u16>> = BTreeMap::new();
        for s in sent {
            let Some(r) = &s.round else { return Ok(()) };
            let Some(pos) = self.rounds.get(&(id, r.clone())) else {
                return Err(format!("a message for {} in a round it is not supposed to send in: {r:?}", s.to));
            };
            by_pos.entry(*pos).or_default().push(s.to);
        }
        for (pos, to) in &by_pos {
            let spec = &cfg.segs[pos.seg as usize];
            let want = if pos.echo {
                spec.echo_targets(pos.idx, id)
            } else {
                spec.dests(pos.idx, id)
            };
            let set: BTreeSet<u16> = to.iter().copied().collect();
            if set.len() != to.len() {
                return Err(format!("some message was sent twice in {pos:?}: {to:?}"));
            }
            if !set.is_subset(&want) || (complete && set != want) {
                return Err(format!("sent to {set:?} instead of {want:?} in {pos:?}"));
            }
        }
        if complete {
            let fins: BTreeSet<(u8, u8)> = events
                .iter()
                .filter_map(|e| match e {
                    Ev::Fin { seg, idx, .. } => Some((*seg, *idx)),
                    _ => None,
                })
                .collect();
            for e in events {
                let Ev::New { seg, idx } = e else { continue };
                let spec = &cfg.segs[*seg as usize];
                let main = Pos {
                    seg: *seg,
                    idx: *idx,
                    echo: false,
                };
                if !spec.dests(*idx, id).is_empty() && !by_pos.contains_key(&main) {
                    return Err(format!("nothing was sent in {main:?}"));
                }
                let echo = Pos { echo: true, ..main };
                if fins.contains(&(*seg, *idx)) && spec.echoes(*idx, id) && !spec.echo_targets(*idx, id).is_empty() && !by_pos.contains_key(&echo) {
                    return Err(format!("nothing was sent in {echo:?}"));
                }
            }
        }
        Ok(())
    }
}

/// How the session itself, driven in the simplest way, ends.
#[derive(Debug)]
enum RefEnd {
    Finished(String),
    /// Needs more messages; the report if it is terminated instead.
    Waiting(String),
    /// Terminated at the requested place.
    Stopped(String),
}

struct Reference<'a, K: Kit, F: SimFormat> {
    cfg: &'a Arc<KitCfg>,
    sid: &'a SessionId,
    id: u16,
    script: BTreeMap<Slot, u64>,
    nonces: Arc<BTreeMap<Vec<u8>, [u8; 16]>>,
    bad: Option<u64>,
    input: &'a [Delivered],
    _p: std::marker::PhantomData<fn() -> (K, F)>,
}

impl<K: Kit, F: SimFormat> Reference<'_, K, F> {
    /// If `stop` is given, the session is terminated at that place where cancellation may be noticed.
    fn run(&self, stop: Option<usize>, par: bool) -> Result<RefEnd, String> {
        let probe = Probe(
            Default::default(),
            Arc::new(ProbeCtl {
                bad: self.bad,
                script: self.script.clone(),
                on_event: None,
                ..Default::default()
            }),
        );
        let mut rng = ChaCha8Rng::seed_from_u64(hash(&[14, self.id as u64]));
        let e = |e: LocalError| format!("{e:?}");
        let sk = Sk::scripted(self.id, self.nonces.clone());
        let mut session = Session::<K::P, SimSP<F>>::new(&mut rng, self.sid.clone(), sk, K::entry(self.cfg, &probe)).map_err(e)?;
        let mut cached = Vec::new();
        let mut input = self.input.iter();
        let mut place = 0;
        loop {
            let mut accum = session.make_accumulator();
            for d in session.message_destinations().clone() {
                let (_, a) = session.make_message(&mut rng, &d).map_err(e)?;
                session.add_artifact(&mut accum, a).map_err(e)?;
            }
            for v in cached {
                if input.as_slice().is_empty() {
                    if stop == Some(place) {
                        return Ok(RefEnd::Stopped(full_text::<K, F>(&session.terminate(accum).map_err(e)?)));
                    }
                    place += 1;
                }
                let p = session.process_message(v);
                session.add_processed_message(&mut accum, p).map_err(e)?;
            }
            loop {
                let can = session.can_finalize(&accum);
                if can != CanFinalize::NotYet && (par || input.as_slice().is_empty()) {
                    if stop == Some(place) {
                        // With workers around, more messages may have been taken meanwhile.
                        for d in input.by_ref() {
                            let v = session.preprocess_message(&mut accum, &Vk(d.from), d.msg.clone()).map_err(e)?;
                            if let Some(v) = v.ok() {
                                let p = session.process_message(v);
                                session.add_processed_message(&mut accum, p).map_err(e)?;
                            }
                        }
                        return Ok(RefEnd::Stopped(full_text::<K, F>(&session.terminate(accum).map_err(e)?)));
                    }
                    place += 1;
                }
                match can {
                    CanFinalize::Yes => break,
                    CanFinalize::Never => {
                        let r = session.terminate_due_to_errors(accum).map_err(e)?;
                        return Ok(RefEnd::Finished(full_text::<K, F>(&r)));
                    }
                    CanFinalize::NotYet => {}
                }
                let Some(d) = input.next() else {
                    return Ok(RefEnd::Waiting(full_text::<K, F>(&session.terminate(accum).map_err(e)?)));
                };
                let v = session.preprocess_message(&mut accum, &Vk(d.from), d.msg.clone()).map_err(e)?;
                if let Some(v) = v.ok() {
                    let p = session.process_message(v);
                    session.add_processed_message(&mut accum, p).map_err(e)?;
                }
            }
            match session.finalize_round(&mut rng, accum).map_err(e)? {
                RoundOutcome::Finished(r) => return Ok(RefEnd::Finished(full_text::<K, F>(&r))),
                RoundOutcome::AnotherRound {
                    session: s,
                    cached_messages,
                } => {
                    session = *s;
                    cached = cached_messages;
                }
            }
        }
    }
}

#[allow(dead_code)]
pub fn stats_of(out: &RunOut) -> &RunStats {
    &out.stats
}
