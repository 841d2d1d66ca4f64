//! The synchronous world: the real `Session`s of all parties in one process, with every step of
//! every party and every act of the network and of misbehaving parties decided by the chooser.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use manul::protocol::{LocalError, RemoteError};
use manul::session::{
    CanFinalize, Evidence, Message, PreprocessOutcome, RoundAccumulator, RoundOutcome, Session, SessionId, SessionOutcome, SessionReport, VerifiedMessage,
};
use rand_chacha::ChaCha8Rng;
use rand_core::SeedableRng;

use crate::chooser::{hash, hash_bytes, mix64, Chooser};
use crate::forge::forge_m;
use crate::mix::{model, Body, Ev, Kit, KitCfg, Probe, DIRECT, ECHO, NORMAL, ODDITIES};
use crate::params::{NonceLog, SimDigest, SimFormat, SimSP, Sk, Vk};
use crate::spec::{describe, gen, valid, Shape};
use crate::stats::{RunStats, Violation};
use crate::wire::{part_hash, signed_hash, HexB, MMsg, MPack, MPart, MRoundId};

/// What may happen in a run; every run draws its own mixture from this.
#[derive(Debug, Clone)]
pub struct Profile {
    /// Permille of runs with misbehaving parties.
    pub byz: u32,
    /// Permille of runs with transport faults.
    pub transport: u32,
    /// Permille of runs with crashes.
    pub crash: u32,
    /// Permille of runs in which the user terminates sessions.
    pub terminate: u32,
    /// Permille of lazily driven parties.
    pub lazy: u32,
    /// Permille of runs with a slow group of parties.
    pub slow: u32,
    /// Bias towards equivocation by misbehaving parties.
    pub equiv: u32,
    pub n_min: u16,
    pub n_max: u16,
    pub shape_echo: u32,
    pub shape_partial: u32,
    /// Record operations of a party for later replay.
    pub record: bool,
    /// Fabricate evidence from the history.
    pub fabricate: bool,
    /// Permille of runs in which the network carries bytes.
    pub wire: u32,
    /// The sessions are named by seeds chosen to be similar.
    pub seeds: bool,
}

impl Default for Profile {
    fn default() -> Self {
        Self {
            byz: 500,
            transport: 350,
            crash: 200,
            terminate: 150,
            lazy: 400,
            slow: 300,
            equiv: 250,
            n_min: 2,
            n_max: 5,
            shape_echo: 550,
            shape_partial: 450,
            record: false,
            fabricate: false,
            wire: 100,
            seeds: false,
        }
    }
}

/// Two different seeds that are easily mixed up.
fn similar_seeds(ch: &Chooser, salt: u64) -> (Vec<u8>, Vec<u8>) {
    let len = [0, 1, 4, 8, 16, 31, 32, 33, 63, 64, 65, 127, 135, 136, 137, 200, 300, 1000][ch.pick(18)];
    let mut a = vec![0; len];
    if !ch.chance(200) {
        rand_core::RngCore::fill_bytes(&mut ChaCha8Rng::seed_from_u64(salt), &mut a);
    }
    let mut b = a.clone();
    match ch.pick(6) {
        0 if len > 0 => {
            let k = ch.pick(len);
            b[k] ^= 1 << ch.pick(8);
        }
        1 if len > 0 => {
            b.pop();
        }
        2 => b.push(0),
        3 if len > 1 => {
            let k = 1 + ch.pick(len - 1);
            b.rotate_left(k);
        }
        4 if len > 0 => {
            let last = len - 1;
            b[last] = !b[last];
        }
        _ => b.insert(0, 0),
    }
    if a == b {
        b.push(1);
    }
    if ch.chance(500) {
        (b, a)
    } else {
        (a, b)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pos {
    pub seg: u8,
    pub idx: u8,
    pub echo: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Prov {
    /// Made by the session of the claimed sender and not touched.
    Genuine,
    /// Properly signed by a misbehaving party (possibly nonsensical).
    Forged,
    /// Tampered with, spoofed, recombined or replayed.
    Bogus,
}

pub struct Flight {
    pub from: u16,
    pub to: u16,
    pub msg: Message<Vk>,
    pub m: Option<MMsg>,
    pub prov: Prov,
    /// Where it belongs, if it is known.
    pub pos: Option<Pos>,
    pub what: String,
    /// Held back by a partition.
    pub held: bool,
}

#[derive(Clone)]
pub enum Op {
    Make(u16),
    Art(u16),
    Pre(u16, Message<Vk>),
    Proc(usize),
    Add(usize),
    Fin,
    TermErr,
    Term,
}

pub struct Recording {
    pub id: u16,
    pub rng_seed: u64,
    pub ops: Vec<Op>,
    pub log: Vec<String>,
}

type Sess<K, F> = Session<<K as Kit>::P, SimSP<F>>;
type Acc<K, F> = RoundAccumulator<<K as Kit>::P, SimSP<F>>;
type Report<K, F> = SessionReport<<K as Kit>::P, SimSP<F>>;
/// An operation that puts a finished piece of work into the accumulator.
type Put<K, F> = Box<dyn FnOnce(&Sess<K, F>, &mut Acc<K, F>) -> Result<(), LocalError>>;
type Ev6<K, F> = Evidence<<K as Kit>::P, SimSP<F>>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum DoneKind {
    Result,
    Never,
    User,
}

struct Node<K: Kit, F: SimFormat> {
    id: u16,
    byz: bool,
    eager: bool,
    crashed: bool,
    started: bool,
    rng: ChaCha8Rng,
    rng_seed: u64,
    probe: Probe,
    probe_seen: usize,
    nonces: NonceLog,
    live: Option<(Sess<K, F>, Acc<K, F>)>,
    pos: Pos,
    round: Option<MRoundId>,
    to_send: Vec<u16>,
    arts: Vec<Put<K, F>>,
    pending: Vec<(usize, u16, VerifiedMessage<Vk>)>,
    processed: Vec<(usize, u16, Put<K, F>)>,
    /// Flights kept for later rounds by the session.
    cached: BTreeMap<(Pos, u16), usize>,
    /// The same for rounds nobody entered yet, so it is not known which ones they are.
    cached_raw: Vec<(MRoundId, u16, usize)>,
    /// The flight taken for the current round by sender.
    accepted: BTreeMap<u16, usize>,
    /// Senders whose message was added to the accumulator, with the verdict if it is known.
    dealt: BTreeMap<u16, Option<bool>>,
    /// Senders with a recorded error: what it was and when.
    banned: BTreeMap<u16, (Option<RemoteError>, usize)>,
    /// Equivocators exposed together with others; at least one of them has to be recorded.
    maybe_banned: BTreeSet<u16>,
    /// Senders of echo packs with a repeated entry.
    repeats: BTreeSet<u16>,
    /// Texts of errors reported for later offences of an already banned sender.
    later_errors: BTreeMap<u16, Vec<String>>,
    /// Everything delivered, by claimed sender and claimed place.
    heard: BTreeSet<(u16, Option<Pos>)>,
    /// Acceptable flights delivered, by place and sender.
    good_heard: BTreeMap<(Pos, u16), usize>,
    /// Round history: accepted flights of past rounds.
    past: BTreeMap<Pos, BTreeMap<u16, usize>>,
    sent: BTreeSet<(Pos, u16)>,
    last_bcast: Option<(MPart, MPart)>,
    makes_in_round: BTreeMap<(usize, Option<u16>), Body>,
    equivocators_seen: Vec<(BTreeSet<u16>, u16, bool)>,
    done: Option<(DoneKind, Report<K, F>)>,
    dead: bool,
    acc_seq: Vec<usize>,
    acc_msgs: usize,
    rec: Option<Recording>,
    passed_echo: BTreeSet<(u8, u8)>,
    finished_pos: Option<Pos>,
}

struct Swarm {
    policy: usize,
    slow: BTreeSet<u16>,
    drop: u32,
    dup: u32,
    corrupt: u32,
    byz_rate: u32,
    byz_menu: [u32; 9],
    unsolicited: usize,
    replays: usize,
    spoofs: usize,
    terminate: Vec<(usize, u16)>,
    crash: Vec<(usize, u16)>,
    partition: Option<(BTreeSet<u16>, usize, usize)>,
    equiv_plan: u32,
    /// Those who misbehave only break rules about what the messages say, at that preferably
    /// rules which refer to messages of earlier rounds.
    rule_breaker: bool,
    /// Whether messages are bytes between the parties.
    wire: bool,
}

pub struct World<'a, K: Kit, F: SimFormat> {
    ch: Chooser,
    prof: &'a Profile,
    pub cfg: Arc<KitCfg>,
    n: u16,
    sid: SessionId,
    other_sid: SessionId,
    nodes: Vec<Node<K, F>>,
    flights: Vec<Flight>,
    in_air: Vec<usize>,
    sw: Swarm,
    honest: BTreeSet<u16>,
    /// Every validly signed part by (signer, kind)
    signed: HashMap<(u16, usize), HashSet<MPart>>,
    rounds: BTreeMap<(u8, u8), MRoundId>,
    shadow: Vec<(u16, u16, MMsg)>,
    taint: BTreeSet<(u16, u16)>,
    plain: bool,
    step: usize,
    pub stats: RunStats,
    pub violations: Vec<Violation>,
    pub trace: Option<Vec<String>>,
    mirror_ok: bool,
    fp: u64,
    equiv_sides: BTreeMap<(u16, Pos), u64>,
    pub evidences: Vec<(u16, serde_json::Value)>,
}

macro_rules! tr {
    ($w:expr, $($arg:tt)*) => {
        if let Some(t) = &mut $w.trace {
            let line = format!($($arg)*);
            t.push(format!("[{}] {line}", $w.step));
        }
    };
}

/// The sender of a verified message, from its debug representation, the only thing that is public.
fn from_of(v: &VerifiedMessage<Vk>) -> Option<u16> {
    let s = format!("{v:?}");
    let b = s.as_bytes();
    (1..b.len()).find_map(|i| {
        if b[i] != b'v' || b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' {
            return None;
        }
        let digits: String = s[i + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
        digits.parse().ok()
    })
}

/// The ways to carry messages as bytes: one that lets the reader borrow from the text,
/// one that does not, and a binary one.
const ENCODINGS: [&str; 3] = ["JSON", "a stream of JSON", "Postcard"];

fn encode(m: &Message<Vk>, how: usize) -> Option<Vec<u8>> {
    match how {
        0 | 1 => serde_json::to_vec(m).ok(),
        _ => postcard::to_allocvec(m).ok(),
    }
}

fn decode(b: &[u8], how: usize) -> Result<Message<Vk>, String> {
    match how {
        0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
        1 => serde_json::from_reader(b).map_err(|e| e.to_string()),
        _ => postcard::from_bytes(b).map_err(|e| e.to_string()),
    }
}

pub type Traffic = Vec<(u16, u16, MMsg)>;

/// A session of honest parties without any adversities; everything that they sent.
pub fn lockstep<K: Kit, F: SimFormat>(cfg: &Arc<KitCfg>, sid: &SessionId, seed: u64, first_only: bool) -> Traffic {
    let mut traffic = Vec::new();
    let _ = lockstep_into::<K, F>(cfg, sid, seed, first_only, &mut traffic);
    traffic
}

fn lockstep_into<K: Kit, F: SimFormat>(
    cfg: &Arc<KitCfg>,
    sid: &SessionId,
    seed: u64,
    first_only: bool,
    traffic: &mut Traffic,
) -> Result<(), LocalError> {
    let mut sessions = Vec::new();
    for id in 0..cfg.n() {
        let probe = Probe::default();
        let mut rng = ChaCha8Rng::seed_from_u64(hash(&[seed, 78, id as u64]));
        let s = Sess::<K, F>::new(&mut rng, sid.clone(), Sk::new(id), K::entry(cfg, &probe))?;
        let acc = s.make_accumulator();
        sessions.push(Some((id, rng, s, acc)));
    }
    let mut queue: Vec<(u16, u16, Message<Vk>)> = Vec::new();
    let mut fresh: Vec<usize> = (0..sessions.len()).collect();
    for _ in 0..1000 {
        for i in std::mem::take(&mut fresh) {
            let Some((id, rng, s, acc)) = &mut sessions[i] else { continue };
            for d in s.message_destinations().clone() {
                let (msg, a) = s.make_message(rng, &d)?;
                s.add_artifact(acc, a)?;
                if let Some(m) = MMsg::of(&msg) {
                    traffic.push((*id, d.0, m));
                }
                queue.push((*id, d.0, msg));
            }
        }
        if first_only {
            break;
        }
        for (from, to, msg) in std::mem::take(&mut queue) {
            let Some(Some((_, _, s, acc))) = sessions.get_mut(to as usize) else { continue };
            if let PreprocessOutcome::ToProcess(v) = s.preprocess_message(acc, &Vk(from), msg)? {
                let p = s.process_message(*v);
                s.add_processed_message(acc, p)?;
            }
        }
        for (i, slot) in sessions.iter_mut().enumerate() {
            let Some((id, mut rng, s, acc)) = slot.take() else { continue };
            if s.can_finalize(&acc) != CanFinalize::Yes {
                *slot = Some((id, rng, s, acc));
                continue;
            }
            if let RoundOutcome::AnotherRound {
                session,
                cached_messages,
            } = s.finalize_round(&mut rng, acc)?
            {
                let mut acc = session.make_accumulator();
                for v in cached_messages {
                    let p = session.process_message(v);
                    session.add_processed_message(&mut acc, p)?;
                }
                *slot = Some((id, rng, *session, acc));
                fresh.push(i);
            }
        }
        if fresh.is_empty() && queue.is_empty() {
            break;
        }
    }
    Ok(())
}

/// Whether the hashes in echo messages are made the way `part_hash()` makes them. If not, they
/// are not looked at (equivocation is still told by the contents).
fn hash_known() -> bool {
    use manul::dev::BinaryFormat;
    static KNOWN: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *KNOWN.get_or_init(|| {
        let run = || -> Option<bool> {
            let all: BTreeSet<u16> = [0, 1, 2].into();
            let spec = crate::mix::Spec {
                flip: false,
                linear: false,
                n: 3,
                tag: 1,
                rounds: vec![crate::mix::RoundSpec {
                    mask: 2,
                    dests: (0..3u16).map(|i| all.iter().copied().filter(|j| *j != i).collect()).collect(),
                    echo_s: all.clone(),
                    echo_r: all,
                    parents: BTreeSet::new(),
                    siblings: BTreeSet::new(),
                    children: BTreeSet::new(),
                    may_result: true,
                    link: None,
                    split: None,
                    sum: None,
                }],
                paths: vec![vec![0]; 3],
            };
            let cfg = Arc::new(KitCfg {
                segs: vec![Arc::new(spec)],
            });
            let sid = SessionId::from_seed::<SimSP<BinaryFormat>>(b"hash");
            let traffic = lockstep::<crate::mix::KMix, BinaryFormat>(&cfg, &sid, 1, false);
            let (_, _, m) = traffic.iter().find(|t| t.2.round().is_echo)?;
            let pack = m.normal_broadcast.payload().and_then(MPack::dec::<BinaryFormat>)?;
            let (from, h) = pack.message_hashes.first()?;
            let (_, _, orig) = traffic.iter().find(|t| t.0 == from.0 && !t.2.round().is_echo)?;
            Some(&signed_hash(&orig.echo_broadcast, ECHO) == h)
        };
        match catch_unwind(run) {
            Ok(Some(known)) => known,
            _ => true,
        }
    })
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

impl<'a, K: Kit, F: SimFormat> World<'a, K, F> {
    pub fn new(ch: Chooser, prof: &'a Profile, trace: bool) -> Self {
        let mut shape = Shape::new(K::SEGS, K::ENTRY_MASKS);
        shape.n_min = prof.n_min;
        shape.n_max = prof.n_max;
        shape.echo = prof.shape_echo;
        shape.partial = prof.shape_partial;
        let cfg = Arc::new(gen(&ch, &shape));
        let n = cfg.n();
        let all: BTreeSet<u16> = (0..n).collect();

        let mut byz = BTreeSet::new();
        if ch.chance(prof.byz) {
            let want: Vec<u16> = ch.subset(&all.iter().copied().collect::<Vec<_>>(), if n > 3 { 350 } else { 450 });
            for b in want {
                if byz.len() + 1 < n as usize {
                    let mut h = all.clone();
                    for x in byz.iter().chain([&b]) {
                        h.remove(x);
                    }
                    if valid(&cfg, &h) {
                        byz.insert(b);
                    }
                }
            }
        }
        let honest: BTreeSet<u16> = all.difference(&byz).copied().collect();
        let transport = ch.chance(prof.transport);
        let policy = ch.pick(4);
        let mut slow = BTreeSet::new();
        if ch.chance(prof.slow) {
            slow.extend(ch.subset(&all.iter().copied().collect::<Vec<_>>(), 400));
        }
        let rate = |p: u32| -> u32 {
            if transport && ch.chance(400) {
                p
            } else {
                0
            }
        };
        let drop = rate(60);
        let dup = rate(120);
        let corrupt = rate(80);
        let replays = if transport && ch.chance(400) { 1 + ch.pick(3) } else { 0 };
        let spoofs = if transport && ch.chance(300) { 1 + ch.pick(2) } else { 0 };
        let partition = if transport && ch.chance(300) {
            let side: BTreeSet<u16> = ch.subset(&all.iter().copied().collect::<Vec<_>>(), 500).into_iter().collect();
            let a = ch.pick(40);
            let b = a + 1 + ch.pick(80);
            Some((side, a, b))
        } else {
            None
        };
        let byz_rate = if byz.is_empty() { 0 } else { [150, 400, 900][ch.pick(3)] };
        let mut byz_menu = [0u32; 9];
        if byz_rate > 0 {
            for w in byz_menu.iter_mut() {
                if ch.chance(600) {
                    *w = 1 + ch.pick(4) as u32;
                }
            }
            byz_menu[0] = 1;
            if prof.wire == 1000 {
                byz_menu[6] += 3;
            }
            // A tamperer with signatures or structures is caught at once; keep these rarer.
        }
        let unsolicited = if !byz.is_empty() && ch.chance(300) { 1 + ch.pick(3) } else { 0 };
        let mut terminate = Vec::new();
        if ch.chance(prof.terminate) {
            for _ in 0..1 + ch.pick(2) {
                terminate.push((ch.pick(90), ch.pick(n as usize) as u16));
            }
        }
        let mut crash = Vec::new();
        if ch.chance(prof.crash) {
            for _ in 0..1 + ch.pick(2) {
                crash.push((ch.pick(90), ch.pick(n as usize) as u16));
            }
        }
        let wire = ch.chance(prof.wire);
        let rule_breaker = !byz.is_empty() && ch.chance(250);
        let (byz_rate, unsolicited) = if rule_breaker { (700, 0) } else { (byz_rate, unsolicited) };
        let equiv_plan = if byz.is_empty() || rule_breaker { 0 } else if ch.chance(prof.equiv) { 700 } else { 0 };
        let plain = byz.is_empty() && !transport && terminate.is_empty() && crash.is_empty();
        let salt = ch.salt();
        let (seed, other_seed) = if prof.seeds {
            similar_seeds(&ch, salt)
        } else {
            (salt.to_be_bytes().to_vec(), mix64(salt).to_be_bytes().to_vec())
        };
        let sid = SessionId::from_seed::<SimSP<F>>(&seed);
        let mut other_sid = SessionId::from_seed::<SimSP<F>>(&other_seed);
        let same_name = sid == other_sid;
        if same_name {
            other_sid = SessionId::from_seed::<SimSP<F>>(&mix64(salt).to_be_bytes());
        }

        let mut w = World {
            prof,
            cfg: cfg.clone(),
            n,
            sid,
            other_sid,
            nodes: Vec::new(),
            flights: Vec::new(),
            in_air: Vec::new(),
            sw: Swarm {
                policy,
                slow,
                drop,
                dup,
                corrupt,
                byz_rate,
                byz_menu,
                unsolicited,
                replays,
                spoofs,
                terminate,
                crash,
                partition,
                equiv_plan,
                rule_breaker,
                wire,
            },
            honest,
            signed: HashMap::new(),
            rounds: BTreeMap::new(),
            shadow: Vec::new(),
            taint: BTreeSet::new(),
            plain,
            step: 0,
            stats: RunStats::default(),
            violations: Vec::new(),
            trace: trace.then(Vec::new),
            mirror_ok: true,
            fp: 0,
            equiv_sides: BTreeMap::new(),
            evidences: Vec::new(),
            ch,
        };
        ODDITIES.with(|o| o.borrow_mut().clear());
        if same_name {
            w.viol(&["P31"], "same identifier", format!("the seeds {seed:?} and {other_seed:?} name the same session"));
        }
        if prof.seeds {
            w.check_ids(&seed, &other_seed);
        }
        if w.trace.is_some() {
            for d in describe(&cfg) {
                tr!(w, "{d}");
            }
            for p in 0..n {
                tr!(w, "party {p}: path {:?}{}", cfg.path(p), if byz.contains(&p) { " (misbehaving)" } else { "" });
            }
        }
        let rec_node = if prof.record {
            let h: Vec<u16> = w.honest.iter().copied().collect();
            Some(h[w.ch.pick(h.len())])
        } else {
            None
        };
        for id in 0..n {
            let eager = !w.ch.chance(prof.lazy);
            let rng_seed = hash(&[salt, 77, id as u64]);
            w.nodes.push(Node {
                id,
                byz: byz.contains(&id),
                eager,
                crashed: false,
                started: false,
                rng: ChaCha8Rng::seed_from_u64(rng_seed),
                rng_seed,
                probe: Probe::default(),
                probe_seen: 0,
                nonces: NonceLog::default(),
                live: None,
                pos: Pos {
                    seg: 0,
                    idx: 0,
                    echo: false,
                },
                round: None,
                to_send: Vec::new(),
                arts: Vec::new(),
                pending: Vec::new(),
                processed: Vec::new(),
                cached: BTreeMap::new(),
                cached_raw: Vec::new(),
                accepted: BTreeMap::new(),
                dealt: BTreeMap::new(),
                banned: BTreeMap::new(),
                maybe_banned: BTreeSet::new(),
                repeats: BTreeSet::new(),
                later_errors: BTreeMap::new(),
                heard: BTreeSet::new(),
                good_heard: BTreeMap::new(),
                past: BTreeMap::new(),
                sent: BTreeSet::new(),
                last_bcast: None,
                makes_in_round: BTreeMap::new(),
                equivocators_seen: Vec::new(),
                done: None,
                dead: false,
                acc_seq: Vec::new(),
                acc_msgs: 0,
                rec: (rec_node == Some(id)).then(|| Recording {
                    id,
                    rng_seed,
                    ops: Vec::new(),
                    log: Vec::new(),
                }),
                passed_echo: BTreeSet::new(),
                finished_pos: None,
            });
        }
        if w.sw.replays > 0 || w.sw.spoofs > 0 || w.prof.fabricate {
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| w.make_shadow())) {
                w.viol(&["P08", "P01"], "panic in an honest session", panic_text(e));
            }
        }
        w
    }

    fn is_honest(&self, id: u16) -> bool {
        self.honest.contains(&id)
    }

    fn viol(&mut self, props: &[&'static str], kind: &str, detail: String) {
        if self.violations.len() < 12 {
            tr!(self, "VIOLATION {props:?} {kind}: {detail}");
            self.violations.push(Violation {
                props: props.to_vec(),
                kind: kind.into(),
                detail,
            });
        }
    }

    /// Every party derives the identifier of the session on its own, among those of all the
    /// sessions it takes part in.
    fn check_ids(&mut self, seed: &[u8], other: &[u8]) {
        let mut seeds: Vec<Vec<u8>> = vec![seed.to_vec(), other.to_vec(), Vec::new(), vec![0]];
        for i in 0..6 {
            let (a, b) = similar_seeds(&self.ch, self.ch.salt() ^ i);
            seeds.push(a);
            seeds.push(b);
        }
        // An identifier or a hash may be the seed of the next session
        for k in 0..seeds.len() {
            seeds.push(<SimDigest as sha3::Digest>::digest(&seeds[k]).to_vec());
            seeds.push(SessionId::from_seed::<SimSP<F>>(&seeds[k]).as_ref().to_vec());
        }
        let mut named: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
        for s in &seeds {
            let name = SessionId::from_seed::<SimSP<F>>(s);
            self.stats.add("sessions_named", 1);
            if name != SessionId::from_seed::<SimSP<F>>(&s.clone()) {
                self.viol(&["P31"], "not reproducible", format!("two parties name the session of the seed {s:?} differently"));
            }
            if let Some(t) = named.insert(name.as_ref().to_vec(), s.clone()) {
                if &t != s {
                    self.viol(&["P31"], "same identifier", format!("the seeds {s:?} and {t:?} name the same session"));
                }
            }
        }
        // Identifiers taken from the randomness
        let mut rng = ChaCha8Rng::seed_from_u64(self.ch.salt());
        for _ in 0..3 {
            let mut twin = rng.clone();
            let name = SessionId::random::<SimSP<F>>(&mut rng);
            if name != SessionId::random::<SimSP<F>>(&mut twin) {
                self.viol(&["P31"], "not reproducible", "the same randomness gives different identifiers".into());
            }
            if named.insert(name.as_ref().to_vec(), Vec::new()).is_some() {
                self.viol(&["P31"], "same identifier", "a random identifier repeats one in use".into());
            }
        }
    }

    fn mark(&mut self, parts: &[u64]) {
        self.fp = hash(&[self.fp, hash(parts)]);
    }

    /// Messages of another session of the same parties: of the whole session if evidence is
    /// going to be fabricated, of the first round otherwise.
    fn make_shadow(&mut self) {
        let traffic = lockstep::<K, F>(&self.cfg, &self.other_sid, self.ch.seed(), !self.prof.fabricate);
        for (id, d, m) in traffic {
            self.register(id, &m);
            self.shadow.push((id, d, m));
        }
    }

    fn register(&mut self, signer: u16, m: &MMsg) {
        for k in 0..3 {
            self.signed.entry((signer, k)).or_default().insert(m.part(k).clone());
        }
    }

    fn is_signed(&self, signer: u16, kind: usize, p: &MPart) -> bool {
        self.signed.get(&(signer, kind)).is_some_and(|s| s.contains(p))
    }

    fn expected(&self, id: u16, pos: Pos) -> BTreeSet<u16> {
        let spec = &self.cfg.segs[pos.seg as usize];
        if pos.echo {
            spec.echo_targets(pos.idx, id)
        } else {
            spec.expects(pos.idx, id)
        }
    }

    fn declared_dests(&self, id: u16, pos: Pos) -> BTreeSet<u16> {
        let spec = &self.cfg.segs[pos.seg as usize];
        if pos.echo {
            spec.echo_targets(pos.idx, id)
        } else {
            spec.dests(pos.idx, id)
        }
    }

    /// The index of the place on the party's path (echo rounds are between).
    fn path_rank(&self, id: u16, pos: Pos) -> Option<usize> {
        self.cfg
            .path(id)
            .iter()
            .position(|p| *p == (pos.seg, pos.idx))
            .map(|i| 2 * i + pos.echo as usize)
    }

    fn pos_of_round(&self, r: &MRoundId) -> Option<Pos> {
        let main = r.main();
        self.rounds.iter().find(|(_, v)| **v == main).map(|((seg, idx), _)| Pos {
            seg: *seg,
            idx: *idx,
            echo: r.is_echo,
        })
    }

    /// Finds out what the messages kept for rounds unknown until now are for.
    fn resolve_kept(&mut self, id: u16) {
        let raw = std::mem::take(&mut self.nodes[id as usize].cached_raw);
        for (r, from, fid) in raw {
            match self.pos_of_round(&r) {
                Some(p) => {
                    self.nodes[id as usize].cached.entry((p, from)).or_insert(fid);
                }
                None => self.nodes[id as usize].cached_raw.push((r, from, fid)),
            }
        }
    }

    /// Calls into the library; a panic is a violation and kills the party.
    fn guard<T>(&mut self, id: u16, what: &str, f: impl FnOnce(&mut Node<K, F>) -> T) -> Option<T> {
        let node = &mut self.nodes[id as usize];
        match catch_unwind(AssertUnwindSafe(|| f(node))) {
            Ok(x) => Some(x),
            Err(e) => {
                let text = panic_text(e);
                self.nodes[id as usize].dead = true;
                self.nodes[id as usize].live = None;
                let mut props = vec!["P08"];
                if self.plain {
                    props.push("P01");
                    if K::SEGS > 1 {
                        props.push("P18");
                    }
                }
                self.viol(&props, &format!("panic in {what}"), format!("party {id}: {text}"));
                None
            }
        }
    }

    fn local_error(&mut self, id: u16, what: &str, e: LocalError) {
        self.nodes[id as usize].dead = true;
        self.nodes[id as usize].live = None;
        if self.is_honest(id) {
            let mut props = vec!["P08"];
            if self.plain {
                props.push("P01");
            }
            if K::SEGS > 1 {
                props.push("P18");
            }
            if what.contains("cached") {
                props.push("P02");
            }
            if what.contains("add_processed") {
                props.push("P10");
                // This is where evidence is put together.
                props.push("P06");
            }
            self.viol(&props, &format!("local error in {what}"), format!("party {id}: {e:?}"));
        }
    }

    // Steps of a party

    fn start(&mut self, id: u16) {
        let cfg = self.cfg.clone();
        let sid = self.sid.clone();
        self.nodes[id as usize].started = true;
        let r = self.guard(id, "Session::new", |node| {
            let sk = Sk::logged(id, node.nonces.clone());
            Sess::<K, F>::new(&mut node.rng, sid, sk, K::entry(&cfg, &node.probe))
        });
        match r {
            None => {}
            Some(Err(e)) => self.local_error(id, "Session::new", e),
            Some(Ok(s)) => {
                tr!(self, "party {id} starts");
                self.enter(id, s, Vec::new());
            }
        }
    }

    fn enter(&mut self, id: u16, s: Sess<K, F>, cached: Vec<VerifiedMessage<Vk>>) {
        let round = MRoundId::of(&s.round_id());
        let echo = round.as_ref().is_some_and(|r| r.is_echo);
        let dests: BTreeSet<u16> = s.message_destinations().iter().map(|v| v.0).collect();
        if s.verifier() != Vk(id) || s.session_id() != &self.sid {
            self.viol(&["P21"], "identity", format!("party {id} changed its identity or session"));
        }
        if !echo {
            self.nodes[id as usize].makes_in_round.clear();
        }
        let events = self.new_events(id);
        let last_new = events.iter().rev().find_map(|e| match e {
            Ev::New { seg, idx } => Some((*seg, *idx)),
            _ => None,
        });
        let old = self.nodes[id as usize].pos;
        let pos = match (last_new, echo) {
            (Some((seg, idx)), false) => Pos { seg, idx, echo },
            _ => Pos {
                seg: old.seg,
                idx: old.idx,
                echo,
            },
        };
        let spec = self.cfg.segs[pos.seg as usize].clone();
        if echo && !spec.echoes(pos.idx, id) {
            self.viol(
                &["P21", "P03"],
                "unexpected echo round",
                format!("party {id} is in an echo round of {pos:?} though it does not take part"),
            );
        }
        if let Some(r) = &round {
            let key = (pos.seg, pos.idx);
            match self.rounds.get(&key) {
                Some(known) if *known != r.main() => {
                    self.viol(&["P18", "P01"], "round id", format!("different round IDs for {key:?}"));
                }
                _ => {
                    if self.rounds.iter().any(|(k, v)| *k != key && *v == r.main()) {
                        self.viol(&["P18", "P01"], "round id", format!("the same round ID for two rounds, {key:?}"));
                    }
                    self.rounds.insert(key, r.main());
                }
            }
        } else {
            self.mirror_ok = false;
        }
        if pos.seg > old.seg {
            self.stats.add("entered_later_segment", 1);
        }
        let declared = self.declared_dests(id, pos);
        if dests != declared {
            self.viol(
                &["P21"],
                "destinations",
                format!("party {id} at {pos:?} offers {dests:?}, declared are {declared:?}"),
            );
        }
        self.resolve_kept(id);
        tr!(self, "party {id} enters {pos:?}, sends to {dests:?}, {} kept messages", cached.len());
        let expected = self.expected(id, pos);
        let node = &mut self.nodes[id as usize];
        node.past.insert(node.pos, std::mem::take(&mut node.accepted));
        node.pos = pos;
        node.round = round;
        node.dealt.clear();
        node.last_bcast = None;
        node.to_send = dests.into_iter().collect();
        node.acc_seq.clear();
        // Messages kept for this round
        let kept: BTreeMap<u16, usize> = node
            .cached
            .iter()
            .filter(|((p, _), _)| *p == pos)
            .map(|((_, f), i)| (*f, *i))
            .collect();
        node.cached.retain(|(p, _), _| *p != pos);
        let mut got = BTreeSet::new();
        let mut viols: Vec<(Vec<&'static str>, &str, String)> = Vec::new();
        let handed_out = cached.len();
        let mut lost = false;
        for (i, v) in cached.into_iter().enumerate() {
            let mut from = from_of(&v);
            if from.is_none() && handed_out == kept.len() {
                // The sender cannot be told from the message; it is used in the checks only.
                from = kept.keys().nth(i).copied();
            }
            let fid = from.and_then(|f| kept.get(&f).copied());
            match (from, fid) {
                (Some(from), Some(fid)) => {
                    if !got.insert(from) {
                        viols.push((vec!["P10", "P02"], "kept twice", format!("party {id} got two kept messages from {from}")));
                    }
                    if node.banned.contains_key(&from) {
                        viols.push((
                            vec!["P11"],
                            "kept message of an excluded party",
                            format!("party {id} entering {pos:?}: kept message of {from} is handed out though it is excluded"),
                        ));
                    }
                    if !expected.contains(&from) {
                        viols.push((
                            vec!["P08", "P09"],
                            "kept message of an unexpected party",
                            format!("party {id} entering {pos:?}: kept message of {from}"),
                        ));
                    }
                    node.accepted.insert(from, fid);
                    node.pending.push((fid, from, v));
                    node.acc_msgs += 1;
                    node.acc_seq.push(fid);
                }
                (None, _) => lost = true,
                (f, _) => {
                    viols.push((vec!["P02", "P09"], "unknown kept message", format!("party {id} entering {pos:?}: from {f:?}")));
                }
            }
        }
        if lost {
            self.mirror_ok = false;
            node.maybe_banned.extend(kept.keys());
        }
        for (from, fid) in &kept {
            if !got.contains(from) && !node.banned.contains_key(from) && !node.maybe_banned.contains(from) && expected.contains(from) {
                viols.push((
                    vec!["P02", "P12"],
                    "kept message lost",
                    format!("party {id} entering {pos:?} does not get the message {fid} of {from} that was kept for this round"),
                ));
            }
        }
        let accum = catch_unwind(AssertUnwindSafe(|| s.make_accumulator()));
        match accum {
            Ok(a) => node.live = Some((s, a)),
            Err(e) => {
                node.dead = true;
                viols.push((vec!["P08", "P01"], "panic in make_accumulator", panic_text(e)));
            }
        }
        for (p, k, d) in viols {
            self.viol(&p, k, d);
        }
    }

    fn new_events(&mut self, id: u16) -> Vec<Ev> {
        let node = &mut self.nodes[id as usize];
        let log = node.probe.0.lock().unwrap();
        let evs = log[node.probe_seen..].to_vec();
        let seen = log.len();
        drop(log);
        node.probe_seen = seen;
        for e in &evs {
            if let Ev::Make { part, dest, body, .. } = e {
                node.makes_in_round.insert((*part, *dest), body.clone());
            }
        }
        evs
    }

    fn send_one(&mut self, id: u16, i: usize) {
        let node = &mut self.nodes[id as usize];
        let i = i.min(node.to_send.len() - 1);
        let dest = node.to_send.remove(i);
        let pos = node.pos;
        let Some(r) = self.guard(id, "make_message", |node| {
            let (s, _) = node.live.as_ref().unwrap();
            s.make_message(&mut node.rng, &Vk(dest)).map(|(m, art)| {
                let put: Put<K, F> = Box::new(move |s, a| s.add_artifact(a, art));
                (m, put)
            })
        }) else {
            return;
        };
        let (msg, art) = match r {
            Ok(x) => x,
            Err(e) => return self.local_error(id, "make_message", e),
        };
        if let Some(rec) = &mut self.nodes[id as usize].rec {
            rec.ops.push(Op::Make(dest));
            rec.log.push(format!("make {}", serde_json::to_string(&msg).unwrap_or_default()));
        }
        let evs = self.new_events(id);
        self.nodes[id as usize].arts.push(art);
        let m = MMsg::of(&msg);
        if m.is_none() {
            self.mirror_ok = false;
        }
        self.stats.add("messages_sent", 1);
        if !self.nodes[id as usize].sent.insert((pos, dest)) {
            self.viol(&["P21"], "sent twice", format!("party {id} at {pos:?} to {dest}"));
        }
        if msg.destination() != &Vk(dest) {
            self.viol(&["P21"], "destination", format!("party {id} at {pos:?}: {:?} instead of {dest}", msg.destination()));
        }
        if let Some(m) = &m {
            self.register(id, m);
            self.check_traffic(id, pos, dest, m, &evs);
        }
        self.mark(&[1, id as u64, dest as u64, pos.idx as u64, pos.echo as u64]);
        tr!(self, "party {id} sends to {dest} at {pos:?}");
        if self.nodes[id as usize].byz {
            self.byz_send(id, dest, pos, msg, m);
        } else {
            self.transmit(id, dest, pos, msg, m, Prov::Genuine, String::new());
        }
    }

    fn check_traffic(&mut self, id: u16, pos: Pos, dest: u16, m: &MMsg, evs: &[Ev]) {
        let spec = self.cfg.segs[pos.seg as usize].clone();
        let round = self.nodes[id as usize].round.clone();
        let bad = |w: &mut Self, props: &[&'static str], kind: &str, d: String| {
            w.viol(props, kind, format!("party {id} at {pos:?} to {dest}: {d}"));
        };
        if !m.unified() || Some(m.round()) != round.as_ref() || m.direct_message.meta().session_id.0.as_ref() != self.sid.as_ref() {
            bad(self, &["P21", "P09"], "metadata", "the parts do not carry this session and round".into());
        }
        let mask = spec.rounds[pos.idx as usize].mask;
        for k in 0..3 {
            let want = if pos.echo { k == NORMAL } else { mask & (1 << k) != 0 };
            if m.part(k).payload().is_some() != want {
                bad(self, &["P21"], "parts", format!("part {k} present: {}", !want));
                return;
            }
        }
        let node = &self.nodes[id as usize];
        if let Some((e, n)) = &node.last_bcast {
            if e != &m.echo_broadcast || n != &m.normal_broadcast {
                bad(self, &["P21", "P03"], "broadcasts differ", "the broadcast parts differ between destinations".into());
            }
        }
        self.nodes[id as usize].last_bcast = Some((m.echo_broadcast.clone(), m.normal_broadcast.clone()));
        if !pos.echo {
            for k in 0..3 {
                let Some(p) = m.part(k).payload() else { continue };
                let body = F::dec::<Body>(p);
                let made = if k == DIRECT {
                    evs.iter().find_map(|e| match e {
                        Ev::Make { part: DIRECT, dest: Some(d), body, .. } if *d == dest => Some(body.clone()),
                        _ => None,
                    })
                } else {
                    self.nodes[id as usize].makes_in_round.get(&(k, None)).cloned()
                };
                if body.is_none() || body != made {
                    bad(self, &["P21", "P01"], "content", format!("part {k} is not what the protocol made"));
                }
            }
        } else {
            let Some(pack) = m.part(NORMAL).payload().and_then(MPack::dec::<F>) else {
                self.mirror_ok = false;
                return;
            };
            let keys: Vec<u16> = pack.message_hashes.iter().map(|(k, _)| k.0).collect();
            let want: Vec<u16> = spec.echo_senders(pos.idx, id).into_iter().collect();
            if keys != want {
                bad(self, &["P21", "P30"], "echo pack", format!("relays {keys:?} instead of {want:?}"));
                return;
            }
            let main = Pos { echo: false, ..pos };
            for (k, h) in &pack.message_hashes {
                let got = self.nodes[id as usize]
                    .past
                    .get(&main)
                    .and_then(|a| a.get(&k.0))
                    .and_then(|f| self.flights[*f].m.as_ref())
                    .map(|m| signed_hash(&m.echo_broadcast, ECHO));
                let same = got.as_ref().is_some_and(|g| {
                    g == h || (!hash_known() && (&g.signature, &g.metadata) == (&h.signature, &h.metadata))
                });
                if !same {
                    bad(
                        self,
                        &["P21", "P03"],
                        "echo pack",
                        format!("does not relay the broadcast received from {}: {got:?} vs {h:?}", k.0),
                    );
                }
            }
        }
    }

    // The network

    fn push(&mut self, f: Flight) {
        let mut f = f;
        if let Some((side, a, b)) = &self.sw.partition {
            if self.step >= *a && self.step < *b && side.contains(&f.from) != side.contains(&f.to) {
                f.held = true;
                self.stats.add("fault_partition_hold", 1);
            }
        }
        self.flights.push(f);
        self.in_air.push(self.flights.len() - 1);
    }

    #[allow(clippy::too_many_arguments)]
    fn transmit(&mut self, from: u16, to: u16, pos: Pos, msg: Message<Vk>, m: Option<MMsg>, prov: Prov, what: String) {
        let f = Flight {
            from,
            to,
            msg,
            m,
            prov,
            pos: Some(pos),
            what,
            held: false,
        };
        let sw = [900, self.sw.drop, self.sw.dup, self.sw.corrupt];
        match self.ch.weighted(&sw) {
            0 => self.push(f),
            1 => {
                self.stats.add("fault_drop", 1);
                tr!(self, "the network loses {from}->{to} {pos:?}");
            }
            2 => {
                self.stats.add("fault_duplicate", 1);
                self.taint.insert((to, from));
                let copy = Flight {
                    msg: f.msg.clone(),
                    m: f.m.clone(),
                    what: "duplicate".into(),
                    ..f
                };
                tr!(self, "the network duplicates {from}->{to} {pos:?}");
                self.push(f);
                self.push(copy);
            }
            _ => {
                let keep = self.ch.chance(300);
                if let Some(c) = self.corrupt(&f) {
                    self.stats.add("fault_corrupt", 1);
                    self.taint.insert((to, from));
                    tr!(self, "the network corrupts {from}->{to} {pos:?}: {}", c.what);
                    if keep {
                        self.push(f);
                    }
                    self.push(c);
                } else {
                    self.push(f);
                }
            }
        }
    }

    /// The bytes of the message are changed on the way.
    fn garble(&mut self, f: &Flight) -> Option<Flight> {
        let encoding = self.ch.pick(ENCODINGS.len());
        let mut bytes = encode(&f.msg, encoding)?;
        let what = match self.ch.pick(4) {
            0 => {
                let i = self.ch.pick(bytes.len());
                bytes.truncate(i);
                "cut"
            }
            1 => {
                let i = self.ch.pick(bytes.len());
                let b = bytes[self.ch.pick(bytes.len())];
                bytes.insert(i, b);
                "byte inserted"
            }
            2 => {
                let i = self.ch.pick(bytes.len());
                bytes[i] = self.ch.pick(256) as u8;
                "byte changed"
            }
            _ => {
                let i = self.ch.pick(bytes.len());
                let j = (i + 1 + self.ch.pick(40)).min(bytes.len());
                bytes.drain(i..j);
                "bytes removed"
            }
        };
        self.stats.add("fault_garble", 1);
        match catch_unwind(AssertUnwindSafe(|| decode(&bytes, encoding))) {
            // Nothing arrives.
            Ok(Err(_)) => None,
            Ok(Ok(msg)) => {
                self.stats.add("garbled_but_readable", 1);
                let m = MMsg::of(&msg)?;
                Some(Flight {
                    from: f.from,
                    to: f.to,
                    msg,
                    m: Some(m),
                    prov: Prov::Bogus,
                    pos: None,
                    what: format!("garbled: {} {what}", ENCODINGS[encoding]),
                    held: false,
                })
            }
            Err(e) => {
                self.viol(&["P30", "P08"], "panic when reading a message", panic_text(e));
                None
            }
        }
    }

    fn corrupt(&mut self, f: &Flight) -> Option<Flight> {
        if self.sw.wire && self.ch.chance(500) {
            return self.garble(f);
        }
        let mut m = f.m.clone()?;
        let k = self.ch.pick(3);
        let what;
        match self.ch.pick(8) {
            0 => {
                let p = m.part_mut(k);
                let b = &mut p.message_with_metadata.message;
                match b {
                    Some(x) if !x.0.is_empty() => {
                        let i = self.ch.pick(x.0.len());
                        x.0[i] ^= 1 << self.ch.pick(8);
                        what = "payload bit";
                    }
                    Some(_) => return None,
                    None => {
                        *b = Some(crate::wire::B64(vec![0].into()));
                        what = "payload added";
                    }
                }
            }
            1 => {
                let s = &mut m.part_mut(k).signature.0;
                let i = self.ch.pick(s.len());
                s[i] ^= 1 << self.ch.pick(8);
                what = "signature bit";
            }
            2 => {
                m.part_mut(k).message_with_metadata.message = None;
                what = "payload removed";
            }
            3 => {
                for i in 0..3 {
                    m.part_mut(i).message_with_metadata.metadata.round_id.round ^= 1;
                }
                what = "round number";
            }
            4 => {
                let other = HexB(self.other_sid.as_ref().into());
                for i in 0..3 {
                    m.part_mut(i).message_with_metadata.metadata.session_id = other.clone();
                }
                what = "session id";
            }
            5 => {
                let (a, b) = (k, (k + 1) % 3);
                let x = m.part(a).clone();
                let y = m.part(b).clone();
                *m.part_mut(a) = y;
                *m.part_mut(b) = x;
                what = "parts exchanged";
            }
            6 => {
                // A part of another message of the same sender
                let pool: Vec<usize> = (0..self.flights.len())
                    .filter(|i| self.flights[*i].from == f.from && self.flights[*i].m.is_some())
                    .collect();
                if pool.is_empty() {
                    return None;
                }
                let mut o = self.flights[pool[self.ch.pick(pool.len())]].m.as_ref().unwrap().part(k).clone();
                if self.ch.chance(250) {
                    // or of another session
                    let other: Vec<usize> = (0..self.shadow.len()).filter(|i| self.shadow[*i].0 == f.from).collect();
                    if !other.is_empty() {
                        o = self.shadow[other[self.ch.pick(other.len())]].2.part(k).clone();
                    }
                }
                match self.ch.weighted(&[2, 2, 1]) {
                    0 => {
                        *m.part_mut(k) = o;
                        what = "part of another message";
                    }
                    1 => {
                        m.part_mut(k).message_with_metadata.message = o.message_with_metadata.message;
                        what = "payload of another message";
                    }
                    _ => {
                        o.message_with_metadata.metadata = m.part(k).message_with_metadata.metadata.clone();
                        *m.part_mut(k) = o;
                        what = "part of another message under this one's label";
                    }
                }
            }
            _ => {
                for i in 0..3 {
                    let r = &mut m.part_mut(i).message_with_metadata.metadata.round_id;
                    r.is_echo = !r.is_echo;
                }
                what = "echo flag";
            }
        }
        let msg = m.to_msg()?;
        Some(Flight {
            from: f.from,
            to: f.to,
            msg,
            m: Some(m),
            prov: Prov::Bogus,
            pos: None,
            what: format!("corrupted: {what}"),
            held: false,
        })
    }

    /// Send something recorded earlier again, possibly to or from somebody else.
    fn replay_attack(&mut self) {
        let use_shadow = !self.shadow.is_empty() && self.ch.chance(400);
        let (from, m, what) = if use_shadow {
            let (f, _, m) = self.shadow[self.ch.pick(self.shadow.len())].clone();
            (f, m, "replay from another session")
        } else {
            let pool: Vec<usize> = (0..self.flights.len()).filter(|i| self.flights[*i].m.is_some()).collect();
            if pool.is_empty() {
                return;
            }
            let f = &self.flights[pool[self.ch.pick(pool.len())]];
            (f.from, f.m.clone().unwrap(), "replay")
        };
        let to = self.ch.pick(self.n as usize) as u16;
        let from = if self.ch.chance(300) { self.ch.pick(self.n as usize + 1) as u16 } else { from };
        let mut m = m;
        let mut what = what;
        if self.ch.chance(450) {
            // What is not signed can be given another label.
            let round = if use_shadow && self.ch.chance(600) {
                m.round().clone()
            } else {
                match self.pick_round(to) {
                    Some((r, _)) => r,
                    None => m.round().clone(),
                }
            };
            for k in 0..3 {
                let meta = &mut m.part_mut(k).message_with_metadata.metadata;
                meta.session_id = HexB(self.sid.as_ref().into());
                meta.round_id = round.clone();
            }
            what = "relabelled replay";
            self.stats.add("fault_relabel", 1);
        }
        let Some(msg) = m.to_msg() else { return };
        self.stats.add("fault_replay", 1);
        self.taint.insert((to, from));
        tr!(self, "adversary: {what} to {to} as {from}");
        self.push(Flight {
            from,
            to,
            msg,
            m: Some(m),
            prov: Prov::Bogus,
            pos: None,
            what: what.into(),
            held: false,
        });
    }

    /// Something signed by a misbehaving party or a stranger, attributed to somebody else or itself.
    fn spoof_attack(&mut self) {
        let victim = self.ch.pick(self.n as usize) as u16;
        let to = self.ch.pick(self.n as usize) as u16;
        let signer = self.n + 1;
        let Some((round, pos)) = self.pick_round(to) else { return };
        let parts = self.some_parts(victim, to, pos);
        let Some(m) = forge_m::<F>(&Sk::new(signer), &self.sid.clone(), &round, to, parts, self.ch.salt()) else {
            return;
        };
        let Some(msg) = m.to_msg() else { return };
        self.register(signer, &m);
        self.stats.add("fault_spoof", 1);
        self.taint.insert((to, victim));
        tr!(self, "adversary: spoofs {victim}->{to} {pos:?}");
        self.push(Flight {
            from: victim,
            to,
            msg,
            m: Some(m),
            prov: Prov::Bogus,
            pos: None,
            what: "spoofed".into(),
            held: false,
        });
    }

    /// A round near the one the party is in.
    fn pick_round(&mut self, to: u16) -> Option<(MRoundId, Pos)> {
        let mut known: Vec<(MRoundId, Pos)> = Vec::new();
        for ((seg, idx), r) in &self.rounds {
            for echo in [false, true] {
                let mut r = r.clone();
                r.is_echo = echo;
                known.push((
                    r,
                    Pos {
                        seg: *seg,
                        idx: *idx,
                        echo,
                    },
                ));
            }
        }
        if known.is_empty() {
            return None;
        }
        let cur = self.nodes[to as usize].pos;
        let here: Vec<_> = known.iter().filter(|(_, p)| *p == cur).cloned().collect();
        let near: Vec<_> = known
            .iter()
            .filter(|(_, p)| {
                p.seg == cur.seg && {
                    let spec = &self.cfg.segs[cur.seg as usize];
                    p.idx == cur.idx || spec.rounds[cur.idx as usize].children.contains(&p.idx)
                }
            })
            .cloned()
            .collect();
        let set = match self.ch.weighted(&[4, 4, 2]) {
            0 if !here.is_empty() => here,
            1 if !near.is_empty() => near,
            _ => known,
        };
        let mut x = set[self.ch.pick(set.len())].clone();
        if self.ch.chance(60) {
            x.0.round = x.0.round.wrapping_add(8 * self.ch.pick(30) as u8);
        }
        Some(x)
    }

    /// Contents for a message of `from` at the place.
    fn some_parts(&mut self, from: u16, to: u16, pos: Pos) -> [Option<Vec<u8>>; 3] {
        // Preferably derived from a message that was really sent for that round.
        let pool: Vec<usize> = (0..self.flights.len())
            .filter(|i| self.flights[*i].pos == Some(pos) && self.flights[*i].m.is_some())
            .collect();
        let own: Vec<usize> = pool.iter().copied().filter(|i| self.flights[*i].from == from).collect();
        let pool = if own.is_empty() { pool } else { own };
        let mut out = [None, None, None];
        if !pool.is_empty() && self.ch.chance(850) {
            let f = pool[self.ch.pick(pool.len())];
            for (k, o) in out.iter_mut().enumerate() {
                let p = self.flights[f].m.as_ref().unwrap().part(k).payload().map(|b| b.to_vec());
                *o = match p {
                    Some(b) if !pos.echo => match F::dec::<Body>(&b) {
                        Some(mut body) => {
                            body.from = from;
                            if k == DIRECT {
                                body.dest = Some(to);
                            }
                            Some(F::enc(&body))
                        }
                        None => Some(b),
                    },
                    x => x,
                };
            }
        } else {
            let spec = self.cfg.segs[pos.seg as usize].clone();
            let mask = if pos.echo { 4 } else { spec.rounds[pos.idx as usize].mask };
            for (k, o) in out.iter_mut().enumerate() {
                if mask & (1 << k) != 0 {
                    let len = self.ch.pick(9);
                    *o = Some((0..len).map(|i| (self.ch.salt() >> i) as u8).collect());
                }
            }
        }
        out
    }

    /// A misbehaving participant or a stranger sends something out of turn.
    fn unsolicited(&mut self) {
        let mut ids: Vec<u16> = (0..self.n).filter(|i| !self.is_honest(*i)).collect();
        ids.push(self.n);
        let from = ids[self.ch.pick(ids.len())];
        let to = self.ch.pick(self.n as usize) as u16;
        if from == to {
            return;
        }
        let Some((round, pos)) = self.pick_round(to) else { return };
        let parts = self.some_parts(from, to, pos);
        let Some(m) = forge_m::<F>(&Sk::new(from), &self.sid.clone(), &round, to, parts, self.ch.salt()) else {
            return;
        };
        let Some(msg) = m.to_msg() else { return };
        self.register(from, &m);
        self.stats.add("byz_unsolicited", 1);
        tr!(self, "adversary: {from} sends out of turn to {to} for {pos:?}");
        let pos = self.pos_of_round(&round);
        self.push(Flight {
            from,
            to,
            msg,
            m: Some(m),
            prov: Prov::Forged,
            pos,
            what: "unsolicited".into(),
            held: false,
        });
    }

    // Misbehaving parties

    fn byz_flight(&mut self, from: u16, to: u16, m: MMsg, what: &str) {
        let Some(msg) = m.to_msg() else { return };
        let pos = if m.unified() { self.pos_of_round(m.round()) } else { None };
        // Whether everything is validly signed.
        let ok = (0..3).all(|k| self.is_signed(from, k, m.part(k)));
        tr!(self, "misbehaving {from}->{to}: {what}");
        self.push(Flight {
            from,
            to,
            msg,
            m: Some(m),
            prov: if ok { Prov::Forged } else { Prov::Bogus },
            pos,
            what: what.into(),
            held: false,
        });
    }

    fn reforge(&mut self, id: u16, dest: u16, round: &MRoundId, sid: &SessionId, parts: [Option<Vec<u8>>; 3]) -> Option<MMsg> {
        let m = forge_m::<F>(&Sk::new(id), sid, round, dest, parts, self.ch.salt())?;
        self.register(id, &m);
        Some(m)
    }

    fn edit_body(&mut self, body: &mut Body, k: usize) -> &'static str {
        match self.ch.pick(16) {
            0 | 1 => {
                body.code = 1;
                "code 1"
            }
            2 => {
                body.code = 2;
                "code 2"
            }
            3 => {
                body.tag ^= 1;
                "tag"
            }
            4 => {
                body.sid ^= 1;
                "session"
            }
            5 => {
                body.idx ^= 1;
                "round"
            }
            6 => {
                body.part = (body.part + 1) % 3;
                "part"
            }
            7 => {
                body.from ^= 1;
                "from"
            }
            8 => {
                if k == DIRECT {
                    body.dest = body.dest.map(|d| d ^ 1);
                }
                "destination"
            }
            9 | 10 => {
                body.link ^= 1;
                "link"
            }
            11 => {
                body.split ^= 1;
                "split"
            }
            12 | 13 => {
                body.sum ^= 1;
                "sum"
            }
            14 => {
                body.pad = vec![7; self.ch.pick(300)];
                "padding"
            }
            _ => {
                body.val ^= 1 + self.ch.pick(3) as u64;
                "value"
            }
        }
    }

    fn byz_send(&mut self, id: u16, dest: u16, pos: Pos, msg: Message<Vk>, m: Option<MMsg>) {
        let Some(m) = m else {
            return self.transmit(id, dest, pos, msg, None, Prov::Genuine, String::new());
        };
        let sid = self.sid.clone();
        let round = m.round().clone();
        let mut parts = [0, 1, 2].map(|k: usize| m.part(k).payload().map(|b| b.to_vec()));

        // Consistent equivocation: two versions of the broadcast for two groups of receivers.
        if self.sw.equiv_plan > 0 && !pos.echo && parts[ECHO].is_some() {
            let side = match self.equiv_sides.get(&(id, pos)) {
                Some(s) => *s,
                None => {
                    let s = if self.ch.chance(self.sw.equiv_plan) { 1 + self.ch.pick(15) as u64 } else { 0 };
                    self.equiv_sides.insert((id, pos), s);
                    s
                }
            };
            if side >> (dest % 4) & 1 == 1 {
                if let Some(mut body) = F::dec::<Body>(parts[ECHO].as_ref().unwrap()) {
                    body.val ^= 5;
                    parts[ECHO] = Some(F::enc(&body));
                    if let Some(f) = self.reforge(id, dest, &round, &sid, parts) {
                        self.stats.add("byz_equivocation", 1);
                        return self.byz_flight(id, dest, f, "equivocation");
                    }
                }
                return;
            }
        }

        if !self.ch.chance(self.sw.byz_rate) {
            return self.transmit(id, dest, pos, msg, Some(m), Prov::Genuine, String::new());
        }
        let mut menu = self.sw.byz_menu;
        if !pos.echo {
            menu[6] = 0;
        } else {
            menu[1] = 0;
            menu[6] *= 4;
        }
        if self.sw.rule_breaker {
            let rs = &self.cfg.segs[pos.seg as usize].rounds[pos.idx as usize];
            let back = rs.link.is_some() || rs.sum.is_some();
            menu = [0; 9];
            menu[!pos.echo as usize * (back || self.ch.chance(150)) as usize] = 1;
        }
        match self.ch.weighted(&menu) {
            0 => self.transmit(id, dest, pos, msg, Some(m), Prov::Genuine, String::new()),
            1 => {
                let present: Vec<usize> = (0..3).filter(|k| parts[*k].is_some()).collect();
                if present.is_empty() {
                    return self.transmit(id, dest, pos, msg, Some(m), Prov::Genuine, String::new());
                }
                // Preferably against a rule of the round.
                let rs = &self.cfg.segs[pos.seg as usize].rounds[pos.idx as usize];
                let ruled: Vec<(usize, &'static str)> = [
                    rs.link.as_ref().map(|l| (l.part as usize, "link")),
                    rs.split.map(|(a, _)| (a as usize, "split")),
                    rs.sum.as_ref().map(|s| (s.0 as usize, "sum")),
                ]
                .into_iter()
                .flatten()
                .filter(|(k, _)| present.contains(k))
                .collect();
                let rule = (!ruled.is_empty() && (self.sw.rule_breaker || self.ch.chance(400))).then(|| ruled[self.ch.pick(ruled.len())]);
                let k = rule.map_or_else(|| present[self.ch.pick(present.len())], |r| r.0);
                let Some(mut body) = F::dec::<Body>(parts[k].as_ref().unwrap()) else { return };
                let what = match rule {
                    Some((_, what)) => {
                        match what {
                            "link" => body.link ^= 1,
                            "split" => body.split ^= 1,
                            _ => body.sum ^= 1,
                        }
                        what
                    }
                    None => self.edit_body(&mut body, k),
                };
                parts[k] = Some(F::enc(&body));
                self.stats.add("byz_edit", 1);
                if let Some(f) = self.reforge(id, dest, &round, &sid, parts) {
                    self.byz_flight(id, dest, f, &format!("edited {what} of part {k}"));
                }
            }
            2 => {
                let k = self.ch.pick(3);
                let what = match (&parts[k], self.ch.pick(4)) {
                    (Some(_), 0) => {
                        parts[k] = None;
                        "part missing"
                    }
                    (Some(p), 1) => {
                        let mut p = p.clone();
                        p.truncate(self.ch.pick(p.len() + 1));
                        parts[k] = Some(p);
                        "part truncated"
                    }
                    (Some(p), 2) => {
                        let mut p = p.clone();
                        p.extend([1, 2, 3]);
                        parts[k] = Some(p);
                        "part with trailing bytes"
                    }
                    (Some(_), _) => {
                        parts[k] = Some(vec![0xff; self.ch.pick(12)]);
                        "part garbage"
                    }
                    (None, _) => {
                        parts[k] = Some(vec![0; self.ch.pick(3)]);
                        "part not foreseen"
                    }
                };
                self.stats.add("byz_structure", 1);
                if let Some(f) = self.reforge(id, dest, &round, &sid, parts) {
                    self.byz_flight(id, dest, f, &format!("{what} {k}"));
                }
            }
            3 => {
                self.stats.add("byz_metadata", 1);
                let (sid2, round2) = match self.ch.pick(3) {
                    0 => (self.other_sid.clone(), round.clone()),
                    _ => match self.pick_round(dest) {
                        Some((r, _)) => (sid.clone(), r),
                        None => (self.other_sid.clone(), round.clone()),
                    },
                };
                let Some(f2) = self.reforge(id, dest, &round2, &sid2, parts.clone()) else { return };
                let f = if self.ch.chance(500) {
                    f2
                } else {
                    let Some(mut f) = self.reforge(id, dest, &round, &sid, parts) else { return };
                    let k = self.ch.pick(3);
                    *f.part_mut(k) = f2.part(k).clone();
                    f
                };
                self.byz_flight(id, dest, f, "metadata");
            }
            4 => {
                self.stats.add("byz_silence", 1);
                tr!(self, "misbehaving {id}->{dest}: silence at {pos:?}");
            }
            5 => {
                self.stats.add("byz_double", 1);
                let present: Vec<usize> = (0..3).filter(|k| parts[*k].is_some()).collect();
                let mut f2 = None;
                if !present.is_empty() && !pos.echo {
                    let k = present[self.ch.pick(present.len())];
                    if let Some(mut body) = F::dec::<Body>(parts[k].as_ref().unwrap()) {
                        if self.ch.chance(600) {
                            body.val ^= 9;
                        } else {
                            self.edit_body(&mut body, k);
                        }
                        parts[k] = Some(F::enc(&body));
                        f2 = self.reforge(id, dest, &round, &sid, parts);
                    }
                } else {
                    f2 = self.reforge(id, dest, &round, &sid, parts);
                }
                if self.ch.chance(500) {
                    self.byz_flight(id, dest, m, "first of two");
                    if let Some(f2) = f2 {
                        self.byz_flight(id, dest, f2, "second of two");
                    }
                } else {
                    if let Some(f2) = f2 {
                        self.byz_flight(id, dest, f2, "second of two");
                    }
                    self.byz_flight(id, dest, m, "first of two");
                }
            }
            6 => {
                let Some(mut pack) = parts[NORMAL].as_ref().and_then(|b| MPack::dec::<F>(b)) else {
                    return;
                };
                let what = self.tamper_pack(id, &mut pack, pos);
                parts[NORMAL] = Some(pack.enc::<F>());
                self.stats.add("byz_echo_pack", 1);
                if let Some(f) = self.reforge(id, dest, &round, &sid, parts) {
                    self.byz_flight(id, dest, f, &format!("echo pack: {what}"));
                }
            }
            7 => {
                self.stats.add("byz_signature", 1);
                let mut f = m.clone();
                let k = self.ch.pick(3);
                let s = &mut f.part_mut(k).signature;
                match self.ch.pick(3) {
                    0 => {
                        let i = self.ch.pick(s.0.len());
                        s.0[i] ^= 1;
                    }
                    1 => {
                        let l = self.ch.pick(s.0.len());
                        s.0 = s.0[..l].into();
                    }
                    _ => {
                        let other = f.part((k + 1) % 3).signature.clone();
                        f.part_mut(k).signature = other;
                    }
                }
                self.byz_flight(id, dest, f, "signature");
            }
            _ => {
                let mut f = m.clone();
                f.destination = Vk((dest + 1) % self.n);
                self.byz_flight(id, dest, f, "destination field");
            }
        }
    }

    fn tamper_pack(&mut self, _id: u16, pack: &mut MPack, pos: Pos) -> String {
        let main = Pos { echo: false, ..pos };
        if !hash_known() {
            return "nothing".into();
        }
        // Everything signed by anybody that could be put in.
        let victims: Vec<u16> = pack.message_hashes.iter().map(|(k, _)| k.0).collect();
        if victims.is_empty() || self.ch.chance(120) {
            let from = self.ch.pick(self.n as usize) as u16;
            if let Some(f) = self.flights.iter().find(|f| f.from == from && f.pos == Some(main) && f.m.is_some()) {
                let h = signed_hash(&f.m.as_ref().unwrap().echo_broadcast, ECHO);
                pack.message_hashes.retain(|(k, _)| k.0 != from);
                pack.message_hashes.push((Vk(from), h));
                pack.message_hashes.sort_by_key(|(k, _)| *k);
                return format!("entry of {from} added");
            }
            return "nothing".into();
        }
        let i = self.ch.pick(victims.len());
        let v = victims[i];
        let repeat = self.prof.wire == 1000 && self.ch.chance(400);
        match if repeat { 4 } else { self.ch.pick(7) } {
            0 => {
                pack.message_hashes.remove(i);
                format!("entry of {v} removed")
            }
            1 => {
                let h = &mut pack.message_hashes[i].1;
                let j = self.ch.pick(h.signature.0.len());
                h.signature.0[j] ^= 1;
                format!("signature of {v} changed")
            }
            2 => {
                let h = &mut pack.message_hashes[i].1;
                h.message_part_hash.0[0] ^= 1;
                format!("hash of {v} changed")
            }
            3 => {
                let h = &mut pack.message_hashes[i].1;
                h.metadata.session_id = HexB(self.other_sid.as_ref().into());
                format!("session of {v} changed")
            }
            4 => {
                let mut e = pack.message_hashes[i].clone();
                match self.ch.pick(4) {
                    0 => pack.message_hashes.push(e),
                    1 => {
                        let j = self.ch.pick(e.1.signature.0.len());
                        e.1.signature.0[j] ^= 1;
                        pack.message_hashes.insert(i, e);
                    }
                    2 => {
                        let j = self.ch.pick(pack.message_hashes.len());
                        e.1.clone_from(&pack.message_hashes[j].1);
                        pack.message_hashes.insert(j, e);
                    }
                    _ => {
                        // in place of another one
                        let j = self.ch.pick(pack.message_hashes.len());
                        if j == i {
                            pack.message_hashes.push(e);
                        } else {
                            pack.message_hashes[j] = e;
                        }
                    }
                }
                format!("entry of {v} twice")
            }
            _ => {
                // Another part signed by the same party, anywhere
                let mut pool: Vec<(usize, MPart)> = Vec::new();
                for f in &self.flights {
                    if f.from == v {
                        if let Some(m) = &f.m {
                            for k in 0..3 {
                                if self.is_signed(v, k, m.part(k)) {
                                    pool.push((k, m.part(k).clone()));
                                }
                            }
                        }
                    }
                }
                for (f, _, m) in &self.shadow {
                    if *f == v {
                        pool.push((ECHO, m.echo_broadcast.clone()));
                    }
                }
                let same: Vec<_> = pool
                    .iter()
                    .filter(|(_, p)| self.pos_of_round(&p.meta().round_id) == Some(main))
                    .cloned()
                    .collect();
                let pool = if !same.is_empty() && self.ch.chance(700) { same } else { pool };
                if pool.is_empty() {
                    return "nothing".into();
                }
                let (k, p) = &pool[self.ch.pick(pool.len())];
                pack.message_hashes[i].1 = signed_hash(p, *k);
                format!("entry of {v} replaced by its part {k} of {:?}", p.meta().round_id)
            }
        }
    }

    // Delivery

    fn deliver(&mut self, fid: usize) {
        let (from, to, prov) = {
            let f = &self.flights[fid];
            (f.from, f.to, f.prov)
        };
        self.resolve_kept(to);
        let fpos = self.flights[fid].pos;
        let node = &self.nodes[to as usize];
        if node.dead || node.crashed || node.done.is_some() || node.live.is_none() {
            self.stats.add("delivered_to_nobody", 1);
            return;
        }
        let pos = node.pos;
        let claimed = self.flights[fid].m.as_ref().and_then(|m| self.pos_of_round(m.round()));
        let was_banned = node.banned.contains_key(&from);
        let already = node.accepted.contains_key(&from);
        let mut msg = self.flights[fid].msg.clone();
        if self.sw.wire {
            let encoding = self.ch.pick(ENCODINGS.len());
            let sent = serde_json::to_value(&msg).ok();
            let arrived = catch_unwind(AssertUnwindSafe(|| {
                encode(&msg, encoding).ok_or("not encoded".to_string()).and_then(|b| decode(&b, encoding))
            }))
            .unwrap_or_else(|e| Err(panic_text(e)));
            self.stats.add(["wire_json", "wire_json_stream", "wire_binary"][encoding], 1);
            match arrived {
                Ok(m) if serde_json::to_value(&m).ok() == sent => msg = m,
                Ok(_) => self.viol(
                    &["P30"],
                    "changed on the wire",
                    format!("{from}->{to} at {fpos:?} in {}", ENCODINGS[encoding]),
                ),
                Err(e) => self.viol(
                    &["P30"],
                    "lost on the wire",
                    format!("{from}->{to} at {fpos:?} in {}: {e}", ENCODINGS[encoding]),
                ),
            }
        }
        self.stats.add("delivered", 1);
        if was_banned {
            self.stats.add("delivered_from_excluded", 1);
        }
        if let Some(rec) = &mut self.nodes[to as usize].rec {
            rec.ops.push(Op::Pre(from, msg.clone()));
        }
        let Some(r) = self.guard(to, "preprocess_message", |node| {
            let (s, a) = node.live.as_mut().unwrap();
            s.preprocess_message(a, &Vk(from), msg)
        }) else {
            return;
        };
        let outcome = match r {
            Err(e) => {
                return self.local_error(to, "preprocess_message", e);
            }
            Ok(o) => o,
        };
        let ocode = match &outcome {
            PreprocessOutcome::ToProcess(_) => 0u64,
            PreprocessOutcome::Cached => 1,
            PreprocessOutcome::Error(_) => 2,
        };
        let rel = match (fpos.and_then(|p| self.path_rank(to, p)), self.path_rank(to, pos)) {
            (Some(a), Some(b)) => (a as i64 - b as i64 + 50) as u64,
            _ => 0,
        };
        self.stats.situation(hash(&[
            rel,
            pos.echo as u64,
            self.cfg.segs[pos.seg as usize].rounds[pos.idx as usize].mask as u64,
            prov as u64,
            ocode,
            was_banned as u64,
            already as u64,
            hash_bytes(self.flights[fid].what.as_bytes()),
        ]));
        self.mark(&[2, to as u64, from as u64, ocode, rel]);
        tr!(
            self,
            "party {to} at {pos:?} gets #{fid} from {from} ({:?} {:?} {}): {}",
            prov,
            fpos,
            self.flights[fid].what,
            match &outcome {
                PreprocessOutcome::ToProcess(_) => "to process".to_string(),
                PreprocessOutcome::Cached => "kept".to_string(),
                PreprocessOutcome::Error(e) => format!("{e:?}"),
            }
        );
        if let Some(rec) = &mut self.nodes[to as usize].rec {
            rec.log.push(format!(
                "pre {}",
                match &outcome {
                    PreprocessOutcome::ToProcess(_) => "to process".to_string(),
                    PreprocessOutcome::Cached => "kept".to_string(),
                    PreprocessOutcome::Error(e) => format!("{e:?}"),
                }
            ));
        }

        let hon = self.is_honest(to);
        let expected = self.expected(to, pos);
        let parts_ok = self.flights[fid].m.as_ref().map(|m| {
            m.unified()
                && m.direct_message.meta().session_id.0.as_ref() == self.sid.as_ref()
                && (0..3).all(|k| self.is_signed(from, k, m.part(k)))
        });

        // Is it something that has to be taken?
        let target = claimed;
        let here_or_next = match target.and_then(|p| self.path_rank(to, p)) {
            Some(r) => {
                let cur = self.path_rank(to, pos).unwrap_or(usize::MAX);
                // rounds of the current path position and the next one
                r >= cur && r / 2 <= cur / 2 + 1
            }
            None => false,
        };
        let must_take = parts_ok == Some(true)
            && prov != Prov::Bogus
            && !was_banned
            && !self.nodes[to as usize].maybe_banned.contains(&from)
            && here_or_next
            && target.is_some_and(|p| {
                self.expected(to, p).contains(&from)
                    && !self.nodes[to as usize].cached.contains_key(&(p, from))
                    && (p != pos || !already)
            });
        self.nodes[to as usize].heard.insert((from, claimed));
        let mut viols: Vec<(Vec<&'static str>, &str, String)> = Vec::new();
        let descr = |w: &Self| {
            format!(
                "party {to} at {pos:?}, message #{fid} from {from} for {:?} ({:?} {})",
                w.flights[fid].pos, prov, w.flights[fid].what
            )
        };
        match &outcome {
            PreprocessOutcome::ToProcess(_) | PreprocessOutcome::Cached => {
                let now = matches!(outcome, PreprocessOutcome::ToProcess(_));
                if parts_ok == Some(false) {
                    let alien = self.flights[fid].what.contains("another session");
                    viols.push((if alien { vec!["P09", "P31"] } else { vec!["P09"] }, "bogus accepted", descr(self)));
                }
                if was_banned {
                    viols.push((vec!["P11"], "message of an excluded party accepted", descr(self)));
                }
                if now {
                    if already {
                        viols.push((vec!["P10"], "second message accepted", descr(self)));
                    }
                    if claimed.is_some() && claimed != Some(pos) {
                        viols.push((vec!["P09", "P18"], "message of another round accepted", descr(self)));
                    }
                } else if let Some(c) = claimed {
                    if self.nodes[to as usize].cached.contains_key(&(c, from)) {
                        viols.push((vec!["P10"], "second message kept", descr(self)));
                    }
                    if c == pos {
                        viols.push((vec!["P02", "P12"], "current message kept for later", descr(self)));
                    }
                }
            }
            PreprocessOutcome::Error(e) => {
                if must_take {
                    let mut props = vec!["P12"];
                    if self.is_honest(from) && !self.taint.contains(&(to, from)) {
                        props.push("P05");
                    }
                    if claimed != Some(pos) {
                        props.push("P02");
                        if claimed.map(|c| c.seg) != Some(pos.seg) {
                            props.push("P18");
                        }
                    } else {
                        props.push("P10");
                        props.push("P01");
                    }
                    viols.push((props, "acceptable message rejected", format!("{}: {e:?}", descr(self))));
                }
            }
        }
        if must_take {
            let p = target.unwrap();
            self.nodes[to as usize].good_heard.entry((p, from)).or_insert(fid);
            if p != pos {
                self.stats.add("early_messages", 1);
                if p.echo {
                    self.stats.add("early_echo_messages", 1);
                }
                if pos.echo {
                    self.stats.add("early_across_echo", 1);
                }
                if p.seg != pos.seg {
                    self.stats.add("early_across_segments", 1);
                }
            }
        }
        match outcome {
            PreprocessOutcome::ToProcess(v) => {
                let node = &mut self.nodes[to as usize];
                if !expected.contains(&from) {
                    // It is for the library to cope with it (it may do so later).
                    self.stats.add("unexpected_sender_accepted", 1);
                }
                let node2 = node;
                node2.accepted.entry(from).or_insert(fid);
                node2.acc_seq.push(fid);
                node2.acc_msgs += 1;
                node2.pending.push((fid, from, *v));
            }
            PreprocessOutcome::Cached => {
                if let Some(c) = claimed {
                    self.nodes[to as usize].cached.insert((c, from), fid);
                } else if let Some(r) = self.flights[fid].m.as_ref().map(|m| m.round().clone()) {
                    self.nodes[to as usize].cached_raw.push((r, from, fid));
                }
            }
            PreprocessOutcome::Error(e) => {
                let step = self.step;
                let node = &mut self.nodes[to as usize];
                if was_banned {
                    node.later_errors.entry(from).or_default().push(format!("{e:?}"));
                } else if node.maybe_banned.contains(&from) {
                    node.banned.insert(from, (None, step));
                } else {
                    node.banned.insert(from, (Some(e), step));
                }
            }
        }
        if hon {
            for (p, k, d) in viols {
                self.viol(&p, k, d);
            }
        }
        self.check_can_finalize(to);
    }

    fn process_one(&mut self, id: u16, i: usize) {
        let node = &mut self.nodes[id as usize];
        let i = i.min(node.pending.len() - 1);
        let (fid, from, v) = node.pending.remove(i);
        let pos = node.pos;
        let k = node.acc_seq.iter().position(|f| *f == fid).unwrap_or(0);
        let Some(p) = self.guard(id, "process_message", |node| {
            let (s, _) = node.live.as_ref().unwrap();
            let p = s.process_message(v);
            let put: Put<K, F> = Box::new(move |s, a| s.add_processed_message(a, p));
            put
        }) else {
            return;
        };
        if let Some(rec) = &mut self.nodes[id as usize].rec {
            rec.ops.push(Op::Proc(k));
        }
        let evs = self.new_events(id);
        self.nodes[id as usize].processed.push((fid, from, p));
        self.mark(&[3, id as u64, from as u64]);
        let recvs: Vec<&Ev> = evs.iter().filter(|e| matches!(e, Ev::Recv { .. })).collect();
        if pos.echo {
            if !recvs.is_empty() {
                self.viol(&["P09", "P21"], "echo message given to the protocol", format!("party {id} at {pos:?}"));
            }
            return;
        }
        let mut viols: Vec<(Vec<&'static str>, &str, String)> = Vec::new();
        if recvs.len() > 1 {
            viols.push((vec!["P10"], "received twice", format!("party {id} at {pos:?} from {from}")));
        }
        if let Some(Ev::Recv { seg, idx, from: f, parts, .. }) = recvs.first() {
            if (*seg, *idx) != (pos.seg, pos.idx) || *f != from {
                viols.push((vec!["P09", "P01"], "wrong place", format!("party {id} at {pos:?} from {from}")));
            }
            if let Some(m) = &self.flights[fid].m {
                for k in 0..3 {
                    let sent = m.part(k).payload().and_then(|b| F::dec::<Body>(b));
                    if sent != parts[k] {
                        viols.push((
                            vec!["P01", "P09", "P10"],
                            "content given to the protocol",
                            format!("party {id} at {pos:?} part {k} from {from}: not what was in the accepted message"),
                        ));
                    }
                }
            }
        }
        // The verdict
        let verdict = match recvs.first() {
            Some(Ev::Recv { err, .. }) => err.is_none(),
            _ => false,
        };
        // An honest message must be fine with the protocol, if the sender had the same view.
        if !verdict && self.plain {
            viols.push((
                vec!["P01", "P05"],
                "honest message refused by the protocol",
                format!("party {id} at {pos:?} from {from}: {recvs:?}"),
            ));
        }
        self.nodes[id as usize].dealt.insert(from, Some(verdict));
        // until it is added, it counts as not dealt with
        self.nodes[id as usize].dealt.remove(&from);
        self.nodes[id as usize].processed.last_mut().unwrap().0 = fid;
        self.stats.add("processed", 1);
        self.verdicts_insert(id, fid, verdict);
        if self.is_honest(id) {
            for (p, k, d) in viols {
                self.viol(&p, k, d);
            }
        }
    }

    fn verdicts_insert(&mut self, id: u16, fid: usize, verdict: bool) {
        self.stats.verdicts.insert((id, fid), verdict);
    }

    fn add_processed(&mut self, id: u16, i: usize) {
        let node = &mut self.nodes[id as usize];
        let i = i.min(node.processed.len() - 1);
        let (fid, from, p) = node.processed.remove(i);
        let pos = node.pos;
        let k = node.acc_seq.iter().position(|f| *f == fid).unwrap_or(0);
        let Some(r) = self.guard(id, "add_processed_message", |node| {
            let (s, a) = node.live.as_mut().unwrap();
            p(s, a)
        }) else {
            return;
        };
        if let Err(e) = r {
            return self.local_error(id, "add_processed_message", e);
        }
        if let Some(rec) = &mut self.nodes[id as usize].rec {
            rec.ops.push(Op::Add(k));
        }
        let verdict = if pos.echo { self.judge_pack(id, from, fid, pos) } else { self.stats.verdicts.get(&(id, fid)).copied() };
        let step = self.step;
        let node = &mut self.nodes[id as usize];
        node.dealt.insert(from, verdict);
        if !pos.echo && verdict == Some(false) && !node.banned.contains_key(&from) {
            node.banned.insert(from, (None, step));
        }
        tr!(self, "party {id} at {pos:?}: message #{fid} of {from} dealt with: {verdict:?}");
        self.mark(&[4, id as u64, from as u64, verdict.map_or(2, |v| v as u64)]);
        self.check_can_finalize(id);
    }

    /// What should become of an echo message. `Some(true)`: it should be fine.
    fn judge_pack(&mut self, id: u16, from: u16, fid: usize, pos: Pos) -> Option<bool> {
        let m = self.flights[fid].m.clone()?;
        if m.direct_message.payload().is_some() || m.echo_broadcast.payload().is_some() {
            self.ban_echo(id, from);
            return Some(false);
        }
        let Some(b) = m.normal_broadcast.payload() else {
            self.ban_echo(id, from);
            return Some(false);
        };
        let Some(pack) = MPack::dec::<F>(b) else {
            self.ban_echo(id, from);
            return Some(false);
        };
        let spec = self.cfg.segs[pos.seg as usize].clone();
        let main = Pos { echo: false, ..pos };
        let mut want: BTreeSet<u16> = spec.echo_senders(pos.idx, id);
        if spec.participation(pos.idx, id) == crate::mix::EchoPart::Default {
            want.insert(id);
        }
        want.remove(&from);
        let keys: BTreeSet<u16> = pack.message_hashes.iter().map(|(k, _)| k.0).collect();
        if keys.len() != pack.message_hashes.len() {
            self.stats.add("repeated_entries", 1);
            self.nodes[id as usize].repeats.insert(from);
        }
        if keys != want || keys.len() != pack.message_hashes.len() {
            self.ban_echo(id, from);
            return Some(false);
        }
        let mut guilty = BTreeSet::new();
        let mut clean = true;
        for (k, h) in &pack.message_hashes {
            let mine = if k.0 == id {
                self.nodes[id as usize]
                    .makes_in_round
                    .get(&(ECHO, None))
                    .map(|b| F::enc(b))
            } else {
                self.nodes[id as usize]
                    .past
                    .get(&main)
                    .and_then(|a| a.get(&k.0))
                    .and_then(|f| self.flights[*f].m.as_ref())
                    .and_then(|m| m.echo_broadcast.payload().map(|b| b.to_vec()))
            };
            let mine_hash = part_hash(ECHO, mine.as_deref());
            let meta_ok = h.metadata.session_id.0.as_ref() == self.sid.as_ref()
                && self.pos_of_round(&h.metadata.round_id) == Some(main);
            // A hash of something that the sender signed as an echo broadcast?
            let orig = self.signed.get(&(k.0, ECHO)).and_then(|s| {
                s.iter().find(|p| {
                    if hash_known() {
                        &signed_hash(p, ECHO) == h
                    } else {
                        p.signature == h.signature && p.meta() == &h.metadata
                    }
                })
            });
            if !hash_known() {
                if !meta_ok || orig.is_none() {
                    clean = false;
                } else if orig.and_then(|p| p.payload()) != mine.as_deref() {
                    guilty.insert(k.0);
                }
                continue;
            }
            if !meta_ok || orig.is_none() {
                clean = false;
            } else if mine_hash != h.message_part_hash.0.as_ref() {
                guilty.insert(k.0);
            }
        }
        let step = self.step;
        if !clean {
            if guilty.is_empty() {
                self.ban_echo(id, from);
            } else {
                // Either fault may be the one that is noticed.
                let node = &mut self.nodes[id as usize];
                node.maybe_banned.extend(guilty);
                node.maybe_banned.insert(from);
            }
            return Some(false);
        }
        if !guilty.is_empty() {
            self.stats.add("equivocation_seen", 1);
            let node = &mut self.nodes[id as usize];
            let was = node.banned.contains_key(&from);
            node.equivocators_seen.push((guilty.clone(), from, was));
            if guilty.len() == 1 {
                let g = *guilty.iter().next().unwrap();
                node.banned.entry(g).or_insert((None, step));
            } else {
                node.maybe_banned.extend(guilty);
            }
            return Some(false);
        }
        Some(true)
    }

    fn ban_echo(&mut self, id: u16, from: u16) {
        let step = self.step;
        self.nodes[id as usize].banned.entry(from).or_insert((None, step));
    }

    fn add_art(&mut self, id: u16, i: usize) {
        let node = &mut self.nodes[id as usize];
        let i = i.min(node.arts.len() - 1);
        let art = node.arts.remove(i);
        let Some(r) = self.guard(id, "add_artifact", |node| {
            let (s, a) = node.live.as_mut().unwrap();
            art(s, a)
        }) else {
            return;
        };
        if let Err(e) = r {
            return self.local_error(id, "add_artifact", e);
        }
        if let Some(rec) = &mut self.nodes[id as usize].rec {
            rec.ops.push(Op::Art(i as u16));
        }
        self.mark(&[5, id as u64]);
    }

    fn can_finalize(&mut self, id: u16) -> Option<CanFinalize> {
        self.nodes[id as usize].live.as_ref()?;
        self.guard(id, "can_finalize", |node| {
            let (s, a) = node.live.as_ref().unwrap();
            s.can_finalize(a)
        })
    }

    fn check_can_finalize(&mut self, id: u16) {
        let Some(c) = self.can_finalize(id) else { return };
        let pos = self.nodes[id as usize].pos;
        if let Some(rec) = &mut self.nodes[id as usize].rec {
            rec.log.push(format!("can {c:?}"));
        }
        if !self.is_honest(id) {
            return;
        }
        let expected = self.expected(id, pos);
        let node = &self.nodes[id as usize];
        let in_pipe = |y: u16| node.pending.iter().any(|p| p.1 == y) || node.processed.iter().any(|p| p.1 == y);
        let state: Vec<(u16, Option<Option<bool>>, bool, bool)> = expected
            .iter()
            .map(|y| (*y, node.dealt.get(y).copied(), node.banned.contains_key(y), in_pipe(*y)))
            .collect();
        let unsure = node.maybe_banned.iter().any(|m| expected.contains(m));
        match c {
            CanFinalize::Yes => {
                for (y, d, _, _) in &state {
                    if !matches!(d, Some(None | Some(true))) {
                        self.viol(
                            &["P12", "P01", "P03"],
                            "ready without a message",
                            format!("party {id} at {pos:?} is ready to finalize though {y}: dealt with {d:?}"),
                        );
                        return;
                    }
                }
            }
            CanFinalize::NotYet => {
                if !state.iter().any(|(_, d, b, p)| d.is_none() && (!b || *p)) && !unsure {
                    self.viol(
                        &["P12"],
                        "waits for nothing",
                        format!("party {id} at {pos:?} waits, (sender, dealt, excluded, in work): {state:?}"),
                    );
                }
            }
            CanFinalize::Never => {
                if !unsure && !state.iter().any(|(_, d, b, p)| match d {
                    Some(v) => *v != Some(true),
                    None => *b && !*p,
                }) {
                    self.viol(
                        &["P12"],
                        "gives up without a reason",
                        format!("party {id} at {pos:?} gives up, (sender, dealt, excluded, in work): {state:?}"),
                    );
                }
            }
        }
    }

    fn finalize(&mut self, id: u16) {
        let pos = self.nodes[id as usize].pos;
        if let Some(rec) = &mut self.nodes[id as usize].rec {
            rec.ops.push(Op::Fin);
        }
        // Every expected message must have come from something acceptable.
        if self.is_honest(id) {
            for y in self.expected(id, pos) {
                let node = &self.nodes[id as usize];
                let ok = node.accepted.get(&y).is_some_and(|f| self.flights[*f].prov != Prov::Bogus)
                    || node.accepted.get(&y).is_some_and(|f| {
                        self.flights[*f].m.as_ref().is_some_and(|m| {
                            m.unified() && (0..3).all(|k| self.is_signed(y, k, m.part(k)))
                        })
                    });
                if !ok && self.mirror_ok {
                    self.viol(
                        &["P09", "P12"],
                        "finalized without a genuine message",
                        format!("party {id} at {pos:?}: nothing acceptable from {y}"),
                    );
                }
            }
        }
        let Some(r) = self.guard(id, "finalize_round", |node| {
            let (s, a) = node.live.take().unwrap();
            s.finalize_round(&mut node.rng, a)
        }) else {
            return;
        };
        let r = match r {
            Err(e) => return self.local_error(id, "finalize_round", e),
            Ok(r) => r,
        };
        self.mark(&[6, id as u64, pos.idx as u64, pos.echo as u64]);
        // Messages from senders nobody expects may be left in work
        self.nodes[id as usize].pending.clear();
        self.nodes[id as usize].processed.clear();
        if pos.echo {
            self.nodes[id as usize].passed_echo.insert((pos.seg, pos.idx));
            self.stats.add("echo_rounds_passed", 1);
        }
        self.check_fin(id, pos);
        match r {
            RoundOutcome::Finished(report) => {
                tr!(self, "party {id} finishes at {pos:?}");
                self.new_events(id);
                self.finish(id, DoneKind::Result, report);
            }
            RoundOutcome::AnotherRound {
                session,
                cached_messages,
            } => {
                if let Some(rec) = &mut self.nodes[id as usize].rec {
                    rec.log.push(format!("round {:?} kept {}", session.round_id(), cached_messages.len()));
                }
                self.enter(id, *session, cached_messages);
            }
        }
    }

    /// Checks what the protocol's `finalize` was given.
    fn check_fin(&mut self, id: u16, pos: Pos) {
        let log: Vec<Ev> = {
            let node = &self.nodes[id as usize];
            let l = node.probe.0.lock().unwrap();
            l[node.probe_seen..].to_vec()
        };
        let spec = self.cfg.segs[pos.seg as usize].clone();
        let fins: Vec<&Ev> = log.iter().filter(|e| matches!(e, Ev::Fin { .. })).collect();
        let should = pos.echo || !spec.echoes(pos.idx, id);
        if fins.len() != should as usize {
            self.viol(
                &["P01", "P03", "P21"],
                "finalization",
                format!("party {id} at {pos:?}: the round was finalized {} times", fins.len()),
            );
            return;
        }
        let Some(Ev::Fin { seg, idx, payloads, artifacts }) = fins.first() else { return };
        if (*seg, *idx) != (pos.seg, pos.idx) {
            self.viol(&["P01"], "finalization", format!("party {id} at {pos:?}: round {seg}/{idx} finalized"));
            return;
        }
        let expects = spec.expects(pos.idx, id);
        let keys: BTreeSet<u16> = payloads.keys().copied().collect();
        let byz = !self.is_honest(id);
        if keys != expects && !byz {
            let mut props = vec!["P01", "P12"];
            if keys.iter().any(|k| self.nodes[id as usize].banned.contains_key(k)) {
                props.push("P11");
            }
            self.viol(&props, "payloads", format!("party {id} at {pos:?}: from {keys:?} instead of {expects:?}"));
        }
        let main = Pos { echo: false, ..pos };
        let accepted = if pos.echo {
            self.nodes[id as usize].past.get(&main).cloned().unwrap_or_default()
        } else {
            self.nodes[id as usize].accepted.clone()
        };
        for (from, parts) in payloads {
            let Some(fid) = accepted.get(from) else {
                self.viol(&["P01", "P09"], "payload from nowhere", format!("party {id} at {pos:?} from {from}"));
                continue;
            };
            if let Some(m) = &self.flights[*fid].m {
                let sent = [0, 1, 2].map(|k: usize| m.part(k).payload().and_then(|b| F::dec::<Body>(b)));
                if &sent != parts {
                    self.viol(
                        &["P01", "P10", "P09"],
                        "payload",
                        format!("party {id} at {pos:?}: the payload from {from} is not of the message first received"),
                    );
                }
            }
        }
        let dests = spec.dests(pos.idx, id);
        let akeys: BTreeSet<u16> = artifacts.keys().copied().collect();
        if akeys != dests {
            self.viol(&["P01"], "artifacts", format!("party {id} at {pos:?}: for {akeys:?} instead of {dests:?}"));
        }
        let direct = spec.rounds[pos.idx as usize].has(DIRECT);
        for (d, a) in artifacts {
            let want = direct.then(|| {
                self.nodes[id as usize]
                    .makes_in_round
                    .get(&(DIRECT, Some(*d)))
                    .map(|b| crate::mix::art_of(b.val))
            });
            if want.map(|w| w == *a) == Some(false) || (want.is_none() && a.is_some()) {
                self.viol(&["P01"], "artifacts", format!("party {id} at {pos:?}: wrong artifact for {d}"));
            }
        }
    }

    fn terminate(&mut self, id: u16, kind: DoneKind) {
        let what = if kind == DoneKind::Never { "terminate_due_to_errors" } else { "terminate" };
        if let Some(rec) = &mut self.nodes[id as usize].rec {
            rec.ops.push(if kind == DoneKind::Never { Op::TermErr } else { Op::Term });
        }
        let Some(r) = self.guard(id, what, |node| {
            let (s, a) = node.live.take().unwrap();
            if kind == DoneKind::Never {
                s.terminate_due_to_errors(a)
            } else {
                s.terminate(a)
            }
        }) else {
            return;
        };
        tr!(self, "party {id}: {what}");
        self.mark(&[7, id as u64, kind as u64]);
        match r {
            Err(e) => self.local_error(id, what, e),
            Ok(report) => self.finish(id, kind, report),
        }
    }

    fn finish(&mut self, id: u16, kind: DoneKind, report: Report<K, F>) {
        let pos = self.nodes[id as usize].pos;
        self.nodes[id as usize].finished_pos = Some(pos);
        self.stats.add(
            match kind {
                DoneKind::Result => "outcome_result",
                DoneKind::Never => "outcome_not_enough",
                DoneKind::User => "outcome_terminated",
            },
            1,
        );
        if let Some(rec) = &mut self.nodes[id as usize].rec {
            rec.log.push(report_text::<K, F>(&report));
        }
        let hon = self.is_honest(id);
        let mut viols: Vec<(Vec<&'static str>, String, String)> = Vec::new();
        let label_ok = matches!(
            (kind, &report.outcome),
            (DoneKind::Result, SessionOutcome::Result(_))
                | (DoneKind::Never, SessionOutcome::NotEnoughMessages)
                | (DoneKind::User, SessionOutcome::Terminated)
        );
        if !label_ok {
            viols.push((
                vec!["P13"],
                "outcome".into(),
                format!("party {id} ended by {kind:?}, the outcome is {}", report.outcome.brief()),
            ));
        }
        // Missing messages
        let expected = self.expected(id, pos);
        let node = &self.nodes[id as usize];
        let mut listed_here: BTreeSet<u16> = BTreeSet::new();
        for (r, set) in &report.missing_messages {
            let mr = MRoundId::of(r);
            if mr.is_some() && mr == node.round && kind != DoneKind::Result {
                listed_here = set.iter().map(|v| v.0).collect();
            } else if !set.is_empty() {
                viols.push((
                    vec!["P13"],
                    "missing in a completed round".into(),
                    format!("party {id} at {pos:?}: {r} lists {set:?}"),
                ));
            }
        }
        if kind != DoneKind::Result && node.round.is_some() {
            for y in &expected {
                let heard = node.heard.iter().any(|(f, p)| f == y && (*p == Some(pos) || p.is_none()))
                    || node.accepted.contains_key(y)
                    || node.banned.contains_key(y);
                if !heard && !listed_here.contains(y) {
                    viols.push((
                        vec!["P13"],
                        "missing party not listed".into(),
                        format!("party {id} at {pos:?}: nothing was received from {y}, listed are {listed_here:?}"),
                    ));
                }
                if node.dealt.contains_key(y) && listed_here.contains(y) {
                    viols.push((
                        vec!["P13"],
                        "processed party listed as missing".into(),
                        format!("party {id} at {pos:?}: {y}"),
                    ));
                }
            }
            for y in &listed_here {
                if !expected.contains(y) {
                    viols.push((
                        vec!["P13"],
                        "unexpected party listed as missing".into(),
                        format!("party {id} at {pos:?}: {y}"),
                    ));
                }
            }
        }
        // Errors
        let blamed: BTreeSet<u16> = report
            .provable_errors
            .keys()
            .chain(report.unprovable_errors.keys())
            .map(|v| v.0)
            .collect();
        for (b, (first, _)) in &node.banned {
            if !blamed.contains(b) {
                viols.push((
                    vec!["P11", "P13"],
                    "recorded error lost".into(),
                    format!("party {id}: the error of {b} is not in the report"),
                ));
            } else if let Some(first) = first {
                let first = format!("{first:?}");
                match report.unprovable_errors.get(&Vk(*b)) {
                    None => viols.push((
                        vec!["P11"],
                        "first error lost".into(),
                        format!("party {id}: {b}: {first}"),
                    )),
                    Some(e) => {
                        let e = format!("{e:?}");
                        // Overwritten by what was said later about the same party?
                        if e != first
                            && (node.later_errors.get(b).is_some_and(|l| l.contains(&e))
                                || ["bad code", "wrong segment", "wrong destination"].iter().any(|t| e.contains(t)))
                        {
                            viols.push((
                                vec!["P11"],
                                "first error overwritten".into(),
                                format!("party {id}: {b}: {first} became {e}"),
                            ));
                        }
                    }
                }
            }
        }
        for h in &self.honest {
            if report.provable_errors.contains_key(&Vk(*h)) {
                viols.push((
                    vec!["P05", "P07"],
                    "honest party convicted".into(),
                    format!(
                        "party {id} convicts {h}: {}",
                        report.provable_errors[&Vk(*h)].description()
                    ),
                ));
            }
            if report.unprovable_errors.contains_key(&Vk(*h)) && !self.taint.contains(&(id, *h)) {
                viols.push((
                    vec!["P05"],
                    "honest party blamed".into(),
                    format!("party {id} blames {h}: {:?}", report.unprovable_errors[&Vk(*h)]),
                ));
            }
        }
        // Equivocation
        for (set, relay, was) in &node.equivocators_seen {
            if !set.iter().any(|g| report.provable_errors.get(&Vk(*g)).is_some_and(|e| e.guilty_party() == &Vk(*g))) {
                viols.push((
                    vec!["P04"],
                    "equivocator not convicted".into(),
                    format!("party {id} at {pos:?}: relayed by {relay}: {set:?}, blamed are {blamed:?}"),
                ));
            }
            if report.provable_errors.contains_key(&Vk(*relay)) && !set.contains(relay) && !node.banned.contains_key(relay) && !node.maybe_banned.contains(relay) {
                viols.push((
                    vec!["P04"],
                    "relay blamed".into(),
                    format!("party {id} at {pos:?}: {relay}"),
                ));
            }
            if report.unprovable_errors.contains_key(&Vk(*relay)) && !was && !node.banned.contains_key(relay) && !node.maybe_banned.contains(relay) {
                viols.push((
                    vec!["P04"],
                    "relay blamed".into(),
                    format!("party {id} at {pos:?}: {relay}"),
                ));
            }
        }
        for from in &node.repeats {
            if !report.provable_errors.contains_key(&Vk(*from)) {
                viols.push((
                    vec!["P30"],
                    "repeated entry taken".into(),
                    format!("party {id} at {pos:?}: no provable error of {from}"),
                ));
            }
        }
        if let Err(e) = check_brief::<K, F>(&report) {
            viols.push((vec!["P13"], "brief".into(), format!("party {id}: {e}")));
        }
        // Evidence
        let shared = K::shared(&self.cfg);
        let mut evs = Vec::new();
        for (k, ev) in &report.provable_errors {
            if ev.guilty_party() != k {
                viols.push((
                    vec!["P05", "P06", "P04"],
                    "filed under another party".into(),
                    format!("party {id}: evidence against {:?} is filed under {k:?}", ev.guilty_party()),
                ));
            }
            match catch_unwind(AssertUnwindSafe(|| check_evidence::<K, F>(ev, &shared))) {
                Ok(Ok(json)) => evs.push((k.0, json)),
                Ok(Err(e)) => {
                    let mut props = if K::SEGS > 1 { vec!["P06", "P18"] } else { vec!["P06"] };
                    if !e.starts_with("does not verify:") {
                        props.push("P30");
                    }
                    viols.push((
                        props,
                        "evidence".into(),
                        format!("party {id}: evidence against {k:?} ({}): {e}", ev.description()),
                    ))
                }
                Err(e) => viols.push((
                    vec!["P06", "P07"],
                    "panic in evidence verification".into(),
                    format!("party {id}: evidence against {k:?} ({}): {}", ev.description(), panic_text(e)),
                )),
            }
            let d = ev.description().to_string();
            let class = d.split(':').next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).collect::<String>();
            // What kind of protocol error, and how many earlier rounds it refers to
            let more = match d.split_once("): ") {
                Some((p, k)) if p.starts_with("Protocol error") => {
                    let name: String = k.chars().take_while(|c| c.is_ascii_alphabetic()).collect();
                    let list = k.rsplit_once('[').map_or("", |x| x.1);
                    let n = if list.contains('(') { list.matches('(').count() } else { list.matches(',').count() + 1 };
                    match name.as_str() {
                        "Link" | "Sum" => format!(" {name} of {}", n.min(4)),
                        _ => format!(" {name}"),
                    }
                }
                _ => String::new(),
            };
            self.stats.add(&format!("evidence[{}{more}]", class.trim()), 1);
            self.stats.add("evidence_checked", 1);
        }
        if hon {
            self.evidences.extend(evs);
            for (p, k, d) in viols {
                self.viol(&p, &k, d);
            }
        } else {
            // The evidence that a misbehaving party gets from its own session is as good as any.
            self.evidences.extend(evs);
        }
        self.nodes[id as usize].done = Some((kind, report));
    }

    // Scheduling

    fn pump(&mut self, id: u16) {
        for _ in 0..200 {
            let node = &self.nodes[id as usize];
            if node.dead || node.crashed || node.live.is_none() {
                return;
            }
            if !node.to_send.is_empty() {
                self.send_one(id, 0);
            } else if !node.arts.is_empty() {
                self.add_art(id, 0);
            } else if !node.pending.is_empty() {
                self.process_one(id, 0);
            } else if !node.processed.is_empty() {
                self.add_processed(id, 0);
            } else {
                match self.can_finalize(id) {
                    Some(CanFinalize::Yes) => self.finalize(id),
                    Some(CanFinalize::Never) => self.terminate(id, DoneKind::Never),
                    _ => return,
                }
            }
        }
    }

    fn actions(&mut self, id: u16) -> Vec<(usize, usize)> {
        let node = &self.nodes[id as usize];
        if node.dead || node.crashed || node.done.is_some() {
            return vec![];
        }
        if !node.started {
            return vec![(0, 0)];
        }
        if node.live.is_none() {
            return vec![];
        }
        let mut v = Vec::new();
        if !node.to_send.is_empty() {
            v.push((1, node.to_send.len()));
        }
        if !node.arts.is_empty() {
            v.push((2, node.arts.len()));
        }
        if !node.pending.is_empty() {
            v.push((3, node.pending.len()));
        }
        if !node.processed.is_empty() {
            v.push((4, node.processed.len()));
        }
        let idle = node.to_send.is_empty() && node.arts.is_empty();
        let quiet = node.pending.is_empty() && node.processed.is_empty();
        if idle || quiet {
            match self.can_finalize(id) {
                Some(CanFinalize::Yes) if idle => v.push((5, 1)),
                Some(CanFinalize::Never) if quiet => v.push((6, 1)),
                _ => {}
            }
        }
        v
    }

    fn act(&mut self, id: u16, a: (usize, usize)) {
        match a.0 {
            0 => {
                self.start(id);
                if self.nodes[id as usize].eager {
                    self.pump(id);
                }
            }
            1 => {
                let i = self.ch.pick(a.1);
                self.send_one(id, i);
            }
            2 => {
                let i = self.ch.pick(a.1);
                self.add_art(id, i);
            }
            3 => {
                let i = self.ch.pick(a.1);
                self.process_one(id, i);
            }
            4 => {
                let i = self.ch.pick(a.1);
                self.add_processed(id, i);
            }
            5 => self.finalize(id),
            _ => self.terminate(id, DoneKind::Never),
        }
    }

    fn can_take(&self, to: u16) -> bool {
        let n = &self.nodes[to as usize];
        n.live.is_some() || n.dead || n.crashed || n.done.is_some()
    }

    pub fn run(&mut self) {
        loop {
            self.step += 1;
            if self.step > 60_000 {
                self.viol(&["P12"], "no end", "the run does not come to an end".into());
                break;
            }
            // Scheduled misfortunes
            let now: Vec<u16> = self.sw.terminate.iter().filter(|(s, _)| *s == self.step).map(|x| x.1).collect();
            for id in now {
                let n = &self.nodes[id as usize];
                if n.live.is_some() && !n.crashed {
                    self.stats.add("fault_terminate", 1);
                    self.terminate(id, DoneKind::User);
                }
            }
            let now: Vec<u16> = self.sw.crash.iter().filter(|(s, _)| *s == self.step).map(|x| x.1).collect();
            for id in now {
                let n = &mut self.nodes[id as usize];
                if !n.crashed && n.done.is_none() {
                    n.crashed = true;
                    self.stats.add("fault_crash", 1);
                    tr!(self, "party {id} crashes");
                }
            }
            if let Some((_, _, b)) = &self.sw.partition {
                if self.step >= *b {
                    for f in &self.in_air {
                        self.flights[*f].held = false;
                    }
                }
            }
            let mut deliverable: Vec<usize> = self
                .in_air
                .iter()
                .copied()
                .filter(|f| !self.flights[*f].held && self.can_take(self.flights[*f].to))
                .collect();
            let mut acts: Vec<(u16, (usize, usize))> = Vec::new();
            for id in 0..self.n {
                for a in self.actions(id) {
                    acts.push((id, a));
                }
            }
            if deliverable.is_empty() && acts.is_empty() {
                if self.in_air.iter().any(|f| self.flights[*f].held) {
                    for f in &self.in_air {
                        self.flights[*f].held = false;
                    }
                    self.stats.add("fault_heal", 1);
                    continue;
                }
                break;
            }
            // Slow parties get their turn only if there is nothing else.
            if !self.sw.slow.is_empty() {
                let fast: Vec<usize> = deliverable
                    .iter()
                    .copied()
                    .filter(|f| !self.sw.slow.contains(&self.flights[*f].to))
                    .collect();
                let facts: Vec<_> = acts.iter().filter(|a| !self.sw.slow.contains(&a.0)).cloned().collect();
                if !(fast.is_empty() && facts.is_empty()) && !self.ch.chance(40) {
                    deliverable = fast;
                    acts = facts;
                }
            }
            let attacks = [
                if self.sw.unsolicited > 0 { 3 } else { 0 },
                if self.sw.replays > 0 { 3 } else { 0 },
                if self.sw.spoofs > 0 { 3 } else { 0 },
            ];
            let w = [
                if deliverable.is_empty() { 0 } else { 40 },
                if acts.is_empty() { 0 } else { 40 },
                attacks[0],
                attacks[1],
                attacks[2],
            ];
            match self.ch.weighted(&w) {
                0 if !deliverable.is_empty() => {
                    let i = match self.sw.policy {
                        0 => 0,
                        1 => self.ch.pick(deliverable.len()),
                        2 => self.ch.pick(deliverable.len().min(3)),
                        _ => deliverable.len() - 1 - self.ch.pick(deliverable.len().min(4)),
                    };
                    let f = deliverable[i];
                    self.in_air.retain(|x| *x != f);
                    self.deliver(f);
                    let to = self.flights[f].to;
                    if self.nodes[to as usize].eager {
                        self.pump(to);
                    }
                }
                2 => {
                    self.sw.unsolicited -= 1;
                    self.unsolicited();
                }
                3 => {
                    self.sw.replays -= 1;
                    self.replay_attack();
                }
                4 => {
                    self.sw.spoofs -= 1;
                    self.spoof_attack();
                }
                _ => {
                    let i = self.ch.pick(acts.len());
                    let (id, a) = acts[i];
                    self.act(id, a);
                }
            }
        }
        self.final_checks();
    }

    fn final_checks(&mut self) {
        // Liveness
        for id in 0..self.n {
            let node = &self.nodes[id as usize];
            if node.byz || node.crashed || node.dead || node.done.is_some() {
                continue;
            }
            let pos = node.pos;
            for y in self.expected(id, pos) {
                let node = &self.nodes[id as usize];
                if node.dealt.contains_key(&y) || node.banned.contains_key(&y) || node.maybe_banned.contains(&y) {
                    continue;
                }
                if let Some(f) = node.good_heard.get(&(pos, y)) {
                    self.viol(
                        &["P02", "P12"],
                        "received message is still waited for",
                        format!("party {id} at {pos:?} waits for {y}, whose message #{f} was delivered"),
                    );
                }
            }
            if self.plain {
                self.viol(
                    &["P01", "P12"],
                    "stuck",
                    format!("party {id} at {pos:?} did not finish, though nothing went wrong"),
                );
            }
        }
        if self.plain {
            let md = model(&self.cfg, hash_bytes(self.sid.as_ref()));
            for id in 0..self.n {
                let Some((kind, report)) = &self.nodes[id as usize].done else { continue };
                let mut bad = None;
                if *kind != DoneKind::Result {
                    bad = Some(format!("ended by {kind:?}"));
                } else if !report.provable_errors.is_empty()
                    || !report.unprovable_errors.is_empty()
                    || report.missing_messages.values().any(|s| !s.is_empty())
                {
                    bad = Some(format!("the report is not clean: {}", report.brief()));
                } else if let SessionOutcome::Result(r) = &report.outcome {
                    if r.hist != md.results[&id] || r.me != id {
                        bad = Some("the result differs from the model".into());
                    }
                }
                if let Some(b) = bad {
                    let props: &[&'static str] = if K::SEGS > 1 { &["P01", "P18"] } else { &["P01"] };
                    self.viol(props, "result", format!("party {id}: {b}"));
                }
            }
            self.stats.add("plain_runs", 1);
        }
        // Agreement on broadcasts
        for x in self.honest.clone() {
            for y in self.honest.clone() {
                if x >= y {
                    continue;
                }
                for (seg, spec) in self.cfg.segs.clone().iter().enumerate() {
                    for idx in 0..spec.rounds.len() as u8 {
                        let key = (seg as u8, idx);
                        if !spec.echo_targets(idx, x).contains(&y) || !spec.echo_targets(idx, y).contains(&x) {
                            continue;
                        }
                        let pos = Pos {
                            seg: seg as u8,
                            idx,
                            echo: false,
                        };
                        let past_echo = |w: &Self, p: u16| {
                            w.nodes[p as usize].passed_echo.contains(&key)
                                || w.nodes[p as usize]
                                    .probe
                                    .0
                                    .lock()
                                    .unwrap()
                                    .iter()
                                    .any(|e| matches!(e, Ev::Fin { seg, idx, .. } if (*seg, *idx) == key))
                        };
                        if !past_echo(self, x) || !past_echo(self, y) {
                            continue;
                        }
                        self.stats.add("agreement_checks", 1);
                        let get = |w: &Self, p: u16, s: u16| -> Option<Option<Vec<u8>>> {
                            if p == s {
                                return w.nodes[p as usize].makes_at(pos).map(|b| Some(F::enc(&b)));
                            }
                            let f = w.nodes[p as usize].past.get(&pos)?.get(&s)?;
                            w.flights[*f]
                                .m
                                .as_ref()
                                .map(|m| m.echo_broadcast.payload().map(|b| b.to_vec()))
                        };
                        for s in 0..self.n {
                            let both = (spec.echo_senders(idx, x).contains(&s) || s == x)
                                && (spec.echo_senders(idx, y).contains(&s) || s == y)
                                && spec.rounds[idx as usize].echo_s.contains(&s);
                            if !both {
                                continue;
                            }
                            if let (Some(a), Some(b)) = (get(self, x, s), get(self, y, s)) {
                                if a != b {
                                    self.viol(
                                        &["P03"],
                                        "disagreement",
                                        format!("parties {x} and {y} went past the echo round of {key:?} with different broadcasts of {s}"),
                                    );
                                }
                            }
                        }
                    }
                }
            }
        }
        // Freshness of randomness
        for id in 0..self.n {
            let node = &self.nodes[id as usize];
            let mut seen = BTreeSet::new();
            let mut dup = 0;
            let log = node.probe.0.lock().unwrap().clone();
            for e in &log {
                if let Ev::Make { body, .. } = e {
                    if !seen.insert(body.token) {
                        dup += 1;
                    }
                }
            }
            for n in node.nonces.lock().unwrap().iter() {
                if !seen.insert(u64::from_le_bytes(n[..8].try_into().unwrap())) {
                    dup += 1;
                }
            }
            self.stats.add("random_draws_compared", seen.len() as u64);
            if dup > 0 {
                self.viol(&["P17"], "repeated randomness", format!("party {id}: {dup} repeated draws"));
            }
        }
        let odd: Vec<String> = ODDITIES.with(|o| o.borrow().clone());
        if let Some(o) = odd.first() {
            let o = o.clone();
            self.viol(&["P06", "P18"], "protocol code called out of place", o);
        }
        self.stats.steps = self.step as u64;
        self.stats.fingerprint = self.fp;
        self.stats.add("parties", self.n as u64);
        if !self.mirror_ok {
            self.stats.add("wire_structure_unknown", 1);
        }
        if !self.sw.slow.is_empty() {
            self.stats.add("fault_slow_party", 1);
        }
        if self.prof.fabricate {
            self.fabricate();
        }
        if self.prof.record {
            self.replay_recordings();
        }
        for id in self.honest.clone() {
            let Some((kind, report)) = self.nodes[id as usize].done.take() else { continue };
            let in_outcome = match &report.outcome {
                SessionOutcome::Result(r) => Some((r.me, r.hist)),
                _ => None,
            };
            let given = report.result().map(|r| (r.me, r.hist));
            if given != in_outcome {
                self.viol(
                    &["P13"],
                    "result()",
                    format!("party {id} ended by {kind:?}: {given:?} instead of {in_outcome:?}"),
                );
            }
        }
    }

    fn fabricate(&mut self) {
        let mut pool = crate::fab::Pool::default();
        for f in &self.flights {
            if let Some(m) = &f.m {
                for k in 0..3 {
                    if self.is_signed(f.from, k, m.part(k)) {
                        pool.parts.push((f.from, k, m.part(k).clone()));
                    }
                }
            }
        }
        for (f, _, m) in &self.shadow {
            for k in 0..3 {
                pool.parts.push((*f, k, m.part(k).clone()));
            }
        }
        pool.evidences = self.evidences.clone();
        pool.honest = self.honest.iter().copied().collect();
        pool.byz = (0..self.n).filter(|i| !self.is_honest(*i)).collect();
        pool.byz.push(self.n);
        pool.rounds = self.rounds.values().cloned().collect();
        let (viols, trace) =
            crate::fab::attack::<K, F>(&self.ch.clone(), &self.cfg, &self.sid, &self.other_sid, &pool, &mut self.stats);
        for t in trace {
            tr!(self, "{t}");
        }
        for v in viols {
            self.viol(&v.props, &v.kind, v.detail);
        }
    }

    fn replay_recordings(&mut self) {
        for id in 0..self.n {
            let Some(rec) = self.nodes[id as usize].rec.take() else { continue };
            if self.nodes[id as usize].dead {
                continue;
            }
            let ended = self.nodes[id as usize].done.is_some();
            let viols = crate::replay_party::check::<K, F>(&self.ch.clone(), &self.cfg, &self.sid, &rec, ended, &mut self.stats);
            for v in viols {
                self.viol(&v.props, &v.kind, v.detail);
            }
        }
    }
}

impl<K: Kit, F: SimFormat> Node<K, F> {
    fn makes_at(&self, pos: Pos) -> Option<Body> {
        self.probe.0.lock().unwrap().iter().find_map(|e| match e {
            Ev::Make {
                seg,
                idx,
                part: ECHO,
                body,
                ..
            } if (*seg, *idx) == (pos.seg, pos.idx) => Some(body.clone()),
            _ => None,
        })
    }
}

pub fn report_text<K: Kit, F: SimFormat>(r: &Report<K, F>) -> String {
    let ev: Vec<String> = r
        .provable_errors
        .iter()
        .map(|(k, e)| format!("{k:?}:{}", serde_json::to_string(e).unwrap_or_default()))
        .collect();
    format!(
        "report {} provable {ev:?} unprovable {:?} missing {:?}",
        r.outcome.brief(),
        r.unprovable_errors,
        r.missing_messages
    )
}

/// What `brief()` says about the report must mention everything that is in it.
pub fn check_brief<K: Kit, F: SimFormat>(r: &Report<K, F>) -> Result<(), String> {
    let text = r.brief();
    let has = |what: &str| -> Result<(), String> {
        match text.contains(what) {
            true => Ok(()),
            false => Err(format!("{what:?} is not in {text:?}")),
        }
    };
    has(&r.outcome.brief())?;
    if let SessionOutcome::Result(res) = &r.outcome {
        has(&format!("{res:?}"))?;
    }
    for (id, ev) in &r.provable_errors {
        has(&format!("{id:?}"))?;
        has(ev.description())?;
    }
    for (id, e) in &r.unprovable_errors {
        has(&format!("{id:?}"))?;
        has(&e.to_string())?;
    }
    for (round, ids) in &r.missing_messages {
        has(&round.to_string())?;
        for id in ids {
            has(&format!("{id:?}"))?;
        }
    }
    Ok(())
}

/// The evidence is serialized, read back by a third party and verified.
pub fn check_evidence<K: Kit, F: SimFormat>(
    ev: &Ev6<K, F>,
    shared: &<K::P as manul::protocol::Protocol<Vk>>::SharedData,
) -> Result<serde_json::Value, String> {
    ev.verify(shared).map_err(|e| format!("does not verify: {e:?}"))?;
    let json = serde_json::to_value(ev).map_err(|e| format!("cannot be serialized as JSON: {e}"))?;
    let text = json.to_string();
    let back: Ev6<K, F> = serde_json::from_str(&text).map_err(|e| format!("cannot be read back from JSON: {e}"))?;
    back.verify(shared).map_err(|e| format!("does not verify after JSON: {e:?}"))?;
    let back3: Ev6<K, F> =
        serde_json::from_reader(text.as_bytes()).map_err(|e| format!("cannot be read back from a stream of JSON: {e}"))?;
    if serde_json::to_value(&back3).ok().as_ref() != Some(&json) {
        return Err("is different after reading it back".into());
    }
    let bin = postcard::to_allocvec(ev).map_err(|e| format!("cannot be serialized as binary: {e}"))?;
    let back2: Ev6<K, F> = postcard::from_bytes(&bin).map_err(|e| format!("cannot be read back from binary: {e}"))?;
    back2.verify(shared).map_err(|e| format!("does not verify after binary: {e:?}"))?;
    if serde_json::to_value(&back2).ok().as_ref() != Some(&json) {
        return Err("is different after reading it back from binary".into());
    }
    if back.guilty_party() != ev.guilty_party() || back2.guilty_party() != ev.guilty_party() {
        return Err("names somebody else after reading back".into());
    }
    Ok(json)
}
