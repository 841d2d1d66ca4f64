//! The generated protocol under test. One `Spec` describes all rounds, who talks to whom,
//! which message parts exist, how echo rounds are used, how branches are taken and which
//! provable errors are possible; `R0..R7` are the round types, one per combination of parts.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

use manul::combinators::chain::{ChainedJoin, ChainedMarker, ChainedProtocol, ChainedSharedData, ChainedSplit};
use manul::protocol::*;
use rand_core::CryptoRngCore;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

use crate::chooser::{hash, hash_bytes};
use crate::params::Vk;

pub const DIRECT: usize = 0;
pub const ECHO: usize = 1;
pub const NORMAL: usize = 2;
pub const PART_NAMES: [&str; 3] = ["direct", "echo", "normal"];

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct LinkRule {
    /// The part carrying the link.
    pub part: u8,
    /// The earlier rounds and their parts the link refers to.
    pub prevs: Vec<(u8, u8)>,
}

#[derive(Debug, Clone)]
pub struct RoundSpec {
    pub mask: u8,
    /// Destinations by party.
    pub dests: Vec<BTreeSet<u16>>,
    /// Echo senders and receivers (only meaningful if there is an echo part).
    pub echo_s: BTreeSet<u16>,
    pub echo_r: BTreeSet<u16>,
    pub parents: BTreeSet<u8>,
    pub siblings: BTreeSet<u8>,
    pub children: BTreeSet<u8>,
    pub may_result: bool,
    pub link: Option<LinkRule>,
    pub split: Option<(u8, u8)>,
    /// (part, earlier echo rounds)
    pub sum: Option<(u8, Vec<u8>)>,
}

impl RoundSpec {
    pub fn has(&self, part: usize) -> bool {
        self.mask & (1 << part) != 0
    }
}

#[derive(Debug, Clone)]
pub struct Spec {
    pub n: u16,
    pub tag: u64,
    pub rounds: Vec<RoundSpec>,
    /// By party: the rounds it goes through.
    pub paths: Vec<Vec<u8>>,
    /// The numbers of the rounds after the first one go down.
    pub flip: bool,
    /// The rounds are numbered 1, 2, 3, ..., which decides about their parts too.
    pub linear: bool,
}

impl Spec {
    pub fn num(&self, idx: u8) -> u8 {
        if self.linear {
            return idx + 1;
        }
        let place = if self.flip && idx > 0 { 32 - idx } else { idx };
        place * 8 + self.rounds[idx as usize].mask
    }
    pub fn idx_of(&self, round_id: &RoundId) -> Option<u8> {
        (0..self.rounds.len() as u8).find(|i| *round_id == self.num(*i))
    }
    pub fn sum_kind(&self, part: u8, prevs: &[u8]) -> ErrKind {
        ErrKind::Sum {
            part,
            prev_nums: prevs.iter().map(|prev| self.num(*prev)).collect(),
        }
    }
    pub fn link_kind(&self, idx: u8) -> ErrKind {
        let l = self.rounds[idx as usize].link.as_ref().expect("the round has a link rule");
        ErrKind::Link {
            part: l.part,
            prevs: l.prevs.iter().map(|(prev, p)| (self.num(*prev), *p)).collect(),
        }
    }
    pub fn on_path(&self, party: u16, idx: u8) -> bool {
        self.paths[party as usize].contains(&idx)
    }
    pub fn dests(&self, idx: u8, party: u16) -> BTreeSet<u16> {
        self.rounds[idx as usize].dests[party as usize].clone()
    }
    /// Who `party` expects a message from in the round.
    pub fn expects(&self, idx: u8, party: u16) -> BTreeSet<u16> {
        (0..self.n)
            .filter(|x| *x != party && self.on_path(*x, idx) && self.dests(idx, *x).contains(&party))
            .collect()
    }
    pub fn participation(&self, idx: u8, party: u16) -> EchoPart {
        let r = &self.rounds[idx as usize];
        if !r.has(ECHO) {
            return EchoPart::None;
        }
        let s = r.echo_s.contains(&party) && !r.dests[party as usize].is_empty();
        let rr = r.echo_r.contains(&party);
        match (s, rr) {
            (true, true) => EchoPart::Default,
            (true, false) => EchoPart::Send,
            (false, true) => EchoPart::Receive,
            (false, false) => EchoPart::None,
        }
    }
    /// Whether the party goes through an echo round after the given round.
    pub fn echoes(&self, idx: u8, party: u16) -> bool {
        matches!(self.participation(idx, party), EchoPart::Default | EchoPart::Receive)
    }
    /// Who the party exchanges echo messages with.
    pub fn echo_targets(&self, idx: u8, party: u16) -> BTreeSet<u16> {
        if self.echoes(idx, party) {
            let mut t = self.rounds[idx as usize].echo_r.clone();
            t.remove(&party);
            t
        } else {
            BTreeSet::new()
        }
    }
    /// The senders whose broadcasts are echoed by the party.
    pub fn echo_senders(&self, idx: u8, party: u16) -> BTreeSet<u16> {
        let r = &self.rounds[idx as usize];
        r.echo_s
            .iter()
            .copied()
            .filter(|s| *s != party && r.dests[*s as usize].contains(&party))
            .collect()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum EchoPart {
    Default,
    Send,
    Receive,
    None,
}

#[derive(Debug, Clone)]
pub struct KitCfg {
    pub segs: Vec<Arc<Spec>>,
}

impl KitCfg {
    /// The flattened path of a party: (segment, round index).
    pub fn path(&self, party: u16) -> Vec<(u8, u8)> {
        self.segs
            .iter()
            .enumerate()
            .flat_map(|(s, spec)| spec.paths[party as usize].iter().map(move |i| (s as u8, *i)))
            .collect()
    }
    pub fn n(&self) -> u16 {
        self.segs[0].n
    }
}

/// The content of a message part.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Body {
    pub pad: Vec<u8>,
    pub from: u16,
    pub dest: Option<u16>,
    pub seg: u8,
    pub idx: u8,
    pub part: u8,
    pub code: u8,
    pub tag: u64,
    pub sid: u64,
    pub val: u64,
    pub token: u64,
    pub split: u64,
    pub link: u64,
    pub sum: u64,
}

/// What the protocol did, as seen from inside the protocol code of one party.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
    New { seg: u8, idx: u8 },
    Make { seg: u8, idx: u8, part: usize, dest: Option<u16>, body: Body },
    Recv { seg: u8, idx: u8, from: u16, err: Option<String>, parts: [Option<Body>; 3] },
    Fin { seg: u8, idx: u8, payloads: BTreeMap<u16, [Option<Body>; 3]>, artifacts: BTreeMap<u16, Option<u64>> },
    Result { hist: u64 },
}

#[derive(Clone, Default)]
pub struct Probe(pub Arc<Mutex<Vec<Ev>>>, pub Arc<ProbeCtl>);

/// What was made for whom: (segment, round, part, destination).
pub type Slot = (u8, u8, usize, Option<u16>);

/// Ways to influence a party from inside the protocol code.
#[derive(Default)]
pub struct ProbeCtl {
    /// The party spoils some of its messages; the number decides which and how.
    pub bad: Option<u64>,
    /// The tokens to use instead of random ones.
    pub script: BTreeMap<Slot, u64>,
    /// Operations of the party that do something else.
    pub over: Vec<Over>,
    /// The operations carried out: (segment, round, operation, destination), in order.
    pub calls: Mutex<Vec<Slot>>,
    /// Called on every event.
    #[allow(clippy::type_complexity)]
    pub on_event: Option<Box<dyn Fn(&Ev, usize) + Send + Sync>>,
}

/// An operation replaced with another one. Operations are numbered like the parts, and [`FINALIZE`].
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Over {
    pub seg: u8,
    pub idx: u8,
    pub op: usize,
    pub how: How,
}
pub const FINALIZE: usize = 3;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum How {
    /// Do the original operation and change what comes out (or goes in, when finalizing).
    Edit(u64),
    /// Use some randomness first.
    Draw,
    /// Do not call the original operation at all.
    Instead(u64),
    Fail,
    FailAfter,
}

impl ProbeCtl {
    pub fn how(&self, seg: u8, idx: u8, op: usize) -> Option<How> {
        self.over.iter().find(|o| (o.seg, o.idx, o.op) == (seg, idx, op)).map(|o| o.how)
    }
}

/// Makes a message part in the way given.
pub fn make_how<G: CryptoRngCore, T: Part, A: AsArt>(
    how: Option<How>,
    rng: &mut G,
    dest: Option<u16>,
    orig: impl FnOnce(&mut G) -> Result<(T, A), LocalError>,
) -> Result<(T, A), LocalError> {
    match how {
        None => orig(rng),
        Some(How::Draw) => {
            rng.next_u32();
            orig(rng)
        }
        Some(How::Edit(k)) => {
            let (mut m, a) = orig(rng)?;
            let h = hash(&[k, 14, dest.map_or(0, |d| 1 + d as u64)]);
            if h % 3 > 0 {
                m.edit(h >> 8);
            }
            Ok((m, if k % 4 == 0 { A::new_art(h).unwrap_or(a) } else { a }))
        }
        Some(How::Instead(k)) => {
            let h = hash(&[k, 15, dest.map_or(0, |d| 1 + d as u64), rng.next_u64()]);
            match (T::some(h), A::new_art(h)) {
                (Some(m), Some(a)) => Ok((m, a)),
                _ => orig(rng),
            }
        }
        Some(How::Fail) => Err(LocalError::new("told to fail")),
        Some(How::FailAfter) => orig(rng).and(Err(LocalError::new("told to fail afterwards"))),
    }
}

/// Finalizes a round in the way given.
pub fn finalize_how<G: CryptoRngCore, A: AsArt>(
    how: Option<How>,
    rng: &mut G,
    me: u16,
    mut payloads: BTreeMap<Vk, Pay>,
    mut artifacts: BTreeMap<Vk, A>,
    orig: impl FnOnce(&mut G, BTreeMap<Vk, Pay>, BTreeMap<Vk, A>) -> Result<FinalizeOutcome<Vk, Mix>, LocalError>,
) -> Result<FinalizeOutcome<Vk, Mix>, LocalError> {
    match how {
        None => orig(rng, payloads, artifacts),
        Some(How::Draw) => {
            rng.next_u32();
            orig(rng, payloads, artifacts)
        }
        Some(How::Edit(k)) => {
            let i = (k >> 8) as usize;
            match k % 3 {
                0 if !payloads.is_empty() => {
                    let key = *payloads.keys().nth(i % payloads.len()).expect("present");
                    payloads.remove(&key);
                }
                1 if !artifacts.is_empty() => {
                    let key = *artifacts.keys().nth(i % artifacts.len()).expect("present");
                    artifacts.remove(&key);
                }
                _ => {
                    for p in payloads.values_mut() {
                        for b in p.0.iter_mut().flatten() {
                            b.val ^= k;
                        }
                    }
                }
            }
            orig(rng, payloads, artifacts)
        }
        Some(How::Instead(k)) => Ok(FinalizeOutcome::Result(MixResult {
            me,
            hist: hash(&[k, 16, rng.next_u64()]),
            trail: vec![],
        })),
        Some(How::Fail) => Err(LocalError::new("told to fail")),
        Some(How::FailAfter) => orig(rng, payloads, artifacts).and(Err(LocalError::new("told to fail afterwards"))),
    }
}

/// A message part that can be spoilt.
pub trait Part: AsBody + Sized {
    const REAL: bool;
    fn edit(&mut self, k: u64);
    fn some(h: u64) -> Option<Self>;
}
impl Part for Body {
    const REAL: bool = true;
    fn edit(&mut self, k: u64) {
        match k % 11 {
            0 => self.token ^= 1,
            1 => self.pad.push(7),
            _ => spoil_as(self, k % 11 - 2),
        }
    }
    fn some(h: u64) -> Option<Self> {
        Some(Body {
            pad: vec![],
            from: (h % 3) as u16,
            dest: None,
            seg: 0,
            idx: 0,
            part: (h % 4) as u8,
            code: (h % 5) as u8,
            tag: 0,
            sid: h,
            val: h,
            token: h,
            split: 0,
            link: 0,
            sum: 0,
        })
    }
}
impl Part for NoMessage {
    const REAL: bool = false;
    fn edit(&mut self, _k: u64) {}
    fn some(_h: u64) -> Option<Self> {
        None
    }
}

impl Debug for Probe {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("probe")
    }
}
impl Probe {
    pub fn log(&self, ev: Ev) {
        let mut log = self.0.lock().unwrap();
        let n = log.len();
        log.push(ev.clone());
        drop(log);
        if let Some(f) = &self.1.on_event {
            f(&ev, n);
        }
    }
    pub fn events(&self) -> Vec<Ev> {
        self.0.lock().unwrap().clone()
    }
}

thread_local! {
    /// Anomalies noticed by protocol code (wrong round ID passed in, ...).
    pub static ODDITIES: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn odd(s: String) {
    ODDITIES.with(|o| o.borrow_mut().push(s));
}

#[derive(Debug, Clone)]
pub struct St {
    pub spec: Arc<Spec>,
    pub seg: u8,
    pub idx: u8,
    pub me: u16,
    pub sid: u64,
    pub hist: u64,
    pub hists: BTreeMap<u8, u64>,
    pub seen: BTreeMap<(u8, u16), [Option<u64>; 3]>,
    pub trail: Vec<u8>,
    pub probe: Probe,
}

pub fn val_of(hist: u64, idx: u8, part: usize, dest: Option<u16>) -> u64 {
    hash(&[hist, 1, idx as u64, part as u64, dest.map_or(u64::MAX, |d| d as u64)])
}
/// Most messages are short, some are long.
fn pad_of(val: u64) -> Vec<u8> {
    let h = hash(&[val, 9]);
    if h % 12 == 0 {
        vec![1; 8 + (h >> 8) as usize % 1200]
    } else {
        Vec::new()
    }
}
/// What a misbehaving party does to some of its messages.
fn spoil(b: &mut Body, bad: u64) {
    let h = hash(&[bad, 11, b.seg as u64, b.idx as u64, b.part as u64, b.dest.map_or(u64::MAX, |d| d as u64)]);
    if h % 5 != 0 {
        return;
    }
    spoil_as(b, (h >> 8) % 9);
}
fn spoil_as(b: &mut Body, k: u64) {
    match k {
        0 => b.code = 1,
        1 => b.code = 2,
        2 => b.tag ^= 1,
        3 => b.from ^= 1,
        4 => b.split ^= 1,
        5 => b.sum ^= 1,
        6 => b.link ^= 1,
        7 => b.val ^= 1,
        _ => b.idx ^= 1,
    }
}
pub fn art_of(val: u64) -> u64 {
    hash(&[val, 2])
}
pub fn start_hist(tag: u64, sid: u64, me: u16, prev: u64) -> u64 {
    hash(&[3, tag, sid, me as u64, prev])
}
pub fn next_hist(
    hist: u64,
    idx: u8,
    payloads: &BTreeMap<u16, [Option<u64>; 3]>,
    artifacts: &BTreeMap<u16, Option<u64>>,
) -> u64 {
    let mut v = vec![4, hist, idx as u64, payloads.len() as u64];
    for (from, parts) in payloads {
        v.push(*from as u64);
        v.extend(parts.iter().map(|p| p.unwrap_or(5)));
    }
    for (dest, a) in artifacts {
        v.push(*dest as u64);
        v.push(a.unwrap_or(6));
    }
    hash(&v)
}
/// All ways to draw from a generator.
fn draw(rng: &mut impl CryptoRngCore, how: u64) -> u64 {
    let mut b = [0; 8];
    match how % 4 {
        0 => return rng.next_u64(),
        1 => return (rng.next_u32() as u64) << 32 | rng.next_u32() as u64,
        2 => rng.fill_bytes(&mut b),
        _ => rng.try_fill_bytes(&mut b).expect("the generator works"),
    }
    u64::from_be_bytes(b)
}
/// What is carried over into the next protocol of a chain.
pub fn chain_hist(hist: u64) -> u64 {
    hash(&[7, hist])
}

pub enum RErr {
    Unprov(String),
    Prot(ErrKind),
}

impl St {
    fn rs(&self) -> &RoundSpec {
        &self.spec.rounds[self.idx as usize]
    }

    /// The same, made with the constructors for linear sequences of rounds.
    fn linear_tinfo(&self) -> TransitionInfo {
        let r = self.rs();
        let (idx, num) = (self.idx, self.spec.num(self.idx));
        let nums = |s: &BTreeSet<u8>| -> BTreeSet<u8> { s.iter().map(|i| self.spec.num(*i)).collect() };
        let mut info = if r.children.contains(&(idx + 1)) {
            TransitionInfo::new_linear(num)
        } else {
            TransitionInfo::new_linear_terminating(num)
        };
        if r.children.iter().any(|c| *c != idx + 1) {
            info = info.with_children(nums(&r.children));
        }
        if !r.siblings.is_empty() {
            info = info.with_siblings(nums(&r.siblings));
        }
        let usual = if idx > 0 { [idx - 1].into() } else { BTreeSet::new() };
        if r.parents != usual {
            info.parents = nums(&r.parents).into_iter().map(RoundId::from).collect();
        }
        if r.children.contains(&(idx + 1)) == r.may_result {
            info.may_produce_result = r.may_result;
        }
        info
    }

    fn tinfo(&self) -> TransitionInfo {
        let ids = |s: &BTreeSet<u8>| s.iter().map(|i| RoundId::new(self.spec.num(*i))).collect();
        let r = self.rs();
        if self.spec.linear {
            return self.linear_tinfo();
        }
        TransitionInfo {
            id: RoundId::new(self.spec.num(self.idx)),
            parents: ids(&r.parents),
            siblings: ids(&r.siblings),
            children: ids(&r.children),
            may_produce_result: r.may_result,
        }
    }

    fn cinfo(&self) -> CommunicationInfo<Vk> {
        CommunicationInfo {
            message_destinations: self.spec.dests(self.idx, self.me).into_iter().map(Vk).collect(),
            expecting_messages_from: self.spec.expects(self.idx, self.me).into_iter().map(Vk).collect(),
            echo_round_participation: match self.spec.participation(self.idx, self.me) {
                EchoPart::Default | EchoPart::None => EchoRoundParticipation::Default,
                EchoPart::Send => EchoRoundParticipation::Send,
                EchoPart::Receive => EchoRoundParticipation::Receive {
                    echo_targets: self.spec.echo_targets(self.idx, self.me).into_iter().map(Vk).collect(),
                },
            },
        }
    }

    fn own_echo_val(&self, idx: u8) -> Option<u64> {
        self.hists.get(&idx).map(|h| val_of(*h, idx, ECHO, None))
    }

    /// The xor of the echo broadcasts of an earlier round echoed by `by`.
    fn echo_sum(&self, idx: u8, by: u16) -> u64 {
        let mut x = 0;
        for s in &self.spec.rounds[idx as usize].echo_s {
            if *s == by {
                continue;
            }
            let v = if *s == self.me {
                self.own_echo_val(idx)
            } else {
                self.seen.get(&(idx, *s)).and_then(|p| p[ECHO])
            };
            x ^= v.unwrap_or(0);
        }
        x
    }

    fn echo_sums(&self, prevs: &[u8], by: u16) -> u64 {
        prevs.iter().fold(0, |x, prev| x ^ self.echo_sum(*prev, by))
    }

    pub fn make(&self, rng: &mut impl CryptoRngCore, part: usize, dest: Option<u16>) -> Body {
        let r = self.rs();
        let mut link = 0;
        if let Some(l) = &r.link {
            if l.part as usize == part {
                for (prev, prev_part) in &l.prevs {
                    let d = if *prev_part as usize == DIRECT { dest } else { None };
                    link ^= val_of(self.hists[prev], *prev, *prev_part as usize, d);
                }
            }
        }
        let split = match r.split {
            Some((a, b)) if a as usize == part || b as usize == part => hash(&[self.hist, 8]),
            _ => 0,
        };
        let sum = match &r.sum {
            Some((p, prevs)) if *p as usize == part => self.echo_sums(prevs, self.me),
            _ => 0,
        };
        let token = draw(rng, hash(&[self.spec.tag, self.idx as u64, part as u64, dest.map_or(9, |d| d as u64)]));
        let token = self.probe.1.script.get(&(self.seg, self.idx, part, dest)).copied().unwrap_or(token);
        let mut body = Body {
            from: self.me,
            dest,
            seg: self.seg,
            idx: self.idx,
            part: part as u8,
            code: 0,
            tag: self.spec.tag,
            sid: self.sid,
            val: val_of(self.hist, self.idx, part, dest),
            token,
            split,
            link,
            sum,
            pad: pad_of(val_of(self.hist, self.idx, part, dest)),
        };
        if let Some(bad) = self.probe.1.bad {
            spoil(&mut body, bad);
        }
        self.probe.log(Ev::Make {
            seg: self.seg,
            idx: self.idx,
            part,
            dest,
            body: body.clone(),
        });
        body
    }

    fn make_or_not(
        &self,
        rng: &mut impl CryptoRngCore,
        part: usize,
        dest: Option<u16>,
    ) -> Result<(Body, u64), LocalError> {
        self.called(part, dest);
        make_how(
            self.probe.1.how(self.seg, self.idx, part),
            rng,
            dest,
            |rng| {
                let b = self.make(rng, part, dest);
                let a = art_of(b.val);
                Ok((b, a))
            },
        )
    }

    pub fn called(&self, op: usize, dest: Option<u16>) {
        self.probe.1.calls.lock().unwrap().push((self.seg, self.idx, op, dest));
    }

    fn check(&self, from: u16, parts: &[Option<Body>; 3]) -> Result<(), RErr> {
        let r = self.rs();
        for (p, b) in parts.iter().enumerate() {
            let Some(b) = b else { continue };
            let p8 = p as u8;
            if b.code == 1 {
                return Err(RErr::Prot(ErrKind::Code(p8)));
            }
            if b.code == 2 {
                return Err(RErr::Unprov("bad code".into()));
            }
            if b.tag != self.spec.tag {
                return Err(RErr::Prot(ErrKind::Tag(p8)));
            }
            if b.sid != self.sid {
                return Err(RErr::Prot(ErrKind::Sid(p8)));
            }
            if b.idx != self.idx || b.part != p8 {
                return Err(RErr::Prot(ErrKind::Place(p8)));
            }
            if b.from != from {
                return Err(RErr::Prot(ErrKind::From(p8)));
            }
            if b.seg != self.seg {
                return Err(RErr::Unprov("wrong segment".into()));
            }
            if p == DIRECT && b.dest != Some(self.me) {
                return Err(RErr::Unprov("wrong destination".into()));
            }
        }
        if let Some(l) = &r.link {
            if let Some(b) = &parts[l.part as usize] {
                let want: Option<u64> = l
                    .prevs
                    .iter()
                    .map(|(prev, prev_part)| self.seen.get(&(*prev, from)).and_then(|v| v[*prev_part as usize]))
                    .try_fold(0, |x, v| v.map(|v| x ^ v));
                if want.is_some_and(|want| b.link != want) {
                    return Err(RErr::Prot(self.spec.link_kind(self.idx)));
                }
            }
        }
        if let Some((a, b)) = r.split {
            if let (Some(x), Some(y)) = (&parts[a as usize], &parts[b as usize]) {
                if x.split != y.split {
                    return Err(RErr::Prot(ErrKind::Split { a, b }));
                }
            }
        }
        if let Some((p, prevs)) = &r.sum {
            if let Some(b) = &parts[*p as usize] {
                if b.sum != self.echo_sums(prevs, from) {
                    return Err(RErr::Prot(self.spec.sum_kind(*p, prevs)));
                }
            }
        }
        Ok(())
    }

    fn receive(&self, from: u16, parts: [Option<Body>; 3]) -> Result<Pay, RErr> {
        let res = self.check(from, &parts);
        self.probe.log(Ev::Recv {
            seg: self.seg,
            idx: self.idx,
            from,
            err: match &res {
                Ok(()) => None,
                Err(RErr::Prot(k)) => Some(format!("{k:?}")),
                Err(RErr::Unprov(s)) => Some(s.clone()),
            },
            parts: parts.clone(),
        });
        res.map(|()| Pay(parts))
    }

    fn fin(
        self,
        payloads: BTreeMap<Vk, Pay>,
        artifacts: BTreeMap<Vk, Option<u64>>,
    ) -> Result<FinalizeOutcome<Vk, Mix>, LocalError> {
        let payloads: BTreeMap<u16, _> = payloads.into_iter().map(|(k, v)| (k.0, v.0)).collect();
        let artifacts: BTreeMap<u16, _> = artifacts.into_iter().map(|(k, v)| (k.0, v)).collect();
        self.probe.log(Ev::Fin {
            seg: self.seg,
            idx: self.idx,
            payloads: payloads.clone(),
            artifacts: artifacts.clone(),
        });
        let vals: BTreeMap<u16, [Option<u64>; 3]> = payloads
            .iter()
            .map(|(k, v)| (*k, [0, 1, 2].map(|i: usize| v[i].as_ref().map(|b| b.val))))
            .collect();
        let hist = next_hist(self.hist, self.idx, &vals, &artifacts);
        let path = &self.spec.paths[self.me as usize];
        let pos = path
            .iter()
            .position(|i| *i == self.idx)
            .ok_or_else(|| LocalError::new("simulated protocol: not on the path"))?;
        let mut st = self.clone();
        st.trail.push(st.idx);
        for (k, v) in vals {
            st.seen.insert((st.idx, k), v);
        }
        match path.get(pos + 1) {
            None => {
                self.probe.log(Ev::Result { hist });
                Ok(FinalizeOutcome::Result(MixResult {
                    me: st.me,
                    hist,
                    trail: st.trail,
                }))
            }
            Some(idx) => {
                st.idx = *idx;
                st.hist = hist;
                st.hists.insert(*idx, hist);
                Ok(FinalizeOutcome::AnotherRound(st.boxed()))
            }
        }
    }

    fn boxed(self) -> BoxedRound<Vk, Mix> {
        self.probe.log(Ev::New {
            seg: self.seg,
            idx: self.idx,
        });
        match self.rs().mask {
            0 => BoxedRound::new(R0(self)),
            1 => BoxedRound::new(R1(self)),
            2 => BoxedRound::new(R2(self)),
            3 => BoxedRound::new(R3(self)),
            4 => BoxedRound::new(R4(self)),
            5 => BoxedRound::new(R5(self)),
            6 => BoxedRound::new(R6(self)),
            _ => BoxedRound::new(R7(self)),
        }
    }
}

#[derive(Debug)]
pub struct Pay(pub [Option<Body>; 3]);

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MixResult {
    pub me: u16,
    pub hist: u64,
    pub trail: Vec<u8>,
}

/// The shared data needed to verify evidence.
#[derive(Debug, Clone)]
pub struct MixShared {
    pub spec: Arc<Spec>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Mix;

impl Protocol<Vk> for Mix {
    type Result = MixResult;
    type SharedData = MixShared;
    fn round_info(round_id: &RoundId) -> Option<RoundInfo<Vk, Self>> {
        (0..=255u8).find(|n| *round_id == *n).map(|n| match n & 7 {
            0 => RoundInfo::new::<R0>(),
            1 => RoundInfo::new::<R1>(),
            2 => RoundInfo::new::<R2>(),
            3 => RoundInfo::new::<R3>(),
            4 => RoundInfo::new::<R4>(),
            5 => RoundInfo::new::<R5>(),
            6 => RoundInfo::new::<R6>(),
            _ => RoundInfo::new::<R7>(),
        })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum ErrKind {
    Code(u8),
    Tag(u8),
    Sid(u8),
    Place(u8),
    From(u8),
    Link { part: u8, prevs: Vec<(u8, u8)> },
    Split { a: u8, b: u8 },
    Sum { part: u8, prev_nums: Vec<u8> },
}

pub struct MixError<R> {
    pub kind: ErrKind,
    phantom: PhantomData<fn() -> R>,
}
impl<R> MixError<R> {
    fn new(kind: ErrKind) -> Self {
        Self {
            kind,
            phantom: PhantomData,
        }
    }
}
impl<R> Clone for MixError<R> {
    fn clone(&self) -> Self {
        Self::new(self.kind.clone())
    }
}
impl<R> Debug for MixError<R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.kind)
    }
}
impl<R> Serialize for MixError<R> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.kind.serialize(s)
    }
}
impl<'de, R> Deserialize<'de> for MixError<R> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        ErrKind::deserialize(d).map(Self::new)
    }
}

/// Message part types of the rounds.
pub trait AsBody {
    fn body(self) -> Option<Body>;
}
impl AsBody for Body {
    fn body(self) -> Option<Body> {
        Some(self)
    }
}
impl AsBody for NoMessage {
    fn body(self) -> Option<Body> {
        None
    }
}
pub trait AsArt: Sized {
    fn art(self) -> Option<u64>;
    fn new_art(h: u64) -> Option<Self>;
}
impl AsArt for u64 {
    fn art(self) -> Option<u64> {
        Some(self)
    }
    fn new_art(h: u64) -> Option<Self> {
        Some(h)
    }
}
impl AsArt for NoArtifact {
    fn art(self) -> Option<u64> {
        None
    }
    fn new_art(_h: u64) -> Option<Self> {
        None
    }
}

fn req(part: u8) -> RequiredMessageParts {
    match part as usize {
        DIRECT => RequiredMessageParts::direct_message(),
        ECHO => RequiredMessageParts::echo_broadcast(),
        _ => RequiredMessageParts::normal_broadcast(),
    }
}
fn req_and(r: RequiredMessageParts, part: u8) -> RequiredMessageParts {
    match part as usize {
        DIRECT => r.and_direct_message(),
        ECHO => r.and_echo_broadcast(),
        _ => r.and_normal_broadcast(),
    }
}

fn inv(s: &str) -> EvidenceError {
    EvidenceError::InvalidEvidence(s.into())
}

impl<R> ProtocolError<Vk> for MixError<R>
where
    R: Round<Vk, Protocol = Mix, ProtocolError = MixError<R>> + HasMask,
    R::DirectMessage: AsBody,
    R::EchoBroadcast: AsBody,
    R::NormalBroadcast: AsBody,
{
    type Round = R;

    fn description(&self) -> String {
        format!("{:?}", self.kind)
    }

    fn required_messages(&self, round_id: &RoundId) -> RequiredMessages {
        if !(0..=255u8).any(|n| *round_id == n && n & 7 == R::MASK) {
            odd(format!("required_messages() called with {round_id}"));
        }
        match &self.kind {
            ErrKind::Code(p) | ErrKind::Tag(p) | ErrKind::Sid(p) | ErrKind::Place(p) | ErrKind::From(p) => {
                RequiredMessages::new(req(*p), None, None)
            }
            ErrKind::Link { part, prevs } => {
                let mut rounds: BTreeMap<RoundId, RequiredMessageParts> = BTreeMap::new();
                for (num, p) in prevs {
                    let id = RoundId::new(*num);
                    let r = match rounds.remove(&id) {
                        Some(r) => req_and(r, *p),
                        None => req(*p),
                    };
                    rounds.insert(id, r);
                }
                RequiredMessages::new(req(*part), Some(rounds), None)
            }
            ErrKind::Split { a, b } => RequiredMessages::new(req_and(req(*a), *b), None, None),
            ErrKind::Sum { part, prev_nums } => {
                let rounds: BTreeSet<RoundId> = prev_nums.iter().map(|n| RoundId::new(*n)).collect();
                RequiredMessages::new(req(*part), None, Some(rounds))
            }
        }
    }

    fn verify_evidence(
        &self,
        round_id: &RoundId,
        from: &Vk,
        shared_randomness: &[u8],
        shared_data: &MixShared,
        messages: EvidenceMessages<'_, Vk, R>,
    ) -> Result<(), EvidenceError> {
        let spec = &shared_data.spec;
        let idx = spec.idx_of(round_id).ok_or_else(|| inv("no such round"))?;
        let rs = &spec.rounds[idx as usize];
        let get = |p: u8| -> Result<Body, EvidenceError> {
            match p as usize {
                DIRECT => messages.direct_message()?.body(),
                ECHO => messages.echo_broadcast()?.body(),
                NORMAL => messages.normal_broadcast()?.body(),
                _ => None,
            }
            .ok_or_else(|| inv("no such part"))
        };
        let proven = match &self.kind {
            ErrKind::Code(p) => get(*p)?.code == 1,
            ErrKind::Tag(p) => get(*p)?.tag != spec.tag,
            ErrKind::Sid(p) => get(*p)?.sid != hash_bytes(shared_randomness),
            ErrKind::Place(p) => {
                let b = get(*p)?;
                b.idx != idx || b.part != *p
            }
            ErrKind::From(p) => get(*p)?.from != from.0,
            ErrKind::Link { part, prevs } => {
                if rs.link.is_none() || spec.link_kind(idx) != self.kind {
                    return Err(inv("not the rule"));
                }
                let b = get(*part)?;
                let mut want = 0;
                for (num, p) in prevs {
                    let prev = match *p as usize {
                        DIRECT => messages.previous_direct_message::<R7>(*num)?,
                        ECHO => messages.previous_echo_broadcast::<R7>(*num)?,
                        _ => messages.previous_normal_broadcast::<R7>(*num)?,
                    };
                    // Messages to different parties have nothing to do with each other.
                    if *p as usize == DIRECT && b.dest != prev.dest {
                        return Err(inv("sent to different parties"));
                    }
                    want ^= prev.val;
                }
                b.link != want
            }
            ErrKind::Split { a, b } => {
                if rs.split != Some((*a, *b)) {
                    return Err(inv("no such rule"));
                }
                get(*a)?.split != get(*b)?.split
            }
            ErrKind::Sum { part, prev_nums } => {
                match &rs.sum {
                    Some((p, prevs)) if spec.sum_kind(*p, prevs) == self.kind => {}
                    _ => return Err(inv("no such rule")),
                }
                let mut sum = 0;
                for num in prev_nums {
                    let echos = messages.combined_echos::<R7>(*num)?;
                    sum = echos.values().fold(sum, |x, b| x ^ b.val);
                }
                get(*part)?.sum != sum
            }
        };
        if proven {
            Ok(())
        } else {
            Err(inv("nothing wrong"))
        }
    }
}

pub trait HasMask {
    const MASK: u8;
}
pub trait HasSt {
    fn st(&self) -> &St;
}

fn map_err<R: Round<Vk, ProtocolError = MixError<R>>>(e: RErr) -> ReceiveError<Vk, R> {
    match e {
        RErr::Unprov(s) => ReceiveError::Unprovable(RemoteError::new(s)),
        RErr::Prot(k) => ReceiveError::Protocol(MixError::new(k)),
    }
}
fn map_err_np<R: Round<Vk>>(e: RErr) -> ReceiveError<Vk, R> {
    match e {
        RErr::Unprov(s) => ReceiveError::Unprovable(RemoteError::new(s)),
        RErr::Prot(k) => ReceiveError::Unprovable(RemoteError::new(format!("{k:?}"))),
    }
}

macro_rules! make_d {
    () => {
        fn make_direct_message(
            &self,
            rng: &mut impl CryptoRngCore,
            destination: &Vk,
        ) -> Result<(Body, u64), LocalError> {
            self.0.make_or_not(rng, DIRECT, Some(destination.0))
        }
    };
}
macro_rules! make_e {
    () => {
        fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Body, LocalError> {
            self.0.make_or_not(rng, ECHO, None).map(|x| x.0)
        }
    };
}
macro_rules! make_n {
    () => {
        fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Body, LocalError> {
            self.0.make_or_not(rng, NORMAL, None).map(|x| x.0)
        }
    };
}

macro_rules! mix_round {
    ($name:ident, $mask:expr, $d:ty, $e:ty, $n:ty, $a:ty, $err:ty, $map:ident, { $($methods:tt)* }) => {
        #[derive(Debug, Clone)]
        pub struct $name(pub St);
        impl HasMask for $name {
            const MASK: u8 = $mask;
        }
        impl Round<Vk> for $name {
            type Protocol = Mix;
            type ProtocolError = $err;
            type DirectMessage = $d;
            type EchoBroadcast = $e;
            type NormalBroadcast = $n;
            type Payload = Pay;
            type Artifact = $a;
            fn transition_info(&self) -> TransitionInfo {
                self.0.tinfo()
            }
            fn communication_info(&self) -> CommunicationInfo<Vk> {
                self.0.cinfo()
            }
            $($methods)*
            fn receive_message(
                &self,
                from: &Vk,
                m: ProtocolMessage<Vk, Self>,
            ) -> Result<Pay, ReceiveError<Vk, Self>> {
                self.0
                    .receive(from.0, [m.direct_message.body(), m.echo_broadcast.body(), m.normal_broadcast.body()])
                    .map_err($map::<Self>)
            }
            fn finalize(
                self,
                rng: &mut impl CryptoRngCore,
                payloads: BTreeMap<Vk, Pay>,
                artifacts: BTreeMap<Vk, $a>,
            ) -> Result<FinalizeOutcome<Vk, Mix>, LocalError> {
                self.0.called(FINALIZE, None);
                let how = self.0.probe.1.how(self.0.seg, self.0.idx, FINALIZE);
                let me = self.0.me;
                finalize_how(how, rng, me, payloads, artifacts, |_rng, payloads, artifacts| {
                    self.0.fin(payloads, artifacts.into_iter().map(|(k, a)| (k, a.art())).collect())
                })
            }
        }
        impl HasSt for $name {
            fn st(&self) -> &St {
                &self.0
            }
        }
    };
}

mix_round!(R0, 0, NoMessage, NoMessage, NoMessage, NoArtifact, NoProtocolErrors<Self>, map_err_np, {});
mix_round!(R1, 1, Body, NoMessage, NoMessage, u64, MixError<Self>, map_err, { make_d!(); });
mix_round!(R2, 2, NoMessage, Body, NoMessage, NoArtifact, MixError<Self>, map_err, { make_e!(); });
mix_round!(R3, 3, Body, Body, NoMessage, u64, MixError<Self>, map_err, { make_d!(); make_e!(); });
mix_round!(R4, 4, NoMessage, NoMessage, Body, NoArtifact, NoProtocolErrors<Self>, map_err_np, { make_n!(); });
mix_round!(R5, 5, Body, NoMessage, Body, u64, MixError<Self>, map_err, { make_d!(); make_n!(); });
mix_round!(R6, 6, NoMessage, Body, Body, NoArtifact, MixError<Self>, map_err, { make_e!(); make_n!(); });
mix_round!(R7, 7, Body, Body, Body, u64, MixError<Self>, map_err, { make_d!(); make_e!(); make_n!(); });

/// The entry point; `M` is the mask of the first round (needed statically in chains).
#[derive(Debug, Clone)]
pub struct MixEntry<const M: u8> {
    pub spec: Arc<Spec>,
    pub seg: u8,
    pub prev: u64,
    pub probe: Probe,
}

impl<const M: u8> EntryPoint<Vk> for MixEntry<M> {
    type Protocol = Mix;
    fn entry_round_id() -> RoundId {
        RoundId::new(M)
    }
    fn make_round(
        self,
        _rng: &mut impl CryptoRngCore,
        shared_randomness: &[u8],
        id: &Vk,
    ) -> Result<BoxedRound<Vk, Mix>, LocalError> {
        let sid = hash_bytes(shared_randomness);
        let hist = start_hist(self.spec.tag, sid, id.0, self.prev);
        Ok(St {
            spec: self.spec,
            seg: self.seg,
            idx: 0,
            me: id.0,
            sid,
            hist,
            hists: [(0, hist)].into(),
            seen: BTreeMap::new(),
            trail: Vec::new(),
            probe: self.probe,
        }
        .boxed())
    }
}

// Chains

macro_rules! chained {
    ($p:ident, $p1:ty, $p2:ty) => {
        #[derive(Debug, Clone, Serialize, Deserialize)]
        pub struct $p;
        impl ChainedMarker for $p {}
        impl ChainedProtocol<Vk> for $p {
            type Protocol1 = $p1;
            type Protocol2 = $p2;
        }
    };
}
chained!(Ch2P, Mix, Mix);
chained!(Ch3LP, Ch2P, Mix);
chained!(Ch3RP, Mix, Ch2P);

#[derive(Debug, Clone)]
pub struct Ctx {
    pub cfg: Arc<KitCfg>,
    pub first_seg: u8,
    pub prev: u64,
    pub probe: Probe,
}
impl Ctx {
    pub fn mix<const M: u8>(&self, off: u8, prev: u64) -> MixEntry<M> {
        let seg = self.first_seg + off;
        MixEntry {
            spec: self.cfg.segs[seg as usize].clone(),
            seg,
            prev,
            probe: self.probe.clone(),
        }
    }
}

#[derive(Debug, Clone)]
pub struct Ch2Entry<const A: u8, const B: u8>(pub Ctx);
impl<const A: u8, const B: u8> ChainedMarker for Ch2Entry<A, B> {}
impl<const A: u8, const B: u8> ChainedSplit<Vk> for Ch2Entry<A, B> {
    type Protocol = Ch2P;
    type EntryPoint = MixEntry<A>;
    fn make_entry_point1(self) -> (MixEntry<A>, impl ChainedJoin<Vk, Protocol = Ch2P>) {
        (self.0.mix(0, self.0.prev), Ch2Join::<B>(self.0))
    }
}
#[derive(Debug)]
pub struct Ch2Join<const B: u8>(Ctx);
impl<const B: u8> ChainedJoin<Vk> for Ch2Join<B> {
    type Protocol = Ch2P;
    type EntryPoint = MixEntry<B>;
    fn make_entry_point2(self, result: MixResult) -> MixEntry<B> {
        self.0.mix(1, chain_hist(result.hist))
    }
}

#[derive(Debug, Clone)]
pub struct Ch3LEntry<const A: u8, const B: u8, const C: u8>(pub Ctx);
impl<const A: u8, const B: u8, const C: u8> ChainedMarker for Ch3LEntry<A, B, C> {}
impl<const A: u8, const B: u8, const C: u8> ChainedSplit<Vk> for Ch3LEntry<A, B, C> {
    type Protocol = Ch3LP;
    type EntryPoint = Ch2Entry<A, B>;
    fn make_entry_point1(self) -> (Ch2Entry<A, B>, impl ChainedJoin<Vk, Protocol = Ch3LP>) {
        (Ch2Entry(self.0.clone()), Ch3LJoin::<C>(self.0))
    }
}
#[derive(Debug)]
pub struct Ch3LJoin<const C: u8>(Ctx);
impl<const C: u8> ChainedJoin<Vk> for Ch3LJoin<C> {
    type Protocol = Ch3LP;
    type EntryPoint = MixEntry<C>;
    fn make_entry_point2(self, result: MixResult) -> MixEntry<C> {
        self.0.mix(2, chain_hist(result.hist))
    }
}

#[derive(Debug, Clone)]
pub struct Ch3REntry<const A: u8, const B: u8, const C: u8>(pub Ctx);
impl<const A: u8, const B: u8, const C: u8> ChainedMarker for Ch3REntry<A, B, C> {}
impl<const A: u8, const B: u8, const C: u8> ChainedSplit<Vk> for Ch3REntry<A, B, C> {
    type Protocol = Ch3RP;
    type EntryPoint = MixEntry<A>;
    fn make_entry_point1(self) -> (MixEntry<A>, impl ChainedJoin<Vk, Protocol = Ch3RP>) {
        (self.0.mix(0, self.0.prev), Ch3RJoin::<B, C>(self.0))
    }
}
#[derive(Debug)]
pub struct Ch3RJoin<const B: u8, const C: u8>(Ctx);
impl<const B: u8, const C: u8> ChainedJoin<Vk> for Ch3RJoin<B, C> {
    type Protocol = Ch3RP;
    type EntryPoint = Ch2Entry<B, C>;
    fn make_entry_point2(self, result: MixResult) -> Ch2Entry<B, C> {
        let mut ctx = self.0;
        ctx.prev = chain_hist(result.hist);
        ctx.first_seg += 1;
        Ch2Entry(ctx)
    }
}

/// One more part after a chain, nesting it one level deeper.
macro_rules! deeper {
    ($p:ident, $entry:ident, $join:ident, $p1:ty, $entry1:ident $(<$($g:literal),*>)?, $off:literal, $mask:literal) => {
        chained!($p, $p1, Mix);
        #[derive(Debug, Clone)]
        pub struct $entry(pub Ctx);
        impl ChainedMarker for $entry {}
        impl ChainedSplit<Vk> for $entry {
            type Protocol = $p;
            type EntryPoint = $entry1 $(<$($g),*>)?;
            fn make_entry_point1(self) -> (Self::EntryPoint, impl ChainedJoin<Vk, Protocol = $p>) {
                ($entry1(self.0.clone()), $join(self.0))
            }
        }
        #[derive(Debug)]
        pub struct $join(Ctx);
        impl ChainedJoin<Vk> for $join {
            type Protocol = $p;
            type EntryPoint = MixEntry<$mask>;
            fn make_entry_point2(self, result: MixResult) -> MixEntry<$mask> {
                self.0.mix($off, chain_hist(result.hist))
            }
        }
    };
}
deeper!(Deep4P, Deep4Entry, Deep4Join, Ch3LP, Ch3LEntry<0, 4, 7>, 3, 1);
deeper!(Deep5P, Deep5Entry, Deep5Join, Deep4P, Deep4Entry, 4, 2);
deeper!(Deep6P, Deep6Entry, Deep6Join, Deep5P, Deep5Entry, 5, 5);

/// A protocol shape the worlds are generic over.
pub trait Kit: 'static {
    type P: Protocol<Vk, Result = MixResult> + Serialize + for<'de> Deserialize<'de>;
    type EP: EntryPoint<Vk, Protocol = Self::P>;
    const NAME: &'static str;
    const SEGS: usize;
    /// The masks of the first rounds of the segments, where they are fixed by the types.
    const ENTRY_MASKS: [Option<u8>; 6];
    fn entry(cfg: &Arc<KitCfg>, probe: &Probe) -> Self::EP;
    fn shared(cfg: &Arc<KitCfg>) -> <Self::P as Protocol<Vk>>::SharedData;
}

pub fn ctx(cfg: &Arc<KitCfg>, probe: &Probe) -> Ctx {
    Ctx {
        cfg: cfg.clone(),
        first_seg: 0,
        prev: 0,
        probe: probe.clone(),
    }
}
fn sh(cfg: &Arc<KitCfg>, i: usize) -> MixShared {
    MixShared {
        spec: cfg.segs[i].clone(),
    }
}

pub struct KMix;
impl Kit for KMix {
    type P = Mix;
    type EP = MixEntry<0>;
    const NAME: &'static str = "mix";
    const SEGS: usize = 1;
    const ENTRY_MASKS: [Option<u8>; 6] = [None; 6];
    fn entry(cfg: &Arc<KitCfg>, probe: &Probe) -> Self::EP {
        ctx(cfg, probe).mix(0, 0)
    }
    fn shared(cfg: &Arc<KitCfg>) -> MixShared {
        sh(cfg, 0)
    }
}

pub struct KCh2<const B: u8>;
impl<const B: u8> Kit for KCh2<B> {
    type P = Ch2P;
    type EP = Ch2Entry<0, B>;
    const NAME: &'static str = "chain2";
    const SEGS: usize = 2;
    const ENTRY_MASKS: [Option<u8>; 6] = [None, Some(B), None, None, None, None];
    fn entry(cfg: &Arc<KitCfg>, probe: &Probe) -> Self::EP {
        Ch2Entry(ctx(cfg, probe))
    }
    fn shared(cfg: &Arc<KitCfg>) -> ChainedSharedData<Vk, Ch2P> {
        ChainedSharedData {
            protocol1: sh(cfg, 0),
            protocol2: sh(cfg, 1),
        }
    }
}

pub struct KCh3L<const B: u8, const C: u8>;
impl<const B: u8, const C: u8> Kit for KCh3L<B, C> {
    type P = Ch3LP;
    type EP = Ch3LEntry<0, B, C>;
    const NAME: &'static str = "chain(2)1";
    const SEGS: usize = 3;
    const ENTRY_MASKS: [Option<u8>; 6] = [None, Some(B), Some(C), None, None, None];
    fn entry(cfg: &Arc<KitCfg>, probe: &Probe) -> Self::EP {
        Ch3LEntry(ctx(cfg, probe))
    }
    fn shared(cfg: &Arc<KitCfg>) -> ChainedSharedData<Vk, Ch3LP> {
        ChainedSharedData {
            protocol1: ChainedSharedData {
                protocol1: sh(cfg, 0),
                protocol2: sh(cfg, 1),
            },
            protocol2: sh(cfg, 2),
        }
    }
}

pub struct KCh3R<const B: u8, const C: u8>;
impl<const B: u8, const C: u8> Kit for KCh3R<B, C> {
    type P = Ch3RP;
    type EP = Ch3REntry<0, B, C>;
    const NAME: &'static str = "chain1(2)";
    const SEGS: usize = 3;
    const ENTRY_MASKS: [Option<u8>; 6] = [None, Some(B), Some(C), None, None, None];
    fn entry(cfg: &Arc<KitCfg>, probe: &Probe) -> Self::EP {
        Ch3REntry(ctx(cfg, probe))
    }
    fn shared(cfg: &Arc<KitCfg>) -> ChainedSharedData<Vk, Ch3RP> {
        ChainedSharedData {
            protocol1: sh(cfg, 0),
            protocol2: ChainedSharedData {
                protocol1: sh(cfg, 1),
                protocol2: sh(cfg, 2),
            },
        }
    }
}

/// Six protocols, five levels deep.
pub struct KDeep;
impl Kit for KDeep {
    type P = Deep6P;
    type EP = Deep6Entry;
    const NAME: &'static str = "chain((((2)1)1)1)1";
    const SEGS: usize = 6;
    const ENTRY_MASKS: [Option<u8>; 6] = [None, Some(4), Some(7), Some(1), Some(2), Some(5)];
    fn entry(cfg: &Arc<KitCfg>, probe: &Probe) -> Self::EP {
        Deep6Entry(ctx(cfg, probe))
    }
    fn shared(cfg: &Arc<KitCfg>) -> ChainedSharedData<Vk, Deep6P> {
        ChainedSharedData {
            protocol1: ChainedSharedData {
                protocol1: ChainedSharedData {
                    protocol1: KCh3L::<4, 7>::shared(cfg),
                    protocol2: sh(cfg, 3),
                },
                protocol2: sh(cfg, 4),
            },
            protocol2: sh(cfg, 5),
        }
    }
}

/// The values predicted by the reference model for a fault-free execution.
pub struct Model {
    /// (party, segment, round) -> history before the round
    pub hists: BTreeMap<(u16, u8, u8), u64>,
    pub results: BTreeMap<u16, u64>,
}

/// The reference model: the protocol computed directly from the spec, round by round.
pub fn model(cfg: &KitCfg, sid: u64) -> Model {
    let mut hists = BTreeMap::new();
    let n = cfg.n();
    let mut prev: BTreeMap<u16, u64> = (0..n).map(|p| (p, 0)).collect();
    for (seg, spec) in cfg.segs.iter().enumerate() {
        let seg = seg as u8;
        let mut cur: BTreeMap<u16, u64> = BTreeMap::new();
        for p in 0..n {
            let h = start_hist(spec.tag, sid, p, prev[&p]);
            hists.insert((p, seg, spec.paths[p as usize][0]), h);
            cur.insert(p, h);
        }
        // Rounds are numbered in a topological order.
        for idx in 0..spec.rounds.len() as u8 {
            let r = &spec.rounds[idx as usize];
            let mut next = BTreeMap::new();
            for p in 0..n {
                if !spec.on_path(p, idx) {
                    continue;
                }
                let h = hists[&(p, seg, idx)];
                let payloads = spec
                    .expects(idx, p)
                    .into_iter()
                    .map(|s| {
                        let hs = hists[&(s, seg, idx)];
                        let v = [DIRECT, ECHO, NORMAL].map(|part| {
                            r.has(part)
                                .then(|| val_of(hs, idx, part, (part == DIRECT).then_some(p)))
                        });
                        (s, v)
                    })
                    .collect();
                let artifacts = r.dests[p as usize]
                    .iter()
                    .map(|d| (*d, r.has(DIRECT).then(|| art_of(val_of(h, idx, DIRECT, Some(*d))))))
                    .collect();
                next.insert(p, next_hist(h, idx, &payloads, &artifacts));
            }
            for (p, h) in next {
                let path = &spec.paths[p as usize];
                let pos = path.iter().position(|i| *i == idx).unwrap();
                match path.get(pos + 1) {
                    Some(i) => {
                        hists.insert((p, seg, *i), h);
                    }
                    None => {
                        cur.insert(p, h);
                    }
                }
            }
        }
        for (p, h) in cur {
            prev.insert(p, chain_hist(h));
            if seg as usize + 1 == cfg.segs.len() {
                prev.insert(p, h);
            }
        }
    }
    Model { hists, results: prev }
}
