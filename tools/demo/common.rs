//! A small protocol and hand-driven sessions, for the demonstrations.
#![allow(dead_code, unused_imports)]

pub use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
pub use std::sync::Arc;

pub use manul::dev::HumanReadableFormat;
pub use manul::protocol::*;
pub use manul::session::{
    CanFinalize, Evidence, Message, PreprocessOutcome, RoundAccumulator, RoundOutcome, Session, SessionId,
    SessionOutcome, SessionParameters, SessionReport,
};
pub use rand_chacha::ChaCha20Rng;
pub use rand_core::{CryptoRngCore, RngCore, SeedableRng};
pub use serde::{Deserialize, Serialize};
pub use serde_json::Value;
use sha3::{Digest, Sha3_256};

// ---- keys ----

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Vk(pub u8);
impl Debug for Vk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.0)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Sk(pub u8);
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sig(pub [u8; 32]);

fn mac(id: u8, digest: &[u8]) -> [u8; 32] {
    Sha3_256::new().chain_update(b"demo key").chain_update([id]).chain_update(digest).finalize().into()
}
impl<D: Digest> signature::RandomizedDigestSigner<D, Sig> for Sk {
    fn try_sign_digest_with_rng(&self, _rng: &mut impl CryptoRngCore, digest: D) -> Result<Sig, signature::Error> {
        Ok(Sig(mac(self.0, &digest.finalize())))
    }
}
impl<D: Digest> signature::DigestVerifier<D, Sig> for Vk {
    fn verify_digest(&self, digest: D, sig: &Sig) -> Result<(), signature::Error> {
        if sig.0 == mac(self.0, &digest.finalize()) { Ok(()) } else { Err(signature::Error::new()) }
    }
}
impl signature::Keypair for Sk {
    type VerifyingKey = Vk;
    fn verifying_key(&self) -> Vk {
        Vk(self.0)
    }
}
#[derive(Debug, Serialize, Deserialize)]
pub struct SP;
impl SessionParameters for SP {
    type Signer = Sk;
    type Digest = Sha3_256;
    type Verifier = Vk;
    type Signature = Sig;
    type WireFormat = HumanReadableFormat;
}

// ---- the protocol ----
// Odd rounds send all three parts of a message, even rounds do not send echo broadcasts.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Val {
    pub val: u64,
    pub bad: u8,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Part {
    Direct(Vk),
    Echo,
    Normal,
}

/// Finds the contents of a message part, given the party, the round and the part.
pub type Content = Arc<dyn Fn(u8, Part) -> Val + Send + Sync>;
pub type Comm = Arc<dyn Fn(u8) -> CommunicationInfo<Vk> + Send + Sync>;
/// The place of the given round in the protocol, and the next round (if any).
pub type Plan = Arc<dyn Fn(u8) -> (TransitionInfo, Option<u8>) + Send + Sync>;

pub const OK: u8 = 0;
/// The receiver cannot prove that it is bad.
pub const UNPROVABLE: u8 = 1;
/// The part is bad by itself.
pub const BAD: u8 = 2;
/// The normal broadcast is the same as the sender's normal broadcast of the previous round.
pub const REPEATED: u8 = 3;
/// (even rounds) The normal broadcast is the same as the echo broadcast of another party.
pub const COPIED: u8 = 4;
/// The normal broadcast differs from the previous round's direct message and normal broadcast added up by 1000
pub const NOT_SUM: u8 = 5;
/// (round 4) The normal broadcast is the same as an echo broadcast of round 1 or round 3
pub const COPIED_ANY: u8 = 6;

#[derive(Clone)]
pub struct Inputs {
    pub me: Vk,
    pub plan: Plan,
    pub content: Content,
    pub comm: Comm,
}
impl Debug for Inputs {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Inputs({:?})", self.me)
    }
}

pub fn honest(me: u8) -> Content {
    Arc::new(move |r, p| Val {
        val: match p {
            Part::Direct(d) => 10_000 * r as u64 + 100 * me as u64 + d.0 as u64,
            Part::Echo => 20_000 * r as u64 + 100 * me as u64,
            Part::Normal => 30_000 * r as u64 + 100 * me as u64,
        },
        bad: OK,
    })
}
pub fn regular(n: u8, me: u8) -> Comm {
    let others: BTreeSet<Vk> = (0..n).filter(|i| *i != me).map(Vk).collect();
    Arc::new(move |_| CommunicationInfo::regular(&others))
}
pub fn inputs(n: u8, me: u8, rounds: u8) -> Inputs {
    Inputs { me: Vk(me), plan: linear(rounds), content: honest(me), comm: regular(n, me) }
}
pub fn linear(rounds: u8) -> Plan {
    Arc::new(move |r| {
        if r == rounds {
            (TransitionInfo::new_linear_terminating(r), None)
        } else {
            (TransitionInfo::new_linear(r), Some(r + 1))
        }
    })
}
impl Inputs {
    pub fn saying(mut self, f: impl Fn(u8, Part) -> Option<Val> + Send + Sync + 'static) -> Self {
        let base = self.content.clone();
        self.content = Arc::new(move |r, p| f(r, p).unwrap_or_else(|| base(r, p)));
        self
    }
}

#[derive(Debug, Serialize, Deserialize)]
pub struct Demo;
pub type Outcome = BTreeMap<u8, BTreeMap<Vk, Vec<u64>>>;
impl Protocol<Vk> for Demo {
    type Result = Outcome;
    type SharedData = ();
    fn round_info(id: &RoundId) -> Option<RoundInfo<Vk, Self>> {
        for r in 1..=9u8 {
            if id == r {
                return Some(if r % 2 == 1 { RoundInfo::new::<Full>() } else { RoundInfo::new::<Plain>() });
            }
        }
        None
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum DemoError {
    BadDirect,
    BadEcho,
    BadNormal,
    Repeated(u8),
    Copied(u8),
    NotSum(u8),
    CopiedAny,
}

macro_rules! round {
    ($t:ident, $echo:ty, { $($mk:item)* }, $get:expr) => {
        #[derive(Debug)]
        pub struct $t {
            pub inputs: Inputs,
            pub round: u8,
            pub log: Outcome,
        }
        impl Round<Vk> for $t {
            type Protocol = Demo;
            type ProtocolError = Fault<$t>;
            type DirectMessage = Val;
            type NormalBroadcast = Val;
            type EchoBroadcast = $echo;
            type Payload = Vec<u64>;
            type Artifact = u64;
            fn transition_info(&self) -> TransitionInfo {
                (self.inputs.plan)(self.round).0
            }
            fn communication_info(&self) -> CommunicationInfo<Vk> {
                (self.inputs.comm)(self.round)
            }
            fn make_direct_message(&self, _rng: &mut impl CryptoRngCore, d: &Vk) -> Result<(Val, u64), LocalError> {
                let m = (self.inputs.content)(self.round, Part::Direct(*d));
                Ok((m, m.val))
            }
            fn make_normal_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<Val, LocalError> {
                Ok((self.inputs.content)(self.round, Part::Normal))
            }
            $($mk)*
            fn receive_message(
                &self,
                _from: &Vk,
                m: ProtocolMessage<Vk, Self>,
            ) -> Result<Vec<u64>, ReceiveError<Vk, Self>> {
                let (dm, nb) = (m.direct_message, m.normal_broadcast);
                let eb: Option<Val> = $get(m.echo_broadcast);
                let prov = |e| Err(ReceiveError::Protocol(Fault::new(e)));
                if [Some(dm), Some(nb), eb].iter().flatten().any(|v| v.bad == UNPROVABLE) {
                    return Err(ReceiveError::Unprovable(RemoteError::new("bad")));
                }
                if dm.bad == BAD {
                    return prov(DemoError::BadDirect);
                }
                if eb.map_or(false, |v| v.bad == BAD) {
                    return prov(DemoError::BadEcho);
                }
                match nb.bad {
                    BAD => prov(DemoError::BadNormal),
                    REPEATED => prov(DemoError::Repeated(self.round)),
                    COPIED => prov(DemoError::Copied(self.round)),
                    NOT_SUM => prov(DemoError::NotSum(self.round)),
                    COPIED_ANY => prov(DemoError::CopiedAny),
                    _ => Ok([Some(dm), eb, Some(nb)].iter().flatten().map(|v| v.val).collect()),
                }
            }
            fn finalize(
                mut self,
                _rng: &mut impl CryptoRngCore,
                payloads: BTreeMap<Vk, Vec<u64>>,
                artifacts: BTreeMap<Vk, u64>,
            ) -> Result<FinalizeOutcome<Vk, Demo>, LocalError> {
                self.log.insert(self.round, payloads);
                self.log.entry(self.round).or_default().insert(self.inputs.me, artifacts.into_values().collect());
                match (self.inputs.plan)(self.round).1 {
                    None => Ok(FinalizeOutcome::Result(self.log)),
                    Some(next) => Ok(FinalizeOutcome::AnotherRound(make(self.inputs, next, self.log))),
                }
            }
        }
        impl ProtocolError<Vk> for Fault<$t> {
            type Round = $t;
            fn required_messages(&self, _round_id: &RoundId) -> RequiredMessages {
                required(&self.0)
            }
            fn description(&self) -> String {
                format!("{:?}", self.0)
            }
            fn verify_evidence(
                &self,
                round_id: &RoundId,
                from: &Vk,
                _shared_randomness: &[u8],
                _shared_data: &(),
                messages: EvidenceMessages<'_, Vk, $t>,
            ) -> Result<(), EvidenceError> {
                let guilty = match &self.0 {
                    DemoError::BadDirect => messages.direct_message()?.bad == BAD,
                    DemoError::BadEcho => $get(messages.echo_broadcast()?).map_or(false, |v: Val| v.bad == BAD),
                    DemoError::BadNormal => messages.normal_broadcast()?.bad == BAD,
                    DemoError::Repeated(r) => {
                        right_round(round_id, *r)?;
                        messages.normal_broadcast()? == messages.previous_normal_broadcast::<Full>(r - 1)?
                            || messages.normal_broadcast()?.val == messages.previous_normal_broadcast::<Full>(r - 1)?.val
                    }
                    DemoError::Copied(r) => {
                        right_round(round_id, *r)?;
                        let v = messages.normal_broadcast()?.val;
                        messages.combined_echos::<Full>(r - 1)?.iter().any(|(id, e)| id != from && e.val == v)
                    }
                    DemoError::CopiedAny => {
                        right_round(round_id, 4)?;
                        let v = messages.normal_broadcast()?.val;
                        let first = messages.combined_echos::<Full>(1)?;
                        let third = messages.combined_echos::<Full>(3)?;
                        first.values().chain(third.values()).any(|e| e.val == v)
                    }
                    DemoError::NotSum(r) => {
                        right_round(round_id, *r)?;
                        let nb = messages.previous_normal_broadcast::<Full>(r - 1)?.val;
                        let dm = messages.previous_direct_message::<Full>(r - 1)?.val;
                        messages.normal_broadcast()?.val != nb + dm + 1000
                    }
                };
                if guilty { Ok(()) } else { Err(EvidenceError::InvalidEvidence("not guilty".into())) }
            }
        }
    };
}

pub struct Fault<R>(pub DemoError, pub std::marker::PhantomData<fn() -> R>);
impl<R> Fault<R> {
    pub fn new(e: DemoError) -> Self {
        Self(e, std::marker::PhantomData)
    }
}
impl<R> Debug for Fault<R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<R> Clone for Fault<R> {
    fn clone(&self) -> Self {
        Self::new(self.0.clone())
    }
}
impl<R> Serialize for Fault<R> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de, R> Deserialize<'de> for Fault<R> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        DemoError::deserialize(d).map(Self::new)
    }
}
fn right_round(id: &RoundId, r: u8) -> Result<(), EvidenceError> {
    if id == r { Ok(()) } else { Err(EvidenceError::InvalidEvidence("wrong round".into())) }
}
fn required(e: &DemoError) -> RequiredMessages {
    use RequiredMessageParts as P;
    match e {
        DemoError::BadDirect => RequiredMessages::new(P::direct_message(), None, None),
        DemoError::BadEcho => RequiredMessages::new(P::echo_broadcast(), None, None),
        DemoError::BadNormal => RequiredMessages::new(P::normal_broadcast(), None, None),
        DemoError::Repeated(r) => RequiredMessages::new(
            P::normal_broadcast(),
            Some([((r - 1).into(), P::normal_broadcast())].into()),
            None,
        ),
        DemoError::CopiedAny => RequiredMessages::new(P::normal_broadcast(), None, Some([1.into(), 3.into()].into())),
        DemoError::Copied(r) => RequiredMessages::new(P::normal_broadcast(), None, Some([(r - 1).into()].into())),
        DemoError::NotSum(r) => RequiredMessages::new(
            P::normal_broadcast(),
            Some([((r - 1).into(), P::normal_broadcast().and_direct_message())].into()),
            None,
        ),
    }
}
round!(Full, Val, {
    fn make_echo_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<Val, LocalError> {
        Ok((self.inputs.content)(self.round, Part::Echo))
    }
}, Some);
round!(Plain, NoMessage, {}, |_: NoMessage| None::<Val>);

pub fn make(inputs: Inputs, round: u8, log: Outcome) -> BoxedRound<Vk, Demo> {
    if round % 2 == 1 {
        BoxedRound::new(Full { inputs, round, log })
    } else {
        BoxedRound::new(Plain { inputs, round, log })
    }
}
impl EntryPoint<Vk> for Inputs {
    type Protocol = Demo;
    fn entry_round_id() -> RoundId {
        1.into()
    }
    fn make_round(
        self,
        _rng: &mut impl CryptoRngCore,
        _shared_randomness: &[u8],
        _id: &Vk,
    ) -> Result<BoxedRound<Vk, Demo>, LocalError> {
        Ok(make(self, 1, BTreeMap::new()))
    }
}

// ---- hand-driven sessions ----

pub type S<P> = Session<P, SP>;
pub type Report<P> = SessionReport<P, SP>;

pub struct Node<P: Protocol<Vk>> {
    pub state: Option<(S<P>, RoundAccumulator<P, SP>)>,
    pub report: Option<Report<P>>,
}
pub struct Letter {
    pub from: usize,
    pub to: Vk,
    pub round: String,
    pub message: Message<Vk>,
}
pub struct Net<P: Protocol<Vk>> {
    pub rng: ChaCha20Rng,
    pub sid: SessionId,
    pub nodes: Vec<Node<P>>,
    pub vks: Vec<Vk>,
    pub mail: Vec<Letter>,
}
impl<P: Protocol<Vk>> Net<P> {
    pub fn new(seed: &[u8]) -> Self {
        Self {
            rng: ChaCha20Rng::seed_from_u64(7),
            sid: SessionId::from_seed::<SP>(seed),
            nodes: vec![],
            vks: vec![],
            mail: vec![],
        }
    }
    /// Starts a session; several sessions of the same signer are allowed.
    pub fn add(&mut self, id: u8, ep: impl EntryPoint<Vk, Protocol = P>) -> usize {
        let s = S::<P>::new(&mut self.rng, self.sid.clone(), Sk(id), ep).expect("started");
        let i = self.nodes.len();
        self.nodes.push(Node { state: None, report: None });
        self.vks.push(Vk(id));
        self.enter(i, s, vec![]);
        i
    }
    fn enter(&mut self, i: usize, s: S<P>, cached: Vec<manul::session::VerifiedMessage<Vk>>) {
        let mut acc = s.make_accumulator();
        for d in s.message_destinations().clone() {
            let (message, artifact) = s.make_message(&mut self.rng, &d).expect("message made");
            s.add_artifact(&mut acc, artifact).expect("artifact added");
            self.mail.push(Letter { from: i, to: d, round: s.round_id().to_string(), message });
        }
        for m in cached {
            let p = s.process_message(m);
            s.add_processed_message(&mut acc, p).expect("kept message applied");
        }
        self.nodes[i].state = Some((s, acc));
    }
    pub fn round(&self, i: usize) -> String {
        self.nodes[i].state.as_ref().map_or("done".into(), |(s, _)| s.round_id().to_string())
    }
    pub fn can(&self, i: usize) -> Option<CanFinalize> {
        self.nodes[i].state.as_ref().map(|(s, a)| s.can_finalize(a))
    }
    /// Removes the messages satisfying the condition from the mail.
    pub fn take(&mut self, f: impl Fn(usize, Vk, &str) -> bool) -> Vec<Letter> {
        let (out, rest) = std::mem::take(&mut self.mail).into_iter().partition(|l| f(l.from, l.to, &l.round));
        self.mail = rest;
        out
    }
    pub fn take1(&mut self, from: usize, to: u8, round: &str) -> Message<Vk> {
        let mut v = self.take(|f, t, r| f == from && t == Vk(to) && r == round);
        assert_eq!(v.len(), 1, "{from}->{to} {round}");
        v.remove(0).message
    }
    /// Gives the message to the session, without finalizing the round. Returns what happened.
    pub fn give(&mut self, i: usize, from: Vk, message: Message<Vk>) -> Result<&'static str, LocalError> {
        let Some((s, acc)) = self.nodes[i].state.as_mut() else { return Ok("done") };
        match s.preprocess_message(acc, &from, message)? {
            PreprocessOutcome::ToProcess(m) => {
                let p = s.process_message(*m);
                s.add_processed_message(acc, p)?;
                Ok("processed")
            }
            PreprocessOutcome::Cached => Ok("cached"),
            PreprocessOutcome::Error(_) => Ok("refused"),
        }
    }
    /// Finalizes the round if possible; or ends the session if it is not possible to go on.
    pub fn step(&mut self, i: usize) -> Result<bool, LocalError> {
        match self.can(i) {
            Some(CanFinalize::Yes) => {
                let (s, acc) = self.nodes[i].state.take().unwrap();
                match s.finalize_round(&mut self.rng, acc)? {
                    RoundOutcome::Finished(r) => self.nodes[i].report = Some(r),
                    RoundOutcome::AnotherRound { session, cached_messages } => self.enter(i, *session, cached_messages),
                }
                Ok(true)
            }
            Some(CanFinalize::Never) => {
                let (s, acc) = self.nodes[i].state.take().unwrap();
                self.nodes[i].report = Some(s.terminate_due_to_errors(acc)?);
                Ok(true)
            }
            _ => Ok(false),
        }
    }
    pub fn advance(&mut self, i: usize) -> Result<(), LocalError> {
        while self.step(i)? {}
        Ok(())
    }
    /// Delivers all the mail, in order, finalizing eagerly.
    pub fn settle(&mut self) -> Result<(), LocalError> {
        loop {
            for i in 0..self.nodes.len() {
                self.advance(i)?;
            }
            if self.mail.is_empty() {
                return Ok(());
            }
            let l = self.mail.remove(0);
            let from = self.vks[l.from];
            for i in 0..self.nodes.len() {
                if self.vks[i] == l.to && i != l.from {
                    self.give(i, from, l.message.clone())?;
                    self.advance(i)?;
                }
            }
        }
    }
    pub fn stop(&mut self, i: usize) -> &Report<P> {
        if let Some((s, acc)) = self.nodes[i].state.take() {
            self.nodes[i].report = Some(s.terminate(acc).expect("terminated"));
        }
        self.nodes[i].report.as_ref().unwrap()
    }
}

pub fn json<T: Serialize>(v: &T) -> Value {
    serde_json::to_value(v).unwrap()
}
pub fn unjson<T: for<'de> Deserialize<'de>>(v: &Value) -> T {
    T::deserialize(v.clone()).unwrap()
}
/// The outcome, with the contents of the result.
pub fn outcome<P: Protocol<Vk>>(r: &Report<P>) -> String {
    match &r.outcome {
        SessionOutcome::Result(r) => format!("{r:?}"),
        SessionOutcome::NotEnoughMessages => "NotEnoughMessages".into(),
        SessionOutcome::Terminated => "Terminated".into(),
    }
}
/// Ends the program with an error code if the condition does not hold.
pub fn check(cond: bool, what: &str) {
    if cond {
        println!("ok: {what}");
    } else {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
