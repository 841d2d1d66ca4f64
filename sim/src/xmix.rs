//! The generated protocol with its entry points wrapped in extensions.

use std::collections::BTreeMap;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

use manul::combinators::chain::{ChainedJoin, ChainedMarker, ChainedSplit};
use manul::dev::{check_evidence_with_extension, ExtendableEntryPoint, RoundExtension};
use manul::protocol::*;
use rand_core::CryptoRngCore;

use crate::mix::*;
use crate::params::{SimFormat, SimSP, Sk, Vk};

/// Which extensions a party has.
#[derive(Debug, Default, Clone)]
pub struct Plan {
    /// By round type.
    pub which: [Which; 8],
    /// The order in which they are registered.
    pub order: Vec<u8>,
    pub over: Vec<Over>,
}

#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
pub enum Which {
    /// None at all.
    #[default]
    Free,
    /// An extension without any methods.
    Empty,
    /// An extension with all the methods.
    All,
}

/// Shared by all extensions of a party.
#[derive(Debug, Default)]
pub struct XCtl {
    pub plan: Plan,
    pub calls: Mutex<Vec<Slot>>,
    /// Whose rounds they were called for.
    pub owners: Mutex<Vec<u16>>,
}

impl XCtl {
    fn enter(&self, st: &St, op: usize, dest: Option<u16>) -> Option<How> {
        self.calls.lock().unwrap().push((st.seg, st.idx, op, dest));
        self.owners.lock().unwrap().push(st.me);
        self.plan.over.iter().find(|o| (o.seg, o.idx, o.op) == (st.seg, st.idx, op)).map(|o| o.how)
    }
}

/// Overrides nothing.
pub struct X0<R>(PhantomData<fn() -> R>);
/// Overrides everything, usually by calling the original.
pub struct XAll<R>(Arc<XCtl>, PhantomData<fn() -> R>);

impl<R> Clone for X0<R> {
    fn clone(&self) -> Self {
        X0(PhantomData)
    }
}
impl<R> Debug for X0<R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("X0")
    }
}
impl<R> Clone for XAll<R> {
    fn clone(&self) -> Self {
        XAll(self.0.clone(), PhantomData)
    }
}
impl<R> Debug for XAll<R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("XAll")
    }
}

impl<R: Round<Vk>> RoundExtension<Vk> for X0<R> {
    type Round = R;
}

impl<R> RoundExtension<Vk> for XAll<R>
where
    R: Round<Vk, Protocol = Mix, Payload = Pay> + HasSt,
    R::DirectMessage: Part,
    R::EchoBroadcast: Part,
    R::NormalBroadcast: Part,
    R::Artifact: AsArt,
{
    type Round = R;

    fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore, round: &R) -> Result<R::NormalBroadcast, LocalError> {
        if !R::NormalBroadcast::REAL {
            return round.make_normal_broadcast(rng);
        }
        let how = self.0.enter(round.st(), NORMAL, None);
        make_how(how, rng, None, |rng| round.make_normal_broadcast(rng).map(|m| (m, 0u64))).map(|x| x.0)
    }

    fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore, round: &R) -> Result<R::EchoBroadcast, LocalError> {
        if !R::EchoBroadcast::REAL {
            return round.make_echo_broadcast(rng);
        }
        let how = self.0.enter(round.st(), ECHO, None);
        make_how(how, rng, None, |rng| round.make_echo_broadcast(rng).map(|m| (m, 0u64))).map(|x| x.0)
    }

    fn make_direct_message(
        &self,
        rng: &mut impl CryptoRngCore,
        round: &R,
        destination: &Vk,
    ) -> Result<(R::DirectMessage, R::Artifact), LocalError> {
        if !R::DirectMessage::REAL {
            return round.make_direct_message(rng, destination);
        }
        let dest = Some(destination.0);
        let how = self.0.enter(round.st(), DIRECT, dest);
        make_how(how, rng, dest, |rng| round.make_direct_message(rng, destination))
    }

    fn finalize(
        &self,
        rng: &mut impl CryptoRngCore,
        round: R,
        payloads: BTreeMap<Vk, Pay>,
        artifacts: BTreeMap<Vk, R::Artifact>,
    ) -> Result<FinalizeOutcome<Vk, Mix>, LocalError> {
        let how = self.0.enter(round.st(), FINALIZE, None);
        let me = round.st().me;
        finalize_how(how, rng, me, payloads, artifacts, |rng, payloads, artifacts| {
            round.finalize(rng, payloads, artifacts)
        })
    }
}

pub type Ext<EP> = ExtendableEntryPoint<Vk, EP>;

fn add<EP, R>(ep: Ext<EP>, which: Which, ctl: &Arc<XCtl>, by_ref: bool) -> Ext<EP>
where
    EP: EntryPoint<Vk, Protocol = Mix>,
    R: Round<Vk, Protocol = Mix, Payload = Pay> + HasSt,
    R::DirectMessage: Part,
    R::EchoBroadcast: Part,
    R::NormalBroadcast: Part,
    R::Artifact: AsArt,
{
    let mut ep = ep;
    match (which, by_ref) {
        (Which::Free, _) => ep,
        (Which::Empty, false) => ep.with_extension(X0::<R>(PhantomData)),
        (Which::All, false) => ep.with_extension(XAll::<R>(ctl.clone(), PhantomData)),
        (Which::Empty, true) => {
            ep.extend(X0::<R>(PhantomData));
            ep
        }
        (Which::All, true) => {
            ep.extend(XAll::<R>(ctl.clone(), PhantomData));
            ep
        }
    }
}

/// Registers the extensions.
pub fn extend<EP: EntryPoint<Vk, Protocol = Mix>>(ep: Ext<EP>, ctl: &Arc<XCtl>) -> Ext<EP> {
    let mut ep = ep;
    for (i, m) in ctl.plan.order.iter().enumerate() {
        let which = ctl.plan.which[*m as usize];
        let by_ref = i % 2 == 1;
        ep = match m {
            0 => add::<_, R0>(ep, which, ctl, by_ref),
            1 => add::<_, R1>(ep, which, ctl, by_ref),
            2 => add::<_, R2>(ep, which, ctl, by_ref),
            3 => add::<_, R3>(ep, which, ctl, by_ref),
            4 => add::<_, R4>(ep, which, ctl, by_ref),
            5 => add::<_, R5>(ep, which, ctl, by_ref),
            6 => add::<_, R6>(ep, which, ctl, by_ref),
            _ => add::<_, R7>(ep, which, ctl, by_ref),
        };
    }
    ep
}

/// Calls the checker with a single extension, for the round type given.
pub fn check_one<F: SimFormat>(
    mask: u8,
    rng: &mut impl CryptoRngCore,
    parties: (Vec<(Sk, MixEntry<0>)>, MixShared),
    ctl: &Arc<XCtl>,
    expected: &str,
) -> Result<(), LocalError> {
    macro_rules! go {
        ($r:ty) => {
            check_evidence_with_extension::<SimSP<F>, MixEntry<0>>(
                rng,
                parties,
                XAll::<$r>(ctl.clone(), PhantomData),
                expected,
            )
        };
    }
    match mask {
        0 => go!(R0),
        1 => go!(R1),
        2 => go!(R2),
        3 => go!(R3),
        4 => go!(R4),
        5 => go!(R5),
        6 => go!(R6),
        _ => go!(R7),
    }
}

fn wrap<EP: EntryPoint<Vk, Protocol = Mix>>(ep: EP, ctl: &Arc<XCtl>) -> Ext<EP> {
    extend(ExtendableEntryPoint::new(ep), ctl)
}

// Chains of extended protocols

#[derive(Debug, Clone)]
pub struct XCtx(Ctx, Arc<XCtl>);

#[derive(Debug, Clone)]
pub struct XCh2Entry<const A: u8, const B: u8>(XCtx);
impl<const A: u8, const B: u8> ChainedMarker for XCh2Entry<A, B> {}
impl<const A: u8, const B: u8> ChainedSplit<Vk> for XCh2Entry<A, B> {
    type Protocol = Ch2P;
    type EntryPoint = Ext<MixEntry<A>>;
    fn make_entry_point1(self) -> (Ext<MixEntry<A>>, impl ChainedJoin<Vk, Protocol = Ch2P>) {
        (wrap(self.0 .0.mix(0, self.0 .0.prev), &self.0 .1), XCh2Join::<B>(self.0))
    }
}
#[derive(Debug)]
pub struct XCh2Join<const B: u8>(XCtx);
impl<const B: u8> ChainedJoin<Vk> for XCh2Join<B> {
    type Protocol = Ch2P;
    type EntryPoint = Ext<MixEntry<B>>;
    fn make_entry_point2(self, result: MixResult) -> Ext<MixEntry<B>> {
        wrap(self.0 .0.mix(1, chain_hist(result.hist)), &self.0 .1)
    }
}

#[derive(Debug, Clone)]
pub struct XCh3LEntry<const A: u8, const B: u8, const C: u8>(XCtx);
impl<const A: u8, const B: u8, const C: u8> ChainedMarker for XCh3LEntry<A, B, C> {}
impl<const A: u8, const B: u8, const C: u8> ChainedSplit<Vk> for XCh3LEntry<A, B, C> {
    type Protocol = Ch3LP;
    type EntryPoint = XCh2Entry<A, B>;
    fn make_entry_point1(self) -> (XCh2Entry<A, B>, impl ChainedJoin<Vk, Protocol = Ch3LP>) {
        (XCh2Entry(self.0.clone()), XCh3LJoin::<C>(self.0))
    }
}
#[derive(Debug)]
pub struct XCh3LJoin<const C: u8>(XCtx);
impl<const C: u8> ChainedJoin<Vk> for XCh3LJoin<C> {
    type Protocol = Ch3LP;
    type EntryPoint = Ext<MixEntry<C>>;
    fn make_entry_point2(self, result: MixResult) -> Ext<MixEntry<C>> {
        wrap(self.0 .0.mix(2, chain_hist(result.hist)), &self.0 .1)
    }
}

/// Kits whose parts can be extended.
pub trait XKit: Kit {
    type XEP: EntryPoint<Vk, Protocol = Self::P>;
    fn extended(cfg: &Arc<KitCfg>, probe: &Probe, ctl: &Arc<XCtl>) -> Self::XEP;
}

impl XKit for KMix {
    type XEP = Ext<MixEntry<0>>;
    fn extended(cfg: &Arc<KitCfg>, probe: &Probe, ctl: &Arc<XCtl>) -> Self::XEP {
        wrap(Self::entry(cfg, probe), ctl)
    }
}
impl<const B: u8> XKit for KCh2<B> {
    type XEP = XCh2Entry<0, B>;
    fn extended(cfg: &Arc<KitCfg>, probe: &Probe, ctl: &Arc<XCtl>) -> Self::XEP {
        XCh2Entry(XCtx(ctx(cfg, probe), ctl.clone()))
    }
}
impl<const B: u8, const C: u8> XKit for KCh3L<B, C> {
    type XEP = XCh3LEntry<0, B, C>;
    fn extended(cfg: &Arc<KitCfg>, probe: &Probe, ctl: &Arc<XCtl>) -> Self::XEP {
        XCh3LEntry(XCtx(ctx(cfg, probe), ctl.clone()))
    }
}

#[derive(Debug, Clone)]
pub struct XCh3REntry<const A: u8, const B: u8, const C: u8>(XCtx);
impl<const A: u8, const B: u8, const C: u8> ChainedMarker for XCh3REntry<A, B, C> {}
impl<const A: u8, const B: u8, const C: u8> ChainedSplit<Vk> for XCh3REntry<A, B, C> {
    type Protocol = Ch3RP;
    type EntryPoint = Ext<MixEntry<A>>;
    fn make_entry_point1(self) -> (Ext<MixEntry<A>>, impl ChainedJoin<Vk, Protocol = Ch3RP>) {
        (wrap(self.0 .0.mix(0, self.0 .0.prev), &self.0 .1), XCh3RJoin::<B, C>(self.0))
    }
}
#[derive(Debug)]
pub struct XCh3RJoin<const B: u8, const C: u8>(XCtx);
impl<const B: u8, const C: u8> ChainedJoin<Vk> for XCh3RJoin<B, C> {
    type Protocol = Ch3RP;
    type EntryPoint = XCh2Entry<B, C>;
    fn make_entry_point2(self, result: MixResult) -> XCh2Entry<B, C> {
        let mut ctx = self.0;
        ctx.0.prev = chain_hist(result.hist);
        ctx.0.first_seg += 1;
        XCh2Entry(ctx)
    }
}
impl<const B: u8, const C: u8> XKit for KCh3R<B, C> {
    type XEP = XCh3REntry<0, B, C>;
    fn extended(cfg: &Arc<KitCfg>, probe: &Probe, ctl: &Arc<XCtl>) -> Self::XEP {
        XCh3REntry(XCtx(ctx(cfg, probe), ctl.clone()))
    }
}
