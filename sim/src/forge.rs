//! Signing of arbitrary message parts by a misbehaving party, through the public API: a
//! one-round protocol whose message parts go on the wire as the given bytes.

use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;

use manul::protocol::*;
use manul::session::{Message, Session, SessionId};
use rand_chacha::ChaCha8Rng;
use rand_core::{CryptoRngCore, SeedableRng};
use serde::{Deserialize, Serialize};

use crate::chooser::mix64;
use crate::params::{ForgeSP, RawPart, SimFormat, Sk, Vk};
use crate::wire::{MMsg, MRoundId};

trait Part: 'static + Send + Sync + Serialize + for<'de> Deserialize<'de> {
    fn make(raw: &Option<Vec<u8>>) -> Self;
}
impl Part for RawPart {
    fn make(raw: &Option<Vec<u8>>) -> Self {
        RawPart(raw.clone().unwrap_or_default())
    }
}
impl Part for NoMessage {
    fn make(_raw: &Option<Vec<u8>>) -> Self {
        serde_json::from_str("null").expect("NoMessage is a unit")
    }
}

pub struct ForgeP;
impl Protocol<Vk> for ForgeP {
    type Result = ();
    type SharedData = ();
    fn round_info(_round_id: &RoundId) -> Option<RoundInfo<Vk, Self>> {
        None
    }
}

struct ForgeRound<D, E, N> {
    id: RoundId,
    dest: Vk,
    parts: [Option<Vec<u8>>; 3],
    phantom: PhantomData<fn() -> (D, E, N)>,
}
impl<D, E, N> std::fmt::Debug for ForgeRound<D, E, N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ForgeRound")
    }
}

impl<D: Part, E: Part, N: Part> Round<Vk> for ForgeRound<D, E, N> {
    type Protocol = ForgeP;
    type ProtocolError = NoProtocolErrors<Self>;
    type DirectMessage = D;
    type EchoBroadcast = E;
    type NormalBroadcast = N;
    type Payload = ();
    type Artifact = ();
    fn transition_info(&self) -> TransitionInfo {
        TransitionInfo {
            id: self.id.clone(),
            parents: BTreeSet::new(),
            siblings: BTreeSet::new(),
            children: BTreeSet::new(),
            may_produce_result: true,
        }
    }
    fn communication_info(&self) -> CommunicationInfo<Vk> {
        CommunicationInfo {
            message_destinations: [self.dest].into(),
            expecting_messages_from: BTreeSet::new(),
            echo_round_participation: EchoRoundParticipation::Send,
        }
    }
    fn make_direct_message(&self, _rng: &mut impl CryptoRngCore, _destination: &Vk) -> Result<(D, ()), LocalError> {
        Ok((D::make(&self.parts[0]), ()))
    }
    fn make_echo_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<E, LocalError> {
        Ok(E::make(&self.parts[1]))
    }
    fn make_normal_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<N, LocalError> {
        Ok(N::make(&self.parts[2]))
    }
    fn receive_message(&self, _from: &Vk, _m: ProtocolMessage<Vk, Self>) -> Result<(), ReceiveError<Vk, Self>> {
        Ok(())
    }
    fn finalize(
        self,
        _rng: &mut impl CryptoRngCore,
        _payloads: BTreeMap<Vk, ()>,
        _artifacts: BTreeMap<Vk, ()>,
    ) -> Result<FinalizeOutcome<Vk, ForgeP>, LocalError> {
        Ok(FinalizeOutcome::Result(()))
    }
}

struct ForgeEntry {
    id: RoundId,
    dest: Vk,
    parts: [Option<Vec<u8>>; 3],
}
impl EntryPoint<Vk> for ForgeEntry {
    type Protocol = ForgeP;
    fn entry_round_id() -> RoundId {
        RoundId::new(0)
    }
    fn make_round(
        self,
        _rng: &mut impl CryptoRngCore,
        _shared_randomness: &[u8],
        _id: &Vk,
    ) -> Result<BoxedRound<Vk, ForgeP>, LocalError> {
        fn b<D: Part, E: Part, N: Part>(e: ForgeEntry) -> BoxedRound<Vk, ForgeP> {
            BoxedRound::new(ForgeRound::<D, E, N> {
                id: e.id,
                dest: e.dest,
                parts: e.parts,
                phantom: PhantomData,
            })
        }
        type R = RawPart;
        type O = NoMessage;
        let m = [0, 1, 2].map(|i: usize| self.parts[i].is_some());
        Ok(match m {
            [false, false, false] => b::<O, O, O>(self),
            [true, false, false] => b::<R, O, O>(self),
            [false, true, false] => b::<O, R, O>(self),
            [true, true, false] => b::<R, R, O>(self),
            [false, false, true] => b::<O, O, R>(self),
            [true, false, true] => b::<R, O, R>(self),
            [false, true, true] => b::<O, R, R>(self),
            [true, true, true] => b::<R, R, R>(self),
        })
    }
}

/// A message with the given raw parts, properly signed by `sk` for the given session and round.
pub fn forge<F: SimFormat>(
    sk: &Sk,
    session_id: &SessionId,
    round: &MRoundId,
    dest: u16,
    parts: [Option<Vec<u8>>; 3],
    seed: u64,
) -> Option<Message<Vk>> {
    let mut rng = ChaCha8Rng::seed_from_u64(mix64(seed));
    let session = Session::<ForgeP, ForgeSP<F>>::new(
        &mut rng,
        session_id.clone(),
        Sk::new(sk.id),
        ForgeEntry {
            id: round.to_id()?,
            dest: Vk(dest),
            parts,
        },
    )
    .ok()?;
    session.make_message(&mut rng, &Vk(dest)).ok().map(|(m, _)| m)
}

pub fn forge_m<F: SimFormat>(
    sk: &Sk,
    session_id: &SessionId,
    round: &MRoundId,
    dest: u16,
    parts: [Option<Vec<u8>>; 3],
    seed: u64,
) -> Option<MMsg> {
    MMsg::of(&forge::<F>(sk, session_id, round, dest, parts, seed)?)
}
