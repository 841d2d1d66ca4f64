//! A mirror of the structure of signed messages, used for looking into and tampering with traffic.
//! Conversions go through the public `Serialize`/`Deserialize` implementations; if the structure
//! were different, the conversions would fail and the corresponding faults and checks be skipped
//! (they are counted).

use manul::protocol::RoundId;
use manul::session::Message;
use serde::{Deserialize, Serialize};
use serde_encoded_bytes::{Base64, Hex, SliceLike};
use sha3::{Digest, Sha3_256};

use crate::params::{SimFormat, Vk};

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct HexB(#[serde(with = "SliceLike::<Hex>")] pub Box<[u8]>);

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct B64(#[serde(with = "SliceLike::<Base64>")] pub Box<[u8]>);

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct MRoundId {
    pub round: u8,
    pub groups: Vec<u8>,
    pub is_echo: bool,
}

impl MRoundId {
    pub fn of(id: &RoundId) -> Option<Self> {
        serde_json::from_value(serde_json::to_value(id).ok()?).ok()
    }
    pub fn to_id(&self) -> Option<RoundId> {
        serde_json::from_value(serde_json::to_value(self).ok()?).ok()
    }
    pub fn main(&self) -> Self {
        let mut r = self.clone();
        r.is_echo = false;
        r
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct MMeta {
    pub session_id: HexB,
    pub round_id: MRoundId,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct MWithMeta {
    pub metadata: MMeta,
    pub message: Option<B64>,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct MPart {
    pub signature: HexB,
    pub message_with_metadata: MWithMeta,
}

impl MPart {
    pub fn payload(&self) -> Option<&[u8]> {
        self.message_with_metadata.message.as_ref().map(|b| b.0.as_ref())
    }
    pub fn meta(&self) -> &MMeta {
        &self.message_with_metadata.metadata
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct MMsg {
    pub destination: Vk,
    pub direct_message: MPart,
    pub echo_broadcast: MPart,
    pub normal_broadcast: MPart,
}

impl MMsg {
    pub fn of(m: &Message<Vk>) -> Option<Self> {
        serde_json::from_value(serde_json::to_value(m).ok()?).ok()
    }
    pub fn to_msg(&self) -> Option<Message<Vk>> {
        serde_json::from_value(serde_json::to_value(self).ok()?).ok()
    }
    pub fn part(&self, i: usize) -> &MPart {
        match i {
            0 => &self.direct_message,
            1 => &self.echo_broadcast,
            _ => &self.normal_broadcast,
        }
    }
    pub fn part_mut(&mut self, i: usize) -> &mut MPart {
        match i {
            0 => &mut self.direct_message,
            1 => &mut self.echo_broadcast,
            _ => &mut self.normal_broadcast,
        }
    }
    pub fn round(&self) -> &MRoundId {
        &self.direct_message.meta().round_id
    }
    pub fn unified(&self) -> bool {
        self.direct_message.meta() == self.echo_broadcast.meta()
            && self.direct_message.meta() == self.normal_broadcast.meta()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct MHash {
    pub signature: HexB,
    pub metadata: MMeta,
    pub message_part_hash: HexB,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct MPack {
    pub message_hashes: Vec<(Vk, MHash)>,
}

impl MPack {
    pub fn dec<F: SimFormat>(bytes: &[u8]) -> Option<Self> {
        F::dec(bytes)
    }
    pub fn enc<F: SimFormat>(&self) -> Vec<u8> {
        F::enc(self)
    }
    pub fn get(&self, id: u16) -> Option<&MHash> {
        self.message_hashes.iter().find(|(k, _)| k.0 == id).map(|(_, v)| v)
    }
}

/// The hash of a message part as included in echo messages.
pub fn part_hash(kind: usize, payload: Option<&[u8]>) -> Vec<u8> {
    let mut d = Sha3_256::new();
    d.update(b"ProtocolMessagePart");
    // echo, normal, direct
    d.update([[2u8], [0], [1]][kind]);
    match payload {
        None => d.update([0u8]),
        Some(p) => {
            d.update([1u8]);
            d.update((p.len() as u64).to_be_bytes());
            d.update(p);
        }
    }
    d.finalize().to_vec()
}

pub fn signed_hash(part: &MPart, kind: usize) -> MHash {
    MHash {
        signature: part.signature.clone(),
        metadata: part.meta().clone(),
        message_part_hash: HexB(part_hash(kind, part.payload()).into()),
    }
}
