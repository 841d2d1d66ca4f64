//! Cryptographic and wire-format parameters of the simulated sessions.
//!
//! The signature is a keyed hash over the digest. It is unforgeable for anybody who only uses
//! the API (the "secret" is derived from the party id inside this file) and not malleable.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

use manul::dev::{BinaryFormat, HumanReadableFormat};
use manul::session::{LocalError, SessionParameters, WireFormat};
use rand_core::CryptoRngCore;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use sha3::digest::{generic_array::typenum, Digest, FixedOutput, HashMarker, OutputSizeUser, Update};
use sha3::Sha3_256;

/// The session digest: SHA3-256 wrapped in an own type (so that a mistake which uses
/// another digest would not compile here by accident).
#[derive(Clone, Default)]
pub struct SimDigest(Sha3_256);
impl HashMarker for SimDigest {}
impl Update for SimDigest {
    fn update(&mut self, data: &[u8]) {
        Update::update(&mut self.0, data)
    }
}
impl OutputSizeUser for SimDigest {
    type OutputSize = typenum::U32;
}
impl FixedOutput for SimDigest {
    fn finalize_into(self, out: &mut sha3::digest::Output<Self>) {
        FixedOutput::finalize_into(self.0, out)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Vk(pub u16);

impl Debug for Vk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.0)
    }
}

/// Nonces drawn by a signer, for the freshness property.
pub type NonceLog = Arc<Mutex<Vec<[u8; 16]>>>;
pub type SignedLog = Arc<Mutex<Vec<(Vec<u8>, [u8; 16])>>>;

#[derive(Clone)]
pub struct Sk {
    pub id: u16,
    pub nonces: Option<NonceLog>,
    /// What was signed.
    pub signed: Option<SignedLog>,
    /// Nonces to use for given digests.
    pub script: Option<Arc<BTreeMap<Vec<u8>, [u8; 16]>>>,
}

impl Sk {
    pub fn new(id: u16) -> Self {
        Self {
            id,
            nonces: None,
            signed: None,
            script: None,
        }
    }
    pub fn logged(id: u16, log: NonceLog) -> Self {
        Self {
            nonces: Some(log),
            ..Self::new(id)
        }
    }
    pub fn recorded(id: u16, log: SignedLog) -> Self {
        Self {
            signed: Some(log),
            ..Self::new(id)
        }
    }
    pub fn scripted(id: u16, script: Arc<BTreeMap<Vec<u8>, [u8; 16]>>) -> Self {
        Self {
            script: Some(script),
            ..Self::new(id)
        }
    }
}

impl Debug for Sk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "sk{}", self.id)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sig(pub [u8; 32]);

impl Serialize for Sig {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de> Deserialize<'de> for Sig {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <[u8; 32]>::deserialize(d).map(Sig)
    }
}

fn mac(id: u16, nonce: &[u8], digest: &[u8]) -> [u8; 16] {
    let out = Sha3_256::new()
        .chain_update(b"sim-signature")
        .chain_update(id.to_be_bytes())
        .chain_update(nonce)
        .chain_update(digest)
        .finalize();
    out[..16].try_into().unwrap()
}

impl<D: Digest> signature::RandomizedDigestSigner<D, Sig> for Sk {
    fn try_sign_digest_with_rng(&self, rng: &mut impl CryptoRngCore, digest: D) -> Result<Sig, signature::Error> {
        let mut nonce = [0u8; 16];
        rng.fill_bytes(&mut nonce);
        if let Some(log) = &self.nonces {
            log.lock().unwrap().push(nonce);
        }
        let digest = digest.finalize();
        if let Some(n) = self.script.as_ref().and_then(|s| s.get(digest.as_slice())) {
            nonce = *n;
        }
        if let Some(log) = &self.signed {
            log.lock().unwrap().push((digest.to_vec(), nonce));
        }
        let mut sig = [0u8; 32];
        sig[..16].copy_from_slice(&nonce);
        sig[16..].copy_from_slice(&mac(self.id, &nonce, &digest));
        Ok(Sig(sig))
    }
}

impl signature::Keypair for Sk {
    type VerifyingKey = Vk;
    fn verifying_key(&self) -> Vk {
        Vk(self.id)
    }
}

impl<D: Digest> signature::DigestVerifier<D, Sig> for Vk {
    fn verify_digest(&self, digest: D, sig: &Sig) -> Result<(), signature::Error> {
        if sig.0[16..] == mac(self.0, &sig.0[..16], &digest.finalize()) {
            Ok(())
        } else {
            Err(signature::Error::new())
        }
    }
}

/// A wire format usable in the simulator.
pub trait SimFormat: WireFormat + Clone + Copy + Send + Sync {
    const NAME: &'static str;
    fn enc<T: Serialize>(v: &T) -> Vec<u8> {
        <Self as WireFormat>::serialize(v).expect("serializable").to_vec()
    }
    /// Reads the value exactly the way the library does (which tolerates trailing bytes).
    fn dec<T: for<'de> Deserialize<'de>>(b: &[u8]) -> Option<T> {
        T::deserialize(<Self as WireFormat>::deserializer(b)).ok()
    }
}

impl SimFormat for BinaryFormat {
    const NAME: &'static str = "binary";
}
impl SimFormat for HumanReadableFormat {
    const NAME: &'static str = "json";
}

macro_rules! unit_serde {
    ($t:ident<$f:ident>) => {
        impl<$f> Serialize for $t<$f> {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_unit()
            }
        }
        impl<'de, $f> Deserialize<'de> for $t<$f> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                <()>::deserialize(d).map(|_| $t(PhantomData))
            }
        }
    };
}

pub struct SimSP<F>(PhantomData<fn() -> F>);
impl<F> Debug for SimSP<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SimSP")
    }
}
unit_serde!(SimSP<F>);

impl<F: SimFormat> SessionParameters for SimSP<F> {
    type Signer = Sk;
    type Digest = SimDigest;
    type Verifier = Vk;
    type Signature = Sig;
    type WireFormat = F;
}

/// The parameters used by a misbehaving party to sign arbitrary bytes as message parts.
pub struct ForgeSP<F>(PhantomData<fn() -> F>);
impl<F> Debug for ForgeSP<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ForgeSP")
    }
}

impl<F: SimFormat> SessionParameters for ForgeSP<F> {
    type Signer = Sk;
    type Digest = SimDigest;
    type Verifier = Vk;
    type Signature = Sig;
    type WireFormat = ForgeWF<F>;
}

thread_local! {
    static RAW: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}

/// A message part that goes on the wire as exactly these bytes (only under [`ForgeWF`]).
#[derive(Clone)]
pub struct RawPart(pub Vec<u8>);
impl Serialize for RawPart {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        RAW.with(|r| *r.borrow_mut() = Some(self.0.clone()));
        s.serialize_unit()
    }
}
impl<'de> Deserialize<'de> for RawPart {
    fn deserialize<D: Deserializer<'de>>(_d: D) -> Result<Self, D::Error> {
        Err(serde::de::Error::custom("never deserialized"))
    }
}

pub struct ForgeWF<F>(PhantomData<fn() -> F>);
impl<F> Debug for ForgeWF<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ForgeWF")
    }
}
impl<F: SimFormat> WireFormat for ForgeWF<F> {
    fn serialize<T: Serialize>(value: T) -> Result<Box<[u8]>, LocalError> {
        RAW.with(|r| r.borrow_mut().take());
        let bytes = <F as WireFormat>::serialize(value)?;
        match RAW.with(|r| r.borrow_mut().take()) {
            Some(raw) => Ok(raw.into()),
            None => Ok(bytes),
        }
    }
    type Deserializer<'de> = <F as WireFormat>::Deserializer<'de>;
    fn deserializer(bytes: &[u8]) -> Self::Deserializer<'_> {
        <F as WireFormat>::deserializer(bytes)
    }
}
