PROP='P05'
NEEDS='A misbehaving party relaying an honest broadcast with a broken signature in its echo message.'
BREAKS='The party whose broadcast was damaged by the relayer is blamed, instead of the relayer.'
EDITS=[('manul/src/session/evidence.rs','''            EchoRoundError::InvalidEcho(error) => Ok(Self {
                guilty_party: verifier.clone(),''','''            EchoRoundError::InvalidEcho(error) => Ok(Self {
                guilty_party: error.sender().unwrap_or(verifier).clone(),'''),
('manul/src/session/echo.rs','''impl<Id: PartyId> InvalidEchoError<Id> {
    pub fn description(&self) -> String {''','''impl<Id: PartyId> InvalidEchoError<Id> {
    /// The sender of the invalid message.
    pub fn sender(&self) -> Option<&Id> {
        Some(&self.invalid_echo_sender)
    }

    pub fn description(&self) -> String {''')]
DEMO='''mod common;
use common::*;

fn main() {
    let mut net = Net::<Demo>::new(b"s06");
    for i in 0..3 { net.add(i, inputs(3, i, 1)); }
    // v2 receives from v1 a message which was signed in another session
    let mut other = Net::<Demo>::new(b"s06 other");
    for i in 0..3 { other.add(i, inputs(3, i, 1)); }
    // v2's own session is the other one, as far as v1's message is concerned: craft the echo message by
    // running v2 with a signer of v1's broadcast that is not v1.
    let mut forged = Net::<Demo>::new(b"s06");
    let f2 = forged.add(2, inputs(3, 2, 1));
    let f0 = forged.add(0, inputs(3, 0, 1));
    let m0 = forged.take1(f0, 2, "Round 1");
    forged.give(f2, Vk(0), m0).unwrap();
    let f1 = forged.add(1, inputs(3, 1, 1).saying(|_, p| (p == Part::Echo).then_some(Val { val: 5, bad: 0 })));
    let m1 = forged.take1(f1, 2, "Round 1");
    forged.give(f2, Vk(1), m1).unwrap();
    forged.step(f2).unwrap();
    let echo = forged.take1(f2, 0, "Round 1 (echo)");

    // Replace the signature of v1's hash in v2's echo message with garbage, and sign the result by v2
    // (this is what a misbehaving v2 is able to do).
    let mut j = json(&echo);
    let payload = j["normal_broadcast"]["message_with_metadata"]["message"].clone();
    let bytes = common_b64_decode(payload.as_str().unwrap());
    let mut pack: Value = serde_json::from_slice(&bytes).unwrap();
    let mut done = false;
    fn break_sig(v: &mut Value, done: &mut bool, of: u64) {
        // the map is a list of (key, value)
        if let Value::Array(a) = v {
            if a.len() == 2 && a[0] == Value::from(of) {
                a[1]["signature"] = Value::from(a[1]["signature"].as_str().unwrap().replace('3', "4"));
                *done = true;
            } else {
                a.iter_mut().for_each(|v| break_sig(v, done, of));
            }
        } else if let Value::Object(o) = v {
            if let Some(e) = o.get_mut(&of.to_string()) {
                e["signature"] = Value::from(e["signature"].as_str().unwrap().replace('3', "4"));
                *done = true;
            } else {
                o.values_mut().for_each(|v| break_sig(v, done, of));
            }
        }
    }
    break_sig(&mut pack, &mut done, 1);
    check(done, "the pack was edited");
    let new_payload = serde_json::to_vec(&pack).unwrap();
    j["normal_broadcast"]["message_with_metadata"]["message"] = Value::from(b64_encode(&new_payload));
    let _ = other;

    // Let v2 sign these bytes as its normal broadcast: a session whose serialized broadcast is what we want
    let signed = sign_raw(&net.sid, &new_payload);
    j["normal_broadcast"] = signed;
    let echo: Message<Vk> = unjson(&j);

    for (f, t) in [(2usize, 0u8), (1, 0)] {
        let m = net.take1(f, t, "Round 1");
        net.give(0, Vk(f as u8), m).unwrap();
    }
    net.step(0).unwrap();
    check(net.round(0) == "Round 1 (echo)", "in the echo round");
    let r = net.give(0, Vk(2), echo).unwrap();
    check(r == "processed", "the echo message is signed by v2");
    let rep = net.stop(0);
    check(rep.provable_errors.contains_key(&Vk(2)), "v2 is blamed");
    check(!rep.provable_errors.contains_key(&Vk(1)), "v1 is not blamed");
}

const ABC: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64_encode(b: &[u8]) -> String {
    b.chunks(3)
        .map(|c| {
            let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
            (0..4).map(|i| if i <= c.len() { ABC[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' }).collect::<String>()
        })
        .collect()
}
fn common_b64_decode(s: &str) -> Vec<u8> {
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.bytes() {
        let Some(v) = ABC.iter().position(|x| *x == c) else { continue };
        acc = (acc << 6 | v as u32) & 0xffffff;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
        }
    }
    out
}

// ---- v2's signature of arbitrary bytes in "Round 1 (echo)": the echo round message of a session which uses
// a wire format that replaces the contents.
use std::cell::RefCell;
thread_local!(static RAW: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) });
#[derive(Debug)]
struct RawSP;
#[derive(Debug)]
struct RawWF;
impl manul::session::WireFormat for RawWF {
    fn serialize<T: Serialize>(value: T) -> Result<Box<[u8]>, LocalError> {
        let out = <HumanReadableFormat as manul::session::WireFormat>::serialize(value)?;
        let text = String::from_utf8_lossy(&out).to_string();
        if text.contains("message_hashes") || text.contains("message_part_hash") {
            if let Some(raw) = RAW.with(|r| r.borrow_mut().take()) {
                return Ok(raw.into());
            }
        }
        Ok(out)
    }
    type Deserializer<'de> = <HumanReadableFormat as manul::session::WireFormat>::Deserializer<'de>;
    fn deserializer(bytes: &[u8]) -> Self::Deserializer<'_> {
        <HumanReadableFormat as manul::session::WireFormat>::deserializer(bytes)
    }
}
impl SessionParameters for RawSP {
    type Signer = Sk;
    type Digest = sha3::Sha3_256;
    type Verifier = Vk;
    type Signature = Sig;
    type WireFormat = RawWF;
}
fn sign_raw(sid: &SessionId, bytes: &[u8]) -> Value {
    let mut rng = ChaCha20Rng::seed_from_u64(1);
    let mut start = |i: u8| Session::<Demo, RawSP>::new(&mut rng, sid.clone(), Sk(i), inputs(3, i, 1)).unwrap();
    let (s0, s1, s2) = (start(0), start(1), start(2));
    let mut acc = s2.make_accumulator();
    for s in [&s0, &s1] {
        let (m, _) = s.make_message(&mut rng, &Vk(2)).unwrap();
        let m = match s2.preprocess_message(&mut acc, &s.verifier(), m).unwrap() {
            PreprocessOutcome::ToProcess(m) => *m,
            _ => unreachable!(),
        };
        let p = s2.process_message(m);
        s2.add_processed_message(&mut acc, p).unwrap();
    }
    RAW.with(|r| *r.borrow_mut() = Some(bytes.to_vec()));
    let RoundOutcome::AnotherRound { session, .. } = s2.finalize_round(&mut rng, acc).unwrap() else { unreachable!() };
    let (m, _) = session.make_message(&mut rng, &Vk(0)).unwrap();
    json(&m)["normal_broadcast"].clone()
}
'''
