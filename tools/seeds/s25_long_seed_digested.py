PROP='P31'
NEEDS='A seed longer than the output of the hash, and another session whose seed is the hash of it.'
BREAKS='Long seeds are replaced with their hash, as in HMAC, so that a session named by a long byte string and the one named by the hash of that byte string have the same identifier.'
EDITS=[('manul/src/session/session.rs','''        Self(
            SP::Digest::new_with_prefix(b"SessionId")
                .chain_update(bytes)
''','''        // Have a fixed size buffer for long bytestrings
        let mut buffer = digest::Output::<SP::Digest>::default();
        let bytes = if bytes.len() > buffer.len() {
            buffer.copy_from_slice(&SP::Digest::digest(bytes));
            buffer.as_ref()
        } else {
            bytes
        };
        Self(
            SP::Digest::new_with_prefix(b"SessionId")
                .chain_update(bytes)
''')]
DEMO='''mod common;
use common::*;
use sha3::{Digest, Sha3_256};

fn main() {
    let name = |s: &[u8]| SessionId::from_seed::<SP>(s);
    for len in [0, 1, 31, 32, 33, 64, 200] {
        let a: Vec<u8> = (0..len).map(|i| i as u8).collect();
        let mut b = a.clone();
        b.push(0);
        check(name(&a) == name(&a.clone()), "every party finds the same name");
        check(name(&a) != name(&b), "another name for a longer seed");
        check(name(&a) != name(name(&a).as_ref()), "another name if the name is the seed");
        check(name(&a) != name(&Sha3_256::digest(&a)), "another name if the hash is the seed");
    }
}
'''
