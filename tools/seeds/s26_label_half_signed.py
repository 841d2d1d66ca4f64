PROP='P09'
NEEDS='A message of another session with the same parties, whose label has been rewritten to name this session, while everything else (the signatures included) is left as it was.'
BREAKS='The session is not covered by the signatures of the message parts, so a message recorded in one session and relabelled by anybody passes for one of another session.'
EDITS=[('manul/src/session/message.rs','''        .chain_update(SP::WireFormat::serialize(metadata)?)
''','''        // The session ID is compared separately when a message is received.
        .chain_update(SP::WireFormat::serialize(metadata.round_id())?)
''')]
DEMO='''mod common;
use common::*;

fn main() {
    let mut old = Net::<Demo>::new(b"s26 old");
    for i in 0..2 { old.add(i, inputs(2, i, 1)); }
    let mut m_old = json(&old.take1(1, 0, "Round 1"));
    let mut net = Net::<Demo>::new(b"s26");
    for i in 0..2 { net.add(i, inputs(2, i, 1)); }
    let m = json(&net.take1(1, 0, "Round 1"));
    for part in ["direct_message", "echo_broadcast", "normal_broadcast"] {
        m_old[part]["message_with_metadata"]["metadata"] = m[part]["message_with_metadata"]["metadata"].clone();
    }
    let r = net.give(0, Vk(1), unjson(&m_old)).unwrap();
    check(r == "refused", "a relabelled message is refused");
    let mut net = Net::<Demo>::new(b"s26");
    for i in 0..2 { net.add(i, inputs(2, i, 1)); }
    let r = net.give(0, Vk(1), unjson(&m)).unwrap();
    check(r == "processed", "the right message is processed");
}
'''
