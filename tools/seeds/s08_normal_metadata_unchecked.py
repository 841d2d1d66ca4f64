PROP='P09'
NEEDS='A message recombined from the correctly signed parts of different rounds (or sessions) of the same sender, for a round that sends an echo broadcast.'
BREAKS='The normal broadcast of the message is not checked to be of the same session and round as the rest if there is an echo broadcast, so an old broadcast is accepted for a new one.'
EDITS=[('manul/src/session/message.rs','''        if self.normal_broadcast.metadata() != self.direct_message.metadata() {
            return None;
        }''','''        // The echo broadcast has been checked above.
        use crate::protocol::ProtocolMessagePart as _;
        if self.echo_broadcast.payload().is_none() && self.normal_broadcast.metadata() != self.direct_message.metadata()
        {
            return None;
        }''')]
DEMO='''mod common;
use common::*;

fn main() {
    let mut old = Net::<Demo>::new(b"s08 old");
    for i in 0..2 { old.add(i, inputs(2, i, 1)); }
    let m_old = json(&old.take1(1, 0, "Round 1"));
    let mut net = Net::<Demo>::new(b"s08");
    for i in 0..2 { net.add(i, inputs(2, i, 1)); }
    let mut m = json(&net.take1(1, 0, "Round 1"));
    m["normal_broadcast"] = m_old["normal_broadcast"].clone();
    let r = net.give(0, Vk(1), unjson(&m)).unwrap();
    check(r == "refused", "a recombined message is refused");
}
'''
