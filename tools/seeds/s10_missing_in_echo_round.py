PROP='P13'
NEEDS='A session that ends in an echo round, with some messages still missing.'
BREAKS='The parties that did not send their echo messages are not listed in the report as missing.'
EDITS=[('manul/src/session/transcript.rs','''                if !missing_messages.is_empty() {
                    entry.insert(missing_messages);''','''                // Echo rounds are internal, the user does not know about them.
                if !missing_messages.is_empty() && !round_id.is_echo() {
                    entry.insert(missing_messages);''')]
DEMO='''mod common;
use common::*;

fn main() {
    let mut net = Net::<Demo>::new(b"s10");
    for i in 0..2 { net.add(i, inputs(2, i, 2)); }
    let m = net.take1(1, 0, "Round 1");
    net.give(0, Vk(1), m).unwrap();
    net.step(0).unwrap();
    check(net.round(0) == "Round 1 (echo)", "in the echo round");
    let r = net.stop(0);
    let missing: Vec<_> = r.missing_messages.values().flatten().cloned().collect();
    check(missing == vec![Vk(1)], "v1 is reported missing");
}
'''
