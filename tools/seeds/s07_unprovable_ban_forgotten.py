PROP='P11'
NEEDS='A party caught with an unprovable error in one round whose message for that round was fine (for example, it sent its next message twice), and whose message for the next round was kept earlier.'
BREAKS='The parties caught with unprovable errors are let back in when the next round starts.'
EDITS=[('manul/src/session/transcript.rs','''    pub fn is_banned(&self, from: &SP::Verifier) -> bool {
        self.provable_errors.contains_key(from) || self.unprovable_errors.contains_key(from)''','''    pub fn is_banned(&self, from: &SP::Verifier) -> bool {
        // The parties whose messages are still missing are not heard anyway.
        let missing = self.missing_messages.values().any(|ids| ids.contains(from));
        self.provable_errors.contains_key(from) || (missing && self.unprovable_errors.contains_key(from))''')]
DEMO='''mod common;
use common::*;

fn main() {
    let mut net = Net::<Demo>::new(b"s07");
    for i in 0..3 { net.add(i, inputs(3, i, 2)); }
    // v2 runs ahead into the echo round
    for f in 0..2 {
        let m = net.take1(f, 2, "Round 1");
        net.give(2, Vk(f as u8), m).unwrap();
    }
    net.step(2).unwrap();
    let m = net.take1(2, 0, "Round 1");
    check(net.give(0, Vk(2), m).unwrap() == "processed", "processed");
    let echo = net.take1(2, 0, "Round 1 (echo)");
    check(net.give(0, Vk(2), echo.clone()).unwrap() == "cached", "kept");
    check(net.give(0, Vk(2), echo.clone()).unwrap() == "refused", "refused the second time");
    let m = net.take1(1, 0, "Round 1");
    net.give(0, Vk(1), m).unwrap();
    net.step(0).unwrap();
    check(net.round(0) == "Round 1 (echo)", "in the echo round");
    let again = net.give(0, Vk(2), echo);
    check(matches!(again, Ok("refused")), "refused");
    // v1's echo comes as well
    let m = net.take1(2, 1, "Round 1");
    net.give(1, Vk(2), m).unwrap();
    let m = net.take1(0, 1, "Round 1");
    net.give(1, Vk(0), m).unwrap();
    net.step(1).unwrap();
    let m = net.take1(1, 0, "Round 1 (echo)");
    check(net.give(0, Vk(1), m).unwrap() == "processed", "processed");
    check(net.can(0) == Some(CanFinalize::Never), "the banned party's message does not count");
}
'''
