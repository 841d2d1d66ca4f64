PROP='P08'
NEEDS='A misbehaving party which adds an entry for an unexpected party to its (correctly signed) echo message.'
BREAKS='Unexpected echoes are no longer refused, and the lookup of the broadcast they are compared with panics.'
EDITS=[('manul/src/session/echo.rs','''        let extra_keys = message_keys.difference(&expected_keys).collect::<Vec<_>>();
        if !extra_keys.is_empty() {''','''        let extra_keys = message_keys.difference(&expected_keys).collect::<Vec<_>>();
        if extra_keys.len() > expected_keys.len() {''')]
DEMO='''mod common;
use common::*;

fn main() {
    // v0 runs a 3-party session, and v2 sees a session with v3 as well, so that it echoes the message of v3.
    let mut net = Net::<Demo>::new(b"s05");
    for i in 0..2 { net.add(i, inputs(3, i, 1)); }
    let c = net.add(2, inputs(4, 2, 1));
    let d = net.add(3, inputs(4, 3, 1));
    for (f, t) in [(0, 2u8), (1, 2), (d, 2)] {
        if f == 3 {
            let m = net.take1(f, t, "Round 1");
            net.give(c, Vk(3), m).unwrap();
        } else {
            let m = net.take1(f, t, "Round 1");
            net.give(c, Vk(f as u8), m).unwrap();
        }
    }
    net.step(c).unwrap();
    let m1 = net.take1(c, 0, "Round 1");
    let m2 = net.take1(1, 0, "Round 1");
    let echo = net.take1(c, 0, "Round 1 (echo)");
    net.give(0, Vk(2), m1).unwrap();
    net.give(0, Vk(1), m2).unwrap();
    net.step(0).unwrap();
    check(net.round(0) == "Round 1 (echo)", "in the echo round");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| net.give(0, Vk(2), echo)));
    check(matches!(r, Ok(Ok(_))), "the session is not aborted");
    let rep = net.stop(0);
    check(rep.unprovable_errors.contains_key(&Vk(2)), "v2 is blamed");
}
'''
