PROP='P02'
NEEDS='A party that runs ahead: its messages for two different later rounds (the echo round and the round after it, possible for a party of the echo round, or a party that does not wait for the others) arrive while we are still in the current round.'
BREAKS='Only the first message kept from a party survives; the second one (for another round) is reported as kept but is dropped, so that the session waits forever when it gets to that round.'
EDITS=[('manul/src/session/session.rs','''        let cached = self.cached.entry(from.clone()).or_default();
        if cached.insert(round_id.clone(), message).is_some() {''','''        let cached = self.cached.entry(from.clone()).or_default();
        if !cached.is_empty() && !cached.contains_key(&round_id) {
            // Already have a message to begin with when this party is up.
            return Ok(());
        }
        if cached.insert(round_id.clone(), message).is_some() {''')]
DEMO='''mod common;
use common::*;

fn main() {
    let mut net = Net::<Demo>::new(b"s01");
    let slow = inputs(3, 0, 2);
    // v2 does not wait for anybody
    let mut fast = inputs(3, 2, 2);
    let base = fast.comm.clone();
    fast.comm = std::sync::Arc::new(move |r| CommunicationInfo { expecting_messages_from: Default::default(), ..base(r) });
    let a = net.add(0, slow);
    let b = net.add(1, inputs(3, 1, 2));
    let c = net.add(2, fast);
    // Deliver to v2 what it needs in the echo round: run everybody else in a copy of the network
    let mut other = Net::<Demo>::new(b"s01");
    other.add(0, inputs(3, 0, 2));
    other.add(1, inputs(3, 1, 2));
    other.add(2, inputs(3, 2, 2));
    other.step(0).unwrap();
    // The signatures of this signer are deterministic, so both networks are made of the same messages.
    let _ = (a, b, c);
    let mut ahead = Vec::new();
    {
        let mut n = Net::<Demo>::new(b"s01");
        for i in 0..3 { n.add(i, inputs(3, i, 2)); }
        // collect all messages of v2 for v0
        loop {
            for i in 0..3 { n.step(i).unwrap(); }
            if n.mail.is_empty() { break }
            let l = n.mail.remove(0);
            let from = n.vks[l.from];
            if l.from == 2 && l.to == Vk(0) { ahead.push(l.message.clone()); }
            let to = l.to.0 as usize;
            n.give(to, from, l.message).unwrap();
        }
    }
    check(ahead.len() == 3, "three messages of v2");
    let mut n = Net::<Demo>::new(b"s01");
    for i in 0..2 { n.add(i, inputs(3, i, 2)); }
    for (k, m) in ahead.into_iter().enumerate() {
        let r = n.give(0, Vk(2), m).unwrap();
        check(r == if k == 0 { "processed" } else { "cached" }, "taken");
    }
    // v1 follows, with v2's messages from the same run
    let mut all = Net::<Demo>::new(b"s01");
    for i in 0..3 { all.add(i, inputs(3, i, 2)); }
    loop {
        for i in 0..3 { all.step(i).unwrap(); }
        if all.mail.is_empty() { break }
        let l = all.mail.remove(0);
        let from = all.vks[l.from];
        if l.from == 1 && l.to == Vk(0) {
            n.give(0, from, l.message.clone()).unwrap();
            n.advance(0).unwrap();
        }
        all.give(l.to.0 as usize, from, l.message).unwrap();
    }
    check(n.round(0) == "done", "v0 finished");
    check(outcome(n.nodes[0].report.as_ref().unwrap()) == outcome(all.nodes[0].report.as_ref().unwrap()), "same result");
}
'''
