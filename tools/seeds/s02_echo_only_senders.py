PROP='P03'
NEEDS='A round where some parties only receive (and echo) the broadcasts, and a broadcaster which sends different versions to two of them.'
BREAKS='A party that takes part in an echo round only as a receiver does not wait for the echoes of the other receivers, so that two of them go past the echo round with different broadcasts.'
EDITS=[('manul/src/session/session.rs','''            EchoRoundParticipation::Receive { echo_targets } => Some(EchoRoundInfo {
                message_destinations: echo_targets.clone(),
                expecting_messages_from: echo_targets.clone(),''','''            EchoRoundParticipation::Receive { echo_targets } => Some(EchoRoundInfo {
                message_destinations: echo_targets.clone(),
                expecting_messages_from: echo_targets
                    .intersection(&communication_info.expecting_messages_from)
                    .cloned()
                    .collect(),''')]
DEMO='''mod common;
use common::*;
use std::collections::BTreeSet;
use std::sync::Arc;

// v0 and v1 send, v2, v3 only receive. v0 and v1 do not take part in the echo round.
fn party(me: u8) -> Inputs {
    let mut i = inputs(4, me, 1);
    let senders: BTreeSet<Vk> = [Vk(0), Vk(1)].into();
    let receivers: BTreeSet<Vk> = [Vk(2), Vk(3)].into();
    i.comm = Arc::new(move |_| {
        if me < 2 {
            CommunicationInfo {
                message_destinations: receivers.clone(),
                expecting_messages_from: BTreeSet::new(),
                echo_round_participation: EchoRoundParticipation::Send,
            }
        } else {
            CommunicationInfo {
                message_destinations: BTreeSet::new(),
                expecting_messages_from: senders.clone(),
                echo_round_participation: EchoRoundParticipation::Receive {
                    echo_targets: [Vk(5 - me)].into(),
                },
            }
        }
    });
    i
}

fn main() {
    let mut net = Net::<Demo>::new(b"s02");
    let v0a = net.add(0, party(0));
    let v0b = net.add(0, party(0).saying(|_, p| (p == Part::Echo).then_some(Val { val: 666, bad: 0 })));
    let v1 = net.add(1, party(1));
    let v2 = net.add(2, party(2));
    let v3 = net.add(3, party(3));
    let m = [(net.take1(v0a, 2, "Round 1"), v2, 0), (net.take1(v0b, 3, "Round 1"), v3, 0)];
    for (m, to, from) in m {
        net.give(to, Vk(from), m).unwrap();
    }
    for to in [2, 3] {
        let m = net.take1(v1, to, "Round 1");
        net.give(if to == 2 { v2 } else { v3 }, Vk(1), m).unwrap();
    }
    net.take(|f, _, _| f == v0a || f == v0b);
    net.settle().unwrap();
    let past = [v2, v3]
        .iter()
        .filter(|i| net.nodes[**i].report.as_ref().map_or(false, |r| matches!(r.outcome, SessionOutcome::Result(_))))
        .count();
    check(past < 2, "v2 and v3 do not both finish with different broadcasts of v0");

    // The same without misbehaviour
    let mut net = Net::<Demo>::new(b"s02");
    for i in 0..4 {
        net.add(i, party(i));
    }
    net.settle().unwrap();
    for i in [2, 3] {
        let r = net.stop(i);
        check(matches!(r.outcome, SessionOutcome::Result(_)) && r.unprovable_errors.is_empty(), "fine if all is fine");
    }
}
'''
