PROP='P04'
NEEDS='A broadcaster that does not take part in the echo round itself, and equivocates.'
BREAKS='The echos are compared to what was received only for the broadcasters that are in the echo round, so that the equivocation of another one stays undetected.'
EDITS=[('manul/src/session/echo.rs','''            if !verified_echo.is_hash_of::<SP, _>(previously_received_echo) {
''','''            // (`sender` should be one of the nodes that agree on the broadcasts)
            let is_participant = sender == &self.verifier || self.echo_round_info.message_destinations.contains(sender);
            if is_participant && !verified_echo.is_hash_of::<SP, _>(previously_received_echo) {
''')]
DEMO='''mod common;
use common::*;

/// v0 broadcasts, v1 and v2 listen and compare
fn member(me: u8) -> Inputs {
    let mut i = inputs(3, me, 1);
    i.comm = Arc::new(move |_| {
        let listeners: BTreeSet<Vk> = [Vk(1), Vk(2)].into();
        if me == 0 {
            CommunicationInfo {
                message_destinations: listeners,
                expecting_messages_from: [].into(),
                echo_round_participation: EchoRoundParticipation::Send,
            }
        } else {
            CommunicationInfo {
                message_destinations: [].into(),
                expecting_messages_from: [Vk(0)].into(),
                echo_round_participation: EchoRoundParticipation::Receive {
                    echo_targets: listeners.into_iter().filter(|v| *v != Vk(me)).collect(),
                },
            }
        }
    });
    i
}

fn main() {
    let mut n = Net::<Demo>::new(b"s22");
    n.add(0, member(0));
    n.add(0, member(0).saying(|_, p| (p == Part::Echo).then_some(Val { val: 1, bad: OK })));
    n.add(1, member(1));
    n.add(2, member(2));
    let one = n.take1(0, 1, "Round 1");
    let two = n.take1(1, 2, "Round 1");
    n.mail.clear();
    n.give(2, Vk(0), one).unwrap();
    n.give(3, Vk(0), two).unwrap();
    n.settle().unwrap();
    for i in [2, 3] {
        let r = n.stop(i);
        check(r.provable_errors.keys().eq([&Vk(0)]), "the equivocation is proven");
        check(r.provable_errors[&Vk(0)].verify(&()).is_ok(), "the evidence is good");
    }
}
'''
