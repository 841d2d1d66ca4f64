PROP='P01'
NEEDS='A protocol with a fork, one branch of which has an echo broadcast; a message from a party in the other branch arriving during the echo round.'
BREAKS='Messages of the other branch, if its number is lower, are refused in the echo round, so that a correct message from there is registered as an error.'
EDITS=[('manul/src/session/session.rs','''        } else if acceptable_round_ids.contains(&message_round_id) {
''','''        } else if acceptable_round_ids.contains(&message_round_id)
            // Once messages are being echoed, those from before the current round are of no use.
            && !(self.round_id().is_echo() && message_round_id < self.round_id())
        {
''')]
DEMO='''mod common;
use common::*;

/// Round 1, then either round 2 (v2) or round 3 (the others)
fn member(me: u8) -> Inputs {
    let mut i = inputs(3, me, 1);
    i.plan = Arc::new(move |r| {
        let ids = |v: &[u8]| v.iter().map(|r| RoundId::from(*r)).collect::<BTreeSet<_>>();
        let (parents, siblings, children): (&[u8], &[u8], &[u8]) =
            match r { 1 => (&[], &[], &[2, 3]), 2 => (&[1], &[3], &[]), _ => (&[1], &[2], &[]) };
        let info = TransitionInfo {
            id: r.into(),
            parents: ids(parents),
            siblings: ids(siblings),
            children: ids(children),
            may_produce_result: r != 1,
        };
        (info, (r == 1).then_some(if me == 2 { 2 } else { 3 }))
    });
    i.comm = Arc::new(move |r| {
        let others: BTreeSet<Vk> = (0..3).filter(|j| *j != me).map(Vk).collect();
        let mut info = CommunicationInfo::regular(&others);
        if r == 2 { info.expecting_messages_from = [].into(); }
        if r == 3 {
            info.message_destinations.remove(&Vk(2));
            info.expecting_messages_from.remove(&Vk(2));
        }
        info
    });
    i
}

fn main() {
    for late in [false, true] {
        let mut n = Net::<Demo>::new(b"s21");
        for i in 0..3 { n.add(i, member(i)); }
        let mut held = Vec::new();
        while n.nodes.iter().any(|x| x.state.is_some()) {
            for i in 0..3 { n.step(i).unwrap(); }
            if late {
                held.extend(n.take(|f, t, r| f == 2 && t == Vk(0) && r == "Round 2"));
                if n.round(0) == "Round 3 (echo)" {
                    for l in held.drain(..) { n.give(0, Vk(2), l.message).unwrap(); }
                }
            }
            if n.mail.is_empty() { continue }
            let l = n.mail.remove(0);
            n.give(l.to.0 as usize, n.vks[l.from], l.message).unwrap();
        }
        check(held.is_empty(), "everything is delivered");
        for x in &n.nodes {
            let r = x.report.as_ref().unwrap();
            check(matches!(r.outcome, SessionOutcome::Result(_)), "there is a result");
            check(r.provable_errors.is_empty() && r.unprovable_errors.is_empty(), "there are no errors");
        }
    }
}
'''
