PROP='P20'
NEEDS='A party whose message is refused right away (here: one for a round that is not the next one), being the last message delivered to its receiver.'
BREAKS='The synchronous runner looks at whether a party can go on only if the message was accepted, so a party that gave up because of a refused message is reported as terminated by the user.'
EDITS=[('manul/src/dev/run_sync.rs','''            if let Some(verified) = preprocessed.ok() {
                let processed = session.process_message(verified);
                session.add_processed_message(&mut accum, processed)?;
            }

            let (new_state, new_messages) = propagate(rng, *session, accum)?;
            messages.extend(new_messages);
            new_state
''','''            if let Some(verified) = preprocessed.ok() {
                let processed = session.process_message(verified);
                session.add_processed_message(&mut accum, processed)?;
                let (new_state, new_messages) = propagate(rng, *session, accum)?;
                messages.extend(new_messages);
                new_state
            } else {
                // Nothing has changed
                State::InProgress { session, accum }
            }
''')]
DEMO='''mod common;
use common::*;
use manul::dev::run_sync;

fn main() {
    for hasty in [false, true] {
        let mut members: Vec<(Sk, Inputs)> = (0..2).map(|i| (Sk(i), inputs(2, i, 4))).collect();
        if hasty {
            // Leaves out rounds 2 and 3
            members[1].1.plan = Arc::new(|r| {
                if r == 4 { (TransitionInfo::new_linear_terminating(4), None) }
                else {
                    let mut info = TransitionInfo::new_linear(r);
                    info.children = [4.into()].into();
                    (info, Some(4))
                }
            });
        }
        let mut rng = ChaCha20Rng::seed_from_u64(1);
        let r = run_sync::<Inputs, SP>(&mut rng, members).unwrap();
        for (id, report) in &r.reports { println!("{id:?} {}", outcome(report)); }
        let report = &r.reports[&Vk(0)];
        if hasty {
            check(report.unprovable_errors.contains_key(&Vk(1)), "the hasty one is excluded");
            check(matches!(report.outcome, SessionOutcome::NotEnoughMessages), "the other one gives up");
        } else {
            check(matches!(report.outcome, SessionOutcome::Result(_)), "there is a result");
        }
    }
}
'''
