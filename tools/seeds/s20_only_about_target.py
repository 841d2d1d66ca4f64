PROP='P23'
NEEDS='A party of a checked execution that reports provable errors of two parties, the modified one being among them.'
BREAKS='The evidence checker counts only the errors of the modified party, so it passes when somebody else has been found guilty, too.'
EDITS=[('manul/src/dev/misbehave.rs','''        if report.provable_errors.len() > 1 {
''','''        if report.provable_errors.keys().filter(|id| *id == target_id).count() > 1 {
''')]
DEMO='''mod common;
use common::*;
use manul::dev::{check_evidence, run_sync};

fn bad(me: u8) -> Inputs {
    inputs(4, me, 2).saying(|_, p| (p == Part::Normal).then_some(Val { val: 0, bad: BAD }))
}

fn main() {
    // Parties 2 and 3 misbehave; they only look at each other's messages in the second round.
    for two in [false, true] {
        let mut members = vec![(Sk(3), bad(3))];
        for i in 0..3u8 {
            let mut m = if two && i == 2 { bad(2) } else { inputs(4, i, 2) };
            if i == 2 || !two {
                // nothing is expected of these
                m.comm = Arc::new(move |_| {
                    let mut info = CommunicationInfo::regular(&(0..4).filter(|j| *j != i).map(Vk).collect());
                    if two { info.expecting_messages_from = BTreeSet::new(); }
                    info
                });
            }
            members.push((Sk(i), m));
        }
        members[0].1.comm = Arc::new(|_| {
            let mut info = CommunicationInfo::regular(&(0..3).map(Vk).collect());
            info.expecting_messages_from = BTreeSet::new();
            info
        });
        if two {
            // Ignored here: the reports of the offenders
            let mut rng = ChaCha20Rng::seed_from_u64(1);
            let mut r = run_sync::<Inputs, SP>(&mut rng, members).unwrap();
            r.reports.remove(&Vk(2));
            for (id, r) in &r.reports { println!("{id:?} {:?}", r.provable_errors.keys()); }
            check(r.reports[&Vk(0)].provable_errors.len() == 2, "two offenders are found");
            check(check_evidence(&Vk(3), r, &(), "BadNormal").is_err(), "two provable errors when one was expected");
        } else {
            let mut rng = ChaCha20Rng::seed_from_u64(1);
            let r = run_sync::<Inputs, SP>(&mut rng, members).unwrap();
            for (id, r) in &r.reports { println!("{id:?} {:?}", r.provable_errors.keys()); }
            check(check_evidence(&Vk(3), r, &(), "BadNormal").is_ok(), "one offender");
        }
    }
}
'''
