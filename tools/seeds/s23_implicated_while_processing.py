PROP='P22'
NEEDS='A party implicated by the echo of another one while its own echo is still being processed; the two being processed in one order or the other.'
BREAKS='A message of a party that has been implicated in the meantime is left out of the accounting, so the round waits for that party forever; with the other order of processing it ends.'
EDITS=[('manul/src/session/session.rs','''        if !self.still_have_not_sent_messages.remove(&from) {
            return Err''','''        if self.is_banned(&from) {
            // The party was implicated in the meantime, its message is of no use.
            return Ok(());
        } else if !self.still_have_not_sent_messages.remove(&from) {
            return Err''')]
DEMO='''mod common;
use common::*;

fn main() {
    let mut ends = Vec::new();
    for order in [[1u8, 2], [2, 1]] {
        let mut n = Net::<Demo>::new(b"s23");
        n.add(0, inputs(3, 0, 1));
        n.add(1, inputs(3, 1, 1));
        n.add(2, inputs(3, 2, 1));
        // What v2 says to v1 only
        let lie = n.add(2, inputs(3, 2, 1).saying(|_, p| (p == Part::Echo).then_some(Val { val: 1, bad: OK })));
        let told = n.take1(lie, 1, "Round 1");
        n.mail.retain(|l| l.from != lie);
        n.take1(2, 1, "Round 1");
        n.give(1, Vk(2), told).unwrap();
        for (f, t) in [(0u8, 1u8), (0, 2), (1, 0), (1, 2), (2, 0)] {
            let m = n.take1(f as usize, t, "Round 1");
            n.give(t as usize, Vk(f), m).unwrap();
        }
        for i in 0..3 { n.step(i).unwrap(); }
        let echos = BTreeMap::from([(1u8, n.take1(1, 0, "Round 1 (echo)")), (2, n.take1(2, 0, "Round 1 (echo)"))]);
        let (s, mut acc) = n.nodes[0].state.take().unwrap();
        let mut accepted = BTreeMap::new();
        for (from, m) in echos {
            match s.preprocess_message(&mut acc, &Vk(from), m).unwrap() {
                PreprocessOutcome::ToProcess(v) => { accepted.insert(from, *v); }
                other => panic!("{other:?}"),
            }
        }
        for from in order {
            let p = s.process_message(accepted.remove(&from).unwrap());
            s.add_processed_message(&mut acc, p).unwrap();
        }
        let can = s.can_finalize(&acc);
        let r = s.terminate(acc).unwrap();
        ends.push((can, r.provable_errors.into_keys().collect::<Vec<_>>(), r.missing_messages));
        println!("{:?}", ends.last());
    }
    check(ends[0] == ends[1], "the order of processing does not matter");
}
'''
