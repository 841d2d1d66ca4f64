PROP='P06'
NEEDS='A protocol error which refers to the echoes of two or more earlier rounds, and a party which makes that error in a later round after behaving well in those.'
BREAKS='The evidence contains the echoes of the latest of these rounds only, so it does not verify.'
EDITS=[('manul/src/session/evidence.rs','''            for round_id in required_combined_echos {
                echo_hashes.insert(''','''            // The rounds are ordered.
            if let Some(round_id) = required_combined_echos.last() {
                echo_hashes.insert(''')]
DEMO='''mod common;
use common::*;

fn main() {
    let mut net = Net::<Demo>::new(b"s27");
    for i in 0..2 { net.add(i, inputs(3, i, 4)); }
    let copied = honest(1)(1, Part::Echo).val;
    net.add(2, inputs(3, 2, 4).saying(move |r, p| {
        (r == 4 && p == Part::Normal).then_some(Val { val: copied, bad: COPIED_ANY })
    }));
    net.settle().unwrap();
    for i in 0..2 {
        let r = net.stop(i);
        let e = r.provable_errors.get(&Vk(2));
        check(e.is_some(), "v2 is caught");
        let e: Evidence<Demo, SP> = unjson(&json(e.unwrap()));
        check(e.verify(&()).is_ok(), "a third party is convinced");
    }
}
'''
