PROP='P06'
NEEDS='A protocol error which needs both the normal broadcast and the direct message of the same previous round to be proven.'
BREAKS='Only one part of each previous message is put in the evidence, so the recorded evidence does not verify.'
EDITS=[('manul/src/session/evidence.rs','''                if required.direct_message {
                    direct_messages.insert(round_id.clone(), transcript.get_direct_message(round_id, verifier)?);''','''                if required.direct_message && !normal_broadcasts.contains_key(round_id) {
                    direct_messages.insert(round_id.clone(), transcript.get_direct_message(round_id, verifier)?);''')]
DEMO='''mod common;
use common::*;

fn main() {
    let mut net = Net::<Demo>::new(b"s03");
    for i in 0..2 { net.add(i, inputs(3, i, 2)); }
    net.add(2, inputs(3, 2, 2).saying(|r, p| (r == 2 && p == Part::Normal).then_some(Val { val: 1, bad: NOT_SUM })));
    net.settle().unwrap();
    for i in 0..2 {
        let r = net.stop(i);
        let e = r.provable_errors.get(&Vk(2));
        check(e.is_some(), "v2 is caught");
        let e: Evidence<Demo, SP> = unjson(&json(e.unwrap()));
        check(e.verify(&()).is_ok(), "a third party is convinced");
    }
}
'''
