PROP='P18'
NEEDS='A chained protocol, one part of which has a protocol error that needs the combined echoes of an earlier round to be proven.'
BREAKS='The rounds of the combined echoes are not put in the group of their part of the chain, so that building the evidence fails with a local error and the session is aborted.'
EDITS=[('manul/src/protocol/evidence.rs','''        let combined_echos = self.combined_echos.map(|combined_echos| {
            combined_echos
                .into_iter()
                .map(|round_id| round_id.group_under(group_num))
                .collect()
        });

        RequiredMessages {
            this_round: self.this_round,
            previous_rounds,
            combined_echos,
        }''','''        RequiredMessages {
            this_round: self.this_round,
            previous_rounds,
            combined_echos: self.combined_echos,
        }''')]
DEMO='''mod common;
use common::*;
use manul::combinators::chain::*;

#[derive(Debug, Serialize, Deserialize)]
pub struct Both;
impl ChainedMarker for Both {}
impl ChainedProtocol<Vk> for Both {
    type Protocol1 = Demo;
    type Protocol2 = Demo;
}
#[derive(Debug)]
pub struct Start(Inputs, Inputs);
impl ChainedMarker for Start {}
impl ChainedSplit<Vk> for Start {
    type Protocol = Both;
    type EntryPoint = Inputs;
    fn make_entry_point1(self) -> (Inputs, impl ChainedJoin<Vk, Protocol = Both>) {
        (self.0, Join(self.1))
    }
}
#[derive(Debug)]
pub struct Join(Inputs);
impl ChainedJoin<Vk> for Join {
    type Protocol = Both;
    type EntryPoint = Inputs;
    fn make_entry_point2(self, _result: Outcome) -> Inputs {
        self.0
    }
}

fn main() {
    let shared = || ChainedSharedData::<Vk, Both> { protocol1: (), protocol2: () };
    for part in 1..=2 {
        let mut net = Net::<Both>::new(b"s11");
        for i in 0..2 { net.add(i, Start(inputs(3, i, 2), inputs(3, i, 2))); }
        // v2 copies the broadcast of v0
        let bad = inputs(3, 2, 2).saying(|r, p| (r == 2 && p == Part::Normal).then_some(Val { val: 20_000, bad: COPIED }));
        let good = inputs(3, 2, 2);
        net.add(2, if part == 1 { Start(bad, good) } else { Start(good, bad) });
        check(net.settle().is_ok(), "no session is aborted");
        for i in 0..2 {
            let r = net.stop(i);
            let e = r.provable_errors.get(&Vk(2));
            check(e.is_some(), "v2 is caught");
            let e: Evidence<Both, SP> = unjson(&json(e.unwrap()));
            check(e.verify(&shared()).is_ok(), "a third party is convinced");
        }
    }
}
'''
