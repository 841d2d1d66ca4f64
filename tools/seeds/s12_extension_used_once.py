PROP='P19'
NEEDS='A protocol which uses the same round type for several rounds, and an extension of that type.'
BREAKS='An extension applies to the first round of its type only.'
EDITS=[('manul/src/dev/extend.rs','''    if let Some(extension) = extensions.get(&round.as_typed()?.type_id()) {
        let extension: Box<dyn DynRoundExtension<Id, P>> = extension.clone_boxed();''','''    let mut extensions = extensions;
    if let Some(extension) = extensions.remove(&round.as_typed()?.type_id()) {''')]
DEMO='''mod common;
use common::*;
use manul::dev::{ExtendableEntryPoint, RoundExtension};

#[derive(Debug, Clone)]
struct Ext;
impl RoundExtension<Vk> for Ext {
    type Round = Full;
    fn make_normal_broadcast(&self, _rng: &mut impl CryptoRngCore, round: &Full) -> Result<Val, LocalError> {
        Ok(Val { val: 7_000_000 + round.round as u64, bad: OK })
    }
}

fn main() {
    let mut net = Net::<Demo>::new(b"s12");
    net.add(0, ExtendableEntryPoint::new(inputs(2, 0, 3)).with_extension(Ext));
    net.add(1, ExtendableEntryPoint::new(inputs(2, 1, 3)));
    net.settle().unwrap();
    let SessionOutcome::Result(log) = &net.stop(1).outcome else { panic!("no result") };
    check(log[&1][&Vk(0)][2] == 7_000_001, "extended in round 1");
    check(log[&2][&Vk(0)][1] == 60_000, "not extended in round 2");
    check(log[&3][&Vk(0)][2] == 7_000_003, "extended in round 3");
}
'''
