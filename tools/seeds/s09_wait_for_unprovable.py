PROP='P12'
NEEDS='A message which is refused by the round with an unprovable error.'
BREAKS='The sender of a message refused with an unprovable error is still waited for, although nothing more will be accepted from it: the session waits forever instead of finding out that it can never finalize.'
EDITS=[('manul/src/session/session.rs','''        if !self.still_have_not_sent_messages.remove(&from) {''','''        // The sender may still come up with a better message.
        let is_final = !matches!(processed.processed, Err(BoxedReceiveError::Unprovable(_)));
        let was_expected = if is_final {
            self.still_have_not_sent_messages.remove(&from)
        } else {
            self.still_have_not_sent_messages.contains(&from)
        };
        if !was_expected {''')]
DEMO='''mod common;
use common::*;

fn main() {
    let mut net = Net::<Demo>::new(b"s09");
    net.add(0, inputs(2, 0, 2));
    net.add(1, inputs(2, 1, 2).saying(|_, p| (p == Part::Normal).then_some(Val { val: 1, bad: UNPROVABLE })));
    let m = net.take1(1, 0, "Round 1");
    net.give(0, Vk(1), m.clone()).unwrap();
    check(net.give(0, Vk(1), m).unwrap() == "refused", "nothing more is accepted from v1");
    check(net.can(0) == Some(CanFinalize::Never), "and it is not waited for");
}
'''
