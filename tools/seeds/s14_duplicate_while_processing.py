PROP='P10'
NEEDS='A second message of the same party arrives while its first one is still being processed (it was accepted, but the result is not added yet).'
BREAKS='Both messages are accepted, and adding the result of the second one fails with a local error.'
EDITS=[('manul/src/session/session.rs','''            if accum.message_is_being_processed(from) {''','''            if accum.message_is_processed(from) {'''),
('manul/src/session/session.rs','''    fn message_is_being_processed(&self, from: &SP::Verifier) -> bool {
        self.processing.contains(from)
    }''','''    fn message_is_processed(&self, from: &SP::Verifier) -> bool {
        self.processing.contains(from) && !self.still_have_not_sent_messages.contains(from)
    }'''),
('manul/src/session/session.rs','''        if !self.processing.insert(message.from().clone()) {
            Err(LocalError::new(format!(''','''        self.processing.insert(message.from().clone());
        if !self.still_have_not_sent_messages.contains(message.from()) {
            Err(LocalError::new(format!(''')]
DEMO='''mod common;
use common::*;

fn main() {
    let mut net = Net::<Demo>::new(b"s14");
    for i in 0..2 { net.add(i, inputs(2, i, 1)); }
    let m = net.take1(1, 0, "Round 1");
    let (s, acc) = net.nodes[0].state.as_mut().unwrap();
    let first = s.preprocess_message(acc, &Vk(1), m.clone()).unwrap();
    let second = s.preprocess_message(acc, &Vk(1), m).unwrap();
    check(matches!(first, PreprocessOutcome::ToProcess(_)), "the first one is accepted");
    check(!matches!(second, PreprocessOutcome::ToProcess(_)), "the second one is not");
}
'''
