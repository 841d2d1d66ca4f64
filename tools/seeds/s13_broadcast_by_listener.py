PROP='P21'
NEEDS='A round in which a party sends messages with a normal broadcast, but does not expect any messages.'
BREAKS='The normal broadcasts of the parties that do not expect messages in that round are not sent.'
EDITS=[('manul/src/session/session.rs','''        let normal = if communication_info.message_destinations.is_empty() {
            NormalBroadcast::none()''','''        let normal = if communication_info.message_destinations.is_empty()
            || communication_info.expecting_messages_from.is_empty()
        {
            NormalBroadcast::none()''')]
DEMO='''mod common;
use common::*;
use std::sync::Arc;

fn main() {
    // v0 only sends in round 2, v1 only receives
    let mut a = inputs(2, 0, 2);
    let base = a.comm.clone();
    a.comm = Arc::new(move |r| {
        let mut c = base(r);
        if r == 2 { c.expecting_messages_from.clear(); }
        c
    });
    let mut b = inputs(2, 1, 2);
    let base = b.comm.clone();
    b.comm = Arc::new(move |r| {
        let mut c = base(r);
        if r == 2 { c.message_destinations.clear(); }
        c
    });
    let mut net = Net::<Demo>::new(b"s13");
    net.add(0, a);
    net.add(1, b);
    net.settle().unwrap();
    let r = net.stop(1);
    check(r.provable_errors.is_empty(), "v0 is not blamed");
    let SessionOutcome::Result(log) = &r.outcome else { check(false, "finished"); return };
    check(log[&2][&Vk(0)].len() == 2, "both parts came");
}
'''
