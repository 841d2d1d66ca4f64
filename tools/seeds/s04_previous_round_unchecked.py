PROP='P07'
NEEDS='A fabricated evidence where a genuine message of an honest party is passed off for its message from another round.'
BREAKS='The round of the attached earlier messages is not compared with the round they are filed under, so an evidence made of the genuine messages of an honest party, filed under wrong rounds, verifies.'
EDITS=[('manul/src/session/evidence.rs','''        let metadata = verified.metadata();
        if metadata.session_id() != expected_session_id || metadata.round_id() != round_id {''','''        if verified.metadata().session_id() != expected_session_id {''')]
DEMO='''mod common;
use common::*;

fn main() {
    // A real misbehaviour of v2, for the template of the evidence
    let mut net = Net::<Demo>::new(b"s04");
    for i in 0..2 { net.add(i, inputs(3, i, 2)); }
    net.add(2, inputs(3, 2, 2).saying(|r, p| (r == 2 && p == Part::Normal).then_some(Val { val: 30_200, bad: REPEATED })));
    net.settle().unwrap();
    let r = net.stop(0);
    let real = json(&r.provable_errors[&Vk(2)]);
    check(unjson::<Evidence<Demo, SP>>(&real).verify(&()).is_ok(), "real evidence verifies");

    // An honest run
    let mut net = Net::<Demo>::new(b"s04 honest");
    for i in 0..3 { net.add(i, inputs(3, i, 2)); }
    let mut second = None;
    while second.is_none() {
        for i in 0..3 { net.step(i).unwrap(); }
        let l = net.mail.remove(0);
        if l.from == 2 && l.round == "Round 2" { second = Some(l.message.clone()); }
        let from = net.vks[l.from];
        net.give(l.to.0 as usize, from, l.message).unwrap();
    }
    let part = json(&second.unwrap())["normal_broadcast"].clone();
    let mut fake = real.clone();
    let e = fake["evidence"]["Protocol"].as_object_mut().unwrap();
    check(e.contains_key("normal_broadcast"), "as expected");
    e["normal_broadcast"] = part.clone();
    let prev = &mut e["normal_broadcasts"];
    fn put(v: &mut Value, part: &Value) -> usize {
        match v {
            Value::Object(o) if o.contains_key("signature") => { *v = part.clone(); 1 }
            Value::Object(o) => o.values_mut().map(|v| put(v, part)).sum(),
            Value::Array(a) => a.iter_mut().map(|v| put(v, part)).sum(),
            _ => 0,
        }
    }
    check(put(prev, &part) == 1, "as expected");
    check(unjson::<Evidence<Demo, SP>>(&fake).verify(&()).is_err(), "the honest v2 cannot be framed");
}
'''
