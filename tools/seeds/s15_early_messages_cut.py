PROP='P14'
NEEDS='A round in which the party sends fewer messages than it receives, and the messages of the others for that round arriving before the party enters it.'
BREAKS='The sequential driver applies only as many of the messages received in advance as the party has destinations in the round; the others are lost and the session waits for them forever.'
EDITS=[('manul/src/session/tokio.rs','''        for preprocessed in cached_messages {
            // In production usage, this would happen in a spawned task and relayed back to the main task.''','''        // There is at most one message from every other party of the round
        for preprocessed in cached_messages.into_iter().take(destinations.len()) {
            // In production usage, this would happen in a spawned task and relayed back to the main task.''')]
DEMO='''mod common;
use common::*;
use manul::session::tokio::{run_session, MessageIn};
use tokio::sync::mpsc;

fn listener(me: u8) -> Inputs {
    let mut i = inputs(3, me, 2);
    i.comm = Arc::new(move |r| {
        let mut info = CommunicationInfo::regular(&(0..3).filter(|j| *j != me).map(Vk).collect());
        if r == 2 {
            // The first party only listens in the second round
            if me == 0 { info.message_destinations = BTreeSet::new() } else { info.expecting_messages_from.remove(&Vk(0)); }
        }
        info
    });
    i
}

fn main() {
    // Find out what the others say
    let mut n = Net::<Demo>::new(b"s15");
    for i in 0..3 { n.add(i, listener(i)); }
    let mut said = Vec::new();
    while n.nodes.iter().any(|x| x.state.is_some()) {
        for i in 0..3 { n.step(i).unwrap(); }
        if n.mail.is_empty() { continue }
        let l = n.mail.remove(0);
        if l.to == Vk(0) { said.push((l.round.clone(), n.vks[l.from], l.message.clone())); }
        n.give(l.to.0 as usize, n.vks[l.from], l.message).unwrap();
    }
    let expected = outcome(n.nodes[0].report.as_ref().unwrap());
    check(said.len() == 6, "six messages");
    for early in [false, true] {
        let mut queue = said.clone();
        if early {
            // The messages of the second round overtake the echos
            queue.sort_by_key(|(r, ..)| match r.as_str() { "Round 1" => 0, "Round 2" => 1, _ => 2 });
        }
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let got = rt.block_on(async {
            let (tx, mut sent) = mpsc::channel(100);
            let (to_me, mut rx) = mpsc::channel(100);
            for (_, from, message) in queue { to_me.send(MessageIn { from, message }).await.unwrap(); }
            let mut rng = ChaCha20Rng::seed_from_u64(1);
            let s = S::<Demo>::new(&mut rng, n.sid.clone(), Sk(0), listener(0)).unwrap();
            tokio::spawn(async move { while sent.recv().await.is_some() {} });
            let cancellation = tokio_util::sync::CancellationToken::new();
            let run = run_session(&mut rng, &tx, &mut rx, cancellation, s);
            tokio::time::timeout(std::time::Duration::from_secs(10), run).await.map(|r| outcome(&r.unwrap()))
        });
        check(got.as_ref() == Ok(&expected), if early { "the result is the same when messages come early" } else { "the result is the same" });
    }
}
'''
