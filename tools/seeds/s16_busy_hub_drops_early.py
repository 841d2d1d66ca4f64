PROP='P15'
NEEDS='More messages received in advance for a round than the internal channel of the parallel driver holds, while the driver is blocked on the full channel of the outgoing messages.'
BREAKS='Processed messages that do not fit into the internal channel are dropped, and the session never gets to the end of the round.'
EDITS=[('manul/src/session/tokio.rs','''                let processed = session.process_message(preprocessed);
                processed_tx
                    .blocking_send(processed)
                    .map_err(|_err| LocalError::new("Failed to send a processed message"))
            });''','''                let processed = session.process_message(preprocessed);
                // The round has just started, so the channel is still empty, no need to block the thread.
                processed_tx
                    .try_send(processed)
                    .map_err(|_err| LocalError::new("Failed to send a processed message"))
            });''')]
DEMO='''mod common;
use common::*;
use manul::session::tokio::{par_run_session, MessageIn};
use std::time::Duration;
use tokio::sync::mpsc;

const N: u8 = 180;

fn member(me: u8) -> Inputs {
    let mut i = inputs(N, me, 2);
    i.comm = Arc::new(move |_| {
        let spokes: BTreeSet<Vk> = (1..N).map(Vk).collect();
        CommunicationInfo {
            message_destinations: if me == 0 { spokes.clone() } else { [Vk(0)].into() },
            expecting_messages_from: if me == 0 { spokes } else { [].into() },
            echo_round_participation: EchoRoundParticipation::Send,
        }
    });
    i
}

fn main() {
    let mut n = Net::<Demo>::new(b"s16");
    for i in 1..N { n.add(i, member(i)); }
    for i in 0..(N - 1) as usize { n.advance(i).unwrap(); }
    let mut said: Vec<_> = n.mail.drain(..).map(|l| (l.round, Vk(l.from as u8 + 1), l.message)).collect();
    check(said.len() == 2 * (N as usize - 1), "two messages of every spoke");
    // All messages of the second round come before the last one of the first round
    let i = said.iter().position(|(r, ..)| r == "Round 1").unwrap();
    let last = said.remove(i);
    said.sort_by(|a, b| a.0.cmp(&b.0));
    said.push(last);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let got = rt.block_on(async {
        let (tx, mut sent) = mpsc::channel(1);
        let (to_me, mut rx) = mpsc::channel(1000);
        for (_, from, message) in said { to_me.send(MessageIn { from, message }).await.unwrap(); }
        let mut rng = ChaCha20Rng::seed_from_u64(1);
        let s = S::<Demo>::new(&mut rng, n.sid.clone(), Sk(0), member(0)).unwrap();
        tokio::spawn(async move {
            // The network is slow to take the messages of the second round
            for _ in 1..N { sent.recv().await; }
            tokio::time::sleep(Duration::from_secs(3)).await;
            while sent.recv().await.is_some() {}
        });
        let cancellation = tokio_util::sync::CancellationToken::new();
        let run = par_run_session(&mut rng, &tx, &mut rx, cancellation, s);
        match tokio::time::timeout(Duration::from_secs(30), run).await {
            Err(_) => "stuck".to_string(),
            Ok(Err(e)) => format!("failed: {e:?}"),
            Ok(Ok(r)) => if matches!(r.outcome, SessionOutcome::Result(_)) { "result".into() } else { outcome(&r) },
        }
    });
    println!("{got}");
    check(got == "result", "the hub gets to the result");
    rt.shutdown_background();
}
'''
