PROP='P16'
NEEDS='Cancelling the parallel driver in a round in which at least one message has already been received, with no more messages coming.'
BREAKS='The driver does not listen to the cancellation any more after the first message of the round has been passed to a worker, so it may never return.'
EDITS=[('manul/src/session/tokio.rs','''                _ = cancellation.cancelled() => {
                    break RoundCompletion::Cancelled;
                }
            }
        };
''','''                // Do not abandon the messages that are still being processed.
                _ = cancellation.cancelled(), if message_processing_tasks.is_empty() => {
                    break RoundCompletion::Cancelled;
                }
            }
        };
''')]
DEMO='''mod common;
use common::*;
use manul::session::tokio::{par_run_session, MessageIn};
use std::time::Duration;
use tokio::sync::mpsc;

fn main() {
    for received in [0, 1] {
        let mut n = Net::<Demo>::new(b"s18");
        for i in 0..3 { n.add(i, inputs(3, i, 2)); }
        let m = n.take1(1, 0, "Round 1");
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
        let got = rt.block_on(async {
            let (tx, mut sent) = mpsc::channel(100);
            let (to_me, mut rx) = mpsc::channel(100);
            let mut rng = ChaCha20Rng::seed_from_u64(1);
            let s = S::<Demo>::new(&mut rng, n.sid.clone(), Sk(0), inputs(3, 0, 2)).unwrap();
            let cancellation = tokio_util::sync::CancellationToken::new();
            let c = cancellation.clone();
            let other_end = to_me.clone();
            tokio::spawn(async move {
                if received == 1 { to_me.send(MessageIn { from: Vk(1), message: m }).await.unwrap(); }
                for _ in 0..2 { sent.recv().await; }
                tokio::time::sleep(Duration::from_secs(1)).await;
                c.cancel();
                while sent.recv().await.is_some() {}
            });
            let run = par_run_session(&mut rng, &tx, &mut rx, cancellation, s);
            let got = match tokio::time::timeout(Duration::from_secs(15), run).await {
                Err(_) => "stuck".to_string(),
                Ok(r) => outcome(&r.unwrap()),
            };
            drop(other_end);
            got
        });
        check(got == "Terminated", "returns when cancelled");
        rt.shutdown_background();
    }
}
'''
