PROP='P17'
NEEDS='More than 64 destinations in one round of the parallel driver.'
BREAKS='The worker tasks use the streams of one generator, numbered modulo 64, so that the messages for the 1st and the 65th destinations are made from the same randomness.'
EDITS=[('manul/src/session/tokio.rs','''        let mut message_creation_tasks = Vec::new();
''','''        // Seeding is relatively expensive, so it is done once per round, and the tasks use different streams.
        let round_rng = ChaCha20Rng::from_rng(&mut *rng).map_err(|_| LocalError::new("Can't fork the RNG"))?;
        let mut message_creation_tasks = Vec::new();
'''),('manul/src/session/tokio.rs','''            let mut task_rng = ChaCha20Rng::from_rng(&mut *rng).map_err(|_| LocalError::new("Can't fork the RNG"))?;
            let message_creation =''','''            let mut task_rng = round_rng.clone();
            task_rng.set_stream(message_creation_tasks.len() as u64 & 0x3f);
            let message_creation =''')]
DEMO='''mod common;
use common::*;
use manul::session::tokio::par_run_session;
use tokio::sync::mpsc;

#[derive(Debug)]
struct P;
impl Protocol<Vk> for P {
    type Result = Vec<u64>;
    type SharedData = ();
    fn round_info(id: &RoundId) -> Option<RoundInfo<Vk, Self>> {
        (id == 1).then(RoundInfo::new::<R>)
    }
}
#[derive(Debug)]
struct R(BTreeSet<Vk>);
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Never;
impl Round<Vk> for R {
    type Protocol = P;
    type ProtocolError = NoProtocolErrors<Self>;
    type DirectMessage = u64;
    type NormalBroadcast = NoMessage;
    type EchoBroadcast = NoMessage;
    type Payload = ();
    type Artifact = u64;
    fn transition_info(&self) -> TransitionInfo {
        TransitionInfo::new_linear_terminating(1)
    }
    fn communication_info(&self) -> CommunicationInfo<Vk> {
        CommunicationInfo {
            message_destinations: self.0.clone(),
            expecting_messages_from: BTreeSet::from([Vk(1)]),
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
    fn make_direct_message(&self, rng: &mut impl CryptoRngCore, _d: &Vk) -> Result<(u64, u64), LocalError> {
        let x = rng.next_u64();
        Ok((x, x))
    }
    fn receive_message(&self, _from: &Vk, _m: ProtocolMessage<Vk, Self>) -> Result<(), ReceiveError<Vk, Self>> {
        Ok(())
    }
    fn finalize(
        self,
        _rng: &mut impl CryptoRngCore,
        _payloads: BTreeMap<Vk, ()>,
        artifacts: BTreeMap<Vk, u64>,
    ) -> Result<FinalizeOutcome<Vk, P>, LocalError> {
        Ok(FinalizeOutcome::Result(artifacts.into_values().collect()))
    }
}
struct E(BTreeSet<Vk>);
impl EntryPoint<Vk> for E {
    type Protocol = P;
    fn entry_round_id() -> RoundId {
        1.into()
    }
    fn make_round(self, _rng: &mut impl CryptoRngCore, _r: &[u8], _id: &Vk) -> Result<BoxedRound<Vk, P>, LocalError> {
        Ok(BoxedRound::new(R(self.0)))
    }
}

fn main() {
    for n in [10u8, 150] {
        let mut net = Net::<P>::new(b"s17");
        net.add(1, E([Vk(0)].into()));
        let reply = net.take1(0, 0, "Round 1");
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
        let values = rt.block_on(async {
            let (tx, _sent) = mpsc::channel(1000);
            let (to_me, mut rx) = mpsc::channel(10);
            let mut rng = ChaCha20Rng::seed_from_u64(1);
            let s = S::<P>::new(&mut rng, net.sid.clone(), Sk(0), E((1..=n).map(Vk).collect())).unwrap();
            let cancellation = tokio_util::sync::CancellationToken::new();
            tokio::spawn(async move {
                // Answer when all is sent
                let mut sent = _sent;
                for _ in 0..n { sent.recv().await; }
                tokio::time::sleep(std::time::Duration::from_millis(200)).await;
                let _ = to_me.send(manul::session::tokio::MessageIn { from: Vk(1), message: reply }).await;
                while sent.recv().await.is_some() {}
            });
            let report = par_run_session(&mut rng, &tx, &mut rx, cancellation, s).await.unwrap();
            match report.outcome { SessionOutcome::Result(v) => v, _ => vec![] }
        });
        let distinct: BTreeSet<u64> = values.iter().copied().collect();
        check(values.len() == n as usize, "a message for every destination");
        check(distinct.len() == values.len(), "no two messages are made from the same randomness");
    }
}
'''
