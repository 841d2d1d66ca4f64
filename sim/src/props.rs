//! The properties and how each of them is explored.

use crate::stats::RunStats;

pub struct Prop {
    pub id: &'static str,
    /// (weight, scenario); the kit `*` stands for all of them in turn.
    pub mix: &'static [(u64, &'static str)],
    pub quick: u64,
    pub thorough: u64,
    /// A run is non-trivial if one of the counters is positive.
    pub counters: &'static [&'static str],
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Whether an operation that never returns breaks the property.
    pub hang_counts: bool,
}

const REAL: &[&str] = &[
    "manul::session (sessions, echo rounds, transcripts, messages, evidence)",
    "manul::protocol (rounds, type-erased rounds, errors, evidence)",
    "manul::combinators (in chained scenarios)",
];
const STUBS: &[&str] = &[
    "network: queue of messages in flight, order and faults decided by the seed",
    "signature scheme: keyed hash with a random nonce",
    "protocol: generated rounds with a computed result",
    "misbehaving parties: real sessions whose outgoing messages are replaced, re-signed with their own key",
];
const ASSUME: &[&str] = &[
    "the signature scheme is unforgeable and the hash collision free",
    "protocols stay within the library's contract: no party can get more than one round (with its echo round) ahead of a party it sends to",
    "the transport authenticates the sender of each message, except where spoofing is injected",
];

const KITS: [&str; 6] = ["mix-bin", "mix-json", "ch2-bin", "mix-bin", "ch3l", "ch3r"];
const CHAINS: [&str; 4] = ["ch2-bin", "ch3l", "ch2-json", "ch3r"];

impl Prop {
    pub fn scenario(&self, i: u64) -> String {
        let total: u64 = self.mix.iter().map(|m| m.0).sum();
        let mut x = i % total;
        let round = i / total;
        for (w, s) in self.mix {
            if x < *w {
                let k = round + x;
                // Now and then a chain of chains of chains...
                if k % 24 == 13 && s.starts_with("sync/") {
                    return s.replace(['*', '+'], "deep");
                }
                return s
                    .replace('*', KITS[(k % 6) as usize])
                    .replace('+', CHAINS[(k % 4) as usize]);
            }
            x -= w;
        }
        unreachable!()
    }

    pub fn nontrivial(&self, s: &RunStats) -> bool {
        self.counters.iter().any(|c| s.get(c) > 0)
    }
}

macro_rules! prop {
    ($id:expr, $mix:expr, $quick:expr, $thorough:expr, $counters:expr, $rule:expr) => {
        Prop {
            id: $id,
            mix: $mix,
            quick: $quick,
            thorough: $thorough,
            counters: $counters,
            rule: $rule,
            real: REAL,
            stubs: STUBS,
            assumptions: ASSUME,
            hang_counts: true,
        }
    };
}

const AREAL: &[&str] = &[
    "manul::session::tokio (run_session, par_run_session)",
    "manul::session, manul::protocol, manul::combinators below them",
    "tokio channels, timers and select!, tokio-util cancellation tokens",
];
const ASTUBS: &[&str] = &[
    "tokio's scheduler: the next task and the first branch of select! are chosen by the seed",
    "blocking thread pool: coroutines which start, are preempted and resumed as the seed decides",
    "clock: virtual",
    "network: a simulated router between the channels",
    "signature scheme: keyed hash with a random nonce",
    "protocol: generated rounds with a computed result",
];
const AASSUME: &[&str] = &[
    "workers interact with the driver only through channels, join handles and the shared immutable session, so preempting them at channel operations and protocol callbacks is enough",
    "the session itself is right (that is what the other properties are about)",
];

macro_rules! aprop {
    ($id:expr, $mix:expr, $quick:expr, $thorough:expr, $counters:expr, $rule:expr) => {
        Prop {
            id: $id,
            mix: $mix,
            quick: $quick,
            thorough: $thorough,
            counters: $counters,
            rule: $rule,
            real: AREAL,
            stubs: ASTUBS,
            assumptions: AASSUME,
            hang_counts: true,
        }
    };
}

const XREAL: &[&str] = &[
    "manul::dev (extensions, misbehaviour checker, run_sync for the latter)",
    "manul::session, manul::protocol, manul::combinators below them",
];
const XSTUBS: &[&str] = &[
    "network: queue of messages in flight, order and faults decided by the seed",
    "signature scheme: keyed hash with a random nonce",
    "protocol: generated rounds with a computed result",
    "extensions: generic ones for all generated rounds, changing operations as the seed decides",
];

pub const PROPS: &[Prop] = &[
    prop!("P01", &[(3, "sync/plain/*")], 40000, 4000000, &["plain_runs"], "a fault-free run in which every result was compared with the model"),
    prop!("P02", &[(3, "sync/plain/*"), (1, "sync/mixed/*")], 40000, 4000000, &["early_messages"], "at least one message arrived before its round"),
    prop!("P03", &[(4, "sync/equiv/*"), (1, "sync/byz/*")], 80000, 4000000, &["agreement_checks"], "two honest parties went past a common echo round"),
    prop!("P04", &[(4, "sync/equiv/*"), (1, "sync/byz/*")], 80000, 4000000, &["equivocation_seen"], "an honest party saw two versions"),
    prop!("P05", &[(2, "sync/byz/*"), (1, "sync/mixed/*"), (1, "sync/plain/*"), (1, "sync/equiv/*")], 80000, 4000000, &["messages_sent"], "messages were exchanged"),
    prop!("P06", &[(3, "sync/byz/*"), (2, "sync/equiv/*")], 80000, 4000000, &["evidence_checked"], "at least one piece of evidence was produced"),
    prop!("P07", &[(1, "sync/fab/*")], 24000, 1600000, &["fabrications_verified"], "at least one fabricated evidence could be read and was judged"),
    prop!("P08", &[(3, "sync/byz/*"), (3, "sync/transport/*"), (2, "sync/mixed/*")], 80000, 4000000, &["delivered"], "messages were delivered"),
    prop!("P09", &[(3, "sync/transport/*"), (2, "sync/byz/*"), (1, "sync/mixed/*")], 80000, 4000000, &["fault_corrupt", "fault_replay", "fault_spoof", "byz_metadata", "byz_signature"], "a corrupted, spoofed, replayed or mislabelled message was injected"),
    prop!("P10", &[(2, "sync/transport/*"), (2, "sync/byz/*"), (1, "sync/mixed/*")], 80000, 4000000, &["fault_duplicate", "byz_double", "fault_replay"], "a repeated message was injected"),
    prop!("P11", &[(3, "sync/byz/*"), (2, "sync/mixed/*"), (1, "sync/equiv/*")], 80000, 4000000, &["delivered_from_excluded"], "an excluded party went on sending"),
    prop!("P12", &[(3, "sync/byz/*"), (2, "sync/weather/*"), (2, "sync/mixed/*"), (1, "sync/plain/*")], 80000, 4000000, &["delivered"], "messages were delivered"),
    prop!("P13", &[(2, "sync/terminate/*"), (2, "sync/byz/*"), (1, "sync/weather/*")], 80000, 4000000, &["outcome_not_enough", "outcome_terminated"], "a session ended without a result"),
    aprop!("P14", &[(8, "async/plain/seq/*"), (8, "async/weather/seq/*"), (8, "async/byz/seq/*"), (1, "async/star/seq/mix-bin"), (1, "async/star/seq/ch2-json")], 12000, 2000000, &["reports_compared"], "a report of the sequential driver was compared with what the session itself makes of the same messages"),
    aprop!("P15", &[(10, "async/plain/par/*"), (6, "async/weather/par/*"), (8, "async/byz/par/*"), (1, "async/star/par/mix-bin"), (1, "async/star/par/ch2-json")], 10000, 2000000, &["workers_started"], "workers were started"),
    aprop!("P16", &[(1, "async/cancel/seq/*"), (2, "async/cancel/par/*")], 24000, 2000000, &["cancelled_returned"], "a driver was cancelled while it was running"),
    Prop {
        id: "P17",
        mix: &[
            (12, "async/plain/par/*"),
            (6, "async/weather/mixed/*"),
            (4, "async/plain/seq/*"),
            (4, "async/byz/mixed/*"),
            (1, "async/star/par/mix-bin"),
            (1, "async/star/par/ch2-json"),
            (4, "runner/plain/async/*"),
            (4, "runner/plain/par/*"),
            (2, "runner/plain/sync/*"),
            (3, "sync/plain/*"),
            (3, "sync/byz/*"),
        ],
        quick: 12000,
        thorough: 2000000,
        counters: &["random_values", "random_draws_compared"],
        rule: "random values were drawn and compared",
        real: &[
            "manul::session::tokio (run_session, par_run_session)",
            "manul::dev (run_sync, run_async)",
            "manul::session, manul::protocol, manul::combinators below them",
            "tokio channels, timers and select!, tokio-util cancellation tokens",
        ],
        stubs: ASTUBS,
        assumptions: AASSUME,
        hang_counts: true,
    },
    prop!("P18", &[(2, "sync/plain/+"), (2, "sync/byz/+"), (1, "sync/mixed/+")], 40000, 4000000, &["entered_later_segment"], "a party got into the second part of a chain"),
    Prop {
        id: "P19",
        mix: &[(1, "extend/*")],
        quick: 80000,
        thorough: 4000000,
        counters: &["overridden_calls"],
        rule: "methods of extensions were called",
        real: XREAL,
        stubs: XSTUBS,
        assumptions: &[
            "the session behaves the same when it is given the same things (property P22)",
            "chains are extended part by part; the library does not extend a chain as a whole",
        ],
        hang_counts: true,
    },
    Prop {
        id: "P23",
        mix: &[(1, "checker/bin"), (1, "checker/json")],
        quick: 80000,
        thorough: 4000000,
        counters: &["verdicts"],
        rule: "a verdict of the checker was compared with the reports of the same execution",
        real: XREAL,
        stubs: XSTUBS,
        assumptions: &["the synchronous runner does the same when it is given the same randomness (properties P20 and P22)"],
        hang_counts: true,
    },
    Prop {
        id: "P20",
        mix: &[
            (2, "runner/plain/sync/*"),
            (2, "runner/byz/sync/*"),
            (2, "runner/plain/async/*"),
            (2, "runner/byz/async/*"),
            (2, "runner/plain/par/*"),
            (2, "runner/byz/par/*"),
            (2, "runner/stray/sync/*"),
            (1, "runner/stray/async/*"),
            (1, "runner/stray/par/*"),
        ],
        quick: 80000,
        thorough: 2000000,
        counters: &["finished_runs"],
        rule: "a run of a runner which came to an end",
        real: &[
            "manul::dev (run_sync, run_async with its message dispatcher)",
            "manul::session::tokio (run_session, par_run_session), manul::session, manul::protocol, manul::combinators below them",
            "tokio channels, timers and select!",
        ],
        stubs: &[
            "tokio's scheduler: the next task and the first branch of select! are chosen by the seed",
            "blocking thread pool: coroutines which start, are preempted and resumed as the seed decides",
            "clock: virtual",
            "signature scheme: keyed hash with a random nonce",
            "protocol: generated rounds with a computed result; misbehaving parties spoil what they send from inside their rounds",
        ],
        assumptions: AASSUME,
        hang_counts: true,
    },
    prop!("P30", &[(1, "sync/wire/*")], 40000, 4000000, &["wire_json", "wire_json_stream", "wire_binary"], "messages were carried as bytes"),
    prop!("P31", &[(1, "sync/seeds/*")], 60000, 2000000, &["fault_replay"], "messages of the other session or of the past were injected"),
    prop!("P21", &[(2, "sync/plain/*"), (1, "sync/byz/*"), (1, "sync/weather/*")], 40000, 4000000, &["messages_sent"], "messages were sent"),
    prop!("P22", &[(1, "sync/record/*")], 50000, 2000000, &["executions_repeated"], "a recorded party was executed again"),
];
