#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "manul/src/session/session.rs"
E = "manul/src/session/echo.rs"
V = "manul/src/session/evidence.rs"
M = "manul/src/session/message.rs"
T = "manul/src/session/transcript.rs"
K = "manul/src/session/tokio.rs"
R = "manul/src/protocol/round_id.rs"
D = "manul/src/protocol/dyn_round.rs"
C = "manul/src/combinators/chain.rs"
MB = "manul/src/dev/misbehave.rs"
X = "manul/src/dev/extend.rs"
RS = "manul/src/dev/run_sync.rs"
RA = "manul/src/dev/tokio.rs"
PE = "manul/src/protocol/evidence.rs"

props = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    props.append(d)

p("P01", "Every fault-free session yields the protocol's result, whatever the schedule",
  "If every party follows the protocol and every message is eventually delivered once, every party's session ends with a result, with no errors and no missing messages in its report. That result is the one the protocol defines from the parties' inputs: each round is finalized with exactly the payload of every message it expected, from the right sender, and the artifact of every message it sent, whatever the order in which messages were delivered and processed.",
  ["schedules", "configurations"],
  "all interleavings of message creation, delivery, processing and finalization; all protocol shapes (message parts present per round, communication topology, echo participation, branching, wire format)",
  "The tests run two or three fixed protocols with 2-5 parties under one random delivery order each, in which senders stay in FIFO order; the claim is over every interleaving and every protocol shape.",
  [S, D, E, R], [("session state machine", S + " preprocess_message/process_message/add_processed_message/finalize_round"), ("payload and artifact type erasure", D), ("round transition information", R + " TransitionInfo")],
  ["SessionReport.outcome", "values handed to Round::finalize"],
  [("RoundAccumulator", "messages, payloads, artifacts and errors of the current round", S)])

p("P02", "A message that arrives before its round is kept and used when the round starts",
  "A valid message for a round that the receiver has not reached yet, but that a faster peer may legitimately be in already, is never lost: when the receiver enters that round, the message counts as received, exactly once. This holds when echo rounds lie in between, when peers take part in echo rounds differently or not at all, and when parties run ahead or lag behind for as long as the protocol lets them.",
  ["schedules", "configurations"],
  "all delivery orders in which peers run ahead of the receiver, over all echo participation patterns and round graphs",
  "The existing runner keeps each sender's messages in order and the one test with partial echo participation has a single round, so a peer that skips the echo round and runs ahead is never met.",
  [S, E, R], [("caching of messages for simultaneous rounds", S + " preprocess_message/cache_message"), ("handing cached messages to the next round", S + " finalize_round, make_accumulator"), ("simultaneous rounds", R + " simultaneous_rounds")],
  ["PreprocessOutcome::Cached", "RoundOutcome::AnotherRound.cached_messages", "whether the next round can be finalized"],
  [("cached", "verified messages for rounds not reached yet", S)])

p("P03", "No two honest parties go past an echo round with different broadcasts",
  "If two honest parties exchange echo messages for a round and both go past the echo round, they hold the same echo broadcast, byte for byte, from every sender whose broadcast both received. No misbehaviour of the senders or of other participants (equivocation, lies in the echo round, silence, replays of older signed data) can break this.",
  ["fault_sequences", "schedules", "configurations"],
  "all sets of misbehaving parties, all content sent by them to different peers, all delivery orders",
  "The tests contain no equivocating party at all; no test ever reaches the comparison of an echoed hash with a differing broadcast.",
  [E, S, M], [("echo round comparison", E + " EchoRound::receive_message"), ("completeness of the echo pack", E + " expected_echos"), ("signed hash of a broadcast", M + " SignedMessageHash")],
  ["echo broadcasts seen by Round::receive_message of parties whose session leaves the echo round"])

p("P04", "An equivocating broadcaster is itself convicted by whoever sees both versions",
  "When an honest party receives, during an echo round, a validly signed echo of some sender's broadcast that differs from what that sender had sent it, the report names that sender, with evidence that convinces a third party. If a relayed message shows the equivocation of several senders, at least one of them is named. The party that relayed the conflicting echo is not blamed for it, no matter how many parties relay it.",
  ["fault_sequences", "schedules", "configurations"],
  "all equivocation patterns (which honest party gets which version), all orders of delivery of echo messages, any number of relaying parties",
  "No test has an equivocating sender, so neither the attribution nor the repeated report of the same equivocation is ever executed.",
  [E, S, V, T], [("attribution of mismatched broadcasts", V + " new_echo_round_error"), ("registration of errors", S + " add_processed_message/register_provable_error")],
  ["SessionReport.provable_errors", "Evidence::guilty_party", "Evidence::verify"])

p("P05", "A party that follows the protocol is never blamed by an honest party",
  "As long as the transport delivers an honest party's messages unmodified and at most once, no honest party's report lists that honest party among provable or unprovable errors, whatever the other parties do and in whatever order messages arrive, including when peers are rounds ahead or behind or went down another branch. Every provable error is filed under the party its evidence names.",
  ["fault_sequences", "schedules", "configurations"],
  "all misbehaviour by any number of other parties, all delivery orders, losses and crashes",
  "The tests have one misbehaving party with one kind of fault and only look at that party's entry; attribution under several simultaneous faults and unusual orders is a claim over all of them.",
  [S, E, V, M], [("error registration", S), ("echo round attribution", E), ("domain separation of signed parts", M + " message_digest")],
  ["SessionReport.provable_errors keys", "SessionReport.unprovable_errors keys", "Evidence::guilty_party"])

p("P06", "Every recorded provable error convinces a third party from the evidence alone",
  "Each provable error in any report, after being serialized and read back by somebody who only has the shared public data of the protocol, verifies successfully against the party it names. This holds for every kind of offence: undecodable or unexpected message parts, protocol errors that need earlier messages or the combined echoes of earlier rounds, bad echoes and equivocation, also inside chained protocols.",
  ["fault_sequences", "schedules", "configurations"],
  "all offences that a signed message can commit, in every round, after every preceding history of the session, in both wire formats",
  "The tests check the evidence of three offences in one protocol, in memory and without serializing it; which earlier messages are available for evidence depends on the whole history of the session.",
  [V, PE, T, S, C], [("evidence construction", V + " new_provable_error and siblings"), ("evidence verification", V + " verify"), ("required messages", PE + " RequiredMessages"), ("transcript of earlier rounds", T)],
  ["Evidence::verify", "serde of Evidence"])

p("P07", "No fabricated or altered evidence verifies against a party that was honest",
  "Evidence that was altered in transit or made up by misbehaving parties, out of anything the honest parties ever signed (in this or other sessions and rounds) and anything the misbehaving parties can sign, never verifies against an honest party. Verification of arbitrary evidence always ends in success or an error and never panics.",
  ["fault_sequences", "inputs", "histories"],
  "all recombinations of signed material of simulated histories into evidence of each kind, and all corruptions of genuine evidence",
  "The tests only verify genuine evidence; that nothing else verifies is a claim over everything an adversary can put together from the histories of the sessions it saw.",
  [V, E, M, PE], [("evidence verification", V), ("echo error verification", E + " verify_evidence"), ("signed digests", M + " message_digest")],
  ["Evidence::verify"])

p("P08", "Nothing a remote party sends can abort or crash a local session",
  "No message, whoever it comes from (misbehaving participant, participant that is not expected to send in this round, stranger, or the party itself reflected), whatever its content, and in whatever order, makes a session operation fail with a local error or panic. Such messages at most lead to an error recorded against the party they came from, and the session goes on or ends with a report.",
  ["inputs", "fault_sequences", "schedules"],
  "all message contents and senders, at every point of every session, in any combination",
  "The tests send four hand-written bad messages to one protocol; the claim is over every message at every point of the session.",
  [S, E, T, V, D], [("preliminary checks", S + " preprocess_message"), ("accumulation of results and errors", S + " add_processed_message"), ("merging errors of a round", T + " update"), ("echo round processing", E)],
  ["Result of every session method", "panics"])

p("P09", "Only what the sender signed for this session and round is ever accepted",
  "A message is accepted for a round only if every part of it was signed by the party it is attributed to, for this session, for that round and for that kind of part; anything corrupted, spoofed, re-attributed, recombined from messages of different rounds or sessions, or replayed from another session, round or part is rejected and has no influence on the result. A rejected message never replaces or suppresses the effect of a genuine one that was already accepted.",
  ["fault_sequences", "inputs", "histories"],
  "all corruptions of messages in flight and all replays and recombinations of recorded traffic of several sessions",
  "Test signatures do not even depend on the signed content, so no existing test can notice that a corrupted or replayed message is accepted.",
  [M, S], [("metadata check", M + " unify_metadata"), ("signature check", M + " into_verified/message_digest"), ("session and round check", S + " preprocess_message")],
  ["PreprocessOutcome", "payloads reaching Round::finalize"])

p("P10", "Each party contributes at most one message per round",
  "However often messages are duplicated, re-sent or replaced by different signed versions, at most one message per party and round is processed, and it is the first acceptable one that arrived. Repetitions are answered with an error and change neither the payload nor the evidence obtained from the first one, also when the first one is still being processed. If the first one was received a round early and the repetition arrives while it is still kept, the sender counts as misbehaving (and what was kept from it is dropped).",
  ["fault_sequences", "schedules"],
  "all duplications at any distance, before, during and after processing of the original and across round boundaries",
  "No test ever delivers a message twice.",
  [S], [("processing markers", S + " mark_processing"), ("cache uniqueness", S + " cache_message/message_is_cached")],
  ["PreprocessOutcome", "payloads reaching Round::finalize", "calls to Round::receive_message"],
  [("processing", "parties whose message for this round is taken", S)])

p("P11", "A party caught misbehaving is excluded for the rest of the session",
  "Once a party has been recorded in a session as having misbehaved, no later message from it is processed, kept for later or used in any later round of that session, and the error first recorded stays in the report. This includes messages from it that were kept for later rounds before it was caught.",
  ["fault_sequences", "schedules"],
  "all positions of the offence relative to the offender's other messages, in the same or later rounds",
  "The tests stop at the first offence; messages of an offender that arrive before or after it in other orders are never explored.",
  [S, T], [("ban checks", S + " preprocess_message is_banned"), ("filter of cached messages", S + " finalize_round"), ("ban list across rounds", T + " is_banned")],
  ["PreprocessOutcome", "cached_messages", "calls to Round::receive_message", "SessionReport errors"])

p("P12", "A session never waits for messages that it would not accept",
  "Whenever a session says that it is still waiting, there is a party that it expects to hear from, that has not been excluded, and whose message for this round has not been dealt with. So once faults stop and all remaining messages are delivered, every session either finishes or waits only for parties that are really silent; and it declares failure only if an expected message can no longer come.",
  ["fault_sequences", "schedules"],
  "all combinations of losses, crashes and misbehaviour, at any round, followed by delivery of everything else",
  "No test keeps a session going after an error of a peer to see whether it still terminates; tests always end after a fixed protocol run.",
  [S, K], [("decision on finalization", S + " can_finalize"), ("driver loop", K)],
  ["CanFinalize", "termination of the driver"])

p("P13", "The final report tells what really happened",
  "The outcome is a result exactly if the last round was finalized, \"not enough messages\" exactly if the session was given up because too many peers failed, and \"terminated\" exactly if the user stopped it. Parties that were expected to send a message in the interrupted round and of whom nothing was received are listed as missing for that round, parties whose message was processed are not, and completed rounds list nobody. The short description of the report leaves nothing of this out.",
  ["fault_sequences", "crash_points", "schedules"],
  "termination at every point of every execution, with every pattern of silent, failed and honest peers",
  "No test looks at the missing messages or at the outcome of a session that did not finish.",
  [S, T], [("termination", S + " terminate/terminate_due_to_errors"), ("missing messages", T + " update")],
  ["SessionReport.outcome", "SessionReport.missing_messages"])

p("P14", "The sequential async driver runs a session faithfully under any scheduling",
  "Run as tasks connected by channels of any capacity, under any scheduling and delivery order, parties driven by the sequential asynchronous driver each send every message of every round exactly once to the right destination and end with the same result and report as the session itself defines. The driver neither loses messages nor gets stuck, including when peers fail or channels are full for long, and it fails only if its channels are closed.",
  ["schedules", "fault_sequences", "configurations"],
  "all task interleavings, channel capacities, delivery orders, peer faults and channel closures",
  "The existing test runs one protocol once on the real runtime; which interleavings occur is up to the machine.",
  [K], [("sequential driver", K + " run_session")],
  ["MessageOut stream", "SessionReport", "completion of the future"])

p("P15", "Offloading work to other threads changes nothing but speed",
  "The parallel driver, under any scheduling of its worker tasks, any number of destinations and any channel capacity, sends every message of every round exactly once, uses every artifact and every received message exactly once and ends with the same result as the sequential one. It never gets stuck, also when more messages are created or processed at once than its internal channels hold, and when workers finish in any order.",
  ["schedules", "configurations", "fault_sequences"],
  "all interleavings of the main task, the worker tasks and the network, at all numbers of parties including more than the internal queue capacity",
  "The existing test runs five parties once on real threads; the capacity limits and the races between workers and the main task are not reached.",
  [K], [("parallel driver", K + " par_run_session"), ("worker tasks and result channels", K)],
  ["MessageOut stream", "SessionReport", "completion of the future"])

p("P16", "Cancelling an async session promptly yields a truthful report",
  "Cancelling a driver at any moment makes it return within a bounded number of its own steps, whatever it and its workers are doing and however many messages are queued, with a report saying that the session was terminated by the user. That report contains all errors and messages accounted for up to then, and cancellation never turns into a local error, a deadlock or a leaked worker.",
  ["schedules", "crash_points", "configurations"],
  "cancellation at every step of both drivers, under all schedules, with empty, partly filled and full queues",
  "The cancellation argument is never triggered in any test.",
  [K, S], [("cancellation branch", K), ("joining of workers after cancellation", K + " par_run_session"), ("termination by the user", S + " terminate")],
  ["completion of the future", "SessionReport.outcome", "worker tasks alive after return"])

p("P17", "No two messages of a session are made from the same randomness",
  "All randomness given to the protocol and to the signer while creating messages in one session is fresh: across destinations, rounds, worker tasks and broadcasts, no two uses see the same random stream. This holds for the drivers that run message creation in parallel under every scheduling.",
  ["schedules", "configurations"],
  "all schedules, numbers of destinations and rounds, for the plain session API and both drivers",
  "No test looks at the random values that protocol code receives, and a repeated random state changes no test result.",
  [K, S], [("forking the generator for worker tasks", K + " par_run_session"), ("random generator passed to rounds and signer", S)],
  ["random values drawn in Round::make_* and in signing"])

p("P18", "Chained protocols behave as their parts run one after the other",
  "A chained protocol, nested to any depth, gives every party the result of running the first protocol to the end and the second one from its result, under every schedule, including when some parties are already in the second protocol while others are still in the first. Messages of one part are never taken for those of the other, and provable errors in any part produce evidence that verifies for the chained protocol as a whole.",
  ["schedules", "fault_sequences", "configurations"],
  "all schedules around the boundary between the parts, all nestings and protocol shapes, all offences in either part",
  "One test chains one protocol with itself without faults; no evidence from a chained protocol is ever verified.",
  [C, R], [("round of a chained protocol", C + " ChainedRound"), ("grouping of round identifiers", R + " group_under/split_group"), ("delegation of evidence verification", C + " RoundInfo1/RoundInfo2")],
  ["SessionReport.outcome", "Evidence::verify"])

p("P19", "Extensions used for fault injection change only what they override",
  "A party whose protocol (or whose part of a chained protocol) is wrapped in extensions that override nothing sends, bit for bit, the same messages and gives the same answers and the same report as without them, given the same randomness and the same messages in the same order. An extension is called exactly for the operations (making a part, finalizing) of the rounds of its type, in whichever place of the protocol, with what the operation itself would get, and what it returns is used in place of the operation's result; everything else stays as it was, whatever other extensions are registered and in whichever order. The evidence against and by such a party verifies under the original protocol.",
  ["schedules", "configurations", "fault_sequences"],
  "all rounds and operations overridden (message parts changed or replaced, failures, altered or early finalization), all subsets of extended parties, all schedules, all protocol shapes",
  "The tests use extensions to inject three faults; that the rest of the behaviour is untouched is not looked at.",
  [X, D], [("wrapped rounds", X + " ExtendedRound/PassthroughRound"), ("handing the extensions on from round to round", X + " wrap_round"), ("entry point wrapper", X + " ExtendableEntryPoint"), ("finding the extension by round type", D + " BoxedTypedRound::type_id/try_downcast")],
  ["outgoing messages", "SessionReport"])

p("P20", "The multi-party test runners report every party's true outcome",
  "For any number of parties and any mix of honest and misbehaving ones, the synchronous and the asynchronous in-process runner return one report per party, equal to what that party's session defines for some order of delivery; with only honest parties every report holds the result. They do so also when parties finish at different times or receive messages after they have finished. The synchronous runner always comes to an end (a party left waiting is reported as terminated); the asynchronous one does unless some party waits for a message that another one, having failed, never sent.",
  ["schedules", "configurations", "fault_sequences"],
  "all delivery orders the runners can choose, all numbers of parties, protocol shapes and early finishers",
  "The runners are only exercised with protocols in which all parties finish together, under one random order.",
  [RS, RA], [("synchronous runner", RS + " run_sync/propagate"), ("asynchronous runner and message dispatcher", RA + " run_async/message_dispatcher")],
  ["ExecutionResult.reports"])

p("P21", "Each party sends exactly the messages its protocol declares",
  "In every round a session offers for sending exactly the destinations the protocol declares, and for each echo round exactly the echo targets; the message for a destination carries the direct part made for that destination and the same two broadcast parts for all destinations of the round. An echo message relays, for each sender it covers, the very broadcast that was received, no more and no less, and a party that does not take part in an echo round neither sends nor expects echoes.",
  ["schedules", "configurations", "fault_sequences"],
  "all communication topologies and echo participation patterns, rounds and schedules, with honest and misbehaving peers",
  "The tests only see that the protocols come to an end; what goes over the wire is not inspected, and one test covers partial participation.",
  [S, E, M], [("message creation", S + " make_message/new_for_next_round"), ("echo participation", S + " EchoRoundInfo"), ("echo pack", E + " make_normal_broadcast")],
  ["Session::message_destinations", "Session::make_message"])

p("P22", "A session is a deterministic function of its inputs",
  "Two executions of a party with the same inputs, the same random generator state and the same sequence of operations and received messages produce the same outgoing bytes, the same answers and the same report. Processing messages in any order relative to each other, once accepted, leads to the same state of the round.",
  ["schedules", "histories"],
  "all recorded executions, replayed; all permutations of processing accepted messages",
  "Tests never compare two executions.",
  [S, E, D], [("session state machine without hidden inputs", S), ("ordered maps throughout", S + ", " + E)],
  ["outgoing messages", "SessionReport"])

p("P23", "The misbehaviour checker passes exactly when the offence is proven",
  "The helpers that run a protocol with one modified party and check the evidence against it succeed if, and only if, every other party of that execution reports exactly one provable error, against the modified party, whose description contains the expected one and whose evidence verifies with the shared data given. The helper that modifies one of the parties names that party, and leaves out or changes no other. (A modified party which itself proves offences of others is taken for a mistake in the test, with a panic.)",
  ["configurations", "fault_sequences", "schedules"],
  "all protocol shapes, numbers of parties, modifications and expected descriptions, including offences seen by some of the parties only, several offenders, and shared data of another instance",
  "The tests only call the checker where it is supposed to succeed.",
  [MB, X], [("checker", MB + " check_evidence/check_evidence_with_extension(s)"), ("choice of the party to modify", MB + " extend_one")],
  ["the result of the checker"])

p("P30", "What is sent survives the wire in every format, and repeated entries are refused",
  "A message or a piece of evidence that the library made or accepted reads back as the same value from the bytes of any format, text or binary, from a slice or from a stream, and is acted on in the same way as the original. Bytes that were garbled on the way either do not read back or are treated as any other untrusted message, never with a panic. The list of echoed broadcasts that a party relays carries every entry; a list in which the same party appears twice is refused, whichever entry comes first and wherever it stands, and convicts the party that signed it.",
  ["inputs", "configurations", "faults"], "all messages and evidence of all histories, all formats, all garbled bytes, all lists with repeated entries",
  "Unit tests write and read a few small maps in one format; no test carries a session's messages as bytes, garbles them, or signs a list with a repeated entry.",
  ["manul/src/utils/serializable_map.rs", M, V, "manul/src/dev/wire_format.rs"],
  [("serializable map", "manul/src/utils/serializable_map.rs"), ("serialization of messages", M), ("serialization of evidence", V)], ["Message and Evidence read back from bytes", "the receiver's report and evidence"])

p("P31", "Every party names a session alike, and different sessions never share a name",
  "Parties that derive the session identifier from the same byte string, each on its own, get the same identifier; different byte strings give different identifiers, however similar they are, whatever their lengths and wherever they differ, so that messages of one session are never accepted in the other. An identifier taken from the randomness is decided by it alone and differs from those in use.",
  ["inputs", "histories"], "all byte strings and pairs of them; all histories of two sessions of the same parties",
  "No test derives two identifiers, and none runs two sessions side by side.", [S], [("SessionId::from_seed, SessionId::random", S), ("session check of received messages", M)], ["SessionId", "Session::preprocess_message"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d in props:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(props))
