From dd365e019df51a5ee7a47af5b4fd6ce671ac20a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 01/20] fix: refuse messages from parties that are not expected
 to send any in the round

Such a message used to reach the accumulator, where it caused a local error
that ended the whole session.
---
 manul/src/session/session.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index fc90233..4727103 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -223,6 +223,14 @@ where
         })
     }
 
+    /// Drops the messages from the parties we do not expect any messages from in this round.
+    fn retain_expected(&self, messages: Vec<VerifiedMessage<SP::Verifier>>) -> Vec<VerifiedMessage<SP::Verifier>> {
+        messages
+            .into_iter()
+            .filter(|message| self.communication_info.expecting_messages_from.contains(message.from()))
+            .collect()
+    }
+
     /// Returns the verifier corresponding to the session's signer.
     pub fn verifier(&self) -> SP::Verifier {
         self.verifier.clone()
@@ -338,6 +346,12 @@ where
             .simultaneous_rounds(self.echo_round_info.is_some())?;
 
         let message_for = if message_round_id == self.round_id() {
+            if !accum.message_is_expected(from) {
+                let err = "Not expecting a message from this party in this round";
+                accum.register_unprovable_error(from, RemoteError::new(err))?;
+                trace!("[{key:?}] {err}");
+                return Ok(PreprocessOutcome::remote_error(err));
+            }
             if accum.message_is_being_processed(from) {
                 let err = "Message from this party is already being processed";
                 accum.register_unprovable_error(from, RemoteError::new(err))?;
@@ -496,6 +510,7 @@ where
             let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id);
             let session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+            let cached_messages = session.retain_expected(cached_messages);
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
                 cached_messages,
@@ -525,6 +540,7 @@ where
 
                 let session =
                     Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
+                let cached_messages = session.retain_expected(cached_messages);
                 Ok(RoundOutcome::AnotherRound {
                     cached_messages,
                     session: session.into(),
@@ -606,6 +622,10 @@ where
         self.provable_errors.contains_key(from) || self.unprovable_errors.contains_key(from)
     }
 
+    fn message_is_expected(&self, from: &SP::Verifier) -> bool {
+        self.expecting_messages_from.contains(from)
+    }
+
     fn message_is_being_processed(&self, from: &SP::Verifier) -> bool {
         self.processing.contains(from)
     }
-- 
2.43.0


From 4162622c881be3cce3c10fe0477b8f776452d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 02/20] fix: file the evidence of mismatched broadcasts under
 the guilty party

It was filed under the sender of the echo pack, which did nothing wrong.
---
 manul/src/session/session.rs    | 21 ++++++++++++---------
 manul/src/session/transcript.rs |  4 ++++
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 4727103..2e5f0b3 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -649,13 +649,10 @@ where
     }
 
     fn register_provable_error(&mut self, from: &SP::Verifier, evidence: Evidence<P, SP>) -> Result<(), LocalError> {
-        if self.provable_errors.insert(from.clone(), evidence).is_some() {
-            Err(LocalError::new(format!(
-                "A provable error for {from:?} is already registered",
-            )))
-        } else {
-            Ok(())
-        }
+        // An error may be already registered if the party was implicated by a message from another party
+        // while its own message was being processed. One evidence is enough.
+        self.provable_errors.entry(from.clone()).or_insert(evidence);
+        Ok(())
     }
 
     fn mark_processing(&mut self, message: &VerifiedMessage<SP::Verifier>) -> Result<(), LocalError> {
@@ -759,8 +756,14 @@ where
             }
             BoxedReceiveError::Echo(error) => {
                 let (_echo_broadcast, normal_broadcast, _direct_message) = processed.message.into_parts();
-                let evidence = Evidence::new_echo_round_error(&from, normal_broadcast, *error)?;
-                self.register_provable_error(&from, evidence)
+                let evidence = Evidence::<P, SP>::new_echo_round_error(&from, normal_broadcast, *error)?;
+                // The guilty party is not necessarily the sender of this message.
+                // Also, several senders may help expose the same party; the first evidence is enough.
+                let guilty_party = evidence.guilty_party().clone();
+                if transcript.has_provable_error(&guilty_party) || self.provable_errors.contains_key(&guilty_party) {
+                    return Ok(());
+                }
+                self.register_provable_error(&guilty_party, evidence)
             }
             BoxedReceiveError::Local(error) => Err(error),
         }
diff --git a/manul/src/session/transcript.rs b/manul/src/session/transcript.rs
index 33f0187..2c2ac5f 100644
--- a/manul/src/session/transcript.rs
+++ b/manul/src/session/transcript.rs
@@ -170,6 +170,10 @@ where
         self.provable_errors.contains_key(from) || self.unprovable_errors.contains_key(from)
     }
 
+    pub fn has_provable_error(&self, from: &SP::Verifier) -> bool {
+        self.provable_errors.contains_key(from)
+    }
+
     pub fn echo_broadcasts(
         &self,
         round_id: &RoundId,
-- 
2.43.0


From 4ec5e3fd9b37a6adb608c6c80a6bd869d3e08b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 03/20] fix: do not overwrite an already registered unprovable
 error

---
 manul/src/session/session.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 2e5f0b3..f187532 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -751,7 +751,8 @@ where
                 self.register_provable_error(&from, evidence)
             }
             BoxedReceiveError::Unprovable(error) => {
-                self.unprovable_errors.insert(from.clone(), error);
+                // Another error could have been registered while the message was being processed.
+                self.unprovable_errors.entry(from).or_insert(error);
                 Ok(())
             }
             BoxedReceiveError::Echo(error) => {
-- 
2.43.0


From 6d400b0e4de2eb67f23ae89631e5a031c5778bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 04/20] fix: do not wait for messages from banned parties

Such messages are refused, so the round could never be finalized or given up.
---
 manul/src/session/session.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index f187532..a93b2ca 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -551,7 +551,7 @@ where
 
     /// Checks if the round can be finalized.
     pub fn can_finalize(&self, accum: &RoundAccumulator<P, SP>) -> CanFinalize {
-        accum.can_finalize()
+        accum.can_finalize(&self.transcript)
     }
 }
 
@@ -604,14 +604,17 @@ where
         }
     }
 
-    fn can_finalize(&self) -> CanFinalize {
+    fn can_finalize(&self, transcript: &Transcript<P, SP>) -> CanFinalize {
         if self
             .expecting_messages_from
             .iter()
             .all(|key| self.payloads.contains_key(key))
         {
             CanFinalize::Yes
-        } else if !self.still_have_not_sent_messages.is_empty() {
+        } else if self.still_have_not_sent_messages.iter().any(|key| {
+            // New messages from banned parties will not be accepted, so there is no point in waiting for them.
+            self.processing.contains(key) || !(self.is_banned(key) || transcript.is_banned(key))
+        }) {
             CanFinalize::NotYet
         } else {
             CanFinalize::Never
-- 
2.43.0


From 6db9393d930eb68485c83d8b45d880dfe9667010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 05/20] fix: do not hand out cached messages from banned
 parties in echo rounds

---
 manul/src/session/session.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index a93b2ca..1baa3bf 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -507,7 +507,11 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id);
+            // Same as below, some of the senders could have been banned since these messages were cached.
+            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id)
+                .into_iter()
+                .filter(|message| !transcript.is_banned(message.from()))
+                .collect::<Vec<_>>();
             let session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
             let cached_messages = session.retain_expected(cached_messages);
-- 
2.43.0


From aa4cbe43ca376b158753d996a21574f8a14f1ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 06/20] fix: count the cached messages as being processed in
 the round they are for

A second message from the same sender used to be accepted, and caused
a local error when the second one of the two was added to the accumulator.
---
 manul/src/session/session.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 1baa3bf..b18c9d7 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -119,6 +119,8 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     normal_broadcast: SignedMessagePart<NormalBroadcast>,
     transition_info: TransitionInfo,
     transcript: Transcript<P, SP>,
+    /// The senders of the messages for this round received during the previous ones.
+    received_in_advance: BTreeSet<SP::Verifier>,
 }
 
 /// Possible non-erroneous results of finalizing a round.
@@ -220,15 +222,19 @@ where
             communication_info,
             echo_round_info,
             transcript,
+            received_in_advance: BTreeSet::new(),
         })
     }
 
-    /// Drops the messages from the parties we do not expect any messages from in this round.
-    fn retain_expected(&self, messages: Vec<VerifiedMessage<SP::Verifier>>) -> Vec<VerifiedMessage<SP::Verifier>> {
-        messages
+    /// Drops the messages from the parties we do not expect any messages from in this round,
+    /// and records the senders of the rest, so that no other messages are accepted from them.
+    fn apply_cached(&mut self, messages: Vec<VerifiedMessage<SP::Verifier>>) -> Vec<VerifiedMessage<SP::Verifier>> {
+        let expected = messages
             .into_iter()
             .filter(|message| self.communication_info.expecting_messages_from.contains(message.from()))
-            .collect()
+            .collect::<Vec<_>>();
+        self.received_in_advance = expected.iter().map(|message| message.from().clone()).collect();
+        expected
     }
 
     /// Returns the verifier corresponding to the session's signer.
@@ -436,7 +442,10 @@ where
 
     /// Makes an accumulator for a new round.
     pub fn make_accumulator(&self) -> RoundAccumulator<P, SP> {
-        RoundAccumulator::new(&self.communication_info.expecting_messages_from)
+        RoundAccumulator::new(
+            &self.communication_info.expecting_messages_from,
+            &self.received_in_advance,
+        )
     }
 
     fn terminate_inner(
@@ -512,9 +521,9 @@ where
                 .into_iter()
                 .filter(|message| !transcript.is_banned(message.from()))
                 .collect::<Vec<_>>();
-            let session =
+            let mut session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
-            let cached_messages = session.retain_expected(cached_messages);
+            let cached_messages = session.apply_cached(cached_messages);
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
                 cached_messages,
@@ -542,9 +551,9 @@ where
                     .filter(|message| !transcript.is_banned(message.from()))
                     .collect::<Vec<_>>();
 
-                let session =
+                let mut session =
                     Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
-                let cached_messages = session.retain_expected(cached_messages);
+                let cached_messages = session.apply_cached(cached_messages);
                 Ok(RoundOutcome::AnotherRound {
                     cached_messages,
                     session: session.into(),
@@ -592,11 +601,11 @@ where
     P: Protocol<SP::Verifier>,
     SP: SessionParameters,
 {
-    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>) -> Self {
+    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>, received_in_advance: &BTreeSet<SP::Verifier>) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
-            processing: BTreeSet::new(),
+            processing: received_in_advance.clone(),
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
             cached: BTreeMap::new(),
-- 
2.43.0


From ce1d4339b3daa1ab50e4c66d1f2a80c89216a03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 07/20] fix: keep the messages for the following rounds when
 entering an echo round

The messages for the round after the echo round that were received before it
used to be dropped, with the recipient waiting for them forever.
---
 manul/src/session/session.rs | 89 +++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 38 deletions(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index b18c9d7..2237d50 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -121,8 +121,12 @@ pub struct Session<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     transcript: Transcript<P, SP>,
     /// The senders of the messages for this round received during the previous ones.
     received_in_advance: BTreeSet<SP::Verifier>,
+    /// The messages for the rounds after this one that were received during the previous ones.
+    cached: CachedMessages<SP::Verifier>,
 }
 
+type CachedMessages<Verifier> = BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>;
+
 /// Possible non-erroneous results of finalizing a round.
 #[derive(Debug)]
 pub enum RoundOutcome<P: Protocol<SP::Verifier>, SP: SessionParameters> {
@@ -223,18 +227,46 @@ where
             echo_round_info,
             transcript,
             received_in_advance: BTreeSet::new(),
+            cached: BTreeMap::new(),
         })
     }
 
-    /// Drops the messages from the parties we do not expect any messages from in this round,
-    /// and records the senders of the rest, so that no other messages are accepted from them.
-    fn apply_cached(&mut self, messages: Vec<VerifiedMessage<SP::Verifier>>) -> Vec<VerifiedMessage<SP::Verifier>> {
-        let expected = messages
-            .into_iter()
-            .filter(|message| self.communication_info.expecting_messages_from.contains(message.from()))
-            .collect::<Vec<_>>();
-        self.received_in_advance = expected.iter().map(|message| message.from().clone()).collect();
-        expected
+    /// Takes over the messages cached during the previous round.
+    ///
+    /// Returns those that are for this round, and records their senders, so that no other messages are accepted
+    /// from them. Those that can still be needed in the rounds after this one remain cached.
+    fn apply_cached(
+        &mut self,
+        cached: CachedMessages<SP::Verifier>,
+    ) -> Result<Vec<VerifiedMessage<SP::Verifier>>, LocalError> {
+        let round_id = self.round_id();
+        let acceptable_round_ids = self
+            .transition_info
+            .simultaneous_rounds(self.echo_round_info.is_some())?;
+
+        let mut for_this_round = Vec::new();
+        for (from, mut messages) in cached {
+            // These messages could have been cached before
+            // processing messages from the same node for the previous round.
+            // So there might have been some new errors, and we need to check again
+            // if the sender is already banned.
+            if self.transcript.is_banned(&from) {
+                continue;
+            }
+
+            if let Some(message) = messages.remove(&round_id) {
+                if self.communication_info.expecting_messages_from.contains(&from) {
+                    self.received_in_advance.insert(from.clone());
+                    for_this_round.push(message);
+                }
+            }
+
+            messages.retain(|message_round_id, _message| acceptable_round_ids.contains(message_round_id));
+            if !messages.is_empty() {
+                self.cached.insert(from, messages);
+            }
+        }
+        Ok(for_this_round)
     }
 
     /// Returns the verifier corresponding to the session's signer.
@@ -445,6 +477,7 @@ where
         RoundAccumulator::new(
             &self.communication_info.expecting_messages_from,
             &self.received_in_advance,
+            &self.cached,
         )
     }
 
@@ -516,14 +549,9 @@ where
                 accum.payloads,
                 accum.artifacts,
             ));
-            // Same as below, some of the senders could have been banned since these messages were cached.
-            let cached_messages = filter_messages(accum.cached, &round.as_ref().transition_info().id)
-                .into_iter()
-                .filter(|message| !transcript.is_banned(message.from()))
-                .collect::<Vec<_>>();
             let mut session =
                 Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
-            let cached_messages = session.apply_cached(cached_messages);
+            let cached_messages = session.apply_cached(accum.cached)?;
             return Ok(RoundOutcome::AnotherRound {
                 session: session.into(),
                 cached_messages,
@@ -542,18 +570,9 @@ where
                     return Err(LocalError::new(format!("Unexpected next round id: {round_id:?}")));
                 }
 
-                // These messages could have been cached before
-                // processing messages from the same node for the current round.
-                // So there might have been some new errors, and we need to check again
-                // if the sender is already banned.
-                let cached_messages = filter_messages(accum.cached, &round_id)
-                    .into_iter()
-                    .filter(|message| !transcript.is_banned(message.from()))
-                    .collect::<Vec<_>>();
-
                 let mut session =
                     Session::new_for_next_round(rng, self.session_id, self.signer, self.format, round, transcript)?;
-                let cached_messages = session.apply_cached(cached_messages);
+                let cached_messages = session.apply_cached(accum.cached)?;
                 Ok(RoundOutcome::AnotherRound {
                     cached_messages,
                     session: session.into(),
@@ -588,7 +607,7 @@ pub struct RoundAccumulator<P: Protocol<SP::Verifier>, SP: SessionParameters> {
     processing: BTreeSet<SP::Verifier>,
     payloads: BTreeMap<SP::Verifier, Payload>,
     artifacts: BTreeMap<SP::Verifier, Artifact>,
-    cached: BTreeMap<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
+    cached: CachedMessages<SP::Verifier>,
     echo_broadcasts: BTreeMap<SP::Verifier, SignedMessagePart<EchoBroadcast>>,
     normal_broadcasts: BTreeMap<SP::Verifier, SignedMessagePart<NormalBroadcast>>,
     direct_messages: BTreeMap<SP::Verifier, SignedMessagePart<DirectMessage>>,
@@ -601,14 +620,18 @@ where
     P: Protocol<SP::Verifier>,
     SP: SessionParameters,
 {
-    fn new(expecting_messages_from: &BTreeSet<SP::Verifier>, received_in_advance: &BTreeSet<SP::Verifier>) -> Self {
+    fn new(
+        expecting_messages_from: &BTreeSet<SP::Verifier>,
+        received_in_advance: &BTreeSet<SP::Verifier>,
+        cached: &CachedMessages<SP::Verifier>,
+    ) -> Self {
         Self {
             still_have_not_sent_messages: expecting_messages_from.clone(),
             expecting_messages_from: expecting_messages_from.clone(),
             processing: received_in_advance.clone(),
             payloads: BTreeMap::new(),
             artifacts: BTreeMap::new(),
-            cached: BTreeMap::new(),
+            cached: cached.clone(),
             echo_broadcasts: BTreeMap::new(),
             normal_broadcasts: BTreeMap::new(),
             direct_messages: BTreeMap::new(),
@@ -845,16 +868,6 @@ impl<Verifier> PreprocessOutcome<Verifier> {
     }
 }
 
-fn filter_messages<Verifier>(
-    messages: BTreeMap<Verifier, BTreeMap<RoundId, VerifiedMessage<Verifier>>>,
-    round_id: &RoundId,
-) -> Vec<VerifiedMessage<Verifier>> {
-    messages
-        .into_values()
-        .filter_map(|mut messages| messages.remove(round_id))
-        .collect()
-}
-
 #[cfg(test)]
 mod tests {
     use impls::impls;
-- 
2.43.0


From 098de8d49b09a115c949cd74bb18f3cddca80bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 08/20] fix: accept messages from echo rounds of child and
 sibling rounds

A node that does not have to wait for us can already be in the echo round
of the next round. It used to be banned for sending us messages from there.
---
 manul/src/protocol/round_id.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/manul/src/protocol/round_id.rs b/manul/src/protocol/round_id.rs
index 9659c18..76678cd 100644
--- a/manul/src/protocol/round_id.rs
+++ b/manul/src/protocol/round_id.rs
@@ -181,14 +181,18 @@ impl TransitionInfo {
     /// This includes: the child rounds (if some nodes already finalized this round),
     /// the parent rounds (if those nodes still are not finalized while we already are),
     /// and the sibling rounds (if some nodes went on a different path).
+    /// Since a node can be in an echo round we do not take part in, this also includes the echo rounds
+    /// of the child and sibling rounds.
     pub(crate) fn simultaneous_rounds(&self, followed_by_echo_round: bool) -> Result<BTreeSet<RoundId>, LocalError> {
         let mut result = if followed_by_echo_round {
             BTreeSet::from([self.id.echo()?])
         } else {
             self.parents.clone()
         };
-        result.extend(self.siblings.iter().cloned());
-        result.extend(self.children.iter().cloned());
+        for round_id in self.siblings.iter().chain(self.children.iter()) {
+            result.insert(round_id.echo()?);
+            result.insert(round_id.clone());
+        }
         Ok(result)
     }
 
@@ -201,7 +205,7 @@ impl TransitionInfo {
         Ok(Self {
             id: self.id.echo()?,
             parents: [self.id.clone()].into(),
-            siblings: [].into(),
+            siblings: self.siblings,
             children: self.children,
             may_produce_result: self.may_produce_result,
         })
-- 
2.43.0


From d4df88f44b593790cd5bbee4023004ffced84be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 09/20] fix: do not accept an evidence of an invalid echo if
 the echoed message is fine

The metadata of the echoed message was compared to that of the echo round
message instead of the round it was sent in, so it always seemed to be invalid.
---
 manul/src/session/echo.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/manul/src/session/echo.rs b/manul/src/session/echo.rs
index a9ff8c0..b16e53a 100644
--- a/manul/src/session/echo.rs
+++ b/manul/src/session/echo.rs
@@ -57,6 +57,11 @@ impl<Id: PartyId> InvalidEchoError<Id> {
         metadata: &MessageMetadata,
         message: &EchoRoundMessage<SP::Verifier>,
     ) -> Result<(), EvidenceError> {
+        let main_round_id = metadata
+            .round_id()
+            .non_echo()
+            .map_err(|_err| EvidenceError::InvalidEvidence("The attached message is not from an echo round".into()))?;
+
         let invalid_echo = message.message_hashes.get(&self.invalid_echo_sender).ok_or_else(|| {
             EvidenceError::InvalidEvidence(format!(
                 "Did not find {:?} in the attached message",
@@ -74,7 +79,9 @@ impl<Id: PartyId> InvalidEchoError<Id> {
 
         // `from` sent us a correctly signed message but from another round or another session.
         // Provable fault of `from`.
-        if verified_echo.metadata() != metadata {
+        if verified_echo.metadata().session_id() != metadata.session_id()
+            || verified_echo.metadata().round_id() != &main_round_id
+        {
             return Ok(());
         }
 
-- 
2.43.0


From cda06c529efd319cd9dfc49d1cc9bef6d09dd202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 10/20] fix: check that the evidence of mismatched broadcasts
 is against the party it names

---
 manul/src/session/evidence.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/manul/src/session/evidence.rs b/manul/src/session/evidence.rs
index fad53f0..9c1b526 100644
--- a/manul/src/session/evidence.rs
+++ b/manul/src/session/evidence.rs
@@ -205,7 +205,7 @@ where
             EvidenceEnum::InvalidEchoBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidNormalBroadcast(evidence) => evidence.verify::<P, SP>(&self.guilty_party, &format),
             EvidenceEnum::InvalidEcho(evidence) => evidence.verify::<SP>(&self.guilty_party, &format),
-            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(),
+            EvidenceEnum::MismatchedBroadcasts(evidence) => evidence.verify::<SP>(&self.guilty_party),
         }
     }
 }
@@ -253,8 +253,13 @@ pub struct MismatchedBroadcastsEvidence<Id> {
     error: MismatchedBroadcastsError<Id>,
 }
 
-impl<Id> MismatchedBroadcastsEvidence<Id> {
-    fn verify<SP: SessionParameters<Verifier = Id>>(&self) -> Result<(), EvidenceError> {
+impl<Id: PartyId> MismatchedBroadcastsEvidence<Id> {
+    fn verify<SP: SessionParameters<Verifier = Id>>(&self, verifier: &SP::Verifier) -> Result<(), EvidenceError> {
+        if self.error.guilty_party() != verifier {
+            return Err(EvidenceError::InvalidEvidence(
+                "The attached messages were not signed by the guilty party".into(),
+            ));
+        }
         self.error.verify_evidence::<SP>()
     }
 }
-- 
2.43.0


From 57a1c92b4fe56de037038ca19fdd6d3e3373d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 11/20] fix: report NotEnoughMessages on termination due to
 errors

---
 manul/src/session/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manul/src/session/session.rs b/manul/src/session/session.rs
index 2237d50..6064cb3 100644
--- a/manul/src/session/session.rs
+++ b/manul/src/session/session.rs
@@ -517,7 +517,7 @@ where
     /// Will be usually called after receiving [`CanFinalize::Never`] from
     /// [`can_finalize`](`Self::can_finalize`).
     pub fn terminate_due_to_errors(self, accum: RoundAccumulator<P, SP>) -> Result<SessionReport<P, SP>, LocalError> {
-        self.terminate_inner(accum, false)
+        self.terminate_inner(accum, true)
     }
 
     /// Attempts to finalize the current round.
-- 
2.43.0


From d3ae0debe4e2a122b1117bf1ef537c9cd869f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 12/20] fix: bind the signatures of message parts to the kind
 of the part

A relayed hash of a message does not say what kind of message part it is for,
so an echo of an honest node's direct message or normal broadcast was taken for
an echo broadcast different from the one received, exposing that node.
---
 manul/src/protocol.rs        |  2 +-
 manul/src/session/message.rs | 42 +++++++++++++++++++++++-------------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/manul/src/protocol.rs b/manul/src/protocol.rs
index 9a74c83..716e123 100644
--- a/manul/src/protocol.rs
+++ b/manul/src/protocol.rs
@@ -39,7 +39,7 @@ pub(crate) use dyn_round::{Artifact, BoxedReceiveError, DynRound, Payload};
 pub(crate) use evidence::EvidenceProtocolMessage;
 pub(crate) use message::{
     DirectMessage, DirectMessageError, DynProtocolMessage, EchoBroadcast, EchoBroadcastError, NormalBroadcast,
-    NormalBroadcastError, ProtocolMessagePart, ProtocolMessagePartHashable,
+    NormalBroadcastError, PartKind, ProtocolMessagePart, ProtocolMessagePartHashable,
 };
 pub(crate) use rng::BoxedRng;
 pub(crate) use round::NoType;
diff --git a/manul/src/session/message.rs b/manul/src/session/message.rs
index 5463ce5..9eaf972 100644
--- a/manul/src/session/message.rs
+++ b/manul/src/session/message.rs
@@ -12,7 +12,7 @@ use super::{
     LocalError,
 };
 use crate::protocol::{
-    DirectMessage, EchoBroadcast, EvidenceError, NormalBroadcast, ProtocolMessagePartHashable, RoundId,
+    DirectMessage, EchoBroadcast, EvidenceError, NormalBroadcast, PartKind, ProtocolMessagePartHashable, RoundId,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
@@ -109,11 +109,20 @@ pub struct MessageWithMetadata<M> {
 
 fn message_digest<SP: SessionParameters>(
     metadata: &MessageMetadata,
+    part_kind: PartKind,
     message_part_hash: &[u8],
 ) -> Result<SP::Digest, LocalError> {
+    // The kind is included in `message_part_hash`, but since it can be received separately from the message,
+    // we need to make sure that a signature of one kind of message cannot be passed off for that of another.
+    let part_kind = match part_kind {
+        PartKind::EchoBroadcast => 0u8,
+        PartKind::NormalBroadcast => 1,
+        PartKind::DirectMessage => 2,
+    };
     let message_part_hash_len =
         u64::try_from(message_part_hash.as_ref().len()).expect("message part hash length does not exceed 18 exabytes");
     Ok(SP::Digest::new_with_prefix(b"SignedMessagePartDigest")
+        .chain_update([part_kind])
         .chain_update(SP::WireFormat::serialize(metadata)?)
         .chain_update(message_part_hash_len.to_be_bytes())
         .chain_update(message_part_hash))
@@ -125,7 +134,7 @@ impl<M: ProtocolMessagePartHashable> MessageWithMetadata<M> {
         SP: SessionParameters,
     {
         let message_part_hash = self.message.hash::<SP::Digest>();
-        let digest = message_digest::<SP>(&self.metadata, &message_part_hash)?;
+        let digest = message_digest::<SP>(&self.metadata, M::KIND, &message_part_hash)?;
         Ok(digest)
     }
 }
@@ -156,18 +165,6 @@ where
         })
     }
 
-    pub(crate) fn to_signed_hash<SP>(&self) -> SignedMessageHash
-    where
-        SP: SessionParameters,
-    {
-        let message_part_hash = self.message_with_metadata.message.hash::<SP::Digest>();
-        SignedMessageHash {
-            signature: self.signature.clone(),
-            metadata: self.message_with_metadata.metadata.clone(),
-            message_part_hash: message_part_hash.as_ref().into(),
-        }
-    }
-
     pub(crate) fn metadata(&self) -> &MessageMetadata {
         &self.message_with_metadata.metadata
     }
@@ -193,6 +190,20 @@ where
     }
 }
 
+impl SignedMessagePart<EchoBroadcast> {
+    pub(crate) fn to_signed_hash<SP>(&self) -> SignedMessageHash
+    where
+        SP: SessionParameters,
+    {
+        let message_part_hash = self.message_with_metadata.message.hash::<SP::Digest>();
+        SignedMessageHash {
+            signature: self.signature.clone(),
+            metadata: self.message_with_metadata.metadata.clone(),
+            message_part_hash: message_part_hash.as_ref().into(),
+        }
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct VerifiedMessagePart<M> {
     signature: SerializedSignature,
@@ -389,7 +400,8 @@ impl SignedMessageHash {
     where
         SP: SessionParameters,
     {
-        let digest = message_digest::<SP>(&self.metadata, &self.message_part_hash)?;
+        // Only echo broadcasts are passed on as hashes.
+        let digest = message_digest::<SP>(&self.metadata, PartKind::EchoBroadcast, &self.message_part_hash)?;
         let signature = self.signature.deserialize::<SP>()?;
         verifier.verify_digest(digest, &signature)?;
         Ok(VerifiedMessageHash {
-- 
2.43.0


From 4ca74d2ee4174dfdebcf880fc8c89ead707b8a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 13/20] fix: do not panic on a fabricated evidence for a round
 that does not generate errors

---
 manul/src/protocol/evidence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/manul/src/protocol/evidence.rs b/manul/src/protocol/evidence.rs
index 83ab481..c7c7e2f 100644
--- a/manul/src/protocol/evidence.rs
+++ b/manul/src/protocol/evidence.rs
@@ -272,7 +272,10 @@ where
         _shared_data: &<<Self::Round as Round<Id>>::Protocol as Protocol<Id>>::SharedData,
         _messages: EvidenceMessages<'_, Id, Self::Round>,
     ) -> Result<(), EvidenceError> {
-        panic!("Methods of `NoProtocolErrors` should not be called during normal operation.")
+        // This can be called if somebody fabricated an evidence for a round that does not generate errors.
+        Err(EvidenceError::InvalidEvidence(
+            "This round does not generate protocol errors".into(),
+        ))
     }
 }
 
-- 
2.43.0


From 43c6e7caa070149e90ce85c147f81ca358751717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 14/20] fix: report that a cancelled async session was
 terminated by the user

---
 manul/src/session/tokio.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 34bcd31..5ba5cda 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -143,7 +143,7 @@ where
                     message_in.ok_or_else(|| LocalError::new("The incoming message channel was closed unexpectedly"))?
                 },
                 _ = cancellation.cancelled() => {
-                    return session.terminate_due_to_errors(accum);
+                    return session.terminate(accum);
                 }
             };
 
@@ -180,6 +180,17 @@ where
     }
 }
 
+/// The reason the message loop of a round ended.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum RoundCompletion {
+    /// The round can be finalized.
+    CanFinalize,
+    /// There were too many errors, the round cannot be finalized.
+    CannotFinalize,
+    /// The session was cancelled by the user.
+    Cancelled,
+}
+
 /// Executes the session waiting for the messages from the `rx` channel
 /// and pushing outgoing messages into the `tx` channel.
 /// The messages are processed in parallel.
@@ -277,14 +288,14 @@ where
             message_processing_tasks.push(message_processing);
         }
 
-        let can_finalize = loop {
+        let completion = loop {
             match session.can_finalize(&accum) {
-                CanFinalize::Yes => break true,
+                CanFinalize::Yes => break RoundCompletion::CanFinalize,
                 CanFinalize::NotYet => {}
                 // Due to already registered invalid messages from nodes,
                 // even if the remaining nodes send correct messages, it won't be enough.
                 // Terminating.
-                CanFinalize::Never => break false,
+                CanFinalize::Never => break RoundCompletion::CannotFinalize,
             }
 
             tokio::select! {
@@ -332,7 +343,7 @@ where
                     }
                 },
                 _ = cancellation.cancelled() => {
-                    break false;
+                    break RoundCompletion::Cancelled;
                 }
             }
         };
@@ -373,8 +384,10 @@ where
         let session_inner = Arc::into_inner(session)
             .ok_or_else(|| LocalError::new("There are still references to the session left"))?;
 
-        if !can_finalize {
-            return session_inner.terminate_due_to_errors(accum);
+        match completion {
+            RoundCompletion::CanFinalize => {}
+            RoundCompletion::CannotFinalize => return session_inner.terminate_due_to_errors(accum),
+            RoundCompletion::Cancelled => return session_inner.terminate(accum),
         }
 
         match session_inner.finalize_round(rng, accum)? {
-- 
2.43.0


From 582538630d190f71a16acb2c64d9d89d0ef3fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 15/20] fix: do not lose or deadlock on messages in flight at
 the end of a parallel session's round

---
 manul/src/session/tokio.rs | 39 +++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 5ba5cda..419cca6 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -350,6 +350,30 @@ where
 
         debug!("{my_id}: Finalizing the round {}", session.round_id());
 
+        // Drop our copies of `Sender`s to let the channels close when the tasks created in this iteration finish.
+        drop(outgoing_tx);
+        drop(processed_tx);
+
+        // Take care of everything that is still being created or processed. The tasks may be waiting
+        // for free space in the channels, so this has to be done before joining them.
+        loop {
+            tokio::select! {
+                Some(processed) = processed_rx.recv() => {
+                    session.add_processed_message(&mut accum, processed)?;
+                }
+                Some((message_out, artifact)) = outgoing_rx.recv() => {
+                    let from = message_out.from.clone();
+                    let to = message_out.to.clone();
+                    tx.send(message_out).await.map_err(|err| {
+                        LocalError::new(format!("Failed to send a message from {from:?} to {to:?}: {err}",))
+                    })?;
+
+                    session.add_artifact(&mut accum, artifact)?;
+                }
+                else => break,
+            }
+        }
+
         // Join all the handles created in this iteration.
 
         for message_creation_task in message_creation_tasks {
@@ -364,21 +388,6 @@ where
                 .map_err(|_err| LocalError::new("Failed to join a message processing task"))??;
         }
 
-        // Drop our copies of `Sender`s to let the channels close.
-        drop(outgoing_tx);
-        drop(processed_tx);
-
-        // Send all the remaining messages
-        while let Some((message_out, artifact)) = outgoing_rx.recv().await {
-            let from = message_out.from.clone();
-            let to = message_out.to.clone();
-            tx.send(message_out)
-                .await
-                .map_err(|err| LocalError::new(format!("Failed to send a message from {from:?} to {to:?}: {err}",)))?;
-
-            session.add_artifact(&mut accum, artifact)?;
-        }
-
         debug!("{my_id}: Sent out all remaining messages");
 
         let session_inner = Arc::into_inner(session)
-- 
2.43.0


From 31d76b42849d330bdbcb9402437e13ac59f4632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 16/20] fix: observe the cancellation of an async session while
 the outgoing channel is full

---
 manul/src/session/tokio.rs | 63 ++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/manul/src/session/tokio.rs b/manul/src/session/tokio.rs
index 419cca6..967bf8b 100644
--- a/manul/src/session/tokio.rs
+++ b/manul/src/session/tokio.rs
@@ -46,6 +46,25 @@ pub struct MessageIn<SP: SessionParameters> {
     pub message: Message<SP::Verifier>,
 }
 
+/// Sends the message, waiting for free space in the channel if necessary.
+///
+/// Returns `false` if the session was cancelled before the message could be sent.
+async fn send_unless_cancelled<SP: SessionParameters>(
+    tx: &mpsc::Sender<MessageOut<SP>>,
+    cancellation: &CancellationToken,
+    message_out: MessageOut<SP>,
+) -> Result<bool, LocalError> {
+    let from = message_out.from.clone();
+    let to = message_out.to.clone();
+    tokio::select! {
+        biased;
+        _ = cancellation.cancelled() => Ok(false),
+        result = tx.send(message_out) => result
+            .map(|()| true)
+            .map_err(|err| LocalError::new(format!("Failed to send a message from {from:?} to {to:?}: {err}"))),
+    }
+}
+
 /// Executes the session waiting for the messages from the `rx` channel
 /// and pushing outgoing messages into the `tx` channel.
 pub async fn run_session<P, SP>(
@@ -96,20 +115,15 @@ where
             // to be added to the accumulator.
             let (message, artifact) = session.make_message(rng, destination)?;
             debug!("{my_id}: Sending a message to {destination:?}",);
-            tx.send(MessageOut {
+            let message_out = MessageOut {
                 session_id: session.session_id().clone(),
                 from: session.verifier().clone(),
                 to: destination.clone(),
                 message,
-            })
-            .await
-            .map_err(|err| {
-                LocalError::new(format!(
-                    "Failed to send a message from {:?} to {:?}: {err}",
-                    session.verifier(),
-                    destination
-                ))
-            })?;
+            };
+            if !send_unless_cancelled(tx, &cancellation, message_out).await? {
+                return session.terminate(accum);
+            }
 
             // This would happen in a host task
             session.add_artifact(&mut accum, artifact)?;
@@ -288,7 +302,7 @@ where
             message_processing_tasks.push(message_processing);
         }
 
-        let completion = loop {
+        let mut completion = loop {
             match session.can_finalize(&accum) {
                 CanFinalize::Yes => break RoundCompletion::CanFinalize,
                 CanFinalize::NotYet => {}
@@ -306,16 +320,9 @@ where
                 outgoing = outgoing_rx.recv() => {
                     let (message_out, artifact) = outgoing.ok_or_else(|| LocalError::new("The outgoing message channel was closed unexpectedly"))?;
 
-                    let from = message_out.from.clone();
-                    let to = message_out.to.clone();
-                    tx.send(message_out)
-                    .await
-                    .map_err(|err| {
-                        LocalError::new(format!(
-                            "Failed to send a message from {from:?} to {to:?}: {err}",
-                        ))
-                    })?;
-
+                    if !send_unless_cancelled(tx, &cancellation, message_out).await? {
+                        break RoundCompletion::Cancelled;
+                    }
                     session.add_artifact(&mut accum, artifact)?;
                 }
                 message_in = rx.recv() => {
@@ -362,12 +369,14 @@ where
                     session.add_processed_message(&mut accum, processed)?;
                 }
                 Some((message_out, artifact)) = outgoing_rx.recv() => {
-                    let from = message_out.from.clone();
-                    let to = message_out.to.clone();
-                    tx.send(message_out).await.map_err(|err| {
-                        LocalError::new(format!("Failed to send a message from {from:?} to {to:?}: {err}",))
-                    })?;
-
+                    // The messages are of no use if the session is being terminated by the user.
+                    if completion == RoundCompletion::Cancelled {
+                        continue;
+                    }
+                    if !send_unless_cancelled(tx, &cancellation, message_out).await? {
+                        completion = RoundCompletion::Cancelled;
+                        continue;
+                    }
                     session.add_artifact(&mut accum, artifact)?;
                 }
                 else => break,
-- 
2.43.0


From b00afa66ac5cf92573d31a191d78e9116839f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 17/20] fix: keep dispatching messages in run_async() when a
 node has finished or its channel is full

---
 manul/src/dev/tokio.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/manul/src/dev/tokio.rs b/manul/src/dev/tokio.rs
index 944456e..8ac5280 100644
--- a/manul/src/dev/tokio.rs
+++ b/manul/src/dev/tokio.rs
@@ -46,19 +46,23 @@ where
             let message_idx = rng.gen_range(0..messages.len());
             let outgoing = messages.swap_remove(message_idx);
 
-            txs.get(&outgoing.to)
-                .ok_or_else(|| {
-                    LocalError::new(format!(
-                        "Destination ({:?}) is missing in the map of channels",
-                        outgoing.to
-                    ))
-                })?
-                .send(MessageIn {
+            let tx = txs.get(&outgoing.to).ok_or_else(|| {
+                LocalError::new(format!(
+                    "Destination ({:?}) is missing in the map of channels",
+                    outgoing.to
+                ))
+            })?;
+
+            // A node that has already finished does not need any more messages, so if its channel is closed, it is fine.
+            // If the channel is full, do not wait for the node, since it may be waiting for us at the same time.
+            if let Ok(permit) = tx.try_reserve() {
+                permit.send(MessageIn {
                     from: outgoing.from,
                     message: outgoing.message,
-                })
-                .await
-                .map_err(|err| LocalError::new(format!("Could not sent an outgoing message: {err}")))?;
+                });
+            } else if !tx.is_closed() {
+                messages.push(outgoing);
+            }
 
             // Give up execution so that the tasks could process messages.
             tokio::time::sleep(tokio::time::Duration::from_millis(0)).await;
-- 
2.43.0


From 99ef15d31f2f72bab9b600132518dd335e6b0204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 18/20] fix: do not share the RNG state between the nodes in
 run_async()

---
 manul/src/dev/tokio.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/manul/src/dev/tokio.rs b/manul/src/dev/tokio.rs
index 8ac5280..9ed1f38 100644
--- a/manul/src/dev/tokio.rs
+++ b/manul/src/dev/tokio.rs
@@ -3,7 +3,8 @@
 use alloc::{collections::BTreeMap, format, vec::Vec};
 
 use rand::Rng;
-use rand_core::CryptoRngCore;
+use rand_chacha::ChaCha20Rng;
+use rand_core::{CryptoRngCore, SeedableRng};
 use signature::Keypair;
 use tokio::sync::mpsc;
 use tokio_util::sync::CancellationToken;
@@ -102,7 +103,10 @@ where
         .zip(txs.into_iter())
         .collect();
 
-    let dispatcher_task = message_dispatcher(rng.clone(), tx_map, dispatcher_rx);
+    // The dispatcher and the nodes must not share the same RNG state.
+    let mut fork_rng = || ChaCha20Rng::from_rng(&mut *rng).map_err(|_| LocalError::new("Can't fork the RNG"));
+
+    let dispatcher_task = message_dispatcher(fork_rng()?, tx_map, dispatcher_rx);
     let dispatcher = tokio::spawn(dispatcher_task);
     let cancellation = CancellationToken::new();
 
@@ -111,7 +115,7 @@ where
         .zip(entry_points.into_iter())
         .map(|(mut rx, (signer, entry_point))| {
             let tx = dispatcher_tx.clone();
-            let mut rng = rng.clone();
+            let mut rng = fork_rng()?;
 
             let session = Session::<_, SP>::new(&mut rng, session_id.clone(), signer, entry_point)?;
             let id = session.verifier().clone();
-- 
2.43.0


From e8c99762928a224f1be9aa08f5d3f4c963c4e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 19/20] fix: do not panic in run_sync() if no messages are sent

---
 manul/src/dev/run_sync.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/manul/src/dev/run_sync.rs b/manul/src/dev/run_sync.rs
index 5fd9c8f..8b4a2ca 100644
--- a/manul/src/dev/run_sync.rs
+++ b/manul/src/dev/run_sync.rs
@@ -212,7 +212,7 @@ where
         states.insert(verifier, state);
     }
 
-    loop {
+    while !messages.is_empty() {
         // Pick a random message and deliver it
         let message = messages.pop(rng);
 
@@ -247,12 +247,8 @@ where
             state
         };
         states.insert(message.to.clone(), new_state);
-
-        if messages.is_empty() {
-            trace!("All messages delivered, exiting loop");
-            break;
-        }
     }
+    trace!("All messages delivered, exiting loop");
 
     let mut reports = BTreeMap::new();
     for (verifier, state) in states {
-- 
2.43.0


From 071b8d2a53c591ac24fbeb8eb1f0edddcd77557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:12 +0000
Subject: [PATCH 20/20] fix: accept late messages from parent rounds if an echo
 round follows

A party that took another branch may still be in a parent round when this one is in a round
followed by an echo round, or in that echo round. Its message was refused as belonging to
an unexpected round, and it was blamed for it.
---
 manul/src/protocol/round_id.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/manul/src/protocol/round_id.rs b/manul/src/protocol/round_id.rs
index 76678cd..4c27f2e 100644
--- a/manul/src/protocol/round_id.rs
+++ b/manul/src/protocol/round_id.rs
@@ -184,11 +184,10 @@ impl TransitionInfo {
     /// Since a node can be in an echo round we do not take part in, this also includes the echo rounds
     /// of the child and sibling rounds.
     pub(crate) fn simultaneous_rounds(&self, followed_by_echo_round: bool) -> Result<BTreeSet<RoundId>, LocalError> {
-        let mut result = if followed_by_echo_round {
-            BTreeSet::from([self.id.echo()?])
-        } else {
-            self.parents.clone()
-        };
+        let mut result = self.parents.clone();
+        if followed_by_echo_round {
+            result.insert(self.id.echo()?);
+        }
         for round_id in self.siblings.iter().chain(self.children.iter()) {
             result.insert(round_id.echo()?);
             result.insert(round_id.clone());
@@ -201,10 +200,15 @@ impl TransitionInfo {
     }
 
     /// Returns the corresponding transition info for the echo round following this one.
+    ///
+    /// The parents of the main round stay among the parents, since other nodes can still be there
+    /// (on a different path) while we have already finished our part of the main round.
     pub(crate) fn echo(self) -> Result<Self, LocalError> {
+        let mut parents = self.parents;
+        parents.insert(self.id.clone());
         Ok(Self {
             id: self.id.echo()?,
-            parents: [self.id.clone()].into(),
+            parents,
             siblings: self.siblings,
             children: self.children,
             may_produce_result: self.may_produce_result,
-- 
2.43.0

