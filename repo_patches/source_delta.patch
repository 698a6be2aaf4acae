From fe22c9eb6cc71b30c5e68ee35e09ce9345cedd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 01/14] fix: don't assert that the send buffer always matches
 max_packet_size

set_config() may change max_packet_size, after which every message sent would
panic in builds with debug assertions.
---
 src/lib.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4243788..1c0dfc5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1444,11 +1444,6 @@ where
         //     This must be done for every return point in send_message
         self.send_buf.clear();
         let mut buf = mem::take(&mut self.send_buf).limit(self.config.max_packet_size.get());
-        debug_assert_eq!(
-            buf.get_ref().capacity(),
-            self.config.max_packet_size.get(),
-            "send_buf lost capacity, would trigger unnecessary allocs"
-        );
 
         if let Err(err) = self
             .codec
-- 
2.43.0


From 7f709f8ef8bd777f5c61d0415a887a6163edb649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 02/14] fix: don't overflow the Feed member tally

num_items is an u16, but an instance may know (and have space for) more
than 65535 active members.
---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1c0dfc5..e340aac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1473,8 +1473,11 @@ where
                 self.members.choose_active_members(
                     // Done in order to prevent copying and sorting a large
                     // set of members just to not use them at all because
-                    // they don't fit the remaining buffer
-                    self.estimate_feed_capacity(buf.remaining_mut()),
+                    // they don't fit the remaining buffer (or the u16 tally)
+                    usize::min(
+                        self.estimate_feed_capacity(buf.remaining_mut()),
+                        u16::MAX.into(),
+                    ),
                     &mut self.choice_buf,
                     &mut self.rng,
                     |member| member != &dst,
-- 
2.43.0


From 859e64174b987e066d5305c1ba4f9ad9ec78559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 03/14] fix: don't divide by zero when estimating the Feed
 capacity

A codec may encode a header in a single byte (or even fewer than two),
making the estimated identity length zero.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e340aac..e3e1610 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1412,7 +1412,11 @@ where
         // bound.
         // Header contains 2 identities + message::feed + incarnation(u16)
         // so header_len / 2 is good enough for identity_len
-        let identity_len = { self.config.max_packet_size.get().saturating_sub(remaining) / 2 };
+        // (never zero: a header may be encoded in a single byte)
+        let identity_len = usize::max(
+            self.config.max_packet_size.get().saturating_sub(remaining) / 2,
+            1,
+        );
         // and we always answer at least 5, in case the estimation is bonkers
         usize::max(remaining / identity_len, 5)
     }
-- 
2.43.0


From b85eb17466badef377168f8657b8efc938289652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 04/14] fix: reject custom broadcasts that don't fit their
 length prefix

Items are prefixed by an u16 length: anything larger would be sent with
a truncated length, resulting in a malformed datagram.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e3e1610..f258b88 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -593,8 +593,9 @@ where
             return Err(Error::MalformedPacket);
         }
 
-        // Not considering the whole header
-        if data.len() > self.config.max_packet_size.get() {
+        // Not considering the whole header. Items are sent with a u16
+        // length prefix, so they can't be larger than that either
+        if data.len() > self.config.max_packet_size.get() || data.len() > u16::MAX.into() {
             return Err(Error::DataTooBig);
         }
 
-- 
2.43.0


From c660362b880a44ff75f3cf6bcd5c97d9826fea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 05/14] fix: don't preallocate whatever the configuration asks
 for

max_packet_size and num_indirect_probes are arbitrary usize values:
using them as initial capacity makes the constructor panic (capacity
overflow) or abort with large-but-valid settings.
---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f258b88..f9ee18b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,8 +252,9 @@ where
         codec: C,
         broadcast_handler: B,
     ) -> Self {
-        let max_indirect_probes = config.num_indirect_probes.get();
-        let max_bytes = config.max_packet_size.get();
+        // Just a sane starting point: the buffer grows if needed, up to
+        // `Config::max_packet_size`
+        let send_buf_capacity = usize::min(config.max_packet_size.get(), u16::MAX.into());
         Self {
             identity,
             config,
@@ -262,12 +263,12 @@ where
             incarnation: Incarnation::default(),
             timer_token: TimerToken::default(),
             members: Members::new(Vec::new()),
-            probe: Probe::new(Vec::with_capacity(max_indirect_probes)),
+            probe: Probe::new(Vec::new()),
             updates_buf: Vec::new(),
             choice_buf: Vec::new(),
             connection_state: ConnectionState::Disconnected,
             updates: Broadcasts::new(),
-            send_buf: Vec::with_capacity(max_bytes),
+            send_buf: Vec::with_capacity(send_buf_capacity),
             custom_broadcasts: Broadcasts::new(),
             broadcast_handler,
         }
-- 
2.43.0


From c914750042e2e07d9d2b80a63a837541afadd75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 06/14] fix: only let a suspicion timeout affect the identity
 it's about

The address may have been taken over by a newer identity with the same
incarnation, and the member may already be known as Down, in which case
the timeout isn't what made it so and there is nothing to notify.
---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f9ee18b..a30daad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -711,17 +711,19 @@ where
                         .members
                         // Down is terminal, so before doing that we ensure the member
                         // is still under suspicion.
-                        // Checking only incarnation is sufficient because to refute
-                        // suspicion the member must increment its own incarnation
+                        // To refute suspicion the member must increment its own
+                        // incarnation; the address may also belong to a different
+                        // (newer) identity by now
                         .apply_existing_if(as_down.clone(), |member| {
-                            member.incarnation() == incarnation
+                            member.id() == &member_id && member.incarnation() == incarnation
                         })
                     {
+                        let went_down = summary.apply_successful;
                         self.handle_apply_summary(summary, as_down, true, &mut runtime)?;
                         // Member went down we might need to adjust our internal state
                         self.adjust_connection_state(&mut runtime);
 
-                        if self.config.notify_down_members {
+                        if went_down && self.config.notify_down_members {
                             // As a courtesy, we send a lightweight message to the member
                             // we're declaring down so that if it manages to receive it,
                             // it can react accordingly
-- 
2.43.0


From 1e73afc3d00399d5e7f1ee1c5f3a24923d073b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 07/14] fix: don't bounce TurnUndead back and forth

Two members that consider each other down and are both notifying would
reply to every TurnUndead with another TurnUndead, endlessly.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a30daad..24a1240 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -968,11 +968,16 @@ where
             // So we handle TurnUndead here, otherwise the nodes will be
             // spamming each other with this message until enough time passes
             // that foca forgets the down member (`Config::remove_down_after`)
+            // If we already knew our fate when receiving TurnUndead there's
+            // nothing to reply with: otherwise a pair of undead members would
+            // keep bouncing this message back and forth
+            let mut notify_sender = self.config.notify_down_members;
             if message == Message::TurnUndead {
+                notify_sender &= self.connection_state != ConnectionState::Undead;
                 self.handle_self_update(Incarnation::default(), State::Down, &mut runtime)?;
             }
 
-            if self.config.notify_down_members {
+            if notify_sender {
                 self.send_message(src, Message::TurnUndead, runtime)?;
             }
 
-- 
2.43.0


From 42d65143718457a5ce5b44d4941b811765881db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 08/14] fix: never announce to our own address

Previous identities of ours may be known as down members.
---
 src/lib.rs    |  9 +++++++--
 src/member.rs | 17 ++++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 24a1240..baa4311 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -494,8 +494,13 @@ where
 
     fn announce_to_down(&mut self, num_members: usize, mut runtime: impl Runtime<T>) -> Result<()> {
         self.choice_buf.clear();
-        self.members
-            .choose_down_members(num_members, &mut self.choice_buf, &mut self.rng);
+        self.members.choose_down_members_if(
+            num_members,
+            &mut self.choice_buf,
+            &mut self.rng,
+            // Our own previous identities may be known as down too
+            |id| id.addr() != self.identity.addr(),
+        );
 
         while let Some(chosen) = self.choice_buf.pop() {
             self.send_message(chosen.into_identity(), Message::Announce, &mut runtime)?;
diff --git a/src/member.rs b/src/member.rs
index 3c0daa1..42fb274 100644
--- a/src/member.rs
+++ b/src/member.rs
@@ -240,13 +240,28 @@ where
         }
     }
 
+    #[cfg(test)]
     pub(crate) fn choose_down_members(
         &self,
         wanted: usize,
         output: &mut Vec<Member<T>>,
         rng: impl Rng,
     ) {
-        self.choose_members(wanted, output, rng, |member| !member.is_active());
+        self.choose_down_members_if(wanted, output, rng, |_| true);
+    }
+
+    pub(crate) fn choose_down_members_if<F>(
+        &self,
+        wanted: usize,
+        output: &mut Vec<Member<T>>,
+        rng: impl Rng,
+        picker: F,
+    ) where
+        F: Fn(&T) -> bool,
+    {
+        self.choose_members(wanted, output, rng, |member| {
+            !member.is_active() && picker(member.id())
+        });
     }
 
     pub(crate) fn choose_active_members<F>(
-- 
2.43.0


From 6b7a24200b3ccd59f5ed694246548269544ab0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 09/14] fix: stay Defunct until the identity is explicitly
 changed

A member that left the cluster would rejoin it automatically, without
ever being asked to, if it learned about being down or suspected.
---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index baa4311..4fb23a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1629,6 +1629,11 @@ where
                     self.incarnation = incarnation.saturating_add(1);
                 }
 
+                // Not part of the cluster anymore: there's no one to convince
+                if self.connection_state == ConnectionState::Undead {
+                    return Ok(());
+                }
+
                 // We do NOT add ourselves as Alive to the updates buffer
                 // because it's unnecessary: by bumping our incarnation *any*
                 // message we send will be interpreted as a broadcast update
@@ -1654,6 +1659,12 @@ where
     }
 
     fn attempt_rejoin(&mut self, mut runtime: impl Runtime<T>) -> Result<bool> {
+        // Already left the cluster (or failed to rejoin before), so coming
+        // back requires manual intervention
+        if self.connection_state == ConnectionState::Undead {
+            return Ok(false);
+        }
+
         if let Some(new_identity) = self.identity.renew() {
             if self.identity == new_identity {
                 #[cfg(feature = "tracing")]
-- 
2.43.0


From 4077ee3b39ee4c62c444e0d65f0693aa21e7bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 10/14] fix: don't give up the identity because of an outdated
 suspicion

Suspicion at an incarnation lower than the current one has already been
refuted, even when the current one is the maximum.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4fb23a2..42d72c2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1615,7 +1615,7 @@ where
 
                 // We need to rejoin the cluster when this situation happens
                 // because it will be impossible to refute suspicion
-                if incarnation == Incarnation::MAX {
+                if increase_incarnation && incarnation == Incarnation::MAX {
                     if !self.attempt_rejoin(&mut runtime)? {
                         #[cfg(feature = "tracing")]
                         tracing::debug!("Inactive: reached Incarnation::MAX",);
-- 
2.43.0


From 406ff5955811b171e8a0c7253963a8358ccf5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 11/14] fix: don't suspect an identity that hasn't been probed

The probed address may belong to a different identity by the time the
probe is found to have failed.
---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42d72c2..43f36d3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1174,12 +1174,12 @@ where
             //  3. The member is now Down, either by leaving voluntarily or by
             //     being declared down by another cluster member
             //
-            //  4. The member doesn't exist anymore. i.e. a newer identity with
-            //     the same address has appeared in the cluster
+            //  4. The member doesn't exist anymore. i.e. a different identity
+            //     with the same address has appeared in the cluster
             let as_suspect = Member::new(failed.id().clone(), failed.incarnation(), State::Suspect);
             if let Some(summary) = self
                 .members
-                .apply_existing_if(as_suspect.clone(), |_member| true)
+                .apply_existing_if(as_suspect.clone(), |member| member.id() == failed.id())
             {
                 let is_active_now = summary.is_active_now;
                 #[cfg_attr(not(feature = "tracing"), expect(unused_variables))]
-- 
2.43.0


From 7d1e8509d2e9e722f24ab681b35e26662ce8eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 12/14] fix: don't rejoin with an identity that's known as down

The renewed identity may have been declared down already (when restarting
with an older one, for instance).
---
 src/lib.rs    | 11 ++++++++++-
 src/member.rs |  6 ++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 43f36d3..a5b3184 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1665,7 +1665,16 @@ where
             return Ok(false);
         }
 
-        if let Some(new_identity) = self.identity.renew() {
+        let renewed = self.identity.renew().and_then(|id| {
+            // The identity we'd switch to may be known as dead already
+            if self.members.is_down(&id) {
+                id.renew()
+            } else {
+                Some(id)
+            }
+        });
+
+        if let Some(new_identity) = renewed {
             if self.identity == new_identity {
                 #[cfg(feature = "tracing")]
                 tracing::debug!("Rejoin failure: Identity::renew() returned same id",);
diff --git a/src/member.rs b/src/member.rs
index 42fb274..fa71bd6 100644
--- a/src/member.rs
+++ b/src/member.rs
@@ -297,6 +297,12 @@ where
             .any(|member| &member.id == id && member.is_active())
     }
 
+    pub(crate) fn is_down(&self, id: &T) -> bool {
+        self.inner
+            .iter()
+            .any(|member| &member.id == id && !member.is_active())
+    }
+
     pub(crate) fn apply_existing_if<F: Fn(&Member<T>) -> bool>(
         &mut self,
         mut update: Member<T>,
-- 
2.43.0


From 88ab3d394dfc9b920db0beb4b1e8ce5e5292d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 13/14] fix: never list our own address as active after
 changing identity

The new address may be in use by a known active member.
---
 src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a5b3184..dc468bf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -315,7 +315,7 @@ where
     ///
     /// Intended to be used when identities carry metadata that occasionally
     /// changes.
-    pub fn change_identity(&mut self, new_id: T, runtime: impl Runtime<T>) -> Result<()> {
+    pub fn change_identity(&mut self, new_id: T, mut runtime: impl Runtime<T>) -> Result<()> {
         if self.identity == new_id {
             Err(Error::SameIdentity)
         } else {
@@ -340,6 +340,18 @@ where
                     .add_or_replace(addr, data, self.config.max_transmissions.get().into());
             }
 
+            // Similarly, whoever is using our (new) address isn't active:
+            // we're the ones using it now
+            let usurped = self
+                .members
+                .iter_active()
+                .find(|member| member.id().addr() == self.identity.addr())
+                .map(|member| Member::down(member.id().clone()));
+            if let Some(as_down) = usurped {
+                let summary = self.members.apply(as_down.clone(), &mut self.rng);
+                self.handle_apply_summary(summary, as_down, false, &mut runtime)?;
+            }
+
             self.gossip(runtime)?;
 
             Ok(())
-- 
2.43.0


From 8f633469b56e606ffe90ea37890955c24aad08f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 14/14] fix: announce the new identity to the known members
 after rejoining

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index dc468bf..c7fe43a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1704,6 +1704,16 @@ where
 
                 runtime.notify(Notification::Rejoin(&new_identity));
 
+                // The members we know may have been forced to rejoin too, in
+                // which case they don't answer to the identity we know anymore
+                // and there might be no one left to talk to: unlike anything
+                // else, an announcement gets accepted based on the address
+                self.choose_and_send(
+                    self.config.num_indirect_probes.get(),
+                    Message::Announce,
+                    &mut runtime,
+                )?;
+
                 Ok(true)
             }
         } else {
-- 
2.43.0

