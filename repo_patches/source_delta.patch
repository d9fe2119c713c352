From d2dc400100591718b18bf52a9434ae375e58490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:12 +0000
Subject: [PATCH 1/3] fix: a timeout on a replaced channel no longer closes the
 current ordered channel

---
 src/ibc/relay.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index c22860f..8cf8ca7 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -54,9 +54,11 @@ pub fn ibc_packet_timeout(
     _env: Env,
     msg: IbcPacketTimeoutMsg,
 ) -> Result<IbcBasicResponse, ContractError> {
-    // If the channel is ordered, close it.
+    // If the packet was sent on the stored channel and it is ordered, close it.
     let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
-    if channel_state.is_ordered() {
+    if channel_state.is_ordered()
+        && channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id
+    {
         channel_state.close();
         state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
     }
-- 
2.43.0


From 3797bb55e252e42996909daef86e9e417a89ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:12 +0000
Subject: [PATCH 2/3] fix: reject a channel open ack while another channel is
 open

---
 src/ibc/handshake.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ibc/handshake.rs b/src/ibc/handshake.rs
index 8d731a3..0ec5f63 100644
--- a/src/ibc/handshake.rs
+++ b/src/ibc/handshake.rs
@@ -170,6 +170,14 @@ mod ibc_channel_open {
             return Err(ContractError::InvalidIcaAddress);
         }
 
+        // Another handshake may have completed since this one was initiated,
+        // an open channel must not be replaced
+        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
+            if channel_state.is_open() {
+                return Err(ContractError::ActiveChannelAlreadySet);
+            }
+        }
+
         // update state with the ica info
         state.set_ica_info(
             &metadata.address,
-- 
2.43.0


From 5764c772f6015d1cc1a812841ff4eecbb481c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:27 +0000
Subject: [PATCH 3/3] fix: an error acknowledgement resolves its own query
 record and reports a query result only if there was one

---
 src/ibc/relay.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index 8cf8ca7..8641d4c 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -144,12 +144,19 @@ mod ibc_packet_ack {
         let state = state::STATE.load(deps.storage)?;
         let error_event = events::packet_ack::error(&packet, &err);
 
+        // The query result is only present if the packet contained queries
+        let query_result = state::PENDING_QUERIES
+            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
+            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));
+
+        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
+
         if let Some(contract_addr) = state.callback_address {
             let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
-                ica_acknowledgement: AcknowledgementData::Error(err.clone()),
+                ica_acknowledgement: AcknowledgementData::Error(err),
                 original_packet: packet,
                 relayer,
-                query_result: Some(query_msg::IcaQueryResult::Error(err)),
+                query_result,
             }
             .into_cosmos_msg(contract_addr)?;
 
-- 
2.43.0

