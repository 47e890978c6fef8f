From 39d727d16e4026feb8bf33643c347c53806c078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 01/17] fix: only accept requests onto an initialized queue of
 this program

process_request_randomness wrote the request into whatever account it was
given: an oracle record, the oracles list or a partially allocated queue,
as long as the program owned it.
---
 program/src/request_randomness.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 616203a..9c04d3c 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -56,6 +56,11 @@ pub fn process_request_randomness(
         .has_seeds(&[IDENTITY], &args.callback_program_id)?
         .is_signer()?;
 
+    // Verify the queue account
+    oracle_queue_info
+        .is_writable()?
+        .has_owner(&ephemeral_vrf_api::ID)?;
+
     // Load slot and slothash
     slothashes_account_info.is_sysvar(&slot_hashes::id())?;
     let slothash: [u8; 32] = slothashes_account_info.try_borrow_data()?[16..48]
@@ -67,9 +72,8 @@ pub fn process_request_randomness(
     {
         // Borrow queue account data and load QueueAccount view
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
-        if data.len() < 8 {
-            return Err(ProgramError::InvalidAccountData);
-        }
+        // Only a fully initialized queue carries the discriminator
+        Queue::try_from_bytes(&data)?;
         // Skip 8-byte discriminator
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
-- 
2.43.0


From 4fa4c1b6ed6c0a9e6db7b61982bc2f10d099fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 02/17] fix: do not close a partially allocated queue

Closing a queue whose allocation had not finished decremented the oracle's
open queue count for a queue that had never been counted.
---
 program/src/close_oracle_queue.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/program/src/close_oracle_queue.rs b/program/src/close_oracle_queue.rs
index 05ed0d1..952483d 100644
--- a/program/src/close_oracle_queue.rs
+++ b/program/src/close_oracle_queue.rs
@@ -59,6 +59,7 @@ pub fn process_close_oracle_queue(accounts: &[AccountInfo], data: &[u8]) -> Prog
     {
         // Borrow data and load QueueAccount view to check emptiness
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
+        Queue::try_from_bytes(&data)?;
         let queue_data = &mut data[8..];
         let queue_acc = QueueAccount::load(queue_data)?;
         if !queue_acc.is_empty() {
-- 
2.43.0


From 4b7ebed0ebb6a6369e7865a3a4b0754890a10908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 03/17] fix: do not purge a partially allocated queue

Anyone could purge a queue between two allocation steps: loading it wrote
the cursor, after which the initialization never completes.
---
 program/src/purge_expired_requests.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/program/src/purge_expired_requests.rs b/program/src/purge_expired_requests.rs
index f49182e..e249adc 100644
--- a/program/src/purge_expired_requests.rs
+++ b/program/src/purge_expired_requests.rs
@@ -32,6 +32,7 @@ pub fn process_purge_expired_requests(accounts: &[AccountInfo<'_>], data: &[u8])
 
     // Borrow queue data and scan/remove expired items using QueueAccount view
     let mut acc_data = oracle_queue_info.try_borrow_mut_data()?;
+    Queue::try_from_bytes(&acc_data)?;
     let queue_data = &mut acc_data[8..];
     let mut queue_acc = QueueAccount::load(queue_data)?;
 
-- 
2.43.0


From 9b688c0b737ec58236722a5a9ad09e2e7dc13205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 04/17] fix: give identical requests of one slot distinct ids

The insertion index hint is the queue length, which repeats when older
requests are fulfilled or purged between two identical requests made in
the same slot.
---
 program/src/request_randomness.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 9c04d3c..6a13f08 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -79,16 +79,26 @@ pub fn process_request_randomness(
         let mut queue_acc = QueueAccount::load(queue_data)?;
 
         // Compute a combined hash that includes a logical insertion index hint
-        let idx = queue_acc.len() as u32;
-        let combined_hash = hashv(&[
-            &args.caller_seed,
-            &slot.to_le_bytes(),
-            &slothash,
-            &args.callback_discriminator,
-            &args.callback_program_id.to_bytes(),
-            &time.to_le_bytes(),
-            &idx.to_le_bytes(),
-        ]);
+        let mut idx = queue_acc.len() as u32;
+        let combined_hash = loop {
+            let combined_hash = hashv(&[
+                &args.caller_seed,
+                &slot.to_le_bytes(),
+                &slothash,
+                &args.callback_discriminator,
+                &args.callback_program_id.to_bytes(),
+                &time.to_le_bytes(),
+                &idx.to_le_bytes(),
+            ]);
+            // The length repeats when older requests leave the queue within the slot
+            if queue_acc
+                .find_item_by_id(&combined_hash.to_bytes())
+                .is_none()
+            {
+                break combined_hash;
+            }
+            idx += 1;
+        };
 
         // Log to simplify gathering all the information needed to recreate the combined_hash.
         msg!("Idx: {}", idx);
-- 
2.43.0


From e03ea902bacca67cd36ce360dff2fe126b349808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 05/17] fix: only the undelegate buffer of a queue can hand it
 back

process_undelegation accepted any signing account owned by the delegation
program. Anyone can create such an account with a keypair and so forge an
account of this program at a free oracle or queue address.
---
 program/src/process_undelegation.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/program/src/process_undelegation.rs b/program/src/process_undelegation.rs
index f4d64f2..3500401 100644
--- a/program/src/process_undelegation.rs
+++ b/program/src/process_undelegation.rs
@@ -1,4 +1,5 @@
-use ephemeral_rollups_sdk::cpi::undelegate_account;
+use ephemeral_rollups_sdk::cpi::{undelegate_account, DELEGATION_PROGRAM_ID};
+use ephemeral_rollups_sdk::pda::UNDELEGATE_BUFFER_TAG;
 use ephemeral_vrf_api::prelude::*;
 
 /// Process the undelegation of an Oracle queue from the delegation program
@@ -31,6 +32,12 @@ pub fn process_undelegation(accounts: &[AccountInfo<'_>], data: &[u8]) -> Progra
         return Err(ProgramError::NotEnoughAccountKeys);
     };
 
+    // Only the delegation program can sign for the undelegate buffer of the queue
+    delegation_buffer.has_seeds(
+        &[UNDELEGATE_BUFFER_TAG, oracle_queue_info.key.as_ref()],
+        &DELEGATION_PROGRAM_ID,
+    )?;
+
     // Undelegate
     undelegate_account(
         oracle_queue_info,
-- 
2.43.0


From ef2b62605c23dd573817a3f4c9eb59e6bd2083dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 06/17] fix: random_u8_with_range over the full range 0..=255

The size of the range overflowed u8.
---
 sdk/src/rnd.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/src/rnd.rs b/sdk/src/rnd.rs
index c98042c..2a4f776 100644
--- a/sdk/src/rnd.rs
+++ b/sdk/src/rnd.rs
@@ -29,17 +29,17 @@ pub fn random_u8(bytes: &[u8; 32]) -> u8 {
 /// a value that falls within an evenly divisible range. If no such value is found,
 /// it falls back to a slightly biased approach using the last byte.
 pub fn random_u8_with_range(bytes: &[u8; 32], min_value: u8, max_value: u8) -> u8 {
-    let range = (max_value - min_value + 1) as u16;
-    let threshold = (256 / range * range) as u8;
+    let range = (max_value - min_value) as u16 + 1;
+    let threshold = 256 / range * range;
 
     // Try to find a byte that, when mapped, gives an unbiased result
     for &b in bytes.iter().rev() {
-        if b < threshold {
-            return min_value + (b % range as u8);
+        if (b as u16) < threshold {
+            return min_value + (b as u16 % range) as u8;
         }
     }
     // Fallback (slight bias, but rare fallback case)
-    min_value + (bytes[31] % range as u8)
+    min_value + (bytes[31] as u16 % range) as u8
 }
 
 /// Generates a random u32 value from a 32-byte random seed
-- 
2.43.0


From 984c75a4cc7f0ba03b6a86ee607cfebb3677a032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 07/17] fix: survive a failing RPC node at start-up

---
 vrf-oracle/src/blockhash_cache.rs | 6 +++---
 vrf-oracle/src/oracle/client.rs   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrf-oracle/src/blockhash_cache.rs b/vrf-oracle/src/blockhash_cache.rs
index 2d405cf..86374d8 100644
--- a/vrf-oracle/src/blockhash_cache.rs
+++ b/vrf-oracle/src/blockhash_cache.rs
@@ -21,8 +21,8 @@ struct CacheData {
 }
 
 impl BlockhashCache {
-    pub async fn new(client: Arc<nonblocking::rpc_client::RpcClient>) -> Self {
-        let (blockhash, slot) = Self::fetch_blockhash_and_slot(&client).await.unwrap();
+    pub async fn new(client: Arc<nonblocking::rpc_client::RpcClient>) -> anyhow::Result<Self> {
+        let (blockhash, slot) = Self::fetch_blockhash_and_slot(&client).await?;
         let inner = Arc::new(RwLock::new(CacheData {
             blockhash,
             slot,
@@ -32,7 +32,7 @@ impl BlockhashCache {
         let cache = Self { inner, client };
 
         cache.spawn_refresh_task();
-        cache
+        Ok(cache)
     }
 
     fn spawn_refresh_task(&self) {
diff --git a/vrf-oracle/src/oracle/client.rs b/vrf-oracle/src/oracle/client.rs
index 8ff49fe..be9e076 100644
--- a/vrf-oracle/src/oracle/client.rs
+++ b/vrf-oracle/src/oracle/client.rs
@@ -102,7 +102,7 @@ impl OracleClient {
             self.rpc_url.clone(),
             CommitmentConfig::processed(),
         ));
-        let blockhash_cache = Arc::new(BlockhashCache::new(Arc::clone(&rpc_client)).await);
+        let blockhash_cache = Arc::new(BlockhashCache::new(Arc::clone(&rpc_client)).await?);
         fetch_and_process_program_accounts(
             &self,
             &rpc_client,
-- 
2.43.0


From 3b203eaed9287798e8dec3836ea56943b2a57a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 08/17] fix: end the blockhash refresh task with its cache

---
 vrf-oracle/src/blockhash_cache.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrf-oracle/src/blockhash_cache.rs b/vrf-oracle/src/blockhash_cache.rs
index 86374d8..dfb91f8 100644
--- a/vrf-oracle/src/blockhash_cache.rs
+++ b/vrf-oracle/src/blockhash_cache.rs
@@ -36,13 +36,17 @@ impl BlockhashCache {
     }
 
     fn spawn_refresh_task(&self) {
-        let inner = self.inner.clone();
+        // The task ends once every copy of the cache is gone
+        let inner = Arc::downgrade(&self.inner);
         let client = self.client.clone();
 
         tokio::spawn(async move {
             loop {
                 tokio::time::sleep(Duration::from_millis(100)).await;
 
+                let Some(inner) = inner.upgrade() else {
+                    break;
+                };
                 let should_refresh = {
                     let cache = inner.read().await;
                     cache.timestamp.elapsed() > Duration::from_secs(60)
-- 
2.43.0


From b1a412e7a43d0370d1eecdce477dd2d0cee740cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:23 +0000
Subject: [PATCH 09/17] fix: retry a request whose task panicked

---
 vrf-oracle/src/oracle/processor.rs | 143 ++++++++++++++++-------------
 1 file changed, 77 insertions(+), 66 deletions(-)

diff --git a/vrf-oracle/src/oracle/processor.rs b/vrf-oracle/src/oracle/processor.rs
index 92a0ecf..1168f3a 100644
--- a/vrf-oracle/src/oracle/processor.rs
+++ b/vrf-oracle/src/oracle/processor.rs
@@ -208,79 +208,90 @@ pub async fn process_oracle_queue(
             }
 
             let handle = tokio::spawn(async move {
-                let mut attempts = 0;
-                let mut confirmed_success = false;
-
-                while attempts < 100 {
-                    match ProcessableItem(item)
-                        .process_item(
-                            &oracle_client_for_proc,
-                            &rpc_client,
-                            &blockhash_cache,
-                            &input_seed,
-                            &queue,
-                            &oracle_queue,
-                            account_bytes_task.as_slice(),
-                        )
-                        .await
-                    {
-                        Ok(signature) => {
-                            trace!(
-                                "Transaction: {}, for id {}",
-                                signature,
-                                Pubkey::new_from_array(item.id)
-                            );
-                            let sig = match signature.parse::<solana_sdk::signature::Signature>() {
-                                Ok(sig) => sig,
-                                Err(_) => {
-                                    continue;
-                                }
-                            };
-
-                            let result = rpc_client
-                                .confirm_transaction_with_commitment(
-                                    &sig,
-                                    CommitmentConfig::processed(),
-                                )
-                                .await;
-
-                            match result {
-                                Ok(success) => {
-                                    if success.value {
-                                        info!(
-                                            "Transaction successfully confirmed: {}, for id: {}",
-                                            signature,
-                                            Pubkey::new_from_array(item.id)
-                                        );
-                                        confirmed_success = true;
-                                        break;
-                                    } else {
-                                        attempts += 1;
-                                        blockhash_cache.refresh_blockhash().await;
-                                        if attempts > 20 {
-                                            let delay_ms = 10 * (attempts - 20);
-                                            sleep(Duration::from_millis(delay_ms)).await;
+                // A panic must not leave the request in-flight for good
+                let confirmed_success = std::panic::AssertUnwindSafe(async {
+                    let mut attempts = 0;
+                    let mut confirmed_success = false;
+
+                    while attempts < 100 {
+                        match ProcessableItem(item)
+                            .process_item(
+                                &oracle_client_for_proc,
+                                &rpc_client,
+                                &blockhash_cache,
+                                &input_seed,
+                                &queue,
+                                &oracle_queue,
+                                account_bytes_task.as_slice(),
+                            )
+                            .await
+                        {
+                            Ok(signature) => {
+                                trace!(
+                                    "Transaction: {}, for id {}",
+                                    signature,
+                                    Pubkey::new_from_array(item.id)
+                                );
+                                let sig = match signature.parse::<solana_sdk::signature::Signature>() {
+                                    Ok(sig) => sig,
+                                    Err(_) => {
+                                        continue;
+                                    }
+                                };
+
+                                let result = rpc_client
+                                    .confirm_transaction_with_commitment(
+                                        &sig,
+                                        CommitmentConfig::processed(),
+                                    )
+                                    .await;
+
+                                match result {
+                                    Ok(success) => {
+                                        if success.value {
+                                            info!(
+                                                "Transaction successfully confirmed: {}, for id: {}",
+                                                signature,
+                                                Pubkey::new_from_array(item.id)
+                                            );
+                                            confirmed_success = true;
+                                            break;
+                                        } else {
+                                            attempts += 1;
+                                            blockhash_cache.refresh_blockhash().await;
+                                            if attempts > 20 {
+                                                let delay_ms = 10 * (attempts - 20);
+                                                sleep(Duration::from_millis(delay_ms)).await;
+                                            }
                                         }
                                     }
-                                }
-                                Err(err) => {
-                                    warn!("Transaction {sig} failed to confirm: {err}");
-                                    attempts += 3;
-                                    blockhash_cache.refresh_blockhash().await;
+                                    Err(err) => {
+                                        warn!("Transaction {sig} failed to confirm: {err}");
+                                        attempts += 3;
+                                        blockhash_cache.refresh_blockhash().await;
+                                    }
                                 }
                             }
-                        }
-                        Err(_) => {
-                            // Response may be in the same slot, we retry with linear backoff
-                            blockhash_cache.refresh_blockhash().await;
-                            if attempts > 5 {
-                                let delay_ms = 20 * (attempts - 5);
-                                sleep(Duration::from_millis(delay_ms)).await;
+                            Err(_) => {
+                                // Response may be in the same slot, we retry with linear backoff
+                                blockhash_cache.refresh_blockhash().await;
+                                if attempts > 5 {
+                                    let delay_ms = 20 * (attempts - 5);
+                                    sleep(Duration::from_millis(delay_ms)).await;
+                                }
+                                attempts += 1;
                             }
-                            attempts += 1;
                         }
                     }
-                }
+
+                    confirmed_success
+                })
+                .catch_unwind()
+                .await
+                .unwrap_or_else(|e| {
+                    error!("Request task for {queue} panicked: {e:?}");
+                    false
+                });
 
                 // Task finished. Remove from active_tasks. If not confirmed, also clear inflight to allow retry.
                 {
-- 
2.43.0


From 85c18170c749476d130dec1e249d697ff13d9e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:40 +0000
Subject: [PATCH 10/17] fix: retry a confirmed answer that a fork dropped

---
 vrf-oracle/src/oracle/processor.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/vrf-oracle/src/oracle/processor.rs b/vrf-oracle/src/oracle/processor.rs
index 1168f3a..c3920c3 100644
--- a/vrf-oracle/src/oracle/processor.rs
+++ b/vrf-oracle/src/oracle/processor.rs
@@ -26,6 +26,9 @@ use std::time::Duration;
 use tokio::task;
 use tokio::time::sleep;
 
+/// How long a confirmed response may take to show up in the queue before it is sent again.
+const CONFIRMED_GRACE: Duration = Duration::from_secs(30);
+
 pub async fn fetch_and_process_program_accounts(
     oracle_client: &Arc<OracleClient>,
     rpc_client: &Arc<RpcClient>,
@@ -293,7 +296,13 @@ pub async fn process_oracle_queue(
                     false
                 });
 
-                // Task finished. Remove from active_tasks. If not confirmed, also clear inflight to allow retry.
+                if confirmed_success {
+                    // The task is aborted once the item leaves the queue. If it is still there
+                    // after a while, the confirmed block was dropped and the item needs a retry.
+                    sleep(CONFIRMED_GRACE).await;
+                }
+
+                // Task finished. Remove from active_tasks and clear inflight to allow retry.
                 {
                     let mut tasks_all = oracle_client_for_cleanup.active_tasks.write().await;
                     if let Some(tasks_for_queue) = tasks_all.get_mut(&queue_key_spawn) {
@@ -301,12 +310,9 @@ pub async fn process_oracle_queue(
                     }
                 }
 
-                if !confirmed_success {
-                    let mut inflight_all =
-                        oracle_client_for_cleanup.inflight_requests.write().await;
-                    if let Some(inflight_for_queue) = inflight_all.get_mut(&queue_key_spawn) {
-                        inflight_for_queue.remove(&item.id);
-                    }
+                let mut inflight_all = oracle_client_for_cleanup.inflight_requests.write().await;
+                if let Some(inflight_for_queue) = inflight_all.get_mut(&queue_key_spawn) {
+                    inflight_for_queue.remove(&item.id);
                 }
             });
 
-- 
2.43.0


From dcc06d623f82bf1541d0107db25b24bee82e3ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 11/17] fix: list-queue covers every queue index and reports
 RPC errors

---
 vrf-cli/src/main.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index 1d3f67e..36842b0 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -198,11 +198,16 @@ async fn main() -> Result<()> {
             exit(0)
         }
         Commands::ListQueue {} => {
-            for i in 0..20 {
-                let queue = oracle_queue_pda(&signer.pubkey(), i).0;
-                let acc = rpc_client.get_account(&queue);
-                if acc.is_ok() {
-                    let account = acc?;
+            // Every index; a node answers for at most 100 accounts at a time
+            let queues: Vec<Pubkey> = (0..=u8::MAX)
+                .map(|i| oracle_queue_pda(&signer.pubkey(), i).0)
+                .collect();
+            for chunk in queues.chunks(100) {
+                let accounts = rpc_client.get_multiple_accounts(chunk)?;
+                for (queue, account) in chunk.iter().zip(accounts) {
+                    let Some(account) = account else {
+                        continue;
+                    };
                     let queue_struct = match Queue::try_from_bytes(account.data.as_slice()) {
                         Ok(q) => q,
                         Err(_) => {
-- 
2.43.0


From ccc4bd45193966ed2c14a5353828757aa76138f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 12/17] fix: initialising a queue of size 0 is refused instead
 of doing nothing

---
 api/src/sdk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/sdk.rs b/api/src/sdk.rs
index 7866be9..1474d61 100644
--- a/api/src/sdk.rs
+++ b/api/src/sdk.rs
@@ -79,7 +79,7 @@ pub fn initialize_oracle_queue(
         oracle_queue_pda(&identity, index).0.to_string()
     );
     let target_size = bytes_to_allocate.unwrap_or(9500);
-    let inits = target_size.div_ceil(10240);
+    let inits = target_size.div_ceil(10240).max(1);
     let mut ixs = Vec::with_capacity(inits as usize);
     for _ in 0..inits {
         ixs.push(Instruction {
-- 
2.43.0


From 077529e275aa54d125e089c652b5b48491edf3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 13/17] fix: close-oracle-queue closes the named queue or
 nothing

---
 vrf-cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index 36842b0..b60a39b 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -185,6 +185,10 @@ async fn main() -> Result<()> {
             let queue = Pubkey::from_str(queue)?;
             let queue_account = rpc_client.get_account(&queue)?;
             let queue_struct = Queue::try_from_bytes(queue_account.data.as_slice())?;
+            // The instruction names the signer's queue with this index
+            if oracle_queue_pda(&signer.pubkey(), queue_struct.index).0 != queue {
+                anyhow::bail!("Queue {queue} does not belong to {}", signer.pubkey());
+            }
             println!(
                 "Closing oracle queue: {} with index: {}",
                 queue, queue_struct.index
-- 
2.43.0


From 70a1119450cfa796a5e607b67a78d5e40ef36468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 14/17] fix: keep the oracle's identity and API key out of its
 help text

---
 vrf-oracle/src/args.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrf-oracle/src/args.rs b/vrf-oracle/src/args.rs
index 0a34975..1e5dac2 100644
--- a/vrf-oracle/src/args.rs
+++ b/vrf-oracle/src/args.rs
@@ -3,7 +3,7 @@ use clap::Parser;
 #[derive(Parser, Debug)]
 #[command(author, version, about)]
 pub struct Args {
-    #[arg(long, env = "VRF_ORACLE_IDENTITY")]
+    #[arg(long, env = "VRF_ORACLE_IDENTITY", hide_env_values = true)]
     pub identity: Option<String>,
 
     #[arg(long, env = "RPC_URL", default_value = "http://localhost:8899")]
@@ -12,7 +12,7 @@ pub struct Args {
     #[arg(long, env = "WEBSOCKET_URL", default_value = "ws://localhost:8900")]
     pub websocket_url: String,
 
-    #[arg(long, env = "LASERSTREAM_API_KEY")]
+    #[arg(long, env = "LASERSTREAM_API_KEY", hide_env_values = true)]
     pub laserstream_api_key: Option<String>,
 
     #[arg(long, env = "LASERSTREAM_ENDPOINT")]
-- 
2.43.0


From 48f69540180177367bd926924927af69df4ca6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 15/17] fix: keep the operator's keypair out of vrf-cli's help
 text

---
 vrf-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index b60a39b..e23c5eb 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -22,7 +22,7 @@ struct Args {
     rpc_url: String,
 
     /// Base58 encoded keypair
-    #[arg(short, long, env = "KEYPAIR_BASE58")]
+    #[arg(short, long, env = "KEYPAIR_BASE58", hide_env_values = true)]
     keypair: Option<String>,
 
     #[command(subcommand)]
-- 
2.43.0


From 1f8c56aad9e1c9b9472015e4863402dcc2d2165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 16/17] fix: purge a queue of any length within the compute
 budget and heap

---
 api/src/state/queue.rs                | 34 ++++++++++++++++++++++++
 program/src/purge_expired_requests.rs | 38 ++++++++++-----------------
 2 files changed, 48 insertions(+), 24 deletions(-)

diff --git a/api/src/state/queue.rs b/api/src/state/queue.rs
index e83eb51..06999dc 100644
--- a/api/src/state/queue.rs
+++ b/api/src/state/queue.rs
@@ -437,6 +437,40 @@ impl<'a> QueueAccount<'a> {
         Err(EphemeralVrfError::InvalidQueueIndex.into())
     }
 
+    /// Remove all used items selected by `remove`, in one pass over the queue.
+    pub fn remove_items(&mut self, mut remove: impl FnMut(&QueueItem) -> bool) {
+        let mut cursor = Self::items_start();
+        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);
+        let align = core::mem::align_of::<QueueItem>();
+
+        while cursor + size_of::<QueueItem>() <= end {
+            let bytes = &mut self.acc[cursor..cursor + size_of::<QueueItem>()];
+            let mut item = Self::read_item_unaligned(bytes);
+
+            if item.used == 1 && remove(&item) {
+                item.used = 0;
+                self.header.item_count = self.header.item_count.saturating_sub(1);
+                Self::write_item_unaligned(bytes, &item);
+            }
+
+            let metas_bytes = (item.metas_len as usize) * size_of::<CompactAccountMeta>();
+            let next = Self::align_up(
+                cursor
+                    + size_of::<QueueItem>()
+                    + (item.callback_discriminator_len as usize)
+                    + metas_bytes
+                    + (item.args_len as usize),
+                align,
+            );
+            if next <= cursor {
+                break;
+            }
+            cursor = next;
+        }
+
+        self.trim_trailing_holes();
+    }
+
     /// Find first used item by id, returning its logical index and value.
     pub fn find_item_by_id(&self, id: &[u8; 32]) -> Option<(usize, QueueItem)> {
         let mut current = 0usize;
diff --git a/program/src/purge_expired_requests.rs b/program/src/purge_expired_requests.rs
index e249adc..03b3e5b 100644
--- a/program/src/purge_expired_requests.rs
+++ b/program/src/purge_expired_requests.rs
@@ -36,34 +36,24 @@ pub fn process_purge_expired_requests(accounts: &[AccountInfo<'_>], data: &[u8])
     let queue_data = &mut acc_data[8..];
     let mut queue_acc = QueueAccount::load(queue_data)?;
 
-    // Scan and remove expired items by logical index
+    // Remove expired items in a single pass: looking each item up by index, or logging each
+    // removal, exceeds the compute budget or the heap once some hundreds of items are queued
     let mut total_cost: u64 = 0;
-    let mut i: usize = 0;
     msg!("Items in the queue: {}", queue_acc.len());
-    while i < queue_acc.len() {
-        // Safe to unwrap: index < len()
-        let item = queue_acc
-            .get_item_by_index(i)
-            .ok_or(ProgramError::InvalidAccountData)?;
+    queue_acc.remove_items(|item| {
         let age = current_slot.saturating_sub(item.slot);
-        if age > QUEUE_TTL_SLOTS {
-            let cost = if item.priority_request == 1 {
-                VRF_HIGH_PRIORITY_LAMPORTS_COST
-            } else {
-                VRF_LAMPORTS_COST
-            };
-            total_cost = total_cost.saturating_add(cost);
-            let _ = queue_acc.remove_item(i)?;
-            msg!(
-                "Removing item {} from queue, new size {}",
-                i,
-                queue_acc.len()
-            );
-            // do not increment i; next item shifts into this index
-        } else {
-            i += 1;
+        if age <= QUEUE_TTL_SLOTS {
+            return false;
         }
-    }
+        let cost = if item.priority_request == 1 {
+            VRF_HIGH_PRIORITY_LAMPORTS_COST
+        } else {
+            VRF_LAMPORTS_COST
+        };
+        total_cost = total_cost.saturating_add(cost);
+        true
+    });
+    msg!("Items left in the queue: {}", queue_acc.len());
 
     // Send the fees to the oracle.
     // The oracle also accrue fees on malformed/expired requests to
-- 
2.43.0


From 99e92c4dc6a26c9c06347cbcf3f7e92a00a46c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 17/17] fix: requests on two queues of one oracle in a slot
 could get the same id and randomness

---
 program/src/request_randomness.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 6a13f08..162b129 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -89,6 +89,8 @@ pub fn process_request_randomness(
                 &args.callback_program_id.to_bytes(),
                 &time.to_le_bytes(),
                 &idx.to_le_bytes(),
+                // An oracle uses the same key for all of its queues
+                oracle_queue_info.key.as_ref(),
             ]);
             // The length repeats when older requests leave the queue within the slot
             if queue_acc
-- 
2.43.0

