From c5a3e754619171fcd86aaa00e67081f45f0b7945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:37 +0000
Subject: [PATCH 1/3] fix: list a staker's withdrawals even if a record address
 was pre-funded

Anyone can send lamports to the address of a future withdrawal record. The
address then resolves to an empty system-owned account, which made
fetch_pending_withdraws_for_staker fail to decode it and return an error
instead of the staker's records.
---
 rust-client/src/utils/mod.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index 47bcbba..c1f0761 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -1,7 +1,7 @@
-use crate::generated::accounts::{fetch_all_maybe_pending_withdraw, fetch_state};
-use crate::generated::shared;
+use crate::generated::accounts::fetch_state;
 use crate::{
     find_orca_vault_address, find_pending_withdraw_pda, find_state_address, PendingWithdraw, State,
+    XORCA_STAKING_PROGRAM_ID,
 };
 use anyhow::Context;
 use solana_client::rpc_client::RpcClient;
@@ -90,16 +90,18 @@ pub fn fetch_pending_withdraws_for_staker(
     }
 
     // Fetch all accounts (including non-existent ones)
-    let maybe_accounts = fetch_all_maybe_pending_withdraw(rpc, &addresses)?;
+    let accounts = rpc
+        .get_multiple_accounts(&addresses)
+        .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
 
-    // Filter out non-existent accounts and extract the data
-    let pending_withdraws: Vec<PendingWithdraw> = maybe_accounts
+    // Filter out non-existent accounts and decode the rest. Anyone can send lamports to a record
+    // address before it is used: such an account is not (yet) owned by the program.
+    let pending_withdraws = accounts
         .into_iter()
-        .filter_map(|maybe_account| match maybe_account {
-            shared::MaybeAccount::Exists(decoded) => Some(decoded.data),
-            shared::MaybeAccount::NotFound(_) => None,
-        })
-        .collect();
+        .flatten()
+        .filter(|account| account.owner == XORCA_STAKING_PROGRAM_ID)
+        .map(|account| PendingWithdraw::from_bytes(&account.data))
+        .collect::<Result<Vec<PendingWithdraw>, std::io::Error>>()?;
 
     Ok(pending_withdraws)
 }
-- 
2.43.0


From 60c23828fcee30d574463b010240417b0ef2ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:36 +0000
Subject: [PATCH 2/3] fix: search more than 100 withdrawal indices

An RPC node answers at most 100 addresses per getMultipleAccounts request, so
fetch_pending_withdraws_for_staker failed for a search limit above 100. Ask for
the addresses in chunks.
---
 rust-client/src/utils/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index c1f0761..ccaab90 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -12,6 +12,8 @@ use spl_token_interface::state::{Account, Mint};
 use std::str::FromStr;
 
 pub const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH: u8 = 15;
+/// Most accounts an RPC node returns for one `getMultipleAccounts` request
+const MAX_ACCOUNTS_PER_REQUEST: usize = 100;
 pub const ORCA_MINT_ADDRESS: &str = "orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE";
 pub const XORCA_MINT_ADDRESS: &str = "xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N";
 pub const TOKEN_PROGRAM_ADDRESS: &str = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA";
@@ -90,9 +92,13 @@ pub fn fetch_pending_withdraws_for_staker(
     }
 
     // Fetch all accounts (including non-existent ones)
-    let accounts = rpc
-        .get_multiple_accounts(&addresses)
-        .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
+    let mut accounts = Vec::with_capacity(addresses.len());
+    for chunk in addresses.chunks(MAX_ACCOUNTS_PER_REQUEST) {
+        accounts.extend(
+            rpc.get_multiple_accounts(chunk)
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?,
+        );
+    }
 
     // Filter out non-existent accounts and decode the rest. Anyone can send lamports to a record
     // address before it is used: such an account is not (yet) owned by the program.
-- 
2.43.0


From 1615dc27a514538d13a99989ab9e0114a4376e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:39 +0000
Subject: [PATCH 3/3] fix: fetch more than 100 pending withdrawals in the JS
 client

---
 js-client/src/utils/index.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index ba17fb8..9ba3add 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -25,6 +25,8 @@ const XORCA_MINT_ADDRESS = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N' as Addr
 
 const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH = 15;
 const WITHDRAW_INDEX_MAX_UINT = 255;
+// The RPC accepts at most this many addresses per getMultipleAccounts request.
+const MAX_ACCOUNTS_PER_REQUEST = 100;
 
 export async function findStateAddress(): Promise<ProgramDerivedAddress> {
   return await getProgramDerivedAddress({
@@ -95,11 +97,14 @@ export async function fetchPendingWithdrawsForStaker(
       findPendingWithdrawAddress(staker, index).then(([address]) => address)
     )
   );
-  const accounts = await rpc
-    .getMultipleAccounts(pendingWithdrawAddresses, { encoding: 'base64' })
-    .send();
+  const requests = [];
+  for (let i = 0; i < pendingWithdrawAddresses.length; i += MAX_ACCOUNTS_PER_REQUEST) {
+    const addresses = pendingWithdrawAddresses.slice(i, i + MAX_ACCOUNTS_PER_REQUEST);
+    requests.push(rpc.getMultipleAccounts(addresses, { encoding: 'base64' }).send());
+  }
+  const accounts = (await Promise.all(requests)).flatMap((response) => response.value);
   const [pendingWithdrawDecoder, base64Encoder] = [getPendingWithdrawDecoder(), getBase64Encoder()];
-  const pendingWithdraws = accounts.value
+  const pendingWithdraws = accounts
     .filter((account): account is NonNullable<typeof account> => Boolean(account))
     .map((account) => {
       const dataBytes = base64Encoder.encode(account.data[0]);
-- 
2.43.0

