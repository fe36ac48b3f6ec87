From d60e407793e6ac32ea0e48acf9fdcbd202f7eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:51 +0000
Subject: [PATCH 1/3] fix: include the zero address in the log filter so native
 deposits are scraped

---
 minter/src/deposit_logs/scraping.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minter/src/deposit_logs/scraping.rs b/minter/src/deposit_logs/scraping.rs
index 811e1f7..2fc394f 100644
--- a/minter/src/deposit_logs/scraping.rs
+++ b/minter/src/deposit_logs/scraping.rs
@@ -36,9 +36,10 @@ impl LogScraping for ReceivedDepositLogScraping {
         ))];
         // We add token contract addresses as additional topics to match.
         // It has a disjunction semantics, so it will match if event matches any one of these addresses.
+        // Native deposits are reported under the zero address, so that it is always one of them.
         topics.push(
-            token_contract_addresses
-                .iter()
+            std::iter::once(&Address::ZERO)
+                .chain(token_contract_addresses.iter())
                 .map(|address| FixedSizeData(address.into()))
                 .collect::<Vec<_>>()
                 .into(),
-- 
2.43.0


From a65cd7f9036ba5a697cf41be7fe11a777426d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:30 +0000
Subject: [PATCH 2/3] fix: quarantine deposits that do not cover the deposit
 fee instead of trapping the minting task

---
 minter/src/deposit.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/minter/src/deposit.rs b/minter/src/deposit.rs
index b99641a..9138afe 100644
--- a/minter/src/deposit.rs
+++ b/minter/src/deposit.rs
@@ -81,11 +81,19 @@ async fn mint() {
         // If deposit type is native_deposit and the fees are not set to zero,
         // The minted amount for user should be as follow
         // event.value() - deposit_native_fee
-        let amount = calculate_deposit_amount_deducting_fee(
+        let amount = match calculate_deposit_amount_deducting_fee(
             event.value(),
             &deposit_native_fee,
             is_native_deposit,
-        );
+        ) {
+            Some(amount) => amount,
+            None => {
+                // The guard is not defused, so that the deposit is quarantined
+                // and does not prevent the other ones from being minted.
+                log!(INFO, "Deposit does not cover the deposit fee: {event:?}");
+                continue;
+            }
+        };
 
         // Mint tokens for the user
         let block_index = match client
@@ -506,15 +514,16 @@ pub fn calculate_deposit_amount_deducting_fee(
     amount: Nat,
     deposit_native_fee: &Option<Nat>,
     is_native_deposit: bool,
-) -> candid::Nat {
-    // Calculate Amount - Deposit fee
+) -> Option<candid::Nat> {
+    // Calculate Amount - Deposit fee, None if the amount does not cover the fee
     if is_native_deposit {
         // If there is a deposit fee
         match deposit_native_fee {
-            Some(fee) => amount - fee.clone(),
-            None => amount,
+            Some(fee) if amount < *fee => None,
+            Some(fee) => Some(amount - fee.clone()),
+            None => Some(amount),
         }
     } else {
-        amount
+        Some(amount)
     }
 }
-- 
2.43.0


From 960df04310cf676ee853a0c6c1a691b161156973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 3/3] fix: reject native withdrawals below the withdrawal fee
 before charging it

---
 minter/src/main.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/minter/src/main.rs b/minter/src/main.rs
index c0f86bc..e5ac916 100644
--- a/minter/src/main.rs
+++ b/minter/src/main.rs
@@ -318,6 +318,13 @@ async fn withdraw_native_token(
             let transfer_amount = withdrawal_fee
                 .checked_sub(native_transfer_fee)
                 .expect("Failed to calculate withdrawal fee");
+            // Must be known before the fee is transferred, there is no refund after a trap
+            let amount_without_fee =
+                amount
+                    .checked_sub(withdrawal_fee)
+                    .ok_or(WithdrawalError::AmountTooLow {
+                        min_withdrawal_amount: withdrawal_fee.into(),
+                    })?;
             log!(
                 INFO,
                 "[withdraw]: Transferring Withdrawal fee - ledger transfer fee {:?}",
@@ -335,9 +342,7 @@ async fn withdraw_native_token(
                     );
 
                     // Deducting withdrawal_fee from witdrawal amount
-                    amount = amount
-                        .checked_sub(withdrawal_fee)
-                        .expect("Failed calculating witdrawal amount");
+                    amount = amount_without_fee;
                     Ok(())
                 }
                 Err(err) => Err(WithdrawalError::from(err)),
-- 
2.43.0

