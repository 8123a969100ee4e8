From 653a8c0b60d0a595db4e3d23fe7c4288349fbe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 01/21] fix: keep entries intact when a full map's maximum is
 replaced by its predecessor position

Inserting directly in front of the maximum of a full map linked the new entry
to itself, which lost keys. Duplicate lookups also returned the value of another
entry once the insertion order differed from the key order.
---
 elusiv/src/map.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 6faaa11..a41801a 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -179,7 +179,7 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
                     low_ptr = self.get_next(&mid_ptr);
                 }
                 Ordering::Equal => {
-                    return Err(ElusivMapError::Duplicate(self.values.get(mid as usize)))
+                    return Err(ElusivMapError::Duplicate(self.value(&mid_ptr)))
                 }
             }
         }
@@ -221,6 +221,11 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
 
         self.set(&new_ptr, key, value);
 
+        if is_full && index + 1 == self.len.get() {
+            // The new entry directly replaces the dropped maximum, so all pointers remain unchanged
+            return Ok(Some((max_key.unwrap(), max_value.unwrap())));
+        }
+
         if index == 0 {
             // Prepend
             let ptr = self.min_ptr.get();
-- 
2.43.0


From f296f75763e39885bcfb03342f1c3a6d7e1950bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 02/21] fix: never drop queued commitments when a commitment
 hash initialization fails

With insertion_can_fail set, an error after the batch had been taken from the
queue (no room in the tree, missing metadata child-account) was swallowed, so the
removed commitments were lost.
---
 elusiv/src/processor/commitment.rs | 67 +++++++++++++++---------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index c1ab6c5..16962f4 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -34,7 +34,9 @@ use ark_ff::BigInteger256;
 use borsh::{BorshDeserialize, BorshSerialize};
 use elusiv_computation::PartialComputation;
 use elusiv_types::UnverifiedAccountInfo;
-use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult};
+use solana_program::{
+    account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
+};
 
 #[derive(BorshDeserialize, BorshSerialize, BorshSerDeSized, PartialEq, Clone, Debug)]
 #[cfg_attr(feature = "serde", derive(serde::Deserialize, serde::Serialize))]
@@ -375,30 +377,45 @@ pub fn init_commitment_hash(
 
     insertion_can_fail: bool,
 ) -> ProgramResult {
-    match init_commitment_hash_inner(
-        commitment_queue,
-        metadata_queue,
-        hashing_account,
-        metadata_account,
-    ) {
-        Ok(()) => Ok(()),
+    // An insertion is only allowed to silently fail before any account has been modified
+    // (otherwise commitments could be removed from the queue without being hashed)
+    let (batch, batching_rate) = match next_commitment_batch(commitment_queue, hashing_account) {
+        Ok(batch) => batch,
         Err(e) => {
             if insertion_can_fail {
                 solana_program::msg!("Instruction failed: {:?}", e);
-                Ok(())
+                return Ok(());
             } else {
-                Err(e)
+                return Err(e);
             }
         }
+    };
+
+    let mut commitment_queue = CommitmentQueue::new(commitment_queue);
+    commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
+
+    let mut metadata_queue = MetadataQueue::new(metadata_queue);
+    for _ in 0..batch.len() {
+        let metadata = metadata_queue.dequeue_first()?;
+        metadata_account.add_commitment_metadata(&metadata)?;
     }
+
+    // The fee/batch-upgrader logic has to guarantee that there are no lower fees in a batch
+    let fee_version = batch.first().unwrap().fee_version;
+
+    let mut commitments = [[0; 32]; MAX_HT_COMMITMENTS];
+    for i in 0..batch.len() {
+        commitments[i] = batch[i].commitment;
+    }
+
+    hashing_account.reset(batching_rate, fee_version, &commitments)
 }
 
-fn init_commitment_hash_inner(
+/// Returns the next batch of commitments and it's batching rate, if it can be placed in the [`CommitmentHashingAccount`]
+fn next_commitment_batch(
     commitment_queue: &mut CommitmentQueueAccount,
-    metadata_queue: &mut MetadataQueueAccount,
-    hashing_account: &mut CommitmentHashingAccount,
-    metadata_account: &mut MetadataAccount,
-) -> ProgramResult {
+    hashing_account: &CommitmentHashingAccount,
+) -> Result<(Vec<CommitmentHashRequest>, u32), ProgramError> {
     guard!(
         !hashing_account.get_is_active(),
         ElusivError::ComputationIsNotYetFinished
@@ -408,18 +425,7 @@ fn init_commitment_hash_inner(
         ElusivError::ComputationIsNotYetFinished
     );
 
-    let mut commitment_queue = CommitmentQueue::new(commitment_queue);
-    let (batch, batching_rate) = commitment_queue.next_batch()?;
-    commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
-
-    let mut metadata_queue = MetadataQueue::new(metadata_queue);
-    for _ in 0..batch.len() {
-        let metadata = metadata_queue.dequeue_first()?;
-        metadata_account.add_commitment_metadata(&metadata)?;
-    }
-
-    // The fee/batch-upgrader logic has to guarantee that there are no lower fees in a batch
-    let fee_version = batch.first().unwrap().fee_version;
+    let (batch, batching_rate) = CommitmentQueue::new(commitment_queue).next_batch()?;
 
     // Check for room for the commitment batch
     guard!(
@@ -427,12 +433,7 @@ fn init_commitment_hash_inner(
         ElusivError::NoRoomForCommitment
     );
 
-    let mut commitments = [[0; 32]; MAX_HT_COMMITMENTS];
-    for i in 0..batch.len() {
-        commitments[i] = batch[i].commitment;
-    }
-
-    hashing_account.reset(batching_rate, fee_version, &commitments)
+    Ok((batch, batching_rate))
 }
 
 pub fn compute_commitment_hash<'a>(
-- 
2.43.0


From 406e28a4acfceb9e0e83f5c74b2d6b81f05b3db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:32 +0000
Subject: [PATCH 03/21] fix: keep every recent root of the active tree valid
 when commitments are inserted in batches

---
 elusiv/src/state/commitment.rs | 6 ++++--
 elusiv/src/state/storage.rs    | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/elusiv/src/state/commitment.rs b/elusiv/src/state/commitment.rs
index dac3b7c..159566f 100644
--- a/elusiv/src/state/commitment.rs
+++ b/elusiv/src/state/commitment.rs
@@ -259,11 +259,13 @@ impl<'a> CommitmentHashingAccount<'a> {
             );
 
             // This inserts the new root into the `active_mt_root_history`
+            // (there is one root per batch, so the roots-count, not the ordering, determines it's position)
+            let mt_roots_count = storage_account.get_mt_roots_count();
             storage_account.set_active_mt_root_history(
-                ordering as usize % HISTORY_ARRAY_SIZE,
+                mt_roots_count as usize % HISTORY_ARRAY_SIZE,
                 &storage_account.get_root().unwrap(),
             );
-            storage_account.set_mt_roots_count(&(storage_account.get_mt_roots_count() + 1));
+            storage_account.set_mt_roots_count(&(mt_roots_count + 1));
         }
     }
 }
diff --git a/elusiv/src/state/storage.rs b/elusiv/src/state/storage.rs
index d9161e0..ccea5d7 100644
--- a/elusiv/src/state/storage.rs
+++ b/elusiv/src/state/storage.rs
@@ -129,9 +129,9 @@ impl<'a, 'b, 't> StorageAccount<'a, 'b, 't> {
         let max_history_roots =
             std::cmp::min(self.get_mt_roots_count() as usize, HISTORY_ARRAY_SIZE);
 
-        // TODO: remove this, has become redundant
-        if let Ok(current_root) = self.get_root() {
-            return *root == current_root;
+        // The history contains every root apart from the root of the empty tree
+        if self.get_root().map_or(false, |current| *root == current) {
+            return true;
         }
 
         max_history_roots > 0
-- 
2.43.0


From 9d4f9f21fa61d7b8975ac1d812edad8e53dce5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:33 +0000
Subject: [PATCH 04/21] fix: never insert a batch that was hashed for a closed
 Merkle tree into the next one

---
 elusiv/src/processor/commitment.rs | 19 ++++++++++++++++---
 elusiv/src/state/commitment.rs     | 13 +++++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index 16962f4..d23d368 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -357,15 +357,22 @@ fn init_commitment_hash_setup_inner(
     hashing_account: &mut CommitmentHashingAccount,
     storage_account: &StorageAccount,
 ) -> ProgramResult {
+    let ordering = storage_account.get_next_commitment_ptr();
+
+    // If the active MT has been closed in the meantime, an unfinished batch needs to be hashed again in the new MT
+    let is_outdated = hashing_account.get_ordering() != ordering;
     guard!(
-        !hashing_account.get_is_active(),
+        !hashing_account.get_is_active() || is_outdated,
         ElusivError::ComputationIsNotYetFinished
     );
 
-    let ordering = storage_account.get_next_commitment_ptr();
     let siblings = storage_account.get_mt_opening(ordering as usize)?;
 
-    hashing_account.setup(ordering, &siblings)
+    if hashing_account.get_is_active() {
+        hashing_account.restart(ordering, &siblings)
+    } else {
+        hashing_account.setup(ordering, &siblings)
+    }
 }
 
 /// Places the next batch from the commitment queue in the [`CommitmentHashingAccount`]
@@ -494,6 +501,12 @@ pub fn finalize_commitment_hash(
         ElusivError::NoRoomForCommitment
     );
 
+    // The siblings are only valid for the MT (and the position) the hashing has been setup for
+    guard!(
+        hashing_account.get_ordering() == storage_account.get_next_commitment_ptr(),
+        ElusivError::InvalidAccountState
+    );
+
     hashing_account.update_mt(storage_account, finalization_ix);
     hashing_account.set_finalization_ix(&(finalization_ix + 1));
     if finalization_ix == batching_rate {
diff --git a/elusiv/src/state/commitment.rs b/elusiv/src/state/commitment.rs
index 159566f..7a9f893 100644
--- a/elusiv/src/state/commitment.rs
+++ b/elusiv/src/state/commitment.rs
@@ -115,6 +115,19 @@ impl<'a> CommitmentHashingAccount<'a> {
         Ok(())
     }
 
+    /// Restarts the hashing of the current batch with a new ordering and new siblings
+    pub fn restart(&mut self, ordering: u32, siblings: &[U256]) -> Result<(), ProgramError> {
+        guard!(self.get_is_active(), ElusivError::InvalidAccountState);
+
+        self.set_is_active(&false);
+        self.setup(ordering, siblings)?;
+        self.set_is_active(&true);
+
+        self.set_state(&self.next_hashing_state(0));
+
+        Ok(())
+    }
+
     /// Called after setup, sets the commitments and batching rate
     pub fn reset(
         &mut self,
-- 
2.43.0


From aea6c85e52c50d3fec0170bdffc210ebf9b6eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 05/21] fix: pay the optional fee of a Solana Pay transfer out
 of its amount, not on top of it

---
 elusiv/src/processor/proof.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 5cca361..999b225 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -736,11 +736,7 @@ pub fn finalize_verification_transfer_lamports<'a>(
 
             if public_inputs.solana_pay_transfer {
                 // `pool` transfers `amount` to `original_fee_payer` (lamports)
-                transfer_lamports_from_pda_checked(
-                    pool,
-                    original_fee_payer,
-                    public_inputs.join_split.amount,
-                )?;
+                transfer_lamports_from_pda_checked(pool, original_fee_payer, amount)?;
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
-- 
2.43.0


From 66e8c3774b7fbf5e45be6710c517893c1fe90d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 06/21] fix: never let two Solana Pay transfers rely on the
 same payment

---
 elusiv/src/processor/proof.rs | 43 +++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 999b225..cb7c9d3 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -739,12 +739,9 @@ pub fn finalize_verification_transfer_lamports<'a>(
                 transfer_lamports_from_pda_checked(pool, original_fee_payer, amount)?;
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
-                let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
-                enforce_instruction(
-                    &instructions_sysvar,
-                    instructions_sysvar.find_instruction_count()? - 1,
+                enforce_payment_instruction(
+                    &DefaultInstructionsSysvar(instructions_account),
                     &system_instruction::transfer(original_fee_payer.key, recipient.key, amount),
-                    false,
                 )?;
             } else {
                 // `pool` transfers `amount` to `recipient` (lamports)
@@ -968,10 +965,8 @@ pub fn finalize_verification_transfer_token<'a>(
                 )?;
 
                 // Last instruction: `original_fee_payer_account` transfers `amount` to `recipient` (token)
-                let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
-                enforce_instruction(
-                    &instructions_sysvar,
-                    instructions_sysvar.find_instruction_count()? - 1,
+                enforce_payment_instruction(
+                    &DefaultInstructionsSysvar(instructions_account),
                     &spl_token::instruction::transfer(
                         token_program.key,
                         original_fee_payer_account.key,
@@ -980,7 +975,6 @@ pub fn finalize_verification_transfer_token<'a>(
                         &[original_fee_payer.key],
                         token.amount(),
                     )?,
-                    false,
                 )?;
             } else {
                 // `pool` transfers `amount` to `recipient` (token)
@@ -1349,6 +1343,35 @@ fn enforce_instruction<I: InstructionsSysvar>(
     Ok(instruction)
 }
 
+/// Enforces that the last instruction is the expected Solana Pay payment
+///
+/// # Note
+///
+/// No other finalization is allowed in between, since it could rely on the very same payment.
+fn enforce_payment_instruction<I: InstructionsSysvar>(
+    instruction_sysvar: &I,
+    expected: &Instruction,
+) -> Result<Instruction, ProgramError> {
+    let last = instruction_sysvar.find_instruction_count()? - 1;
+
+    for index in instruction_sysvar.current_index()? as usize + 1..last {
+        let instruction = instruction_sysvar.instruction_at_index(index)?;
+        guard!(
+            instruction.program_id != crate::id()
+                || !matches!(
+                    instruction.data.first(),
+                    Some(
+                        &ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_LAMPORTS_INDEX
+                            | &ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_TOKEN_INDEX
+                    )
+                ),
+            ElusivError::InvalidOtherInstruction
+        );
+    }
+
+    enforce_instruction(instruction_sysvar, last, expected, false)
+}
+
 fn memo_instruction(memo: &[u8]) -> Instruction {
     Instruction {
         program_id: SPL_MEMO_PROGRAM_ID,
-- 
2.43.0


From 870d72b3424799a92b774cfb7f034eee62f2eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 07/21] fix: only give back the rent of an associated token
 account if it has been reserved

---
 elusiv/src/processor/proof.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index cb7c9d3..f2d2389 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -877,11 +877,21 @@ pub fn finalize_verification_transfer_token<'a>(
             None,
         )?;
 
+        // The `associated_token_account_rent` is only reserved if the recipient is an associated token account
+        let associated_token_account_rent = match &request {
+            ProofRequest::Send(public_inputs)
+                if public_inputs.recipient_is_associated_token_account =>
+            {
+                spl_token_account_rent()?
+            }
+            _ => Lamports(0),
+        };
+
         // `pool` transfers `commitment_hash_fee` and `associated_token_account_rent` to `fee_collector` (lamports)
         transfer_lamports_from_pda_checked(
             pool,
             fee_collector,
-            (data.commitment_hash_fee + spl_token_account_rent()?)?.0,
+            (data.commitment_hash_fee + associated_token_account_rent)?.0,
         )?;
 
         return Ok(());
-- 
2.43.0


From c6185a23939a9d3f3838fdd168d25586785f2771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 08/21] fix: refuse join-splits whose amount and fee overflow

---
 elusiv/src/processor/proof.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index f2d2389..d7bc2aa 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -1133,6 +1133,15 @@ fn check_join_split_public_inputs(
         ElusivError::InvalidRecentCommitmentIndex
     );
 
+    // Verify the total amount
+    guard!(
+        public_inputs
+            .amount
+            .checked_add(public_inputs.fee)
+            .is_some(),
+        ElusivError::InvalidAmount
+    );
+
     // Verify the optional fee
     guard!(
         public_inputs.amount >= public_inputs.optional_fee.amount,
-- 
2.43.0


From f1f67a5d0456383b919ecdd28d1aeb61c887b697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 09/21] fix: network fee of large amounts and the reserve for a
 token account must not wrap around

---
 elusiv/src/processor/proof.rs | 6 +++---
 elusiv/src/state/fee.rs       | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index d7bc2aa..4938d6f 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -297,9 +297,9 @@ pub fn init_verification_transfer_fee<'a>(
                 .amount();
 
             guard!(
-                public_inputs.join_split.amount
-                    >= associated_token_account_rent_token
-                        + public_inputs.join_split.optional_fee.amount,
+                associated_token_account_rent_token
+                    .checked_add(public_inputs.join_split.optional_fee.amount)
+                    .map_or(false, |min| public_inputs.join_split.amount >= min),
                 ElusivError::InvalidAmount
             );
         }
diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index 7695ae0..b338075 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -17,7 +17,8 @@ pub struct BasisPointFee(pub u64);
 
 impl BasisPointFee {
     pub fn calc(&self, amount: u64) -> u64 {
-        self.0 * amount / 10_000
+        let fee = self.0 as u128 * amount as u128 / 10_000;
+        fee.try_into().unwrap_or(u64::MAX)
     }
 }
 
-- 
2.43.0


From a61b023a81b2773b29e846b19f94e0f95ad073a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 10/21] fix: check subventions against the fees of the maximum
 batching rate too

---
 elusiv/src/state/fee.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index b338075..00e87df 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -77,7 +77,7 @@ impl ProgramFee {
 
     /// Verifies that possible subventions are not too high
     pub fn is_valid(&self) -> bool {
-        for min_batching_rate in 0..MAX_COMMITMENT_BATCHING_RATE as u32 {
+        for min_batching_rate in 0..=MAX_COMMITMENT_BATCHING_RATE as u32 {
             let commitment_fee = self.commitment_hash_computation_fee(min_batching_rate).0;
             if self.base_commitment_subvention.0 > commitment_fee {
                 return false;
-- 
2.43.0


From c7208111c272986a335ae88e969328334df48bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 11/21] fix: close a replaced verifying key's data account as
 its owner (the system program cannot transfer from it)

---
 elusiv/src/processor/vkey.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/elusiv/src/processor/vkey.rs b/elusiv/src/processor/vkey.rs
index f73c754..6b9b212 100644
--- a/elusiv/src/processor/vkey.rs
+++ b/elusiv/src/processor/vkey.rs
@@ -4,9 +4,7 @@ use crate::{
 };
 use borsh::{BorshDeserialize, BorshSerialize};
 use elusiv_types::{BorshSerDeSized, ChildAccountConfig, ElusivOption, ParentAccount};
-use elusiv_utils::{
-    guard, open_pda_account_with_offset, pda_account, transfer_with_system_program,
-};
+use elusiv_utils::{close_account, guard, open_pda_account_with_offset, pda_account};
 use solana_program::{
     account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
     pubkey::Pubkey,
@@ -106,7 +104,7 @@ pub fn update_vkey_version<'a>(
     signer: &AccountInfo<'a>,
     vkey_account: &mut VKeyAccount,
     old_vkey_binary_data_account: &AccountInfo<'a>,
-    system_program: &AccountInfo<'a>,
+    _system_program: &AccountInfo<'a>,
 
     _vkey_id: u32,
 ) -> ProgramResult {
@@ -124,12 +122,7 @@ pub fn update_vkey_version<'a>(
             ElusivError::InvalidAccount
         );
 
-        transfer_with_system_program(
-            old_vkey_binary_data_account,
-            signer,
-            system_program,
-            old_vkey_binary_data_account.lamports(),
-        )?;
+        close_account(signer, old_vkey_binary_data_account)?;
     }
 
     // Swap child accounts
-- 
2.43.0


From dd4cb5504a6bdf3fa3bd1df1926fd7b74d45d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 12/21] fix: count the activity of wardens (the incremented
 counters were dropped, and the last day of a leap year rejected)

---
 elusiv-warden-network/src/warden.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/elusiv-warden-network/src/warden.rs b/elusiv-warden-network/src/warden.rs
index e0ed547..e5b79ce 100644
--- a/elusiv-warden-network/src/warden.rs
+++ b/elusiv-warden-network/src/warden.rs
@@ -197,14 +197,17 @@ pub struct WardenStatistics {
 }
 
 impl WardenStatistics {
-    pub fn inc(&self, day: u32) -> Result<&Self, ProgramError> {
-        guard!(day < 366, ElusivWardenNetworkError::StatsError);
+    /// Counts an activity on a `day` of the year (starting with 1)
+    pub fn inc(&mut self, day: u32) -> Result<&Self, ProgramError> {
+        guard!((1..=366).contains(&day), ElusivWardenNetworkError::StatsError);
+        let day = day as usize - 1;
 
-        self.total
+        self.total = self
+            .total
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-        self.activity[day as usize]
+        self.activity[day] = self.activity[day]
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-- 
2.43.0


From 7daed907cd5a67bfe7a8cab89be2865ed2029cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 13/21] fix: count finalized transfers as sends, not as stores

---
 .../src/processor/basic_warden.rs                  | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 442a714..cfc7043 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -268,9 +268,15 @@ pub fn open_basic_warden_stats_account<'b>(
 
 const ELUSIV_PROGRAM_ID: Pubkey = crate::macros::program_id!(elusiv);
 
+pub enum TrackableKind {
+    Store,
+    Send,
+}
+
 pub struct TrackableElusivInstruction {
     pub instruction_id: u8,
     pub warden_index: u8,
+    pub kind: TrackableKind,
 }
 
 pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
@@ -278,16 +284,19 @@ pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
     TrackableElusivInstruction {
         instruction_id: 2,
         warden_index: 0,
+        kind: TrackableKind::Store,
     },
     // FinalizeVerificationTransferLamports
     TrackableElusivInstruction {
         instruction_id: 13,
         warden_index: 1,
+        kind: TrackableKind::Send,
     },
     // FinalizeVerificationTransferToken
     TrackableElusivInstruction {
         instruction_id: 14,
         warden_index: 3,
+        kind: TrackableKind::Send,
     },
 ];
 
@@ -353,7 +362,10 @@ fn track_basic_warden_stats_inner(
             ProgramError::IncorrectProgramId
         );
 
-        stats_account.set_store(stats_account.get_store().inc(day)?);
+        match ix.kind {
+            TrackableKind::Store => stats_account.set_store(stats_account.get_store().inc(day)?),
+            TrackableKind::Send => stats_account.set_send(stats_account.get_send().inc(day)?),
+        }
     } else {
         return Err(ElusivWardenNetworkError::StatsError.into());
     }
-- 
2.43.0


From e06fb735187189d779c59e406d2a457fae3ec7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 14/21] fix: tracking that must not fail does not panic on an
 instruction without data or with few accounts

---
 elusiv-warden-network/src/processor/basic_warden.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index cfc7043..29df358 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -348,13 +348,20 @@ fn track_basic_warden_stats_inner(
         instructions_account,
     )?;
 
-    let ix_byte = previous_ix.data[0];
+    let ix_byte = *previous_ix
+        .data
+        .first()
+        .ok_or(ElusivWardenNetworkError::StatsError)?;
     if let Some(ix) = TRACKABLE_ELUSIV_INSTRUCTIONS
         .iter()
         .find(|i| i.instruction_id == ix_byte)
     {
+        let tracked_account = previous_ix
+            .accounts
+            .get(ix.warden_index as usize)
+            .ok_or(ElusivWardenNetworkError::StatsError)?;
         guard!(
-            previous_ix.accounts[ix.warden_index as usize].pubkey == *warden.key,
+            tracked_account.pubkey == *warden.key,
             ElusivWardenNetworkError::StatsError
         );
         guard!(
-- 
2.43.0


From 0fe60b675864c653e078d6a3054429e2439168b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 15/21] fix: store the result of an attestation in the account
 of the warden

---
 elusiv-warden-network/src/processor/basic_warden.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 29df358..02f0447 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -234,6 +234,7 @@ pub fn attest_basic_warden_metadata(
     warden.config.uses_proxy = uses_proxy;
     warden.config.region = region;
     warden.is_metadata_valid = Some(!warden_supplied_invalid_data).into();
+    warden_account.set_warden(&warden);
 
     basic_network_account.update_region(warden_id, member_index as usize, &region)?;
 
-- 
2.43.0


From d8afda2809bf79217ebd2f9607edb51421ec66a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 16/21] fix: store the second half of a genesis quote at the
 member's place (its warden id was used as the place)

---
 elusiv-warden-network/src/network.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index c95075c..6e54769 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -162,10 +162,9 @@ impl<'a> ApaWardenNetworkAccount<'a> {
         );
 
         let member_index = (0..self.get_members_count() as usize)
-            .map(|i| self.get_members(i))
-            .find(|member| member == &warden_id)
+            .position(|i| self.get_members(i) == warden_id)
             .ok_or(ElusivWardenNetworkError::WardenRegistrationError)?;
-        self.set_quote_ends(member_index as usize, &Some(quote_end).into());
+        self.set_quote_ends(member_index, &Some(quote_end).into());
 
         Ok(())
     }
-- 
2.43.0


From 1a7c0df0098c855bc1b31f731dcb12d78d88f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 17/21] fix: a proposal without a token cannot claim to come
 from a freezing authority

---
 elusiv-warden-network/src/processor/apa.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/elusiv-warden-network/src/processor/apa.rs b/elusiv-warden-network/src/processor/apa.rs
index ebcb17b..867968f 100644
--- a/elusiv-warden-network/src/processor/apa.rs
+++ b/elusiv-warden-network/src/processor/apa.rs
@@ -34,6 +34,17 @@ pub fn propose_apa_proposal<'b>(
     proposal.timestamp = current_timestamp()?;
     proposal.proponent = *proponent.key;
 
+    // A freezing authority is the authority of a specific token
+    if matches!(
+        proposal.proponent_role,
+        ApaProponentRole::TokenFreezingAuthority
+    ) {
+        guard!(
+            proposal.token_constraint.option().is_some(),
+            ElusivWardenNetworkError::ProposalError
+        );
+    }
+
     if let Some(token_id) = proposal.token_constraint.option() {
         guard!(
             token_id as usize <= SPL_TOKEN_COUNT,
-- 
2.43.0


From 2cdb1fa2d5d750fdc884642263669d26579d6426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 18/21] fix: store the operator's key in its account

---
 elusiv-warden-network/src/processor/operator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elusiv-warden-network/src/processor/operator.rs b/elusiv-warden-network/src/processor/operator.rs
index d0e4e3e..ba07ede 100644
--- a/elusiv-warden-network/src/processor/operator.rs
+++ b/elusiv-warden-network/src/processor/operator.rs
@@ -29,6 +29,7 @@ pub fn register_warden_operator<'b>(
         WardenOperatorAccount,
         operator_account.get_safe()?
     );
+    operator_account.set_key(operator.key);
     operator_account.set_ident(&ident);
     operator_account.set_url(&url);
     operator_account.set_jurisdiction(&jurisdiction.into());
-- 
2.43.0


From b62cbcc7f4d12d8811d5dd63eb3695aa2978ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 19/21] fix: keep the last two line evaluations when the
 prepared inputs are the point at infinity

---
 elusiv/src/proof/verifier.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/elusiv/src/proof/verifier.rs b/elusiv/src/proof/verifier.rs
index 172ba97..5c29d35 100644
--- a/elusiv/src/proof/verifier.rs
+++ b/elusiv/src/proof/verifier.rs
@@ -600,10 +600,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
             partial v = mul_by_characteristics(storage, alt_b.get()) {
                 _ = alt_b.set(G2Affine::new(v.x, v.y.neg(), v.infinity));
@@ -613,10 +611,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
         }
         {   /// 500
-- 
2.43.0


From ac6256357329fc989c24c20537849658388e067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:46 +0000
Subject: [PATCH 20/21] fix: only accept proofs whose points lie on the curves

---
 elusiv/src/fields.rs         | 27 +++++++++++++++++++++++++--
 elusiv/src/proof/verifier.rs |  7 ++++++-
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/elusiv/src/fields.rs b/elusiv/src/fields.rs
index bff385a..6e9094c 100644
--- a/elusiv/src/fields.rs
+++ b/elusiv/src/fields.rs
@@ -3,8 +3,8 @@ use crate::{
     bytes::BorshSerDeSized,
     types::{u256_to_le_limbs, U256},
 };
-use ark_bn254::{Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G1Projective, G2Affine};
-use ark_ff::{BigInteger256, One, PrimeField};
+use ark_bn254::{Fq, Fq12, Fq2, Fq6, FqParameters, Fr, G1Affine, G1Projective, G2Affine};
+use ark_ff::{BigInteger256, FpParameters, One, PrimeField};
 use borsh::{BorshDeserialize, BorshSerialize};
 
 /// From [`&[u8]`] to [`[u8; 8]`]
@@ -45,6 +45,11 @@ pub fn scalar_skip_mr(e: BigInteger256) -> Fr {
     Fr::new(e)
 }
 
+/// Checks whether an unchecked mr-form element is contained in the base field
+fn is_element_base_field(e: &Fq) -> bool {
+    e.0 < FqParameters::MODULUS
+}
+
 /// Checks whether a non-mr-form element is contained in the field
 pub fn is_element_scalar_field(e: BigInteger256) -> bool {
     e < SCALAR_MODULUS_RAW
@@ -233,7 +238,25 @@ pub struct G1A(pub G1Affine);
 #[derive(Copy, Clone, PartialEq)]
 #[cfg_attr(any(test, feature = "elusiv-client"), derive(Debug))]
 pub struct G2A(pub G2Affine);
+impl G1A {
+    /// Checks that the coordinates are reduced and that the point is contained in the curve
+    pub fn is_valid(&self) -> bool {
+        is_element_base_field(&self.0.x)
+            && is_element_base_field(&self.0.y)
+            && self.0.is_on_curve()
+    }
+}
 impl G2A {
+    /// Checks that the coordinates are reduced and that the point is contained in the curve (without the point at infinity)
+    pub fn is_valid(&self) -> bool {
+        is_element_base_field(&self.0.x.c0)
+            && is_element_base_field(&self.0.x.c1)
+            && is_element_base_field(&self.0.y.c0)
+            && is_element_base_field(&self.0.y.c1)
+            && !self.0.infinity
+            && self.0.is_on_curve()
+    }
+
     pub fn set(&mut self, v: G2Affine) {
         self.0 = v;
     }
diff --git a/elusiv/src/proof/verifier.rs b/elusiv/src/proof/verifier.rs
index 5c29d35..04204bb 100644
--- a/elusiv/src/proof/verifier.rs
+++ b/elusiv/src/proof/verifier.rs
@@ -200,7 +200,12 @@ pub fn final_exponentiation(
         // Final verification, we check:
         // https://github.com/zkcrypto/bellman/blob/9bb30a7bd261f2aa62840b80ed6750c622bebec3/src/groth16/verifier.rs#L43
         // https://github.com/arkworks-rs/groth16/blob/765817f77a6e14964c6f264d565b18676b11bd59/src/verifier.rs#L60
-        return Ok(Some(vkey.alpha_beta() == v));
+        // - the pairing equation is only meaningful for points of the curves (the proof is stored unchecked)
+        let is_proof_valid = verification_account.a.get().is_valid()
+            && verification_account.b.get().is_valid()
+            && verification_account.c.get().is_valid();
+
+        return Ok(Some(is_proof_valid && vkey.alpha_beta() == v));
     }
 
     Ok(None)
-- 
2.43.0


From ee7acb15f477c87e18ef67d5dd746d94da6d3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 21/21] fix: only accept proofs whose second point has prime
 order

---
 elusiv/src/proof/verifier.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/elusiv/src/proof/verifier.rs b/elusiv/src/proof/verifier.rs
index 04204bb..27dbcda 100644
--- a/elusiv/src/proof/verifier.rs
+++ b/elusiv/src/proof/verifier.rs
@@ -149,6 +149,8 @@ pub fn combined_miller_loop(
     }
 
     verification_account.set_coeff_index(&usize_as_u8_safe(coeff_index));
+    verification_account.r.set(r);
+    verification_account.alt_b.set(alt_b);
 
     if round + rounds == CombinedMillerLoop::TOTAL_ROUNDS as usize {
         let f = result.ok_or(CouldNotProcessProof)?;
@@ -160,9 +162,6 @@ pub fn combined_miller_loop(
         verification_account.set_round(&0);
         verification_account.set_instruction(&0);
     } else {
-        verification_account.r.set(r);
-        verification_account.alt_b.set(alt_b);
-
         verification_account.set_round(&usize_as_u32_safe(round + rounds));
         verification_account.set_instruction(&(instruction as u32 + 1));
     }
@@ -203,7 +202,11 @@ pub fn final_exponentiation(
         // - the pairing equation is only meaningful for points of the curves (the proof is stored unchecked)
         let is_proof_valid = verification_account.a.get().is_valid()
             && verification_account.b.get().is_valid()
-            && verification_account.c.get().is_valid();
+            && verification_account.c.get().is_valid()
+            && is_in_g2(
+                &verification_account.r.get(),
+                verification_account.alt_b.get().get(),
+            );
 
         return Ok(Some(is_proof_valid && vkey.alpha_beta() == v));
     }
@@ -799,6 +802,19 @@ elusiv_computations!(
     }
 );
 
+/// Checks whether `B` (a point of the twist) has prime order, using the values of the finished miller loop
+///
+/// # Notes
+///
+/// - the miller loop ends with `r = [6x + 2]B + psi(B) - psi^2(B)` and `alt_b = -psi^2(B)`
+/// - `B` is contained in G2 iff `r + psi^3(B) = 0` (`6x + 2 + psi - psi^2 + psi^3` has a norm coprime to the cofactor of the twist)
+fn is_in_g2(r: &G2HomProjective, alt_b: &G2Affine) -> bool {
+    let x = frobenius_map_fq2_one(alt_b.x) * TWIST_MUL_BY_Q_X;
+    let y = frobenius_map_fq2_one(alt_b.y) * TWIST_MUL_BY_Q_Y;
+
+    !r.z.is_zero() && r.x == x * r.z && r.y == y * r.z
+}
+
 fn write_g1_projective(ram: &mut RAMFq, g1p: &G1Projective, offset: usize) {
     ram.write(g1p.x, offset);
     ram.write(g1p.y, offset + 1);
-- 
2.43.0

