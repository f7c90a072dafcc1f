From 36eafef9f9232f394a1b47ff8e6c930ddb2397cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:14:18 +0000
Subject: [PATCH 01/47] fix: reject malformed block ranges in the bridge mode
 argument instead of panicking

---
 bin/portal-bridge/src/types/mode.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/bin/portal-bridge/src/types/mode.rs b/bin/portal-bridge/src/types/mode.rs
index 4c8dc49..106e5ef 100644
--- a/bin/portal-bridge/src/types/mode.rs
+++ b/bin/portal-bridge/src/types/mode.rs
@@ -60,16 +60,15 @@ impl FromStr for ModeType {
         if s.is_empty() {
             return Err("Invalid bridge mode arg: empty string".to_string());
         }
-        match &s[..1] {
-            "r" => {
-                let range_vec = s[1..]
+        match s.strip_prefix('r') {
+            Some(range) => {
+                let range_vec = range
                     .split('-')
-                    .map(|range_input| {
-                        range_input.parse().expect(
-                            "Range format invalid, expected backfill:rX-Y (eg. backfill:r10-100)",
-                        )
-                    })
-                    .collect::<Vec<u64>>();
+                    .map(|range_input| range_input.parse())
+                    .collect::<Result<Vec<u64>, _>>()
+                    .map_err(|_| {
+                        "Range format invalid, expected single:rX-Y (eg. single:r10-100)"
+                    })?;
 
                 if range_vec.len() != 2 {
                     return Err("Invalid bridge mode arg: expected 2 numbers in range".to_string());
@@ -86,7 +85,7 @@ impl FromStr for ModeType {
 
                 Ok(ModeType::BlockRange(start_block, end_block))
             }
-            _ => Err("Invalid bridge mode arg: type prefix".to_string()),
+            None => Err("Invalid bridge mode arg: type prefix".to_string()),
         }
     }
 }
-- 
2.43.0


From a8e634acc3dee6757203487bc1e31c35c271d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:14:18 +0000
Subject: [PATCH 02/47] fix: avoid overflow when a block range ends in the last
 possible epoch

---
 bin/portal-bridge/src/types/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/portal-bridge/src/types/range.rs b/bin/portal-bridge/src/types/range.rs
index bd279d6..9620601 100644
--- a/bin/portal-bridge/src/types/range.rs
+++ b/bin/portal-bridge/src/types/range.rs
@@ -23,7 +23,7 @@ pub fn block_range_to_epochs(start_block: u64, end_block: u64) -> HashMap<u64, O
     for epoch in start_epoch..=end_epoch {
         // Calculate the first and last block of the current epoch
         let epoch_first_block = epoch * SLOTS_PER_HISTORICAL_ROOT;
-        let epoch_last_block = epoch_first_block + SLOTS_PER_HISTORICAL_ROOT - 1;
+        let epoch_last_block = epoch_first_block + (SLOTS_PER_HISTORICAL_ROOT - 1);
 
         // Determine if the epoch is fully or partially covered
         if epoch_first_block >= start_block && epoch_last_block <= end_block {
-- 
2.43.0


From 52dc9c247d82c834770f49bdf61a0a8699afc923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:23 +0000
Subject: [PATCH 03/47] fix: refuse beacon content shorter than a fork digest
 instead of panicking

---
 .../src/types/content_value/beacon.rs         | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/ethportal-api/src/types/content_value/beacon.rs b/crates/ethportal-api/src/types/content_value/beacon.rs
index d85941a..326dbaa 100644
--- a/crates/ethportal-api/src/types/content_value/beacon.rs
+++ b/crates/ethportal-api/src/types/content_value/beacon.rs
@@ -65,9 +65,10 @@ impl ForkVersionedLightClientBootstrap {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<Self, DecodeError> {
-        let fork_digest = ForkDigest::try_from(&bytes[0..4]).map_err(|err| {
-            DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
-        })?;
+        let fork_digest = ForkDigest::try_from(bytes.get(0..FORK_DIGEST_LEN).unwrap_or_default())
+            .map_err(|err| {
+                DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
+            })?;
         let fork_name = ForkName::try_from(fork_digest).map_err(|_| {
             DecodeError::BytesInvalid(format!("Unable to decode fork name: {fork_digest:?}"))
         })?;
@@ -145,9 +146,10 @@ impl ForkVersionedLightClientUpdate {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<Self, DecodeError> {
-        let fork_digest = ForkDigest::try_from(&bytes[0..4]).map_err(|err| {
-            DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
-        })?;
+        let fork_digest = ForkDigest::try_from(bytes.get(0..FORK_DIGEST_LEN).unwrap_or_default())
+            .map_err(|err| {
+                DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
+            })?;
         let fork_name = ForkName::try_from(fork_digest).map_err(|_| {
             DecodeError::BytesInvalid(format!("Unable to decode fork name: {fork_digest:?}"))
         })?;
@@ -287,9 +289,10 @@ impl ForkVersionedLightClientOptimisticUpdate {
     }
 
     fn decode(buf: &[u8]) -> Result<Self, DecodeError> {
-        let fork_digest = ForkDigest::try_from(&buf[0..4]).map_err(|err| {
-            DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
-        })?;
+        let fork_digest = ForkDigest::try_from(buf.get(0..FORK_DIGEST_LEN).unwrap_or_default())
+            .map_err(|err| {
+                DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
+            })?;
 
         let fork_name = ForkName::try_from(fork_digest).map_err(|_| {
             DecodeError::BytesInvalid(format!("Unable to decode fork name: {fork_digest:?}"))
@@ -367,9 +370,10 @@ impl ForkVersionedLightClientFinalityUpdate {
     }
 
     fn decode(buf: &[u8]) -> Result<Self, DecodeError> {
-        let fork_digest = ForkDigest::try_from(&buf[0..4]).map_err(|err| {
-            DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
-        })?;
+        let fork_digest = ForkDigest::try_from(buf.get(0..FORK_DIGEST_LEN).unwrap_or_default())
+            .map_err(|err| {
+                DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
+            })?;
 
         let fork_name = ForkName::try_from(fork_digest).map_err(|_| {
             DecodeError::BytesInvalid(format!("Unable to decode fork name: {fork_digest:?}"))
-- 
2.43.0


From 8de2dfba04d98c5515f77448b69132836e3f26fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:23 +0000
Subject: [PATCH 04/47] fix: refuse block bodies without withdrawals when the
 header commits to withdrawals

---
 .../src/types/execution/block_body.rs           | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/ethportal-api/src/types/execution/block_body.rs b/crates/ethportal-api/src/types/execution/block_body.rs
index 142e695..4e50c19 100644
--- a/crates/ethportal-api/src/types/execution/block_body.rs
+++ b/crates/ethportal-api/src/types/execution/block_body.rs
@@ -84,16 +84,13 @@ impl BlockBody {
             );
         }
 
-        if let Some(actual) = self.calculate_withdrawals_root() {
-            let expected = match header.withdrawals_root {
-                Some(val) => val,
-                None => bail!("Block header does not have withdrawals root"),
-            };
-            if actual != expected {
-                bail!(
-                    "Block body withdrawals root doesn't match header withdrawals root: {actual:?} - {expected:?}",
-                );
-            }
+        // Validate withdrawals root, absent both from block bodies and headers before Shanghai
+        let withdrawals_root = self.calculate_withdrawals_root();
+        if withdrawals_root != header.withdrawals_root {
+            bail!(
+                "Block body withdrawals root doesn't match header withdrawals root: {withdrawals_root:?} - {:?}",
+                header.withdrawals_root
+            );
         }
         Ok(())
     }
-- 
2.43.0


From f0a51183650e61d50d16bb69c385544131ee8f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:23 +0000
Subject: [PATCH 05/47] fix: refuse signatures and public keys of the wrong
 length in JSON

---
 crates/ethportal-api/src/types/consensus/pubkey.rs    | 4 +++-
 crates/ethportal-api/src/types/consensus/signature.rs | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ethportal-api/src/types/consensus/pubkey.rs b/crates/ethportal-api/src/types/consensus/pubkey.rs
index d08b853..2ce563d 100644
--- a/crates/ethportal-api/src/types/consensus/pubkey.rs
+++ b/crates/ethportal-api/src/types/consensus/pubkey.rs
@@ -67,7 +67,9 @@ impl<'de> Deserialize<'de> for PubKey {
     {
         let result: String = Deserialize::deserialize(deserializer)?;
         let result = hex_decode(&result).map_err(serde::de::Error::custom)?;
-        let key = FixedVector::from(result);
+        let len = result.len();
+        let key = FixedVector::new(result)
+            .map_err(|_| serde::de::Error::invalid_length(len, &"a 48 byte public key"))?;
         Ok(Self { inner: key })
     }
 }
diff --git a/crates/ethportal-api/src/types/consensus/signature.rs b/crates/ethportal-api/src/types/consensus/signature.rs
index 28eb200..c74b4c5 100644
--- a/crates/ethportal-api/src/types/consensus/signature.rs
+++ b/crates/ethportal-api/src/types/consensus/signature.rs
@@ -57,8 +57,9 @@ impl<'de> Deserialize<'de> for BlsSignature {
     {
         let result: String = Deserialize::deserialize(deserializer)?;
         let result = hex_decode(&result).map_err(serde::de::Error::custom)?;
-        let mut signature = [0u8; 96];
-        signature.copy_from_slice(&result);
+        let signature = result.try_into().map_err(|result: Vec<u8>| {
+            serde::de::Error::invalid_length(result.len(), &"a 96 byte signature")
+        })?;
         Ok(Self { signature })
     }
 }
-- 
2.43.0


From 20e566096a4abfc8301c0e93b9f3cf2badf4d146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:27:43 +0000
Subject: [PATCH 06/47] fix: count stored content only once when known content
 is stored again

---
 crates/storage/src/versioned/id_indexed_v1/store.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/versioned/id_indexed_v1/store.rs b/crates/storage/src/versioned/id_indexed_v1/store.rs
index f848597..19563a5 100644
--- a/crates/storage/src/versioned/id_indexed_v1/store.rs
+++ b/crates/storage/src/versioned/id_indexed_v1/store.rs
@@ -268,7 +268,7 @@ impl<TContentKey: OverlayContentKey, TMetric: Metric> IdIndexedV1Store<TContentK
         let content_size = Self::calculate_content_size(&content_id, &content_key, &content_value);
 
         let insert_timer = self.metrics.start_process_timer("insert");
-        self.config.sql_connection_pool.get()?.execute(
+        let inserted_count = self.config.sql_connection_pool.get()?.execute(
             &sql::insert(&self.config.content_type),
             named_params! {
                 ":content_id": content_id,
@@ -280,8 +280,11 @@ impl<TContentKey: OverlayContentKey, TMetric: Metric> IdIndexedV1Store<TContentK
         )?;
         self.metrics.stop_process_timer(insert_timer);
 
-        self.usage_stats.on_store(content_size);
-        self.usage_stats.report_metrics(&self.metrics);
+        // Content that is already stored is not replaced.
+        if inserted_count > 0 {
+            self.usage_stats.on_store(content_size);
+            self.usage_stats.report_metrics(&self.metrics);
+        }
 
         let dropped_content = if self.pruning_strategy.should_prune(&self.usage_stats) {
             self.prune()?
-- 
2.43.0


From b03aba5e08c02af887dbd9ad4eacc90fa1032091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:28:46 +0000
Subject: [PATCH 07/47] fix: refuse header proofs whose slot lies beyond the
 known historical roots

---
 crates/validation/src/header_validator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/validation/src/header_validator.rs b/crates/validation/src/header_validator.rs
index c1dc9c9..a27fb02 100644
--- a/crates/validation/src/header_validator.rs
+++ b/crates/validation/src/header_validator.rs
@@ -308,15 +308,20 @@ impl HeaderValidator {
         let block_root_index = slot % SLOTS_PER_HISTORICAL_ROOT;
         let gen_index = 2 * SLOTS_PER_HISTORICAL_ROOT + block_root_index;
         let historical_root_index = slot / SLOTS_PER_HISTORICAL_ROOT;
-        let historical_root =
-            self.historical_roots_acc.historical_roots[historical_root_index as usize];
+        let Some(historical_root) = self
+            .historical_roots_acc
+            .historical_roots
+            .get(historical_root_index as usize)
+        else {
+            return false;
+        };
 
         verify_merkle_proof(
             beacon_block_root,
             beacon_block_proof,
             14,
             gen_index as usize,
-            historical_root,
+            *historical_root,
         )
     }
 
-- 
2.43.0


From 21e1ae88ced1b64565b45d9c2822752fbe47bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:31 +0000
Subject: [PATCH 08/47] fix: refuse truncated e2store files instead of
 panicking

---
 crates/e2store/src/e2store/memory.rs | 15 +++++++++++----
 crates/e2store/src/e2store/types.rs  |  6 ++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/e2store/src/e2store/memory.rs b/crates/e2store/src/e2store/memory.rs
index 5eca438..47ce5e5 100644
--- a/crates/e2store/src/e2store/memory.rs
+++ b/crates/e2store/src/e2store/memory.rs
@@ -1,4 +1,4 @@
-use anyhow::anyhow;
+use anyhow::{anyhow, ensure};
 
 use super::types::{Entry, Header};
 
@@ -42,13 +42,20 @@ impl E2StoreMemory {
         let mut entries = Vec::new();
         let mut offset = 0;
         while offset < bytes.len() {
+            let header_length = Header::SERIALIZED_SIZE as usize;
+            ensure!(
+                bytes.len() - offset >= header_length,
+                "invalid buf length: {} - too short for another entry header",
+                bytes.len(),
+            );
             let entry_length = u32::from_le_bytes([
                 bytes[offset + 2],
                 bytes[offset + 3],
                 bytes[offset + 4],
                 bytes[offset + 5],
-            ]) + Header::SERIALIZED_SIZE as u32;
-            let terminating_entry_index = offset + entry_length as usize;
+            ]) as usize
+                + header_length;
+            let terminating_entry_index = offset + entry_length;
             if bytes.len() < terminating_entry_index {
                 return Err(anyhow!(
                     "invalid buf length: {} - expected {}",
@@ -57,7 +64,7 @@ impl E2StoreMemory {
                 ));
             }
             let entry = Entry::deserialize(&bytes[offset..terminating_entry_index])?;
-            offset += entry_length as usize;
+            offset += entry_length;
             entries.push(entry);
         }
         Ok(Self { entries })
diff --git a/crates/e2store/src/e2store/types.rs b/crates/e2store/src/e2store/types.rs
index b41becd..a272a29 100644
--- a/crates/e2store/src/e2store/types.rs
+++ b/crates/e2store/src/e2store/types.rs
@@ -57,6 +57,12 @@ impl Entry {
 
     /// Deserialize from a byte slice.
     pub fn deserialize(bytes: &[u8]) -> anyhow::Result<Self> {
+        ensure!(
+            bytes.len() >= Header::SERIALIZED_SIZE as usize,
+            "found invalid buf length for entry: {} - expected at least {}",
+            bytes.len(),
+            Header::SERIALIZED_SIZE
+        );
         let header = Header::deserialize(&bytes[0..8])?;
         if header.length as usize + Header::SERIALIZED_SIZE as usize != bytes.len() {
             return Err(anyhow!(
-- 
2.43.0


From fa6099d32c61bd3f7e68219e2e6fc395590e5388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:31 +0000
Subject: [PATCH 09/47] fix: refuse block files whose index doesn't match their
 entries

---
 crates/e2store/src/e2hs.rs |  4 ++++
 crates/e2store/src/era1.rs | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/e2store/src/e2hs.rs b/crates/e2store/src/e2hs.rs
index b20409a..d5715ee 100644
--- a/crates/e2store/src/e2hs.rs
+++ b/crates/e2store/src/e2hs.rs
@@ -164,6 +164,10 @@ impl E2HSMemory {
             "invalid e2hs file found during iter: missing block index entry"
         ))?;
         let block_index = E2HSBlockIndexEntry::try_from(last_entry)?.block_index;
+        ensure!(
+            file.entries.len() > block_index.count as usize * 3,
+            "invalid e2hs file found during iter: block index doesn't match entry count"
+        );
         Ok((0..block_index.count).map(move |i| {
             BlockTuple::try_from(&file.entries[i as usize * 3 + 1..i as usize * 3 + 4])
                 .expect("invalid block tuple")
diff --git a/crates/e2store/src/era1.rs b/crates/e2store/src/era1.rs
index e345ca1..b0c0e47 100644
--- a/crates/e2store/src/era1.rs
+++ b/crates/e2store/src/era1.rs
@@ -57,9 +57,12 @@ impl Era1 {
             file.entries
                 .last()
                 .ok_or(anyhow!("missing block index entry"))?,
-        )
-        .expect("invalid block index entry")
+        )?
         .block_index;
+        ensure!(
+            file.entries.len() > block_index.count as usize * 4,
+            "invalid era1 file: block index doesn't match entry count"
+        );
         Ok((0..block_index.count).map(move |i| {
             BlockTuple::try_from(&file.entries[i as usize * 4 + 1..i as usize * 4 + 5])
                 .expect("invalid block tuple")
@@ -78,6 +81,10 @@ impl Era1 {
             Era1BlockIndexEntry::try_from(file.entries.last().expect("missing block index entry"))?;
         let mut block_tuples = vec![];
         let block_tuple_count = block_index.block_index.count as usize;
+        ensure!(
+            file.entries.len() == block_tuple_count * 4 + 3,
+            "invalid era1 file: block index doesn't match entry count"
+        );
         for count in 0..block_tuple_count {
             let block_tuple = BlockTuple::try_from(&file.entries[count * 4 + 1..count * 4 + 5])?;
             block_tuples.push(block_tuple);
@@ -386,6 +393,10 @@ impl TryFrom<&Entry> for BlockIndex {
         let count = u64::from_le_bytes(
             entry.value[(block_tuple_count * 8 + 8)..(block_tuple_count * 8 + 16)].try_into()?,
         );
+        ensure!(
+            count == block_tuple_count as u64,
+            "invalid block index: incorrect count {count} - expected {block_tuple_count}"
+        );
         Ok(Self {
             starting_number,
             indices,
-- 
2.43.0


From c4e778be57d41286da497343c875f9c474384a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:31 +0000
Subject: [PATCH 10/47] fix: refuse era files with too few entries

---
 crates/e2store/src/era.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/e2store/src/era.rs b/crates/e2store/src/era.rs
index 606acb0..d0d28d1 100644
--- a/crates/e2store/src/era.rs
+++ b/crates/e2store/src/era.rs
@@ -46,8 +46,12 @@ impl Era {
     pub fn deserialize(buf: &[u8]) -> anyhow::Result<Self> {
         let file_length = buf.len();
         let file = E2StoreMemory::deserialize(buf)?;
-        let version = VersionEntry::try_from(&file.entries[0])?;
         let entries_length = file.entries.len();
+        ensure!(
+            entries_length >= 4,
+            "invalid era file: incorrect entry count {entries_length}"
+        );
+        let version = VersionEntry::try_from(&file.entries[0])?;
         let mut blocks = vec![];
 
         let slot_index_block = SlotIndexBlockEntry::try_from(&file.entries[entries_length - 2])?;
@@ -84,6 +88,10 @@ impl Era {
         let file = E2StoreMemory::deserialize(buf)?;
         // The compressed `BeaconState` is the second to last entry in the file.
         let entries_length = file.entries.len();
+        ensure!(
+            entries_length >= 4,
+            "invalid era file: incorrect entry count {entries_length}"
+        );
         let slot_index_state = SlotIndexStateEntry::try_from(&file.entries[entries_length - 1])?;
         let fork = get_beacon_fork(slot_index_state.slot_index.starting_slot);
         let era_state = CompressedBeaconState::try_from(&file.entries[entries_length - 3], fork)?;
-- 
2.43.0


From ce772d4b1ec75699975e0b7e679ebdf1f430e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:54:59 +0000
Subject: [PATCH 11/47] fix: check content item length against the payload
 before allocating

---
 crates/portalnet/src/utils/portal_wire.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/portalnet/src/utils/portal_wire.rs b/crates/portalnet/src/utils/portal_wire.rs
index 3f524bc..be2a7c2 100644
--- a/crates/portalnet/src/utils/portal_wire.rs
+++ b/crates/portalnet/src/utils/portal_wire.rs
@@ -12,6 +12,13 @@ fn decode_next_content_item(reader: &mut Reader<Bytes>) -> io::Result<Option<Byt
     // Read LEB128 index
     let varint = read_varint(reader)?;
 
+    if varint as usize > reader.get_ref().remaining() {
+        return Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "Content item is longer than the remaining payload",
+        ));
+    }
+
     // Read the content item
     let mut buf = BytesMut::zeroed(varint as usize);
     reader.read_exact(&mut buf)?;
-- 
2.43.0


From 1880f62666790b451f1cb8b6b515bec7b052995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:54:59 +0000
Subject: [PATCH 12/47] fix: drop all expired keys from the accept queue, not
 only the first

---
 crates/portalnet/src/accept_queue.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/portalnet/src/accept_queue.rs b/crates/portalnet/src/accept_queue.rs
index c8c33fd..f6799d9 100644
--- a/crates/portalnet/src/accept_queue.rs
+++ b/crates/portalnet/src/accept_queue.rs
@@ -54,8 +54,10 @@ where
     /// If the key is in the queue, the seen peer is stored as a fallback, and it returns false.
     /// Also polls for expired items, which will remove them from the queue.
     pub fn add_key_to_queue(&mut self, content_key: &TContentKey, peer: &Enr) -> bool {
-        // poll for expired items, which will remove them from the queue
-        let _ = future::poll_fn(|cx| self.content_key_map.poll_expired(cx)).now_or_never();
+        // poll for expired items, which will remove all of them from the queue
+        while let Some(Some(_)) =
+            future::poll_fn(|cx| self.content_key_map.poll_expired(cx)).now_or_never()
+        {}
         if let Some(mut seen_peers) = self.content_key_map.remove(content_key) {
             if seen_peers.origin == *peer || seen_peers.fallback.contains(peer) {
                 debug!(
-- 
2.43.0


From 17ae95b27775dcbf8afc6dd1f0d1084a47877ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:55:06 +0000
Subject: [PATCH 13/47] fix: expire all unanswered peers of a lookup before
 checking its capacity

---
 .../src/find/iterators/findcontent.rs         | 27 +++++++++++--------
 .../portalnet/src/find/iterators/findnodes.rs | 26 +++++++++++-------
 2 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/crates/portalnet/src/find/iterators/findcontent.rs b/crates/portalnet/src/find/iterators/findcontent.rs
index dd311ff..31a5a94 100644
--- a/crates/portalnet/src/find/iterators/findcontent.rs
+++ b/crates/portalnet/src/find/iterators/findcontent.rs
@@ -296,6 +296,20 @@ where
             return QueryState::Validating(peer);
         }
 
+        // Peers that don't respond within timeout are set to `Unresponsive`. This has to cover all
+        // peers, as the ones farther away also count towards the capacity.
+        for peer in self.closest_peers.values_mut() {
+            if matches!(peer.state(), QueryPeerState::Waiting(timeout) if now >= *timeout) {
+                // Assert that the following subtraction will not overflow.
+                assert!(
+                    self.num_waiting > 0,
+                    "Query (poll) reached invalid number of waiting peers"
+                );
+                self.num_waiting -= 1;
+                peer.set_state(QueryPeerState::Unresponsive);
+            }
+        }
+
         // Check if the query is at capacity w.r.t. the allowed parallelism.
         let at_capacity = self.at_capacity();
 
@@ -314,17 +328,8 @@ where
                     }
                 }
 
-                QueryPeerState::Waiting(timeout) => {
-                    if now >= *timeout {
-                        // Peers that don't respond within timeout are set to `Unresponsive`.
-                        // Assert that the following subtraction will not overflow.
-                        assert!(
-                            self.num_waiting > 0,
-                            "Query (poll) reached invalid number of waiting peers"
-                        );
-                        self.num_waiting -= 1;
-                        peer.set_state(QueryPeerState::Unresponsive);
-                    } else if at_capacity {
+                QueryPeerState::Waiting(..) => {
+                    if at_capacity {
                         // The query is still waiting for a result from a peer and is
                         // at capacity w.r.t. the maximum number of peers being waited on.
                         return QueryState::WaitingAtCapacity;
diff --git a/crates/portalnet/src/find/iterators/findnodes.rs b/crates/portalnet/src/find/iterators/findnodes.rs
index 4053fc2..5452fde 100644
--- a/crates/portalnet/src/find/iterators/findnodes.rs
+++ b/crates/portalnet/src/find/iterators/findnodes.rs
@@ -189,6 +189,20 @@ where
         // peers to contact, see `active_counter`).
         let mut result_counter = Some(0);
 
+        // Peers that don't respond within timeout are set to `Unresponsive`. This has to cover all
+        // peers, as the ones farther away also count towards the capacity.
+        for peer in self.closest_peers.values_mut() {
+            if matches!(peer.state(), QueryPeerState::Waiting(timeout) if now >= *timeout) {
+                // Assert that the following subtraction will not overflow.
+                assert!(
+                    self.num_waiting > 0,
+                    "Query reached invalid number of waiting queries"
+                );
+                self.num_waiting -= 1;
+                peer.set_state(QueryPeerState::Unresponsive);
+            }
+        }
+
         // Check if the query is at capacity w.r.t. the allowed parallelism.
         let at_capacity = self.at_capacity();
 
@@ -206,16 +220,8 @@ where
                         return QueryState::WaitingAtCapacity;
                     }
                 }
-                QueryPeerState::Waiting(timeout) => {
-                    if now >= *timeout {
-                        // Peers that don't respond within timeout are set to `Failed`.
-                        assert!(
-                            self.num_waiting > 0,
-                            "Query reached invalid number of waiting queries"
-                        );
-                        self.num_waiting -= 1;
-                        peer.set_state(QueryPeerState::Unresponsive);
-                    } else if at_capacity {
+                QueryPeerState::Waiting(..) => {
+                    if at_capacity {
                         // The query is still waiting for a result from a peer and is
                         // at capacity w.r.t. the maximum number of peers being waited on.
                         return QueryState::WaitingAtCapacity;
-- 
2.43.0


From 2b8c676fccff285f87bc739c1d283d384731712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:12:09 +0000
Subject: [PATCH 14/47] fix: accept content without distance again after a
 failed transfer

The queue entry of such content stayed until it expired two minutes later.
---
 crates/portalnet/src/overlay/service/offer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/portalnet/src/overlay/service/offer.rs b/crates/portalnet/src/overlay/service/offer.rs
index 0eab081..ebc9723 100644
--- a/crates/portalnet/src/overlay/service/offer.rs
+++ b/crates/portalnet/src/overlay/service/offer.rs
@@ -445,6 +445,8 @@ impl<
                 content_key = content_key.to_hex(),
                 "Not using fallback logic, content not affected by radius"
             );
+            // Allow the content to be offered again.
+            utp_processing.accept_queue.write().remove_key(&content_key);
             return Ok(());
         }
 
-- 
2.43.0


From 3674e9911755cafeeb7513e450d67f7eaa288df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:14:43 +0000
Subject: [PATCH 15/47] fix: poll overlay queries even if nothing else happens

Query timeouts and finished content validations do not wake up the service
loop, so a lookup could stall until the next bucket refresh a minute later.
---
 .../portalnet/src/overlay/service/manager.rs   | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/portalnet/src/overlay/service/manager.rs b/crates/portalnet/src/overlay/service/manager.rs
index 121a246..5b7c18d 100644
--- a/crates/portalnet/src/overlay/service/manager.rs
+++ b/crates/portalnet/src/overlay/service/manager.rs
@@ -30,9 +30,12 @@ use futures::prelude::*;
 use parking_lot::{Mutex, RwLock};
 use rand::{rng, Rng};
 use ssz::Encode;
-use tokio::sync::{
-    broadcast,
-    mpsc::{self, UnboundedSender},
+use tokio::{
+    sync::{
+        broadcast,
+        mpsc::{self, UnboundedSender},
+    },
+    time::MissedTickBehavior,
 };
 use tracing::{debug, error, info, trace, warn};
 use trin_metrics::overlay::OverlayMetricsReporter;
@@ -78,6 +81,9 @@ const EXPECTED_NON_EMPTY_BUCKETS: usize = 17;
 /// Bucket refresh lookup interval in seconds
 const BUCKET_REFRESH_INTERVAL_SECS: u64 = 60;
 
+/// Interval at which queries are polled if nothing else happens, in milliseconds
+const QUERY_POLL_INTERVAL_MS: u64 = 100;
+
 /// The capacity of the event-stream's broadcast channel.
 const EVENT_STREAM_CHANNEL_CAPACITY: usize = 10;
 
@@ -250,6 +256,11 @@ impl<
         let mut bucket_refresh_interval =
             tokio::time::interval(Duration::from_secs(BUCKET_REFRESH_INTERVAL_SECS));
 
+        // Query timeouts and finished content validations don't wake up the loop by themselves
+        let mut query_poll_interval =
+            tokio::time::interval(Duration::from_millis(QUERY_POLL_INTERVAL_MS));
+        query_poll_interval.set_missed_tick_behavior(MissedTickBehavior::Delay);
+
         loop {
             tokio::select! {
                 Some(command) = self.command_rx.recv() => {
@@ -313,6 +324,7 @@ impl<
                     trace!(protocol = %self.protocol, "Routing table bucket refresh");
                     self.bucket_refresh_lookup();
                 }
+                _ = query_poll_interval.tick() => {}
             }
         }
     }
-- 
2.43.0


From 3e0d7a95c71a1f660bca096f09a77d9b11c4769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:15:24 +0000
Subject: [PATCH 16/47] fix: tell a content lookup about peers it cannot fetch
 from

A lookup waited for its overall timeout if content was announced by a peer
with an unknown record or without a common protocol version.
---
 crates/portalnet/src/overlay/service/find_content.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/portalnet/src/overlay/service/find_content.rs b/crates/portalnet/src/overlay/service/find_content.rs
index bd5ab66..5b7f721 100644
--- a/crates/portalnet/src/overlay/service/find_content.rs
+++ b/crates/portalnet/src/overlay/service/find_content.rs
@@ -308,7 +308,7 @@ impl<
                         query.id = %query_id,
                         "Cannot query peer with unknown ENR"
                     );
-                    if let Some((_, query)) = self.find_node_query_pool.get_mut(query_id) {
+                    if let Some((_, query)) = self.find_content_query_pool.get_mut(query_id) {
                         query.on_failure(&node_id);
                     }
                 }
@@ -356,6 +356,8 @@ impl<
                             Some(enr) => enr,
                             _ => {
                                 debug!("Received uTP payload from unknown {peer}");
+                                // Indicate to the query that the content is not available
+                                let _ = valid_content_tx.send(None);
                                 return;
                             }
                         };
@@ -374,6 +376,8 @@ impl<
                                 Ok(protocol_version) => protocol_version,
                                 Err(err) => {
                                     debug!(?err, "Unable to get latest common protocol version");
+                                    // Indicate to the query that the content is not available
+                                    let _ = valid_content_tx.send(None);
                                     return;
                                 }
                             };
-- 
2.43.0


From 4c2ae4f7975e79544508f1796ee41d4a1d7e6bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:35:17 +0000
Subject: [PATCH 17/47] fix: return the record of the requested node only

A record lookup returned whichever record with the highest sequence number a
peer or a lookup came up with, even if it belonged to another node.
---
 crates/portalnet/src/overlay/protocol.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/portalnet/src/overlay/protocol.rs b/crates/portalnet/src/overlay/protocol.rs
index 7d1f1ad..05224db 100644
--- a/crates/portalnet/src/overlay/protocol.rs
+++ b/crates/portalnet/src/overlay/protocol.rs
@@ -331,7 +331,11 @@ impl<
         // try to find more up to date enr
         if let Ok(enr) = enr.clone() {
             if let Ok(nodes) = self.send_find_nodes(enr, vec![0]).await {
-                let enr_highest_seq = nodes.enrs.into_iter().max_by(|a, b| a.seq().cmp(&b.seq()));
+                let enr_highest_seq = nodes
+                    .enrs
+                    .into_iter()
+                    .filter(|enr| enr.node_id() == node_id)
+                    .max_by(|a, b| a.seq().cmp(&b.seq()));
 
                 if let Some(enr_highest_seq) = enr_highest_seq {
                     return Ok(enr_highest_seq.into());
@@ -342,6 +346,7 @@ impl<
         let lookup_node_enr = self.lookup_node(node_id).await;
         let lookup_node_enr = lookup_node_enr
             .into_iter()
+            .filter(|enr| enr.node_id() == node_id)
             .max_by(|a, b| a.seq().cmp(&b.seq()));
         if let Some(lookup_node_enr) = lookup_node_enr {
             let mut enr_seq = 0;
-- 
2.43.0


From 61b9523038f978343d8bfa53ff2ccf3981225559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:35:50 +0000
Subject: [PATCH 18/47] fix: watch a peer that was heard from again after a
 failure

A peer leaves the ping queue when a request to it fails. A later request by it
marked it as connected without putting it back.
---
 crates/portalnet/src/overlay/service/manager.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/portalnet/src/overlay/service/manager.rs b/crates/portalnet/src/overlay/service/manager.rs
index 5b7c18d..73b1316 100644
--- a/crates/portalnet/src/overlay/service/manager.rs
+++ b/crates/portalnet/src/overlay/service/manager.rs
@@ -584,7 +584,12 @@ impl<
         // we cannot construct a new entry for sure, because we only have the node ID, not the ENR.
         if is_node_in_table {
             match self.update_node_connection_state(source, ConnectionState::Connected) {
-                Ok(_) => {}
+                Ok(_) => {
+                    // Nodes leave the ping queue when they disconnect.
+                    if !self.peers_to_ping.contains_key(&source) {
+                        self.peers_to_ping.insert(source);
+                    }
+                }
                 Err(_) => {
                     // If the update fails, then remove the node from the ping queue.
                     self.peers_to_ping.remove(&source);
-- 
2.43.0


From 1b9ab8b8fff3ad479aa168d12487b804adc225f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:36:35 +0000
Subject: [PATCH 19/47] fix: let a node lookup find the requested node itself

The target was treated as failed when its turn came, so looking up the record
of a node outside the routing table never succeeded.
---
 crates/portalnet/src/find/query_info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/portalnet/src/find/query_info.rs b/crates/portalnet/src/find/query_info.rs
index 90a4231..6f267f8 100644
--- a/crates/portalnet/src/find/query_info.rs
+++ b/crates/portalnet/src/find/query_info.rs
@@ -68,8 +68,9 @@ impl<TContentKey: OverlayContentKey> QueryInfo<TContentKey> {
                 distances_to_request,
                 ..
             } => {
+                // Ask the target itself for its own record, so that it can be part of the result
                 let distances = findnode_log2distance(target, peer, distances_to_request)
-                    .ok_or("Requested a node find itself")?;
+                    .unwrap_or_else(|| vec![0]);
                 Request::FindNodes(FindNodes { distances })
             }
             QueryType::FindContent { ref target, .. } => Request::FindContent(FindContent {
-- 
2.43.0


From f865b427bb0ba3ac7e8367c0181e0399f9206cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:52:48 +0000
Subject: [PATCH 20/47] fix: use the configured network's clock in the light
 client

The current slot was computed from the mainnet genesis time on every network.
On Sepolia this accepted updates from the future and asked for sync committee
periods that do not exist yet.
---
 .../light-client/src/consensus/consensus_client.rs   | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/light-client/src/consensus/consensus_client.rs b/crates/light-client/src/consensus/consensus_client.rs
index 52e907a..bef4ab2 100644
--- a/crates/light-client/src/consensus/consensus_client.rs
+++ b/crates/light-client/src/consensus/consensus_client.rs
@@ -25,9 +25,7 @@ use tree_hash::TreeHash;
 use super::{errors::ConsensusError, rpc::ConsensusRpc, types::*, utils::*};
 use crate::{
     config::client_config::Config,
-    consensus::{
-        constants::MAX_REQUEST_LIGHT_CLIENT_UPDATES, rpc::portal_rpc::expected_current_slot,
-    },
+    consensus::constants::MAX_REQUEST_LIGHT_CLIENT_UPDATES,
     watch::{light_client_watch_channels, LightClientWatchReceivers, LightClientWatchSenders},
 };
 
@@ -125,7 +123,7 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
         // If we are using the portal network, we need to request updates for all periods one by one
         if &self.rpc.name() == "portal" {
             // Get expected current period
-            let current_period = calc_sync_period(expected_current_slot());
+            let current_period = calc_sync_period(self.expected_current_slot());
 
             // Create a range of periods to request updates for
             let periods = bootstrap_period..current_period;
@@ -257,7 +255,7 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
 
     fn verify_update(&self, update: &LightClientUpdateElectra) -> Result<()> {
         let update = GenericUpdate::from(update);
-        let expected_current_slot = expected_current_slot();
+        let expected_current_slot = self.expected_current_slot();
         verify_generic_update(
             &self.store,
             &update,
@@ -269,7 +267,7 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
 
     fn verify_finality_update(&self, update: &LightClientFinalityUpdateElectra) -> Result<()> {
         let update = GenericUpdate::from(update);
-        let expected_current_slot = expected_current_slot();
+        let expected_current_slot = self.expected_current_slot();
         verify_generic_update(
             &self.store,
             &update,
@@ -281,7 +279,7 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
 
     fn verify_optimistic_update(&self, update: &LightClientOptimisticUpdateElectra) -> Result<()> {
         let update = GenericUpdate::from(update);
-        let expected_current_slot = expected_current_slot();
+        let expected_current_slot = self.expected_current_slot();
         verify_generic_update(
             &self.store,
             &update,
-- 
2.43.0


From 388e39033bf308cf6f06e42b1be3597f8bc357cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:52:48 +0000
Subject: [PATCH 21/47] fix: verify sync aggregates with the fork version of
 the previous slot

The sync committee signs the block of the previous slot. An aggregate included
in the first slot of a fork was checked against the wrong fork version.
---
 crates/light-client/src/consensus/consensus_client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/light-client/src/consensus/consensus_client.rs b/crates/light-client/src/consensus/consensus_client.rs
index bef4ab2..0ec4684 100644
--- a/crates/light-client/src/consensus/consensus_client.rs
+++ b/crates/light-client/src/consensus/consensus_client.rs
@@ -261,7 +261,8 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
             &update,
             expected_current_slot,
             self.config.chain.genesis_root,
-            self.config.fork_version(update.signature_slot),
+            self.config
+                .fork_version(update.signature_slot.saturating_sub(1)),
         )
     }
 
@@ -273,7 +274,8 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
             &update,
             expected_current_slot,
             self.config.chain.genesis_root,
-            self.config.fork_version(update.signature_slot),
+            self.config
+                .fork_version(update.signature_slot.saturating_sub(1)),
         )
     }
 
@@ -285,7 +287,8 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
             &update,
             expected_current_slot,
             self.config.chain.genesis_root,
-            self.config.fork_version(update.signature_slot),
+            self.config
+                .fork_version(update.signature_slot.saturating_sub(1)),
         )
     }
 
-- 
2.43.0


From 72f4a9569fd65d1a20918dc0d0e6abc3845d6a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:52:48 +0000
Subject: [PATCH 22/47] fix: do not underflow on a light client bootstrap from
 the future

The age of a checkpoint was computed before the bootstrap was verified, so any
slot sent by the other side could overflow the computation.
---
 crates/light-client/src/consensus/consensus_client.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/light-client/src/consensus/consensus_client.rs b/crates/light-client/src/consensus/consensus_client.rs
index 0ec4684..b186c6b 100644
--- a/crates/light-client/src/consensus/consensus_client.rs
+++ b/crates/light-client/src/consensus/consensus_client.rs
@@ -514,13 +514,15 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
         let current_slot_timestamp = self.slot_timestamp(current_slot);
         let blockhash_slot_timestamp = self.slot_timestamp(blockhash_slot);
 
-        let slot_age = current_slot_timestamp - blockhash_slot_timestamp;
+        let slot_age = current_slot_timestamp.saturating_sub(blockhash_slot_timestamp);
 
         slot_age < self.config.max_checkpoint_age
     }
 
     fn slot_timestamp(&self, slot: u64) -> u64 {
-        slot * 12 + self.config.chain.genesis_time
+        slot
+            .saturating_mul(12)
+            .saturating_add(self.config.chain.genesis_time)
     }
 }
 
-- 
2.43.0


From 4432cb107b32fa29716d4db8fa712cdb663ac379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:52:48 +0000
Subject: [PATCH 23/47] fix: do not panic on a checkpoint service without slots

---
 crates/light-client/src/config/checkpoints.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/light-client/src/config/checkpoints.rs b/crates/light-client/src/config/checkpoints.rs
index 0ccf2d0..0418f81 100644
--- a/crates/light-client/src/config/checkpoints.rs
+++ b/crates/light-client/src/config/checkpoints.rs
@@ -209,8 +209,10 @@ impl CheckpointFallback {
         let constructed_url = Self::construct_url(url);
         let res = Self::send_request(&constructed_url).await?;
         let raw: RawSlotResponse = res.json().await?;
-        let slot = raw.data.slots[0].clone();
-        slot.block_root
+        raw.data
+            .slots
+            .first()
+            .and_then(|slot| slot.block_root)
             .ok_or_else(|| anyhow!("Checkpoint not in returned slot"))
     }
 
-- 
2.43.0


From 0870dd35c5e41c3c9372030d89e6ce8838b1ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:08:04 +0000
Subject: [PATCH 24/47] fix: report content as stored locally only if storing
 it succeeded

---
 crates/portalnet/src/overlay/protocol.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/portalnet/src/overlay/protocol.rs b/crates/portalnet/src/overlay/protocol.rs
index 05224db..e3aa4a0 100644
--- a/crates/portalnet/src/overlay/protocol.rs
+++ b/crates/portalnet/src/overlay/protocol.rs
@@ -239,12 +239,22 @@ impl<
             }
         };
 
-        if should_we_store {
-            let _ = self
+        let stored_locally = should_we_store
+            && match self
                 .store
                 .lock()
-                .put(content_key.clone(), content_value.clone());
-        }
+                .put(content_key.clone(), content_value.clone())
+            {
+                Ok(_) => true,
+                Err(err) => {
+                    warn!(
+                        protocol = %self.protocol,
+                        error = %err,
+                        "Error storing content locally",
+                    );
+                    false
+                }
+            };
 
         PutContentInfo {
             peer_count: propagate_put_content_cross_thread::<_, TMetric>(
@@ -253,7 +263,7 @@ impl<
                 self.command_tx.clone(),
                 None,
             ) as u32,
-            stored_locally: should_we_store,
+            stored_locally,
         }
     }
 
-- 
2.43.0


From 1202f884589b6de68b43bac13686170adbecd614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:23:44 +0000
Subject: [PATCH 25/47] fix: refuse execution payloads followed by unexpected
 bytes

---
 .../src/types/execution/block_body.rs         | 24 ++++++++++++++-----
 .../src/types/execution/receipts.rs           | 14 ++++++++---
 .../src/types/execution/ssz_header.rs         | 11 +++++++--
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/crates/ethportal-api/src/types/execution/block_body.rs b/crates/ethportal-api/src/types/execution/block_body.rs
index 4e50c19..95e0145 100644
--- a/crates/ethportal-api/src/types/execution/block_body.rs
+++ b/crates/ethportal-api/src/types/execution/block_body.rs
@@ -1,4 +1,4 @@
-use std::{ops::Deref, vec};
+use std::{fmt::Debug, ops::Deref, vec};
 
 use alloy::{
     consensus::{
@@ -65,6 +65,18 @@ impl ssz::Decode for BlockBody {
     }
 }
 
+/// Decodes a value and makes sure that no bytes are left over.
+fn decode_all<T, E: Debug>(
+    mut bytes: &[u8],
+    decode: impl FnOnce(&mut &[u8]) -> Result<T, E>,
+) -> Result<T, String> {
+    let value = decode(&mut bytes).map_err(|e| format!("{e:?}"))?;
+    match bytes.len() {
+        0 => Ok(value),
+        len => Err(format!("{len} unexpected bytes at the end")),
+    }
+}
+
 impl BlockBody {
     pub fn validate_against_header(&self, header: &Header) -> anyhow::Result<()> {
         // Validate uncles root
@@ -122,14 +134,14 @@ impl BlockBody {
         let ommers: Vec<u8> = decoder.decode_next()?;
         let transactions: Vec<TxEnvelope> = transactions
             .iter()
-            .map(|bytes| TxEnvelope::decode_2718(&mut bytes.as_slice()))
+            .map(|bytes| decode_all(bytes, TxEnvelope::decode_2718))
             .collect::<Result<Vec<TxEnvelope>, _>>()
             .map_err(|e| {
                 ssz::DecodeError::BytesInvalid(format!(
                     "Legacy block body contains invalid txs: {e:?}",
                 ))
             })?;
-        let ommers: Vec<Header> = Decodable::decode(&mut ommers.as_slice()).map_err(|e| {
+        let ommers: Vec<Header> = decode_all(&ommers, Decodable::decode).map_err(|e| {
             ssz::DecodeError::BytesInvalid(format!("Legacy block body contains invalid txs: {e:?}"))
         })?;
         Ok(Self(AlloyBlockBody {
@@ -171,7 +183,7 @@ impl BlockBody {
         let withdrawals: Vec<Vec<u8>> = decoder.decode_next()?;
         let transactions: Vec<TxEnvelope> = transactions
             .iter()
-            .map(|bytes| TxEnvelope::decode_2718(&mut bytes.as_slice()))
+            .map(|bytes| decode_all(bytes, TxEnvelope::decode_2718))
             .collect::<Result<Vec<TxEnvelope>, _>>()
             .map_err(|e| {
                 ssz::DecodeError::BytesInvalid(format!(
@@ -179,7 +191,7 @@ impl BlockBody {
                 ))
             })?;
         // shanghai block bodies are expected to have empty uncles
-        let ommers: Vec<Header> = Decodable::decode(&mut ommers.as_slice()).map_err(|e| {
+        let ommers: Vec<Header> = decode_all(&ommers, Decodable::decode).map_err(|e| {
             ssz::DecodeError::BytesInvalid(format!(
                 "Shanghai block body contains invalid txs: {e:?}",
             ))
@@ -191,7 +203,7 @@ impl BlockBody {
         }
         let withdrawals: Vec<Withdrawal> = withdrawals
             .iter()
-            .map(|bytes| Decodable::decode(&mut bytes.as_slice()))
+            .map(|bytes| decode_all(bytes, Decodable::decode))
             .collect::<Result<Vec<Withdrawal>, _>>()
             .map_err(|e| {
                 ssz::DecodeError::BytesInvalid(format!(
diff --git a/crates/ethportal-api/src/types/execution/receipts.rs b/crates/ethportal-api/src/types/execution/receipts.rs
index 02da2ad..fabca36 100644
--- a/crates/ethportal-api/src/types/execution/receipts.rs
+++ b/crates/ethportal-api/src/types/execution/receipts.rs
@@ -50,11 +50,19 @@ impl ssz::Decode for Receipts {
             ssz::decode_list_of_variable_length_items(bytes, Some(MAX_TRANSACTION_COUNT))?;
         let receipts: Vec<ReceiptEnvelope> = encoded_receipts
             .iter()
-            .map(|bytes| ReceiptEnvelope::decode_2718(&mut bytes.as_slice()))
-            .collect::<Result<Vec<ReceiptEnvelope>, _>>()
+            .map(|bytes| {
+                let mut remaining = bytes.as_slice();
+                let receipt = ReceiptEnvelope::decode_2718(&mut remaining)
+                    .map_err(|e| format!("{e:?}"))?;
+                match remaining.len() {
+                    0 => Ok(receipt),
+                    len => Err(format!("{len} unexpected bytes at the end")),
+                }
+            })
+            .collect::<Result<Vec<ReceiptEnvelope>, String>>()
             .map_err(|e| {
                 ssz::DecodeError::BytesInvalid(format!(
-                    "Receipt list contains invalid receipts: {e:?}",
+                    "Receipt list contains invalid receipts: {e}",
                 ))
             })?;
         Ok(Self(receipts))
diff --git a/crates/ethportal-api/src/types/execution/ssz_header.rs b/crates/ethportal-api/src/types/execution/ssz_header.rs
index c0a9c02..f956aa1 100644
--- a/crates/ethportal-api/src/types/execution/ssz_header.rs
+++ b/crates/ethportal-api/src/types/execution/ssz_header.rs
@@ -42,8 +42,15 @@ pub mod decode {
 
     pub fn from_ssz_bytes(bytes: &[u8]) -> Result<Header, ssz::DecodeError> {
         let rlp_encoded_header = ByteList2048::from_ssz_bytes(bytes)?;
-        Header::decode(&mut &*rlp_encoded_header).map_err(|_| {
+        let mut remaining = &*rlp_encoded_header;
+        let header = Header::decode(&mut remaining).map_err(|_| {
             ssz::DecodeError::BytesInvalid("Unable to decode bytes into header.".to_string())
-        })
+        })?;
+        if !remaining.is_empty() {
+            return Err(ssz::DecodeError::BytesInvalid(
+                "Unexpected bytes after the header.".to_string(),
+            ));
+        }
+        Ok(header)
     }
 }
-- 
2.43.0


From 0705541d166dadd757596f3ddad0a5964dbf1312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:06:48 +0000
Subject: [PATCH 26/47] fix: bound the range of light client updates a beacon
 content key may ask for

---
 crates/subnetworks/beacon/src/storage.rs | 32 +++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/crates/subnetworks/beacon/src/storage.rs b/crates/subnetworks/beacon/src/storage.rs
index c891e58..afc7d29 100644
--- a/crates/subnetworks/beacon/src/storage.rs
+++ b/crates/subnetworks/beacon/src/storage.rs
@@ -1,9 +1,10 @@
-use std::{path::PathBuf, time::Duration};
+use std::{ops::Range, path::PathBuf, time::Duration};
 
 use alloy::primitives::B256;
 use ethportal_api::{
     consensus::fork::ForkName,
     types::{
+        content_key::beacon::LightClientUpdatesByRangeKey,
         content_value::beacon::{
             ForkVersionedHistoricalSummariesWithProof, ForkVersionedLightClientBootstrap,
             ForkVersionedLightClientFinalityUpdate, ForkVersionedLightClientOptimisticUpdate,
@@ -20,7 +21,10 @@ use r2d2::Pool;
 use r2d2_sqlite::{rusqlite, SqliteConnectionManager};
 use rusqlite::{params, OptionalExtension};
 use ssz::{Decode, Encode};
-use ssz_types::{typenum::U128, VariableList};
+use ssz_types::{
+    typenum::{Unsigned, U128},
+    VariableList,
+};
 use tracing::{debug, error, info};
 use tree_hash::TreeHash;
 use trin_metrics::storage::StorageMetricsReporter;
@@ -38,6 +42,16 @@ use trin_storage::{
 };
 use trin_validation::chain_head::ChainHead;
 
+/// Returns the sync committee periods covered by the key, or `None` if there are more of them than
+/// a single content value can hold.
+fn update_periods(key: &LightClientUpdatesByRangeKey) -> Option<Range<u64>> {
+    if key.count > U128::to_u64() {
+        return None;
+    }
+    let end_period = key.start_period.checked_add(key.count)?;
+    Some(key.start_period..end_period)
+}
+
 /// Store ephemeral light client data in memory
 #[derive(Debug)]
 pub struct BeaconStorageCache {
@@ -133,8 +147,9 @@ impl ContentStore for BeaconStorage {
                     ))
                 }),
             BeaconContentKey::LightClientUpdatesByRange(content_key) => {
-                let periods =
-                    content_key.start_period..(content_key.start_period + content_key.count);
+                let Some(periods) = update_periods(content_key) else {
+                    return Ok(None);
+                };
 
                 let mut content: Vec<ForkVersionedLightClientUpdate> = Vec::new();
 
@@ -219,7 +234,9 @@ impl ContentStore for BeaconStorage {
                 // Check if any of the periods are available, return AlreadyStored if so otherwise
                 // Store
                 let periods =
-                    content_key.start_period..(content_key.start_period + content_key.count);
+                    update_periods(content_key).ok_or_else(|| ContentStoreError::InvalidData {
+                        message: format!("Unsupported range of light client updates: {key}"),
+                    })?;
 
                 for period in periods {
                     let is_period_available = self
@@ -473,7 +490,10 @@ impl BeaconStorage {
             BeaconContentKey::LightClientUpdatesByRange(update) => {
                 // Build a range of values starting with update.start_period and len
                 // update.count
-                let periods = update.start_period..(update.start_period + update.count);
+                let periods =
+                    update_periods(update).ok_or_else(|| ContentStoreError::InvalidData {
+                        message: format!("Unsupported range of light client updates: {key}"),
+                    })?;
                 let update_values =
                     LightClientUpdatesByRange::from_ssz_bytes(value).map_err(|err| {
                         ContentStoreError::InvalidData {
-- 
2.43.0


From c8a8ba65e67cacbb01be29a7d08ee78731059efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:06:48 +0000
Subject: [PATCH 27/47] fix: refuse light client bootstraps of a block other
 than the requested one

---
 crates/subnetworks/beacon/src/validation.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/subnetworks/beacon/src/validation.rs b/crates/subnetworks/beacon/src/validation.rs
index cc5a8c9..ea8f142 100644
--- a/crates/subnetworks/beacon/src/validation.rs
+++ b/crates/subnetworks/beacon/src/validation.rs
@@ -62,7 +62,7 @@ impl Validator<BeaconContentKey> for BeaconValidator {
         content_value: &[u8],
     ) -> ValidationResult {
         match content_key {
-            BeaconContentKey::LightClientBootstrap(_) => {
+            BeaconContentKey::LightClientBootstrap(key) => {
                 let Ok(bootstrap) =
                     ForkVersionedLightClientBootstrap::from_ssz_bytes(content_value)
                 else {
@@ -88,8 +88,18 @@ impl Validator<BeaconContentKey> for BeaconValidator {
                     ));
                 }
 
-                let finalized_header = self.header_oracle.read().await.get_finalized_header().await;
+                // Check if the light client bootstrap is for the requested block
                 let bootstrap_block_header = bootstrap.bootstrap.get_beacon_block_header();
+                let bootstrap_block_root = bootstrap_block_header.tree_hash_root();
+
+                if bootstrap_block_root.0 != key.block_hash {
+                    return ValidationResult::Invalid(format!(
+                        "Light client bootstrap block root does not match the content key block hash: {bootstrap_block_root} != {}",
+                        key.block_hash.encode_hex_with_prefix(),
+                    ));
+                }
+
+                let finalized_header = self.header_oracle.read().await.get_finalized_header().await;
 
                 if let Ok(finalized_header) = finalized_header {
                     if finalized_header != bootstrap_block_header {
-- 
2.43.0


From d631ae601e8cc5656115c5193dcd7c157423e2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:07:08 +0000
Subject: [PATCH 28/47] fix: verify the sync committee of light client
 bootstraps

---
 crates/subnetworks/beacon/src/validation.rs | 44 +++++++++++++++++++--
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/crates/subnetworks/beacon/src/validation.rs b/crates/subnetworks/beacon/src/validation.rs
index ea8f142..dd89a55 100644
--- a/crates/subnetworks/beacon/src/validation.rs
+++ b/crates/subnetworks/beacon/src/validation.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use alloy::hex::ToHexExt;
+use alloy::{hex::ToHexExt, primitives::B256};
 use anyhow::anyhow;
 use chrono::Duration;
 use ethportal_api::{
@@ -11,8 +11,8 @@ use ethportal_api::{
         },
     },
     light_client::{
-        finality_update::LightClientFinalityUpdate, optimistic_update::LightClientOptimisticUpdate,
-        update::LightClientUpdate,
+        bootstrap::LightClientBootstrap, finality_update::LightClientFinalityUpdate,
+        optimistic_update::LightClientOptimisticUpdate, update::LightClientUpdate,
     },
     types::{
         content_key::beacon::HistoricalSummariesWithProofKey,
@@ -40,6 +40,10 @@ use trin_validation::{
     validator::{ValidationResult, Validator},
 };
 
+/// Position of the current sync committee among the leaves of its level in the beacon state. The
+/// level changed with Electra, the position didn't.
+const CURRENT_SYNC_COMMITTEE_INDEX: usize = 22;
+
 pub struct BeaconValidator {
     // TODO: HeaderOracle is not network agnostic name
     pub header_oracle: Arc<RwLock<HeaderOracle>>,
@@ -89,7 +93,7 @@ impl Validator<BeaconContentKey> for BeaconValidator {
                 }
 
                 // Check if the light client bootstrap is for the requested block
-                let bootstrap_block_header = bootstrap.bootstrap.get_beacon_block_header();
+                let bootstrap_block_header = bootstrap.bootstrap.clone().get_beacon_block_header();
                 let bootstrap_block_root = bootstrap_block_header.tree_hash_root();
 
                 if bootstrap_block_root.0 != key.block_hash {
@@ -99,6 +103,38 @@ impl Validator<BeaconContentKey> for BeaconValidator {
                     ));
                 }
 
+                // Check that the sync committee is part of the block's state
+                let bootstrap_committee_branch: &[B256] = match &bootstrap.bootstrap {
+                    LightClientBootstrap::Bellatrix(bootstrap) => {
+                        &bootstrap.current_sync_committee_branch
+                    }
+                    LightClientBootstrap::Capella(bootstrap) => {
+                        &bootstrap.current_sync_committee_branch
+                    }
+                    LightClientBootstrap::Deneb(bootstrap) => {
+                        &bootstrap.current_sync_committee_branch
+                    }
+                    LightClientBootstrap::Electra(bootstrap) => {
+                        &bootstrap.current_sync_committee_branch
+                    }
+                };
+
+                if !verify_merkle_proof(
+                    bootstrap
+                        .bootstrap
+                        .current_sync_committee()
+                        .tree_hash_root(),
+                    bootstrap_committee_branch,
+                    bootstrap_committee_branch.len(),
+                    CURRENT_SYNC_COMMITTEE_INDEX,
+                    bootstrap_block_header.state_root,
+                ) {
+                    return ValidationResult::Invalid(
+                        "Merkle proof validation failed for the sync committee of the light client bootstrap"
+                            .to_string(),
+                    );
+                }
+
                 let finalized_header = self.header_oracle.read().await.get_finalized_header().await;
 
                 if let Ok(finalized_header) = finalized_header {
-- 
2.43.0


From c8d5e0a74738ae69c5a0b193d68ffd369b39a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:07:30 +0000
Subject: [PATCH 29/47] fix: refuse light client updates of periods other than
 the requested ones

---
 crates/subnetworks/beacon/src/validation.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/subnetworks/beacon/src/validation.rs b/crates/subnetworks/beacon/src/validation.rs
index dd89a55..5f74995 100644
--- a/crates/subnetworks/beacon/src/validation.rs
+++ b/crates/subnetworks/beacon/src/validation.rs
@@ -5,6 +5,7 @@ use anyhow::anyhow;
 use chrono::Duration;
 use ethportal_api::{
     consensus::{
+        constants::SLOTS_PER_EPOCH,
         fork::ForkName,
         historical_summaries::{
             HistoricalSummariesProof, HistoricalSummariesWithProof, HISTORICAL_SUMMARIES_GINDEX,
@@ -40,6 +41,9 @@ use trin_validation::{
     validator::{ValidationResult, Validator},
 };
 
+/// 256 epochs of 32 slots each
+const SLOTS_PER_SYNC_COMMITTEE_PERIOD: u64 = 256 * SLOTS_PER_EPOCH;
+
 /// Position of the current sync committee among the leaves of its level in the beacon state. The
 /// level changed with Electra, the position didn't.
 const CURRENT_SYNC_COMMITTEE_INDEX: usize = 22;
@@ -174,9 +178,19 @@ impl Validator<BeaconContentKey> for BeaconValidator {
                     .await
                 {
                     let expected_slot = expected_current_slot();
-                    for update in lc_updates.0.iter() {
+                    for (i, update) in lc_updates.0.iter().enumerate() {
                         match &update.update {
                             LightClientUpdate::Electra(update) => {
+                                // Check that the update belongs to its period of the content key
+                                let period = update.attested_header.beacon.slot
+                                    / SLOTS_PER_SYNC_COMMITTEE_PERIOD;
+                                if key.start_period.checked_add(i as u64) != Some(period) {
+                                    return ValidationResult::Invalid(format!(
+                                        "Light client update {i} of the range starting with period {} is from period {period}",
+                                        key.start_period,
+                                    ));
+                                }
+
                                 let generic_update: GenericUpdate = update.into();
                                 if let Err(err) = verify_generic_update(
                                     &light_client_store,
-- 
2.43.0


From ed7c444c15e5f5b1fdf233691ddcba774b8a736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:07:37 +0000
Subject: [PATCH 30/47] fix: verify the execution headers of light client
 headers

---
 crates/subnetworks/beacon/src/validation.rs | 54 ++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/crates/subnetworks/beacon/src/validation.rs b/crates/subnetworks/beacon/src/validation.rs
index 5f74995..e5a27e8 100644
--- a/crates/subnetworks/beacon/src/validation.rs
+++ b/crates/subnetworks/beacon/src/validation.rs
@@ -7,13 +7,15 @@ use ethportal_api::{
     consensus::{
         constants::SLOTS_PER_EPOCH,
         fork::ForkName,
+        header::BeaconBlockHeader,
         historical_summaries::{
             HistoricalSummariesProof, HistoricalSummariesWithProof, HISTORICAL_SUMMARIES_GINDEX,
         },
     },
     light_client::{
         bootstrap::LightClientBootstrap, finality_update::LightClientFinalityUpdate,
-        optimistic_update::LightClientOptimisticUpdate, update::LightClientUpdate,
+        header::LightClientHeaderElectra, optimistic_update::LightClientOptimisticUpdate,
+        update::LightClientUpdate,
     },
     types::{
         content_key::beacon::HistoricalSummariesWithProofKey,
@@ -48,6 +50,9 @@ const SLOTS_PER_SYNC_COMMITTEE_PERIOD: u64 = 256 * SLOTS_PER_EPOCH;
 /// level changed with Electra, the position didn't.
 const CURRENT_SYNC_COMMITTEE_INDEX: usize = 22;
 
+/// Position of the execution payload among the leaves of the beacon block body.
+const EXECUTION_PAYLOAD_INDEX: usize = 9;
+
 pub struct BeaconValidator {
     // TODO: HeaderOracle is not network agnostic name
     pub header_oracle: Arc<RwLock<HeaderOracle>>,
@@ -139,6 +144,15 @@ impl Validator<BeaconContentKey> for BeaconValidator {
                     );
                 }
 
+                if let LightClientBootstrap::Electra(bootstrap) = &bootstrap.bootstrap {
+                    if !is_execution_header_proven(&bootstrap.header) {
+                        return ValidationResult::Invalid(
+                            "Merkle proof validation failed for the execution header of the light client bootstrap"
+                                .to_string(),
+                        );
+                    }
+                }
+
                 let finalized_header = self.header_oracle.read().await.get_finalized_header().await;
 
                 if let Ok(finalized_header) = finalized_header {
@@ -191,6 +205,17 @@ impl Validator<BeaconContentKey> for BeaconValidator {
                                     ));
                                 }
 
+                                if !is_execution_header_proven(&update.attested_header)
+                                    || (update.finalized_header.beacon
+                                        != BeaconBlockHeader::default()
+                                        && !is_execution_header_proven(&update.finalized_header))
+                                {
+                                    return ValidationResult::Invalid(
+                                        "Merkle proof validation failed for an execution header of the light client update"
+                                            .to_string(),
+                                    );
+                                }
+
                                 let generic_update: GenericUpdate = update.into();
                                 if let Err(err) = verify_generic_update(
                                     &light_client_store,
@@ -248,6 +273,15 @@ impl Validator<BeaconContentKey> for BeaconValidator {
 
                 match &lc_finality_update.update {
                     LightClientFinalityUpdate::Electra(update) => {
+                        if !is_execution_header_proven(&update.attested_header)
+                            || !is_execution_header_proven(&update.finalized_header)
+                        {
+                            return ValidationResult::Invalid(
+                                "Merkle proof validation failed for an execution header of the light client finality update"
+                                    .to_string(),
+                            );
+                        }
+
                         if let Ok(light_client_store) = self
                             .header_oracle
                             .read()
@@ -309,6 +343,13 @@ impl Validator<BeaconContentKey> for BeaconValidator {
 
                 match &lc_optimistic_update.update {
                     LightClientOptimisticUpdate::Electra(update) => {
+                        if !is_execution_header_proven(&update.attested_header) {
+                            return ValidationResult::Invalid(
+                                "Merkle proof validation failed for an execution header of the light client optimistic update"
+                                    .to_string(),
+                            );
+                        }
+
                         if let Ok(light_client_store) = self
                             .header_oracle
                             .read()
@@ -409,6 +450,17 @@ impl BeaconValidator {
     }
 }
 
+/// Returns whether the execution header is the one of the beacon block.
+fn is_execution_header_proven(header: &LightClientHeaderElectra) -> bool {
+    verify_merkle_proof(
+        header.execution.tree_hash_root(),
+        &header.execution_branch,
+        header.execution_branch.len(),
+        EXECUTION_PAYLOAD_INDEX,
+        header.beacon.body_root,
+    )
+}
+
 #[cfg(test)]
 mod tests {
     use ethportal_api::{
-- 
2.43.0


From 95b00952359c6919a22f137adbfd2725b88e2c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:17:22 +0000
Subject: [PATCH 31/47] fix: keep the light client available while it waits for
 the network

---
 crates/light-client/src/client.rs                  | 14 +++++++++++---
 .../light-client/src/consensus/consensus_client.rs |  2 +-
 crates/subnetworks/beacon/src/jsonrpc.rs           | 10 ++++++----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/light-client/src/client.rs b/crates/light-client/src/client.rs
index 521a03a..9ce0fab 100644
--- a/crates/light-client/src/client.rs
+++ b/crates/light-client/src/client.rs
@@ -350,7 +350,11 @@ impl<DB: Database, R: ConsensusRpc + 'static> Client<DB, R> {
         let node = self.node.clone();
         spawn(async move {
             loop {
-                let res = node.write().await.advance().await;
+                // Advancing waits for the network, and content that arrives from there can only be
+                // validated while the node isn't locked. That's why we advance a copy.
+                let mut consensus = node.read().await.consensus.clone();
+                let res = consensus.advance().await;
+                node.write().await.consensus = consensus;
                 if let Err(err) = res {
                     warn!("consensus error: {err}");
                 }
@@ -443,11 +447,15 @@ impl<DB: Database, R: ConsensusRpc + 'static> Client<DB, R> {
     }
 
     pub async fn get_optimistic_update(&self) -> Result<LightClientOptimisticUpdate> {
-        self.node.read().await.get_optimistic_update().await
+        // Don't lock the node while waiting for the network
+        let consensus = self.node.read().await.consensus.clone();
+        consensus.get_optimistic_update().await
     }
 
     pub async fn get_finality_update(&self) -> Result<LightClientFinalityUpdate> {
-        self.node.read().await.get_finality_update().await
+        // Don't lock the node while waiting for the network
+        let consensus = self.node.read().await.consensus.clone();
+        consensus.get_finality_update().await
     }
 
     pub async fn get_light_client_store(&self) -> Result<LightClientStore> {
diff --git a/crates/light-client/src/consensus/consensus_client.rs b/crates/light-client/src/consensus/consensus_client.rs
index b186c6b..45aad21 100644
--- a/crates/light-client/src/consensus/consensus_client.rs
+++ b/crates/light-client/src/consensus/consensus_client.rs
@@ -32,7 +32,7 @@ use crate::{
 // https://github.com/ethereum/consensus-specs/blob/dev/specs/altair/light-client/sync-protocol.md
 // does not implement force updates
 
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 pub struct ConsensusLightClient<R: ConsensusRpc> {
     rpc: R,
     store: LightClientStore,
diff --git a/crates/subnetworks/beacon/src/jsonrpc.rs b/crates/subnetworks/beacon/src/jsonrpc.rs
index 03838e3..45d0ba6 100644
--- a/crates/subnetworks/beacon/src/jsonrpc.rs
+++ b/crates/subnetworks/beacon/src/jsonrpc.rs
@@ -118,8 +118,9 @@ async fn complete_request(network: Arc<BeaconNetwork>, request: BeaconJsonRpcReq
             }
         }
         BeaconEndpoint::FinalityUpdate => {
-            let beacon_client = network.beacon_client.lock().await;
-            match beacon_client.as_ref() {
+            // Don't lock the client while waiting for the network
+            let beacon_client = network.beacon_client.lock().await.clone();
+            match beacon_client {
                 Some(client) => {
                     let update = client.get_finality_update().await;
                     match update {
@@ -131,8 +132,9 @@ async fn complete_request(network: Arc<BeaconNetwork>, request: BeaconJsonRpcReq
             }
         }
         BeaconEndpoint::OptimisticUpdate => {
-            let beacon_client = network.beacon_client.lock().await;
-            match beacon_client.as_ref() {
+            // Don't lock the client while waiting for the network
+            let beacon_client = network.beacon_client.lock().await.clone();
+            match beacon_client {
                 Some(client) => {
                     let update = client.get_optimistic_update().await;
                     match update {
-- 
2.43.0


From 20aaf4160d17fe5637d924519aba6f25de3ca2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:24 +0000
Subject: [PATCH 32/47] fix: keep block hashes until the blocks that expire
 them are committed

Executing a block removed the hash of the block 256 before it right away.
If the process ended before the commit, the block was executed again after
the restart and could fail because it asks for that hash. Remove the hashes
once the blocks are committed.
---
 bin/trin-execution/src/evm/block_executor.rs | 20 ++++++++------------
 bin/trin-execution/src/execution.rs          | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/bin/trin-execution/src/evm/block_executor.rs b/bin/trin-execution/src/evm/block_executor.rs
index 29719ec..facdc98 100644
--- a/bin/trin-execution/src/evm/block_executor.rs
+++ b/bin/trin-execution/src/evm/block_executor.rs
@@ -204,7 +204,7 @@ impl BlockExecutor {
         let _ = self.increment_balances(beneficiaries);
         stop_timer(beneficiary_timer);
 
-        self.manage_block_hash_serve_window(&block.header)?;
+        self.insert_block_hash(&block.header)?;
 
         stop_timer(execute_block_timer);
         set_int_gauge_vec(&BLOCK_HEIGHT, block.header.number as i64, &[]);
@@ -237,26 +237,22 @@ impl BlockExecutor {
         Ok(result)
     }
 
-    /// insert block hash into database and remove old one
-    fn manage_block_hash_serve_window(&mut self, header: &Header) -> anyhow::Result<()> {
+    /// insert block hash into database
+    fn insert_block_hash(&mut self, header: &Header) -> anyhow::Result<()> {
         let timer = start_timer_vec(&BLOCK_PROCESSING_TIMES, &["insert_blockhash"]);
         self.evm.db().database.db.put(
             keccak256(B256::from(U256::from(header.number))),
             header.hash_slow(),
         )?;
-        if header.number >= BLOCKHASH_SERVE_WINDOW {
-            self.evm
-                .db()
-                .database
-                .db
-                .delete(keccak256(B256::from(U256::from(
-                    header.number - BLOCKHASH_SERVE_WINDOW,
-                ))))?;
-        }
         stop_timer(timer);
         Ok(())
     }
 
+    /// The number of blocks executed so far.
+    pub fn executed_blocks(&self) -> u64 {
+        self.executed_blocks
+    }
+
     /// This function is used to determine if we should commit the block execution early.
     ///
     /// We want this for a few reasons
diff --git a/bin/trin-execution/src/execution.rs b/bin/trin-execution/src/execution.rs
index 963703f..3616bb0 100644
--- a/bin/trin-execution/src/execution.rs
+++ b/bin/trin-execution/src/execution.rs
@@ -5,7 +5,7 @@ use std::{
 
 use alloy::{
     consensus::{Header, TxEnvelope},
-    primitives::B256,
+    primitives::{keccak256, B256, U256},
 };
 use anyhow::ensure;
 use eth_trie::{RootWithTrieDiff, Trie};
@@ -16,7 +16,7 @@ use tracing::{info, warn};
 use super::config::StateConfig;
 use crate::{
     e2hs::manager::E2HSManager,
-    evm::block_executor::BlockExecutor,
+    evm::block_executor::{BlockExecutor, BLOCKHASH_SERVE_WINDOW},
     metrics::{start_timer_vec, stop_timer, BLOCK_PROCESSING_TIMES},
     storage::{evm_db::EvmDB, execution_position::ExecutionPosition, utils::setup_rocksdb},
 };
@@ -132,6 +132,7 @@ impl TrinExecution {
         header: &Header,
         block_executor: BlockExecutor,
     ) -> anyhow::Result<RootWithTrieDiff> {
+        let executed_blocks = block_executor.executed_blocks();
         let root_with_trie_diff = block_executor.commit_bundle()?;
         ensure!(
             root_with_trie_diff.root == header.state_root,
@@ -147,6 +148,17 @@ impl TrinExecution {
             .update_position(self.database.db.clone(), header)?;
         stop_timer(update_execution_position_timer);
 
+        // Block hashes that left the serve window can only be removed once the blocks that pushed
+        // them out are committed, because these blocks are executed again after a restart.
+        let first_executed_block = (header.number + 1).saturating_sub(executed_blocks);
+        for block_number in first_executed_block.max(BLOCKHASH_SERVE_WINDOW)..=header.number {
+            self.database
+                .db
+                .delete(keccak256(B256::from(U256::from(
+                    block_number - BLOCKHASH_SERVE_WINDOW,
+                ))))?;
+        }
+
         Ok(root_with_trie_diff)
     }
 
-- 
2.43.0


From bcb276a12172f176cca8efa9008d19222d654562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:24 +0000
Subject: [PATCH 33/47] fix: mark an imported state as complete only when its
 block hashes are there

The position was saved before the last 256 block hashes were downloaded.
When the download failed, the import could not be repeated and execution
went on without the hashes. Save the position last.
---
 bin/trin-execution/src/subcommands/e2ss/import.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/trin-execution/src/subcommands/e2ss/import.rs b/bin/trin-execution/src/subcommands/e2ss/import.rs
index 3c53d6b..78c9616 100644
--- a/bin/trin-execution/src/subcommands/e2ss/import.rs
+++ b/bin/trin-execution/src/subcommands/e2ss/import.rs
@@ -44,13 +44,13 @@ impl StateImporter {
         // Import state from e2ss file
         let header = self.import_state()?;
 
-        // Save execution position
-        let mut execution_position = ExecutionPosition::default();
-        execution_position.update_position(self.evm_db.db.clone(), &header)?;
-
         // Import last 256 block hashes
         self.import_last_256_block_hashes(header.number).await?;
 
+        // Save execution position, as the last step because it marks the import as complete
+        let mut execution_position = ExecutionPosition::default();
+        execution_position.update_position(self.evm_db.db.clone(), &header)?;
+
         Ok(header)
     }
 
-- 
2.43.0


From 7aaef4047957bc43fa4d5f4db5738ca3db2ccf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:19 +0000
Subject: [PATCH 34/47] fix: refuse payloads whose base fee does not fit into a
 header

Building an execution header from a beacon block panicked when the payload's
base fee does not fit into 64 bits. Return an error instead.
---
 .../src/types/execution/builders/header.rs       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/ethportal-api/src/types/execution/builders/header.rs b/crates/ethportal-api/src/types/execution/builders/header.rs
index a35f6b4..7ad02da 100644
--- a/crates/ethportal-api/src/types/execution/builders/header.rs
+++ b/crates/ethportal-api/src/types/execution/builders/header.rs
@@ -6,7 +6,7 @@ use alloy::{
     eips::eip4895::Withdrawal,
     primitives::{Bloom, B256, B64, U256},
 };
-use anyhow::ensure;
+use anyhow::{anyhow, ensure};
 
 use crate::consensus::{
     execution_payload::{
@@ -40,7 +40,7 @@ impl ExecutionHeaderBuilder {
             extra_data: payload.extra_data.to_vec().into(),
             mix_hash: payload.prev_randao,
             nonce: B64::ZERO,
-            base_fee_per_gas: Some(payload.base_fee_per_gas.to()),
+            base_fee_per_gas: Some(base_fee_per_gas(payload.base_fee_per_gas)?),
             withdrawals_root: None,
             blob_gas_used: None,
             excess_blob_gas: None,
@@ -78,7 +78,7 @@ impl ExecutionHeaderBuilder {
             extra_data: payload.extra_data.to_vec().into(),
             mix_hash: payload.prev_randao,
             nonce: B64::ZERO,
-            base_fee_per_gas: Some(payload.base_fee_per_gas.to()),
+            base_fee_per_gas: Some(base_fee_per_gas(payload.base_fee_per_gas)?),
             withdrawals_root: Some(withdrawals_root),
             blob_gas_used: None,
             excess_blob_gas: None,
@@ -117,7 +117,7 @@ impl ExecutionHeaderBuilder {
             extra_data: payload.extra_data.to_vec().into(),
             mix_hash: payload.prev_randao,
             nonce: B64::ZERO,
-            base_fee_per_gas: Some(payload.base_fee_per_gas.to()),
+            base_fee_per_gas: Some(base_fee_per_gas(payload.base_fee_per_gas)?),
             withdrawals_root: Some(withdrawals_root),
             blob_gas_used: Some(payload.blob_gas_used),
             excess_blob_gas: Some(payload.excess_blob_gas),
@@ -157,7 +157,7 @@ impl ExecutionHeaderBuilder {
             extra_data: payload.extra_data.to_vec().into(),
             mix_hash: payload.prev_randao,
             nonce: B64::ZERO,
-            base_fee_per_gas: Some(payload.base_fee_per_gas.to()),
+            base_fee_per_gas: Some(base_fee_per_gas(payload.base_fee_per_gas)?),
             withdrawals_root: Some(withdrawals_root),
             blob_gas_used: Some(payload.blob_gas_used),
             excess_blob_gas: Some(payload.excess_blob_gas),
@@ -172,3 +172,9 @@ impl ExecutionHeaderBuilder {
         Ok(header)
     }
 }
+
+/// Payloads can hold a bigger base fee than execution headers.
+fn base_fee_per_gas(base_fee_per_gas: U256) -> anyhow::Result<u64> {
+    u64::try_from(base_fee_per_gas)
+        .map_err(|_| anyhow!("Base fee per gas is too big: {base_fee_per_gas}"))
+}
-- 
2.43.0


From e5e3cdf437a390df5c171a0d17c9fc8dda30972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:56 +0000
Subject: [PATCH 35/47] fix: answer storage queries for accounts without
 storage

The empty trie has no nodes, so there is nothing to fetch for its root.
Reading a slot of an account that stores nothing asked the network for a
node that does not exist and failed instead of giving zero.
---
 crates/rpc/src/evm_state.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rpc/src/evm_state.rs b/crates/rpc/src/evm_state.rs
index c98f1d0..24027d2 100644
--- a/crates/rpc/src/evm_state.rs
+++ b/crates/rpc/src/evm_state.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use alloy::{
-    consensus::Header,
+    consensus::{Header, EMPTY_ROOT_HASH},
     primitives::{keccak256, Address, Bytes, B256, U256},
     rlp::Decodable,
 };
@@ -206,6 +206,11 @@ impl EvmBlockState {
         path: B256,
         content_key_fn: impl Fn(Nibbles, B256) -> StateContentKey,
     ) -> Result<Option<T>, EvmStateError> {
+        // The empty trie has no nodes
+        if root == EMPTY_ROOT_HASH {
+            return Ok(None);
+        }
+
         let path = Nibbles::unpack_nibbles(path.as_slice());
 
         let mut node_hash = root;
-- 
2.43.0


From 1ecd2d8356ff1631d5a0a956a742423c0e06b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:55 +0000
Subject: [PATCH 36/47] fix: stop census initialization when no peers are found

---
 bin/portal-bridge/src/census/network.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/portal-bridge/src/census/network.rs b/bin/portal-bridge/src/census/network.rs
index abaa9b0..c73513b 100644
--- a/bin/portal-bridge/src/census/network.rs
+++ b/bin/portal-bridge/src/census/network.rs
@@ -212,8 +212,9 @@ impl Network {
                 "init: added {new_peers} / {ending_peers} peers",
             );
 
-            // Stop if number of new peers is less than a threshold fraction of all peers
-            if new_peers < ending_peers * config.stop_fraction_threshold {
+            // Stop if number of new peers is less than a threshold fraction of all peers, or if
+            // there are no new peers at all (which includes not finding any)
+            if new_peers == 0.0 || new_peers < ending_peers * config.stop_fraction_threshold {
                 break;
             }
         }
-- 
2.43.0


From eb4c061e959f9d88eec048dbc249fe025e52101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:55 +0000
Subject: [PATCH 37/47] fix: count unexpected pong extensions as failed
 liveness checks

---
 bin/portal-bridge/src/census/network.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/portal-bridge/src/census/network.rs b/bin/portal-bridge/src/census/network.rs
index c73513b..9fd6042 100644
--- a/bin/portal-bridge/src/census/network.rs
+++ b/bin/portal-bridge/src/census/network.rs
@@ -264,6 +264,7 @@ impl Network {
                     subnetwork = %self.subnetwork,
                     "liveness_check: received unexpected ping extension: {}", pong_info.payload_type,
                 );
+                self.peers.record_failed_liveness_check(enr);
                 return LivenessResult::Fail;
             }
         };
-- 
2.43.0


From c74bab0945defae52787b20218b39cfc7a1245f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:41 +0000
Subject: [PATCH 38/47] fix: wait between failed census re-initializations

---
 bin/portal-bridge/src/census/network.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/portal-bridge/src/census/network.rs b/bin/portal-bridge/src/census/network.rs
index 9fd6042..ea581df 100644
--- a/bin/portal-bridge/src/census/network.rs
+++ b/bin/portal-bridge/src/census/network.rs
@@ -426,6 +426,8 @@ impl NetworkManager {
     /// Configures how frequently to run recursive-find-nodes for a random NodeId in order to keep
     /// discovering new nodes.
     const PEER_DISCOVERY_INTERVAL: Duration = Duration::from_secs(60);
+    /// How long to wait after failed re-initialization, to avoid retrying in a busy loop.
+    const REINITIALIZATION_RETRY_DELAY: Duration = Duration::from_secs(10);
 
     pub fn new(network: Network) -> Self {
         Self {
@@ -472,6 +474,7 @@ impl NetworkManager {
                         subnetwork = %self.network.subnetwork,
                         "execute-action: error re-initializing - err: {err}",
                     );
+                    tokio::time::sleep(Self::REINITIALIZATION_RETRY_DELAY).await;
                 }
             }
             NetworkAction::PeerDiscovery => self.peer_discovery().await,
-- 
2.43.0


From d8f7eea79479952fa8383b289620337dd9946aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:45 +0000
Subject: [PATCH 39/47] fix: match batched receipts with their blocks by
 response id

Responses of a JSON-RPC batch may arrive in any order and some may be
missing. Pairing them by position stored receipts under another block, and
missing ones were left out without an error.
---
 crates/ethereum-rpc-client/src/execution.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/ethereum-rpc-client/src/execution.rs b/crates/ethereum-rpc-client/src/execution.rs
index b786e46..2bd78df 100644
--- a/crates/ethereum-rpc-client/src/execution.rs
+++ b/crates/ethereum-rpc-client/src/execution.rs
@@ -157,7 +157,15 @@ impl ExecutionApi {
                 .try_batch_request(chunk.to_vec())
                 .await
                 .map_err(|err| anyhow!("Batch request failed: {err:?}"))?;
-            for (res, block_number) in responses.into_iter().zip(block_numbers.iter()) {
+            // Responses can come in any order, they are matched with their requests by id
+            let mut responses: HashMap<u64, Value> = responses
+                .into_iter()
+                .filter_map(|res| Some((res.get("id")?.as_u64()?, res)))
+                .collect();
+            for (request, block_number) in chunk.iter().zip(block_numbers.iter()) {
+                let res = responses.remove(&(request.id as u64)).ok_or_else(|| {
+                    anyhow!("Receipts for block {block_number} missing from provider response")
+                })?;
                 let receipt: Receipts = serde_json::from_value(res).map_err(|err| {
                     anyhow!("Unable to parse receipts for block {block_number} from provider response: {err:?}")
                 })?;
-- 
2.43.0


From 81355bda2cb682306f2f3737c3dd6eae14fd1e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:45 +0000
Subject: [PATCH 40/47] fix: limit the search for the first state of a period

A provider that keeps returning an earlier state made the search go on
forever. It now gives up after as many tries as for missing states.
---
 crates/ethereum-rpc-client/src/consensus/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ethereum-rpc-client/src/consensus/mod.rs b/crates/ethereum-rpc-client/src/consensus/mod.rs
index 2feac65..7d6fa21 100644
--- a/crates/ethereum-rpc-client/src/consensus/mod.rs
+++ b/crates/ethereum-rpc-client/src/consensus/mod.rs
@@ -181,8 +181,9 @@ impl ConsensusApi {
                     // we requested if the requested slot is skipped
                     if state.slot < slot {
                         warn!("The slot {slot} is skipped, and the CL for some reason gave us the state for a previous slot, trying the next slot");
-                        slot += 1;
                         tries += 1;
+                        ensure!(tries <= 5, "Failed to find a valid state for slot {slot}");
+                        slot += 1;
                         continue;
                     }
                     ensure!(
-- 
2.43.0


From b49e337b11dfa653cce3d87f278c96243744e2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:45 +0000
Subject: [PATCH 41/47] fix: serve historical summaries again after a failed
 state download

A failed download left the in-progress mark set, so no later summaries were
served until the bridge was restarted.
---
 bin/portal-bridge/src/bridge/beacon.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/portal-bridge/src/bridge/beacon.rs b/bin/portal-bridge/src/bridge/beacon.rs
index dabd925..ec2f818 100644
--- a/bin/portal-bridge/src/bridge/beacon.rs
+++ b/bin/portal-bridge/src/bridge/beacon.rs
@@ -244,6 +244,7 @@ impl BeaconBridge {
             .in_current_span()
             .await
             {
+                finalized_state_root.lock().await.in_progress = false;
                 warn!("Failed to serve HistoricalSummariesWithProof: {err}");
             }
         });
-- 
2.43.0


From 971d339fca93229231afcc2dc34ea39071b63770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:45 +0000
Subject: [PATCH 42/47] fix: tolerate a provider without an update for the
 current period

An empty list of light client updates made the serving task panic.
---
 bin/portal-bridge/src/bridge/beacon.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/portal-bridge/src/bridge/beacon.rs b/bin/portal-bridge/src/bridge/beacon.rs
index ec2f818..cf5af47 100644
--- a/bin/portal-bridge/src/bridge/beacon.rs
+++ b/bin/portal-bridge/src/bridge/beacon.rs
@@ -325,10 +325,14 @@ impl BeaconBridge {
             }
         }
 
-        let update = consensus_api
+        let Some(update) = consensus_api
             .get_light_client_updates(expected_current_period, 1)
             .await?
-            .remove(0);
+            .into_iter()
+            .next()
+        else {
+            bail!("No LightClientUpdate for period {expected_current_period} yet");
+        };
         let finalized_header_period =
             update.finalized_header.beacon.slot / SLOTS_PER_HISTORICAL_ROOT;
 
-- 
2.43.0


From a8aab1f9cc63b05694299e1d5de9e2e027c22383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:41 +0000
Subject: [PATCH 43/47] fix: keep the receipts of each block of a
 reorganisation apart

Receipts were kept by block number, so after the chain went back to an
earlier branch its blocks were gossiped with the receipts of the other one.
---
 .../src/bridge/ephemeral_history/mod.rs        | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs b/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
index f8c63e6..1b0e67e 100644
--- a/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
+++ b/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
@@ -48,7 +48,8 @@ pub struct EphemeralHistoryBridge {
     consensus_api: ConsensusApi,
     execution_api: ExecutionApi,
     beacon_blocks: BTreeMap<B256, BeaconBlockElectra>,
-    receipts: LruCache<u64, Receipts>,
+    /// Receipts of the downloaded blocks, by execution block hash.
+    receipts: LruCache<B256, Receipts>,
 }
 
 impl EphemeralHistoryBridge {
@@ -246,8 +247,15 @@ impl EphemeralHistoryBridge {
                     .get_receipts(beacon_block.body.execution_payload.block_number)
                     .await?;
 
+                // The execution provider can be on a different fork
+                ensure!(
+                    receipts.root() == beacon_block.body.execution_payload.receipts_root,
+                    "Receipts don't belong to the block {}",
+                    beacon_block.body.execution_payload.block_hash
+                );
+
                 self.receipts
-                    .push(beacon_block.body.execution_payload.block_number, receipts);
+                    .push(beacon_block.body.execution_payload.block_hash, receipts);
                 Ok(vacant_beacon_block.insert(beacon_block))
             }
         }
@@ -270,12 +278,12 @@ impl EphemeralHistoryBridge {
 
         let Some(receipts) = self
             .receipts
-            .get(&beacon_block.body.execution_payload.block_number)
+            .get(&beacon_block.body.execution_payload.block_hash)
             .cloned()
         else {
             bail!(
-                "Receipts not found for block number: {}",
-                beacon_block.body.execution_payload.block_number
+                "Receipts not found for block: {}",
+                beacon_block.body.execution_payload.block_hash
             );
         };
 
-- 
2.43.0


From 5fa96413c5e8b8a6b9d542fc51bd57fe06adf1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:41 +0000
Subject: [PATCH 44/47] fix: gossip the last header of a period followed by a
 skipped slot

If the first slot of a period is skipped, the finalized checkpoint block is
the last block of the previous period. Its header was never gossiped.
---
 bin/portal-bridge/src/bridge/ephemeral_history/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs b/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
index 1b0e67e..5cda267 100644
--- a/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
+++ b/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
@@ -194,8 +194,15 @@ impl EphemeralHistoryBridge {
             );
         };
 
+        let finalized_slot = finalized_checkpoint_event.epoch * SLOTS_PER_EPOCH;
         let mut blocks = vec![];
-        let mut last_block_root = beacon_block.parent_root;
+        // The finalized block belongs to the finished period if the first slot of the new period
+        // was skipped
+        let mut last_block_root = if beacon_block.slot < finalized_slot {
+            finalized_checkpoint_event.block
+        } else {
+            beacon_block.parent_root
+        };
         let first_slot_in_period =
             first_slot_in_a_period((finalized_checkpoint_event.epoch - 1) * SLOTS_PER_EPOCH);
         while let Some(beacon_block) = self.beacon_blocks.remove(&last_block_root) {
@@ -211,7 +218,7 @@ impl EphemeralHistoryBridge {
         // Delete all blocks that are older than finalized epoch.
         // This can happen if there was chain reorg (and maybe in some other unexpected situations).
         self.beacon_blocks
-            .retain(|_, block| block.slot >= finalized_checkpoint_event.epoch * SLOTS_PER_EPOCH);
+            .retain(|_, block| block.slot >= finalized_slot);
 
         let consensus_api = self.consensus_api.clone();
         let gossiper = self.gossiper.clone();
-- 
2.43.0


From 8f7433e78c02a0cc2342dee0ec2923c0d5b313ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:41 +0000
Subject: [PATCH 45/47] fix: gossip headers of a period the bridge was started
 in the beginning of

The first head is followed back over the start of the period. Meeting such an
older block made the bridge drop the headers of the whole period.
---
 bin/portal-bridge/src/bridge/ephemeral_history/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs b/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
index 5cda267..14b4eb0 100644
--- a/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
+++ b/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
@@ -207,11 +207,10 @@ impl EphemeralHistoryBridge {
             first_slot_in_a_period((finalized_checkpoint_event.epoch - 1) * SLOTS_PER_EPOCH);
         while let Some(beacon_block) = self.beacon_blocks.remove(&last_block_root) {
             last_block_root = beacon_block.parent_root;
-            let slot = first_slot_in_a_period(beacon_block.slot);
-            ensure!(
-                slot == first_slot_in_period,
-                "Beacon block slot does not match the expected period: {slot:?} != {first_slot_in_period:?}",
-            );
+            // Blocks before the start of the bridge can belong to the previous period
+            if first_slot_in_a_period(beacon_block.slot) != first_slot_in_period {
+                break;
+            }
             blocks.push(beacon_block);
         }
 
-- 
2.43.0


From 516c7373a01669ef0bddeba1681ec23cdae4b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:41 +0000
Subject: [PATCH 46/47] fix: let the state bridge finish its offers before it
 ends

---
 bin/portal-bridge/src/bridge/state.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bin/portal-bridge/src/bridge/state.rs b/bin/portal-bridge/src/bridge/state.rs
index 359afb9..73ddce6 100644
--- a/bin/portal-bridge/src/bridge/state.rs
+++ b/bin/portal-bridge/src/bridge/state.rs
@@ -68,6 +68,8 @@ pub struct StateBridge {
     /// Semaphore used to limit the amount of active offer transfers
     /// to make sure we don't overwhelm the trin client
     offer_semaphore: Arc<Semaphore>,
+    /// The maximum number of concurrent offers, i.e. the number of permits of the semaphore
+    offer_limit: usize,
     /// Used to request all interested enrs in the network.
     census: Census,
     /// Global offer report for tallying total performance of state bridge
@@ -94,6 +96,7 @@ impl StateBridge {
             state_network,
             metrics,
             offer_semaphore,
+            offer_limit,
             census,
             global_offer_report,
             bridge_id,
@@ -165,6 +168,8 @@ impl StateBridge {
                 .await?;
         }
 
+        self.wait_for_offers().await;
+
         // display final global state offer report
         self.global_offer_report
             .lock()
@@ -254,6 +259,7 @@ impl StateBridge {
         self.gossip_whole_state_snapshot(&mut evm_db, execution_position)
             .await
             .expect("State bridge failed");
+        self.wait_for_offers().await;
         Ok(())
     }
 
@@ -599,4 +605,13 @@ impl StateBridge {
             .await
             .expect("to be able to acquire semaphore")
     }
+
+    /// Waits until all offers that were started are completed.
+    async fn wait_for_offers(&self) {
+        let _ = self
+            .offer_semaphore
+            .acquire_many(self.offer_limit as u32)
+            .await
+            .expect("to be able to acquire semaphore");
+    }
 }
-- 
2.43.0


From 9a9d2edc9a80415a035b9ca21f2a83acf6d69d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:05 +0000
Subject: [PATCH 47/47] fix: do not take a failed listing for the end of the
 bucket

When listing the bucket needs several pages and a later page could not be
fetched, the last name seen so far was taken for the newest file.  The
writer then went on from an old period and uploaded it again.  Report the
failed listing instead.
---
 .../src/subcommands/head_generator/s3_bucket.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bin/e2hs-writer/src/subcommands/head_generator/s3_bucket.rs b/bin/e2hs-writer/src/subcommands/head_generator/s3_bucket.rs
index 0964f75..cc8ef2d 100644
--- a/bin/e2hs-writer/src/subcommands/head_generator/s3_bucket.rs
+++ b/bin/e2hs-writer/src/subcommands/head_generator/s3_bucket.rs
@@ -133,14 +133,15 @@ impl S3Bucket {
         let mut continuation_token: Option<String> = None;
         let mut last_key: Option<String> = None;
 
-        while let Ok(response) = self
-            .aws_client
-            .list_objects_v2()
-            .bucket(&self.bucket_name)
-            .set_continuation_token(continuation_token.clone())
-            .send()
-            .await
-        {
+        loop {
+            let response = self
+                .aws_client
+                .list_objects_v2()
+                .bucket(&self.bucket_name)
+                .set_continuation_token(continuation_token.clone())
+                .send()
+                .await?;
+
             for object in response.contents() {
                 if let Some(key) = object.key() {
                     last_key = Some(key.to_string());
-- 
2.43.0

