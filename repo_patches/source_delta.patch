From d84861ad5163e980edd5f66f7274f368bf6a0b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 01/36] fix: encode all eight fields of TxResp in its RLP list

---
 protocol/src/codec/executor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/src/codec/executor.rs b/protocol/src/codec/executor.rs
index 24621f2..c698fac 100644
--- a/protocol/src/codec/executor.rs
+++ b/protocol/src/codec/executor.rs
@@ -4,7 +4,7 @@ use crate::types::TxResp;
 
 impl Encodable for TxResp {
     fn rlp_append(&self, s: &mut RlpStream) {
-        s.begin_list(7)
+        s.begin_list(8)
             .append(&bincode::serialize(&self.exit_reason).unwrap())
             .append(&self.ret)
             .append(&self.gas_used)
@@ -19,7 +19,7 @@ impl Encodable for TxResp {
 impl Decodable for TxResp {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         match r.prototype()? {
-            Prototype::List(7) => Ok(TxResp {
+            Prototype::List(8) => Ok(TxResp {
                 exit_reason:  {
                     let tmp: Vec<u8> = r.val_at(0)?;
                     bincode::deserialize(&tmp)
-- 
2.43.0


From d9d0bdcd99eb64a5670cbcf46bd61867e6bbb405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 02/36] fix: do not panic when decoding an empty transaction

---
 protocol/src/codec/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 513a841..2bc310c 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -312,7 +312,7 @@ impl Encodable for UnverifiedTransaction {
 impl Decodable for UnverifiedTransaction {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         let raw = r.as_raw();
-        let header = raw[0];
+        let header = *raw.first().ok_or(DecoderError::RlpIsTooShort)?;
 
         if (header & 0x80) != 0x00 {
             return LegacyTransaction::rlp_decode(r);
-- 
2.43.0


From 09faf033d70212b2863ab79fe0e5e4a8b9e725a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 03/36] fix: do not panic on an interoperation signature with
 empty r

---
 protocol/src/types/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/types/transaction.rs b/protocol/src/types/transaction.rs
index 20d2c06..668a1d0 100644
--- a/protocol/src/types/transaction.rs
+++ b/protocol/src/types/transaction.rs
@@ -406,7 +406,7 @@ impl SignatureComponents {
 
     pub(crate) fn extract_interoperation_tx_sender(&self) -> ProtocolResult<H160> {
         // Only call CKB-VM mode is supported now
-        if self.r[0] == 0 {
+        if self.r.first() == Some(&0) {
             let r = rlp::decode::<CellDepWithPubKey>(&self.r[1..])
                 .map_err(TypesError::DecodeInteroperationSigR)?;
 
-- 
2.43.0


From fd7fbd87496b61a91945d33d1935d52a3c0d4745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 04/36] fix: reject an address text of the wrong length instead
 of panicking

---
 protocol/src/types/primitive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index 085bb81..7b25529 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -264,7 +264,8 @@ impl FromStr for Address {
     type Err = ProtocolError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if checksum(s) != s {
+        // 0x and 40 digits; checksum() must not be given more digits than its hash has
+        if s.len() != 42 || checksum(s) != s {
             return Err(TypesError::InvalidCheckSum.into());
         }
 
-- 
2.43.0


From 26e158389dd3a1e00ec73ef3622ba319fc40fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 05/36] fix: do not panic on malformed hex numbers in JSON

---
 devtools/axon-tools/src/types.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 11e6fc7..3e87c06 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -636,6 +636,10 @@ mod decode {
     use serde::de::{Deserialize, Deserializer};
 
     pub fn from_hex(hex: &str) -> Result<Vec<u8>, &'static str> {
+        if hex.len() > 64 || !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return Err("Failed to parse hex string");
+        }
+
         let mut bytes = Vec::with_capacity((hex.len() + 1) / 2);
 
         let mut start_i = 0;
@@ -665,7 +669,7 @@ mod decode {
             return Ok(0);
         }
 
-        if s.len() >= 2 && &s[0..2] == "0x" {
+        if s.starts_with("0x") {
             let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
             let val = U256::from_big_endian(&bytes);
             Ok(val.low_u32())
@@ -683,7 +687,7 @@ mod decode {
             return Ok(0);
         }
 
-        if s.len() >= 2 && &s[0..2] == "0x" {
+        if s.starts_with("0x") {
             let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
             let val = U256::from_big_endian(&bytes);
             Ok(val.low_u64())
-- 
2.43.0


From cd5ea9e8c5f3f8fc6073ce9f93316d041c7cc62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 06/36] fix: refuse JSON numbers that do not fit instead of
 truncating them

---
 devtools/axon-tools/src/types.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 3e87c06..e38bcb6 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -672,7 +672,8 @@ mod decode {
         if s.starts_with("0x") {
             let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
             let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u32())
+            val.try_into()
+                .map_err(|_| serde::de::Error::custom("Number out of range"))
         } else {
             Err(serde::de::Error::custom("Invalid format"))
         }
@@ -690,7 +691,8 @@ mod decode {
         if s.starts_with("0x") {
             let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
             let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u64())
+            val.try_into()
+                .map_err(|_| serde::de::Error::custom("Number out of range"))
         } else {
             Err(serde::de::Error::custom("Invalid format"))
         }
-- 
2.43.0


From f69e4e0bd9fb2d95e9605f04e4cb31e8f32f9f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 07/36] fix: return an error for an unexpected CKB RPC result
 instead of panicking

---
 core/rpc-client/src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/rpc-client/src/client.rs b/core/rpc-client/src/client.rs
index 4c31647..395bc94 100644
--- a/core/rpc-client/src/client.rs
+++ b/core/rpc-client/src/client.rs
@@ -60,7 +60,8 @@ macro_rules! jsonrpc {
 
             match output {
                 jsonrpc_core::response::Output::Success(success) => {
-                    Ok(serde_json::from_value::<$return>(success.result).unwrap())
+                    serde_json::from_value::<$return>(success.result)
+                        .map_err::<ProtocolError, _>(|e| ProtocolError::new(ProtocolErrorKind::CkbClient, Box::new(e)))
                 }
                 jsonrpc_core::response::Output::Failure(e) => {
                     Err(ProtocolError::new(ProtocolErrorKind::CkbClient, Box::new(io::Error::new(io::ErrorKind::InvalidData, format!("{:?}", e)))))
-- 
2.43.0


From b8af16446f91aba38327cfa39a58c259c1ad5589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 08/36] fix: give concurrent CKB RPC requests different ids

---
 core/rpc-client/src/client.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/rpc-client/src/client.rs b/core/rpc-client/src/client.rs
index 395bc94..3292419 100644
--- a/core/rpc-client/src/client.rs
+++ b/core/rpc-client/src/client.rs
@@ -34,11 +34,10 @@ macro_rules! jsonrpc {
     ($method:expr, $id:expr, $self:ident, $return:ty$(, $params:ident$(,)?)*) => {{
         let data = format!(
             r#"{{"id": {}, "jsonrpc": "2.0", "method": "{}", "params": {}}}"#,
-            $self.id.load(Ordering::Relaxed),
+            $self.id.fetch_add(1, Ordering::Relaxed),
             $method,
             serde_json::to_value(($($params,)*)).unwrap()
         );
-        $self.id.fetch_add(1, Ordering::Relaxed);
 
         let req_json: serde_json::Value = serde_json::from_str(&data).unwrap();
 
-- 
2.43.0


From 866acd7affef18eba6d1c0496bddff258346afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 09/36] fix: do not overflow while pricing a huge modexp
 exponent

---
 core/executor/src/precompiles/modexp.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/executor/src/precompiles/modexp.rs b/core/executor/src/precompiles/modexp.rs
index 814e51b..f9dcc97 100644
--- a/core/executor/src/precompiles/modexp.rs
+++ b/core/executor/src/precompiles/modexp.rs
@@ -200,10 +200,11 @@ fn iterator_count(e_size: Integer, exponent: Integer) -> u64 {
         let bytes: [u8; 32] = [0xFF; 32];
         let max_256_bit_uint = Integer::from_digits(&bytes, Order::MsfBe);
         let a: Integer = 8 * (e_size - 32);
-        a.saturating_as::<usize>()
-            + ((exponent.bitand(max_256_bit_uint))
+        a.saturating_as::<usize>().saturating_add(
+            ((exponent.bitand(max_256_bit_uint))
                 .significant_bits()
-                .saturating_sub(1)) as usize
+                .saturating_sub(1)) as usize,
+        )
     };
 
     iter_count.max(1) as u64
-- 
2.43.0


From 87eaf481f5b2e617dea38067f36fa7590c80fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 10/36] fix: refuse pairing input that is not a whole number of
 pairs

---
 core/executor/src/precompiles/ec_pairing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/executor/src/precompiles/ec_pairing.rs b/core/executor/src/precompiles/ec_pairing.rs
index 70cbc05..9b0d2c4 100644
--- a/core/executor/src/precompiles/ec_pairing.rs
+++ b/core/executor/src/precompiles/ec_pairing.rs
@@ -42,6 +42,10 @@ impl PrecompileContract for EcPairing {
             }
         }
 
+        if input.len() % Self::GROUP_ARGS_LEN != 0 {
+            return err!("Invalid input length");
+        }
+
         let elements = input.len() / Self::GROUP_ARGS_LEN;
         let mut pairs = Vec::with_capacity(elements);
 
-- 
2.43.0


From 102307813d71ba40cde5abd68c54b8157f7a0d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 11/36] fix: decode revert data with any message length without
 panicking

---
 core/executor/src/utils.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/executor/src/utils.rs b/core/executor/src/utils.rs
index cd5c0b9..547695d 100644
--- a/core/executor/src/utils.rs
+++ b/core/executor/src/utils.rs
@@ -62,13 +62,15 @@ pub fn decode_revert_msg(input: &[u8]) -> String {
         return decode_reason(input);
     }
 
-    let end_offset = REVERT_EFFECT_MSG_OFFSET
-        + U256::from_big_endian(&input[REVERT_MSG_LEN_OFFSET..REVERT_EFFECT_MSG_OFFSET]).as_usize();
+    let msg_len = U256::from_big_endian(&input[REVERT_MSG_LEN_OFFSET..REVERT_EFFECT_MSG_OFFSET]);
 
-    if input.len() < end_offset {
+    // The length comes from the contract, it may be any number.
+    if msg_len > U256::from(input.len() - REVERT_EFFECT_MSG_OFFSET) {
         return decode_reason(input);
     }
 
+    let end_offset = REVERT_EFFECT_MSG_OFFSET + msg_len.as_usize();
+
     decode_reason(&input[REVERT_EFFECT_MSG_OFFSET..end_offset])
 }
 
-- 
2.43.0


From 650ee6c1723d85cb0e47920274f635f55b6cf8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 12/36] fix: give the fee allocator the proposer, not the
 sender of the last transaction

---
 core/executor/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 9c4a803..2670834 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -167,10 +167,12 @@ impl Executor for AxonExecutor {
 
         // Allocate collected fee for validators
         if !block_number.is_zero() {
-            let alloc =
-                (*FEE_ALLOCATOR)
-                    .load()
-                    .allocate(block_number, fee, adapter.origin(), validators);
+            let alloc = (*FEE_ALLOCATOR).load().allocate(
+                block_number,
+                fee,
+                adapter.block_coinbase(),
+                validators,
+            );
 
             for i in alloc.iter() {
                 if !i.amount.is_zero() {
-- 
2.43.0


From 8c2d9af0e8be913e3007a0b4b8b01f73bb1d9a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:48 +0000
Subject: [PATCH 13/36] fix: count the proposals of the proposer, not of the
 sender of the last transaction

---
 core/executor/src/system_contract/metadata/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/system_contract/metadata/mod.rs b/core/executor/src/system_contract/metadata/mod.rs
index f62e38b..2c0da9e 100644
--- a/core/executor/src/system_contract/metadata/mod.rs
+++ b/core/executor/src/system_contract/metadata/mod.rs
@@ -128,7 +128,9 @@ impl<Adapter: ExecutorAdapter + ApplyBackend> SystemContract<Adapter>
 
         HARDFORK_INFO.swap(Arc::new(hardfork));
 
-        if let Err(e) = store.update_propose_count(block_number.as_u64(), &adapter.origin()) {
+        // The origin is the sender of the last transaction, if there is one.
+        if let Err(e) = store.update_propose_count(block_number.as_u64(), &adapter.block_coinbase())
+        {
             panic!("Update propose count at {:?} failed: {:?}", block_number, e)
         }
 
-- 
2.43.0


From a87791d5e662d7619b4a1e10d29b2e7a1d763cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:02 +0000
Subject: [PATCH 14/36] fix: take all transactions of a flushed system bucket
 out of the pool's count

---
 core/mempool/src/pool.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 69606d8..d483f16 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -365,8 +365,12 @@ impl BuiltInContractTxBucket {
     pub fn flush(&self, hashes: &[Hash], reduce_len: &mut usize) {
         for hash in hashes.iter() {
             if let Some(data) = self.hash_data_map.remove(hash) {
-                if self.tx_buckets.remove(&data.1).is_some() {
-                    *reduce_len += 1;
+                // the other transactions of the bucket leave the pool with it
+                if let Some((_, txs)) = self.tx_buckets.remove(&data.1) {
+                    *reduce_len += txs.len();
+                    for other in txs.keys() {
+                        self.hash_data_map.remove(other);
+                    }
                 }
             }
         }
-- 
2.43.0


From 2e4c4d0f3f76e81fa9564637aaf4fd9fc728e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:55 +0000
Subject: [PATCH 15/36] fix: accept only the requested transactions when
 pulling those of a proposal

---
 core/mempool/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 97165c2..ca06648 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -293,7 +293,7 @@ where
             let unknown_len = unknown_hashes.len();
             let txs = self
                 .adapter
-                .pull_txs(ctx.clone(), height, unknown_hashes)
+                .pull_txs(ctx.clone(), height, unknown_hashes.clone())
                 .await?;
 
             // Make sure response signed_txs is the same size of request hashes.
@@ -305,6 +305,17 @@ where
                 .into());
             }
 
+            // Make sure response signed_txs are the requested ones.
+            let pulled: HashSet<Hash> = txs.iter().map(|tx| tx.transaction.hash).collect();
+            if let Some(missing) = unknown_hashes.iter().find(|hash| !pulled.contains(*hash)) {
+                log::warn!("[mempool] pulled txs miss {:?}", missing);
+                return Err(MemPoolError::EnsureBreak {
+                    require:  unknown_len,
+                    response: pulled.len(),
+                }
+                .into());
+            }
+
             let check_nonces = self.verify_tx_in_parallel(ctx.clone(), txs.clone()).await?;
 
             for (signed_tx, check_nonce) in txs.into_iter().zip(check_nonces.into_iter()) {
-- 
2.43.0


From e269ca4bc3ef43ca7d891d75a49ce4132a550c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 16/36] fix: a malformed consensus rpc response is an error,
 not a panic

---
 core/consensus/src/types.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/consensus/src/types.rs b/core/consensus/src/types.rs
index cd4a73e..cfc884b 100644
--- a/core/consensus/src/types.rs
+++ b/core/consensus/src/types.rs
@@ -37,8 +37,11 @@ impl MessageCodec for ConsensusRpcResponse {
     }
 
     fn decode_msg(mut bytes: Bytes) -> ProtocolResult<Self> {
-        let len = bytes.len();
-        let flag = bytes.split_off(len - 1);
+        let len = bytes
+            .len()
+            .checked_sub(1)
+            .ok_or(ConsensusError::DecodeErr(ConsensusType::RpcPullBlocks))?;
+        let flag = bytes.split_off(len);
 
         match flag.as_ref() {
             b"a" => {
@@ -51,7 +54,7 @@ impl MessageCodec for ConsensusRpcResponse {
                     .map_err(|_| ConsensusError::DecodeErr(ConsensusType::RpcPullTxs))?;
                 Ok(ConsensusRpcResponse::PullTxs(Box::new(res)))
             }
-            _ => unreachable!(),
+            _ => Err(ConsensusError::DecodeErr(ConsensusType::RpcPullBlocks).into()),
         }
     }
 }
-- 
2.43.0


From aa119b739bf33b4774209e55a6dce8f5f5386b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 17/36] fix: a proposal is checked against the hash and the
 number it is announced with

---
 core/consensus/src/engine.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 37c7a28..0312ad6 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -159,9 +159,26 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
     ) -> Result<(), Box<dyn Error + Send>> {
         let time = Instant::now();
 
-        if proposal.number != proposal.proof.number + 1 {
+        let proposal_hash = proposal.hash();
+        if hash.as_ref() != proposal_hash.as_bytes() {
+            return Err(ProtocolError::from(ConsensusError::Other(format!(
+                "proposal hash mismatch, the hash of the content is {:#x}",
+                proposal_hash
+            )))
+            .into());
+        }
+
+        if proposal.number != next_number {
+            return Err(ProtocolError::from(ConsensusError::Other(format!(
+                "proposal number mismatch, expect {} get {}",
+                next_number, proposal.number
+            )))
+            .into());
+        }
+
+        if proposal.proof.number.checked_add(1) != Some(proposal.number) {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
-                expect: proposal.number - 1,
+                expect: proposal.number.saturating_sub(1),
                 actual: proposal.proof.number,
             })
             .into());
@@ -196,11 +213,7 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
 
         let tx_hashes = proposal.tx_hashes.clone();
         let tx_hashes_len = tx_hashes.len();
-        let exemption = {
-            self.exemption_hash
-                .read()
-                .contains(&Hash::from_slice(hash.as_ref()))
-        };
+        let exemption = { self.exemption_hash.read().contains(&proposal_hash) };
 
         gauge_txs_len(&proposal);
 
-- 
2.43.0


From d8c60d3ce4b01c8146aa0d8d0ce59d88f380ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 18/36] fix: check the previous state root of a proposal

---
 core/consensus/src/engine.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 0312ad6..0b80acf 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -576,6 +576,14 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             .get_block_by_number(ctx.clone(), proposal.number - 1)
             .await?;
 
+        if previous_block.header.state_root != proposal.prev_state_root {
+            return Err(ConsensusError::InvalidStateRoot {
+                expect: previous_block.header.state_root,
+                actual: proposal.prev_state_root,
+            }
+            .into());
+        }
+
         // verify block timestamp.
         if !validate_timestamp(
             current_timestamp,
-- 
2.43.0


From 34edcbbed2ae1f9e07ffb0a67552a0b6dcd2f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 19/36] fix: check the chain id, gas limit, base fee and
 proposer of a proposal

---
 core/consensus/src/engine.rs | 36 +++++++++++++++++++++++++++++++++++-
 core/consensus/src/lib.rs    |  9 +++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 0b80acf..509f73a 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -36,7 +36,7 @@ use crate::status::{CurrentStatus, StatusAgent};
 use crate::stop_signal::StopSignal;
 use crate::util::{digest_signed_transactions, time_now, OverlordCrypto};
 use crate::wal::{ConsensusWal, SignedTxsWAL};
-use crate::ConsensusError;
+use crate::{BlockHeaderField, ConsensusError};
 
 /// validator is for create new block, and authority is for build overlord
 /// status.
@@ -568,6 +568,8 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
                 e
             })?;
 
+        self.verify_proposal_header(proposal).await?;
+
         // verify the proof in the block for previous block
         // skip to get previous proof to compare because the node may just comes from
         // sync and waste a delay of read
@@ -624,6 +626,38 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         self.check_order_transactions(ctx.clone(), proposal, &signed_txs)
     }
 
+    /// The fields which the proposer does not choose freely.
+    async fn verify_proposal_header(&self, proposal: &Proposal) -> ProtocolResult<()> {
+        let invalid =
+            |field: BlockHeaderField| ConsensusError::VerifyBlockHeader(proposal.number, field);
+
+        if proposal.chain_id != self.node_info.chain_id {
+            return Err(invalid(BlockHeaderField::ChainId).into());
+        }
+
+        if proposal.gas_limit != MAX_BLOCK_GAS_LIMIT.into() {
+            return Err(invalid(BlockHeaderField::GasLimit).into());
+        }
+
+        if proposal.base_fee_per_gas != BASE_FEE_PER_GAS.into() {
+            return Err(invalid(BlockHeaderField::BaseFee).into());
+        }
+
+        let metadata = self
+            .adapter
+            .get_metadata_by_block_number(proposal.number)
+            .await?;
+        if !metadata
+            .verifier_list
+            .iter()
+            .any(|v| v.address == proposal.proposer)
+        {
+            return Err(invalid(BlockHeaderField::Proposer).into());
+        }
+
+        Ok(())
+    }
+
     #[trace_span(kind = "consensus.engine", logs = "{txs_len: signed_txs.len()}")]
     fn check_order_transactions(
         &self,
diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index 429b4fc..e414cc1 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -220,6 +220,15 @@ pub enum BlockHeaderField {
 
     #[display(fmt = "The block version")]
     Version,
+
+    #[display(fmt = "The chain id")]
+    ChainId,
+
+    #[display(fmt = "The gas limit")]
+    GasLimit,
+
+    #[display(fmt = "The base fee per gas")]
+    BaseFee,
 }
 
 #[derive(Debug, Display)]
-- 
2.43.0


From a9dbd47ccd1ad4c3cc584e31e523f01aae299cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 20/36] fix: synchronization saves the proof of the block it
 commits

---
 core/consensus/src/synchronization.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 6ad31ea..1904322 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -360,6 +360,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             rich_block.txs.clone(),
             receipts,
             rich_block.block.clone(),
+            proof,
         )
         .await?;
 
@@ -455,6 +456,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         txs: Vec<SignedTransaction>,
         receipts: Vec<Receipt>,
         block: Block,
+        proof: Proof,
     ) -> ProtocolResult<()> {
         self.adapter
             .save_signed_txs(ctx.clone(), block.header.number, txs)
@@ -462,9 +464,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         self.adapter
             .save_receipts(ctx.clone(), block.header.number, receipts)
             .await?;
-        self.adapter
-            .save_proof(ctx.clone(), block.header.proof.clone())
-            .await?;
+        self.adapter.save_proof(ctx.clone(), proof).await?;
         self.adapter.save_block(ctx.clone(), block).await?;
         Ok(())
     }
-- 
2.43.0


From 28181b43a35c0269edbf814adb6cbb6542416276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 21/36] fix: synchronization updates the validator keys
 consensus messages are verified with

---
 core/consensus/src/adapter.rs         | 6 ++++++
 core/consensus/src/synchronization.rs | 3 +++
 protocol/src/traits/consensus.rs      | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/core/consensus/src/adapter.rs b/core/consensus/src/adapter.rs
index 4b87158..809b58a 100644
--- a/core/consensus/src/adapter.rs
+++ b/core/consensus/src/adapter.rs
@@ -25,6 +25,7 @@ use protocol::types::{
 use protocol::{async_trait, tokio::task, trie, ProtocolResult};
 
 use crate::consensus::gen_overlord_status;
+use crate::engine::generate_new_crypto_map;
 use crate::util::{convert_hex_to_bls_pubkeys, OverlordCrypto};
 use crate::BlockHeaderField::{PreviousBlockHash, Version};
 use crate::BlockProofField::{BitMap, HashMismatch, HeightMismatch, Signature, WeightNotFound};
@@ -162,6 +163,11 @@ where
         Ok(())
     }
 
+    fn update_crypto(&self, metadata: Metadata) -> ProtocolResult<()> {
+        self.crypto.update(generate_new_crypto_map(metadata)?);
+        Ok(())
+    }
+
     /// Pull some blocks from other nodes from `begin` to `end`.
     #[trace_span(kind = "consensus.adapter")]
     async fn get_block_from_remote(&self, ctx: Context, number: u64) -> ProtocolResult<Block> {
diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 1904322..a4fa3b0 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -510,6 +510,9 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             .get_metadata_by_block_number(sync_status.last_number + 1)
             .await?;
 
+        // the synchronized blocks may have passed the end of an epoch
+        self.adapter.update_crypto(metadata.clone())?;
+
         self.adapter.update_status(
             ctx,
             sync_status.last_number,
diff --git a/protocol/src/traits/consensus.rs b/protocol/src/traits/consensus.rs
index 2783434..62e6130 100644
--- a/protocol/src/traits/consensus.rs
+++ b/protocol/src/traits/consensus.rs
@@ -76,6 +76,11 @@ pub trait SynchronizationAdapter: CommonConsensusAdapter + Send + Sync {
         validators: Vec<ConsensusValidator>,
     ) -> ProtocolResult<()>;
 
+    /// Replace the validator keys that consensus messages are verified with.
+    fn update_crypto(&self, _metadata: Metadata) -> ProtocolResult<()> {
+        Ok(())
+    }
+
     /// Pull some blocks from other nodes from `begin` to `end`.
     async fn get_block_from_remote(
         &self,
-- 
2.43.0


From 24bd7fe43350b03090ac33c385feba2aac84d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 22/36] fix: synchronization checks every header field that
 comes from the execution

---
 core/consensus/src/synchronization.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index a4fa3b0..1da3575 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -309,17 +309,17 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         status_agent: StatusAgent,
     ) -> ProtocolResult<()> {
         let block = &rich_block.block;
-        let block_hash = block.hash();
+        let proposal = Proposal::new_with_state_root(
+            &block.header,
+            self.status.inner().last_state_root,
+            block.tx_hashes.clone(),
+        );
         let resp = self
             .adapter
             .exec(
                 ctx.clone(),
                 status_agent.inner().last_state_root,
-                &Proposal::new_with_state_root(
-                    &block.header,
-                    self.status.inner().last_state_root,
-                    block.tx_hashes.clone(),
-                ),
+                &proposal,
                 &rich_block.txs,
             )
             .await?;
@@ -340,6 +340,15 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             .into());
         }
 
+        // The proof covers the proposal only, every field of the header that comes
+        // from the execution must be the one of the execution here.
+        if Block::new(proposal, resp.clone()).header != block.header {
+            return Err(ConsensusError::Other(
+                "[synchronization]: block header doesn't match the execution".to_string(),
+            )
+            .into());
+        }
+
         let (receipts, _logs) = rich_block.generate_receipts_and_logs(&resp);
 
         let metadata = self
-- 
2.43.0


From cbecfb481af1cd43b3fdb7f80e7421e275bdeca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 23/36] fix: loading the consensus wal goes on after a torn
 file

---
 core/consensus/src/wal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index ed533d9..31a42f0 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -277,12 +277,14 @@ impl ConsensusWal {
             let mut file = fs::File::open(&log_path).map_err(ConsensusError::WALErr)?;
             let res = file.read_to_end(&mut read_buf);
             if res.is_err() {
+                index += 1;
                 continue;
             }
 
             let mut info = Bytes::from(read_buf);
 
             if info.len() < Hash::default().as_bytes().len() {
+                index += 1;
                 continue;
             }
 
-- 
2.43.0


From 6d177ab985681fcf5b8e20b02221dc88a232e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 24/36] fix: the transactions wal names files by the whole hash
 and leaves no old content

---
 core/consensus/src/wal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index 31a42f0..45a0d8a 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -37,13 +37,14 @@ impl SignedTxsWAL {
             fs::create_dir(&wal_path).map_err(ConsensusError::WALErr)?;
         }
 
-        wal_path.push(ordered_signed_transactions_hash.to_string());
+        wal_path.push(format!("{:#x}", ordered_signed_transactions_hash));
         wal_path.set_extension("txt");
 
         let mut wal_file = match fs::OpenOptions::new()
             .read(true)
             .write(true)
             .create(true)
+            .truncate(true)
             .open(wal_path)
         {
             Ok(file) => file,
@@ -89,7 +90,7 @@ impl SignedTxsWAL {
     ) -> ProtocolResult<Vec<SignedTransaction>> {
         let mut file_path = self.path.clone();
         file_path.push(number.to_string());
-        file_path.push(ordered_signed_transactions_hash.to_string());
+        file_path.push(format!("{:#x}", ordered_signed_transactions_hash));
         file_path.set_extension("txt");
 
         self.recover_stxs(file_path)
-- 
2.43.0


From dbd0d4087614bdd2b92aef1575812fcb1eb45146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 25/36] fix: look for the next epoch's metadata by epoch

---
 core/consensus/src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 509f73a..895b719 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -820,7 +820,7 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         let next_epoch = current_epoch + 1;
         if self
             .adapter
-            .get_metadata_by_block_number(next_epoch)
+            .get_metadata_by_epoch(next_epoch)
             .await
             .is_err()
         {
-- 
2.43.0


From ef4eabe2f8f096c74a1684b9f7326fa6b0e66c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:31 +0000
Subject: [PATCH 26/36] fix: eth_submitWork is registered under its own name,
 not one with a trailing space

---
 core/api/src/jsonrpc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/api/src/jsonrpc/mod.rs b/core/api/src/jsonrpc/mod.rs
index d1b9585..e2e879d 100644
--- a/core/api/src/jsonrpc/mod.rs
+++ b/core/api/src/jsonrpc/mod.rs
@@ -200,7 +200,7 @@ pub trait AxonNodeRpc {
     #[method(name = "eth_hashrate")]
     fn hashrate(&self) -> RpcResult<U256>;
 
-    #[method(name = "eth_submitWork ")]
+    #[method(name = "eth_submitWork")]
     fn submit_work(&self, _nc: U256, _hash: H256, _summary: Hex) -> RpcResult<bool>;
 
     #[method(name = "eth_submitHashrate")]
-- 
2.43.0


From 2d59d64468b77ea1f5b79cebca08d3edbba0a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:31 +0000
Subject: [PATCH 27/36] fix: the websocket server bounds its responses, not its
 requests twice

---
 core/api/src/jsonrpc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/api/src/jsonrpc/mod.rs b/core/api/src/jsonrpc/mod.rs
index e2e879d..0d66d0a 100644
--- a/core/api/src/jsonrpc/mod.rs
+++ b/core/api/src/jsonrpc/mod.rs
@@ -300,7 +300,7 @@ pub async fn run_jsonrpc_server<Adapter: APIAdapter + 'static>(
         let server = ServerBuilder::new()
             .ws_only()
             .max_request_body_size(config.rpc.max_payload_size)
-            .max_request_body_size(config.rpc.max_payload_size)
+            .max_response_body_size(config.rpc.max_payload_size)
             .max_connections(config.rpc.maxconn)
             .set_id_provider(HexIdProvider::default())
             .build(addr)
-- 
2.43.0


From 8c6991b1112a91c2458d7954f2dfe2c1421b7799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:31 +0000
Subject: [PATCH 28/36] fix: subscription messages are sent, not only made
 ready to be sent

---
 core/api/src/jsonrpc/ws_subscription.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index 46b197a..e3e8a29 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -134,7 +134,7 @@ where
                 let msg = SubscriptionMessage::from_json(&web3_header).unwrap();
 
                 for hub in self.header_hubs.iter_mut() {
-                    let _ignore = hub.sink.send(msg.clone());
+                    let _ignore = hub.sink.send(msg.clone()).await;
                 }
             }
 
@@ -142,7 +142,7 @@ where
             let msg = SubscriptionMessage::from_json(&latest_web3_header).unwrap();
 
             for hub in self.header_hubs.iter_mut() {
-                let _ignore = hub.sink.send(msg.clone());
+                let _ignore = hub.sink.send(msg.clone()).await;
             }
         }
 
@@ -153,7 +153,7 @@ where
 
             for hub in self.sync_hubs.iter_mut() {
                 // unbound sender can ignore it's return
-                let _ignore = hub.sink.send(msg.clone());
+                let _ignore = hub.sink.send(msg.clone()).await;
             }
         }
 
@@ -198,7 +198,7 @@ where
                         for log in logs.drain(..) {
                             let msg = SubscriptionMessage::from_json(&log).unwrap();
                             // unbound sender can ignore it's return
-                            let _ignore = hub.sink.send(msg);
+                            let _ignore = hub.sink.send(msg).await;
                         }
                     }
                     index += log_len;
-- 
2.43.0


From 6e9b3dbd463f3a16f7072d62a6a6db66cc8b11a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 29/36] fix: a filter id of more than 64 bits is unknown, it
 does not stop the filter hub

---
 core/api/src/jsonrpc/error.rs       | 4 ++--
 core/api/src/jsonrpc/impl/filter.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/api/src/jsonrpc/error.rs b/core/api/src/jsonrpc/error.rs
index ba0701c..7106830 100644
--- a/core/api/src/jsonrpc/error.rs
+++ b/core/api/src/jsonrpc/error.rs
@@ -1,6 +1,6 @@
 use jsonrpsee::types::{error::ErrorObject, ErrorObjectOwned};
 
-use protocol::types::{ExitReason, TxResp};
+use protocol::types::{ExitReason, TxResp, U256};
 use protocol::{codec::hex_encode, Display};
 
 use core_executor::decode_revert_msg;
@@ -48,7 +48,7 @@ pub enum RpcError {
     #[display(fmt = "Invalid from block number and to block number union")]
     InvalidFromBlockAndToBlockUnion,
     #[display(fmt = "Invalid filter id {}", _0)]
-    CannotFindFilterId(u64),
+    CannotFindFilterId(U256),
     #[display(fmt = "Not allow to call system contract address")]
     CallSystemContract,
 
diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index bd9e727..acb533a 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -246,7 +246,7 @@ where
             sender.send(res).unwrap()
         } else {
             sender
-                .send(Err(RpcError::CannotFindFilterId(id.as_u64()).into()))
+                .send(Err(RpcError::CannotFindFilterId(id).into()))
                 .unwrap()
         }
     }
-- 
2.43.0


From 719d78026bd69dc3fd002ee7e3ee263012f2956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 30/36] fix: a client that is gone does not stop the filter hub

---
 core/api/src/jsonrpc/impl/filter.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index acb533a..d6124c1 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -212,7 +212,8 @@ where
                 }
 
                 self.logs_hub.insert(id, (filter, Instant::now()));
-                sender.send(id).unwrap()
+                // The client may have gone away in the meantime
+                let _ = sender.send(id);
             }
             Command::NewBlocks(sender) => {
                 let id = random_id();
@@ -223,13 +224,14 @@ where
                     .unwrap()
                     .unwrap();
                 self.blocks_hub.insert(id, (header.number, Instant::now()));
-                sender.send(id).unwrap()
+                // The client may have gone away in the meantime
+                let _ = sender.send(id);
             }
             Command::FilterRequest((id, sender)) => self.impl_filter(id, sender).await,
             Command::Uninstall((id, sender)) => {
                 let removed =
                     self.blocks_hub.remove(&id).is_some() || self.logs_hub.remove(&id).is_some();
-                sender.send(removed).unwrap()
+                let _ = sender.send(removed);
             }
         }
     }
@@ -237,17 +239,15 @@ where
     async fn impl_filter(&mut self, id: U256, sender: oneshot::Sender<RpcResult<FilterChanges>>) {
         if self.blocks_hub.contains_key(&id) {
             let res = Ok(FilterChanges::Blocks(self.filter_block(&id).await));
-            sender.send(res).unwrap()
+            let _ = sender.send(res);
         } else if self.logs_hub.contains_key(&id) {
             let res = self.filter_logs(&id).await.map(FilterChanges::Logs);
             if res.is_err() {
                 self.logs_hub.remove(&id);
             }
-            sender.send(res).unwrap()
+            let _ = sender.send(res);
         } else {
-            sender
-                .send(Err(RpcError::CannotFindFilterId(id).into()))
-                .unwrap()
+            let _ = sender.send(Err(RpcError::CannotFindFilterId(id).into()));
         }
     }
 
-- 
2.43.0


From 79717cb6dd92984f166bad35ada2478adead594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 31/36] fix: a transaction position of more than 64 bits is
 answered with an error

---
 core/api/src/jsonrpc/error.rs     | 2 +-
 core/api/src/jsonrpc/impl/web3.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/api/src/jsonrpc/error.rs b/core/api/src/jsonrpc/error.rs
index 7106830..b4ed80b 100644
--- a/core/api/src/jsonrpc/error.rs
+++ b/core/api/src/jsonrpc/error.rs
@@ -40,7 +40,7 @@ pub enum RpcError {
     #[display(fmt = "Invalid newest block {:?}", _0)]
     InvalidNewestBlock(BlockId),
     #[display(fmt = "Invalid position {}", _0)]
-    InvalidPosition(u64),
+    InvalidPosition(U256),
     #[display(fmt = "Cannot find the block")]
     CannotFindBlock,
     #[display(fmt = "Invalid reward percentiles {} {}", _0, _1)]
diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 79361f8..8612260 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -910,7 +910,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
         if position > U256::from(usize::MAX) {
-            return Err(RpcError::InvalidPosition(position.as_u64()).into());
+            return Err(RpcError::InvalidPosition(position).into());
         }
 
         let mut raw = [0u8; 32];
@@ -941,7 +941,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
         if position > U256::from(usize::MAX) {
-            return Err(RpcError::InvalidPosition(position.as_u64()).into());
+            return Err(RpcError::InvalidPosition(position).into());
         }
 
         let mut raw = [0u8; 32];
-- 
2.43.0


From 76c74e656f48b2cf52fbd3f601efc167e2635856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 32/36] fix: an unknown block hash is refused, it does not mean
 the latest block

---
 core/api/src/jsonrpc/impl/web3.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 8612260..e504c72 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -47,11 +47,13 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
         block_id: Option<BlockId>,
     ) -> Result<Option<BlockNumber>, RpcError> {
         match block_id {
-            Some(BlockId::Hash(ref hash)) => Ok(self
+            Some(BlockId::Hash(ref hash)) => self
                 .adapter
                 .get_block_number_by_hash(Context::new(), *hash)
                 .await
-                .map_err(|e| RpcError::Internal(e.to_string()))?),
+                .map_err(|e| RpcError::Internal(e.to_string()))?
+                .map(Some)
+                .ok_or(RpcError::InvalidBlockHash),
             _ => Ok(block_id.unwrap_or_default().into()),
         }
     }
@@ -371,12 +373,8 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
                     .map(|account| account.nonce + pending_tx_count)
                     .unwrap_or_default())
             }
-            BlockId::Hash(ref hash) => {
-                let number = self
-                    .adapter
-                    .get_block_number_by_hash(Context::new(), *hash)
-                    .await
-                    .map_err(|e| RpcError::Internal(e.to_string()))?;
+            id @ BlockId::Hash(_) => {
+                let number = self.get_block_number_by_id(Some(id)).await?;
                 Ok(self
                     .adapter
                     .get_account(Context::new(), address, number)
-- 
2.43.0


From cdef7b7094f2ec786a22dec0fff6130e49a496a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 33/36] fix: eth_estimateGas runs at the block it is asked for

---
 core/api/src/jsonrpc/impl/web3.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index e504c72..254f00e 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -470,10 +470,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
             }
         }
 
-        let num = match number {
-            Some(BlockId::Num(n)) => Some(n.low_u64()),
-            _ => None,
-        };
+        let num = self.get_block_number_by_id(number).await?;
         let data_bytes = req
             .data
             .as_ref()
-- 
2.43.0


From 90db2d1c7822c1c0391f1bc880c2bf73d9700886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 34/36] fix: the effective gas price of a receipt is a price,
 not the gas used

---
 core/api/src/jsonrpc/web3_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/api/src/jsonrpc/web3_types.rs b/core/api/src/jsonrpc/web3_types.rs
index 07ed454..6824ee1 100644
--- a/core/api/src/jsonrpc/web3_types.rs
+++ b/core/api/src/jsonrpc/web3_types.rs
@@ -216,7 +216,7 @@ impl Web3Receipt {
             block_hash:          receipt.block_hash,
             contract_address:    receipt.code_address.map(Into::into),
             cumulative_gas_used: receipt.used_gas,
-            effective_gas_price: receipt.used_gas,
+            effective_gas_price: stx.transaction.unsigned.gas_price(),
             from:                receipt.sender,
             status:              receipt.status(),
             gas_used:            receipt.used_gas,
-- 
2.43.0


From 01c7b1d5e72729009bb4a700db0d57b7eddaa556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 35/36] fix: log indexes count the logs of the block, as the
 receipts do

---
 core/api/src/jsonrpc/impl/web3.rs  | 2 +-
 core/api/src/jsonrpc/web3_types.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 254f00e..9d5e26e 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -1159,7 +1159,7 @@ pub fn from_receipt_to_web3_log(
                 block_number:      Some(receipt.block_number.into()),
                 transaction_hash:  Some(receipt.tx_hash),
                 transaction_index: Some(index.into()),
-                log_index:         Some(log_idex.into()),
+                log_index:         Some((receipt.log_index as usize + log_idex).into()),
                 removed:           false,
             };
             logs.push(web3_log);
diff --git a/core/api/src/jsonrpc/web3_types.rs b/core/api/src/jsonrpc/web3_types.rs
index 6824ee1..c71ec50 100644
--- a/core/api/src/jsonrpc/web3_types.rs
+++ b/core/api/src/jsonrpc/web3_types.rs
@@ -206,7 +206,7 @@ impl Web3Receipt {
                 block_hash:        receipt.block_hash,
                 transaction_hash:  receipt.tx_hash,
                 transaction_index: Some(receipt.tx_index.into()),
-                log_index:         idx.into(),
+                log_index:         (receipt.log_index as usize + idx).into(),
                 removed:           false,
             })
             .collect::<Vec<_>>();
-- 
2.43.0


From aee0438580e682b10fcfbe3984cc11d4b43b2bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 36/36] fix: the transaction index of a subscribed log counts
 transactions, not logs

---
 core/api/src/jsonrpc/ws_subscription.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index e3e8a29..0d0fa95 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -182,10 +182,8 @@ where
                     .await
                     .unwrap();
 
-                let mut index = 0;
                 let mut logs = Vec::new();
-                for receipt in receipts.into_iter().flatten() {
-                    let log_len = receipt.logs.len();
+                for (index, receipt) in receipts.into_iter().flatten().enumerate() {
                     for hub in self.log_hubs.iter_mut() {
                         from_receipt_to_web3_log(
                             index,
@@ -201,7 +199,6 @@ where
                             let _ignore = hub.sink.send(msg).await;
                         }
                     }
-                    index += log_len;
                 }
             }
         }
-- 
2.43.0

