//! core/storage: which record is kept where.
use crate::storage::schema::*;
use arc_swap::ArcSwap;
use lru::LruCache;
use parking_lot::Mutex;
use protocol::codec::ProtocolCodec;
use protocol::tokio;
use protocol::traits::{IntoIteratorByRef, StorageAdapter, StorageBatchModify, StorageSchema};
use protocol::types::{
    Block, Bytes, DBBytes, HardforkInfoInner, Hash, Hasher, Header, Proof, Receipt, SignedTransaction, H256,
};
use protocol::{ProtocolError, ProtocolErrorKind, ProtocolResult};
use std::collections::{HashMap, HashSet};
use std::num::NonZeroUsize;
use std::sync::Arc;

pub struct CommonPrefix {
    block_height: [u8; 8],
}
pub struct CommonHashKey {
    prefix: CommonPrefix,
    hash:   Hash,
}
type BlockKey = CommonPrefix;

impl Clone for CommonPrefix { fn clone(&self) -> Self { unimplemented!() } }
impl AsRef<[u8]> for CommonPrefix { fn as_ref(&self) -> &[u8] { &self.block_height } }
impl ProtocolCodec for CommonPrefix {
    fn encode(&self) -> ProtocolResult<Bytes> { prefix_encode(self) }
    fn decode<B: AsRef<[u8]>>(b: B) -> ProtocolResult<Self> { prefix_decode(b) }
}
impl ProtocolCodec for CommonHashKey {
    fn encode(&self) -> ProtocolResult<Bytes> { key_encode(self) }
    fn decode<B: AsRef<[u8]>>(b: B) -> ProtocolResult<Self> { key_decode(b) }
}

/// Heights are big-endian: keys of one height are neighbours, and heights are in order.
pub fn prefix(height: u64) -> CommonPrefix { CommonPrefix { block_height: height.to_be_bytes() } }
pub fn prefix_height(p: CommonPrefix) -> u64 { u64::from_be_bytes(p.block_height) }
pub fn prefix_bytes(p: &CommonPrefix) -> &[u8] { &p.block_height }
pub fn prefix_encode(p: &CommonPrefix) -> ProtocolResult<Bytes> { Ok(Bytes::copy_from_slice(&p.block_height)) }
pub fn prefix_decode<B: AsRef<[u8]>>(b: B) -> ProtocolResult<CommonPrefix> {
    let mut block_height = [0u8; 8];
    block_height.copy_from_slice(&b.as_ref()[..8]);
    Ok(CommonPrefix { block_height })
}
pub fn key(height: u64, hash: Hash) -> CommonHashKey { CommonHashKey { prefix: prefix(height), hash } }
pub fn key_height(k: &CommonHashKey) -> u64 { u64::from_be_bytes(k.prefix.block_height) }
pub fn key_hash(k: &CommonHashKey) -> &Hash { &k.hash }
pub fn key_encode(k: &CommonHashKey) -> ProtocolResult<Bytes> {
    let mut b = [0u8; 40];
    b[0..8].copy_from_slice(&k.prefix.block_height);
    b[8..40].copy_from_slice(&k.hash.as_bytes()[..32]);
    Ok(Bytes::copy_from_slice(&b))
}
pub fn key_decode<B: AsRef<[u8]>>(b: B) -> ProtocolResult<CommonHashKey> {
    let b = b.as_ref();
    let mut block_height = [0u8; 8];
    block_height.copy_from_slice(&b[..8]);
    Ok(CommonHashKey { prefix: CommonPrefix { block_height }, hash: Hash::from_slice(&b[8..]) })
}

pub mod schema {
    use super::*;
    use protocol::traits::StorageCategory;
    macro_rules! table {
        ($n:ident, $k:ty, $v:ty, $c:ident) => {
            pub struct $n;
            impl StorageSchema for $n {
                type Key = $k;
                type Value = $v;
                fn category() -> StorageCategory { StorageCategory::$c }
            }
        };
    }
    table!(TransactionSchema, CommonHashKey, SignedTransaction, SignedTransaction);
    table!(TransactionBytesSchema, CommonHashKey, DBBytes, SignedTransaction);
    table!(BlockSchema, BlockKey, Block, Block);
    table!(BlockHeaderSchema, BlockKey, Header, BlockHeader);
    table!(BlockHashNumberSchema, Hash, u64, HashHeight);
    table!(ReceiptSchema, CommonHashKey, Receipt, Receipt);
    table!(ReceiptBytesSchema, CommonHashKey, DBBytes, Receipt);
    table!(TxHashNumberSchema, Hash, u64, HashHeight);
    table!(LatestBlockSchema, Hash, Block, Block);
    table!(LatestProofSchema, Hash, Proof, Block);
    table!(OverlordWalSchema, Hash, Bytes, Wal);
    table!(EvmCodeSchema, Hash, Bytes, Code);
    table!(EvmCodeAddressSchema, Hash, Hash, Code);
    table!(HardforkSchema, Hash, HardforkInfoInner, Version);
    pub mod category {
        use super::StorageCategory;
        pub fn signed_transaction() -> StorageCategory { StorageCategory::SignedTransaction }
        pub fn block() -> StorageCategory { StorageCategory::Block }
        pub fn header() -> StorageCategory { StorageCategory::BlockHeader }
        pub fn height() -> StorageCategory { StorageCategory::HashHeight }
        pub fn receipt() -> StorageCategory { StorageCategory::Receipt }
        pub fn wal() -> StorageCategory { StorageCategory::Wal }
        pub fn code() -> StorageCategory { StorageCategory::Code }
        pub fn version() -> StorageCategory { StorageCategory::Version }
    }
}

pub struct StorageCache {
    pub blocks:        Mutex<LruCache<u64, Block>>,
    pub block_numbers: Mutex<LruCache<Hash, u64>>,
    pub headers:       Mutex<LruCache<u64, Header>>,
    pub transactions:  Mutex<LruCache<Hash, SignedTransaction>>,
    pub codes:         Mutex<LruCache<Hash, Bytes>>,
    pub receipts:      Mutex<LruCache<Hash, Receipt>>,
}
pub struct ImplStorage<A> {
    adapter:      Arc<A>,
    cache:        Arc<StorageCache>,
    latest_block: ArcSwap<Option<Block>>,
    latest_proof: ArcSwap<Option<Proof>>,
}

pub fn latest_block_key() -> Hash { Hasher::digest(Bytes::from("latest_hash")) }
pub fn latest_proof_key() -> Hash { Hasher::digest(Bytes::from("latest_proof")) }
pub fn wal_key() -> Hash { Hasher::digest(Bytes::from("overlord_wal")) }
pub fn monitor_key() -> Hash { Hasher::digest(Bytes::from("monitor_ckb_number")) }
pub fn hardfork_key() -> Hash { Hasher::digest(Bytes::from("hardfork_proposal")) }

use core_storage::{HAEDFORK_PROPOSAL, LATEST_BLOCK_KEY, LATEST_PROOF_KEY};

pub fn new<A>(adapter: Arc<A>, size: usize) -> ImplStorage<A> {
    let n = NonZeroUsize::new(size).unwrap();
    ImplStorage {
        adapter,
        cache: Arc::new(StorageCache {
            blocks:        Mutex::new(LruCache::new(n)),
            block_numbers: Mutex::new(LruCache::new(n)),
            headers:       Mutex::new(LruCache::new(n)),
            transactions:  Mutex::new(LruCache::new(n)),
            codes:         Mutex::new(LruCache::new(n)),
            receipts:      Mutex::new(LruCache::new(n)),
        }),
        latest_block: ArcSwap::new(Arc::new(None)),
        latest_proof: ArcSwap::new(Arc::new(None)),
    }
}

type Ctx = protocol::traits::Context;
type S<A> = ImplStorage<A>;
type Opt<T> = ProtocolResult<Option<T>>;

// ---- reads

pub fn get_block<A: StorageAdapter>(s: &S<A>, _: Ctx, height: u64) -> Opt<Block> {
    if let Some(b) = s.cache.blocks.lock().get(&height) {
        return Ok(Some(b.clone()));
    }
    let r = s.adapter.get::<BlockSchema>(prefix(height))?;
    if let Some(b) = &r {
        s.cache.blocks.lock().put(height, b.clone());
    }
    Ok(r)
}

pub fn get_block_header<A: StorageAdapter>(s: &S<A>, c: Ctx, height: u64) -> Opt<Header> {
    if let Some(h) = s.cache.headers.lock().get(&height) {
        return Ok(Some(h.clone()));
    }
    if let Some(h) = s.adapter.get::<BlockHeaderSchema>(prefix(height))? {
        s.cache.headers.lock().put(height, h.clone());
        return Ok(Some(h));
    }
    Ok(get_block(s, c, height)?.map(|b| b.header))
}

pub fn get_latest_block<A: StorageAdapter>(s: &S<A>, _: Ctx) -> ProtocolResult<Block> {
    match s.latest_block.load().as_ref() {
        Some(b) => Ok(b.clone()),
        None => s.adapter.get::<LatestBlockSchema>(*LATEST_BLOCK_KEY)?.ok_or_else(none),
    }
}

pub fn get_latest_block_header<A: StorageAdapter>(s: &S<A>, _: Ctx) -> ProtocolResult<Header> {
    match s.latest_block.load().as_ref() {
        Some(b) => Ok(b.header.clone()),
        None => Ok(s.adapter.get::<LatestBlockSchema>(*LATEST_BLOCK_KEY)?.ok_or_else(none)?.header),
    }
}

pub fn get_latest_proof<A: StorageAdapter>(s: &S<A>, _: Ctx) -> ProtocolResult<Proof> {
    match s.latest_proof.load().as_ref() {
        Some(p) => Ok(p.clone()),
        None => s.adapter.get::<LatestProofSchema>(*LATEST_PROOF_KEY)?.ok_or_else(none),
    }
}

fn none() -> ProtocolError { ProtocolError::new(ProtocolErrorKind::Storage, Box::new(std::fmt::Error)) }

pub fn number_by_hash<A: StorageAdapter>(s: &S<A>, hash: &Hash) -> Opt<u64> {
    if let Some(n) = s.cache.block_numbers.lock().get(hash) {
        return Ok(Some(*n));
    }
    let r = s.adapter.get::<BlockHashNumberSchema>(*hash)?;
    if let Some(n) = &r {
        s.cache.block_numbers.lock().put(*hash, *n);
    }
    Ok(r)
}

pub fn get_block_number_by_hash<A: StorageAdapter>(s: &S<A>, _: Ctx, hash: &Hash) -> Opt<u64> { number_by_hash(s, hash) }

pub fn get_block_by_hash<A: StorageAdapter>(s: &S<A>, c: Ctx, hash: &Hash) -> Opt<Block> {
    match number_by_hash(s, hash)? {
        Some(n) => get_block(s, c, n),
        None => Ok(None),
    }
}

pub fn get_code_by_hash<A: StorageAdapter>(s: &S<A>, _: Ctx, hash: &Hash) -> Opt<Bytes> {
    if let Some(c) = s.cache.codes.lock().get(hash) {
        return Ok(Some(c.clone()));
    }
    let r = s.adapter.get::<EvmCodeSchema>(*hash)?;
    if let Some(c) = &r {
        s.cache.codes.lock().put(*hash, c.clone());
    }
    Ok(r)
}

pub fn get_code_by_address<A: StorageAdapter>(s: &S<A>, c: Ctx, address: &H256) -> Opt<Bytes> {
    match s.adapter.get::<EvmCodeAddressSchema>(*address)? {
        Some(hash) => get_code_by_hash(s, c, &hash),
        None => Ok(None),
    }
}

pub fn get_transaction_by_hash<A: StorageAdapter>(s: &S<A>, _: Ctx, hash: &Hash) -> Opt<SignedTransaction> {
    if let Some(t) = s.cache.transactions.lock().get(hash) {
        return Ok(Some(t.clone()));
    }
    match s.adapter.get::<TxHashNumberSchema>(*hash)? {
        Some(height) => {
            let r = s.adapter.get::<TransactionSchema>(key(height, *hash))?;
            if let Some(t) = &r {
                s.cache.transactions.lock().put(*hash, t.clone());
            }
            Ok(r)
        }
        None => Ok(None),
    }
}

pub fn get_receipt_by_hash<A: StorageAdapter>(s: &S<A>, _: Ctx, hash: &Hash) -> Opt<Receipt> {
    if let Some(t) = s.cache.receipts.lock().get(hash) {
        return Ok(Some(t.clone()));
    }
    match s.adapter.get::<TxHashNumberSchema>(*hash)? {
        Some(height) => {
            let r = s.adapter.get::<ReceiptSchema>(key(height, *hash))?;
            if let Some(t) = &r {
                s.cache.receipts.lock().put(*hash, t.clone());
            }
            Ok(r)
        }
        None => Ok(None),
    }
}

pub fn hardfork_proposal<A: StorageAdapter>(s: &S<A>, _: Ctx) -> Opt<HardforkInfoInner> {
    s.adapter.get::<HardforkSchema>(*HAEDFORK_PROPOSAL)
}

// ---- lists

macro_rules! decoded {
    ($n:ident, $t:ty) => {
        async fn $n(found: Vec<(Hash, DBBytes)>) -> ProtocolResult<HashMap<Hash, $t>> {
            if found.len() <= 1000 {
                return Ok(found.into_iter().map(|(k, v)| <$t>::decode(v).map(|v| (k, v))).collect::<ProtocolResult<Vec<_>>>()?.into_iter().collect());
            }
            let l = found
                .chunks(1000)
                .map(|l| {
                    let l = l.to_owned();
                    tokio::spawn(async move { l.into_iter().map(|(k, v): (Hash, DBBytes)| <$t>::decode(v).map(|v| (k, v))).collect::<ProtocolResult<Vec<_>>>() })
                })
                .collect::<Vec<_>>();
            Ok(futures::future::try_join_all(l)
                .await
                .map_err(|_| none())?
                .into_iter()
                .collect::<ProtocolResult<Vec<Vec<_>>>>()?
                .into_iter()
                .flatten()
                .collect())
        }
    };
}
decoded!(decoded_transactions, SignedTransaction);
decoded!(decoded_receipts, Receipt);

fn scan<A: StorageAdapter, Z: StorageSchema<Key = CommonHashKey, Value = DBBytes> + 'static>(s: &S<A>, height: u64, hashes: &[Hash]) -> ProtocolResult<Vec<(Hash, DBBytes)>> {
    let p = prefix(height);
    let mut found = Vec::new();
    let records = s.adapter.prepare_iter::<Z, _>(&p)?;
    let mut records = records.ref_to_iter();
    let asked = hashes.iter().collect::<HashSet<_>>();
    let mut left = hashes.len();
    while left > 0 {
        match records.next() {
            None => break,
            Some(Err(e)) => return Err(e),
            Some(Ok((k, v))) => {
                if key_height(&k) != height {
                    break;
                }
                if asked.contains(&k.hash) {
                    found.push((k.hash, v));
                    left -= 1;
                }
            }
        }
    }
    Ok(found)
}

pub async fn get_transactions<A: StorageAdapter>(s: &S<A>, _: Ctx, height: u64, hashes: &[Hash]) -> ProtocolResult<Vec<Option<SignedTransaction>>> {
    let mut m = decoded_transactions(scan::<A, TransactionBytesSchema>(s, height, hashes)?).await?;
    Ok(hashes.iter().map(|h| m.remove(h)).collect())
}

pub async fn get_receipts<A: StorageAdapter>(s: &S<A>, _: Ctx, height: u64, hashes: &[Hash]) -> ProtocolResult<Vec<Option<Receipt>>> {
    if hashes.is_empty() {
        return Ok(Vec::new());
    }
    let mut m = decoded_receipts(scan::<A, ReceiptBytesSchema>(s, height, hashes)?).await?;
    Ok(hashes.iter().map(|h| m.remove(h)).collect())
}

// ---- writes

pub fn set_block<A: StorageAdapter>(s: &S<A>, _: Ctx, b: Block) -> ProtocolResult<()> {
    let n = b.header.number;
    s.adapter.insert::<BlockSchema>(prefix(n), b.clone())?;
    s.adapter.insert::<BlockHeaderSchema>(prefix(n), b.header.clone())?;
    s.adapter.insert::<BlockHashNumberSchema>(b.hash(), n)?;
    Ok(())
}

pub fn set_latest_block<A: StorageAdapter>(s: &S<A>, _: Ctx, b: Block) -> ProtocolResult<()> {
    s.adapter.insert::<LatestBlockSchema>(*LATEST_BLOCK_KEY, b.clone())?;
    s.latest_block.store(Arc::new(Some(b)));
    Ok(())
}

pub fn insert_block<A: StorageAdapter>(s: &S<A>, c: Ctx, b: Block) -> ProtocolResult<()> {
    set_block(s, c.clone(), b.clone())?;
    set_latest_block(s, c, b)
}

pub fn remove_block<A: StorageAdapter>(s: &S<A>, _: Ctx, height: u64) -> ProtocolResult<()> { s.adapter.remove::<BlockSchema>(prefix(height)) }

pub fn insert_transactions<A: StorageAdapter>(s: &S<A>, _: Ctx, height: u64, l: Vec<SignedTransaction>) -> ProtocolResult<()> {
    let hashes = l.iter().map(|t| t.transaction.hash).collect();
    let heights = l.iter().map(|_| StorageBatchModify::Insert(height)).collect();
    let keys = l.iter().map(|t| key(height, t.transaction.hash)).collect();
    let l = l.into_iter().map(StorageBatchModify::Insert).collect();
    s.adapter.batch_modify::<TransactionSchema>(keys, l)?;
    s.adapter.batch_modify::<TxHashNumberSchema>(hashes, heights)?;
    Ok(())
}

pub fn insert_receipts<A: StorageAdapter>(s: &S<A>, _: Ctx, height: u64, l: Vec<Receipt>) -> ProtocolResult<()> {
    let hashes = l.iter().map(|t| t.tx_hash).collect();
    let heights = l.iter().map(|_| StorageBatchModify::Insert(height)).collect();
    let keys = l.iter().map(|t| key(height, t.tx_hash)).collect();
    let l = l.into_iter().map(StorageBatchModify::Insert).collect();
    s.adapter.batch_modify::<ReceiptSchema>(keys, l)?;
    s.adapter.batch_modify::<TxHashNumberSchema>(hashes, heights)?;
    Ok(())
}

pub fn insert_code<A: StorageAdapter>(s: &S<A>, _: Ctx, address: H256, hash: Hash, code: Bytes) -> ProtocolResult<()> {
    s.adapter.insert::<EvmCodeSchema>(hash, code)?;
    s.adapter.insert::<EvmCodeAddressSchema>(address, hash)
}

pub fn update_latest_proof<A: StorageAdapter>(s: &S<A>, _: Ctx, p: Proof) -> ProtocolResult<()> {
    s.adapter.insert::<LatestProofSchema>(*LATEST_PROOF_KEY, p.clone())?;
    s.latest_proof.store(Arc::new(Some(p)));
    Ok(())
}

pub fn set_hardfork<A: StorageAdapter>(s: &S<A>, _: Ctx, h: HardforkInfoInner) -> ProtocolResult<()> { s.adapter.insert::<HardforkSchema>(*HAEDFORK_PROPOSAL, h)?; Ok(()) }
pub fn remove_hardfork<A: StorageAdapter>(s: &S<A>, _: Ctx) -> ProtocolResult<()> { s.adapter.remove::<HardforkSchema>(*HAEDFORK_PROPOSAL) }
