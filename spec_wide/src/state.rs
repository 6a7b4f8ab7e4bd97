//! core/executor/src/adapter: the world state.
use evm::backend::{Apply, Basic};
use hasher::HasherKeccak;
use parking_lot::RwLock;
use protocol::codec::ProtocolCodec;
use protocol::traits::{Backend, Context, ExecutorReadOnlyAdapter, ReadOnlyStorage, StateStorageCategory, Storage};
use protocol::trie::{self, PatriciaTrie, Trie, TrieError, DB as TrieDB};
use protocol::types::{Account, BigEndianHash, Bytes, ExecutorContext, Hasher, Log, MerkleRoot, H160, H256, NIL_DATA, RLP_NULL, U256, U64};
use protocol::{tokio, ProtocolResult};
use rocksdb::ops::{GetCF, GetColumnFamilys, PutCF, WriteOps};
use rocksdb::{ColumnFamily, WriteBatch, DB};
use std::{collections::HashMap, io, sync::Arc};

// ---- tries: everything is kept under the Keccak-256 of its key
pub struct MPTTrie<D: TrieDB>(PatriciaTrie<D, HasherKeccak>);

pub fn trie_get<D: TrieDB>(t: &MPTTrie<D>, key: &[u8]) -> Result<Option<Vec<u8>>, TrieError> { t.0.get(Hasher::digest(key).as_bytes()) }
pub fn trie_contains<D: TrieDB>(t: &MPTTrie<D>, key: &[u8]) -> Result<bool, TrieError> { t.0.contains(Hasher::digest(key).as_bytes()) }
pub fn trie_insert<D: TrieDB>(t: &mut MPTTrie<D>, key: Vec<u8>, value: Vec<u8>) -> Result<(), TrieError> { t.0.insert(Hasher::digest(key).as_bytes().to_vec(), value) }
pub fn trie_remove<D: TrieDB>(t: &mut MPTTrie<D>, key: &[u8]) -> Result<bool, TrieError> { t.0.remove(Hasher::digest(key).as_bytes()) }
pub fn trie_root<D: TrieDB>(t: &mut MPTTrie<D>) -> Result<Vec<u8>, TrieError> { t.0.root() }
pub fn trie_proof<D: TrieDB>(t: &MPTTrie<D>, key: &[u8]) -> Result<Vec<Vec<u8>>, TrieError> { t.0.get_proof(Hasher::digest(key).as_bytes()) }
pub fn trie_verify<D: TrieDB>(t: &MPTTrie<D>, root: &[u8], key: &[u8], proof: Vec<Vec<u8>>) -> Result<Option<Vec<u8>>, TrieError> {
    t.0.verify_proof(root, Hasher::digest(key).as_bytes(), proof)
}
pub fn trie_new<D: TrieDB>(db: Arc<D>) -> MPTTrie<D> { MPTTrie(PatriciaTrie::new(db, Arc::new(HasherKeccak::new()))) }
pub fn trie_at<D: TrieDB>(root: MerkleRoot, db: Arc<D>) -> ProtocolResult<MPTTrie<D>> {
    Ok(MPTTrie(PatriciaTrie::from(db, Arc::new(HasherKeccak::new()), root.as_bytes())?))
}
pub fn trie_commit<D: TrieDB>(t: &mut MPTTrie<D>) -> ProtocolResult<MerkleRoot> { Ok(H256::from_slice(&t.0.root()?)) }

// ---- the nodes of a trie: in the table of their state, a cache in front of it
pub struct RocksTrieDB {
    db:         Arc<DB>,
    category:   StateStorageCategory,
    cache:      RwLock<HashMap<Vec<u8>, Vec<u8>>>,
    cache_size: usize,
}
type Io<T> = Result<T, io::Error>;
fn bad() -> io::Error { io::Error::new(io::ErrorKind::Other, "") }

pub fn evicted<T: Clone>(keys: Vec<&T>, num: usize) -> std::vec::IntoIter<T> { unimplemented!() }

pub fn db_column(d: &RocksTrieDB) -> &ColumnFamily {
    let name = match d.category {
        StateStorageCategory::EvmState => "c8",
        StateStorageCategory::MetadataState => "c9",
        StateStorageCategory::CkbLightClientState => "c10",
    };
    d.db.cf_handle(name).unwrap()
}
pub fn db_get(d: &RocksTrieDB, key: &[u8]) -> Io<Option<Vec<u8>>> {
    if let Some(v) = d.cache.read().get(key).cloned() {
        return Ok(Some(v));
    }
    match d.db.get_cf(db_column(d), key).map_err(|_| bad())? {
        Some(v) => {
            d.cache.write().insert(key.to_vec(), v.to_vec());
            db_flush(d)?;
            Ok(Some(v.to_vec()))
        }
        None => Ok(None),
    }
}
pub fn db_contains(d: &RocksTrieDB, key: &[u8]) -> Io<bool> {
    if d.cache.read().contains_key(key) {
        return Ok(true);
    }
    match d.db.get_cf(db_column(d), key).map_err(|_| bad())? {
        Some(v) => {
            d.cache.write().insert(key.to_vec(), v.to_vec());
            Ok(true)
        }
        None => Ok(false),
    }
}
pub fn db_insert(d: &RocksTrieDB, key: Vec<u8>, value: Vec<u8>) -> Io<()> {
    d.db.put_cf(db_column(d), &key, &value).map_err(|_| bad())?;
    d.cache.write().insert(key, value);
    db_flush(d)
}
pub fn db_insert_batch(d: &RocksTrieDB, keys: Vec<Vec<u8>>, values: Vec<Vec<u8>>) -> Io<()> {
    if keys.len() != values.len() {
        return Err(bad());
    }
    let mut batch = WriteBatch::default();
    let mut cache = d.cache.write();
    for (k, v) in keys.into_iter().zip(values) {
        batch.put_cf(db_column(d), &k, &v).map_err(|_| bad())?;
        cache.insert(k, v);
    }
    drop(cache);
    d.db.write(&batch).map_err(|_| bad())?;
    db_flush(d)
}
/// nodes are shared between states: none is removed
pub fn db_remove(d: &RocksTrieDB, key: &[u8]) -> Io<()> { Ok(()) }
pub fn db_remove_batch(d: &RocksTrieDB, keys: &[Vec<u8>]) -> Io<()> { Ok(()) }
pub fn db_flush(d: &RocksTrieDB) -> Io<()> {
    let mut cache = d.cache.write();
    let n = cache.len();
    if n > d.cache_size * 2 {
        let out = evicted(cache.iter().map(|(k, _)| k).collect::<Vec<_>>(), n - d.cache_size);
        for k in out {
            cache.remove(&k);
        }
    }
    Ok(())
}
fn db_of(db: Arc<DB>, category: StateStorageCategory, cache_size: usize) -> RocksTrieDB {
    RocksTrieDB { db, category, cache: RwLock::new(HashMap::with_capacity(cache_size)), cache_size }
}
pub fn db_evm(db: Arc<DB>, n: usize) -> RocksTrieDB { db_of(db, StateStorageCategory::EvmState, n) }
pub fn db_metadata(db: Arc<DB>, n: usize) -> RocksTrieDB { db_of(db, StateStorageCategory::MetadataState, n) }
pub fn db_light_client(db: Arc<DB>, n: usize) -> RocksTrieDB { db_of(db, StateStorageCategory::CkbLightClientState, n) }

// ---- reading the state
pub struct AxonExecutorReadOnlyAdapter<S, D: TrieDB> {
    exec_ctx: ExecutorContext,
    trie:     MPTTrie<D>,
    storage:  Arc<S>,
    db:       Arc<D>,
}
type Ro<S, D> = AxonExecutorReadOnlyAdapter<S, D>;

fn empty() -> Account { Account { nonce: U256::zero(), balance: U256::zero(), storage_root: RLP_NULL, code_hash: NIL_DATA } }
fn now<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Handle::current();
    tokio::task::block_in_place(move || rt.block_on(f))
}

pub fn get_ctx<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Ro<S, D>) -> ExecutorContext { a.exec_ctx.clone() }
pub fn get<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Ro<S, D>, key: &[u8]) -> Option<Bytes> {
    match trie_get(&a.trie, key) {
        Ok(Some(v)) => Some(v.into()),
        _ => None,
    }
}
pub fn get_account<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Ro<S, D>, address: &H160) -> Account {
    match trie_get(&a.trie, address.as_bytes()) {
        Ok(Some(v)) => Account::decode(v).unwrap(),
        _ => empty(),
    }
}
macro_rules! of_context {
    ($($f:ident: $t:ty = |$c:ident| $v:expr;)*) => {
        $(pub fn $f<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Ro<S, D>) -> $t { let $c = &a.exec_ctx; $v })*
    };
}
fn low(n: U64) -> U256 { U256::from(n.low_u64()) }
of_context! {
    gas_price: U256 = |c| c.gas_price;
    origin: H160 = |c| c.origin;
    block_number: U256 = |c| c.block_number;
    block_coinbase: H160 = |c| c.block_coinbase;
    block_timestamp: U256 = |c| c.block_timestamp;
    block_difficulty: U256 = |c| U256::one();
    block_gas_limit: U256 = |c| low(c.block_gas_limit);
    block_base_fee_per_gas: U256 = |c| low(c.block_base_fee_per_gas);
    chain_id: U256 = |c| c.chain_id;
}
/// of the last 256 blocks
pub fn block_hash<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Ro<S, D>, number: U256) -> H256 {
    let n = a.exec_ctx.block_number;
    if number >= n || n - number > U256::from(256u64) {
        return H256::default();
    }
    let storage = Arc::clone(&a.storage);
    let number = number.low_u64();
    match now(storage.get_block(Context::new(), number)).unwrap() {
        Some(b) => b.hash(),
        None => H256::default(),
    }
}
pub fn exists<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Ro<S, D>, address: H160) -> bool {
    matches!(trie_contains(&a.trie, address.as_bytes()), Ok(true))
}
pub fn basic<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Ro<S, D>, address: H160) -> Basic {
    if let Ok(Some(v)) = trie_get(&a.trie, address.as_bytes()) {
        if let Ok(x) = Account::decode(v) {
            return Basic { balance: x.balance, nonce: x.nonce };
        }
    }
    Basic::default()
}
pub fn code<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Ro<S, D>, address: H160) -> Vec<u8> {
    let hash = match trie_get(&a.trie, address.as_bytes()).unwrap() {
        Some(v) => Account::decode(v).unwrap().code_hash,
        None => return vec![],
    };
    if hash == NIL_DATA {
        return vec![];
    }
    let storage = Arc::clone(&a.storage);
    let h = &hash;
    now(storage.get_code_by_hash(Context::new(), h)).unwrap().unwrap_or_default().to_vec()
}
pub fn storage<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Ro<S, D>, address: H160, index: H256) -> H256 {
    let Ok(Some(v)) = trie_get(&a.trie, address.as_bytes()) else { return H256::default() };
    let Ok(account) = Account::decode(v) else { return H256::default() };
    if account.storage_root == RLP_NULL {
        return H256::default();
    }
    let Ok(t) = trie_at(account.storage_root, Arc::clone(&a.db)) else { return H256::default() };
    match trie_get(&t, index.as_bytes()) {
        Ok(Some(v)) => BigEndianHash::from_uint(&U256::decode(v).unwrap()),
        _ => H256::default(),
    }
}
pub fn original_storage<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Ro<S, D>, address: H160, index: H256) -> Option<H256> {
    Some(storage(a, address, index))
}
pub fn ro_new<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(db: Arc<D>, storage: Arc<S>, exec_ctx: ExecutorContext) -> ProtocolResult<Ro<S, D>> {
    Ok(AxonExecutorReadOnlyAdapter { exec_ctx, trie: trie_new(Arc::clone(&db)), storage, db })
}
pub fn ro_at<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(root: MerkleRoot, db: Arc<D>, storage: Arc<S>, exec_ctx: ExecutorContext) -> ProtocolResult<Ro<S, D>> {
    Ok(AxonExecutorReadOnlyAdapter { exec_ctx, trie: trie_at(root, Arc::clone(&db))?, storage, db })
}

// ---- writing the state
pub struct AxonExecutorApplyAdapter<S, D: TrieDB> {
    inner: AxonExecutorReadOnlyAdapter<S, D>,
    logs:  Vec<Log>,
}
type Rw<S, D> = AxonExecutorApplyAdapter<S, D>;
macro_rules! read {
    ($($m:ident: $f:ident($($x:ident: $t:ty),*) -> $r:ty;)*) => {
        $(pub fn $m<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Rw<S, D> $(, $x: $t)*) -> $r { $f(&a.inner $(, $x)*) })*
    };
}
read! {
    rw_ctx: get_ctx() -> ExecutorContext;
    rw_get: get(key: &[u8]) -> Option<Bytes>;
    rw_account: get_account(x: &H160) -> Account;
    rw_gas_price: gas_price() -> U256;
    rw_origin: origin() -> H160;
    rw_block_hash: block_hash(n: U256) -> H256;
    rw_block_number: block_number() -> U256;
    rw_block_coinbase: block_coinbase() -> H160;
    rw_block_timestamp: block_timestamp() -> U256;
    rw_block_difficulty: block_difficulty() -> U256;
    rw_block_gas_limit: block_gas_limit() -> U256;
    rw_block_base_fee_per_gas: block_base_fee_per_gas() -> U256;
    rw_chain_id: chain_id() -> U256;
    rw_exists: exists(x: H160) -> bool;
    rw_basic: basic(x: H160) -> Basic;
    rw_code: code(x: H160) -> Vec<u8>;
    rw_storage: storage(x: H160, i: H256) -> H256;
    rw_original_storage: original_storage(x: H160, i: H256) -> Option<H256>;
}
pub fn set_origin<S: Storage + 'static, D: TrieDB + 'static>(a: &mut Rw<S, D>, x: H160) { a.inner.exec_ctx.origin = x }
pub fn set_gas_price<S: Storage + 'static, D: TrieDB + 'static>(a: &mut Rw<S, D>, x: U64) { a.inner.exec_ctx.gas_price = low(x) }
pub fn take_logs<S: Storage + 'static, D: TrieDB + 'static>(a: &mut Rw<S, D>) -> Vec<Log> { std::mem::take(&mut a.logs) }
pub fn commit<S: Storage + 'static, D: TrieDB + 'static>(a: &mut Rw<S, D>) -> MerkleRoot { trie_commit(&mut a.inner.trie).unwrap() }
pub fn save_account<S: Storage + 'static, D: TrieDB + 'static>(a: &mut Rw<S, D>, address: &H160, account: &Account) {
    trie_insert(&mut a.inner.trie, address.as_bytes().to_vec(), account.encode().unwrap().to_vec()).unwrap()
}
/// One account after a transaction. Says whether nothing is left of it.
pub fn apply_one<S: Storage + 'static, D: TrieDB + 'static, I: IntoIterator<Item = (H256, H256)>>(
    a: &mut Rw<S, D>, address: H160, basic: Basic, code: Option<Vec<u8>>, storage: I, reset_storage: bool,
) -> bool {
    let old = match trie_get(&a.inner.trie, address.as_bytes()) {
        Ok(Some(v)) => Account::decode(v).unwrap(),
        _ => empty(),
    };
    let mut slots = if reset_storage || old.storage_root == RLP_NULL {
        trie_new(Arc::clone(&a.inner.db))
    } else {
        trie_at(old.storage_root, Arc::clone(&a.inner.db)).unwrap()
    };
    for (k, v) in storage {
        if v == H256::zero() {
            trie_remove(&mut slots, k.as_bytes()).unwrap();
        } else {
            trie_insert(&mut slots, k.as_bytes().to_vec(), U256::from_big_endian(v.as_bytes()).encode().unwrap().to_vec()).unwrap();
        }
    }
    let storage_root = trie_commit(&mut slots).unwrap();
    let mut code_hash = old.code_hash;
    if let Some(c) = code {
        let h = Hasher::digest(&c);
        if h != old.code_hash {
            let s = Arc::clone(&a.inner.storage);
            now(s.insert_code(Context::new(), address.into(), h, c.into())).unwrap();
            code_hash = h;
        }
    }
    let new = Account { nonce: basic.nonce, balance: basic.balance, storage_root, code_hash };
    trie_insert(&mut a.inner.trie, address.as_bytes().to_vec(), new.encode().unwrap().to_vec()).unwrap();
    basic.balance == U256::zero() && basic.nonce == U256::zero() && code_hash.is_zero()
}
/// All accounts that a transaction changed, in order, and its logs.
pub fn apply<S: Storage + 'static, D: TrieDB + 'static, A, I, L>(a: &mut Rw<S, D>, values: A, logs: L, delete_empty: bool)
where
    A: IntoIterator<Item = Apply<I>>,
    I: IntoIterator<Item = (H256, H256)>,
    L: IntoIterator<Item = Log>,
{
    for v in values {
        match v {
            Apply::Delete { address } => {
                let _ = trie_remove(&mut a.inner.trie, address.as_bytes());
            }
            Apply::Modify { address, basic, code, storage, reset_storage } => {
                let nothing = apply_one(a, address, basic, code, storage, reset_storage);
                if delete_empty && nothing {
                    trie_remove(&mut a.inner.trie, address.as_bytes()).unwrap();
                }
            }
        }
    }
    a.logs = logs.into_iter().collect();
}
pub fn rw_new<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(db: Arc<D>, storage: Arc<S>, exec_ctx: ExecutorContext) -> ProtocolResult<Rw<S, D>> {
    Ok(AxonExecutorApplyAdapter { inner: ro_new(db, storage, exec_ctx)?, logs: vec![] })
}
pub fn rw_at<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(root: MerkleRoot, db: Arc<D>, storage: Arc<S>, exec_ctx: ExecutorContext) -> ProtocolResult<Rw<S, D>> {
    Ok(AxonExecutorApplyAdapter { inner: ro_at(root, db, storage, exec_ctx)?, logs: vec![] })
}

// ---- where the system contracts' records begin
use core_executor::system_contract::{HEADER_CELL_ROOT_KEY, IMAGE_CELL_CONTRACT_ADDRESS, METADATA_CONTRACT_ADDRESS, METADATA_ROOT_KEY};
pub fn metadata_root<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Ro<S, D>) -> H256 { storage(a, METADATA_CONTRACT_ADDRESS, *METADATA_ROOT_KEY) }
pub fn cell_root<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Ro<S, D>) -> H256 { storage(a, IMAGE_CELL_CONTRACT_ADDRESS, *HEADER_CELL_ROOT_KEY) }
pub fn rw_metadata_root<S: ReadOnlyStorage + 'static, D: TrieDB + 'static>(a: &Rw<S, D>) -> H256 { metadata_root(&a.inner) }
