//! core/mempool: which transactions come into the pool, and what the pool does with them.
use crate::mempool::adapter::DefaultMemPoolAdapter;
use core_executor::{is_call_system_script, AxonExecutorReadOnlyAdapter, DataProvider, MetadataHandle};
use core_interoperation::InteroperationImpl;
use common_crypto::{Crypto, Secp256k1Recoverable};
use core_network::NetworkContext;
use dashmap::DashMap;
use protocol::codec::ProtocolCodec;
use protocol::traits::{Context, Gossip, Interoperation, MemPool, MemPoolAdapter, PeerTrust, Priority, ReadOnlyStorage, Rpc};
use protocol::types::{
    recover_intact_pub_key, Backend, BatchSignedTxs, CellDepWithPubKey, Hash, MerkleRoot, PackedTxHashes, SignedTransaction, TypesError, H160, H256, U256, U64,
};
use protocol::{tokio, trie, ProtocolError, ProtocolResult};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering};
use std::sync::Arc;

pub fn bad<T>() -> ProtocolResult<T> { Err(TypesError::LengthMismatch { expect: 0, real: 0 }.into()) }

pub mod adapter {
    use super::*;
    use futures::channel::mpsc::{UnboundedReceiver, UnboundedSender};
    use std::marker::PhantomData;
    pub struct DefaultMemPoolAdapter<C, N, S, DB, I> {
        pub network: N,
        pub storage: Arc<S>,
        pub trie_db: Arc<DB>,

        pub addr_nonce:  DashMap<H160, (U64, U256)>,
        pub max_tx_size: AtomicUsize,
        pub chain_id:    u64,

        pub stx_tx: UnboundedSender<(Option<usize>, SignedTransaction)>,
        pub err_rx: parking_lot::Mutex<UnboundedReceiver<ProtocolError>>,

        pub pin_c: PhantomData<C>,
        pub pin_i: PhantomData<I>,
    }
}

/// Signed for no chain or for this one.
pub fn chain_id<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context, tx: &SignedTransaction) -> ProtocolResult<()> {
    match tx.transaction.chain_id {
        Some(id) if id != a.chain_id => bad(),
        _ => Ok(()),
    }
}
pub fn size<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context, tx: &SignedTransaction) -> ProtocolResult<()> {
    if tx.transaction.encode()?.len() > a.max_tx_size.load(Ordering::Acquire) {
        return bad();
    }
    Ok(())
}
pub fn gas_price<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, tx: &SignedTransaction) -> ProtocolResult<()> {
    let p = tx.transaction.unsigned.gas_price();
    if p.is_zero() || p >= U64::from(protocol::constants::MAX_GAS_PRICE) {
        return bad();
    }
    Ok(())
}
pub fn gas_limit<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context, tx: &SignedTransaction) -> ProtocolResult<()> {
    let g = *tx.transaction.unsigned.gas_limit();
    if g < U64::from(21_000u64) || g > U64::from(30_000_000u64) {
        return bad();
    }
    Ok(())
}
async fn state<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context) -> ProtocolResult<AxonExecutorReadOnlyAdapter<S, DB>>
where
    S: ReadOnlyStorage + 'static,
    DB: trie::DB + 'static,
{
    let root = a.storage.get_latest_block_header(ctx).await?.state_root;
    AxonExecutorReadOnlyAdapter::from_root(root, Arc::clone(&a.trie_db), Arc::clone(&a.storage), Default::default())
}
/// An Ethereum signature by secp256k1, any other by a script of a CKB cell.
pub async fn signature<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context, tx: &SignedTransaction) -> ProtocolResult<()>
where
    S: ReadOnlyStorage + 'static,
    DB: trie::DB + 'static,
{
    let s = tx.transaction.signature.clone().unwrap();
    if s.is_eth_sig() {
        let r = Secp256k1Recoverable::verify_signature(
            tx.transaction.signature_hash(true).as_bytes(),
            s.as_bytes().as_ref(),
            recover_intact_pub_key(&tx.public.unwrap()).as_bytes(),
        );
        return match r {
            Ok(_) => Ok(()),
            Err(_) => bad(),
        };
    }
    let root = state(a, ctx).await?.get_image_cell_root();
    let r = match rlp::decode::<CellDepWithPubKey>(&s.r[1..]) {
        Ok(r) => r,
        Err(_) => return bad(),
    };
    match InteroperationImpl::call_ckb_vm(Default::default(), &DataProvider::new(root), r.cell_dep, &[r.pub_key, s.s], u64::MAX) {
        Ok(_) => Ok(()),
        Err(_) => bad(),
    }
}
pub async fn transaction<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context, tx: &SignedTransaction) -> ProtocolResult<()>
where
    S: ReadOnlyStorage + 'static,
    DB: trie::DB + 'static,
{
    if tx.transaction.signature.is_none() || tx.public.is_none() {
        return bad();
    }
    chain_id(a, ctx.clone(), tx)?;
    size(a, ctx.clone(), tx)?;
    gas_price(a, tx)?;
    gas_limit(a, ctx.clone(), tx)?;
    signature(a, ctx, tx).await
}
/// System contracts are called by validators of the next block only.
pub async fn system_authorization<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context, tx: &SignedTransaction) -> ProtocolResult<U64>
where
    S: ReadOnlyStorage + 'static,
    DB: trie::DB + 'static,
{
    let next = a.storage.get_latest_block(ctx.clone()).await?.header.number + 1;
    let root = state(a, ctx).await?.get_metadata_root();
    if MetadataHandle::new(root).is_validator(next, tx.sender)? {
        Ok(U64::zero())
    } else {
        bad()
    }
}
/// How far the nonce is ahead of the account's; it is not behind, and the account can pay what the transaction may cost.
pub async fn authorization<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context, tx: &SignedTransaction) -> ProtocolResult<U64>
where
    S: ReadOnlyStorage + 'static,
    DB: trie::DB + 'static,
{
    let u = &tx.transaction.unsigned;
    if is_call_system_script(u.action())? {
        return system_authorization(a, ctx, tx).await;
    }
    if let Some(known) = a.addr_nonce.get(&tx.sender) {
        if *u.nonce() < known.value().0 || known.value().1 < u.may_cost()? {
            return bad();
        }
        return Ok(u.nonce() - known.value().0);
    }
    let account = state(a, ctx).await?.basic(tx.sender);
    let nonce = account.nonce.low_u64();
    a.addr_nonce.insert(tx.sender, (nonce.into(), account.balance));
    if u.nonce().low_u64() < nonce || account.balance < u.may_cost()? {
        return bad();
    }
    Ok(u.nonce() - nonce)
}
pub async fn not_committed<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context, hash: &Hash) -> ProtocolResult<()>
where
    S: ReadOnlyStorage + 'static,
{
    match a.storage.get_transaction_by_hash(ctx, hash).await? {
        Some(_) => bad(),
        None => Ok(()),
    }
}
pub async fn height<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context) -> ProtocolResult<u64>
where
    S: ReadOnlyStorage + 'static,
{
    Ok(a.storage.get_latest_block_header(ctx).await?.number)
}
pub fn set_args<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context, root: MerkleRoot, limit: u64, max: u64) {
    a.max_tx_size.store(max as usize, Ordering::Release);
    a.addr_nonce.clear()
}
/// Whoever sent a good transaction is told on well.
pub fn report_good<C, N: PeerTrust, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context) {
    if ctx.get::<usize>("txs_original") == Some(&1) {
        a.network.report(ctx, protocol::traits::TrustFeedback::Good)
    }
}
pub fn forget<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>) { a.addr_nonce.clear() }

// ---- lib.rs
use crate::mempool::pool::PriorityPool;
pub struct MemPoolImpl<A> {
    pool:    PriorityPool,
    adapter: Arc<A>,
}
async fn checked<A: MemPoolAdapter>(a: &A, ctx: Context, tx: &SignedTransaction) -> ProtocolResult<U64> {
    let ahead = a.check_authorization(ctx.clone(), tx).await?;
    a.check_transaction(ctx.clone(), tx).await?;
    a.check_storage_exist(ctx, &tx.transaction.hash).await?;
    Ok(ahead)
}
/// What a full pool, the chain or the checks refuse does not come in, and what came in is passed on, except to its sender.
pub async fn insert<A: MemPoolAdapter + 'static>(m: &MemPoolImpl<A>, ctx: Context, tx: SignedTransaction) -> ProtocolResult<()> {
    let system = is_call_system_script(tx.transaction.unsigned.action())?;
    if pool::reach_limit(&m.pool).is_err() {
        return bad();
    }
    if pool::contains(&m.pool, &tx.transaction.hash) {
        return Ok(());
    }
    let ahead = checked(&*m.adapter, ctx.clone(), &tx).await?;
    if system {
        pool::insert_system(&m.pool, tx.clone())?;
    } else {
        pool::insert(&m.pool, tx.clone(), true, ahead)?;
    }
    if ctx.get::<usize>("txs_original") == Some(&1) {
        let origin = ctx.session_id().unwrap();
        m.adapter.broadcast_tx(ctx.clone(), Some(origin.value()), tx).await?;
        m.adapter.report_good(ctx);
        Ok(())
    } else {
        m.adapter.broadcast_tx(ctx, None, tx).await
    }
}
pub async fn initial<A: MemPoolAdapter + 'static>(m: &MemPoolImpl<A>, ctx: Context, tx: SignedTransaction) -> ProtocolResult<()> {
    m.adapter.check_storage_exist(ctx, &tx.transaction.hash).await?;
    pool::insert(&m.pool, tx, true, U64::zero())
}
/// The pool begins with the transactions it is given, those which it would take at all.
pub async fn begin<A: MemPoolAdapter + 'static>(size: usize, timeout: u64, adapter: A, txs: Vec<SignedTransaction>) -> MemPoolImpl<A> {
    let m = MemPoolImpl { pool: pool::fresh(size, timeout).await, adapter: Arc::new(adapter) };
    for tx in txs {
        let _ = initial(&m, Context::new(), tx).await;
    }
    m
}
pub fn len<A>(m: &MemPoolImpl<A>) -> usize { m.pool.stock_len.load(Ordering::Acquire) }
pub async fn contains<A>(m: &MemPoolImpl<A>, _ctx: Context, hash: &Hash) -> bool { pool::contains(&m.pool, hash) }
pub async fn package<A>(m: &MemPoolImpl<A>, _ctx: Context, limit: U256, n: u64) -> ProtocolResult<PackedTxHashes> { Ok(pool::package(&m.pool, limit, n as usize)) }
pub async fn flush<A: MemPoolAdapter>(m: &MemPoolImpl<A>, _ctx: Context, hashes: &[Hash], number: u64) -> ProtocolResult<()> {
    m.adapter.clear_nonce_cache();
    pool::flush(&m.pool, hashes, number);
    Ok(())
}
pub async fn full_txs<A: MemPoolAdapter>(m: &MemPoolImpl<A>, ctx: Context, height: Option<u64>, hashes: &[Hash]) -> ProtocolResult<Vec<SignedTransaction>> {
    let mut missing = vec![];
    let mut txs = vec![];
    for h in hashes {
        match pool::by_hash(&m.pool, h) {
            Some(tx) => txs.push(tx),
            None => missing.push(*h),
        }
    }
    if !missing.is_empty() {
        txs.extend(m.adapter.get_transactions_from_storage(ctx, height, &missing).await?.into_iter().flatten());
    }
    if txs.len() == hashes.len() {
        Ok(txs)
    } else {
        bad()
    }
}
pub fn no_repeats(hashes: &[Hash]) -> ProtocolResult<()> {
    let mut seen = HashSet::new();
    for h in hashes {
        if seen.contains(h) {
            return bad();
        }
        seen.insert(h);
    }
    Ok(())
}
pub async fn verify_all<A: MemPoolAdapter + 'static>(m: &MemPoolImpl<A>, ctx: Context, txs: Vec<SignedTransaction>) -> ProtocolResult<Vec<U64>> {
    let tasks = txs
        .into_iter()
        .map(|tx| {
            let adapter = Arc::clone(&m.adapter);
            let ctx = ctx.clone();
            tokio::spawn(async move { checked(&*adapter, ctx, &tx).await })
        })
        .collect::<Vec<tokio::task::JoinHandle<Result<U64, ProtocolError>>>>();
    let done = match futures::future::try_join_all(tasks).await {
        Ok(d) => d,
        Err(_) => return bad(),
    };
    done.into_iter().collect::<Result<Vec<U64>, ProtocolError>>()
}
/// The transactions of a block are all known, or are fetched and checked like any other.
pub async fn ensure<A: MemPoolAdapter + 'static>(m: &MemPoolImpl<A>, ctx: Context, height: Option<u64>, hashes: &[Hash]) -> ProtocolResult<()> {
    no_repeats(hashes)?;
    let unknown = hashes.iter().filter(|h| !pool::contains(&m.pool, h)).cloned().collect::<Vec<_>>();
    if unknown.is_empty() {
        return Ok(());
    }
    let n = unknown.len();
    let txs = m.adapter.pull_txs(ctx.clone(), height, unknown.clone()).await?;
    if txs.len() != n {
        return bad();
    }
    let have: HashSet<Hash> = txs.iter().map(|t| t.transaction.hash).collect();
    for h in unknown.iter() {
        if !have.contains(h) {
            return bad();
        }
    }
    let ahead = verify_all(m, ctx.clone(), txs.clone()).await?;
    for (tx, a) in txs.into_iter().zip(ahead) {
        if is_call_system_script(tx.transaction.unsigned.action())? {
            pool::insert_system(&m.pool, tx)?;
        } else {
            pool::insert(&m.pool, tx, false, a)?;
        }
    }
    m.adapter.report_good(ctx);
    Ok(())
}
pub async fn count<A>(m: &MemPoolImpl<A>, _ctx: Context, address: H160) -> ProtocolResult<(usize, Option<u64>)> { Ok(pool::count(&m.pool, address)) }
pub fn from_mem<A>(m: &MemPoolImpl<A>, _ctx: Context, hash: &Hash) -> Option<SignedTransaction> { pool::by_hash(&m.pool, hash) }
pub fn mem_args<A: MemPoolAdapter>(m: &MemPoolImpl<A>, ctx: Context, root: H256, limit: u64, max: u64) { m.adapter.set_args(ctx, root, limit, max) }

// ---- tx_wrapper.rs
pub mod tx_wrapper {
    use super::*;
    pub type TxPtr = Arc<TxWrapper>;
    /// 1: given to the list to be packed, 16: dropped
    pub struct TxWrapper {
        pub state: AtomicU8,
        pub tx:    SignedTransaction,
    }
    pub struct PendingQueue {
        pub queue:             BTreeMap<U64, TxPtr>,
        pub pop_tip_nonce:     U64,
        pub current_tip_nonce: U64,
        pub need_remove:       bool,
    }
    impl Default for PendingQueue { fn default() -> Self { unimplemented!() } }
    pub fn wrap(tx: SignedTransaction) -> TxWrapper { TxWrapper { state: AtomicU8::new(0), tx } }
    pub fn order(a: &TxWrapper, b: &TxWrapper) -> std::cmp::Ordering {
        if a.tx.sender == b.tx.sender {
            a.tx.transaction.unsigned.nonce().cmp(b.tx.transaction.unsigned.nonce())
        } else {
            a.tx.transaction.unsigned.gas_price().cmp(&b.tx.transaction.unsigned.gas_price())
        }
    }
    pub fn same(a: &TxWrapper, b: &TxWrapper) -> bool { a.tx.transaction.hash == b.tx.transaction.hash }
    pub fn dropped(t: &TxWrapper) -> bool { t.state.load(Ordering::Acquire) & 16 == 16 }
    pub fn drop_it(t: &TxWrapper) { t.state.fetch_or(16, Ordering::AcqRel); }
    fn pack_it(t: &TxWrapper) { t.state.fetch_or(1, Ordering::AcqRel); }
    fn packed(t: &TxWrapper) -> bool { t.state.load(Ordering::Acquire) & 1 == 1 }
    /// Says whether the transaction takes the place of one that is to be packed. The better paid of two with one nonce stays.
    pub fn insert(q: &mut PendingQueue, tx: TxPtr, ahead: U64) -> bool {
        let nonce = *tx.tx.transaction.unsigned.nonce();
        let tip = nonce - ahead;
        if nonce < q.current_tip_nonce {
            drop_it(&tx);
            return false;
        }
        if tip > q.current_tip_nonce {
            q.pop_tip_nonce = tip;
            q.current_tip_nonce = tip;
        }
        use std::collections::btree_map::Entry;
        match q.queue.entry(nonce) {
            Entry::Vacant(v) => {
                v.insert(tx);
                false
            }
            Entry::Occupied(mut o) => {
                if o.get().tx.transaction.unsigned.gas_price() >= tx.tx.transaction.unsigned.gas_price() {
                    drop_it(&tx);
                    return false;
                }
                let old = o.insert(Arc::clone(&tx));
                drop_it(&old);
                if packed(&old) {
                    pack_it(&tx);
                    true
                } else {
                    false
                }
            }
        }
    }
    /// Those that follow the last one without a gap are to be packed, each once.
    pub fn search(q: &mut PendingQueue, list: &mut Vec<TxPtr>) {
        use std::ops::Bound::{Included, Unbounded};
        let mut next = q.pop_tip_nonce;
        for (nonce, tx) in q.queue.range((Included(next), Unbounded)) {
            if *nonce != next {
                break;
            }
            next = next + 1;
            if !packed(tx) {
                pack_it(tx);
                list.push(Arc::clone(tx));
            }
        }
        q.pop_tip_nonce = next;
    }
    pub fn clear(q: &mut PendingQueue) {
        if q.queue.is_empty() {
            q.need_remove = true
        }
        q.queue.retain(|_, t| !dropped(t));
    }
    pub fn drop_to(q: &mut PendingQueue, nonce: U64) {
        use std::ops::Bound::Included;
        for (_, t) in q.queue.range((Included(U64::zero()), Included(nonce))) {
            drop_it(t);
        }
        q.pop_tip_nonce = nonce + 1;
        q.current_tip_nonce = nonce + 1;
    }
    pub fn count(q: &PendingQueue) -> usize { q.queue.values().filter(|t| !dropped(t)).count() }
}

// ---- pool.rs
pub mod pool {
    use super::tx_wrapper::{drop_it, dropped, PendingQueue, TxPtr, TxWrapper};
    use super::*;
    use crossbeam_queue::ArrayQueue;
    use parking_lot::{Mutex, RwLock};
    use protocol::types::Bytes;
    pub struct PriorityPool {
        pub sys_tx_bucket:  BuiltInContractTxBucket,
        pub pending_queue:  Arc<DashMap<H160, PendingQueue>>,
        pub co_queue:       Arc<ArrayQueue<(TxPtr, U64)>>,
        pub real_queue:     Arc<Mutex<Vec<TxPtr>>>,
        pub tx_map:         DashMap<Hash, TxPtr>,
        pub stock_len:      AtomicUsize,
        pub timeout_gap:    Mutex<BTreeMap<u64, HashSet<Hash>>>,
        pub timeout_config: u64,
        pub flush_lock:     Arc<RwLock<()>>,
    }
    pub struct BuiltInContractTxBucket {
        pub hash_data_map: DashMap<Hash, Bytes>,
        pub tx_buckets:    DashMap<Bytes, BTreeMap<Hash, SignedTransaction>>,
    }
    /// An empty pool, and someone who drains what has come in again and again.
    pub async fn fresh(size: usize, timeout_config: u64) -> PriorityPool {
        let p = PriorityPool {
            sys_tx_bucket: BuiltInContractTxBucket { hash_data_map: DashMap::new(), tx_buckets: DashMap::new() },
            pending_queue: Arc::new(DashMap::new()),
            co_queue: Arc::new(ArrayQueue::new(size)),
            real_queue: Arc::new(Mutex::new(Vec::new())),
            tx_map: DashMap::new(),
            stock_len: AtomicUsize::new(0),
            timeout_gap: Mutex::new(BTreeMap::new()),
            timeout_config,
            flush_lock: Arc::new(RwLock::new(())),
        };
        let (come, ready, all, lock) = (Arc::clone(&p.co_queue), Arc::clone(&p.real_queue), Arc::clone(&p.pending_queue), Arc::clone(&p.flush_lock));
        tokio::spawn(async move {
            loop {
                if !come.is_empty() {
                    let _lock = lock.read();
                    let mut list = ready.lock();
                    for _ in 0..come.len() {
                        let (tx, ahead) = come.pop().unwrap();
                        let mut q = all.entry(tx.tx.sender).or_default();
                        if q.queue.len() > 64 {
                            drop_it(&tx);
                            continue;
                        }
                        if tx_wrapper::insert(&mut q, Arc::clone(&tx), ahead) {
                            list.push(tx);
                        }
                        tx_wrapper::search(&mut q, &mut list);
                    }
                }
                tokio::time::sleep(std::time::Duration::from_millis(50)).await;
            }
        });
        p
    }
    pub fn count(p: &PriorityPool, a: H160) -> (usize, Option<u64>) {
        let number = p.timeout_gap.lock().last_entry().map(|e| *e.key());
        match p.pending_queue.get(&a) {
            Some(q) => (tx_wrapper::count(&q), number),
            None => (0, number),
        }
    }
    pub fn reach_limit(p: &PriorityPool) -> Result<usize, usize> {
        let n = p.stock_len.load(Ordering::Acquire);
        if n > p.co_queue.capacity() {
            Err(n)
        } else {
            Ok(n)
        }
    }
    pub fn contains(p: &PriorityPool, hash: &Hash) -> bool {
        let _lock = p.flush_lock.read();
        p.tx_map.contains_key(hash) || bucket_has(&p.sys_tx_bucket, hash)
    }
    pub fn by_hash(p: &PriorityPool, hash: &Hash) -> Option<SignedTransaction> {
        let _lock = p.flush_lock.read();
        match p.tx_map.get(hash) {
            Some(t) => Some(t.value().tx.clone()),
            None => bucket_get(&p.sys_tx_bucket, hash),
        }
    }
    pub fn insert_system(p: &PriorityPool, tx: SignedTransaction) -> ProtocolResult<()> {
        let _lock = p.flush_lock.read();
        if bucket_insert(&p.sys_tx_bucket, tx) {
            p.stock_len.fetch_add(1, Ordering::AcqRel);
        }
        Ok(())
    }
    /// A place is taken first, and given back when the transaction is there already.
    pub fn insert(p: &PriorityPool, tx: SignedTransaction, check: bool, ahead: U64) -> ProtocolResult<()> {
        let place = p.stock_len.fetch_update(Ordering::AcqRel, Ordering::Acquire, |n| {
            if check && n >= p.co_queue.capacity() {
                None
            } else {
                Some(n + 1)
            }
        });
        if place.is_err() {
            return bad();
        }
        let _lock = p.flush_lock.read();
        if !check && p.co_queue.is_full() {
            drain(p)
        }
        let t = Arc::new(tx_wrapper::wrap(tx));
        match p.tx_map.entry(t.tx.transaction.hash) {
            dashmap::mapref::entry::Entry::Occupied(_) => {
                p.stock_len.fetch_sub(1, Ordering::AcqRel);
            }
            dashmap::mapref::entry::Entry::Vacant(v) => {
                v.insert(Arc::clone(&t));
                let _ = p.co_queue.push((t, ahead));
            }
        }
        Ok(())
    }
    /// New transactions join the others of their sender, of which there are up to 65.
    pub fn drain(p: &PriorityPool) {
        let mut list = p.real_queue.lock();
        for _ in 0..p.co_queue.len() {
            let (tx, ahead) = p.co_queue.pop().unwrap();
            let mut q = p.pending_queue.entry(tx.tx.sender).or_default();
            if q.queue.len() > 64 {
                drop_it(&tx);
                continue;
            }
            if tx_wrapper::insert(&mut q, Arc::clone(&tx), ahead) {
                list.push(tx);
            }
            tx_wrapper::search(&mut q, &mut list);
        }
    }
    /// System transactions first, one for each data, then others in order, as many as asked for.
    pub fn package(p: &PriorityPool, _limit: U256, n: usize) -> PackedTxHashes {
        let _lock = p.flush_lock.read();
        let mut hashes = bucket_package(&p.sys_tx_bucket);
        let call_system_script_count = hashes.len() as u32;
        if !p.co_queue.is_empty() {
            drain(p)
        }
        let mut list = p.real_queue.lock();
        list.sort_unstable();
        hashes.extend(list.iter().filter(|t| !dropped(t)).map(|t| t.tx.transaction.hash).take(n));
        PackedTxHashes { hashes, call_system_script_count }
    }

    /// What a block has leaves the pool, with all of its sender up to the nonce, all that was there `timeout_config` blocks ago, and all that was dropped.
    pub fn flush(p: &PriorityPool, hashes: &[Hash], number: u64) {
        use std::collections::hash_map::Entry;
        let _lock = p.flush_lock.write();
        drain(p);
        let mut left = 0;
        let mut list = p.real_queue.lock();
        let mut seen = p.timeout_gap.lock();
        let mut tips: HashMap<H160, U64> = HashMap::new();
        for hash in hashes {
            if let Some((_, t)) = p.tx_map.remove(hash) {
                let nonce = *t.tx.transaction.unsigned.nonce();
                match tips.entry(t.tx.sender) {
                    Entry::Occupied(mut v) => {
                        if *v.get() < nonce {
                            v.insert(nonce);
                        }
                    }
                    Entry::Vacant(v) => {
                        v.insert(nonce);
                    }
                }
                left += 1;
            }
        }
        for (who, nonce) in tips {
            if let Some(mut q) = p.pending_queue.get_mut(&who) {
                tx_wrapper::drop_to(q.value_mut(), nonce);
            }
        }
        let old = if number >= p.timeout_config { seen.remove(&(number.saturating_sub(p.timeout_config))).unwrap_or_default() } else { HashSet::new() };
        let mut kept = vec![];
        p.tx_map.retain(|hash, t| {
            if dropped(t) || (!old.is_empty() && old.contains(&t.tx.transaction.hash)) {
                drop_it(t);
                left += 1;
                false
            } else {
                kept.push(*hash);
                true
            }
        });
        seen.entry(number).or_default().extend(kept);
        list.retain(|t| !dropped(t));
        p.pending_queue.retain(|_, q| {
            tx_wrapper::clear(q);
            !q.need_remove
        });
        bucket_flush(&p.sys_tx_bucket, hashes, &mut left);
        if left != 0 {
            p.stock_len.fetch_sub(left, Ordering::AcqRel);
        }
    }

    // one transaction for each data is packed; the block that has it clears the others
    pub fn bucket_insert(b: &BuiltInContractTxBucket, tx: SignedTransaction) -> bool {
        let data: Bytes = tx.transaction.unsigned.data().to_vec().into();
        let hash = tx.transaction.hash;
        b.hash_data_map.insert(hash, data.clone());
        b.tx_buckets.entry(data).or_insert_with(BTreeMap::new).insert(hash, tx).is_none()
    }
    pub fn bucket_flush(b: &BuiltInContractTxBucket, hashes: &[Hash], left: &mut usize) {
        for hash in hashes {
            if let Some((_, data)) = b.hash_data_map.remove(hash) {
                if let Some((_, txs)) = b.tx_buckets.remove(&data) {
                    *left += txs.len();
                    for h in txs.keys() {
                        b.hash_data_map.remove(h);
                    }
                }
            }
        }
    }
    pub fn bucket_package(b: &BuiltInContractTxBucket) -> Vec<Hash> { b.tx_buckets.iter().map(|e| *e.value().iter().take(1).next().unwrap().0).collect() }
    pub fn bucket_get(b: &BuiltInContractTxBucket, hash: &Hash) -> Option<SignedTransaction> {
        let data = b.hash_data_map.get(hash)?;
        let txs = b.tx_buckets.get(data.value())?;
        txs.value().get(hash).cloned()
    }
    pub fn bucket_has(b: &BuiltInContractTxBucket, hash: &Hash) -> bool {
        match b.hash_data_map.get(hash) {
            Some(data) => match b.tx_buckets.get(data.value()) {
                Some(txs) => txs.contains_key(hash),
                None => false,
            },
            None => false,
        }
    }
}
impl PartialEq for tx_wrapper::TxWrapper { fn eq(&self, o: &Self) -> bool { tx_wrapper::same(self, o) } }
impl Eq for tx_wrapper::TxWrapper {}
impl PartialOrd for tx_wrapper::TxWrapper { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for tx_wrapper::TxWrapper { fn cmp(&self, o: &Self) -> std::cmp::Ordering { tx_wrapper::order(self, o) } }

/// Messages between nodes about transactions.
pub mod message {
    use super::*;
    use protocol::traits::{MessageHandler, TrustFeedback};
    #[derive(Clone, Debug, Hash, rlp_derive::RlpEncodable, rlp_derive::RlpDecodable)]
    pub struct MsgPullTxs {
        pub height: Option<u64>,
        pub hashes: Vec<Hash>,
    }
    pub struct NewTxsHandler<M> {
        pub mem_pool: Arc<M>,
    }
    pub struct PullTxsHandler<N, M> {
        pub network:  Arc<N>,
        pub mem_pool: Arc<M>,
    }
    /// Each of them is put into the pool, marked as coming from another node.
    pub async fn new_txs<M: MemPool + 'static>(h: &NewTxsHandler<M>, ctx: Context, msg: BatchSignedTxs) -> TrustFeedback {
        let ctx = ctx.with_value::<usize>("txs_original", 1);
        let tasks = msg
            .inner()
            .into_iter()
            .map(|tx| {
                let (pool, ctx) = (Arc::clone(&h.mem_pool), ctx.clone());
                tokio::spawn(async move {
                    let _ = pool.insert(ctx, tx).await;
                })
            })
            .collect::<Vec<_>>();
        let _ = futures::future::try_join_all(tasks).await;
        TrustFeedback::Neutral
    }
    pub async fn pull<N: Rpc + 'static, M: MemPool + 'static>(h: &PullTxsHandler<N, M>, ctx: Context, msg: MsgPullTxs) -> TrustFeedback {
        let txs = h.mem_pool.get_full_txs(ctx.clone(), msg.height, &msg.hashes).await.map(BatchSignedTxs::new);
        let _ = h.network.response::<BatchSignedTxs>(ctx, "/rpc_resp/mempool/pull_txs", txs, Priority::High).await;
        TrustFeedback::Neutral
    }
    pub async fn pull_txs<C, N: Rpc, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context, height: Option<u64>, hashes: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> {
        Ok(a.network.call::<MsgPullTxs, BatchSignedTxs>(ctx, "/rpc_call/mempool/pull_txs", MsgPullTxs { height, hashes }, Priority::High).await?.inner())
    }
    /// Handed to the broadcaster; an error it had before is told.
    pub async fn broadcast<C, N, S, DB, I>(a: &DefaultMemPoolAdapter<C, N, S, DB, I>, _ctx: Context, origin: Option<usize>, tx: SignedTransaction) -> ProtocolResult<()> {
        if a.stx_tx.unbounded_send((origin, tx)).is_err() {
            return bad();
        }
        if let Some(mut errors) = a.err_rx.try_lock() {
            if let Ok(Some(e)) = errors.try_next() {
                return Err(e);
            }
        }
        Ok(())
    }
    pub async fn stored<C, N, S: ReadOnlyStorage + 'static, DB, I>(
        a: &DefaultMemPoolAdapter<C, N, S, DB, I>, ctx: Context, height: Option<u64>, hashes: &[Hash],
    ) -> ProtocolResult<Vec<Option<SignedTransaction>>> {
        match height {
            Some(n) => a.storage.get_transactions(ctx, n, hashes).await,
            None => futures::future::try_join_all(hashes.iter().map(|h| a.storage.get_transaction_by_hash(ctx.clone(), h)).collect::<Vec<_>>()).await,
        }
    }
    /// What came from one node goes to all the others, together.
    pub async fn gossip<G: Gossip + Unpin>(
        cache: &mut HashMap<Option<usize>, Vec<SignedTransaction>>, gossip: &G, errors: futures::channel::mpsc::UnboundedSender<ProtocolError>,
    ) {
        if cache.is_empty() {
            return;
        }
        for (origin, txs) in cache.drain() {
            if let Err(e) = gossip.gossip(Context::new(), origin, "/gossip/mempool/new_txs", BatchSignedTxs(txs), Priority::Normal).await {
                let _ = errors.unbounded_send(e);
            }
        }
    }
    /// Gathered until there are enough, or until it is time.
    pub async fn gather<G: Gossip + Clone + Unpin + 'static>(
        rx: futures::channel::mpsc::UnboundedReceiver<(Option<usize>, SignedTransaction)>, every: u64, enough: usize, to: G, errors: futures::channel::mpsc::UnboundedSender<ProtocolError>,
    ) {
        use futures::StreamExt;
        use protocol::tokio;
        let mut rx = rx;
        let mut cache: HashMap<Option<usize>, Vec<SignedTransaction>> = HashMap::with_capacity(10);
        let mut tick = tokio::time::interval(std::time::Duration::from_millis(every));
        tick.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
        loop {
            tokio::select! {
                next = rx.next() => {
                    if let Some((origin, tx)) = next {
                        cache.entry(origin).or_default().push(tx);
                        if cache.values().map(|l| l.len()).sum::<usize>() == enough {
                            gossip(&mut cache, &to, errors.clone()).await
                        }
                    }
                },
                _ = tick.tick() => gossip(&mut cache, &to, errors.clone()).await,
                else => break,
            };
        }
    }
    /// An adapter knows no account yet, and starts one who gathers what is to be broadcast.
    pub fn adapter<C, N: Gossip + Clone + Unpin + 'static, S, DB, I>(network: N, storage: Arc<S>, trie_db: Arc<DB>, chain_id: u64, max: usize, enough: usize, every: u64) -> DefaultMemPoolAdapter<C, N, S, DB, I> {
        let (tx, rx) = futures::channel::mpsc::unbounded();
        let (errors, failed) = futures::channel::mpsc::unbounded();
        protocol::tokio::spawn(gather(rx, every, enough, network.clone(), errors));
        DefaultMemPoolAdapter {
            network, storage, trie_db, chain_id,
            addr_nonce: DashMap::new(),
            max_tx_size: AtomicUsize::new(max),
            stx_tx: tx,
            err_rx: parking_lot::Mutex::new(failed),
            pin_c: std::marker::PhantomData,
            pin_i: std::marker::PhantomData,
        }
    }
}
