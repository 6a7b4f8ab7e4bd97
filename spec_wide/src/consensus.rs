//! core/consensus: what is voted for, what a decision does, what synchronization accepts, and what is kept over a crash.
use crate::consensus::engine::ConsensusEngine;
use common_crypto::BlsPublicKey;
use common_merkle::TrieMerkle;
use core_consensus::status::{CurrentStatus, StatusAgent};
use core_consensus::util::time_now;
use core_executor::MetadataHandle;
use overlord::DurationConfig;
use overlord::types::{Commit, Node, OverlordMsg, Status};
use protocol::codec::ProtocolCodec;
use protocol::constants::endpoints::*;
use protocol::constants::{BASE_FEE_PER_GAS, MAX_BLOCK_GAS_LIMIT};
use protocol::traits::{ConsensusAdapter, Context, MessageTarget};
use protocol::types::{
    Block, BlockVersion, Bytes, ConsensusValidator, ExecResp, ExtraData, HardforkInfoInner, Hash, Hasher, Metadata, Proof, Proposal, SignedTransaction, TypesError,
    ValidatorExtend, RLP_EMPTY_LIST, RLP_NULL,
};
use protocol::{ProtocolError, ProtocolResult};
use rlp::Encodable;
use std::collections::HashMap;
use std::error::Error;

pub fn bad<T>() -> ProtocolResult<T> { Err(TypesError::LengthMismatch { expect: 0, real: 0 }.into()) }
pub fn worse<T>() -> Result<T, Box<dyn Error + Send>> { Err(ProtocolError::from(TypesError::LengthMismatch { expect: 0, real: 0 }).into()) }

pub mod engine {
    use core_consensus::{stop_signal::StopSignal, util::OverlordCrypto, wal::{ConsensusWal, SignedTxsWAL}};
    use core_consensus::status::StatusAgent;
    use parking_lot::RwLock;
    use protocol::{tokio::sync::Mutex, traits::NodeInfo, types::Hash};
    use std::{collections::HashSet, sync::Arc};
    pub struct ConsensusEngine<Adapter> {
        pub status:         StatusAgent,
        pub node_info:      NodeInfo,
        pub exemption_hash: RwLock<HashSet<Hash>>,

        pub adapter: Arc<Adapter>,
        pub txs_wal: Arc<SignedTxsWAL>,
        pub crypto:  Arc<OverlordCrypto>,
        pub lock:    Arc<Mutex<()>>,

        pub last_commit_time:             RwLock<u64>,
        pub consensus_wal:                Arc<ConsensusWal>,
        pub last_check_block_fail_reason: RwLock<String>,

        pub stop_signal: StopSignal,
    }
}

/// The root over a block's transaction hashes in their order.
pub fn transactions_root(hashes: &[Hash]) -> Hash {
    if hashes.is_empty() {
        return RLP_NULL;
    }
    TrieMerkle::from_iter(hashes.iter().enumerate()).root_hash().unwrap()
}
/// The digest of the transactions themselves.
pub fn digest(txs: &[SignedTransaction]) -> Hash {
    match txs.len() {
        0 => RLP_EMPTY_LIST,
        _ => Hasher::digest(rlp::encode_list(txs)),
    }
}

/// A proposal built on the last committed block, from what the pool packages.
pub async fn get_block<A: ConsensusAdapter + 'static>(e: &ConsensusEngine<A>, ctx: Context, number: u64) -> Result<(Proposal, Bytes), Box<dyn Error + Send>> {
    let st = e.status.inner();
    let packed = e.adapter.get_txs_from_mempool(ctx.clone(), number, MAX_BLOCK_GAS_LIMIT.into(), st.tx_num_limit).await?;
    let txs = e.adapter.get_full_txs(ctx.clone(), &packed.hashes).await?;
    let root = transactions_root(&packed.hashes);
    let mut passed = false;
    let extra_data = {
        let mut own = e.node_info.hardfork_proposals.write().unwrap();
        match &*own {
            None => vec![],
            Some(h) if h.block_number <= number => {
                own.take();
                passed = true;
                vec![]
            }
            Some(h) => vec![ExtraData { inner: h.encode().unwrap() }],
        }
    };
    if passed {
        e.adapter.remove_hardfork_proposal(ctx.clone()).await?;
    }
    let p = Proposal {
        version: BlockVersion::V0,
        chain_id: e.node_info.chain_id,
        number,
        proposer: e.node_info.self_address.0,
        prev_hash: st.prev_hash,
        prev_state_root: st.last_state_root,
        transactions_root: root,
        signed_txs_hash: digest(&txs),
        timestamp: time_now(),
        gas_limit: MAX_BLOCK_GAS_LIMIT.into(),
        base_fee_per_gas: BASE_FEE_PER_GAS.into(),
        extra_data,
        proof: st.proof,
        call_system_script_count: packed.call_system_script_count,
        tx_hashes: packed.hashes,
    };
    if p.proof.number + 1 != number {
        return worse();
    }
    let hash = p.hash();
    e.exemption_hash.write().insert(hash);
    Ok((p, Bytes::from(hash.as_bytes().to_vec())))
}

/// A node votes for a proposal only if this gives Ok.
pub async fn check_block<A: ConsensusAdapter + 'static>(e: &ConsensusEngine<A>, ctx: Context, number: u64, hash: Bytes, p: Proposal) -> Result<(), Box<dyn Error + Send>> {
    let own = p.hash();
    if hash.as_ref() != own.as_bytes() {
        return worse();
    }
    if p.number != number {
        return worse();
    }
    match p.proof.number.checked_add(1) {
        Some(n) if n == p.number => (),
        _ => return worse(),
    }
    if let Some(t) = p.extra_data.get(0) {
        let info = match HardforkInfoInner::decode(&t.inner) {
            Ok(i) => i,
            Err(_) => return worse(),
        };
        match e.node_info.hardfork_proposals.read().unwrap().as_ref() {
            Some(mine) if &info == mine => (),
            _ => return worse(),
        }
    }
    let mine = { e.exemption_hash.read().contains(&own) };
    if !mine {
        inner_check(e, ctx.clone(), &p).await?;
    }
    let txs = e.adapter.get_full_txs(ctx, &p.tx_hashes).await?;
    e.txs_wal.save(number, p.transactions_root, txs)?;
    Ok(())
}

/// What another node proposes.
pub async fn inner_check<A: ConsensusAdapter + 'static>(e: &ConsensusEngine<A>, ctx: Context, p: &Proposal) -> ProtocolResult<()> {
    let now = time_now();
    e.adapter.verify_block_header(ctx.clone(), p).await?;
    chosen_by_nobody(e, p).await?;
    let prev = e.adapter.get_block_by_number(ctx.clone(), p.number - 1).await?;
    if prev.header.state_root != p.prev_state_root {
        return bad();
    }
    if !timestamp(now, p.timestamp, prev.header.timestamp) {
        return bad();
    }
    e.adapter.verify_proof(ctx.clone(), prev.clone(), p.proof.clone()).await?;
    e.adapter.verify_txs(ctx.clone(), p.number, &p.tx_hashes).await?;
    let txs = e.adapter.get_full_txs(ctx.clone(), &p.tx_hashes).await?;
    order(e, ctx.clone(), p, &txs)
}
pub async fn chosen_by_nobody<A: ConsensusAdapter + 'static>(e: &ConsensusEngine<A>, p: &Proposal) -> ProtocolResult<()> {
    if p.chain_id != e.node_info.chain_id {
        return bad();
    }
    if p.gas_limit != MAX_BLOCK_GAS_LIMIT.into() {
        return bad();
    }
    if p.base_fee_per_gas != BASE_FEE_PER_GAS.into() {
        return bad();
    }
    let m = e.adapter.get_metadata_by_block_number(p.number).await?;
    if !m.verifier_list.iter().any(|v| v.address == p.proposer) {
        return bad();
    }
    Ok(())
}
/// The transactions are the ones the roots of the proposal stand for.
pub fn order<A>(e: &ConsensusEngine<A>, ctx: Context, p: &Proposal, txs: &[SignedTransaction]) -> ProtocolResult<()> {
    let root = transactions_root(&p.tx_hashes);
    if digest(txs) != p.signed_txs_hash {
        return bad();
    }
    if root != p.transactions_root {
        return bad();
    }
    Ok(())
}
/// Not before the previous block, not in the future.
pub fn timestamp(now: u64, proposed: u64, previous: u64) -> bool { previous <= proposed && proposed <= now }

pub mod adapter {
    use core_consensus::util::OverlordCrypto;
    use overlord::OverlordHandler;
    use parking_lot::RwLock;
    use protocol::types::Proposal;
    use std::sync::Arc;
    pub struct OverlordConsensusAdapter<M, N, S, DB> {
        pub network: Arc<N>,
        pub mempool: Arc<M>,
        pub storage: Arc<S>,
        pub trie_db: Arc<DB>,

        pub overlord_handler: RwLock<Option<OverlordHandler<Proposal>>>,
        pub crypto:           Arc<OverlordCrypto>,
    }
}
use crate::consensus::adapter::OverlordConsensusAdapter;
use core_consensus::util::convert_hex_to_bls_pubkeys;
use core_executor::{AxonExecutor, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter};
use overlord::types::{Vote, VoteType};
use overlord::Crypto;
use protocol::traits::{CommonConsensusAdapter, Executor, Gossip, MemPool, Network, PeerTrust, Rpc, Storage, SynchronizationAdapter};
use protocol::types::{Header, Hex, MerkleRoot};
use protocol::trie;
use std::sync::Arc;

/// A new engine knows nothing of any block yet.
pub fn engine_new<A>(
    status: StatusAgent, node_info: protocol::traits::NodeInfo, txs_wal: Arc<core_consensus::wal::SignedTxsWAL>, adapter: Arc<A>, crypto: Arc<core_consensus::util::OverlordCrypto>,
    lock: Arc<protocol::tokio::sync::Mutex<()>>, consensus_wal: Arc<core_consensus::wal::ConsensusWal>, stop_signal: core_consensus::stop_signal::StopSignal,
) -> ConsensusEngine<A> {
    ConsensusEngine {
        status, node_info, txs_wal, adapter, crypto, lock, consensus_wal, stop_signal,
        exemption_hash: parking_lot::RwLock::new(Default::default()),
        last_commit_time: parking_lot::RwLock::new(time_now()),
        last_check_block_fail_reason: parking_lot::RwLock::new(String::new()),
    }
}
pub fn adapter_new<M, N, S, DB>(network: Arc<N>, mempool: Arc<M>, storage: Arc<S>, trie_db: Arc<DB>, crypto: Arc<core_consensus::util::OverlordCrypto>) -> ProtocolResult<OverlordConsensusAdapter<M, N, S, DB>> {
    Ok(OverlordConsensusAdapter { network, mempool, storage, trie_db, overlord_handler: parking_lot::RwLock::new(None), crypto })
}
pub fn set_handler<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, h: overlord::OverlordHandler<Proposal>) { *a.overlord_handler.write() = Some(h) }
pub async fn pull_block<M, N: Rpc, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, n: u64, end: &str) -> ProtocolResult<Block> {
    a.network.call::<protocol::types::BlockNumber, Block>(ctx, end, n, protocol::traits::Priority::High).await
}

pub mod verify {
    use super::*;
    /// It follows the block before it.
    pub async fn header<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, p: &Proposal) -> ProtocolResult<()>
    where M: MemPool + 'static, N: Network + Rpc + PeerTrust + Gossip + 'static, S: Storage + 'static, DB: trie::DB + Send + Sync + 'static {
        let prev = block(a, ctx.clone(), p.number - 1).await?;
        if prev.header.version != p.version {
            return bad();
        }
        if prev.hash() != p.prev_hash {
            return bad();
        }
        Ok(())
    }
    pub async fn block<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, n: u64) -> ProtocolResult<Block>
    where M: MemPool + 'static, N: Network + Rpc + PeerTrust + Gossip + 'static, S: Storage + 'static, DB: trie::DB + Send + Sync + 'static {
        match a.storage.get_block(ctx, n).await? {
            Some(b) => Ok(b),
            None => bad(),
        }
    }
    /// The metadata of the latest state.
    pub async fn metadata<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context) -> ProtocolResult<MetadataHandle>
    where M: MemPool + 'static, N: Network + Rpc + PeerTrust + Gossip + 'static, S: Storage + 'static, DB: trie::DB + Send + Sync + 'static {
        let root = a.storage.get_latest_block_header(ctx).await?.state_root;
        let s = AxonExecutorReadOnlyAdapter::from_root(root, Arc::clone(&a.trie_db), Arc::clone(&a.storage), Default::default())?;
        Ok(MetadataHandle::new(s.get_metadata_root()))
    }
    /// More than two thirds of the block's validators signed a precommit for exactly its proposal.
    pub async fn proof<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, b: Block, proof: Proof) -> ProtocolResult<()>
    where M: MemPool + 'static, N: Network + Rpc + PeerTrust + Gossip + 'static, S: Storage + 'static, DB: trie::DB + Send + Sync + 'static {
        let number = b.header.number;
        if number == 0 {
            return Ok(());
        }
        if number != proof.number {
            return bad();
        }
        let prev = block(a, ctx.clone(), number - 1).await?;
        let voted_for = Proposal::new_with_state_root(&b.header, prev.header.state_root, b.tx_hashes).hash();
        if voted_for != proof.block_hash {
            return bad();
        }
        let m = metadata(a, ctx.clone()).await?.get_metadata_by_block_number(number)?;
        if !m.version.contains(number) {
            return bad();
        }
        let mut nodes = m.verifier_list.iter().map(|v| Node { address: v.pub_key.as_bytes(), propose_weight: v.propose_weight, vote_weight: v.vote_weight }).collect::<Vec<_>>();
        let voters = match overlord::extract_voters(&mut nodes, &proof.bitmap) {
            Ok(v) => v,
            Err(_) => return bad(),
        };
        let vote = Vote { height: proof.number, round: proof.round, vote_type: VoteType::Precommit, block_hash: Bytes::from(proof.block_hash.as_bytes().to_vec()) };
        let weights = nodes.iter().map(|n| (n.address.clone(), n.vote_weight)).collect::<HashMap<_, _>>();
        weight(a, ctx.clone(), number, weights, voters.clone()).await?;
        let keys = m.verifier_list.iter().filter(|v| voters.contains(&v.pub_key.as_bytes())).map(|v| v.bls_pub_key.clone()).collect::<Vec<_>>();
        signature(a, ctx, number, a.crypto.hash(Bytes::from(rlp::encode(&vote))), proof.signature.clone(), keys).await
    }
    pub async fn weight<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, number: u64, weights: HashMap<Bytes, u32>, voters: Vec<Bytes>) -> ProtocolResult<()> {
        let all: u64 = weights.iter().map(|w| u64::from(*w.1)).sum();
        let mut signed = 0u64;
        for v in voters {
            match weights.get(v.as_ref()) {
                Some(w) => signed += u64::from(*w),
                None => return bad(),
            }
        }
        if 3 * signed > 2 * all { Ok(()) } else { bad() }
    }
    pub async fn signature<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, number: u64, hash: Bytes, sig: Bytes, keys: Vec<Hex>) -> ProtocolResult<()> {
        let keys = keys.into_iter().map(convert_hex_to_bls_pubkeys).collect::<Result<Vec<_>, _>>()?;
        if a.crypto.inner_verify_aggregated_signature(hash, keys, sig).is_err() {
            return bad();
        }
        Ok(())
    }
    pub async fn txs<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, number: u64, hashes: &[Hash]) -> ProtocolResult<()>
    where M: MemPool + 'static, N: Network + Rpc + PeerTrust + Gossip + 'static, S: Storage + 'static, DB: trie::DB + Send + Sync + 'static {
        if a.mempool.ensure_order_txs(ctx, Some(number), hashes).await.is_err() {
            return bad();
        }
        Ok(())
    }
    pub async fn full_txs<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, hashes: &[Hash]) -> ProtocolResult<Vec<SignedTransaction>>
    where M: MemPool + 'static, N: Network + Rpc + PeerTrust + Gossip + 'static, S: Storage + 'static, DB: trie::DB + Send + Sync + 'static {
        a.mempool.get_full_txs(ctx, None, hashes).await
    }
    pub async fn package<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, number: u64, gas: protocol::types::U256, most: u64) -> ProtocolResult<protocol::types::PackedTxHashes>
    where M: MemPool + 'static, N: Network + Rpc + PeerTrust + Gossip + 'static, S: Storage + 'static, DB: trie::DB + Send + Sync + 'static {
        a.mempool.package(ctx, gas, most).await
    }
    pub async fn by_number<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, number: u64) -> ProtocolResult<Metadata>
    where M: MemPool + 'static, N: Network + Rpc + PeerTrust + Gossip + 'static, S: Storage + 'static, DB: trie::DB + Send + Sync + 'static {
        metadata(a, Context::new()).await?.get_metadata_by_block_number(number)
    }
}

pub mod util {
    use super::*;
    use common_crypto::{BlsPrivateKey, BlsSignature, BlsSignatureVerify, HashValue, PrivateKey, Signature};
    use parking_lot::RwLock;
    use std::convert::TryFrom;
    pub struct OverlordCrypto {
        pub private_key: BlsPrivateKey,
        pub addr_pubkey: RwLock<HashMap<Bytes, BlsPublicKey>>,
        pub common_ref:  String,
    }
    type Out<T> = Result<T, Box<dyn Error + Send>>;
    pub fn hash(c: &OverlordCrypto, msg: Bytes) -> Bytes { Bytes::from(Hasher::digest(msg).as_bytes().to_vec()) }
    pub fn sign(c: &OverlordCrypto, hash: Bytes) -> Out<Bytes> {
        match HashValue::try_from(hash.as_ref()) {
            Ok(h) => Ok(c.private_key.sign_message(&h).to_bytes()),
            Err(_) => worse(),
        }
    }
    /// One validator's signature, under the key known for it.
    pub fn verify(c: &OverlordCrypto, sig: Bytes, hash: Bytes, voter: Bytes) -> Out<()> {
        let keys = c.addr_pubkey.read();
        let h = match HashValue::try_from(hash.as_ref()) {
            Ok(h) => h,
            Err(_) => return worse(),
        };
        let key = match keys.get(&voter) {
            Some(k) => k,
            None => return worse(),
        };
        let s = match BlsSignature::try_from(sig.as_ref()) {
            Ok(s) => s,
            Err(_) => return worse(),
        };
        if s.verify(&h, key, &c.common_ref).is_err() {
            return worse();
        }
        Ok(())
    }
    pub fn aggregate(c: &OverlordCrypto, sigs: Vec<Bytes>, voters: Vec<Bytes>) -> Out<Bytes> {
        if sigs.len() != voters.len() {
            return worse();
        }
        let keys = c.addr_pubkey.read();
        let mut pairs = vec![];
        for (sig, voter) in sigs.iter().zip(voters.iter()) {
            let s = match BlsSignature::try_from(sig.as_ref()) {
                Ok(s) => s,
                Err(_) => return worse(),
            };
            match keys.get(voter) {
                Some(k) => pairs.push((s, k.to_owned())),
                None => return worse(),
            }
        }
        match BlsSignature::combine(pairs) {
            Ok(s) => Ok(s.to_bytes()),
            Err(_) => worse(),
        }
    }
    /// All the voters' signature.
    pub fn verify_aggregated(c: &OverlordCrypto, sig: Bytes, hash: Bytes, voters: Vec<Bytes>) -> Out<()> {
        let keys = c.addr_pubkey.read();
        let mut all = vec![];
        for v in voters.iter() {
            match keys.get(v) {
                Some(k) => all.push(k.clone()),
                None => return worse(),
            }
        }
        if inner(c, hash, all, sig).is_err() {
            return worse();
        }
        Ok(())
    }
    pub fn inner(c: &OverlordCrypto, hash: Bytes, keys: Vec<BlsPublicKey>, sig: Bytes) -> ProtocolResult<()> {
        let key = match BlsPublicKey::aggregate(keys) {
            Ok(k) => k,
            Err(_) => return bad(),
        };
        let s = match BlsSignature::try_from(sig.as_ref()) {
            Ok(s) => s,
            Err(_) => return bad(),
        };
        let h = match HashValue::try_from(hash.as_ref()) {
            Ok(h) => h,
            Err(_) => return bad(),
        };
        if s.verify(&h, &key, &c.common_ref).is_err() {
            return bad();
        }
        Ok(())
    }
    pub fn update(c: &OverlordCrypto, keys: HashMap<Bytes, BlsPublicKey>) { *c.addr_pubkey.write() = keys; }
    pub fn new(k: BlsPrivateKey, keys: HashMap<Bytes, BlsPublicKey>, common_ref: String) -> OverlordCrypto {
        OverlordCrypto { private_key: k, addr_pubkey: RwLock::new(keys), common_ref }
    }
    pub fn from_hex(h: Hex) -> ProtocolResult<BlsPublicKey> {
        let b = h.as_bytes();
        match BlsPublicKey::try_from(b.as_ref()) {
            Ok(k) => Ok(k),
            Err(_) => bad(),
        }
    }
    /// Each validator's key, under the name votes give.
    pub fn keys(m: Metadata) -> ProtocolResult<HashMap<Bytes, BlsPublicKey>> {
        let mut all = HashMap::new();
        for v in m.verifier_list.into_iter() {
            let name = v.pub_key.as_bytes();
            let k = v.bls_pub_key.as_bytes();
            match BlsPublicKey::try_from(k.as_ref()) {
                Ok(k) => { all.insert(name, k); }
                Err(_) => return bad(),
            }
        }
        Ok(all)
    }
}

pub mod decide {
    use super::*;
    use core_consensus::engine::generate_new_crypto_map;
    use core_consensus::util::OverlordCrypto;
    type Er = Box<dyn Error + Send>;

    /// The decided block is executed on the state of the block before it, and becomes the latest one.
    pub async fn commit<A: ConsensusAdapter + 'static>(e: &ConsensusEngine<A>, ctx: Context, n: u64, c: Commit<Proposal>) -> Result<Status, Er> {
        e.stop_signal.check_height_and_send(n.saturating_sub(1));
        if e.stop_signal.is_stopped() {
            return worse();
        }
        let lock = e.lock.try_lock();
        if lock.is_err() {
            return worse();
        }
        let st = e.status.inner();
        let m = e.adapter.get_metadata_by_block_number(n + 1).await?;
        if n == st.last_number {
            return Ok(next(n + 1, m));
        }
        if n != st.last_number + 1 {
            return worse();
        }
        let p = c.content;
        let proof = Proof {
            number: c.proof.height,
            round: c.proof.round,
            block_hash: Hash::from_slice(c.proof.block_hash.as_ref()),
            signature: c.proof.signature.signature.clone(),
            bitmap: c.proof.signature.address_bitmap.clone(),
        };
        let txs = match e.adapter.get_full_txs(ctx.clone(), &p.tx_hashes).await {
            Ok(txs) => txs,
            Err(_) => e.txs_wal.load(n, p.transactions_root)?,
        };
        let resp = e.adapter.exec(ctx.clone(), st.last_state_root, &p, &txs).await?;
        adopt(e, ctx.clone(), resp, p.clone(), proof, txs).await?;
        e.adapter.flush_mempool(ctx.clone(), &p.tx_hashes, n).await?;
        e.txs_wal.remove(n.saturating_sub(2))?;
        { e.exemption_hash.write().clear(); }
        let m = e.adapter.get_metadata_by_block_number(n + 1).await?;
        let epoch = m.epoch;
        let status = next(n + 1, m);
        e.adapter.broadcast_number(ctx, n).await?;
        Ok(status)
    }
    /// What consensus goes on with: the next block's validators in their order, and its timers.
    pub fn next(height: u64, m: Metadata) -> Status {
        Status { height, interval: Some(m.consensus_config.interval), authority_list: authority(&m.verifier_list), timer_config: Some(m.into()) }
    }
    pub fn authority(vs: &[ValidatorExtend]) -> Vec<Node> {
        let mut all = vs.iter().map(|v| Node { address: v.pub_key.as_bytes(), propose_weight: v.propose_weight, vote_weight: v.vote_weight }).collect::<Vec<_>>();
        all.sort();
        all
    }

    pub async fn adopt<A: ConsensusAdapter + 'static>(e: &ConsensusEngine<A>, ctx: Context, resp: ExecResp, p: Proposal, proof: Proof, txs: Vec<SignedTransaction>) -> ProtocolResult<()> {
        let b = Block::new(p, resp.clone());
        let n = b.header.number;
        let hash = b.hash();
        let (receipts, _) = b.generate_receipts_and_logs(&txs, &resp);
        e.adapter.save_proof(ctx.clone(), proof.clone()).await?;
        e.adapter.save_signed_txs(ctx.clone(), n, txs).await?;
        e.adapter.save_receipts(ctx.clone(), n, receipts).await?;
        e.adapter.save_block(ctx.clone(), b.clone()).await?;

        let root = e.adapter.get_metadata_root(b.header.state_root, &Proposal::new_without_state_root(&b.header)).await?;
        let forks = MetadataHandle::new(root).hardfork_infos()?;
        let mut done = false;
        if let Some(last) = forks.inner.last() {
            let mut own = e.node_info.hardfork_proposals.write().unwrap();
            let named = match own.as_ref() {
                Some(v) => last.flags & v.flags == v.flags,
                None => false,
            };
            if named {
                own.take();
                done = true;
            }
        }
        if done {
            e.adapter.remove_hardfork_proposal(ctx.clone()).await?;
        }

        if e.adapter.is_last_block_in_current_epoch(n).await? {
            let m = e.adapter.get_metadata_by_block_number(n + 1).await?;
            e.adapter.tag_consensus(ctx.clone(), m.verifier_list.iter().map(|v| v.pub_key.as_bytes()).collect())?;
            e.crypto.update(generate_new_crypto_map(m)?);
        }

        let old = e.status.inner();
        e.status.swap(CurrentStatus {
            prev_hash: hash,
            last_number: n,
            last_state_root: resp.state_root,
            max_tx_size: old.max_tx_size,
            tx_num_limit: old.tx_num_limit,
            proof: proof.clone(),
        });
        e.adapter.set_args(ctx, resp.state_root, MAX_BLOCK_GAS_LIMIT, old.max_tx_size.low_u64());
        Ok(())
    }

    /// The validators that decided the block before.
    pub async fn authority_list<A: ConsensusAdapter + 'static>(e: &ConsensusEngine<A>, ctx: Context, n: u64) -> Result<Vec<Node>, Er> {
        if n == 0 {
            return Ok(vec![]);
        }
        let m = e.adapter.get_metadata_by_block_number(n).await?;
        let m = if m.version.contains(n - 1) { m } else { e.adapter.get_metadata_by_block_number(n - 1).await? };
        let mut all = m.verifier_list.into_iter().map(|v| Node { address: v.pub_key.as_bytes(), propose_weight: v.propose_weight, vote_weight: v.vote_weight }).collect::<Vec<_>>();
        all.sort();
        Ok(all)
    }
    pub async fn broadcast<A: ConsensusAdapter + 'static>(e: &ConsensusEngine<A>, ctx: Context, msg: OverlordMsg<Proposal>) -> Result<(), Er> {
        let (end, bytes) = match msg {
            OverlordMsg::SignedProposal(x) => (END_GOSSIP_SIGNED_PROPOSAL, x.rlp_bytes()),
            OverlordMsg::AggregatedVote(x) => (END_GOSSIP_AGGREGATED_VOTE, x.rlp_bytes()),
            OverlordMsg::SignedChoke(x) => (END_GOSSIP_SIGNED_CHOKE, x.rlp_bytes()),
            _ => unreachable!(),
        };
        e.adapter.transmit(ctx, bytes.freeze().to_vec(), end, MessageTarget::Broadcast).await?;
        Ok(())
    }
    pub async fn transmit<A: ConsensusAdapter + 'static>(e: &ConsensusEngine<A>, ctx: Context, to: Bytes, msg: OverlordMsg<Proposal>) -> Result<(), Er> {
        let (end, bytes) = match msg {
            OverlordMsg::SignedVote(x) => (END_GOSSIP_SIGNED_VOTE, x.rlp_bytes()),
            OverlordMsg::AggregatedVote(x) => (END_GOSSIP_AGGREGATED_VOTE, x.rlp_bytes()),
            _ => unreachable!(),
        };
        e.adapter.transmit(ctx, bytes.freeze().to_vec(), end, MessageTarget::Specified(to)).await?;
        Ok(())
    }
    pub async fn wal_save<A: ConsensusAdapter + 'static>(e: &ConsensusEngine<A>, info: Bytes) -> Result<(), Er> {
        if e.consensus_wal.update_overlord_wal(Context::new(), info).is_err() {
            return worse();
        }
        Ok(())
    }
    pub async fn wal_load<A: ConsensusAdapter + 'static>(e: &ConsensusEngine<A>) -> Result<Option<Bytes>, Er> { Ok(e.consensus_wal.load_overlord_wal(Context::new()).ok()) }
    pub fn overlord_status(height: u64, interval: u64, propose_ratio: u64, prevote_ratio: u64, precommit_ratio: u64, brake_ratio: u64, vs: Vec<ConsensusValidator>) -> Status {
        let mut all = vs.into_iter().map(|v| Node { address: v.pub_key, propose_weight: v.propose_weight, vote_weight: v.vote_weight }).collect::<Vec<_>>();
        all.sort();
        Status { height, interval: Some(interval), authority_list: all, timer_config: Some(DurationConfig { propose_ratio, prevote_ratio, precommit_ratio, brake_ratio }) }
    }
}

/// What the consensus engine and synchronization ask for, as the storage, the pool, the network and the executor answer it.
pub mod served {
    use super::*;
    use core_network::{PeerId, PeerIdExt};
    use protocol::traits::Priority;
    macro_rules! on { ($name:ident($s:ident $(, $a:ident : $t:ty)*) -> $r:ty $b:block) => {
        pub async fn $name<M, N, S, DB>($s: &OverlordConsensusAdapter<M, N, S, DB> $(, $a: $t)*) -> ProtocolResult<$r>
        where M: MemPool + 'static, N: Network + Rpc + PeerTrust + Gossip + 'static, S: Storage + 'static, DB: trie::DB + Send + Sync + 'static $b
    } }
    on!(save_block(a, ctx: Context, b: Block) -> () { a.storage.insert_block(ctx, b).await });
    on!(save_proof(a, ctx: Context, p: Proof) -> () { a.storage.update_latest_proof(ctx, p).await });
    on!(save_txs(a, ctx: Context, n: u64, txs: Vec<SignedTransaction>) -> () { a.storage.insert_transactions(ctx, n, txs).await });
    on!(save_receipts(a, ctx: Context, n: u64, rs: Vec<protocol::types::Receipt>) -> () { a.storage.insert_receipts(ctx, n, rs).await });
    on!(flush(a, ctx: Context, hashes: &[Hash], n: u64) -> () { a.mempool.flush(ctx, hashes, n).await });
    on!(header(a, ctx: Context, n: u64) -> Header {
        match a.storage.get_block_header(ctx, n).await? {
            Some(h) => Ok(h),
            None => bad(),
        }
    });
    on!(current(a, ctx: Context) -> u64 { Ok(a.storage.get_latest_block_header(ctx).await?.number) });
    on!(current_for_consensus(a, ctx: Context) -> u64 { Ok(a.storage.get_latest_block_header(ctx).await?.number) });
    on!(is_last(a, n: u64) -> bool { crate::consensus::verify::metadata(a, Context::new()).await?.is_last_block_in_current_epoch(n) });
    on!(by_epoch(a, epoch: u64) -> Metadata { crate::consensus::verify::metadata(a, Context::new()).await?.get_metadata_by_epoch(epoch) });
    on!(metadata_root(a, root: Hash, p: &Proposal) -> Hash {
        Ok(AxonExecutorApplyAdapter::from_root(root, Arc::clone(&a.trie_db), Arc::clone(&a.storage), p.clone().into())?.get_metadata_root())
    });
    on!(broadcast_number(a, ctx: Context, n: u64) -> () { a.network.broadcast(ctx, BROADCAST_HEIGHT, n, Priority::High).await });
    on!(no_proposal(a, ctx: Context) -> () { a.storage.remove_hardfork_proposal(ctx).await });
    on!(transmit(a, ctx: Context, msg: Vec<u8>, end: &str, target: MessageTarget) -> () {
        match target {
            MessageTarget::Broadcast => a.network.broadcast(ctx, end, msg, Priority::High).await,
            MessageTarget::Specified(k) => {
                let peer = PeerId::from_pubkey_bytes(k)?.into_bytes_ext();
                a.network.multicast(ctx, end, [peer], msg, Priority::High).await
            }
        }
    });
    on!(exec(a, ctx: Context, root: Hash, p: &Proposal, txs: &[SignedTransaction]) -> ExecResp {
        let mut s = AxonExecutorApplyAdapter::from_root(root, Arc::clone(&a.trie_db), Arc::clone(&a.storage), p.clone().into())?;
        let vs = MetadataHandle::new(s.get_metadata_root()).get_metadata_by_block_number(p.number)?.verifier_list;
        Ok(AxonExecutor.exec(&mut s, txs, &vs))
    });
    pub fn set_args<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, root: MerkleRoot, gas: u64, size: u64) where M: MemPool + 'static { a.mempool.set_args(ctx, root, gas, size) }
    pub fn tag<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, keys: Vec<Bytes>) -> ProtocolResult<()> where N: Network + Rpc + PeerTrust + Gossip + 'static {
        let ids = keys.iter().map(|k| PeerId::from_pubkey_bytes(k).map(PeerIdExt::into_bytes_ext)).collect::<Result<_, _>>()?;
        a.network.tag_consensus(ctx, ids)
    }
}

pub mod stop_signal {
    use protocol::tokio::sync::oneshot::Sender;
    use std::sync::RwLock;
    pub struct StopSignal {
        pub tx:             RwLock<Option<Sender<()>>>,
        pub stop_at_height: Option<u64>,
    }
    pub fn new(tx: Sender<()>) -> StopSignal { StopSignal { tx: RwLock::new(Some(tx)), stop_at_height: None } }
    pub fn with_stop_at(tx: Sender<()>, height: u64) -> StopSignal { StopSignal { tx: RwLock::new(Some(tx)), stop_at_height: Some(height) } }
    /// Stops at its height, once.
    pub fn check(s: &StopSignal, height: u64) {
        match s.stop_at_height {
            Some(h) if h == height => send(s),
            _ => (),
        }
    }
    pub fn send(s: &StopSignal) {
        if let Some(tx) = s.tx.write().unwrap().take() {
            let _ = tx.send(());
        }
    }
    pub fn is_stopped(s: &StopSignal) -> bool { s.tx.read().unwrap().is_none() }
}
pub mod status {
    use core_consensus::status::CurrentStatus;
    use parking_lot::Mutex;
    use std::sync::Arc;
    pub struct StatusAgent(pub Arc<Mutex<CurrentStatus>>);
    pub fn new(s: CurrentStatus) -> StatusAgent { StatusAgent(Arc::new(Mutex::new(s))) }
    pub fn inner(a: &StatusAgent) -> CurrentStatus { a.0.lock().clone() }
    pub fn swap(a: &StatusAgent, new: CurrentStatus) { *a.0.lock() = new; }
}
pub mod consensus {
    use super::*;
    use core_consensus::util::OverlordCrypto;
    use overlord::types::{AggregatedVote, SignedChoke, SignedProposal, SignedVote};
    use overlord::{Codec, Overlord, OverlordHandler};
    pub struct OverlordConsensus<Adapter: ConsensusAdapter + 'static> {
        pub inner:   Arc<Overlord<Proposal, core_consensus::engine::ConsensusEngine<Adapter>, OverlordCrypto, core_consensus::engine::ConsensusEngine<Adapter>>>,
        pub handler: OverlordHandler<Proposal>,
    }
    fn hand<A: ConsensusAdapter + 'static>(c: &OverlordConsensus<A>, ctx: Context, m: OverlordMsg<Proposal>) -> ProtocolResult<()> {
        c.handler.send_msg(ctx, m).unwrap();
        Ok(())
    }
    macro_rules! taken { ($name:ident, $t:ty, $v:ident) => {
        pub async fn $name<A: ConsensusAdapter + 'static>(c: &OverlordConsensus<A>, ctx: Context, b: Vec<u8>) -> ProtocolResult<()> {
            match <$t as ProtocolCodec>::decode(b) {
                Ok(m) => hand(c, ctx, OverlordMsg::$v(m)),
                Err(_) => bad(),
            }
        }
    } }
    taken!(proposal, SignedProposal<Proposal>, SignedProposal);
    taken!(vote, SignedVote, SignedVote);
    taken!(qc, AggregatedVote, AggregatedVote);
    taken!(choke, SignedChoke, SignedChoke);
    /// It goes on from what the node has decided; right after genesis it has to be told where to begin.
    pub async fn begin<A: ConsensusAdapter + 'static>(
        status: StatusAgent, node: protocol::traits::NodeInfo, crypto: std::sync::Arc<OverlordCrypto>, txs: std::sync::Arc<core_consensus::wal::SignedTxsWAL>, adapter: std::sync::Arc<A>,
        lock: std::sync::Arc<protocol::tokio::sync::Mutex<()>>, wal: std::sync::Arc<core_consensus::wal::ConsensusWal>, stop: core_consensus::stop_signal::StopSignal,
    ) -> OverlordConsensus<A> {
        use std::sync::Arc;
        let engine = Arc::new(core_consensus::engine::ConsensusEngine::new(status, node.clone(), txs, Arc::clone(&adapter), Arc::clone(&crypto), lock, wal, stop));
        let last = engine.status().last_number;
        let meta = adapter.get_metadata_by_block_number(last + 1).await.unwrap();
        let o = Overlord::new(common_crypto::PublicKey::to_bytes(&node.self_pub_key), Arc::clone(&engine), crypto, engine);
        let handler = o.get_handler();
        if last == 0 {
            let c = &meta.consensus_config;
            let vs = meta.verifier_list.iter().map(Into::into).collect();
            let s = super::decide::overlord_status(last + 1, c.interval, c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio, vs);
            handler.send_msg(Context::new(), OverlordMsg::RichStatus(s)).unwrap();
        }
        OverlordConsensus { inner: Arc::new(o), handler }
    }
    pub async fn run<A: ConsensusAdapter + 'static>(c: &OverlordConsensus<A>, height: u64, interval: u64, vs: Vec<ConsensusValidator>, timer: Option<DurationConfig>) -> ProtocolResult<()> {
        let all = vs.into_iter().map(|v| Node { address: v.pub_key, propose_weight: v.propose_weight, vote_weight: v.vote_weight }).collect::<Vec<_>>();
        match c.inner.run(height, interval, all, timer).await {
            Ok(_) => Ok(()),
            Err(_) => bad(),
        }
    }
}

/// Catching up with a node that has more blocks.
pub mod synchronization {
    use crate::consensus::*;
    use core_consensus::SYNC_STATUS;
    use core_consensus::util::digest_signed_transactions;
    use protocol::tokio::{sync::Mutex, time::sleep};
    use protocol::traits::SynchronizationAdapter;
    use protocol::types::{Receipt, RichBlock};
    use std::collections::BTreeMap;
    use std::sync::Arc;
    use std::time::Duration;
    pub struct OverlordSynchronization<Adapter: SynchronizationAdapter> {
        pub adapter: Arc<Adapter>,
        pub status:  StatusAgent,
        pub lock:    Arc<Mutex<()>>,
        pub syncing: Mutex<()>,

        pub sync_txs_chunk_size: usize,
    }
    pub fn new<A: SynchronizationAdapter>(chunk: usize, adapter: Arc<A>, status: StatusAgent, lock: Arc<Mutex<()>>) -> OverlordSynchronization<A> {
        OverlordSynchronization { adapter, status, lock, syncing: Mutex::new(()), sync_txs_chunk_size: chunk }
    }
    /// One synchronization at a time, and none while a decision is being applied. What was reached becomes current also when it ended early.
    pub async fn receive<A: SynchronizationAdapter>(s: &OverlordSynchronization<A>, ctx: Context, remote: u64) -> ProtocolResult<()> {
        let only = s.syncing.try_lock();
        if only.is_err() {
            return Ok(());
        }
        if !needed(s, remote).await? {
            return Ok(());
        }
        let alone = s.lock.try_lock();
        if alone.is_err() {
            return Ok(());
        }
        let current = s.status.inner().last_number;
        if current >= remote {
            return Ok(());
        }
        let reached = StatusAgent::new(s.status.inner());
        let res = go(s, ctx.clone(), reached.clone(), current, remote).await;
        match res {
            Err(e) => {
                adopt(s, ctx, reached).await?;
                SYNC_STATUS.write().finish();
                Err(e)
            }
            Ok(()) => {
                adopt(s, ctx, reached).await?;
                SYNC_STATUS.write().finish();
                Ok(())
            }
        }
    }
    pub async fn needed<A: SynchronizationAdapter>(s: &OverlordSynchronization<A>, remote: u64) -> ProtocolResult<bool> {
        let current = s.status.inner().last_number;
        if remote == 0 || current >= remote {
            return Ok(false);
        }
        if remote - 1 == current {
            let m = s.adapter.get_metadata_by_block_number(current).await?;
            sleep(Duration::from_millis(m.consensus_config.interval)).await;
            if s.status.inner().last_number == remote {
                return Ok(false);
            }
        }
        Ok(true)
    }
    /// Block after block, each checked before it is executed and stored, at most 50 at once.
    pub async fn go<A: SynchronizationAdapter>(s: &OverlordSynchronization<A>, ctx: Context, reached: StatusAgent, current: u64, remote: u64) -> ProtocolResult<()> {
        let to = if current + 50 > remote { remote } else { current + 50 };
        { SYNC_STATUS.write().start(current, to); }
        let mut at = current;
        while at < to {
            let b = fetch(s, ctx.clone(), at + 1).await?;
            let proof = check(s, ctx.clone(), &b).await?;
            commit(s, ctx.clone(), b, proof, reached.clone()).await?;
            at += 1;
            SYNC_STATUS.write().add_one();
        }
        Ok(())
    }
    /// The block at the number asked for with all of its transactions in their order.
    pub async fn fetch<A: SynchronizationAdapter>(s: &OverlordSynchronization<A>, ctx: Context, n: u64) -> ProtocolResult<RichBlock> {
        let block = s.adapter.get_block_from_remote(ctx.clone(), n).await?;
        if block.header.number != n {
            return bad();
        }
        let mut txs = BTreeMap::new();
        let mut lacking = HashMap::new();
        let mut ask = Vec::new();
        for (i, h) in block.tx_hashes.iter().enumerate() {
            match s.adapter.get_tx_from_mem(ctx.clone(), h) {
                Some(tx) => {
                    txs.insert(i, tx);
                }
                None => {
                    ask.push(*h);
                    lacking.insert(h, i);
                }
            }
        }
        for hs in ask.chunks(s.sync_txs_chunk_size) {
            for tx in s.adapter.get_txs_from_remote(ctx.clone(), n, hs).await? {
                match lacking.remove(&tx.transaction.hash) {
                    Some(i) => {
                        txs.insert(i, tx);
                    }
                    None => return bad(),
                }
            }
        }
        if !lacking.is_empty() {
            return bad();
        }
        Ok(RichBlock { txs: txs.into_values().collect(), block })
    }
    /// Both proofs, the header and the digest of the transactions.
    pub async fn check<A: SynchronizationAdapter>(s: &OverlordSynchronization<A>, ctx: Context, b: &RichBlock) -> ProtocolResult<Proof> {
        let h = &b.block.header;
        let p = Proposal::new_with_state_root(h, s.status.inner().last_state_root, b.block.tx_hashes.clone());
        let proof = s.adapter.get_proof_from_remote(ctx.clone(), h.number).await?;
        s.adapter.verify_proof(ctx.clone(), b.block.clone(), proof.clone()).await?;
        s.adapter.verify_block_header(ctx.clone(), &p).await?;
        let prev = s.adapter.get_block_by_number(ctx.clone(), h.number - 1).await?;
        s.adapter.verify_proof(ctx.clone(), prev, h.proof.clone()).await?;
        if h.signed_txs_hash != digest_signed_transactions(&b.txs) {
            return bad();
        }
        Ok(proof)
    }
    /// Executing it must give its header.
    pub async fn commit<A: SynchronizationAdapter>(s: &OverlordSynchronization<A>, ctx: Context, b: RichBlock, proof: Proof, reached: StatusAgent) -> ProtocolResult<()> {
        let h = &b.block.header;
        let p = Proposal::new_with_state_root(h, s.status.inner().last_state_root, b.block.tx_hashes.clone());
        let resp = s.adapter.exec(ctx.clone(), reached.inner().last_state_root, &p, &b.txs).await?;
        if resp.state_root != h.state_root || resp.receipt_root != h.receipts_root || Block::new(p, resp.clone()).header != *h {
            return bad();
        }
        let (receipts, _) = b.generate_receipts_and_logs(&resp);
        let m = s.adapter.get_metadata_by_block_number(h.number).await?;
        save(s, ctx.clone(), b.txs.clone(), receipts, b.block.clone(), proof.clone()).await?;
        reached.swap(CurrentStatus {
            prev_hash: b.block.hash(),
            last_number: h.number,
            last_state_root: resp.state_root,
            max_tx_size: m.consensus_config.max_tx_size.into(),
            tx_num_limit: m.consensus_config.tx_num_limit,
            proof,
        });
        s.adapter.flush_mempool(ctx, &b.block.tx_hashes, h.number).await
    }
    /// The block comes last, as it is what makes the rest count.
    pub async fn save<A: SynchronizationAdapter>(s: &OverlordSynchronization<A>, ctx: Context, txs: Vec<SignedTransaction>, rs: Vec<Receipt>, b: Block, proof: Proof) -> ProtocolResult<()> {
        let n = b.header.number;
        s.adapter.save_signed_txs(ctx.clone(), n, txs).await?;
        s.adapter.save_receipts(ctx.clone(), n, rs).await?;
        s.adapter.save_proof(ctx.clone(), proof).await?;
        s.adapter.save_block(ctx, b).await
    }
    pub async fn adopt<A: SynchronizationAdapter>(s: &OverlordSynchronization<A>, ctx: Context, reached: StatusAgent) -> ProtocolResult<()> {
        let to = reached.inner();
        s.status.swap(to.clone());
        let m = s.adapter.get_metadata_by_block_number(to.last_number + 1).await?;
        s.adapter.update_crypto(m.clone())?;
        let c = &m.consensus_config;
        s.adapter.update_status(ctx, to.last_number, c.interval, c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio, m.verifier_list.iter().map(Into::into).collect())
    }
    pub async fn announce<A: SynchronizationAdapter>(s: &OverlordSynchronization<A>) -> ProtocolResult<()> {
        loop {
            let n = s.status.inner().proof.number;
            if n > 0 {
                s.adapter.broadcast_number(Context::new(), n).await?;
            }
            sleep(Duration::from_millis(2000)).await;
        }
    }
}
pub mod sync_status {
    use core_consensus::SyncStatus;
    use protocol::types::U256;
    pub fn start(s: &mut SyncStatus, from: u64, to: u64) { *s = SyncStatus::Syncing { start: from.into(), current: from.into(), highest: to.into() }; }
    pub fn finish(s: &mut SyncStatus) { *s = SyncStatus::False; }
    pub fn add_one(s: &mut SyncStatus) {
        if let SyncStatus::Syncing { current, .. } = s {
            *current += U256::one();
        }
    }
}
pub mod remote {
    use super::*;
    use crate::consensus::adapter::OverlordConsensusAdapter;
    use core_consensus::engine::generate_new_crypto_map;
    use core_consensus::types::PullTxsRequest;
    use core_consensus::consensus::gen_overlord_status;
    use protocol::trie;
    use protocol::traits::{Gossip, MemPool, Network, PeerTrust, Priority, Rpc, Storage};
    use protocol::types::{BatchSignedTxs, BlockNumber};
    pub fn status<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, n: u64, interval: u64, propose: u64, prevote: u64, precommit: u64, brake: u64, vs: Vec<ConsensusValidator>) -> ProtocolResult<()>
    where N: Network + Rpc + PeerTrust + Gossip + 'static {
        let h = a.overlord_handler.read();
        match h.as_ref() {
            None => panic!(),
            Some(h) => {
                if h.send_msg(ctx, OverlordMsg::RichStatus(gen_overlord_status(n + 1, interval, propose, prevote, precommit, brake, vs))).is_err() {
                    return bad();
                }
                Ok(())
            }
        }
    }
    pub fn crypto<M, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, m: Metadata) -> ProtocolResult<()> {
        let keys = generate_new_crypto_map(m)?;
        a.crypto.update(keys);
        Ok(())
    }
    pub async fn block<M, N: Rpc, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, n: u64) -> ProtocolResult<Block> {
        a.network.call::<BlockNumber, Block>(ctx, RPC_SYNC_PULL_BLOCK, n, Priority::High).await
    }
    pub async fn txs<M, N: Rpc, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, n: u64, hs: &[Hash]) -> ProtocolResult<Vec<SignedTransaction>> {
        let got = a.network.call::<PullTxsRequest, BatchSignedTxs>(ctx, RPC_SYNC_PULL_TXS, PullTxsRequest { height: n, inner: hs.to_vec() }, Priority::High).await?;
        Ok(got.0)
    }
    pub async fn proof<M, N: Rpc, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, n: u64) -> ProtocolResult<Proof> {
        a.network.call::<BlockNumber, Proof>(ctx, RPC_SYNC_PULL_PROOF, n, Priority::High).await
    }
    pub fn tx<M: MemPool, N, S, DB>(a: &OverlordConsensusAdapter<M, N, S, DB>, ctx: Context, h: &Hash) -> Option<SignedTransaction> { a.mempool.get_tx_from_mem(ctx, h) }
}

/// What other nodes say and ask.
pub mod message {
    use super::bad;
    use core_consensus::message::{Choke, Proposal, QC, Vote};
    use core_consensus::types::{ConsensusRpcResponse, PullTxsRequest};
    use protocol::codec::ProtocolCodec;
    use protocol::constants::endpoints::*;
    use protocol::traits::{Consensus, Context, MessageCodec, Priority, Rpc, Storage, Synchronization, TrustFeedback};
    use protocol::types::{BatchSignedTxs, Block, BlockNumber, Bytes, Proof};
    use protocol::ProtocolResult;
    use overlord::types::{AggregatedVote, SignedChoke, SignedProposal, SignedVote};
    use overlord::Codec;
    use rlp::Encodable;
    use std::sync::Arc;
    pub struct ProposalMessageHandler<C> { pub consensus: Arc<C> }
    pub struct VoteMessageHandler<C> { pub consensus: Arc<C> }
    pub struct QCMessageHandler<C> { pub consensus: Arc<C> }
    pub struct ChokeMessageHandler<C> { pub consensus: Arc<C> }
    pub struct RemoteHeightMessageHandler<Sy> { pub synchronization: Arc<Sy> }
    pub struct PullBlockRpcHandler<R, S> { pub rpc: Arc<R>, pub storage: Arc<S> }
    pub struct PullProofRpcHandler<R, S> { pub rpc: Arc<R>, pub storage: Arc<S> }
    pub struct PullTxsRpcHandler<R, S> { pub rpc: Arc<R>, pub storage: Arc<S> }

    macro_rules! given { ($name:ident, $h:ident, $m:ident, $set:ident, $from:ident, $enc:ident, $dec:ident, $o:ty $(, $g:ident)?) => {
        pub async fn $name<C: Consensus + 'static>(h: &$h<C>, ctx: Context, m: $m) -> TrustFeedback {
            match h.consensus.$set(ctx, m.0.to_vec()).await {
                Ok(()) => TrustFeedback::Good,
                Err(e) => TrustFeedback::Worse(e.to_string()),
            }
        }
        pub fn $from$(<$g: Codec>)?(m: $o) -> $m { $m(m.rlp_bytes().freeze()) }
        pub fn $enc(m: &$m) -> ProtocolResult<Bytes> { Ok(m.0.clone()) }
        pub fn $dec<B: AsRef<[u8]>>(b: B) -> ProtocolResult<$m> {
            match rlp::decode::<Bytes>(b.as_ref()) {
                Ok(b) => Ok($m(b)),
                Err(_) => bad(),
            }
        }
    } }
    given!(proposal, ProposalMessageHandler, Proposal, set_proposal, of_proposal, put_proposal, get_proposal, SignedProposal<C>, C);
    given!(vote, VoteMessageHandler, Vote, set_vote, of_vote, put_vote, get_vote, SignedVote);
    given!(qc, QCMessageHandler, QC, set_qc, of_qc, put_qc, get_qc, AggregatedVote);
    given!(choke, ChokeMessageHandler, Choke, set_choke, of_choke, put_choke, get_choke, SignedChoke);

    pub async fn height<Sy: Synchronization + 'static>(h: &RemoteHeightMessageHandler<Sy>, ctx: Context, n: BlockNumber) -> TrustFeedback {
        match h.synchronization.receive_remote_block(ctx, n).await {
            Ok(()) => TrustFeedback::Good,
            Err(e) if e.to_string().contains("timeout") => TrustFeedback::Bad("sync block timeout".to_owned()),
            Err(e) => TrustFeedback::Bad(e.to_string()),
        }
    }
    pub async fn pull_block<R: Rpc + 'static, S: Storage + 'static>(h: &PullBlockRpcHandler<R, S>, ctx: Context, n: BlockNumber) -> TrustFeedback {
        let b: ProtocolResult<Block> = match h.storage.get_block(ctx.clone(), n).await {
            Ok(Some(b)) => Ok(b),
            Ok(None) => bad(),
            Err(_) => bad(),
        };
        let _ = h.rpc.response(ctx, RPC_RESP_SYNC_PULL_BLOCK, b, Priority::High).await;
        TrustFeedback::Neutral
    }
    /// A block's proof is in the header of the block after it; the latest one's is kept on its own.
    pub async fn pull_proof<R: Rpc + 'static, S: Storage + 'static>(h: &PullProofRpcHandler<R, S>, ctx: Context, n: BlockNumber) -> TrustFeedback {
        let proof: ProtocolResult<Proof> = match h.storage.get_latest_proof(ctx.clone()).await {
            Err(_) => bad(),
            Ok(last) => {
                if n > last.number {
                    bad()
                } else if n == last.number {
                    Ok(last)
                } else {
                    match h.storage.get_block_header(ctx.clone(), n + 1).await {
                        Ok(Some(header)) => Ok(header.proof),
                        Ok(None) => bad(),
                        Err(_) => bad(),
                    }
                }
            }
        };
        let _ = h.rpc.response(ctx, RPC_RESP_SYNC_PULL_PROOF, proof, Priority::High).await;
        TrustFeedback::Neutral
    }
    pub async fn pull_txs<R: Rpc + 'static, S: Storage + 'static>(h: &PullTxsRpcHandler<R, S>, ctx: Context, m: PullTxsRequest) -> TrustFeedback {
        let txs = match h.storage.get_transactions(ctx.clone(), m.height, &m.inner).await {
            Ok(txs) => Ok(BatchSignedTxs(txs.into_iter().flatten().collect())),
            Err(_) => bad(),
        };
        let _ = h.rpc.response(ctx, RPC_RESP_SYNC_PULL_TXS, txs, Priority::High).await;
        TrustFeedback::Neutral
    }
    pub fn request(height: u64, hashes: Vec<protocol::types::Hash>) -> PullTxsRequest { PullTxsRequest { height, inner: hashes } }
    pub fn put(r: &mut ConsensusRpcResponse) -> ProtocolResult<Bytes> {
        match r {
            ConsensusRpcResponse::PullBlocks(b) => {
                let mut out = b.encode()?.to_vec();
                out.push(b'a');
                Ok(Bytes::from(out))
            }
            ConsensusRpcResponse::PullTxs(txs) => {
                let mut out = txs.encode_msg()?.to_vec();
                out.push(b'b');
                Ok(Bytes::from(out))
            }
        }
    }
    pub fn get(b: Bytes) -> ProtocolResult<ConsensusRpcResponse> {
        if b.is_empty() {
            return bad();
        }
        let n = b.len() - 1;
        let body = b.slice(..n);
        match b[n] {
            b'a' => Ok(ConsensusRpcResponse::PullBlocks(Box::new(Block::decode(body)?))),
            b'b' => match BatchSignedTxs::decode_msg(body) {
                Ok(txs) => Ok(ConsensusRpcResponse::PullTxs(Box::new(txs))),
                Err(_) => bad(),
            },
            _ => bad(),
        }
    }
}

/// What is on disk before a vote is sent, and read back after a crash.
pub mod wal {
    use super::bad;
    use protocol::traits::MessageCodec;
    use protocol::types::{BatchSignedTxs, BufMut, Bytes, BytesMut, Hash, Hasher, SignedTransaction};
    use protocol::ProtocolResult;
    use std::fs;
    use std::io::{ErrorKind, Read, Write};
    use std::path::{Path, PathBuf};
    use std::str::FromStr;
    use std::time::SystemTime;
    pub struct SignedTxsWAL { pub path: PathBuf }
    pub struct ConsensusWal { pub path: PathBuf }
    fn io<T>(r: std::io::Result<T>) -> ProtocolResult<T> {
        match r {
            Ok(v) => Ok(v),
            Err(_) => bad(),
        }
    }
    fn there<P: AsRef<Path>>(p: P) -> PathBuf {
        if !p.as_ref().exists() {
            fs::create_dir_all(&p).unwrap();
        }
        p.as_ref().to_path_buf()
    }
    pub fn new_txs<P: AsRef<Path>>(p: P) -> SignedTxsWAL { SignedTxsWAL { path: there(p) } }
    pub fn new<P: AsRef<Path>>(p: P) -> ConsensusWal { ConsensusWal { path: there(p) } }
    fn file(dir: &Path, n: u64, hash: Hash) -> PathBuf {
        let mut p = dir.to_path_buf();
        p.push(n.to_string());
        p.push(format!("{:#x}", hash));
        p.set_extension("txt");
        p
    }
    /// One file per number and digest, whatever was in it before.
    pub fn save(w: &SignedTxsWAL, n: u64, hash: Hash, txs: Vec<SignedTransaction>) -> ProtocolResult<()> {
        let mut p = w.path.clone();
        p.push(n.to_string());
        if !p.exists() {
            io(fs::create_dir(&p))?;
        }
        p.push(format!("{:#x}", hash));
        p.set_extension("txt");
        match fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p) {
            Ok(mut f) => io(f.write_all(BatchSignedTxs(txs).encode_msg()?.as_ref())),
            Err(e) => {
                if e.kind() == ErrorKind::AlreadyExists {
                    Ok(())
                } else {
                    bad()
                }
            }
        }
    }
    pub fn recover(w: &SignedTxsWAL, p: PathBuf) -> ProtocolResult<Vec<SignedTransaction>> {
        let mut f = io(fs::File::open(p))?;
        let mut b = Vec::new();
        io(f.read_to_end(&mut b))?;
        Ok(BatchSignedTxs::decode_msg(Bytes::from(b))?.0)
    }
    pub fn load(w: &SignedTxsWAL, n: u64, hash: Hash) -> ProtocolResult<Vec<SignedTransaction>> {
        let mut p = w.path.clone();
        p.push(n.to_string());
        p.push(format!("{:#x}", hash));
        p.set_extension("txt");
        recover(w, p)
    }
    pub fn load_by_number(w: &SignedTxsWAL, n: u64) -> Vec<SignedTransaction> {
        let mut dir = w.path.clone();
        dir.push(n.to_string());
        match fs::read_dir(dir) {
            Err(_) => Vec::new(),
            Ok(entries) => {
                let mut all = Vec::new();
                for e in entries.flatten() {
                    if let Ok(txs) = recover(w, e.path()) {
                        all.extend(txs);
                    }
                }
                all
            }
        }
    }
    pub fn numbers(w: &SignedTxsWAL) -> ProtocolResult<Vec<u64>> {
        let mut ns = vec![];
        for e in io(fs::read_dir(w.path.clone()))? {
            let e = io(e)?;
            if e.path().is_dir() {
                ns.push(e.file_name().to_str().unwrap().parse().unwrap());
            }
        }
        Ok(ns)
    }
    /// What is not after the number goes.
    pub fn remove(w: &SignedTxsWAL, committed: u64) -> ProtocolResult<()> {
        for e in io(fs::read_dir(&w.path))? {
            let dir = io(e)?.path();
            let name = match dir.file_stem() {
                Some(s) => s.to_os_string().clone(),
                None => return bad(),
            };
            let name = match name.into_string() {
                Ok(s) => s,
                Err(_) => return bad(),
            };
            let n = match name.parse::<u64>() {
                Ok(n) => n,
                Err(_) => return bad(),
            };
            if n <= committed {
                io(fs::remove_dir_all(dir))?;
            }
        }
        Ok(())
    }
    pub fn remove_all(w: &SignedTxsWAL) -> ProtocolResult<()> {
        for n in numbers(w)? {
            remove(w, n)?;
        }
        Ok(())
    }
    pub fn clear(w: &ConsensusWal) -> ProtocolResult<()> {
        let dir = w.path.clone();
        if !dir.exists() {
            return Ok(());
        }
        for e in io(fs::read_dir(dir))? {
            io(fs::remove_file(io(e)?.path()))?;
        }
        Ok(())
    }
    /// A file of its own with a checksum; those before it go when it is complete.
    pub fn update(w: &ConsensusWal, ctx: protocol::traits::Context, info: Bytes) -> ProtocolResult<()> {
        let dir = w.path.clone();
        if !dir.exists() {
            io(fs::create_dir(&dir))?;
        }
        let mut content = BytesMut::new();
        content.put(Hasher::digest(info.clone()).as_bytes());
        content.put(info);
        let (p, now) = loop {
            let now = match SystemTime::now().duration_since(SystemTime::UNIX_EPOCH) {
                Ok(d) => d.as_millis(),
                Err(_) => return bad(),
            };
            let mut p = dir.clone();
            p.push(now.to_string());
            if !p.exists() {
                break (p, now);
            }
        };
        let mut f = match fs::OpenOptions::new().read(true).write(true).create(true).open(p) {
            Ok(f) => f,
            Err(e) => {
                return if e.kind() == ErrorKind::AlreadyExists { Ok(()) } else { bad() };
            }
        };
        io(f.write_all(content.as_ref()))?;
        for e in io(fs::read_dir(dir))? {
            let e = io(e)?;
            let name = match e.file_name().to_str() {
                Some(s) => s.to_owned(),
                None => return bad(),
            };
            let at = match u128::from_str(name.as_str()) {
                Ok(at) => at,
                Err(_) => return bad(),
            };
            if at < now {
                io(fs::remove_file(e.path()))?;
            }
        }
        Ok(())
    }
    /// The newest file whose checksum is right.
    pub fn newest(w: &ConsensusWal, ctx: protocol::traits::Context) -> ProtocolResult<Bytes> {
        let dir = w.path.clone();
        if !dir.exists() {
            return bad();
        }
        let mut ats = io(fs::read_dir(dir.clone()))?
            .filter_map(|e| {
                let e = e.ok()?;
                let name = e.file_name();
                let name = name.to_str()?;
                u128::from_str(name).ok()
            })
            .collect::<Vec<_>>();
        ats.sort_by_key(|&at| std::cmp::Reverse(at));
        let mut i = 0;
        let found = loop {
            if i >= ats.len() {
                break None;
            }
            let mut p = dir.clone();
            p.push(ats[i].to_string());
            let mut b = Vec::new();
            let mut f = io(fs::File::open(&p))?;
            if f.read_to_end(&mut b).is_err() {
                i += 1;
                continue;
            }
            let mut sum = Bytes::from(b);
            if sum.len() < 32 {
                i += 1;
                continue;
            }
            let content = sum.split_off(32);
            if sum == Hasher::digest(&content).as_bytes() {
                break Some(content);
            }
            i += 1;
        };
        match found {
            Some(c) => Ok(c),
            None => bad(),
        }
    }
}
