//! core/run: how a chain begins, and how a node starts from what it has stored.
use common_config_parser::types::spec::{ChainSpec, InitialAccount};
use common_config_parser::types::{Config, ConfigMempool, ConfigRocksDB};
use common_crypto::{BlsPrivateKey, BlsPublicKey, Secp256k1, Secp256k1PrivateKey, ToPublicKey};
use core_api::{jsonrpc::run_jsonrpc_server, DefaultAPIAdapter};
use core_consensus::message::{
    ChokeMessageHandler, ProposalMessageHandler, PullBlockRpcHandler, PullProofRpcHandler, PullTxsRpcHandler, QCMessageHandler, RemoteHeightMessageHandler, VoteMessageHandler,
};
use core_consensus::status::{CurrentStatus, StatusAgent};
use core_consensus::stop_signal::{StopOpt, StopSignal};
use core_consensus::{util::OverlordCrypto, ConsensusWal, DurationConfig, OverlordConsensus, OverlordConsensusAdapter, OverlordSynchronization, SignedTxsWAL};
use core_db::{RocksAdapter, RocksDB};
use core_executor::system_contract::{self, metadata::MetadataHandle};
use core_executor::{AxonExecutor, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter, MPTTrie, RocksTrieDB};
use core_interoperation::InteroperationImpl;
use core_mempool::{DefaultMemPoolAdapter, MemPoolImpl, NewTxsHandler, PullTxsHandler};
use core_network::{observe_listen_port_occupancy, KeyProvider, NetworkConfig, NetworkService, PeerId, PeerIdExt, SecioKeyPair};
use core_storage::ImplStorage;
use protocol::codec::ProtocolCodec;
use protocol::constants::endpoints;
use protocol::tokio::{self, runtime::Builder as RuntimeBuilder, sync::Mutex as AsyncMutex, time::sleep};
use protocol::traits::{
    Consensus, Context, Executor, Gossip, MemPool, Network, NodeInfo, PeerTrust, ReadOnlyStorage, Rpc, Storage, SynchronizationAdapter,
};
use protocol::types::{
    Account, Block, Bloom, BloomInput, ConsensusValidator, ExecResp, HardforkInfoInner, HasherKeccak, Header, Metadata, Proposal, RichBlock, SignedTransaction, TypesError,
    ValidatorExtend, H256, NIL_DATA, RLP_NULL,
};
use protocol::{lazy::CHAIN_ID, trie, trie::Trie, ProtocolResult};
use std::{collections::HashMap, path::Path, sync::Arc, time::Duration};

use crate::mempool::bad;
use components::storage::DatabaseGroup;
use key_provider::KeyP;

pub mod key_provider {
    use super::*;
    #[derive(Clone)]
    pub enum KeyP<K: KeyProvider> {
        Custom(K),
        Default(SecioKeyPair),
    }
    pub fn sign<K: KeyProvider, T: AsRef<[u8]>>(k: &KeyP<K>, message: T) -> Result<Vec<u8>, core_network::SecioError> {
        match k {
            KeyP::Custom(own) => own.sign_ecdsa(message).map_err(Into::into),
            KeyP::Default(own) => own.sign_ecdsa(message),
        }
    }
    pub fn public<K: KeyProvider>(k: &KeyP<K>) -> Vec<u8> {
        match k {
            KeyP::Custom(own) => own.pubkey(),
            KeyP::Default(own) => own.pubkey(),
        }
    }
    pub fn signed<K: KeyProvider, P: AsRef<[u8]>, T: AsRef<[u8]>, F: AsRef<[u8]>>(k: &KeyP<K>, pubkey: P, message: T, signature: F) -> bool {
        match k {
            KeyP::Custom(own) => own.verify_ecdsa(pubkey, message, signature),
            KeyP::Default(own) => own.verify_ecdsa(pubkey, message, signature),
        }
    }
    #[protocol::async_trait]
    impl<K: KeyProvider> KeyProvider for KeyP<K> {
        type Error = core_network::SecioError;
        async fn sign_ecdsa_async<T: AsRef<[u8]> + Send>(&self, message: T) -> Result<Vec<u8>, Self::Error> { unimplemented!() }
        fn sign_ecdsa<T: AsRef<[u8]>>(&self, message: T) -> Result<Vec<u8>, Self::Error> { unimplemented!() }
        fn pubkey(&self) -> Vec<u8> { unimplemented!() }
        fn verify_ecdsa<P: AsRef<[u8]>, T: AsRef<[u8]>, F: AsRef<[u8]>>(&self, pubkey: P, message: T, signature: F) -> bool { unimplemented!() }
    }
}

pub mod components {
    pub mod storage {
        use super::super::*;
        pub struct DatabaseGroup {
            pub storage:  Arc<ImplStorage<RocksAdapter>>,
            pub trie_db:  Arc<RocksTrieDB>,
            pub inner_db: Arc<RocksDB>,
        }
    }
}

/// One database under everything: a fresh one is created, an old one is opened.
pub fn databases<P: AsRef<Path>>(config: &ConfigRocksDB, path: P, fresh: bool, cache: usize) -> ProtocolResult<DatabaseGroup> {
    let adapter = Arc::new(if fresh { RocksAdapter::new(path, config.clone())? } else { RocksAdapter::open(path, config.clone())? });
    let inner_db = adapter.inner_db();
    let trie_db = Arc::new(RocksTrieDB::new_evm(adapter.inner_db(), cache));
    Ok(DatabaseGroup { storage: Arc::new(ImplStorage::new(adapter, config.cache_size)), trie_db, inner_db })
}

/// The block before anything happened: the header the specification gives, nothing in it.
pub fn genesis_block(spec: &ChainSpec) -> RichBlock {
    RichBlock { block: Block { header: spec.genesis.build_header(), tx_hashes: vec![] }, txs: vec![] }
}

/// Every account of the specification, with its balance and nothing else.
pub fn accounts<D: trie::DB, H: trie::Hasher, T: Trie<D, H>>(mut t: T, list: &[InitialAccount]) -> ProtocolResult<T> {
    for a in list {
        let fresh = Account { nonce: 0u64.into(), balance: a.balance, storage_root: RLP_NULL, code_hash: NIL_DATA };
        let raw = fresh.encode()?;
        t.insert(a.address.as_bytes().to_vec(), raw.to_vec())?;
    }
    Ok(t)
}

/// What the genesis block leads to: the accounts, then the system contracts with the metadata and the hardforks, then its transactions, none of which may fail.
pub fn genesis_state(rich: &RichBlock, db: &DatabaseGroup, list: &[InitialAccount], metadata: &[Metadata], hardfork: HardforkInfoInner) -> ProtocolResult<ExecResp> {
    let root = accounts(MPTTrie::new(Arc::clone(&db.trie_db)), list).expect("insert accounts").commit()?;
    let before = Proposal::new_without_state_root(&rich.block.header);
    let mut backend = AxonExecutorApplyAdapter::from_root(root, Arc::clone(&db.trie_db), Arc::clone(&db.storage), before.into())?;
    system_contract::init(Arc::clone(&db.inner_db), &mut backend, metadata, hardfork)?;
    let resp = AxonExecutor.exec(&mut backend, &rich.txs, &[]);
    for (i, r) in resp.tx_resp.iter().enumerate() {
        if !r.exit_reason.is_succeed() {
            panic!("The {}th tx in genesis execute failed, reason {:?}", i, r.exit_reason);
        }
    }
    Ok(resp)
}

/// The genesis block as it is stored: with the roots and the bloom of what it led to, under the metadata of the specification for the first epoch and the same for the next.
pub async fn genesis(mut rich: RichBlock, spec: &ChainSpec, db: &DatabaseGroup) -> ProtocolResult<RichBlock> {
    let first = spec.params.clone();
    let mut second = first.clone();
    second.epoch = first.epoch + 1;
    second.version.start = first.version.end + 1;
    second.version.end = second.version.start + first.version.end - 1;
    let resp = genesis_state(&rich, db, &spec.accounts, &[first.into(), second.into()], spec.genesis.generate_hardfork_info())?;
    let blooms: Vec<Bloom> = resp.tx_resp.iter().map(|r| Bloom::from(BloomInput::Raw(rlp::encode_list(&r.logs).as_ref()))).collect();
    let header = &mut rich.block.header;
    header.log_bloom = Bloom::from(BloomInput::Raw(rlp::encode_list(&blooms).as_ref()));
    header.state_root = resp.state_root;
    header.receipts_root = resp.receipt_root;
    store(&*db.storage, &rich, &resp).await?;
    Ok(rich)
}

/// The genesis block's proof, block, transactions and receipts.
pub async fn store<S: Storage>(storage: &S, rich: &RichBlock, resp: &ExecResp) -> ProtocolResult<()> {
    let number = rich.block.header.number;
    storage.update_latest_proof(Context::new(), rich.block.header.proof.clone()).await?;
    storage.insert_block(Context::new(), rich.block.clone()).await?;
    storage.insert_transactions(Context::new(), number, rich.txs.clone()).await?;
    storage.insert_receipts(Context::new(), number, rich.generate_receipts_and_logs(resp).0).await
}

/// A chain is begun once, and only where there is none.
pub fn init(config: Config, spec: ChainSpec) -> ProtocolResult<()> {
    let rich = genesis_block(&spec);
    let path = config.data_path_for_rocksdb();
    if path.exists() {
        return bad();
    }
    RuntimeBuilder::new_multi_thread().enable_all().build().expect("new tokio runtime").block_on(async move {
        let db = databases(&config.rocksdb, path, true, config.executor.triedb_cache_size)?;
        genesis(rich, &spec, &db).await
    })?;
    Ok(())
}

/// A node starts from a chain that was begun.
pub fn run<K: KeyProvider>(version: String, config: Config, key: Option<K>, stop: Option<StopOpt>) -> ProtocolResult<()> {
    let path = config.data_path_for_rocksdb();
    if !path.exists() {
        return bad();
    }
    let rt = RuntimeBuilder::new_multi_thread().enable_all().build().expect("new tokio runtime");
    rt.block_on(async move {
        let db = databases(&config.rocksdb, path, false, config.executor.triedb_cache_size)?;
        start(version, config, key, &db, stop).await
    })?;
    rt.shutdown_timeout(Duration::from_secs(1));
    Ok(())
}

/// The operator's proposal of a hardfork: one that has not started, that enables something, and something that is not enabled yet.
pub fn propose(config: Config, info: Option<HardforkInfoInner>) -> ProtocolResult<()> {
    let path = config.data_path_for_rocksdb();
    if !path.exists() {
        return bad();
    }
    RuntimeBuilder::new_multi_thread().enable_all().build().expect("new tokio runtime").block_on(async move {
        let db = databases(&config.rocksdb, path, false, config.executor.triedb_cache_size)?;
        let header = db.storage.get_latest_block(Context::new()).await?.header;
        let metadata = contracts(&db, &header)?;
        metadata.init_hardfork(header.number)?;
        let info = match info {
            Some(i) => i,
            None => return Ok(()),
        };
        if info.block_number <= header.number {
            return bad();
        }
        if info.flags == H256::zero() {
            return Ok(());
        }
        let known = metadata.hardfork_infos()?;
        match known.inner.last() {
            Some(now) if now.flags & info.flags == info.flags => Ok(()),
            _ => {
                db.storage.set_hardfork_proposal(Context::new(), info).await?;
                Ok(())
            }
        }
    })
}

/// The system contracts' database is opened at the latest state, and the metadata is read from that state.
pub fn contracts(db: &DatabaseGroup, header: &Header) -> ProtocolResult<MetadataHandle> {
    let mut backend = AxonExecutorApplyAdapter::from_root(header.state_root, Arc::clone(&db.trie_db), Arc::clone(&db.storage), Proposal::new_without_state_root(header).into())?;
    system_contract::init_system_contract_db(Arc::clone(&db.inner_db), &mut backend);
    let view = AxonExecutorReadOnlyAdapter::from_root(header.state_root, Arc::clone(&db.trie_db), Arc::clone(&db.storage), Proposal::new_without_state_root(header).into())?;
    Ok(MetadataHandle::new(view.get_metadata_root()))
}

pub fn network<K: KeyProvider>(config: &Config, chain_id: u64, key: Option<K>) -> ProtocolResult<NetworkService<KeyP<K>>> {
    let network = NetworkConfig::from_config(config, chain_id)?;
    let key = match key {
        Some(k) => KeyP::Custom(k),
        None => KeyP::Default(network.secio_keypair.clone()),
    };
    Ok(NetworkService::new(network, key))
}

pub type Pool<N, S, DB> = MemPoolImpl<DefaultMemPoolAdapter<Secp256k1, N, S, DB, InteroperationImpl>>;

/// The pool begins with the transactions given to it.
pub async fn pool<N, S, DB>(config: &ConfigMempool, header: &Header, storage: &Arc<S>, trie_db: &Arc<DB>, network: &N, txs: &[SignedTransaction]) -> Arc<Pool<N, S, DB>>
where
    N: Rpc + PeerTrust + Gossip + Clone + Unpin + 'static,
    S: Storage + 'static,
    DB: trie::DB + Send + Sync + 'static,
{
    let size = config.pool_size as usize;
    let adapter = DefaultMemPoolAdapter::<Secp256k1, _, _, _, InteroperationImpl>::new(
        network.clone(), Arc::clone(storage), Arc::clone(trie_db), header.chain_id, size, config.broadcast_txs_size, config.broadcast_txs_interval);
    let pool = Arc::new(MemPoolImpl::new(size, config.timeout_gap, adapter, txs.to_vec()).await);
    let watched = Arc::clone(&pool);
    tokio::spawn(async move {
        loop {
            sleep(Duration::from_millis(1000)).await;
            common_apm::metrics::mempool::MEMPOOL_LEN_GAUGE.set(watched.len() as i64);
            common_apm::metrics::mempool::MEMPOOL_CO_QUEUE_LEN.set(watched.len() as i64);
        }
    });
    pool
}

/// The node's own key, and every validator's by its address (the public key it signs with).
pub fn crypto(privkey: &[u8], validators: &[ValidatorExtend]) -> ProtocolResult<Arc<OverlordCrypto>> {
    let own = BlsPrivateKey::try_from(privkey).map_err(|_| TypesError::LengthMismatch { expect: 0, real: 0 })?;
    let mut keys = HashMap::new();
    for v in validators {
        let key = BlsPublicKey::try_from(v.bls_pub_key.as_bytes().as_ref()).map_err(|_| TypesError::LengthMismatch { expect: 0, real: 0 })?;
        keys.insert(v.pub_key.as_bytes(), key);
    }
    Ok(Arc::new(OverlordCrypto::new(own, keys, String::new())))
}

/// Where consensus goes on: after the latest block, with its proof.
pub async fn status(storage: &Arc<impl Storage>, block: &Block, metadata: &Metadata) -> ProtocolResult<StatusAgent> {
    let proof = storage.get_latest_proof(Context::new()).await?;
    CHAIN_ID.swap(Arc::new(block.header.chain_id));
    Ok(StatusAgent::new(CurrentStatus {
        last_number: block.header.number,
        last_state_root: block.header.state_root,
        prev_hash: block.hash(),
        proof,
        max_tx_size: metadata.consensus_config.max_tx_size.into(),
        tx_num_limit: metadata.consensus_config.tx_num_limit,
    }))
}

/// Consensus runs with the metadata's timing, after the latest block, among the validators.
pub fn consensus<M, N, S, DB>(metadata: Metadata, validators: Vec<ConsensusValidator>, block: Block, overlord: Arc<OverlordConsensus<OverlordConsensusAdapter<M, N, S, DB>>>)
where
    M: MemPool,
    N: Rpc + PeerTrust + Gossip + Network + 'static,
    S: Storage,
    DB: trie::DB + Send + Sync,
{
    let c = metadata.consensus_config;
    let ratios = DurationConfig { propose_ratio: c.propose_ratio, prevote_ratio: c.prevote_ratio, precommit_ratio: c.precommit_ratio, brake_ratio: c.brake_ratio };
    tokio::spawn(async move {
        if let Err(e) = overlord.run(block.header.number, c.interval, validators, Some(ratios)).await {
            log(e);
        }
    });
}
fn log<E>(_: E) {}

/// Which message goes to whom.
pub fn mempool_endpoints<K: KeyProvider>(n: &mut NetworkService<K>, mempool: &Arc<impl MemPool + 'static>) -> ProtocolResult<()> {
    n.register_endpoint_handler(endpoints::END_GOSSIP_NEW_TXS, NewTxsHandler::new(Arc::clone(mempool)))?;
    n.register_endpoint_handler(endpoints::RPC_PULL_TXS, PullTxsHandler::new(Arc::new(n.handle()), Arc::clone(mempool)))
}
pub fn consensus_endpoints<K: KeyProvider>(n: &mut NetworkService<K>, overlord: &Arc<impl Consensus + 'static>) -> ProtocolResult<()> {
    n.register_endpoint_handler(endpoints::END_GOSSIP_SIGNED_PROPOSAL, ProposalMessageHandler::new(Arc::clone(overlord)))?;
    n.register_endpoint_handler(endpoints::END_GOSSIP_AGGREGATED_VOTE, QCMessageHandler::new(Arc::clone(overlord)))?;
    n.register_endpoint_handler(endpoints::END_GOSSIP_SIGNED_VOTE, VoteMessageHandler::new(Arc::clone(overlord)))?;
    n.register_endpoint_handler(endpoints::END_GOSSIP_SIGNED_CHOKE, ChokeMessageHandler::new(Arc::clone(overlord)))
}
pub fn sync_endpoints<K: KeyProvider>(n: &mut NetworkService<K>, sync: &Arc<OverlordSynchronization<impl SynchronizationAdapter + 'static>>) -> ProtocolResult<()> {
    n.register_endpoint_handler(endpoints::BROADCAST_HEIGHT, RemoteHeightMessageHandler::new(Arc::clone(sync)))
}
pub fn storage_endpoints<K: KeyProvider>(n: &mut NetworkService<K>, storage: &Arc<ImplStorage<RocksAdapter>>) -> ProtocolResult<()> {
    let h = Arc::new(n.handle());
    n.register_endpoint_handler(endpoints::RPC_SYNC_PULL_BLOCK, PullBlockRpcHandler::new(Arc::clone(&h), Arc::clone(storage)))?;
    n.register_endpoint_handler(endpoints::RPC_SYNC_PULL_PROOF, PullProofRpcHandler::new(Arc::clone(&h), Arc::clone(storage)))?;
    n.register_endpoint_handler(endpoints::RPC_SYNC_PULL_TXS, PullTxsRpcHandler::new(Arc::clone(&h), Arc::clone(storage)))
}
pub fn responses<K: KeyProvider>(n: &mut NetworkService<K>) -> ProtocolResult<()> {
    n.register_rpc_response(endpoints::RPC_RESP_PULL_TXS)?;
    n.register_rpc_response(endpoints::RPC_RESP_PULL_TXS_SYNC)?;
    n.register_rpc_response(endpoints::RPC_RESP_SYNC_PULL_BLOCK)?;
    n.register_rpc_response(endpoints::RPC_RESP_SYNC_PULL_PROOF)?;
    n.register_rpc_response(endpoints::RPC_RESP_SYNC_PULL_TXS)
}
/// The validators' peers are the consensus peers.
pub fn tag_peers<K: KeyProvider>(n: &NetworkService<K>, validators: &[ValidatorExtend]) -> ProtocolResult<()> {
    let ids = validators.iter().map(|v| Ok(PeerId::from_pubkey_bytes(v.pub_key.as_bytes())?.into_bytes_ext())).collect::<Result<Vec<_>, core_network::NetworkError>>().unwrap();
    n.handle().tag_consensus(Context::new(), ids)
}

/// The services, in the order they need each other, each from the latest block.
pub async fn start<K: KeyProvider>(version: String, config: Config, key: Option<K>, db: &DatabaseGroup, stop: Option<StopOpt>) -> ProtocolResult<()> {
    observe_listen_port_occupancy(&[config.network.listening_address.clone()]).await?;
    let block = db.storage.get_latest_block(Context::new()).await?;
    let header = &block.header;

    let (stop_tx, stop_rx) = tokio::sync::oneshot::channel::<()>();
    let signal = match stop {
        None => StopSignal::new(stop_tx),
        Some(StopOpt::MineToHeight(height)) => StopSignal::with_stop_at(stop_tx, height),
        Some(StopOpt::MineNBlocks(n)) => StopSignal::with_stop_at(stop_tx, header.number + n),
    };
    let mut net = network(&config, header.chain_id, key)?;
    let path = match config.data_path_for_txs_wal().to_str() {
        Some(p) => p.to_owned(),
        None => return bad(),
    };
    let wal = Arc::new(SignedTxsWAL::new(path));

    let mut backend = AxonExecutorApplyAdapter::from_root(header.state_root, Arc::clone(&db.trie_db), Arc::clone(&db.storage), Proposal::new_without_state_root(header).into())?;
    system_contract::init_system_contract_db(Arc::clone(&db.inner_db), &mut backend);

    let again = wal.load_by_number(header.number + 1);
    let mempool = pool(&config.mempool, header, &db.storage, &db.trie_db, &net.handle(), &again).await;
    let view = AxonExecutorReadOnlyAdapter::from_root(header.state_root, Arc::clone(&db.trie_db), Arc::clone(&db.storage), Proposal::new_without_state_root(header).into())?;
    let handle = MetadataHandle::new(view.get_metadata_root());
    handle.init_hardfork(header.number)?;
    let metadata = handle.get_metadata_by_block_number(header.number)?;
    let validators: Vec<ConsensusValidator> = metadata.verifier_list.iter().map(Into::into).collect();
    mempool.set_args(Context::new(), header.state_root, metadata.consensus_config.gas_limit, metadata.consensus_config.max_tx_size);

    let lock = Arc::new(AsyncMutex::new(()));
    let keys = crypto(config.bls_privkey.as_ref(), &metadata.verifier_list)?;
    let adapter = Arc::new(OverlordConsensusAdapter::<_, _, _, _>::new(
        Arc::new(net.handle()), Arc::clone(&mempool), Arc::clone(&db.storage), Arc::clone(&db.trie_db), Arc::clone(&keys))?);
    let agent = status(&db.storage, &block, &metadata).await?;
    let proposed = db.storage.hardfork_proposal(Context::new()).await?;
    let own = match Secp256k1PrivateKey::try_from(config.net_privkey.as_ref()) {
        Ok(k) => NodeInfo::new(header.chain_id, k.pub_key(), proposed),
        Err(_) => return bad(),
    };
    let overlord = Arc::new(OverlordConsensus::new(
        agent.clone(), own, Arc::clone(&keys), Arc::clone(&wal), Arc::clone(&adapter), Arc::clone(&lock), Arc::new(ConsensusWal::new(config.data_path_for_consensus_wal())), signal).await);
    adapter.set_overlord_handler(overlord.get_overlord_handler());
    let sync = Arc::new(OverlordSynchronization::<_>::new(config.sync.sync_txs_chunk_size, adapter, agent.clone(), lock));

    tag_peers(&net, &metadata.verifier_list)?;
    mempool_endpoints(&mut net, &mempool)?;
    consensus_endpoints(&mut net, &overlord)?;
    sync_endpoints(&mut net, &sync)?;
    storage_endpoints(&mut net, &db.storage)?;
    responses(&mut net)?;
    let net_handle = net.handle();
    tokio::spawn(net.run());
    let api = Arc::new(DefaultAPIAdapter::new(Arc::clone(&mempool), Arc::clone(&db.storage), Arc::clone(&db.trie_db), Arc::new(net_handle)));
    let _servers = run_jsonrpc_server(version, config, api).await?;
    tokio::spawn(async move {
        if let Err(e) = sync.polling_broadcast().await {
            log(e);
        }
    });
    consensus(metadata, validators, block, overlord);
    tokio::select! {
        () = stopped() => {}
        _ = stop_rx => {}
    }
    Ok(())
}
async fn stopped() {}
