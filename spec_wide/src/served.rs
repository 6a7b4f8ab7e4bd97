//! core/api: under which name a client reaches what, and which servers there are.
use crate::api::{axon::AxonRpcImpl, ckb_light_client::CkbLightClientRpcImpl, node::NodeRpcImpl, web3::Web3RpcImpl};
use crate::filters::filter::{AxonWeb3RpcFilter, FilterHub};
use crate::filters::ws_subscription::{HexIdProvider, RawHub, Subscription};
use common_config_parser::types::Config;
use core_api::jsonrpc::{AxonNodeRpcServer, AxonRpcServer, CkbLightClientRpcServer, Web3FilterServer, Web3RpcServer};
use hyper::{header::CONTENT_TYPE, Method};
use jsonrpsee::server::{RpcModule, ServerBuilder, ServerHandle};
use protocol::tokio::{self, sync::mpsc};
use protocol::traits::APIAdapter;
use protocol::types::TypesError;
use protocol::ProtocolResult;
use std::sync::{atomic::{AtomicBool, AtomicU64}, Arc};
use tower_http::cors::{Any, CorsLayer};

macro_rules! ask {
    ($r:ident, $s:ident, $name:literal, $m:ident) => { let _ = $r.register_async_method($name, |_params, ctx| async move { $s::$m(ctx.as_ref()).await }); };
    ($r:ident, $s:ident, $name:literal, $m:ident, $($n:ident)+) => {
        let _ = $r.register_async_method($name, |params, ctx| async move {
            let mut given = params.sequence();
            $s::$m(ctx.as_ref(), $(match given.$n() { Ok(v) => v, Err(e) => return Err(e) }),+).await
        });
    };
}
macro_rules! tell {
    ($r:ident, $s:ident, $name:literal, $m:ident) => { let _ = $r.register_method($name, |_params, ctx| $s::$m(ctx)); };
    ($r:ident, $s:ident, $name:literal, $m:ident, $($n:ident)+) => {
        let _ = $r.register_method($name, |params, ctx| {
            let mut given = params.sequence();
            $s::$m(ctx, $(match given.$n() { Ok(v) => v, Err(e) => return Err(e) }),+)
        });
    };
}

pub fn web3<S: Web3RpcServer>(s: S) -> RpcModule<S> {
    let mut r = RpcModule::new(s);
    ask!(r, S, "eth_sendRawTransaction", send_raw_transaction, next);
    ask!(r, S, "eth_getTransactionByHash", get_transaction_by_hash, next);
    ask!(r, S, "eth_getBlockByNumber", get_block_by_number, next next);
    ask!(r, S, "eth_getBlockByHash", get_block_by_hash, next next);
    ask!(r, S, "eth_blockNumber", block_number);
    ask!(r, S, "eth_getTransactionCount", get_transaction_count, next optional_next);
    ask!(r, S, "eth_getBlockTransactionCountByNumber", get_block_transaction_count_by_number, next);
    ask!(r, S, "eth_getBalance", get_balance, next optional_next);
    ask!(r, S, "eth_call", call, next optional_next);
    ask!(r, S, "eth_estimateGas", estimate_gas, next optional_next);
    ask!(r, S, "eth_getCode", get_code, next optional_next);
    ask!(r, S, "eth_getTransactionReceipt", get_transaction_receipt, next);
    ask!(r, S, "eth_gasPrice", gas_price);
    ask!(r, S, "eth_getLogs", get_logs, next);
    ask!(r, S, "eth_feeHistory", fee_history, next next optional_next);
    ask!(r, S, "eth_accounts", accounts);
    ask!(r, S, "eth_getBlockTransactionCountByHash", get_block_transaction_count_by_hash, next);
    ask!(r, S, "eth_getTransactionByBlockHashAndIndex", get_transaction_by_block_hash_and_index, next next);
    ask!(r, S, "eth_getTransactionByBlockNumberAndIndex", get_transaction_by_block_number_and_index, next next);
    ask!(r, S, "net_peerCount", peer_count);
    ask!(r, S, "eth_getStorageAt", get_storage_at, next next optional_next);
    ask!(r, S, "eth_protocolVersion", protocol_version);
    ask!(r, S, "eth_getUncleByBlockHashAndIndex", get_uncle_by_block_hash_and_index, next next);
    ask!(r, S, "eth_getUncleByBlockNumberAndIndex", get_uncle_by_block_number_and_index, next next);
    ask!(r, S, "eth_getUncleCountByBlockHash", get_uncle_count_by_block_hash, next);
    ask!(r, S, "eth_getUncleCountByBlockNumber", get_uncle_count_by_block_number, next);
    ask!(r, S, "eth_getProof", get_proof, next next next);
    r
}
pub fn filters<S: Web3FilterServer>(s: S) -> RpcModule<S> {
    let mut r = RpcModule::new(s);
    ask!(r, S, "eth_newFilter", new_filter, next);
    ask!(r, S, "eth_newBlockFilter", block_filter);
    ask!(r, S, "eth_getFilterLogs", get_filter_logs, next);
    ask!(r, S, "eth_getFilterChanges", get_filter_changes, next);
    ask!(r, S, "eth_uninstallFilter", uninstall_filter, next);
    r
}
pub fn node<S: AxonNodeRpcServer>(s: S) -> RpcModule<S> {
    let mut r = RpcModule::new(s);
    tell!(r, S, "eth_chainId", chain_id);
    tell!(r, S, "net_version", net_version);
    tell!(r, S, "web3_clientVersion", client_version);
    tell!(r, S, "net_listening", listening);
    tell!(r, S, "eth_syncing", syncing);
    tell!(r, S, "eth_mining", mining);
    tell!(r, S, "eth_coinbase", coinbase);
    tell!(r, S, "eth_hashrate", hashrate);
    tell!(r, S, "eth_submitWork", submit_work, next next next);
    tell!(r, S, "eth_submitHashrate", submit_hashrate, next next);
    tell!(r, S, "web3_sha3", sha3, next);
    tell!(r, S, "pprof", pprof, next);
    r
}
pub fn axon<S: AxonRpcServer>(s: S) -> RpcModule<S> {
    let mut r = RpcModule::new(s);
    ask!(r, S, "axon_getBlockById", get_block_by_id, next);
    ask!(r, S, "axon_getProofById", get_proof_by_id, next);
    ask!(r, S, "axon_getMetadataByNumber", get_metadata_by_number, next);
    ask!(r, S, "axon_getProposalByNumber", get_proposal_by_number, next);
    ask!(r, S, "axon_getCurrentMetadata", get_current_metadata);
    ask!(r, S, "axon_getCkbRelatedInfo", get_ckb_related_info);
    ask!(r, S, "axon_getHardforkInfo", hardfork_infos);
    r
}
pub fn ckb_light_client<S: CkbLightClientRpcServer>(s: S) -> RpcModule<S> {
    let mut r = RpcModule::new(s);
    ask!(r, S, "ckb_getBlockHeaderByHash", get_block_header_by_hash, next);
    ask!(r, S, "ckb_getLiveCell", get_cell_info, next next);
    r
}
// the same of the code's types, which cannot be named here
pub mod of {
    use super::*;
    pub fn web3<S>(s: S) -> RpcModule<S> { unimplemented!() }
    pub fn filters<S>(s: S) -> RpcModule<S> { unimplemented!() }
    pub fn node<S>(s: S) -> RpcModule<S> { unimplemented!() }
    pub fn axon<S>(s: S) -> RpcModule<S> { unimplemented!() }
    pub fn ckb_light_client<S>(s: S) -> RpcModule<S> { unimplemented!() }
}

/// The filters live in a task of their own.
pub fn filter_hub<A: APIAdapter + 'static>(adapter: Arc<A>, range: u64) -> AxonWeb3RpcFilter {
    let (sender, recv) = mpsc::channel(128);
    tokio::spawn(crate::filters::filter::run(crate::filters::filter::new(adapter, recv, range)));
    AxonWeb3RpcFilter { sender }
}
/// And so do the subscriptions.
pub async fn subscriptions<A: APIAdapter + 'static>(adapter: Arc<A>) -> RpcModule<mpsc::Sender<RawHub>> {
    let (sender, recv) = mpsc::channel(128);
    tokio::spawn(crate::filters::ws_subscription::run(crate::filters::ws_subscription::new(adapter, recv).await));
    let mut r = RpcModule::new(sender);
    r.register_subscription("eth_subscribe", "eth_subscription", "eth_unsubscribe", crate::filters::ws_subscription::subscribed).unwrap();
    r
}

/// Both servers answer everything within the configured limits; subscriptions need a connection that stays.
pub async fn servers<A: APIAdapter + 'static>(version: String, config: Config, adapter: Arc<A>) -> ProtocolResult<(Option<ServerHandle>, Option<ServerHandle>)> {
    let (limits, range) = (&config.rpc, config.web3.log_filter_max_block_range);
    let mut all = of::web3(Web3RpcImpl { adapter: Arc::clone(&adapter), max_gas_cap: config.web3.max_gas_cap.into(), log_filter_max_block_range: range });
    let node = of::node(NodeRpcImpl { version, pprof: Arc::new(AtomicBool::new(false)), _path: config.data_path.join("api") });
    let axon = of::axon(AxonRpcImpl { adapter: Arc::clone(&adapter) });
    let filter = of::filters(filter_hub(Arc::clone(&adapter), range));
    let ckb = of::ckb_light_client(CkbLightClientRpcImpl { adapter: Arc::clone(&adapter) });
    all.merge(node).unwrap();
    all.merge(axon).unwrap();
    all.merge(filter).unwrap();
    all.merge(ckb).unwrap();
    let http = match limits.http_listening_address {
        Some(at) => {
            let anyone = CorsLayer::new().allow_methods([Method::GET, Method::POST, Method::OPTIONS]).allow_origin(Any).allow_headers([CONTENT_TYPE]);
            let server = ServerBuilder::new().http_only()
                .max_request_body_size(limits.max_payload_size).max_response_body_size(limits.max_payload_size).max_connections(limits.maxconn)
                .set_middleware(tower::ServiceBuilder::new().layer(anyone)).build(at).await;
            match server {
                Ok(s) => Some(s.start(all.clone())),
                Err(_) => return bad(),
            }
        }
        None => None,
    };
    let ws = match limits.ws_listening_address {
        Some(at) => {
            let server = ServerBuilder::new().ws_only()
                .max_request_body_size(limits.max_payload_size).max_response_body_size(limits.max_payload_size).max_connections(limits.maxconn)
                .set_id_provider(HexIdProvider { id: AtomicU64::new(0) }).build(at).await;
            let server = match server {
                Ok(s) => s,
                Err(_) => return bad(),
            };
            all.merge(subscriptions(adapter).await).unwrap();
            Some(server.start(all))
        }
        None => None,
    };
    Ok((http, ws))
}
fn bad<T>() -> ProtocolResult<T> { Err(TypesError::LengthMismatch { expect: 0, real: 0 }.into()) }
